// Paths, files and directories; logs, timers and counters.
// modules: sys
#include "common.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>

// The calls that change the file system go through these stand-ins: while a case runs, they refuse (and report) every path outside the
// case's directory, and the shell runs in an empty directory of the case.
namespace {
bool g_guard = false;
std::string g_root, g_outside, g_shell_dir;

bool inside(const char* call, const char* path) {
	if (!g_guard) return true;
	std::string p = path;
	if (p.compare(0, g_root.size(), g_root) == 0 && p.find("/../") == std::string::npos && p.size() > g_root.size()) return true;
	g_outside = std::string(call) + "(" + p.substr(0, 300) + ")";
	errno = EACCES;
	return false;
}
long long g_time_us = -1;
}

extern "C" int remove(const char* path) noexcept {
	if (!inside("remove", path)) return -1;
	struct stat st;
	if (lstat(path, &st)) return -1;
	return S_ISDIR(st.st_mode) ? (int)syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR) : (int)syscall(SYS_unlinkat, AT_FDCWD, path, 0);
}
extern "C" int unlink(const char* path) noexcept {
	return inside("unlink", path) ? (int)syscall(SYS_unlinkat, AT_FDCWD, path, 0) : -1;
}
extern "C" int rmdir(const char* path) noexcept {
	return inside("rmdir", path) ? (int)syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR) : -1;
}
extern "C" int rename(const char* from, const char* to) noexcept {
	return inside("rename", from) && inside("rename", to) ? (int)syscall(SYS_renameat2, AT_FDCWD, from, AT_FDCWD, to, 0) : -1;
}
extern "C" int mkdir(const char* path, mode_t mode) noexcept {
	return inside("mkdir", path) ? (int)syscall(SYS_mkdirat, AT_FDCWD, path, mode) : -1;
}
extern "C" int system(const char* command) {
	if (strncmp(command, "cp ", 3) != 0 && strncmp(command, "mv ", 3) != 0) {
		g_outside = std::string("system(") + command + ")";
		return -1;
	}
	pid_t pid = fork();
	if (pid == 0) {
		if (chdir(g_shell_dir.c_str())) _exit(126);
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 1);
		dup2(fd, 2);
		execl("/bin/sh", "sh", "-c", command, (char*)0);
		_exit(127);
	}
	int status = -1;
	waitpid(pid, &status, 0);
	return status;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
	if (g_time_us < 0) {
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
	} else {
		tv->tv_sec = g_time_us / 1000000;
		tv->tv_usec = g_time_us % 1000000;
	}
	return 0;
}
extern "C" time_t time(time_t* out) noexcept {
	struct timeval tv;
	gettimeofday(&tv, NULL);
	if (out) *out = tv.tv_sec;
	return tv.tv_sec;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (g_time_us < 0 || id != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = g_time_us / 1000000;
	ts->tv_nsec = g_time_us % 1000000 * 1000;
	return 0;
}

namespace {
struct Guard {
	Guard(const std::string& root) {
		g_root = root;
		g_outside.clear();
		g_guard = true;
	}
	~Guard() { g_guard = false; }
};

std::string quoted(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c >= 32 && c < 127) r += (char)c; else r += pbt::strf("\\x%02x", c);
		if (r.size() > 200) { r += "..."; break; }
	}
	return r + "\"";
}

// ------------------------------------------------------------------------------------------------- trees
struct Node {
	char kind;			// 'd', 'f' or 'l'
	std::string data;	// content or target
	bool operator==(const Node& o) const { return kind == o.kind && data == o.data; }
};
typedef std::map<std::string, Node> Tree;	// path below the root, directories without the slash

void walk(const std::string& root, const std::string& sub, Tree& t) {
	DIR* d = opendir((root + sub).c_str());
	if (!d) return;
	while (dirent* e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string p = sub + n, full = root + p;
		struct stat st;
		if (lstat(full.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) {
			t[p] = Node{'d', ""};
			walk(root, p + "/", t);
		} else if (S_ISLNK(st.st_mode)) {
			char b[4096];
			ssize_t k = readlink(full.c_str(), b, sizeof(b));
			t[p] = Node{'l', std::string(b, k < 0 ? 0 : k)};
		} else {
			std::string c;
			int fd = open(full.c_str(), O_RDONLY);
			char b[65536];
			ssize_t k;
			while (fd >= 0 && (k = read(fd, b, sizeof(b))) > 0) c.append(b, k);
			if (fd >= 0) close(fd);
			t[p] = Node{'f', c};
		}
	}
	closedir(d);
}

void wipe(const std::string& dir) {
	DIR* d = opendir(dir.c_str());
	if (!d) return;
	while (dirent* e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		std::string full = dir + n;
		struct stat st;
		if (lstat(full.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) {
			wipe(full + "/");
			syscall(SYS_unlinkat, AT_FDCWD, full.c_str(), AT_REMOVEDIR);
		} else {
			syscall(SYS_unlinkat, AT_FDCWD, full.c_str(), 0);
		}
	}
	closedir(d);
}

void spew(const std::string& path, const std::string& b) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) pbt::fail("harness: cannot write %s", path.c_str());
	close(fd);
}

std::string show(const Tree& t) {
	std::string r;
	for (auto& e : t) r += (r.empty() ? "" : ", ") + quoted(e.first) + (e.second.kind == 'd' ? "/" : e.second.kind == 'l' ? "@" : "=" + quoted(e.second.data.substr(0, 20)));
	return "{" + r.substr(0, 1500) + "}";
}

std::string gen_name(pbt::Src& s) {
	static const std::vector<std::string> stems = {"a", "b", "A", "x.txt", ".txt", "txt", "a.txt", "a.txt.txt", "b.TXT", "a.tx", "t", "xt",
		"a b", "it's", "$1", "a*", "(x)", "-r", "..a", "a.b.c", "x'y'z", "~", "# 1", "\"q\""};
	if (s.chance(1, 6)) {
		std::string r;
		int n = (int)s.range(1, s.chance(1, 5) ? 200 : 6);
		for (int i = 0; i < n; ++i) r += s.pick<char>({'a', '.', 't', 'X', ' ', '\'', '$', '*', '-'});
		if (r == "." || r == "..") r = "a";
		return r;
	}
	return s.pick(stems);
}

std::string gen_ext(pbt::Src& s) { return s.pick<std::string>({"", ".txt", "txt", ".TXT", "t", ".", "a.txt", "b", ".txt.txt", "abcd", ".tx"}); }

std::string parent_of(const std::string& p) {
	size_t i = p.rfind('/');
	return i == std::string::npos ? "" : p.substr(0, i + 1);
}
std::string base_of(const std::string& p) {
	size_t i = p.rfind('/');
	return i == std::string::npos ? p : p.substr(i + 1);
}
bool below(const std::string& p, const std::string& dir_slash) { return p.size() > dir_slash.size() && p.compare(0, dir_slash.size(), dir_slash) == 0; }

std::string lower_ascii(std::string s) {
	for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
	return s;
}

void check_names(pbt::Src& s) {
	// a path of components with either slash
	std::vector<std::string> parts;
	int n = (int)s.range(1, 4);
	std::string path = s.chance(1, 4) ? "/" : s.chance(1, 6) ? "C:\\" : "", norm;
	bool mixed = s.chance(1, 3);
	size_t name_at = path.size();
	for (int i = 0; i < n; ++i) {
		parts.push_back(gen_name(s));
		name_at = path.size();
		path += parts.back();
		if (i + 1 < n) path += mixed && s.coin() ? "\\" : "/";
	}
	norm = path;
	for (char& c : norm) if (c == '\\') c = '/';
	const std::string& name = parts.back();
	size_t dot = name.rfind('.');
	CHECK_THAT(sys_path::get_file_name(path) == name, "get_file_name(%s) is %s", quoted(path).c_str(), quoted(sys_path::get_file_name(path)).c_str());
	std::string title = sys_path::get_file_title(path);
	CHECK_THAT(title == name.substr(0, dot), "get_file_title(%s) is %s", quoted(path).c_str(), quoted(title).c_str());
	std::string ext = sys_path::get_file_extend_name(path), expect = dot == std::string::npos ? "" : lower_ascii(name.substr(dot));
	CHECK_THAT(ext == expect, "get_file_extend_name(%s) is %s, not %s", quoted(path).c_str(), quoted(ext).c_str(), quoted(expect).c_str());
	CHECK_THAT(!sys_path::is_dir(path), "is_dir(%s)", quoted(path).c_str());
	if (name_at > 0) {
		std::string d = sys_path::get_dir_path(path);
		CHECK_THAT(d == norm.substr(0, name_at), "get_dir_path(%s) is %s", quoted(path).c_str(), quoted(d).c_str());
		CHECK_THAT(d + sys_path::get_file_name(path) == norm, "directory and name of %s do not join", quoted(path).c_str());
	}
	for (const char* slash : {"/", "\\"}) {
		std::string dir = path + slash;
		CHECK_THAT(sys_path::is_dir(dir), "is_dir(%s) is false", quoted(dir).c_str());
		CHECK_THAT(sys_path::get_dir_path(dir) == norm + "/", "get_dir_path(%s) is %s", quoted(dir).c_str(), quoted(sys_path::get_dir_path(dir)).c_str());
		CHECK_THAT(sys_path::get_dir_name(dir) == name, "get_dir_name(%s) is %s", quoted(dir).c_str(), quoted(sys_path::get_dir_name(dir)).c_str());
		CHECK_THAT(sys_path::get_file_name(dir).empty() && sys_path::get_file_title(dir).empty() && sys_path::get_file_extend_name(dir).empty(), "%s has a file name", quoted(dir).c_str());
	}
	CHECK_THAT(sys_path::get_file_name("").empty() && sys_path::get_file_title("").empty() && sys_path::get_file_extend_name("").empty()
		&& sys_path::get_dir_name("").empty() && sys_path::get_dir_path("").empty() && !sys_path::is_dir(""), "parts of the empty path");
}

struct Fs {
	std::string root;	// with slash
	Tree tree;
	std::vector<std::string> dirs() const {
		std::vector<std::string> r = {""};
		for (auto& e : tree) if (e.second.kind == 'd') r.push_back(e.first + "/");
		return r;
	}
	std::vector<std::string> of(const char* kinds) const {
		std::vector<std::string> r;
		for (auto& e : tree) if (strchr(kinds, e.second.kind)) r.push_back(e.first);
		return r;
	}
	// exists when links are followed
	bool exists(const std::string& p) const {
		auto it = tree.find(p);
		return it != tree.end();
	}
	void erase_tree(const std::string& dir_slash) {
		for (auto it = tree.begin(); it != tree.end();) it = below(it->first, dir_slash) ? tree.erase(it) : std::next(it);
	}
	bool has_children(const std::string& dir_slash) const {
		for (auto& e : tree) if (below(e.first, dir_slash)) return true;
		return false;
	}
};

std::string path_step(pbt::Src& s, Fs& fs) {
	std::vector<std::string> dirs = fs.dirs();
	switch (s.weighted({4, 5, 4, 2, 2, 2, 3, 3, 2, 1})) {
	case 0: {	// a file by the harness
		std::string p = s.pick(dirs) + gen_name(s);
		if (fs.tree.count(p)) throw pbt::Discard();
		std::string c = s.chance(1, 4) ? std::string(s.draw(100000), (char)('a' + s.draw(26))) : std::to_string(s.draw(1000));
		spew(fs.root + p, c);
		fs.tree[p] = Node{'f', c};
		return "file " + p;
	}
	case 1: {	// create_multi_dir
		std::string p = s.pick(dirs);
		int n = (int)s.range(1, s.chance(1, 6) ? 9 : 3);
		bool slash = s.coin(), bad = false, longer = s.chance(1, 10);
		std::vector<std::string> made;
		std::string q = p;
		for (int i = 0; i < n; ++i) {
			std::string name = longer ? std::string(200 + s.draw(40), (char)('a' + s.draw(3))) : gen_name(s);
			if (q.size() + name.size() > 2500) break;
			q += (i ? "/" : "") + name;
			auto it = fs.tree.find(q);
			if (it == fs.tree.end()) {
				if (!bad) made.push_back(q);
			} else if (it->second.kind == 'l') {
				throw pbt::Discard();
			} else if (it->second.kind == 'f') {
				if (i + 1 == n && !slash && !bad) throw pbt::Discard();	// a file of that name exists: not specified
				bad = true;
			}
		}
		if (bad && !made.empty()) throw pbt::Discard();
		bool res = sys_path::create_multi_dir(fs.root + q + (slash ? "/" : ""));
		CHECK_THAT(g_outside.empty(), "create_multi_dir(<root>/%s) calls %s", q.c_str(), g_outside.c_str());
		CHECK_THAT(res == !bad, "create_multi_dir(<root>/%s) returns %d", quoted(q).c_str(), (int)res);
		for (auto& m : made) fs.tree[m] = Node{'d', ""};
		if (!bad && made.size() > 1) s.label("nested directories created");
		if (bad) s.label("directory below a file");
		if (longer) s.label("long path");
		return "create_multi_dir " + q;
	}
	case 2: {	// listings
		std::string d = s.pick(dirs), ext = gen_ext(s);
		vector<string> paths(1, "old"), names(1, "old"), subs(1, "old");
		sys_path::get_file_path(paths, fs.root + d, ext);
		sys_path::get_file_name(names, fs.root + d, ext);
		sys_path::get_dir_path(subs, fs.root + d);
		std::vector<std::string> ep, en, es;
		for (auto& e : fs.tree) {
			if (parent_of(e.first) != d) continue;
			std::string b = base_of(e.first);
			if (e.second.kind == 'd') {
				es.push_back(fs.root + e.first + "/");
			} else if (b.size() >= ext.size() && b.substr(b.size() - ext.size()) == ext) {
				ep.push_back(fs.root + e.first);
				en.push_back(b);
			}
		}
		std::sort(paths.begin(), paths.end());
		std::sort(names.begin(), names.end());
		std::sort(subs.begin(), subs.end());
		std::sort(ep.begin(), ep.end());
		std::sort(en.begin(), en.end());
		std::sort(es.begin(), es.end());
		CHECK_THAT(paths == ep, "get_file_path(%s, %s): %d files, not %d", quoted(d).c_str(), quoted(ext).c_str(), (int)paths.size(), (int)ep.size());
		CHECK_THAT(names == en, "get_file_name(%s, %s): %d names, not %d", quoted(d).c_str(), quoted(ext).c_str(), (int)names.size(), (int)en.size());
		CHECK_THAT(subs == es, "get_dir_path(%s): %d directories, not %d", quoted(d).c_str(), (int)subs.size(), (int)es.size());
		if (ep.size() > 1) s.label("several files listed");
		vector<string> none(2, "old");
		sys_path::get_file_path(none, fs.root + "no such directory/", ext);
		CHECK_THAT(none.empty(), "files of a missing directory");
		return "list " + d + " " + ext;
	}
	case 3: {	// delete a file
		std::vector<std::string> f = fs.of("fl");
		std::string p = f.empty() || s.chance(1, 6) ? "missing" : s.pick(f);
		sys_path::delete_file(fs.root + p);
		fs.tree.erase(p);
		return "delete_file " + p;
	}
	case 4: {	// delete a directory
		if (dirs.size() < 2) throw pbt::Discard();
		std::string d = dirs[1 + s.draw(dirs.size() - 1)];
		bool force = s.coin(), full = fs.has_children(d);
		sys_path::delete_dir(fs.root + d, force);
		if (force || !full) {
			fs.erase_tree(d);
			fs.tree.erase(d.substr(0, d.size() - 1));
		}
		s.label(force ? full ? "full directory deleted" : "empty directory deleted" : full ? "full directory kept" : "empty directory deleted");
		return "delete_dir " + d + (force ? " forced" : "");
	}
	case 5: {
		std::string d = s.pick(dirs);
		sys_path::delete_sub_dir(fs.root + d);
		fs.erase_tree(d);
		return "delete_sub_dir " + d;
	}
	case 6: case 7: {	// copy and move files
		bool copy = s.coin(), fail = s.coin();
		std::vector<std::string> f = fs.of("f");
		std::string src = f.empty() || s.chance(1, 8) ? "missing" : s.pick(f);
		bool known = fs.tree.count(src) != 0;
		std::string dst = !f.empty() && s.chance(2, 5) ? s.pick(f) : s.pick(dirs) + gen_name(s);
		if (dst == src) throw pbt::Discard();
		auto it = fs.tree.find(dst);
		if (it != fs.tree.end() && it->second.kind != 'f') throw pbt::Discard();
		bool over = it != fs.tree.end();
		bool expect = known && !(over && fail);
		bool res = copy ? sys_path::copy_file(fs.root + dst, fs.root + src, fail) : sys_path::move_file(fs.root + dst, fs.root + src, fail);
		CHECK_THAT(res == expect, "%s_file(%s, %s, %d) returns %d%s", copy ? "copy" : "move", quoted(dst).c_str(), quoted(src).c_str(), (int)fail, (int)res,
			over ? " (the target exists)" : "");
		if (expect) {
			fs.tree[dst] = fs.tree[src];
			if (!copy) fs.tree.erase(src);
			s.label(over ? "file replaced" : copy ? "file copied" : "file moved");
		} else if (over && known) {
			s.label("existing file kept");
		}
		return std::string(copy ? "copy " : "move ") + src + " to " + dst;
	}
	case 8: {
		std::string p = s.coin() ? s.pick(dirs) + gen_name(s) : fs.tree.empty() ? "" : std::next(fs.tree.begin(), s.draw(fs.tree.size()))->first;
		auto it = fs.tree.find(p);
		if (it != fs.tree.end() && it->second.kind == 'l') return "nothing";	// follows the link
		bool e = p.empty() || it != fs.tree.end();
		CHECK_THAT(sys_path::is_exist(fs.root + p) == e, "is_exist(%s) is %d", quoted(p).c_str(), (int)!e);
		return "is_exist " + p;
	}
	default: {	// a link to a directory or a file, by the harness
		std::string p = s.pick(dirs) + gen_name(s);
		if (fs.tree.count(p) || fs.tree.empty()) throw pbt::Discard();
		auto t = std::next(fs.tree.begin(), s.draw(fs.tree.size()));
		std::string target = fs.root + t->first;
		if (symlink(target.c_str(), (fs.root + p).c_str())) throw pbt::Discard();
		fs.tree[p] = Node{'l', target};
		s.label("link");
		return "link " + p + " to " + t->first;
	}
	}
}

void path_case(pbt::Src& s) {
	for (int i = 0; i < 3; ++i) check_names(s);
	std::string base = pbt::scratch_dir() + "/tree";
	mkdir(base.c_str(), 0755);
	wipe(base + "/");
	g_shell_dir = base + "/shell";
	mkdir(g_shell_dir.c_str(), 0755);
	Fs fs;
	fs.root = base + "/root/";
	mkdir(fs.root.c_str(), 0755);
	Guard guard(fs.root);
	int steps = (int)s.size(1, 30), done = 0;
	for (int i = 0; i < steps; ++i) {
		std::string what;
		try {
			what = path_step(s, fs);
			++done;
		} catch (pbt::Discard&) {
			continue;
		}
		if (s.want_note()) s.note(what.substr(0, 200));
		CHECK_THAT(g_outside.empty(), "%s: calls %s", quoted(what).c_str(), g_outside.c_str());
		Tree now;
		walk(fs.root, "", now);
		CHECK_THAT(now == fs.tree, "after %s: %s, expected %s", quoted(what).c_str(), show(now).c_str(), show(fs.tree).c_str());
	}
	Tree shell;
	walk(g_shell_dir + "/", "", shell);
	CHECK_THAT(shell.empty(), "files appear in the working directory: %s", show(shell).c_str());
	s.nontrivial(done > 4 && fs.tree.size() > 2);
}
}

PROPERTY(C30, 4000, 60000, "more than four steps and more than two entries left",
	"Directory arguments end with a slash; names hold no slash, backslash or newline\n"
	"Moving, copying or making something over a directory or a link, a path without a directory part, and partly created paths are not specified\n"
	"The POSIX branch of sys_path.cpp is what is built here") {
	quiet();
	path_case(src);
}

// ------------------------------------------------------------------------------------------------- logs
namespace {
class list_logger : public basiclog::log_logger {
public:
	list_logger(bool dir, std::vector<std::string>* out, const char* stamp = "T") : basiclog::log_logger(stamp, dir), m_out(out) {}
protected:
	void print(const std::string& log_info) { m_out->push_back(log_info); }
	std::vector<std::string>* m_out;
};

struct Entry {
	std::string level, tag, msg, file;
	int line;
};

std::string gen_msg(pbt::Src& s) {
	switch (s.weighted({4, 3, 2, 2})) {
	case 0: return pbt::strf("m%d", (int)s.draw(1000));
	case 1: return s.pick<std::string>({"", "%s", "100%", "%d %n", "a\nb", "\xc3\xa9", "[x] <y>, z", "{\"a\":1}"});
	case 2: {	// about the size of the pieces
		std::string r = pbt::strf("%d:", (int)s.draw(10));
		r.resize(4900 + s.draw(120), 'p');
		return r;
	}
	default: {
		std::string r;
		int n = (int)s.size(1, 30000);
		for (int i = 0; i < n; ++i) r += (char)('a' + (i * 7 + n) % 26);
		return r;
	}
	}
}

std::string gen_tag(pbt::Src& s) { return s.pick<std::string>({"", "a", "b", "performance", "A", "a b", "%s"}); }

Entry gen_entry(pbt::Src& s) {
	Entry e;
	e.level = s.pick<std::string>({"debug", "info", "warning", "error", "other"});
	e.tag = gen_tag(s);
	e.msg = gen_msg(s);
	e.file = s.pick<std::string>({"/x/y/z.cpp", "z.cpp", "C:\\x\\z.cpp", "/a b/c.h"});
	e.line = (int)s.draw(100000);
	return e;
}

int g_zone = 0;	// hours the local time of the case is ahead

void set_zone(int hours) {
	g_zone = hours;
	setenv("TZ", pbt::strf("XYZ%+d", -hours).c_str(), 1);
	tzset();
}

std::string zone() {
	return pbt::strf(" UTC %s%d", g_zone > 0 ? "+" : "", g_zone);
}

// the local time of the case in a format
std::string stamp_of(const std::string& format) {
	time_t t = g_time_us / 1000000 + g_zone * 3600;
	struct tm tm;
	gmtime_r(&t, &tm);
	char r[1024];
	return std::string(r, strftime(r, sizeof(r), format.c_str(), &tm));
}

// Some instant between 1971 and 2037, often near the end of a day, month or year in some zone
void start_clock(pbt::Src& s) {
	static const long long ends[] = {86400 * 365LL, 951782400 /* 29 Feb 2000 */, 978307200, 1078099200, 1230768000, 1582934400, 1609459200, 2114380800};
	long long t = s.coin() ? (long long)s.range(40000000, 2100000000) : ends[s.draw(8)] + s.range(-86400, 86400);
	g_time_us = t * 1000000;
}

struct Clock {
	~Clock() { g_time_us = -1; }
};

void tick(pbt::Src& s) {
	g_time_us += s.weighted({3, 1, 1}) == 0 ? 0 : s.coin() ? (long long)s.range(0, 3000000) : (long long)s.range(0, 20000) * 1000000;
}

std::string line_of(const Entry& e, bool dir, const std::string& stamp) {
	std::string name = e.file;
	if (!dir) name = name.substr(name.find_last_of("/\\") + 1);
	std::string r = "[" + e.level + "] [" + stamp + zone() + "] <" + e.tag + "> in line " + std::to_string(e.line) + " of <" + name + ">, " + e.msg;
	if (e.tag == "performance") r += " If you don't want to see performance warning, you can add_filter 'basiclog_performance_warning'!";
	return r + "\n";
}

std::vector<std::string> pieces(const std::string& line) {
	std::vector<std::string> r;
	for (size_t i = 0; i < line.size(); i += 5000) r.push_back(line.substr(i, 5000));
	return r;
}

bool filtered(const std::vector<std::string>& filters, const std::string& tag) {
	for (auto& f : filters) if (f == tag) return true;
	return false;
}

// the logger behind the macros
void macro_case(pbt::Src& s) {
	std::vector<std::string> got, expect;
	bool dir = s.coin();
	std::string format = s.pick<std::string>({"T", "%Y/%m/%d %H:%M:%S", "%H", "", "%%d %j", "%Y-%m-%d"});
	Clock clock;
	start_clock(s);
	list_logger* l = new list_logger(dir, &got, format.c_str());
	log_logger::init_logger(l);
	struct Restore { ~Restore() { log_logger::init_logger(new silent_logger()); } } restore;
	bool on[4] = {true, true, true, true};
	std::vector<std::string> filters;
	int n = (int)s.size(1, 30);
	std::string here = __FILE__;
	for (int i = 0; i < n; ++i) {
		Entry e;
		e.file = here;
		tick(s);
		switch (s.weighted({8, 2, 1, 1})) {
		case 0: {
			std::string tag = gen_tag(s), msg = gen_msg(s);
			int v = (int)s.draw(100), k = (int)s.draw(9);
			bool c = s.coin(), log = true;
			e.tag = tag;
			e.msg = msg + std::to_string(v);
			switch (k) {
			case 0: e.level = "debug"; e.line = __LINE__; basiclog_debug(tag, msg << v); break;
			case 1: e.level = "info"; e.line = __LINE__; basiclog_info(tag, msg << v); break;
			case 2: e.level = "warning"; e.line = __LINE__; basiclog_warning(tag, msg << v); break;
			case 3: e.level = "error"; e.line = __LINE__; basiclog_error(tag, msg << v); break;
			case 4: e.level = "error"; log = !c; e.msg = ""; e.line = __LINE__; basiclog_assert(tag, c); break;
			case 5: e.level = "error"; log = !c; e.line = __LINE__; basiclog_assert_message(tag, c, msg << v); break;
			case 6: e.level = "error"; e.msg = "unsupport operation"; e.line = __LINE__; basiclog_unsupport(tag); break;
			case 7: e.level = "info"; e.tag = ""; e.line = __LINE__; basiclog_info2(msg << v); break;
			default: e.level = "error"; e.tag = ""; log = !c; e.msg = ""; e.line = __LINE__; basiclog_assert2(c); break;
			}
			int lev = e.level == "debug" ? 0 : e.level == "info" ? 1 : e.level == "warning" ? 2 : 3;
			if (log && on[lev] && !filtered(filters, e.tag)) {
				for (auto& p : pieces(line_of(e, dir, stamp_of(format)))) expect.push_back(p);
			} else if (log) {
				s.label("suppressed");
			}
			break;
		}
		case 1: {
			int k = (int)s.draw(4);
			bool v = s.coin();
			on[k] = v;
			if (k == 0) l->enable_debug(v); else if (k == 1) l->enable_info(v); else if (k == 2) l->enable_warning(v); else l->enable_error(v);
			CHECK_THAT(l->is_enable_debug() == on[0] && l->is_enable_info() == on[1] && l->is_enable_warning() == on[2] && l->is_enable_error() == on[3],
				"enabled levels after setting level %d", k);
			break;
		}
		case 2: {
			filters.clear();
			for (int j = (int)s.draw(4); j > 0; --j) filters.push_back(gen_tag(s));
			l->set_filter(filters);
			break;
		}
		default:
			filters.push_back(gen_tag(s));
			l->add_filter(filters.back());
		}
		vector<string> f(1, "old");
		l->get_filter(f);
		CHECK_THAT(std::equal(f.begin(), f.end(), filters.begin(), filters.end()), "get_filter differs from what was set");
		CHECK_THAT(got.size() == expect.size(), "%d pieces were printed, not %d", (int)got.size(), (int)expect.size());
		for (size_t j = 0; j < got.size(); ++j) CHECK_THAT(got[j] == expect[j], "printed %s, not %s", quoted(got[j]).c_str(), quoted(expect[j]).c_str());
	}
	if (s.want_note()) s.note(pbt::strf("%d steps, %d pieces printed", n, (int)got.size()));
	s.nontrivial(expect.size() > 3);
}

struct LogFile {
	std::vector<std::string> pieces;
};

void file_case(pbt::Src& s) {
	std::string base = pbt::scratch_dir() + "/logs/";
	wipe(base);
	g_shell_dir = base;
	mkdir(base.c_str(), 0755);
	spew(base + "plain", "not a directory");
	struct Cwd {	// a logger that loses its directory writes where the process is
		int fd;
		Cwd(const std::string& d) : fd(open(".", O_RDONLY)) { if (chdir(d.c_str())) pbt::fail("harness: chdir"); }
		~Cwd() { if (fchdir(fd)) abort(); close(fd); }
	} cwd(base);
	Guard guard(pbt::scratch_dir() + "/logs");
	int fd0 = open("/dev/null", O_RDONLY);
	close(fd0);
	std::map<std::string, std::vector<std::string>> kept;	// directory -> contents of its files
	{
		std::string cur = base + s.pick<std::string>({"", "a/", "a/b/"});
		int max_log = (int)s.range(1, 8), max_file = (int)s.range(1, 5);
		bool dir = s.coin(), defaults = s.chance(1, 8);
		std::string format = s.pick<std::string>({"%Y", "%Y/%m/%d %H:%M:%S", "T"});
		Clock clock;
		start_clock(s);
		log_file_logger l(cur, defaults ? 50000 : max_log, defaults ? 10000 : max_file, format, dir);
		if (defaults) { max_log = 50000; max_file = 10000; }
		std::list<std::string> list;	// of the current directory, the last one is being written
		int in_file = 0;
		bool open_file = false, rotated = false;
		std::vector<std::string> filters;
		std::map<std::string, std::vector<std::string>> left;	// files of directories that were left
		int n = (int)s.size(1, 60);
		for (int i = 0; i < n; ++i) {
			switch (s.weighted({16, 1, 1, 1, 1})) {
			case 0: {
				Entry e = gen_entry(s);
				tick(s);
				static_cast<log_logger&>(l).print(e.level, e.tag, e.msg, e.file, e.line);
				if (s.want_note()) s.note(pbt::strf("<%s> %d bytes", e.tag.c_str(), (int)e.msg.size()));
				if (filtered(filters, e.tag) || cur == base + "plain/") break;
				for (auto& p : pieces(line_of(e, dir, stamp_of(format)))) {
					if (!open_file || in_file >= max_log) {
						while (!list.empty() && (int)list.size() >= max_file) {
							list.pop_front();
							s.label("old file removed");
						}
						rotated |= open_file;
						list.push_back("");
						open_file = true;
						in_file = 0;
					}
					list.back() += p;
					++in_file;
				}
				break;
			}
			case 1:
				for (auto& c : list) left[cur].push_back(c);
				list.clear();
				open_file = false;
				cur = base + s.pick<std::string>({"a/", "c/", "a/b/", "d e/", "plain/"});
				if (s.want_note()) s.note("set_dir " + cur.substr(base.size()));
				l.set_dir(cur);
				if (cur == base + "plain/") s.label("impossible directory");
				s.label("directory changed");
				break;
			case 2: max_log = (int)s.range(1, 8); if (s.want_note()) s.note(pbt::strf("at most %d lines", max_log)); l.set_file_max_log_number(max_log); break;
			case 3: max_file = (int)s.range(1, 5); if (s.want_note()) s.note(pbt::strf("at most %d files", max_file)); l.set_max_file_number(max_file); break;
			default:
				filters.clear();
				for (int j = (int)s.draw(3); j > 0; --j) filters.push_back(gen_tag(s));
				l.set_filter(filters);
			}
			CHECK_THAT(g_outside.empty(), "the logger calls %s", g_outside.c_str());
			if (i + 1 == n || s.chance(1, 4)) {
				kept = left;
				for (auto& c : list) kept[cur].push_back(c);
				Tree t;
				walk(base, "", t);
				std::map<std::string, std::vector<std::string>> now;
				for (auto& e : t)
					if (e.second.kind == 'f' && e.first != "plain") {
						now[base + parent_of(e.first)].push_back(e.second.data);
						CHECK_THAT(e.first.size() > 4 && e.first.substr(e.first.size() - 4) == ".txt", "a log file is named %s", quoted(e.first).c_str());
					}
				for (auto* m : {&kept, &now}) {
					for (auto& e : *m) std::sort(e.second.begin(), e.second.end());
					for (auto it = m->begin(); it != m->end();) it = it->second.empty() ? m->erase(it) : std::next(it);
				}
				for (auto& e : kept) {
					CHECK_THAT(now[e.first].size() == e.second.size(), "after %d steps %s holds %d log files, not %d (at most %d lines, %d files)", i + 1,
						e.first.substr(base.size()).c_str(), (int)now[e.first].size(), (int)e.second.size(), max_log, max_file);
					for (size_t k = 0; k < e.second.size(); ++k)
						CHECK_THAT(now[e.first][k] == e.second[k], "a log file holds %s (%d bytes), not %s (%d bytes)", quoted(now[e.first][k]).c_str(), (int)now[e.first][k].size(),
							quoted(e.second[k]).c_str(), (int)e.second[k].size());
				}
				CHECK_THAT(now.size() == kept.size(), "log files in %d directories, not %d", (int)now.size(), (int)kept.size());
			}
		}
		if (rotated) s.label("several files");
		s.nontrivial(rotated || list.size() > 1 || left.size() > 0);
	}
	int fd1 = open("/dev/null", O_RDONLY);
	close(fd1);
	CHECK_THAT(fd1 == fd0, "the logger leaves a file open");
}

// many threads share one logger
void thread_case(pbt::Src& s) {
	std::vector<std::string> got;
	int nt = (int)s.range(2, 6), n = (int)s.range(5, 40);
	list_logger l(true, &got);
	std::vector<std::vector<Entry>> all(nt);
	for (int t = 0; t < nt; ++t)
		for (int i = 0; i < n; ++i) {
			Entry e;
			e.level = "info";
			e.tag = pbt::strf("t%d", t);
			e.file = "f";
			e.line = i;
			e.msg = std::string(s.chance(1, 6) ? 5000 + s.draw(12000) : s.draw(30), (char)('a' + t));
			all[t].push_back(e);
		}
	std::vector<std::thread> th;
	for (int t = 0; t < nt; ++t)
		th.emplace_back([&, t] {
			for (auto& e : all[t]) {
				static_cast<log_logger&>(l).print(e.level, e.tag, e.msg, e.file, e.line);
				if (e.line % 5 == 0) l.enable_debug(e.line % 2);
			}
		});
	for (auto& x : th) x.join();
	std::vector<size_t> at(nt, 0);
	size_t i = 0;
	int switches = 0, last = -1;
	while (i < got.size()) {
		int found = -1;
		for (int t = 0; t < nt && found < 0; ++t) {
			if (at[t] == all[t].size()) continue;
			std::vector<std::string> p = pieces(line_of(all[t][at[t]], true, "T"));
			if (i + p.size() <= got.size() && std::equal(p.begin(), p.end(), got.begin() + i)) {
				found = t;
				i += p.size();
			}
		}
		CHECK_THAT(found >= 0, "printed out of turn: %s", quoted(got[i]).c_str());
		++at[found];
		switches += found != last;
		last = found;
	}
	for (int t = 0; t < nt; ++t) CHECK_THAT(at[t] == all[t].size(), "thread %d: %d of %d lines were printed", t, (int)at[t], (int)all[t].size());
	if (s.want_note()) s.note(pbt::strf("%d threads of %d lines, %d switches", nt, n, switches));
	s.label("threads");
	s.nontrivial(switches > nt);
}

void counter_case(pbt::Src& s) {
	std::vector<std::string> got;
	log_logger::init_logger(new list_logger(true, &got));
	struct Restore { ~Restore() { g_time_us = -1; log_logger::init_logger(new silent_logger()); } } restore;
	if (s.coin()) {	// timers
		g_time_us = 1000000 + (long long)s.draw(4000000000000000ull);
		std::string name = s.pick<std::string>({"t", "", "two words", "%d"});
		bool auto_out = s.coin(), debug = s.coin();
		long long cost = 0;
		int count = 0;
		auto line = [&](bool dbg) {
			return pbt::strf("[%s] [T", dbg ? "debug" : "info") + zone() + "] <> in line N of <F>, " + name + pbt::strf(" cost %d ms, count = %d\n", (int)cost, count);
		};
		auto last_line = [&]() {
			CHECK_THAT(got.size() == 1, "%d lines were printed", (int)got.size());
			std::string g = got[0];
			got.clear();
			size_t a = g.find("in line "), b = g.find(" of <"), c = g.find(">, ", b == std::string::npos ? 0 : b);
			CHECK_THAT(a != std::string::npos && b != std::string::npos && c != std::string::npos, "printed %s", quoted(g).c_str());
			return g.substr(0, a) + "in line N of <F" + g.substr(c);
		};
		{
			sys_timer t(name, auto_out, debug);
			int n = (int)s.size(0, 20);
			for (int i = 0; i < n; ++i) {
				switch (s.weighted({6, 1, 1, 1})) {
				case 0: {
					long long d = s.chance(1, 4) ? s.draw(40000000000ull) : s.draw(5000);
					t.begin();
					g_time_us += d;
					if (cost + d / 1000 > 2000000000) throw pbt::Discard();
					t.end();
					cost += d / 1000;
					++count;
					g_time_us += s.draw(3000000);
					break;
				}
				case 1: t.reset(); cost = count = 0; break;
				case 2: {
					bool dbg = s.coin();
					t.out(dbg);
					std::string g = last_line();
					CHECK_THAT(g == line(dbg), "out prints %s", quoted(g).c_str());
					break;
				}
				default: CHECK_THAT(sys_timer::get_tick_cout() == g_time_us / 1000, "get_tick_cout");
				}
				CHECK_THAT(t.get_cost() == cost, "after %d intervals the cost is %d ms, not %d", count, t.get_cost(), (int)cost);
			}
			CHECK_THAT(got.empty(), "a timer prints without being asked");
		}
		if (auto_out) {
			std::string g = last_line();
			CHECK_THAT(g == line(debug), "a timer that goes prints %s", quoted(g).c_str());
		}
		CHECK_THAT(got.empty(), "a timer that goes prints");
		s.label("timer");
		s.nontrivial(count > 2);
		return;
	}
	if (s.coin()) {	// the tester
		sys_tester::init(sys_tester::Test_Type_Slience);
		CHECK_THAT(sys_tester::get_instance() != NULL && sys_tester::get_instance()->get_test_type() == sys_tester::Test_Type_Slience, "tester after init");
		int n = (int)s.size(0, 30), ok = 0;
		for (int i = 0; i < n; ++i) {
			bool c = s.coin();
			int a = (int)s.draw(2), b = (int)s.draw(2);
			switch (s.draw(3)) {
			case 0: sys_tester::get_instance()->add_case_condition(c); ok += c; break;
			case 1: sys_test(c); ok += c; break;
			default: sys_test_equal(a, b); ok += a == b;
			}
		}
		got.clear();
		sys_tester::release();
		CHECK_THAT(sys_tester::get_instance() == NULL, "the tester is still there");
		CHECK_THAT(got.size() == 1, "releasing the tester prints %d lines", (int)got.size());
		std::string expect = n == 0 ? "no test case\n" : (std::string)(sys_strcombine() << "total case: " << n << " correct case: " << ok << " correct ratio: " << ok / (double)n << "\n");
		CHECK_THAT(got[0].size() > expect.size() && got[0].substr(got[0].size() - expect.size()) == expect, "the tester prints %s", quoted(got[0]).c_str());
		s.label("tester");
		s.nontrivial(n > 2);
		return;
	}
	// the counters, which keep their values for the whole process
	static std::map<std::string, long long> model;
	static int serial = 0;
	++serial;
	sys_alg_analyzer::set("before", 1);	// without effect before init
	sys_alg_analyzer::init();
	int nt = s.coin() ? 1 : (int)s.range(2, 5);
	typedef std::tuple<int, std::string, long long> Op;
	std::vector<std::vector<Op>> ops(nt);
	std::string kinds;
	for (int k = 0; k < 3; ++k) kinds += "am"[s.draw(2)];
	for (int t = 0; t < nt; ++t)
		for (int i = (int)s.size(1, 40); i > 0; --i) {
			int k = (int)s.draw(3);
			long long v = s.chance(1, 5) ? (long long)s.any() >> 8 : (long long)s.range(-50, 50);
			int op = nt > 1 ? (kinds[k] == 'a' ? 1 : 2) : (int)s.draw(3);
			ops[t].push_back(Op(op, pbt::strf("c%d.%d", serial % 5, k), v));
		}
	if (nt > 1) for (int k = 0; k < 3; ++k) {
		sys_alg_analyzer::set(pbt::strf("c%d.%d", serial % 5, k), 0);
		model[pbt::strf("c%d.%d", serial % 5, k)] = 0;
	}
	auto run = [&](int t) {
		for (auto& o : ops[t]) {
			if (std::get<0>(o) == 0) sys_alg_analyzer::set(std::get<1>(o), std::get<2>(o));
			else if (std::get<0>(o) == 1) sys_alg_analyzer::add(std::get<1>(o), std::get<2>(o));
			else sys_alg_analyzer::max_(std::get<1>(o), std::get<2>(o));
		}
	};
	if (nt == 1) run(0);
	else {
		std::vector<std::thread> th;
		for (int t = 0; t < nt; ++t) th.emplace_back(run, t);
		for (auto& x : th) x.join();
	}
	for (auto& l : ops)
		for (auto& o : l) {
			auto it = model.find(std::get<1>(o));
			long long v = std::get<2>(o);
			if (it == model.end()) model[std::get<1>(o)] = v;
			else it->second = std::get<0>(o) == 0 ? v : std::get<0>(o) == 1 ? (long long)((unsigned long long)it->second + v) : std::max(it->second, v);
		}
	got.clear();
	sys_alg_analyzer::release();
	map<string, i64> m(model.begin(), model.end());
	std::string expect = (std::string)(sys_strcombine() << m) + "\n";
	CHECK_THAT(got.size() >= 1, "release prints nothing");
	std::string all;
	for (auto& g : got) all += g;
	CHECK_THAT(all.size() > expect.size() && all.substr(all.size() - expect.size()) == expect, "the counters are %s, not %s", quoted(all).c_str(), quoted(expect).c_str());
	s.label(nt > 1 ? "counters of many threads" : "counters");
	s.nontrivial(true);
}
}

PROPERTY(C31, 60000, 480000, "more than three pieces printed, several log files, or more than two intervals, cases or counters",
	"The time zone is whole hours from UTC (the names of log files are not specified); lines hold no zero byte\n"
	"Limits of file loggers are at least one and their directories end with a slash; costs of timers fit 32 bits") {
	quiet();
	pbt::Src& s = src;
	set_zone((int)s.range(-12, 14));
	s.label(g_zone < 0 ? "zone behind UTC" : g_zone > 0 ? "zone ahead of UTC" : "UTC");
	switch (s.weighted({3, 5, 1, 3})) {
	case 0: macro_case(s); break;
	case 1: file_case(s); break;
	case 2: thread_case(s); break;
	default: counter_case(s);
	}
}
