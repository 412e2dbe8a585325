// Buffers, documents, strings, paths and logs of different threads, and a log that threads share.
// modules: sys
// sanitizer: thread
#include "common.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
#include "threads.h"
namespace data {
#include "sys_data.cpp"
}
namespace files {
#include "sys_files.cpp"
}

// ------------------------------------------------------------------------------------------- a log of all threads
namespace {
class memory_logger : public basiclog::log_logger {
public:
	memory_logger(std::string* out) : basiclog::log_logger("T"), m_out(out) {}
protected:
	void print(const std::string& log_info) { *m_out += log_info; }
	std::string* m_out;
};

struct Talker {
	std::vector<int> sizes, kinds;
	int id;
	void run(basiclog::log_logger* l) {
		for (size_t i = 0; i < sizes.size(); ++i) {
			std::string msg = text(i);
			switch (kinds[i]) {
			case 0: basiclog_info("tag", msg); break;
			case 1: basiclog_error2(msg); break;
			case 2: basiclog_debug("unwanted", msg); break;
			case 3: l->add_filter(pbt::strf("nothing %d", id)); basiclog_warning2(msg); break;
			case 4: { vector<string> f; l->get_filter(f); l->enable_info(true); basiclog_info2(msg); break; }
			default: if (l->is_enable_debug()) basiclog_debug2(msg);
			}
		}
	}
	std::string text(size_t i) const { return pbt::strf("<thread %d message %zu %s end>", id, i, std::string(sizes[i], (char)('a' + id)).c_str()); }
};

void log_case(pbt::Src& s) {
	int nt = (int)s.range(2, 4), per_file = (int)s.range(1, 20);
	bool file = s.chance(1, 3);
	s.label(file ? "a log file of all threads" : "a log of all threads");
	std::vector<Talker> ts(nt);
	for (int t = 0; t < nt; ++t) {
		ts[t].id = t;
		int n = (int)s.size(1, 15);
		for (int i = 0; i < n; ++i) {
			ts[t].sizes.push_back(s.chance(1, 6) ? (int)s.range(4000, 12000) : (int)s.range(0, 40));
			ts[t].kinds.push_back((int)s.draw(6));
		}
		s.note(pbt::strf("thread %d: messages of kinds %s", t, pbt::join(ts[t].kinds).c_str()));
		if (n > 3) s.nontrivial();
	}
	std::string got, dir = pbt::scratch_dir() + "/shared_log/";
	mkdir(dir.c_str(), 0700);
	race::reset();
	{
		basiclog::log_logger* l = file ? (basiclog::log_logger*)new log_file_logger(dir, per_file, 100000, "T") : new memory_logger(&got);
		l->add_filter("unwanted");
		log_logger::init_logger(l);
		struct Restore { ~Restore() { log_logger::init_logger(new silent_logger()); } } restore;
		std::vector<std::thread> run;
		std::atomic<int> ready(0);
		for (auto& t : ts) run.emplace_back([&] {
			++ready;
			while (ready < nt) sched_yield();
			t.run(l);
		});
		for (auto& r : run) r.join();
	}
	if (file) {
		std::vector<std::string> names;
		DIR* d = opendir(dir.c_str());
		while (dirent* e = d ? readdir(d) : NULL) if (e->d_name[0] != '.') names.push_back(dir + e->d_name);
		if (d) closedir(d);
		// in which order the files were made is not known: no message may go on in another file then
		bool several = false;
		for (auto& t : ts) for (int z : t.sizes) several = several || z > 3900;
		if (several && names.size() > 1) { s.label("order of files not decided"); got.clear(); }
		else for (auto& n : names) got += data::slurp(n);
		for (auto& n : names) unlink(n.c_str());
		if (several && names.size() > 1) { rmdir(dir.c_str()); CHECK_THAT(!race::reports(), "%d races in a log of several threads: %s", race::reports(), race::text().c_str()); return; }
	}
	rmdir(dir.c_str());
	// every line is one message, whole, and those of a thread come in their order
	std::vector<size_t> next(nt, 0);
	size_t pos = 0, lines = 0;
	while (pos < got.size()) {
		size_t e = got.find('\n', pos), b = got.find("<thread ", pos);
		CHECK_THAT(e != std::string::npos && b != std::string::npos && b < e, "the log holds a line without a message: %s", got.substr(pos, 300).c_str());
		std::string line = got.substr(b, e - b);
		int t = atoi(line.c_str() + 8);
		CHECK_THAT(t >= 0 && t < nt, "the log holds the line %s", line.substr(0, 300).c_str());
		while (!file && next[t] < ts[t].sizes.size() && ts[t].kinds[next[t]] == 2) ++next[t];
		if (file) {	// one file after the other in any order: each message once
			next[t]++;
		} else {
			CHECK_THAT(next[t] < ts[t].sizes.size() && line == ts[t].text(next[t]), "thread %d logged %s, and the log has %s", t, next[t] < ts[t].sizes.size() ? ts[t].text(next[t]).substr(0, 100).c_str() : "nothing more", line.substr(0, 100).c_str());
			++next[t];
		}
		bool known = false;
		for (size_t i = 0; i < ts[t].sizes.size() && !known; ++i) known = line == ts[t].text(i);
		CHECK_THAT(known, "the log holds the line %s, which no thread wrote", line.substr(0, 300).c_str());
		++lines;
		pos = e + 1;
	}
	size_t want = 0;
	for (auto& t : ts) for (int k : t.kinds) want += k != 2;
	CHECK_THAT(lines == want, "the log holds %zu lines of %zu", lines, want);
	CHECK_THAT(!race::reports(), "%d races in a log of several threads: %s", race::reports(), race::text().c_str());
}
}

PROPERTY(C45, 60000, 2000000, "at least one of the cases is non-trivial for the property it was made for, or a thread writes more than three messages into the log that all share",
	"races are those that the thread sanitizer sees in the order of events of the run\nwhat belongs to the process (its directory, environment, open files) is left alone by these cases") {
	quiet();
	race::self_test();
	g_alone = false;
	if (src.chance(1, 3)) { log_case(src); return; }
	static const std::vector<const char*> all = {"C18", "C19", "C20"};
	std::vector<const char*> ids;
	int n = (int)src.range(2, 4);
	for (int i = 0; i < n; ++i) ids.push_back(src.pick(all));
	for (auto i : ids) src.label(i);
	race::reset();
	std::vector<std::string> r = src.together(ids);
	for (size_t i = 0; i < r.size(); ++i) CHECK_THAT(r[i].empty(), "a case of %s holds alone and fails next to cases on other threads: %s", ids[i], r[i].c_str());
	CHECK_THAT(!race::reports(), "%d races between objects of different threads: %s", race::reports(), race::text().c_str());
}
