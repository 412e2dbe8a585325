#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <map>
#include <set>
#include <thread>

extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=1500:"
		"malloc_context_size=8:handle_abort=1:detect_stack_use_after_return=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:"
		"max_malloc_fill_size=1048576:quarantine_size_mb=16";
}
#if __has_feature(thread_sanitizer)
extern "C" const char* __ubsan_default_options() { return "exitcode=0"; }
#else
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=99:halt_on_error=1"; }
#endif

// for the programs built with the thread sanitizer: a race is counted by the check itself (checks/threads.h)
extern "C" const char* __tsan_default_options() {
	return "ignore_noninstrumented_modules=1:exitcode=0:symbolize=0:suppress_equal_stacks=0:suppress_equal_addresses=0:handle_abort=1:"
		"max_allocation_size_mb=1500:die_after_fork=0:history_size=4";
}

namespace pbt {

static std::vector<Property>& props() { static std::vector<Property> v; return v; }
static std::vector<Known>& knowns() { static std::vector<Known> v; return v; }
void add(const Property& p) { props().push_back(p); }
void add(const Known& k) { knowns().push_back(k); }

std::string strf(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	char* s = NULL;
	if (vasprintf(&s, fmt, ap) < 0) s = NULL;
	va_end(ap);
	std::string r = s ? s : "";
	free(s);
	return r;
}
void fail(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	char* s = NULL;
	if (vasprintf(&s, fmt, ap) < 0) s = NULL;
	va_end(ap);
	Failure f;
	f.msg = s ? s : "";
	free(s);
	throw f;
}

static std::string g_scratch;
static thread_local const std::string* t_scratch = NULL;	// of a thread of Src::together
const std::string& scratch_dir() { return t_scratch ? *t_scratch : g_scratch; }

static void remove_scratch(const std::string& dir) {
	// only ever called with a directory this process made with mkdtemp
	DIR* d = opendir(dir.c_str());
	if (d) {
		while (dirent* e = readdir(d)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string p = dir + "/" + n;
			struct stat st;
			if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_scratch(p); else unlink(p.c_str());
		}
		closedir(d);
	}
	rmdir(dir.c_str());
}
static std::string g_base;
static void make_scratch() {
	std::string t = g_base + "/s_XXXXXX";
	std::vector<char> b(t.begin(), t.end());
	b.push_back(0);
	if (!mkdtemp(&b[0])) { perror("mkdtemp"); _exit(98); }
	g_scratch = &b[0];
}

//---------------------------------------------------------------------------------------------------------- Src
static uint64_t mix(uint64_t x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
void Src::begin(uint64_t seed, const uint64_t* replay, size_t n, uint64_t* rec, uint32_t* rec_n, size_t rec_cap) {
	m_state = seed;
	m_replay = replay;
	m_replay_n = n;
	m_pos = 0;
	m_rec = rec;
	m_rec_n = rec_n;
	m_rec_cap = rec_cap;
	*m_rec_n = 0;
	m_nontrivial = false;
	m_note.clear();
	m_hash = 1469598103934665603ull;
}
uint64_t Src::next() { m_state += 0x9E3779B97F4A7C15ull; return mix(m_state); }
uint64_t Src::draw(uint64_t n) {
	uint64_t v;
	if (m_replay) {
		v = m_pos < m_replay_n ? m_replay[m_pos] : 0;
	} else {
		v = next();
	}
	++m_pos;
	if (n) v %= n;
	if (*m_rec_n < m_rec_cap) {
		m_rec[*m_rec_n] = v;
		*m_rec_n = *m_rec_n + 1;
	}
	m_hash = mix(m_hash ^ v);
	return v;
}
int64_t Src::range(int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
}
bool Src::chance(int num, int den) {
	// the top num values out of den are true, so that it shrinks to false
	return (int)draw(den) >= den - num;
}
int Src::weighted(std::initializer_list<int> w) {
	int sum = 0;
	for (int x : w) sum += x;
	int v = (int)draw(sum), i = 0;
	for (int x : w) {
		if (v < x) return i;
		v -= x;
		++i;
	}
	return 0;
}
int64_t Src::size(int64_t lo, int64_t hi) {
	int k = (int)draw(4);
	int64_t span = hi - lo;
	if (k == 0) span = span / 8 > 2 ? span / 8 : std::min<int64_t>(span, 2);
	else if (k == 1) span = span / 3 > 3 ? span / 3 : std::min<int64_t>(span, 3);
	return range(lo, lo + span);
}
double Src::real(double lo, double hi, int den) {
	int64_t n = (int64_t)floor((hi - lo) * den + 0.5);
	return lo + (double)range(0, n) / den;
}

//------------------------------------------------------------------------------------------------- shared memory
static const size_t REC_CAP = 1 << 16;
static const int MAX_LABELS = 96;
static const int MAX_SAMPLES = 6;
struct Shared {
	volatile uint64_t progress;
	volatile uint64_t case_index;
	volatile int state;		// 0 running, 1 done, 2 failed
	uint64_t evals, nontriv, discards;
	char msg[16384];
	uint32_t rec_n;
	uint32_t n_labels;
	char labels[MAX_LABELS][40];
	uint64_t label_count[MAX_LABELS];
	uint32_t n_samples;
	char samples[MAX_SAMPLES][1500];
	uint64_t rec[REC_CAP];
	uint64_t n_hash;
	uint64_t hash[1 << 20];
};
static Shared* new_shared() {
	void* p = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(98); }
	return (Shared*)p;
}
static Shared* g_sh = NULL;
static char* g_note_buf = NULL;		// shared, so that the note of a crashing case survives
static size_t g_note_cap = 0;
void Src::note(const std::string& s) {
	if (!m_want_note) return;
	m_note += s;
	m_note += "\n";
	if (g_note_buf) snprintf(g_note_buf, g_note_cap, "%s", m_note.c_str());
}
void Src::label(const char* name) {
	if (!g_sh) return;
	for (uint32_t i = 0; i < g_sh->n_labels; ++i) {
		if (strncmp(g_sh->labels[i], name, 39) == 0) { ++g_sh->label_count[i]; return; }
	}
	if (g_sh->n_labels < MAX_LABELS) {
		snprintf(g_sh->labels[g_sh->n_labels], 40, "%s", name);
		g_sh->label_count[g_sh->n_labels++] = 1;
	}
}
void Src::labelf(const char* fmt, ...) {
	char b[64];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	label(b);
}

//------------------------------------------------------------------------------------------------------ running
static bool run_case(const Property& p, Src& src, std::string& msg, bool& discarded) {
	discarded = false;
	try {
		p.fn(src);
		return true;
	} catch (const Failure& f) {
		msg = f.msg;
	} catch (const Discard&) {
		discarded = true;
		return true;
	} catch (const std::exception& e) {
		msg = std::string("uncaught exception: ") + e.what();
	} catch (...) {
		msg = "uncaught exception of unknown type";
	}
	return false;
}

void Src::same_again(const char* id, int rounds, const std::function<void(int)>& after, const std::function<void(int)>& before, bool must_hold) {
	const Property* p = NULL;
	for (auto& q : props()) if (strcmp(q.id, id) == 0) p = &q;
	if (!p) fail("property %s is not in this program", id);
	std::string msg;
	bool discarded;
	uint32_t from = *m_rec_n;
	if (!run_case(*p, *this, msg, discarded) || discarded || *m_rec_n >= m_rec_cap) throw Discard();
	size_t n = *m_rec_n - from, cap = n + 16;
	std::vector<uint64_t> choices(m_rec + from, m_rec + *m_rec_n), rec(cap);
	Shared* sh = g_sh;
	for (int i = 0; i < rounds; ++i) {
		bool ok;
		{
			Src again;
			uint32_t rec_n;
			again.m_thorough = m_thorough;
			again.m_want_note = false;
			again.begin(0, choices.data(), n, rec.data(), &rec_n, cap);
			g_sh = NULL;	// no labels
			if (before) before(i);
			ok = run_case(*p, again, msg, discarded);
			g_sh = sh;
		}
		if (must_hold && !ok) {
			after(i);
			fail("%s", msg.c_str());
		}
		msg = std::string();
		if (!ok || discarded) throw Discard();
		after(i);
	}
}

std::vector<std::string> Src::together(const std::vector<const char*>& ids) {
	struct Job {
		const Property* p;
		std::vector<uint64_t> choices, rec;
		uint32_t rec_n;
		Src src;
		std::string msg, dir;
		bool ok, discarded;
	};
	std::vector<Job> jobs(ids.size());
	bool any = false;
	for (size_t i = 0; i < ids.size(); ++i) {
		Job& j = jobs[i];
		j.p = NULL;
		for (auto& q : props()) if (strcmp(q.id, ids[i]) == 0) j.p = &q;
		if (!j.p) fail("property %s is not in this program", ids[i]);
		uint32_t from = *m_rec_n;
		m_nontrivial = false;
		if (!run_case(*j.p, *this, j.msg, j.discarded) || j.discarded || *m_rec_n >= m_rec_cap) throw Discard();
		any = any || m_nontrivial;
		j.msg.clear();
		size_t n = *m_rec_n - from;
		j.choices.assign(m_rec + from, m_rec + *m_rec_n);
		j.rec.resize(n + 16);
		j.src.m_thorough = m_thorough;
		j.src.m_want_note = false;
		j.src.begin(0, j.choices.data(), n, j.rec.data(), &j.rec_n, n + 16);
		j.dir = scratch_dir() + strf("/thread%zu", i);
		mkdir(j.dir.c_str(), 0700);
	}
	m_nontrivial = any;
	Shared* sh = g_sh;
	g_sh = NULL;	// no labels
	std::vector<std::thread> ts;
	std::atomic<size_t> ready(0);
	for (auto& j : jobs) ts.emplace_back([&] {
		t_scratch = &j.dir;
		++ready;
		while (ready < jobs.size()) sched_yield();
		j.ok = run_case(*j.p, j.src, j.msg, j.discarded);
		t_scratch = NULL;
	});
	for (auto& t : ts) t.join();
	g_sh = sh;
	std::vector<std::string> res;
	for (auto& j : jobs) {
		remove_scratch(j.dir);
		res.push_back(j.ok && !j.discarded ? std::string() : j.discarded ? "the case was given up" : j.msg.empty() ? "failed" : j.msg);
	}
	return res;
}

static uint64_t g_seed = 1;
static bool g_thorough = false;
static std::string g_tmp;

static uint64_t case_seed(const char* id, uint64_t i) {
	uint64_t h = g_seed * 0x100000001B3ull + 77;
	for (const char* c = id; *c; ++c) h = mix(h ^ (uint8_t)*c);
	return mix(h ^ mix(i + 1));
}

static void child_setup(const std::string& errfile) {
	int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	int nul = open("/dev/null", O_WRONLY);
	if (nul >= 0) { dup2(nul, 1); close(nul); }
	int nin = open("/dev/null", O_RDONLY);
	if (nin >= 0) { dup2(nin, 0); close(nin); }
	make_scratch();
}

static std::string err_summary(const std::string& f) {
	FILE* fp = fopen(f.c_str(), "rb");
	if (!fp) return "";
	std::string out;
	char line[2048];
	int frames = 0;
	bool in = false;
	while (fgets(line, sizeof line, fp)) {
		std::string s = line;
		bool key = s.find("ERROR: ") != std::string::npos || s.find("runtime error") != std::string::npos || s.find("terminat") != std::string::npos;
		if (key && !in) {
			in = true;
			out += s.substr(0, 300);
			if (!out.empty() && out[out.size() - 1] != '\n') out += "\n";
			continue;
		}
		if (in && s.find("    #") == 0 && frames < 5) {
			size_t k = s.find(" in ");
			out += "   " + (k == std::string::npos ? s.substr(0, 200) : s.substr(k, 200));
			if (out[out.size() - 1] != '\n') out += "\n";
			++frames;
		}
	}
	fclose(fp);
	return out;
}

static void worker(const Property& p, Shared* sh, int id, int step, uint64_t start, uint64_t cases) {
	g_sh = sh;
	Src src;
	src.m_thorough = g_thorough;
	for (uint64_t i = start; i < cases; i += step) {
		sh->case_index = i;
		sh->progress = sh->progress + 1;
		src.m_want_note = sh->n_samples < MAX_SAMPLES && (i / step) % 7 == 3;
		src.begin(case_seed(p.id, i), NULL, 0, sh->rec, &sh->rec_n, REC_CAP);
		std::string msg;
		bool disc;
		bool ok = run_case(p, src, msg, disc);
		++sh->evals;
		if (disc) ++sh->discards;
		if (!ok) {
			snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
			sh->state = 2;
			remove_scratch(g_scratch);
			_exit(1);
		}
		if (src.m_nontrivial && !disc) {
			++sh->nontriv;
			if (sh->n_hash < (1 << 20)) sh->hash[sh->n_hash++] = src.m_hash;
			if (src.m_want_note && !src.m_note.empty()) {
				snprintf(sh->samples[sh->n_samples++], 1500, "case %llu: %s", (unsigned long long)i, src.m_note.c_str());
			}
		}
	}
	sh->state = 1;
	remove_scratch(g_scratch);
	_exit(0);
}

enum Outcome { OK, FAILED, CRASHED, HUNG };
struct Result {
	Outcome o;
	std::string msg, note;
	std::vector<uint64_t> rec;
};

static double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static Shared* g_one = NULL;
static Outcome wait_child(pid_t pid, double timeout, int& status) {
	double t0 = now();
	for (int it = 0;; ++it) {
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) return OK;
		if (now() - t0 > timeout) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			return HUNG;
		}
		usleep(it < 200 ? 300 : 3000);
	}
}

// runs one choice sequence in a fresh process
static Result run_one(const Property& p, const std::vector<uint64_t>& ch, double timeout, bool note) {
	if (!g_one) g_one = new_shared();
	Shared* sh = g_one;
	sh->state = 0;
	sh->rec_n = 0;
	sh->msg[0] = 0;
	sh->n_labels = 0;
	sh->samples[0][0] = 0;
	sh->n_hash = 0;
	((char*)sh->hash)[0] = 0;
	std::string err = g_tmp + "/one.err";
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(err);
		g_sh = sh;
		Src src;
		src.m_thorough = g_thorough;
		src.m_want_note = note;
		g_note_buf = (char*)sh->hash;	// room for the note
		g_note_cap = sizeof sh->hash;
		src.begin(0, ch.data(), ch.size(), sh->rec, &sh->rec_n, REC_CAP);
		std::string msg;
		bool disc;
		bool ok = run_case(p, src, msg, disc);
		if (!ok) snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
		sh->state = ok ? 1 : 2;
		remove_scratch(g_scratch);
		_exit(ok ? 0 : 1);
	}
	int status = 0;
	Outcome w = wait_child(pid, timeout, status);
	Result r;
	r.rec.assign(sh->rec, sh->rec + sh->rec_n);
	if (w == HUNG) {
		r.o = HUNG;
		r.msg = "no answer within the time limit";
	} else if (sh->state == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
		r.o = OK;
	} else if (sh->state == 2) {
		r.o = FAILED;
		r.msg = sh->msg;
	} else {
		r.o = CRASHED;
		r.msg = strf("crashed (%s %d)\n", WIFSIGNALED(status) ? "signal" : "exit", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) + err_summary(err);
	}
	if (note) r.note = (char*)sh->hash;
	return r;
}

static bool same_kind(Outcome a, Outcome b) { return (a == HUNG) == (b == HUNG) && b != OK; }

static Result shrink(const Property& p, Result best, double budget) {
	double end = now() + budget;
	double to = best.o == HUNG ? 25 : 20;
	Outcome kind = best.o;
	auto tryit = [&](const std::vector<uint64_t>& c) {
		if (now() > end) return false;
		Result r = run_one(p, c, to, false);
		if (!same_kind(kind, r.o)) return false;
		if (r.rec.size() > c.size()) r.rec.resize(c.size());
		bool smaller = r.rec.size() < best.rec.size() || (r.rec.size() == best.rec.size() && r.rec < best.rec);
		if (!smaller) return false;
		best = r;
		return true;
	};
	bool improved = true;
	while (improved && now() < end) {
		improved = false;
		for (size_t k = std::max<size_t>(1, best.rec.size() / 2); k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.rec.size() && now() < end;) {
				std::vector<uint64_t> c = best.rec;
				c.erase(c.begin() + i, c.begin() + i + k);
				if (tryit(c)) improved = true; else i += k;
			}
			if (k == 1) break;
		}
		for (size_t k = std::max<size_t>(1, best.rec.size() / 2); k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.rec.size() && now() < end; i += k) {
				std::vector<uint64_t> c = best.rec;
				bool any = false;
				for (size_t j = i; j < i + k; ++j) if (c[j]) { c[j] = 0; any = true; }
				if (any && tryit(c)) improved = true;
			}
			if (k == 1) break;
		}
		for (size_t i = 0; i < best.rec.size() && now() < end; ++i) {
			uint64_t v = best.rec[i];
			if (!v) continue;
			uint64_t lo = 0, hi = v;	// lo fails to reproduce, hi reproduces
			while (hi - lo > 1 && now() < end) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> c = best.rec;
				if (i >= c.size()) break;
				c[i] = mid;
				if (tryit(c)) { hi = mid; improved = true; if (i >= best.rec.size() || best.rec[i] != mid) break; } else lo = mid;
			}
		}
		// delete one choice and lower an earlier one (list length followed by its elements)
		for (size_t i = 0; i < best.rec.size() && now() < end; ++i) {
			if (!best.rec[i] || best.rec[i] > 64) continue;
			for (size_t j = i + 1; j < std::min(best.rec.size(), i + 12) && now() < end; ++j) {
				std::vector<uint64_t> c = best.rec;
				c[i] -= 1;
				c.erase(c.begin() + j);
				if (tryit(c)) { improved = true; break; }
			}
		}
	}
	return best;
}

static std::string esc(const std::string& s) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
		else r += c;
	}
	return r;
}

static bool write_replay(const std::string& path, const Property& p, const Result& r, const std::string& extra) {
	FILE* f = fopen(path.c_str(), "wb");
	if (!f) return false;
	fprintf(f, "property %s\nseed %llu\ntier %s\n%schoices %zu\n", p.id, (unsigned long long)g_seed, g_thorough ? "thorough" : "quick", extra.c_str(), r.rec.size());
	for (size_t i = 0; i < r.rec.size(); ++i) fprintf(f, "%llu%c", (unsigned long long)r.rec[i], i % 20 == 19 ? '\n' : ' ');
	fprintf(f, "\n---- what failed\n%s\n---- the case\n%s\n", r.msg.c_str(), r.note.c_str());
	fclose(f);
	return true;
}

static int run_property(const Property& p, const std::string& evid, const std::string& replays, int nworkers, double scale, uint64_t cases_override, int violations_extra) {
	double t0 = now();
	uint64_t cases = g_thorough ? p.thorough_cases : p.quick_cases;
	if (scale != 1) cases = (uint64_t)std::max(1.0, cases * scale);
	if (cases_override) cases = cases_override;
	double time_cap = g_thorough ? 3000 : 420;
	if (getenv("PBT_TIME_CAP")) time_cap = atof(getenv("PBT_TIME_CAP"));
	std::vector<Shared*> sh(nworkers);
	std::vector<pid_t> pid(nworkers);
	std::vector<bool> live(nworkers, true);
	std::vector<uint64_t> lastp(nworkers, 0);
	std::vector<double> lastt(nworkers, now());
	auto spawn = [&](int w, uint64_t start) {
		sh[w]->state = 0;
		pid[w] = fork();
		if (pid[w] == 0) {
			child_setup(g_tmp + strf("/w%d.err", w));
			worker(p, sh[w], w, nworkers, start, cases);
		}
		lastt[w] = now();
		live[w] = true;
	};
	for (int w = 0; w < nworkers; ++w) {
		sh[w] = new_shared();
		spawn(w, w);
	}
	int flaky = 0, timeouts = 0;
	Result found;
	found.o = OK;
	std::string extra;
	bool capped = false;
	int nlive = nworkers;
	auto stop_all = [&]() {
		for (int w = 0; w < nworkers; ++w) if (live[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); live[w] = false; }
		nlive = 0;
	};
	while (nlive > 0) {
		usleep(5000);
		for (int w = 0; w < nworkers && found.o == OK; ++w) {
			if (!live[w]) continue;
			int st = 0;
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			Result cand;
			cand.o = OK;
			if (r == pid[w]) {
				live[w] = false;
				--nlive;
				if (sh[w]->state == 1) continue;
				cand.o = sh[w]->state == 2 ? FAILED : CRASHED;
				cand.msg = sh[w]->state == 2 ? std::string(sh[w]->msg) : strf("status %x\n", st) + err_summary(g_tmp + strf("/w%d.err", w));
			} else {
				if (sh[w]->progress != lastp[w]) {
					lastp[w] = sh[w]->progress;
					lastt[w] = now();
					continue;
				} else if (now() - lastt[w] > 60) {
					kill(pid[w], SIGKILL);
					waitpid(pid[w], &st, 0);
					live[w] = false;
					--nlive;
					cand.o = HUNG;
					cand.msg = "no answer within 60 s";
				} else {
					continue;
				}
			}
			cand.rec.assign(sh[w]->rec, sh[w]->rec + sh[w]->rec_n);
			uint64_t ci = sh[w]->case_index;
			fprintf(stderr, "case %llu %s: %s\n", (unsigned long long)ci, cand.o == FAILED ? "failed" : cand.o == HUNG ? "hung" : "crashed", cand.msg.substr(0, 600).c_str());
			// the machine may be slow for the others while this one is looked into
			for (int o = 0; o < nworkers; ++o) if (live[o]) kill(pid[o], SIGSTOP);
			Result one;
			one.o = OK;
			if (cand.o == HUNG) {
				// the choices drawn so far, from the seed of the case, in a process of its own
				one = run_one(p, cand.rec, 90, false);
				if (one.o != OK) one = run_one(p, cand.rec, 90, false);
			} else {
				for (int k = 0; k < 25 && one.o == OK; ++k) one = run_one(p, cand.rec, 60, false);
			}
			if (one.o != OK) {
				if (one.rec.size() < cand.rec.size()) one.rec = cand.rec;
				found = one;
			} else if (cand.o != HUNG) {
				// does it need the cases that ran before it in the same process?
				fprintf(stderr, "does not fail on its own; trying with the cases before it\n");
				int again = 0;
				for (int k = 0; k < 3; ++k) {
					Shared* s2 = new_shared();
					pid_t q = fork();
					if (q == 0) {
						child_setup(g_tmp + "/h.err");
						worker(p, s2, w, nworkers, w, ci + 1);
					}
					int st2;
					wait_child(q, 400, st2);
					if (s2->state != 1 && s2->case_index == ci) ++again;
					munmap(s2, sizeof(Shared));
				}
				if (again > 0) {
					found = cand;
					extra = strf("history worker %d of %d up to case %llu\n", w, nworkers, (unsigned long long)ci);
				} else {
					++flaky;
				}
			} else {
				++timeouts;
			}
			if (found.o == OK) {
				for (int o = 0; o < nworkers; ++o) if (live[o]) { kill(pid[o], SIGCONT); lastt[o] = now(); }
				if (flaky + timeouts < 20 && ci + nworkers < cases) {
					spawn(w, ci + nworkers);
					++nlive;
				}
			}
		}
		if (found.o != OK) { stop_all(); break; }
		if (now() - t0 > time_cap) { capped = true; stop_all(); break; }
	}

	// evidence
	uint64_t evals = 0, nontriv = 0, disc = 0;
	std::set<uint64_t> distinct;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	for (int w = 0; w < nworkers; ++w) {
		evals += sh[w]->evals;
		nontriv += sh[w]->nontriv;
		disc += sh[w]->discards;
		distinct.insert(sh[w]->hash, sh[w]->hash + sh[w]->n_hash);
		for (uint32_t i = 0; i < sh[w]->n_labels; ++i) labels[sh[w]->labels[i]] += sh[w]->label_count[i];
		for (uint32_t i = 0; i < sh[w]->n_samples && samples.size() < 8; ++i) if (i < 2) samples.push_back(sh[w]->samples[i]);
	}
	int code = 0;
	std::string replay_path;
	if (found.o != OK) {
		Result s = found;
		if (extra.empty()) {
			if (found.rec.size() < REC_CAP) s = shrink(p, found, g_thorough ? 120 : 45);
			int rep = 0;
			Result last = s;
			for (int k = 0; k < 3; ++k) {
				Result r = run_one(p, s.rec, 90, k == 0);
				if (r.o != OK) { ++rep; last.msg = r.msg; if (!r.note.empty()) last.note = r.note; }
			}
			extra += strf("reproduced %d of 3\n", rep);
			s.msg = last.msg;
			s.note = last.note;
		}
		uint64_t h = 7;
		for (uint64_t v : s.rec) h = mix(h ^ v);
		replay_path = replays + strf("/%s-%012llx.txt", p.id, (unsigned long long)(h & 0xffffffffffffull));
		write_replay(replay_path, p, s, extra);
		fprintf(stderr, "---- %s violated\n%s\n---- the case\n%s\n", p.id, s.msg.c_str(), s.note.substr(0, 6000).c_str());
		printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
		code = 1;
	}
	FILE* f = fopen(evid.c_str(), "wb");
	if (f) {
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"%s\",\n  \"samples\": [",
			p.id, g_thorough ? "thorough" : "quick", (unsigned long long)g_seed, (unsigned long long)evals, (unsigned long long)distinct.size(), esc(p.rule).c_str());
		for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\n   \"%s\"", i ? "," : "", esc(samples[i]).c_str());
		fprintf(f, "\n  ],\n  \"planned_cases\": %llu,\n  \"nontrivial\": %llu,\n  \"discarded\": %llu,\n  \"stopped_by_time_cap\": %s,\n  \"unreproduced\": %d,\n  \"labels\": {", (unsigned long long)cases, (unsigned long long)nontriv, (unsigned long long)disc, capped ? "true" : "false", flaky + timeouts);
		bool first = true;
		for (auto& l : labels) { fprintf(f, "%s\n   \"%s\": %llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second); first = false; }
		fprintf(f, "\n  }\n },\n \"assumptions\": [");
		std::string a = p.assumptions;
		first = true;
		while (!a.empty()) {
			size_t k = a.find('\n');
			std::string one = a.substr(0, k);
			a = k == std::string::npos ? "" : a.substr(k + 1);
			if (one.empty()) continue;
			fprintf(f, "%s\n  \"%s\"", first ? "" : ",", esc(one).c_str());
			first = false;
		}
		fprintf(f, "\n ],\n \"wall_s\": %.1f,\n \"violations\": %d\n}\n", now() - t0, code);
		fclose(f);
	}
	fprintf(stderr, "%s: %llu cases, %llu non-trivial (%zu distinct), %.1f s%s%s\n", p.id, (unsigned long long)evals, (unsigned long long)nontriv, distinct.size(), now() - t0, capped ? ", stopped by the time cap" : "", flaky + timeouts ? ", with unreproduced failures" : "");
	if (getenv("PBT_LABELS")) for (auto& l : labels) fprintf(stderr, "  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
	return code;
}

static int replay_file(const std::string& path) {
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
	char id[64] = "";
	std::vector<uint64_t> ch;
	char line[4096];
	int hw = -1, hn = 0;
	unsigned long long hc = 0, seed = 1;
	while (fgets(line, sizeof line, f)) {
		size_t n;
		if (sscanf(line, "property %63s", id) == 1) continue;
		if (sscanf(line, "seed %llu", &seed) == 1) continue;
		if (strncmp(line, "tier thorough", 13) == 0) g_thorough = true;
		if (sscanf(line, "history worker %d of %d up to case %llu", &hw, &hn, &hc) == 3) continue;
		if (sscanf(line, "choices %zu", &n) == 1) {
			unsigned long long v;
			for (size_t i = 0; i < n; ++i) if (fscanf(f, "%llu", &v) == 1) ch.push_back(v);
			break;
		}
	}
	fclose(f);
	g_seed = seed;
	for (auto& p : props()) {
		if (strcmp(p.id, id)) continue;
		if (hw >= 0) {
			Shared* s2 = new_shared();
			pid_t q = fork();
			if (q == 0) { child_setup(g_tmp + "/h.err"); worker(p, s2, hw, hn, hw, hc + 1); }
			int st;
			wait_child(q, 800, st);
			fprintf(stderr, "%s\n", s2->state == 1 ? "held" : s2->msg);
			if (s2->state != 1) printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
			return s2->state == 1 ? 0 : 1;
		}
		Result r = run_one(p, ch, 120, true);
		fprintf(stderr, "%s\n---- the case\n%s\n", r.o == OK ? "held" : r.msg.c_str(), r.note.c_str());
		if (r.o != OK) printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
		return r.o == OK ? 0 : 1;
	}
	fprintf(stderr, "property %s is not in this program\n", id);
	return 2;
}

// exit status 10: the finding still fails, 11: it does not
static int probe(const std::string& key) {
	for (auto& k : knowns()) {
		if (key != k.key) continue;
		pid_t q = fork();
		if (q == 0) {
			const char* pe = getenv("PBT_PROBE_ERR");
			child_setup(pe ? pe : g_tmp + "/k.err");
			bool r = true;
			try { r = k.still_fails(); } catch (...) {}
			remove_scratch(g_scratch);
			_exit(r ? 10 : 11);
		}
		int st = 0;
		Outcome o = wait_child(q, 60, st);
		if (o == HUNG) return 10;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return 11;
		return 10;
	}
	return 12;
}

}

int main(int argc, char** argv) {
	using namespace pbt;
	std::string mode = argc > 1 ? argv[1] : "";
	const char* s = getenv("VERIF_SEED");
	if (s && *s) g_seed = strtoull(s, NULL, 10);
	const char* t = getenv("VERIF_TIER");
	g_thorough = t && strcmp(t, "thorough") == 0;
	const char* base = getenv("PBT_BASE");
	std::string tb = std::string(base && *base ? base : "/tmp") + "/pbt_XXXXXX";
	std::vector<char> b(tb.begin(), tb.end());
	b.push_back(0);
	if (!mkdtemp(&b[0])) { perror("mkdtemp"); return 98; }
	g_base = g_tmp = &b[0];
	chmod(g_tmp.c_str(), 0777);
	int code = 2;
	if (mode == "run") {
		std::string id = argv[2], evid = argv[3], replays = argv[4];
		int nw = getenv("PBT_WORKERS") ? atoi(getenv("PBT_WORKERS")) : 8;
		double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1;
		uint64_t cases = getenv("PBT_CASES") ? strtoull(getenv("PBT_CASES"), NULL, 10) : 0;
		for (auto& p : props()) if (id == p.id) code = run_property(p, evid, replays, nw, scale, cases, 0);
	} else if (mode == "replay") {
		code = replay_file(argv[2]);
	} else if (mode == "probe") {
		code = probe(argv[2]);
	}
	pbt::remove_scratch(g_tmp);
	return code;
}
