// Data races, as the thread sanitizer reports them.
#pragma once
#include <sanitizer/tsan_interface.h>
#include <unistd.h>
#include <atomic>
#include <string>
#include <thread>

extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
}

namespace race {

struct Access { int tid, size, write; void* trace[6]; };
static std::atomic<int> g_reports(0);
static const char* g_what = "";
static Access g_access[2];
static int g_accesses = 0;	// of the first report

inline void reset() { g_reports = 0; }
inline int reports() { return g_reports; }

// the first report, with source positions if the symbolizer is there
inline std::string text() {
	std::string s = g_what;
	for (int i = 0; i < g_accesses; ++i) {
		const Access& a = g_access[i];
		s += pbt::strf("\n  %s of %d bytes by thread %d in", a.write ? "write" : "read", a.size, a.tid);
		std::string cmd = pbt::strf("llvm-symbolizer-18 -p -s -C -e /proc/%d/exe", (int)getpid());
		for (int k = 0; k < 6 && a.trace[k]; ++k) cmd += pbt::strf(" %p", a.trace[k]);
		cmd += " 2>/dev/null";
		FILE* f = popen(cmd.c_str(), "r");
		char line[400];
		while (f && fgets(line, sizeof line, f)) if (line[0] != '\n') { s += "\n    "; s += line; s.pop_back(); }
		if (f) pclose(f);
	}
	return s;
}

// The sanitizer must see a race where there is one, and none where OpenMP and the thread library order the accesses:
// otherwise nothing it says here means anything.
inline void self_test() {
	static bool done = false;
	if (done) return;
	done = true;
	reset();
	volatile int x = 0;
	int ordered = 0, sum[4] = {0, 0, 0, 0};
#pragma omp parallel for num_threads(4)
	for (int i = 0; i < 4; ++i) {
		sum[i] = i + 1;
#pragma omp critical
		ordered += i;
	}
	for (int i = 0; i < 4; ++i) ordered += sum[i];
#pragma omp parallel for num_threads(4)
	for (int i = 0; i < 4; ++i) sum[3 - i] += ordered;
	int none = g_reports;
	std::thread a([&] { x = x + 1; }), b([&] { x = x + 1; });
	a.join();
	b.join();
	int one = g_reports - none;
	reset();
	if (none || !one) {
		fprintf(stderr, "ERROR: the thread sanitizer reports %d races where there is none, and %d where there is one\n", none, one);
		_exit(97);
	}
}

}

// called with locks of the sanitizer held: nothing of the C library here
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void* report) {
	using namespace race;
	if (g_reports++) return;
	int n[7];
	void* sleep[1];
	__tsan_get_report_data(report, &g_what, &n[0], &n[1], &n[2], &n[3], &n[4], &n[5], &n[6], sleep, 1);
	g_accesses = 0;
	for (int i = 0; i < n[2] && i < 2; ++i) {
		Access& a = g_access[g_accesses++];
		int atomic;
		void* addr;
		for (int k = 0; k < 6; ++k) a.trace[k] = NULL;
		__tsan_get_report_mop(report, i, &a.tid, &addr, &a.size, &a.write, &atomic, a.trace, 6);
	}
}
