// Schedules: at basic blocks, loads and stores of the code under test, a thread now and then waits, yields or sleeps. When and how
// long comes from a seed, from the order in which the threads come by, and from nothing else.
#pragma once
#include <omp.h>
#include <sched.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

namespace noise {

static volatile int g_epoch = 0;	// 0: no noise
static volatile uint64_t g_seed, g_gap, g_kind;
static std::atomic<uint32_t> g_arrived(0), g_pauses(0);
static thread_local int t_epoch = 0;
static thread_local uint64_t t_state, t_left;

inline uint64_t next() {
	uint64_t z = t_state += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static int g_last = 0;
inline void on(uint64_t seed, uint64_t gap, uint64_t kind) {
	g_seed = seed;
	g_gap = gap;
	g_kind = kind;
	g_arrived = 0;
	g_pauses = 0;
	g_epoch = ++g_last;
}
inline void off() { g_epoch = 0; }

inline void wait_a_bit() {
	if (!omp_in_parallel()) return;		// a thread that is alone disturbs nobody
	if (g_pauses >= 4000) return;
	++g_pauses;
	uint64_t r = next();
	switch (g_kind == 3 ? r % 3 : g_kind) {
	case 0: for (volatile int i = 0, n = (int)((r >> 8) % 4000); i < n; i = i + 1) {} break;
	case 1: sched_yield(); break;
	default: { timespec t = {0, (long)((r >> 8) % 60000)}; nanosleep(&t, NULL); }
	}
}

inline void here() {
	int e = g_epoch;
	if (!e) return;
	if (t_epoch != e) {
		t_epoch = e;
		t_state = g_seed + 0x1000003ull * ++g_arrived;
		// some threads run far ahead of the others
		t_left = 1 + next() % (g_gap * (next() % 4 == 0 ? 20 : 2));
	}
	if (--t_left == 0) {
		wait_a_bit();
		t_left = 1 + next() % (g_gap * 2);
	}
}

}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { noise::here(); }
void __sanitizer_cov_load1(uint8_t*) { noise::here(); }
void __sanitizer_cov_load2(uint16_t*) { noise::here(); }
void __sanitizer_cov_load4(uint32_t*) { noise::here(); }
void __sanitizer_cov_load8(uint64_t*) { noise::here(); }
void __sanitizer_cov_load16(__uint128_t*) { noise::here(); }
void __sanitizer_cov_store1(uint8_t*) { noise::here(); }
void __sanitizer_cov_store2(uint16_t*) { noise::here(); }
void __sanitizer_cov_store4(uint32_t*) { noise::here(); }
void __sanitizer_cov_store8(uint64_t*) { noise::here(); }
void __sanitizer_cov_store16(__uint128_t*) { noise::here(); }
}
