// Property-based testing engine: every random choice of a case is drawn from a recorded choice sequence, so that a
// failing case shrinks and replays as that sequence. See engine.cpp.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64c;

struct Failure {
	std::string msg;
};
struct Discard {};

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK_THAT(cond, ...) do { if (!(cond)) { pbt::fail(__VA_ARGS__); } } while (0)

class Src {
public:
	// value in [0, n); n == 0: any 64-bit value. 0 is the simplest value.
	uint64_t draw(uint64_t n);
	// inclusive range, shrinks to lo
	int64_t range(int64_t lo, int64_t hi);
	// true with probability num / den, shrinks to false
	bool chance(int num, int den);
	bool coin() { return draw(2) == 1; }
	// index by weight, shrinks to 0
	int weighted(std::initializer_list<int> weights);
	template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
	template <class T> T pick(std::initializer_list<T> v) { return v.begin()[draw(v.size())]; }
	// size that favours small values but reaches hi
	int64_t size(int64_t lo, int64_t hi);
	// real with few significant digits in [lo, hi] (multiples of 1/den)
	double real(double lo, double hi, int den);
	uint64_t any() { return draw(0); }

	// The outcome of a case
	void nontrivial(bool v = true) { m_nontrivial = v; }
	void label(const char* name);
	void labelf(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// a readable description of the case (kept for a few cases, and shown with a failure)
	void note(const std::string& s);
	bool want_note() const { return m_want_note; }
	bool thorough() const { return m_thorough; }

	// Runs a case of another property of this program with choices drawn from here, then the same case again, `rounds`
	// times; after each of these `after` is called. Discards the case if the property fails (its own check tells).
	// With must_hold the repetitions have to hold where the first run did.
	void same_again(const char* id, int rounds, const std::function<void(int)>& after, const std::function<void(int)>& before = nullptr, bool must_hold = false);

	// Runs a case of each of these properties with choices drawn from here, one after the other, and then all of them at
	// once, each on a thread and with a scratch directory of its own. Returns what failed then, "" for what held. Discards
	// the case if one fails alone.
	std::vector<std::string> together(const std::vector<const char*>& ids);

	// engine side
	void begin(uint64_t seed, const uint64_t* replay, size_t n, uint64_t* rec, uint32_t* rec_n, size_t rec_cap);
	bool m_nontrivial, m_want_note, m_thorough;
	std::string m_note;
	uint64_t m_hash;
private:
	uint64_t next();
	uint64_t m_state;
	const uint64_t* m_replay;
	size_t m_replay_n, m_pos;
	uint64_t* m_rec;
	uint32_t* m_rec_n;
	size_t m_rec_cap;
};

typedef void (*PropFn)(Src&);
struct Property {
	const char* id;
	PropFn fn;
	int quick_cases, thorough_cases;	// total, over all the workers
	const char* rule;					// what counts as non-trivial
	const char* assumptions;			// one per line
};
struct Known {
	const char* id;			// property
	const char* key;		// as in known-findings.json
	bool (*still_fails)();	// runs in a process of its own; a crash counts as failing too
};
void add(const Property& p);
void add(const Known& k);
struct Reg {
	Reg(const Property& p) { add(p); }
	Reg(const Known& k) { add(k); }
};

#define PROPERTY(ID, QUICK, THOROUGH, RULE, ASSUME) \
	static void prop_##ID(pbt::Src& src); \
	static pbt::Reg reg_##ID(pbt::Property{#ID, prop_##ID, QUICK, THOROUGH, RULE, ASSUME}); \
	static void prop_##ID(pbt::Src& src)

#define KNOWN_FINDING(ID, KEY) \
	static bool known_##KEY(); \
	static pbt::Reg reg_known_##KEY(pbt::Known{#ID, #KEY, known_##KEY}); \
	static bool known_##KEY()

// per-process scratch directory, made and removed by the engine
const std::string& scratch_dir();

template <class T> std::string join(const std::vector<T>& v, const char* sep = ",") {
	std::string r;
	for (size_t i = 0; i < v.size(); ++i) {
		if (i) r += sep;
		r += std::to_string(v[i]);
	}
	return r;
}

}
