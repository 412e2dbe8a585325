// Matrices and mathematical tools of different threads, and matrices whose elements threads share.
// modules: math
// sanitizer: thread
#include "mat_common.h"
#include "mt_auto_derivative.h"
#include <mt_angle_helper.h>
#include <mt_mat_cache.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <set>
#include <string>
#include "threads.h"
namespace views {
#include "mat_views.cpp"
}
namespace ops {
#include "mat_ops.cpp"
}
namespace more {
#include "mat_more.cpp"
}
namespace tools {
#include "math_tools.cpp"
}

// ------------------------------------------------------------------------------------------- shared elements
namespace {
using namespace mm;

struct Step { int kind, from, to, a, b; };
struct Sharer {
	std::vector<Step> steps;
	std::vector<mt_mat> own;	// matrices of this thread only
	std::string result;

	// copies, views and releases: none changes an element, so that several threads may do them with the same elements
	void run(const std::vector<mt_mat>& common) {
		result.clear();
		for (auto& st : steps) {
			const mt_mat& m = st.from < (int)common.size() ? common[st.from] : own[(st.from - common.size()) % own.size()];
			mt_mat& to = own[st.to % own.size()];
			if (st.kind == 0) { to = mt_mat(); continue; }
			if (m.dim() == 0) continue;
			int d = st.a % m.dim(), n = m.size()[d];
			switch (st.kind) {
			case 1: to = m; break;
			case 2: { mt_mat v(m), w; w = v; to = w; break; }
			case 3: { int lo = st.b % n, hi = lo + 1 + st.a % (n - lo); to = m.sub(lo, hi, d); break; }
			case 4: to = m.index(st.b % n, d); break;
			case 5: to = m.flip(d); break;
			case 6: to = m.swap_dim(d, st.b % m.dim()); break;
			case 7: to = m.channel_at(st.b % m.channel()); break;
			case 8: { std::vector<mt_mat> many(1 + st.b % 4, m); to = many.back(); break; }
			case 9: { mt_mat c = m.clone(); result += show(c) + "\n"; break; }
			case 10: result += pbt::strf("%d\n", (int)(m.reference_number() > 0)); break;
			default: result += show(m) + "\n";
			}
		}
		for (auto& m : own) result += m.dim() ? show(m) + "\n" : std::string("empty\n");
	}
	void release() { for (auto& m : own) m = mt_mat(); }
};

void shared_case(pbt::Src& s) {
	s.label("shared elements");
	Opt o;
	o.max_dim = 3;
	o.max_elements = 60;
	std::vector<mt_mat> common;
	int nc = (int)s.range(1, 3), nt = (int)s.range(2, 4);
	{
		std::vector<Laid> l;
		for (int i = 0; i < nc; ++i) l.push_back(lay_out(s, gen_model(s, o)));
		for (auto& x : l) common.push_back(x.m);
	}
	std::vector<int> refs;
	for (auto& m : common) refs.push_back(m.reference_number());
	std::vector<Sharer> ts(nt);
	for (int t = 0; t < nt; ++t) {
		int slots = (int)s.range(1, 4), n = (int)s.size(1, 30);
		ts[t].own.resize(slots);
		for (int i = 0; i < n; ++i) {
			Step st;
			st.kind = (int)s.draw(12);
			st.from = (int)s.draw(nc + slots);
			st.to = (int)s.draw(slots);
			st.a = (int)s.draw(24);
			st.b = (int)s.draw(24);
			ts[t].steps.push_back(st);
			if (s.want_note()) s.note(pbt::strf("thread %d: operation %d of %d into %d (%d, %d)", t, st.kind, st.from, st.to, st.a, st.b));
		}
		if (n > 5) s.nontrivial();
	}
	std::vector<std::string> want;
	for (auto& t : ts) { t.run(common); want.push_back(t.result); t.release(); }
	bool keep = s.coin();	// what a thread still holds at its end is released by the main thread, or by the thread itself
	race::reset();
	std::vector<std::thread> run;
	std::atomic<int> ready(0);
	for (auto& t : ts) run.emplace_back([&] {
		++ready;
		while (ready < nt) sched_yield();
		t.run(common);
		if (!keep) t.release();
	});
	for (auto& r : run) r.join();
	for (int t = 0; t < nt; ++t) CHECK_THAT(ts[t].result == want[t], "thread %d sees\n%s instead of\n%s", t, ts[t].result.c_str(), want[t].c_str());
	for (auto& t : ts) t.release();
	for (int i = 0; i < nc; ++i) CHECK_THAT(common[i].reference_number() == refs[i], "a matrix of %d references has %d after the threads released theirs", refs[i], common[i].reference_number());
	common.clear();
	CHECK_THAT(!race::reports(), "%d races between threads that copy, view, read and release matrices of shared elements: %s", race::reports(), race::text().c_str());
}
}

PROPERTY(C44, 24000, 400000, "at least one of the cases is non-trivial for the property it was made for, or a thread does more than five operations with shared elements",
	"races are those that the thread sanitizer sees in the order of events of the run\nmemory that the threads write is not shared: the library does not promise anything there") {
	quiet();
	race::self_test();
	int mode = src.weighted({6, 3, 1});
	if (mode == 1) { shared_case(src); return; }
	if (mode == 2) {	// the mat cache, which all threads share by design: the cases of C27 bring threads of their own
		src.label("C27");
		race::reset();
		src.same_again("C27", 1, [](int) {});
		CHECK_THAT(!race::reports(), "%d races between threads that use the mat cache: %s", race::reports(), race::text().c_str());
		return;
	}
	static const std::vector<const char*> all = {"C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C22", "C23", "C24", "C25", "C26", "C28", "C40"};
	std::vector<const char*> ids;
	int n = (int)src.range(2, 4);
	for (int i = 0; i < n; ++i) ids.push_back(src.pick(all));
	for (auto i : ids) src.label(i);
	race::reset();
	std::vector<std::string> r = src.together(ids);
	for (size_t i = 0; i < r.size(); ++i) CHECK_THAT(r[i].empty(), "a case of %s holds alone and fails next to cases on other threads: %s", ids[i], r[i].c_str());
	CHECK_THAT(!race::reports(), "%d races between objects of different threads: %s", race::reports(), race::text().c_str());
}
