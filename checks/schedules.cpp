// Extractions and convolutions that work on several threads, under many schedules.
// modules: img
// noise
#include "img_common.h"
#include "mat_common.h"
#include "noise.h"
#include <memory>
namespace model {
#include "mser_model.cpp"
}
namespace ops {
#include "mat_ops.cpp"
}

PROPERTY(C42, 6000, 60000, "at least two threads took part, and the case is non-trivial for the property it was made for",
	"schedules are made by waiting at basic blocks, loads and stores of the code under test; when and how long is drawn, what the processors make of it is not") {
	quiet();
	im::g_parallel = true;
	static const std::vector<const char*> ids = {"C01", "C02", "C01", "C02", "C01", "C02", "C40", "C05"};
	const char* id = src.pick(ids);
	src.label(id);
	uint64_t seed = src.draw(1 << 20), gap = src.pick({1000, 300, 100, 3000, 20}), kind = src.draw(4);
	int rounds = (int)src.range(1, 3);
	src.note(pbt::strf("a case of %s, undisturbed, and under %d schedules from %d: a wait every %d steps, of kind %d", id, rounds, (int)seed, (int)gap, (int)kind));
	int threads = 0, most = 0;
	src.same_again(id, rounds, [&](int) {
		noise::off();
		threads = std::max(threads, (int)noise::g_arrived);
		most = std::max(most, (int)noise::g_pauses);
	}, [&](int i) { noise::on(seed + i, gap, kind); }, true);
	if (threads < 2 || !most) src.nontrivial(false);
	src.label(threads < 2 ? "one thread" : threads <= 4 ? "2 to 4 threads" : threads <= 8 ? "5 to 8 threads" : "more than 8 threads");
	src.label(most < 10 ? "less than 10 waits" : most < 100 ? "10 to 99 waits" : most < 1000 ? "100 to 999 waits" : "1000 waits and more");
}
