// Detectors and image tools of different threads.
// modules: img
// sanitizer: thread
#include "img_common.h"
#include "img_mser_result.h"
#include "img_stroke_width_transform.h"
#include "threads.h"
#include <memory>
namespace model {
#include "mser_model.cpp"
}
namespace other {
#include "mser_other.cpp"
}
namespace tools {
#include "img_tools.cpp"
}

PROPERTY(C43, 16000, 300000, "at least one of the cases is non-trivial for the property it was made for",
	"races are those that the thread sanitizer sees in the order of events of the run\nthe fast extractors work on one thread here: their own threads are the matter of C42") {
	quiet();
	race::self_test();
	im::g_one_thread = true;
	static const std::vector<const char*> all = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C32", "C33", "C34", "C41"};
	std::vector<const char*> ids;
	int n = (int)src.range(2, 4);
	for (int i = 0; i < n; ++i) ids.push_back(src.pick(all));
	for (auto i : ids) src.label(i);
	race::reset();
	std::vector<std::string> r = src.together(ids);
	for (size_t i = 0; i < r.size(); ++i) CHECK_THAT(r[i].empty(), "a case of %s holds alone and fails next to cases on other threads: %s", ids[i], r[i].c_str());
	CHECK_THAT(!race::reports(), "%d races between objects of different threads: %s", race::reports(), race::text().c_str());
}
