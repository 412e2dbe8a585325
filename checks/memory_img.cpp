// What images, components, edges, stroke widths and drawings hold in memory after their work.
// modules: img
#include "img_common.h"
#include "img_mser_result.h"
#include "img_stroke_width_transform.h"
#include <dirent.h>
#include <memory>
namespace other {
#include "mser_other.cpp"
}
namespace tools {
#include "img_tools.cpp"
}

extern "C" size_t __sanitizer_get_current_allocated_bytes();
static int open_files() {
	DIR* d = opendir("/proc/self/fd");
	if (!d) return 0;
	int n = 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

PROPERTY(C39, 6000, 200000, "the case is non-trivial for the property it was made for", "memory is what the program holds from malloc and new; growth counts when it repeats in five rounds of the same work") {
	quiet();
	static const std::vector<const char*> ids = {"C09", "C10", "C32", "C33", "C34", "C41"};
	const char* id = src.pick(ids);
	long long b[7];
	int fd[7];
	src.note(pbt::strf("a case of %s, seven times", id));
	src.same_again(id, 7, [&](int i) { b[i] = (long long)__sanitizer_get_current_allocated_bytes(); fd[i] = open_files(); });
	src.label(id);
	bool grows = true, more_files = true;
	for (int i = 2; i < 7; ++i) { grows = grows && b[i] > b[i - 1]; more_files = more_files && fd[i] > fd[i - 1]; }
	CHECK_THAT(!grows, "the memory in use grows each time the same case of %s runs: %lld, %lld, %lld, %lld, %lld, %lld bytes", id, b[1], b[2], b[3], b[4], b[5], b[6]);
	CHECK_THAT(!more_files, "the number of open files grows each time the same case of %s runs: %d, %d, ... %d", id, fd[1], fd[2], fd[6]);
}
