// What every check shares: a logger that stays silent, and the namespaces of the code under test.
#pragma once
#include "pbt.h"
#include <basiclog.h>
#include <basicsys.h>
using namespace basiclog;
using namespace basicsys;
#include <math.h>
#include <float.h>
#include <algorithm>
#include <map>
#include <set>

class silent_logger : public basiclog::log_logger {
public:
	silent_logger() : basiclog::log_logger() {
		enable_debug(false);
		enable_info(false);
		enable_warning(false);
		enable_error(false);
	}
protected:
	void print(const std::string&) {}
};

inline void quiet() {
	static bool done = false;
	if (!done) {
		done = true;
		basiclog::log_logger::init_logger(new silent_logger());
	}
}

// whether the case is the only one that runs, and may measure what the whole process holds
static bool g_alone = true;
