/* Force-included before each of the project's test files: sys_test and sys_test_equal count as before, and also
   write which function asserted what, so that each test function gets a result of its own. */
#pragma once
#include "test.h"

void vp_record(const char* function, bool passed, const char* text, int line);

#undef sys_test
#undef sys_test_equal

#define sys_test(condition) {	\
	bool vp_passed = (condition) ? true : false;	\
	basicsys::sys_tester::get_instance()->add_case_condition(vp_passed);	\
	vp_record(__PRETTY_FUNCTION__, vp_passed, #condition, __LINE__);	\
	}

#define sys_test_equal(a, b) {	\
	bool vp_passed = !((a) != (b));	\
	basicsys::sys_tester::get_instance()->add_case_condition(vp_passed);	\
	vp_record(__PRETTY_FUNCTION__, vp_passed, #a " == " #b, __LINE__);	\
	}
