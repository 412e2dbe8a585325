/* sys_json.cpp passes a temporary where the constructor wants a non-const reference, which only MSVC takes:
   the calls there go through a copy. */
#include "stdafx.h"
#include "sys_json.h"

template <class M, class S>
static inline basicsys::sys_json_reader_iteartor vp_make_iterator(basicsys::u8 node_type, M map_iterator, S seq_iterator) {
	return basicsys::sys_json_reader_iteartor(node_type, map_iterator, seq_iterator);
}

#define sys_json_reader_iteartor(type, map_iterator, seq_iterator) vp_make_iterator(type, map_iterator, seq_iterator)
