// Matrices of every depth and layout, and a plain model of what they hold.
#pragma once
#include "common.h"
#include <basicmath.h>
using namespace basicmath;
#include "mt_mat_helper.h"
#include "mt_mat_cache.h"

namespace mm {

typedef std::vector<int> Ints;
typedef std::vector<double> Vals;

inline int count(const Ints& size) { int n = 1; for (int s : size) n *= s; return n; }

inline double raw_get(const u8* p, mt_Depth d) {
	switch (d) {
	case mt_U8: return *p;
	case mt_I8: return *(const i8*)p;
	case mt_U16: return *(const u16*)p;
	case mt_I16: return *(const i16*)p;
	case mt_U32: return *(const u32*)p;
	case mt_I32: return *(const i32*)p;
	case mt_U64: return (double)*(const u64*)p;
	case mt_I64: return (double)*(const i64*)p;
	case mt_F32: return *(const f32*)p;
	default: return *(const f64*)p;
	}
}
inline void raw_set(u8* p, mt_Depth d, double v) {
	switch (d) {
	case mt_U8: *p = (u8)v; break;
	case mt_I8: *(i8*)p = (i8)v; break;
	case mt_U16: *(u16*)p = (u16)v; break;
	case mt_I16: *(i16*)p = (i16)v; break;
	case mt_U32: *(u32*)p = (u32)v; break;
	case mt_I32: *(i32*)p = (i32)v; break;
	case mt_U64: *(u64*)p = (u64)v; break;
	case mt_I64: *(i64*)p = (i64)v; break;
	case mt_F32: *(f32*)p = (f32)v; break;
	default: *(f64*)p = v;
	}
}

inline Ints sizes_of(const mt_mat& m) { return Ints(m.size(), m.size() + m.dim()); }
inline Ints steps_of(const mt_mat& m) { return Ints(m.step(), m.step() + m.dim()); }

// next index in row-major order
inline bool advance(Ints& idx, const Ints& size) {
	for (int i = (int)size.size() - 1; i >= 0; --i) {
		if (++idx[i] < size[i]) return true;
		idx[i] = 0;
	}
	return false;
}

// All values, row-major, channels innermost, read with nothing but the address, sizes and steps.
inline Vals values(const mt_mat& m) {
	Vals r;
	Ints size = sizes_of(m), step = steps_of(m), idx(size.size(), 0);
	int es = mt_Depth_Size[m.depth()];
	if (m.is_empty() || count(size) == 0) return r;
	do {
		const u8* p = m.data();
		for (size_t i = 0; i < size.size(); ++i) p += (ptrdiff_t)idx[i] * step[i];
		for (int c = 0; c < m.channel(); ++c) r.push_back(raw_get(p + c * es, m.depth()));
	} while (advance(idx, size));
	return r;
}

inline std::string show_values(const Ints& size, int ch, const Vals& v) {
	std::string s = "[" + pbt::join(size) + "]x" + std::to_string(ch) + ":";
	for (size_t i = 0; i < v.size() && i < 200; ++i) {
		if (size.size() && i && i % (size.back() * ch) == 0) s += " |";
		s += pbt::strf(" %.9g", v[i]);
	}
	return s;
}
inline std::string show(const mt_mat& m) { return std::string(mt_Depth_Channel::depth_str(m.depth())) + show_values(sizes_of(m), m.channel(), values(m)) + " steps " + pbt::join(steps_of(m)); }

// The model of a matrix.
struct Model {
	mt_Depth depth;
	int ch;
	Ints size;
	Vals v;
	int n() const { return count(size); }
	std::string text() const { return mt_Depth_Channel::depth_str(depth) + show_values(size, ch, v); }
};

inline Model model_of(const mt_mat& m) { return Model{m.depth(), m.channel(), sizes_of(m), values(m)}; }

inline bool same_ints(const Ints& a, const Ints& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
inline bool same_vals(const Vals& a, const Vals& b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false;
	return true;
}
inline bool near_vals(const Vals& a, const Vals& b, double rel, double abs_tol) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) {
		if (a[i] == b[i] || (a[i] != a[i] && b[i] != b[i])) continue;
		double d = fabs(a[i] - b[i]);
		if (!(d <= abs_tol + rel * std::max(fabs(a[i]), fabs(b[i])))) return false;
	}
	return true;
}

inline void expect(const mt_mat& got, const Model& want, const std::string& what, double rel = 0, double abs_tol = 0) {
	CHECK_THAT(got.depth() == want.depth && got.channel() == want.ch && same_ints(sizes_of(got), want.size),
		"%s: got a matrix of %s %d channels [%s], expected %s %d channels [%s]", what.c_str(), mt_Depth_Channel::depth_str(got.depth()).c_str(), got.channel(), pbt::join(sizes_of(got)).c_str(),
		mt_Depth_Channel::depth_str(want.depth).c_str(), want.ch, pbt::join(want.size).c_str());
	Vals g = values(got);
	CHECK_THAT(rel == 0 && abs_tol == 0 ? same_vals(g, want.v) : near_vals(g, want.v, rel, abs_tol), "%s:\n got      %s\n expected %s", what.c_str(), show_values(want.size, want.ch, g).c_str(), show_values(want.size, want.ch, want.v).c_str());
}

inline const std::vector<mt_Depth>& all_depths() {
	static std::vector<mt_Depth> d = {mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64};
	return d;
}

inline bool is_float(mt_Depth d) { return d == mt_F32 || d == mt_F64; }
inline bool is_udepth(mt_Depth d) { return d == mt_U8 || d == mt_U16 || d == mt_U32 || d == mt_U64; }
inline double depth_max(mt_Depth d) {
	switch (d) {
	case mt_U8: return 255; case mt_I8: return 127; case mt_U16: return 65535; case mt_I16: return 32767; case mt_U32: return 4294967295.0; case mt_I32: return 2147483647.0;
	case mt_F32: return 16777216; default: return 9007199254740992.0;
	}
}
inline double depth_min(mt_Depth d) {
	switch (d) {
	case mt_I8: return -128; case mt_I16: return -32768; case mt_I32: return -2147483648.0; case mt_I64: case mt_F64: return -9007199254740992.0; case mt_F32: return -16777216;
	default: return 0;
	}
}

// A value the depth represents exactly. kind 0: small; 1: also the extremes.
inline double gen_value(pbt::Src& s, mt_Depth d, int kind) {
	if (kind && s.chance(1, 6)) return s.coin() ? depth_max(d) : depth_min(d);
	if (is_float(d)) return s.chance(1, 3) ? (double)s.range(-20, 20) : (double)s.range(-400, 400) / 8;
	if (is_udepth(d)) return (double)s.range(0, s.chance(1, 3) ? 100 : 9);
	return (double)s.range(0, s.chance(1, 3) ? 100 : 9) * (s.coin() ? -1 : 1);
}

struct Opt {
	std::vector<mt_Depth> depths = all_depths();
	int min_dim = 1, max_dim = 4, max_side = 6, max_ch = 6, max_elements = 300, kind = 1;
};

inline Ints gen_sizes(pbt::Src& s, const Opt& o, int dims) {
	Ints r(dims);
	int left = o.max_elements;
	for (auto& x : r) { x = (int)s.size(1, std::max(1, std::min(o.max_side, left))); left /= x; }
	for (int i = dims - 1; i > 0; --i) std::swap(r[i], r[s.draw(i + 1)]);
	return r;
}

inline Model gen_model(pbt::Src& s, const Opt& o) {
	Model m;
	m.depth = s.pick(o.depths);
	m.ch = (int)s.size(1, o.max_ch);
	m.size = gen_sizes(s, o, (int)s.range(o.min_dim, o.max_dim));
	m.v.resize(m.n() * m.ch);
	for (auto& v : m.v) v = gen_value(s, m.depth, o.kind);
	return m;
}

// A real matrix with the contents of a model: in memory of its own or as a window of a larger one, with any order and
// direction of its dimensions and any margin of channels. `layout` bits say what may vary: 1 windows, 2 order of
// dimensions, 4 direction, 8 channel margins.
struct Laid {
	mt_mat m, base;
	std::vector<u8> before;		// bytes of base before
	std::vector<u8> mine;		// 1 for bytes that belong to m
	bool plain;
	void snapshot() { const mt_mat& b = base; before.assign(b.memory_data(), b.memory_data() + b.memory_size()); }
	// bytes outside m are as they were (all of them, if m itself must not change either)
	void check_rest(const std::string& what, bool all) const {
		const mt_mat& cb = base;
		const u8* b = cb.memory_data();
		for (size_t i = 0; i < before.size(); ++i) if ((all || !mine[i]) && b[i] != before[i]) pbt::fail("%s: changed byte %d of the memory, which %s", what.c_str(), (int)i, mine[i] ? "belongs to its argument" : "no argument covers");
	}
};

inline Laid lay_out(pbt::Src& s, const Model& md, int layout = 15) {
	Laid r;
	int nd = (int)md.size.size();
	bool plain = layout == 0 || s.chance(1, 3);
	Ints perm(nd), lo(nd, 0), hi(nd, 0), flip(nd, 0);
	for (int i = 0; i < nd; ++i) perm[i] = i;
	int cl = 0, chh = 0;
	if (!plain) {
		if ((layout & 2) && s.chance(1, 3)) for (int i = nd - 1; i > 0; --i) std::swap(perm[i], perm[s.draw(i + 1)]);
		if ((layout & 1) && s.chance(2, 3)) for (int i = 0; i < nd; ++i) { lo[i] = (int)s.draw(3); hi[i] = (int)s.draw(3); }
		if ((layout & 4) && s.chance(1, 3)) { int all = s.chance(1, 3); for (int i = 0; i < nd; ++i) flip[i] = all || s.coin(); }
		if ((layout & 8) && s.chance(1, 4)) { cl = (int)s.draw(3); chh = (int)s.draw(3); }
	}
	Ints bs(nd);	// base dimension i is dimension perm[i] of the matrix
	for (int i = 0; i < nd; ++i) bs[i] = md.size[perm[i]] + lo[i] + hi[i];
	mt_mat base;
	base.create(nd, bs.data(), mt_Depth_Channel(md.depth, md.ch + cl + chh));
	u8* bp = base.data();
	int es = mt_Depth_Size[md.depth], el = es * (md.ch + cl + chh);
	int total = count(bs) * (md.ch + cl + chh);
	for (int i = 0; i < total; ++i) raw_set(bp + i * es, md.depth, (i * 29 + 11) % 101);
	Ints bstep(nd), step(nd);
	for (int i = nd - 1, acc = el; i >= 0; --i) { bstep[i] = acc; acc *= bs[i]; }
	ptrdiff_t off = cl * es;
	for (int i = 0; i < nd; ++i) {
		off += lo[i] * bstep[i];
		step[perm[i]] = bstep[i];
	}
	for (int i = 0; i < nd; ++i) if (flip[i]) { off += (ptrdiff_t)(md.size[i] - 1) * step[i]; step[i] = -step[i]; }
	r.plain = plain;
	r.mine.assign((size_t)total * es, 0);
	Ints idx(nd, 0);
	size_t k = 0;
	do {
		ptrdiff_t o = off;
		for (int i = 0; i < nd; ++i) o += (ptrdiff_t)idx[i] * step[i];
		for (int c = 0; c < md.ch; ++c) { raw_set(bp + o + c * es, md.depth, md.v[k++]); for (int b = 0; b < es; ++b) r.mine[o + c * es + b] = 1; }
	} while (advance(idx, md.size));
	// the same through the views the library offers
	mt_mat m = base;
	if (!plain) {
		std::vector<mt_range> rg;
		for (int i = 0; i < nd; ++i) rg.push_back(mt_range(lo[i], lo[i] + md.size[perm[i]]));
		m = m.sub(nd, rg.data());
		if (cl || chh) m = m.sub_channel(cl, cl + md.ch);
		Ints at(perm);	// at[i]: dimension of the matrix now found at i
		for (int i = 0; i < nd; ++i) {
			int j = i;
			while (at[j] != i) ++j;
			if (j != i) { m = m.swap_dim(i, j); std::swap(at[i], at[j]); }
		}
		for (int i = 0; i < nd; ++i) if (flip[i]) m = m.flip(i);
		CHECK_THAT(((const mt_mat&)m).data() == bp + off && same_ints(steps_of(m), step) && same_ints(sizes_of(m), md.size), "a view made with sub, sub_channel, swap_dim and flip does not cover the elements asked for");
		if (cl || chh) s.label("part of the channels");
		if (!std::is_sorted(perm.begin(), perm.end())) s.label("dimensions in another order");
		if (std::find(flip.begin(), flip.end(), 1) != flip.end()) s.label("flipped");
		if (count(lo) || total != (int)md.v.size()) s.label("window of a larger matrix");
	}
	r.m = m;
	r.base = base;
	r.snapshot();
	return r;
}

}
