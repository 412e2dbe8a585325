// Images, the reference model of the MSER family, and decoding of what the extractors return.
#pragma once
#include "common.h"
#include <basicmath.h>
using namespace basicmath;
#include <opencv2/opencv.hpp>
#include "img_types.h"
#include "img_img.h"
#include "img_draw.h"
#include "img_canny.h"
#include "img_auto_threshold_canny.h"
#include "img_helper.h"
#include "img_connected_component.h"
#include "img_mser_base.h"
#include "img_linked_linear_mser.h"
#include "img_origin_mser.h"
#include "img_opencv_mser.h"
#include "img_opencv3_mser.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include "img_ms_mser.h"
#include "img_idiap_mser.h"
#include "img_vlfeat_mser.h"
#include "img_img.h"
#include "img_mser_helper.h"

namespace im {

using namespace basicmath;
using namespace basicimg;

struct Image {
	int w, h;
	std::vector<uint8_t> d;
	Image() : w(0), h(0) {}
	Image(int w_, int h_, int v = 0) : w(w_), h(h_), d((size_t)w_ * h_, (uint8_t)v) {}
	uint8_t& at(int x, int y) { return d[(size_t)y * w + x]; }
	uint8_t at(int x, int y) const { return d[(size_t)y * w + x]; }
};

inline std::string show(const Image& im) {
	std::string s = pbt::strf("%d x %d (w x h)\n", im.w, im.h);
	if (im.w * im.h > 3000) return s + "(large)\n";
	for (int y = 0; y < im.h; ++y) {
		for (int x = 0; x < im.w; ++x) s += pbt::strf("%d ", im.at(x, y));
		s += "\n";
	}
	return s;
}

inline Image invert(const Image& a) {
	Image r = a;
	for (auto& v : r.d) v = 255 - v;
	return r;
}

inline mt_mat to_mat(const Image& a) {
	mt_mat m(a.h, a.w, mt_U8C1);
	for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) m.at<u8>(y, x, 0) = a.at(x, y);
	return m;
}

// Draws an image. Small ones pixel by pixel, larger ones from a few shapes with sparse noise on top.
// A thread count of a fast mser and the partition grid it implies.
struct Grid { int threads, cols, rows; };
static bool g_parallel = false;	// only what takes several threads, for the check of schedules
inline Grid gen_grid(pbt::Src& s, std::initializer_list<Grid> grids, std::initializer_list<int> weights) {
	if (!g_parallel) return grids.begin()[s.weighted(weights)];
	return grids.begin()[1 + s.draw(grids.size() - 1)];
}

inline Image gen_image(pbt::Src& s, const Grid& g, int max_side) {
	int mode = s.weighted({8, 6, 6, 4, 4, 2, 4, 2});
	int cap = mode == 0 ? std::min(max_side, 14) : max_side;
	int w = (int)s.size(g.cols, cap), h = (int)s.size(g.rows, cap);
	Image im(w, h);
	int base = s.weighted({3, 2, 2}) ;
	int step = s.pick({1, 1, 2, 3, 10});
	base = base == 0 ? 0 : base == 1 ? (int)s.range(1, 200) : -1;	// -1: up to 255
	auto level = [&](int k, int n) { int v = base >= 0 ? base + k * step : 255 - (n - 1 - k) * step; return (uint8_t)std::max(0, std::min(255, v)); };
	switch (mode) {
	case 0: {	// every pixel on its own, few levels
		int n = (int)s.range(2, 8);
		for (auto& v : im.d) v = level((int)s.draw(n), n);
		break;
	}
	case 1: case 2: {	// shapes painted one over the other
		int n = (int)s.range(2, mode == 1 ? 12 : 60);
		uint8_t bg = level((int)s.draw(n), n);
		for (auto& v : im.d) v = bg;
		int shapes = (int)s.range(1, 14);
		for (int k = 0; k < shapes; ++k) {
			int x0 = (int)s.range(0, w - 1), y0 = (int)s.range(0, h - 1), rw = (int)s.range(1, w), rh = (int)s.range(1, h);
			int kind = s.weighted({3, 3, 2}), l = (int)s.draw(n), dl = (int)s.range(-3, 3);
			for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
				if (kind == 0) {		// box
					if (x >= x0 && x < x0 + rw && y >= y0 && y < y0 + rh) im.at(x, y) = level(l, n);
				} else {				// cone around a point: nested levels
					int d = kind == 1 ? abs(x - x0) + abs(y - y0) : std::max(abs(x - x0), abs(y - y0));
					if (d < rw) im.at(x, y) = level(std::max(0, std::min(n - 1, l + d * dl / 2)), n);
				}
			}
		}
		break;
	}
	case 3: {	// ramps and stripes
		int a = (int)s.range(0, 5), b = (int)s.range(0, 5), c = (int)s.range(1, 9), n = (int)s.range(2, 200);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = level(((a * x + b * y) / c) % n, n);
		break;
	}
	case 4: {	// noise from one seed
		uint64_t z = s.draw(1 << 20);
		int n = s.pick({2, 3, 5, 16, 100});
		for (auto& v : im.d) { z = z * 6364136223846793005ull + 1442695040888963407ull; v = level((int)((z >> 40) % n), n); }
		break;
	}
	case 5: {	// combs and spirals: long thin regions that reach across every partition
		int n = 6;
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = level((y % 2 == 0 || x == ((y / 2) % 2 ? 0 : w - 1)) ? 0 : 4, n);
		break;
	}
	case 7: {	// one long path through all the gray levels, and around it whatever is left
		int k = s.pick({1, 1, 2, 3}), up = (int)s.draw(2), off = s.pick({0, 0, 1, 128});
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			int q = std::min(255, (y * w + (y % 2 ? w - 1 - x : x)) * k / 2 + off);
			im.at(x, y) = (uint8_t)(up ? q : 255 - q);
		}
		break;
	}
	default: {	// smooth bumps
		int n = s.pick({8, 20, 60}), k = (int)s.range(1, 5);
		std::vector<int> bx, by, br;
		for (int i = 0; i < k; ++i) { bx.push_back((int)s.range(0, w - 1)); by.push_back((int)s.range(0, h - 1)); br.push_back((int)s.range(1, std::max(2, std::max(w, h)))); }
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			int best = n - 1;
			for (int i = 0; i < k; ++i) { int d = (x - bx[i]) * (x - bx[i]) + (y - by[i]) * (y - by[i]); best = std::min(best, d * (n - 1) / (br[i] * br[i])); }
			im.at(x, y) = level(best, n);
		}
	}
	}
	if (mode != 0 && mode != 4) {
		int k = (int)s.range(0, 12);
		for (int i = 0; i < k; ++i) im.at((int)s.range(0, w - 1), (int)s.range(0, h - 1)) = level((int)s.draw(12), 12);
	}
	s.labelf("image mode %d", mode);
	return im;
}

// The same pixels as a view into a larger image whose other pixels are unrelated.
inline mt_mat to_view(const Image& a, int left, int top, int right, int bottom, uint8_t fill) {
	mt_mat m(a.h + top + bottom, a.w + left + right, mt_U8C1);
	for (int y = 0; y < m.size()[0]; ++y) for (int x = 0; x < m.size()[1]; ++x) m.at<u8>(y, x, 0) = (u8)(fill + 37 * x + 11 * y);
	for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) m.at<u8>(y + top, x + left, 0) = a.at(x, y);
	return m.sub(mt_rect(left, top, a.w, a.h));
}

// An image as its own matrix or as a window of a larger one.
inline mt_mat gen_mat(pbt::Src& s, const Image& a) {
	if (!s.chance(1, 4)) return to_mat(a);
	s.label("window of a larger image");
	int l = (int)s.range(0, 3), t = (int)s.range(0, 3), r = (int)s.range(0, 3), b = (int)s.range(0, 3);
	return to_view(a, l, t, r, b, (uint8_t)s.draw(256));
}

// for checks that have threads of their own
static bool g_one_thread = false;

struct Params {
	int delta, min_point, threads, recursive;
	float dup, stable, nms, max_ratio;
	bool eight;
	bool from_min, from_max;
	std::string text() const {
		return pbt::strf("delta %d min_point %d max_ratio %g dup %g stable %g nms %g %d-connected threads %d recursive threshold %d from_min %d from_max %d",
			delta, min_point, max_ratio, dup, stable, nms, eight ? 8 : 4, threads, recursive, from_min, from_max);
	}
	void apply(img_mser_base& a) const {
		a.set_stable_delta(delta);
		a.set_duplicated_variation(dup);
		a.set_stable_max_variation(stable);
		a.set_nms_similarity(nms);
		a.set_connected_type(eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
		a.set_min_max_point(min_point, max_ratio);
		a.enable_extraction(from_min, from_max);
		a.set_recursive_point_threshold(recursive);
		a.set_parallel_thread_number(g_one_thread ? 1 : threads);
	}
};

inline Params gen_params(pbt::Src& s) {
	Params p;
	p.delta = s.pick({1, 1, 0, 2, 3, 5, 10, 40});
	p.min_point = s.pick({1, 2, 3, 5, 8, 20});
	p.max_ratio = s.pick({1.0f, 0.9f, 0.5f, 0.25f, 2.0f});
	p.dup = s.pick({-1.0f, 0.0f, 0.1f, 0.2f, 0.5f, 0.3f});
	p.stable = s.pick({FLT_MAX, 0.5f, 0.25f, 1.0f, 3.0f, 10.0f});
	p.nms = s.pick({-1.0f, 0.0f, 0.0f, 0.05f, 0.3f});
	p.eight = false;
	p.threads = 4;
	p.recursive = 20;
	p.from_min = !s.chance(1, 10);
	p.from_max = !s.chance(1, 10);
	return p;
}

// ------------------------------------------------------------------------------------------- reference model
struct Node {
	int gray, parent, size;
	int l, t, r, b;
	std::vector<int> own;		// pixels first joined at this level
	std::vector<int> kids;
	float var;
	bool invalid, valid;
};

// The component tree of img: for every gray level the components of {pixel <= level}; one node per component that
// holds a pixel of exactly that level. include: NULL or one flag per pixel.
inline std::vector<Node> component_tree(const Image& im, bool eight, const std::vector<uint8_t>* include = NULL) {
	int n = im.w * im.h;
	std::vector<int> order;
	for (int i = 0; i < n; ++i) if (!include || (*include)[i]) order.push_back(i);
	std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return im.d[a] < im.d[b]; });
	std::vector<int> uf(n, -1), node_of(n, -1);	// node_of is valid at roots
	std::vector<Node> t;
	std::function<int(int)> find = [&](int x) { while (uf[x] != x) { uf[x] = uf[uf[x]]; x = uf[x]; } return x; };
	for (size_t a = 0; a < order.size();) {
		size_t e = a;
		int g = im.d[order[a]];
		while (e < order.size() && im.d[order[e]] == g) ++e;
		for (size_t i = a; i < e; ++i) {
			int p = order[i], x = p % im.w, y = p / im.w;
			uf[p] = p;
			Node nd;
			nd.gray = g; nd.parent = -1; nd.size = 1; nd.l = nd.r = x; nd.t = nd.b = y; nd.own.push_back(p);
			nd.var = -1; nd.invalid = nd.valid = false;
			int me = (int)t.size();
			t.push_back(nd);
			node_of[p] = me;
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				if (!dx && !dy) continue;
				if (!eight && dx && dy) continue;
				int nx = x + dx, ny = y + dy;
				if (nx < 0 || ny < 0 || nx >= im.w || ny >= im.h) continue;
				int q = ny * im.w + nx;
				if (uf[q] < 0) continue;
				int rp = find(p), rq = find(q);
				if (rp == rq) continue;
				int np = node_of[rp], nq = node_of[rq];
				if (t[nq].gray == g) {
					// same level: one node takes over the other
					Node& A = t[np];
					Node& B = t[nq];
					if (A.own.size() < B.own.size()) { A.own.swap(B.own); A.kids.swap(B.kids); }
					A.own.insert(A.own.end(), B.own.begin(), B.own.end());
					A.kids.insert(A.kids.end(), B.kids.begin(), B.kids.end());
					A.size += B.size;
					A.l = std::min(A.l, B.l); A.r = std::max(A.r, B.r); A.t = std::min(A.t, B.t); A.b = std::max(A.b, B.b);
					B.size = 0; B.own.clear(); B.kids.clear();
				} else {
					Node& A = t[np];
					Node& B = t[nq];
					A.kids.push_back(nq);
					A.size += B.size;
					A.l = std::min(A.l, B.l); A.r = std::max(A.r, B.r); A.t = std::min(A.t, B.t); A.b = std::max(A.b, B.b);
				}
				uf[rq] = rp;
				node_of[rp] = np;
			}
		}
		a = e;
	}
	// drop the emptied nodes
	std::vector<int> id(t.size(), -1);
	std::vector<Node> res;
	for (size_t i = 0; i < t.size(); ++i) if (t[i].size > 0) { id[i] = (int)res.size(); res.push_back(t[i]); }
	for (size_t i = 0; i < res.size(); ++i) for (auto& k : res[i].kids) { k = id[k]; res[k].parent = (int)i; }
	return res;
}

inline void collect(const std::vector<Node>& t, int n, std::vector<int>& out) {
	std::vector<int> st(1, n);
	while (!st.empty()) {
		int k = st.back();
		st.pop_back();
		out.insert(out.end(), t[k].own.begin(), t[k].own.end());
		st.insert(st.end(), t[k].kids.begin(), t[k].kids.end());
	}
	std::sort(out.begin(), out.end());
}

struct Region {
	int gray, size, l, t, r, b;
	std::vector<int> px;	// sorted
	bool operator<(const Region& o) const { return gray != o.gray ? gray < o.gray : size != o.size ? size < o.size : px < o.px; }
	bool operator==(const Region& o) const { return gray == o.gray && size == o.size && l == o.l && t == o.t && r == o.r && b == o.b && px == o.px; }
};
inline std::string show(const Region& r, int w) {
	std::string s = pbt::strf("gray %d size %d rect [%d..%d]x[%d..%d] pixels", r.gray, r.size, r.l, r.r, r.t, r.b);
	for (size_t i = 0; i < r.px.size() && i < 12; ++i) s += pbt::strf(" (%d,%d)", r.px[i] % w, r.px[i] / w);
	if (r.px.size() > 12) s += " ...";
	return s;
}

// what the model says one pass returns; img is already inverted for the second pass
struct ModelStats { int ers, invalid_var, nms, dup, vars; };
inline std::vector<Region> model_pass(const Image& im, const Params& p, bool inverted, const std::vector<uint8_t>* include, ModelStats* st = NULL, bool root_ok = false) {
	std::vector<Node> t = component_tree(im, p.eight, include);
	ModelStats ms = {(int)t.size(), 0, 0, 0, 0};
	int max_point = (int)(p.max_ratio * im.h * im.w);
	for (auto& n : t) {
		n.invalid = false;
		if (p.delta > 0) {
			int th = n.gray + p.delta;
			const Node* s = &n;
			while (s->parent >= 0 && t[s->parent].gray <= th) s = &t[s->parent];
			if (s->parent >= 0 || s->gray == th) n.var = (s->size - n.size) / (float)n.size; else n.var = -1;
			if (n.var >= 0) ++ms.vars;
			if (n.var > p.stable) { n.invalid = true; ++ms.invalid_var; continue; }
		}
		if (n.size < p.min_point || n.size > max_point || (n.parent < 0 && !root_ok)) n.invalid = true;
	}
	if (p.delta > 0 && p.nms >= 0) {
		std::vector<uint8_t> kill(t.size(), 0);
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i].parent < 0) continue;
			Node& c = t[i];
			Node& q = t[c.parent];
			if (c.var >= 0 && q.var >= 0 && q.gray == c.gray + 1) {
				double d = q.var - c.var;
				if (d > p.nms) kill[c.parent] = 1;
				else if (-d > p.nms) kill[i] = 1;
			}
		}
		for (size_t i = 0; i < t.size(); ++i) if (kill[i]) { if (!t[i].invalid) ++ms.nms; t[i].invalid = true; }
	}
	if (p.dup > 0) {
		std::vector<int> ord;
		for (size_t i = 0; i < t.size(); ++i) if (!t[i].invalid) ord.push_back((int)i);
		std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return t[a].gray < t[b].gray; });
		auto chain = [&](std::vector<int>& v, int stable, int from) {
			for (int q = t[from].parent; q >= 0; q = t[q].parent) {
				if (t[q].size > max_point) break;
				if ((t[q].size - t[stable].size) / (double)t[stable].size > p.dup) break;
				if (t[q].valid || t[q].invalid) continue;
				v.push_back(q);
			}
		};
		for (int i : ord) {
			if (t[i].invalid || t[i].valid) continue;
			std::vector<int> v(1, i);
			chain(v, i, i);
			int mid = (int)v.size() / 2;
			if (mid > 0) chain(v, v[mid], v.back());
			for (int j = 0; j < (int)v.size(); ++j) {
				if (j == mid) t[v[j]].valid = true; else { t[v[j]].invalid = true; ++ms.dup; }
			}
		}
	}
	std::vector<Region> res;
	for (size_t i = 0; i < t.size(); ++i) if (!t[i].invalid) {
		Region r;
		r.gray = inverted ? 255 - t[i].gray : t[i].gray;
		r.size = t[i].size; r.l = t[i].l; r.r = t[i].r; r.t = t[i].t; r.b = t[i].b;
		collect(t, (int)i, r.px);
		res.push_back(r);
	}
	std::sort(res.begin(), res.end());
	if (st) *st = ms;
	return res;
}

// ------------------------------------------------------------------------------------------- decoding
inline void add_px(std::vector<int>& px, const mt_point* b, const mt_point* e, int w, int h) {
	for (; b != e; ++b) {
		CHECK_THAT(b->m_x >= 0 && b->m_y >= 0 && b->m_x < w && b->m_y < h, "a region holds the point (%d,%d) outside the %d x %d image", (int)b->m_x, (int)b->m_y, w, h);
		px.push_back(b->m_y * w + b->m_x);
	}
}

// The pixels of a region, by the memory layouts that img_mser_helper::image_from_mser reads.
inline void decode_pixels(const img_mser& m, std::vector<int>& px, int w, int h) {
	size_t limit = (size_t)w * h * 4 + 64;
	if (m.m_memory_type == img_mser::Memory_Type_Self || m.m_memory_type == img_mser::Memory_Type_Share || m.m_memory_type == img_mser::Memory_Type_Range) {
		CHECK_THAT(m.m_size == 0 || m.m_points != NULL, "a region of %d pixels has no point memory", m.m_size);
		CHECK_THAT(m.m_size >= 0 && m.m_size <= w * h, "a region of %d pixels in an image of %d", m.m_size, w * h);
		add_px(px, m.m_points, m.m_points + m.m_size, w, h);
		return;
	}
	std::vector<const img_mser*> st(1, &m);
	while (!st.empty()) {
		const img_mser* q = st.back();
		st.pop_back();
		CHECK_THAT(px.size() < limit, "the pixels of a region do not end");
		if (q->m_memory_type == img_mser::Memory_Type_Share_Parallel_4 || q->m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
			for (int k = 0; k < 4; ++k) {
				if (q->m_points[k].m_x == q->m_points[k].m_y) continue;
				add_px(px, q->m_points + q->m_points[k].m_x, q->m_points + q->m_points[k].m_y, w, h);
			}
			if (q->m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
				const i32* c = (const i32*)(q->m_points + 4);
				for (int k = 0; k < c[0]; ++k) st.push_back(q + c[k + 1]);
			}
		} else if (q->m_memory_type == img_mser::Memory_Type_Recursive) {
			int n = q->m_points[0].m_x, k = q->m_points[0].m_y;
			add_px(px, q->m_points + 1, q->m_points + 1 + n, w, h);
			const i32* c = (const i32*)(q->m_points + 1 + n);
			for (int i = 0; i < k; ++i) st.push_back(q + c[i]);
		} else {
			CHECK_THAT(q->m_size >= 0 && q->m_size <= w * h, "a region of %d pixels in an image of %d", q->m_size, w * h);
			add_px(px, q->m_points, q->m_points + q->m_size, w, h);
		}
	}
}

inline Region decode(const img_mser& m, int w, int h) {
	Region r;
	r.gray = m.m_gray_level;
	r.size = m.m_size;
	r.l = m.m_rect.m_left;
	r.t = m.m_rect.m_top;
	r.r = m.m_rect.m_left + m.m_rect.m_width - 1;
	r.b = m.m_rect.m_top + m.m_rect.m_height - 1;
	decode_pixels(m, r.px, w, h);
	std::sort(r.px.begin(), r.px.end());
	return r;
}

inline std::vector<Region> decode_all(const std::vector<img_mser>& v, int w, int h) {
	std::vector<Region> res;
	for (auto& m : v) res.push_back(decode(m, w, h));
	std::sort(res.begin(), res.end());
	return res;
}

inline bool same(const std::vector<Region>& a, const std::vector<Region>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

inline std::string diff(const std::vector<Region>& got, const std::vector<Region>& want, int w) {
	std::string s = pbt::strf("%zu regions, expected %zu\n", got.size(), want.size());
	int k = 0;
	for (auto& r : want) if (!std::binary_search(got.begin(), got.end(), r) && k++ < 4) s += "  missing  " + show(r, w) + "\n";
	k = 0;
	for (auto& r : got) if (!std::binary_search(want.begin(), want.end(), r) && k++ < 4) s += "  surplus  " + show(r, w) + "\n";
	k = 0;
	for (size_t i = 0; i < got.size() && i < want.size() && k < 2; ++i) if (!(got[i] == want[i])) { s += "  first difference: got " + show(got[i], w) + "\n    expected " + show(want[i], w) + "\n"; ++k; break; }
	return s;
}

inline void check_rects(const std::vector<Region>& v, int w, const char* what) {
	for (auto& r : v) {
		int l = 1 << 20, t = 1 << 20, rr = -1, b = -1;
		for (int p : r.px) { int x = p % w, y = p / w; l = std::min(l, x); rr = std::max(rr, x); t = std::min(t, y); b = std::max(b, y); }
		CHECK_THAT(r.px.empty() || (l == r.l && t == r.t && rr == r.r && b == r.b), "%s: the rectangle of a region is not the bounding box of its pixels: %s", what, show(r, w).c_str());
	}
}

// ------------------------------------------------------------------------------------------- for recorded findings
inline bool differs(img_mser_base& a, const Params& p, const Image& img, const img_mask_info<u8>& info, const std::vector<uint8_t>& include, bool root_ok) {
	quiet();
	p.apply(a);
	img_multi_msers res;
	a.extract(res, to_mat(img), info);
	for (int pass = 0; pass < 2; ++pass) {
		std::vector<Region> want = model_pass(pass == 0 ? img : invert(img), p, pass == 1, &include, NULL, root_ok);
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		if (!same(got, want)) return true;
	}
	return false;
}

inline Params all_regions() {
	Params p;
	p.delta = 1; p.min_point = 1; p.max_ratio = 1; p.stable = FLT_MAX; p.nms = -1; p.dup = -1;
	p.from_min = p.from_max = true; p.eight = false; p.recursive = 20; p.threads = 1;
	return p;
}

inline Image step_image() {
	Image im(8, 8, 50);
	for (int y = 2; y < 6; ++y) for (int x = 2; x < 6; ++x) im.at(x, y) = 10;
	im.at(3, 3) = 5; im.at(6, 1) = 200; im.at(0, 7) = 0;
	return im;
}

// ------------------------------------------------------------------------------------------- masks
struct Mask {
	int type;	// 0 none, 1 rect, 2 image, 3 value
	mt_rect rect;
	Image image;
	uint8_t value;
	std::vector<uint8_t> include;
	bool any, all;
};

inline Mask gen_mask(pbt::Src& s, const Image& im, std::initializer_list<int> types) {
	Mask m;
	m.type = s.pick(types);
	m.include.assign(im.w * im.h, 1);
	m.value = 0;
	if (m.type == 1) {
		int l = (int)s.range(0, im.w - 1), t = (int)s.range(0, im.h - 1), w = (int)s.range(1, im.w - l), h = (int)s.range(1, im.h - t);
		m.rect = mt_rect(l, t, w, h);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.include[y * im.w + x] = x >= l && x < l + w && y >= t && y < t + h;
		s.note(pbt::strf("rect mask left %d top %d %d x %d", l, t, w, h));
	} else if (m.type == 2) {
		m.image = Image(im.w, im.h);
		int kind = s.weighted({2, 3, 2});
		if (kind == 0) { int d = (int)s.range(1, 8); for (auto& v : m.image.d) v = !s.chance(1, d + 1); }
		else {
			for (auto& v : m.image.d) v = kind == 1;
			int k = (int)s.range(1, 4);
			for (int i = 0; i < k; ++i) {
				int l = (int)s.range(0, im.w - 1), t = (int)s.range(0, im.h - 1), w = (int)s.range(1, im.w - l), h = (int)s.range(1, im.h - t);
				for (int y = t; y < t + h; ++y) for (int x = l; x < l + w; ++x) m.image.at(x, y) = kind != 1;
			}
		}
		for (size_t i = 0; i < m.include.size(); ++i) m.include[i] = m.image.d[i] == 1;
		s.note("mask image " + show(m.image));
	} else if (m.type == 3) {
		m.value = s.chance(1, 6) ? (uint8_t)s.draw(256) : im.d[s.draw(im.d.size())];
		for (size_t i = 0; i < m.include.size(); ++i) m.include[i] = im.d[i] != m.value;
		s.note(pbt::strf("masked value %d", m.value));
	}
	m.any = std::find(m.include.begin(), m.include.end(), 1) != m.include.end();
	m.all = std::find(m.include.begin(), m.include.end(), 0) == m.include.end();
	const char* n[] = {"no mask", "rect mask", "image mask", "value mask"};
	s.label(n[m.type]);
	return m;
}

inline img_mask_info<u8> info_of(pbt::Src& s, const Mask& m) {
	if (m.type == 1) return img_mask_info<u8>(m.rect);
	if (m.type == 2) return img_mask_info<u8>(gen_mat(s, m.image));
	if (m.type == 3) return img_mask_info<u8>(m.value);
	return img_mask_info<u8>();
}

}
