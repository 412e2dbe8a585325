// The comparison extractors (vlfeat, idiap), the factory, and the memory of all extractors.
// modules: img
#include "img_common.h"
#include <typeinfo>
using namespace im;

extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct Kind { const char* name; std::string type; };
static const std::vector<Kind>& kinds() {
	static std::vector<Kind> k = {
		{"fast v1", typeid(img_fast_mser_v1).name()}, {"fast v2", typeid(img_fast_mser_v2).name()}, {"linked", typeid(img_linked_linear_mser).name()},
		{"recursive", typeid(img_ms_mser).name()}, {"opencv3", typeid(img_opencv3_mser).name()}, {"opencv", typeid(img_opencv_mser).name()},
		{"original", typeid(img_original_mser).name()}, {"idiap", typeid(img_idiap_mser).name()}, {"vlfeat", typeid(img_vlfeat_mser).name()}};
	return k;
}

// ------------------------------------------------------------------------------------------- vlfeat
typedef std::pair<int, int> GS;	// gray level and size
static bool gs_less(const GS& a, const GS& b) { return a.first != b.first ? a.first < b.first : a.second < b.second; }

// The regions by vlfeat's definition. close: a comparison of floats is too close to its limit to be decided here.
static std::vector<GS> vl_pass(const Image& im, const Params& p, bool inverted, bool& close, int& removed) {
	std::vector<Node> t = component_tree(im, p.eight);
	int n = (int)t.size();
	double nel = (double)im.w * im.h;
	std::vector<int> ord(n);
	for (int i = 0; i < n; ++i) ord[i] = i;
	std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return t[a].gray < t[b].gray; });
	std::vector<double> var(n, -1);
	std::vector<uint8_t> keep(n, 1);
	for (int i = 0; i < n; ++i) if (p.delta > 0) {
		int top = i;
		while (t[top].parent >= 0 && t[t[top].parent].gray <= t[i].gray + p.delta) top = t[top].parent;
		var[i] = (t[top].size - t[i].size) / (double)t[i].size;
	}
	auto near = [&](double a, double b) { if (a != b && fabs(a - b) < 1e-5 * (1 + fabs(b))) close = true; };
	if (p.nms >= 0) for (int i = 0; i < n; ++i) {
		int q = t[i].parent;
		if (q < 0 || t[q].gray > t[i].gray + 1) continue;
		double d = var[i] - var[q];
		near(fabs(d), p.nms);
		if (d < -(double)p.nms) keep[q] = 0; else if (-d < -(double)p.nms) keep[i] = 0;
	}
	for (int k = n - 1; k >= 0; --k) {
		int i = ord[k];
		if (!keep[i]) { ++removed; continue; }
		near(var[i], p.stable);
		if (fabs(t[i].size - p.max_ratio * nel) < 1e-3 && p.max_ratio != 1 && p.max_ratio != 0.5f && p.max_ratio != 0.25f) close = true;
		if (t[i].size == p.min_point && (float)(p.min_point / (float)nel) * (float)nel != (float)p.min_point) close = true;
		bool out = var[i] >= p.stable || t[i].size > p.max_ratio * nel || t[i].size < p.min_point;
		if (!out && p.dup > 0 && p.dup < 1 && t[i].parent >= 0) {
			int q = t[i].parent;
			while (!keep[q] && t[q].parent >= 0) q = t[q].parent;
			double div = (t[q].size - t[i].size) / (double)t[q].size;
			near(div, p.dup);
			if (fabs(div - p.dup) < 1e-6) close = true;
			out = div < p.dup;
		}
		if (out) { keep[i] = 0; ++removed; }
	}
	std::vector<GS> r;
	for (int i = 0; i < n; ++i) if (keep[i]) r.push_back(GS(inverted ? 255 - t[i].gray : t[i].gray, t[i].size));
	std::sort(r.begin(), r.end(), gs_less);
	return r;
}

static std::string list_of(const std::vector<GS>& v) {
	std::string s = pbt::strf("%zu regions:", v.size());
	for (size_t i = 0; i < v.size() && i < 30; ++i) s += pbt::strf(" (gray %d size %d)", v[i].first, v[i].second);
	return s;
}

PROPERTY(C35, 80000, 640000, "the reference returns at least two regions in one of the passes, or the idiap extractor ran on at least 12 pixels",
	"images without a mask\nfor vlfeat, cases in which a float comparison is within 1e-5 of its limit are skipped; regions are compared by gray level and size, the extractor returns no points\nthe idiap extractor returns no regions (its output code is commented out): only that it ends, stays within its memory, leaves the image alone and returns nothing is checked") {
	quiet();
	if (src.chance(1, 12)) {	// the factory
		const std::vector<Kind>& k = kinds();
		int i = (int)src.draw(k.size() + 2);
		std::string name = i < (int)k.size() ? k[i].type : i == (int)k.size() ? std::string() : k[src.draw(k.size())].type + "x";
		src.note("factory: " + name);
		src.label("factory");
		img_mser_base* a = img_mser_alg_factory(name).new_instance();
		if (i >= (int)k.size()) { CHECK_THAT(a == NULL, "the factory returns an instance for the unknown name '%s'", name.c_str()); return; }
		CHECK_THAT(a != NULL && typeid(*a).name() == name, "the factory does not return an instance of %s", k[i].name);
		delete a;
		return;
	}
	bool vl = src.chance(3, 4);
	src.label(vl ? "vlfeat" : "idiap");
	img_mser_base* a = vl ? (img_mser_base*)new img_vlfeat_mser() : (img_mser_base*)new img_idiap_mser();
	std::unique_ptr<img_mser_base> own(a);
	int rounds = src.chance(1, 3) ? (int)src.range(2, 4) : 1;
	Image img;
	for (int k = 0; k < rounds; ++k) {
		Params p = gen_params(src);
		p.eight = src.coin();
		if (vl) p.dup = src.pick({-1.0f, 0.0f, 0.1f, 0.2f, 0.5f, 0.9f, 1.0f});
		if (k == 0 || !src.chance(1, 3)) img = gen_image(src, Grid{1, 1, 1}, src.chance(1, 10) ? 90 : 30);
		src.note(std::string(vl ? "vlfeat " : "idiap ") + p.text());
		src.note(show(img));
		p.apply(*a);
		if (k && src.chance(1, 5)) { a->clear_memory_cache(); src.note("after clear_memory_cache"); }
		// idiap takes continuous images only, and asserts it
		mt_mat m = vl ? gen_mat(src, img) : to_mat(img);
		mt_mat before = m.clone();
		img_multi_msers res;
		a->extract(res, m);
		for (int y = 0; y < img.h; ++y) for (int x = 0; x < img.w; ++x) CHECK_THAT(m.at<u8>(y, x, 0) == img.at(x, y), "the extractor changes its image at row %d column %d", y, x);
		if (!vl) {
			CHECK_THAT(res.m_msers[0].empty() && res.m_msers[1].empty(), "the idiap extractor returns regions without points");
			if (img.w * img.h >= 12) src.nontrivial();
			continue;
		}
		for (int pass = 0; pass < 2; ++pass) {
			std::vector<GS> got;
			for (auto& r : res.m_msers[pass]) got.push_back(GS(r.m_gray_level, r.m_size));
			std::sort(got.begin(), got.end(), gs_less);
			if (!(pass ? p.from_max : p.from_min)) { CHECK_THAT(got.empty(), "pass %d is disabled and returns %s", pass, list_of(got).c_str()); continue; }
			bool close = false;
			int removed = 0;
			std::vector<GS> want = vl_pass(pass ? invert(img) : img, p, pass == 1, close, removed);
			if (close) { src.label("too close to decide"); continue; }
			if (want.size() > 1) src.nontrivial();
			if (removed) src.label("regions are removed");
			CHECK_THAT(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), "vlfeat mser, pass %d (%s regions), round %d: got %s\n expected %s", pass, pass ? "bright" : "dark", k, list_of(got).c_str(), list_of(want).c_str());
		}
	}
}

// ------------------------------------------------------------------------------------------- memory
PROPERTY(C36, 6000, 48000, "at least 12 pixels", "memory is what the program holds from malloc and new; growth counts when it repeats in three rounds of the same work") {
	quiet();
	const std::vector<Kind>& ks = kinds();
	int k = (int)src.draw(ks.size());
	src.label(ks[k].name);
	src.note(ks[k].name);
	auto threads = [&] { return k == 0 ? src.pick({1, 2, 4, 4, 8, 16, 32}) : k == 1 ? src.pick({1, 4, 4, 32}) : 1; };
	int tn = threads();
	int n = (int)src.range(1, 3);
	std::vector<mt_mat> mats;
	std::vector<Params> ps;
	std::vector<int> clear;
	std::vector<img_mask_info<u8>> masks;
	std::vector<int> times;
	bool masked = k == 2 || k == 6, lasting = src.chance(1, 8);	// some memory is given back after many small images
	if (lasting) { src.label("a large image and many small ones"); n = 2; }
	for (int i = 0; i < n; ++i) {
		if (i && src.chance(1, 4)) tn = threads();
		int mc = tn == 32 ? 8 : tn >= 8 ? 4 : tn >= 2 ? 2 : k == 4 ? 3 : 1, mr = tn >= 16 ? 4 : tn >= 4 ? 2 : k == 4 ? 3 : 1;
		Image img = gen_image(src, Grid{tn, mc, mr}, lasting && !i ? 60 : 24);
		times.push_back(lasting && i ? (int)src.range(11, 14) : 1);
		Params p = gen_params(src);
		p.threads = tn;
		p.eight = k == 2 || k == 8 || k == 7 ? src.coin() : false;
		p.recursive = src.pick({20, 1, 0, 5, -1, INT_MAX});
		mats.push_back(k == 7 ? to_mat(img) : gen_mat(src, img));
		ps.push_back(p);
		clear.push_back(src.weighted({6, 1, 1}));
		img_mask_info<u8> mk;
		if (masked && src.chance(1, 3)) { Image mi = img; for (auto& v : mi.d) v = !src.chance(1, 5); if (!mi.d[0]) mi.d[0] = 1; mk = img_mask_info<u8>(to_mat(mi)); }
		masks.push_back(mk);
		if (img.w * img.h >= 12) src.nontrivial();
		src.note(p.text() + (clear.back() == 1 ? " then clear_memory_cache" : clear.back() == 2 ? " after clear_memory_cache" : ""));
		src.note(show(img));
	}
	auto work = [&](img_mser_base& a) {
		for (int i = 0; i < n; ++i) {
			ps[i].apply(a);
			if (clear[i] == 2) a.clear_memory_cache();
			img_multi_msers res;
			for (int again = 1; again < times[i]; ++again) { img_multi_msers other; a.extract(other, mats[i], masks[i]); }
			a.extract(res, mats[i], masks[i]);
			img_multi_msers copy(res);
			if (clear[i] == 1) a.clear_memory_cache();
			res = copy;
		}
	};
	auto bytes = []() { return (i64)__sanitizer_get_current_allocated_bytes(); };
	bool life = src.coin();
	i64 b[5];
	if (life) {	// instances come and go
		src.label("instances come and go");
		for (int r = 0; r < 5; ++r) {
			img_mser_base* a = img_mser_alg_factory(ks[k].type).new_instance();
			work(*a);
			delete a;
			b[r] = bytes();
		}
	} else {
		img_mser_base* a = img_mser_alg_factory(ks[k].type).new_instance();
		for (int r = 0; r < 5; ++r) { work(*a); b[r] = bytes(); }
		delete a;
	}
	CHECK_THAT(!(b[2] > b[1] && b[3] > b[2] && b[4] > b[3]), "the memory in use grows with each round of the same %s (%s): %lld, %lld, %lld, %lld bytes", life ? "instances" : "extractions", ks[k].name, (long long)b[1], (long long)b[2], (long long)b[3], (long long)b[4]);
}
