// The MSER extractors against the reference model of the component tree.
// modules: img
#include "img_common.h"
using namespace im;

static std::string pass_error(const std::vector<Region>& got, const std::vector<Region>& want, int pass, int w) {
	return pbt::strf("pass %d (%s regions): ", pass, pass ? "bright" : "dark") + diff(got, want, w);
}

// What the extractor returns for an image must be what the model returns.
static void compare(pbt::Src& s, img_mser_base& alg, const Params& p, const Image& img, const char* what) {
	img_multi_msers res;
	alg.extract(res, gen_mat(s, img), img_mask_info<u8>());
	for (int pass = 0; pass < 2; ++pass) {
		bool on = pass == 0 ? p.from_min : p.from_max;
		std::vector<Region> want;
		ModelStats st = {0, 0, 0, 0, 0};
		if (on) want = model_pass(pass == 0 ? img : invert(img), p, pass == 1, NULL, &st);
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		if (want.size() > 1) s.nontrivial();
		if (st.nms) s.label("regions suppressed by neighbours");
		if (st.dup) s.label("duplicates removed");
		if (st.invalid_var) s.label("unstable regions removed");
		if (want.size() > 50) s.label("more than 50 regions");
		CHECK_THAT(same(got, want), "%s, %s", what, pass_error(got, want, pass, img.w).c_str());
	}
}

// Now and then an image that fills what small ones cannot: blocks of region memory, the list of points met along a
// long border of two partitions, or the space beside the heap (more regions than every second pixel).
static Image image_for(pbt::Src& src, const Grid& g) {
	int big = src.thorough() ? 60 : 250;
	if (!src.chance(1, big)) return gen_image(src, g, src.chance(1, 10) ? 90 : 40);
	uint64_t z = src.draw(1 << 20);
	auto rnd = [&](int n) { z = z * 6364136223846793005ull + 1442695040888963407ull; return (int)((z >> 40) % n); };
	int kind = src.weighted({3, 2, 2});
	if (kind == 0) {
		src.label("large image");
		Image im((int)src.range(150, 420), (int)src.range(150, 420));
		int n = src.pick({256, 2, 7, 60});
		for (auto& v : im.d) v = (uint8_t)rnd(n);
		return im;
	}
	if (kind == 1) {
		src.label("long narrow image");
		int a = (int)src.range(8, 14), b = (int)src.range(800, 4000), n = src.pick({2, 256, 5, 40});
		bool tall = src.coin();
		Image im(tall ? a : b, tall ? b : a);
		int mode = (int)src.draw(3), period = (int)src.range(2, 5);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
			int along = tall ? y : x, across = tall ? x : y;
			if (mode == 0) im.at(x, y) = (uint8_t)rnd(n);
			else if (mode == 1) im.at(x, y) = (uint8_t)(along % period == 0 ? 255 : (along / period) % 2 ? across * 9 + rnd(3) : 120 - across * 9 + rnd(3));	// rungs
			else im.at(x, y) = (uint8_t)((across == 0 || across == a - 1) ? rnd(200) : along % period == 0 ? 250 : rnd(n));
		}
		return im;
	}
	src.label("ramps");
	int len = (int)src.range(180, 255), rows = (int)src.range(std::max(g.cols, g.rows) / 2 + 1 + 2 * (g.cols == 1), 9);	// at least a line for every partition
	bool flip = src.coin();
	Image im(flip ? 2 * rows - 1 : len, flip ? len : 2 * rows - 1);
	for (int r = 0; r < 2 * rows - 1; ++r) {
		bool back = rnd(2), up = rnd(4) > 0;
		int off = rnd(256 - len);
		for (int k = 0; k < len; ++k) {
			int v = r % 2 ? 255 : off + (back ? len - 1 - k : k) + (up ? 0 : rnd(2));
			(flip ? im.at(r, k) : im.at(k, r)) = (uint8_t)v;
		}
	}
	return im;
}

#define RULE "the reference returns at least two regions in one of the passes"
#define COMMON "images have at least one row and one column for every partition of the thread count\nduplicate variation is at most 0.5 (above it the surviving region depends on the order among equal gray levels)\n4-connected images without a mask"

PROPERTY(C01, 16000, 100000, RULE, COMMON) {
	quiet();
	Params p = gen_params(src);
	Grid g = gen_grid(src, {{1, 1, 1}, {2, 2, 1}, {4, 2, 2}, {8, 4, 2}, {16, 4, 4}, {32, 8, 4}}, {6, 6, 8, 4, 2, 1});
	p.threads = g.threads;
	p.eight = g.threads == 1 && src.coin();
	Image img = image_for(src, g);
	src.labelf("threads %2d%s", p.threads, p.eight ? ", 8-connected" : "");
	src.note(p.text());
	src.note(show(img));
	img_fast_mser_v1 a;
	p.apply(a);
	compare(src, a, p, img, "fast mser v1");
}

PROPERTY(C02, 16000, 100000, RULE, COMMON) {
	quiet();
	Params p = gen_params(src);
	Grid g = gen_grid(src, {{1, 1, 1}, {4, 2, 2}, {32, 8, 4}}, {6, 6, 2});
	p.threads = g.threads;
	p.recursive = src.pick({20, 20, 1, 0, 5, 100, -1, INT_MAX});
	Image img = image_for(src, g);
	src.labelf("threads %2d", p.threads);
	src.note(p.text());
	src.note(show(img));
	img_fast_mser_v2 a;
	p.apply(a);
	compare(src, a, p, img, "fast mser v2");
}

PROPERTY(C03, 60000, 300000, RULE, "duplicate variation is at most 0.5 (above it the surviving region depends on the order among equal gray levels)\nimages without a mask") {
	quiet();
	Params p = gen_params(src);
	p.eight = src.coin();
	Image img = image_for(src, Grid{1, 1, 1});
	src.label(p.eight ? "8-connected" : "4-connected");
	src.note(p.text());
	src.note(show(img));
	img_linked_linear_mser a;
	p.apply(a);
	compare(src, a, p, img, "linked linear mser");
}

PROPERTY(C04, 80000, 400000, RULE, COMMON) {
	quiet();
	Params p = gen_params(src);
	p.recursive = src.pick({20, 20, 1, 0, 5, 100, -1, INT_MAX});
	Image img = image_for(src, Grid{1, 1, 1});
	src.note(p.text());
	src.note(show(img));
	img_ms_mser a;
	p.apply(a);
	compare(src, a, p, img, "recursive mser");
}

// ---------------------------------------------------------------------------------- histories on one instance
static img_mser_base* make(int k) {
	switch (k) {
	case 0: return new img_fast_mser_v1();
	case 1: return new img_fast_mser_v2();
	case 2: return new img_linked_linear_mser();
	case 3: return new img_ms_mser();
	case 4: return new img_opencv3_mser();
	case 5: return new img_opencv_mser();
	default: return new img_original_mser();
	}
}
static const char* alg_name[] = {"fast mser v1", "fast mser v2", "linked linear mser", "recursive mser", "opencv3 mser", "opencv mser", "original mser"};

static Grid grid_for(pbt::Src& src, int k) {
	if (k == 0) return gen_grid(src, {{1, 1, 1}, {2, 2, 1}, {4, 2, 2}, {8, 4, 2}, {16, 4, 4}, {32, 8, 4}}, {6, 6, 8, 4, 2, 1});
	if (k == 1) return gen_grid(src, {{1, 1, 1}, {4, 2, 2}, {32, 8, 4}}, {6, 6, 1});
	if (k == 4) return Grid{1, 3, 3};
	return Grid{1, 1, 1};
}

PROPERTY(C05, 12000, 72000, "an instance extracted at least three times, and regions came out at least twice", "images have at least one row and one column for every partition of the thread count\n4-connected images without a mask for the fast variants\nat least 3x3 pixels for the opencv3 variant, whose outermost pixels are a border") {
	quiet();
	int k = src.weighted({4, 4, 3, 3, 1, 1, 1});
	if (getenv("ALG")) k = atoi(getenv("ALG"));
	src.label(alg_name[k]);
	img_mser_base* a = make(k);
	// long ones are for what is decided by counting extractions
	bool lasting = src.chance(1, 12);
	int n = lasting ? (int)src.range(12, 30) : (int)src.range(2, 6);
	int rest = lasting ? (int)src.range(1, n - 1) : 0;	// small images until then
	if (lasting) src.label("more than ten extractions");
	std::vector<img_multi_msers*> kept;
	std::vector<std::vector<Region> > first[2];
	std::vector<Image> imgs;
	std::vector<mt_mat> ins;
	int with = 0;
	Params p = gen_params(src);
	Grid g = grid_for(src, k);
	src.note(alg_name[k]);
	for (int i = 0; i < n; ++i) {
		if (i && !lasting && src.coin()) p = gen_params(src);
		if (i && !lasting && src.chance(1, 3)) g = grid_for(src, k);
		p.threads = g.threads;
		p.eight = k == 2 && src.coin();
		Image img;
		int reuse = i && !lasting ? src.weighted({2, 2, 1}) : 0;
		if (reuse == 1) {	// same shape, other pixels
			Grid fixed = g;
			Image other = gen_image(src, fixed, 30);
			img = imgs.back();
			if (img.w < g.cols || img.h < g.rows) img = other;
			else for (size_t q = 0; q < img.d.size(); ++q) img.d[q] = other.d[q % other.d.size()];
		} else if (reuse == 2 && imgs.back().w >= g.cols && imgs.back().h >= g.rows) {
			img = imgs.back();
		} else {
			img = gen_image(src, g, lasting ? (i && i < rest ? std::max(6, std::max(g.cols, g.rows)) : 60) : src.chance(1, 4) ? 60 : 20);
		}
		src.note(p.text());
		src.note(show(img));
		if (i && src.chance(1, lasting ? 20 : 5)) { a->clear_memory_cache(); src.label("memory cache cleared"); src.note("memory cache cleared before"); }
		p.apply(*a);
		img_multi_msers* r = new img_multi_msers();
		mt_mat m = gen_mat(src, img);
		ins.push_back(m);
		img_mask_info<u8> info;
		if ((k == 2 || k == 6) && src.chance(1, 3)) {	// detectors that follow masks
			Mask mk = k == 2 ? gen_mask(src, img, {2, 3}) : gen_mask(src, img, {1, 2, 3});
			if (mk.any) info = info_of(src, mk);
		}
		a->extract(*r, m, info);
		img_mser_base* fresh = make(k);
		p.apply(*fresh);
		img_multi_msers want;
		fresh->extract(want, m, info);
		std::vector<Region> d[2];
		for (int pass = 0; pass < 2; ++pass) {
			std::vector<Region> w = decode_all(want.m_msers[pass], img.w, img.h);
			d[pass] = decode_all(r->m_msers[pass], img.w, img.h);
			CHECK_THAT(same(d[pass], w), "%s, extraction %d on one instance differs from a new instance: %s", alg_name[k], i, pass_error(d[pass], w, pass, img.w).c_str());
			first[pass].push_back(d[pass]);
		}
		delete fresh;
		if (!d[0].empty() || !d[1].empty()) ++with;
		kept.push_back(r);
		imgs.push_back(img);
	}
	bool gone = src.coin();
	if (gone) { delete a; src.label("extractor destroyed before the results are read"); }
	for (size_t i = 0; i < kept.size(); ++i) for (int pass = 0; pass < 2; ++pass) {
		std::vector<Region> now = decode_all(kept[i]->m_msers[pass], imgs[i].w, imgs[i].h);
		CHECK_THAT(same(now, first[pass][i]), "%s, the result of extraction %zu changed after later extractions: %s", alg_name[k], i, pass_error(now, first[pass][i], pass, imgs[i].w).c_str());
	}
	for (size_t i = 0; i < ins.size(); ++i) for (int y = 0; y < imgs[i].h; ++y) for (int x = 0; x < imgs[i].w; ++x)
		CHECK_THAT(*ins[i].ptr<u8>(y, x) == imgs[i].d[y * imgs[i].w + x], "%s: pixel (%d,%d) of the image given to extraction %zu changed", alg_name[k], x, y, i);
	if (n >= 3 && with >= 2) src.nontrivial();
	for (auto r : kept) delete r;
	if (!gone) delete a;
}

// ------------------------------------------------------------------------------------------- recorded findings
KNOWN_FINDING(C01, fast1_image_smaller_than_partitions) {
	img_fast_mser_v1 a;
	Params p = all_regions();
	p.threads = 32;
	Image im(3, 2, 9);
	im.at(0, 0) = 1;
	return differs(a, p, im, img_mask_info<u8>(), std::vector<uint8_t>(6, 1), false);
}

KNOWN_FINDING(C02, fast2_image_smaller_than_partitions) {
	img_fast_mser_v2 a;
	Params p = all_regions();
	p.threads = 32;
	Image im(3, 2, 9);
	im.at(0, 0) = 1;
	return differs(a, p, im, img_mask_info<u8>(), std::vector<uint8_t>(6, 1), false);
}

template <class T> static bool eight_connected_fails() {
	T a;
	Params p = all_regions();
	p.eight = true;
	Image im(6, 6, 9);
	for (int i = 0; i < 4; ++i) im.at(i + 1, i + 1) = 2;
	return differs(a, p, im, img_mask_info<u8>(), std::vector<uint8_t>(36, 1), false);
}
KNOWN_FINDING(C01, fast1_eight_connected) {
	Image im(6, 6);
	im.d = {10,12,10,11,12,11, 11,10,12,11,12,10, 11,10,11,10,12,10, 11,11,12,11,10,11, 11,12,10,10,12,10, 10,12,11,12,12,10};
	Params p = all_regions();
	p.eight = true;
	p.threads = 4;
	img_fast_mser_v1 a;
	return differs(a, p, im, img_mask_info<u8>(), std::vector<uint8_t>(36, 1), false);
}
KNOWN_FINDING(C02, fast2_eight_connected) { return eight_connected_fails<img_fast_mser_v2>(); }
KNOWN_FINDING(C04, recursive_eight_connected) { return eight_connected_fails<img_ms_mser>(); }

template <class T> static bool mask_fails() {
	T a;
	Image im = step_image(), mk(8, 8, 1);
	std::vector<uint8_t> inc(64, 1);
	for (int i = 0; i < 8; ++i) mk.at(i, 3) = inc[24 + i] = 0;
	return differs(a, all_regions(), im, img_mask_info<u8>(to_mat(mk)), inc, true);
}
KNOWN_FINDING(C01, fast1_mask) { return mask_fails<img_fast_mser_v1>(); }
KNOWN_FINDING(C02, fast2_mask) { return mask_fails<img_fast_mser_v2>(); }
KNOWN_FINDING(C04, recursive_mask) { return mask_fails<img_ms_mser>(); }

