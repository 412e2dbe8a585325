// The other MSER extractors, masks, symmetries and results.
// modules: img
#include "img_common.h"
using namespace im;

static std::string pass_error(const std::vector<Region>& got, const std::vector<Region>& want, int pass, int w) {
	return pbt::strf("pass %d (%s regions): ", pass, pass ? "bright" : "dark") + diff(got, want, w);
}

static Image image_for(pbt::Src& src, int min_side) { return gen_image(src, Grid{1, min_side, min_side}, src.chance(1, 10) ? 90 : 40); }

PROPERTY(C06, 160000, 960000, "the reference returns at least two regions in one of the passes", "at least one pixel is not masked\nduplicate variation is at most 0.5") {
	quiet();
	Params p = gen_params(src);
	p.eight = src.coin();
	Image img = image_for(src, 1);
	src.label(p.eight ? "8-connected" : "4-connected");
	src.note(p.text());
	src.note(show(img));
	Mask mk = gen_mask(src, img, {0, 1, 2, 3});
	if (!mk.any) throw pbt::Discard();
	img_original_mser a;
	p.apply(a);
	img_multi_msers res;
	mt_mat m = gen_mat(src, img);
	a.extract(res, m, info_of(src, mk));
	for (int pass = 0; pass < 2; ++pass) {
		bool on = pass == 0 ? p.from_min : p.from_max;
		std::vector<Region> want;
		if (on) want = model_pass(pass == 0 ? img : invert(img), p, pass == 1, &mk.include, NULL, true);
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		if (want.size() > 1) src.nontrivial();
		CHECK_THAT(same(got, want), "original mser, %s", pass_error(got, want, pass, img.w).c_str());
	}
}

// ------------------------------------------------------------------------------------------- opencv3
// Its definition differs: the outermost pixels are a border, the variation looks delta levels up and down.
static std::vector<Region> opencv3_pass(const Image& im, const Params& p, bool inverted, bool& tie) {
	std::vector<uint8_t> inc(im.w * im.h, 0);
	for (int y = 1; y < im.h - 1; ++y) for (int x = 1; x < im.w - 1; ++x) inc[y * im.w + x] = 1;
	std::vector<Node> t = component_tree(im, false, &inc);
	int max_point = (int)(p.max_ratio * im.h * im.w);
	size_t n = t.size();
	std::vector<int> big(n, -1);
	for (size_t i = 0; i < n; ++i) {
		int best = -1;
		bool even = false;
		for (int k : t[i].kids) {
			if (best < 0 || t[k].size > t[best].size) { best = k; even = false; }
			else if (t[k].size == t[best].size) even = true;
		}
		big[i] = best;
		if (even && p.delta > 0) tie = true;
	}
	std::vector<float> var(n, FLT_MAX);
	for (size_t i = 0; i < n; ++i) {
		if (t[i].size < p.min_point) continue;
		int h1 = (int)i, h0 = (int)i;
		while (t[h1].parent >= 0 && t[t[h1].parent].gray <= t[i].gray + p.delta) h1 = t[h1].parent;
		while (big[h0] >= 0 && t[big[h0]].gray >= t[i].gray - p.delta) h0 = big[h0];
		var[i] = (float)(t[h1].size - t[h0].size) / t[i].size;
	}
	std::vector<Region> res;
	for (size_t i = 0; i < n; ++i) {
		if (t[i].size < p.min_point || t[i].size > max_point || var[i] > p.stable) continue;
		bool drop = false;
		if (p.nms >= 0) {
			for (int k : t[i].kids) if (t[i].gray == t[k].gray + 1 && var[i] - var[k] > p.nms) drop = true;
			int q = t[i].parent;
			if (q >= 0 && t[q].gray == t[i].gray + 1 && var[i] - var[q] > p.nms) drop = true;
		}
		if (drop) continue;
		Region r;
		r.gray = inverted ? 255 - t[i].gray : t[i].gray;
		r.size = t[i].size; r.l = t[i].l; r.r = t[i].r; r.t = t[i].t; r.b = t[i].b;
		collect(t, (int)i, r.px);
		res.push_back(r);
	}
	std::sort(res.begin(), res.end());
	return res;
}

PROPERTY(C07, 150000, 900000, "the reference returns at least two regions in one of the passes", "images of at least 3x3 pixels without a mask\nimages in which two children of a node have the same largest size are skipped unless delta is 0 (the definition leaves the choice open)") {
	quiet();
	Params p = gen_params(src);
	Image img = image_for(src, 3);
	src.note(p.text());
	src.note(show(img));
	img_opencv3_mser a;
	p.apply(a);
	img_multi_msers res;
	mt_mat m = gen_mat(src, img);
	a.extract(res, m);
	for (int pass = 0; pass < 2; ++pass) {
		bool on = pass == 0 ? p.from_min : p.from_max;
		std::vector<Region> want;
		bool tie = false;
		if (on) want = opencv3_pass(pass == 0 ? img : invert(img), p, pass == 1, tie);
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		if (tie) { src.label("children of equal size"); continue; }
		if (want.size() > 1) src.nontrivial();
		CHECK_THAT(same(got, want), "opencv3 mser, %s", pass_error(got, want, pass, img.w).c_str());
	}
}

// Basins around a few points that rise unevenly with the distance: many steps of growth.
static Image basins(pbt::Src& s) {
	int w = (int)s.size(1, 30), h = (int)s.size(1, 30), k = (int)s.range(1, 4);
	Image im(w, h, (int)s.range(10, 255));
	for (int i = 0; i < k; ++i) {
		int x0 = (int)s.range(0, w - 1), y0 = (int)s.range(0, h - 1), shape = (int)s.draw(3);
		std::vector<int> rise(1, (int)s.range(0, 60));
		for (int d = 1; d < w + h; ++d) rise.push_back(rise.back() + (d < 14 ? s.weighted({3, 4, 2, 1, 1}) : d % 3));
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			int dx = abs(x - x0), dy = abs(y - y0), d = shape == 0 ? dx + dy : shape == 1 ? std::max(dx, dy) : dx + dy / 2;
			im.at(x, y) = std::min((int)im.at(x, y), std::min(255, rise[d]));
		}
	}
	int flaws = (int)s.range(0, 8);
	for (int i = 0; i < flaws; ++i) im.at((int)s.range(0, w - 1), (int)s.range(0, h - 1)) = (uint8_t)s.draw(80);
	return im;
}

// ------------------------------------------------------------------------------------------- opencv
// The published algorithm of OpenCV 2: flooding from the first pixel, neighbours right, down, left, up, the last found
// boundary pixel of the lowest level first. A component that is about to rise to a higher level is judged one step back:
// by the growth since the latest step at least delta levels lower (but the last), whether that growth has just begun to rise
// (or a level was skipped), and how much it grew since the last region taken from it.
struct CvComp {
	int gray;
	std::vector<int> px;
	std::vector<std::pair<int, int> > steps;	// gray level and size
	int taken;									// size of the last region taken
	double growth;
	bool rising;
	CvComp(int g) : gray(g), taken(0), growth(0), rising(true) {}
};
static std::vector<Region> opencv_pass(const Image& im, const Params& p, bool inverted) {
	std::vector<Region> res;
	int max_point = (int)(p.max_ratio * im.h * im.w);
	auto judge = [&](CvComp& c) {
		if (c.steps.empty()) return;
		int g = c.steps.back().first, size = c.steps.back().second;
		if (size < p.min_point || size > max_point) return;
		int from = 0;
		for (int i = 0; i + 1 < (int)c.steps.size(); ++i) if (c.steps[i].first + p.delta <= c.gray) from = i;
		double growth = (double)((int)c.px.size() - c.steps[from].second) / (double)c.steps[from].second;
		bool rising = c.growth < growth || g + 1 < c.gray;
		bool take = rising && !c.rising && c.growth < p.stable && (double)(size - c.taken) / (double)size > p.dup;
		c.growth = growth;
		c.rising = rising;
		if (!take) return;
		c.taken = size;
		Region r;
		r.gray = inverted ? 255 - g : g;
		r.size = size;
		r.px.assign(c.px.begin(), c.px.begin() + size);
		std::sort(r.px.begin(), r.px.end());
		r.l = r.t = 1 << 20; r.r = r.b = -1;
		for (int q : r.px) { int x = q % im.w, y = q / im.w; r.l = std::min(r.l, x); r.r = std::max(r.r, x); r.t = std::min(r.t, y); r.b = std::max(r.b, y); }
		res.push_back(r);
	};
	auto step = [](CvComp& c) { c.steps.push_back(std::make_pair(c.gray, (int)c.px.size())); };
	std::vector<std::vector<int> > edge(256);
	std::vector<uint8_t> seen(im.d.size(), 0), dir(im.d.size(), 0);
	std::vector<CvComp> st(1, CvComp(im.d[0]));
	int at = 0;
	seen[0] = 1;
	for (;;) {
		while (dir[at] < 4) {
			const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
			int x = at % im.w + dx[dir[at]], y = at / im.w + dy[dir[at]];
			++dir[at];
			if (x < 0 || y < 0 || x >= im.w || y >= im.h || seen[y * im.w + x]) continue;
			int to = y * im.w + x;
			seen[to] = 1;
			if (im.d[to] < im.d[at]) {
				edge[im.d[at]].push_back(at);
				at = to;
				st.push_back(CvComp(im.d[at]));
			} else edge[im.d[to]].push_back(to);
		}
		st.back().px.push_back(at);
		int g = im.d[at];
		while (g < 256 && edge[g].empty()) ++g;
		if (g == 256) break;
		at = edge[g].back();
		edge[g].pop_back();
		while (st.back().gray < g) {
			if (st.size() == 1 || g < st[st.size() - 2].gray) {
				judge(st.back());
				step(st.back());
				st.back().gray = g;
				break;
			}
			CvComp top = st.back();
			st.pop_back();
			CvComp& low = st.back();
			int gray = low.gray, taken = std::max(top.taken, low.taken);
			if (top.px.size() >= low.px.size()) std::swap(top, low);
			step(low);
			low.px.insert(low.px.end(), top.px.begin(), top.px.end());
			low.gray = gray;
			low.taken = taken;
		}
	}
	std::sort(res.begin(), res.end());
	return res;
}

PROPERTY(C08, 180000, 1000000, "a region came out or should have", "images without a mask, 4-connected") {
	quiet();
	Params p = gen_params(src);
	p.stable = src.pick({FLT_MAX, 3.0f, 1.0f, 0.5f});
	Image img;
	if (src.chance(2, 3)) {
		img = basins(src);
		src.label("basins");
		if (src.coin()) img = invert(img);
		p.dup = src.pick({-1.0f, 0.0f, 0.1f, 0.2f, 0.5f});
		p.delta = src.pick({1, 2, 3, 5, 0, 8});
		p.stable = src.pick({FLT_MAX, 10.0f, 3.0f, 1.0f, 0.5f});
	} else img = image_for(src, 1);
	src.note(p.text());
	src.note(show(img));
	img_opencv_mser a;
	p.apply(a);
	img_multi_msers res;
	mt_mat m = gen_mat(src, img);
	a.extract(res, m);
	int max_point = (int)(p.max_ratio * img.h * img.w);
	for (int pass = 0; pass < 2; ++pass) {
		bool on = pass == 0 ? p.from_min : p.from_max;
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		std::vector<Region> want = on ? opencv_pass(pass ? invert(img) : img, p, pass == 1) : std::vector<Region>();
		CHECK_THAT(on || got.empty(), "opencv mser, pass %d returned regions although it is switched off", pass);
		if (!got.empty() || !want.empty()) { src.nontrivial(); src.labelf("%d regions in a pass", (int)std::min<size_t>(got.size(), 5)); }
		check_rects(got, img.w, "opencv mser");
		CHECK_THAT(same(got, want), "opencv mser, %s", pass_error(got, want, pass, img.w).c_str());
		std::vector<Node> t = component_tree(pass ? invert(img) : img, false);
		std::map<int, std::vector<int> > by;
		for (size_t i = 0; i < t.size(); ++i) by[pass ? 255 - t[i].gray : t[i].gray].push_back((int)i);
		for (size_t i = 0; i < got.size(); ++i) {
			const Region& r = got[i];
			CHECK_THAT(!i || !(got[i - 1] == r), "opencv mser returned a region twice: %s", show(r, img.w).c_str());
			CHECK_THAT(r.size == (int)r.px.size() && r.size >= p.min_point && r.size <= max_point, "opencv mser returned a region outside %d..%d pixels: %s", p.min_point, max_point, show(r, img.w).c_str());
			// inside one component of its gray level, reaching that level
			bool hit = false;
			for (int k : by[r.gray]) {
				std::vector<int> px;
				collect(t, k, px);
				if (std::includes(px.begin(), px.end(), r.px.begin(), r.px.end())) { hit = true; break; }
			}
			CHECK_THAT(hit, "opencv mser, pass %d returned a region that is not inside an extremal region of its gray level: %s", pass, show(r, img.w).c_str());
			CHECK_THAT(std::adjacent_find(r.px.begin(), r.px.end()) == r.px.end(), "opencv mser, pass %d returned a pixel twice in a region", pass);
		}
	}
	// dark regions of the negative are the bright regions of the image
	Params q = p;
	std::swap(q.from_min, q.from_max);
	img_opencv_mser b;
	q.apply(b);
	img_multi_msers neg;
	b.extract(neg, gen_mat(src, invert(img)));
	for (int pass = 0; pass < 2; ++pass) {
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h), mir = decode_all(neg.m_msers[1 - pass], img.w, img.h);
		for (auto& r : mir) r.gray = 255 - r.gray;
		std::sort(mir.begin(), mir.end());
		CHECK_THAT(same(got, mir), "opencv mser, the negative image gives other regions: %s", pass_error(mir, got, pass, img.w).c_str());
	}
}

// ------------------------------------------------------------------------------------------- masks of the linked detector
PROPERTY(C09, 150000, 900000, "the reference returns at least two regions in one of the passes and a pixel is masked", "mask images of zeros and ones and masked values; rectangles are recorded as a finding\nthe settings that return every extremal region (no stability limit, no suppression): next to masked pixels the variation is recorded as a finding") {
	quiet();
	Params p = gen_params(src);
	p.stable = FLT_MAX;
	p.nms = -1;
	p.dup = -1;
	p.eight = src.coin();
	Image img = image_for(src, 1);
	src.label(p.eight ? "8-connected" : "4-connected");
	src.note(p.text());
	src.note(show(img));
	Mask mk = gen_mask(src, img, {2, 3});
	img_linked_linear_mser a;
	p.apply(a);
	img_multi_msers res;
	mt_mat m = gen_mat(src, img);
	a.extract(res, m, info_of(src, mk));
	for (int pass = 0; pass < 2; ++pass) {
		bool on = pass == 0 ? p.from_min : p.from_max;
		std::vector<Region> want;
		if (on) want = model_pass(pass == 0 ? img : invert(img), p, pass == 1, &mk.include, NULL, !mk.all);
		std::vector<Region> got = decode_all(res.m_msers[pass], img.w, img.h);
		if (want.size() > 1 && !mk.all) src.nontrivial();
		CHECK_THAT(same(got, want), "linear linked mser with a mask, %s", pass_error(got, want, pass, img.w).c_str());
	}
}

// ------------------------------------------------------------------------------------------- results
static img_mser_base* make(int k) {
	switch (k) {
	case 0: return new img_fast_mser_v1();
	case 1: return new img_fast_mser_v2();
	case 2: return new img_linked_linear_mser();
	case 3: return new img_ms_mser();
	case 4: return new img_opencv3_mser();
	case 5: return new img_opencv_mser();
	default: return new img_original_mser();
	}
}

PROPERTY(C10, 24000, 144000, "at least two regions came out", "images are rendered at their own size (resizing goes through OpenCV, which is not part of this repository)") {
	quiet();
	int k = src.weighted({3, 3, 2, 2, 1, 1, 1});
	const char* names[] = {"fast v1", "fast v2", "linked", "recursive", "opencv3", "opencv", "original"};
	src.label(names[k]);
	src.note(names[k]);
	Params p = gen_params(src);
	p.recursive = src.pick({20, 1, 0, 5, -1, INT_MAX});
	int tn = k <= 1 ? src.pick({1, 4, 4, 32}) : 1;
	p.threads = tn;
	int mc = tn == 32 ? 8 : tn == 4 ? 2 : k == 4 ? 3 : 1, mr = tn == 32 ? 4 : tn == 4 ? 2 : k == 4 ? 3 : 1;
	Image img = gen_image(src, Grid{tn, mc, mr}, 30);
	src.note(p.text());
	src.note(show(img));
	img_mser_base* a = make(k);
	p.apply(*a);
	std::vector<img_multi_msers*> res(1, new img_multi_msers());
	std::vector<int> from(1, 0);	// which image a result belongs to
	std::vector<Image> imgs(1, img);
	std::vector<std::vector<Region> > want[2];
	auto extract = [&](img_multi_msers& r, const Image& im) {
		a->extract(r, to_mat(im));
		for (int q = 0; q < 2; ++q) want[q].push_back(decode_all(r.m_msers[q], im.w, im.h));
	};
	extract(*res[0], img);
	if (want[0][0].size() + want[1][0].size() > 1) src.nontrivial();
	int steps = (int)src.range(1, 8);
	for (int i = 0; i < steps; ++i) {
		size_t x = src.draw(res.size());
		switch (src.weighted({4, 4, 3, 2, 1, 2})) {
		case 0:
			res.push_back(new img_multi_msers(*res[x]));
			from.push_back(from[x]);
			src.note(pbt::strf("result %zu is a copy of %zu", res.size() - 1, x));
			break;
		case 1: {
			size_t y = src.draw(res.size());
			*res[y] = *res[x];
			from[y] = from[x];
			src.note(pbt::strf("result %zu is assigned %zu", y, x));
			break;
		}
		case 2:
			if (res.size() < 2) break;
			delete res[x];
			res.erase(res.begin() + x);
			from.erase(from.begin() + x);
			src.note(pbt::strf("result %zu is destroyed", x));
			break;
		case 3: {	// extract another image into an existing result
			Image other = gen_image(src, Grid{tn, mc, mr}, 20);
			src.note("into result " + std::to_string(x) + " " + show(other));
			from[x] = (int)imgs.size();
			imgs.push_back(other);
			extract(*res[x], other);
			break;
		}
		case 4:
			*res[x] = img_multi_msers();
			res[x]->m_msers[0].clear();
			from[x] = -1;
			src.note(pbt::strf("result %zu is cleared", x));
			break;
		default: {	// single regions copied on their own keep owning what they own
			int q = src.coin();
			if (res[x]->m_msers[q].empty() || from[x] < 0) break;
			size_t j = src.draw(res[x]->m_msers[q].size());
			const img_mser& m = res[x]->m_msers[q][j];
			if (m.m_memory_type != img_mser::Memory_Type_Self) break;
			const Image& im = imgs[from[x]];
			Region before = decode(m, im.w, im.h);
			img_mser c(m), d;
			d = c;
			c = c;
			CHECK_THAT(decode(c, im.w, im.h) == before && decode(d, im.w, im.h) == before, "a copied region differs: %s", show(before, im.w).c_str());
		}
		}
		for (size_t r = 0; r < res.size(); ++r) for (int q = 0; q < 2; ++q) {
			if (from[r] < 0) { CHECK_THAT(res[r]->m_msers[q].empty(), "a cleared result holds regions"); continue; }
			const Image& im = imgs[from[r]];
			std::vector<Region> now = decode_all(res[r]->m_msers[q], im.w, im.h);
			CHECK_THAT(same(now, want[q][from[r]]), "%s, result %zu after step %d: %s", names[k], r, i, pass_error(now, want[q][from[r]], q, im.w).c_str());
		}
	}
	// rendering of every region of one result
	size_t x = src.draw(res.size());
	if (from[x] >= 0) {
		const Image& im = imgs[from[x]];
		bool gray = src.coin();
		std::vector<i32> helper;
		for (int q = 0; q < 2; ++q) for (size_t j = 0; j < res[x]->m_msers[q].size() && j < 30; ++j) {
			const img_mser& m = res[x]->m_msers[q][j];
			Region r = decode(m, im.w, im.h);
			mt_mat out;
			img_mser_helper::image_from_mser(out, m, mt_size(0, 0), img_Color_Black, img_Color_White, gray, src.coin() ? &helper : NULL);
			int w = r.r - r.l + 1, h = r.b - r.t + 1, ew = h > w ? (h - w) / 2 : 0, eh = w > h ? (w - h) / 2 : 0;
			CHECK_THAT(out.size()[1] == w + 2 * ew && out.size()[0] == h + 2 * eh && out.channel() == (gray ? 1 : 3), "a %d x %d region is drawn as %d x %d", w, h, out.size()[1], out.size()[0]);
			for (int yy = 0; yy < out.size()[0]; ++yy) for (int xx = 0; xx < out.size()[1]; ++xx) {
				int ox = xx - ew + r.l, oy = yy - eh + r.t;
				bool in = ox >= 0 && oy >= 0 && ox < im.w && oy < im.h && std::binary_search(r.px.begin(), r.px.end(), oy * im.w + ox);
				for (int c = 0; c < out.channel(); ++c)
					CHECK_THAT(*out.ptr<u8>(yy, xx, c) == (in ? 0 : 255), "pixel (%d,%d) of the drawn region %s is wrong (%d)", xx, yy, show(r, im.w).c_str(), *out.ptr<u8>(yy, xx, c));
			}
		}
		vector<const img_mser*> all;
		img_mser_helper::shallow_copy_msers(all, *res[x]);
		CHECK_THAT(all.size() == res[x]->m_msers[0].size() + res[x]->m_msers[1].size(), "the list of all regions holds %zu", all.size());
		for (size_t i = 0; i < all.size(); ++i) {
			size_t n0 = res[x]->m_msers[0].size();
			CHECK_THAT(all[i] == (i < n0 ? &res[x]->m_msers[0][i] : &res[x]->m_msers[1][i - n0]), "entry %zu of the list of all regions is another region", i);
		}
	}
	for (auto r : res) delete r;
	delete a;
}

// ------------------------------------------------------------------------------------------- recorded findings
KNOWN_FINDING(C09, linked_rect_mask) {
	Image im = step_image();
	std::vector<uint8_t> inc(64, 0);
	for (int y = 1; y < 5; ++y) for (int x = 1; x < 5; ++x) inc[y * 8 + x] = 1;
	img_linked_linear_mser a;
	return differs(a, all_regions(), im, img_mask_info<u8>(mt_rect(1, 1, 4, 4)), inc, true);
}

KNOWN_FINDING(C09, linked_masked_variation) {
	Image im(3, 3), mk(3, 3, 1);
	im.d = {12,10,11, 11,10,11, 12,11,11};
	std::vector<uint8_t> inc(9, 1);
	mk.at(1, 1) = inc[4] = 0;
	Params p = all_regions();
	p.stable = 0.5f;
	img_linked_linear_mser a;
	return differs(a, p, im, img_mask_info<u8>(to_mat(mk)), inc, true);
}

KNOWN_FINDING(C07, opencv3_image_smaller_than_3x3) {
	quiet();
	img_opencv3_mser a;
	all_regions().apply(a);
	img_multi_msers res;
	a.extract(res, to_mat(Image(2, 2, 7)));
	for (int i = 0; i < 2; ++i) for (auto& m : res.m_msers[i]) if (m.m_rect.m_left < 0 || m.m_size > 4) return true;
	return false;
}
