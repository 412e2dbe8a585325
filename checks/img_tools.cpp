// Connected components, result images, Canny, stroke widths.
// modules: img
#include "img_common.h"
#include "img_mser_result.h"
#include "img_stroke_width_transform.h"
using namespace im;

namespace {
struct Px {
	int first, second;	// y, x
	Px(int y = 0, int x = 0) : first(y), second(x) {}
	bool operator<(const Px& o) const { return first != o.first ? first < o.first : second < o.second; }
};
typedef std::vector<Px> Region;	// sorted

// (the operators of the library take over those of std::vector)
bool same(const Region& a, const Region& b) {
	return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Px& p, const Px& q) { return p.first == q.first && p.second == q.second; });
}
bool before(const Region& a, const Region& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
bool same(const std::vector<Region>& a, const std::vector<Region>& b) {
	return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const Region& p, const Region& q) { return same(p, q); });
}

struct Chan {	// an image of several channels
	int w, h, c;
	std::vector<uint8_t> d;
	const uint8_t* at(int y, int x) const { return &d[((size_t)y * w + x) * c]; }
	bool same(int y, int x, const uint8_t* v) const { return std::equal(v, v + c, at(y, x)); }
};

// a matrix of the image: memory of its own or a window of a larger one
mt_mat window_of(pbt::Src& s, const Chan& im) {
	bool window = s.coin();
	int l = window ? (int)s.draw(3) : 0, t = window ? (int)s.draw(3) : 0, r = window ? (int)s.draw(3) : 0, b = window ? (int)s.draw(3) : 0;
	mt_mat whole(im.h + t + b, im.w + l + r, mt_Depth_Channel(mt_U8, im.c));
	for (int y = 0; y < im.h + t + b; ++y)
		for (int x = 0; x < im.w + l + r; ++x)
			for (int c = 0; c < im.c; ++c) whole.at<u8>(y, x, c) = (u8)(y + x);
	mt_mat m = window ? whole.sub(mt_rect(l, t, im.w, im.h)) : whole;
	for (int y = 0; y < im.h; ++y)
		for (int x = 0; x < im.w; ++x)
			for (int c = 0; c < im.c; ++c) m.at<u8>(y, x, c) = im.at(y, x)[c];
	return m;
}

const int DX[8] = {1, 0, -1, 0, 1, 1, -1, -1}, DY[8] = {0, 1, 0, -1, 1, -1, 1, -1};

template <class F> std::vector<Region> components_if(int w, int h, const std::vector<char>& on, bool eight, F joined) {
	std::vector<char> left = on;
	std::vector<Region> r;
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x) {
			if (!left[y * w + x]) continue;
			Region reg(1, Px(y, x));
			left[y * w + x] = 0;
			for (size_t i = 0; i < reg.size(); ++i)
				for (int k = 0; k < (eight ? 8 : 4); ++k) {
					int yy = reg[i].first + DY[k], xx = reg[i].second + DX[k];
					if (yy < 0 || xx < 0 || yy >= h || xx >= w || !left[yy * w + xx] || !joined(reg[i], Px(yy, xx))) continue;
					left[yy * w + xx] = 0;
					reg.push_back(Px(yy, xx));
				}
			std::sort(reg.begin(), reg.end());
			r.push_back(reg);
		}
	std::sort(r.begin(), r.end(), before);
	return r;
}

std::vector<Region> components(int w, int h, const std::vector<char>& on, bool eight) {
	return components_if(w, h, on, eight, [](const Px&, const Px&) { return true; });
}

// An extractor of its own condition, as the macros of the library are made for: neighbours differ by at most m_tolerance in every channel.
template <class T> struct similar_component : public ml_connected_component_base<T> {
	typedef typename ml_connected_component_base<T>::normal_connected_info normal_connected_info;
	typedef typename ml_connected_component_base<T>::image_pixel_type image_pixel_type;
	using ml_connected_component_base<T>::normal_extract_start;
	using ml_connected_component_base<T>::normal_extract_stop;
	int m_tolerance;
	static bool near(const u8* a, const u8* b, int tolerance) {
		for (size_t k = 0; k < sizeof(T); ++k) if (abs(a[k] - b[k]) > tolerance) return false;
		return true;
	}
	void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo, img_Connected_Type connect_type) {
		basicimg_cc_n_begin();
		connect_condition = near((const u8*)&top_image_data->m_image_value, (const u8*)&other_image_data->m_image_value, m_tolerance);
		basicimg_cc_n_end();
	}
};

Region region_of(const img_connected_component& cc) {
	Region r;
	for (int i = 0; i < cc.m_size; ++i) r.push_back(Px(cc.m_points[i].m_y, cc.m_points[i].m_x));
	std::sort(r.begin(), r.end());
	return r;
}

mt_rect box_of(const Region& r) {
	int t = INT_MAX, b = INT_MIN, le = INT_MAX, ri = INT_MIN;
	for (auto& p : r) {
		t = std::min(t, p.first);
		b = std::max(b, p.first);
		le = std::min(le, p.second);
		ri = std::max(ri, p.second);
	}
	return mt_rect(le, t, ri - le + 1, b - t + 1);
}

bool same_rect(const mt_rect& a, const mt_rect& b) { return a.m_left == b.m_left && a.m_top == b.m_top && a.m_width == b.m_width && a.m_height == b.m_height; }

std::string show_regions(const std::vector<Region>& rs) {
	std::string r;
	for (auto& g : rs) {
		r += "{";
		for (size_t i = 0; i < g.size() && i < 12; ++i) r += pbt::strf("(%d,%d)", g[i].second, g[i].first);
		r += g.size() > 12 ? "...} " : "} ";
		if (r.size() > 600) break;
	}
	return r;
}

void check_ccs(const img_multi_connected_components& ccs, const std::vector<Region>& expect, const char* what) {
	std::vector<Region> got;
	for (auto& cc : ccs.m_ccs) {
		CHECK_THAT(cc.m_size > 0, "%s: a component of %d points", what, cc.m_size);
		got.push_back(region_of(cc));
		mt_rect box = box_of(got.back());
		CHECK_THAT(same_rect(cc.m_rect, box), "%s: the rectangle of a component is (%d,%d %dx%d), not (%d,%d %dx%d)", what, cc.m_rect.m_left, cc.m_rect.m_top, cc.m_rect.m_width,
			cc.m_rect.m_height, box.m_left, box.m_top, box.m_width, box.m_height);
	}
	std::sort(got.begin(), got.end(), before);
	CHECK_THAT(same(got, expect), "%s: %d components %s, not %d: %s", what, (int)got.size(), show_regions(got).c_str(), (int)expect.size(), show_regions(expect).c_str());
}

// the pixels the mask leaves, and the mask information
template <class T> img_mask_info<T> gen_mask(pbt::Src& s, const Chan& im, std::vector<char>& on, std::string& name, const T* value) {
	on.assign((size_t)im.w * im.h, 1);
	switch (s.draw(4)) {
	case 0: name = "no mask"; return img_mask_info<T>();
	case 1: {
		name = "rectangle";
		int l = (int)s.draw(im.w), t = (int)s.draw(im.h), w = (int)s.range(1, im.w - l), h = (int)s.range(1, im.h - t);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) on[y * im.w + x] = x >= l && x < l + w && y >= t && y < t + h;
		return img_mask_info<T>(mt_rect(l, t, w, h));
	}
	case 2: {
		name = "mask image";
		Chan m = {im.w, im.h, 1, {}};
		int p = (int)s.draw(6);
		for (size_t i = 0; i < on.size(); ++i) {
			on[i] = s.draw(5) >= (unsigned)p;
			m.d.push_back(on[i] ? 1 : s.chance(1, 4) ? 2 : 0);
		}
		return img_mask_info<T>(window_of(s, m));
	}
	default: {
		name = "masked value";
		const uint8_t* v = (const uint8_t*)value;
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) on[y * im.w + x] = !im.same(y, x, v);
		return img_mask_info<T>(*value);
	}
	}
}

Chan gen_chan(pbt::Src& s, int c, int side) {
	Chan im = {(int)s.size(1, side), (int)s.size(1, side), c, {}};
	int levels = (int)s.range(1, 3), p = (int)s.range(1, 5);
	for (int i = 0; i < im.w * im.h; ++i) {
		uint8_t v = s.draw(6) < (unsigned)p ? 0 : (uint8_t)s.range(1, levels);
		for (int k = 0; k < c; ++k) im.d.push_back(k > 0 && s.chance(1, 4) ? (uint8_t)s.draw(2) : v);
	}
	return im;
}

template <class T> void extract_case(pbt::Src& s, img_multi_connected_components& ccs, const Chan& im, const mt_mat& m, const T* value) {
	std::vector<char> on;
	std::string name;
	img_mask_info<T> mask = gen_mask<T>(s, im, on, name, value);
	bool eight = s.coin();
	img_Connected_Type type = eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	std::vector<Region> expect = components(im.w, im.h, on, eight);
	ml_connected_component_base<T> ex;
	ex.ture_normal_extract(ccs, m, mask, type);
	check_ccs(ccs, expect, name.c_str());
	s.label(name.c_str());
	if (expect.size() > 1) s.nontrivial();
	if (s.chance(1, 3)) {
		similar_component<T> like;
		like.m_tolerance = (int)s.draw(3);
		img_multi_connected_components own;
		like.normal_extract(own, m, mask, type);
		check_ccs(own, components_if(im.w, im.h, on, eight, [&](const Px& a, const Px& b) { return similar_component<T>::near(im.at(a.first, a.second), im.at(b.first, b.second), like.m_tolerance); }), (name + ", joined by likeness").c_str());
		s.label("joined by likeness");
	}
	if (expect.empty()) {
		s.label("nothing left");
		return;
	}
	const Region& reg = expect[s.draw(expect.size())];
	Px at = reg[s.draw(reg.size())];
	img_connected_component cc;
	if (s.coin()) cc = ccs.m_ccs[0];
	ex.ture_single_extract(cc, mt_point(at.second, at.first), m, mask, type);
	CHECK_THAT(same(region_of(cc), reg) && same_rect(cc.m_rect, box_of(reg)), "%s: the component of (%d,%d) has %d points, not %d, or another rectangle", name.c_str(), at.second, at.first,
		cc.m_size, (int)reg.size());
	s.label("single component");
}

void check_component_image(pbt::Src& s, const img_multi_connected_components& ccs, int w, int h) {
	std::vector<Region> regs;
	for (auto& cc : ccs.m_ccs) regs.push_back(region_of(cc));
	int l = (int)s.range(-2, w), t = (int)s.range(-2, h);
	mt_rect roi = s.coin() ? mt_rect(0, 0, w, h) : mt_rect(l, t, (int)s.range(1, w + 2), (int)s.range(1, h + 2));
	bool gray = s.coin();
	mt_scalar fg((double)s.draw(256), (double)s.draw(256), (double)s.draw(256), 255), bg((double)s.draw(256), (double)s.draw(256), (double)s.draw(256), 255);
	mt_mat img;
	std::vector<char> on((size_t)roi.m_width * roi.m_height, 0);
	std::vector<char> chosen(regs.size(), 1);
	if (s.coin()) {
		img = img_connected_component_helper::image_from_connected_component(ccs.m_ccs, roi, fg, bg, gray);
	} else {
		vector<img_connected_component*> some;
		for (size_t i = 0; i < regs.size(); ++i) {
			chosen[i] = s.coin();
			if (chosen[i]) some.push_back((img_connected_component*)&ccs.m_ccs[i]);
		}
		img = img_connected_component_helper::image_from_connected_component(some, roi, fg, bg, gray);
	}
	for (size_t i = 0; i < regs.size(); ++i)
		if (chosen[i])
			for (auto& p : regs[i]) {
				int y = p.first - roi.m_top, x = p.second - roi.m_left;
				if (y >= 0 && x >= 0 && y < roi.m_height && x < roi.m_width) on[y * roi.m_width + x] = 1;
			}
	int c = gray ? 1 : 3;
	CHECK_THAT(img.depth() == mt_U8 && img.channel() == c && img.size()[0] == roi.m_height && img.size()[1] == roi.m_width, "image of %d channels, %d x %d, of a region %d x %d (%s)", img.channel(),
		img.size()[1], img.size()[0], roi.m_width, roi.m_height, gray ? "gray" : "color");
	for (int y = 0; y < roi.m_height; ++y)
		for (int x = 0; x < roi.m_width; ++x)
			for (int k = 0; k < c; ++k) {
				int v = img.at<u8>(y, x, k), e = (int)(on[y * roi.m_width + x] ? fg.value[k] : bg.value[k]);
				CHECK_THAT(v == e, "the component image holds %d at (%d,%d) channel %d, not %d", v, x, y, k, e);
			}
	s.label("component image");
}

void component_case(pbt::Src& s) {
	img_multi_connected_components ccs, copy;
	int rounds = (int)s.range(1, 3);
	for (int r = 0; r < rounds; ++r) {
		int c = s.pick<int>({1, 1, 3, 4});
		Chan im = gen_chan(s, c, s.chance(1, 8) ? 40 : 9);
		if (r == 0 && s.want_note()) {
			std::string n = pbt::strf("%d x %d, %d channels\n", im.w, im.h, c);
			for (int y = 0; y < im.h && y < 20; ++y) {
				for (int x = 0; x < im.w && x < 20; ++x) n += pbt::strf("%d ", *im.at(y, x));
				n += "\n";
			}
			s.note(n);
		}
		mt_mat m = window_of(s, im);
		bool eight = s.coin();
		std::vector<uint8_t> back;
		for (int k = 0; k < c; ++k) back.push_back(s.coin() ? 0 : im.at((int)s.draw(im.h), (int)s.draw(im.w))[k]);
		std::vector<char> on;
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) on.push_back(!im.same(y, x, back.data()));
		std::vector<Region> expect = components(im.w, im.h, on, eight);
		mt_scalar scalar(back[0], c > 1 ? back[1] : 9, c > 2 ? back[2] : 9, c > 3 ? back[3] : 9);
		img_connected_component_helper::connect_component(ccs, m, scalar, eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
		check_ccs(ccs, expect, "connect_component");
		if (expect.empty()) s.label("only background");
		if (expect.size() > 2) s.nontrivial();
		check_component_image(s, ccs, im.w, im.h);
		switch (s.draw(3)) {	// copies
		case 0: copy = ccs; break;
		case 1: { img_multi_connected_components other(ccs); copy = other; break; }
		default: {
			vector<img_connected_component> own;
			for (auto& cc : ccs.m_ccs) {
				img_connected_component one;
				one.init(cc.m_size);
				std::copy(cc.m_points, cc.m_points + cc.m_size, one.m_points);
				one.m_rect = cc.m_rect;
				img_connected_component two(one), three;
				three = two;
				two.release();
				two.release();
				if (s.coin() && !own.empty()) own[0] = own[0];
				own.push_back(three);
			}
			copy.m_ccs.clear();
			img_multi_connected_components fresh;
			fresh.m_ccs = own;
			check_ccs(fresh, expect, "copies of single components");
			copy = fresh;
		}
		}
		check_ccs(copy, expect, "a copy");
		const uint8_t* v = im.at((int)s.draw(im.h), (int)s.draw(im.w));
		if (c == 1) extract_case<u8>(s, ccs, im, m, (const u8*)v);
		else if (c == 3) extract_case<sys_array_type<u8, 3>>(s, ccs, im, m, (const sys_array_type<u8, 3>*)v);
		else extract_case<sys_array_type<u8, 4>>(s, ccs, im, m, (const sys_array_type<u8, 4>*)v);
		check_ccs(copy, expect, "a copy after another extraction");
	}
}

// results by hand: which regions, and the images of their levels
void channel_case(pbt::Src& s) {
	int w = (int)s.range(1, 9), h = (int)s.range(1, 9);
	img_mser_result res;
	std::vector<std::vector<Region>> regs(2);
	for (int k = 0; k < 2; ++k) {
		int n = (int)s.size(0, 6);
		res.m_msers[k].resize(n);
		for (int i = 0; i < n; ++i) {
			img_mser_component& c = res.m_msers[k][i];
			c.m_level = (u8)(k == 0 ? s.pick<int>({0, 1, 2, 100, 253, 254}) : s.pick<int>({255, 254, 253, 100, 2, 1}));
			int x0 = (int)s.draw(w), y0 = (int)s.draw(h), ww = (int)s.range(1, w - x0), hh = (int)s.range(1, h - y0);
			c.m_cc.init(ww * hh);
			Region r;
			for (int y = y0; y < y0 + hh; ++y) for (int x = x0; x < x0 + ww; ++x) {
				c.m_cc.m_points[r.size()] = mt_point(x, y);
				r.push_back(Px(y, x));
			}
			c.m_cc.m_rect = mt_rect(x0, y0, ww, hh);
			regs[k].push_back(r);
		}
	}
	img_mser_result copied = res;
	const img_mser_result::Result_Type types[3] = {img_mser_result::Result_Type_From_Min, img_mser_result::Result_Type_From_Max, img_mser_result::Result_Type_Both};
	for (int t = 0; t < 3; ++t) {
		vector<img_connected_component*> ccs;
		vector<img_mser_component*> ms;
		copied.shallow_copy_cc(ccs, types[t]);
		copied.shallow_copy_cc(ms, types[t]);
		size_t at = 0;
		for (int k = 0; k < 2; ++k) {
			if (t != 2 && t != k) continue;
			for (size_t i = 0; i < copied.m_msers[k].size(); ++i, ++at)
				CHECK_THAT(at < ccs.size() && at < ms.size() && ccs[at] == &copied.m_msers[k][i].m_cc && ms[at] == &copied.m_msers[k][i] && same(region_of(*ccs[at]), regs[k][i])
					&& ms[at]->m_level == res.m_msers[k][i].m_level, "shallow copies of type %d differ at %d", t, (int)at);
		}
		CHECK_THAT(at == ccs.size() && at == ms.size(), "%d and %d shallow copies of type %d, not %d", (int)ccs.size(), (int)ms.size(), t, (int)at);
	}
	mt_mat src(h, w, mt_U8C1);
	for (int k = 0; k < 2; ++k) {
		img_mser_channel_image ch = copied.generate_mser_channel_image(src, k == 0);
		std::vector<int> level((size_t)w * h, k == 0 ? 255 : 0), id((size_t)w * h, -1);
		for (size_t i = 0; i < regs[k].size(); ++i)
			for (auto& p : regs[k][i]) {
				int at = p.first * w + p.second, l = res.m_msers[k][i].m_level;
				if (k == 0 ? l < level[at] : l > level[at]) {
					level[at] = l;
					id[at] = (int)i;
				}
			}
		CHECK_THAT(ch.m_level_image.size()[0] == h && ch.m_level_image.size()[1] == w && ch.m_mser_id_image.size()[0] == h && ch.m_mser_id_image.size()[1] == w, "size of the channel images");
		for (int y = 0; y < h; ++y)
			for (int x = 0; x < w; ++x) {
				int gl = ch.m_level_image.at<u8>(y, x, 0), gi = ch.m_mser_id_image.at<i32>(y, x, 0);
				CHECK_THAT(gl == level[y * w + x] && gi == id[y * w + x], "channel images of %s regions: level %d of region %d at (%d,%d), not level %d of region %d", k ? "bright" : "dark", gl, gi, x, y,
					level[y * w + x], id[y * w + x]);
			}
	}
	s.label("channel images");
	s.nontrivial(regs[0].size() + regs[1].size() > 1);
}
}

PROPERTY(C32, 300000, 2400000, "at least two components or regions",
	"8-bit images of 1, 3 or 4 channels with at least one pixel, whose rows are contiguous (whole matrices and windows)\n"
	"Masks: none, a rectangle inside the image, an image of its size (1: kept), a value; single components start at a kept pixel\n"
	"Channel images: dark regions below level 255 and bright regions above level 0; the first of equal levels counts") {
	quiet();
	if (src.chance(1, 6)) channel_case(src);
	else component_case(src);
}

// ------------------------------------------------------------------------------------------------- edges
namespace {
struct Field {	// a matrix of reals
	int w, h;
	std::vector<float> d;
	float at(int y, int x) const { return d[(size_t)y * w + x]; }
};

mt_mat mat_of(pbt::Src& s, const Field& f, mt_Depth depth = mt_F32) {
	bool window = s.chance(1, 3);
	int l = window ? (int)s.draw(3) : 0, t = window ? (int)s.draw(3) : 0;
	mt_mat whole(f.h + 2 * t, f.w + 2 * l, mt_Depth_Channel(depth, 1), mt_scalar(77));
	mt_mat m = window ? whole.sub(mt_rect(l, t, f.w, f.h)) : whole;
	for (int y = 0; y < f.h; ++y)
		for (int x = 0; x < f.w; ++x)
			if (depth == mt_F32) m.at<f32>(y, x, 0) = f.at(y, x); else m.at<f64>(y, x, 0) = f.at(y, x);
	return m;
}

bool same_field(const mt_mat& m, const Field& f) {
	for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) if (m.at<f32>(y, x, 0) != f.at(y, x)) return false;
	return true;
}

// gradients of a few shapes on a plain ground, with noise, or independent values
void gen_gradients(pbt::Src& s, int w, int h, Field& gx, Field& gy) {
	gx = Field{w, h, std::vector<float>((size_t)w * h, 0)};
	gy = gx;
	if (w * h > 4000 || s.chance(1, 3)) {	// values on their own (for large images from a few values)
		std::vector<float> pool;
		int range = s.pick<int>({3, 60, 300, 1020, 16000});
		for (int i = 0; i < 24; ++i) pool.push_back((float)s.range(-range, range) + (s.chance(1, 4) ? 0.5f : 0));
		bool few = w * h > 400;
		uint64_t a = s.any() | 1, x = s.any();
		for (size_t i = 0; i < gx.d.size(); ++i) {
			if (few) {
				x = x * 6364136223846793005ull + a;
				gx.d[i] = pool[(x >> 33) % 24];
				gy.d[i] = pool[(x >> 45) % 24];
			} else {
				gx.d[i] = s.pick(pool);
				gy.d[i] = s.pick(pool);
			}
		}
		if (few && s.coin())	// every other column a ridge
			for (int y = 0; y < h; ++y) for (int xx = 0; xx < w; ++xx) {
				gx.d[y * w + xx] = xx % 2 ? 500.f : 10.f;
				gy.d[y * w + xx] = 0;
			}
		return;
	}
	std::vector<int> im((size_t)w * h, (int)s.draw(256));
	int n = (int)s.range(1, 5);
	for (int i = 0; i < n; ++i) {
		int v = (int)s.draw(256), x0 = (int)s.draw(w), y0 = (int)s.draw(h), ww = (int)s.range(1, w), hh = (int)s.range(1, h), kind = (int)s.draw(3);
		for (int y = 0; y < h; ++y)
			for (int x = 0; x < w; ++x) {
				bool in = kind == 0 ? x >= x0 && x < x0 + ww && y >= y0 && y < y0 + hh : kind == 1 ? abs(x - x0) + abs(y - y0) < ww / 2 + 1 : (x - x0) * (x - x0) + (y - y0) * (y - y0) < ww * hh / 4;
				if (in) im[y * w + x] = v;
			}
	}
	int noise = s.pick<int>({0, 0, 0, 5, 30});
	if (noise) {
		uint64_t x = s.any(), a = s.any() | 1;
		for (auto& v : im) {
			x = x * 6364136223846793005ull + a;
			v = std::max(0, std::min(255, v + (int)((x >> 40) % (2 * noise + 1)) - noise));
		}
	}
	auto px = [&](int y, int x) { return im[std::max(0, std::min(h - 1, y)) * w + std::max(0, std::min(w - 1, x))]; };
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x) {
			gx.d[y * w + x] = (float)(px(y - 1, x + 1) + 2 * px(y, x + 1) + px(y + 1, x + 1) - px(y - 1, x - 1) - 2 * px(y, x - 1) - px(y + 1, x - 1));
			gy.d[y * w + x] = (float)(px(y + 1, x - 1) + 2 * px(y + 1, x) + px(y + 1, x + 1) - px(y - 1, x - 1) - 2 * px(y - 1, x) - px(y - 1, x + 1));
		}
}

std::vector<uint8_t> canny_model(const Field& gx, const Field& gy, const Field& mag, int low, int high, int* weak) {
	int w = gx.w, h = gx.h;
	auto m = [&](int y, int x) { return y < 0 || x < 0 || y >= h || x >= w ? 0 : (int)mag.at(y, x); };
	std::vector<uint8_t> cand((size_t)w * h, 0), edge((size_t)w * h, 0);
	std::vector<int> todo;
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x) {
			int v = m(y, x);
			if (v <= low) continue;
			int xs = (int)gx.at(y, x), ys = (int)gy.at(y, x);
			long long ax = std::abs((long long)xs), ay = std::abs((long long)ys) << 15, t22 = ax * 13573, t67 = t22 + (ax << 16);
			bool keep;
			if (ay < t22) keep = v > m(y, x - 1) && v >= m(y, x + 1);
			else if (ay > t67) keep = v > m(y - 1, x) && v >= m(y + 1, x);
			else {
				int sg = (xs < 0) != (ys < 0) ? -1 : 1;
				keep = v > m(y - 1, x - sg) && v > m(y + 1, x + sg);
			}
			if (!keep) continue;
			cand[y * w + x] = 1;
			if (v > high) {
				edge[y * w + x] = 255;
				todo.push_back(y * w + x);
			}
		}
	int extra = 0;
	while (!todo.empty()) {
		int p = todo.back();
		todo.pop_back();
		for (int k = 0; k < 8; ++k) {
			int y = p / w + DY[k], x = p % w + DX[k];
			if (y < 0 || x < 0 || y >= h || x >= w || !cand[y * w + x] || edge[y * w + x]) continue;
			edge[y * w + x] = 255;
			++extra;
			todo.push_back(y * w + x);
		}
	}
	if (weak) *weak = extra;
	return edge;
}

void check_edge(const mt_mat& e, const std::vector<uint8_t>& expect, int w, int h, const char* what) {
	CHECK_THAT(e.dim() == 2 && e.size()[0] == h && e.size()[1] == w && e.depth() == mt_U8 && e.channel() == 1, "%s: size or type of the edges", what);
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x) CHECK_THAT(e.at<u8>(y, x, 0) == expect[y * w + x], "%s: %d at (%d,%d) of %d x %d, not %d", what, e.at<u8>(y, x, 0), x, y, w, h, expect[y * w + x]);
}

void gen_side(pbt::Src& s, int& w, int& h) {
	switch (s.weighted({10, 3, 1})) {
	case 0: w = (int)s.range(1, 14); h = (int)s.range(1, 14); break;
	case 1: w = (int)s.range(1, 45); h = (int)s.range(1, 45); break;
	default: w = (int)s.range(1000, 7000); h = (int)s.range(1, 3); if (s.coin()) std::swap(w, h);
	}
}

Field mag_of(const Field& gx, const Field& gy, int kind) {
	Field r = gx;
	for (size_t i = 0; i < r.d.size(); ++i) {
		double x = gx.d[i], y = gy.d[i];
		r.d[i] = (float)(kind == 0 ? fabs(x) + fabs(y) : kind == 1 ? sqrt(x * x + y * y) : x * x + y * y);
	}
	return r;
}

void check_mag(pbt::Src& s, const Field& gx, const Field& gy, const mt_mat& got, int kind, const char* what) {
	Field e = mag_of(gx, gy, kind);
	for (int y = 0; y < gx.h; ++y)
		for (int x = 0; x < gx.w; ++x) {
			double v = got.depth() == mt_F32 ? got.at<f32>(y, x, 0) : got.at<f64>(y, x, 0);
			CHECK_THAT(fabs(v - e.at(y, x)) <= 1e-5 * (1 + fabs(e.at(y, x))), "%s: magnitude %.9g of (%g, %g), not %.9g (kind %d)", what, v, gx.at(y, x), gy.at(y, x), e.at(y, x), kind);
		}
}

Field read(const mt_mat& m) {
	Field f = {m.size()[1], m.size()[0], {}};
	for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) f.d.push_back(m.at<f32>(y, x, 0));
	return f;
}

void canny_case(pbt::Src& s) {
	int low = (int)s.range(0, 200), high = s.chance(1, 6) ? (int)s.range(0, 200) : low + (int)s.draw(300);
	bool l2 = s.coin();
	std::unique_ptr<img_canny> canny;
	switch (s.draw(3)) {
	case 0: canny.reset(new img_canny()); low = 40; high = 100; l2 = true; break;
	case 1: canny.reset(new img_canny(low, high, s.coin())); l2 = true; break;
	default: canny.reset(new img_canny(low, high, 3, l2, s.coin()));
	}
	CHECK_THAT(canny->low_threshold() == low && canny->high_threshold() == high && (bool)canny->is_l2_gradient() == l2, "settings of the constructor");
	mt_mat edge;
	int rounds = (int)s.range(1, 4);
	for (int r = 0; r < rounds; ++r) {
		if (s.chance(1, 3)) canny->set_low_threshold(low = (int)s.range(0, 300));
		if (s.chance(1, 3)) canny->set_high_threshold(high = (int)s.range(0, 600));
		if (s.chance(1, 3)) canny->set_l2_gradient(l2 = s.coin());
		if (s.chance(1, 4)) canny->enable_memory_cache(s.coin());
		if (r > 0 && s.chance(1, 6)) canny->clear_memory_cache();
		int w, h;
		gen_side(s, w, h);
		Field gx, gy, mag;
		gen_gradients(s, w, h, gx, gy);
		bool own = s.chance(1, 3);
		if (own) {
			mag = Field{w, h, {}};
			uint64_t x = s.any(), a = s.any() | 1;
			int top = s.pick<int>({4, 50, 600, 100000});
			for (int i = 0; i < w * h; ++i) {
				x = x * 6364136223846793005ull + a;
				mag.d.push_back((float)((x >> 33) % top) + ((x >> 20) % 4) * 0.25f);
			}
			s.label("given magnitudes");
		}
		mt_mat src(h, w, mt_U8C1, mt_scalar(3)), mx = mat_of(s, gx), my = mat_of(s, gy), mm = own ? mat_of(s, mag) : mt_mat();
		if (s.coin()) edge = canny->edge_detection((const mt_mat&)src, mx, my, mm);
		else canny->edge_detection(edge, src, mx, my, mm);
		if (!own) {
			CHECK_THAT(canny->gradient_mag().size()[0] == h && canny->gradient_mag().size()[1] == w, "size of the magnitudes");
			check_mag(s, gx, gy, canny->gradient_mag(), l2 ? 1 : 0, "canny");
			mag = read(canny->gradient_mag());
		}
		int weak = 0;
		std::vector<uint8_t> expect = canny_model(gx, gy, mag, low, high, &weak);
		check_edge(edge, expect, w, h, pbt::strf("canny (%d, %d)", low, high).c_str());
		CHECK_THAT(same_field(mx, gx) && same_field(my, gy) && (!own || same_field(mm, mag)), "canny changes the gradients it was given");
		int n = (int)std::count(expect.begin(), expect.end(), 255);
		if (n) s.label("edges");
		if (weak) s.label("edges by hysteresis");
		if (w * h > 1000) s.label("large");
		if (s.want_note()) s.note(pbt::strf("%d x %d, thresholds %d and %d, %d edge pixels of which %d weak", w, h, low, high, n, weak));
		s.nontrivial(s.m_nontrivial || n > 3);
	}
}

struct Auto_Settings {
	int window, max_t, min_t, density, overlap, noise;
	float low_ratio, density_ratio, mean_ratio;
};

std::vector<uint8_t> auto_model(const Field& gx, const Field& gy, const Field& mag, const Auto_Settings& a, bool& close) {
	int w = gx.w, h = gx.h;
	std::vector<uint8_t> temp = canny_model(gx, gy, mag, (int)(a.min_t * a.low_ratio), a.min_t, NULL);
	int step = a.window / 4, nr = std::max(1, h / step), nc = std::max(1, w / step);
	int flags = (int)(a.window * a.window * a.density_ratio);
	std::vector<double> sum_mean((size_t)nr * nc, 0);
	std::vector<int> cnt((size_t)nr * nc, 0), dense((size_t)nr * nc, 0);
	for (int r = 0; r + 4 <= nr; ++r)
		for (int c = 0; c + 4 <= nc; ++c) {
			int y1 = r + 4 == nr ? h - 1 : r * step + a.window - 1, x1 = c + 4 == nc ? w - 1 : c * step + a.window - 1, n = 0;
			double sum = 0;
			for (int y = r * step; y <= y1; ++y)
				for (int x = c * step; x <= x1; ++x)
					if (temp[y * w + x]) {
						++n;
						sum += mag.at(y, x);
					}
			if (!n) continue;
			for (int i = r; i < r + 4; ++i)
				for (int j = c; j < c + 4; ++j) {
					sum_mean[i * nc + j] += sum;
					cnt[i * nc + j] += n;
					if (n >= flags) ++dense[i * nc + j];
				}
		}
	std::vector<uint8_t> edge((size_t)w * h, 0);
	std::vector<double> thr((size_t)w * h, 0);
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x) {
			if (!temp[y * w + x]) continue;
			int b = std::min(y / step, nr - 1) * nc + std::min(x / step, nc - 1);
			double t = cnt[b] ? sum_mean[b] / cnt[b] * a.mean_ratio : 0;
			if (dense[b] > a.overlap) t = a.density;
			t = std::max<double>(a.min_t, std::min<double>(a.max_t, t));
			thr[y * w + x] = t;
			if (fabs(mag.at(y, x) - t) < 1e-3 && t != a.min_t && t != a.max_t && t != a.density) close = true;	// decided by rounding
			if (mag.at(y, x) > t) edge[y * w + x] = 255;
		}
	std::vector<char> flag((size_t)w * h, 0);
	for (int y = 1; y + 1 < h; ++y)
		for (int x = 1; x + 1 < w; ++x) {
			if (!edge[y * w + x] || mag.at(y, x) >= 100 || flag[y * w + x]) continue;
			std::vector<int> pts(1, y * w + x), todo = pts;
			flag[y * w + x] = 1;
			bool strong = false;
			while (!todo.empty()) {
				int p = todo.back();
				todo.pop_back();
				for (int k = 0; k < 8; ++k) {
					int yy = p / w + DY[k], xx = p % w + DX[k], q = yy * w + xx;
					if (flag[q] || !edge[q]) continue;
					strong |= mag.d[q] >= 100;
					flag[q] = 1;
					pts.push_back(q);
					if (yy > 0 && xx > 0 && yy + 1 < h && xx + 1 < w) todo.push_back(q);
				}
			}
			if (!strong && (int)pts.size() <= a.noise) for (int q : pts) edge[q] = 0;
		}
	for (int i = 0; i < w * h; ++i) {
		if (!edge[i] || !temp[i]) continue;
		double low = (float)thr[i] * a.low_ratio;
		std::vector<int> todo(1, i);
		temp[i] = 0;
		while (!todo.empty()) {
			int p = todo.back();
			todo.pop_back();
			for (int k = 0; k < 8; ++k) {
				int yy = p / w + DY[k], xx = p % w + DX[k], q = yy * w + xx;
				if (yy < 0 || xx < 0 || yy >= h || xx >= w) continue;
				if (edge[q] || !temp[q]) continue;
				if (fabs(mag.d[q] - low) < 1e-3) close = true;
				if (mag.d[q] < low) continue;
				edge[q] = 255;
				temp[q] = 0;
				todo.push_back(q);
			}
		}
	}
	return edge;
}

void auto_case(pbt::Src& s) {
	img_auto_threshold_canny canny;
	Auto_Settings a = {16, 160, 40, 120, 3, 3, 0.5f, 0.3f, 0.9f};
	int rounds = (int)s.range(1, 3);
	mt_mat edge;
	for (int r = 0; r < rounds; ++r) {
		if (s.coin()) canny.set_auto_threshold_window_size(a.window = s.pick<int>({4, 8, 12, 16}));
		if (s.chance(1, 3)) canny.set_auto_threshold_min(a.min_t = (int)s.range(1, 120));
		if (s.chance(1, 3)) canny.set_auto_threshold_max(a.max_t = a.min_t + (int)s.draw(300));
		if (a.max_t < a.min_t) canny.set_auto_threshold_max(a.max_t = a.min_t);
		if (s.chance(1, 4)) canny.set_auto_threshold_density(a.density = (int)s.range(0, 300));
		if (s.chance(1, 4)) canny.set_low_to_high_ratio(a.low_ratio = s.pick<float>({0.25f, 0.5f, 0.75f, 1.f}));
		if (s.chance(1, 3)) canny.set_density_flag_number_to_window_ratio(a.density_ratio = s.pick<float>({0.f, 0.0625f, 0.125f, 0.25f, 0.5f}));
		if (s.chance(1, 4)) canny.set_density_window_flag_overlap_number_threshold(a.overlap = (int)s.draw(6));
		if (s.chance(1, 4)) canny.set_auto_threshold_to_mean_ratio(a.mean_ratio = s.pick<float>({0.5f, 0.75f, 1.f, 1.25f}));
		if (s.chance(1, 3)) canny.set_m_noise_edge_number_threshold(a.noise = (int)s.draw(12));
		if (s.chance(1, 5)) canny.clear_memory_cache();
		int w, h;
		if (s.coin()) { w = (int)s.range(1, 45); h = (int)s.range(1, 45); } else gen_side(s, w, h);
		if (w * h > 4000) { w = std::min(w, 70); h = std::min(h, 70); }
		Field gx, gy, mag;
		gen_gradients(s, w, h, gx, gy);
		for (auto& v : gx.d) v = floorf(v / 8) * (w * h > 1000 ? 1 : 8);
		for (auto& v : gy.d) v = floorf(v / 8) * (w * h > 1000 ? 1 : 8);
		mag = mag_of(gx, gy, 0);
		if (s.coin()) for (auto& v : mag.d) v = floorf(v / 3);	// whole numbers: their sums are exact
		mt_mat src(h, w, mt_U8C1, mt_scalar(3)), mx = mat_of(s, gx), my = mat_of(s, gy), mm = mat_of(s, mag);
		bool close = false;
		std::vector<uint8_t> expect = auto_model(gx, gy, mag, a, close);
		if (s.coin()) edge = canny.edge_detection((const mt_mat&)src, mx, my, mm);
		else canny.edge_detection(edge, src, mx, my, mm);
		if (close) {
			s.label("decided by rounding");
			continue;
		}
		check_edge(edge, expect, w, h, pbt::strf("auto threshold canny (window %d, %d to %d)", a.window, a.min_t, a.max_t).c_str());
		CHECK_THAT(same_field(mx, gx) && same_field(my, gy) && same_field(mm, mag), "auto threshold canny changes the gradients it was given");
		int n = (int)std::count(expect.begin(), expect.end(), 255);
		std::vector<uint8_t> temp = canny_model(gx, gy, mag, (int)(a.min_t * a.low_ratio), a.min_t, NULL);
		int t = (int)std::count(temp.begin(), temp.end(), 255);
		s.label(h < 4 || w < 4 ? "auto: tiny" : "auto");
		if (n && n < t) s.label("auto: some edges kept");
		if (s.want_note()) s.note(pbt::strf("%d x %d, window %d, %d of %d edge pixels", w, h, a.window, n, t));
		s.nontrivial(s.m_nontrivial || (n > 0 && n < t));
	}
}

void small_image_case(pbt::Src& s) {
	// magnitudes
	int w = (int)s.range(1, 12), h = (int)s.range(1, 12);
	Field gx, gy;
	gen_gradients(s, w, h, gx, gy);
	const img_img::Gradient_Mag_Type kinds[3] = {img_img::Gradient_Mag_Type_L1, img_img::Gradient_Mag_Type_L2, img_img::Gradient_Mag_Type_L2_Square};
	int k = (int)s.draw(3);
	mt_Depth depth = s.coin() ? mt_F32 : mt_F64;
	mt_mat mx = mat_of(s, gx, depth), my = mat_of(s, gy, depth), m;
	if (s.coin()) m = mt_mat((int)s.range(1, 5), (int)s.range(1, 5), mt_Depth_Channel(depth, 1), mt_scalar(5));
	if (s.coin()) img_img::generate_gradient_mag(m, mx, my, kinds[k]);
	else m = img_img::generate_gradient_mag(mx, my, kinds[k]);
	CHECK_THAT(m.size()[0] == h && m.size()[1] == w && m.depth() == depth, "size or depth of the magnitudes");
	check_mag(s, gx, gy, m, k, "generate_gradient_mag");
	if (depth == mt_F32) CHECK_THAT(same_field(mx, gx) && same_field(my, gy), "generate_gradient_mag changes the gradients");
	// chessboards
	int chess = (int)s.range(1, 6), ch = (int)s.range(1, 4);
	mt_mat board;
	if (s.coin()) board = mt_mat(h, w, mt_Depth_Channel(mt_U8, ch), mt_scalar(9));
	img_img::genarate_chessboard(board, mt_size(w, h), chess, ch);
	CHECK_THAT(board.size()[0] == h && board.size()[1] == w && board.channel() == ch && board.depth() == mt_U8, "size or type of the chessboard");
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x)
			for (int c = 0; c < ch; ++c) CHECK_THAT(board.at<u8>(y, x, c) == ((x / chess + y / chess) % 2 ? 255 : 0), "the chessboard holds %d at (%d,%d)", board.at<u8>(y, x, c), x, y);
	// points in images
	for (int i = 0; i < 10; ++i) {
		int x = (int)s.range(-2, w + 1), y = (int)s.range(-2, h + 1);
		bool in = x >= 0 && y >= 0 && x < w && y < h, border = in && (x == 0 || y == 0 || x == w - 1 || y == h - 1);
		CHECK_THAT((bool)img_img::point_in_image(mt_point(x, y), board) == in && (bool)img_img::point_in_image_boundary(mt_point(x, y), board) == border, "(%d,%d) in %d x %d", x, y, w, h);
	}
	s.label("magnitudes, chessboards and points");
	s.nontrivial(s.m_nontrivial || w * h > 4);
}
}

PROPERTY(C33, 60000, 1000000, "more than three edge pixels, or (auto thresholds) some but not all kept",
	"Gradients are given (OpenCV, which computes them otherwise, is not built here), below 16000, in 32-bit reals with contiguous rows\n"
	"Auto thresholds: magnitudes are multiples of 1/3 rounded down, and images where rounding decides are skipped; windows of 4, 8, 12 or 16") {
	quiet();
	pbt::Src& s = src;
	switch (s.weighted({5, 5, 2})) {
	case 0: canny_case(s); break;
	case 1: auto_case(s); break;
	default: small_image_case(s);
	}
}

// ------------------------------------------------------------------------------------------------- stroke widths
namespace {
struct Ray {
	std::vector<Px> pts;
	int width;
};

// the rays of the paper, walked pixel by pixel in the direction of the gradient
std::vector<Ray> rays_of(const std::vector<uint8_t>& edge, const Field& gx, const Field& gy, int angle, bool dark, bool& close) {
	int w = gx.w, h = gx.h;
	auto in = [&](int y, int x) { return y >= 0 && x >= 0 && y < h && x < w; };
	auto is_edge = [&](int y, int x) { return edge[y * w + x] == 255; };
	auto round_to = [&](float v) {
		double f = fabs(v) - floor(fabs(v));
		if (fabs(f - 0.5) < 1e-4) close = true;
		return (int)(v > 0 ? (long long)(v + 0.5) : (long long)(v - 0.5));
	};
	const int SX[9] = {0, 1, 1, 0, -1, -1, -1, 0, 1}, SY[9] = {0, 0, -1, -1, -1, 0, 1, 1, 1};
	double limit = cos(angle * 3.14159265358979323846 / 180);
	std::vector<Ray> rays;
	for (int row = 0; row < h; ++row)
		for (int col = 0; col < w; ++col) {
			if (!is_edge(row, col)) continue;
			float dx = gx.at(row, col), dy = gy.at(row, col);
			float norm = sqrtf(dx * dx + dy * dy);
			if (norm == 0) continue;
			dx /= norm;
			dy /= norm;
			if (dark) { dx = -dx; dy = -dy; }
			if (fabs(fabs(dx) - fabs(dy)) < 1e-6 && fabs(dx) != fabs(dy)) close = true;
			std::vector<Px> pts(1, Px(row, col));
			float cx = (float)col, cy = (float)row;
			int px = col, py = row;
			bool first = true, gap = false;
			for (;;) {
				cx += dx;
				cy += dy;
				int nx = round_to(cx), ny = round_to(cy);
				std::vector<Px> next;
				if (nx != px && ny != py) {
					next.push_back(Px(ny, nx));
					bool keep_x = fabs(dy) <= fabs(dx) ? dx > 0 : !(dy > 0);	// which of the two corners is passed
					next.push_back(keep_x ? Px(py, nx) : Px(ny, px));
				} else if (nx != px || ny != py) {
					next.push_back(Px(ny, nx));
				} else {
					continue;
				}
				px = nx;
				py = ny;
				bool stop = false, all_out = true, main_added = false;
				for (size_t k = 0; k < next.size() && !stop; ++k) {
					int y = next[k].first, x = next[k].second;
					if (!in(y, x)) continue;
					all_out = false;
					if (!is_edge(y, x)) {
						gap = true;
						if (k == 0) main_added = true;
						pts.push_back(next[k]);
						continue;
					}
					if (first) continue;
					stop = true;
					if (!gap) continue;
					for (int i = 0; i < 9; ++i) {
						int sy = y + SY[i], sx = x + SX[i];
						if (i > 0 && (!in(sy, sx) || (abs(sx - col) <= 1 && abs(sy - row) <= 1) || !is_edge(sy, sx))) continue;
						float ex = gx.at(sy, sx), ey = gy.at(sy, sx);
						if (dark) { ex = -ex; ey = -ey; }
						double dot = -(double)dx * ex - (double)dy * ey;
						if (fabs(dot - limit) < 1e-4 * (1 + fabs(ex) + fabs(ey))) close = true;
						if (dot < limit) continue;
						if (k == 0) pts.push_back(Px(sy, sx));
						else if (main_added) pts.back() = Px(sy, sx);
						if (pts.size() > 2) {
							double d = sqrt((double)(pts.back().first - row) * (pts.back().first - row) + (double)(pts.back().second - col) * (pts.back().second - col));
							rays.push_back(Ray{pts, std::max(1, (int)(d + 0.5) - 1)});
						}
						break;
					}
				}
				first = false;
				if (all_out || stop) break;
			}
		}
	return rays;
}

void swt_case(pbt::Src& s) {
	int w = (int)s.range(1, s.chance(1, 5) ? 60 : 20), h = (int)s.range(1, s.chance(1, 5) ? 60 : 20);
	Field gx, gy;
	gen_gradients(s, w, h, gx, gy);
	img_stroke_width_transform::params p;
	CHECK_THAT(p.m_pair_intersect_angle == 45 && p.m_invalid_stroke_width == 32767 && p.m_dark_on_light, "default parameters");
	if (s.coin()) p.m_pair_intersect_angle = (int)s.range(0, 90);
	if (s.chance(1, 4)) p.m_invalid_stroke_width = (i16)s.range(200, 32767);
	p.m_dark_on_light = s.coin();
	std::vector<uint8_t> edge;
	if (s.chance(2, 3)) {
		edge = canny_model(gx, gy, mag_of(gx, gy, 1), (int)s.range(0, 60), (int)s.range(20, 200), NULL);
	} else {
		for (int i = 0; i < w * h; ++i) edge.push_back(s.chance(1, 4) ? 255 : s.chance(1, 20) ? 128 : 0);
		if (s.coin()) for (auto* g : {&gx, &gy}) for (auto& v : g->d) v = (float)s.range(-3, 3);	// zero gradients too
	}
	if (s.coin())	// gradients as unit vectors make the angle count
		for (size_t i = 0; i < gx.d.size(); ++i) {
			float n = sqrtf(gx.d[i] * gx.d[i] + gy.d[i] * gy.d[i]);
			if (n > 0) { gx.d[i] /= n; gy.d[i] /= n; }
		}
	bool close = false;
	std::vector<Ray> rays = rays_of(edge, gx, gy, p.m_pair_intersect_angle, p.m_dark_on_light, close);
	mt_mat me(h, w, mt_U8C1), mx = mat_of(s, gx), my = mat_of(s, gy);
	for (int i = 0; i < w * h; ++i) me.at<u8>(i / w, i % w, 0) = edge[i];
	mt_mat got = img_stroke_width_transform::swt(me, mx, my, p);
	CHECK_THAT(got.size()[0] == h && got.size()[1] == w && got.depth() == mt_I16 && got.channel() == 1, "size or type of the stroke widths");
	if (close) {
		s.label("decided by rounding");
	} else {
		std::vector<int> width((size_t)w * h, p.m_invalid_stroke_width);
		for (auto& r : rays) for (auto& q : r.pts) width[q.first * w + q.second] = std::min(width[q.first * w + q.second], r.width);
		for (auto& r : rays) {
			std::vector<int> v;
			for (auto& q : r.pts) v.push_back(width[q.first * w + q.second]);
			std::sort(v.begin(), v.end());
			r.width = v[(v.size() - 1) / 2];
		}
		for (auto& r : rays) for (auto& q : r.pts) width[q.first * w + q.second] = std::min(width[q.first * w + q.second], r.width);
		for (int y = 0; y < h; ++y)
			for (int x = 0; x < w; ++x) CHECK_THAT(got.at<i16>(y, x, 0) == width[y * w + x], "stroke width %d at (%d,%d) of %d x %d, not %d (%d rays)", got.at<i16>(y, x, 0), x, y, w, h, width[y * w + x], (int)rays.size());
		s.label(rays.empty() ? "no rays" : rays.size() > 20 ? "many rays" : "rays");
		s.nontrivial(rays.size() > 2);
	}
	CHECK_THAT(same_field(mx, gx) && same_field(my, gy), "the stroke width transform changes the gradients");
	for (int i = 0; i < w * h; ++i) CHECK_THAT(me.at<u8>(i / w, i % w, 0) == edge[i], "the stroke width transform changes the edges");
	if (s.want_note()) s.note(pbt::strf("%d x %d, angle %d, %s, %d rays", w, h, p.m_pair_intersect_angle, p.m_dark_on_light ? "dark on light" : "light on dark", (int)rays.size()));
	if (s.chance(1, 3)) for (int i = 0; i < w * h; ++i) got.at<i16>(i / w, i % w, 0) = s.chance(1, 5) ? p.m_invalid_stroke_width : (i16)s.range(0, s.coin() ? 30000 : 150);
	// as an image
	mt_mat norm = img_stroke_width_transform::normalize_swt_image(got, p.m_invalid_stroke_width);
	int lo = 32767, hi = 0;
	for (int i = 0; i < w * h; ++i) {
		int v = got.at<i16>(i / w, i % w, 0);
		if (v != p.m_invalid_stroke_width) { lo = std::min(lo, v); hi = std::max(hi, v); }
	}
	int range = std::max(200, hi - lo);
	CHECK_THAT(norm.size()[0] == h && norm.size()[1] == w && norm.depth() == mt_U8, "size or type of the normalized stroke widths");
	for (int i = 0; i < w * h; ++i) {
		int v = got.at<i16>(i / w, i % w, 0), g = norm.at<u8>(i / w, i % w, 0);
		double e = v == p.m_invalid_stroke_width ? 255 : 255. * (v - lo) / range;
		CHECK_THAT(g <= e + 1e-3 && g > e - 1 - 1e-3, "stroke width %d (of %d to %d) is shown as %d", v, lo, hi, g);
	}
}
}

PROPERTY(C34, 50000, 1000000, "more than two rays",
	"Edges and gradients are given; images where rounding decides the path or the angle of a ray are skipped\n"
	"A ray is the walk of the published method with the corner rule and the neighborhood rule of this implementation") {
	quiet();
	swt_case(src);
}

// ------------------------------------------------------------------------------------------------- blurring
namespace {
const mt_Depth BLUR_DEPTHS[] = {mt_U8, mt_I8, mt_U16, mt_I16, mt_I32, mt_F32, mt_F64};

double value_at(const mt_mat& m, int y, int x, int c) {
	const u8* p = m.data() + (long long)y * m.step()[0] + (long long)x * m.step()[1] + c * m.element_channel_size();
	switch (m.depth()) {
	case mt_U8: return *(const u8*)p;
	case mt_I8: return *(const signed char*)p;
	case mt_U16: return *(const u16*)p;
	case mt_I16: return *(const i16*)p;
	case mt_I32: return *(const i32*)p;
	case mt_F32: return *(const f32*)p;
	default: return *(const f64*)p;
	}
}

void put_at(mt_mat& m, int y, int x, int c, double v) {
	u8* p = m.data() + (long long)y * m.step()[0] + (long long)x * m.step()[1] + c * m.element_channel_size();
	switch (m.depth()) {
	case mt_U8: *(u8*)p = (u8)v; break;
	case mt_I8: *(signed char*)p = (signed char)v; break;
	case mt_U16: *(u16*)p = (u16)v; break;
	case mt_I16: *(i16*)p = (i16)v; break;
	case mt_I32: *(i32*)p = (i32)v; break;
	case mt_F32: *(f32*)p = (f32)v; break;
	default: *(f64*)p = v;
	}
}

// weights of the offsets -half..half
std::vector<double> gaussian(int size, double sigma) {
	std::vector<double> k(size);
	double sum = 0;
	for (int i = 0; i < size; ++i) sum += k[i] = i == size / 2 ? 1 : sigma == 0 ? 0 : std::exp(-(double)(i - size / 2) * (i - size / 2) / (2 * sigma * sigma));
	for (auto& v : k) v /= sum;
	return k;
}

void blur_case(pbt::Src& s) {
	int w = (int)s.size(1, 14), h = (int)s.size(1, 14), ch = (int)s.pick({1, 1, 2, 3, 4});
	mt_Depth depth = s.pick(std::vector<mt_Depth>(BLUR_DEPTHS, BLUR_DEPTHS + 7));
	bool whole_type = depth != mt_F32 && depth != mt_F64;
	double lo = depth == mt_U8 || depth == mt_U16 ? 0 : depth == mt_I8 ? -128 : -1000, hi = depth == mt_U8 ? 255 : depth == mt_I8 ? 127 : depth == mt_U16 ? 65535 : 1000;
	// the matrix: a block of its own or a window, turned or not
	bool window = s.coin(), turned = s.chance(1, 3);
	int l = window ? (int)s.draw(3) : 0, t = window ? (int)s.draw(3) : 0;
	mt_mat block(h + 2 * t, w + 2 * l, mt_Depth_Channel(depth, ch));
	for (int y = 0; y < h + 2 * t; ++y) for (int x = 0; x < w + 2 * l; ++x) for (int c = 0; c < ch; ++c) put_at(block, y, x, c, 77);
	mt_mat m = window ? block.sub(mt_rect(l, t, w, h)) : block;
	if (turned) m = m.flip((int)s.draw(2));
	int few = s.chance(1, 3) ? (int)s.range(0, 3) : -1;	// a few points in the dark
	std::vector<double> v((size_t)w * h * ch, 0.0);
	if (few >= 0) for (; few > 0; --few) v[s.draw(v.size())] = hi;
	else for (auto& e : v) { e = s.real(lo, hi, 64); e = whole_type ? std::floor(e) : (double)(float)e; }
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) put_at(m, y, x, c, v[((size_t)y * w + x) * ch + c]);
	// kernels
	double sx = s.chance(1, 8) ? 0 : (double)s.range(1, 20) / 8, sy = s.chance(1, 3) ? sx : s.chance(1, 8) ? 0 : (double)s.range(1, 20) / 8;
	bool like_x = s.chance(1, 4);
	int kw = s.coin() ? -1 : 1 + 2 * (int)s.range(0, 4), kh = s.coin() ? -1 : s.coin() ? kw : 1 + 2 * (int)s.range(0, 4);
	double sigma_y = like_x ? sx : sy;
	int per = depth == mt_U8 ? 3 : 4;
	auto own_size = [&](double sg) { return sg == 0 ? 1 : (int)std::floor(sg * per * 2 + 1 + 0.5) | 1; };
	int nx = kw < 0 ? own_size(sx) : kw, ny = kh < 0 ? own_size(sigma_y) : kh;
	std::vector<double> gx = gaussian(nx, sx), gy = gaussian(ny, sigma_y);
	std::string what = pbt::strf("gaussian_blur(%d x %d x %d, depth %d%s%s, kernel (%d, %d), sigma %g, %g)", w, h, ch, (int)depth, window ? ", window" : "", turned ? ", flipped" : "", kw, kh, sx, like_x ? -1.0 : sy);
	s.note(what);
	mt_mat got;
	int form = (int)s.draw(3);
	if (form == 0) got = img_img::gaussian_blur(m, mt_size(kw, kh), sx, like_x ? -1 : sy);
	else if (form == 1) { if (s.coin()) got = mt_mat(2, 3, mt_U8C1, 4); img_img::gaussian_blur(got, m, mt_size(kw, kh), sx, like_x ? -1 : sy); }
	else { got = m; img_img::gaussian_blur(got, got, mt_size(kw, kh), sx, like_x ? -1 : sy); }
	CHECK_THAT(got.dim() == 2 && got.size()[0] == h && got.size()[1] == w && got.depth() == depth && got.channel() == ch, "%s: the result has size %d x %d, %d channels, depth %d", what.c_str(), got.size()[1], got.size()[0], got.channel(), (int)got.depth());
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) {
		double sum = 0;
		for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
			int yy = y + j - ny / 2, xx = x + i - nx / 2;
			if (yy >= 0 && xx >= 0 && yy < h && xx < w) sum += gy[j] * gx[i] * v[((size_t)yy * w + xx) * ch + c];
		}
		double g = value_at(got, y, x, c), tol = whole_type ? 1.0000001 : depth == mt_F32 ? 2e-4 : 1e-9;
		CHECK_THAT(std::fabs(g - sum) <= tol, "%s: %g at (%d,%d), channel %d, expected %g", what.c_str(), g, x, y, c, sum);
		double was = value_at(m, y, x, c);
		CHECK_THAT(was == v[((size_t)y * w + x) * ch + c], "%s changes the image at (%d,%d)", what.c_str(), x, y);
	}
	for (int y = 0; y < h + 2 * t; ++y) for (int x = 0; x < w + 2 * l; ++x)
		if (y < t || x < l || y >= t + h || x >= l + w) for (int c = 0; c < ch; ++c) CHECK_THAT(value_at(block, y, x, c) == 77, "%s writes outside the image", what.c_str());
	s.label(ch > 1 ? "several channels" : "one channel");
	if (kw > 0 && kh > 0 && kw != kh) s.label("kernel not square");
	if (kw > 0 || kh > 0) s.label("given kernel size");
	if (sx == 0 || sigma_y == 0) s.label("sigma 0");
	s.nontrivial(w > 1 && h > 1 && (nx > 1 || ny > 1) && nx <= 2 * w && ny <= 2 * h);
}
}

PROPERTY(C41, 600000, 6000000, "an image of several rows and columns, and kernels that are not single pixels and not over twice its size",
	"odd or automatic kernel sizes, sigma 0 or more in x, anything below 0 in y means as in x\npixels outside the image count as 0; integer images are within 1 of the mean (how they are rounded is not claimed)") {
	quiet();
	blur_case(src);
}
