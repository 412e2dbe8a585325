// The small algorithms of basicmath: sorting, selection, counting, dynamic programming, rectangles, random numbers, block memory.
// modules: math
#include "common.h"
#include <basicmath.h>
#include <mt_angle_helper.h>
#include <mt_mat_cache.h>
#include <memory>
#include <string>
using namespace basicmath;

namespace {
template <class A, class B> bool same(const A& a, const B& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template <class T> std::string txt(const std::vector<T>& v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size() && i < 60; ++i) r += (i ? "," : "") + pbt::strf("%.17g", (double)v[i]);
	return r + (v.size() > 60 ? ",...]" : "]");
}
template <class T> T elem(pbt::Src& s, int kind);
template <> i32 elem<i32>(pbt::Src& s, int kind) {
	return kind == 0 ? (i32)s.range(0, 3) : kind == 1 ? (i32)s.range(-50, 50) : kind == 2 ? (i32)(u32)s.any() : s.pick({INT_MIN, INT_MAX, 0, -1, 1});
}
template <> u8 elem<u8>(pbt::Src& s, int kind) { return kind == 0 ? (u8)s.range(0, 3) : (u8)s.range(0, 255); }
template <> f64 elem<f64>(pbt::Src& s, int kind) { return kind == 0 ? (f64)s.range(0, 3) : kind == 1 ? s.real(-10, 10, 1009) : ldexp(s.real(-1, 1, 10007), (int)s.range(-60, 60)); }
template <> f32 elem<f32>(pbt::Src& s, int kind) { return (f32)elem<f64>(s, kind); }

template <class T> std::vector<T> array(pbt::Src& s, int lo, int hi) {
	int n = (int)s.size(lo, hi);
	int kind = (int)s.draw(4);
	std::vector<T> v(n);
	for (auto& x : v) x = elem<T>(s, kind);
	switch (s.draw(5)) {
	case 1: std::sort(v.begin(), v.end()); break;
	case 2: std::sort(v.rbegin(), v.rend()); break;
	case 3:
		if (n > 2) {
			std::sort(v.begin(), v.end());
			std::swap(v[s.draw(n)], v[s.draw(n)]);
		}
		break;
	default: break;
	}
	return v;
}

template <class T> void sorting(pbt::Src& s) {
	std::vector<T> v = array<T>(s, 0, s.thorough() ? 400 : 120), w = v, want = v;
	bool inc = s.coin();
	if (inc) std::sort(want.begin(), want.end());
	else std::sort(want.begin(), want.end(), std::greater<T>());
	s.nontrivial(v.size() > 3 && !same(v, want));
	int way = (int)s.draw(3);
	if (s.want_note()) s.note(pbt::strf("%s %s of ", way == 0 ? "bubble_sort" : way == 1 ? "heap_sort" : "sort with indexes", inc ? "up" : "down") + txt(v));
	s.labelf("sorting, %s", way == 0 ? "bubble" : way == 1 ? "heap" : "with indexes");
	if (way == 0) mt_sort::bubble_sort<T>(w, b8(inc));
	else if (way == 1) mt_sort::heap_sort<T>(w, b8(inc));
	else {
		std::vector<i32> idx = s.coin() ? std::vector<i32>() : std::vector<i32>(s.draw(200), 7);
		mt_sort::sort<T>(idx, w, b8(inc));
		CHECK_THAT(idx.size() == v.size(), "sort of %zu elements returns %zu indexes", v.size(), idx.size());
		std::vector<char> seen(v.size(), 0);
		for (size_t i = 0; i < idx.size(); ++i) {
			CHECK_THAT(idx[i] >= 0 && (size_t)idx[i] < v.size() && !seen[idx[i]], "sort %s of %s: the indexes %s are not a permutation", inc ? "up" : "down", txt(v).c_str(), txt(idx).c_str());
			seen[idx[i]] = 1;
			CHECK_THAT(w[i] == v[idx[i]], "sort %s of %s gives %s at %zu, but index %d, where %s was", inc ? "up" : "down", txt(v).c_str(), pbt::strf("%.17g", (double)w[i]).c_str(), i, idx[i], pbt::strf("%.17g", (double)v[idx[i]]).c_str());
		}
	}
	CHECK_THAT(same(w, want), "%s %s of %s gives %s", way == 0 ? "bubble_sort" : way == 1 ? "heap_sort" : "sort", inc ? "up" : "down", txt(v).c_str(), txt(w).c_str());
}

template <class T> void top_k(pbt::Src& s) {
	std::vector<T> v = array<T>(s, 0, s.thorough() ? 300 : 100);
	int k = (int)s.range(1, s.coin() ? 5 : 60);
	bool big = s.coin();
	if (s.want_note()) s.note(pbt::strf("the %d %s of ", k, big ? "largest" : "smallest") + txt(v));
	s.nontrivial((int)v.size() > k);
	s.label("top k");
	mt_top_k<T> t(k, b8(big));
	std::vector<T> seen;
	size_t look = s.draw(v.size() + 1);
	for (size_t i = 0; i <= v.size(); ++i) {
		if (i == look || i == v.size()) {
			std::vector<T> want = seen, got, raw = t.get_top_k();
			if (big) std::sort(want.begin(), want.end(), std::greater<T>());
			else std::sort(want.begin(), want.end());
			if ((int)want.size() > k) want.resize(k);
			t.get_sorted_top_k(got);
			CHECK_THAT(same(got, want), "the %d %s of %s are sorted as %s, not %s", k, big ? "largest" : "smallest", txt(seen).c_str(), txt(got).c_str(), txt(want).c_str());
			if (big) std::sort(raw.begin(), raw.end(), std::greater<T>());
			else std::sort(raw.begin(), raw.end());
			CHECK_THAT(same(raw, want), "the %d %s of %s: get_top_k holds %s, not %s", k, big ? "largest" : "smallest", txt(seen).c_str(), txt(raw).c_str(), txt(want).c_str());
		}
		if (i < v.size()) {
			t.traverse(v[i]);
			seen.push_back(v[i]);
		}
	}
}

template <class T> T absolute(T v) { return v < 0 ? (T)-v : v; }

template <class T> void selection(pbt::Src& s) {
	std::vector<T> v = array<T>(s, 1, s.thorough() ? 300 : 100), w = v, sorted = v;
	for (auto& x : v) if (x == (T)INT_MIN && !std::is_floating_point<T>::value && std::is_signed<T>::value) x = 0;
	w = sorted = v;
	std::sort(sorted.begin(), sorted.end());
	s.nontrivial(v.size() > 2 && sorted.front() != sorted.back());
	s.label("extremes and median");
	if (s.want_note()) s.note("extremes and median of " + txt(v));
	T med = mt_helper::median_with_unchanged_order<T>(v);
	CHECK_THAT(same(v, w), "median_with_unchanged_order changes %s to %s", txt(w).c_str(), txt(v).c_str());
	CHECK_THAT(med == sorted[(v.size() - 1) / 2], "the median of %s is %.17g", txt(v).c_str(), (double)med);
	med = mt_helper::median_with_changed_order<T>(w);
	CHECK_THAT(med == sorted[(v.size() - 1) / 2], "the median of %s is %.17g (with changed order)", txt(v).c_str(), (double)med);
	std::sort(w.begin(), w.end());
	CHECK_THAT(same(w, sorted), "median_with_changed_order of %s changes the elements", txt(v).c_str());
	i32 n = (i32)v.size();
	CHECK_THAT(mt_helper::compute_min<T>(n, &v[0]) == sorted.front(), "compute_min of %s is %.17g", txt(v).c_str(), (double)mt_helper::compute_min<T>(n, &v[0]));
	CHECK_THAT(mt_helper::compute_max<T>(n, &v[0]) == sorted.back(), "compute_max of %s is %.17g", txt(v).c_str(), (double)mt_helper::compute_max<T>(n, &v[0]));
	i32 a = mt_helper::index_of_max_value<T>(n, &v[0]), b = mt_helper::index_of_min_value<T>(n, &v[0]);
	CHECK_THAT(a >= 0 && a < n && v[a] == sorted.back(), "index_of_max_value of %s is %d", txt(v).c_str(), a);
	CHECK_THAT(b >= 0 && b < n && v[b] == sorted.front(), "index_of_min_value of %s is %d", txt(v).c_str(), b);
	T least = absolute(v[0]);
	for (T x : v) least = std::min(least, absolute(x));
	T g = mt_helper::compute_abs_min<T>(&v[0], n), h = mt_helper::compute_min_in_abs<T>(&v[0], n);
	CHECK_THAT(g == least, "compute_abs_min of %s is %.17g", txt(v).c_str(), (double)g);
	CHECK_THAT(absolute(h) == least && std::find(v.begin(), v.end(), h) != v.end(), "compute_min_in_abs of %s is %.17g", txt(v).c_str(), (double)h);
}

void histogram(pbt::Src& s) {
	std::vector<f64> v = array<f64>(s, 1, 80);
	f64 shift = s.chance(1, 2) ? 0 : s.real(-20, 20, 7);
	for (auto& x : v) x += shift;
	if (s.chance(1, 10)) std::fill(v.begin(), v.end(), v[0]);
	int bins = (int)s.range(1, 12);
	std::vector<mt_range_t<f64>> ranges(s.draw(15));
	std::vector<i32> numbers(s.draw(20), (i32)s.range(0, 9));
	if (s.want_note()) s.note(pbt::strf("histogram with %d bins of ", bins) + txt(v));
	s.nontrivial(v.size() > 2 && bins > 1);
	s.label("histogram");
	mt_hist::hist(ranges, numbers, v, bins);
	f64 lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()), eps = 1e-9 * (fabs(lo) + fabs(hi)) + 1e-300;
	CHECK_THAT((int)ranges.size() == bins && (int)numbers.size() == bins, "%d bins: %zu ranges, %zu numbers", bins, ranges.size(), numbers.size());
	CHECK_THAT(ranges[0].m_start == lo, "the first bin of %s starts at %.17g", txt(v).c_str(), ranges[0].m_start);
	CHECK_THAT(ranges[bins - 1].m_end >= hi - eps, "the last bin of %s ends at %.17g", txt(v).c_str(), ranges[bins - 1].m_end);
	f64 width = (ranges[bins - 1].m_end - lo) / bins;
	for (int i = 0; i < bins; ++i) {
		CHECK_THAT(i == 0 || ranges[i].m_start == ranges[i - 1].m_end, "bin %d starts at %.17g, the one before ends at %.17g", i, ranges[i].m_start, ranges[i - 1].m_end);
		CHECK_THAT(fabs(ranges[i].m_end - ranges[i].m_start - width) <= eps, "bin %d is [%.17g, %.17g), the width is %.17g", i, ranges[i].m_start, ranges[i].m_end, width);
		int want = 0;
		for (f64 x : v) want += x >= ranges[i].m_start && (i == bins - 1 || x < ranges[i].m_end);
		CHECK_THAT(numbers[i] == want, "bin %d = [%.17g, %.17g) of %s counts %d, not %d", i, ranges[i].m_start, ranges[i].m_end, txt(v).c_str(), numbers[i], want);
	}
}

void odd_even(pbt::Src& s) {
	std::vector<i32> v = array<i32>(s, 0, 60), w = v;
	bool odd = s.coin(), keep = s.coin();
	if (s.want_note()) s.note(pbt::strf("odd_even_sort(%s first, %s) of ", odd ? "odd" : "even", keep ? "order kept" : "order free") + txt(v));
	s.label("odd and even");
	mt_helper::odd_even_sort<i32>(w, b8(odd), b8(keep));
	auto first = [&](i32 x) { return (x % 2 != 0) == odd; };
	s.nontrivial(v.size() > 2 && !std::is_partitioned(v.begin(), v.end(), first));
	std::vector<i32> want = v;
	std::stable_partition(want.begin(), want.end(), first);
	if (!keep) {
		CHECK_THAT(std::is_partitioned(w.begin(), w.end(), first), "odd_even_sort (%s first) of %s gives %s", odd ? "odd" : "even", txt(v).c_str(), txt(w).c_str());
		std::vector<i32> x = w;
		std::sort(x.begin(), x.end());
		std::sort(want.begin(), want.end());
		CHECK_THAT(same(x, want), "odd_even_sort of %s changes the elements: %s", txt(v).c_str(), txt(w).c_str());
	} else CHECK_THAT(same(w, want), "odd_even_sort (%s first, order kept) of %s gives %s", odd ? "odd" : "even", txt(v).c_str(), txt(w).c_str());
}
}

PROPERTY(C23, 3000000, 80000000, "an array that is not already in the result's order (sorting), more elements than are kept (top k), several different elements (the others)",
	"no nan; not the smallest integer where absolute values are taken")
{
	quiet();
	pbt::Src& s = src;
	switch (s.weighted({5, 3, 4, 2, 2})) {
	case 0: switch (s.draw(3)) { case 0: sorting<i32>(s); break; case 1: sorting<f64>(s); break; default: sorting<u8>(s); } break;
	case 1: if (s.coin()) top_k<f64>(s); else top_k<i32>(s); break;
	case 2: switch (s.draw(3)) { case 0: selection<i32>(s); break; case 1: selection<f64>(s); break; default: selection<f32>(s); } break;
	case 3: histogram(s); break;
	default: odd_even(s);
	}
}

// ------------------------------------------------------------------------------------------------- dynamic programming
namespace {
void bag_case(pbt::Src& s) {
	int n = (int)s.size(0, s.thorough() ? 14 : 11), kind = (int)s.draw(3);
	std::vector<i32> w(n), v(n);
	i32 sum = 0;
	for (int i = 0; i < n; ++i) {
		w[i] = (i32)s.range(s.chance(1, 5) ? 0 : 1, kind == 0 ? 4 : kind == 1 ? 12 : 1000);
		v[i] = (i32)s.range(0, kind == 0 ? 4 : kind == 1 ? 20 : 100000);
		sum += w[i];
	}
	i32 cap = (i32)s.range(0, sum + 2);
	bool f = s.chance(1, 4);
	std::string what = pbt::strf("bag of %d for weights %s, values %s%s", cap, txt(w).c_str(), txt(v).c_str(), f ? " (f64)" : "");
	if (s.want_note()) s.note(what);
	i32 best = 0;
	for (int m = 0; m < 1 << n; ++m) {
		i32 a = 0, b = 0;
		for (int i = 0; i < n; ++i) if (m >> i & 1) {
			a += w[i];
			b += v[i];
		}
		if (a <= cap) best = std::max(best, b);
	}
	s.nontrivial(n > 2 && cap > 0 && cap < sum);
	s.label("bag");
	double max_value;
	std::vector<b8> flags;
	if (f) {
		std::vector<f64> wf, vf;
		for (int i = 0; i < n; ++i) {
			wf.push_back(w[i] * 0.25);
			vf.push_back(v[i] * 0.5);
		}
		mt_01_bag<f64, f64> bag(wf, vf, cap * 0.25);
		max_value = bag.max_value() * 2;
		flags = bag.flag_01();
	} else {
		mt_01_bag<i32, i32> bag(w, v, cap);
		max_value = bag.max_value();
		flags = bag.flag_01();
	}
	CHECK_THAT(max_value == best, "%s: the value is %g, not %d", what.c_str(), max_value, best);
	CHECK_THAT((int)flags.size() == n, "%s: %zu flags", what.c_str(), flags.size());
	i32 a = 0, b = 0;
	std::string chosen;
	for (int i = 0; i < n; ++i) if (flags[i]) {
		a += w[i];
		b += v[i];
		chosen += pbt::strf(" %d", i);
	}
	CHECK_THAT(a <= cap && b == best, "%s: elements%s weigh %d and are worth %d; the best is %d", what.c_str(), chosen.c_str(), a, b, best);
}

template <class T> void substring(pbt::Src& s) {
	int letters = (int)s.range(1, 4), na = (int)s.size(1, s.thorough() ? 40 : 20), nb = (int)s.size(1, s.thorough() ? 40 : 20);
	std::vector<T> a(na), b(nb);
	for (auto& x : a) x = (T)s.draw(letters);
	for (auto& x : b) x = (T)(s.draw(letters) + (letters == 1 && s.chance(1, 2) ? 1 : 0));
	std::string what = "common substring of " + txt(a) + " and " + txt(b);
	if (s.want_note()) s.note(what);
	int best = 0;
	std::set<std::pair<int, int>> want;
	for (int i = 0; i < na; ++i) {
		for (int j = 0; j < nb; ++j) {
			int k = 0;
			while (i + k < na && j + k < nb && a[i + k] == b[j + k]) ++k;
			if (k > best) {
				best = k;
				want.clear();
			}
			if (k == best && k > 0) want.insert({i, j});
		}
	}
	s.nontrivial(best > 1 && want.size() < 20);
	s.label("common substring");
	mt_longest_common_substring<T> l(a, b);
	CHECK_THAT(l.length() == best, "%s: the length is %d, not %d", what.c_str(), l.length(), best);
	if (best > 0) CHECK_THAT(want.count({l.a_begin_index(), l.b_begin_index()}), "%s: length %d at %d and %d", what.c_str(), best, l.a_begin_index(), l.b_begin_index());
	std::vector<i32> ia(s.draw(3), 9), ib(s.draw(3), 9);
	l.all_a_begin_index(ia);
	l.all_b_begin_index(ib);
	std::set<int> wa, wb;
	for (auto& p : want) {
		wa.insert(p.first);
		wb.insert(p.second);
	}
	CHECK_THAT(std::set<int>(ia.begin(), ia.end()) == wa, "%s (length %d): all_a_begin_index is %s, not %s", what.c_str(), best, txt(ia).c_str(), txt(std::vector<i32>(wa.begin(), wa.end())).c_str());
	CHECK_THAT(std::set<int>(ib.begin(), ib.end()) == wb, "%s (length %d): all_b_begin_index is %s, not %s", what.c_str(), best, txt(ib).c_str(), txt(std::vector<i32>(wb.begin(), wb.end())).c_str());
}

template <class T> void max_sum(pbt::Src& s) {
	int n = (int)s.size(1, s.thorough() ? 80 : 30);
	int lo = s.pick({-10, -3, -100, 0}), hi = s.pick({10, 3, 0, -1});
	if (lo > hi) std::swap(lo, hi);
	std::vector<T> v(n);
	for (auto& x : v) x = (T)s.range(lo, hi) * (T)(std::is_floating_point<T>::value ? 0.25 : 1);
	if (s.want_note()) s.note("largest sum of neighbours in " + txt(v));
	T best = v[0];
	for (int i = 0; i < n; ++i) {
		T t = 0;
		for (int j = i; j < n; ++j) best = std::max(best, t += v[j]);
	}
	s.nontrivial(n > 2 && lo < 0);
	s.label("largest sum");
	mt_max_sum_for_continuous_element<T> m(v);
	CHECK_THAT(m.max_sum() == best, "the largest sum of neighbours in %s is %.17g, not %.17g", txt(v).c_str(), (double)m.max_sum(), (double)best);
	CHECK_THAT(m.begin_index() >= 0 && m.length() >= 1 && m.begin_index() + m.length() <= n, "the largest sum of neighbours in %s: begin %d, length %d", txt(v).c_str(), m.begin_index(), m.length());
	T t = 0;
	for (int i = 0; i < m.length(); ++i) t += v[m.begin_index() + i];
	CHECK_THAT(t == best, "the %d elements of %s from %d have the sum %.17g, not %.17g", m.length(), txt(v).c_str(), m.begin_index(), (double)t, (double)best);
}

void split_case(pbt::Src& s) {
	std::vector<i32> v = array<i32>(s, 1, 30), a(s.draw(4), 5), b(s.draw(4), 5);
	for (auto& x : v) x %= 100000000;
	if (s.want_note()) s.note("two parts with the largest difference of means from " + txt(v));
	s.nontrivial(v.size() > 2);
	s.label("split by means");
	mt_helper::split_array_to_max_mean_sub_arrays(a, b, v);
	std::vector<i32> all = a, sorted = v;
	all.insert(all.end(), b.begin(), b.end());
	std::sort(all.begin(), all.end());
	std::sort(sorted.begin(), sorted.end());
	CHECK_THAT(same(all, sorted), "%s is split into %s and %s", txt(v).c_str(), txt(a).c_str(), txt(b).c_str());
	if (v.size() == 1) return;
	CHECK_THAT(!a.empty() && !b.empty(), "%s is split into %s and %s", txt(v).c_str(), txt(a).c_str(), txt(b).c_str());
	auto mean = [](const i32* p, size_t n) {
		double t = 0;
		for (size_t i = 0; i < n; ++i) t += p[i];
		return t / n;
	};
	double best = 0, got = mean(&a[0], a.size()) - mean(&b[0], b.size());
	for (size_t i = 1; i < v.size(); ++i) best = std::max(best, mean(&sorted[i], v.size() - i) - mean(&sorted[0], i));
	CHECK_THAT(got >= best - 1e-6 * (fabs(best) + 1), "%s is split into %s and %s: the means differ by %.10g, not by %.10g", txt(v).c_str(), txt(a).c_str(), txt(b).c_str(), got, best);
}
}

PROPERTY(C24, 1200000, 30000000, "bag: more than two elements of which not all fit; substring: at least two long, not everywhere; sum: negative elements; split: more than two elements",
	"bags of up to 14 elements with weights and values from zero; reals are multiples of 1/4, so that sums are exact")
{
	quiet();
	pbt::Src& s = src;
	switch (s.weighted({3, 3, 3, 1})) {
	case 0: bag_case(s); break;
	case 1: if (s.coin()) substring<i32>(s); else substring<char>(s); break;
	case 2: if (s.coin()) max_sum<i32>(s); else max_sum<f64>(s); break;
	default: split_case(s);
	}
}

// ------------------------------------------------------------------------------------------------- numbers and indexes
namespace {
void compare_case(pbt::Src& s) {
	s.label("comparing");
	int kind = (int)s.draw(6);
	if (kind <= 1) {
		i32 a = elem<i32>(s, (int)s.draw(4)), b = elem<i32>(s, (int)s.draw(4));
		if (kind == 0) {
			if (s.want_note()) s.note(pbt::strf("comparing the i32 %d and %d", a, b));
			s.nontrivial(a != b);
			CHECK_THAT(mt_helper::compare_value<i32>(a, b) == (a < b ? -1 : a > b), "compare_value(%d, %d) is %d", a, b, mt_helper::compare_value<i32>(a, b));
			CHECK_THAT(mt_helper::max<i32>(a, b) == std::max(a, b) && mt_helper::min<i32>(a, b) == std::min(a, b), "max or min of %d and %d", a, b);
		} else {
			u32 x = (u32)a, y = (u32)b;
			if (s.want_note()) s.note(pbt::strf("comparing the u32 %u and %u", x, y));
			s.nontrivial(x != y);
			CHECK_THAT(mt_helper::compare_value<u32>(x, y) == (x < y ? -1 : x > y), "compare_value(%uu, %uu) is %d", x, y, mt_helper::compare_value<u32>(x, y));
		}
		CHECK_THAT(mt_helper::is_same_symbol<i32>(a, b) == ((a >= 0 && b >= 0) || (a <= 0 && b <= 0)), "is_same_symbol(%d, %d)", a, b);
		return;
	}
	// reals: equal within a relative or absolute eps, otherwise ordered
	bool f = kind <= 3;
	double eps = f ? 1e-6 : 1e-11, a = s.chance(1, 8) ? s.pick({0.0, (double)INFINITY, -(double)INFINITY, f ? (double)FLT_MAX : DBL_MAX}) : elem<f64>(s, (int)s.draw(4));
	double b;
	switch (s.draw(5)) {
	case 0: b = a; break;
	case 1: b = a * (1 + s.real(-0.4, 0.4, 1009) * eps); break;
	case 2: b = a * (1 + s.real(-90, 90, 1009) * eps); break;
	case 3: b = -a; break;
	default: b = s.chance(1, 6) ? s.pick({(double)INFINITY, -(double)INFINITY}) : elem<f64>(s, (int)s.draw(4));
	}
	if (f) {
		a = (f32)a;
		b = (f32)b;
	}
	int got = f ? mt_helper::compare_float((f32)a, (f32)b) : mt_helper::compare_double(a, b), back = f ? mt_helper::compare_float((f32)b, (f32)a) : mt_helper::compare_double(b, a);
	int value = f ? mt_helper::compare_value<f32>((f32)a, (f32)b) : mt_helper::compare_value<f64>(a, b);
	if (s.want_note()) s.note(pbt::strf("comparing the %s %.17g and %.17g", f ? "f32" : "f64", a, b));
	s.nontrivial(a != b);
	const char* t = f ? "compare_float" : "compare_double";
	CHECK_THAT(value == got && got == -back, "%s(%.17g, %.17g) is %d, the other way %d, compare_value %d", t, a, b, got, back, value);
	double d = fabs(a - b), m = std::max(fabs(a), fabs(b));
	if (a == b || d < eps * 0.9 || (m < INFINITY && d < m * eps * 0.9)) CHECK_THAT(got == 0, "%s(%.17g, %.17g) is %d", t, a, b, got);
	else if (m == INFINITY || (d > eps * 1.1 && d > m * eps * 1.1)) CHECK_THAT(got == (a < b ? -1 : 1), "%s(%.17g, %.17g) is %d", t, a, b, got);
}

void number_case(pbt::Src& s) {
	switch (s.draw(8)) {
	case 0: {
		int n = (int)s.range(0, 40), k = (int)s.range(0, n);
		if (s.chance(1, 4)) {
			n = (int)s.range(0, 60000);
			k = (int)s.range(0, std::min(n, 2));
		}
		double c = 1;
		for (int i = 1; i <= k; ++i) c = round(c * (n - k + i) / i);
		if (c > INT_MAX) throw pbt::Discard();
		s.label("combinations");
		s.nontrivial(k > 1 && n - k > 1);
		if (s.want_note()) s.note(pbt::strf("combination(%d, %d)", n, k));
		CHECK_THAT(mt_helper::combination(n, k) == (i32)c, "combination(%d, %d) is %d, not %.0f", n, k, mt_helper::combination(n, k), c);
		int q = n % 13;
		i64 f = 1;
		for (int i = 2; i <= q; ++i) f *= i;
		CHECK_THAT(mt_helper::factorial(q) == f, "factorial(%d) is %d", q, mt_helper::factorial(q));
		break;
	}
	case 1: {
		u64 bits = s.any();
		if (s.coin()) bits &= s.any();
		s.label("bits");
		s.nontrivial();
		if (s.want_note()) s.note(pbt::strf("bits of %llx", (unsigned long long)bits));
		CHECK_THAT(mt_helper::number_of_1((i64)bits) == __builtin_popcountll(bits), "number_of_1(%llxll) is %d", (unsigned long long)bits, mt_helper::number_of_1((i64)bits));
		CHECK_THAT(mt_helper::number_of_1((i32)bits) == __builtin_popcount((u32)bits), "number_of_1(%x) is %d", (u32)bits, mt_helper::number_of_1((i32)bits));
		CHECK_THAT((u32)mt_helper::reverse_i32((i32)bits) == __builtin_bswap32((u32)bits), "reverse_i32(%x) is %x", (u32)bits, (u32)mt_helper::reverse_i32((i32)bits));
		break;
	}
	case 2: {
		u32 v = (u32)s.range(0, s.chance(1, 20) ? 30000 : 300), want = 0;
		s.label("ones");
		s.nontrivial(v > 10);
		if (s.want_note()) s.note(pbt::strf("digits 1 up to %u", v));
		for (u32 i = 0; i <= v; ++i) for (u32 x = i; x; x /= 10) want += x % 10 == 1;
		CHECK_THAT(mt_helper::one_number(v) == want, "one_number(%u) is %u, not %u", v, mt_helper::one_number(v), want);
		break;
	}
	case 3: {
		if (s.chance(1, 3)) {
			std::string t, best;
			for (int n = (int)s.draw(9); n > 0; --n) t += (char)('a' + s.draw(4));
			for (size_t i = 0; i < t.size(); ++i) { std::string x = t.substr(0, i) + t.substr(i + 1); if (!i || x < best) best = x; }
			s.label("remove a letter");
			s.nontrivial(t.size() > 2);
			CHECK_THAT(mt_helper::max_lexi_order(t) == best, "max_lexi_order(%s) is %s, not %s", t.c_str(), mt_helper::max_lexi_order(t).c_str(), best.c_str());
			break;
		}
		i64 v = s.range(-199999999, 199999999);
		int digits = (int)s.draw(9);
		for (int i = 0; i < digits; ++i) v /= 10;
		std::string t = std::to_string(v < 0 ? -v : v);
		i64 best = LLONG_MIN;
		for (size_t i = 0; i <= t.size(); ++i) {
			i64 x = std::stoll(t.substr(0, i) + "5" + t.substr(i));
			best = std::max(best, v < 0 ? -x : x);
		}
		if (best > INT_MAX || best < INT_MIN) throw pbt::Discard();
		s.label("insert a five");
		s.nontrivial(t.size() > 1);
		if (s.want_note()) s.note(pbt::strf("the largest number with a 5 put into %lld", (long long)v));
		CHECK_THAT(mt_helper::add_five((i32)v) == best, "add_five(%lld) is %d, not %lld", (long long)v, mt_helper::add_five((i32)v), (long long)best);
		break;
	}
	case 4: {
		int n = (int)s.range(1, 5);
		std::vector<i32> sizes(n), idx(n), back(s.draw(7), 3);
		i64 total = 1;
		for (auto& x : sizes) total *= x = (i32)s.range(1, 6);
		i32 at = (i32)s.draw(total), want = at;
		for (int i = n; i-- > 0;) {
			idx[i] = want % sizes[i];
			want /= sizes[i];
		}
		s.label("indexes");
		s.nontrivial(n > 1);
		if (s.want_note()) s.note(pbt::strf("element %d of %s", at, txt(sizes).c_str()));
		CHECK_THAT(mt_helper::index_from_multi_index(idx, n, &sizes[0]) == at, "the index of %s in %s is %d, not %d", txt(idx).c_str(), txt(sizes).c_str(), mt_helper::index_from_multi_index(idx, n, &sizes[0]), at);
		mt_helper::multi_index_from_index(back, at, n, &sizes[0]);
		CHECK_THAT(same(back, idx), "element %d of %s is at %s, not %s", at, txt(sizes).c_str(), txt(back).c_str(), txt(idx).c_str());
		break;
	}
	case 5: {
		double v = s.chance(1, 5) ? s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY, 0.0, DBL_MAX, 5e-324}) : elem<f64>(s, (int)s.draw(4));
		s.label("reals");
		s.nontrivial(v != 0);
		if (s.want_note()) s.note(pbt::strf("the real %.17g", v));
		bool nan = v != v, inf = fabs(v) == INFINITY;
		CHECK_THAT((bool)mt_helper::is_nan(v) == nan && (bool)mt_helper::is_infinity(v) == inf && (bool)mt_helper::is_number(v) == (!nan && !inf), "is_nan, is_infinity, is_number of %.17g are %d, %d, %d", v, (int)(bool)mt_helper::is_nan(v), (int)(bool)mt_helper::is_infinity(v), (int)(bool)mt_helper::is_number(v));
		if (fabs(v) < 1e6) {
			i64 r = mt_helper::neibour_float<f64>(v);
			CHECK_THAT(fabs(r - v) <= 0.5 + 1e-9, "the integer next to %.17g is %lld", v, (long long)r);
			double x = floor(v * 4) / 4;
			CHECK_THAT(mt_helper::neibour_float<f64>(x) == (i64)round(x), "the integer next to %.17g is %lld", x, (long long)mt_helper::neibour_float<f64>(x));
			CHECK_THAT(mt_helper::neibour_float<f32>((f32)x) == (i64)round((f32)x), "the integer next to %.17g is %lld (f32)", x, (long long)mt_helper::neibour_float<f32>((f32)x));
		}
		break;
	}
	case 6: {
		double a = s.real(-360, 720, 4), r;
		i32 i = (i32)s.range(-360, 720), d = (i32)s.draw(360);
		s.label("angles");
		s.nontrivial(a < 0 || a > 360);
		if (s.want_note()) s.note(pbt::strf("the angles %g, %d and %d", a, i, d));
		r = mt_angle_helper::normlize_angle<f64>(a);
		CHECK_THAT(r >= 0 && r <= 360 && fmod(r - a + 1080, 360) == 0, "normlize_angle(%g) is %g", a, r);
		i32 ri = mt_angle_helper::normlize_angle<i32>(i);
		CHECK_THAT(ri >= 0 && ri <= 360 && (ri - i) % 360 == 0, "normlize_angle(%d) is %d", i, ri);
		const double pi = 3.14159265358979323846;
		r = mt_angle_helper::radian_from_angle(a);
		CHECK_THAT(fabs(r - a * pi / 180) < 1e-5, "%g degrees are %g radians", a, r);
		CHECK_THAT(fabs(mt_angle_helper::angle_from_radian(r) - a) < 1e-9, "%g radians are %g degrees, not %g", r, mt_angle_helper::angle_from_radian(r), a);
		CHECK_THAT(fabs(mt_trigonometric_function::angle_cos(d) - cos(d * pi / 180)) < 1e-6 && fabs(mt_trigonometric_function::angle_sin(d) - sin(d * pi / 180)) < 1e-6, "cosine %.10g and sine %.10g of %d degrees", mt_trigonometric_function::angle_cos(d), mt_trigonometric_function::angle_sin(d), d);
		break;
	}
	default: {
		// ships on a board: how many are sunk, how many are only hit
		int n = (int)s.range(1, 4);
		std::string ships, hits;
		std::set<std::pair<int, int>> hit;
		std::vector<std::vector<int>> box;
		for (int i = 0; i < n; ++i) {
			int t = (int)s.range(0, 8), l = (int)s.range(0, 25), b = t + (int)s.range(0, std::min(2, 8 - t)), r = l + (int)s.range(0, std::min(2, 25 - l));
			box.push_back({t, l, b, r});
			ships += pbt::strf("%s%c%c,%c%c", i ? ";" : "", '1' + t, 'A' + l, '1' + b, 'A' + r);
		}
		int h = (int)s.range(1, 14);
		for (int i = 0; i < h; ++i) {
			auto& x = box[s.draw(n)];
			std::pair<int, int> p((int)s.range(x[0], x[2]), (int)s.range(x[1], x[3]));
			if (s.chance(1, 6)) p = {(int)s.range(0, 8), (int)s.range(0, 25)};
			hit.insert(p);
			hits += pbt::strf("%s%c%c", i ? "," : "", '1' + p.first, 'A' + p.second);
		}
		int sunk = 0, only = 0;
		for (auto& x : box) {
			int c = 0, all = 0;
			for (int a = x[0]; a <= x[2]; ++a) for (int b = x[1]; b <= x[3]; ++b) {
				++all;
				c += (int)hit.count({a, b});
			}
			if (c == all) ++sunk;
			else if (c) ++only;
		}
		s.label("ships");
		s.nontrivial(n > 1);
		if (s.want_note()) s.note("ships " + ships + " hit at " + hits);
		std::string got = mt_helper::battle_ship(ships, hits), want = pbt::strf("%d,%d", sunk, only);
		CHECK_THAT(got == want, "ships %s hit at %s: \"%s\", not \"%s\"", ships.c_str(), hits.c_str(), got.c_str(), want.c_str());
	}
	}
}

// matrices made of lists of numbers
template <class T> void list_case(pbt::Src& s) {
	const mt_Depth depth = mt_mat_t<T>::depth_from_data_type();
	const size_t es = mt_Depth_Size[depth];
	CHECK_THAT(es == sizeof(T), "elements of %zu bytes have a depth of %zu", sizeof(T), es);
	int how = (int)s.draw(3), rows = how == 0 ? 1 : (int)s.range(1, 4), cols = (int)s.range(1, 6), planes = 1, ch = 1;
	if (how == 2) {	// six numbers
		static const int shapes[6][4] = {{1, 1, 6, 1}, {1, 2, 3, 1}, {1, 3, 1, 2}, {2, 1, 3, 1}, {3, 2, 1, 1}, {1, 1, 2, 3}};
		const int* q = shapes[s.draw(6)];
		planes = q[0]; rows = q[1]; cols = q[2]; ch = q[3];
	}
	std::vector<T> v;
	for (int i = 0; i < planes * rows * cols * ch; ++i) v.push_back((T)(s.coin() ? s.range(0, 100) : s.range(-100000, 100000)));
	bool deep = how == 2 && (planes > 1 || s.coin());
	mt_mat m;
	if (how == 0) m = mt_mat_t<T>::read(v);
	else if (how == 1) {
		std::vector<std::vector<T>> lines;
		for (int i = 0; i < rows; ++i) lines.push_back(std::vector<T>(v.begin() + i * cols, v.begin() + (i + 1) * cols));
		m = mt_mat_t<T>::read(lines);
	} else if (deep) m = mt_mat_t<T>(planes, rows, cols, ch).read((double)v[0], v[1], v[2], v[3], v[4], v[5]);
	else m = mt_mat_t<T>(rows, cols, ch).read((double)v[0], v[1], v[2], v[3], v[4], v[5]);
	s.label("lists");
	s.nontrivial(v.size() > 2);
	std::vector<int> size;
	if (deep) size.push_back(planes);
	size.push_back(rows);
	size.push_back(cols);
	CHECK_THAT(m.depth() == depth && m.channel() == ch && m.dim() == (i32)size.size() && std::equal(size.begin(), size.end(), m.size()), "the matrix of %s has another shape or depth", txt(v).c_str());
	CHECK_THAT(m.is_continuous() && std::equal(v.begin(), v.end(), (const T*)m.data()), "the matrix of %s holds other numbers", txt(v).c_str());
	std::vector<mt_mat> copies(s.draw(4)), all(1 + s.draw(3), m);
	mt_mat_helper::clone(copies, all);
	CHECK_THAT(copies.size() == all.size(), "%zu clones of %zu matrices", copies.size(), all.size());
	for (size_t i = 0; i < all.size(); ++i) {
		CHECK_THAT(!copies[i].is_memory_shared(m) && copies[i].dim() == m.dim() && std::equal(v.begin(), v.end(), (const T*)copies[i].data()), "clone %zu of the matrix of %s", i, txt(v).c_str());
		*(T*)copies[i].data() += 1;
	}
	CHECK_THAT(*(const T*)m.data() == v[0], "a clone shares the memory of the matrix of %s", txt(v).c_str());
	int n = (int)s.range(1, 4);
	i32 src[4], kernel[4], stride[4], got[4];
	for (int i = 0; i < n; ++i) { src[i] = (i32)s.range(1, 20); kernel[i] = (i32)s.range(1, 8); stride[i] = (i32)s.range(1, 8); }
	mt_mat_helper::get_pooling_result_size(n, got, src, kernel, stride);
	for (int i = 0; i < n; ++i) {
		int want = 1;	// windows until one reaches the end or begins behind it
		for (int at = 0; at + kernel[i] < src[i]; at += stride[i]) if (at + stride[i] < src[i]) ++want; else break;
		CHECK_THAT(got[i] == want, "%d elements are pooled to %d by windows of %d every %d, not %d", src[i], got[i], kernel[i], stride[i], want);
	}
}

template <class T> void vector_case(pbt::Src& s) {
	std::vector<T> v = array<T>(s, 0, 30), w = v;
	for (auto& x : v) x = (T)((i64)x % 1000);
	w = v;
	s.label("vectors");
	s.nontrivial(v.size() > 2);
	if (s.want_note()) s.note("reversing, summing, cutting " + txt(v));
	mt_helper::flip_vector<T>(w);
	std::vector<T> want(v.rbegin(), v.rend());
	CHECK_THAT(same(w, want), "flip_vector of %s gives %s", txt(v).c_str(), txt(w).c_str());
	T sum = 0, prod = 1;
	std::vector<T> integral(1, 0), a(v.size() + 1), b(v.size() + 1);
	for (T x : v) {
		sum += x;
		integral.push_back(sum);
	}
	mt_helper::integral_array<T>(a, v);
	if (!v.empty()) mt_helper::integral_array<T>(&b[0], &v[0], &v[0] + v.size());
	else b = integral;
	CHECK_THAT(same(a, integral) && same(b, integral), "the integral of %s is %s and %s", txt(v).c_str(), txt(a).c_str(), txt(b).c_str());
	CHECK_THAT(mt_helper::add<T>(v) == sum, "the sum of %s is %.17g", txt(v).c_str(), (double)mt_helper::add<T>(v));
	std::vector<T> few(v.begin(), v.begin() + std::min<size_t>(v.size(), 3));
	for (T x : few) prod *= x;
	if (!few.empty()) CHECK_THAT(mt_helper::mutiply<T>(few) == prod, "the product of %s is %.17g", txt(few).c_str(), (double)mt_helper::mutiply<T>(few));
	int from = (int)s.draw(v.size() + 1), to = (int)s.range(from, v.size());
	std::vector<T> part(s.draw(40), 1);
	mt_helper::sub_vector<T>(part, v, mt_range(from, to));
	CHECK_THAT(same(part, std::vector<T>(v.begin() + from, v.begin() + to)), "elements [%d,%d) of %s are %s", from, to, txt(v).c_str(), txt(part).c_str());
	if (!v.empty()) {
		part.assign(s.draw(40), 1);
		mt_helper::vec_from_array<T>(part, (i32)v.size(), &v[0]);
		CHECK_THAT(same(part, v) && same(mt_helper::vec_from_array<T>((i32)v.size(), &v[0]), v), "vec_from_array of %s gives %s", txt(v).c_str(), txt(part).c_str());
	}
	std::vector<T*> ptr(s.draw(40));
	mt_helper::pointer_from_instance<T>(ptr, v);
	CHECK_THAT(ptr.size() == v.size(), "%zu pointers to the %zu elements", ptr.size(), v.size());
	for (size_t i = 0; i < v.size(); ++i) CHECK_THAT(ptr[i] == &v[i], "pointer %zu of %zu", i, v.size());
	part.assign(s.draw(40), 1);
	mt_helper::instance_from_pointer<T>(part, ptr);
	CHECK_THAT(same(part, v), "instance_from_pointer of pointers to %s gives %s", txt(v).c_str(), txt(part).c_str());
	T x = v.empty() ? (T)1 : v[s.draw(v.size())];
	bool all = true;
	for (T y : v) all = all && y == x;
	CHECK_THAT((bool)mt_helper::is_vec_value<T>(v, x) == all, "is_vec_value(%s, %.17g)", txt(v).c_str(), (double)x);
	w = v;
	if (!w.empty() && s.coin()) w[s.draw(w.size())] += (T)s.draw(2);
	else if (s.chance(1, 4)) w.push_back((T)0);
	CHECK_THAT(basicmath::operator==(v, w) == same(v, w), "%s == %s is %d", txt(v).c_str(), txt(w).c_str(), (int)basicmath::operator==(v, w));
}
}

PROPERTY(C25, 4500000, 100000000, "different numbers, indexes of several dimensions, vectors of more than two elements, several digits, several ships, angles outside of [0, 360]",
	"reals are compared outside of a tenth around the tolerance\nangles from -360 to 720 degrees; combinations that fit 32 bits")
{
	quiet();
	pbt::Src& s = src;
	switch (s.weighted({3, 5, 3})) {
	case 0: compare_case(s); break;
	case 1: number_case(s); break;
	default:
		switch (s.draw(6)) {
		case 0: list_case<i32>(s); break;
		case 1: if (s.coin()) list_case<f64>(s); else if (s.coin()) list_case<f32>(s); else list_case<i64>(s); break;
		case 2: case 3: vector_case<i32>(s); break;
		default: vector_case<f64>(s);
		}
	}
}

// ------------------------------------------------------------------------------------------------- block memory
namespace {
struct Odd {
	u8 b[13];
	bool operator==(const Odd& o) const { return memcmp(b, o.b, sizeof b) == 0; }
};
void make(Odd& o, u64 x) { for (int i = 0; i < 13; ++i) o.b[i] = (u8)(x >> (i % 8 * 8)) + (u8)i; }
void make(i32& o, u64 x) { o = (i32)x; }
void make(std::string& o, u64 x) { o = "value " + std::to_string(x) + (x % 3 ? "" : " that is long enough to live on the heap"); }

template <class T> struct Slot {
	T* at;
	T value;
	bool used;
};

template <class T> void block_memory(pbt::Src& s, bool use_new, const char* name) {
	typedef mt_block_memory<T> BM;
	int base = (int)s.range(0, s.coin() ? 3 : 7), reuse = s.chance(1, 3) ? 0 : (int)s.range(1, 20);
	std::unique_ptr<BM> bm;
	std::string log = pbt::strf("block memory of %s, blocks of %d, up to %d kept for reuse:", name, 1 << base, reuse);
	bool later = s.chance(1, 3);
	if (later) {
		bm.reset(new BM());
		bm->init(base, b8(use_new), reuse);
	} else bm.reset(new BM(base, b8(use_new), reuse));
	std::vector<Slot<T>> slots;
	std::vector<int> kept;	// slots put aside for reuse
	size_t high = 0;		// blocks ever needed since the last time the memory was given back
	bool inited = true, crossed = false, reused = false;
	int restarts = 0, steps = (int)s.size(1, s.thorough() ? 400 : 150);
	auto fresh = [&](const char* how) {
		slots.clear();
		kept.clear();
		++restarts;
		log += pbt::strf(" %s(%d,%d)", how, base, reuse);
	};
	for (int i = 0; i < steps; ++i) {
		int op = s.weighted({12, 5, 2, 1, 1, 1, 2});
		switch (op) {
		case 0: {	// a run of elements
			int n = (int)s.range(1, s.coin() ? 2 : 12);
			log += pbt::strf(" +%d", n);
			for (int k = 0; k < n; ++k) {
				T* p = NULL;
				basicmath_block_memory_get((*bm), p, T);
				T v = T();
				make(v, s.any());
				if (!kept.empty()) {
					int f = kept.back();
					CHECK_THAT(p == slots[f].at, "%s: the next element is not the one put aside last", log.c_str());
					kept.pop_back();
					slots[f].used = true;
					slots[f].value = v;
					reused = true;
				} else {
					for (auto& x : slots) CHECK_THAT((u8*)p + sizeof(T) <= (u8*)x.at || (u8*)x.at + sizeof(T) <= (u8*)p, "%s: a new element overlaps an element in use", log.c_str());
					slots.push_back(Slot<T>{p, v, true});
				}
				*p = v;
				basicmath_block_memory_add((*bm));
				crossed = crossed || slots.size() > (size_t)1 << base;
			}
			break;
		}
		case 1: {	// an element is put aside
			std::vector<int> used;
			for (size_t k = 0; k < slots.size(); ++k) if (slots[k].used) used.push_back((int)k);
			if (used.empty()) break;
			int f = used[s.draw(used.size())];
			T* p = slots[f].at;
			log += pbt::strf(" -[%d]", f);
			basicmath_block_memory_reuse((*bm), p);
			if ((int)kept.size() < reuse) kept.push_back(f);
			slots[f].used = false;
			break;
		}
		case 2:
			bm->reset();
			fresh("reset");
			break;
		case 3:
			if (s.coin()) base = (int)s.range(0, 6);
			if (s.coin()) reuse = (int)s.range(0, 20);
			bm->init(base, b8(use_new), reuse);
			fresh("init");
			break;
		case 4:
			bm->clear();
			CHECK_THAT(bm->memory_size() == 0 && bm->m_element_number == 0, "%s: after clear there are %d elements in %llu bytes", log.c_str(), bm->m_element_number, (unsigned long long)bm->memory_size());
			log += " clear";
			bm->init(base, b8(use_new), reuse);
			fresh("init");
			break;
		case 5: {	// which addresses are elements
			T other;
			if (slots.empty()) break;
			Slot<T>& x = slots[s.draw(slots.size())];
			log += " in_block";
			CHECK_THAT((bool)bm->in_block(x.at), "%s: in_block denies an element", log.c_str());
			CHECK_THAT(!bm->in_block(&other), "%s: in_block takes a local variable for an element", log.c_str());
			T* next = bm->m_cur_data;
			CHECK_THAT(!bm->in_block(next), "%s: in_block takes the place of the next element for an element", log.c_str());
			break;
		}
		default: {	// the elements in order
			log += " visit";
			typename BM::block_pos bp;
			int n = 0;
			for (;;) {
				basicmath_block_memory_visit((*bm), bp);
				CHECK_THAT(n < (int)slots.size() && bp.m_data == slots[n].at, "%s: the visit reaches something else at element %d of %zu", log.c_str(), n, slots.size());
				++n;
			}
			CHECK_THAT(n == (int)slots.size(), "%s: the visit reaches %d of %zu elements", log.c_str(), n, slots.size());
		}
		}
		CHECK_THAT(bm->m_element_number == (i32)slots.size(), "%s: %d elements, not %zu", log.c_str(), bm->m_element_number, slots.size());
		CHECK_THAT(bm->memory_size() >= slots.size() * sizeof(T) && bm->memory_size() % (sizeof(T) << base) == 0, "%s: memory_size is %llu", log.c_str(), (unsigned long long)bm->memory_size());
		for (size_t k = 0; k < slots.size(); ++k) {
			CHECK_THAT(&bm->at((i32)k) == slots[k].at, "%s: element %zu has moved", log.c_str(), k);
			if (slots[k].used) CHECK_THAT(*slots[k].at == slots[k].value, "%s: element %zu has changed", log.c_str(), k);
		}
	}
	if (s.want_note()) s.note(log.substr(0, 600));
	s.nontrivial(crossed && (reused || restarts > 0));
	s.labelf("%s%s%s", crossed ? "several blocks" : "one block", reused ? ", reuse" : "", restarts ? ", restarted" : "");
}
}

PROPERTY(C26, 500000, 15000000, "more than one block, and elements reused or the memory started again",
	"elements put aside beyond the maximum are lost, as documented by the size of the list")
{
	quiet();
	pbt::Src& s = src;
	switch (s.draw(4)) {
	case 0: block_memory<i32>(s, false, "i32"); break;
	case 1: block_memory<i32>(s, true, "i32 (new)"); break;
	case 2: block_memory<Odd>(s, s.coin(), "13-byte structs"); break;
	default: block_memory<std::string>(s, true, "strings (new)");
	}
}

// ------------------------------------------------------------------------------------------------- cached matrices
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace {
struct CacheOp {
	int kind;		// 0 new, 1 copy, 2 drop, 3 open a scope, 4 close the last one, 5 memory limit, 6 many copies of the shared matrix, 7 arithmetic, 8 as another
	int shape, depth, way;
	u32 pick;
	i64 limit;
};
struct Held {
	mt_mat mat;
	i32 value;
};
const mt_Depth cache_depths[] = {mt_U8, mt_I32, mt_F32, mt_F64};

struct CacheThread {
	std::vector<CacheOp> ops;
	std::vector<std::vector<i32>> shapes;
	mt_mat shared;
	std::string error, log;
	i64 used = 0, peak_used = 0;
	i64 (*measure)(size_t) = NULL;
	i64 limit = 0;
	size_t base = 0;
	bool alone = false;
	int number = 0;
	size_t reused = 0;

	bool holds(const Held& h) {
		const mt_mat& m = h.mat;
		i64 n = m.element_number() * m.channel();
		switch (m.depth()) {
		case mt_U8: for (i64 i = 0; i < n; ++i) if (m.data()[i] != (u8)h.value) return false; break;
		case mt_I32: for (i64 i = 0; i < n; ++i) if (((const i32*)m.data())[i] != h.value) return false; break;
		case mt_F32: for (i64 i = 0; i < n; ++i) if (((const f32*)m.data())[i] != (f32)h.value) return false; break;
		default: for (i64 i = 0; i < n; ++i) if (((const f64*)m.data())[i] != (f64)h.value) return false;
		}
		return true;
	}
	void fill(Held& h) { h.mat.set((f64)h.value); }

	void run() {
		std::vector<Held> live;
		std::vector<std::unique_ptr<mt_auto_mat_cache>> scopes;
		std::set<const void*> ever;
		for (size_t i = 0; i < ops.size() && error.empty(); ++i) {
			const CacheOp& o = ops[i];
			int fresh = -1;
			switch (o.kind) {
			case 0: case 8: {
				const std::vector<i32>& z = shapes[o.shape];
				mt_Depth_Channel dc = mt_Depth_Channel(cache_depths[o.depth], 1 + o.way % 2);
				Held h;
				h.value = (i32)(number * 1000 + i) % (cache_depths[o.depth] == mt_U8 ? 251 : 1000000);
				if (o.kind == 8 && !live.empty()) h.mat = s_mat_cache.get_as(live[o.pick % live.size()].mat);
				else if (o.way < 2) h.mat = mt_mat(z, dc);
				else if (o.way < 4) h.mat = s_mat_cache.get(z, dc);
				else if (z.size() == 2 && o.way < 5) h.mat = mt_mat(z[0], z[1], dc);
				else h.mat = mt_mat((i32)z.size(), &z[0], dc);
				if (o.kind == 0 || live.empty()) {
					bool ok = h.mat.dim() == (i32)z.size() && h.mat.depth_channel() == dc;
					for (size_t k = 0; k < z.size() && ok; ++k) ok = h.mat.size()[k] == z[k];
					if (!ok) error = pbt::strf("step %zu: the new matrix is not of the size and depth asked for", i);
				}
				if (!ever.insert(h.mat.data()).second) ++reused;
				fresh = (int)live.size();
				for (auto& x : live) if (x.mat.is_memory_shared(h.mat)) error = pbt::strf("step %zu: a new matrix has the memory of a matrix in use", i);
				fill(h);
				live.push_back(h);
				break;
			}
			case 1: if (!live.empty()) live.push_back(Held(live[o.pick % live.size()])); break;
			case 2: if (!live.empty()) live.erase(live.begin() + o.pick % live.size()); break;
			case 3: if (scopes.size() < 3) scopes.emplace_back(new mt_auto_mat_cache()); break;
			case 4: if (!scopes.empty()) scopes.pop_back(); break;
			case 5: if (alone) mt_mat_cache::set_memory_size(o.limit); limit = std::max(limit, o.limit); break;
			case 6: for (int k = 0; k < 300; ++k) {
				mt_mat a(shared), b;
				b = a;
			}
			break;
			default: if (!live.empty()) {	// temporaries of an operation come from the cache as well
				Held h = live[o.pick % live.size()];
				if (h.mat.depth() != mt_F64 && h.mat.depth() != mt_F32) break;
				h.mat = h.mat + 1.0;
				h.value += 1;
				live.push_back(h);
			}
			}
			for (size_t k = 0; k < live.size() && error.empty(); ++k) if (!holds(live[k])) error = pbt::strf("step %zu (operation %d): matrix %zu of %zu has changed%s", i, o.kind, k, live.size(), (int)k == fresh ? " while it was set" : "");
			used = 0;
			std::set<const void*> blocks;
			for (auto& x : live) if (blocks.insert(x.mat.data()).second) used += (i64)x.mat.element_number() * x.mat.element_size();
			peak_used = std::max(peak_used, used);
			if (alone && error.empty()) {
				i64 now = (i64)__sanitizer_get_current_allocated_bytes() - (i64)base;
				if (now > std::max(limit, 2 * peak_used) + 300000) error = pbt::strf("step %zu: %lld bytes are taken, with %lld used at most and a limit of %lld", i, (long long)now, (long long)peak_used, (long long)limit);
			}
		}
	}
};
}

#include <thread>
PROPERTY(C27, 12000, 400000, "a matrix got memory that an earlier one had given back, or several threads",
	"the bytes taken are measured with one thread, and may exceed the bound by 300 kB for the bookkeeping\nthe schedules of several threads are those the operating system happens to choose")
{
	quiet();
	pbt::Src& s = src;
	int nt = s.weighted({3, 1, 1, 1}) + 1;
	std::vector<CacheThread> t(nt);
	bool big = nt == 1 && s.chance(1, 6);
	std::vector<std::vector<i32>> shapes;
	int ns = (int)s.range(1, 4);
	for (int i = 0; i < ns; ++i) {
		std::vector<i32> z((size_t)s.range(1, s.chance(1, 8) ? 6 : 3));
		for (auto& x : z) x = (i32)s.range(1, 5);
		if (big) z[0] = (i32)s.range(20000, 60000) / (i32)z.size();
		shapes.push_back(z);
	}
	std::string log;
	i64 first = s.pick({(i64)1 << 30, (i64)0, (i64)2000, (i64)400000});
	int steps = (int)s.size(1, s.thorough() ? 120 : 60);
	mt_mat shared(2, 2, mt_Depth_Channel(mt_F64, 1), 3.0);
	for (int k = 0; k < nt; ++k) {
		t[k].number = k;
		t[k].alone = nt == 1;
		t[k].shapes = shapes;
		t[k].limit = first;
		t[k].shared = shared;
		if (s.chance(5, 6)) t[k].ops.push_back(CacheOp{3, 0, 0, 0, 0, 0});
		for (int i = 0; i < steps; ++i) {
			CacheOp o;
			o.kind = s.weighted({8, 3, 6, 1, 1, 1, 1, 2, 1});
			o.shape = (int)s.draw(ns);
			o.depth = (int)s.draw(4);
			if (s.coin()) o.depth = 0;
			o.way = (int)s.draw(6);
			o.pick = (u32)s.draw(1000);
			o.limit = s.pick({(i64)1 << 30, (i64)0, (i64)2000, (i64)400000});
			t[k].ops.push_back(o);
			if (k == 0 && s.want_note()) log += pbt::strf(" %d", o.kind);
		}
	}
	if (s.want_note()) s.note(pbt::strf("%d threads, %d shapes%s, memory limit %lld; operations of the first:", nt, ns, big ? " (large)" : "", (long long)first) + log);
	s.labelf("%d threads%s", nt, big ? ", large" : "");
	mt_mat_cache::set_memory_size(first);
	size_t base = __sanitizer_get_current_allocated_bytes();
	t[0].base = base;
	if (nt == 1) t[0].run();
	else {
		std::vector<std::thread> th;
		for (int k = 0; k < nt; ++k) th.emplace_back([&t, k] { t[k].run(); });
		for (auto& x : th) x.join();
	}
	size_t reused = 0;
	for (int k = 0; k < nt; ++k) {
		CHECK_THAT(t[k].error.empty(), "%d threads, thread %d, %s", nt, k, t[k].error.c_str());
		reused += t[k].reused;
		t[k].shared = mt_mat();
	}
	CHECK_THAT(shared.reference_number() == 1, "%d threads: after all copies are gone the shared matrix counts %d references", nt, shared.reference_number());
	i64 left = (i64)__sanitizer_get_current_allocated_bytes() - (i64)base;
	CHECK_THAT(left < 200000, "%lld bytes are still taken when every matrix and every cache scope is gone", (long long)left);
	mt_mat_cache::set_memory_size((i64)1 << 30);
	s.nontrivial(reused > 0 || nt > 1);
}

// ------------------------------------------------------------------------------------------------- rectangles
namespace {
std::string rtxt(const mt_rect& r) { return pbt::strf("[%d,%d %dx%d]", r.m_left, r.m_top, r.m_width, r.m_height); }
bool has(const mt_rect& r, int x, int y) { return x >= r.m_left && x < r.m_left + r.m_width && y >= r.m_top && y < r.m_top + r.m_height; }
mt_rect gen_rect(pbt::Src& s, int most) {
	return mt_rect((int)s.range(-8, 8), (int)s.range(-8, 8), (int)s.range(1, most), (int)s.range(1, most));
}
}

PROPERTY(C28, 3500000, 60000000, "rectangles of different position and size, both larger than one element",
	"rectangles of integers with at least one row and one column (an empty one where a rectangle is grown)")
{
	quiet();
	pbt::Src& s = src;
	mt_rect a = gen_rect(s, s.coin() ? 4 : 12), b = gen_rect(s, s.coin() ? 4 : 12);
	if (s.chance(1, 10)) b = a;
	mt_point p((int)s.range(-10, 20), (int)s.range(-10, 20)), q((int)s.range(-10, 20), (int)s.range(-10, 20));
	if (s.coin()) p = mt_point((int)s.range(a.m_left - 1, a.m_left + a.m_width), (int)s.range(a.m_top - 1, a.m_top + a.m_height));
	std::string A = rtxt(a), B = rtxt(b);
	if (s.want_note()) s.note(A + " and " + B + pbt::strf(", point (%d,%d)", p.m_x, p.m_y));
	s.nontrivial(!(a == b) && a.m_width * a.m_height > 1 && b.m_width * b.m_height > 1);
	const mt_rect ca = a, cb = b;
	// corners and measures
	CHECK_THAT(ca.right() == a.m_left + a.m_width - 1 && ca.bottom() == a.m_top + a.m_height - 1, "right and bottom of %s are %d and %d", A.c_str(), ca.right(), ca.bottom());
	CHECK_THAT(ca.tl() == mt_point(a.m_left, a.m_top) && ca.tr() == mt_point(ca.right(), a.m_top) && ca.bl() == mt_point(a.m_left, ca.bottom()) && ca.br() == mt_point(ca.right(), ca.bottom()), "corners of %s", A.c_str());
	CHECK_THAT(ca.getArea() == a.m_width * a.m_height && ca.max_size() == std::max(a.m_width, a.m_height) && ca.min_size() == std::min(a.m_width, a.m_height) && ca.aspect() == a.m_width / (double)a.m_height, "measures of %s", A.c_str());
	CHECK_THAT(ca.size().m_width == a.m_width && ca.size().m_height == a.m_height && ca.center() == mt_point(a.m_left + a.m_width / 2, a.m_top + a.m_height / 2), "size and center of %s", A.c_str());
	CHECK_THAT(mt_rect(ca.tl(), ca.br()) == ca && mt_rect(ca.tl(), ca.size()) == ca && mt_rect(ca) == ca && ca.toRect() == ca, "%s made again from its corners or size", A.c_str());
	mt_rect r;
	CHECK_THAT(r.empty() && !ca.empty(), "empty()");
	r = mt_rect(5, 5, 5, 5);
	r.set_rect(a.m_left, a.m_top, a.m_width, a.m_height);
	CHECK_THAT(r == ca && !(r != ca), "set_rect of %s gives %s", A.c_str(), rtxt(r).c_str());
	r = b;
	r.set_tl(ca.tl());
	r.set_size(ca.size());
	CHECK_THAT(r == ca, "set_tl and set_size of %s give %s", A.c_str(), rtxt(r).c_str());
	CHECK_THAT((ca == cb) == (a.m_left == b.m_left && a.m_top == b.m_top && a.m_width == b.m_width && a.m_height == b.m_height) && (ca != cb) == !(ca == cb), "%s == %s is %d", A.c_str(), B.c_str(), (int)(ca == cb));
	// as sets of elements
	int both = 0, hdist = 1000, vdist = 1000, bl = 1000, bt = 1000, br = -1000, bb = -1000;
	for (int y = a.m_top; y < a.m_top + a.m_height; ++y) {
		for (int x = a.m_left; x < a.m_left + a.m_width; ++x) {
			if (has(b, x, y)) {
				++both;
				bl = std::min(bl, x);
				bt = std::min(bt, y);
				br = std::max(br, x);
				bb = std::max(bb, y);
			}
		}
	}
	for (int x = a.m_left; x < a.m_left + a.m_width; ++x) for (int z = b.m_left; z < b.m_left + b.m_width; ++z) hdist = std::min(hdist, abs(x - z));
	for (int y = a.m_top; y < a.m_top + a.m_height; ++y) for (int z = b.m_top; z < b.m_top + b.m_height; ++z) vdist = std::min(vdist, abs(y - z));
	s.label(both == 0 ? "apart" : both == b.m_width * b.m_height || both == a.m_width * a.m_height ? "one inside the other" : "overlapping");
	mt_rect i;
	CHECK_THAT(ca.is_intersect(cb) == (both > 0) && ca.is_intersect(i, cb) == (both > 0), "%s and %s: is_intersect is %d, %d elements are in both", A.c_str(), B.c_str(), (int)ca.is_intersect(cb), both);
	if (both) CHECK_THAT(i == mt_rect(bl, bt, br - bl + 1, bb - bt + 1), "%s and %s intersect in %s, not in %s", A.c_str(), B.c_str(), rtxt(i).c_str(), rtxt(mt_rect(bl, bt, br - bl + 1, bb - bt + 1)).c_str());
	int sa = a.m_width * a.m_height, sb = b.m_width * b.m_height;
	auto near = [](double x, double y) { return fabs(x - y) < 1e-12; };
	double area = both / (double)sb, iou = both / (double)(sa + sb - both), wr = both ? (br - bl + 1) / (double)b.m_width : 0, hr = both ? (bb - bt + 1) / (double)b.m_height : 0;
	CHECK_THAT(near(ca.get_iou(cb), iou), "%s and %s: iou %.12g, not %.12g", A.c_str(), B.c_str(), ca.get_iou(cb), iou);
	CHECK_THAT(near(ca.get_intersect_aera_ratio(cb), area) && near(ca.get_intersect_width_ratio(cb), wr) && near(ca.get_intersect_height_ratio(cb), hr), "%s covers %.12g of the area, %.12g of the width, %.12g of the height of %s, not %.12g, %.12g, %.12g",
		A.c_str(), ca.get_intersect_aera_ratio(cb), ca.get_intersect_width_ratio(cb), ca.get_intersect_height_ratio(cb), B.c_str(), area, wr, hr);
	double th = s.range(1, 9) / 10.0 + 0.0301;
	CHECK_THAT(ca.is_intersect_area(cb, th) == (area >= th) && ca.is_intersect_width(cb, th) == (wr >= th) && ca.is_intersect_height(cb, th) == (hr >= th), "%s and %s: is_intersect_area, width or height with %g", A.c_str(), B.c_str(), th);
	CHECK_THAT(ca.horizontal_dist(cb) == hdist && ca.vertical_dist(cb) == vdist, "%s and %s are %d and %d apart, not %d and %d", A.c_str(), B.c_str(), ca.horizontal_dist(cb), ca.vertical_dist(cb), hdist, vdist);
	int rows = std::min(ca.bottom(), cb.bottom()) - std::max(a.m_top, b.m_top) + 1;
	bool linear = rows / (double)std::min(a.m_height, b.m_height) >= 0.75 || rows / (double)std::max(a.m_height, b.m_height) >= 0.45;
	CHECK_THAT(ca.linear_position(cb) == linear, "%s and %s: linear_position is %d", A.c_str(), B.c_str(), (int)!linear);
	CHECK_THAT(ca.contain(cb) == (both == sb), "%s contains %s: %d", A.c_str(), B.c_str(), (int)ca.contain(cb));
	bool in = has(a, p.m_x, p.m_y), edge = in && (p.m_x == a.m_left || p.m_x == ca.right() || p.m_y == a.m_top || p.m_y == ca.bottom());
	CHECK_THAT(ca.contain(p) == in && a.contain(p) == in && ca.boundary(p) == edge, "%s and the point (%d,%d): contain %d and %d, boundary %d", A.c_str(), p.m_x, p.m_y, (int)ca.contain(p), (int)a.contain(p), (int)ca.boundary(p));
	if (in) CHECK_THAT(ca.in_boundary(p) == edge, "%s and the point (%d,%d): in_boundary is %d", A.c_str(), p.m_x, p.m_y, (int)ca.in_boundary(p));
	// the nearest point inside
	q = p;
	ca.validate_point(q);
	CHECK_THAT(q.m_x == std::min(std::max(p.m_x, a.m_left), ca.right()) && q.m_y == std::min(std::max(p.m_y, a.m_top), ca.bottom()), "the point of %s next to (%d,%d) is (%d,%d)", A.c_str(), p.m_x, p.m_y, q.m_x, q.m_y);
	r = b;
	a.validate_rect(r);
	if (both) CHECK_THAT(r == i, "%s cut to %s is %s, not %s", B.c_str(), A.c_str(), rtxt(r).c_str(), rtxt(i).c_str());
	// growing
	r = a;
	r.adjust_by_append_rect(b);
	int ul = std::min(a.m_left, b.m_left), ut = std::min(a.m_top, b.m_top), ur = std::max(ca.right(), cb.right()), ub = std::max(ca.bottom(), cb.bottom());
	CHECK_THAT(r == mt_rect(ul, ut, ur - ul + 1, ub - ut + 1), "%s with %s is %s", A.c_str(), B.c_str(), rtxt(r).c_str());
	r = mt_rect();
	r.adjust_by_append_rect(a);
	CHECK_THAT(r == ca, "an empty rectangle with %s is %s", A.c_str(), rtxt(r).c_str());
	r = mt_rect((int)s.range(-3, 3), (int)s.range(-3, 3), 0, 0);
	int n = (int)s.range(1, 6), xl = 1000, xr = -1000, yt = 1000, yb = -1000;
	std::string pts;
	if (s.coin()) r.set_empty();
	for (int k = 0; k < n; ++k) {
		mt_point z((int)s.range(-9, 9), (int)s.range(-9, 9));
		pts += pbt::strf(" (%d,%d)", z.m_x, z.m_y);
		r.adjust_by_append_point(z);
		xl = std::min(xl, z.m_x);
		xr = std::max(xr, z.m_x);
		yt = std::min(yt, z.m_y);
		yb = std::max(yb, z.m_y);
		CHECK_THAT(r == mt_rect(xl, yt, xr - xl + 1, yb - yt + 1), "the rectangle of%s is %s", pts.c_str(), rtxt(r).c_str());
	}
	int d[4];
	for (int& v : d) v = (int)s.range(0, 4);
	r = a;
	r.adjust(d[0], d[1], d[2], d[3]);
	CHECK_THAT(r.m_left == a.m_left - d[0] && r.m_top == a.m_top - d[1] && r.right() == ca.right() + d[2] && r.bottom() == ca.bottom() + d[3], "%s adjusted by %d, %d, %d, %d is %s", A.c_str(), d[0], d[1], d[2], d[3], rtxt(r).c_str());
	r = a;
	r.expand();
	CHECK_THAT(r.m_width == r.m_height && r.m_width == ca.max_size() && r.contain(ca) && abs((r.m_left - a.m_left) + (r.right() - ca.right())) <= 1 && abs((r.m_top - a.m_top) + (r.bottom() - ca.bottom())) <= 1, "%s expanded to a square is %s", A.c_str(), rtxt(r).c_str());
	r = a;
	r.shrink();
	CHECK_THAT(r.m_width == r.m_height && r.m_width == ca.min_size() && ca.contain(r) && abs((r.m_left - a.m_left) + (r.right() - ca.right())) <= 1 && abs((r.m_top - a.m_top) + (r.bottom() - ca.bottom())) <= 1, "%s shrunk to a square is %s", A.c_str(), rtxt(r).c_str());
	r = a;
	r.normlized();
	CHECK_THAT(r == ca, "%s normalized is %s", A.c_str(), rtxt(r).c_str());
	// moving and scaling
	mt_size z((int)s.range(-3, 5), (int)s.range(-3, 5));
	mt_rect moved(a.m_left + p.m_x, a.m_top + p.m_y, a.m_width, a.m_height), back(a.m_left - p.m_x, a.m_top - p.m_y, a.m_width, a.m_height);
	mt_rect larger(a.m_left, a.m_top, a.m_width + z.m_width, a.m_height + z.m_height), smaller(a.m_left, a.m_top, a.m_width - z.m_width, a.m_height - z.m_height);
	CHECK_THAT(ca + p == moved && ca - p == back && ca + z == larger && ca - z == smaller, "%s plus or minus the point (%d,%d) or the size %dx%d", A.c_str(), p.m_x, p.m_y, z.m_width, z.m_height);
	mt_rect t[4] = {a, a, a, a};
	t[0] += p;
	t[1] -= p;
	t[2] += z;
	t[3] -= z;
	CHECK_THAT(t[0] == moved && t[1] == back && t[2] == larger && t[3] == smaller, "%s += or -= the point (%d,%d) or the size %dx%d: %s %s %s %s", A.c_str(), p.m_x, p.m_y, z.m_width, z.m_height, rtxt(t[0]).c_str(), rtxt(t[1]).c_str(), rtxt(t[2]).c_str(), rtxt(t[3]).c_str());
	mt_point2d f(s.pick({0.5, 1.0, 2.0, 3.0, 0.25}), s.pick({0.5, 1.0, 2.0, 3.0, 0.25}));
	mt_rect mul((int)(a.m_left * f.m_x), (int)(a.m_top * f.m_y), (int)(a.m_width * f.m_x), (int)(a.m_height * f.m_y)), div((int)(a.m_left / f.m_x), (int)(a.m_top / f.m_y), (int)(a.m_width / f.m_x), (int)(a.m_height / f.m_y));
	t[0] = t[1] = a;
	t[0] *= f;
	t[1] /= f;
	CHECK_THAT(a * f == mul && a / f == div && t[0] == mul && t[1] == div, "%s times and divided by (%g,%g): %s %s %s %s", A.c_str(), f.m_x, f.m_y, rtxt(a * f).c_str(), rtxt(a / f).c_str(), rtxt(t[0]).c_str(), rtxt(t[1]).c_str());
	CHECK_THAT(a == ca && b == cb, "the rectangles have changed: %s %s", rtxt(a).c_str(), rtxt(b).c_str());
	mt_point sum = p + q, dif = p - q;
	CHECK_THAT(sum.m_x == p.m_x + q.m_x && sum.m_y == p.m_y + q.m_y && dif.m_x == p.m_x - q.m_x && dif.m_y == p.m_y - q.m_y && (p == q) == (p.m_x == q.m_x && p.m_y == q.m_y), "sum, difference or equality of the points (%d,%d) and (%d,%d)", p.m_x, p.m_y, q.m_x, q.m_y);
	CHECK_THAT(fabs(p.distance_to(q) - sqrt((double)(dif.m_x * dif.m_x + dif.m_y * dif.m_y))) < 1e-9, "the points (%d,%d) and (%d,%d) are %g apart", p.m_x, p.m_y, q.m_x, q.m_y, p.distance_to(q));
	std::string text = sys_strcombine() << a, want = pbt::strf("[%d,%d,%d,%d]", a.m_left, a.m_top, a.m_width, a.m_height);
	CHECK_THAT(text == want, "%s is written as %s", A.c_str(), text.c_str());
}

// ------------------------------------------------------------------------------------------------- random numbers
// rand() of the code under test: a good generator, with the extreme values mixed in when a case asks for them.
namespace {
u64 g_rand_state = 1;
int g_rand_extreme = 0;		// out of 8 values, how many are 0 or RAND_MAX
u32 splitmix() {
	u64 z = (g_rand_state += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return (u32)((z ^ (z >> 31)) >> 32);
}
}
extern "C" int rand() {
	u32 v = splitmix();
	if (g_rand_extreme && (int)(splitmix() % 8) < g_rand_extreme) return v & 1 ? RAND_MAX : 0;
	return (int)(v & 0x7fffffff);
}
extern "C" void srand(unsigned seed) { g_rand_state = seed * 0x9e3779b97f4a7c15ull + 12345; }

namespace {
struct Stat {
	double n = 0, sum = 0, sq = 0;
	void add(double x) { ++n; sum += x; sq += x * x; }
	double mean() const { return sum / n; }
	double var() const { return sq / n - mean() * mean(); }
};
// the mean of n draws of standard deviation sd, and their variance (kurtosis: fourth moment over sd^4)
void expect_stat(const Stat& t, double mean, double sd, double kurtosis, const std::string& what) {
	double e = 7.5 * sd / sqrt(t.n) + 1e-9 * (fabs(mean) + sd);
	CHECK_THAT(fabs(t.mean() - mean) <= e, "%s: the mean of %.0f values is %.8g, expected %.8g +- %.3g", what.c_str(), t.n, t.mean(), mean, e);
	double v = sd * sd, ev = 9 * v * sqrt((kurtosis + 1) / t.n) + 1e-9 * (mean * mean + v);
	CHECK_THAT(fabs(t.var() - v) <= ev, "%s: the variance of %.0f values is %.8g, expected %.8g +- %.3g", what.c_str(), t.n, t.var(), v, ev);
}
std::vector<double> mat_values(const mt_mat& m) {
	std::vector<double> r, v;
	mt_mat d = m;
	i64 n = 1;
	for (int i = 0; i < m.dim(); ++i) n *= m.size()[i];
	std::vector<i32> at(m.dim(), 0);
	for (i64 k = 0; k < n; ++k) {
		i64 rest = k;
		for (int i = m.dim(); i-- > 0;) {
			at[i] = (i32)(rest % m.size()[i]);
			rest /= m.size()[i];
		}
		v.assign(m.channel(), 0);
		m.get(&v[0], m.dim(), &at[0]);
		r.insert(r.end(), v.begin(), v.end());
	}
	return r;
}
}

PROPERTY(C29, 200000, 2000000, "more than one possible value",
	"rand() is replaced by a generator of its own, with 0 and RAND_MAX mixed in\nmeans and variances are accepted within 7.5 standard errors (about one false alarm in 10^13 cases)")
{
	quiet();
	pbt::Src& s = src;
	unsigned seed = (unsigned)s.range(0, 1000000000);
	int kind = (int)s.draw(8);
	bool stat = s.chance(1, 4);
	g_rand_extreme = stat ? 0 : s.pick({0, 1, 4, 8});
	mt_random::set_seed(seed);
	int N = stat ? 1500 : 20;
	Stat t;
	std::string what;
	switch (kind) {
	case 0: {
		i32 lo = elem<i32>(s, (int)s.draw(4)), hi = s.coin() ? elem<i32>(s, (int)s.draw(4)) : (i32)std::min<i64>((i64)lo + (i64)s.range(0, 9), INT_MAX);
		if (lo > hi) std::swap(lo, hi);
		double span = (double)hi - lo + 1;
		what = pbt::strf("random_next_i32(%d, %d)", lo, hi);
		s.label("integers");
		s.nontrivial(lo < hi);
		std::map<i32, int> count;
		for (int i = 0; i < N; ++i) {
			i32 v = mt_random::random_next_i32(lo, hi);
			CHECK_THAT(v >= lo && v <= hi, "%s gives %d", what.c_str(), v);
			t.add(v);
			++count[v];
		}
		if (stat) expect_stat(t, lo + (span - 1) / 2, sqrt((span * span - 1) / 12), 1.8, what);
		if (stat && span <= 10) for (i32 v = lo; ; ++v) {
			CHECK_THAT(fabs(count[v] - N / span) <= 8 * sqrt(N / span), "%s gives %d %d times in %d", what.c_str(), v, count[v], N);
			if (v == hi) break;
		}
		std::vector<i32> sample;
		int n = (int)s.range(1, 30);
		mt_random::randSample(n, sample);
		CHECK_THAT((int)sample.size() == n, "randSample(%d) gives %zu values", n, sample.size());
		for (i32 v : sample) CHECK_THAT(v >= 0 && v < n, "randSample(%d) gives %d", n, v);
		break;
	}
	case 1: {
		double lo = s.real(-100, 100, 8), hi = lo + s.real(0, 1, 8) + (s.coin() ? 100 : 0.25);
		if (s.chance(1, 3)) lo = 0, hi = 1;
		bool lo_open = s.coin(), hi_open = s.coin();
		what = pbt::strf("random_uniform %c%g, %g%c", lo_open ? '(' : '[', lo, hi, hi_open ? ')' : ']');
		s.label("reals");
		s.nontrivial();
		bool first = lo == 0 && hi == 1 && lo_open && hi_open;
		for (int i = 0; i < N; ++i) {
			double v = first && s.coin() ? mt_random::random_uniform() : mt_random::random_uniform(lo, b8(lo_open), hi, b8(hi_open));
			CHECK_THAT((lo_open ? v > lo : v >= lo) && (hi_open ? v < hi : v <= hi), "%s gives %.17g", what.c_str(), v);
			t.add(v);
		}
		if (stat) expect_stat(t, (lo + hi) / 2, (hi - lo) / sqrt(12.0), 1.8, what);
		break;
	}
	case 2: {
		int n = (int)s.size(0, 60);
		std::vector<i32> a(s.draw(10), 5), b;
		what = pbt::strf("randperm(%d)", n);
		s.label("permutations");
		s.nontrivial(n > 1);
		mt_random::randperm(a, n);
		b = a;
		std::sort(b.begin(), b.end());
		for (int i = 0; i < n; ++i) CHECK_THAT((int)b.size() == n && b[i] == i, "%s gives %s", what.c_str(), txt(a).c_str());
		CHECK_THAT((int)a.size() == n, "%s gives %zu elements", what.c_str(), a.size());
		if (stat && n > 0) {	// every element comes to every place
			n = (int)s.range(1, 5);
			std::vector<std::vector<int>> count(n, std::vector<int>(n, 0));
			for (int i = 0; i < N; ++i) {
				mt_random::randperm(a, n);
				for (int k = 0; k < n; ++k) ++count[k][a[k]];
			}
			for (int k = 0; k < n; ++k) for (int v = 0; v < n; ++v) CHECK_THAT(fabs(count[k][v] - N / (double)n) <= 8 * sqrt(N / (double)n), "randperm(%d) puts %d at %d %d times in %d", n, v, k, count[k][v], N);
		}
		break;
	}
	case 3: {
		int n = (int)s.range(0, 25);
		double p = s.chance(1, 6) ? (double)s.draw(2) : s.range(0, 20) / 20.0;
		what = pbt::strf("bernoulli(%d, %g)", n, p);
		s.label("binomial");
		s.nontrivial(n > 0 && p > 0 && p < 1);
		for (int i = 0; i < N; ++i) {
			i32 v = mt_random::bernoulli(n, p);
			CHECK_THAT(v >= 0 && v <= n, "%s gives %d", what.c_str(), v);
			if (p == 0 || p == 1) CHECK_THAT(v == (p == 0 ? 0 : n), "%s gives %d", what.c_str(), v);
			t.add(v);
		}
		double q = n * p * (1 - p);
		if (stat) expect_stat(t, n * p, sqrt(q), q > 0 ? 3 + (1 - 6 * p * (1 - p)) / q : 3, what);
		break;
	}
	case 4: {
		double mean = s.real(-50, 50, 8), sd = s.chance(1, 6) ? 0 : s.real(0, 10, 8);
		what = pbt::strf("gaussian(%g, %g)", mean, sd);
		s.label("gaussian");
		s.nontrivial(sd > 0);
		for (int i = 0; i < N; ++i) {
			double v = mt_random::gaussian(mean, sd);
			CHECK_THAT(fabs(v - mean) <= 12 * sd, "%s gives %.17g", what.c_str(), v);
			t.add(v);
		}
		if (stat) expect_stat(t, mean, sd, 3, what);
		break;
	}
	default: {	// matrices
		std::vector<i32> z((size_t)s.range(1, s.chance(1, 6) ? 5 : 3));
		for (auto& x : z) x = (i32)s.range(1, stat ? 6 : 4);
		int ch = (int)s.range(1, s.chance(1, 4) ? 7 : 3);
		if (stat) z[0] = 200;
		mt_Depth depth = s.coin() ? mt_F64 : mt_F32;
		mt_Depth_Channel dc(depth, ch);
		size_t total = ch;
		for (i32 x : z) total *= x;
		std::string shape = pbt::strf("%s matrix of %s with %d channels", depth == mt_F64 ? "f64" : "f32", txt(z).c_str(), ch);
		int which = (int)s.draw(5), way = (int)s.draw(2);
		mt_mat m;
		std::vector<double> v;
		size_t bytes = __sanitizer_get_current_allocated_bytes();
		s.nontrivial(total > 1);
		s.labelf("matrices, %d", which);
		auto small = depth == mt_F32 ? 1e-5 : 1e-12;
		if (which == 0) {
			double lo = s.real(-10, 10, 8), hi = lo + s.real(1, 20, 8);
			what = pbt::strf("uniform in [%g, %g], ", lo, hi) + shape;
			b8 f = sys_false;
			m = way && z.size() == 2 ? mt_random::random_uniform_iid(z[0], z[1], dc, lo, f, hi, f) : way && z.size() == 3 ? mt_random::random_uniform_iid(z[0], z[1], z[2], dc, lo, f, hi, f) : mt_random::random_uniform_iid((i32)z.size(), &z[0], dc, lo, f, hi, f);
			v = mat_values(m);
			for (double x : v) {
				CHECK_THAT(x >= lo - small * (fabs(lo) + fabs(hi)) && x <= hi + small * (fabs(lo) + fabs(hi)), "%s: %.17g", what.c_str(), x);
				t.add(x);
			}
			if (stat) expect_stat(t, (lo + hi) / 2, (hi - lo) / sqrt(12.0), 1.8, what);
		} else if (which == 1) {
			double sd = s.real(0.125, 10, 8);
			what = pbt::strf("zero-centred uniform with deviation %g, ", sd) + shape;
			m = mt_random::random_zero_center_uniform_iid((i32)z.size(), &z[0], dc, sd);
			v = mat_values(m);
			for (double x : v) {
				CHECK_THAT(fabs(x) <= sqrt(3.0) * sd * (1 + small), "%s: %.17g", what.c_str(), x);
				t.add(x);
			}
			if (stat) expect_stat(t, 0, sd, 1.8, what);
		} else if (which == 2) {
			int n = (int)s.range(1, 12);
			double p = s.range(1, 19) / 20.0;
			what = pbt::strf("bernoulli of %d with %g, ", n, p) + shape;
			m = way && z.size() == 2 ? mt_random::bernoulli_iid(z[0], z[1], dc, n, p) : mt_random::bernoulli_iid((i32)z.size(), &z[0], dc, n, p);
			v = mat_values(m);
			for (double x : v) {
				CHECK_THAT(x >= 0 && x <= n && x == floor(x), "%s: %.17g", what.c_str(), x);
				t.add(x);
			}
			double q = n * p * (1 - p);
			if (stat) expect_stat(t, n * p, sqrt(q), 3 + (1 - 6 * p * (1 - p)) / q, what);
		} else if (which == 3) {
			double mean = s.real(-50, 50, 8), sd = s.chance(1, 4) ? 0 : s.real(0.125, 10, 8);
			what = pbt::strf("gaussian of mean %g and deviation %g, ", mean, sd) + shape;
			m = way && z.size() == 2 ? mt_random::gaussian_iid(z[0], z[1], dc, mean, sd) : way && z.size() == 3 ? mt_random::gaussian_iid(z[0], z[1], z[2], dc, mean, sd)
				: way ? mt_random::gaussian_iid(z, dc, mean, sd) : mt_random::gaussian_iid((i32)z.size(), &z[0], dc, mean, sd);
			v = mat_values(m);
			for (double x : v) {
				CHECK_THAT(fabs(x - mean) <= 12 * sd + small * fabs(mean), "%s: %.17g", what.c_str(), x);
				t.add(x);
			}
			if (stat) expect_stat(t, mean, sd, 3, what);
		} else {
			int n = (int)s.range(1, 4);
			mt_mat mean = mt_random::random_uniform_iid((i32)z.size(), &z[0], dc), dev((i32)z.size(), &z[0], dc, 0.0);
			bool spread = s.coin();
			if (spread) dev.set(1.0);
			std::vector<mt_mat> draws;
			mt_random::gaussian_iid(draws, n, mean, dev);
			what = pbt::strf("%d draws of a gaussian with %s mean, ", n, spread ? "a spread around a" : "exactly a") + shape;
			CHECK_THAT((int)draws.size() == n, "%s: %zu matrices", what.c_str(), draws.size());
			std::vector<double> c = mat_values(mean);
			for (auto& d : draws) {
				v = mat_values(d);
				CHECK_THAT(v.size() == c.size(), "%s: a matrix of %zu elements", what.c_str(), v.size());
				for (size_t i = 0; i < v.size(); ++i) {
					CHECK_THAT(fabs(v[i] - c[i]) <= (spread ? 12 : small), "%s: %.17g around %.17g", what.c_str(), v[i], c[i]);
					t.add(v[i] - c[i]);
				}
			}
			if (stat && spread) expect_stat(t, 0, 1, 3, what);
			m = draws[0];
		}
		bool ok = m.dim() == (i32)z.size() && m.depth_channel() == dc;
		for (size_t k = 0; k < z.size() && ok; ++k) ok = m.size()[k] == z[k];
		CHECK_THAT(ok && (which == 4 || v.size() == total), "%s: the matrix is not of that size and depth", what.c_str());
		if (!g_rand_extreme && which != 2 && v.size() > 3 && t.var() == 0) CHECK_THAT(which >= 3, "%s: all %zu elements are the same", what.c_str(), v.size());
		m = mt_mat();
		std::vector<double>().swap(v);
		// (what the strings above take is less than the smallest array of values that could be forgotten with many elements)
		if (ch > 4 && which == 2) {
			i64 before = (i64)__sanitizer_get_current_allocated_bytes();
			for (int i = 0; i < 20; ++i) mt_random::bernoulli_iid(2, 2, dc, 3, 0.5);
			i64 more = (i64)__sanitizer_get_current_allocated_bytes() - before;
			CHECK_THAT(more < 20 * 8 * ch, "20 matrices of %d channels leave %lld bytes behind", ch, (long long)more);
		}
		(void)bytes;
	}
	}
	if (s.want_note()) s.note(pbt::strf("seed %u, %s", seed, what.c_str()));
	// the same seed, the same numbers
	g_rand_extreme = 0;
	double one[4], two[4];
	std::vector<i32> pa, pb;
	for (int k = 0; k < 2; ++k) {
		mt_random::set_seed(seed);
		double* d = k ? two : one;
		d[0] = mt_random::random_next_i32(0, 1000);
		d[1] = mt_random::random_uniform();
		d[2] = mt_random::gaussian(0, 1);
		mt_random::randperm(k ? pb : pa, 12);
		d[3] = mt_random::bernoulli(10, 0.5);
	}
	CHECK_THAT(std::equal(one, one + 4, two), "seed %u: %g %.17g %.17g %g the first time, %g %.17g %.17g %g the second", seed, one[0], one[1], one[2], one[3], two[0], two[1], two[2], two[3]);
	CHECK_THAT(same(pa, pb), "seed %u: randperm gives %s the first time, %s the second", seed, txt(pa).c_str(), txt(pb).c_str());
}
