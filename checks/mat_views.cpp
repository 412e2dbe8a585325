// Matrices: views, sharing, copies, conversions, comparison, iteration.
// modules: math
#include "mat_common.h"
using namespace mm;

// ------------------------------------------------------------------------------------------- histories of views
namespace {
struct View {
	mt_mat m;
	int alloc;			// which allocation it looks at
	mt_Depth depth;
	int ch;
	Ints size;
	std::vector<int> cell;	// row-major, channels innermost: index into the store
};
struct World {
	std::vector<double> store;
	std::vector<View> views;
	int allocs = 0;
	std::string log;
};

std::vector<int> fresh_cells(World& w, const Vals& v) {
	std::vector<int> r;
	for (double x : v) { r.push_back((int)w.store.size()); w.store.push_back(x); }
	return r;
}

Vals vals_of(const World& w, const View& v) {
	Vals r;
	for (int c : v.cell) r.push_back(w.store[c]);
	return r;
}

void check_world(const World& w, const std::string& op) {
	std::map<int, int> live;
	for (auto& v : w.views) ++live[v.alloc];
	for (size_t i = 0; i < w.views.size(); ++i) {
		const View& v = w.views[i];
		expect(v.m, Model{v.depth, v.ch, v.size, vals_of(w, v)}, w.log + "after " + op + ", matrix " + std::to_string(i));
		CHECK_THAT(v.m.reference_number() == live[v.alloc], "%safter %s, matrix %d: reference_number is %d, while %d matrices use its memory", w.log.c_str(), op.c_str(), (int)i, v.m.reference_number(), live[v.alloc]);
		for (size_t j = 0; j < i; ++j)
			CHECK_THAT(v.m.is_memory_shared(w.views[j].m) == (v.alloc == w.views[j].alloc), "%safter %s: is_memory_shared of matrices %d and %d is wrong", w.log.c_str(), op.c_str(), (int)i, (int)j);
	}
}

// element index -> position in View::cell
int at(const View& v, const Ints& idx) {
	int p = 0;
	for (size_t i = 0; i < idx.size(); ++i) p = p * v.size[i] + idx[i];
	return p * v.ch;
}

// The view whose element idx is element src_index(idx) of v
template <class F> std::vector<int> remap(const View& v, const Ints& size, int ch, F f) {
	std::vector<int> r;
	Ints idx(size.size(), 0);
	do { for (int c = 0; c < ch; ++c) r.push_back(f(idx, c)); } while (advance(idx, size));
	(void)v;
	return r;
}

Vals init_values(pbt::Src& s, mt_Depth d, int n, int ch, int how, Vals& init) {
	// how 0: zero-less (set later), 1 one value, 2 scalar or vector
	init.clear();
	Vals r(n * ch);
	for (int c = 0; c < (how == 1 ? 1 : ch); ++c) init.push_back(gen_value(s, d, 1));
	if (how == 2 && s.chance(1, 3)) for (auto& x : init) x = init[0];
	for (int i = 0; i < n * ch; ++i) r[i] = how == 1 ? init[0] : init[i % ch];
	return r;
}

std::string new_matrix(pbt::Src& s, World& w) {
	Opt o;
	o.max_dim = 6;
	o.max_elements = 60;
	View v;
	v.depth = s.pick(o.depths);
	v.ch = (int)s.size(1, 6);
	int dims = s.weighted({2, 6, 4, 2, 1, 1}) + 1;
	v.size = gen_sizes(s, o, dims);
	v.alloc = w.allocs++;
	int n = count(v.size), how = s.weighted({2, 2, 2, 2, 1});
	mt_Depth_Channel dc(v.depth, v.ch);
	Vals init, vals;
	if ((how == 1 || how == 2) && !w.views.empty() && s.chance(1, 4)) {	// of the shape and kind of another
		const View& o = w.views[s.draw(w.views.size())];
		v.depth = o.depth;
		v.ch = o.ch;
		v.size = o.size;
		dims = (int)v.size.size();
		n = count(v.size);
		vals = init_values(s, v.depth, n, v.ch, how, init);
		if (how == 1) v.m = mt_mat(o.m, init[0]);
		else if (v.ch <= 4 && s.coin()) {
			init.resize(4, 0);
			v.m = mt_mat(o.m, mt_scalar(init[0], init[1], init[2], init[3]));
		} else if (s.coin()) v.m = mt_mat(o.m, init);
		else {
			v.m = mt_mat(o.m, mt_mat::Construct_Type_Create_As_Size);
			v.m.set(init);
		}
		s.label("of the shape of another");
	} else if (how == 1 || how == 2) {
		vals = init_values(s, v.depth, n, v.ch, how, init);
		if (how == 1) {
			if (dims == 1 && s.coin()) v.m = mt_mat(v.size[0], dc, init[0]);
			else if (dims == 2 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], dc, init[0]);
			else if (dims == 3 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc, init[0]);
			else if (s.coin()) v.m = mt_mat(v.size, dc, init[0]);
			else v.m = mt_mat(dims, v.size.data(), dc, init[0]);
		} else if (v.ch <= 4 && s.coin()) {
			Vals q = init;
			q.resize(4, 0);
			mt_scalar sc(q[0], q[1], q[2], q[3]);
			if (dims == 1 && s.coin()) v.m = mt_mat(v.size[0], dc, sc);
			else if (dims == 2 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], dc, sc);
			else if (dims == 3 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc, sc);
			else if (s.coin()) v.m = mt_mat(v.size, dc, sc);
			else v.m = mt_mat(dims, v.size.data(), dc, sc);
		} else {
			if (dims == 1 && s.coin()) v.m = mt_mat(v.size[0], dc, init);
			else if (dims == 2 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], dc, init);
			else if (dims == 3 && s.coin()) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc, init);
			else if (s.coin()) v.m = mt_mat(dims, v.size.data(), dc, init);
			else v.m = mt_mat(v.size, dc, init);
		}
	} else {
		bool external = false;
		if (how == 3) {	// over memory it takes over
			external = true;
			size_t bytes = (size_t)n * dc.size();
			bool padded = s.coin();	// gaps after every dimension
			Ints step(dims);
			if (padded) {
				size_t one = dc.size();
				for (int i = dims - 1; i >= 0; --i) { one += mt_Depth_Size[v.depth] * s.draw(3); step[i] = (int)one; one *= v.size[i]; }
				bytes = one;
			}
			u8* p = (u8*)malloc(bytes);
			if (padded) memset(p, 0x5b, bytes);
			int kind = (int)s.draw(3);
			if (padded) {
				if (dims == 2 && kind == 1) v.m = mt_mat(v.size[0], v.size[1], dc, p, step.data(), p);
				else if (dims == 3 && kind == 1) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc, p, step.data(), p);
				else if (dims == 1 && kind == 1) v.m = mt_mat(v.size[0], dc, p, step.data(), p);
				else if (kind == 2) v.m = mt_mat(v.size, dc, p, step, p);
				else v.m = mt_mat(dims, v.size.data(), dc, p, step.data(), p);
				s.label("with given steps");
			} else if (dims == 2 && kind == 1) v.m = mt_mat(v.size[0], v.size[1], dc, p, NULL, p);
			else if (dims == 3 && kind == 1) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc, p, NULL, p);
			else if (dims == 1 && kind == 1) v.m = mt_mat(v.size[0], dc, p, NULL, p);
			else if (kind == 2) v.m = mt_mat(v.size, dc, p, vector<i32>(), p);
			else v.m = mt_mat(dims, v.size.data(), dc, p, NULL, p);
			s.label("over given memory");
		} else if (how == 4) {
			if (dims == 1 && s.coin()) v.m.create(v.size[0], dc);
			else if (dims == 2 && s.coin()) v.m.create(v.size[0], v.size[1], dc);
			else if (dims == 3 && s.coin()) v.m.create(v.size[0], v.size[1], v.size[2], dc);
			else v.m.create(dims, v.size.data(), dc);
		} else {
			if (s.chance(1, 4)) v.m = mt_mat(dims, v.size.data(), dc);
			else if (dims == 1) v.m = mt_mat(v.size[0], dc);
			else if (dims == 2) v.m = mt_mat(v.size[0], v.size[1], dc);
			else if (dims == 3) v.m = mt_mat(v.size[0], v.size[1], v.size[2], dc);
			else v.m = mt_mat(v.size, dc);
		}
		(void)external;
		vals.resize(n * v.ch);
		Ints idx(dims, 0);
		int i = 0;
		do {
			u8* p = v.m.data();
			for (int k = 0; k < dims; ++k) p += (ptrdiff_t)idx[k] * v.m.step()[k];
			for (int c = 0; c < v.ch; ++c, ++i) { vals[i] = gen_value(s, v.depth, 0); raw_set(p + c * mt_Depth_Size[v.depth], v.depth, vals[i]); }
		} while (advance(idx, v.size));
	}
	v.cell = fresh_cells(w, vals);
	w.views.push_back(v);
	if (dims > 4) s.label("more than 4 dimensions");
	return pbt::strf("new matrix %s [%s] %d channels (%d)", mt_Depth_Channel::depth_str(v.depth).c_str(), pbt::join(v.size).c_str(), v.ch, how);
}

// The result of an operation that gives the elements `cell`, shared or (if may_copy) copied.
void push_view(World& w, const View& from, const mt_mat& m, const Ints& size, int ch, const std::vector<int>& cell, bool may_copy) {
	View r;
	r.m = m;
	r.depth = from.depth;
	r.ch = ch;
	r.size = size;
	if (may_copy && !m.is_memory_shared(from.m)) {
		Vals v;
		for (int c : cell) v.push_back(w.store[c]);
		r.cell = fresh_cells(w, v);
		r.alloc = w.allocs++;
	} else {
		r.cell = cell;
		r.alloc = from.alloc;
	}
	w.views.push_back(r);
}

std::string derive(pbt::Src& s, World& w) {
	View v = w.views[s.draw(w.views.size())];
	int nd = (int)v.size.size();
	switch (s.weighted({4, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2})) {
	case 0: {	// sub of ranges
		std::vector<mt_range> rg;
		Ints lo, size;
		for (int i = 0; i < nd; ++i) { int a = (int)s.range(0, v.size[i] - 1), b = (int)s.range(a + 1, v.size[i]); if (s.coin()) { a = 0; b = v.size[i]; } rg.push_back(mt_range(a, b)); lo.push_back(a); size.push_back(b - a); }
		auto cell = remap(v, size, v.ch, [&](Ints i, int c) { for (int k = 0; k < nd; ++k) i[k] += lo[k]; return v.cell[at(v, i) + c]; });
		int how = (int)s.draw(3);
		mt_mat m = how == 0 ? v.m.sub(nd, rg.data()) : how == 1 ? v.m.sub(rg) : s.coin() ? mt_mat(v.m, rg) : mt_mat(v.m, nd, rg.data());
		push_view(w, v, m, size, v.ch, cell, false);
		return "sub of ranges";
	}
	case 1: case 2: {	// along one dimension
		int d = (int)s.draw(nd), a = (int)s.range(0, v.size[d] - 1), b = (int)s.range(a + 1, v.size[d]), how = (int)s.draw(7);
		if (how == 2) { a = 0; }
		if (how == 3) { b = v.size[d]; }
		if (how >= 4) b = a + 1;
		if (how == 5) { if (nd != 2) how = 4; else d = 0; }
		if (how == 6) { if (nd == 2) d = 1; else if (nd == 3) d = 0; else how = 4; }
		a = std::min(a, v.size[d] - 1);
		b = std::min(b, v.size[d]);
		if (how >= 4) b = a + 1;
		Ints size = v.size;
		size[d] = b - a;
		mt_mat m = how == 0 ? v.m.sub(a, b, d) : how == 1 ? (s.coin() ? v.m.sub(mt_range(a, b), d) : mt_mat(v.m, mt_range(a, b), d)) : how == 2 ? v.m.front(b, d) : how == 3 ? v.m.back(b - a, d) : how == 4 ? v.m.index(a, d) : how == 5 ? v.m.row(a) : nd == 2 ? v.m.col(a) : v.m.plane(a);
		auto cell = remap(v, size, v.ch, [&](Ints i, int c) { i[d] += a; return v.cell[at(v, i) + c]; });
		push_view(w, v, m, size, v.ch, cell, false);
		return pbt::strf("range %d..%d of dimension %d of [%s] (%d)", a, b, d, pbt::join(v.size).c_str(), how);
	}
	case 3: {	// rectangle
		if (nd != 2) return "nothing";
		int l = (int)s.range(0, v.size[1] - 1), t = (int)s.range(0, v.size[0] - 1), cw = (int)s.range(1, v.size[1] - l), chh = (int)s.range(1, v.size[0] - t);
		Ints size = {chh, cw};
		mt_rect r(l, t, cw, chh);
		auto cell = remap(v, size, v.ch, [&](Ints i, int c) { i[0] += t; i[1] += l; return v.cell[at(v, i) + c]; });
		push_view(w, v, s.coin() ? v.m.sub(r) : mt_mat(v.m, r), size, v.ch, cell, false);
		return "sub of a rectangle";
	}
	case 4: {	// order of dimensions
		int a = (int)s.draw(nd), b = (int)s.draw(nd);
		bool t = nd == 2 && s.coin();
		if (t) { a = 0; b = 1; }
		Ints size = v.size;
		std::swap(size[a], size[b]);
		auto cell = remap(v, size, v.ch, [&](Ints i, int c) { std::swap(i[a], i[b]); return v.cell[at(v, i) + c]; });
		push_view(w, v, t ? v.m.t() : v.m.swap_dim(a, b), size, v.ch, cell, false);
		return t ? "transposition" : "swap of dimensions";
	}
	case 5: {	// flips
		std::vector<int> f(nd, 0);
		int how = (int)s.draw(4);
		std::vector<int> dims;
		std::vector<b8> flags(nd, sys_false);
		for (int i = 0; i < nd; ++i) if (how == 3 || s.coin()) { f[i] = 1; dims.push_back(i); flags[i] = sys_true; }
		mt_mat m;
		if (how == 0) {
			for (auto& x : f) x = 0;
			int d = (int)s.draw(nd);
			f[d] = 1;
			m = v.m.flip(d);
		} else if (how == 1) {
			if (dims.empty()) return "nothing";
			for (size_t i = dims.size() - 1; i > 0; --i) std::swap(dims[i], dims[s.draw(i + 1)]);
			m = s.coin() ? v.m.flip(dims) : v.m.flip((int)dims.size(), dims.data());
		} else if (how == 2) m = s.coin() ? v.m.flip(flags) : v.m.flip(nd, flags.data());
		else m = v.m.flip_all_dim();
		auto cell = remap(v, v.size, v.ch, [&](Ints i, int c) { for (int k = 0; k < nd; ++k) if (f[k]) i[k] = v.size[k] - 1 - i[k]; return v.cell[at(v, i) + c]; });
		push_view(w, v, m, v.size, v.ch, cell, false);
		return pbt::strf("flip (%d)", how);
	}
	case 6: {	// channels
		int a = (int)s.range(0, v.ch - 1), b = (int)s.range(a + 1, v.ch), how = (int)s.draw(3);
		if (how) b = a + 1;
		mt_mat m;
		if (how == 2) { vector<mt_mat> all; v.m.all_channel(all); CHECK_THAT((int)all.size() == v.ch, "all_channel gives %d matrices of %d channels", (int)all.size(), v.ch); m = all[a]; }
		else m = how ? v.m.channel_at(a) : v.m.sub_channel(a, b);
		auto cell = remap(v, v.size, b - a, [&](const Ints& i, int c) { return v.cell[at(v, i) + a + c]; });
		push_view(w, v, m, v.size, b - a, cell, false);
		return pbt::strf("channels %d..%d of %d", a, b, v.ch);
	}
	case 7: {	// split one dimension
		int d = (int)s.draw(nd);
		Ints parts;
		int left = v.size[d];
		for (int k = 0; k < 2 && nd + (int)parts.size() < 7; ++k) {
			std::vector<int> div;
			for (int q = 1; q <= left; ++q) if (left % q == 0) div.push_back(q);
			int q = s.pick(div);
			parts.push_back(q);
			left /= q;
		}
		parts.push_back(left);
		Ints size(v.size.begin(), v.size.begin() + d);
		size.insert(size.end(), parts.begin(), parts.end());
		size.insert(size.end(), v.size.begin() + d + 1, v.size.end());
		push_view(w, v, v.m.split_dim(d, (int)parts.size(), parts.data()), size, v.ch, v.cell, false);
		return pbt::strf("split of dimension %d of [%s] to [%s]", d, pbt::join(v.size).c_str(), pbt::join(parts).c_str());
	}
	case 8: {	// combine dimensions
		if (nd < 2) return "nothing";
		int d = (int)s.draw(nd - 1), k = (int)s.range(2, nd - d);
		Ints size(v.size.begin(), v.size.begin() + d);
		int q = 1;
		for (int i = 0; i < k; ++i) q *= v.size[d + i];
		size.push_back(q);
		size.insert(size.end(), v.size.begin() + d + k, v.size.end());
		push_view(w, v, v.m.combine_dim(d, k), size, v.ch, v.cell, true);
		return pbt::strf("combining %d dimensions from %d of [%s]", k, d, pbt::join(v.size).c_str());
	}
	case 9: {	// more or fewer dimensions
		if (s.coin() && nd < 6) {
			int d = (int)s.range(0, nd);
			Ints size = v.size;
			size.insert(size.begin() + d, 1);
			push_view(w, v, v.m.increase_dim(d), size, v.ch, v.cell, false);
			return pbt::strf("new dimension %d of [%s]", d, pbt::join(v.size).c_str());
		}
		std::vector<int> ones;
		for (int i = 0; i < nd; ++i) if (v.size[i] == 1) ones.push_back(i);
		if (ones.empty() || nd < 2) return "nothing";
		int d = s.pick(ones);
		Ints size = v.size;
		size.erase(size.begin() + d);
		push_view(w, v, v.m.decrease_dim(d), size, v.ch, v.cell, true);
		return pbt::strf("without dimension %d of [%s]", d, pbt::join(v.size).c_str());
	}
	case 10: {	// channels as dimension and back
		if (s.coin() && nd < 6) {
			Ints size = v.size;
			size.push_back(v.ch);
			push_view(w, v, v.m.channel_as_last_dim(), size, 1, v.cell, false);
			return "channels as last dimension";
		}
		if (nd < 2 || v.ch != 1 || v.m.step()[nd - 1] != mt_Depth_Size[v.depth]) return "nothing";
		Ints size = v.size;
		int c = size.back();
		size.pop_back();
		push_view(w, v, v.m.last_dim_as_channel(), size, c, v.cell, false);
		return "last dimension as channels";
	}
	case 11: {	// reshape
		if (!v.m.is_continuous()) return "nothing";
		int total = count(v.size), ch = v.ch, how = (int)s.draw(4);
		if (how) {
			std::vector<int> div;
			for (int q = 1; q <= std::min(20, total * ch); ++q) if (total * ch % q == 0) div.push_back(q);
			int c = s.pick(div);
			total = total * ch / c;
			ch = c;
		}
		Ints size;
		int left = total, k = (int)s.range(1, 5);
		for (int i = 1; i < k; ++i) {
			std::vector<int> div;
			for (int q = 1; q <= left; ++q) if (left % q == 0) div.push_back(q);
			size.push_back(s.pick(div));
			left /= size.back();
		}
		size.push_back(left);
		mt_mat m;
		int nc = how ? ch : -1;
		if (size.size() == 2 && s.coin()) m = v.m.reshape_2d(size[0], size[1], nc);
		else if (size.size() == 3 && s.coin()) m = v.m.reshape_3d(size[0], size[1], size[2], nc);
		else if (s.coin()) m = v.m.reshape(size, nc);
		else m = v.m.reshape((int)size.size(), size.data(), nc);
		push_view(w, v, m, size, ch, v.cell, true);
		return pbt::strf("reshape of [%s] x %d to [%s] x %d", pbt::join(v.size).c_str(), v.ch, pbt::join(size).c_str(), ch);
	}
	case 12: {	// channels regrouped within the last dimension
		if (!v.m.is_continuous()) return "nothing";
		std::vector<int> ok;
		int t = v.size.back() * v.ch;
		for (int c = 1; c <= t; ++c) if (t % c == 0 && (c % v.ch == 0 || v.ch % c == 0)) ok.push_back(c);
		int c = s.pick(ok);
		Ints size = v.size;
		size.back() = t / c;
		push_view(w, v, v.m.reshape_channel(c), size, c, v.cell, true);
		return pbt::strf("reshape_channel of [%s] x %d to %d", pbt::join(v.size).c_str(), v.ch, c);
	}
	default: {	// plain copies share
		View r = v;
		switch (s.draw(3)) {
		case 0: r.m = mt_mat(v.m); break;
		case 1: { r.m = v.m.sub(0, (const mt_range*)NULL); break; }
		default: { vector<mt_mat> one; v.m.split(one, sys_true); if (v.ch != 1) return "nothing"; r.m = one[0]; }
		}
		w.views.push_back(r);
		return "copy of a matrix";
	}
	}
}

template <class T> void put(mt_mat& m, const Ints& idx, int c, double v, int how) {
	if (how == 0 && idx.size() == 1) m.at<T>(idx[0], c) = (T)v;
	else if (how == 0 && idx.size() == 2) m.at<T>(idx[0], idx[1], c) = (T)v;
	else if (how == 0 && idx.size() == 3) m.at<T>(idx[0], idx[1], idx[2], c) = (T)v;
	else if (how == 1) m.at<T>(idx, c) = (T)v;
	else *m.ptr<T>((int)idx.size(), idx.data(), c) = (T)v;
}

std::string write_some(pbt::Src& s, World& w) {
	size_t k = s.draw(w.views.size());
	View& v = w.views[k];
	int nd = (int)v.size.size(), n = count(v.size);
	bool whole = false;
	std::string what;
	Vals val;
	switch (s.weighted({3, 3, 3, 3, 3, 2, 4})) {
	case 0: { double x = gen_value(s, v.depth, 1); v.m.set(x); val.assign(v.ch, x); whole = true; what = "set(value)"; break; }
	case 1: {
		for (int c = 0; c < v.ch; ++c) val.push_back(gen_value(s, v.depth, 1));
		if (s.chance(1, 3)) for (auto& x : val) x = val[0];
		if (v.ch <= 4 && s.coin()) { Vals q = val; q.resize(4, 0); v.m.set(mt_scalar(q[0], q[1], q[2], q[3])); }
		else if (s.coin()) v.m.set(val);
		else v.m.set(v.ch, val.data());
		whole = true;
		what = "set(values)";
		break;
	}
	case 2: case 3: {	// one element
		Ints idx;
		for (int x : v.size) idx.push_back((int)s.draw(x));
		int p = at(v, idx);
		int how = (int)s.draw(3);
		if (how == 0) {
			double x = gen_value(s, v.depth, 1);
			if (nd == 2 && s.coin()) v.m.set(x, idx[0], idx[1]);
			else if (nd == 3 && s.coin()) v.m.set(x, idx[0], idx[1], idx[2]);
			else v.m.set(x, nd, idx.data());
			for (int c = 0; c < v.ch; ++c) w.store[v.cell[p + c]] = x;
		} else if (how == 1) {
			for (int c = 0; c < v.ch; ++c) val.push_back(gen_value(s, v.depth, 1));
			if (v.ch <= 4 && s.coin()) {
				Vals q = val;
				q.resize(4, 0);
				mt_scalar sc(q[0], q[1], q[2], q[3]);
				if (nd == 2 && s.coin()) v.m.set(sc, idx[0], idx[1]);
				else if (nd == 3 && s.coin()) v.m.set(sc, idx[0], idx[1], idx[2]);
				else v.m.set(sc, nd, idx.data());
			} else v.m.set(val.data(), nd, idx.data());
			for (int c = 0; c < v.ch; ++c) w.store[v.cell[p + c]] = val[c];
		} else {
			int c = (int)s.draw(v.ch), h = (int)s.draw(3);
			double x = gen_value(s, v.depth, 1);
			switch (v.depth) {
			case mt_U8: put<u8>(v.m, idx, c, x, h); break; case mt_I8: put<i8>(v.m, idx, c, x, h); break; case mt_U16: put<u16>(v.m, idx, c, x, h); break; case mt_I16: put<i16>(v.m, idx, c, x, h); break;
			case mt_U32: put<u32>(v.m, idx, c, x, h); break; case mt_I32: put<i32>(v.m, idx, c, x, h); break; case mt_U64: put<u64>(v.m, idx, c, x, h); break; case mt_I64: put<i64>(v.m, idx, c, x, h); break;
			case mt_F32: put<f32>(v.m, idx, c, x, h); break; default: put<f64>(v.m, idx, c, x, h);
			}
			w.store[v.cell[p + c]] = x;
		}
		what = pbt::strf("set of one element (%d)", how);
		break;
	}
	case 4: {
		bool same = s.coin();
		double x = (double)s.range(is_udepth(v.depth) ? 0 : -20, 20);
		if (x + n * v.ch > depth_max(v.depth)) return "nothing";
		v.m.set_incremental(x, same);
		for (int i = 0; i < n; ++i) for (int c = 0; c < v.ch; ++c) w.store[v.cell[i * v.ch + c]] = same ? x + i : x + i * v.ch + c;
		what = "set_incremental";
		break;
	}
	default: {	// from another matrix, of any depth
		std::vector<int> ok;
		for (size_t j = 0; j < w.views.size(); ++j) {
			const View& o = w.views[j];
			if (o.alloc != v.alloc && o.ch == v.ch && same_ints(o.size, v.size)) ok.push_back((int)j);
		}
		mt_mat from;
		Vals fv;
		if (ok.size() && s.coin()) { from = w.views[s.pick(ok)].m; fv = values(from); what = "set of another matrix of the history"; }
		else {
			Model m{s.pick(all_depths()), v.ch, v.size, Vals()};
			if (s.coin()) m.depth = v.depth;
			for (int i = 0; i < n * v.ch; ++i) m.v.push_back(gen_value(s, m.depth, 0));
			from = lay_out(s, m).m;
			fv = m.v;
			what = "set of a " + mt_Depth_Channel::depth_str(m.depth) + " matrix";
			if (m.depth != v.depth) s.label("set from another depth");
		}
		if (!is_float(v.depth)) for (auto& x : fv) { x = trunc(x); if (x < depth_min(v.depth) || x > depth_max(v.depth)) return "nothing"; }
		v.m.set(from);
		for (int i = 0; i < n * v.ch; ++i) w.store[v.cell[i]] = v.depth == mt_F32 ? (double)(float)fv[i] : fv[i];
	}
	}
	if (whole) for (int i = 0; i < n * v.ch; ++i) w.store[v.cell[i]] = val[i % v.ch];
	return pbt::strf("%s on matrix %d", what.c_str(), (int)k);
}

std::string manage(pbt::Src& s, World& w) {
	size_t a = s.draw(w.views.size()), b = s.draw(w.views.size());
	switch (s.draw(6)) {
	case 4: {	// create: the same shape keeps its memory, any other gets its own
		View& d = w.views[a];
		Ints size = d.size;
		int ch = d.ch;
		mt_Depth depth = d.depth;
		bool same = s.chance(1, 3);
		if (!same) {
			Opt o;
			o.max_dim = 6;
			o.max_elements = 60;
			switch (s.draw(4)) {
			case 0: depth = s.pick(o.depths); break;
			case 1: ch = (int)s.size(1, 6); break;
			default: size = gen_sizes(s, o, s.weighted({2, 6, 4, 2, 1, 1}) + 1);
			}
			same = depth == d.depth && ch == d.ch && same_ints(size, d.size);
		}
		mt_Depth_Channel dc(depth, ch);
		int nd = (int)size.size(), n = count(size);
		if (nd == 1 && s.coin()) d.m.create(size[0], dc);
		else if (nd == 2 && s.coin()) d.m.create(size[0], size[1], dc);
		else if (nd == 3 && s.coin()) d.m.create(size[0], size[1], size[2], dc);
		else d.m.create(nd, size.data(), dc);
		if (same) return "create of the same";
		Vals v(n * ch);
		u8* p = d.m.data();
		for (int i = 0; i < n * ch; ++i) { v[i] = gen_value(s, depth, 0); raw_set(p + i * mt_Depth_Size[depth], depth, v[i]); }
		d.depth = depth;
		d.ch = ch;
		d.size = size;
		d.cell = fresh_cells(w, v);
		d.alloc = w.allocs++;
		return "create of another";
	}
	case 0: w.views[a] = w.views[b]; return "assignment";
	case 1: if (w.views.size() > 1) w.views.erase(w.views.begin() + a); return "end of a matrix";
	case 2: {
		View r = w.views[a];
		r.m = w.views[a].m.clone();
		r.cell = fresh_cells(w, vals_of(w, w.views[a]));
		r.alloc = w.allocs++;
		w.views.push_back(r);
		return "clone";
	}
	case 3: {	// copy_from: a matrix of the same shape keeps its memory, any other gets its own
		if (w.views[a].alloc == w.views[b].alloc) return "nothing";
		View& d = w.views[a];
		const View& o = w.views[b];
		Vals v = vals_of(w, o);
		bool same = d.depth == o.depth && d.ch == o.ch && same_ints(d.size, o.size);
		d.m.copy_from(o.m);
		if (same) for (size_t i = 0; i < v.size(); ++i) w.store[d.cell[i]] = v[i];
		else { d.depth = o.depth; d.ch = o.ch; d.size = o.size; d.cell = fresh_cells(w, v); d.alloc = w.allocs++; }
		return "copy_from";
	}
	default: {	// split copies
		View v = w.views[a];
		vector<mt_mat> parts;
		v.m.split(parts);
		CHECK_THAT((int)parts.size() == v.ch, "split gives %d matrices of %d channels", (int)parts.size(), v.ch);
		int c = (int)s.draw(v.ch);
		View r = v;
		r.m = parts[c];
		r.ch = 1;
		Vals x;
		for (size_t i = c; i < v.cell.size(); i += v.ch) x.push_back(w.store[v.cell[i]]);
		r.cell = fresh_cells(w, x);
		r.alloc = w.allocs++;
		w.views.push_back(r);
		return "split";
	}
	}
}
}

PROPERTY(C11, 150000, 2000000, "at least three matrices look at the same memory when something is written", "values fit the depth they are written to\nset is not given a matrix that overlaps the one it sets") {
	quiet();
	World w;
	int steps = (int)src.size(4, 16);
	for (int i = 0; i < steps; ++i) {
		std::string op;
		int what = w.views.empty() ? 0 : src.weighted({1, 6, 5, 2});
		if (w.views.size() > 9 && what != 2) w.views.erase(w.views.begin());
		if (what == 0) op = new_matrix(src, w);
		else if (what == 1) op = derive(src, w);
		else if (what == 2) {
			std::map<int, int> live;
			for (auto& v : w.views) if (++live[v.alloc] >= 3) src.nontrivial();
			op = write_some(src, w);
		} else op = manage(src, w);
		src.label(op.substr(0, op.find_first_of("(0123456789")).c_str());
		check_world(w, op);
		w.log += op + "\n";
		src.note(op);
	}
}

// ------------------------------------------------------------------------------------------- copies, conversions, comparison, iteration
static bool fits(double x, mt_Depth d) {
	if (is_float(d)) return d == mt_F64 || (double)(float)x == x;
	return trunc(x) >= depth_min(d) && trunc(x) <= depth_max(d);
}

PROPERTY(C12, 300000, 4000000, "the matrix has at least two elements and is a view of a larger, reordered or flipped one", "values fit the depth they are converted to\nfloating point values that count as different differ by more than the tolerance of the comparison") {
	quiet();
	Opt o;
	o.max_dim = 5;
	o.max_elements = 120;
	Model md = gen_model(src, o);
	Laid a = lay_out(src, md);
	const mt_mat& m = a.m;
	int nd = (int)md.size.size(), n = md.n(), es = mt_Depth_Size[md.depth];
	src.nontrivial(n >= 2 && !a.plain);
	src.note(md.text() + " steps " + pbt::join(steps_of(m)));
	std::string what = md.text() + " steps " + pbt::join(steps_of(m)) + ": ";
	switch (src.draw(7)) {
	case 0: {
		src.label("convert");
		mt_Depth d = src.pick(all_depths());
		Model w = md;
		w.depth = d;
		for (auto& x : w.v) { if (!fits(x, d)) throw pbt::Discard(); if (!is_float(d)) x = trunc(x); }
		mt_mat r;
		int how = (int)src.draw(3);
		if (how == 0) r = m.convert(d);
		else {
			if (how == 2) {	// into a matrix that had other contents
				if (src.coin()) r.create(nd, md.size.data(), mt_Depth_Channel(d, md.ch));
				else r.create((int)src.range(1, 4), (int)src.range(1, 4), mt_U8C1);
			}
			m.convert(r, d);
		}
		expect(r, w, what + "convert to " + mt_Depth_Channel::depth_str(d));
		CHECK_THAT(r.is_continuous() && r.reference_number() == 1, "%sconvert gives a matrix that is not its own", what.c_str());
		break;
	}
	case 1: {
		src.label("clone");
		mt_mat r = m.clone();
		expect(r, md, what + "clone");
		CHECK_THAT(!r.is_memory_shared(m) && r.reference_number() == 1, "%sclone shares memory", what.c_str());
		mt_mat q;
		if (src.coin()) q.create((int)src.range(1, 4), (int)src.range(1, 4), mt_F32C2);
		q.copy_from(m);
		expect(q, md, what + "copy_from");
		CHECK_THAT(!q.is_memory_shared(m), "%scopy_from shares memory", what.c_str());
		mt_mat s(m, mt_mat::Construct_Type_Create_As_Size);
		CHECK_THAT(s.is_same_memory_size(m) && !s.is_memory_shared(m), "%sConstruct_Type_Create_As_Size gives something else", what.c_str());
		break;
	}
	case 2: {
		src.label("compare");
		Model other = md;
		int kind = src.weighted({3, 4, 1, 1, 1, 1});
		bool want = kind == 0;
		if (kind == 1) {
			size_t k = src.draw(other.v.size());
			double x = other.v[k];
			double y = src.chance(1, 3) ? gen_value(src, md.depth, 1) : (x > 0 ? x - 1 : x + 1);
			if (y == x) throw pbt::Discard();
			if (is_float(md.depth) && fabs(x - y) < 1e-3 * std::max(fabs(x), fabs(y))) throw pbt::Discard();
			other.v[k] = y;
		} else if (kind == 2) {	// same bytes, other sizes
			size_t d = src.draw(nd);
			other.size[d] += 1;
			other.v.resize(other.n() * other.ch, 0);
		} else if (kind == 3) {	// one more dimension
			if (src.coin()) { other.size.push_back((int)src.range(1, 2)); other.v.resize(other.n() * other.ch, 0); }
			else other.size.insert(other.size.begin(), 1);
		} else if (kind == 4) {
			other.depth = src.pick(all_depths());
			if (other.depth == md.depth) throw pbt::Discard();
			for (double x : md.v) if (!fits(x, other.depth)) throw pbt::Discard();
		} else if (kind == 5) {
			other.ch += 1;
			other.v.resize(other.n() * other.ch, 0);
		}
		Laid b = lay_out(src, other);
		const mt_mat& q = b.m;
		src.note("compared with " + other.text() + " steps " + pbt::join(steps_of(q)));
		std::string w2 = what + "compared with " + other.text() + " steps " + pbt::join(steps_of(q)) + ": ";
		CHECK_THAT((bool)(m == q) == want, "%soperator== says %s", w2.c_str(), want ? "different" : "equal");
		CHECK_THAT((bool)(q == m) == want, "%soperator== the other way says %s", w2.c_str(), want ? "different" : "equal");
		CHECK_THAT((bool)(m != q) == !want, "%soperator!= says %s", w2.c_str(), want ? "different" : "equal");
		CHECK_THAT((bool)(m == m), "%sa matrix differs from itself", w2.c_str());
		CHECK_THAT((bool)m.is_same_size(q) == (kind == 0 || kind == 1 || kind == 4), "%sis_same_size", w2.c_str());
		CHECK_THAT((bool)m.is_same_memory_size(q) == (kind == 0 || kind == 1), "%sis_same_memory_size", w2.c_str());
		CHECK_THAT(!m.is_same(q) && m.is_same(m) && m.is_same(mt_mat(m)), "%sis_same", w2.c_str());
		src.labelf("compare %s", want ? "equal" : kind == 1 ? "one value apart" : "another shape");
		b.check_rest("comparison", true);
		break;
	}
	case 3: {
		src.label("is_zero");
		Model z = md;
		bool want = src.coin();
		for (auto& x : z.v) x = 0;
		if (!want) { double x = src.coin() ? 1 : gen_value(src, md.depth, 1); if (is_udepth(md.depth) && src.coin()) x = trunc((depth_max(md.depth) + 1) / 2); if (x == 0) throw pbt::Discard(); z.v[src.draw(z.v.size())] = x; }
		Laid b = lay_out(src, z);
		CHECK_THAT((bool)b.m.is_zero() == want, "%s steps %s: is_zero says %d", z.text().c_str(), pbt::join(steps_of(b.m)).c_str(), !want);
		break;
	}
	case 4: {	// element access and addresses
		src.label("access");
		Ints idx(nd, 0);
		size_t k = 0;
		do {
			const u8* p = m.ptr<u8>(nd, idx.data(), 0);
			vector<int> back = m.get_index(p);
			bool one = true;	// dimensions of size 1 have only index 0
			CHECK_THAT(std::equal(back.begin(), back.end(), idx.begin()) && (int)back.size() == nd, "%sget_index of element [%s] gives [%s]", what.c_str(), pbt::join(idx).c_str(), pbt::join(back).c_str());
			(void)one;
			vector<double> v;
			m.get(v, nd, idx.data());
			std::vector<double> w(md.ch + 1, -7);
			m.get(w.data(), nd, idx.data());
			CHECK_THAT((int)v.size() == md.ch && w[md.ch] == -7, "%sget returns %d values for %d channels", what.c_str(), (int)v.size(), md.ch);
			for (int c = 0; c < md.ch; ++c) CHECK_THAT(v[c] == md.v[k + c] && w[c] == md.v[k + c], "%sget of [%s] channel %d gives %g and %g, expected %g", what.c_str(), pbt::join(idx).c_str(), c, v[c], w[c], md.v[k + c]);
			if (nd == 2 && md.ch <= 4) { mt_scalar sc = m.get(idx[0], idx[1]); for (int c = 0; c < md.ch; ++c) CHECK_THAT(sc[c] == md.v[k + c], "%sget(%d, %d) channel %d gives %g", what.c_str(), idx[0], idx[1], c, sc[c]); }
			k += md.ch;
		} while (advance(idx, md.size));
		CHECK_THAT(m.element_number() == n && m.element_size() == es * md.ch && m.element_channel_size() == es && m.memory_size() == n * es * md.ch && m.channel_memory_size() == n * es, "%ssizes in bytes", what.c_str());
		bool pos = true, neg = true;
		for (int s : steps_of(m)) { if (s < 0) pos = false; if (s > 0) neg = false; }
		CHECK_THAT((bool)m.is_step_positive() == pos && (bool)m.is_step_negative() == neg, "%ssigns of the steps", what.c_str());
		if (nd == 2) CHECK_THAT(m.rect().m_width == md.size[1] && m.rect().m_height == md.size[0] && m.rect().m_left == 0 && m.rect().m_top == 0, "%srect()", what.c_str());
		Ints bad(nd, 0);
		int d = (int)src.draw(nd);
		bad[d] = src.coin() ? -1 : md.size[d];
		CHECK_THAT(!m.is_valid_index(bad) && m.is_valid_index(Ints(nd, 0)), "%sis_valid_index", what.c_str());
		if (m.is_continuous()) {	// the elements are the memory
			src.label("continuous");
			const u8* p = m.memory_data();
			for (int i = 0; i < n * md.ch; ++i) {
				int at = pos ? i : (n - 1 - i / md.ch) * md.ch + i % md.ch;
				CHECK_THAT(raw_get(p + i * es, md.depth) == md.v[at], "%sis_continuous, but its memory is something else", what.c_str());
			}
		} else CHECK_THAT(!a.plain, "%sis_continuous denies it of a new matrix", what.c_str());
		break;
	}
	case 5: {	// iterators
		src.label("iterators");
		mt_array_element_const_iterator it(m);
		Ints idx(nd, 0);
		size_t k = 0;
		do {
			const u8* p = it.data();
			CHECK_THAT(p == m.ptr<u8>(nd, idx.data(), 0), "%sthe element iterator is elsewhere at [%s]", what.c_str(), pbt::join(idx).c_str());
			CHECK_THAT(it.index() == (int)k && std::equal(idx.begin(), idx.end(), it.position().begin()), "%sthe element iterator says [%s] (%d) at [%s]", what.c_str(), pbt::join(it.position()).c_str(), it.index(), pbt::join(idx).c_str());
			++k;
		} while (advance(idx, md.size));
		CHECK_THAT(it.data() == NULL && it.data() == NULL && it.element_number() == n, "%sthe element iterator goes on", what.c_str());
		mt_array_index_iterator ii(nd, m.size());
		CHECK_THAT(ii.size() == n, "%sindex iterator size", what.c_str());
		idx.assign(nd, 0);
		k = 0;
		vector<vector<i32>> all;
		ii.all_index(all);
		CHECK_THAT((int)all.size() == n, "%sall_index gives %d", what.c_str(), (int)all.size());
		do {
			CHECK_THAT(ii.next(), "%sthe index iterator stops at [%s]", what.c_str(), pbt::join(idx).c_str());
			CHECK_THAT(std::equal(idx.begin(), idx.end(), ii.position().begin()) && ii.index() == (int)k && std::equal(idx.begin(), idx.end(), all[k].begin()), "%sthe index iterator says [%s] at [%s]", what.c_str(), pbt::join(ii.position()).c_str(), pbt::join(idx).c_str());
			++k;
		} while (advance(idx, md.size));
		CHECK_THAT(!ii.next(), "%sthe index iterator goes on", what.c_str());
		Vals got;
		mt_array_memory_block_const_iterator bi(m);
		for (;;) {
			const u8* p = bi.data();
			if (!p) break;
			for (int i = 0; i < bi.block_element_number(); ++i) { for (int c = 0; c < md.ch; ++c) got.push_back(raw_get(p + c * es, md.depth)); p += bi.block_element_step(); }
			CHECK_THAT(got.size() <= md.v.size(), "%sthe block iterator goes on", what.c_str());
		}
		CHECK_THAT(same_vals(got, md.v), "%sthe block iterator gives %s", what.c_str(), show_values(md.size, md.ch, got).c_str());
		break;
	}
	default: {	// copies and comparison between any two layouts
		src.label("array_copy");
		Model other = md;
		for (auto& x : other.v) x = gen_value(src, md.depth, 0);
		Laid b = lay_out(src, other);
		Ints ds = steps_of(b.m), ss = steps_of(m);
		u8* dst = b.m.data();
		std::string w2 = what + "to steps " + pbt::join(ds) + ": ";
		bool equal = same_vals(md.v, other.v);
		CHECK_THAT((bool)mt_array_iteration::array_cmp(dst, m.data(), nd, md.size.data(), ds.data(), ss.data(), es * md.ch) == equal || is_float(md.depth), "%sarray_cmp with %s", w2.c_str(), other.text().c_str());
		mt_array_iteration::array_copy(dst, m.data(), nd, md.size.data(), ds.data(), ss.data(), es * md.ch);
		expect(b.m, md, w2 + "array_copy");
		b.check_rest(w2 + "array_copy", false);
		CHECK_THAT((bool)mt_array_iteration::array_cmp(dst, m.data(), nd, md.size.data(), ds.data(), ss.data(), es * md.ch), "%sarray_cmp finds a copy different", w2.c_str());
		size_t k = src.draw(md.v.size());
		Ints idx(nd, 0);
		int e = (int)(k / md.ch);
		for (int i = nd - 1; i >= 0; --i) { idx[i] = e % md.size[i]; e /= md.size[i]; }
		u8* p = b.m.ptr<u8>(nd, idx.data(), (int)0) + (k % md.ch) * es + src.draw(es);
		*p ^= (u8)(1 + src.draw(255));
		CHECK_THAT(!mt_array_iteration::array_cmp(dst, m.data(), nd, md.size.data(), ds.data(), ss.data(), es * md.ch), "%sarray_cmp misses a change of element [%s]", w2.c_str(), pbt::join(idx).c_str());
	}
	}
	a.check_rest("reading", true);
}
