// Matrices: arithmetic, comparison masks, reductions, biases, activations, losses, eigenvectors, repeats and merges.
// modules: math
#include "mat_common.h"
using namespace mm;

// ------------------------------------------------------------------------------------------------- arithmetic
namespace {
template <class T> double bin(char op, double a, double b) {
	T x = (T)a, y = (T)b;
	switch (op) {
	case '+': return (double)(T)(x + y);
	case '-': return (double)(T)(x - y);
	case '*': return (double)(T)(x * y);
	default: return (double)(T)(x / y);
	}
}
double bin(mt_Depth d, char op, double a, double b) {
	switch (d) {
	case mt_U8: return bin<u8>(op, a, b);
	case mt_I8: return bin<i8>(op, a, b);
	case mt_U16: return bin<u16>(op, a, b);
	case mt_I16: return bin<i16>(op, a, b);
	case mt_U32: return bin<u32>(op, a, b);
	case mt_I32: return bin<i32>(op, a, b);
	case mt_U64: return bin<u64>(op, a, b);
	case mt_I64: return bin<i64>(op, a, b);
	case mt_F32: return bin<f32>(op, a, b);
	default: return bin<f64>(op, a, b);
	}
}
// the value of x in depth d, as a C++ conversion
double as_depth(mt_Depth d, double x) {
	u8 b[8];
	raw_set(b, d, x);
	return raw_get(b, d);
}
double safe_operand(pbt::Src& s, mt_Depth d, char op, bool divisor) {
	double v = gen_value(s, d, 0);
	if (divisor && !is_float(d) && as_depth(d, v) == 0) v = 3;
	if (divisor && is_float(d) && v == 0 && s.chance(2, 3)) v = 2;
	(void)op;
	return v;
}
const char* op_name(char c) { return c == '+' ? "+" : c == '-' ? "-" : c == '*' ? "*" : "/"; }
mt_mat apply(const mt_mat& a, char op, const mt_mat& b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
mt_mat apply(const mt_mat& a, char op, double b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
mt_mat apply(const mt_mat& a, char op, const mt_scalar& b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
mt_mat apply(const mt_mat& a, char op, const std::vector<double>& b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
mt_mat apply(double a, char op, const mt_mat& b) { return op == '+' ? a + b : op == '-' ? a - b : op == '*' ? a * b : a / b; }
template <class B> mt_mat& apply_to(mt_mat& a, char op, const B& b) { return op == '+' ? a += b : op == '-' ? a -= b : op == '*' ? a *= b : a /= b; }

Model like(const Model& m, std::function<double(size_t, int)> f) {
	Model r = m;
	for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = f(i, (int)(i % m.ch));
	return r;
}
// one value per element that the depth holds without overflow in f
double math_tol(mt_Depth d) { return d == mt_F32 ? 2e-6 : 1e-13; }
}

PROPERTY(C13, 600000, 6000000, "more than four elements, and an operand in memory other than a plain block",
	"operands of one operation have the same depth, channels and sizes; integer divisors are not zero and signed integers do not overflow\n"
	"integer matrices take whole numbers as operands")
{
	quiet();
	pbt::Src& s = src;
	Opt o;
	o.kind = 0;
	o.max_dim = s.chance(1, 4) ? 5 : 3;
	Model a = gen_model(s, o);
	mt_Depth d = a.depth;
	char op = s.pick(std::vector<char>{'+', '-', '*', '/'});
	bool inplace = s.coin();
	int kind = (int)s.draw(12);
	if (kind != 3) { /* small values keep products of signed integers in range */ }
	auto interesting = [&](bool laid_plain) { if (!laid_plain && a.n() > 4) s.nontrivial(); };
	auto verdict = [&](const Laid& la, const mt_mat& res, const Model& want, const std::string& what, double rel, double abs_tol) {
		expect(inplace ? la.m : res, want, what, rel, abs_tol);
		la.check_rest(what, !inplace);
		if (!inplace) {
			expect(la.m, a, what + ", its argument afterwards");
			CHECK_THAT(!res.is_memory_shared(la.m), "%s: the result shares the memory of the argument", what.c_str());
		}
		interesting(la.plain);
	};
	if (kind <= 3) {	// with a matrix
		Model b = a;
		bool same = inplace && s.chance(1, 12);
		if (same) { if (op == '/') op = '+'; }
		else for (auto& v : b.v) v = safe_operand(s, d, op, op == '/');
		if (!same && (op == '+' || op == '-') && s.chance(1, 3) && d != mt_I32 && d != mt_U64 && d != mt_I64)
			for (size_t i = 0; i < a.v.size(); ++i) { a.v[i] = gen_value(s, d, 1); b.v[i] = gen_value(s, d, 1); }
		Laid la = lay_out(s, a), lb = lay_out(s, b);
		Model want = like(a, [&](size_t i, int) { return bin(d, op, a.v[i], b.v[i]); });
		std::string what = pbt::strf("%s %s%s %s", a.text().c_str(), op_name(op), inplace ? "=" : "", same ? "itself" : b.text().c_str());
		s.labelf("matrix %s%s", op_name(op), inplace ? "=" : "");
		mt_mat res;
		if (inplace) {
			mt_mat& r = apply_to(la.m, op, same ? (const mt_mat&)la.m : (const mt_mat&)lb.m);
			CHECK_THAT(&r == &la.m, "%s does not return its left side", what.c_str());
		} else res = apply(la.m, op, lb.m);
		verdict(la, res, want, what, 0, 0);
		lb.check_rest(what + ", right side", true);
		interesting(lb.plain);
		return;
	}
	if (kind == 4) {	// sums and products of many
		int n = (int)s.range(1, 4);
		std::vector<Laid> la;
		std::vector<Model> ms;
		std::vector<mt_mat> mats;
		bool dot = s.coin(), share = s.coin();
		for (int i = 0; i < n; ++i) {
			Model b = a;
			for (auto& v : b.v) v = is_float(d) ? gen_value(s, d, 0) : (double)s.range(0, 3);
			ms.push_back(b);
			la.push_back(lay_out(s, b));
			mats.push_back(la.back().m);
		}
		Model want = ms[0];
		for (int i = 1; i < n; ++i) for (size_t k = 0; k < want.v.size(); ++k) want.v[k] = bin(d, dot ? '*' : '+', want.v[k], ms[i].v[k]);
		std::string what = pbt::strf("mt_mat_helper::%s of %d matrices of %s", dot ? "dot" : "add", n, a.text().c_str());
		s.labelf("mt_mat_helper::%s", dot ? "dot" : "add");
		mt_mat res = dot ? mt_mat_helper::dot(mats, share) : mt_mat_helper::add(mats, share);
		expect(res, want, what);
		for (int i = 0; i < n; ++i) { la[i].check_rest(what, true); interesting(la[i].plain); }
		CHECK_THAT(n == 1 && share ? res.is_memory_shared(mats[0]) : !res.is_memory_shared(mats[0]), "%s: sharing of memory is not as asked for (can_share_memory %d)", what.c_str(), (int)share);
		return;
	}
	if (kind <= 8) {	// with numbers
		std::vector<double> b(a.ch);
		for (auto& v : b) v = safe_operand(s, d, op, op == '/');
		int form = (int)s.draw(4);	// 0 number, 1 scalar, 2 vector, 3 number on the left
		if (form == 1 && a.ch > 4) form = 2;
		if (form == 0 || form == 3) for (auto& v : b) v = b[0];
		if (form == 3) {
			inplace = false;
			if (op == '/' ) for (auto& v : a.v) if (v == 0) v = 1;
		}
		Laid la = lay_out(s, a);
		Model want = like(a, [&](size_t i, int c) { return form == 3 ? bin(d, op, b[c], a.v[i]) : bin(d, op, a.v[i], b[c]); });
		std::string bt;
		for (double v : b) bt += pbt::strf(" %.9g", v);
		std::string what = form == 3 ? pbt::strf("%.9g %s %s", b[0], op_name(op), a.text().c_str()) : pbt::strf("%s %s%s numbers%s (form %d)", a.text().c_str(), op_name(op), inplace ? "=" : "", bt.c_str(), form);
		s.labelf("numbers %s%s, form %d", op_name(op), inplace ? "=" : "", form);
		mt_mat res;
		mt_scalar sc;
		for (int c = 0; c < 4 && c < a.ch; ++c) sc[c] = b[c];
		if (form == 3 && op == '-' && b[0] == 0 && s.coin()) res = -la.m;
		else if (inplace) form == 0 ? apply_to(la.m, op, b[0]) : form == 1 ? apply_to(la.m, op, sc) : apply_to(la.m, op, b);
		else res = form == 0 ? apply(la.m, op, b[0]) : form == 1 ? apply(la.m, op, sc) : form == 2 ? apply(la.m, op, b) : apply(b[0], op, la.m);
		verdict(la, res, want, what, 0, 0);
		return;
	}
	// functions
	int f = (int)s.draw(5);	// 0 pow, 1 exp, 2 log, 3 log to a base, 4 abs
	double p = 0;
	bool fl = is_float(d);
	for (auto& v : a.v) {
		if (f == 0) v = fl ? (double)s.range(-40, 40) / 4 : (double)s.range(0, is_udepth(d) ? 11 : 11) * (s.coin() && !is_udepth(d) ? -1 : 1);
		if (f == 1) v = fl ? (double)s.range(-40, 40) / 8 : (double)s.range(0, 4);
		if (f == 2 || f == 3) v = fl ? (double)s.range(1, 800) / 8 : (double)s.range(1, 100);
		if (f == 4) v = gen_value(s, d, fl ? 1 : 0);
	}
	if (f == 0) p = fl ? s.pick(std::vector<double>{2, 0.5, 1, 0, 3, -1, -0.5, 1.5, -2}) : s.pick(std::vector<double>{2, 1, 0});
	if (f == 3) p = s.pick(std::vector<double>{2, 10, 3});
	Laid la = lay_out(s, a);
	Model want = like(a, [&](size_t i, int) {
		double x = a.v[i], r = f == 0 ? std::pow(x, p) : f == 1 ? std::exp(x) : f == 2 ? std::log(x) : f == 3 ? std::log(x) / std::log(p) : std::fabs(x);
		return r;
	});
	static const char* names[] = {"pow", "exp", "log", "log to a base", "abs"};
	std::string what = pbt::strf("%s (%g)%s of %s", names[f], p, inplace ? " in place" : "", a.text().c_str());
	s.labelf("%s%s", names[f], inplace ? " in place" : "");
	mt_mat res;
	if (inplace) { if (f == 0) la.m.self_pow(p); else if (f == 1) la.m.self_exp(); else if (f == 2) la.m.self_log(); else if (f == 3) la.m.self_log(p); else la.m.self_abs(); }
	else res = f == 0 ? la.m.pow(p) : f == 1 ? la.m.exp() : f == 2 ? la.m.log() : f == 3 ? la.m.log(p) : la.m.abs();
	if (fl) verdict(la, res, want, what, math_tol(d) * 4, math_tol(d));
	else {
		// truncated towards zero; results next to a whole number may fall on either side
		Vals got = values(inplace ? la.m : res);
		for (size_t i = 0; i < want.v.size() && i < got.size(); ++i) {
			double lo = std::trunc(want.v[i] - 1e-9), hi = std::trunc(want.v[i] + 1e-9);
			want.v[i] = got[i] == lo ? lo : hi;
		}
		verdict(la, res, want, what, 0, 0);
	}
}

// ------------------------------------------------------------------------------------- masks, reductions, biases
namespace {
bool holds(int task, double a, double b) {
	switch (task) {
	case mt_mat::Compare_Task_Bigger: return a > b;
	case mt_mat::Compare_Task_Smaller: return a < b;
	case mt_mat::Compare_Task_Same: return a == b;
	case mt_mat::Compare_Task_Non_Bigger: return a <= b;
	default: return a >= b;
	}
}
const std::vector<mt_Depth>& float_depths() { static std::vector<mt_Depth> d = {mt_F32, mt_F64}; return d; }
double ftol(mt_Depth d) { return d == mt_F32 ? 1e-4 : 1e-11; }
}

PROPERTY(C14, 500000, 6000000, "more than four elements, and an operand in memory other than a plain block",
	"reductions are of float matrices along one dimension or over all elements (per channel); values are of moderate size\n"
	"biases have as many dimensions as the matrix, and divide its sizes; 64-bit integer matrices are left out of biases, which do not support them\n"
	"float results are compared with a tolerance of 1e-4 (F32) or 1e-11 (F64) of the magnitudes involved")
{
	quiet();
	pbt::Src& s = src;
	int kind = (int)s.draw(4);
	Opt o;
	o.kind = 0;
	o.max_dim = s.chance(1, 4) ? 5 : 3;
	if (kind == 0) {	// masks
		Model a = gen_model(s, o);
		Model b = a;
		bool zero = s.chance(1, 4);
		mt_Depth bd = !zero && s.chance(1, 4) ? s.pick(all_depths()) : a.depth;
		b.depth = bd;
		for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = zero ? 0 : s.coin() ? std::floor(std::fabs(a.v[i])) : std::floor(std::fabs(gen_value(s, a.depth, 0)));
		if (bd == a.depth && !zero) for (size_t i = 0; i < b.v.size(); ++i) if (s.coin()) b.v[i] = a.v[i];
		for (auto& v : b.v) v = std::min(v, 100.0);
		int task = (int)s.draw(5);
		double t = (double)s.range(0, 9), f = (double)s.range(0, 9);
		if (!is_udepth(a.depth) && s.coin()) f = -f;
		Laid la = lay_out(s, a), lb = lay_out(s, b);
		Model want = like(a, [&](size_t i, int) { return holds(task, a.v[i], b.v[i]) ? t : f; });
		std::string what = pbt::strf("element_compared_mask of %s and %s, task %d, masks %g %g", a.text().c_str(), zero ? "nothing" : b.text().c_str(), task, t, f);
		s.labelf("mask, %s", zero ? "with zero" : bd == a.depth ? "same depth" : "another depth");
		mt_mat res = la.m.element_compared_mask(zero ? mt_mat() : lb.m, (mt_mat::Compare_Task)task, t, f);
		expect(res, want, what);
		la.check_rest(what, true);
		lb.check_rest(what, true);
		if (a.n() > 4 && !(la.plain && lb.plain)) s.nontrivial();
		return;
	}
	if (kind == 1 || kind == 2) {	// reductions
		o.depths = float_depths();
		Model a = gen_model(s, o);
		for (auto& v : a.v) v = (double)s.range(-40, 40) / (s.coin() ? 1 : 4);
		int nd = (int)a.size.size(), dim = kind == 1 ? (int)s.draw(nd) : -1, type = (int)s.draw(8);
		Laid la = lay_out(s, a);
		Model want = a;
		for (int i = 0; i < nd; ++i) if (dim < 0 || i == dim) want.size[i] = 1;
		std::vector<Vals> groups(want.n() * a.ch);
		Ints idx(nd, 0);
		size_t k = 0;
		do {
			int g = 0;
			for (int i = 0; i < nd; ++i) g = g * want.size[i] + (want.size[i] == 1 ? 0 : idx[i]);
			for (int c = 0; c < a.ch; ++c) groups[g * a.ch + c].push_back(a.v[k++]);
		} while (advance(idx, a.size));
		want.v.clear();
		for (auto& g : groups) {
			double sum = 0, mx = g[0], mn = g[0], sq = 0, n = (double)g.size();
			for (double x : g) { sum += x; mx = std::max(mx, x); mn = std::min(mn, x); }
			for (double x : g) sq += (x - sum / n) * (x - sum / n);
			double r = 0;
			switch (type) {
			case mt_mat::Reduce_Type_Sum: r = sum; break;
			case mt_mat::Reduce_Type_Mean: r = sum / n; break;
			case mt_mat::Reduce_Type_Max: r = mx; break;
			case mt_mat::Reduce_Type_Min: r = mn; break;
			case mt_mat::Reduce_Type_Variance: r = sq / n; break;
			case mt_mat::Reduce_Type_Unbias_Variance: r = sq / (n - 1); break;
			case mt_mat::Reduce_Type_Standard_Variance: r = std::sqrt(sq / n); break;
			default: r = std::sqrt(sq / (n - 1)); break;
			}
			want.v.push_back(r);
		}
		std::string what = pbt::strf("reduce (type %d, dimension %d) of %s", type, dim, a.text().c_str());
		static const char* names[] = {"sum", "mean", "max", "min", "variance", "unbiased variance", "deviation", "unbiased deviation"};
		s.labelf("%s over %s", names[type], dim < 0 ? "all" : "a dimension");
		mt_mat res = la.m.reduce((mt_mat::Reduce_Type)type, dim);
		double tol = type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min ? 0 : ftol(a.depth);
		bool root = type == mt_mat::Reduce_Type_Standard_Variance || type == mt_mat::Reduce_Type_Standard_Unbias_Variance;
		// an n - 1 of zero gives nan whatever the rounding of the difference to the mean
		expect(res, want, what, tol, root ? tol * 10 : tol * 40);
		la.check_rest(what, true);
		if (a.n() > 4 && !la.plain) s.nontrivial();
		return;
	}
	o.depths = {mt_F32, mt_F64, mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32};
	Model a = gen_model(s, o);
	int nd = (int)a.size.size();
	Model b = a;
	int form = (int)s.draw(3);	// 0 unit, 1 row, 2 any
	for (int i = 0; i < nd; ++i) {
		if (form == 0 || (form == 1 && i < nd - 1)) b.size[i] = 1;
		else if (form == 1) b.size[i] = a.size[i];
		else {
			std::vector<int> div;
			for (int k = 1; k <= a.size[i]; ++k) if (a.size[i] % k == 0) div.push_back(k);
			b.size[i] = s.pick(div);
		}
	}
	char op = s.pick(std::vector<char>{'+', '-', '*', '/'});
	b.v.assign(b.n() * b.ch, 0);
	for (auto& v : b.v) v = safe_operand(s, a.depth, op, op == '/');
	Laid la = lay_out(s, a), lb = lay_out(s, b);
	Model want = a;
	Ints idx(nd, 0);
	size_t k = 0;
	do {
		int g = 0;
		for (int i = 0; i < nd; ++i) g = g * b.size[i] + idx[i] % b.size[i];
		for (int c = 0; c < a.ch; ++c, ++k) want.v[k] = bin(a.depth, op, a.v[k], b.v[g * a.ch + c]);
	} while (advance(idx, a.size));
	std::string what = pbt::strf("bias %s of %s with %s", op_name(op), a.text().c_str(), b.text().c_str());
	s.labelf("bias %s, %s", op_name(op), form == 0 ? "one element" : form == 1 ? "a row" : "periodic");
	mt_mat res = op == '+' ? la.m.add_bias(lb.m) : op == '-' ? la.m.substract_bias(lb.m) : op == '*' ? la.m.mul_bias(lb.m) : la.m.div_bias(lb.m);
	expect(res, want, what);
	la.check_rest(what, true);
	lb.check_rest(what, true);
	if (a.n() > 4 && !(la.plain && lb.plain)) s.nontrivial();
}

// ---------------------------------------------------------------------------------- activations, losses, eigenvectors
PROPERTY(C15, 600000, 5000000, "more than four elements, and an operand in memory other than a plain block",
	"softmax and the logarithmic loss are for two dimensions and one channel, as documented; labels of the logarithmic loss are 0 or 1, one-hot if there is more than one column\n"
	"eigenvectors are of symmetric single-channel float matrices of at most 9 x 9")
{
	quiet();
	pbt::Src& s = src;
	int kind = (int)s.draw(4);
	Opt o;
	o.kind = 0;
	o.depths = float_depths();
	o.max_dim = s.chance(1, 4) ? 5 : 3;
	if (kind <= 1) {	// activations
		int type = s.pick(std::vector<int>{mt_Activate_Type_Sigmoid, mt_Activate_Type_Linear, mt_Activate_Type_Tanh, mt_Activate_Type_Softmax, mt_Activate_Type_Relu});
		if (type == mt_Activate_Type_Softmax) { o.min_dim = o.max_dim = 2; o.max_ch = 1; }
		Model a = gen_model(s, o);
		bool big = s.chance(1, 5);
		for (auto& v : a.v) v = (double)s.range(-64, 64) / (big ? 1 : 8);
		if (s.chance(1, 6)) {	// far from zero
			int far = s.chance(1, 2) ? 40 : 2000, shift = (int)s.range(-2, 2) * far;
			for (auto& v : a.v) v = std::floor(v) * (big ? far : 1) + shift;
			s.label("far from zero");
		}
		std::vector<double> params;
		if (type == mt_Activate_Type_Relu && s.coin()) params.push_back((double)s.range(-4, 4) / 4);
		if (type == mt_Activate_Type_Tanh && s.coin()) { params.push_back((double)s.range(1, 8) / 4); params.push_back((double)s.range(-8, 8) / 4); }
		bool inplace = s.coin();
		Laid la = lay_out(s, a);
		Model want = a;
		switch (type) {
		case mt_Activate_Type_Sigmoid: want = like(a, [&](size_t i, int) { return 1 / (1 + std::exp(-a.v[i])); }); break;
		case mt_Activate_Type_Relu: want = like(a, [&](size_t i, int) { return a.v[i] > 0 ? a.v[i] : a.v[i] * (params.empty() ? 0 : params[0]); }); break;
		case mt_Activate_Type_Tanh: want = like(a, [&](size_t i, int) { return (params.empty() ? 1.7159 : params[0]) * std::tanh((params.empty() ? 0.666667 : params[1]) * a.v[i]); }); break;
		case mt_Activate_Type_Softmax:
			for (int r = 0; r < a.size[0]; ++r) {
				int n = a.size[1];
				double mx = *std::max_element(a.v.begin() + r * n, a.v.begin() + (r + 1) * n), sum = 0;
				for (int c = 0; c < n; ++c) sum += std::exp(a.v[r * n + c] - mx);
				for (int c = 0; c < n; ++c) want.v[r * n + c] = std::exp(a.v[r * n + c] - mx) / sum;
			}
			break;
		default: break;
		}
		std::string what = pbt::strf("%s (%d parameters)%s of %s", mt_Activate_Type_Descriptions[type].c_str(), (int)params.size(), inplace ? " in place" : "", a.text().c_str());
		s.labelf("%s%s", mt_Activate_Type_Descriptions[type].c_str(), inplace ? " in place" : "");
		bool ptr = s.coin();
		mt_mat res;
		if (inplace) { if (ptr) la.m.self_activate((mt_Activate_Type)type, (i32)params.size(), params.data()); else la.m.self_activate((mt_Activate_Type)type, params); }
		else res = ptr ? la.m.activate((mt_Activate_Type)type, (i32)params.size(), params.data()) : la.m.activate((mt_Activate_Type)type, params);
		expect(inplace ? la.m : res, want, what, a.depth == mt_F32 ? 1e-5 : 1e-12, a.depth == mt_F32 ? 1e-6 : 1e-13);
		la.check_rest(what, !inplace);
		if (a.n() > 4 && !la.plain) s.nontrivial();
		return;
	}
	if (kind == 2) {	// losses
		bool quad = s.coin();
		if (!quad) { o.min_dim = o.max_dim = 2; o.max_ch = 1; }
		Model a = gen_model(s, o), b;
		for (auto& v : a.v) v = quad ? (double)s.range(-40, 40) / 4 : (double)s.range(1, 63) / 64;
		b = a;
		Model want{a.depth, a.ch, Ints(2, 1), Vals(a.ch, 0)};
		bool nan = s.chance(1, 3);
		if (quad) {
			for (size_t i = 0; i < b.v.size(); ++i) {
				b.v[i] = nan && s.chance(1, 4) ? (double)NAN : (double)s.range(-40, 40) / 4;
				if (b.v[i] == b.v[i]) want.v[i % a.ch] += (a.v[i] - b.v[i]) * (a.v[i] - b.v[i]) / 2;
			}
		} else {
			int n = a.size[1];
			for (int r = 0; r < a.size[0]; ++r) {
				int hot = n == 1 ? (int)s.draw(2) - 1 : (int)s.draw(n);	// the column that is 1, or none
				bool skip = nan && s.chance(1, 4);
				for (int c = 0; c < n; ++c) b.v[r * n + c] = skip ? (double)NAN : c == hot;
				if (skip) continue;
				want.v[0] -= n == 1 && hot < 0 ? std::log(1 - a.v[r * n] + DBL_EPSILON) : std::log(a.v[r * n + hot] + DBL_EPSILON);
			}
		}
		Laid la = lay_out(s, a), lb = lay_out(s, b);
		std::string what = pbt::strf("%s loss of %s against %s", quad ? "quadratic" : "logarithmic", a.text().c_str(), b.text().c_str());
		s.labelf("%s loss", quad ? "quadratic" : "logarithmic");
		mt_mat res = la.m.loss(lb.m, quad ? mt_Loss_Type_Quadratic : mt_Loss_Type_Logarithmic);
		expect(res, want, what, a.depth == mt_F32 ? 1e-4 : 1e-11, 1e-4);
		la.check_rest(what, true);
		lb.check_rest(what, true);
		if (a.n() > 4 && !(la.plain && lb.plain)) s.nontrivial();
		return;
	}
	// eigenvectors
	int n = (int)s.size(1, 9);
	Model a{s.pick(float_depths()), 1, Ints(2, n), Vals(n * n)};
	int form = (int)s.draw(3);	// 0 any, 1 few values (repeated eigenvalues), 2 low rank
	for (int r = 0; r < n; ++r) for (int c = 0; c <= r; ++c) a.v[r * n + c] = a.v[c * n + r] = form == 1 ? (double)s.range(0, 1) * (r == c ? 2 : 1) : (double)s.range(-24, 24) / 4;
	if (form == 2) {
		Vals u(n);
		for (auto& x : u) x = (double)s.range(-6, 6);
		for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) a.v[r * n + c] = u[r] * u[c];
	}
	Laid la = lay_out(s, a);
	mt_mat ev, ec;
	if (s.coin()) { ev = mt_mat(2, 3, mt_F64C1, 1.0); ec = ev; }
	std::string what = "symmetry_eigen of " + a.text();
	s.label("eigenvectors");
	la.m.symmetry_eigen(ev, ec);
	CHECK_THAT(ev.depth() == a.depth && ec.depth() == a.depth && same_ints(sizes_of(ev), Ints{1, n}) && same_ints(sizes_of(ec), Ints{n, n}), "%s: eigenvalues of size [%s] and eigenvectors of size [%s]", what.c_str(), pbt::join(sizes_of(ev)).c_str(), pbt::join(sizes_of(ec)).c_str());
	Vals e = values(ev), v = values(ec);
	double norm = 1;
	for (double x : a.v) norm += x * x;
	norm = std::sqrt(norm);
	double tol = (a.depth == mt_F32 ? 1e-4 : 1e-9) * norm;
	std::string found = " values" + show_values(sizes_of(ev), 1, e) + " vectors" + show_values(sizes_of(ec), 1, v);
	for (int i = 0; i < n; ++i) {
		CHECK_THAT(i == 0 || e[i] <= e[i - 1], "%s: eigenvalues do not fall:%s", what.c_str(), found.c_str());
		for (int r = 0; r < n; ++r) {
			double x = 0;
			for (int c = 0; c < n; ++c) x += a.v[r * n + c] * v[i * n + c];
			CHECK_THAT(std::fabs(x - e[i] * v[i * n + r]) <= tol, "%s: row %d of the eigenvectors is not one:%s", what.c_str(), i, found.c_str());
		}
		for (int j = 0; j <= i; ++j) {
			double x = 0;
			for (int c = 0; c < n; ++c) x += v[i * n + c] * v[j * n + c];
			CHECK_THAT(std::fabs(x - (i == j)) <= (a.depth == mt_F32 ? 1e-4 : 1e-9), "%s: eigenvectors %d and %d have the product %g:%s", what.c_str(), i, j, x, found.c_str());
		}
	}
	la.check_rest(what, true);
	if (n > 2) s.nontrivial();
}

// ------------------------------------------------------------------------------------------- repeat, expand, merge
PROPERTY(C16, 300000, 5000000, "more than four elements, and an operand in memory other than a plain block",
	"margins are not negative, strides and repetitions are at least 1; merged matrices differ in the merged dimension (or in channels) only")
{
	quiet();
	pbt::Src& s = src;
	Opt o;
	o.max_dim = s.chance(1, 4) ? 5 : 3;
	o.max_elements = 120;
	o.max_side = 5;
	Model a = gen_model(s, o);
	int nd = (int)a.size.size(), kind = (int)s.draw(5);
	Laid la = lay_out(s, a);
	Model want = a;
	auto build = [&](std::function<double(const Ints&, int)> f) {
		want.v.clear();
		Ints idx(want.size.size(), 0);
		do { for (int c = 0; c < want.ch; ++c) want.v.push_back(f(idx, c)); } while (advance(idx, want.size));
	};
	auto elem = [&](const Model& m, const Ints& idx, int c) {
		int g = 0;
		for (size_t i = 0; i < idx.size(); ++i) g = g * m.size[i] + idx[i];
		return m.v[g * m.ch + c];
	};
	if (kind == 0) {	// repeat
		Ints n(nd);
		int form = (int)s.draw(4), nch = s.chance(1, 3) ? (int)s.range(1, 3) : 1, dim = (int)s.draw(nd);
		for (int i = 0; i < nd; ++i) n[i] = form == 1 && i != dim ? 1 : (int)s.range(1, nd > 3 ? 2 : 3);
		for (int i = 0; i < nd; ++i) want.size[i] *= n[i];
		want.ch *= nch;
		build([&](Ints idx, int c) { for (int i = 0; i < nd; ++i) idx[i] %= a.size[i]; return elem(a, idx, c % a.ch); });
		std::string what = pbt::strf("repeat [%s] x %d of %s", pbt::join(n).c_str(), nch, a.text().c_str());
		s.label("repeat");
		mt_mat res = form == 1 ? la.m.repeat(n[dim], dim, nch) : form == 2 ? la.m.repeat(n, nch) : form == 3 && nd == 2 ? la.m.repeat_2d(n[0], n[1], nch) : form == 3 && nd == 3 ? la.m.repeat_3d(n[0], n[1], n[2], nch) : la.m.repeat(nd, n.data(), nch);
		expect(res, want, what);
		CHECK_THAT(!res.is_memory_shared(la.m), "%s shares the memory of its argument", what.c_str());
		la.check_rest(what, true);
		if (a.n() > 4 && !la.plain) s.nontrivial();
	} else if (kind == 1) {	// expand
		Ints lo(nd), hi(nd);
		for (int i = 0; i < nd; ++i) { lo[i] = (int)s.draw(3); hi[i] = (int)s.draw(3); }
		int sides = (int)s.draw(3);	// 0 both, 1 first only, 2 second only
		if (sides == 1) hi = Ints(nd, 0);
		if (sides == 2) lo = Ints(nd, 0);
		Vals fill(a.ch);
		for (auto& v : fill) v = std::fabs(gen_value(s, a.depth, 0));
		bool scalar = a.ch <= 4 && s.coin();
		for (int i = 0; i < nd; ++i) want.size[i] += lo[i] + hi[i];
		build([&](Ints idx, int c) {
			for (int i = 0; i < nd; ++i) { idx[i] -= lo[i]; if (idx[i] < 0 || idx[i] >= a.size[i]) return as_depth(a.depth, fill[c]); }
			return elem(a, idx, c);
		});
		mt_scalar sc;
		for (int c = 0; c < a.ch && c < 4; ++c) sc[c] = fill[c];
		std::string what = pbt::strf("expand by [%s] and [%s] of %s", pbt::join(lo).c_str(), pbt::join(hi).c_str(), a.text().c_str());
		s.label("expand");
		mt_mat res;
		const i32* p = sides == 2 ? NULL : lo.data();
		const i32* q = sides == 1 ? NULL : hi.data();
		if (!scalar) res = la.m.expand(nd, p, q, fill);
		else if (s.coin()) res = la.m.expand(nd, p, q, sc);
		else res = la.m.expand(sides == 2 ? Ints() : lo, sides == 1 ? Ints() : hi, sc);
		expect(res, want, what);
		la.check_rest(what, true);
		if (a.n() > 4 && !la.plain) s.nontrivial();
	} else if (kind == 2) {	// sub_stride
		Ints st(nd);
		for (auto& x : st) x = (int)s.range(1, 4);
		for (int i = 0; i < nd; ++i) want.size[i] = (a.size[i] - 1) / st[i] + 1;
		build([&](Ints idx, int c) { for (int i = 0; i < nd; ++i) idx[i] *= st[i]; return elem(a, idx, c); });
		std::string what = pbt::strf("sub_stride [%s] of %s", pbt::join(st).c_str(), a.text().c_str());
		s.label("sub_stride");
		mt_mat res = la.m.sub_stride(nd, st.data());
		expect(res, want, what);
		expect(la.m, a, what + ", its argument afterwards");
		CHECK_THAT(res.is_memory_shared(la.m), "%s does not share the memory of its argument", what.c_str());
		// the view can be used like any other
		Model sum = want;
		for (auto& v : sum.v) v = bin(a.depth, '+', v, 1);
		if (a.depth != mt_I32 && a.depth != mt_I64) expect(res + 1, sum, what + ", plus 1");
		expect(res.clone(), want, what + ", cloned");
		la.check_rest(what, true);
		if (a.n() > 4) s.nontrivial();
	} else {	// merges
		int n = (int)s.range(1, 4), dim = (int)s.draw(nd);
		bool chan = kind == 4, share = s.coin();
		std::vector<Model> ms;
		std::vector<Laid> ls;
		std::vector<mt_mat> mats;
		for (int i = 0; i < n; ++i) {
			Model b = a;
			if (chan) b.ch = (int)s.range(1, 4);
			else b.size[dim] = s.coin() ? a.size[dim] : (int)s.range(1, 4);
			b.v.resize(b.n() * b.ch);
			for (auto& v : b.v) v = gen_value(s, b.depth, 1);
			ms.push_back(b);
			ls.push_back(lay_out(s, b));
			mats.push_back(ls.back().m);
		}
		if (chan) want.ch = 0;
		else want.size[dim] = 0;
		for (auto& b : ms) chan ? want.ch += b.ch : want.size[dim] += b.size[dim];
		build([&](Ints idx, int c) {
			int k = 0;
			if (chan) while (c >= ms[k].ch) c -= ms[k++].ch;
			else while (idx[dim] >= ms[k].size[dim]) idx[dim] -= ms[k++].size[dim];
			return elem(ms[k], idx, c);
		});
		std::string what = pbt::strf("merge of %d matrices along %s:", n, chan ? "channels" : pbt::strf("dimension %d", dim).c_str());
		for (auto& b : ms) what += " " + b.text();
		s.labelf("merge along %s", chan ? "channels" : "a dimension");
		mt_mat res = chan ? mt_mat_helper::merge_align_channel(mats, share) : mt_mat_helper::merge_align_dim(mats, dim, share);
		expect(res, want, what);
		CHECK_THAT(n == 1 && share ? res.is_memory_shared(mats[0]) : !res.is_memory_shared(mats[0]), "%s: sharing of memory is not as asked for (can_share_memory %d)", what.c_str(), (int)share);
		for (auto& l : ls) { l.check_rest(what, true); if (a.n() > 4 && !l.plain) s.nontrivial(); }
	}
}

// -------------------------------------------------------------------------------------------------- pooling
PROPERTY(C17, 500000, 4000000, "more than four elements, windows of more than one, and an operand in memory other than a plain block",
	"kernels and strides are at least 1; sums fit the element type\n"
	"an index or extreme mask has the channels of the matrix; an unpooled matrix has the size the pooling belongs to")
{
	quiet();
	pbt::Src& s = src;
	Opt o;
	o.max_dim = s.chance(1, 4) ? 5 : 3;
	o.max_elements = 200;
	o.max_side = 7;
	Model a = gen_model(s, o);
	int nd = (int)a.size.size();
	int type = s.pick(std::vector<int>{mt_Pooling_Type_Mean, mt_Pooling_Type_Max, mt_Pooling_Type_Min, mt_Pooling_Type_Sum, mt_Pooling_Type_First_Value, mt_Pooling_Type_Index});
	bool back = s.coin();
	Ints k(nd), st(nd), rs(nd);
	bool same = s.coin();
	for (int i = 0; i < nd; ++i) { k[i] = (int)s.range(1, 4); st[i] = same ? k[i] : (int)s.range(1, 4); }
	for (int i = 0; i < nd; ++i) {	// windows start every st[i], the last is the first to reach the end
		rs[i] = 1;
		while ((rs[i] - 1) * st[i] + k[i] < a.size[i] && rs[i] * st[i] < a.size[i]) ++rs[i];
	}
	bool masked = type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min || type == mt_Pooling_Type_Index;
	int window = count(k), vmax = std::max(1, 100 / (window * (back ? 4 : 1)));
	if (type == mt_Pooling_Type_Sum || type == mt_Pooling_Type_Mean) for (auto& v : a.v) v = (double)s.range(0, vmax) * (!is_udepth(a.depth) && s.coin() ? -1 : 1);
	auto pos_of = [&](const Ints& idx) { int g = 0; for (int i = 0; i < nd; ++i) g = g * a.size[i] + idx[i]; return g; };
	auto members = [&](const Ints& r) {	// flat indexes of the window of result element r
		std::vector<int> res;
		Ints len(nd), q(nd, 0);
		for (int i = 0; i < nd; ++i) len[i] = std::min(k[i], a.size[i] - r[i] * st[i]);
		do { Ints idx(nd); for (int i = 0; i < nd; ++i) idx[i] = r[i] * st[i] + q[i]; res.push_back(pos_of(idx)); } while (advance(q, len));
		return res;
	};
	static const char* names[] = {"mean", "max", "min", "sum", "first value", "index"};
	std::string params = pbt::strf("%s pooling, kernel [%s], strides [%s]", names[type], pbt::join(k).c_str(), pbt::join(st).c_str());
	bool vec = s.coin();
	if (!back) {
		s.labelf("%s pooling", names[type]);
		std::string what = params + " of " + a.text();
		Laid la = lay_out(s, a), lm;
		Model mask{mt_I32, a.ch, rs, Vals()};
		if (type == mt_Pooling_Type_Index) {
			for (int i = 0; i < mask.n() * a.ch; ++i) mask.v.push_back((double)s.draw(a.n()));
			lm = lay_out(s, mask);
			what += ", mask " + mask.text();
		}
		mt_mat got_mask = type == mt_Pooling_Type_Index ? lm.m : mt_mat();
		if (masked && type != mt_Pooling_Type_Index && s.coin()) got_mask = mt_mat(2, 2, mt_U8C1, 7.0);
		mt_mat res;
		if (!masked && s.coin()) res = vec ? la.m.pooling((mt_Pooling_Type)type, k, st) : la.m.pooling((mt_Pooling_Type)type, nd, k.data(), st.data());
		else res = vec ? la.m.pooling(got_mask, (mt_Pooling_Type)type, k, st) : la.m.pooling(got_mask, (mt_Pooling_Type)type, nd, k.data(), st.data());
		Model want{a.depth, a.ch, rs, Vals()};
		Ints r(nd, 0);
		std::vector<std::vector<int>> wins;
		do {
			std::vector<int> w = members(r);
			wins.push_back(w);
			for (int c = 0; c < a.ch; ++c) {
				double first = a.v[w[0] * a.ch + c], sum = 0, mx = first, mn = first;
				for (int g : w) { double x = a.v[g * a.ch + c]; sum += x; mx = std::max(mx, x); mn = std::min(mn, x); }
				double v = 0;
				switch (type) {
				case mt_Pooling_Type_Mean: v = is_float(a.depth) ? sum / w.size() : std::trunc(sum / w.size()); break;
				case mt_Pooling_Type_Max: v = mx; break;
				case mt_Pooling_Type_Min: v = mn; break;
				case mt_Pooling_Type_Sum: v = sum; break;
				case mt_Pooling_Type_First_Value: v = first; break;
				default: v = a.v[(int)mask.v[want.v.size()] * a.ch + c]; break;
				}
				want.v.push_back(v);
			}
		} while (advance(r, rs));
		bool mean = type == mt_Pooling_Type_Mean && is_float(a.depth);
		expect(res, want, what, mean ? 1e-5 : 0, mean ? 1e-5 : 0);
		if (type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min) {
			CHECK_THAT(got_mask.depth() == mt_I32 && got_mask.channel() == a.ch && same_ints(sizes_of(got_mask), rs), "%s: the mask is %s", what.c_str(), show(got_mask).c_str());
			Vals mv = values(got_mask);
			for (size_t i = 0; i < mv.size(); ++i) {
				const std::vector<int>& w = wins[i / a.ch];
				bool in = std::find(w.begin(), w.end(), (int)mv[i]) != w.end();
				CHECK_THAT(in && a.v[(int)mv[i] * a.ch + i % a.ch] == want.v[i], "%s: the mask %s does not give the extreme element of window %d, channel %d", what.c_str(), show(got_mask).c_str(), (int)(i / a.ch), (int)(i % a.ch));
			}
		}
		la.check_rest(what, true);
		if (type == mt_Pooling_Type_Index) lm.check_rest(what, true);
		if (a.n() > 4 && window > 1 && !la.plain) s.nontrivial();
		return;
	}
	// back: every result element adds to the elements it came from
	s.labelf("%s unpooling", names[type]);
	Model p{a.depth, a.ch, rs, Vals()}, mask{mt_I32, a.ch, rs, Vals()};
	for (int i = 0; i < p.n() * p.ch; ++i) p.v.push_back((double)s.range(0, vmax) * (!is_udepth(a.depth) && s.coin() ? -1 : 1));
	Model want = a;
	want.v.assign(a.v.size(), 0);
	Ints r(nd, 0);
	size_t i = 0;
	do {
		std::vector<int> w = members(r);
		for (int c = 0; c < a.ch; ++c, ++i) {
			int m = type == mt_Pooling_Type_Index && s.chance(1, 8) ? (int)s.draw(a.n()) : w[s.draw(w.size())];
			mask.v.push_back(m);
			if (type == mt_Pooling_Type_Mean || type == mt_Pooling_Type_Sum)
				for (int g : w) {
					double d = type == mt_Pooling_Type_Sum ? p.v[i] : is_float(a.depth) ? p.v[i] / w.size() : std::trunc(p.v[i] / w.size());
					want.v[g * a.ch + c] += d;
				}
			else want.v[(type == mt_Pooling_Type_First_Value ? w[0] : m) * a.ch + c] += p.v[i];
		}
	} while (advance(r, rs));
	for (double v : want.v) if (std::fabs(v) > 120) throw pbt::Discard();
	Laid lp = lay_out(s, p), lm;
	if (masked) lm = lay_out(s, mask);
	std::string what = "back: " + params + " of " + p.text() + (masked ? ", mask " + mask.text() : "");
	mt_mat res = vec ? lp.m.unpooling(a.size.data(), masked ? lm.m : mt_mat(), (mt_Pooling_Type)type, k, st) : lp.m.unpooling(a.size.data(), masked ? lm.m : mt_mat(), (mt_Pooling_Type)type, nd, k.data(), st.data());
	bool mean = type == mt_Pooling_Type_Mean && is_float(a.depth);
	expect(res, want, what, mean ? 1e-5 : 0, mean ? 1e-5 : 0);
	lp.check_rest(what, true);
	if (masked) lm.check_rest(what, true);
	if (p.n() > 4 && window > 1 && !(lp.plain && (!masked || lm.plain))) s.nontrivial();
}


// ------------------------------------------------------------------------------------------ products, convolutions
static void check_product(pbt::Src& s) {
	Opt o;
	o.depths = {mt_F32, mt_F64};
	o.min_dim = o.max_dim = 2;
	o.max_ch = 4;
	o.kind = 0;
	o.max_side = 7;
	Model a = gen_model(s, o);
	Model b{a.depth, a.ch, Ints{a.size[1], (int)s.size(1, 7)}, Vals()};
	bool whole = s.coin();	// sums of whole numbers are exact in any order
	b.v.resize(b.n() * b.ch);
	for (auto& v : b.v) v = gen_value(s, b.depth, 0);
	if (whole) { for (auto& v : a.v) v = std::trunc(v); for (auto& v : b.v) v = std::trunc(v); }
	int n = a.size[0], k = a.size[1], m = b.size[1];
	Laid la = lay_out(s, a), lb = lay_out(s, b);
	std::string what = a.text() + " mul " + b.text();
	bool self = n == k && s.chance(1, 6);
	if (self) { b = a; m = n; what = a.text() + " mul itself"; s.label("a matrix by itself"); }
	mt_mat got = la.m.mul(self ? la.m : lb.m);
	Model want{a.depth, a.ch, Ints{n, m}, Vals(n * m * a.ch, 0.0)};
	double big = 0;
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int c = 0; c < a.ch; ++c) for (int p = 0; p < k; ++p) {
		double x = a.v[(i * k + p) * a.ch + c] * b.v[(p * m + j) * a.ch + c];
		want.v[(i * m + j) * a.ch + c] += x;
		big += std::fabs(x);
	}
	double tol = whole ? 0 : a.depth == mt_F32 ? 1e-5 * (1 + big) : 1e-13 * (1 + big);
	expect(got, want, what, 0, tol);
	la.check_rest(what, true);
	if (!self) lb.check_rest(what, true);
	CHECK_THAT(!got.is_memory_shared(la.m), "%s shares memory with its operand", what.c_str());
	s.label(a.ch == 1 ? "product" : "product, several channels");
	if (n * m > 1 && k > 1 && !(la.plain && lb.plain)) s.nontrivial();
}

static void check_identity(pbt::Src& s) {
	s.label("identity, symmetry");
	Opt o;
	o.min_dim = o.max_dim = 2;
	o.max_ch = 4;
	Model a = gen_model(s, o);
	bool left = s.coin();
	Model eye = a;
	for (size_t i = 0; i < eye.v.size(); ++i) {
		int e = (int)i / a.ch, y = e / a.size[1], x = e % a.size[1];
		eye.v[i] = y == (left ? x : a.size[1] - 1 - x) ? 1 : 0;
	}
	Laid l = lay_out(s, a);
	std::string what = pbt::strf("set_eye(%d) of ", (int)left) + a.text();
	mt_mat& r = left && s.coin() ? l.m.set_eye() : l.m.set_eye(left);
	CHECK_THAT(&r == &l.m, "%s returns another matrix", what.c_str());
	expect(l.m, eye, what);
	l.check_rest(what, false);
	// symmetry: of one that is symmetric but for, perhaps, one element
	int n = (int)s.size(1, 6);
	Model q{a.depth, a.ch, Ints{n, s.chance(1, 6) ? (int)s.size(1, 6) : n}, Vals()};
	q.v.resize(q.n() * q.ch);
	for (auto& v : q.v) v = gen_value(s, q.depth, 0);
	bool square = q.size[0] == q.size[1], sym = square;
	auto at = [&](int y, int x, int c) -> double& { return q.v[(y * q.size[1] + x) * q.ch + c]; };
	if (square && s.chance(3, 4)) {
		for (int y = 0; y < n; ++y) for (int x = 0; x < y; ++x) for (int c = 0; c < q.ch; ++c) at(y, x, c) = at(x, y, c);
		if (s.coin()) { double& v = at((int)s.draw(n), (int)s.draw(n), (int)s.draw(q.ch)); v = v < 50 ? v + 3 : v - 3; }
	}
	if (square) for (int y = 0; y < n; ++y) for (int x = 0; x < y; ++x) for (int c = 0; c < q.ch; ++c) if (at(y, x, c) != at(x, y, c)) sym = false;
	Laid lq = lay_out(s, q);
	CHECK_THAT((bool)lq.m.is_symmetrical() == sym, "is_symmetrical() of %s is %d", q.text().c_str(), (int)lq.m.is_symmetrical());
	lq.check_rest("is_symmetrical of " + q.text(), true);
	if (a.n() > 3 && n > 1 && !l.plain) s.nontrivial();
}

static void check_convolution(pbt::Src& s) {
	Opt o;
	o.depths = {mt_F32, mt_F64};
	o.max_dim = s.chance(1, 6) ? 6 : 3;
	o.kind = 0;
	o.max_side = 7;
	o.max_elements = 60;
	bool wide = s.chance(1, 12);	// so many channels that they are taken apart
	o.max_ch = wide ? 3 : 4;
	if (wide) { o.max_elements = 12; o.max_side = 4; s.label("more than 16 channels"); }
	Model a = gen_model(s, o);
	int nd = (int)a.size.size();
	if (nd > 4) s.label("more than four dimensions");
	static const mt_Conv_Boundary_Type bts[] = {mt_Conv_Boundary_Type_Valid, mt_Conv_Boundary_Type_Full, mt_Conv_Boundary_Type_Same};
	static const char* bn[] = {"valid", "full", "same"};
	static const mt_Conv_Kernel_Align_Type ats[] = {mt_Conv_Kernel_Align_Type_Row, mt_Conv_Kernel_Align_Type_Col, mt_Conv_Kernel_Align_Type_Cross_Row, mt_Conv_Kernel_Align_Type_Cross_Col};
	static const char* an[] = {"rows", "columns", "crossed rows", "crossed columns"};
	int bt = s.weighted({3, 2, 2}), at = s.weighted({3, 2, 1, 1});
	bool cross = at >= 2;
	int many = wide ? (int)s.range(17, 20) : (int)s.size(1, 3);
	if (wide && s.chance(1, 3) && !cross) {		// many channels in, one out
		a.ch = (int)s.range(17, 20);
		a.v.resize(a.n() * a.ch);
		for (auto& v : a.v) v = gen_value(s, a.depth, 0);
		many = 1;
	}
	Model k{a.depth, cross ? many : many * a.ch, Ints(nd), Vals()};
	for (int i = 0; i < nd; ++i) {
		int most = nd > 3 ? 2 : 4;
		k.size[i] = (int)s.size(1, bt == 0 ? std::min(a.size[i], most) : most);
	}
	k.v.resize(k.n() * k.ch);
	for (auto& v : k.v) v = gen_value(s, k.depth, 0);
	bool whole = s.coin();
	if (whole) { for (auto& v : a.v) v = std::trunc(v); for (auto& v : k.v) v = std::trunc(v); }
	bool strided = s.chance(1, 3);
	Ints st(nd, 1), rs(nd), start(nd, 0);
	if (strided) for (auto& v : st) v = (int)s.range(1, 3);
	for (int i = 0; i < nd; ++i) {
		int full = a.size[i] + k.size[i] - 1;
		int len = bt == 0 ? a.size[i] - k.size[i] + 1 : bt == 1 ? full : a.size[i];
		start[i] = bt == 0 ? k.size[i] - 1 : bt == 1 ? 0 : k.size[i] / 2;
		rs[i] = 0;
		for (int p = 0; p < len; p += st[i]) ++rs[i];
		CHECK_THAT(mt_mat_helper::get_conv_result_size(a.size[i], k.size[i], st[i], bts[bt]) == rs[i], "get_conv_result_size(%d, %d, %d, %s) is %d, expected %d", a.size[i], k.size[i], st[i], bn[bt], mt_mat_helper::get_conv_result_size(a.size[i], k.size[i], st[i], bts[bt]), rs[i]);
	}
	Ints told(nd, -1);
	mt_mat_helper::get_conv_result_size(nd, told.data(), a.size.data(), k.size.data(), strided || s.coin() ? st.data() : NULL, bts[bt]);
	CHECK_THAT(same_ints(told, rs), "get_conv_result_size of [%s], kernel [%s], strides [%s], %s: [%s], expected [%s]", pbt::join(a.size).c_str(), pbt::join(k.size).c_str(), pbt::join(st).c_str(), bn[bt], pbt::join(told).c_str(), pbt::join(rs).c_str());
	int rch = cross ? a.ch * k.ch : k.ch / a.ch;
	Model want{a.depth, rch, rs, Vals()};
	double big = 0;
	Ints r(nd, 0);
	do {
		for (int oc = 0; oc < rch; ++oc) {
			double sum = 0;
			for (int ic = 0; ic < a.ch; ++ic) {
				int kc;
				if (at == 0) kc = ic * rch + oc;
				else if (at == 1) kc = oc * a.ch + ic;
				else if (at == 2) { if (oc / k.ch != ic) continue; kc = oc % k.ch; }
				else { if (oc % a.ch != ic) continue; kc = oc / a.ch; }
				Ints q(nd, 0);
				do {
					int e = 0, ke = 0;
					bool in = true;
					for (int i = 0; i < nd; ++i) {
						int x = start[i] + r[i] * st[i] - q[i];
						if (x < 0 || x >= a.size[i]) in = false;
						e = e * a.size[i] + x;
						ke = ke * k.size[i] + q[i];
					}
					if (in) { double x = a.v[e * a.ch + ic] * k.v[ke * k.ch + kc]; sum += x; big += std::fabs(x); }
				} while (advance(q, k.size));
			}
			want.v.push_back(sum);
		}
	} while (advance(r, rs));
	Laid la = lay_out(s, a), lk = lay_out(s, k);
	std::string what = pbt::strf("%s convolution, kernels in %s, strides [%s] of ", bn[bt], an[at], pbt::join(st).c_str()) + a.text() + "\n with " + k.text();
	s.labelf("%s convolution", bn[bt]);
	s.labelf("kernels in %s", an[at]);
	const int* sp = strided || s.coin() ? st.data() : NULL;
	mt_mat got;
	int form = (int)s.draw(3);
	if (form == 0) got = la.m.conv(lk.m, bts[bt], ats[at], sp);
	else if (form == 1) { if (s.coin()) got = mt_mat(2, 2, mt_U8C1, 7.0); la.m.conv(got, lk.m, bts[bt], ats[at], sp); }
	else { got = la.m; got.conv(got, lk.m, bts[bt], ats[at], sp); s.label("into the matrix itself"); }
	expect(got, want, what, 0, whole ? 0 : a.depth == mt_F32 ? 1e-5 * (1 + big) : 1e-13 * (1 + big));
	la.check_rest(what, true);
	lk.check_rest(what, true);
	if (a.n() > 4 && k.n() > 1 && !(la.plain && lk.plain)) s.nontrivial();
}

PROPERTY(C40, 400000, 4000000, "more than four elements (products: more than one), a kernel or row of more than one, and an operand in memory other than a plain block",
	"valid convolutions are given kernels no larger than the matrix; with aligned kernels the kernel's channels are a multiple of the matrix's\n"
	"sums of whole numbers are exact, others within the rounding of their depth")
{
	quiet();
	switch (src.weighted({3, 1, 5})) {
	case 0: check_product(src); break;
	case 1: check_identity(src); break;
	default: check_convolution(src);
	}
}
