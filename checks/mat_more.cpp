// Matrices: files, derivatives, sparse and cached memory.
// modules: math
#include "mat_common.h"
#include <unistd.h>
#include <memory>
#include <set>
using namespace mm;

// ------------------------------------------------------------------------------------------------- files
namespace {
double file_tol(mt_Depth d, bool text) { return !text ? 0 : d == mt_F32 ? 0.5000001e-7 : d == mt_F64 ? 0.5000001e-16 : 0; }
double file_rel(mt_Depth d, bool text) { return !text ? 0 : d == mt_F32 ? FLT_EPSILON : d == mt_F64 ? DBL_EPSILON : 0; }

double file_value(pbt::Src& s, mt_Depth d) {
	if (!is_float(d)) return gen_value(s, d, 1);
	double v;
	switch (s.draw(4)) {
	case 0: v = gen_value(s, d, 0); break;
	case 1: v = s.real(-1, 1, 1000003); break;
	case 2: v = ldexp(s.real(-1, 1, 1000003), (int)s.range(-30, 40)); break;
	default: v = s.real(-100000, 100000, 7);
	}
	return d == mt_F32 ? (double)(f32)v : v;
}

// the 64-bit values of a matrix, row-major
template <class F> void each_wide(const mt_mat& m, F f) {
	Ints size = sizes_of(m), step = steps_of(m), idx(size.size(), 0);
	do {
		const u8* p = m.data();
		for (size_t i = 0; i < size.size(); ++i) p += (ptrdiff_t)idx[i] * step[i];
		for (int c = 0; c < m.channel(); ++c) f((u64*)(p + c * 8));
	} while (advance(idx, size));
}

std::string print_value(const u8* p, mt_Depth d) {
	switch (d) {
	case mt_U64: return pbt::strf("%llu", (unsigned long long)*(const u64*)p);
	case mt_I64: return pbt::strf("%lld", (long long)*(const i64*)p);
	case mt_F32: return pbt::strf("%.7f", *(const f32*)p);
	case mt_F64: return pbt::strf("%.16f", *(const f64*)p);
	default: return pbt::strf("%lld", (long long)raw_get(p, d));
	}
}

// The text of a matrix of up to three dimensions: its dimensions, sizes, depth and channels, then lines of elements.
void check_print(const mt_mat& m, const std::string& what) {
	Ints size = sizes_of(m), step = steps_of(m);
	int nd = (int)size.size(), es = mt_Depth_Size[m.depth()];
	string got = sys_strcombine() << m;
	std::string head = pbt::strf("%dd mat: ", nd);
	for (int i = 0; i < nd; ++i) head += (i ? " * " : "") + std::to_string(size[i]);
	head += std::string(", depth_channel: ") + mt_Depth_Channel::depth_channel_str(m.depth_channel());
	CHECK_THAT(got.compare(0, head.size(), head) == 0, "%s: printed as '%s', which does not begin with '%s'", what.c_str(), got.c_str(), head.c_str());
	std::vector<std::string> want, lines;
	int planes = nd == 3 ? size[0] : 1, rows = nd >= 2 ? size[nd - 2] : 1, cols = size[nd - 1];
	for (int p = 0; p < planes; ++p) {
		if (nd == 3) want.push_back(std::to_string(p) + "-th plane mat:");
		for (int r = 0; r < rows; ++r) {
			std::string line;
			for (int c = 0; c < cols; ++c) {
				const u8* e = m.data() + (ptrdiff_t)c * step[nd - 1] + (nd >= 2 ? (ptrdiff_t)r * step[nd - 2] : 0) + (nd == 3 ? (ptrdiff_t)p * step[0] : 0);
				for (int k = 0; k < m.channel(); ++k) line += (k ? " " : "") + print_value(e + k * es, m.depth());
				if (c + 1 < cols) line += ", ";
			}
			want.push_back(line);
		}
	}
	std::string rest = got.substr(head.size()), cur;
	if (!rest.empty()) CHECK_THAT(rest[0] == '\n', "%s: printed as '%s' with elements in the line of '%s'", what.c_str(), got.c_str(), head.c_str());
	for (char ch : rest + "\n") { if (ch != '\n') cur += ch; else { if (!cur.empty()) lines.push_back(cur); cur.clear(); } }
	bool same = lines.size() == want.size();
	for (size_t i = 0; same && i < want.size(); ++i) same = lines[i] == want[i];
	CHECK_THAT(same, "%s: printed as '%s', whose lines are not %s", what.c_str(), got.c_str(), [&] { std::string t; for (auto& l : want) t += "'" + l + "' "; return t; }().c_str());
}
}

PROPERTY(C21, 100000, 1200000, "more than four elements, and a matrix in memory other than a plain block or several matrices in one document",
	"text files keep the 7 (f32) or 16 (f64) decimals that sys_strcombine writes\n"
	"matrices of more than three dimensions are not printed")
{
	quiet();
	pbt::Src& s = src;
	Opt o;
	o.max_dim = s.chance(1, 4) ? 6 : 3;
	o.max_ch = s.chance(1, 10) ? 40 : 5;
	bool text = s.coin();
	int way = s.weighted({2, 2, 3});
	std::string path = pbt::scratch_dir() + "/mat", str;
	std::vector<u8> bytes;
	int n = way == 2 ? (int)s.range(1, 4) : 1;
	std::vector<Model> md;
	std::vector<Laid> in;
	std::vector<std::vector<u64>> wide;
	bool odd = n > 1;
	size_t elements = 0;
	for (int i = 0; i < n; ++i) {
		Model m = gen_model(s, o);
		for (auto& v : m.v) v = file_value(s, m.depth);
		md.push_back(m);
		in.push_back(lay_out(s, m));
		std::vector<u64> w;
		if ((m.depth == mt_U64 || m.depth == mt_I64) && m.v.size() && s.coin()) {	// all 64 bits
			each_wide(in.back().m, [&](u64* p) { if (s.coin()) *p = s.chance(1, 4) ? s.pick(std::vector<u64>{~0ull, 1ull << 63, (1ull << 63) - 1, (1ull << 53) + 1, 1ull << 32}) : ((u64)s.draw(1ll << 32) << 32) + s.draw(1ll << 32); w.push_back(*p); });
			in.back().snapshot();
			md.back().v = values(in.back().m);
			s.label("all 64 bits");
		}
		wide.push_back(w);
		odd = odd || !in.back().plain;
		elements += m.v.size();
	}
	if (s.chance(1, 4) && md[0].size.size() <= 3 && md[0].v.size()) {
		s.labelf("printed, %d dimensions", (int)md[0].size.size());
		std::string t = "a matrix of " + md[0].text();
		if (s.want_note()) s.note("print " + t);
		check_print(in[0].m, t);
		in[0].check_rest(t, true);
	}
	bool empty = s.chance(1, 25);
	std::string what = std::string(text ? "text" : "binary") + (way == 0 ? " file of " : way == 1 ? " buffer of " : " document of ");
	for (auto& m : md) what += m.text() + " ";
	if (s.want_note()) s.note(what);
	s.labelf("%s %s", text ? "text" : "binary", way == 0 ? "file" : way == 1 ? "buffer" : "document");
	std::vector<mt_mat> got;
	mt_mat none;
	if (way == 0) {
		mt_mat_helper::save(path, empty ? none : in[0].m, b8(text));
		got.push_back(mt_mat_helper::load(path, b8(text)));
		unlink(path.c_str());
	} else {
		std::unique_ptr<sys_buffer_writer> w;
		if (text) w.reset(new sys_string_buffer_writer(&str)); else w.reset(new sys_byte_buffer_writer(&bytes));
		bool as_vector = s.coin();
		if (way == 1) mt_mat_helper::save(w.get(), empty ? none : in[0].m);
		else {
			sys_json_writer json(w.get());
			std::vector<mt_mat> all;
			for (auto& l : in) all.push_back(l.m);
			if (empty) all[0] = none;
			json << "before" << 7;
			if (as_vector) json << "all" << all;
			else for (int i = 0; i < n; ++i) json << "m" + std::to_string(i) << all[i];
			json << "after" << "text";
		}
		std::unique_ptr<sys_buffer_reader> r;
		if (text) r.reset(new sys_string_buffer_reader(str)); else r.reset(new sys_byte_buffer_reader(bytes.data(), bytes.data() + bytes.size()));
		if (way == 1) got.push_back(mt_mat_helper::load(r.get()));
		else {
			sys_json_reader json(r.get());
			if (as_vector) json["all"] >> got;
			else for (int i = 0; i < n; ++i) { mt_mat m; if (s.coin()) m = in[0].m; json["m" + std::to_string(i)] >> m; got.push_back(m); }
			CHECK_THAT(json["before"].to_i32() == 7 && json["after"].to_string() == "text", "%s: the rest of the document is not what was written", what.c_str());
		}
	}
	CHECK_THAT((int)got.size() == n, "%s: %d matrices instead of %d", what.c_str(), (int)got.size(), n);
	for (int i = 0; i < n; ++i) {
		if (empty && i == 0) { CHECK_THAT(got[0].is_empty(), "%s: an empty matrix is read back as %s", what.c_str(), show(got[0]).c_str()); continue; }
		expect(got[i], md[i], what + "is read back", file_rel(md[i].depth, text), file_tol(md[i].depth, text));
		size_t k = 0;
		if (!wide[i].empty()) each_wide(got[i], [&](u64* p) { CHECK_THAT(*p == wide[i][k], "%s: value %d is read back as %llx instead of %llx", what.c_str(), (int)k, (unsigned long long)*p, (unsigned long long)wide[i][k]); ++k; });
		CHECK_THAT(!got[i].is_memory_shared(in[i].m), "%s: a matrix that was read shares the memory of the saved one", what.c_str());
		for (int j = 0; j < i; ++j) CHECK_THAT(got[j].is_empty() || !got[i].is_memory_shared(got[j]), "%s: two matrices that were read share memory", what.c_str());
	}
	for (auto& l : in) l.check_rest(what + "saving", true);
	for (int i = 0; i < n; ++i) {
		mt_Depth_Channel dc(md[i].depth, md[i].ch);
		std::string t = mt_Depth_Channel::depth_channel_str(dc);
		CHECK_THAT(mt_Depth_Channel::depth_channel_i32(t) == dc, "depth_channel_i32(\"%s\") is another depth or number of channels", t.c_str());
	}
	s.nontrivial(elements > 4 && odd);
}

// ------------------------------------------------------------------------------------------ automatic derivatives
#include "mt_auto_derivative.h"
namespace {
struct AdNode {
	std::string op;
	std::vector<int> args;
	std::vector<int> p;			// whole parameters
	std::vector<double> c;		// constants
	mt_mat aux;					// label of a loss
};

mt_mat ad_apply(const AdNode& n, const std::vector<mt_mat>& v) {
	const std::string& o = n.op;
	const mt_mat& a = v[n.args[0]];
	int nd = a.dim();
	if (o == "clone") return a.clone();
	if (o == "neg") return -a;
	if (o == "reshape") return a.reshape(std::vector<int>(n.p.begin() + 1, n.p.end()), n.p[0]);
	if (o == "repeat") return a.repeat(std::vector<int>(n.p.begin() + 1, n.p.end()), n.p[0]);
	if (o == "flip") { std::vector<b8> f; for (int x : n.p) f.push_back(b8(x)); return a.flip(f); }
	if (o == "flip dim") return a.flip(n.p[0]);
	if (o == "sub") { std::vector<mt_range> r; for (int i = 0; i < nd; ++i) r.push_back(mt_range(n.p[2 * i], n.p[2 * i + 1])); return a.sub(r); }
	if (o == "sub_channel") return a.sub_channel(n.p[0], n.p[1]);
	if (o == "sub_stride") return a.sub_stride(nd, n.p.data());
	if (o == "expand") { std::vector<int> l(n.p.begin(), n.p.begin() + nd), r(n.p.begin() + nd, n.p.end()); return a.expand(nd, l.data(), r.data(), std::vector<f64>(a.channel(), n.c[0])); }
	if (o == "pooling") { std::vector<int> k(n.p.begin() + 1, n.p.begin() + 1 + nd), st(n.p.begin() + 1 + nd, n.p.end()); return a.pooling((mt_Pooling_Type)n.p[0], k, st); }
	if (o == "activate") return a.activate((mt_Activate_Type)n.p[0], n.c);
	if (o == "exp") return a.exp();
	if (o == "pow") return a.pow(n.c[0]);
	if (o == "log") return n.c.empty() ? a.log() : a.log(n.c[0]);
	if (o == "abs") return a.abs();
	if (o == "+const") return n.p[0] ? n.c[0] + a : a + n.c[0];
	if (o == "-const") return a - n.c[0];
	if (o == "const-") return n.c[0] - a;
	if (o == "*const") return n.p[0] ? n.c[0] * a : a * n.c[0];
	if (o == "/const") return a / n.c[0];
	if (o == "const/") return n.c[0] / a;
	if (o == "+vec") return a + n.c;
	if (o == "-vec") return a - n.c;
	if (o == "*vec") return a * n.c;
	if (o == "/vec") return a / n.c;
	if (o == "loss") return a.loss(n.aux, (mt_Loss_Type)n.p[0]);
	if (o == "add" || o == "dot" || o == "merge dim" || o == "merge channel") {
		std::vector<mt_mat> e;
		for (int i : n.args) e.push_back(v[i]);
		if (o == "add") return mt_mat_helper::add(e);
		if (o == "dot") return mt_mat_helper::dot(e);
		if (o == "merge dim") return mt_mat_helper::merge_align_dim(e, n.p[0]);
		return mt_mat_helper::merge_align_channel(e);
	}
	const mt_mat& b = v[n.args[1]];
	if (o == "+") return a + b;
	if (o == "-") return a - b;
	if (o == "*") return a * b;
	if (o == "/") return a / b;
	if (o == "+bias") return a.add_bias(b);
	if (o == "-bias") return a.substract_bias(b);
	if (o == "*bias") return a.mul_bias(b);
	if (o == "/bias") return a.div_bias(b);
	if (o == "mul") return a.mul(b);
	if (o == "conv") return n.p.empty() ? a.conv(b) : a.conv(b, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Row, n.p.data());
	pbt::fail("harness: no operation %s", o.c_str());
}

std::string ad_text(const std::vector<AdNode>& prog, const std::vector<Model>& leaves) {
	std::string r;
	for (size_t i = 0; i < leaves.size(); ++i) r += pbt::strf("\n m%d = ", (int)i) + leaves[i].text();
	for (size_t i = 0; i < prog.size(); ++i) {
		const AdNode& n = prog[i];
		r += pbt::strf("\n m%d = %s of", (int)(leaves.size() + i), n.op.c_str());
		for (int a : n.args) r += pbt::strf(" m%d", a);
		if (n.p.size()) r += " (" + pbt::join(n.p) + ")";
		for (double c : n.c) r += pbt::strf(" %.9g", c);
		if (!n.aux.is_empty()) r += " with " + show(n.aux);
	}
	return r;
}

double sum_of(const mt_mat& m) { double r = 0; for (double v : values(m)) r += v; return r; }
}

PROPERTY(C22, 60000, 2000000, "a computation of at least three operations in which the target is used more than once or in an operation of several matrices",
	"functions are differentiable where they are evaluated: no absolute value or relu of 0, no extreme of equal elements\n"
	"the logarithmic loss is taken of a sigmoid or softmax that nothing else uses, with labels that no one differentiates\n"
	"a view that covers exactly the elements of an earlier matrix is that matrix to the record, so the target is not between two such\n"
	"convolutions are valid ones with kernels in rows, the only ones that can be differentiated")
{
	quiet();
	pbt::Src& s = src;
	Opt o;
	o.depths = {mt_F64};
	o.max_dim = s.chance(1, 6) ? 6 : 3;
	o.max_side = 4;
	o.max_ch = 3;
	o.max_elements = 12;
	// leaves
	std::vector<Model> leaves;
	std::vector<mt_mat> vals;	// values as the program is made up
	int nl = (int)s.range(1, 3);
	for (int i = 0; i < nl; ++i) {
		Model m = i && s.chance(2, 3) ? leaves[0] : gen_model(s, o);
		for (auto& v : m.v) v = s.real(0.3, 1.8, 100003) * (s.chance(1, 3) ? -1 : 1);
		leaves.push_back(m);
	}
	std::vector<Laid> laid;
	for (auto& m : leaves) { laid.push_back(lay_out(s, m)); vals.push_back(laid.back().m); }
	std::vector<AdNode> prog;
	auto shape_is = [&](const mt_mat& a, const mt_mat& b) { return a.channel() == b.channel() && same_ints(sizes_of(a), sizes_of(b)); };
	auto pick = [&]() { return (int)(s.chance(1, 2) ? vals.size() - 1 : s.draw(vals.size())); };
	auto extra_leaf = [&](Model m) {	// program operands are numbered after the leaves, so leaves come first
		for (auto& n : prog) for (auto& a : n.args) if (a >= (int)leaves.size()) ++a;
		leaves.push_back(m);
		laid.push_back(lay_out(s, m));
		vals.insert(vals.begin() + (leaves.size() - 1), laid.back().m);
		return (int)leaves.size() - 1;
	};
	std::set<int> loss_nodes;	// nodes nothing else may use (operands of the logarithmic loss)
	auto another_leaf = [&](AdNode& n, const Model& b) {	// one more matrix, an operand of n
		int bi = extra_leaf(b);
		if (n.args[0] >= bi) ++n.args[0];
		std::set<int> moved;
		for (int x : loss_nodes) moved.insert(x >= bi ? x + 1 : x);
		loss_nodes = moved;
		return bi;
	};
	int no = (int)s.size(1, 9);
	bool ended = false;
	for (int k = 0; k < no && !ended; ++k) {
		AdNode n;
		int ai = pick();
		if (loss_nodes.count(ai)) continue;
		const mt_mat a = vals[ai];
		n.args.push_back(ai);
		int nd = a.dim(), ch = a.channel();
		Ints size = sizes_of(a);
		Vals av = values(a);
		double lo = 1e9, hi = -1e9, near0 = 1e9;
		for (double v : av) { lo = std::min(lo, v); hi = std::max(hi, v); near0 = std::min(near0, std::fabs(v)); }
		auto cst = [&]() { return s.real(0.4, 1.6, 1009) * (s.chance(1, 3) ? -1 : 1); };
		int kind = s.weighted({8, 8, 5, 4, 3, 8, 4});
		if (kind == 0) {	// one matrix, element by element
			static const char* un[] = {"neg", "exp", "pow", "log", "abs", "activate", "+const", "-const", "const-", "*const", "/const", "const/", "+vec", "-vec", "*vec", "/vec", "clone"};
			n.op = un[s.draw(17)];
			if (n.op == "abs" && near0 < 1e-3) n.op = "neg";
			if (n.op == "exp" && hi > 2) n.op = "neg";
			if (n.op == "pow") { n.c.push_back(s.pick(std::vector<double>{2, 3, 0.5, -1, 1.5, 1})); if (lo < 0.1 && (n.c[0] != 2 && n.c[0] != 3)) n.c[0] = 2; }
			if (n.op == "log") { if (lo < 0.1) n.op = "neg"; else if (s.coin()) n.c.push_back(s.pick(std::vector<double>{2, 10, 0.5})); }
			if (n.op == "const/" && near0 < 0.1) n.op = "const-";
			if (n.op == "activate") {
				n.p.push_back(s.pick(std::vector<int>{mt_Activate_Type_Linear, mt_Activate_Type_Sigmoid, mt_Activate_Type_Tanh, mt_Activate_Type_Relu, mt_Activate_Type_Softmax}));
				if (n.p[0] == mt_Activate_Type_Relu && near0 < 1e-3) n.p[0] = mt_Activate_Type_Tanh;
				if (n.p[0] == mt_Activate_Type_Softmax && (nd != 2 || ch != 1)) n.p[0] = mt_Activate_Type_Sigmoid;
				if (n.p[0] == mt_Activate_Type_Tanh && s.coin()) n.c = {s.real(0.5, 2, 100), s.real(0.3, 1.2, 100)};
				if (n.p[0] == mt_Activate_Type_Relu && s.coin()) n.c = {s.real(0.01, 0.6, 100)};
			}
			if (n.op.find("const") != std::string::npos) { n.p.push_back((int)s.draw(2)); n.c.push_back(cst()); }
			if (n.op.find("vec") != std::string::npos) for (int i = 0; i < ch; ++i) n.c.push_back(cst());
		} else if (kind == 1) {	// two of one shape
			n.op = s.pick(std::vector<std::string>{"+", "-", "*", "/"});
			std::vector<int> same;
			for (size_t i = 0; i < vals.size(); ++i) if (shape_is(vals[i], a) && !loss_nodes.count((int)i)) same.push_back((int)i);
			int bi = same.empty() ? ai : s.pick(same);
			if (s.chance(1, 6)) bi = ai;
			if (n.op == "/") for (double v : values(vals[bi])) if (std::fabs(v) < 0.1) n.op = "*";
			n.args.push_back(bi);
		} else if (kind == 2) {	// several
			std::vector<int> ok;
			int form = (int)s.draw(4), md = (int)s.draw(nd);
			n.op = form == 0 ? "add" : form == 1 ? "dot" : form == 2 ? "merge dim" : "merge channel";
			if (form == 2) n.p.push_back(md);
			for (size_t i = 0; i < vals.size(); ++i) {
				const mt_mat& b = vals[i];
				if (loss_nodes.count((int)i) || b.dim() != nd) continue;
				bool fits = form == 3 || b.channel() == ch;
				for (int d = 0; d < nd; ++d) if (b.size()[d] != size[d] && !(form == 2 && d == md)) fits = false;
				if (fits) ok.push_back((int)i);
			}
			if (ok.empty()) ok.push_back(ai);
			int more = (int)s.draw(3);
			for (int i = 0; i < more; ++i) n.args.push_back(s.chance(1, 6) ? ai : s.pick(ok));
		} else if (kind == 3) {	// bias
			int form = (int)s.draw(3);
			Model b{mt_F64, ch, size, Vals()};
			for (int i = 0; i < nd; ++i) {
				if (form == 0 || (form == 1 && i < nd - 1)) b.size[i] = 1;
				else if (form == 1) b.size[i] = size[i];
				else { std::vector<int> dv; for (int q = 1; q <= size[i]; ++q) if (size[i] % q == 0) dv.push_back(q); b.size[i] = s.pick(dv); }
			}
			for (int i = 0; i < b.n() * ch; ++i) b.v.push_back(cst());
			n.op = s.pick(std::vector<std::string>{"+bias", "-bias", "*bias", "/bias"});
			int bi = -1;
			for (size_t i = 0; i < vals.size(); ++i) {
				if (loss_nodes.count((int)i) || vals[i].channel() != ch || !same_ints(sizes_of(vals[i]), b.size)) continue;
				bool zero = false;
				if (n.op == "/bias") for (double v : values(vals[i])) zero |= std::fabs(v) < 0.1;
				if (!zero) bi = (int)i;
			}
			if (bi < 0 || s.coin()) bi = another_leaf(n, b);
			n.args.push_back(bi);
		} else if (kind == 6) {	// product or convolution
			bool product = nd == 2 && s.coin();
			int m = (int)s.range(1, 3);
			Model b{mt_F64, product ? ch : ch * m, size, Vals()};
			if (product) { b.size = {size[1], m}; n.op = "mul"; }
			else { n.op = "conv"; for (auto& x : b.size) x = (int)s.range(1, std::min(x, 3)); if (s.coin()) for (int i = 0; i < nd; ++i) n.p.push_back((int)s.range(1, 3)); }
			for (int i = 0; i < b.n() * b.ch; ++i) b.v.push_back(cst());
			std::vector<int> ok;
			for (size_t i = 0; i < vals.size(); ++i) {
				const mt_mat& v = vals[i];
				bool fits = !loss_nodes.count((int)i) && v.dim() == nd && (product ? v.channel() == ch && v.size()[0] == size[1] : v.channel() % ch == 0);
				if (fits && !product) for (int d = 0; d < nd; ++d) if (v.size()[d] > size[d]) fits = false;
				if (fits) ok.push_back((int)i);
			}
			n.args.push_back(ok.empty() || s.coin() ? another_leaf(n, b) : s.pick(ok));
		} else if (kind == 4 && k > 0) {	// loss, the end of the computation most of the time
			bool logs = nd == 2 && ch == 1 && hi < 6 && lo > -6 && s.coin();
			Model lab{mt_F64, ch, size, Vals()};
			if (logs) {
				AdNode act;
				act.op = "activate";
				act.args.push_back(ai);
				act.p.push_back(size[1] == 1 ? mt_Activate_Type_Sigmoid : mt_Activate_Type_Softmax);
				mt_mat r = ad_apply(act, vals);
				vals.push_back(r);
				prog.push_back(act);
				n.args[0] = (int)vals.size() - 1;
				loss_nodes.insert(n.args[0]);
				lab.v.assign(lab.n(), 0);
				for (int r0 = 0; r0 < size[0]; ++r0) { if (s.chance(1, 6)) for (int c0 = 0; c0 < size[1]; ++c0) lab.v[r0 * size[1] + c0] = NAN; else if (size[1] == 1) lab.v[r0] = (double)s.draw(2); else lab.v[r0 * size[1] + s.draw(size[1])] = 1; }
				n.p.push_back(mt_Loss_Type_Logarithmic);
			} else {
				for (int i = 0; i < lab.n() * ch; ++i) lab.v.push_back(s.chance(1, 8) ? NAN : s.real(-1, 1, 101));
				n.p.push_back(mt_Loss_Type_Quadratic);
			}
			n.op = "loss";
			n.aux = lay_out(s, lab).m;
			ended = s.chance(2, 3);
		} else {	// moving elements
			int form = (int)s.draw(8);
			if (form == 0) {
				n.op = "reshape";
				int total = count(size) * ch;
				std::vector<int> cs;
				for (int q = 1; q <= total; ++q) if (total % q == 0) cs.push_back(q);
				int nc = s.coin() ? ch : s.pick(cs);
				n.p = {nc};
				int left = total / nc, dims = (int)s.range(1, 3);
				for (int d = 0; d < dims; ++d) {
					std::vector<int> dv;
					for (int q = 1; q <= left; ++q) if (left % q == 0) dv.push_back(q);
					int q = d == dims - 1 ? left : s.pick(dv);
					n.p.push_back(q);
					left /= q;
				}
				if (!a.is_continuous() || !a.is_step_positive()) n.op = "clone";
			} else if (form == 1) {
				n.op = "repeat";
				n.p.push_back((int)s.range(1, 2));
				for (int i = 0; i < nd; ++i) n.p.push_back((int)s.range(1, 2));
				if (count(size) * ch * count(n.p) > 60) n.op = "clone";
			} else if (form == 2) { if (s.coin()) { n.op = "flip"; for (int i = 0; i < nd; ++i) n.p.push_back((int)s.draw(2)); } else { n.op = "flip dim"; n.p.push_back((int)s.draw(nd)); } }
			else if (form == 3) { n.op = "sub"; for (int i = 0; i < nd; ++i) { int lo2 = (int)s.draw(size[i]); n.p.push_back(lo2); n.p.push_back((int)s.range(lo2 + 1, size[i])); } }
			else if (form == 4) { n.op = "sub_channel"; int c0 = (int)s.draw(ch); n.p = {c0, (int)s.range(c0 + 1, ch)}; }
			else if (form == 5) { n.op = "sub_stride"; for (int i = 0; i < nd; ++i) n.p.push_back((int)s.range(1, 2)); }
			else if (form == 6) { n.op = "expand"; for (int i = 0; i < 2 * nd; ++i) n.p.push_back((int)s.draw(2)); n.c.push_back(cst()); }
			else {
				n.op = "pooling";
				n.p.push_back(s.pick(std::vector<int>{mt_Pooling_Type_Mean, mt_Pooling_Type_Max, mt_Pooling_Type_Min, mt_Pooling_Type_Sum, mt_Pooling_Type_First_Value}));
				Vals sorted = av;
				std::sort(sorted.begin(), sorted.end());
				for (size_t i = 1; i < sorted.size(); ++i) if ((n.p[0] == mt_Pooling_Type_Max || n.p[0] == mt_Pooling_Type_Min) && sorted[i] - sorted[i - 1] < 1e-3) n.p[0] = mt_Pooling_Type_Mean;
				for (int i = 0; i < nd; ++i) n.p.push_back((int)s.range(1, 3));
				for (int i = 0; i < nd; ++i) n.p.push_back((int)s.range(1, 3));
			}
			if (loss_nodes.count(n.args[0])) n.op = "";
		}
		if ((loss_nodes.count(n.args[0]) != 0) != (n.op == "loss" && n.p[0] == mt_Loss_Type_Logarithmic)) continue;
		mt_mat r = ad_apply(n, vals);
		bool bad = false;
		if (count(sizes_of(r)) * r.channel() > 60) bad = true;
		if (!bad) for (double v : values(r)) if (!(std::fabs(v) < 60)) bad = true;
		if (bad && n.op != "loss") continue;
		if (bad) throw pbt::Discard();
		vals.push_back(r);
		prog.push_back(n);
	}
	if (prog.empty()) throw pbt::Discard();
	nl = (int)leaves.size();
	int total = nl + (int)prog.size();
	bool f32 = s.chance(1, 4);

	// the library's own record
	std::unique_ptr<mt_auto_derivative> ad(s.coin() ? new mt_auto_derivative() : new mt_auto_derivative((i32)s.range(1, 3)));
	std::vector<mt_mat> rec;
	bool at_once = s.chance(1, 3);
	auto record = [&]() {
		rec.clear();
		for (int i = 0; i < nl; ++i) {
			mt_mat m = f32 ? laid[i].m.convert(mt_F32) : laid[i].m;
			rec.push_back(m);
		}
		if (at_once) ad->attach(rec); else for (auto& m : rec) ad->attach(m);
		for (auto& n : prog) {
			AdNode t = n;
			if (f32 && !t.aux.is_empty()) t.aux = t.aux.convert(mt_F32);
			rec.push_back(ad_apply(t, rec));
		}
	};
	auto run = [&](int at, int el, double d, std::vector<mt_mat>& out) {	// the program, element el of matrix `at` moved by d
		out.clear();
		for (int i = 0; i < total; ++i) {
			mt_mat m = i < nl ? laid[i].m.clone() : ad_apply(prog[i - nl], out);
			if (i == at) {
				m = m.clone();
				f64* p = (f64*)m.data();
				p[el] += d;
			}
			out.push_back(m);
		}
	};
	std::string text = ad_text(prog, leaves) + (f32 ? "\n in single precision" : "");
	record();
	if (s.want_note()) s.note(text);
	// the values themselves are not changed by recording
	std::vector<mt_mat> plain;
	run(-1, 0, 0, plain);
	for (int i = 0; i < total; ++i) {
		Model w = model_of(plain[i]);
		if (f32) w.depth = mt_F32;
		expect(rec[i], w, pbt::strf("value of m%d while recording", i) + text, f32 ? 1e-3 : 1e-12, f32 ? 1e-3 : 1e-12);
	}
	int queries = (int)s.range(1, 4);
	bool nontriv = false;
	for (int q = 0; q < queries; ++q) {
		if (s.chance(1, 8)) { ad->reset(); record(); s.label("recorded anew"); }
		std::vector<int> srcs, targets;
		int ns = s.chance(1, 3) ? 2 : 1, nt = s.chance(1, 3) ? 2 : 1;
		for (int i = 0; i < ns; ++i) srcs.push_back(s.chance(2, 3) ? total - 1 : (int)s.range(nl, total - 1));
		for (int i = 0; i < nt; ++i) {
			int t = s.chance(2, 3) ? (int)s.draw(nl) : (int)s.draw(total);
			targets.push_back(t);
		}
		// which matrices depend on which; an earlier matrix that covers the same elements stands for a later one
		auto depends = [&](int t, int f) {
			std::vector<char> d(total, 0);
			d[t] = 1;
			for (int i = nl; i < total; ++i) for (int a : prog[i - nl].args) if (d[a] && i > t) d[i] = 1;
			return d[f] != 0;
		};
		bool skip = false;
		for (int x : srcs) { if (loss_nodes.count(x)) skip = true; for (int i = 0; i < total; ++i) if (i != x && rec[i].is_same(rec[x])) skip = true; }
		for (int x : targets) { if (loss_nodes.count(x)) skip = true; for (int i = 0; i < total; ++i) if (i != x && rec[i].is_same(rec[x])) skip = true; for (int f : srcs) if (!depends(x, f)) skip = true; }
		for (int x : targets) for (int i = 0; i < total; ++i) for (int j = i + 1; j < total; ++j) if (rec[i].is_same(rec[j]) && depends(i, x) && depends(x, j)) skip = true;
		if (skip) {
			if (targets.size() == 1 && srcs.size() == 1 && !depends(targets[0], srcs[0]) && !loss_nodes.count(srcs[0])) {
				bool twin = false;
				for (int i = 0; i < total; ++i) if (i != targets[0] && rec[i].is_same(rec[targets[0]])) twin = true;
				if (!twin) {
					s.label("unrelated target");
					mt_mat g = rec[srcs[0]].derivative(rec[targets[0]]);
					CHECK_THAT(g.is_empty(), "the derivative of m%d by m%d, which it does not depend on, is %s%s", srcs[0], targets[0], show(g).c_str(), text.c_str());
				}
			}
			continue;
		}
		std::vector<mt_mat> got;
		std::vector<mt_mat> tm, sm;
		for (int t : targets) tm.push_back(rec[t]);
		for (int f : srcs) sm.push_back(rec[f]);
		if (nt == 1 && ns == 1) got.push_back(s.coin() ? ad->derivative(tm[0], sm[0]) : sm[0].derivative(tm[0]));
		else if (nt == 1) got.push_back(ad->derivative(tm[0], sm));
		else if (ns == 1) { if (s.coin()) ad->derivative(got, tm, sm[0]); else got = ad->derivative(tm, sm[0]); }
		else { if (s.coin()) ad->derivative(got, tm, sm); else got = ad->derivative(tm, sm); }
		CHECK_THAT(got.size() == tm.size() && ad->stage() == mt_auto_derivative::Stage_Record_Computing, "derivatives by %d matrices: %d results, stage %d%s", nt, (int)got.size(), (int)ad->stage(), text.c_str());
		for (int j = 0; j < nt; ++j) {
			int t = targets[j];
			std::string what = pbt::strf("query %d: derivative of", q);
			for (int f : srcs) what += pbt::strf(" m%d", f);
			what += pbt::strf(" by m%d", t);
			Model w = model_of(plain[t]);
			CHECK_THAT(!got[j].is_empty(), "%s is empty%s", what.c_str(), text.c_str());
			Vals g = values(got[j]);
			CHECK_THAT(got[j].channel() == w.ch && same_ints(sizes_of(got[j]), w.size) && got[j].depth() == (f32 ? mt_F32 : mt_F64), "%s is %s, m%d is %s%s", what.c_str(), show(got[j]).c_str(), t, w.text().c_str(), text.c_str());
			for (int e = 0; e < (int)g.size(); ++e) {
				const double h = 1e-5;
				std::vector<mt_mat> up, down;
				run(t, e, h, up);
				run(t, e, -h, down);
				double fp = 0, fm = 0, f0 = 0;
				for (int f : srcs) { fp += sum_of(up[f]); fm += sum_of(down[f]); f0 += sum_of(plain[f]); }
				double right = (fp - f0) / h, left = (f0 - fm) / h, mid = (fp - fm) / (2 * h);
				double tol = (f32 ? 2e-3 * (3 + std::fabs(mid)) : 1e-4 * (1 + std::fabs(mid))) + std::fabs(right - left);
				CHECK_THAT(std::fabs(g[e] - mid) <= tol, "%s at element %d: %.9g, difference quotients %.9g, %.9g%s", what.c_str(), e, g[e], left, right, text.c_str());
			}
			int uses = 0;
			bool several = false;
			for (auto& n : prog) { int u = 0; for (int a : n.args) u += a == t; uses += u; if (u && n.args.size() > 1) several = true; }
			if (prog.size() >= 3 && (uses > 1 || several)) nontriv = true;
			// the caller may do what he likes with it
			if (s.chance(1, 3)) { mt_mat mine = got[j]; mine *= 3.0; s.label("result changed by its owner"); }
		}
	}
	for (auto& n : prog) s.label(n.op.c_str());
	if (nontriv) s.nontrivial();
	if (s.chance(1, 3)) {	// detached matrices compute what they did, unrecorded
		s.label("detached");
		bool whole = s.coin();
		if (whole) mt_auto_derivative::detach(rec);
		for (int i = 0; i < total; ++i) {
			if (!whole) mt_auto_derivative::detach(rec[i]);
			mt_mat z = rec[i] * 2.0;
			CHECK_THAT(rec[i].auto_derivative() == NULL && z.auto_derivative() == NULL, "m%d is still recorded after detach()%s", i, text.c_str());
			Model w = model_of(plain[i]);
			if (f32) w.depth = mt_F32;
			expect(rec[i], w, pbt::strf("value of m%d after detach()", i) + text, f32 ? 1e-3 : 1e-12, f32 ? 1e-3 : 1e-12);
		}
	}
	if (s.coin()) { ad.reset(); rec.clear(); }
}
