// C19: recorded histories of matrix computations, each thread with an engine of its own; every gradient against a reference built from the local derivatives.
#include "mats.h"
#include <math.h>
#include <algorithm>
#include <basicmath.h>
using namespace sim;
using mats::View; using mats::DS;
namespace {
typedef std::vector<int> Ints; typedef std::vector<double> Reals;
CaptureLogger* glog; int g_depth_mode, g_sessions, g_ops, g_cache; std::vector<int>* g_live;
struct Var { mt_mat* m; Ints s; int ch; Reals v; const unsigned char* data; Ints steps; bool used; View view; mt_mat* base; bool alone; };  // alone: the prediction of a logarithmic loss, which nothing else may use
struct Edge { int o, slot, i; double c, mag; };     // the derivative of scalar o of the result by scalar i of operand `slot`; mag bounds the terms it is the difference of
struct Node { int out; Ints in; std::vector<Edge> e; };
Ints unflat(int k, const Ints& s) { Ints x(s.size()); for (int d = (int)s.size() - 1; d >= 0; --d) { x[d] = k % s[d]; k /= s[d]; } return x; }
int flat(const Ints& x, const Ints& s) { int k = 0; for (size_t d = 0; d < s.size(); ++d) k = k * s[d] + x[d]; return k; }
int count_of(const Ints& s) { int n = 1; for (size_t i = 0; i < s.size(); ++i) n *= s[i]; return n; }
std::string text(const Ints& s) { std::string t; for (size_t i = 0; i < s.size(); ++i) t += (i ? "x" : "") + std::to_string(s[i]); return t; }

struct Session {
	mt_auto_derivative* eng; int depth; std::vector<Var> vars; std::vector<Node> nodes; std::string story; Rng& g; bool ignore;
	Session(int d, int cache) : eng(NULL), depth(d), g(rng()), ignore(false) { Sut on; eng = cache > 30 ? new mt_auto_derivative() : new mt_auto_derivative(cache); }
	const mt_mat& M(int i) const { return *vars[i].m; }
	std::string name(int i) const { return "m" + std::to_string(i); }
	void say(const std::string& t) { story += t + "; "; if (verbose()) note("%s", t.c_str()); }
	void read(Var& x) { Quiet q; const mt_mat& m = *x.m; int n = count_of(x.s); View w; w.sizes = x.s; w.depth = depth; w.ch = x.ch; x.v.resize((size_t)n * x.ch); for (int k = 0; k < n; ++k) { const unsigned char* p = mats::at(m, w, k); if (!heap_owns(p, w.elem())) violation("wrong-result", "element %d of a result lies outside live memory, after %s", k, story.c_str()); for (int c = 0; c < x.ch; ++c) x.v[k * x.ch + c] = mats::get(depth, p + c * DS[depth]); } }
	void shape(const mt_mat& m, const Ints& s, int ch, const char* what) { Quiet q; View w; w.sizes = s; w.depth = depth; w.ch = ch; std::string d = mats::shape_diff(m, w); if (!d.empty()) violation("wrong-result", "%s: %s instead of %s with %d channels, after %s", what, d.c_str(), text(s).c_str(), ch, story.c_str()); }
	void attach(mt_mat& m) { Sut on; if (g.below(2)) eng->attach(m); else m.attach(eng); }
	// A new matrix with values k/8 (positive, or any but 0), in a layout of its own; its memory is `base`.
	int leaf(const Ints& s, int ch, bool positive, bool view = true) {
		Quiet q; Var x; x.s = s; x.ch = ch; x.used = x.alone = false; int D = (int)s.size(); Ints lo(D, 0), bs = s, perm(D); for (int d = 0; d < D; ++d) perm[d] = d; int extra = 0; bool plain = !view || g.below(2); std::vector<int> fl(D, 0);
		if (!plain) { for (int d = 0; d < D; ++d) { lo[d] = g.below(2); fl[d] = g.below(4) == 0; } if (D > 1 && g.below(3) == 0) std::swap(perm[0], perm[1 + g.below(D - 1)]); extra = g.below(4) == 0 ? 1 + g.below(2) : 0; }
		for (int d = 0; d < D; ++d) bs[perm[d]] = s[d] + lo[d] + (plain ? 0 : (int)g.below(2));
		View v; v.sizes = bs; v.depth = depth; v.ch = ch + extra; v.fresh(); { Sut on; x.base = new mt_mat(D, &bs[0], mt_Depth_Channel((mt_Depth)depth, v.ch)); x.m = new mt_mat(*x.base); }
		const mt_mat& cb = *x.base; for (int k = 0; k < v.number() * v.ch; ++k) { double y = (1 + g.below(16)) / 8.0; if (!positive && g.below(2)) y = -y; mats::put(depth, (unsigned char*)cb.data() + (long)k * DS[depth], y); }
		if (!plain) { Sut on; std::vector<mt_range> r(D); for (int d = 0; d < D; ++d) { r[perm[d]].m_start = lo[d]; r[perm[d]].m_end = lo[d] + s[d]; } *x.m = x.m->sub(r); for (int d = 1; d < D; ++d) if (perm[0] == d) *x.m = x.m->swap_dim(0, d); for (int d = 0; d < D; ++d) if (fl[d]) *x.m = x.m->flip(d); if (extra) *x.m = x.m->sub_channel(extra - 1, extra - 1 + ch); }
		shape(*x.m, s, ch, "an operand"); return keep(x);
	}
	int keep(Var& x) { const mt_mat& m = *x.m; x.data = m.data(); x.steps.assign(m.step(), m.step() + m.dim()); read(x); vars.push_back(x); return (int)vars.size() - 1; }
	bool same(const Var& a, const Var& b) const { return a.data == b.data && a.s == b.s && a.steps == b.steps && a.ch == b.ch; }
	void release(int i) { Var& x = vars[i]; Sut on; delete x.m; x.m = NULL; if (x.base) { delete x.base; x.base = NULL; } }
	// The result of a computation: checks its shape, reads it, records the node.
	int result(mt_mat* r, const Ints& s, int ch, const Ints& in, std::vector<Edge>& e, const std::string& what) {
		Quiet q; say(name((int)vars.size()) + " = " + what); shape(*r, s, ch, what.c_str()); Var x; x.m = r; x.base = NULL; x.s = s; x.ch = ch; x.used = x.alone = false; int id = keep(x);
		bool bad = false; for (size_t i = 0; i < vars[id].v.size(); ++i) { double y = vars[id].v[i]; if (!(fabs(y) < 1e4)) bad = true; } for (size_t i = 0; i < e.size(); ++i) if (!(fabs(e[i].c) < 1e4)) bad = true;
		if (!ignore) for (size_t k = 0; k < in.size(); ++k) vars[in[k]].used = true; int known = -1; for (int i = 0; i < id; ++i) if ((vars[i].m || vars[i].used) && same(vars[i], vars[id])) { known = i; if (vars[i].used) break; }
		if (!bad && known >= 0 && !vars[known].used && !ignore) { say("which is " + name(known)); release(id); id = known; }   // a view from before the record
		else if (bad || known >= 0) { if (known >= 0) count("a view of everything"); release(id); return -1; }
		if (ignore) attach(*vars[id].m); else { Node n; n.out = id; n.in = in; n.e = e; nodes.push_back(n); vars[id].used = true; for (size_t k = 0; k < in.size(); ++k) vars[in[k]].used = true; if (M(id).auto_derivative() != eng) violation("not-recorded", "the result of %s does not belong to the engine, after %s", what.c_str(), story.c_str()); }
		return id;
	}
	int pick(bool (*ok)(double) = NULL) { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone) { bool y = true; if (ok) for (size_t k = 0; k < vars[i].v.size(); ++k) y &= ok(vars[i].v[k]); if (y) l.push_back((int)i); } if (l.empty()) return -1; int i = g.below(3) ? l[l.size() - 1 - g.below(std::min<size_t>(l.size(), 3))] : l[g.below(l.size())]; if (M(i).auto_derivative() != eng) attach(*vars[i].m); return i; }
	int mate(int a, bool (*ok)(double)) { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].s == vars[a].s && vars[i].ch == vars[a].ch) { bool y = true; if (ok) for (size_t k = 0; k < vars[i].v.size(); ++k) y &= ok(vars[i].v[k]); if (y) l.push_back((int)i); } if (l.empty() || g.below(3) == 0) { int i = leaf(vars[a].s, vars[a].ch, true); if (g.below(2)) attach(*vars[i].m); return i; } return l[g.below(l.size())]; }
	static bool apart(double x) { return fabs(x) >= 0.2; } static bool positive(double x) { return x >= 0.1; } static bool small(double x) { return x <= 6 && x >= -20; } static bool gentle(double x) { return fabs(x) <= 8; } static bool off_zero(double x) { return fabs(x) >= 1e-3; }
	static Edge edge(int o, int slot, int i, double c, double mag = 0) { Edge e = {o, slot, i, c, std::max(mag, fabs(c))}; return e; }
	template <class F> void moved(std::vector<Edge>& e, const Ints& s, int ch, int slot, const Var& a, F f) { int n = count_of(s); for (int k = 0; k < n; ++k) { Ints x = unflat(k, s); for (int c = 0; c < ch; ++c) { int cc = c; Ints y = x; if (f(y, cc)) e.push_back(edge(k * ch + c, slot, flat(y, a.s) * a.ch + cc, 1)); } } }

	void operate(int what) {
		std::vector<Edge> e; mt_mat* r = NULL; char b[160];
		switch (what) {
		case 0: case 1: { // two matrices
			int code = g.below(4), x = pick(), y; if (x < 0) return; y = mate(x, code == 3 ? apart : NULL); const mt_mat &p = M(x), &q = M(y); { Sut on; r = new mt_mat(code == 0 ? p + q : code == 1 ? p - q : code == 2 ? p * q : p / q); }
			for (size_t i = 0; i < vars[x].v.size(); ++i) { double u = vars[x].v[i], w = vars[y].v[i]; e.push_back(edge(i, 0, i, code < 2 ? 1 : code == 2 ? w : 1 / w)); e.push_back(edge(i, 1, i, code == 0 ? 1 : code == 1 ? -1 : code == 2 ? u : -u / (w * w))); }
			result(r, vars[x].s, vars[x].ch, {x, y}, e, name(x) + " " + "+-*/"[code] + " " + name(y)); return; }
		case 2: case 3: { // with constants
			int code = g.below(4), first = g.below(3) == 0, x = pick(first && code == 3 ? apart : NULL); if (x < 0) return; int ch = vars[x].ch, how = first ? 0 : ch <= 4 ? g.below(3) : g.below(2) * 2; Reals w; for (int c = 0; c < (how == 1 ? 4 : ch); ++c) w.push_back(how == 0 && c ? w[0] : ((int)g.below(2) * 2 - 1) * (1 + g.below(12)) / 4.0); mt_scalar sc; if (how == 1) for (int c = 0; c < 4; ++c) sc[c] = w[c]; const mt_mat& p = M(x); double k = w[0];
			{ Sut on; if (first) r = new mt_mat(code == 0 ? k + p : code == 1 ? k - p : code == 2 ? k * p : k / p); else switch (code * 3 + how) { case 0: r = new mt_mat(p + k); break; case 1: r = new mt_mat(p + sc); break; case 2: r = new mt_mat(p + w); break; case 3: r = new mt_mat(p - k); break; case 4: r = new mt_mat(p - sc); break; case 5: r = new mt_mat(p - w); break; case 6: r = new mt_mat(p * k); break; case 7: r = new mt_mat(p * sc); break; case 8: r = new mt_mat(p * w); break; case 9: r = new mt_mat(p / k); break; case 10: r = new mt_mat(p / sc); break; default: r = new mt_mat(p / w); } }
			for (size_t i = 0; i < vars[x].v.size(); ++i) { double u = vars[x].v[i], z = w[i % ch]; e.push_back(edge(i, 0, i, code == 0 ? 1 : code == 1 ? (first ? -1 : 1) : code == 2 ? z : first ? -z / (u * u) : 1 / z)); }
			const char* H[] = {"number", "scalar", "vector"}; result(r, vars[x].s, ch, {x}, e, first ? std::string("number ") + "+-*/"[code] + " " + name(x) : name(x) + " " + "+-*/"[code] + " " + H[how]); return; }
		case 4: { int x = pick(); if (x < 0) return; const mt_mat& p = M(x); int how = g.below(2); { Sut on; r = new mt_mat(how ? -p : p.clone()); } for (size_t i = 0; i < vars[x].v.size(); ++i) e.push_back(edge(i, 0, i, how ? -1 : 1)); result(r, vars[x].s, vars[x].ch, {x}, e, (how ? "-" : "a clone of ") + name(x)); return; }
		case 5: { // powers
			bool whole = g.below(2); double n = whole ? 1 + g.below(3) : (double)(int)g.below(5) / 2 - 1; int x = pick(whole ? apart : positive); if (x < 0) return; const mt_mat& p = M(x); { Sut on; r = new mt_mat(p.pow(n)); } for (size_t i = 0; i < vars[x].v.size(); ++i) e.push_back(edge(i, 0, i, n * pow(vars[x].v[i], n - 1))); snprintf(b, sizeof b, ".pow(%g)", n); result(r, vars[x].s, vars[x].ch, {x}, e, name(x) + b); return; }
		case 6: { int f = g.below(3), x = pick(f == 0 ? small : f == 1 ? positive : off_zero); if (x < 0) return; double base = g.below(2) ? mt_E : g.below(2) ? 2 : 10; const mt_mat& p = M(x); { Sut on; r = new mt_mat(f == 0 ? p.exp() : f == 1 ? p.log(base) : p.abs()); } for (size_t i = 0; i < vars[x].v.size(); ++i) { double u = vars[x].v[i]; e.push_back(edge(i, 0, i, f == 0 ? exp(u) : f == 1 ? 1 / (u * log(base)) : u > 0 ? 1 : -1)); } const char* N[] = {".exp()", ".log(%g)", ".abs()"}; snprintf(b, sizeof b, N[f], base); result(r, vars[x].s, vars[x].ch, {x}, e, name(x) + b); return; }
		case 7: { // activation
			int t = g.below(5), x = pick(t == mt_Activate_Type_Relu ? off_zero : gentle); if (x < 0) return; if (t == mt_Activate_Type_Softmax && (vars[x].s.size() != 2 || vars[x].ch != 1)) return; Reals par; if (t == mt_Activate_Type_Relu && g.below(2)) par.push_back((double)(int)g.below(7) / 4 - 0.5); if (t == mt_Activate_Type_Tanh && g.below(2)) { par.push_back(0.5 + g.below(5) / 4.0); par.push_back(0.25 + g.below(5) / 4.0); }
			const mt_mat& p = M(x); bool vec = g.below(2); { Sut on; r = new mt_mat(vec ? p.activate((mt_Activate_Type)t, par) : p.activate((mt_Activate_Type)t, (int)par.size(), par.empty() ? NULL : &par[0])); } Var y; y.m = r; y.s = vars[x].s; y.ch = vars[x].ch; shape(*r, y.s, y.ch, "an activation"); read(y);
			activation(e, t, par, vars[x], y.v); const char* N[] = {"sigmoid", "linear", "tanh", "softmax", "relu"}; result(r, vars[x].s, vars[x].ch, {x}, e, name(x) + ".activate(" + N[t] + (par.empty() ? ")" : ", " + std::to_string(par[0]) + ")")); return; }
		case 8: { // biases
			int code = g.below(4), x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), ch = vars[x].ch; Ints bs(D, 1); int style = g.below(4); for (int d = 0; d < D; ++d) { if (style == 1) bs[d] = d ? s[d] : 1; else if (style > 1) { Ints dv; for (int z = 1; z <= s[d]; ++z) if (s[d] % z == 0) dv.push_back(z); bs[d] = dv[g.below(dv.size())]; } }
			int y = -1; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].s == bs && vars[i].ch == ch && g.below(2)) { bool ok = true; for (size_t k = 0; k < vars[i].v.size(); ++k) ok &= apart(vars[i].v[k]); if (ok) y = (int)i; } if (y < 0) y = leaf(bs, ch, true);
			const mt_mat &p = M(x), &q = M(y); { Sut on; r = new mt_mat(code == 0 ? p.add_bias(q) : code == 1 ? p.substract_bias(q) : code == 2 ? p.mul_bias(q) : p.div_bias(q)); }
			for (size_t i = 0; i < vars[x].v.size(); ++i) { Ints z = unflat((int)i / ch, s); for (int d = 0; d < D; ++d) z[d] %= bs[d]; int j = flat(z, bs) * ch + (int)i % ch; double u = vars[x].v[i], w = vars[y].v[j]; e.push_back(edge(i, 0, i, code < 2 ? 1 : code == 2 ? w : 1 / w)); e.push_back(edge(i, 1, j, code == 0 ? 1 : code == 1 ? -1 : code == 2 ? u : -u / (w * w))); }
			const char* N[] = {".add_bias(", ".substract_bias(", ".mul_bias(", ".div_bias("}; result(r, s, ch, {x, y}, e, name(x) + N[code] + name(y) + ") of size " + text(bs)); return; }
		case 9: { // part of a matrix
			int x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), how = g.below(3), d = g.below(D); Ints lo(D, 0), ns = s; std::vector<mt_range> rg(D); for (int i = 0; i < D; ++i) { if (how == 0 || i == d) { lo[i] = g.below(s[i]); ns[i] = 1 + g.below(s[i] - lo[i]); } if (how == 2 && i == d) ns[i] = 1; rg[i].m_start = lo[i]; rg[i].m_end = lo[i] + ns[i]; } if (ns == s) return;
			const mt_mat& p = M(x); { Sut on; r = new mt_mat(how == 0 ? p.sub(rg) : how == 1 ? p.sub(lo[d], lo[d] + ns[d], d) : p.index(lo[d], d)); } moved(e, ns, vars[x].ch, 0, vars[x], [&](Ints& z, int&) { for (int i = 0; i < D; ++i) z[i] += lo[i]; return true; }); result(r, ns, vars[x].ch, {x}, e, name(x) + ".sub to " + text(ns) + " from " + text(lo)); return; }
		case 10: { int x = pick(); if (x < 0) return; int ch = vars[x].ch, lo = g.below(ch), n = 1 + g.below(ch - lo); if (n == ch) return; const mt_mat& p = M(x); bool one = n == 1 && g.below(2); { Sut on; r = new mt_mat(one ? p.channel_at(lo) : p.sub_channel(lo, lo + n)); } moved(e, vars[x].s, n, 0, vars[x], [&](Ints&, int& c) { c += lo; return true; }); snprintf(b, sizeof b, ".sub_channel(%d, %d)", lo, lo + n); result(r, vars[x].s, n, {x}, e, name(x) + b); return; }
		case 11: { int x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(); Ints st(D), ns(D); for (int d = 0; d < D; ++d) { st[d] = 1 + g.below(3); ns[d] = (s[d] - 1) / st[d] + 1; } const mt_mat& p = M(x); { Sut on; r = new mt_mat(p.sub_stride(D, &st[0])); } moved(e, ns, vars[x].ch, 0, vars[x], [&](Ints& z, int&) { for (int i = 0; i < D; ++i) z[i] *= st[i]; return true; }); result(r, ns, vars[x].ch, {x}, e, name(x) + ".sub_stride(" + text(st) + ")"); return; }
		case 12: { // turning round
			int x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), how = g.below(5), d = g.below(D); Ints f(D, 0), l; std::vector<b8> fb(D, sys_false); for (int i = 0; i < D; ++i) { f[i] = how == 3 ? 1 : how == 0 || how == 4 ? i == d : g.below(2); fb[i] = f[i] ? sys_true : sys_false; if (f[i]) l.push_back(i); } if (l.empty()) return; const mt_mat& p = M(x);
			{ Sut on; r = new mt_mat(how == 0 ? p.flip(d) : how == 1 ? p.flip(fb) : how == 2 ? p.flip(l) : how == 3 ? p.flip_all_dim() : p.flip(D, &fb[0])); } moved(e, s, vars[x].ch, 0, vars[x], [&](Ints& z, int&) { for (int i = 0; i < D; ++i) if (f[i]) z[i] = s[i] - 1 - z[i]; return true; }); const char* N[] = {".flip(dimension)", ".flip(flags)", ".flip(dimensions)", ".flip_all_dim()", ".flip(flags)"}; result(r, s, vars[x].ch, {x}, e, name(x) + N[how]); return; }
		case 13: { // another shape of the same elements
			int x = pick(); if (x < 0) return; const mt_mat& p = M(x); if (!p.is_continuous()) return; int n = count_of(vars[x].s), ch = vars[x].ch, nc = ch, k = 1 + g.below(5); bool chan = g.below(3) == 0; if (chan) { Ints dv; for (int z = 1; z <= std::min(n * ch, 8); ++z) if (n * ch % z == 0) dv.push_back(z); nc = dv[g.below(dv.size())]; n = n * ch / nc; } Ints z; for (int i = 0; i < k - 1; ++i) { Ints dv; for (int w = 1; w <= n; ++w) if (n % w == 0) dv.push_back(w); int w = dv[g.below(dv.size())]; z.push_back(w); n /= w; } z.push_back(n); if (z == vars[x].s && nc == ch) return;
			bool vec = g.below(2); { Sut on; r = new mt_mat(vec ? p.reshape(z, chan ? nc : -1) : p.reshape((int)z.size(), &z[0], chan ? nc : -1)); } for (size_t i = 0; i < vars[x].v.size(); ++i) e.push_back(edge(i, 0, i, 1)); if (!ignore && vars[x].steps.back() < 0 && nc != ch) { Var h; h.m = h.base = NULL; h.s = vars[x].s; h.ch = ch; h.data = ((const mt_mat*)r)->data(); h.steps = Ints(h.s.size()); int st = ch * DS[depth]; for (int d = (int)h.s.size() - 1; d >= 0; --d) { h.steps[d] = st; st *= h.s[d]; } h.used = true; h.alone = false; vars.push_back(h); }   // it reshapes a copy, which the engine knows
			result(r, z, nc, {x}, e, name(x) + ".reshape(" + text(z) + ", " + std::to_string(nc) + ")"); return; }
		case 14: { // margins
			int x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), ch = vars[x].ch; Ints a(D), z(D), ns(D); for (int d = 0; d < D; ++d) { a[d] = g.below(3); z[d] = g.below(3); ns[d] = s[d] + a[d] + z[d]; } if (count_of(ns) > 120 || ns == s) return; const mt_mat& p = M(x); Reals w; for (int c = 0; c < ch; ++c) w.push_back((1 + g.below(8)) / 4.0); bool vec = ch <= 4 && g.below(2); mt_scalar sc(w[0], ch > 1 ? w[1] : 0, ch > 2 ? w[2] : 0, ch > 3 ? w[3] : 0);
			{ Sut on; r = new mt_mat(vec ? p.expand(a, z, sc) : p.expand(D, &a[0], &z[0], w)); } moved(e, ns, ch, 0, vars[x], [&](Ints& y, int&) { for (int d = 0; d < D; ++d) { y[d] -= a[d]; if (y[d] < 0 || y[d] >= s[d]) return false; } return true; }); result(r, ns, ch, {x}, e, name(x) + ".expand(" + text(a) + ", " + text(z) + ")"); return; }
		case 15: { int x = pick(); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), ch = vars[x].ch, nc = g.below(3) ? 1 : 2; Ints t(D), ns(D); int only = g.below(3) == 0 ? (int)g.below(D) : -1; for (int d = 0; d < D; ++d) { t[d] = only >= 0 && d != only ? 1 : 1 + g.below(3); ns[d] = s[d] * t[d]; } if (count_of(ns) > 120 || nc * ch > 12) return; const mt_mat& p = M(x); { Sut on; r = new mt_mat(only >= 0 ? p.repeat(t[only], only, nc) : g.below(2) ? p.repeat(t, nc) : p.repeat(D, &t[0], nc)); } moved(e, ns, ch * nc, 0, vars[x], [&](Ints& y, int& c) { for (int d = 0; d < D; ++d) y[d] %= s[d]; c %= ch; return true; }); result(r, ns, ch * nc, {x}, e, name(x) + ".repeat(" + text(t) + ", " + std::to_string(nc) + ")"); return; }
		case 16: { // pooling
			int x = pick(), t = g.below(5); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), ch = vars[x].ch; Ints ks(D), st(D), es(D); long area = 1; for (int d = 0; d < D; ++d) { ks[d] = 1 + g.below(3); st[d] = g.below(3) ? 1 + g.below(3) : ks[d]; area *= ks[d]; int n = 0; for (int p = 0;; p += st[d]) { ++n; if (p + ks[d] >= s[d] || p + st[d] >= s[d]) break; } es[d] = n; } if (area > 81) return; int n = count_of(es);
			for (int k = 0; k < n; ++k) { Ints p = unflat(k, es), z(D), l; for (int w = 0; w < area; ++w) { Ints o = unflat(w, ks); bool in = true; for (int d = 0; d < D; ++d) { z[d] = p[d] * st[d] + o[d]; in &= z[d] < s[d]; } if (in) l.push_back(flat(z, s)); }
				for (int c = 0; c < ch; ++c) { int o = k * ch + c; if (t == 0 || t == 3) for (size_t j = 0; j < l.size(); ++j) e.push_back(edge(o, 0, l[j] * ch + c, t == 0 ? 1.0 / l.size() : 1)); else if (t == 4) e.push_back(edge(o, 0, l[0] * ch + c, 1)); else { int at = l[0]; bool tie = false; for (size_t j = 1; j < l.size(); ++j) { double q = vars[x].v[l[j] * ch + c], y = vars[x].v[at * ch + c]; if (q == y) tie = true; else if (t == 1 ? q > y : q < y) { at = l[j]; tie = false; } } if (tie) return; e.push_back(edge(o, 0, at * ch + c, 1)); } } }
			const mt_mat& p = M(x); bool vec = g.below(2), want = g.below(2); { Sut on; mt_mat mk; mt_Pooling_Type ty = (mt_Pooling_Type)t; r = new mt_mat(want ? (vec ? p.pooling(mk, ty, ks, st) : p.pooling(mk, ty, D, &ks[0], &st[0])) : vec ? p.pooling(ty, ks, st) : p.pooling(ty, D, &ks[0], &st[0])); } const char* N[] = {"mean", "max", "min", "sum", "first value"}; result(r, es, ch, {x}, e, name(x) + ".pooling(" + N[t] + ", " + text(ks) + ", " + text(st) + ")"); return; }
		case 17: { // several merged, along a dimension or as channels
			int x = pick(); if (x < 0) return; bool chan = g.below(2); const Ints s = vars[x].s; int D = (int)s.size(), d = g.below(D), n = 1 + g.below(4), ch = 0, at = 0; Ints in, ns = s; if (chan) ns = s; else ns[d] = 0;
			for (int k = 0; k < n; ++k) { int y; if (k == 0 || g.below(4) == 0) y = x; else { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].s.size() == s.size()) { bool ok = chan || vars[i].ch == vars[x].ch; for (int q = 0; q < D; ++q) if ((chan || q != d) && vars[i].s[q] != s[q]) ok = false; if (ok) l.push_back((int)i); } if (l.empty() || g.below(3) == 0) { Ints ls = s; if (!chan) ls[d] = 1 + g.below(3); y = leaf(ls, chan ? 1 + g.below(2) : vars[x].ch, false); } else y = l[g.below(l.size())]; } in.push_back(y); }
			for (int k = 0; k < n; ++k) { if (chan) ch += vars[in[k]].ch; else ns[d] += vars[in[k]].s[d]; } if (!chan) ch = vars[x].ch; if (ch > 12 || count_of(ns) > 120) return;
			for (int k = 0; k < n; ++k) { const Var& v = vars[in[k]]; int cnt = count_of(v.s); for (int i = 0; i < cnt; ++i) { Ints z = unflat(i, v.s); if (!chan) z[d] += at; for (int c = 0; c < v.ch; ++c) e.push_back(edge(flat(z, ns) * ch + c + (chan ? at : 0), k, i * v.ch + c, 1)); } at += chan ? v.ch : v.s[d]; }
			bool share = n > 1 && g.below(2); { Sut on; std::vector<mt_mat> l; for (int k = 0; k < n; ++k) l.push_back(M(in[k])); r = new mt_mat(chan ? mt_mat_helper::merge_align_channel(l, share ? sys_true : sys_false) : mt_mat_helper::merge_align_dim(l, d, share ? sys_true : sys_false)); } std::string t; for (int k = 0; k < n; ++k) t += (k ? ", " : "") + name(in[k]); result(r, ns, ch, in, e, (chan ? "merged channels " : "merged along " + std::to_string(d) + " ") + t); return; }
		case 18: { // the sum or product of several
			int x = pick(); if (x < 0) return; bool sum = g.below(2); int n = 1 + g.below(4); Ints in; for (int k = 0; k < n; ++k) in.push_back(k == 0 ? x : mate(x, NULL)); for (size_t i = 0; i < vars[x].v.size(); ++i) for (int k = 0; k < n; ++k) { double c = 1; if (!sum) for (int j = 0; j < n; ++j) if (j != k) c *= vars[in[j]].v[i]; e.push_back(edge(i, k, i, c)); }
			bool share = n > 1 && g.below(2); { Sut on; std::vector<mt_mat> l; for (int k = 0; k < n; ++k) l.push_back(M(in[k])); r = new mt_mat(sum ? mt_mat_helper::add(l, share ? sys_true : sys_false) : mt_mat_helper::dot(l, share ? sys_true : sys_false)); } std::string t; for (int k = 0; k < n; ++k) t += (k ? ", " : "") + name(in[k]); result(r, vars[x].s, vars[x].ch, in, e, (sum ? "the sum of " : "the product of ") + t); return; }
		case 19: { // quadratic loss against constants, some of them missing
			int x = pick(gentle); if (x < 0) return; int y = leaf(vars[x].s, vars[x].ch, false, true), ch = vars[x].ch; if (g.below(3) == 0) { Var& v = vars[y]; View w; w.sizes = v.s; w.depth = depth; w.ch = ch; const mt_mat& m = *v.m; for (int k = 0; k < count_of(v.s); ++k) if (g.below(3) == 0) mats::put(depth, (unsigned char*)mats::at(m, w, k) + g.below(ch) * DS[depth], NAN); read(v); }
			const mt_mat &p = M(x), &q = M(y); { Sut on; r = new mt_mat(p.loss(q, mt_Loss_Type_Quadratic)); } for (size_t i = 0; i < vars[x].v.size(); ++i) { double u = vars[x].v[i], w = vars[y].v[i]; if (w == w) e.push_back(edge(i % ch, 0, i, u - w, fabs(u) + fabs(w))); else e.push_back(edge(i % ch, 0, i, 0)); } vars[y].alone = true; result(r, Ints(2, 1), ch, {x, y}, e, name(x) + ".loss(quadratic)"); return; }
		case 20: { // logarithmic loss, behind sigmoid or softmax: the derivative of both together
			if (ignore) return; int x = -1; { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].ch == 1 && vars[i].s.size() == 2) { bool ok = true; for (size_t k = 0; k < vars[i].v.size(); ++k) ok &= fabs(vars[i].v[k]) <= 4; if (ok) l.push_back((int)i); } if (!l.empty()) x = l[g.below(l.size())]; if (x >= 0 && !attached(x)) attach(*vars[x].m); } if (x < 0) { Ints s(2); s[0] = 1 + g.below(4); s[1] = 1 + g.below(3); x = leaf(s, 1, false); attach(*vars[x].m); }
			int rows = vars[x].s[0], cols = vars[x].s[1]; const mt_mat& p = M(x); mt_Activate_Type t = cols == 1 ? mt_Activate_Type_Sigmoid : mt_Activate_Type_Softmax; { Sut on; r = new mt_mat(p.activate(t)); } Var yv; yv.m = r; yv.s = vars[x].s; yv.ch = 1; shape(*r, yv.s, 1, "an activation"); read(yv); activation(e, t, Reals(), vars[x], yv.v); int pr = result(r, vars[x].s, 1, {x}, e, name(x) + (cols == 1 ? ".activate(sigmoid)" : ".activate(softmax)")); if (pr < 0) return; vars[pr].alone = true;
			int y = leaf(vars[x].s, 1, false); vars[y].alone = true; { Var& v = vars[y]; View w; w.sizes = v.s; w.depth = depth; w.ch = 1; const mt_mat& m = *v.m; for (int i = 0; i < rows; ++i) { int hot = g.below(cols == 1 ? 2 : cols); bool missing = g.below(5) == 0; for (int j = 0; j < cols; ++j) mats::put(depth, (unsigned char*)mats::at(m, w, i * cols + j), missing ? NAN : cols == 1 ? hot : j == hot); } read(v); }
			const mt_mat &a = M(pr), &q = M(y); { Sut on; r = new mt_mat(a.loss(q, mt_Loss_Type_Logarithmic)); } e.clear(); for (int i = 0; i < rows * cols; ++i) { double u = vars[pr].v[i], w = vars[y].v[i]; e.push_back(edge(0, 0, i, w != w ? 0 : w == 1 ? -1 / u : cols == 1 ? 1 / (1 - u) : 0)); } result(r, Ints(2, 1), 1, {pr, y}, e, name(pr) + ".loss(logarithmic)"); return; }
		case 21: { // a product of matrices
			int x = -1; { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].s.size() == 2) l.push_back((int)i); if (!l.empty()) { x = l[g.below(l.size())]; if (!attached(x)) attach(*vars[x].m); } } if (x < 0) { Ints s(2); s[0] = 1 + g.below(4); s[1] = 1 + g.below(4); x = leaf(s, 1 + g.below(2), false); attach(*vars[x].m); }
			int ch = vars[x].ch, m = vars[x].s[0], n = vars[x].s[1], y = -1, k; { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && vars[i].s.size() == 2 && vars[i].s[0] == n && vars[i].ch == ch) l.push_back((int)i); if (!l.empty() && g.below(2)) y = l[g.below(l.size())]; } if (y < 0) { Ints s(2, n); s[1] = 1 + g.below(4); y = leaf(s, ch, false); if (g.below(2)) attach(*vars[y].m); } k = vars[y].s[1];
			const mt_mat &p = M(x), &q = M(y); { Sut on; r = new mt_mat(p.mul(q)); } Ints es(2, m); es[1] = k; for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) for (int l = 0; l < n; ++l) for (int c = 0; c < ch; ++c) { int o = (i * k + j) * ch + c, u = (i * n + l) * ch + c, w = (l * k + j) * ch + c; e.push_back(edge(o, 0, u, vars[y].v[w])); e.push_back(edge(o, 1, w, vars[x].v[u])); }
			result(r, es, ch, {x, y}, e, name(x) + ".mul(" + name(y) + ")"); return; }
		case 22: { // a convolution without borders, its kernel ordered by source or by result
			int x = pick(gentle); if (x < 0) return; const Ints s = vars[x].s; int D = (int)s.size(), ch = vars[x].ch, R = 1 + g.below(3), kch = ch * R, y = -1; bool col = g.below(3) == 0; Ints ks(D), st(D, 1), es(D); long work = (long)kch * 2; for (int d = 0; d < D; ++d) { ks[d] = 1 + g.below(std::min(s[d], 3)); if (g.below(3) == 0) st[d] = 1 + g.below(3); }
			for (size_t i = 0; i < vars.size() && g.below(2); ++i) if (vars[i].m && !vars[i].alone && (int)vars[i].s.size() == D && vars[i].ch % ch == 0 && vars[i].ch <= 12) { bool fits = true; for (int d = 0; d < D; ++d) fits &= vars[i].s[d] <= s[d]; if (fits) { y = (int)i; ks = vars[i].s; kch = vars[i].ch; R = kch / ch; break; } }
			for (int d = 0; d < D; ++d) { es[d] = (s[d] - ks[d]) / st[d] + 1; work *= es[d] * ks[d]; } if (work > 4000) return; if (y < 0) { y = leaf(ks, kch, false); if (g.below(2)) attach(*vars[y].m); }
			const mt_mat &p = M(x), &q = M(y); bool plain = st == Ints(D, 1) && g.below(2), into = g.below(2); { Sut on; mt_Conv_Kernel_Align_Type at = col ? mt_Conv_Kernel_Align_Type_Col : mt_Conv_Kernel_Align_Type_Row; if (into) { r = new mt_mat(); p.conv(*r, q, mt_Conv_Boundary_Type_Valid, at, plain ? NULL : &st[0]); } else r = new mt_mat(p.conv(q, mt_Conv_Boundary_Type_Valid, at, plain ? NULL : &st[0])); }
			int N = count_of(es), K = count_of(ks); for (int k = 0; k < N; ++k) { Ints at = unflat(k, es); for (int w = 0; w < K; ++w) { Ints o = unflat(w, ks), z(D); for (int d = 0; d < D; ++d) z[d] = at[d] * st[d] + ks[d] - 1 - o[d]; int f = flat(z, s); for (int c = 0; c < R; ++c) for (int i = 0; i < ch; ++i) { int u = f * ch + i, v = w * kch + (col ? c * ch + i : i * R + c); e.push_back(edge(k * R + c, 0, u, vars[y].v[v])); e.push_back(edge(k * R + c, 1, v, vars[x].v[u])); } } }
			result(r, es, R, {x, y}, e, name(x) + ".conv(" + name(y) + (col ? ", by result" : "") + (plain ? ")" : ", steps " + text(st) + ")")); return; }
		default: { int i = (int)g.below(vars.size()); if (vars[i].m && vars.size() > 4) { say(name(i) + " is released"); release(i); } return; }
		}
	}
	void activation(std::vector<Edge>& e, int t, const Reals& par, const Var& x, const Reals& y) {
		double al = par.size() == 2 ? par[0] : mt_Tanh_Default_Alpha, be = par.size() == 2 ? par[1] : mt_Tanh_Default_Beta, slope = par.size() == 1 ? par[0] : 0;
		if (t == mt_Activate_Type_Softmax) { int rows = x.s[0], cols = x.s[1]; for (int r = 0; r < rows; ++r) for (int o = 0; o < cols; ++o) for (int i = 0; i < cols; ++i) { double so = y[r * cols + o], si = y[r * cols + i]; e.push_back(edge(r * cols + o, 0, r * cols + i, o == i ? si * (1 - si) : -so * si, si)); } return; }
		for (size_t i = 0; i < y.size(); ++i) { double c = 1, mag = 1; switch (t) { case mt_Activate_Type_Sigmoid: c = y[i] * (1 - y[i]); mag = y[i]; break; case mt_Activate_Type_Tanh: c = al * be * (1 - y[i] * y[i] / (al * al)); mag = al * be; break; case mt_Activate_Type_Relu: c = x.v[i] > 0 ? 1 : slope; mag = fabs(c); break; } e.push_back(edge(i, 0, i, c, mag)); }
	}
	// The reference: reverse accumulation over the recorded computations. Returns whether `src` depends on `target`.
	bool reference(int target, int src, Reals& d, Reals& mag) {
		std::vector<Reals> a(vars.size()), m(vars.size()); a[src].assign(vars[src].v.size(), 1.0); m[src] = a[src];
		for (int k = (int)nodes.size() - 1; k >= 0; --k) { const Node& n = nodes[k]; if (a[n.out].empty() || n.out == target) continue; for (size_t j = 0; j < n.in.size(); ++j) if (a[n.in[j]].empty()) { a[n.in[j]].assign(vars[n.in[j]].v.size(), 0.0); m[n.in[j]] = a[n.in[j]]; } for (size_t j = 0; j < n.e.size(); ++j) { const Edge& e = n.e[j]; int i = n.in[e.slot]; a[i][e.i] += e.c * a[n.out][e.o]; m[i][e.i] += e.mag * m[n.out][e.o]; } }
		d = a[target]; mag = m[target]; return !d.empty();
	}
	bool forbidden(int t) { return vars[t].alone; }   // the prediction and the matching values of a loss have no derivative of their own
	bool attached(int i) { return M(i).auto_derivative() == eng; }
	void compare(mt_mat* r, int target, const Ints& srcs, const char* how) {
		Quiet q; const Var& T = vars[target]; Reals d(T.v.size(), 0), mag(T.v.size(), 0); bool any = false; for (size_t i = 0; i < srcs.size(); ++i) { Reals x, y; if (reference(target, srcs[i], x, y)) { any = true; for (size_t k = 0; k < d.size(); ++k) { d[k] += x[k]; mag[k] += y[k]; } } }
		std::string w = "the derivative of " + name(srcs[0]) + (srcs.size() > 1 ? " and others" : "") + " by " + name(target) + " (" + how + ")"; if (!any) { if (!r->is_empty()) violation("wrong-derivative", "%s exists, though it does not depend on it, after %s", w.c_str(), story.c_str()); return; }
		if (r->is_empty()) violation("wrong-derivative", "there is no %s, after %s", w.c_str(), story.c_str()); shape(*r, T.s, T.ch, w.c_str()); View v; v.sizes = T.s; v.depth = depth; v.ch = T.ch; const mt_mat& m = *r; double eps = depth == 8 ? 1e-4 : 1e-11; count("gradients");
		for (int k = 0; k < v.number(); ++k) { const unsigned char* p = mats::at(m, v, k); if (!heap_owns(p, v.elem())) violation("wrong-derivative", "%s lies outside live memory, after %s", w.c_str(), story.c_str()); for (int c = 0; c < T.ch; ++c) { double x = mats::get(depth, p + c * DS[depth]), y = d[k * T.ch + c]; if (!(fabs(x - y) <= eps * (1e-3 + mag[k * T.ch + c]))) violation("wrong-derivative", "%s: component %d of element %d is %.9g instead of %.9g, after %s", w.c_str(), c, k, x, y, story.c_str()); } }
		for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && m.is_memory_shared(M(i)) && block_serial(m.memory_data())) violation("wrong-derivative", "%s shares the memory of %s", w.c_str(), name((int)i).c_str());
	}
	void ask() {
		Ints live; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && attached((int)i) && !forbidden((int)i)) live.push_back((int)i); if (live.empty()) return;
		int src = g.below(3) ? live[live.size() - 1 - g.below(std::min<size_t>(3, live.size()))] : live[g.below(live.size())], how = g.below(6); Ints srcs(1, src), targets; int nt = how >= 3 ? 1 + g.below(4) : 1; for (int i = 0; i < nt; ++i) targets.push_back(live[g.below(live.size())]);
		if (how == 2 || how == 5) { int n = g.below(3); for (int i = 0; i < n; ++i) srcs.push_back(live[g.below(live.size())]); for (size_t t = 0; t < targets.size(); ++t) for (size_t i = 0; i < srcs.size(); ++i) { Reals a, b; if (!reference(targets[t], srcs[i], a, b)) { return; } } }
		mt_auto_derivative::Stage stage = eng->stage(); std::vector<mt_mat>* rs; bool old = g.below(2); { Sut on; rs = new std::vector<mt_mat>(); }
		{ Sut on; if (how == 0) rs->push_back(M(src).derivative(M(targets[0]))); else if (how == 1) rs->push_back(eng->derivative(M(targets[0]), M(src))); else { std::vector<mt_mat> t, s; for (size_t i = 0; i < targets.size(); ++i) t.push_back(M(targets[i])); for (size_t i = 0; i < srcs.size(); ++i) s.push_back(M(srcs[i])); if (how == 2) rs->push_back(eng->derivative(M(targets[0]), s)); else if (how == 3 || how == 4) { if (old) *rs = eng->derivative(t, M(src)); else eng->derivative(*rs, t, M(src)); } else if (old) *rs = eng->derivative(t, s); else eng->derivative(*rs, t, s); } }
		if (eng->stage() != stage) violation("wrong-stage", "a derivative changed the stage of the engine"); if (rs->size() != targets.size()) violation("wrong-derivative", "%zu derivatives for %zu matrices", rs->size(), targets.size());
		const char* H[] = {"from the matrix", "one", "several sources", "several", "several", "several of several sources"}; for (size_t i = 0; i < targets.size(); ++i) compare(&(*rs)[i], targets[i], srcs, H[how]);
		// the caller's own: changing it must not reach the engine
		if (g.below(2)) for (size_t i = 0; i < rs->size(); ++i) if (!(*rs)[i].is_empty()) { Sut on; (*rs)[i] += 3.5; (*rs)[i] *= 2; }
		Sut on; delete rs;
	}
	void values_hold() { Quiet q; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m) { Var x = vars[i]; read(x); const mt_mat& m = *x.m; if (m.data() != x.data) violation("operand-changed", "m%zu moved", i); for (size_t k = 0; k < x.v.size(); ++k) if (!(x.v[k] == vars[i].v[k] || (x.v[k] != x.v[k] && vars[i].v[k] != vars[i].v[k]))) violation("operand-changed", "scalar %zu of m%zu changed from %g to %g, after %s", k, i, vars[i].v[k], x.v[k], story.c_str()); } }
	void start() { int n = 1 + g.below(3); Ints s; int ch; { int D = g.below(3) ? 2 : 1 + g.below(6), k = 1; for (int d = 0; d < D; ++d) { int z = 1 + g.below(4); if (k * z > 48) z = 1; s.push_back(z); k *= z; } ch = g.below(2) ? 1 : 1 + g.below(5); } for (int i = 0; i < n; ++i) { int l = leaf(s, ch, g.below(2)); attach(*vars[l].m); } say(std::to_string(n) + " matrices of " + text(s) + " with " + std::to_string(ch) + " channels"); }
	// Steps of training: change what is there in place, begin a new record.
	void restart() {
		{ Sut on; eng->set_stage(mt_auto_derivative::Stage_Ignore); } if (g.below(2)) { Ints l; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && !vars[i].alone && !vars[i].used) l.push_back((int)i); for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m && vars[i].base) l.push_back((int)i); if (!l.empty()) { int i = l[g.below(l.size())]; Reals old = vars[i].v; { Sut on; *vars[i].m *= 0.5; } read(vars[i]); for (size_t k = 0; k < old.size(); ++k) if (!(vars[i].v[k] == old[k] * 0.5 || fabs(vars[i].v[k] - old[k] * 0.5) < 1e-44 || old[k] != old[k])) violation("wrong-result", "an update in place gives %g instead of %g", vars[i].v[k], old[k] * 0.5); } }
		{ Sut on; eng->reset(); } if (eng->stage() != mt_auto_derivative::Stage_Record_Computing) violation("wrong-stage", "the engine does not record after reset"); nodes.clear(); for (size_t i = 0; i < vars.size(); ++i) { if (vars[i].m && g.below(3) == 0 && vars.size() > 2) release((int)i); if (vars[i].m) read(vars[i]); vars[i].used = false; } say("reset");
		// views that show all of each other count as one matrix
		for (size_t i = 0; i < vars.size(); ++i) for (size_t j = 0; j < i; ++j) if (vars[i].m && vars[j].m && same(vars[i], vars[j])) release((int)i);
	}
	void finish() { if (g.below(2)) for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m) { Sut on; if (g.below(2)) mt_auto_derivative::detach(*vars[i].m); else vars[i].m->detach(); } if (g.below(2)) { for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m) release((int)i); Sut on; delete eng; } else { for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m) { Sut on; vars[i].m->detach(); } { Sut on; delete eng; } values_hold(); for (size_t i = 0; i < vars.size(); ++i) if (vars[i].m) release((int)i); } }
};
void work(int me) {
	(void)me; Rng& g = rng(); Session s(g_depth_mode == 2 ? 8 + g.below(2) : 8 + g_depth_mode, g_cache); s.start();
	for (int k = 0; k < g_sessions; ++k) {
		for (int i = 0; i < g_ops; ++i) { if (getenv("ONLY_WHAT") && g.below(2)) s.operate(atoi(getenv("ONLY_WHAT"))); else { int what = (int)param("what", 0, 28); if (what <= 23) s.operate(what); else if (what <= 26) s.ask(); else { s.ignore = !s.ignore; s.say(s.ignore ? "not recording" : "recording"); Sut on; s.eng->set_stage(s.ignore ? mt_auto_derivative::Stage_Ignore : mt_auto_derivative::Stage_Record_Computing); } } count("operations"); }
		for (int i = 0; i < 3; ++i) s.ask(); s.values_hold(); if (k + 1 < g_sessions) { s.ignore = false; s.restart(); if (s.pick() < 0) s.start(); }
	}
	s.finish();
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log); glog = log; log->keep = true;
	int nthreads = (int)param("threads", 1, 3); g_ops = (int)param("operations", 1, 16); if (param("long", 0, 30) == 30) g_ops *= 4; g_sessions = (int)param("sessions", 1, 3); g_depth_mode = (int)param("depth", 0, 2); g_cache = (int)param("cache", 1, 4); if (rng().below(2)) g_cache = 31;
	{ Sut s; mt_mat m(1, mt_U8C1); basiclog_info2("first"); } log->out.clear();
	HeapStats before = sut_heap();
	{ Threads th; for (int t = 0; t < nthreads; ++t) th.start([t] { work(t); }); th.join(); }
	for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("there is no target mat") == std::string::npos && log->out[i].find("<performance>") == std::string::npos) violation("false-error", "a legal computation logged: %s", log->out[i].c_str());
	leak_check(before, "");
	heap_check(); nontrivial(mix2(steps(), nthreads)); note("%d threads", nthreads);
}
Registrar r({"C19", run, 60000, 600000,
	"one run: 1 to 3 threads, each with a differentiation engine of its own (cache of 1 to 4 sources, or the default) and matrices of 32- or 64-bit floats, 1 to 6 dimensions, 1 to 5 channels, in layouts with margins, flips, exchanged dimensions and neighbouring channels. A history of up to 16 steps, up to 3 times with reset, update in place and reuse in between: arithmetic of matrices and of matrices and constants (an operand may occur twice), clone, pow, exp, log, abs, activations, biases, losses, parts, channels, strides, flips, reshapes, margins, repetition, pooling, merging, sums and products of several, products of matrices, convolutions, releasing matrices, computing while the engine does not record, asking for derivatives of any matrix by any other in any order, changing what is returned. Every derivative is compared with reverse accumulation over the local derivatives, within the rounding its terms allow; a matrix that does not depend on the other has none. Non-trivial: every run.",
	"basicmath/src/mt_auto_derivative.cpp, mt_auto_derivative_tree.cpp and the matrix operations they record and use (real code)", "thread scheduling, heap (simulated), log output (captured), Intel MKL (stub: reference loops for gemm and the VSL convolution)"});
}
