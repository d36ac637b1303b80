// C18: matrix computations by several threads on shared operands of every layout, against a reference over plain arrays.
#include "mats.h"
#include <math.h>
#include <algorithm>
using namespace sim;
using mats::View; using mats::DS;
namespace {
typedef std::vector<int> Ints; typedef std::vector<double> Reals;
struct Arr { Ints s; int depth, ch; Reals v; int number() const { int n = 1; for (size_t i = 0; i < s.size(); ++i) n *= s[i]; return n; } };
struct Buf { Reals v; mt_mat* base; View bv; };
struct Opd { mt_mat* m; View v; Buf* b; };
enum Kind { ANY, POSITIVE, UNIT };  // small integers (negative too where the type has them); 1..9; strictly between 0 and 1 (floats)
struct Group { Ints s; int depth, ch; std::vector<Opd> any, positive; };
std::vector<Group>* groups; int g_ops, max_elems;
bool is_float(int d) { return d >= 8; }
bool is_signed(int d) { return is_float(d) || (d & 1); }
double wrap(int depth, double x) { unsigned char b[8]; if (depth == 8) return (f32)x; if (depth == 9) return x; if (x != x) return x; basicsys::i64 i = (basicsys::i64)x; switch (depth) { case 0: return (u8)i; case 1: return (basicsys::i8)i; case 2: return (u16)i; case 3: return (i16)i; case 4: return (u32)i; case 5: return (basicsys::i32)i; case 6: return (double)(basicsys::u64)i; default: (void)b; return (double)i; } }
double draw_value(int depth, Kind k) { Rng& g = rng(); if (k == UNIT) { double u = (1 + g.below(98)) / 100.0; return depth == 8 ? (f32)u : u; } if (k == POSITIVE) return 1 + g.below(9); double x = is_signed(depth) ? (double)(int)g.below(19) - 9 : g.below(10); if (is_float(depth) && g.below(3) == 0) x += g.below(4) / 4.0; return x; }
double scalar_value(int depth, Kind k) { double x = draw_value(depth, k == UNIT ? ANY : k); return is_float(depth) ? x : floor(x); }
void write_scalar(Buf& b, int scalar, double x) { b.v[scalar] = x; mats::put(b.bv.depth, b.base->data() + (long)scalar * DS[b.bv.depth], x); }
double value(const Opd& o, int k, int c) { return o.b->v[o.v.off[k] / DS[o.v.depth] + c]; }
void set_value(Opd& o, int k, int c, double x) { write_scalar(*o.b, o.v.off[k] / DS[o.v.depth] + c, x); }
Arr arr(const Opd& o) { Arr a; a.s = o.v.sizes; a.depth = o.v.depth; a.ch = o.v.ch; for (size_t k = 0; k < o.v.off.size(); ++k) for (int c = 0; c < a.ch; ++c) a.v.push_back(value(o, (int)k, c)); return a; }
Arr blank(const Ints& s, int depth, int ch) { Arr a; a.s = s; a.depth = depth; a.ch = ch; a.v.assign((size_t)a.number() * ch, 0.0); return a; }
Ints unflat(int k, const Ints& s) { Ints x(s.size()); for (int d = (int)s.size() - 1; d >= 0; --d) { x[d] = k % s[d]; k /= s[d]; } return x; }
int flat(const Ints& x, const Ints& s) { int k = 0; for (size_t d = 0; d < s.size(); ++d) k = k * s[d] + x[d]; return k; }
std::string shape(const Arr& a) { std::string t; for (size_t i = 0; i < a.s.size(); ++i) t += (i ? "x" : "") + std::to_string(a.s[i]); return t + " depth " + std::to_string(a.depth) + " channels " + std::to_string(a.ch); }
std::string layout(const Opd& o) { std::string t = mats::shape(o.v) + " steps"; for (int i = 0; i < o.m->dim(); ++i) t += " " + std::to_string(((const mt_mat*)o.m)->step()[i]); return t; }
// A matrix of the given shape with a layout drawn from: margins around it, strides, flips, exchanged dimensions, neighbouring channels.
Opd make(const Ints& s, int depth, int ch, Kind kind) {
	Quiet q; Rng& g = rng(); int D = (int)s.size(); Opd o; o.b = new Buf();
	bool plain = g.below(3) == 0; Ints lo(D, 0), hi(D, 0), st(D, 1), perm(D), bs(D); for (int d = 0; d < D; ++d) perm[d] = d; bool strided = false, margins = false;
	if (!plain) {
		if (g.below(2)) for (int i = D - 1; i > 0; --i) std::swap(perm[i], perm[g.below(i + 1)]);
		if (g.below(2)) for (int d = 0; d < D; ++d) { lo[d] = g.below(2); hi[d] = g.below(3) == 0; margins |= lo[d] || hi[d]; }
		if (g.below(5) == 0) for (int d = 0; d < D; ++d) if (g.below(2)) { st[d] = 2 + g.below(2); strided = true; }
	}
	// dimension d of the result is dimension perm[d] of the base
	long n = 1; for (int d = 0; d < D; ++d) { bs[perm[d]] = (s[d] - 1) * st[d] + 1 + lo[d] + hi[d]; n *= bs[perm[d]]; }
	if (n > 3000) { margins = strided = false; for (int d = 0; d < D; ++d) { lo[d] = hi[d] = 0; st[d] = 1; bs[perm[d]] = s[d]; } }
	int clo = 0, chi = 0; if (!plain && g.below(4) == 0) { clo = g.below(3); chi = g.below(3); }
	View v; v.sizes = bs; v.depth = depth; v.ch = ch + clo + chi; v.fresh(); o.b->bv = v;
	{ Sut on; o.b->base = new mt_mat(D, &bs[0], mt_Depth_Channel((mt_Depth)depth, v.ch)); }
	o.b->v.resize((size_t)v.number() * v.ch); for (size_t i = 0; i < o.b->v.size(); ++i) write_scalar(*o.b, (int)i, draw_value(depth, kind));
	{ Sut on; o.m = new mt_mat(*o.b->base); }
	std::vector<mt_range> r(D); Ints ns = bs; bool sub_first = g.below(2);
	for (int pass = 0; pass < 2; ++pass) {
		if (sub_first == (pass == 0)) {
			if (margins) { Ints l(D); for (int d = 0; d < D; ++d) { int p = pass == 0 ? perm[d] : d; l[p] = lo[d]; r[p].m_start = lo[d]; r[p].m_end = v.sizes[p] - hi[d]; } ns = v.sizes; for (int p = 0; p < D; ++p) ns[p] = r[p].m_end - r[p].m_start; { Sut on; *o.m = o.m->sub(D, &r[0]); } v = v.map(ns, [&](Ints x) { for (int p = 0; p < D; ++p) x[p] += l[p]; return x; }); }
			if (strided) { Ints t(D); for (int d = 0; d < D; ++d) t[pass == 0 ? perm[d] : d] = st[d]; ns = v.sizes; for (int p = 0; p < D; ++p) ns[p] = (ns[p] - 1) / t[p] + 1; { Sut on; *o.m = o.m->sub_stride(D, &t[0]); } v = v.map(ns, [&](Ints x) { for (int p = 0; p < D; ++p) x[p] *= t[p]; return x; }); }
		} else {
			Ints cur(D); for (int d = 0; d < D; ++d) cur[d] = d;  // cur[d]: base dimension shown at d
			for (int d = 0; d < D; ++d) if (cur[d] != perm[d]) { int e = d; while (cur[e] != perm[d]) ++e; { Sut on; if (D == 2 && rng().below(2)) *o.m = o.m->t(); else *o.m = o.m->swap_dim(d, e); } ns = v.sizes; std::swap(ns[d], ns[e]); v = v.map(ns, [&](Ints x) { std::swap(x[d], x[e]); return x; }); std::swap(cur[d], cur[e]); }
		}
	}
	if (!plain && g.below(2)) { if (g.below(3) == 0) { { Sut on; *o.m = o.m->flip_all_dim(); } v = v.map(v.sizes, [&](Ints x) { for (int d = 0; d < D; ++d) x[d] = v.sizes[d] - 1 - x[d]; return x; }); } else for (int d = 0; d < D; ++d) if (g.below(2)) { { Sut on; *o.m = o.m->flip(d); } v = v.map(v.sizes, [&](Ints x) { x[d] = v.sizes[d] - 1 - x[d]; return x; }); } }
	if (clo || chi) { { Sut on; *o.m = o.m->sub_channel(clo, clo + ch); } v.ch = ch; for (size_t i = 0; i < v.off.size(); ++i) v.off[i] += clo * DS[depth]; }
	o.v = v; std::string d = mats::shape_diff(*o.m, v); if (!d.empty()) violation("wrong-view", "making a view of shape %s: %s", mats::shape(v).c_str(), d.c_str());
	return o;
}
void drop(Opd& o) { { Sut on; delete o.m; delete o.b->base; } Quiet q; delete o.b; o.b = NULL; o.m = NULL; }
bool near(double a, double b, double tol) { if (a == b || (a != a && b != b)) return true; if (tol == 0) return false; return fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)); }
double tolerance(int depth) { return depth == 8 ? 2e-5 : depth == 9 ? 1e-11 : 0; }
// Every element of the operand's memory, inside and outside its view, is what the model says.
void intact(const Opd& o, const char* what, const char* role) {
	Quiet q; const mt_mat& b = *o.b->base; for (size_t i = 0; i < o.b->v.size(); ++i) { double x = mats::get(o.v.depth, b.data() + i * DS[o.v.depth]); if (!near(x, o.b->v[i], 0)) violation("operand-changed", "%s changed %s (%s): component %zu of its memory is %g instead of %g", what, role, layout(o).c_str(), i, x, o.b->v[i]); }
	const mt_mat& m = *o.m; for (size_t k = 0; k < o.v.off.size(); ++k) if (mats::at(m, o.v, (int)k) != b.data() + o.v.off[k]) violation("operand-changed", "%s moved %s", what, role);
}
void values(const mt_mat& m, const Arr& e, double tol, const char* what, const Opd* a, const Opd* b) {
	View v; v.sizes = e.s; v.depth = e.depth; v.ch = e.ch; std::string d = mats::shape_diff(m, v); std::string from = a ? layout(*a) : ""; if (b) from += " and " + layout(*b);
	if (!d.empty()) violation("wrong-result", "%s of %s: %s instead of shape %s", what, from.c_str(), d.c_str(), shape(e).c_str());
	int n = e.number(); for (int k = 0; k < n; ++k) { const unsigned char* p = mats::at(m, v, k); if (!heap_owns(p, v.elem())) violation("wrong-result", "%s of %s: element %d of the result lies outside live memory", what, from.c_str(), k); for (int c = 0; c < e.ch; ++c) { double x = mats::get(e.depth, p + c * DS[e.depth]), y = e.v[k * e.ch + c]; if (!near(x, y, tol)) violation("wrong-result", "%s of %s: component %d of element %d is %.9g instead of %.9g", what, from.c_str(), c, k, x, y); } }
}
// Checks a result and releases it.
void result(mt_mat* r, const Arr& e, double tol, const char* what, const Opd* a, const Opd* b = NULL, bool may_share = false) {
	{ Quiet q; values(*r, e, tol, what, a, b); const mt_mat& cr = *r; if (!may_share) for (int i = 0; i < 2; ++i) { const Opd* o = i ? b : a; if (o && block_serial(cr.memory_data()) && cr.is_memory_shared(*o->b->base)) violation("wrong-result", "the result of %s shares the memory of its operand", what); } if (a) intact(*a, what, "its operand"); if (b) intact(*b, what, "its second operand"); }
	Sut on; delete r;
}
// After an in-place operation: the view holds `e`, everything else is untouched; then the operand gets fresh small values.
void in_place(Opd& o, const Arr& e, double tol, const char* what, const Opd* b = NULL) {
	Quiet q; values(*o.m, e, tol, what, &o, b); const mt_mat& m = *o.m; for (size_t k = 0; k < o.v.off.size(); ++k) for (int c = 0; c < e.ch; ++c) o.b->v[o.v.off[k] / DS[e.depth] + c] = mats::get(e.depth, mats::at(m, o.v, (int)k) + c * DS[e.depth]); intact(o, what, "memory outside its matrix, in"); if (b) intact(*b, what, "its second operand");
}
// A matrix made from values of a C++ type.
template <class T> void typed(int depth) {
	Rng& g = rng(); int how = g.below(sizeof(T) < 4 ? 2 : 4), rows = 1 + g.below(5), cols = 1 + g.below(9); mt_mat* r; Arr e; e.depth = depth; e.ch = 1; std::vector<T> v; auto fill = [&](int n) { for (int i = 0; i < n; ++i) { double x = scalar_value(depth, ANY); v.push_back((T)x); e.v.push_back(x); } };
	if (how == 0) { fill(cols); e.s = {1, cols}; Sut on; std::vector<T>* w = new std::vector<T>(v); r = new mt_mat(mt_mat_t<T>::read(*w)); delete w; }
	else if (how == 1) { fill(rows * cols); e.s = {rows, cols}; Sut on; std::vector<std::vector<T> >* w = new std::vector<std::vector<T> >; for (int y = 0; y < rows; ++y) w->push_back(std::vector<T>(v.begin() + y * cols, v.begin() + (y + 1) * cols)); r = new mt_mat(mt_mat_t<T>::read(*w)); delete w; }
	else if (how == 2) { static const int S[][3] = {{2, 3, 1}, {3, 1, 2}, {1, 6, 1}, {1, 1, 6}, {6, 1, 1}, {1, 2, 3}}; const int* z = S[g.below(6)]; fill(6); e.s = {z[0], z[1]}; e.ch = z[2]; Sut on; mt_mat_t<T> m(z[0], z[1], z[2]); r = new mt_mat(m.read((double)v[0], v[1], v[2], v[3], v[4], v[5])); }
	else { static const int S[][4] = {{2, 3, 1, 1}, {2, 1, 3, 1}, {1, 3, 1, 2}, {3, 1, 1, 2}, {1, 1, 2, 3}}; const int* z = S[g.below(5)]; fill(6); e.s = {z[0], z[1], z[2]}; e.ch = z[3]; Sut on; mt_mat_t<T> m(z[0], z[1], z[2], z[3]); r = new mt_mat(m.read((double)v[0], v[1], v[2], v[3], v[4], v[5])); }
	result(r, e, 0, how == 0 ? "a list of values" : how == 1 ? "rows of values" : "values one by one", NULL);
}
Ints draw_shape(int max_dims, int limit) { Rng& g = rng(); int D = 1 + g.below(max_dims), n = 1; if (g.below(2)) D = std::min(max_dims, 2 + (int)g.below(2)); Ints s; for (int i = 0; i < D; ++i) { int z = g.below(6) ? 1 + g.below(5) : 1 + g.below(1 + limit / n); if (n * z > limit) z = 1; n *= z; s.push_back(z); } return s; }
double op(int depth, int code, double a, double b) { switch (code) { case 0: return wrap(depth, a + b); case 1: return wrap(depth, a - b); case 2: return wrap(depth, a * b); default: return wrap(depth, a / b); } }
const char* OPN[] = {"+", "-", "*", "/"};
// The bytes of the element of type S at p as one of type T.
template <class S, class T> void convert_to(const unsigned char* p, unsigned char* q) { S x; memcpy(&x, p, sizeof x); T y = (T)x; memcpy(q, &y, sizeof y); }
template <class S> void convert_from(const unsigned char* p, int depth, unsigned char* q) { switch (depth) { case 0: convert_to<S, u8>(p, q); break; case 1: convert_to<S, basicsys::i8>(p, q); break; case 2: convert_to<S, u16>(p, q); break; case 3: convert_to<S, i16>(p, q); break; case 4: convert_to<S, u32>(p, q); break; case 5: convert_to<S, basicsys::i32>(p, q); break; case 6: convert_to<S, basicsys::u64>(p, q); break; case 7: convert_to<S, basicsys::i64>(p, q); break; case 8: convert_to<S, f32>(p, q); break; default: convert_to<S, f64>(p, q); } }
void convert(int from, const unsigned char* p, int to, unsigned char* q) { switch (from) { case 0: convert_from<u8>(p, to, q); break; case 1: convert_from<basicsys::i8>(p, to, q); break; case 2: convert_from<u16>(p, to, q); break; case 3: convert_from<i16>(p, to, q); break; case 4: convert_from<u32>(p, to, q); break; case 5: convert_from<basicsys::i32>(p, to, q); break; case 6: convert_from<basicsys::u64>(p, to, q); break; case 7: convert_from<basicsys::i64>(p, to, q); break; case 8: convert_from<f32>(p, to, q); break; default: convert_from<f64>(p, to, q); } }
// Any bits for integers; floats that the other type can hold the whole part of.
void draw_raw(int depth, int other, unsigned char* p) {
	Rng& g = rng(); if (!is_float(depth)) { basicsys::u64 x = g.next(); switch (g.below(5)) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 1ull << (DS[depth] * 8 - 1); break; case 3: x = (1ull << (DS[depth] * 8 - 1)) - 1; break; default: break; } memcpy(p, &x, DS[depth]); return; }
	double hi = is_float(other) ? 1e30 : ldexp(1.0, DS[other] * 8 - (other & 1)) * 0.99, x = (g.below(3) ? g.below(1000) / 1000.0 : g.below(1000)) * (g.below(3) ? 1 + g.below(100) : hi / 1000); if (x > hi) x = hi; if (is_signed(other) && g.below(2)) x = -x; mats::put(depth, p, x);
}
const char* name(char* buf, size_t n, const char* f, ...) { va_list l; va_start(l, f); vsnprintf(buf, n, f, l); va_end(l); return buf; }

void work(int me) {
	(void)me; Rng& g = rng(); char nm[96];
	for (int step = 0; step < g_ops; ++step) {
		count("operations"); int what = (int)param("what", 0, 30); if (getenv("ONLY_WHAT")) what = atoi(getenv("ONLY_WHAT")); bool fl = what == 7 || what == 8 || what == 9 || what == 18 || what == 26 || what == 27;
		// operands: from the shared groups, or of its own
		Group* gr = groups->empty() || g.below(3) == 0 ? NULL : &(*groups)[g.below(groups->size())]; if (gr && fl && !is_float(gr->depth)) gr = NULL;
		Ints s; int depth, ch; if (gr) { s = gr->s; depth = gr->depth; ch = gr->ch; } else { s = draw_shape(6, max_elems); depth = fl ? 8 + g.below(2) : g.below(10); ch = g.below(2) ? 1 : 1 + g.below(6); }
		std::vector<Opd> own; auto pick = [&](Kind k, bool mine = false) -> Opd { if (gr && !mine && k != UNIT && g.below(4)) { std::vector<Opd>& l = k == ANY ? gr->any : gr->positive; return l[g.below(l.size())]; } Opd o = make(s, depth, ch, k); own.push_back(o); return o; };
		int D = (int)s.size(); mt_mat* r = NULL;
		switch (what) {
		case 0: case 1: { int code = g.below(4); Opd a = pick(ANY), b = pick(code == 3 ? POSITIVE : ANY); const mt_mat &x = *a.m, &y = *b.m; { Sut on; r = new mt_mat(code == 0 ? x + y : code == 1 ? x - y : code == 2 ? x * y : x / y); } Arr e = arr(a), f = arr(b); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = op(depth, code, e.v[i], f.v[i]); result(r, e, 0, name(nm, sizeof nm, "matrix %s matrix", OPN[code]), &a, &b); break; }
		case 2: case 3: { // with a value, a scalar or a vector, new or in place
			int code = g.below(4), how = ch <= 4 ? g.below(3) : g.below(2) * 2; bool self = what == 3; Opd a = pick(ANY, self); Reals w; for (int c = 0; c < (how == 1 ? 4 : ch); ++c) w.push_back(how == 0 && c ? w[0] : scalar_value(depth, code == 3 ? POSITIVE : ANY)); mt_scalar sc; if (how == 1) for (int c = 0; c < 4; ++c) sc[c] = w[c];
			const mt_mat& x = *a.m; mt_mat& y = *a.m; { Sut on; if (self) { switch (code * 3 + how) { case 0: y += w[0]; break; case 1: y += sc; break; case 2: y += w; break; case 3: y -= w[0]; break; case 4: y -= sc; break; case 5: y -= w; break; case 6: y *= w[0]; break; case 7: y *= sc; break; case 8: y *= w; break; case 9: y /= w[0]; break; case 10: y /= sc; break; default: y /= w; } } else switch (code * 3 + how) { case 0: r = new mt_mat(x + w[0]); break; case 1: r = new mt_mat(x + sc); break; case 2: r = new mt_mat(x + w); break; case 3: r = new mt_mat(x - w[0]); break; case 4: r = new mt_mat(x - sc); break; case 5: r = new mt_mat(x - w); break; case 6: r = new mt_mat(x * w[0]); break; case 7: r = new mt_mat(x * sc); break; case 8: r = new mt_mat(x * w); break; case 9: r = new mt_mat(x / w[0]); break; case 10: r = new mt_mat(x / sc); break; default: r = new mt_mat(x / w); } }
			Arr e = arr(a); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = op(depth, code, e.v[i], w[i % ch]); name(nm, sizeof nm, "matrix %s%s %s", OPN[code], self ? "=" : "", how == 0 ? "number" : how == 1 ? "scalar" : "vector"); if (self) in_place(a, e, 0, nm); else result(r, e, 0, nm, &a); break; }
		case 4: { int code = g.below(5); Opd a = pick(code == 3 ? POSITIVE : ANY); double w = code == 4 ? 0 : scalar_value(depth, ANY); const mt_mat& x = *a.m; { Sut on; r = new mt_mat(code == 0 ? w + x : code == 1 ? w - x : code == 2 ? w * x : code == 3 ? w / x : -x); } Arr e = arr(a); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = op(depth, code == 4 ? 1 : code, w, e.v[i]); result(r, e, 0, code == 4 ? "- matrix" : name(nm, sizeof nm, "number %s matrix", OPN[code]), &a); break; }
		case 5: { int code = g.below(4); Opd a = pick(ANY, true), b = pick(code == 3 ? POSITIVE : ANY); { Sut on; mt_mat& y = *a.m; const mt_mat& x = *b.m; if (code == 0) y += x; else if (code == 1) y -= x; else if (code == 2) y *= x; else y /= x; } Arr e = arr(a), f = arr(b); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = op(depth, code, e.v[i], f.v[i]); in_place(a, e, 0, name(nm, sizeof nm, "matrix %s= matrix", OPN[code]), &b); break; }
		case 6: { // a bias is repeated along every dimension
			if (depth == 6 || depth == 7) break; int code = g.below(4); Opd a = pick(ANY); Ints bs(D, 1); int style = g.below(4); for (int d = 0; d < D; ++d) { if (style == 0) bs[d] = 1; else if (style == 1) bs[d] = d ? s[d] : 1; else { Ints dv; for (int z = 1; z <= s[d]; ++z) if (s[d] % z == 0) dv.push_back(z); bs[d] = dv[g.below(dv.size())]; } }
			Opd b = make(bs, depth, ch, code == 3 ? POSITIVE : ANY); own.push_back(b); const mt_mat &x = *a.m, &y = *b.m; { Sut on; r = new mt_mat(code == 0 ? x.add_bias(y) : code == 1 ? x.substract_bias(y) : code == 2 ? x.mul_bias(y) : x.div_bias(y)); }
			Arr e = arr(a), f = arr(b); int n = e.number(); for (int k = 0; k < n; ++k) { Ints p = unflat(k, s); for (int d = 0; d < D; ++d) p[d] %= bs[d]; int q = flat(p, bs); for (int c = 0; c < ch; ++c) e.v[k * ch + c] = op(depth, code, e.v[k * ch + c], f.v[q * ch + c]); } result(r, e, 0, name(nm, sizeof nm, "matrix %s bias", OPN[code]), &a, &b); break; }
		case 7: { // elementary functions
			int f = g.below(4); if (f != 3 && !is_float(depth)) break; bool self = g.below(2); double par = f == 0 ? (double)(int)g.below(5) - 1.5 + g.below(2) / 2.0 : f == 2 ? (g.below(2) ? mt_E : g.below(2) ? 2 : 10) : 0; Opd a = pick(f == 0 || f == 2 ? POSITIVE : ANY, self); const mt_mat& x = *a.m;
			{ Sut on; if (self) { if (f == 0) a.m->self_pow(par); else if (f == 1) a.m->self_exp(); else if (f == 2) a.m->self_log(par); else a.m->self_abs(); } else r = new mt_mat(f == 0 ? x.pow(par) : f == 1 ? x.exp() : f == 2 ? (par == mt_E && g.below(2) ? x.log() : x.log(par)) : x.abs()); }
			Arr e = arr(a); for (size_t i = 0; i < e.v.size(); ++i) { double z = e.v[i]; e.v[i] = wrap(depth, f == 0 ? pow(z, par) : f == 1 ? exp(z) : f == 2 ? log(z) / log(par) : fabs(z)); } const char* N[] = {"pow", "exp", "log", "abs"}; name(nm, sizeof nm, "%s%s(%g)", self ? "self_" : "", N[f], par); if (self) in_place(a, e, f == 3 ? 0 : tolerance(depth), nm); else result(r, e, f == 3 ? 0 : tolerance(depth), nm, &a); break; }
		case 8: { // activation
			int t = g.below(5); bool self = g.below(2); if (t == 3) { gr = NULL; ch = 1; s = draw_shape(1, 8); s.push_back(1 + g.below(7)); D = 2; } Reals ps; if (t == 4 && g.below(2)) ps.push_back(g.below(5) / 4.0); if (t == 2 && g.below(2)) { ps.push_back(1 + g.below(3)); ps.push_back((1 + g.below(4)) / 2.0); }
			Opd a = pick(ANY, self); const mt_mat& x = *a.m; int how = g.below(2); mt_Activate_Type ty = (mt_Activate_Type)t; int pn = (int)ps.size(); const f64* pp = pn ? &ps[0] : NULL; { Sut on; if (self) { if (how) a.m->self_activate(ty, ps); else a.m->self_activate(ty, pn, pp); } else r = new mt_mat(how ? x.activate(ty, ps) : x.activate(ty, pn, pp)); }
			Arr e = arr(a); if (t == 3) for (int i = 0; i < s[0]; ++i) { double mx = e.v[i * s[1]], sum = 0; for (int j = 0; j < s[1]; ++j) mx = std::max(mx, e.v[i * s[1] + j]); for (int j = 0; j < s[1]; ++j) sum += exp(e.v[i * s[1] + j] - mx); for (int j = 0; j < s[1]; ++j) e.v[i * s[1] + j] = exp(e.v[i * s[1] + j] - mx) / sum; }
			else for (size_t i = 0; i < e.v.size(); ++i) { double z = e.v[i]; e.v[i] = t == 0 ? 1 / (1 + exp(-z)) : t == 1 ? z : t == 2 ? (pn ? ps[0] : mt_Tanh_Default_Alpha) * tanh((pn ? ps[1] : mt_Tanh_Default_Beta) * z) : z > 0 ? z : z * (pn ? ps[0] : 0); }
			name(nm, sizeof nm, "%sactivate(%s)", self ? "self_" : "", mt_Activate_Type_Descriptions[t].c_str()); if (self) in_place(a, e, tolerance(depth), nm); else result(r, e, tolerance(depth), nm, &a); break; }
		case 9: { // loss
			Arr e; Opd a, b; if (g.below(2)) { a = pick(ANY); b = pick(ANY, true); if (g.below(4) == 0) for (size_t k = 0; k < b.v.off.size(); ++k) if (g.below(3) == 0) set_value(b, (int)k, g.below(ch), NAN); Arr x = arr(a), y = arr(b); e = blank(Ints(2, 1), depth, ch); for (size_t i = 0; i < x.v.size(); ++i) if (y.v[i] == y.v[i]) e.v[i % ch] += (x.v[i] - y.v[i]) * (x.v[i] - y.v[i]) / 2; const mt_mat &p = *a.m, &q = *b.m; { Sut on; r = new mt_mat(p.loss(q, mt_Loss_Type_Quadratic)); } result(r, e, tolerance(depth), "quadratic loss", &a, &b); break; }
			gr = NULL; ch = 1; D = 2; s = Ints(2, 1); s[0] = 1 + g.below(6); s[1] = g.below(3) ? 1 + g.below(6) : 1; a = pick(UNIT, true); b = pick(ANY, true); e = blank(Ints(2, 1), depth, 1); double eps = 2.220446049250313e-16;
			for (int i = 0; i < s[0]; ++i) { int hot = g.below(s[1] == 1 ? 2 : s[1]); bool unknown = g.below(6) == 0; for (int j = 0; j < s[1]; ++j) set_value(b, i * s[1] + j, 0, unknown ? NAN : s[1] == 1 ? hot : j == hot); if (!unknown) { double p = value(a, i * s[1] + (s[1] == 1 ? 0 : hot), 0); e.v[0] -= log((s[1] == 1 && !hot ? 1 - p : p) + eps); } }
			const mt_mat &p = *a.m, &q = *b.m; { Sut on; r = new mt_mat(p.loss(q, mt_Loss_Type_Logarithmic)); } result(r, e, tolerance(depth), "logarithmic loss", &a, &b); break; }
		case 10: case 11: { // reduction
			if (!is_float(depth)) break; int t = g.below(8), d = (int)g.below(D + 2) - 2; Arr e; Opd a = pick(ANY); Arr x = arr(a); int n = d == -2 ? ch : d == -1 ? x.number() : s[d]; if ((t == 5 || t == 7) && n < 2) t = 1; Ints es = s; int ec = ch; if (d == -2) ec = 1; else if (d == -1) es.assign(D, 1); else es[d] = 1; e = blank(es, depth, ec);
			std::vector<Reals> in(e.v.size()); int N = x.number(); for (int k = 0; k < N; ++k) for (int c = 0; c < ch; ++c) { Ints p = unflat(k, s); if (d == -1) p.assign(D, 0); else if (d >= 0) p[d] = 0; in[flat(p, es) * ec + (d == -2 ? 0 : c)].push_back(x.v[k * ch + c]); }
			for (size_t i = 0; i < in.size(); ++i) { Reals& l = in[i]; double sum = 0, var = 0, m = l.size(); for (size_t j = 0; j < l.size(); ++j) sum += l[j]; double mean = wrap(depth, sum / m); for (size_t j = 0; j < l.size(); ++j) var += (l[j] - mean) * (l[j] - mean); double y; switch (t) { case 0: y = sum; break; case 1: y = mean; break; case 2: y = *std::max_element(l.begin(), l.end()); break; case 3: y = *std::min_element(l.begin(), l.end()); break; case 4: y = var / m; break; case 5: y = var / (m - 1); break; case 6: y = sqrt(var / m); break; default: y = sqrt(var / (m - 1)); } e.v[i] = y; }
			const mt_mat& p = *a.m; { Sut on; r = new mt_mat(d == -1 && g.below(2) ? p.reduce((mt_mat::Reduce_Type)t) : p.reduce((mt_mat::Reduce_Type)t, d)); } result(r, e, t < 4 && t != 1 ? 0 : tolerance(depth), name(nm, sizeof nm, "reduce(type %d, dimension %d)", t, d), &a); break; }
		case 12: { // comparison mask
			int t = g.below(5); double yes = 1 + g.below(9), no = g.below(10); Opd a = pick(ANY), b; bool empty = g.below(3) == 0; int keep = depth; if (!empty) { if (g.below(4) == 0) { int od = g.below(10); Opd o = make(s, od, ch, ANY); if (is_float(od) && !is_float(depth)) for (size_t k = 0; k < o.b->v.size(); ++k) write_scalar(*o.b, (int)k, floor(o.b->v[k])); if (!is_signed(depth) && is_signed(od)) for (size_t k = 0; k < o.b->v.size(); ++k) write_scalar(*o.b, (int)k, fabs(o.b->v[k])); own.push_back(o); b = o; } else b = pick(ANY); }
			(void)keep; Arr x = arr(a), e = x; if (!empty) { Arr y = arr(b); e.v = y.v; } else e.v.assign(x.v.size(), 0); for (size_t i = 0; i < e.v.size(); ++i) { double p = x.v[i], q = e.v[i]; bool z = t == 0 ? p > q : t == 1 ? p < q : t == 2 ? p == q : t == 3 ? p <= q : p >= q; e.v[i] = z ? yes : no; }
			const mt_mat& p = *a.m; { Sut on; if (empty) { mt_mat none; r = new mt_mat(p.element_compared_mask(none, (mt_mat::Compare_Task)t, yes, no)); } else r = new mt_mat(p.element_compared_mask(*b.m, (mt_mat::Compare_Task)t, yes, no)); } result(r, e, 0, name(nm, sizeof nm, "element_compared_mask(task %d%s)", t, empty ? ", zeros" : ""), &a, empty ? NULL : &b); break; }
		case 13: { // expansion
			Opd a = pick(ANY); Ints l(D), h(D), es(D); int side = g.below(4); for (int d = 0; d < D; ++d) { l[d] = side == 1 ? 0 : g.below(3); h[d] = side == 2 ? 0 : g.below(3); es[d] = s[d] + l[d] + h[d]; } Arr x = arr(a), e = blank(es, depth, ch); if ((long)e.number() * ch > 6000) break; int how = ch <= 4 ? g.below(4) : 3; Reals w; for (int c = 0; c < (how == 3 ? ch : 4); ++c) w.push_back(how == 0 ? 0 : scalar_value(depth, ANY)); mt_scalar sc(w[0], w.size() > 1 ? w[1] : 0, w.size() > 2 ? w[2] : 0, w.size() > 3 ? w[3] : 0);
			for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = w[i % ch]; int n = x.number(); for (int k = 0; k < n; ++k) { Ints p = unflat(k, s); for (int d = 0; d < D; ++d) p[d] += l[d]; int q = flat(p, es); for (int c = 0; c < ch; ++c) e.v[q * ch + c] = x.v[k * ch + c]; }
			const mt_mat& p = *a.m; const Ints no; const int *pl = side == 1 ? NULL : &l[0], *ph = side == 2 ? NULL : &h[0]; { Sut on; r = new mt_mat(how == 0 ? p.expand(D, pl, ph) : how == 1 ? p.expand(D, pl, ph, sc) : how == 2 ? p.expand(side == 1 ? no : l, side == 2 ? no : h, sc) : p.expand(D, pl, ph, w)); } result(r, e, 0, "expand", &a); break; }
		case 14: case 15: { // pooling, and back
			Ints ks(D), st(D), es(D); Opd a = pick(ANY); int t = g.below(5); long area = 1; for (int d = 0; d < D; ++d) { ks[d] = 1 + g.below(3); st[d] = g.below(3) ? 1 + g.below(3) : ks[d]; if (t == 4 && g.below(2)) ks[d] = 1; area *= ks[d]; int n = 0; for (int p = 0;; p += st[d]) { ++n; if (p + ks[d] >= s[d] || p + st[d] >= s[d]) break; } es[d] = n; } if ((t == 0 || t == 3) && DS[depth] == 1 && area * 9 > 127) break; if (area > 81) break;
			Arr x = arr(a), e = blank(es, depth, ch), mask = blank(es, 5, ch); int n = e.number(); std::vector<Ints> windows(n);
			for (int k = 0; k < n; ++k) { Ints p = unflat(k, es), z(D); for (int w = 0; w < area; ++w) { Ints o = unflat(w, ks); bool in = true; for (int d = 0; d < D; ++d) { z[d] = p[d] * st[d] + o[d]; in &= z[d] < s[d]; } if (in) windows[k].push_back(flat(z, s)); }
				Ints& l = windows[k]; for (int c = 0; c < ch; ++c) { double y = x.v[l[0] * ch + c]; int at = l[0]; if (t == 0 || t == 3) { y = 0; for (size_t j = 0; j < l.size(); ++j) y += x.v[l[j] * ch + c]; if (t == 0) y = wrap(depth, y / l.size()); } else if (t == 1 || t == 2) for (size_t j = 1; j < l.size(); ++j) { double q = x.v[l[j] * ch + c]; if (t == 1 ? q > y : q < y) { y = q; at = l[j]; } } e.v[k * ch + c] = y; mask.v[k * ch + c] = at; } }
			const mt_mat& p = *a.m; mt_mat* mk; bool vec = g.below(2), want = t == 1 || t == 2 || g.below(2); { Sut on; mk = new mt_mat(); mt_Pooling_Type ty = (mt_Pooling_Type)t; r = new mt_mat(want ? (vec ? p.pooling(*mk, ty, ks, st) : p.pooling(*mk, ty, D, &ks[0], &st[0])) : vec ? p.pooling(ty, ks, st) : p.pooling(ty, D, &ks[0], &st[0])); }
			const char* N[] = {"mean", "max", "min", "sum", "first value", "index"}; { Quiet q; values(*r, e, is_float(depth) && t == 0 ? tolerance(depth) : 0, name(nm, sizeof nm, "%s pooling", N[t]), &a, NULL); if (t == 1 || t == 2) values(*mk, mask, 0, "mask of pooling", &a, NULL); }
			{ Sut on; delete r; }
			if (t == 1 || t == 2) { if (g.below(2)) { // the same places of another matrix
					Opd b = pick(ANY); Arr y = arr(b), f = e; for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) f.v[k * ch + c] = y.v[(int)mask.v[k * ch + c] * ch + c]; const mt_mat& z = *b.m; { Sut on; r = new mt_mat(vec ? z.pooling(*mk, mt_Pooling_Type_Index, ks, st) : z.pooling(*mk, mt_Pooling_Type_Index, D, &ks[0], &st[0])); } result(r, f, 0, "index pooling", &b); } }
			{ // every element of the pooled matrix goes back to the elements it came from
				Opd b = make(es, depth, ch, ANY); own.push_back(b); Arr y = arr(b), f = blank(s, depth, ch); bool idx = (t == 1 || t == 2) && g.below(3) == 0; for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) { Ints& l = windows[k]; double z = y.v[k * ch + c]; if (t == 0 || t == 3) for (size_t j = 0; j < l.size(); ++j) { double& o = f.v[l[j] * ch + c]; o = wrap(depth, o + wrap(depth, t == 0 ? z / l.size() : z)); } else { double& o = f.v[(t == 4 ? l[0] : (int)mask.v[k * ch + c]) * ch + c]; o = wrap(depth, o + z); } }
				const mt_mat& z = *b.m; mt_Pooling_Type ty = idx ? mt_Pooling_Type_Index : (mt_Pooling_Type)t; { Sut on; mt_mat none; r = new mt_mat(vec ? z.unpooling(&s[0], *mk, ty, ks, st) : z.unpooling(&s[0], *mk, ty, D, &ks[0], &st[0])); } result(r, f, is_float(depth) ? tolerance(depth) : 0, name(nm, sizeof nm, "%s unpooling", N[ty]), &b); }
			Sut on; delete mk; break; }
		case 16: { // repetition
			Opd a = pick(ANY); Ints t(D, 1), es(D); int tc = 1; bool one = g.below(3) == 0; int od = g.below(D); if (one) t[od] = 1 + g.below(3); else for (int d = 0; d < D; ++d) t[d] = 1 + (g.below(2) ? 0 : g.below(3)); if (g.below(2)) tc = 1 + g.below(3); long n = ch * tc; for (int d = 0; d < D; ++d) { es[d] = s[d] * t[d]; n *= es[d]; } if (n > 4000) break;
			Arr x = arr(a), e = blank(es, depth, ch * tc); int N = e.number(); for (int k = 0; k < N; ++k) { Ints p = unflat(k, es); for (int d = 0; d < D; ++d) p[d] %= s[d]; int q = flat(p, s); for (int c = 0; c < e.ch; ++c) e.v[k * e.ch + c] = x.v[q * ch + c % ch]; }
			const mt_mat& p = *a.m; int how = g.below(3); { Sut on; r = new mt_mat(one ? p.repeat(t[od], od, tc) : D == 2 && how == 0 ? p.repeat_2d(t[0], t[1], tc) : D == 3 && how == 0 ? p.repeat_3d(t[0], t[1], t[2], tc) : how == 1 ? p.repeat(t, tc) : p.repeat(D, &t[0], tc)); } result(r, e, 0, "repeat", &a); break; }
		case 17: { // merging, sums and products of several
			int n = 1 + g.below(4), how = g.below(4), dim = g.below(D); std::vector<Opd> l; for (int i = 0; i < n; ++i) { if (how < 2 && i && g.below(2)) { Ints z = s; int zc = ch; if (how == 0) z[dim] = 1 + g.below(4); else zc = 1 + g.below(3); Opd o = make(z, depth, zc, ANY); own.push_back(o); l.push_back(o); } else l.push_back(pick(ANY)); }
			bool share = g.below(2); if (share && n == 1) { } std::vector<mt_mat>* in; { Sut on; in = new std::vector<mt_mat>(); for (int i = 0; i < n; ++i) in->push_back(*l[i].m); r = new mt_mat(how == 0 ? mt_mat_helper::merge_align_dim(*in, dim, share) : how == 1 ? mt_mat_helper::merge_align_channel(*in, share) : how == 2 ? mt_mat_helper::add(*in, share) : mt_mat_helper::dot(*in, share)); delete in; }
			Arr e = arr(l[0]); for (int i = 1; i < n; ++i) { Arr x = arr(l[i]), o = e; if (how >= 2) for (size_t j = 0; j < e.v.size(); ++j) e.v[j] = op(depth, how == 2 ? 0 : 2, e.v[j], x.v[j]); else { if (how == 0) o.s[dim] += x.s[dim]; else o.ch += x.ch; o.v.assign((size_t)o.number() * o.ch, 0); int N = o.number(); for (int k = 0; k < N; ++k) { Ints p = unflat(k, o.s); bool first = how == 1 || p[dim] < e.s[dim]; if (how == 0) { if (!first) p[dim] -= e.s[dim]; const Arr& from = first ? e : x; int q = flat(p, from.s); for (int c = 0; c < ch; ++c) o.v[k * ch + c] = from.v[q * ch + c]; } else for (int c = 0; c < o.ch; ++c) o.v[k * o.ch + c] = c < e.ch ? e.v[k * e.ch + c] : x.v[k * x.ch + c - e.ch]; } e = o; } }
			const char* N[] = {"merge_align_dim", "merge_align_channel", "add", "dot"}; for (int i = 1; i < n; ++i) intact(l[i], N[how], "an operand"); result(r, e, 0, N[how], &l[0], NULL, share); break; }
		case 18: { // eigenvalues
			gr = NULL; D = 2; ch = 1; s = Ints(2, 1 + g.below(6)); Opd a = pick(ANY, true); int n = s[0]; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) set_value(a, i * n + j, 0, value(a, j * n + i, 0)); mt_mat *ev, *ec; const mt_mat& x = *a.m; { Sut on; ev = new mt_mat(); ec = new mt_mat(); x.symmetry_eigen(*ev, *ec); }
			{ Quiet q; View v1, v2; v1.depth = v2.depth = depth; v1.sizes = Ints(2, n); v1.sizes[0] = 1; v2.sizes = s; std::string d = mats::shape_diff(*ev, v1) + mats::shape_diff(*ec, v2); if (!d.empty()) violation("wrong-result", "symmetry_eigen: %s", d.c_str()); double tol = depth == 8 ? 2e-4 : 1e-6; for (int k = 0; k < n; ++k) { double lam = mats::get(depth, mats::at(*ev, v1, k)), up = k ? mats::get(depth, mats::at(*ev, v1, k - 1)) : lam; if (lam > up) violation("wrong-result", "symmetry_eigen: the eigenvalues are not in descending order"); for (int i = 0; i < n; ++i) { double sum = 0, dot = 0; for (int j = 0; j < n; ++j) { sum += value(a, i * n + j, 0) * mats::get(depth, mats::at(*ec, v2, k * n + j)); dot += mats::get(depth, mats::at(*ec, v2, k * n + j)) * mats::get(depth, mats::at(*ec, v2, i * n + j)); } double want = lam * mats::get(depth, mats::at(*ec, v2, k * n + i)); if (!(fabs(sum - want) <= tol * 50)) violation("wrong-result", "symmetry_eigen of %s: component %d of A times eigenvector %d is %g instead of %g", layout(a).c_str(), i, k, sum, want); if (!(fabs(dot - (i == k)) <= tol)) violation("wrong-result", "symmetry_eigen of %s: eigenvectors %d and %d have the inner product %g", layout(a).c_str(), k, i, dot); } } intact(a, "symmetry_eigen", "its operand"); }
			Sut on; delete ev; delete ec; break; }
		case 19: { // zero, equality
			Opd a = pick(ANY); const mt_mat& x = *a.m; Arr v = arr(a); bool zero; { Sut on; zero = x.is_zero(); } bool want = true; for (size_t i = 0; i < v.v.size(); ++i) want &= v.v[i] == 0; if (zero != want) violation("wrong-result", "is_zero of %s is %d", layout(a).c_str(), (int)zero);
			Opd z = make(s, depth, ch, ANY); own.push_back(z); for (size_t k = 0; k < z.v.off.size(); ++k) for (int c = 0; c < ch; ++c) set_value(z, (int)k, c, 0); bool lone = g.below(2); if (lone) set_value(z, g.below(z.v.off.size()), g.below(ch), scalar_value(depth, POSITIVE)); { Sut on; zero = z.m->is_zero(); } if (zero == lone) violation("wrong-result", "is_zero of %s is %d", layout(z).c_str(), (int)zero);
			Ints os = s; int od = depth, oc = ch; switch (g.below(6)) { case 0: os.push_back(1 + g.below(2)); break; case 1: if (D > 1) os.pop_back(); break; case 2: os[g.below(D)] += 1; break; case 3: od = g.below(10); break; case 4: oc = 1 + g.below(3); break; } Opd o = make(os, od, oc, ANY); own.push_back(o); bool same = os == s && od == depth && oc == ch, eq, ne; if (same) for (size_t k = 0; k < o.v.off.size(); ++k) for (int c = 0; c < ch; ++c) set_value(o, (int)k, c, value(a, (int)k, c)); if (same && g.below(3) == 0) { int k = g.below(o.v.off.size()), c = g.below(ch); set_value(o, k, c, value(a, k, c) == 3 ? 4 : 3); same = false; }
			{ Sut on; eq = x == *o.m; ne = *o.m != x; } if (eq != same || ne == same) violation("wrong-result", "%s == %s is %d, != the other way round is %d", layout(a).c_str(), layout(o).c_str(), (int)eq, (int)ne); intact(a, "comparing", "its operand"); break; }
		case 20: { // one element by its index
			Opd a = pick(ANY, true); int k = g.below(a.v.off.size()); Ints x = unflat(k, s), y; mt_mat& m = *a.m; const mt_mat& cm = m; Reals got; const unsigned char* at = mats::at(cm, a.v, k); { Reals tmp; Ints idx; { Sut on; cm.get(tmp, D, &x[0]); cm.get_index(idx, at); } Quiet q; got.assign(tmp.begin(), tmp.end()); y.assign(idx.begin(), idx.end()); Sut on; Reals().swap(tmp); Ints().swap(idx); }
			{ Reals g1(ch + 1, -77), g2; mt_scalar sc(-77, -77, -77, -77); bool two = D == 2 && ch <= 4, one = D == 1; { Reals tmp; Sut on; cm.get(&g1[0], D, &x[0]); if (one) { cm.get(tmp, x[0]); cm.get(&g1[0], x[0]); } if (two) sc = cm.get(x[0], x[1]); Quiet q; g2.assign(tmp.begin(), tmp.end()); Sut in2; Reals().swap(tmp); } if (g1[ch] != -77 || (one && (int)g2.size() != ch)) violation("wrong-result", "get writes more or less than %d values", ch); for (int c = 0; c < ch; ++c) if (!near(g1[c], value(a, k, c), 0) || (two && !near(sc[c], value(a, k, c), 0)) || (one && !near(g2[c], value(a, k, c), 0))) violation("wrong-result", "get of %s: component %d of element %d is %g (array)", layout(a).c_str(), c, k, g1[c]);
				int c = g.below(ch); const unsigned char *want = at + c * DS[depth], *p1, *p2, *p3 = want, *p4; { Sut on; p1 = (const unsigned char*)cm.ptr<u8>(x, c); p2 = (const unsigned char*)&cm.at<u8>(D, &x[0], c); if (D == 1) p3 = cm.ptr<u8>(x[0], c); else if (D == 2) p3 = cm.ptr<u8>(x[0], x[1], c); else if (D == 3) p3 = cm.ptr<u8>(x[0], x[1], x[2], c); p4 = (const unsigned char*)&cm.at<u8>(x, c); } if (p1 != want || p2 != want || p3 != want || p4 != want) violation("wrong-result", "the address of component %d of element %d of %s", c, k, layout(a).c_str()); }
			if ((int)got.size() != ch) violation("wrong-result", "get gives %zu values for %d channels", got.size(), ch); for (int c = 0; c < ch; ++c) if (!near(got[c], value(a, k, c), 0)) violation("wrong-result", "get of %s: component %d of element %d is %g instead of %g", layout(a).c_str(), c, k, got[c], value(a, k, c)); if (y != x) violation("wrong-result", "get_index of %s names another element than %d", layout(a).c_str(), k);
			Reals w; for (int c = 0; c < std::max(ch, 4); ++c) w.push_back(scalar_value(depth, ANY)); int how = g.below(3); if (how == 1 && ch > 4) how = 0; mt_scalar sc(w[0], w[1], w[2], w[3]); { Sut on; if (how == 0) { if (D == 2) m.set(w[0], x[0], x[1]); else if (D == 3) m.set(w[0], x[0], x[1], x[2]); else m.set(w[0], D, &x[0]); } else if (how == 1) { if (D == 2) m.set(sc, x[0], x[1]); else if (D == 3) m.set(sc, x[0], x[1], x[2]); else m.set(sc, D, &x[0]); } else m.set(&w[0], D, &x[0]); } Arr e = arr(a); for (int c = 0; c < ch; ++c) e.v[k * ch + c] = how == 0 ? w[0] : w[c]; in_place(a, e, 0, how == 0 ? "set(number, index)" : how == 1 ? "set(scalar, index)" : "set(values, index)"); break; }
		case 21: { // filling
			Opd a = pick(ANY, true); Arr e = arr(a); int how = g.below(3), n = e.number(); double from = g.below(5); if (how == 0 && (DS[depth] > 1 || from + n * ch < 127)) { bool same = g.below(2); for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) e.v[k * ch + c] = wrap(depth, same ? from + k : from + k * ch + c); { Sut on; a.m->set_incremental(from, same ? sys_true : sys_false); } in_place(a, e, 0, "set_incremental"); break; }
			if (how == 1 && D == 2) { bool left = s[0] != s[1] || g.below(2); for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) e.v[k * ch + c] = (left ? k % s[1] : s[1] - 1 - k % s[1]) == k / s[1]; { Sut on; a.m->set_eye(left ? sys_true : sys_false); } in_place(a, e, 0, "set_eye"); break; }
			Reals w; for (int c = 0; c < std::max(ch, 4); ++c) w.push_back(scalar_value(depth, ANY)); mt_scalar sc(w[0], w[1], w[2], w[3]); bool scal = ch <= 4 && g.below(2); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = w[i % ch]; { Sut on; if (scal) a.m->set(sc); else a.m->set(ch, &w[0]); } in_place(a, e, 0, scal ? "set(scalar)" : "set(values)"); break; }
		case 22: { // all channels; dimensions in another order; channels as elements
			Opd a = pick(ANY); const mt_mat& x = *a.m; Arr v = arr(a); int how = g.below(3); if (how < 2) { bool share = g.below(2); std::vector<mt_mat>* cs; { Sut on; cs = new std::vector<mt_mat>(); if (how == 0) x.split(*cs, share ? sys_true : sys_false); else x.all_channel(*cs); } { Quiet q; if ((int)cs->size() != ch) violation("wrong-result", "%zu channels instead of %d", cs->size(), ch); for (int c = 0; c < ch; ++c) { Arr e = blank(s, depth, 1); for (size_t k = 0; k < e.v.size(); ++k) e.v[k] = v.v[k * ch + c]; values((*cs)[c], e, 0, how ? "all_channel" : "split", &a, NULL); } intact(a, "split", "its operand"); } Sut on; delete cs; break; }
			int nc = 1; { Ints dv; for (int z = 1; z <= s[D - 1] * ch; ++z) if ((s[D - 1] * ch) % z == 0 && (z % ch == 0 || ch % z == 0)) dv.push_back(z); nc = dv[g.below(dv.size())]; } if (!x.is_continuous()) break; Arr e = v; e.s[D - 1] = s[D - 1] * ch / nc; e.ch = nc; { Sut on; r = new mt_mat(x.reshape_channel(nc)); } result(r, e, 0, "reshape_channel", &a, NULL, true); break; }
		case 23: { // from one type into another, at the ends of their ranges
			int to = g.below(10); Opd a = make(s, depth, ch, ANY), b = make(s, to, ch, ANY); own.push_back(a); own.push_back(b); for (size_t k = 0; k < a.v.off.size(); ++k) for (int c = 0; c < ch; ++c) { int at = a.v.off[k] / DS[depth] + c; unsigned char* p = a.b->base->data() + (long)at * DS[depth]; draw_raw(depth, to, p); a.b->v[at] = mats::get(depth, p); }
			int how = g.below(4); const mt_mat& x = *a.m; mt_mat* t = b.m; { Sut on; if (how == 0) b.m->set(x); else if (how == 1) t = new mt_mat(x.convert((mt_Depth)to)); else if (how == 2) { t = new mt_mat(); x.convert(*t, (mt_Depth)to); } else { t = new mt_mat(x.clone()); } } int td = how == 3 ? depth : to;
			{ Quiet q; View v; v.sizes = s; v.depth = td; v.ch = ch; const mt_mat& y = *t; std::string d = mats::shape_diff(y, v); if (!d.empty()) violation("wrong-result", "from depth %d into depth %d: %s", depth, td, d.c_str());
				for (size_t k = 0; k < a.v.off.size(); ++k) for (int c = 0; c < ch; ++c) { unsigned char w[8] = {0}; const unsigned char* p = mats::at(x, a.v, (int)k) + c * DS[depth]; convert(depth, p, td, w); const unsigned char* z = mats::at(y, v, (int)k) + c * DS[td]; if (memcmp(z, w, DS[td])) violation("wrong-result", "from depth %d into depth %d (%s) of %s: component %d of element %zu, %.17g, became %.17g instead of %.17g", depth, td, how ? "new" : "set", layout(a).c_str(), c, k, mats::get(depth, p), mats::get(td, z), mats::get(td, w)); if (how == 0) b.b->v[b.v.off[k] / DS[td] + c] = mats::get(td, z); } }
			intact(a, "converting", "its operand"); if (how == 0) intact(b, "set from another matrix", "memory outside its matrix"); else { Sut on; delete t; } break; }
		case 24: { // what a matrix says about itself and others; its elements one after another
			Opd a = pick(ANY), b = pick(ANY); const mt_mat &x = *a.m, &y = *b.m; int n = a.v.number(), el = DS[depth] * ch; Ints st(x.step(), x.step() + D); bool up = true, down = true, asc = true, desc = true, ones = false; int least = 0x7fffffff; for (int d = 0; d < D; ++d) { up &= st[d] >= 0; down &= st[d] <= 0; ones |= s[d] == 1; least = std::min(least, std::abs(st[d])); } for (int k = 1; k < n; ++k) { asc &= a.v.off[k] == a.v.off[0] + k * el; desc &= a.v.off[k] == a.v.off[0] - k * el; }
			int fd = g.below(D); Ints os = s; int od = depth, oc = ch; switch (g.below(5)) { case 0: os[fd] += 1; break; case 1: od = g.below(10); break; case 2: oc = 1 + g.below(6); break; case 3: os.push_back(1); break; default: break; } Opd o = make(os, od, oc, ANY); own.push_back(o); const mt_mat& z = *o.m; Ints at(D); bool in = true; for (int d = 0; d < D; ++d) { at[d] = g.below(6) ? (int)g.below(s[d]) : g.below(2) ? -1 : s[d]; in &= at[d] >= 0 && at[d] < s[d]; }
			bool same, other, flipped, part, size1, size2, mem, p, m, c, lst, val, val2; int num, es, cs, ms, cms, refs; { Sut on; mt_mat copy(x), f = x.flip(fd), u = x.front(1, fd); same = x.is_same(copy) && copy.is_same(x); other = a.m == b.m || x.is_same(y); flipped = x.is_same(f); part = u.is_same(x); size1 = x.is_same_size(z); size2 = z.is_same_size(x); mem = x.is_same_memory_size(z); p = x.is_step_positive(); m = x.is_step_negative(); c = x.is_continuous(); lst = x.is_min_abs_step_equal_element_size(); val = x.is_valid_index(D, &at[0]); val2 = x.is_valid_index(at); num = x.element_number(); es = x.element_size(); cs = x.element_channel_size(); ms = x.memory_size(); cms = x.channel_memory_size(); refs = x.reference_number(); }
			bool ss = os == s && oc == ch; if (!same || (other && a.m != b.m) || (flipped && s[fd] > 1) || (part && s[fd] > 1)) violation("wrong-result", "is_same of %s: with a copy %d, another %d, flipped %d, a part %d", layout(a).c_str(), (int)same, (int)other, (int)flipped, (int)part);
			if (size1 != ss || size2 != ss || mem != (ss && od == depth)) violation("wrong-result", "%s and %s: is_same_size %d and %d, is_same_memory_size %d", layout(a).c_str(), layout(o).c_str(), (int)size1, (int)size2, (int)mem);
			if (p != up || m != down || lst != (least == el) || (c && !asc && !desc) || (!c && (asc || desc) && !ones)) violation("wrong-result", "%s: positive steps %d, negative %d, least step %d, continuous %d", layout(a).c_str(), (int)p, (int)m, (int)lst, (int)c);
			if (val != in || val2 != in || num != n || es != el || cs != DS[depth] || ms != n * el || cms != n * DS[depth] || refs < 2) violation("wrong-result", "%s: index valid %d, %d elements of %d bytes, %d of a channel, %d in all, %d references", layout(a).c_str(), (int)val, num, es, cs, ms, refs);
			{ bool sq = g.below(2), want = true, got; Ints z(2, 1 + g.below(4)); if (!sq) z[1] = 1 + g.below(4); if (g.below(6) == 0) z.push_back(1); Opd q = make(z, depth, ch, ANY); own.push_back(q); if (z.size() == 2 && z[0] == z[1]) { if (g.below(2)) { for (int i = 0; i < z[0]; ++i) for (int j = 0; j < i; ++j) for (int c = 0; c < ch; ++c) set_value(q, i * z[0] + j, c, value(q, j * z[0] + i, c)); if (g.below(3) == 0) set_value(q, g.below(z[0] * z[0]), g.below(ch), 7); } for (int i = 0; i < z[0]; ++i) for (int j = 0; j < i; ++j) for (int c = 0; c < ch; ++c) want &= value(q, i * z[0] + j, c) == value(q, j * z[0] + i, c); } else want = false; const mt_mat& y2 = *q.m; { Sut on; got = y2.is_symmetrical(); } if (got != want) violation("wrong-result", "is_symmetrical of %s is %d", layout(q).c_str(), (int)got); intact(q, "is_symmetrical", "its matrix"); }
			{ std::vector<mt_mat>* out; { Sut on; std::vector<mt_mat> in2; in2.push_back(x); in2.push_back(z); out = new std::vector<mt_mat>(g.below(4)); mt_mat_helper::clone(*out, in2); } { Quiet q; if (out->size() != 2) violation("wrong-result", "clones of 2 matrices are %zu", out->size()); values((*out)[0], arr(a), 0, "a clone among several", &a, NULL); values((*out)[1], arr(o), 0, "a clone among several", &o, NULL); for (int i = 0; i < 2; ++i) { const mt_mat& y2 = (*out)[i]; if (y2.is_memory_shared(x) || y2.is_memory_shared(z)) violation("wrong-result", "a clone among several shares memory"); } } Sut on; delete out; }
			{ int sz = 1 + g.below(12), k = 1 + g.below(6), t = 1 + g.below(4), f, sm, va = 0, po, wf = 0, ws = 0, wv = 0, wp = 0; { Sut on; int v1[2] = {sz, 9}, v2[2] = {k, 3}, v3[2] = {t, 2}, r3[2]; f = mt_mat_helper::get_conv_result_size(sz, k, t, mt_Conv_Boundary_Type_Full); sm = mt_mat_helper::get_conv_result_size(sz, k, t, mt_Conv_Boundary_Type_Same); if (k <= sz) mt_mat_helper::get_conv_result_size(2, r3, v1, v2, v3, mt_Conv_Boundary_Type_Valid), va = r3[0]; po = mt_mat_helper::get_pooling_result_size(sz, k, t); } for (int i = 0; i < sz + k - 1; i += t) ++wf; for (int i = 0; i < sz; i += t) ++ws; for (int i = 0; i + k <= sz; i += t) ++wv; for (int i = 0;; i += t) { if (i >= sz) break; ++wp; if (i + k >= sz) break; }
				if (f != wf || sm != ws || (k <= sz && va != wv) || po != wp) violation("wrong-result", "size %d, window %d, stride %d: full %d, same %d, valid %d, pooled %d", sz, k, t, f, sm, va, po); }
			// one element after another, and block after block
			{ Ints seen, pos, idx, blk; int total, bn, bsz, bel; const unsigned char* base = a.b->base->data(); { Sut on; mt_array_element_const_iterator it(x); total = it.element_number(); for (const u8* q; (q = it.data()) != NULL;) { Quiet w; seen.push_back((int)(q - base)); idx.push_back(it.index()); pos.insert(pos.end(), it.position().begin(), it.position().end()); if ((int)seen.size() > n) break; } mt_array_memory_block_const_iterator bl(x); bn = bl.block_number(); bsz = bl.block_size(); bel = bl.block_element_number(); int at = 0; for (const u8* q; (q = bl.data()) != NULL; ++at) { Quiet w; if (bl.index() != at || (int)blk.size() >= n) { blk.push_back(-1); break; } for (int j = 0; j < bel; ++j) blk.push_back((int)(q + (long)j * bl.block_element_step() - base)); } }
				bool ok = total == n && (int)seen.size() == n && seen == a.v.off; for (int k = 0; ok && k < n; ++k) ok = idx[k] == k && Ints(pos.begin() + k * D, pos.begin() + (k + 1) * D) == unflat(k, s); if (!ok) violation("wrong-result", "the elements of %s one after another: %zu of %d, or not in their order", layout(a).c_str(), seen.size(), n); if (blk != a.v.off || bn * bel != n || (bel > 1 && bsz != bel * std::abs(st[D - 1]))) violation("wrong-result", "the blocks of %s: %d of %d elements, %d bytes", layout(a).c_str(), bn, bel, bsz); }
			{ std::vector<Ints> got; Ints idx; int sz; { Sut on; std::vector<std::vector<basicsys::i32> > all; mt_array_index_iterator it(D, &s[0]); sz = it.size(); it.all_index(all); while (it.next()) { Quiet w; idx.push_back(it.index()); got.push_back(Ints(it.position().begin(), it.position().end())); if ((int)got.size() > n) break; } Quiet w; for (size_t k = 0; k < all.size(); ++k) if (k >= got.size() || !std::equal(all[k].begin(), all[k].end(), got[k].begin())) sz = -1; if (all.size() != got.size()) sz = -1; Sut in2; std::vector<std::vector<basicsys::i32> >().swap(all); } bool ok = sz == n && (int)got.size() == n; for (int k = 0; ok && k < n; ++k) ok = idx[k] == k && got[k] == unflat(k, s); if (!ok) violation("wrong-result", "the indexes of shape %s: %zu, or not in their order", shape(arr(a)).c_str(), got.size()); }
			// copying from one layout into another, and comparing
			{ Opd t = make(s, depth, ch, ANY); own.push_back(t); bool eq, ne; Arr v = arr(a); int k = g.below(n), cc = g.below(ch); { Sut on; mt_array_iteration::array_copy(t.m->data(), x.data(), D, &s[0], t.m->step(), &st[0], el); eq = mt_array_iteration::array_cmp(((const mt_mat*)t.m)->data(), x.data(), D, &s[0], t.m->step(), &st[0], el); } in_place(t, v, 0, "array_copy", &a); double old = value(t, k, cc); set_value(t, k, cc, old == 3 ? 4 : 3); { Sut on; ne = mt_array_iteration::array_cmp(((const mt_mat*)t.m)->data(), x.data(), D, &s[0], t.m->step(), &st[0], el); } if (!eq || ne) violation("wrong-result", "array_cmp of %s with its copy %s is %d, with element %d changed %d", layout(a).c_str(), layout(t).c_str(), (int)eq, k, (int)ne); set_value(t, k, cc, old); }
			intact(a, "asking about it", "a matrix"); break; }
		case 26: { // products of matrices, channel by channel
			gr = NULL; D = 2; int m = 1 + g.below(6), k = g.below(8) ? 1 + g.below(6) : 1 + g.below(40), n = 1 + g.below(6); s = Ints(2, m); s[1] = k; Ints t(2, k); t[1] = n; Opd a = pick(ANY, true), b = make(t, depth, ch, ANY); own.push_back(b); if (g.below(8) == 0 && m == n) { } const mt_mat &x = *a.m, &y = *b.m; { Sut on; r = new mt_mat(x.mul(y)); }
			Arr p = arr(a), q = arr(b); Ints es(2, m); es[1] = n; Arr e = blank(es, depth, ch); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int c = 0; c < ch; ++c) { double z = 0; for (int l = 0; l < k; ++l) z += p.v[(i * k + l) * ch + c] * q.v[(l * n + j) * ch + c]; e.v[(i * n + j) * ch + c] = z; }
			result(r, e, tolerance(depth), "the product of matrices", &a, &b); break; }
		case 27: { // convolutions
			gr = NULL; int B = g.below(3), A = g.below(4), wide = g.below(10) == 0; s = draw_shape(4, 60); D = (int)s.size(); ch = wide ? 1 + g.below(20) : 1 + g.below(4); Ints ks(D), st(D, 1), lo(D), es(D); int kch = A < 2 ? ch * (1 + g.below(wide ? 2 : 3)) : wide ? 1 + g.below(20) : 1 + g.below(4), rch = A < 2 ? kch / ch : kch * ch;
			long work = 1; for (int d = 0; d < D; ++d) { ks[d] = 1 + g.below(B == 0 ? std::min(s[d], 4) : 4); if (g.below(3) == 0) st[d] = 1 + g.below(3); int full = s[d] + ks[d] - 1, size = B == 0 ? s[d] - ks[d] + 1 : B == 1 ? full : s[d]; lo[d] = (full - size + 1) / 2; es[d] = (size - 1) / st[d] + 1; work *= es[d] * ks[d]; } if (work * std::max(kch, rch) > 60000) break; bool strided = st != Ints(D, 1);
			Opd a = pick(ANY, true), b = make(ks, depth, kch, ANY); own.push_back(b); Arr p = arr(a), q = arr(b), e = blank(es, depth, rch); int N = e.number(), K = q.number();
			for (int k = 0; k < N; ++k) { Ints at = unflat(k, es); for (int w = 0; w < K; ++w) { Ints o = unflat(w, ks), z(D); bool in = true; for (int d = 0; d < D; ++d) { z[d] = lo[d] + at[d] * st[d] - o[d]; in &= z[d] >= 0 && z[d] < s[d]; } if (!in) continue; int f = flat(z, s); for (int c = 0; c < rch; ++c) { double& sum = e.v[k * rch + c]; if (A < 2) for (int i = 0; i < ch; ++i) sum += p.v[f * ch + i] * q.v[w * kch + (A == 0 ? i * rch + c : c * ch + i)]; else { int si = A == 2 ? c / kch : c % ch, ki = A == 2 ? c % kch : c / ch; sum += p.v[f * ch + si] * q.v[w * kch + ki]; } } } }
			const mt_mat &x = *a.m, &y = *b.m; const int* ps = strided || g.below(2) ? &st[0] : NULL; int how = g.below(6); name(nm, sizeof nm, "convolution(boundary %d, alignment %d, %s)", B, A, how < 2 ? "new" : how == 2 ? "into an empty matrix" : how == 3 ? "into its operand" : how == 4 ? "into its kernel" : "into another matrix"); mt_Conv_Boundary_Type bt = (mt_Conv_Boundary_Type)B; mt_Conv_Kernel_Align_Type at = (mt_Conv_Kernel_Align_Type)A;
			if (how == 5) { Opd t = make(es, depth, rch, ANY); own.push_back(t); { Sut on; x.conv(*t.m, y, bt, at, ps); } Quiet q2; values(*t.m, e, tolerance(depth), nm, &a, &b); if (((const mt_mat*)t.m)->data() == t.b->base->data() + t.v.off[0]) in_place(t, e, tolerance(depth), nm); intact(a, nm, "its operand"); intact(b, nm, "its kernel"); break; }
			{ Sut on; if (how < 2) r = new mt_mat(B == 0 && A == 0 && !ps && how ? x.conv(y) : x.conv(y, bt, at, ps)); else if (how == 2) { r = new mt_mat(); x.conv(*r, y, bt, at, ps); } else if (how == 3) { r = new mt_mat(x); r->conv(*r, y, bt, at, ps); } else { r = new mt_mat(y); x.conv(*r, *r, bt, at, ps); } }
			result(r, e, tolerance(depth), nm, &a, &b); break; }
		case 28: { // what a matrix says in a text
			if (!gr || D > 3) { gr = NULL; s = draw_shape(3, 60); D = (int)s.size(); } Opd a = pick(ANY); const mt_mat& x = *a.m; std::string said; { Sut on; basicsys::sys_strcombine o; o << x; std::string r2 = o; Quiet q; said = std::string(r2.c_str(), r2.size()); }
			std::string type; { mt_Depth_Channel dc = x.depth_channel(); Sut on; std::string r2 = mt_Depth_Channel::depth_channel_str(dc); Quiet q; type = std::string(r2.c_str(), r2.size()); }
			std::string shown = said.substr(0, 300); for (char& z : shown) if (z == '\n') z = '/'; else if (z < ' ') z = '?'; size_t head = said.find(type); if (head == std::string::npos) violation("wrong-text", "the text of %s does not tell its type: %s", layout(a).c_str(), shown.c_str()); const char* p = said.c_str(); std::vector<int> told; for (const char* q = p; q < p + head; ) if (isdigit((unsigned char)*q)) { char* z; told.push_back((int)strtol(q, &z, 10)); q = isalpha((unsigned char)*z) ? (told.pop_back(), z) : z; } else ++q;
			if (told.size() != s.size() || !std::equal(s.begin(), s.end(), told.begin())) violation("wrong-text", "the text of %s does not tell its sizes: %s", layout(a).c_str(), shown.c_str()); p += head + type.size(); if (isdigit((unsigned char)*p)) violation("wrong-text", "the text of %s: type and first element run into each other: %s", layout(a).c_str(), shown.c_str());
			Arr e = arr(a); int per = 1; for (int d = D - 1; d > 0 && D == 3 && d > 0; --d) per *= s[d]; per *= ch; for (size_t k = 0; k < e.v.size(); ++k) { if (D == 3 && k % per == 0) { long plane = -1; while (*p && !isdigit((unsigned char)*p)) ++p; char* z; plane = strtol(p, &z, 10); while (*z && *z != '\n') ++z; p = z; if (plane != (long)k / per) violation("wrong-text", "the text of %s has no plane %d where it belongs: %s", layout(a).c_str(), (int)k / per, shown.c_str()); }
				while (*p && !isdigit((unsigned char)*p) && *p != '-' && *p != 'n' && *p != 'i') ++p; char* z; double v = strtod(p, &z), slack = depth == 8 ? 1e-7 + 1e-6 * fabs(e.v[k]) : depth == 9 ? 1e-15 + 1e-15 * fabs(e.v[k]) : 0; if (z == p || !(fabs(v - e.v[k]) <= slack)) violation("wrong-text", "the text of %s gives %.17g for value %d, which is %.17g: %s", layout(a).c_str(), z == p ? NAN : v, (int)k, e.v[k], shown.c_str()); p = z; }
			for (; *p; ++p) if (isdigit((unsigned char)*p)) violation("wrong-text", "the text of %s has more values than elements: %s", layout(a).c_str(), shown.c_str()); intact(a, "writing it as a text", "a matrix");
			int u = (int)g.below(2001) - 1000, v = (int)g.below(2001) - 1000, w = 1 + g.below(500), h = 1 + g.below(500); char want[200]; snprintf(want, sizeof want, "[%d,%d] [%d,%d] [%d,%d,%d,%d]", u, v, u, u + w, u, v, w, h); { Sut on; basicsys::sys_strcombine o; o << mt_point(u, v) << " " << mt_range(u, u + w) << " " << mt_rect(u, v, w, h); std::string r2 = o; Quiet q; said = std::string(r2.c_str(), r2.size()); } said.erase(std::remove(said.begin(), said.end(), '\n'), said.end()); if (said != want) violation("wrong-text", "a point, a range and a rectangle are %s instead of %s", said.c_str(), want);
			break; }
		case 29: { switch (g.below(10)) { case 0: typed<u8>(0); break; case 1: typed<i8>(1); break; case 2: typed<u16>(2); break; case 3: typed<i16>(3); break; case 4: typed<basicsys::u32>(4); break; case 5: typed<basicsys::i32>(5); break; case 6: typed<basicsys::u64>(6); break; case 7: typed<basicsys::i64>(7); break; case 8: typed<f32>(8); break; default: typed<f64>(9); } break; }
		case 30: {      // a matrix too big to be addressed is refused as exhausted memory, one that fits is not
			int D = 1 + g.below(5); Ints z(D, 1); double bytes = DS[depth] * (double)ch; static const int big[] = {256, 46341, 65536, 1 << 20, 3 << 20, 1 << 30}; for (int t = 0; bytes < 2147483648.0 && t < 40; ++t) { int d = (int)g.below(D); double f = g.below(3) ? big[g.below(6)] : 2 + g.below(70000); if (z[d] * f > 2147483647.0) continue; z[d] = (int)(z[d] * f); bytes *= f; } if (bytes < 2147483648.0) break;
			int refused = 0, empty = 0, again = 0; { Sut on; mt_mat m; if (g.below(2)) m.create(3, 2, mt_U8C1); try { m.create(D, &z[0], mt_Depth_Channel((mt_Depth)depth, ch)); } catch (const std::bad_alloc&) { refused = 1; } empty = m.is_empty(); if (refused) { m.create(4, 5, mt_U8C1); m.set(7.0); again = m.at<u8>(3, 4); } }
			if (!refused) violation("too-big", "a matrix of %.0f bytes, more than sizes and steps can count, was created", bytes); if (!empty || again != 7) violation("too-big", "after a matrix of %.0f bytes was refused, %s", bytes, empty ? "the handle cannot be used again" : "the handle is not empty"); count("too_big_refused"); break; }
		default: { // a chain of new matrices: the result of one computation is the operand of the next
			if (!is_signed(depth)) break;
			Opd a = pick(ANY), b = pick(POSITIVE); Arr e = arr(a), f = arr(b); double w = scalar_value(depth, POSITIVE); const mt_mat &x = *a.m, &y = *b.m; int how = g.below(3); { Sut on; r = new mt_mat(how == 0 ? (x + y) * w - x : how == 1 ? (x * w - y).clone() + (y - x) : w - (x / y)); } for (size_t i = 0; i < e.v.size(); ++i) { double p = e.v[i], q = f.v[i]; e.v[i] = how == 0 ? op(depth, 1, op(depth, 2, op(depth, 0, p, q), w), p) : how == 1 ? op(depth, 0, op(depth, 1, op(depth, 2, p, w), q), op(depth, 1, q, p)) : op(depth, 1, w, op(depth, 3, p, q)); } result(r, e, 0, "a chain of operations", &a, &b); break; }
		}
		for (size_t i = 0; i < own.size(); ++i) drop(own[i]);
	}
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	groups = new std::vector<Group>(); int nthreads = (int)param("threads", 1, 4), ng = (int)param("groups", 0, 3); g_ops = (int)param("operations", 1, 12); max_elems = 1 + rng().below(rng().below(4) ? 30 : rng().below(30) ? 200 : 1500);
	{ Sut s; mt_mat m(1, mt_U8C1); basiclog_info2("first"); } log->out.clear();
	HeapStats before = sut_heap();
	for (int i = 0; i < ng; ++i) { Group gr; gr.s = draw_shape(6, max_elems); gr.depth = rng().below(2) ? 8 + rng().below(2) : rng().below(10); gr.ch = rng().below(2) ? 1 : 1 + rng().below(6); for (int k = 0; k < 2; ++k) { gr.any.push_back(make(gr.s, gr.depth, gr.ch, ANY)); gr.positive.push_back(make(gr.s, gr.depth, gr.ch, POSITIVE)); } groups->push_back(gr); }
	{ Threads th; for (int t = 0; t < nthreads; ++t) th.start([t] { work(t); }); th.join(); }
	for (size_t i = 0; i < groups->size(); ++i) for (int k = 0; k < 4; ++k) { Opd& o = k < 2 ? (*groups)[i].any[k] : (*groups)[i].positive[k - 2]; intact(o, "the computations", "a shared operand"); drop(o); }
	for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("[warning]") == std::string::npos && log->out[i].find("[debug]") == std::string::npos) violation("false-error", "a legal computation logged: %s", log->out[i].c_str());
	{ std::vector<Group> x; groups->swap(x); }
	leak_check(before, "");
	heap_check(); if (nthreads > 1) nontrivial(mix2(steps(), ng)); note("%d threads, %d groups", nthreads, ng);
}
Registrar r({"C18", run, 60000, 600000,
	"one run: 1 to 4 threads compute on operands they share (read-only) or own: matrices of every type, 1 to 6 dimensions, 1 to 6 channels, with layouts drawn from margins, strides, flips, exchanged dimensions and neighbouring channels. Operations: + - * / with matrices, numbers, scalars and vectors (new, in place, number first, unary minus), biases, pow/exp/log/abs, activation, losses, reductions, comparison masks, expansion, pooling and unpooling with masks, repetition, merging, sums and products of several, products of matrices, convolutions (boundaries, orders of channels, strides; new, into another matrix, into an operand), eigenvalues, zero and equality tests, access by index, filling, splitting, reshaping by channel, texts, construction from typed values, chains. Each result is compared with a reference over plain arrays; operands, and the memory around a matrix changed in place, must keep their values; results own memory of their own; nothing leaks; no legal computation logs an error. Freed and new memory is poisoned. Non-trivial: several threads.",
	"basicmath/src/mt_mat.cpp, mt_mat_math_operation.cpp, mt_pooling.cpp, mt_convolution.cpp, ml_multiplication.cpp, mt_mat_helper.cpp, mt_array_iteration.cpp, mt_helper.cpp (real code)", "thread scheduling, heap (simulated), log output (captured), Intel MKL (stub: reference loops for gemm and the VSL convolution)"});
}
