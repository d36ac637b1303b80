// A reference model of matrices: a view is a list of byte offsets into its buffer, one per element, in row-major order.
#pragma once
#include "common.h"
#include <basicmath.h>
using namespace basicmath;
namespace mats {
static const int DS[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
struct View {
	View() : depth(0), ch(1) {}
	std::vector<int> sizes; int depth, ch; std::vector<int> off;
	int elem() const { return DS[depth] * ch; }
	int number() const { int n = 1; for (size_t i = 0; i < sizes.size(); ++i) n *= sizes[i]; return n; }
	void fresh() { off.resize(number()); for (size_t i = 0; i < off.size(); ++i) off[i] = (int)i * elem(); }
	// new view whose element at index x comes from the element at index f(x) of this one
	template <class F> View map(const std::vector<int>& ns, F f) const {
		View v; v.sizes = ns; v.depth = depth; v.ch = ch; int n = 1; for (size_t i = 0; i < ns.size(); ++i) n *= ns[i]; v.off.resize(n); std::vector<int> x(ns.size()), y;
		for (int k = 0; k < n; ++k) { int r = k; for (int d = (int)ns.size() - 1; d >= 0; --d) { x[d] = r % ns[d]; r /= ns[d]; } y = f(x); int p = 0; for (size_t d = 0; d < sizes.size(); ++d) p = p * sizes[d] + y[d]; v.off[k] = off[p]; }
		return v;
	}
	bool dense() const { for (size_t i = 0; i < off.size(); ++i) if (off[i] != off[0] + (int)i * elem()) return 0; return 1; }
};
inline View draw_view(sim::Rng& g, int max_dims, int max_elems) {
	View v; int dims = 1 + g.below(max_dims), n = 1; v.depth = g.below(10); v.ch = g.below(3) ? 1 : 1 + g.below(g.below(4) ? 5 : 12);
	for (int i = 0; i < dims; ++i) { int s = g.below(5) ? 1 + g.below(6) : 1 + g.below(1 + max_elems / n); if (n * s > max_elems) s = 1; n *= s; v.sizes.push_back(s); }
	v.fresh(); return v;
}
// Applies a random view operation to both; returns 0 if nothing was done, 2 if the view now has memory of its own (dense), else 1.
inline int step(sim::Rng& g, mt_mat& m, View& v, const char*& what, bool writable_only = false) {
	int D = (int)v.sizes.size(); using std::vector; vector<int> ns = v.sizes; what = "";
	switch (g.below(20)) {
	case 0: { int d = g.below(D); what = "flip"; m = m.flip(d); v = v.map(ns, [&](vector<int> x) { x[d] = v.sizes[d] - 1 - x[d]; return x; }); return 1; }
	case 1: { what = "flip(flags)"; vector<b8> f(D); vector<int> fi(D); for (int i = 0; i < D; ++i) { fi[i] = g.below(2); f[i] = fi[i] ? sys_true : sys_false; } m = g.below(2) ? m.flip(f) : m.flip(D, &f[0]); v = v.map(ns, [&](vector<int> x) { for (int d = 0; d < D; ++d) if (fi[d]) x[d] = v.sizes[d] - 1 - x[d]; return x; }); return 1; }
	case 2: { what = "flip(dimensions)"; vector<int> l, fi(D); for (int i = 0; i < D; ++i) if (g.below(2)) { l.push_back(i); fi[i] = 1; } if (l.empty()) { l.push_back(0); fi[0] = 1; } m = g.below(2) ? m.flip(l) : m.flip((int)l.size(), &l[0]); v = v.map(ns, [&](vector<int> x) { for (int d = 0; d < D; ++d) if (fi[d]) x[d] = v.sizes[d] - 1 - x[d]; return x; }); return 1; }
	case 3: { what = "flip_all_dim"; m = m.flip_all_dim(); v = v.map(ns, [&](vector<int> x) { for (int d = 0; d < D; ++d) x[d] = v.sizes[d] - 1 - x[d]; return x; }); return 1; }
	case 4: case 5: { if (D < 2) return 0; int a = g.below(D), b = g.below(D); if (D == 2 && g.below(2)) { a = 0; b = 1; what = "t"; m = m.t(); } else { what = "swap_dim"; m = m.swap_dim(a, b); } std::swap(ns[a], ns[b]); v = v.map(ns, [&](vector<int> x) { std::swap(x[a], x[b]); return x; }); return 1; }
	case 6: case 7: { what = "sub(ranges)"; vector<mt_range> r(D); vector<int> s(D); for (int i = 0; i < D; ++i) { s[i] = g.below(v.sizes[i]); int e = s[i] + 1 + g.below(v.sizes[i] - s[i]); r[i].m_start = s[i]; r[i].m_end = e; ns[i] = e - s[i]; } if (g.below(2)) m = m.sub(r); else m = m.sub(D, &r[0]); v = v.map(ns, [&](vector<int> x) { for (int d = 0; d < D; ++d) x[d] += s[d]; return x; }); return 1; }
	case 8: { int d = g.below(D), s = g.below(v.sizes[d]), e = s + 1 + g.below(v.sizes[d] - s); switch (g.below(5)) { case 4: e = s + 1; if (D == 2) { what = d ? "col" : "row"; m = d ? m.col(s) : m.row(s); } else if (D == 3 && d == 0) { what = "plane"; m = m.plane(s); } else { what = "index"; m = m.index(s, d); } break; case 0: what = "index"; e = s + 1; m = m.index(s, d); break; case 1: what = "front"; s = 0; m = m.front(e, d); break; case 2: what = "back"; e = v.sizes[d]; m = m.back(e - s, d); break; default: what = "sub(range)"; m = m.sub(s, e, d); } ns[d] = e - s; v = v.map(ns, [&](vector<int> x) { x[d] += s; return x; }); return 1; }
	case 9: { if (v.ch < 2) return 0; int s = g.below(v.ch), e = s + 1 + g.below(v.ch - s); if (g.below(2)) { e = s + 1; what = "channel_at"; m = m.channel_at(s); } else { what = "sub_channel"; m = m.sub_channel(s, e); } v.ch = e - s; for (size_t i = 0; i < v.off.size(); ++i) v.off[i] += s * DS[v.depth]; return 1; }
	case 10: { if (!m.is_continuous()) return 0; what = "reshape"; int n = v.number(), k = 1 + g.below(6); vector<int> z; for (int i = 0; i < k - 1; ++i) { vector<int> dv; for (int q = 1; q <= n; ++q) if (n % q == 0) dv.push_back(q); int q = dv[g.below(dv.size())]; z.push_back(q); n /= q; } z.push_back(n); m = g.below(2) ? m.reshape(z) : m.reshape((int)z.size(), &z[0]); v.sizes = z; return 1; }
	case 11: { if (D > 6) return 0; what = "channel_as_last_dim"; m = m.channel_as_last_dim(); View o = v; v.sizes.push_back(o.ch); v.ch = 1; v.off.clear(); for (size_t i = 0; i < o.off.size(); ++i) for (int c = 0; c < o.ch; ++c) v.off.push_back(o.off[i] + c * DS[v.depth]); return 1; }
	case 12: { if (D < 2 || v.ch != 1 || m.step()[D - 1] != DS[v.depth] || v.sizes[D - 1] > 16) return 0; what = "last_dim_as_channel"; m = m.last_dim_as_channel(); View o = v; int L = v.sizes[D - 1]; v.sizes.pop_back(); v.ch = L; v.off.clear(); for (size_t i = 0; i < o.off.size(); i += L) v.off.push_back(o.off[i]); return 1; }
	case 13: { if (D > 5) return 0; int d = g.below(D), n = v.sizes[d]; vector<int> dv; for (int q = 1; q <= n; ++q) if (n % q == 0) dv.push_back(q); int q = dv[g.below(dv.size())]; int z[2] = {q, n / q}; what = "split_dim"; m = m.split_dim(d, 2, z); v.sizes[d] = z[0]; v.sizes.insert(v.sizes.begin() + d + 1, z[1]); return 1; }
	case 14: { if (D > 6) return 0; int d = g.below(D + 1); what = "increase_dim"; m = m.increase_dim(d); v.sizes.insert(v.sizes.begin() + d, 1); return 1; }
	case 15: { if (D < 2) return 0; vector<int> l; for (int d = 0; d < D; ++d) if (v.sizes[d] == 1) l.push_back(d); if (l.empty()) return 0; int d = l[g.below(l.size())]; what = "decrease_dim"; mt_mat r = m.decrease_dim(d); if (!r.is_memory_shared(m)) return 0; m = r; v.sizes.erase(v.sizes.begin() + d); return 1; }
	case 16: { if (!m.is_continuous()) return 0; int n = v.number(), z[3]; for (int i = 0; i < 2; ++i) { vector<int> dv; for (int q = 1; q <= n; ++q) if (n % q == 0) dv.push_back(q); z[i] = dv[g.below(dv.size())]; n /= z[i]; } z[2] = n; if (g.below(2)) { what = "reshape_3d"; m = m.reshape_3d(z[0], z[1], z[2]); v.sizes.assign(z, z + 3); } else { what = "reshape_2d"; z[1] *= n; m = m.reshape_2d(z[0], z[1]); v.sizes.assign(z, z + 2); } return 1; }
	case 17: { if (D != 2) return 0; what = "sub(rectangle)"; int t = g.below(v.sizes[0]), l = g.below(v.sizes[1]), h = 1 + g.below(v.sizes[0] - t), w = 1 + g.below(v.sizes[1] - l); m = m.sub(mt_rect(l, t, w, h)); ns[0] = h; ns[1] = w; v = v.map(ns, [&](vector<int> x) { x[0] += t; x[1] += l; return x; }); return 1; }
	case 18: { if (!m.is_continuous() || !v.dense() || v.off.empty()) return 0; int n = v.number() * v.ch; vector<int> dv; for (int q = 1; q <= n && q <= 12; ++q) if (n % q == 0) dv.push_back(q); int nc = dv[g.below(dv.size())], a0 = v.off[0]; n /= nc; vector<int> dw; for (int q = 1; q <= n; ++q) if (n % q == 0) dw.push_back(q); int q = dw[g.below(dw.size())]; if (m.step()[D - 1] < 0) return 0; what = "reshape with channels"; m = m.reshape_2d(q, n / q, nc); v.sizes.assign(1, q); v.sizes.push_back(n / q); v.ch = nc; v.off.resize(n); for (int k = 0; k < n; ++k) v.off[k] = a0 + k * v.elem(); return 1; }
	default: { if (D < 2) return 0; int d = g.below(D - 1); what = "combine_dim"; mt_mat r = m.combine_dim(d, 2); bool shared = r.is_memory_shared(m); if (!shared && writable_only) return 0; m = r; v.sizes[d] *= v.sizes[d + 1]; v.sizes.erase(v.sizes.begin() + d + 1); if (!shared) { what = "combine_dim (copy)"; return 2; } return 1; }
	}
}
inline std::string shape(const View& v) { std::string s; for (size_t i = 0; i < v.sizes.size(); ++i) s += (i ? "x" : "") + std::to_string(v.sizes[i]); return s + " depth " + std::to_string(v.depth) + " channels " + std::to_string(v.ch); }
// The type and shape of `m` is that of `v`: "" or the difference. Reads through const members only.
inline std::string shape_diff(const mt_mat& m, const View& v) {
	if (m.dim() != (int)v.sizes.size()) return "number of dimensions " + std::to_string(m.dim());
	for (int i = 0; i < m.dim(); ++i) if (m.size()[i] != v.sizes[i]) return "size of dimension " + std::to_string(i) + ": " + std::to_string(m.size()[i]);
	if (m.depth() != v.depth) return "depth " + std::to_string((int)m.depth()); if (m.channel() != v.ch) return "channels " + std::to_string(m.channel()); return "";
}
inline const unsigned char* at(const mt_mat& m, const View& v, int k) { const unsigned char* p = m.data(); for (int d = (int)v.sizes.size() - 1; d >= 0; --d) { p += (long)(k % v.sizes[d]) * m.step()[d]; k /= v.sizes[d]; } return p; }
}
namespace mats {
template <class T> inline void put_as(unsigned char* p, double v) { T t = (T)v; memcpy(p, &t, sizeof t); }
template <class T> inline double get_as(const unsigned char* p) { T t; memcpy(&t, p, sizeof t); return (double)t; }
inline void put(int depth, unsigned char* p, double v) { switch (depth) { case 0: put_as<u8>(p, v); break; case 1: put_as<i8>(p, v); break; case 2: put_as<u16>(p, v); break; case 3: put_as<i16>(p, v); break; case 4: put_as<u32>(p, v); break; case 5: put_as<basicsys::i32>(p, v); break; case 6: put_as<basicsys::u64>(p, v); break; case 7: put_as<basicsys::i64>(p, v); break; case 8: put_as<f32>(p, v); break; default: put_as<f64>(p, v); } }
inline double get(int depth, const unsigned char* p) { switch (depth) { case 0: return get_as<u8>(p); case 1: return get_as<i8>(p); case 2: return get_as<u16>(p); case 3: return get_as<i16>(p); case 4: return get_as<u32>(p); case 5: return get_as<basicsys::i32>(p); case 6: return get_as<basicsys::u64>(p); case 7: return get_as<basicsys::i64>(p); case 8: return get_as<f32>(p); default: return get_as<f64>(p); } }
}
