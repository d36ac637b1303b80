// C20: sorting, streams of values, histograms, dynamic programming, helpers over vectors, block memory.
// These are templates: this file is compiled with the instrumentation of the repository's code.
#include "mats.h"
#include <mt_angle_helper.h>
#include <algorithm>
#include <new>
using namespace sim;
namespace {
typedef basicsys::i32 n32; typedef basicsys::b8 flag;
struct Item { n32 key, tag; Item(n32 k = -9, n32 t = -9) : key(k), tag(t) {} bool operator<(const Item& o) const { return key < o.key; } bool operator>(const Item& o) const { return key > o.key; } };
long key_of(const Item& x) { return x.key; } long key_of(n32 x) { return x; } long key_of(f64 x) { return (long)(x * 4); } long key_of(basicsys::u8 x) { return x; }
bool same(const Item& a, const Item& b) { return a.key == b.key && a.tag == b.tag; } template <class T> bool same(const T& a, const T& b) { return a == b; }
void make(Item& x, long k, int t) { x = Item((n32)k, t); } void make(n32& x, long k, int) { x = (n32)k; } void make(f64& x, long k, int) { x = k / 4.0; } void make(basicsys::u8& x, long k, int) { x = (basicsys::u8)k; }
template <class T> struct Name; template <> struct Name<Item> { static const char* s() { return "items"; } }; template <> struct Name<n32> { static const char* s() { return "i32"; } }; template <> struct Name<f64> { static const char* s() { return "f64"; } }; template <> struct Name<basicsys::u8> { static const char* s() { return "u8"; } };
long draw_key(int span) { static const int base[] = {0, 0, -3, 100, -100000}; return base[span >> 4 & 3] + (long)rng().below(span == 1 ? 1 : 2 + span); }
struct Keys : std::vector<long> { Keys(int n, bool positive = false) { static const int sp[] = {1, 3, 12, 90, 1000}; int s = sp[rng().below(5)]; bool neg = !positive && rng().below(2); int shape = rng().below(5); for (int i = 0; i < n; ++i) push_back((long)rng().below(s) - (neg ? s / 2 : 0)); if (shape == 0) std::sort(begin(), end()); if (shape == 1) { std::sort(begin(), end()); std::reverse(begin(), end()); } } };
int draw_size() { if (rng().below(250) == 0) return 70 + rng().below(rng().below(4) ? 300 : 1500); return rng().below(4) ? rng().below(9) : rng().below(rng().below(3) ? 24 : 70); }
std::string list(const std::vector<long>& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? ", " : "") + std::to_string(v[i]); return s + (v.size() > 24 ? ", ...]" : "]"); }
template <class T> std::vector<T> values(const std::vector<long>& k) { std::vector<T> v(k.size()); for (size_t i = 0; i < k.size(); ++i) make(v[i], k[i], (int)i); return v; }
template <class T> std::vector<long> keys(const std::vector<T>& v) { std::vector<long> k; for (size_t i = 0; i < v.size(); ++i) k.push_back(key_of(v[i])); return k; }
// Each element of `a` is one of `b`, as often.
template <class T> bool permutation(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; std::vector<char> used(b.size()); for (size_t i = 0; i < a.size(); ++i) { size_t j = 0; while (j < b.size() && (used[j] || !same(a[i], b[j]))) ++j; if (j == b.size()) return false; used[j] = 1; } return true; }
bool mem_faults;       // allocations fail (runs of one thread)
template <class F> bool attempt(F f) { if (!mem_faults) { f(); return true; } bool ok = true; set_alloc_fail(1, 12); try { f(); } catch (const std::bad_alloc&) { ok = false; } set_alloc_fail(0, 0); if (!ok) count("out_of_memory_reported"); return ok; }
// Runs the code under test on a vector that lives in its memory.
template <class T, class F> bool on_copy(std::vector<T>& v, F f) { std::vector<T>* w; { Sut s; w = new std::vector<T>(v.begin(), v.end()); } bool ok = attempt([&] { Sut s; f(*w); }); v.assign(w->begin(), w->end()); { Sut s; delete w; } return ok; }

template <class T> void do_sort() {
	Keys k(draw_size(), sizeof(T) == 1); std::vector<T> before = values<T>(k), v = before; bool up = rng().below(2); int how = rng().below(3); if (k.size() > 400 && how == 1) how = 2; static const char* const nm[] = {"sort with positions", "bubble_sort", "heap_sort"}; std::vector<n32> pos; int stale = rng().below(2) * rng().below(90);
	bool ok = on_copy(v, [&](std::vector<T>& w) { flag inc = up ? sys_true : sys_false; if (how == 0) { std::vector<n32> p; p.resize(stale, 77); mt_sort::sort(p, w, inc); Quiet q; pos.assign(p.begin(), p.end()); } else if (how == 1) mt_sort::bubble_sort(w, inc); else mt_sort::heap_sort(w, inc); });
	std::string in = std::string(nm[how]) + (up ? " ascending of " : " descending of ") + Name<T>::s() + " " + list(k);
	if (!permutation(v, before)) violation("lost-elements", "%s gave %s", in.c_str(), list(keys(v)).c_str());
	if (!ok) return;
	for (size_t i = 1; i < v.size(); ++i) if (up ? v[i] < v[i - 1] : v[i] > v[i - 1]) violation("not-sorted", "%s gave %s", in.c_str(), list(keys(v)).c_str());
	if (how == 0) { if (pos.size() != v.size()) violation("wrong-positions", "%s gave %zu positions", in.c_str(), pos.size()); std::vector<char> seen(v.size()); for (size_t i = 0; i < v.size(); ++i) { if (pos[i] < 0 || pos[i] >= (int)v.size() || seen[pos[i]] || !same(v[i], before[pos[i]])) violation("wrong-positions", "%s: element %zu came from position %d", in.c_str(), i, pos[i]); seen[pos[i]] = 1; } }
}
// What a collector of the k best holds after `seen`.
template <class T> void check_top(const char* who, int k, bool big, const std::vector<T>& seen, const std::vector<T>& got, bool sorted) {
	std::vector<long> want = keys(seen), have = keys(got); if (big) std::sort(want.begin(), want.end(), [](long a, long b) { return a > b; }); else std::sort(want.begin(), want.end()); if ((int)want.size() > k) want.resize(k < 0 ? 0 : k);
	std::vector<long> h = have; if (!sorted) { if (big) std::sort(h.begin(), h.end(), [](long a, long b) { return a > b; }); else std::sort(h.begin(), h.end()); }
	bool eq = h.size() == want.size(); for (size_t i = 0; eq && i < h.size(); ++i) eq = h[i] == want[i];
	if (!eq) violation("wrong-top-k", "%s of the %d %s of %zu %s %s holds %s instead of %s", who, k, big ? "greatest" : "least", seen.size(), Name<T>::s(), list(keys(seen)).c_str(), list(have).c_str(), list(want).c_str());
	std::vector<char> used(seen.size()); for (size_t i = 0; i < got.size(); ++i) { size_t j = 0; while (j < seen.size() && (used[j] || !same(seen[j], got[i]))) ++j; if (j == seen.size()) violation("wrong-top-k", "%s holds an element twice or one that never arrived", who); used[j] = 1; }
}
template <class T> std::vector<T> top_list(mt_top_k<T>* c) { std::vector<T> r; Sut s; const std::vector<T>& l = c->get_top_k(); Quiet q; r.assign(l.begin(), l.end()); return r; }
template <class T> bool top_sorted(mt_top_k<T>* c, std::vector<T>& r) { return attempt([&] { std::vector<T> l; Sut s; { std::vector<T> x; int stale; { Quiet q; stale = rng().below(3); } x.resize(stale); c->get_sorted_top_k(x); Quiet q; r.assign(x.begin(), x.end()); } }); }
template <class T> void do_stream() {
	int n = draw_size(), k = rng().below(3) ? rng().below(6) : rng().below(rng().below(20) ? 30 : 200); bool big = rng().below(2); Keys ks(n, sizeof(T) == 1); std::vector<T> v = values<T>(ks), seen; mt_top_k<T>* c = NULL;
	if (!attempt([&] { Sut s; c = big && k % 2 ? new mt_top_k<T>(k) : new mt_top_k<T>(k, big ? sys_true : sys_false); })) return;
	int every = 1 + rng().below(8);
	for (int i = 0; i <= n; ++i) {
		if (i % every == 0 || i == n) { check_top("a collector", k, big, seen, top_list(c), false); std::vector<T> r; if (top_sorted(c, r)) check_top("the sorted list", k, big, seen, r, true); }
		if (i < n) { if (!attempt([&] { Sut s; c->traverse(v[i]); })) continue; seen.push_back(v[i]); }
	}
	{ Sut s; delete c; }
}
void do_hist() {
	int n = 1 + draw_size(), bins = 1 + rng().below(rng().below(15) ? 12 : 300); Keys k(n); f64 scale = rng().below(4) ? 1 : rng().below(2) ? 1e6 : 1e-7, shift = rng().below(3) ? 0 : rng().below(2) ? -1e5 : 1e5; std::vector<f64> d; for (int i = 0; i < n; ++i) d.push_back((k[i] + (rng().below(2) ? 0.25 : 0)) * scale + shift); bool stale = rng().below(2);
	std::vector<mt_range_t<f64> > ranges; std::vector<n32> num;
	std::vector<f64> copy = d; bool ok = on_copy(copy, [&](std::vector<f64>& w) { std::vector<mt_range_t<f64> > r; std::vector<n32> m; if (stale) { m.resize(bins, 5); r.resize(2); } mt_hist::hist(r, m, w, bins); Quiet q; ranges.assign(r.begin(), r.end()); num.assign(m.begin(), m.end()); });
	if (!ok) return;
	char in[200]; snprintf(in, sizeof in, "histogram of %d bins over %d values from %.9g to %.9g", bins, n, *std::min_element(d.begin(), d.end()), *std::max_element(d.begin(), d.end()));
	if ((int)ranges.size() != bins || (int)num.size() != bins) violation("wrong-histogram", "%s has %zu ranges and %zu numbers", in, ranges.size(), num.size());
	f64 lo = *std::min_element(d.begin(), d.end()), hi = *std::max_element(d.begin(), d.end()); if (ranges[0].m_start > lo || ranges[bins - 1].m_end < hi) violation("wrong-histogram", "%s covers %.9g to %.9g", in, ranges[0].m_start, ranges[bins - 1].m_end);
	long total = 0; for (int b = 0; b < bins; ++b) { if (!(ranges[b].m_start <= ranges[b].m_end) || (b && ranges[b].m_start != ranges[b - 1].m_end)) violation("wrong-histogram", "%s: range %d is %.17g to %.17g", in, b, ranges[b].m_start, ranges[b].m_end); int c = 0; for (int i = 0; i < n; ++i) c += d[i] >= ranges[b].m_start && (d[i] < ranges[b].m_end || (b == bins - 1 && d[i] == ranges[b].m_end)); if (num[b] != c) violation("wrong-histogram", "%s: range %d of %.9g to %.9g counts %d values of %d", in, b, ranges[b].m_start, ranges[b].m_end, num[b], c); total += num[b]; f64 w = (ranges[bins - 1].m_end - ranges[0].m_start) / bins; if (fabs(ranges[b].m_end - ranges[b].m_start - w) > 1e-6 * w + 1e-9 * (fabs(lo) + fabs(hi))) violation("wrong-histogram", "%s: the ranges differ in width", in); }
	if (total != n) violation("wrong-histogram", "%s counts %ld values", in, total);
}
template <class W, class V> void do_bag() {
	int n = rng().below(rng().below(20) ? 8 : 14); std::vector<long> w, v; int wm = 1 + rng().below(9), vm = 1 + rng().below(12); bool neg = rng().below(4) == 0; for (int i = 0; i < n; ++i) { w.push_back(rng().below(wm + 1)); v.push_back((long)rng().below(vm + 1) - (neg ? vm / 3 : 0)); } long cap = rng().below(2 + wm * (n + 1) / 2); f64 sw = sizeof(W) == 8 ? 0.5 : 1, sv = sizeof(V) == 8 ? 0.25 : 1;
	long best = 0; for (int m = 0; m < 1 << n; ++m) { long a = 0, b = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) { a += w[i]; b += v[i]; } if (a <= cap && b > best) best = b; }
	V got = 0; std::vector<int> flags;
	if (!attempt([&] { Sut s; std::vector<W> a; std::vector<V> b; for (int i = 0; i < n; ++i) { a.push_back((W)(w[i] * sw)); b.push_back((V)(v[i] * sv)); } mt_01_bag<W, V> bag(a, b, (W)(cap * sw)); got = bag.max_value(); std::vector<flag> f = bag.flag_01(); Quiet q; for (size_t i = 0; i < f.size(); ++i) flags.push_back(f[i] == sys_true ? 1 : 0); })) return;
	std::string in = "a bag for " + std::to_string(cap) + " of weights " + list(w) + " and values " + list(v);
	if (got != (V)(best * sv)) violation("wrong-bag", "%s: the best value is %g instead of %g", in.c_str(), (f64)got / sv, (f64)best);
	if ((int)flags.size() != n) violation("wrong-bag", "%s: %zu flags", in.c_str(), flags.size());
	long a = 0, b = 0; std::vector<long> f; for (int i = 0; i < n; ++i) { f.push_back(flags[i]); if (flags[i]) { a += w[i]; b += v[i]; } } if (a > cap || b != best) violation("wrong-bag", "%s: the choice %s weighs %ld and is worth %ld instead of %ld", in.c_str(), list(f).c_str(), a, b, best);
}
template <class T> void do_common() {
	int na = 1 + rng().below(rng().below(20) ? 14 : 60), nb = 1 + rng().below(rng().below(20) ? 14 : 60), al = 1 + rng().below(4); std::vector<long> a, b; for (int i = 0; i < na; ++i) a.push_back(rng().below(al)); for (int i = 0; i < nb; ++i) b.push_back(rng().below(al) + (rng().below(12) == 0 ? 9 : 0)); if (rng().below(8) == 0) for (int i = 0; i < nb; ++i) b[i] += 20;
	int best = 0; std::set<int> sa, sb; for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) { int l = 0; while (i + l < na && j + l < nb && a[i + l] == b[j + l]) ++l; if (l > best) { best = l; sa.clear(); sb.clear(); } if (l == best && l) { sa.insert(i); sb.insert(j); } }
	int len = -1, ai = -9, bi = -9; std::vector<n32> alla, allb;
	if (!attempt([&] { Sut s; std::vector<T> x, y; for (int i = 0; i < na; ++i) { T t; make(t, a[i], 0); x.push_back(t); } for (int i = 0; i < nb; ++i) { T t; make(t, b[i], 0); y.push_back(t); } mt_longest_common_substring<T> c(x, y); len = c.length(); ai = c.a_begin_index(); bi = c.b_begin_index(); std::vector<n32> p, q; p.resize(3, 8); c.all_a_begin_index(p); c.all_b_begin_index(q); Quiet z; alla.assign(p.begin(), p.end()); allb.assign(q.begin(), q.end()); })) return;
	std::string in = "the longest common part of " + list(a) + " and " + list(b);
	if (len != best) violation("wrong-common-part", "%s has the length %d instead of %d", in.c_str(), len, best);
	if (best) { if (ai < 0 || bi < 0 || ai + len > na || bi + len > nb) violation("wrong-common-part", "%s begins at %d and %d", in.c_str(), ai, bi); for (int i = 0; i < len; ++i) if (a[ai + i] != b[bi + i]) violation("wrong-common-part", "%s of length %d does not begin at %d and %d", in.c_str(), len, ai, bi); }
	std::set<int> ga(alla.begin(), alla.end()), gb(allb.begin(), allb.end()); if (!std::equal(ga.begin(), ga.end(), sa.begin()) || ga.size() != sa.size() || !std::equal(gb.begin(), gb.end(), sb.begin()) || gb.size() != sb.size()) violation("wrong-common-part", "%s of length %d: the beginnings are said to be %s and %s", in.c_str(), len, list(std::vector<long>(alla.begin(), alla.end())).c_str(), list(std::vector<long>(allb.begin(), allb.end())).c_str());
}
template <class T> void do_sum() {
	Keys k(1 + draw_size()); int n = (int)k.size(); long best = k[0]; for (int i = 0; i < n; ++i) { long s = 0; for (int j = i; j < n; ++j) { s += k[j]; if (s > best) best = s; } } T got; int at, len;
	std::vector<T> v; for (int i = 0; i < n; ++i) { T t; make(t, k[i], 0); v.push_back(t); }
	if (!on_copy(v, [&](std::vector<T>& w) { mt_max_sum_for_continuous_element<T> m(w); got = m.max_sum(); at = m.begin_index(); len = m.length(); })) return;
	long s = 0; bool in = at >= 0 && len >= 1 && at + len <= n; for (int i = at; in && i < at + len; ++i) s += k[i];
	if (key_of(got) != best || !in || s != best) violation("wrong-sum", "the greatest sum of neighbours in %s is %ld; given is %ld from %d on over %d elements", list(k).c_str(), best, key_of(got), at, len);
}
void vec_of(std::vector<n32>& w, const Keys& k) { for (size_t i = 0; i < k.size(); ++i) w.push_back((n32)k[i]); }
void do_helper() {
	Keys k(draw_size()); int n = (int)k.size(); std::vector<n32> v; vec_of(v, k); std::vector<n32> before = v; std::string in = list(k); int what = rng().below(15);
	switch (what) {
	case 0: if (!on_copy(v, [](std::vector<n32>& w) { mt_helper::flip_vector(w); })) return; std::reverse(before.begin(), before.end()); if (!std::equal(v.begin(), v.end(), before.begin())) violation("wrong-helper", "the flip of %s is %s", in.c_str(), list(keys(v)).c_str()); return;
	case 1: { bool odd = rng().below(2), keep = rng().below(2); if (!on_copy(v, [&](std::vector<n32>& w) { mt_helper::odd_even_sort(w, odd ? sys_true : sys_false, keep ? sys_true : sys_false); })) return; if (!permutation(v, before)) violation("lost-elements", "odd_even_sort of %s gave %s", in.c_str(), list(keys(v)).c_str());
		bool ok = true; for (int i = 1; i < n; ++i) if (odd ? !(v[i - 1] & 1) && (v[i] & 1) : (v[i - 1] & 1) && !(v[i] & 1)) ok = false; std::vector<n32> want = before; if (keep) { std::stable_partition(want.begin(), want.end(), [odd](n32 x) { return odd ? (x & 1) != 0 : !(x & 1); }); ok = std::equal(v.begin(), v.end(), want.begin()); }
		if (!ok) violation("not-sorted", "odd_even_sort (%s first%s) of %s gave %s", odd ? "odd" : "even", keep ? ", order kept" : "", in.c_str(), list(keys(v)).c_str()); return; }
	case 2: { if (!n) return; n32 m = 0; bool keep = rng().below(2); if (!on_copy(v, [&](std::vector<n32>& w) { m = keep ? mt_helper::median_with_unchanged_order(w) : mt_helper::median_with_changed_order(w); })) return; if (!permutation(v, before) || (keep && !std::equal(v.begin(), v.end(), before.begin()))) violation("lost-elements", "the median changed %s into %s", in.c_str(), list(keys(v)).c_str()); std::sort(before.begin(), before.end()); if (m != before[(n - 1) / 2]) violation("wrong-helper", "the median of %s is %d", in.c_str(), m); return; }
	case 3: { if (!n) return; n32 a = 0, b = 0, c = 0, d = 0, e = 0, f = 0; if (!on_copy(v, [&](std::vector<n32>& w) { a = mt_helper::index_of_max_value(n, &w[0]); b = mt_helper::index_of_min_value(n, &w[0]); c = mt_helper::compute_max(n, &w[0]); d = mt_helper::compute_min(n, &w[0]); e = mt_helper::compute_abs_min(&w[0], n); f = mt_helper::compute_min_in_abs(&w[0], n); })) return;
		n32 mx = *std::max_element(v.begin(), v.end()), mn = *std::min_element(v.begin(), v.end()), am = 1 << 30; for (int i = 0; i < n; ++i) am = std::min(am, (n32)labs(v[i])); if (a < 0 || a >= n || v[a] != mx || b < 0 || b >= n || v[b] != mn || c != mx || d != mn || e != am || labs(f) != am || std::find(v.begin(), v.end(), f) == v.end()) violation("wrong-helper", "the extremes of %s: greatest %d at %d, least %d at %d, least magnitude %d and %d", in.c_str(), c, a, d, b, e, f); return; }
	case 4: { int D = 1 + rng().below(5), total = 1; std::vector<n32> size; for (int i = 0; i < D; ++i) { size.push_back(1 + rng().below(4)); total *= size[i]; } int index = rng().below(total), back = -1; std::vector<n32> at, want(D); for (int i = D - 1, r = index; i >= 0; --i) { want[i] = r % size[i]; r /= size[i]; }
		if (!on_copy(size, [&](std::vector<n32>& w) { std::vector<n32> p; mt_helper::multi_index_from_index(p, index, D, &w[0]); back = mt_helper::index_from_multi_index(p, D, &w[0]); Quiet q; at.assign(p.begin(), p.end()); })) return; bool ok = (int)at.size() == D && back == index; for (int i = 0; ok && i < D; ++i) ok = at[i] == want[i]; if (!ok) violation("wrong-helper", "number %d of sizes %s is %s, and that is number %d", index, list(keys(size)).c_str(), list(keys(at)).c_str(), back); return; }
	case 5: { static const int lim[] = {0, 1, 5, 12, 20, 33}; int N = rng().below(lim[rng().below(6)] + 1), K = rng().below(N + 1), f = rng().below(13); n32 c, g; { Sut s; c = mt_helper::combination(N, K); g = mt_helper::factorial(f); } long want = 1; for (int i = 1; i <= K; ++i) want = want * (N - K + i) / i; long fw = 1; for (int i = 2; i <= f; ++i) fw *= i; if (c != want || g != fw) violation("wrong-helper", "combination(%d, %d) is %d, factorial(%d) is %d", N, K, c, f, g); return; }
	case 6: { bool ptr = rng().below(2); std::vector<n32> got; bool id = true; if (!on_copy(v, [&](std::vector<n32>& w) { std::vector<n32*> p; std::vector<n32> r; p.resize(2); mt_helper::pointer_from_instance(p, w); id = p.size() == w.size(); for (size_t i = 0; id && i < p.size(); ++i) id = p[i] == &w[i]; if (!ptr) r.resize(2, 5); mt_helper::instance_from_pointer(r, p); Quiet q; got.assign(r.begin(), r.end()); })) return; bool ok = got.size() == v.size() && std::equal(got.begin(), got.end(), v.begin()); if (!id || !ok) violation("wrong-helper", "%s by pointers and back is %s", in.c_str(), list(keys(got)).c_str()); return; }
	case 7: { std::vector<n32> got; if (!on_copy(v, [&](std::vector<n32>& w) { std::vector<n32> r(w.size() + 1, 3); if (w.size() & 1) mt_helper::integral_array(r, w); else mt_helper::integral_array(&r[0], w.data(), w.data() + w.size()); Quiet q; got.assign(r.begin(), r.end()); })) return; long s = 0; for (int i = 0; i <= n; ++i) { if (got[i] != s) violation("wrong-helper", "the integral of %s is %s", in.c_str(), list(keys(got)).c_str()); if (i < n) s += v[i]; } return; }
	case 8: { static const n32 e[] = {0, 1, -1, 2147483647, -2147483647 - 1, 255, 128, 127, -128}; n32 a = e[rng().below(9)], b = e[rng().below(9)]; long q[4]; { Sut s; q[0] = mt_helper::compare_value<n32>(a / 2, b / 2); q[1] = mt_helper::compare_value<basicsys::u8>((basicsys::u8)a, (basicsys::u8)b); q[2] = mt_helper::compare_value<f64>(a, b); q[3] = mt_helper::compare_value<basicsys::u32>((basicsys::u32)a, (basicsys::u32)b); }
		#define SGN(x, y) ((x) < (y) ? -1 : (x) > (y) ? 1 : 0)
		if (q[0] != SGN(a / 2, b / 2) || q[1] != SGN((basicsys::u8)a, (basicsys::u8)b) || q[2] != SGN((f64)a, (f64)b) || q[3] != SGN((basicsys::u32)a, (basicsys::u32)b)) violation("wrong-helper", "comparing %d with %d gives %ld as halves, %ld as u8, %ld as f64, %ld as u32", a, b, q[0], q[1], q[2], q[3]); return; }
	case 9: { n32 sum = 0, prod = 0; flag one = sys_false; if (n > 9) v.resize(9); for (size_t i = 0; i < v.size(); ++i) v[i] %= 9; if (!on_copy(v, [&](std::vector<n32>& w) { sum = mt_helper::add(w); prod = mt_helper::mutiply(w.data(), w.data() + w.size()); n32 x = w.empty() ? 3 : w[0]; one = mt_helper::is_vec_value(w, x); })) return; long s = 0, p = 1; bool all = true; for (size_t i = 0; i < v.size(); ++i) { s += v[i]; p *= v[i]; all = all && v[i] == v[0]; } if (sum != s || prod != p || (one == sys_true) != all) violation("wrong-helper", "%s: sum %d, product %d, one value %d", list(keys(v)).c_str(), sum, prod, (int)one); return; }
	case 10: { int a = rng().below(360); f64 c, s1, r, g, t = ((int)rng().below(14401) - 7200) / 20.0, u; int z = (int)rng().below(1080) - 360; n32 w; { Sut s; c = mt_trigonometric_function::angle_cos(a); s1 = mt_trigonometric_function::angle_sin(a); r = mt_angle_helper::radian_from_angle(t); u = mt_angle_helper::angle_from_radian(r); g = mt_angle_helper::normlize_angle(t); w = mt_angle_helper::normlize_angle<n32>(z); } f64 rad = a * M_PI / 180; if (fabs(c - cos(rad)) > 1e-12 || fabs(s1 - sin(rad)) > 1e-12 || fabs(u - t) > 1e-9 || fabs(r - t * M_PI / 180) > 1e-12 || g < 0 || g > 360 || fabs(remainder(g - t, 360)) > 1e-9 || w < 0 || w > 360 || (w - z) % 360) violation("wrong-helper", "angle %d: cosine %g, sine %g; %g degrees are %g radians, %g degrees, normalised %g; %d normalised is %d", a, c, s1, t, r, u, g, z, w); return; }
	case 11: { static const f64 e[] = {0, -0.0, 1, -1, 1e-30, -1e-30, 1e30, -1e30, 3e38, -3e38, INFINITY, -INFINITY, 1.0 / 3, 1e-7, 0.5, -0.5}; f64 a = e[rng().below(16)], b = rng().below(4) ? e[rng().below(16)] : a; if (rng().below(3) == 0) b = a * (1 + ((int)rng().below(9) - 4) * 1e-3); n32 q[5]; flag y[8]; long long r; f64 h = ((int)rng().below(4001) - 2000) / 8.0; f64 nan = NAN, c = a - b, d = std::isfinite(c) ? c : 0;
		{ Sut s; q[0] = mt_helper::compare_double(a, b); q[1] = mt_helper::compare_double(b, a); q[2] = mt_helper::compare_float((f32)a, (f32)b); q[3] = mt_helper::compare_float((f32)b, (f32)a); q[4] = mt_helper::compare_value<f32>((f32)a, (f32)a); y[0] = mt_helper::is_nan(a); y[1] = mt_helper::is_nan(nan); y[2] = mt_helper::is_infinity(a); y[3] = mt_helper::is_infinity(nan); y[4] = mt_helper::is_number(a); y[5] = mt_helper::is_number(nan); y[6] = mt_helper::is_same_symbol(a, b); y[7] = mt_helper::is_same_symbol((n32)h, (n32)d); r = mt_helper::neibour_float(h); }
		#define CMP(x, y, eps) ((x) == (y) || fabs((x) - (y)) < (eps) || (std::isfinite(x) && std::isfinite(y) && fabs((x) - (y)) < (eps) * std::max(fabs(x), fabs(y))) ? 0 : (x) < (y) ? -1 : 1)
		n32 w = CMP(a, b, 1e-11), wf = CMP((f64)(f32)a, (f64)(f32)b, 1e-6); bool inf = a - a != 0, fin = !inf; if (q[0] != w || q[1] != -w || q[2] != wf || q[3] != -wf || q[4] != 0) violation("wrong-helper", "comparing %g with %g gives %d as doubles, %d the other way round, %d as floats, %d the other way round, %d with itself", a, b, q[0], q[1], q[2], q[3], q[4]);
		if (y[0] || !y[1] || (y[2] == sys_true) != inf || y[3] || (y[4] == sys_true) != fin || y[5]) violation("wrong-helper", "%g: not a number %d, infinite %d, a number %d; NaN: %d, %d, %d", a, (int)y[0], (int)y[2], (int)y[4], (int)y[1], (int)y[3], (int)y[5]);
		if ((y[6] == sys_true) != ((a >= 0 && b >= 0) || (a <= 0 && b <= 0)) || r != (long long)(h < 0 ? -floor(-h + 0.5) : floor(h + 0.5))) violation("wrong-helper", "%g and %g have the same sign: %d; next to %g is %lld", a, b, (int)y[6], h, r); return; }
	case 12: { if (!n) return; int s0 = rng().below(n), e0 = s0 + rng().below(n - s0 + 1); std::vector<n32> sub, all, all2; if (!on_copy(v, [&](std::vector<n32>& w) { std::vector<n32> t(rng().below(3), 9), u(rng().below(3), 9); mt_helper::sub_vector(t, w, mt_range(s0, e0)); mt_helper::vec_from_array(u, n, &w[0]); std::vector<n32> z = mt_helper::vec_from_array(n, &w[0]); Quiet q; sub.assign(t.begin(), t.end()); all.assign(u.begin(), u.end()); all2.assign(z.begin(), z.end()); })) return;
		if ((int)sub.size() != e0 - s0 || !std::equal(sub.begin(), sub.end(), before.begin() + s0) || (int)all.size() != n || !std::equal(all.begin(), all.end(), before.begin()) || (int)all2.size() != n || !std::equal(all2.begin(), all2.end(), before.begin())) violation("wrong-helper", "elements %d to %d of %s are %s, all are %s", s0, e0, in.c_str(), list(keys(sub)).c_str(), list(keys(all)).c_str()); return; }
	case 13: { if (n > 1 && rng().below(4) == 0) for (int i = 0; i < n; ++i) v[i] = (n32)rng().next() >> rng().below(3); before = v; std::vector<n32> hi, lo; if (!on_copy(v, [&](std::vector<n32>& w) { std::vector<n32> a(rng().below(3), 9), b(rng().below(3), 9); mt_helper::split_array_to_max_mean_sub_arrays(a, b, w); Quiet q; hi.assign(a.begin(), a.end()); lo.assign(b.begin(), b.end()); })) return;
		std::vector<n32> sorted = before; std::sort(sorted.begin(), sorted.end()); std::vector<n32> j = lo; j.insert(j.end(), hi.begin(), hi.end()); bool ok = j.size() == sorted.size() && std::equal(j.begin(), j.end(), sorted.begin()); if (ok && n > 1) { ok = !hi.empty() && !lo.empty(); f64 best = -1, got = 0, total = 0, left = 0; for (int i = 0; i < n; ++i) total += sorted[i]; for (int i = 0; i + 1 < n; ++i) { left += sorted[i]; f64 d = (total - left) / (n - 1 - i) - left / (i + 1); best = std::max(best, d); if (i + 1 == (int)lo.size()) got = d; } ok = ok && got >= best - 1e-6 * (1 + best); } if (!ok) violation("wrong-helper", "%s by means are %s and %s", list(keys(before)).c_str(), list(keys(lo)).c_str(), list(keys(hi)).c_str()); return; }
	default: { n32 x = (n32)rng().next() >> rng().below(20); long long y = (long long)rng().next(); int a, b, c; { Sut s; a = mt_helper::number_of_1(x); b = mt_helper::number_of_1((basicsys::i64)y); c = mt_helper::reverse_i32(x); } if (a != __builtin_popcount(x) || b != __builtin_popcountll(y) || c != (int)__builtin_bswap32(x)) violation("wrong-helper", "%d has %d bits, %lld has %d, reversed %x is %x", x, a, y, b, x, c);
		int small = rng().below(300), most = (int)rng().below(20001) - 10000; unsigned ones, want = 0; n32 five; { Sut s; ones = mt_helper::one_number(small); five = mt_helper::add_five(most); } for (int i = 0; i <= small; ++i) for (int z = i; z; z /= 10) want += z % 10 == 1; long top = -2147483647; char d[16]; snprintf(d, sizeof d, "%d", most < 0 ? -most : most); std::string ds(d); for (size_t i = 0; i <= ds.size(); ++i) { std::string t = ds; t.insert(i, "5"); long q = atol(t.c_str()); top = std::max(top, most < 0 ? -q : q); } if (ones != want || five != top) violation("wrong-helper", "there are %u ones up to %d; %d with a five is %d", ones, small, most, five); return; }
	}
}
// ---- block memory: what is stored stays where it is and as it is until it is given back, or all is ----------------
struct Cell { n32 a, b, c; };
struct Counted { n32 a, b, c; static int live; Counted() : a(1), b(2), c(3) { ++live; } ~Counted() { --live; } }; int Counted::live;
template <class C> void do_pool(bool use_new) {
	typedef mt_block_memory<C> Pool; Pool* p; int base = rng().below(rng().below(20) ? 4 : 9), reuse = rng().below(2) ? 0 : 1 + rng().below(5); bool def = rng().below(3) == 0; n32 serial = 0; std::string story;
	{ Sut s; if (def) p = new Pool(); else p = new Pool(base, use_new ? sys_true : sys_false, reuse); } bool up = !def; if (!def) story = "pool(" + std::to_string(base) + ", " + std::to_string(reuse) + ")";
	std::vector<C*> order; std::map<C*, n32> live; std::set<C*> given; int steps = 1 + rng().below(rng().below(30) ? 60 : 500);
	for (int st = 0; st < steps; ++st) {
		int what = rng().below(20); if (!up) what = 19;
		if (what < 13) {
			C* d = NULL; bool in_reuse = false; { Sut s; basicmath_block_memory_get((*p), d, C); } in_reuse = given.count(d);
			if (!heap_owns(d, sizeof(C))) violation("wrong-cell", "%s: cell %d lies outside live memory", story.c_str(), (int)order.size()); if (live.count(d)) violation("wrong-cell", "%s: a cell is handed out twice", story.c_str()); for (typename std::map<C*, n32>::iterator i = live.lower_bound(d); i != live.end() && (char*)i->first < (char*)(d + 1); ++i) violation("wrong-cell", "%s: two cells overlap", story.c_str());
			if (!given.empty() && !in_reuse && given.size() <= (size_t)reuse) violation("not-reused", "%s: a new cell is handed out though %zu were given back", story.c_str(), given.size());
			++serial; { Sut s; d->a = serial; d->b = ~serial; d->c = serial * 3; basicmath_block_memory_add((*p)); } live[d] = serial; if (in_reuse) given.erase(d); else order.push_back(d); story += " +";
		} else if (what < 15 && reuse && !live.empty()) { typename std::map<C*, n32>::iterator i = live.begin(); std::advance(i, rng().below(live.size())); C* d = i->first; if ((int)given.size() < reuse) { { Sut s; basicmath_block_memory_reuse((*p), d); } given.insert(d); live.erase(i); story += " -"; } }
		else if (what == 15) { int r; { Sut s; p->reset(); } order.clear(); live.clear(); given.clear(); story += " reset"; (void)r; }
		else if (what == 16) { { Sut s; p->clear(); } order.clear(); live.clear(); given.clear(); up = false; story += " clear"; }
		else if (what == 17 || what == 19) { base = rng().below(3) ? base : rng().below(4); if (!def || up) reuse = rng().below(2) ? reuse : rng().below(5); else reuse = rng().below(4); { Sut s; p->init(base, use_new ? sys_true : sys_false, reuse); } order.clear(); live.clear(); given.clear(); up = true; story += " init(" + std::to_string(base) + ", " + std::to_string(reuse) + ")"; }
		else { // everything stored, in order
			size_t k = 0; typename Pool::block_pos pos; for (;;) { bool more = false; C* d = NULL; { Sut s; do { basicmath_block_memory_visit((*p), pos); more = true; d = pos.m_data; } while (0); } if (!more) break; if (k >= order.size() || d != order[k]) violation("wrong-cell", "%s: cell %zu is visited at another place", story.c_str(), k); ++k; } if (k != order.size()) violation("wrong-cell", "%s: %zu of %zu cells are visited", story.c_str(), k, order.size());
		}
		if (up) { if (p->m_element_number != (int)order.size()) violation("wrong-cell", "%s: %d cells instead of %zu", story.c_str(), p->m_element_number, order.size()); for (size_t k = 0; k < order.size(); ++k) { C* d; { Sut s; d = &p->at((int)k); } if (d != order[k]) violation("wrong-cell", "%s: cell %zu is found at another place", story.c_str(), k); }
			for (typename std::map<C*, n32>::iterator i = live.begin(); i != live.end(); ++i) if (i->first->a != i->second || i->first->b != ~i->second || i->first->c != i->second * 3) violation("wrong-cell", "%s: a stored cell changed", story.c_str()); if (p->memory_size() < order.size() * sizeof(C)) violation("wrong-cell", "%s: %llu bytes for %zu cells", story.c_str(), (unsigned long long)p->memory_size(), order.size()); }
	}
	{ Sut s; delete p; }
}
void one() {
	count("operations");
	switch (rng().below(10)) {
	case 0: case 1: switch (rng().below(4)) { case 0: do_sort<Item>(); return; case 1: do_sort<n32>(); return; case 2: do_sort<f64>(); return; default: do_sort<basicsys::u8>(); return; }
	case 2: case 3: switch (rng().below(3)) { case 0: do_stream<Item>(); return; case 1: do_stream<n32>(); return; default: do_stream<f64>(); return; }
	case 4: do_hist(); return;
	case 5: if (rng().below(2)) do_bag<n32, n32>(); else if (rng().below(2)) do_bag<f64, n32>(); else do_bag<n32, f64>(); return;
	case 6: if (rng().below(2)) do_common<n32>(); else do_common<basicsys::u8>(); return;
	case 7: if (rng().below(2)) do_sum<n32>(); else do_sum<f64>(); return;
	case 8: do_helper(); return;
	default: if (mem_faults) { do_helper(); return; } if (live_threads() > 1 || rng().below(2)) do_pool<Cell>(rng().below(2)); else { do_pool<Counted>(true); if (Counted::live) violation("leak", "%d cells were not destroyed", Counted::live); } return;
	}
}
// More elements than 16 bits count.
void do_large() {
	int n = 65500 + rng().below(300), what = rng().below(6); bool up = rng().below(2); std::vector<n32> v; int span = rng().below(2) ? 100 : 1 << 30; for (int i = 0; i < n; ++i) v.push_back((n32)rng().below(span) - span / 3); std::vector<n32> want = v; std::sort(want.begin(), want.end()); count("large");
	switch (what) {
	case 0: { on_copy(v, [&](std::vector<n32>& w) { mt_sort::heap_sort(w, up ? sys_true : sys_false); }); if (!up) std::reverse(want.begin(), want.end()); for (int i = 0; i < n; ++i) if (v[i] != want[i]) violation("not-sorted", "heap_sort of %d numbers: place %d holds %d instead of %d", n, i, v[i], want[i]); return; }
	case 1: { int k = rng().below(2) ? n - 20 : 1 + rng().below(2000); std::vector<n32> got; { Sut s; mt_top_k<n32>* c = new mt_top_k<n32>(k, up ? sys_true : sys_false); for (int i = 0; i < n; ++i) c->traverse(v[i]); { std::vector<n32> r; c->get_sorted_top_k(r); Quiet q; got.assign(r.begin(), r.end()); } delete c; } if (up) std::reverse(want.begin(), want.end()); want.resize(k); if ((int)got.size() != k) violation("wrong-top-k", "the %d best of %d are %zu", k, n, got.size()); for (int i = 0; i < k; ++i) if (got[i] != want[i]) violation("wrong-top-k", "the %d best of %d: place %d holds %d instead of %d", k, n, i, got[i], want[i]); return; }
	case 2: { int bins = 1 + rng().below(5); std::vector<n32> num; std::vector<f64> d(v.begin(), v.end()); on_copy(d, [&](std::vector<f64>& w) { std::vector<mt_range_t<f64> > r; std::vector<n32> m; mt_hist::hist(r, m, w, bins); Quiet q; num.assign(m.begin(), m.end()); }); long t = 0; for (size_t i = 0; i < num.size(); ++i) t += num[i]; if ((int)num.size() != bins || t != n) violation("wrong-histogram", "a histogram of %d bins over %d values has %zu bins and counts %ld", bins, n, num.size(), t); return; }
	case 3: { for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] % 1000; v[100] = 5; std::vector<n32> w0 = v; long best = v[0], cur = 0; for (int i = 0; i < n; ++i) { cur = cur > 0 ? cur + v[i] : v[i]; if (cur > best) best = cur; } n32 got = 0, at = 0, len = 0; on_copy(v, [&](std::vector<n32>& w) { mt_max_sum_for_continuous_element<n32> m(w); got = m.max_sum(); at = m.begin_index(); len = m.length(); }); long t = 0; if (at >= 0 && len > 0 && at + len <= n) for (int i = at; i < at + len; ++i) t += w0[i]; else t = best + 1; if (got != best || t != best) violation("wrong-sum", "the greatest sum of neighbours of %d numbers is %ld; given is %d from %d on over %d elements", n, best, got, at, len); return; }
	case 4: { for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] % 1000; std::vector<n32> got; on_copy(v, [&](std::vector<n32>& w) { std::vector<n32> r; r.resize(w.size() + 1); mt_helper::integral_array(r, w); Quiet q; got.assign(r.begin(), r.end()); }); long t = 0; for (int i = 0; i <= n; ++i) { if ((int)got.size() <= i || got[i] != t) violation("wrong-helper", "the running sums of %d numbers are wrong at %d", n, i); if (i < n) t += v[i]; }
		on_copy(v, [](std::vector<n32>& w) { mt_helper::flip_vector(w); mt_helper::flip_vector(w); mt_helper::flip_vector(w); }); for (int i = 0; i < n; ++i) if (v[n - 1 - i] != got[i + 1] - got[i]) violation("wrong-helper", "the flip of %d numbers is wrong at %d", n, i); return; }
	default: { typedef mt_block_memory<Cell> Pool; Pool* p; int base = 4 + rng().below(10), reuse = rng().below(2) * 3; std::vector<Cell*> all; { Sut s; p = new Pool(base, sys_true, reuse); for (int i = 0; i < n; ++i) { Cell* d = NULL; basicmath_block_memory_get((*p), d, Cell); d->a = i; d->b = ~i; d->c = i * 3; basicmath_block_memory_add((*p)); Quiet q; all.push_back(d); } }
		int k = 0; Pool::block_pos pos; for (;;) { bool more = false; Cell* d = NULL; { Sut s; do { basicmath_block_memory_visit((*p), pos); more = true; d = pos.m_data; } while (0); } if (!more) break; if (k >= n || d != all[k] || d->a != k || d->b != ~k || d->c != k * 3) violation("wrong-cell", "cell %d of %d is another or has changed", k, n); ++k; } if (k != n) violation("wrong-cell", "%d of %d cells are visited", k, n); { Sut s; delete p; } return; }
	}
}
// Several producers feed one collector, each arrival under the lock; others look at it in between.
void shared(int producers) {
	int k = 1 + rng().below(rng().below(2) ? 4 : 12), per = 1 + rng().below(12); bool big = rng().below(2); void* lock; mt_top_k<Item>* c; { Sut s; lock = sys_thread_lock::create_mutex(); c = new mt_top_k<Item>(k, big ? sys_true : sys_false); }
	std::vector<Item>* seen = new std::vector<Item>; Keys all(producers * per); int* arrivals = new int(0); Threads th;
	for (int t = 0; t < producers; ++t) th.start([=] { for (int i = 0; i < per; ++i) { Item x((n32)all[t * per + i], t * per + i); bool twice = rng().below(10) == 0; for (int r = 0; r <= twice; ++r) { if (r) x.tag += 10000; Sut s; sys_thread_lock g(lock); c->traverse(x); Quiet q; seen->push_back(x); ++*arrivals; } } });
	th.start([=] { for (int i = 0; i < 4; ++i) { std::vector<Item> got, sorted, then; { Sut s; sys_thread_lock g(lock); std::vector<Item> r; c->get_sorted_top_k(r); const std::vector<Item>& l = c->get_top_k(); Quiet q; got.assign(l.begin(), l.end()); sorted.assign(r.begin(), r.end()); then = *seen; } check_top("a shared collector", k, big, then, got, false); check_top("the sorted list of a shared collector", k, big, then, sorted, true); yield_point(); } });
	th.join(); check_top("a shared collector", k, big, *seen, top_list(c), false);
	// the best of the parts' best is the best of all
	{ std::vector<Item> r; mt_top_k<Item>* m; { Sut s; m = new mt_top_k<Item>(k, big ? sys_true : sys_false); } for (int t = 0; t < 2; ++t) { mt_top_k<Item>* part; { Sut s; part = new mt_top_k<Item>(k, big ? sys_true : sys_false); } for (size_t i = t; i < seen->size(); i += 2) { Sut s; part->traverse((*seen)[i]); } std::vector<Item> l = top_list(part); for (size_t i = 0; i < l.size(); ++i) { Sut s; m->traverse(l[i]); } Sut s; delete part; } check_top("the collector of two collectors", k, big, *seen, top_list(m), false); Sut s; delete m; }
	{ Sut s; delete c; sys_thread_lock::release_mutex(lock); } count("arrivals", *arrivals); delete seen; delete arrivals;
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	int nthreads = (int)param("threads", 1, 4), nops = (int)param("operations", 1, 10), producers = (int)param("producers", 0, 4); mem_faults = param("failing_allocations", 0, 3) == 3 && nthreads == 1; if (mem_faults) producers = 0;
	HeapStats before = sut_heap();
	if (nthreads == 1) for (int i = 0; i < nops; ++i) one(); else { Threads th; for (int t = 0; t < nthreads; ++t) th.start([nops] { for (int i = 0; i < nops; ++i) one(); }); th.join(); }
	if (nthreads == 1 && !mem_faults && (rng().below(40) == 0)) do_large();
	if (producers) shared(producers);
	for (size_t i = 0; i < log->out.size(); ++i) violation("false-error", "a legal call logged: %s", log->out[i].c_str());
	leak_check(before, ""); heap_check(); nontrivial(mix2(rng().next(), nops)); note("%d threads, %d operations, %d producers%s", nthreads, nops, producers, mem_faults ? ", allocations fail" : "");
}
Registrar r({"C20", run, 40000, 400000,
	"one run: up to 10 operations on each of up to 4 threads (sorts of items, integers, floats and bytes; collectors of the k best looked at while values arrive; histograms; bags; longest common parts; greatest sums; helpers over vectors; histories of a block memory), then up to 4 producers feeding one collector under the repository's lock in the order the scheduler decides, some arrivals twice, with a reader in between. Allocations fail in a quarter of the single-threaded runs. Oracles: brute force over the recorded arrival order. Non-trivial: every run.",
	"basicmath/include/mt_sort.h, mt_top_k.h, mt_helper.h, mt_block_memory.h, dynamic_programming/*.h, basicmath/src/mt_hist.cpp, mt_helper.cpp, sys_thread_lock (real code, the templates compiled with the same instrumentation)", "thread scheduling, mutexes, heap and its failures (simulated), log output (captured)"});
}
