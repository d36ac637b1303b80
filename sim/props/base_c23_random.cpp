// C23: random numbers, permutations and matrices drawn by one or several threads.
#include "mats.h"
#include <float.h>
#include <math.h>
using namespace sim;
namespace {
struct Op { int kind; basicsys::i32 a, b; f64 lo, hi; bool lo_open, hi_open; int n; f64 p, mean, sd; int depth, ch; std::vector<int> sizes; int overload; };
bool stats_on;   // no extremes: the numbers must look random
const char* const NAMES[] = {"random_next_i32", "random_uniform", "randperm", "randSample", "bernoulli", "gaussian", "random_uniform_iid", "random_zero_center_uniform_iid", "bernoulli_iid", "gaussian_iid", "gaussian_iid of mean and variance"};
enum { NEXT, UNIFORM, PERM, SAMPLE, BERNOULLI, GAUSS, UNIFORM_IID, ZERO_IID, BERNOULLI_IID, GAUSS_IID, GAUSS_MV, KINDS };
f64 pick_bound() { static const f64 v[] = {0, 1, -1, 0.5, 3, 1e-12, 100, -1e5, 1e9, 1e15, -7e15, 1e-300, 123456.789, 255, 1e100}; f64 x = v[rng().below(15)]; return rng().below(3) ? x : (rng().below(20001) - 10000.0) / 7; }
void draw_shape(Op& o, int max_n) {
	int D = 1 + rng().below(rng().below(4) ? 3 : 5), n = 1; o.sizes.clear(); for (int i = 0; i < D; ++i) { int s = 1 + rng().below(rng().below(3) ? 4 : 9); while (n * s > max_n) --s; if (s < 1) s = 1; o.sizes.push_back(s); n *= s; }
	o.ch = rng().below(3) ? 1 + rng().below(3) : 1 + rng().below(12); o.overload = rng().below(2);
}
Op gen() {
	Op o; o.kind = rng().below(KINDS); o.a = o.b = 0; o.n = 0; o.depth = 9; o.ch = 1; o.lo_open = rng().below(2); o.hi_open = rng().below(2); o.overload = 0; o.lo = 0; o.hi = 1; o.p = 0; o.mean = 0; o.sd = 1;
	switch (o.kind) {
	case NEXT: { static const basicsys::i32 v[] = {0, 1, -1, 2147483647, -2147483647 - 1, 5, 255, 1000000, -77}; o.a = v[rng().below(9)]; o.b = rng().below(2) ? v[rng().below(9)] : o.a > 2147480000 ? o.a : o.a + (basicsys::i32)rng().below(12); if (o.b < o.a) std::swap(o.a, o.b); break; }
	case UNIFORM: case UNIFORM_IID:
		do { o.lo = pick_bound(); o.hi = rng().below(3) ? pick_bound() : o.lo + (1 + rng().below(4)) * (rng().below(2) ? 1 : fabs(o.lo) * DBL_EPSILON); if (o.hi < o.lo) std::swap(o.lo, o.hi); } while (!(nextafter(o.lo, o.hi) < o.hi));
		if (o.kind == UNIFORM_IID) { draw_shape(o, 60); o.depth = rng().below(10); if (o.depth < 8) { o.lo = o.depth & 1 ? -(f64)rng().below(100) : rng().below(100); o.hi = o.lo + 1 + rng().below(100); if (o.depth == 0 && o.hi > 255) o.hi = 255; if (o.depth == 1 && o.hi > 127) o.hi = 127; } else if (o.depth == 8 && fabs(o.hi) + fabs(o.lo) > 1e30) { o.lo = -3; o.hi = 8; } }
		break;
	case PERM: case SAMPLE: o.n = rng().below(rng().below(4) ? 12 : 200); if (rng().below(400) == 0) o.n = 65500 + rng().below(80); if (o.kind == SAMPLE && !o.n) o.n = 1; break;
	case BERNOULLI: case BERNOULLI_IID: o.n = rng().below(3) ? rng().below(12) : rng().below(rng().below(2) ? 60 : 400); if (rng().below(12) == 0) o.n = rng().below(3000); o.p = rng().below(5) ? rng().below(1001) / 1000.0 : rng().below(2); if (o.kind == BERNOULLI_IID) { draw_shape(o, 40); o.depth = rng().below(10); if (o.n > 400) o.n = 400; if (o.depth < 2 && o.n > 100) o.n = 100; } break;
	default: { static const f64 m[] = {0, 1, -5, 1e6, 100, 1e-9}; static const f64 d[] = {0, 1, 20, 1e-6, 1e6}; o.mean = m[rng().below(6)]; o.sd = d[rng().below(5)]; if (o.kind != GAUSS) { draw_shape(o, o.kind == GAUSS_MV ? 12 : 40); o.depth = 8 + rng().below(2); if (o.kind == GAUSS_IID && rng().below(3) == 0) { o.depth = rng().below(8); o.mean = 60; o.sd = rng().below(2); } o.n = 1 + rng().below(3); } break; }
	}
	return o;
}
std::string describe(const Op& o) {
	char b[300]; std::string sh; for (size_t i = 0; i < o.sizes.size(); ++i) sh += (i ? "x" : "") + std::to_string(o.sizes[i]); if (!o.sizes.empty()) sh = ", " + sh + " depth " + std::to_string(o.depth) + " channels " + std::to_string(o.ch);
	switch (o.kind) {
	case NEXT: snprintf(b, sizeof b, "(%d, %d)", o.a, o.b); break;
	case UNIFORM: case UNIFORM_IID: snprintf(b, sizeof b, "%c%.17g, %.17g%c", o.lo_open ? '(' : '[', o.lo, o.hi, o.hi_open ? ')' : ']'); break;
	case PERM: case SAMPLE: snprintf(b, sizeof b, "(%d)", o.n); break;
	case BERNOULLI: case BERNOULLI_IID: snprintf(b, sizeof b, "(%d, %g)", o.n, o.p); break;
	default: snprintf(b, sizeof b, "(mean %g, deviation %g)", o.mean, o.sd);
	}
	return std::string(NAMES[o.kind]) + b + sh;
}
void bad_value(const Op& o, const char* what, f64 v) { violation("out-of-range", "%s gave %.17g: %s", describe(o).c_str(), v, what); }
void check_uniform(const Op& o, f64 v) {
	if (!(v >= o.lo && v <= o.hi)) bad_value(o, "outside the interval", v);
	if (o.lo_open && v == o.lo) bad_value(o, "the lower bound is left out", v);
	if (o.hi_open && v == o.hi) bad_value(o, "the upper bound is left out", v);
}
f64 conv(int depth, f64 v) { unsigned char b[8]; mats::put(depth, b, v); return mats::get(depth, b); }
u64 check_mat(const Op& o, const mt_mat& m, f64* first = NULL) {
	mats::View v; v.sizes = o.sizes; v.depth = o.depth; v.ch = o.ch; std::string d = mats::shape_diff(m, v); if (!d.empty()) violation("wrong-shape", "%s gave another %s", describe(o).c_str(), d.c_str());
	u64 h = 7; int n = v.number(); std::set<f64> seen;
	for (int k = 0; k < n; ++k) for (int c = 0; c < o.ch; ++c) {
		const unsigned char* p = mats::at(m, v, k) + c * mats::DS[o.depth]; if (!heap_owns(p, mats::DS[o.depth])) violation("pixels-lost", "%s: element %d lies outside live memory", describe(o).c_str(), k);
		f64 x = mats::get(o.depth, p); h = hash_bytes(p, mats::DS[o.depth], h); seen.insert(x); if (first) *first++ = x;
		switch (o.kind) {
		case UNIFORM_IID: if (o.depth == 9) check_uniform(o, x); else if (!(x >= conv(o.depth, o.lo) && x <= conv(o.depth, o.hi))) bad_value(o, "outside the interval", x); break;
		case ZERO_IID: { f64 r = conv(o.depth, sqrt(3.0) * o.sd) * (1 + 1e-6); if (!(x >= -r && x <= r)) bad_value(o, "outside the interval of that deviation", x); break; }
		case BERNOULLI_IID: if (!(x >= 0 && x <= o.n) || x != floor(x)) bad_value(o, "no number of successes", x); if (o.p == 0 && x != 0) bad_value(o, "a success of probability 0", x); if (o.p == 1 && x != o.n) bad_value(o, "a failure of probability 0", x); break;
		default: if (!(x - x == 0)) bad_value(o, "not finite", x); if (o.sd == 0 && x != conv(o.depth, o.mean)) bad_value(o, "without deviation, yet not the mean", x); if (fabs(x - o.mean) > 12 * o.sd + 1e-6 * fabs(o.mean) + (o.depth < 8)) bad_value(o, "more than twelve deviations away", x);
		}
	}
	bool cont = (o.kind == UNIFORM_IID || o.kind == GAUSS_IID || o.kind == ZERO_IID || o.kind == GAUSS_MV) && o.depth == 9 && (o.kind == UNIFORM_IID ? o.hi - o.lo > 1e-5 * fabs(o.lo) : o.sd > 1e-7 * fabs(o.mean));
	if (stats_on && cont && n * o.ch >= 3 && seen.size() < 2) violation("not-random", "%s: all %d elements are the same", describe(o).c_str(), n * o.ch);
	return h;
}
mt_mat draw_mat(const Op& o) {
	Sut on; mt_Depth_Channel dc((mt_Depth)o.depth, o.ch); int D = (int)o.sizes.size(); const int* s = &o.sizes[0];
	switch (o.kind) {
	case UNIFORM_IID: if (o.overload && D == 2) return mt_random::random_uniform_iid(s[0], s[1], dc, o.lo, o.lo_open, o.hi, o.hi_open); if (o.overload && D == 3) return mt_random::random_uniform_iid(s[0], s[1], s[2], dc, o.lo, o.lo_open, o.hi, o.hi_open); return mt_random::random_uniform_iid(D, s, dc, o.lo, o.lo_open, o.hi, o.hi_open);
	case ZERO_IID: return mt_random::random_zero_center_uniform_iid(D, s, dc, o.sd);
	case BERNOULLI_IID: if (o.overload && D == 2) return mt_random::bernoulli_iid(s[0], s[1], dc, o.n, o.p); return mt_random::bernoulli_iid(D, s, dc, o.n, o.p);
	default: if (o.overload && D == 2) return mt_random::gaussian_iid(s[0], s[1], dc, o.mean, o.sd); if (o.overload && D == 3) return mt_random::gaussian_iid(s[0], s[1], s[2], dc, o.mean, o.sd); if (o.overload) { std::vector<basicsys::i32> v(s, s + D); return mt_random::gaussian_iid(v, dc, o.mean, o.sd); } return mt_random::gaussian_iid(D, s, dc, o.mean, o.sd);
	}
}
u64 exec(const Op& o) {
	switch (o.kind) {
	case NEXT: { basicsys::i32 v; { Sut on; v = mt_random::random_next_i32(o.a, o.b); } if (v < o.a || v > o.b) bad_value(o, "outside the interval", v); return mix((u64)v); }
	case UNIFORM: { f64 v; { Sut on; v = mt_random::random_uniform(o.lo, o.lo_open, o.hi, o.hi_open); } check_uniform(o, v); return hash_bytes(&v, 8); }
	case PERM: case SAMPLE: { std::vector<basicsys::i32> v; std::vector<int> w; { Sut on; std::vector<basicsys::i32> r; if (o.n & 1) r.resize(3, 9); if (o.kind == PERM) mt_random::randperm(r, o.n); else mt_random::randSample(o.n, r); Quiet q; v.assign(r.begin(), r.end()); }
		if ((int)v.size() != o.n) violation("wrong-shape", "%s gave %zu numbers", describe(o).c_str(), v.size()); std::vector<char> seen(o.n + 1);
		for (int i = 0; i < o.n; ++i) { if (v[i] < 0 || v[i] >= o.n) bad_value(o, "outside the interval", v[i]); if (o.kind == PERM && seen[v[i]]) bad_value(o, "twice in a permutation", v[i]); seen[v[i]] = 1; }
		return hash_bytes(v.data(), v.size() * 4); }
	case BERNOULLI: { basicsys::i32 v; { Sut on; v = mt_random::bernoulli(o.n, o.p); } if (v < 0 || v > o.n) bad_value(o, "no number of successes", v); if (o.p == 0 && v) bad_value(o, "a success of probability 0", v); if (o.p == 1 && v != o.n) bad_value(o, "a failure of probability 0", v); return mix((u64)v); }
	case GAUSS: { f64 v; { Sut on; v = mt_random::gaussian(o.mean, o.sd); } if (!(v - v == 0)) bad_value(o, "not finite", v); if (fabs(v - o.mean) > 12 * o.sd + 1e-9 * fabs(o.mean)) bad_value(o, "more than twelve deviations away", v); return hash_bytes(&v, 8); }
	case GAUSS_MV: {
		u64 h = 5; std::vector<mt_mat>* r; mt_mat *mean, *var; mt_Depth_Channel dc((mt_Depth)o.depth, o.ch); int D = (int)o.sizes.size(); Op z = o; z.sd = o.sd > 1 ? o.sd * o.sd : o.sd;
		{ Sut on; r = new std::vector<mt_mat>(); mean = new mt_mat(D, &o.sizes[0], dc); mean->set(o.mean); var = new mt_mat(D, &o.sizes[0], dc); var->set(o.sd); mt_random::gaussian_iid(*r, o.n, *mean, *var); }
		if ((int)r->size() != o.n) violation("wrong-shape", "%s gave %zu matrices instead of %d", describe(o).c_str(), r->size(), o.n);
		z.sd = o.sd > 0 && o.sd < 1 ? sqrt(o.sd) : o.sd; for (int i = 0; i < o.n; ++i) h = mix2(h, check_mat(z, (*r)[i])); 
		{ Sut on; delete r; delete mean; delete var; } return h; }
	default: { mt_mat* m; { Sut on; m = new mt_mat(); *m = draw_mat(o); } u64 h = check_mat(o, *m); { Sut on; delete m; } return h; }
	}
}
// Draws many numbers: their spread must be that of the distribution.
void spread() {
	const int N = 400; f64 x[N]; Op o = gen(); int kind = rng().below(6); bool mat = rng().below(2) && (kind == 0 || kind == 1 || kind == 2); o.kind = kind == 0 ? UNIFORM : kind == 1 ? GAUSS : kind == 2 ? BERNOULLI : kind == 3 ? NEXT : kind == 4 ? PERM : SAMPLE;
	o.lo = -3; o.hi = 5; o.mean = 7; o.sd = 2; o.n = rng().below(6) ? 2 + rng().below(rng().below(2) ? 5 : 40) : 900 + rng().below(700); o.p = (100 + rng().below(801)) / 1000.0; o.a = -2; o.b = o.a + 1 + rng().below(7); f64 mean, var;
	if (mat) { o.kind = kind == 0 ? UNIFORM_IID : kind == 1 ? GAUSS_IID : BERNOULLI_IID; o.depth = 9; o.overload = 0; static const int f[][4] = {{20, 20, 1, 1}, {5, 8, 5, 2}, {10, 4, 1, 10}, {2, 100, 2, 1}}; const int* q = f[rng().below(4)]; o.sizes.assign(q, q + 3); o.ch = q[3]; mt_mat* m; { Sut on; m = new mt_mat(); *m = draw_mat(o); } check_mat(o, *m, x); { Sut on; delete m; } }
	int slots = o.kind == NEXT ? o.b - o.a + 1 : 0, at = 0; if (o.kind == PERM || o.kind == SAMPLE) { o.n = slots = 2 + rng().below(5); at = rng().below(o.n); }
	for (int i = 0; i < N && !mat; ++i) { Sut on; switch (o.kind) {
		case UNIFORM: x[i] = mt_random::random_uniform(o.lo, o.lo_open, o.hi, o.hi_open); break; case GAUSS: x[i] = mt_random::gaussian(o.mean, o.sd); break; case BERNOULLI: x[i] = mt_random::bernoulli(o.n, o.p); break; case NEXT: x[i] = mt_random::random_next_i32(o.a, o.b) - o.a; break;
		default: { std::vector<basicsys::i32> r; if (o.kind == PERM) mt_random::randperm(r, o.n); else mt_random::randSample(o.n, r); x[i] = r.at(at); } } }
	count("spread_checks");
	if (slots) { std::vector<int> c(slots); for (int i = 0; i < N; ++i) { if (!(x[i] >= 0 && x[i] < slots)) bad_value(o, "outside the interval", x[i]); ++c[(int)x[i]]; } for (int s = 0; s < slots; ++s) { f64 e = (f64)N / slots, d = sqrt(e * (1 - 1.0 / slots)); if (fabs(c[s] - e) > 8 * d + 2) violation("not-random", "%s: %d of %d draws gave number %d, expected are %.0f", describe(o).c_str(), c[s], N, s, e); } return; }
	if (kind == 0) { mean = 1; var = 64 / 12.0; } else if (kind == 1) { mean = 7; var = 4; } else { mean = o.n * o.p; var = mean * (1 - o.p); }
	f64 s = 0, q = 0; for (int i = 0; i < N; ++i) s += x[i]; s /= N; for (int i = 0; i < N; ++i) q += (x[i] - mean) * (x[i] - mean); q /= N;
	if (fabs(s - mean) > 8 * sqrt(var / N)) violation("not-random", "%s: the mean of %d draws is %.4g instead of %.4g", describe(o).c_str(), N, s, mean);
	if (q < 0.5 * var || q > 1.8 * var) violation("not-random", "%s: the variance of %d draws is %.4g instead of %.4g", describe(o).c_str(), N, q, var);
	f64 cov = 0; for (int i = 1; i < N; ++i) cov += (x[i] - mean) * (x[i - 1] - mean); cov /= N - 1; if (fabs(cov) > 8 * var / sqrt(N)) violation("not-random", "%s: two draws in a row have the correlation %.2f", describe(o).c_str(), cov / var);
	static const f64 z[] = {-1.2815515655446004, -0.8416212335729143, -0.5244005127080409, -0.2533471031357997, 0, 0.2533471031357997, 0.5244005127080407, 0.8416212335729143, 1.2815515655446004};
	std::vector<f64> top; if (kind == 0) for (int i = 1; i < 10; ++i) top.push_back(o.lo + (o.hi - o.lo) * i / 10); else if (kind == 1) for (int i = 0; i < 9; ++i) top.push_back(mean + z[i] * o.sd);
	if (kind < 2) { std::vector<int> c(10); for (int i = 0; i < N; ++i) { int k = 0; while (k < 9 && x[i] >= top[k]) ++k; ++c[k]; } for (int k = 0; k < 10; ++k) if (fabs(c[k] - N / 10.0) > 8 * sqrt(N * 0.09) + 2) violation("not-random", "%s: %d of %d draws lie in tenth %d of the distribution", describe(o).c_str(), c[k], N, k); }
	else if (o.n < 60) { std::vector<int> c(o.n + 1); for (int i = 0; i < N; ++i) ++c[(int)x[i]]; for (int k = 0; k <= o.n; ++k) { f64 lp = lgamma(o.n + 1) - lgamma(k + 1) - lgamma(o.n - k + 1) + k * log(o.p) + (o.n - k) * log(1 - o.p), e = N * ::exp(lp); if (fabs(c[k] - e) > 8 * sqrt(e) + 4) violation("not-random", "%s: %d of %d draws gave %d, expected are %.1f", describe(o).c_str(), c[k], N, k, e); } }
	int same = 0; for (int i = 1; i < N; ++i) same += x[i] == x[i - 1]; if (kind < 2 && same > 2) violation("not-random", "%s: %d of %d draws equal the one before", describe(o).c_str(), same, N);
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	int nthreads = (int)param("threads", 1, 4), nops = (int)param("operations", 1, 12); static const sim::i64 ex[] = {0, 20, 200, 1000}; int extremes = (int)param_of("extremes_per_1000", ex, 4); stats_on = !extremes; set_rand_extremes(extremes);
	{ Sut s; mt_mat m(1, mt_U8C1); basiclog_info2("first"); } log->out.clear();
	HeapStats before = sut_heap(); u64 h = 3;
	{ // a seed repeats what is drawn
		basicsys::u32 seed = rng().below(3) ? rng().next() : rng().below(3); std::vector<Op> ops; for (int i = 0; i < nops; ++i) ops.push_back(gen()); std::vector<u64> got; int skew = rng().below(3);
		{ Sut on; mt_random::set_seed(seed); } for (int i = 0; i < nops; ++i) { got.push_back(exec(ops[i])); h = mix2(h, got.back()); }
		for (int i = 0; i < skew; ++i) { Sut on; mt_random::random_next_i32(0, 5); } if (rng().below(3) == 0) { std::vector<basicsys::i32> r; Sut on; mt_random::randperm(r, 3); }
		{ Sut on; mt_random::set_seed(seed); } for (int i = 0; i < nops; ++i) if (exec(ops[i]) != got[i]) violation("not-repeatable", "%s gave something else after the same seed %u and the same %d calls", describe(ops[i]).c_str(), seed, i);
		if (stats_on) { std::set<u64> seqs; for (int k = 0; k < 3; ++k) { u64 q = 1; Sut on; mt_random::set_seed(seed + k); for (int i = 0; i < 6; ++i) q = mix2(q, (u64)mt_random::random_next_i32(-2147483647 - 1, 2147483647)); Quiet z; seqs.insert(q); } if (seqs.size() != 3) violation("not-random", "different seeds give the same numbers"); }
	}
	if (stats_on && rng().below(4) == 0) spread();
	if (nthreads > 1) { Threads th; for (int t = 0; t < nthreads; ++t) th.start([nops] { for (int i = 0; i < nops; ++i) { exec(gen()); count("operations"); } }); th.join(); }
	for (size_t i = 0; i < log->out.size(); ++i) violation("false-error", "a legal draw logged: %s", log->out[i].c_str());
	leak_check(before, "");
	heap_check(); count("operations", 2 * nops); count("random_numbers", rand_draws()); if (rand_draws()) nontrivial(h);
	note("%d threads, %d operations, %d of 1000 numbers extreme", nthreads, nops, extremes);
}
Registrar r({"C23", run, 60000, 600000,
	"one run: up to 12 draws (bounded integers, uniform in open or closed intervals of any magnitude, permutations, samples, Bernoulli, Gaussian, and matrices of each) twice after the same seed, then by up to 4 threads at once; the C library's rand is simulated and delivers its extreme values as a fault. Every value must lie in its interval, a seed must repeat everything, and without extremes the spread over 400 draws must be that of the distribution. Non-trivial: a random number was drawn.",
	"basicmath/src/mt_random.cpp, mt_mat.cpp, mt_array_iteration.cpp, mt_helper (real code)", "rand and srand (simulated), thread scheduling, heap (simulated), log output (captured)"});
}
