// C25: edges, strokes and the gradients they come from, against definitions written anew.
#include "img_common.h"
#include "img_canny.h"
#include "img_auto_threshold_canny.h"
#include "img_stroke_width_transform.h"
#include <new>
using namespace sim;
namespace {
using namespace basicmath; using namespace basicimg;
typedef basicsys::u8 byte_t; typedef basicsys::i32 n32; typedef basicsys::i16 n16;
typedef std::vector<float> F; typedef std::vector<int> I;
bool mem_faults;
template <class W> bool attempt(W f) { if (!mem_faults) { f(); return true; } bool ok = true; set_alloc_fail(1, 12); try { f(); } catch (const std::bad_alloc&) { ok = false; } set_alloc_fail(0, 0); if (!ok) count("out_of_memory_reported"); return ok; }

// A matrix of one channel: of its own, a part of a bigger one or in memory of the caller with padded rows.
template <class T> struct Grid {
	mt_mat* m; std::vector<byte_t> own; int w, h; std::vector<T> v;
	Grid(int w_, int h_, const std::vector<T>& v_, mt_Depth_Channel type) : m(NULL), w(w_), h(h_), v(v_) {
		int how = rng().below(4), l = how == 1 ? rng().below(3) : 0, t = how == 1 ? rng().below(3) : 0, r = how == 1 ? rng().below(4) : 0, b = how == 1 ? rng().below(2) : 0, pad = how == 2 ? (int)rng().below(5) * (int)sizeof(T) : 0;
		if (how == 2) { int steps[2] = {(int)(w * sizeof(T)) + pad, (int)sizeof(T)}; own.assign((size_t)steps[0] * h, 0); for (auto& c : own) c = rng().below(256); Sut s; m = new mt_mat(h, w, type, &own[0], steps); }
		else { Sut s; mt_mat* whole = new mt_mat(h + t + b, w + l + r, type); if (how == 1) { m = new mt_mat(*whole, mt_rect(l, t, w, h)); delete whole; } else m = whole; }
		const mt_mat& c = *m; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) memcpy((void*)(c.data() + (long)y * c.step()[0] + x * sizeof(T)), &v[(size_t)y * w + x], sizeof(T));
	}
	void check(const std::string& who, const char* what) { const mt_mat& c = *m; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (memcmp(c.data() + (long)y * c.step()[0] + x * sizeof(T), &v[(size_t)y * w + x], sizeof(T))) violation("input-changed", "%s: %s of the caller changed at (%d,%d)", who.c_str(), what, x, y); }
	~Grid() { Sut s; delete m; }
};
template <class T> std::vector<T> read(const mt_mat& m, int w, int h, mt_Depth_Channel type, const std::string& who) {
	if (m.dim() != 2 || m.size()[0] != h || m.size()[1] != w || !(m.depth_channel() == type)) violation("wrong-shape", "%s: the result is no %dx%d matrix of its type", who.c_str(), w, h);
	std::vector<T> r((size_t)w * h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) memcpy(&r[(size_t)y * w + x], m.data() + (long)y * m.step()[0] + (long)x * m.step()[1], sizeof(T)); return r;
}
std::string show_bits(const std::vector<byte_t>& v, int w, int h) { std::string o; for (int y = 0; y < h && y < 12; ++y) { for (int x = 0; x < w && x < 40; ++x) o += v[(size_t)y * w + x] ? '#' : '.'; o += '/'; } return o; }

// ---- gradients ----------------------------------------------------------------------------------------------------------
struct Scene { int w, h; I px; F gx, gy; };
Scene draw_scene() {
	Scene s; static const int cap[] = {4, 9, 18, 40}; int c = rng().below(120) ? cap[rng().below(4)] : 120; s.w = 1 + rng().below(c); s.h = 1 + rng().below(c); if (rng().below(16) == 0) (rng().below(2) ? s.w : s.h) = 1; if (rng().below(1500) == 0) { s.w = 1 + rng().below(3); s.h = 65500 + rng().below(100); if (rng().below(2)) std::swap(s.w, s.h); if (rng().below(2)) s.w = s.h = 257 + rng().below(60); count("large"); } int kind = rng().below(6), amp = 1 + rng().below(255), cell = 2 + rng().below(6), noise = rng().below(3) ? 0 : rng().below(30); I patch; for (int i = 0; i < 400; ++i) patch.push_back(rng().below(2) ? (int)rng().below(amp + 1) : amp);
	for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { int v; switch (kind) { case 0: v = rng().below(256); break; case 1: v = (x / cell) % 2 ? amp : 0; break; case 2: v = (y / cell) % 2 ? amp : 0; break; case 3: v = ((x + y) / cell) % 2 ? amp : 0; break; case 4: v = patch[(y / cell % 20) * 20 + x / cell % 20]; break; default: v = (x - s.w / 2) * (x - s.w / 2) + (y - s.h / 2) * (y - s.h / 2) < cell * cell * 2 ? amp : 0; } if (noise) v += (int)rng().below(noise); s.px.push_back(std::min(v, 255)); }
	auto at = [&](int x, int y) { return s.px[(size_t)std::min(std::max(y, 0), s.h - 1) * s.w + std::min(std::max(x, 0), s.w - 1)]; };
	bool any = rng().below(4) == 0; int big = rng().below(2) ? 1020 : 60;
	for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { if (any) { s.gx.push_back((float)((int)rng().below(2 * big + 1) - big)); s.gy.push_back((float)((int)rng().below(2 * big + 1) - big)); } else {
		s.gx.push_back((float)(at(x + 1, y - 1) - at(x - 1, y - 1) + 2 * (at(x + 1, y) - at(x - 1, y)) + at(x + 1, y + 1) - at(x - 1, y + 1))); s.gy.push_back((float)(at(x - 1, y + 1) - at(x - 1, y - 1) + 2 * (at(x, y + 1) - at(x, y - 1)) + at(x + 1, y + 1) - at(x + 1, y - 1))); } }
	return s;
}
// Nearly every pixel is a peak in some direction, and they all hang together: the most there is to trace.
Scene dense_scene(F& mag) {
	Scene s; s.w = 50 + rng().below(30); s.h = 50 + rng().below(30); I v; for (int i = 0; i < s.w * s.h; ++i) v.push_back(50 + (int)rng().below(900)); auto at = [&](int x, int y) { return x < 0 || y < 0 || x >= s.w || y >= s.h ? 0 : v[(size_t)y * s.w + x]; }; s.px.assign((size_t)s.w * s.h, 0); s.gx.assign((size_t)s.w * s.h, 0.f); s.gy = s.gx; mag.clear();
	for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { int k = at(x, y); size_t i = (size_t)y * s.w + x; if (k > at(x - 1, y) && k >= at(x + 1, y)) s.gx[i] = 100; else if (k > at(x, y - 1) && k >= at(x, y + 1)) s.gy[i] = 100; else if (k > at(x - 1, y - 1) && k > at(x + 1, y + 1)) s.gx[i] = s.gy[i] = 100; else if (k > at(x + 1, y - 1) && k > at(x - 1, y + 1)) { s.gx[i] = 100; s.gy[i] = -100; } mag.push_back((float)k); }
	return s;
}
F magnitude(const Scene& s, bool l2) { F r; for (size_t i = 0; i < s.gx.size(); ++i) { double x = s.gx[i], y = s.gy[i]; r.push_back((float)(l2 ? sqrt(x * x + y * y) : fabs(x) + fabs(y))); } return r; }

// Edges: local maxima across the edge above the low threshold that hang together with one above the high threshold.
std::vector<byte_t> canny(const Scene& s, const F& mag, int low, int high) {
	int w = s.w, h = s.h; auto M = [&](int x, int y) { return x < 0 || y < 0 || x >= w || y >= h ? 0 : (int)mag[(size_t)y * w + x]; }; std::vector<byte_t> cand((size_t)w * h, 0), r((size_t)w * h, 0); I todo;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t i = (size_t)y * w + x; int m = M(x, y); if (m <= low) continue; long long gx = (long long)s.gx[i], gy = (long long)s.gy[i], ax = llabs(gx), ay = llabs(gy) * 32768, t = 13573 * ax; bool peak; if (ay < t) peak = m > M(x - 1, y) && m >= M(x + 1, y); else if (ay > t + ax * 65536) peak = m > M(x, y - 1) && m >= M(x, y + 1); else { int d = (gx < 0) != (gy < 0) ? -1 : 1; peak = m > M(x - d, y - 1) && m > M(x + d, y + 1); }
		if (peak) { cand[i] = 1; if (m > high) { todo.push_back((int)i); r[i] = 255; } } }
	while (!todo.empty()) { int i = todo.back(); todo.pop_back(); int x = i % w, y = i / w; for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X >= w || Y >= h) continue; int j = Y * w + X; if (cand[j] && !r[j]) { r[j] = 255; todo.push_back(j); } } }
	return r;
}
struct Auto { int window, max, min, dense, noise, overlap; float ratio, share, mean_ratio; };
// Edges whose high threshold follows the mean of the edges around. False: too close to call in floating point.
bool auto_canny(const Scene& s, const F& mag, const Auto& a, std::vector<byte_t>& edge) {
	int w = s.w, h = s.h, step = a.window / 4, nr = h / step, nc = w / step, full = (int)(a.window * a.window * a.share); std::vector<byte_t> all = canny(s, mag, (int)(a.min * a.ratio), a.min), open = all; std::vector<double> sum((size_t)nr * nc + 1, 0.0); I num((size_t)nr * nc + 1, 0), crowded((size_t)nr * nc + 1, 0); bool clear = true;
	for (int r = 0; r + 4 <= nr; ++r) for (int c = 0; c + 4 <= nc; ++c) { int y1 = r + 4 == nr ? h : r * step + a.window, x1 = c + 4 == nc ? w : c * step + a.window, n = 0; double t = 0; for (int y = r * step; y < y1; ++y) for (int x = c * step; x < x1; ++x) if (all[(size_t)y * w + x]) { ++n; t += mag[(size_t)y * w + x]; } if (n) for (int i = r; i < r + 4; ++i) for (int j = c; j < c + 4; ++j) { sum[(size_t)i * nc + j] += t; num[(size_t)i * nc + j] += n; crowded[(size_t)i * nc + j] += n >= full; } }
	std::vector<double> thr((size_t)w * h, 0.0); edge.assign((size_t)w * h, 0);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t i = (size_t)y * w + x; if (!all[i]) continue; double t = 0; bool exact = true; if (nr && nc) { size_t b = (size_t)std::min(y / step, nr - 1) * nc + std::min(x / step, nc - 1); if (num[b]) { t = sum[b] / num[b] * a.mean_ratio; exact = false; } if (crowded[b] > a.overlap) { t = a.dense; exact = true; } } double f = t; if (t < a.min) t = a.min; else if (t > a.max) t = a.max; if (!exact && (fabs(f - a.min) < 0.01 || fabs(f - a.max) < 0.01)) clear = false; if (t != f) exact = true; thr[i] = (float)t; if (!exact && fabs(mag[i] - t) < 0.01) clear = false; if (mag[i] > t) edge[i] = 255; if (!exact) for (size_t k = 0; k < mag.size(); ++k) if (fabs(mag[k] - t * a.ratio) < 0.01) clear = false; }
	// weak groups of few pixels go
	std::vector<byte_t> seen((size_t)w * h, 0);
	for (int y = 1; y + 1 < h; ++y) for (int x = 1; x + 1 < w; ++x) { size_t i = (size_t)y * w + x; if (!edge[i] || mag[i] >= 100 || seen[i]) continue; I group(1, (int)i), todo(1, (int)i); seen[i] = 1; bool strong = false; while (!todo.empty()) { int k = todo.back(); todo.pop_back(); for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = k % w + dx, Y = k / w + dy, j = Y * w + X; if (seen[j] || !edge[j]) continue; seen[j] = 1; group.push_back(j); strong = strong || mag[j] >= 100; if (X > 0 && Y > 0 && X < w - 1 && Y < h - 1) todo.push_back(j); } } if (!strong && (int)group.size() <= a.noise) for (int k : group) edge[k] = 0; }
	// what hangs together with an edge above the low threshold belongs to it
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int i = y * w + x; if (!edge[i] || !open[i]) continue; float low = (float)thr[i] * a.ratio; I todo(1, i); open[i] = 0; while (!todo.empty()) { int k = todo.back(); todo.pop_back(); for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = k % w + dx, Y = k / w + dy, j = Y * w + X; if (X < 0 || Y < 0 || X >= w || Y >= h || mag[j] < low || edge[j] || !open[j]) continue; edge[j] = 255; open[j] = 0; todo.push_back(j); } } }
	return clear;
}
// The width of strokes: from every edge pixel across to the opposite edge.
std::vector<n16> strokes(const Scene& s, const std::vector<byte_t>& edge, bool dark, n16 none, int angle, bool& clear) {
	int w = s.w, h = s.h; std::vector<n16> r((size_t)w * h, none); std::vector<std::pair<I, int> > rays; auto inside = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h; }; double limit = cos(angle * 3.14159265358979323846 / 180);
	auto near = [](float v) { return (int)(v > 0 ? (long long)(v + 0.5) : (long long)(v - 0.5)); };
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { size_t i = (size_t)y * w + x; if (edge[i] != 255 || (s.gx[i] == 0 && s.gy[i] == 0)) continue; float gx = s.gx[i], gy = s.gy[i], n = sqrtf(gx * gx + gy * gy); gx /= n; gy /= n; if (dark) { gx = -gx; gy = -gy; }
		I ray(1, (int)i); float fx = (float)x, fy = (float)y; int px = x, py = y; bool first = true, between = false;
		for (bool go = true; go;) { fx += gx; fy += gy; int nx = near(fx), ny = near(fy); if (nx == px && ny == py) continue; int qx[2] = {nx, 0}, qy[2] = {ny, 0}, nq = 1; if (nx != px && ny != py) { nq = 2; bool along = fabsf(gy) <= fabsf(gx) ? gx > 0 : gy <= 0; qx[1] = along ? nx : px; qy[1] = along ? py : ny; }
			px = nx; py = ny; bool out = true, pushed = false;
			for (int k = 0; k < nq && go; ++k) { int X = qx[k], Y = qy[k]; if (!inside(X, Y)) continue; out = false; bool e = edge[(size_t)Y * w + X] == 255; if (e && first) continue; if (!e) { between = true; if (!k) pushed = true; ray.push_back(Y * w + X); continue; }
				go = false; if (!between) continue; static const int DX[] = {0, 1, 1, 0, -1, -1, -1, 0, 1}, DY[] = {0, 0, -1, -1, -1, 0, 1, 1, 1};
				for (int d = 0; d < 9; ++d) { int u = X + DX[d], v = Y + DY[d]; if (d && (!inside(u, v) || (abs(u - x) <= 1 && abs(v - y) <= 1) || edge[(size_t)v * w + u] != 255)) continue; float ox = s.gx[(size_t)v * w + u], oy = s.gy[(size_t)v * w + u], on = sqrtf(ox * ox + oy * oy); if (on == 0) continue; if (dark) { ox = -ox; oy = -oy; } float c = (gx * -ox + gy * -oy) / on; if (fabs(c - limit) < 1e-5) clear = false; if (!(c >= limit)) continue;
					if (k == 0) ray.push_back(v * w + u); else if (pushed) ray.back() = v * w + u; if (ray.size() > 2) { int a = ray[0], b = ray.back(); float dx = (float)(a % w - b % w), dy = (float)(a / w - b / w); rays.push_back(std::make_pair(ray, std::max(1, near(sqrtf(dx * dx + dy * dy)) - 1))); } break; } }
			first = false; if (out) go = false; } }
	for (auto& a : rays) for (int p : a.first) r[p] = (n16)std::min((int)r[p], a.second);
	std::vector<int> med; for (auto& a : rays) { I v; for (int p : a.first) v.push_back(r[p]); std::sort(v.begin(), v.end()); med.push_back(v[(v.size() - 1) / 2]); }
	for (size_t k = 0; k < rays.size(); ++k) for (int p : rays[k].first) r[p] = (n16)std::min((int)r[p], med[k]);
	if (!rays.empty()) count("images_with_strokes"); return r;
}

// ---- operations ---------------------------------------------------------------------------------------------------------
struct Detectors { img_canny* c; img_auto_threshold_canny* a; mt_mat* edge; bool cache, inner; int low, high; std::vector<Grid<float>*> kept; std::string last; };
// matrices given to an earlier call must not change in later ones
void look_back(Detectors& d, const std::string& who) { for (auto g : d.kept) g->check(who, "a gradient of an earlier call"); }
void keep(Detectors& d, Grid<float>* a, Grid<float>* b, Grid<float>* c) { for (auto g : {a, b, c}) if (g) { if (rng().below(2)) d.kept.push_back(g); else delete g; } while (d.kept.size() > 6) { delete d.kept[0]; d.kept.erase(d.kept.begin()); } }
std::string size_of(const Scene& s) { return "a " + std::to_string(s.w) + "x" + std::to_string(s.h) + " image"; }
void compare(const std::vector<byte_t>& got, const std::vector<byte_t>& want, const Scene& s, const std::string& who) { for (size_t i = 0; i < want.size(); ++i) if (got[i] != want[i]) violation("wrong-edge", "%s: (%d,%d) has %d instead of %d; edges %s", who.c_str(), (int)i % s.w, (int)i / s.w, got[i], want[i], show_bits(want, s.w, s.h).c_str()); int n = 0; for (byte_t b : want) n += b != 0; if (n) count("images_with_edges"); }
void do_canny(Detectors& d) {
	Scene s = draw_scene(); bool l2 = rng().below(2), own = rng().below(3) == 0, ret = rng().below(4) == 0, dense = rng().below(24) == 0; F mag = magnitude(s, l2); if (dense) { own = true; s = dense_scene(mag); d.low = rng().below(100); d.high = 500 + rng().below(440); count("dense_images"); } else if (own) for (auto& v : mag) v = rng().below(6) == 0 ? (float)rng().below(400) : floorf(v);
	Grid<float>*x = new Grid<float>(s.w, s.h, s.gx, mt_F32C1), *y = new Grid<float>(s.w, s.h, s.gy, mt_F32C1), *m = own ? new Grid<float>(s.w, s.h, mag, mt_F32C1) : NULL; std::vector<byte_t> px; for (int v : s.px) px.push_back((byte_t)v); Grid<byte_t> src(s.w, s.h, px, mt_U8C1);
	if (!dense && rng().below(2)) { d.low = rng().below(200); d.high = rng().below(4) ? d.low + rng().below(200) : rng().below(300); } if (rng().below(6) == 0) d.cache = !d.cache; bool clear = rng().below(6) == 0;
	std::string who = "canny of " + size_of(s) + ", thresholds " + std::to_string(d.low) + " and " + std::to_string(d.high) + (own ? ", given magnitude" : l2 ? ", L2" : ", L1") + (d.cache ? "" : ", no memory kept"); mt_mat* res = NULL; HeapStats h0 = sut_heap(); u64 had = 0;
	{ Sut q; d.c->set_low_threshold(d.low); d.c->set_high_threshold(d.high); d.c->set_l2_gradient(l2 ? sys_true : sys_false); d.c->enable_memory_cache(d.cache ? sys_true : sys_false); if (clear) { d.inner = false; d.c->clear_memory_cache(); } }
	bool ok = attempt([&] { Sut q; const mt_mat& im = *src.m; if (ret) res = new mt_mat(own ? d.c->edge_detection(im, *x->m, *y->m, *m->m) : d.c->edge_detection(im, *x->m, *y->m)); else if (own) d.c->edge_detection(*d.edge, *src.m, *x->m, *y->m, *m->m); else d.c->edge_detection(*d.edge, *src.m, *x->m, *y->m); }); (void)h0; (void)had;
	x->check(who, "the horizontal gradient"); y->check(who, "the vertical gradient"); if (m) m->check(who, "the magnitude"); look_back(d, who);
	if (ok) { compare(read<byte_t>(ret ? *res : *d.edge, s.w, s.h, mt_U8C1, who), canny(s, mag, d.low, d.high), s, who);
		if (d.cache && !own) { F got = read<float>(d.c->gradient_mag(), s.w, s.h, mt_F32C1, who + ", the magnitude kept"); for (size_t i = 0; i < mag.size(); ++i) if (!(fabs(got[i] - mag[i]) <= 1e-5 * mag[i])) violation("wrong-gradient", "%s: the magnitude kept is %g instead of %g", who.c_str(), got[i], mag[i]); }
		if (!d.cache) { const mt_mat& gm = d.c->gradient_mag(); if (!own && !gm.is_empty()) violation("memory-kept", "%s: the magnitude is still there", who.c_str()); } }
	d.inner = ok && !own && d.cache; { Sut q; delete res; } keep(d, x, y, m);
}
void do_auto(Detectors& d) {
	Scene s = draw_scene(); bool own = rng().below(2); F mag = magnitude(s, true); if (own) for (auto& v : mag) v = floorf(v); static const int win[] = {4, 8, 16}; Auto a = {win[rng().below(3)], 60 + (int)rng().below(200), (int)rng().below(60), (int)rng().below(250), (int)rng().below(6), (int)rng().below(6), (1 + rng().below(4)) / 4.f, rng().below(8) / 8.f, (1 + rng().below(6)) / 4.f};
	if (!own) for (size_t i = 0; i < mag.size(); ++i) { /* whole magnitudes, so that sums are exact */ s.gx[i] = s.gx[i] > s.gy[i] ? s.gx[i] : 0; if (s.gx[i] != 0) s.gy[i] = 0; mag[i] = fabsf(s.gx[i]) + fabsf(s.gy[i]); }
	Grid<float>*x = new Grid<float>(s.w, s.h, s.gx, mt_F32C1), *y = new Grid<float>(s.w, s.h, s.gy, mt_F32C1), *m = own ? new Grid<float>(s.w, s.h, mag, mt_F32C1) : NULL; std::vector<byte_t> px; for (int v : s.px) px.push_back((byte_t)v); Grid<byte_t> src(s.w, s.h, px, mt_U8C1);
	char t[200]; snprintf(t, sizeof t, "automatic canny of a %dx%d image, window %d, thresholds %d to %d, %d where dense (%g, %d), noise %d, low %g, mean %g", s.w, s.h, a.window, a.min, a.max, a.dense, a.share, a.overlap, a.noise, a.ratio, a.mean_ratio); std::string who = t; bool clear = rng().below(6) == 0, ret = rng().below(4) == 0; mt_mat* res = NULL; if (verbose()) { std::string o; for (float f : mag) { char n[20]; snprintf(n, 20, "%g ", f); o += n; } note("%s: %s", t, o.c_str()); }
	{ Sut q; d.a->set_auto_threshold_window_size(a.window); d.a->set_auto_threshold_max(a.max); d.a->set_auto_threshold_min(a.min); d.a->set_auto_threshold_density(a.dense); d.a->set_low_to_high_ratio(a.ratio); d.a->set_density_flag_number_to_window_ratio(a.share); d.a->set_density_window_flag_overlap_number_threshold(a.overlap); d.a->set_auto_threshold_to_mean_ratio(a.mean_ratio); d.a->set_m_noise_edge_number_threshold(a.noise); if (clear) d.a->clear_memory_cache(); }
	bool ok = attempt([&] { Sut q; const mt_mat& im = *src.m; if (ret) res = new mt_mat(own ? d.a->edge_detection(im, *x->m, *y->m, *m->m) : d.a->edge_detection(im, *x->m, *y->m)); else if (own) d.a->edge_detection(*d.edge, *src.m, *x->m, *y->m, *m->m); else d.a->edge_detection(*d.edge, *src.m, *x->m, *y->m); });
	x->check(who, "the horizontal gradient"); y->check(who, "the vertical gradient"); if (m) m->check(who, "the magnitude"); look_back(d, who);
	if (ok) { std::vector<byte_t> want, got = read<byte_t>(ret ? *res : *d.edge, s.w, s.h, mt_U8C1, who); if (auto_canny(s, mag, a, want)) compare(got, want, s, who); else count("too_close_to_call"); }
	{ Sut q; delete res; } keep(d, x, y, m);
}
// A copy of a detector works on its own, the original keeps what it found.
void do_copy(Detectors& d) {
	bool inner = d.inner; F had; int w = 0, h = 0; { const mt_mat& g = d.c->gradient_mag(); if (d.inner && !g.is_empty()) { w = g.size()[1]; h = g.size()[0]; had = read<float>(g, w, h, mt_F32C1, "the magnitude kept"); } } img_canny* c; img_auto_threshold_canny* a; bool assign = rng().below(2), swap = rng().below(2);
	{ Sut s; if (assign) { c = new img_canny; *c = *d.c; *c = *c; a = new img_auto_threshold_canny; *a = *d.a; } else { c = new img_canny(*d.c); a = new img_auto_threshold_canny(*d.a); } } std::swap(c, d.c); std::swap(a, d.a); do_canny(d); if (rng().below(2)) do_auto(d); std::swap(c, d.c); std::swap(a, d.a);
	if (w) { F now = read<float>(d.c->gradient_mag(), w, h, mt_F32C1, "the magnitude kept"); for (size_t i = 0; i < now.size(); ++i) if (memcmp(&now[i], &had[i], sizeof(float))) violation("copy-shares", "a copy of the detector changed the magnitude of the original"); }
	d.inner = inner && !swap; if (swap) { std::swap(c, d.c); std::swap(a, d.a); } Sut s; delete c; delete a;
}
void do_strokes() {
	Scene s = draw_scene(); bool dark = rng().below(2), edges = rng().below(3) != 0; static const int angles[] = {45, 0, 30, 61, 80}; int angle = angles[rng().below(2) ? 0 : rng().below(5)]; n16 none = rng().below(2) ? 32767 : 1000; F mag = magnitude(s, true); std::vector<byte_t> e = canny(s, mag, 20, 40); if (!edges) for (auto& v : e) v = rng().below(4) ? 0 : rng().below(8) ? 255 : 254; if (angle == 0) angle = 10;
	Grid<float> x(s.w, s.h, s.gx, mt_F32C1), y(s.w, s.h, s.gy, mt_F32C1); Grid<byte_t> ed(s.w, s.h, e, mt_U8C1); std::string who = "stroke widths of " + size_of(s) + (dark ? ", dark on light, angle " : ", light on dark, angle ") + std::to_string(angle); mt_mat *res = NULL, *norm = NULL; bool again = rng().below(2);
	if (verbose()) { note("%s: edges %s", who.c_str(), show_bits(e, s.w, s.h).c_str()); }
	bool ok = attempt([&] { Sut q; img_stroke_width_transform::params p; p.m_pair_intersect_angle = angle; p.m_invalid_stroke_width = none; p.m_dark_on_light = dark ? sys_true : sys_false; res = new mt_mat(img_stroke_width_transform::swt(*ed.m, *x.m, *y.m, p)); if (again) norm = new mt_mat(img_stroke_width_transform::normalize_swt_image(*res, none)); });
	x.check(who, "the horizontal gradient"); y.check(who, "the vertical gradient"); ed.check(who, "the edges");
	bool clear = true; std::vector<n16> want; if (ok) want = strokes(s, e, dark, none, angle, clear); if (!clear) count("too_close_to_call"); if (ok && clear) { std::vector<n16> got = read<n16>(*res, s.w, s.h, mt_I16C1, who); for (size_t i = 0; i < want.size(); ++i) if (got[i] != want[i]) violation("wrong-stroke", "%s: (%d,%d) has the width %d instead of %d; edges %s", who.c_str(), (int)i % s.w, (int)i / s.w, got[i], want[i], show_bits(e, s.w, s.h).c_str());
		if (again) { int lo = 32767, hi = 0; for (n16 v : want) if (v != none) { lo = std::min(lo, (int)v); hi = std::max(hi, (int)v); } std::vector<byte_t> n = read<byte_t>(*norm, s.w, s.h, mt_U8C1, who + ", as a picture"); for (size_t i = 0; i < want.size(); ++i) { double v = want[i] == none ? 255 : 255.0 * (want[i] - lo) / std::max(200, hi - lo); if (!(fabs(n[i] - v) <= 1) || (want[i] == none && n[i] != 255)) violation("wrong-stroke", "%s, as a picture: %d instead of %g", who.c_str(), n[i], v); } } }
	Sut q; delete res; delete norm;
}
template <class T> void do_magnitude(mt_Depth_Channel type) {
	Scene s = draw_scene(); std::vector<T> vx(s.gx.begin(), s.gx.end()), vy(s.gy.begin(), s.gy.end()); Grid<T> x(s.w, s.h, vx, type), y(s.w, s.h, vy, type); int kind = rng().below(3), into = rng().below(5); std::string who = "the gradient magnitude " + std::to_string(kind) + " of " + size_of(s) + (into == 0 ? ", returned" : into == 1 ? ", into the horizontal one" : into == 2 ? ", into the vertical one" : ""); mt_mat* res = NULL; img_img::Gradient_Mag_Type k = kind == 0 ? img_img::Gradient_Mag_Type_L1 : kind == 1 ? img_img::Gradient_Mag_Type_L2 : img_img::Gradient_Mag_Type_L2_Square;
	bool ok = attempt([&] { Sut q; if (into == 0) res = new mt_mat(img_img::generate_gradient_mag(*x.m, *y.m, k)); else if (into == 1) { res = new mt_mat(*x.m); img_img::generate_gradient_mag(*res, *x.m, *y.m, k); } else if (into == 2) { res = new mt_mat(*y.m); img_img::generate_gradient_mag(*res, *x.m, *y.m, k); } else { res = into == 3 ? new mt_mat(s.h, s.w, type) : new mt_mat; img_img::generate_gradient_mag(*res, *x.m, *y.m, k); } });
	if (into != 1) x.check(who, "the horizontal gradient"); if (into != 2) y.check(who, "the vertical gradient");
	if (ok) { std::vector<T> got = read<T>(*res, s.w, s.h, type, who); for (size_t i = 0; i < got.size(); ++i) { double a = vx[i], b = vy[i], want = kind == 0 ? fabs(a) + fabs(b) : kind == 1 ? sqrt(a * a + b * b) : a * a + b * b; if (!(fabs(got[i] - want) <= 1e-5 * want)) violation("wrong-gradient", "%s: of (%g,%g) it is %g instead of %g", who.c_str(), a, b, (double)got[i], want); } }
	Sut q; delete res;
}
void do_board(mt_mat* res) {
	int w = 1 + rng().below(20), h = 1 + rng().below(20), c = 1 + rng().below(7), ch = 1 + rng().below(4); std::string who = "a chessboard of " + std::to_string(w) + "x" + std::to_string(h) + ", fields of " + std::to_string(c) + ", " + std::to_string(ch) + " channels"; bool ok = attempt([&] { Sut q; img_img::genarate_chessboard(*res, mt_size(w, h), c, ch); });
	if (!ok) return; const mt_mat& r = *res; if (r.dim() != 2 || r.size()[0] != h || r.size()[1] != w || r.channel() != ch || r.depth() != mt_U8) violation("wrong-shape", "%s has another shape", who.c_str());
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < ch; ++k) { int v = r.data()[(long)y * r.step()[0] + (long)x * r.step()[1] + k], t = (x / c + y / c) % 2 ? 255 : 0; if (v != t) violation("wrong-picture", "%s: (%d,%d) is %d instead of %d", who.c_str(), x, y, v, t); }
}
// Weighted means with a normal distribution in both directions; there is nothing outside the image.
std::vector<double> bell(int n, double sigma) { std::vector<double> k; double sum = 0; for (int i = 0; i < n; ++i) { double d = i - n / 2; k.push_back(sigma > 0 ? exp(-0.5 * d * d / (sigma * sigma)) : d == 0); sum += k.back(); } for (auto& v : k) v /= sum; return k; }
template <class T> void do_blur(mt_Depth depth, double lo, double hi) {
	int w = 1 + rng().below(14), h = 1 + rng().below(14), ch = rng().below(2) ? 1 : 1 + rng().below(4), l = 0, above = 0, right = 0, below = 0; if (rng().below(2)) { l = rng().below(3); above = rng().below(3); right = rng().below(3); below = rng().below(2); }
	static const double some[] = {0, 0.3, 0.5, 0.8, 1, 1.5, 2.2}; double sx = some[rng().below(7)], sy = rng().below(3) ? some[rng().below(7)] : rng().below(2) ? sx : -1, ey = sy < 0 ? sx : sy; int kw = rng().below(2) ? -1 : 1 + 2 * rng().below(4), kh = rng().below(2) ? -1 : 1 + 2 * rng().below(4); auto ext = [&](int k, double s) { return k > 0 ? k : s == 0 ? 1 : (int)floor(s * (depth == mt_U8 ? 3 : 4) * 2 + 1 + 0.5) | 1; };
	std::vector<T> px((size_t)w * h * ch); int flat = rng().below(4); for (auto& v : px) v = flat == 0 ? (T)hi : rng().below(4) == 0 ? (T)(rng().below(2) ? hi : lo) : (T)(lo + (hi - lo) * (rng().below(1001) / 1000.0));
	char b[200]; snprintf(b, sizeof b, "blurring %dx%d, depth %d, %d channels, kernel %dx%d, sigma %g and %g", w, h, (int)depth, ch, kw, kh, sx, sy); std::string who = b; mt_mat *src, *res = NULL; int how = rng().below(4);
	{ Sut q; mt_mat* whole = new mt_mat(h + above + below, w + l + right, mt_Depth_Channel(depth, ch)); src = new mt_mat(*whole, mt_rect(l, above, w, h)); delete whole; }
	const mt_mat& c = *src; auto at = [&](const mt_mat& m, int x, int y, int k) { return m.data() + (long)y * m.step()[0] + (long)x * m.step()[1] + k * sizeof(T); }; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < ch; ++k) memcpy((void*)at(c, x, y, k), &px[((size_t)y * w + x) * ch + k], sizeof(T));
	{ Sut q; if (how == 0) res = new mt_mat(img_img::gaussian_blur(*src, mt_size(kw, kh), sx, sy)); else { res = how == 1 ? new mt_mat : how == 2 ? new mt_mat(*src) : new mt_mat(h, w, mt_U8C1); img_img::gaussian_blur(*res, *src, mt_size(kw, kh), sx, sy); } }
	const mt_mat& r = *res; if (r.dim() != 2 || r.size()[0] != h || r.size()[1] != w || r.channel() != ch || r.depth() != depth) violation("wrong-shape", "%s gives %d dimensions, %dx%d, %d channels of depth %d", b, r.dim(), r.dim() > 1 ? r.size()[1] : 0, r.dim() > 0 ? r.size()[0] : 0, r.channel(), (int)r.depth());
	std::vector<double> kx = bell(ext(kw, sx), sx), ky = bell(ext(kh, ey), ey); int nx = (int)kx.size(), ny = (int)ky.size(); double slack = depth >= mt_F32 ? 1e-4 : 1;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < ch; ++k) { T was, got; memcpy(&was, at(c, x, y, k), sizeof(T)); if (memcmp(&was, &px[((size_t)y * w + x) * ch + k], sizeof(T))) violation("input-changed", "%s: the image changed at (%d,%d)", b, x, y);
		double sum = 0, mag = 0; for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int X = x + i - nx / 2, Y = y + j - ny / 2; if (X < 0 || Y < 0 || X >= w || Y >= h) continue; double v = (double)px[((size_t)Y * w + X) * ch + k] * kx[i] * ky[j]; sum += v; mag += fabs(v); }
		memcpy(&got, at(r, x, y, k), sizeof(T)); if (!(fabs((double)got - sum) <= slack + 1e-6 * mag)) violation("wrong-blur", "%s: (%d,%d), channel %d is %.9g instead of %.9g", b, x, y, k, (double)got, sum); }
	Sut q; delete res; delete src;
}
void do_blurs() { switch (rng().below(7)) { case 0: case 1: do_blur<byte_t>(mt_U8, 0, 255); break; case 2: do_blur<signed char>(mt_I8, -128, 127); break; case 3: do_blur<unsigned short>(mt_U16, 0, 65535); break; case 4: do_blur<n32>(mt_I32, -100000, 100000); break; case 5: do_blur<float>(mt_F32, -1, 1); break; default: do_blur<double>(mt_F64, -1, 1); } }
void thread(int nops) {
	Detectors d; d.inner = false; d.cache = rng().below(2); d.low = 40; d.high = 100; mt_mat* board; { Sut s; d.c = new img_canny; d.a = new img_auto_threshold_canny; d.edge = new mt_mat; board = new mt_mat; }
	if (rng().below(4) == 0) { Sut s; delete d.c; d.c = rng().below(2) ? new img_canny(d.low, d.high) : new img_canny(d.low, d.high, 3, sys_true); d.c->clear_memory_cache(); }
	for (int i = 0; i < nops; ++i) { count("operations"); switch (rng().below(10)) { case 0: case 1: case 2: do_canny(d); break; case 3: case 4: do_auto(d); break; case 5: case 6: do_strokes(); break; case 9: do_blurs(); break; case 7: if (rng().below(2)) do_magnitude<float>(mt_F32C1); else do_magnitude<double>(mt_F64C1); break; default: do_board(board); }
		if (rng().below(8) == 0) do_copy(d);
		if (rng().below(5) == 0) { Sut s; delete d.edge; d.edge = new mt_mat; } }
	if (rng().below(2)) { Sut s; d.c->clear_memory_cache(); d.a->clear_memory_cache(); }
	{ Sut s; delete d.c; delete d.a; delete d.edge; delete board; } look_back(d, "after the detectors are gone"); for (auto g : d.kept) delete g;
}
// Several threads detect the edges of one image.
void shared(int readers) {
	Scene* s = new Scene(draw_scene()); F mag = magnitude(*s, true); Grid<float>*x = new Grid<float>(s->w, s->h, s->gx, mt_F32C1), *y = new Grid<float>(s->w, s->h, s->gy, mt_F32C1); std::vector<byte_t> px((size_t)s->w * s->h, 0); Grid<byte_t>* src = new Grid<byte_t>(s->w, s->h, px, mt_U8C1); std::vector<byte_t>* want = new std::vector<byte_t>(canny(*s, mag, 40, 100)); Threads th;
	img_canny* proto; img_auto_threshold_canny* proto_a; mt_mat* first; Auto au = {16, 160, 40, 120, 3, 3, 0.5f, 0.3f, 0.9f}; std::vector<byte_t>* want_a = new std::vector<byte_t>; F whole = mag; for (auto& v : whole) v = floorf(v); Grid<float>* m = new Grid<float>(s->w, s->h, whole, mt_F32C1); bool clear = auto_canny(*s, whole, au, *want_a);
	{ Sut q; proto = new img_canny; proto_a = new img_auto_threshold_canny; first = new mt_mat; proto->edge_detection(*first, *src->m, *x->m, *y->m); proto_a->edge_detection(*first, *src->m, *x->m, *y->m, *m->m); } bool copies = rng().below(2);
	for (int t = 0; t < readers; ++t) th.start([=] { img_canny* c; img_auto_threshold_canny* a; mt_mat* e; { Sut q; c = copies ? new img_canny(*proto) : new img_canny; a = copies ? new img_auto_threshold_canny(*proto_a) : new img_auto_threshold_canny; e = new mt_mat; } std::string who = copies ? "copies in several threads" : "several threads"; for (int k = 0; k < 2; ++k) { { Sut q; c->edge_detection(*e, *src->m, *x->m, *y->m); } compare(read<byte_t>(*e, s->w, s->h, mt_U8C1, who), *want, *s, who); { Sut q; a->edge_detection(*e, *src->m, *x->m, *y->m, *m->m); } if (clear) compare(read<byte_t>(*e, s->w, s->h, mt_U8C1, who), *want_a, *s, who + ", automatic"); } Sut q; delete c; delete a; delete e; });
	th.join(); x->check("several threads", "the horizontal gradient"); y->check("several threads", "the vertical gradient"); delete x; delete y; delete m; delete src; delete want; delete want_a; delete s; Sut q; delete proto; delete proto_a; delete first;
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	int nthreads = (int)param("threads", 1, 3), nops = (int)param("operations", 1, 8), readers = (int)param("readers", 0, 3); mem_faults = param("failing_allocations", 0, 3) == 3 && nthreads == 1; if (mem_faults) readers = 0;
	HeapStats before = sut_heap();
	if (nthreads == 1) thread(nops); else { Threads th; for (int t = 0; t < nthreads; ++t) th.start([nops] { thread(nops); }); th.join(); }
	if (readers > 1) shared(readers);
	for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("<performance>") == std::string::npos) violation("false-error", "a legal call logged: %s", log->out[i].c_str());
	leak_check(before, ""); heap_check(); nontrivial(mix2(rng().next(), nops)); note("%d threads, %d operations, %d readers%s", nthreads, nops, readers, mem_faults ? ", allocations fail" : "");
}
Registrar r({"C25", run, 24000, 240000,
	"one run: up to 8 operations on each of up to 3 threads, each with detectors and results that are used again: edges by given thresholds and by thresholds that follow the image, gradients and magnitudes given or computed, memory kept or not, cleared in between; stroke widths and their picture; magnitudes into every kind of matrix; chessboards; blurring with normal distributions of given or implied extent, images of any type and 1 to 4 channels; images of 1x1 to 40x40 pixels with stripes, fields, discs or noise, matrices of their own, views or padded; up to 3 threads detect in one image; memory is poisoned and, in a part of the single-threaded runs, runs out; non-trivial: every run; distinct: by the drawn history",
	"basicimg/src/img_canny.cpp, img_auto_threshold_canny.cpp, img_stroke_width_transform.cpp, img_img.cpp (magnitudes, chessboard, blurring), their headers, basicmath/src/mt_mat*.cpp, mt_convolution.cpp (real code)", "thread scheduling and memory replaced by the simulator; OpenCV (gradients) is not there, gradients are given; Intel MKL (stub: reference convolution)"});
}
