#include <typeinfo>
#include "img_common.h"
#include <limits.h>
namespace img {

void parts(const Settings& s, int& ph, int& pw) {
	ph = pw = 1; if (s.alg != A_V1 && s.alg != A_V2) return;
	switch (s.threads) { case 2: pw = 2; break; case 4: ph = pw = 2; break; case 8: ph = 2; pw = 4; break; case 16: ph = pw = 4; break; case 32: ph = 4; pw = 8; break; }
}

static sim::i64 P(const char* prefix, const char* name, sim::i64 lo, sim::i64 hi) { char b[64]; snprintf(b, sizeof b, "%s%s", prefix, name); return param(strdup(b), lo, hi); }
static sim::i64 PO(const char* prefix, const char* name, const sim::i64* v, int n) { char b[64]; snprintf(b, sizeof b, "%s%s", prefix, name); return param_of(strdup(b), v, n); }

Image draw_image(int w, int h, const char* px) {
	Image im; im.w = w; im.h = h; im.px.resize((size_t)w * h);
	int kind = (int)P(px, "image", 0, 11), base = (int)P(px, "base", 0, 3);
	Rng r(P(px, "image_seed", 1, 1 << 20));
	int lo = base == 0 ? 0 : base == 1 ? 100 : base == 2 ? 200 : (int)r.below(256);
	std::vector<int> g((size_t)w * h);
#define AT(x, y) g[(size_t)(y) * w + (x)]
	switch (kind) {
	case 0: { int n = 2 + r.below(5), step = r.chance(1, 2) ? 1 : 1 + r.below(30); for (auto& v : g) v = lo + step * (int)r.below(n); break; }
	case 1: for (auto& v : g) v = r.below(256); break;
	case 2: case 3: {    // coarse noise, interpolated: nested regions with gray steps of one
		int c = 2 + r.below(4), cw = w / c + 2, ch = h / c + 2, amp = kind == 2 ? 24 : 200; std::vector<int> k((size_t)cw * ch); for (auto& v : k) v = r.below(amp);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int X = x / c, Y = y / c, fx = x % c, fy = y % c;
			AT(x, y) = lo + (k[Y * cw + X] * (c - fx) * (c - fy) + k[Y * cw + X + 1] * fx * (c - fy) + k[(Y + 1) * cw + X] * (c - fx) * fy + k[(Y + 1) * cw + X + 1] * fx * fy) / (c * c); }
		break; }
	case 4: { int dx = r.range(-3, 3), dy = r.range(-3, 3), nz = r.below(3); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) AT(x, y) = lo + dx * x + dy * y + (nz ? (int)r.below(nz + 1) : 0) + (dx < 0 ? -dx * w : 0) + (dy < 0 ? -dy * h : 0); break; }
	case 5: { int a = r.below(256), b = r.below(256), sx = 1 + r.below(4), sy = 1 + r.below(4); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) AT(x, y) = ((x / sx + y / sy) & 1) ? a : b; break; }
	case 6: { int v = r.below(256); for (auto& q : g) q = v; if (r.chance(1, 2)) for (int i = 0; i < 4; ++i) g[r.below((sim::u32)g.size())] = r.below(256); break; }
	case 7: { int cx = r.below(w), cy = r.below(h), step = r.chance(1, 2) ? 1 : 3, inv = r.below(2); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int d = std::max(abs(x - cx), abs(y - cy)); AT(x, y) = inv ? 255 - lo - step * d : lo + step * d; } break; }
	case 8: { int a = lo, b = lo + 1 + r.below(40), per = 2 + r.below(3); bool hor = r.chance(1, 2);   // a snake through all blocks
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int p = hor ? y : x, q = hor ? x : y, len = hor ? w : h; int row = p / per; bool line = p % per == 0 || (row % 2 == 0 ? q == len - 1 : q == 0); AT(x, y) = line ? a + (int)(r.chance(1, 12) ? r.below(4) : 0) : b; } break; }
	case 9: { int n = 1 + r.below(8); for (auto& v : g) v = lo + 60; for (int i = 0; i < n; ++i) { int x0 = r.below(w), y0 = r.below(h), rw = 1 + r.below(w), rh = 1 + r.below(h), v = lo + (int)r.below(60); for (int y = y0; y < std::min(h, y0 + rh); ++y) for (int x = x0; x < std::min(w, x0 + rw); ++x) AT(x, y) = std::min(AT(x, y), v); } break; }
	case 11: {   // up and down all gray levels along the longer side, the two halves of the shorter side one level apart: every region's parent lies in another block
		int a = r.below(512), st = 2 + (r.chance(1, 4) ? (int)r.below(3) : 0), per = 2 * (256 / st); bool hor = w >= h; int half = (hor ? h : w) / 2;
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int t = ((hor ? x : y) + a) % per, up = t < per / 2; if (!up) t = per - 1 - t; AT(x, y) = std::min(255, t * st + (((hor ? y : x) >= half) == (bool)up ? 1 : 0)); }
		break; }
	default: { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) AT(x, y) = r.chance(1, 3) ? lo + (int)r.below(8) : lo + 2 + (x / 3 + y / 3) % 5; break; }
	}
#undef AT
	bool wrap = kind == 4 && r.chance(1, 2);
	for (size_t i = 0; i < g.size(); ++i) im.px[i] = (unsigned char)(wrap ? g[i] & 255 : std::max(0, std::min(255, g[i])));
	if (P(px, "flip", 0, 1)) for (auto& v : im.px) v = 255 - v;
	return im;
}

Image draw_image_sized(const Settings& s, const char* px) {
	int ph, pw; parts(s, ph, pw);
	int shape = (int)P(px, "shape", 0, 9);
	int cap = s.threads >= 16 ? 40 : 28;
	int w, h;
	if (!*px && P(px, "vast", 0, 399) == 399) {      // a side longer than 16 bits count
		Rng r(P(px, "vast_seed", 1, 1 << 20)); Image im; im.w = 65500 + (int)P(px, "width", 0, 300); im.h = ph + (int)P(px, "height", 0, 1); if (P(px, "upright", 0, 1)) std::swap(im.w, im.h); if (im.w < pw) im.w = pw; if (im.h < ph) im.h = ph; im.px.assign((size_t)im.w * im.h, 0); int n = 1 + r.below(250);
		for (size_t i = 0; i < im.px.size(); ++i) im.px[i] = (i < 200 || i + 200 > im.px.size()) ? r.below(256) : 128 + (int)((i / 64) & 1) * (n / 4) + (int)(i % 977 == 5) * 3;
		return im;
	}
	if (!*px && s.threads <= 2 && P(px, "huge", 0, 499) == 499) {      // more regions per block than one chunk of the block memory holds
		Rng r(P(px, "huge_seed", 1, 1 << 20)); Image im; im.w = 330 + (int)P(px, "width", 0, 60) * s.threads; im.h = 330 + (int)P(px, "height", 0, 60); im.px.resize((size_t)im.w * im.h); int mode = r.below(3), n = 2 + r.below(200);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) im.px[(size_t)y * im.w + x] = mode == 0 ? r.below(256) : mode == 1 ? ((x + y) & 1 ? 255 - r.below(n) / 2 : r.below(n)) : ((x & 1) && (y & 1) ? r.below(n) : 250 + r.below(6));
		return im;
	}
	if (shape == 9) { w = pw + (int)P(px, "width", 250, !*px && P(px, "long", 0, 7) == 7 ? 1500 : 620); h = ph + (int)P(px, "height", 0, 3); if (P(px, "upright", 0, 1) && w >= ph && h + 8 >= pw) { std::swap(w, h); if (w < pw) w = pw; } }
	else if (shape >= 7) { w = pw + (int)P(px, "width", 0, 6); h = ph + (int)P(px, "height", 0, 6); }
	else { w = pw + (int)P(px, "width", 0, cap); h = ph + (int)P(px, "height", 0, cap); }
	Image im = draw_image(w, h, px);
	if (shape == 9 && P(px, "ramp", 0, 2)) {   // all gray levels in one descent
		Rng r(P(px, "ramp_seed", 1, 1 << 20)); int sh = r.below(512), dir = r.below(2);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int t = (w > h ? x : y) + sh; int v = t % 512; if (v > 255) v = 511 - v; im.px[(size_t)y * w + x] = dir ? v : 255 - v; }
	}
	return im;
}

Settings draw_settings(int alg, const char* px) {
	Settings s; s.alg = alg; s.eight = 0;
	static const sim::i64 t1[] = {4, 2, 1, 8, 16, 32}, t2[] = {4, 1, 32}, mp[] = {1, 2, 3, 6, 20}, rec[] = {20, 0, 1, 4, 100, 1000000, INT_MAX, -1}, dl[] = {1, 2, 3, 5, 10, 0};
	static const float dups[] = {0.1f, 0.f, -1.f, 0.02f, 0.5f, 0.9f}, st[] = {0.5f, FLT_MAX, 1.f, 0.1f, 5.f}, nm[] = {0.f, -1.f, 0.05f, 0.3f}, ra[] = {0.25f, 1.f, 0.5f, 0.9f, 2.f, 0.1f};
	s.threads = (int)(alg == A_V1 ? PO(px, "threads", t1, 6) : alg == A_V2 ? PO(px, "threads", t2, 3) : 1);
	s.delta = (int)PO(px, "delta", dl, 6); s.min_point = (int)PO(px, "min_point", mp, 5); s.recursive = (int)PO(px, "recursive", rec, 8);
	s.dup = dups[P(px, "dup", 0, 5)]; s.stable = st[P(px, "stable", 0, 4)]; s.nms = nm[P(px, "nms", 0, 3)]; s.ratio = ra[P(px, "ratio", 0, 5)];
	int p = (int)P(px, "polarity", 0, 7); s.pol = p < 4 ? 3 : p < 6 ? 1 : 2; if (P(px, "both_off", 0, 60) == 60) s.pol = 0;
	return s;
}

const char* who_is(int alg) { static const char* n[] = {"linear", "V1", "V2", "CV-MSER", "VF-MSER", "ID-MSER", "ms", "old OpenCV", "original"}; return n[alg]; }
std::string describe(const Settings& s, const Image& im) {
	char b[300]; snprintf(b, sizeof b, "%s, %d threads, image %dx%d, %s%s%s, delta %d, stable %g, nms %g, dup %g, points %d..%g of the image, recursive %d, %d-neighbour",
		who_is(s.alg), s.threads, im.w, im.h, s.pol & 1 ? "dark" : "", s.pol == 3 ? "+" : "", s.pol & 2 ? "bright" : "", s.delta, s.stable, s.nms, s.dup, s.min_point, s.ratio, s.recursive, s.eight ? 8 : 4);
	return b;
}

// ------------------------------------------------------------------------------------------- the reference
// Component tree by union-find, one gray level after the other; then variation, size limits, non-maximum suppression
// and removal of duplicates exactly as img_linked_linear_mser specifies them.
void build_nodes(const Image& im, bool eight, int mask, std::vector<Node>& nodes, const std::vector<char>* on) {
	int n = im.w * im.h; std::vector<int> uf(n, -1), top(n, -1); std::vector<std::vector<int> > lv(257);      // a pixel the mask leaves out comes after all others
	for (int i = 0; i < n; ++i) lv[on && !(*on)[i] ? 256 : im.px[i] ^ mask].push_back(i);
	struct F { static int find(std::vector<int>& u, int a) { while (u[a] != a) { u[a] = u[u[a]]; a = u[a]; } return a; } };
	static const int DX[] = {1, -1, 0, 0, 1, 1, -1, -1}, DY[] = {0, 0, 1, -1, 1, -1, 1, -1};
	for (int g = 0; g < 257; ++g) if (!lv[g].empty()) {
		std::vector<int> touched;   // nodes swallowed at this level
		std::vector<std::pair<int, int> > pend;      // (pixel, node)
		for (size_t k = 0; k < lv[g].size(); ++k) {
			int p = lv[g][k]; uf[p] = p; int x = p % im.w, y = p / im.w;
			for (int d = 0; d < (eight ? 8 : 4); ++d) {
				int X = x + DX[d], Y = y + DY[d]; if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue;
				int q = Y * im.w + X; if (uf[q] < 0) continue;
				int a = F::find(uf, p), b = F::find(uf, q); if (a == b) continue;
				if (top[a] >= 0) { pend.push_back(std::make_pair(a, top[a])); top[a] = -1; }
				if (top[b] >= 0) { pend.push_back(std::make_pair(b, top[b])); top[b] = -1; }
				uf[b] = a;
			}
		}
		std::map<int, int> made;
		for (size_t k = 0; k < lv[g].size(); ++k) {
			int p = lv[g][k], r = F::find(uf, p); std::map<int, int>::iterator it = made.find(r); int id;
			if (it == made.end()) { id = (int)nodes.size(); made[r] = id; Node nn; nn.gray = g; nn.size = 0; nn.parent = -1; nn.flag = 0; nn.var = -1; nodes.push_back(nn); top[r] = id; } else id = it->second;
			nodes[id].own.push_back(p); ++nodes[id].size;
		}
		for (size_t k = 0; k < pend.size(); ++k) { int id = made[F::find(uf, pend[k].first)]; nodes[pend[k].second].parent = id; nodes[id].kids.push_back(pend[k].second); nodes[id].size += nodes[pend[k].second].size; }
	}
}
int tree_regions(const Image& im, const Settings& s, int pol) { std::vector<Node> n; build_nodes(im, s.eight, pol ? 255 : 0, n); return (int)n.size(); }

Region region_of(const std::vector<Node>& N, int i, int pol, const Image& im, int dx, int dy) {
	Region r; r.pol = pol; r.gray = pol ? 255 - N[i].gray : N[i].gray; r.size = N[i].size;
	std::vector<int> st(1, i); while (!st.empty()) { int k = st.back(); st.pop_back(); r.pix.insert(r.pix.end(), N[k].own.begin(), N[k].own.end()); st.insert(st.end(), N[k].kids.begin(), N[k].kids.end()); }
	std::sort(r.pix.begin(), r.pix.end());
	int l = im.w, t = im.h, R = -1, B = -1; for (size_t k = 0; k < r.pix.size(); ++k) { int x = r.pix[k] % im.w, y = r.pix[k] / im.w; l = std::min(l, x); R = std::max(R, x); t = std::min(t, y); B = std::max(B, y); r.pix[k] = (y + dy) * (im.w + 2 * dx) + x + dx; }
	r.rect[0] = l + dx; r.rect[1] = t + dy; r.rect[2] = R - l + 1; r.rect[3] = B - t + 1; return r;
}
static void chain(std::vector<Node>& N, std::vector<int>& list, int stable, int begin, int max_point, float dup) {
	for (int p = N[begin].parent; p >= 0; p = N[p].parent) {
		if (N[p].size > max_point) break;
		double v = (N[p].size - N[stable].size) / (double)N[stable].size;
		if (v > dup) break;
		if (N[p].flag != 0) continue;
		list.push_back(p);
	}
}
std::vector<Region> reference(const Image& im, const Settings& s, const std::vector<char>* admitted, int max_points, bool roots) {
	std::vector<Region> out;
	int max_point = max_points >= 0 ? max_points : (int)(s.ratio * im.h * im.w);
	for (int pol = 0; pol < 2; ++pol) if (s.pol >> pol & 1) {
		std::vector<Node> N; build_nodes(im, s.eight, pol ? 255 : 0, N, admitted);      // in gray order
		enum { U, INV, VAL };
		for (size_t i = 0; i < N.size(); ++i) {
			Node& n = N[i];
			if (s.delta > 0) {
				int a = (int)i; while (N[a].parent >= 0 && N[N[a].parent].gray <= n.gray + s.delta) a = N[a].parent;
				n.var = (N[a].parent >= 0 || N[a].gray == n.gray + s.delta) ? (N[a].size - n.size) / (float)n.size : -1;
				if (n.var > s.stable) { n.flag = INV; continue; }
			}
			if (n.size < s.min_point || n.size > max_point || (n.parent < 0 && !roots) || n.gray == 256) n.flag = INV;
		}
		if (s.delta > 0 && s.nms >= 0) {
			std::vector<char> kill(N.size(), 0);
			for (size_t i = 0; i < N.size(); ++i) { int p = N[i].parent; if (p < 0 || N[i].var < 0 || N[p].var < 0 || N[p].gray != N[i].gray + 1) continue;
				double d = N[p].var - N[i].var; if (d > s.nms) kill[p] = 1; else if (-d > s.nms) kill[i] = 1; }
			for (size_t i = 0; i < N.size(); ++i) if (kill[i]) N[i].flag = INV;
		}
		if (s.dup > 0) for (size_t i = 0; i < N.size(); ++i) if (N[i].flag == U) {
			std::vector<int> c(1, (int)i); chain(N, c, (int)i, (int)i, max_point, s.dup);
			size_t mid = c.size() / 2; if (mid > 0) chain(N, c, c[mid], c.back(), max_point, s.dup);
			for (size_t j = 0; j < c.size(); ++j) N[c[j]].flag = j == mid ? VAL : INV;
		}
		for (size_t i = 0; i < N.size(); ++i) if (N[i].flag == VAL || (s.dup <= 0 && N[i].flag == U)) {
			out.push_back(region_of(N, (int)i, pol, im));
		}
	}
	std::sort(out.begin(), out.end());
	return out;
}

// ------------------------------------------------------------------------------------------- code under test
// Half of the extractors come from the factory, by the name of their class.
template <class T> img_mser_base* produce() { static int n = 0; if (++n % 2) return new T(); img_mser_alg_factory f(typeid(T).name()); img_mser_base* e = f.new_instance(); bool right = e && typeid(*e) == typeid(T); if (!right) { sim::Quiet q; violation("wrong-extractor", "the factory made %s for %s", e ? typeid(*e).name() : "nothing", typeid(T).name()); } return e; }
img_mser_base* make(int alg) {
	switch (alg) { case A_LINEAR: return produce<img_linked_linear_mser>(); case A_V1: return produce<img_fast_mser_v1>(); case A_V2: return produce<img_fast_mser_v2>(); case A_CV: return produce<img_opencv3_mser>(); case A_VF: return produce<img_vlfeat_mser>(); case A_ID: return produce<img_idiap_mser>(); case A_MS: return produce<img_ms_mser>(); case A_OCV: return produce<img_opencv_mser>(); default: return produce<img_original_mser>(); }
}
std::vector<Region> alone(const Image& im, const Settings& s) {
	Source src; src.open(im, 0); std::vector<Region> out; bool on[2] = {(s.pol & 1) != 0, (s.pol & 2) != 0};
	img_mser_base* e; img_multi_msers* res;
	{ Sut t; e = make(s.alg); configure(e, s); res = new img_multi_msers(); e->extract(*res, *src.mat); }
	char who[64]; snprintf(who, sizeof who, "%s, new extractor", who_is(s.alg));
	out = decode(*res, im, who, on, s.alg); src.check_untouched(who);
	{ Sut t; delete res; delete e; } src.close(); return out;
}
std::vector<Region> expected(const Image& im, const Settings& s) { return s.alg >= A_CV && s.alg != A_MS ? alone(im, s) : reference(im, s); }
void configure(img_mser_base* e, const Settings& s) {
	e->set_stable_delta(s.delta); e->set_duplicated_variation(s.dup); e->set_stable_max_variation(s.stable); e->set_nms_similarity(s.nms);
	e->set_connected_type(s.eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour); e->set_min_max_point(s.min_point, s.ratio);
	e->enable_extraction((s.pol & 1) != 0, (s.pol & 2) != 0); e->set_recursive_point_threshold(s.recursive); e->set_parallel_thread_number(s.threads);
}
void Source::open(const Image& i, int border) {
	im = i; ox = border ? 1 + border % 3 : 0; oy = border ? border % 2 : 0; ow = im.w + (border ? ox + border % 5 : 0); oh = im.h + (border ? oy + border % 3 : 0);
	outer.resize((size_t)ow * oh); Rng r(border * 977 + 5);
	for (auto& v : outer) v = r.below(256);
	for (int y = 0; y < im.h; ++y) memcpy(&outer[(size_t)(y + oy) * ow + ox], &im.px[(size_t)y * im.w], im.w);
	Sut s; mt_mat* whole = new mt_mat(oh, ow, mt_U8C1);
	{ sim::Quiet q; for (int y = 0; y < oh; ++y) memcpy(whole->ptr<u8>(y, 0), &outer[(size_t)y * ow], ow); }
	if (border) { mat = new mt_mat(*whole, mt_rect(ox, oy, im.w, im.h)); delete whole; } else mat = whole;
}
void Source::check_untouched(const char* who) {
	for (int y = 0; y < im.h; ++y) if (memcmp(mat->ptr<u8>(y, 0), &im.px[(size_t)y * im.w], im.w)) violation("source-image-changed", "%s: row %d of the source image was changed", who, y);
}
void Source::close() { Sut s; delete mat; mat = NULL; }

struct Dec { const img_multi_msers& res; const Image& im; const char* who; int pol, alg; std::vector<std::vector<int> > memo; std::vector<char> st;
	void want(const void* p, size_t bytes, int i, const char* what) {
		if (!sim::heap_owns(p, bytes)) violation("result-memory", "%s: region %d of polarity %d: its %s (%zu bytes at %p) lie outside live memory", who, i, pol, what, bytes, p);
	}
	void take(std::vector<int>& v, const mt_point* p, long n, int i) {
		if (n < 0 || n > (long)im.w * im.h) violation("result-encoding", "%s: region %d of polarity %d: a pixel range of %ld points", who, i, pol, n);
		if (!n) return; want(p, n * sizeof(mt_point), i, "pixels");
		for (long k = 0; k < n; ++k) { if (p[k].m_x < 0 || p[k].m_y < 0 || p[k].m_x >= im.w || p[k].m_y >= im.h) violation("pixel-outside-image", "%s: region %d of polarity %d holds pixel (%d,%d); the image is %dx%d", who, i, pol, p[k].m_x, p[k].m_y, im.w, im.h); v.push_back(p[k].m_y * im.w + p[k].m_x); }
	}
	const std::vector<int>& get(int i) {
		const std::vector<img_mser>& ms = res.m_msers[pol];
		if (i < 0 || i >= (int)ms.size()) violation("result-encoding", "%s: polarity %d refers to region %d of %zu", who, pol, i, ms.size());
		if (st[i] == 1) violation("result-encoding", "%s: region %d of polarity %d contains itself", who, i, pol);
		if (st[i] == 2) return memo[i];
		st[i] = 1; const img_mser& m = ms[i]; std::vector<int> v;
		if (alg == A_VF && !m.m_points && m.m_memory_type == img_mser::Memory_Type_Self) { memo[i].assign(1, m.m_size); st[i] = 2; return memo[i]; }      // VF-MSER reports sizes only
		switch (m.m_memory_type) {
		case img_mser::Memory_Type_Self: case img_mser::Memory_Type_Share: case img_mser::Memory_Type_Range: take(v, m.m_points, m.m_size, i); break;
		case img_mser::Memory_Type_Recursive: {
			want(m.m_points, sizeof(mt_point), i, "header"); int own = m.m_points[0].m_x, kids = m.m_points[0].m_y; take(v, m.m_points + 1, own, i);
			const i32* c = (const i32*)(m.m_points + 1 + own); if (kids < 0) violation("result-encoding", "%s: region %d has %d children", who, i, kids);
			if (kids) want(c, kids * sizeof(i32), i, "child list"); for (int k = 0; k < kids; ++k) { const std::vector<int>& q = get(i + c[k]); v.insert(v.end(), q.begin(), q.end()); } break; }
		case img_mser::Memory_Type_Share_Parallel_4: case img_mser::Memory_Type_Recursive_Parallel_4: {
			want(m.m_points, 4 * sizeof(mt_point), i, "header"); for (int k = 0; k < 4; ++k) take(v, m.m_points + m.m_points[k].m_x, (long)m.m_points[k].m_y - m.m_points[k].m_x, i);
			if (m.m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) { const i32* c = (const i32*)(m.m_points + 4); want(c, sizeof(i32), i, "child count"); int kids = *c; if (kids < 0) violation("result-encoding", "%s: region %d has %d children", who, i, kids);
				if (kids) want(c + 1, kids * sizeof(i32), i, "child list"); for (int k = 0; k < kids; ++k) { const std::vector<int>& q = get(i + c[1 + k]); v.insert(v.end(), q.begin(), q.end()); } }
			break; }
		default: violation("result-encoding", "%s: region %d of polarity %d has storage kind %d", who, i, pol, m.m_memory_type);
		}
		if (v.size() > (size_t)im.w * im.h) violation("result-encoding", "%s: region %d of polarity %d decodes to %zu pixels", who, i, pol, v.size());
		std::sort(v.begin(), v.end()); memo[i] = v; st[i] = 2; return memo[i];
	}
};
std::vector<Region> decode(const img_multi_msers& res, const Image& im, const char* who, bool pol_on[2], int alg) {
	std::vector<Region> out;
	for (int pol = 0; pol < 2; ++pol) {
		const std::vector<img_mser>& ms = res.m_msers[pol];
		if (!pol_on[pol] && !ms.empty()) violation("polarity-off", "%s: %zu regions of polarity %d reported although it is switched off", who, ms.size(), pol);
		Dec d = {res, im, who, pol, alg}; d.memo.resize(ms.size()); d.st.assign(ms.size(), 0);
		for (int i = 0; i < (int)ms.size(); ++i) {
			Region r; r.pol = pol; r.gray = ms[i].m_gray_level; r.size = ms[i].m_size; r.pix = d.get(i);
			r.rect[0] = ms[i].m_rect.m_left; r.rect[1] = ms[i].m_rect.m_top; r.rect[2] = ms[i].m_rect.m_width; r.rect[3] = ms[i].m_rect.m_height;
			if (alg != A_VF && r.size != (int)r.pix.size()) violation("size-mismatch", "%s: %s says size %d but holds %zu pixels", who, show(r, im.w).c_str(), r.size, r.pix.size());
			for (size_t k = 1; k < r.pix.size(); ++k) if (r.pix[k] == r.pix[k - 1]) violation("duplicate-pixel", "%s: %s holds pixel (%d,%d) twice", who, show(r, im.w).c_str(), r.pix[k] % im.w, r.pix[k] / im.w);
			out.push_back(r);
		}
	}
	std::sort(out.begin(), out.end());
	return out;
}
void check_drawn(const img_multi_msers& res, const Image& im, const Settings& s, const char* who) {
	if (!has_boxes(s.alg)) return;
	mt_mat* pic; { Sut t; pic = new mt_mat(); }
	for (int k = 0; k < 3; ++k) {
		int pol = (int)sim::rng().below(2); const std::vector<img_mser>& ms = res.m_msers[pol]; if (ms.empty()) continue;
		int i = (int)sim::rng().below((sim::u32)ms.size()); const img_mser& m = ms[i];
		if (std::max(m.m_rect.m_width, m.m_rect.m_height) > 3000) continue;      // the picture is a square
		Dec d = {res, im, who, pol, s.alg}; d.memo.resize(ms.size()); d.st.assign(ms.size(), 0); std::vector<int> want = d.get(i), got;
		{ Sut t; img_mser_helper::image_from_mser(*pic, m, mt_size(0, 0)); }
		int ex = std::max(0, m.m_rect.m_height - m.m_rect.m_width) / 2, ey = std::max(0, m.m_rect.m_width - m.m_rect.m_height) / 2;
		if (pic->size()[0] != m.m_rect.m_height + 2 * ey || pic->size()[1] != m.m_rect.m_width + 2 * ex) violation("drawn-size", "%s: the picture of a region with box %dx%d is %dx%d", who, m.m_rect.m_width, m.m_rect.m_height, pic->size()[1], pic->size()[0]);
		for (int y = 0; y < pic->size()[0]; ++y) for (int x = 0; x < pic->size()[1]; ++x) { int v = *pic->ptr<u8>(y, x); if (v == 0) got.push_back((y - ey + m.m_rect.m_top) * im.w + x - ex + m.m_rect.m_left); else if (v != 255) violation("drawn-pixels", "%s: the picture of a region holds gray %d", who, v); }
		if (got != want) violation("drawn-pixels", "%s: the picture of region %d of polarity %d (size %d) shows %zu pixels%s (%s)", who, i, pol, m.m_size, got.size(), got.size() == want.size() ? ", others" : "", describe(s, im).c_str());
	}
	{ Sut t; delete pic; }
}
std::string show(const Region& r, int w) {
	char b[200]; snprintf(b, sizeof b, "%s region (gray %d, size %d, box %d,%d %dx%d, pixels", r.pol ? "bright" : "dark", r.gray, r.size, r.rect[0], r.rect[1], r.rect[2], r.rect[3]); std::string o = b;
	for (size_t i = 0; i < r.pix.size() && i < 4; ++i) { snprintf(b, sizeof b, " (%d,%d)", r.pix[i] % w, r.pix[i] / w); o += b; } return o + (r.pix.size() > 4 ? " ...)" : ")");
}
void compare(const std::vector<Region>& got, const std::vector<Region>& want, const char* who, const Settings& s, const Image& im, bool rects) {
	size_t i = 0, j = 0;
	while (i < got.size() || j < want.size()) {
		if (i < got.size() && j < want.size() && got[i].same(want[j])) {
			const Region& a = got[i]; const Region& b = want[j];
			if (rects && memcmp(a.rect, b.rect, sizeof a.rect)) violation("wrong-box", "%s: %s has box %d,%d %dx%d, should be %d,%d %dx%d (%s)", who, show(b, im.w).c_str(), a.rect[0], a.rect[1], a.rect[2], a.rect[3], b.rect[0], b.rect[1], b.rect[2], b.rect[3], describe(s, im).c_str());
			++i; ++j; continue;
		}
		bool extra = j >= want.size() || (i < got.size() && got[i] < want[j]);
		if (extra && i + 1 < got.size() && got[i].same(got[i + 1])) violation("reported-twice", "%s: %s is reported twice (%s)", who, show(got[i], im.w).c_str(), describe(s, im).c_str());
		violation(extra ? "extra-region" : "missing-region", "%s: %s %s; %zu regions reported, %zu expected (%s)", who, show(extra ? got[i] : want[j], im.w).c_str(), extra ? "is reported but the reference does not have it" : "is missing", got.size(), want.size(), describe(s, im).c_str());
	}
}
// ---- no reference, only the image and the pixels the mask admits
void check_truth(const std::vector<Region>& got, const Image& im, const Settings& s, const char* who, const std::vector<char>* on, int max_points) {
	int edge = s.alg == A_CV ? 1 : 0, dirs = s.eight && s.alg != A_CV ? 8 : 4;      // CV-MSER leaves out the outermost pixels and knows 4 neighbours only
	static const int DX[] = {1, -1, 0, 0, 1, 1, -1, -1}, DY[] = {0, 0, 1, -1, 1, -1, 1, -1};
	int n = im.w * im.h, lo = s.min_point, hi = max_points >= 0 ? max_points : (int)(s.ratio * im.h * im.w);
	std::vector<int> in(n, -1); std::vector<int> st;
	for (size_t k = 0; k < got.size(); ++k) {
		const Region& r = got[k]; bool hit = false;
		if (r.pix.empty()) violation("empty-region", "%s: region without pixels (%s)", who, describe(s, im).c_str());
		for (size_t i = 0; i < r.pix.size(); ++i) in[r.pix[i]] = (int)k;
		int l = im.w, t = im.h, R = -1, B = -1;
		for (size_t i = 0; i < r.pix.size(); ++i) {
			int p = r.pix[i], x = p % im.w, y = p / im.w, v = im.px[p];
			if (on && !(*on)[p]) violation("masked-pixel", "%s: %s holds pixel (%d,%d), which the mask leaves out (%s)", who, show(r, im.w).c_str(), x, y, describe(s, im).c_str());
			if (r.pol ? v < r.gray : v > r.gray) violation("pixel-beyond-level", "%s: %s holds pixel (%d,%d) of gray %d (%s)", who, show(r, im.w).c_str(), x, y, v, describe(s, im).c_str());
			if (v == r.gray) hit = true;
			l = std::min(l, x); R = std::max(R, x); t = std::min(t, y); B = std::max(B, y);
			
			for (int d = 0; d < dirs; ++d) { int X = x + DX[d], Y = y + DY[d]; if (X < edge || Y < edge || X >= im.w - edge || Y >= im.h - edge) continue; int q = Y * im.w + X;
				if (on && !(*on)[q]) continue; if (in[q] != (int)k && (r.pol ? im.px[q] >= r.gray : im.px[q] <= r.gray)) violation("not-maximal", "%s: %s lacks the adjacent pixel (%d,%d) of gray %d (%s)", who, show(r, im.w).c_str(), X, Y, im.px[q], describe(s, im).c_str()); }
		}
		if (!hit) violation("level-absent", "%s: %s has no pixel of its own level (%s)", who, show(r, im.w).c_str(), describe(s, im).c_str());
		size_t reached = 1; st.assign(1, r.pix[0]); in[r.pix[0]] = -2 - (int)k;
		while (!st.empty()) { int p = st.back(); st.pop_back(); int x = p % im.w, y = p / im.w; 
			for (int d = 0; d < dirs; ++d) { int X = x + DX[d], Y = y + DY[d]; if (X < edge || Y < edge || X >= im.w - edge || Y >= im.h - edge) continue; int q = Y * im.w + X; if (in[q] == (int)k) { in[q] = -2 - (int)k; ++reached; st.push_back(q); } } }
		if (reached != r.pix.size()) violation("not-connected", "%s: %s is not connected (%s)", who, show(r, im.w).c_str(), describe(s, im).c_str());
		if (r.size < lo || r.size > hi) violation("size-limit", "%s: %s is outside the size limits %d..%d (%s)", who, show(r, im.w).c_str(), lo, hi, describe(s, im).c_str());
		if (has_boxes(s.alg)) if (r.rect[0] != l || r.rect[1] != t || r.rect[2] != R - l + 1 || r.rect[3] != B - t + 1) violation("wrong-box", "%s: %s should have box %d,%d %dx%d (%s)", who, show(r, im.w).c_str(), l, t, R - l + 1, B - t + 1, describe(s, im).c_str());
	}
	// nested or disjoint, none twice
	for (int pol = 0; pol < 2; ++pol) {
		std::vector<int> ord; for (size_t k = 0; k < got.size(); ++k) if (got[k].pol == pol) ord.push_back((int)k);
		std::sort(ord.begin(), ord.end(), [&](int a, int b) { return got[a].pix.size() > got[b].pix.size(); });
		std::vector<int> top(n, -1);
		for (size_t i = 0; i < ord.size(); ++i) { const Region& r = got[ord[i]]; int o = top[r.pix[0]];
			for (size_t j = 0; j < r.pix.size(); ++j) { if (top[r.pix[j]] != o) violation("overlap", "%s: %s and %s overlap without being nested (%s)", who, show(r, im.w).c_str(), show(got[std::max(o, top[r.pix[j]])], im.w).c_str(), describe(s, im).c_str()); top[r.pix[j]] = ord[i]; }
			if (o >= 0 && got[o].pix.size() == r.pix.size()) violation("reported-twice", "%s: %s is reported twice (%s)", who, show(r, im.w).c_str(), describe(s, im).c_str()); }
	}
}
sim::u64 hash_regions(const std::vector<Region>& r) { sim::u64 h = 7; for (size_t i = 0; i < r.size(); ++i) { h = sim::mix2(h, r[i].pol * 1000 + r[i].gray); if (!r[i].pix.empty()) h = hash_bytes(&r[i].pix[0], r[i].pix.size() * sizeof(int), h); } return h; }
}
