// C24: connected components under every kind of mask, their copies and pictures, and the rectangles that bound them.
// These are templates: this file is compiled with the instrumentation of the repository's code.
#include "img_common.h"
#include "img_mser_result.h"
#include <new>
using namespace sim;
namespace {
using namespace basicmath; using namespace basicimg;
typedef basicsys::u8 byte_t; typedef basicsys::i32 n32;
typedef std::vector<int> Set;             // sorted y * w + x
bool mem_faults;       // allocations fail (runs of one thread)
template <class F> bool attempt(F f) { if (!mem_faults) { f(); return true; } bool ok = true; set_alloc_fail(1, 10); try { f(); } catch (const std::bad_alloc&) { ok = false; } set_alloc_fail(0, 0); if (!ok) count("out_of_memory_reported"); return ok; }

// ---- pixel types ----------------------------------------------------------------------------------------------------
template <class T> struct Px; 
template <> struct Px<byte_t> { enum { ch = 1 }; static mt_Depth_Channel type() { return mt_U8C1; } static byte_t of(int v) { return (byte_t)v; } static const char* name() { return "u8"; } };
template <> struct Px<n32> { enum { ch = 1 }; static mt_Depth_Channel type() { return mt_I32C1; } static n32 of(int v) { return v * 70000 - 3; } static const char* name() { return "i32"; } };
template <> struct Px<float> { enum { ch = 1 }; static mt_Depth_Channel type() { return mt_F32C1; } static float of(int v) { return v ? v / 4.f : -0.f; } static const char* name() { return "f32"; } };
template <> struct Px<double> { enum { ch = 1 }; static mt_Depth_Channel type() { return mt_F64C1; } static double of(int v) { return v * 1e-9; } static const char* name() { return "f64"; } };
template <int N> struct Px<sys_array_type<byte_t, N> > { typedef sys_array_type<byte_t, N> T; enum { ch = N }; static mt_Depth_Channel type() { return N == 1 ? mt_U8C1 : N == 3 ? mt_U8C3 : mt_U8C4; } static T of(int v) { T t; for (int i = 0; i < N; ++i) t.m_value[i] = i == v % N ? (byte_t)v : 200; return t; } static const char* name() { return N == 1 ? "u8 x 1" : N == 3 ? "u8 x 3" : "u8 x 4"; } };

struct Pic { int w, h; std::vector<int> v; int at(int x, int y) const { return v[(size_t)y * w + x]; } };
Pic draw_pic() {
	Pic p; static const int cap[] = {3, 8, 14, 30}; int c = rng().below(150) ? cap[rng().below(4)] : 140; p.w = 1 + rng().below(c); p.h = 1 + rng().below(c); if (rng().below(12) == 0) { (rng().below(2) ? p.w : p.h) = 1; } int kind = rng().below(7), n = 2 + rng().below(3), den = 1 + rng().below(9);
	for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { int v; switch (kind) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = rng().below(n); break; case 3: v = (x + y) & 1; break; case 4: v = rng().below(10) < (u32)den ? 1 + rng().below(n - 1) : 0; break; case 5: v = (y % 2 == 0) || (y % 4 == 1 ? x == p.w - 1 : x == 0) ? 1 : 0; break; default: v = (x == 0 || y == 0 || x == p.w - 1 || y == p.h - 1) ? (int)rng().below(2) : (x / 2 + y / 2) % n; } p.v.push_back(v); }
	return p;
}
// The picture as a matrix: of its own, a part of a bigger one or in memory of the caller with padded rows.
template <class T> struct Mat {
	mt_mat* m; std::vector<byte_t> own; Pic p;
	Mat(const Pic& q) : m(NULL), p(q) {
		int how = rng().below(4), l = how == 1 ? rng().below(3) : 0, t = how == 1 ? rng().below(3) : 0, r = how == 1 ? rng().below(4) : 0, b = how == 1 ? rng().below(2) : 0, pad = how == 2 ? rng().below(9) : 0; if (how == 2 && sizeof(T) / Px<T>::ch > 1) pad = pad * (int)sizeof(T);
		if (how == 2) { int steps[2] = {(int)(q.w * sizeof(T)) + pad, (int)sizeof(T)}; own.assign((size_t)steps[0] * q.h, 0); for (auto& c : own) c = rng().below(256); Sut s; m = new mt_mat(q.h, q.w, Px<T>::type(), &own[0], steps); }
		else { Sut s; mt_mat* whole = new mt_mat(q.h + t + b, q.w + l + r, Px<T>::type()); if (how == 1) { m = new mt_mat(*whole, mt_rect(l, t, q.w, q.h)); delete whole; } else m = whole; }
		const mt_mat& c = *m; for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) { T v = Px<T>::of(q.at(x, y)); memcpy((void*)(c.data() + (long)y * c.step()[0] + x * sizeof(T)), &v, sizeof v); }
	}
	void check(const char* who) { const mt_mat& c = *m; for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { T v = Px<T>::of(p.at(x, y)); if (memcmp(c.data() + (long)y * c.step()[0] + x * sizeof(T), &v, sizeof v)) violation("source-image-changed", "%s: the pixel at (%d,%d) changed", who, x, y); } }
	~Mat() { Sut s; delete m; }
};

// ---- the definition ---------------------------------------------------------------------------------------------------
// equal: neighbours belong together only when their values are the same
std::vector<Set> components(const Pic& p, const std::vector<char>& on, bool eight, bool equal, int from = -1) {
	std::vector<Set> r; std::vector<char> seen(p.v.size()); static const int DX[] = {1, -1, 0, 0, 1, 1, -1, -1}, DY[] = {0, 0, 1, -1, 1, -1, 1, -1};
	for (int i = 0; i < (int)p.v.size(); ++i) { int st = from >= 0 ? from : i; if (!on[st] || seen[st]) continue; Set s(1, st); seen[st] = 1; for (size_t k = 0; k < s.size(); ++k) { int x = s[k] % p.w, y = s[k] / p.w; for (int d = 0; d < (eight ? 8 : 4); ++d) { int X = x + DX[d], Y = y + DY[d]; if (X < 0 || Y < 0 || X >= p.w || Y >= p.h) continue; int j = Y * p.w + X; if (on[j] && !seen[j] && (!equal || p.v[j] == p.v[s[k]])) { seen[j] = 1; s.push_back(j); } } } std::sort(s.begin(), s.end()); r.push_back(s); }
	std::sort(r.begin(), r.end()); return r;
}
bool alike(const Set& a, const Set& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
std::string show_set(const Set& s, int w) { std::string o = "{"; for (size_t i = 0; i < s.size() && i < 10; ++i) o += (i ? " " : "") + std::string("(") + std::to_string(s[i] % w) + "," + std::to_string(s[i] / w) + ")"; return o + (s.size() > 10 ? " ...}" : "}"); }
void bound(const Set& s, int w, int* r) { r[0] = r[1] = 1 << 30; int R = -1, B = -1; for (int i : s) { r[0] = std::min(r[0], i % w); r[1] = std::min(r[1], i / w); R = std::max(R, i % w); B = std::max(B, i / w); } r[2] = R - r[0] + 1; r[3] = B - r[1] + 1; }
Set read_cc(const img_connected_component& c, const Pic& p, const std::string& who) {
	if (c.m_size < 0 || c.m_size > (int)p.v.size()) violation("wrong-component", "%s: a component of %d points in a %dx%d image", who.c_str(), c.m_size, p.w, p.h);
	Set s; if (!c.m_size) return s; if (!heap_owns(c.m_points, c.m_size * sizeof(mt_point))) violation("result-memory", "%s: the points of a component lie outside live memory", who.c_str());
	for (int i = 0; i < c.m_size; ++i) { int x = c.m_points[i].m_x, y = c.m_points[i].m_y; if (x < 0 || y < 0 || x >= p.w || y >= p.h) violation("wrong-component", "%s: a point (%d,%d) of a %dx%d image", who.c_str(), x, y, p.w, p.h); s.push_back(y * p.w + x); }
	std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) violation("wrong-component", "%s: the point (%d,%d) is there twice", who.c_str(), s[i] % p.w, s[i] / p.w);
	int r[4]; bound(s, p.w, r); if (c.m_rect.m_left != r[0] || c.m_rect.m_top != r[1] || c.m_rect.m_width != r[2] || c.m_rect.m_height != r[3]) violation("wrong-rectangle", "%s: %s is said to lie in [%d,%d,%d,%d] instead of [%d,%d,%d,%d]", who.c_str(), show_set(s, p.w).c_str(), c.m_rect.m_left, c.m_rect.m_top, c.m_rect.m_width, c.m_rect.m_height, r[0], r[1], r[2], r[3]);
	return s;
}
std::vector<Set> read_all(const img_multi_connected_components& c, const Pic& p, const std::string& who) { std::vector<Set> r; for (size_t i = 0; i < c.m_ccs.size(); ++i) r.push_back(read_cc(c.m_ccs[i], p, who)); std::sort(r.begin(), r.end()); return r; }
void same_sets(const std::vector<Set>& got, const std::vector<Set>& want, const Pic& p, const std::string& who) {
	if (got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const Set& a, const Set& b) { return alike(a, b); })) return; for (const Set& s : got) if (!std::binary_search(want.begin(), want.end(), s)) violation("wrong-component", "%s: %zu components instead of %zu; %s is none", who.c_str(), got.size(), want.size(), show_set(s, p.w).c_str());
	for (const Set& s : want) if (!std::binary_search(got.begin(), got.end(), s)) violation("wrong-component", "%s: %zu components instead of %zu; %s is missing", who.c_str(), got.size(), want.size(), show_set(s, p.w).c_str()); violation("wrong-component", "%s: %zu components instead of %zu", who.c_str(), got.size(), want.size());
}
// An extractor of zones of one value, written the way the header provides for.
template <class T> struct Zones : public ml_connected_component_base<T> {};
#define ZONES(T) template <> struct Zones<T> : public ml_connected_component_base<T> { \
	virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo, img_Connected_Type connect_type) { basicimg_cc_n_begin(); connect_condition = top_image_data->m_image_value == other_image_data->m_image_value; basicimg_cc_n_end(); } \
	void zone_of(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo, img_Connected_Type connect_type) { basicimg_cc_s_begin(); connect_condition = top_image_data->m_image_value == other_image_data->m_image_value; basicimg_cc_s_end(); } };
typedef sys_array_type<byte_t, 1> Byte1; typedef sys_array_type<byte_t, 3> Byte3; typedef sys_array_type<byte_t, 4> Byte4;
ZONES(byte_t) ZONES(n32) ZONES(float) ZONES(double) ZONES(Byte1) ZONES(Byte3) ZONES(Byte4)

// ---- what is told of results: pictures, copies -------------------------------------------------------------------------
void do_picture(const img_multi_connected_components& c, const std::vector<Set>& want, const Pic& p, const std::string& who) {
	bool gray = rng().below(2), ptr = rng().below(2); int l = (int)rng().below(5) - 2, t = (int)rng().below(5) - 2, w = 1 + rng().below(p.w + 3), h = 1 + rng().below(p.h + 3); if (rng().below(2)) { l = t = 0; w = p.w; h = p.h; }
	mt_mat* m = NULL; if (!attempt([&] { Sut s; mt_scalar fg(10, 20, 30, 40), bg(250, 240, 230, 220); if (ptr) { std::vector<img_connected_component*> q; mt_helper::pointer_from_instance(q, c.m_ccs); m = new mt_mat(img_connected_component_helper::image_from_connected_component(q, mt_rect(l, t, w, h), fg, bg, gray ? sys_true : sys_false)); } else m = new mt_mat(img_connected_component_helper::image_from_connected_component(c.m_ccs, mt_rect(l, t, w, h), fg, bg, gray ? sys_true : sys_false)); })) return;
	std::vector<char> on(p.v.size()); for (const Set& s : want) for (int i : s) on[i] = 1; const mt_mat& r = *m; int ch = gray ? 1 : 3;
	if (r.dim() != 2 || r.size()[0] != h || r.size()[1] != w || r.depth() != mt_U8 || r.channel() != ch) violation("wrong-picture", "%s: the picture of [%d,%d,%d,%d]%s is %dx%d of %d channels", who.c_str(), l, t, w, h, gray ? "" : " in colour", r.size()[1], r.size()[0], r.channel());
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int X = x + l, Y = y + t; bool f = X >= 0 && Y >= 0 && X < p.w && Y < p.h && on[Y * p.w + X]; for (int k = 0; k < ch; ++k) { int v = r.data()[(long)y * r.step()[0] + (long)x * r.step()[1] + k], e = f ? 10 + 10 * k : 250 - 10 * k; if (v != e) violation("wrong-picture", "%s: channel %d of pixel (%d,%d) in the picture of [%d,%d,%d,%d] is %d instead of %d", who.c_str(), k, x, y, l, t, w, h, v, e); } }
	Sut s; delete m;
}
// Copies live on when their original is gone, and the other way round.
void do_copies(img_multi_connected_components*& c, const std::vector<Set>& want, const Pic& p, const std::string& who) {
	img_multi_connected_components* d = NULL; bool stale = rng().below(2), back = rng().below(2), first = rng().below(2);
	if (stale) { Pic q = draw_pic(); Mat<byte_t> m(q); if (!attempt([&] { Sut s; d = new img_multi_connected_components; ml_connected_component_base<byte_t> e; e.ture_normal_extract(*d, *m.m); })) { Sut s; delete d; return; } }
	bool ok = attempt([&] { Sut s; if (!d) d = new img_multi_connected_components(*c); else { *d = *c; } });
	if (!ok) { if (d) { read_all(*d, p, who + ", a copy that failed"); Sut s; delete d; } same_sets(read_all(*c, p, who), want, p, who + ", after a copy failed"); return; }
	if (back) { bool k = attempt([&] { Sut s; *c = *c; *c = *d; }); if (!k) { Sut s; delete c; c = new img_multi_connected_components(*d); } }
	same_sets(read_all(*c, p, who), want, p, who + ", after it was copied"); same_sets(read_all(*d, p, who), want, p, who + ", its copy");
	if (first) { Sut s; delete c; c = d; } else { Sut s; delete d; }
	same_sets(read_all(*c, p, who), want, p, who + (first ? ", a copy whose original is gone" : ", an original whose copy is gone"));
	// single components: their own points
	if (!c->m_ccs.empty()) { int i = rng().below(c->m_ccs.size()); const img_connected_component& o = c->m_ccs[i]; std::vector<img_connected_component>* v = NULL; bool own = rng().below(3); int more = rng().below(4);
		if (attempt([&] { Sut s; v = new std::vector<img_connected_component>(1); if (own) { (*v)[0].init(o.m_size); for (int k = 0; k < o.m_size; ++k) { (*v)[0].m_points[k] = o.m_points[k]; (*v)[0].m_rect.adjust_by_append_point(o.m_points[k]); } } else (*v)[0] = o; for (int k = 0; k < more; ++k) { img_connected_component x = (*v)[0]; v->push_back(x); (*v)[0] = (*v)[k]; } })) {
			Set w = read_cc(o, p, who); for (size_t k = 0; k < v->size(); ++k) if (read_cc((*v)[k], p, who + ", a copied component").size() != w.size() || !alike(read_cc((*v)[k], p, who), w)) violation("wrong-component", "%s: a copied component differs", who.c_str()); }
		Sut s; delete v; }
}
// The image of levels and identities the results of an extraction give.
void do_channels(const img_multi_connected_components& c, const std::vector<Set>& want, const Pic& p, const std::string& who) {
	img_mser_result* r = NULL; mt_mat* src = NULL; img_mser_channel_image* im = NULL; bool from_min = rng().below(2); std::vector<int> lev; std::vector<Set> sets; int both = rng().below(2), base = rng().below(2) ? 0 : 255;
	for (size_t i = 0; i < c.m_ccs.size(); ++i) { lev.push_back(rng().below(4) ? rng().below(256) : base); sets.push_back(read_cc(c.m_ccs[i], p, who)); }
	// a whole region below them all, so that they nest as regions do
	bool whole = rng().below(2) && !sets.empty();
	bool ok = attempt([&] { Sut s; src = new mt_mat(p.h, p.w, mt_U8C1); r = new img_mser_result; for (int k = 0; k < 2; ++k) if (k == (from_min ? 0 : 1) || both) { for (size_t i = 0; i < sets.size(); ++i) { r->m_msers[k].push_back(img_mser_component()); img_mser_component& m = r->m_msers[k].back(); m.m_level = k == (from_min ? 0 : 1) ? lev[i] : 77; m.m_cc = c.m_ccs[i]; } if (whole && k == (from_min ? 0 : 1)) { r->m_msers[k].push_back(img_mser_component()); img_mser_component& m = r->m_msers[k].back(); m.m_level = from_min ? 255 : 0; m.m_cc.init(p.w * p.h); for (int i = 0; i < p.w * p.h; ++i) m.m_cc.m_points[i] = mt_point(i % p.w, i / p.w); } } im = new img_mser_channel_image(r->generate_mser_channel_image(*src, from_min)); });
	if (ok) { // handles to the regions of one or of both directions
		int type = rng().below(3); std::vector<img_mser_component*>* h = NULL; std::vector<img_connected_component*>* cc = NULL; bool got = attempt([&] { Sut s; img_mser_result::Result_Type rt = (img_mser_result::Result_Type)type; h = new std::vector<img_mser_component*>; cc = new std::vector<img_connected_component*>; r->shallow_copy_cc(*h, rt); r->shallow_copy_cc(*cc, rt); });
		if (got) { size_t at = 0; bool right = true; for (int k = 0; k < 2; ++k) if (type == 2 || k == type) for (size_t i = 0; i < r->m_msers[k].size(); ++i, ++at) right = right && at < h->size() && at < cc->size() && (*h)[at] == &r->m_msers[k][i] && (*cc)[at] == &r->m_msers[k][i].m_cc; if (!right || h->size() != at || cc->size() != at) violation("wrong-handles", "%s: the handles to the regions of kind %d are not these regions: %zu and %zu of %zu", who.c_str(), type, h->size(), cc->size(), at); }
		Sut s; delete h; delete cc; }
	if (ok) {
		if (whole) { Set all; for (int i = 0; i < p.w * p.h; ++i) all.push_back(i); sets.push_back(all); lev.push_back(from_min ? 255 : 0); }
		std::vector<int> id(p.v.size(), -1); const mt_mat &a = im->m_level_image, &b = im->m_mser_id_image;
		for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) { int best = -1; bool none = true, okid = false; int gl = a.data()[(long)y * a.step()[0] + x], gi; memcpy(&gi, b.data() + (long)y * b.step()[0] + x * 4, 4);
			for (size_t i = 0; i < sets.size(); ++i) if (std::binary_search(sets[i].begin(), sets[i].end(), y * p.w + x)) { if (none || (from_min ? lev[i] < best : lev[i] > best)) best = lev[i]; none = false; }
			if (none) { if (gi != -1) violation("wrong-picture", "%s: pixel (%d,%d) of no region has the identity %d", who.c_str(), x, y, gi); continue; }
			okid = gi >= 0 && gi < (int)sets.size() && lev[gi] == best && std::binary_search(sets[gi].begin(), sets[gi].end(), y * p.w + x);
			if (gl != best || !okid) violation("wrong-picture", "%s: the channel image %s says level %d and region %d at (%d,%d); the %s region there has the level %d", who.c_str(), from_min ? "from dark" : "from bright", gl, gi, x, y, from_min ? "darkest" : "brightest", best); }
	}
	Sut s; delete im; delete r; delete src;
}

template <class T> void do_extract(img_multi_connected_components*& c, img_connected_component& one_cc) {
	Pic p = draw_pic(); Mat<T> m(p); bool eight = rng().below(2), zones = rng().below(3) == 0; int kind = rng().below(5), masked = rng().below(3), ml = 0, mt = 0, mw = 0, mh = 0; std::vector<char> on(p.v.size(), 1); Pic mp = draw_pic(); std::string mask = "no mask";
	if (kind == 1) { ml = (int)rng().below(p.w + 4) - 2; mt = (int)rng().below(p.h + 4) - 2; mw = 1 + rng().below(p.w + 2); mh = 1 + rng().below(p.h + 2); for (size_t i = 0; i < on.size(); ++i) { int x = (int)i % p.w, y = (int)i / p.w; on[i] = x >= ml && y >= mt && x < ml + mw && y < mt + mh; } mask = "inside [" + std::to_string(ml) + "," + std::to_string(mt) + "," + std::to_string(mw) + "," + std::to_string(mh) + "]"; }
	if (kind == 2) { mp.w = p.w; mp.h = p.h; mp.v.resize(p.v.size()); int den = 1 + rng().below(8); bool odd = rng().below(3) == 0; for (size_t i = 0; i < mp.v.size(); ++i) { mp.v[i] = rng().below(8) < (u32)den ? 1 : odd ? rng().below(2) * 255 : 0; on[i] = mp.v[i] == 1; } mask = "a mask image"; }
	if (kind >= 3) { for (size_t i = 0; i < on.size(); ++i) on[i] = p.v[i] != masked; mask = "pixels other than " + std::to_string(masked); }
	std::string who = std::string(zones ? "zones" : "components") + " of a " + std::to_string(p.w) + "x" + std::to_string(p.h) + " " + Px<T>::name() + " image, " + (eight ? "8" : "4") + " neighbours, " + mask; if (mem_faults) who += ", allocations fail";
	if (verbose()) { std::string a; for (int y = 0; y < p.h; ++y) { for (int x = 0; x < p.w; ++x) a += on[y * p.w + x] ? "0123456789"[p.v[y * p.w + x]] : '.'; a += '/'; } note("%s: %s", who.c_str(), a.c_str()); }
	Mat<byte_t>* mm = kind == 2 ? new Mat<byte_t>(mp) : NULL; img_Connected_Type ct = eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	struct Mask { img_mask_info<T>* i; Mask(int kind, Mat<byte_t>* mm, int l, int t, int w, int h, int v) { T val = Px<T>::of(v); Sut s; i = kind == 0 ? new img_mask_info<T> : kind == 1 ? new img_mask_info<T>(mt_rect(l, t, w, h)) : kind == 2 ? new img_mask_info<T>(*mm->m) : new img_mask_info<T>(val); } ~Mask() { Sut s; delete i; } } info(kind, mm, ml, mt, mw, mh, masked);
	bool helper = !zones && kind >= 3 && !strncmp(Px<T>::name(), "u8 x", 4) && rng().below(2);
	bool ok = attempt([&] { T bg = Px<T>::of(masked); double b[4] = {0, 0, 0, 0}; if (helper) for (int k = 0; k < Px<T>::ch; ++k) b[k] = ((byte_t*)&bg)[k]; Sut s; if (helper) img_connected_component_helper::connect_component(*c, *m.m, mt_scalar(b[0], b[1], b[2], b[3]), ct); else if (zones) { Zones<T> e; e.normal_extract(*c, *m.m, *info.i, ct); } else { ml_connected_component_base<T> e; e.ture_normal_extract(*c, *m.m, *info.i, ct); } });
	if (helper) who += ", by the helper";
	m.check(who.c_str());
	if (ok) {
		std::vector<Set> want = components(p, on, eight, zones); same_sets(read_all(*c, p, who), want, p, who); if (want.size() > 1) count("images_of_several_components"); if (want.empty()) count("images_of_no_component");
		switch (rng().below(6)) { case 0: do_picture(*c, want, p, who); break; case 1: case 2: do_copies(c, want, p, who); break; case 3: do_channels(*c, want, p, who); break; default: break; }
	} else for (size_t i = 0; i < c->m_ccs.size(); ++i) { const img_connected_component& k = c->m_ccs[i]; if (k.m_size && !heap_owns(k.m_points, k.m_size * sizeof(mt_point))) violation("result-memory", "%s: after it failed, the points of a component lie outside live memory", who.c_str()); }
	if (rng().below(2)) { // the component of one point
		int x = (int)rng().below(p.w + 2) - 1, y = (int)rng().below(p.h + 2) - 1; if (rng().below(3)) { x = rng().below(p.w); y = rng().below(p.h); } bool in = x >= 0 && y >= 0 && x < p.w && y < p.h && on[y * p.w + x]; who += ", the one at (" + std::to_string(x) + "," + std::to_string(y) + ")";
		if (attempt([&] { Sut s; if (zones) { Zones<T> e; e.zone_of(one_cc, mt_point(x, y), *m.m, *info.i, ct); } else { ml_connected_component_base<T> e; e.ture_single_extract(one_cc, mt_point(x, y), *m.m, *info.i, ct); } })) {
			Set got = read_cc(one_cc, p, who), want; if (in) want = components(p, on, eight, zones, y * p.w + x)[0]; if (!alike(got, want)) violation("wrong-component", "%s: %s instead of %s", who.c_str(), show_set(got, p.w).c_str(), show_set(want, p.w).c_str()); }
		m.check(who.c_str());
	}
	delete mm;
}

// ---- rectangles: sets of whole points -----------------------------------------------------------------------------------
template <class T> struct Box { T l, t, w, h; };
template <class T> void do_rect() {
	typedef mt_rect_t<T> R; typedef mt_point_t<T> P; typedef mt_size_t<T> S; int span = 1 + rng().below(9);
	#define AROUND (T)((int)rng().below(2 * span + 1) - span)
	R a(AROUND, AROUND, (T)(1 + rng().below(span)), (T)(1 + rng().below(span))), b(AROUND, AROUND, (T)(1 + rng().below(span)), (T)(1 + rng().below(span))); P q(AROUND, AROUND); if (rng().below(3) == 0) b = a;
	auto in = [](const R& r, T x, T y) { return x >= r.m_left && y >= r.m_top && x < r.m_left + r.m_width && y < r.m_top + r.m_height; };
	auto str = [](const R& r) { char c[100]; snprintf(c, sizeof c, "[%g,%g,%g,%g]", (double)r.m_left, (double)r.m_top, (double)r.m_width, (double)r.m_height); return std::string(c); };
	auto eq = [&](const char* what, const R& got, T l, T t, T w, T h) { if (!(got.m_left == l && got.m_top == t && got.m_width == w && got.m_height == h)) violation("wrong-rectangle", "%s of %s and %s, (%g,%g): %s instead of %s", what, str(a).c_str(), str(b).c_str(), (double)q.m_x, (double)q.m_y, str(got).c_str(), str(R(l, t, w, h)).c_str()); };
	auto num = [&](const char* what, double got, double want) { if (!(fabs(got - want) < 1e-9)) violation("wrong-rectangle", "%s of %s and %s, (%g,%g): %g instead of %g", what, str(a).c_str(), str(b).c_str(), (double)q.m_x, (double)q.m_y, got, want); };
	T l = std::max(a.m_left, b.m_left), t = std::max(a.m_top, b.m_top), w = std::min(a.m_left + a.m_width, b.m_left + b.m_width) - l, h = std::min(a.m_top + a.m_height, b.m_top + b.m_height) - t; bool meet = w > 0 && h > 0; double common = meet ? (double)w * h : 0, aa = (double)a.m_width * a.m_height, ba = (double)b.m_width * b.m_height; R x;
	switch (rng().below(12)) {
	case 0: { bool r, r2; { Sut s; r = a.is_intersect(x, b); r2 = b.is_intersect(a); } num("whether they meet", r, meet); num("whether they meet", r2, meet); if (meet) eq("the common part", x, l, t, w, h); return; }
	case 1: { double u, v, ww, hh; { Sut s; u = a.get_iou(b); v = a.get_intersect_aera_ratio(b); ww = a.get_intersect_width_ratio(b); hh = a.get_intersect_height_ratio(b); } num("the share of the common part", u, common / (aa + ba - common)); num("the common part's share of the other", v, common / ba); num("the common width", ww, meet ? (double)w / b.m_width : 0); num("the common height", hh, meet ? (double)h / b.m_height : 0); return; }
	case 2: { double th = rng().below(5) / 4.0; bool u, v, z; { Sut s; u = a.is_intersect_area(b, th); v = a.is_intersect_width(b, th); z = a.is_intersect_height(b, th); } num("whether the common area suffices", u, meet && common / ba >= th); num("whether the common width suffices", v, meet && (double)w / b.m_width >= th); num("whether the common height suffices", z, meet && (double)h / b.m_height >= th); return; }
	case 3: { bool u, v, z, y; const R& ca = a; { Sut s; u = ca.contain(q); v = a.contain(q); z = ca.contain(b); y = ca.boundary(q); } bool i = in(a, q.m_x, q.m_y); num("containing the point", u, i); num("containing the point", v, i); num("containing the other", z, meet && w == b.m_width && h == b.m_height); bool e = i && (q.m_x == a.m_left || q.m_y == a.m_top || q.m_x == a.m_left + a.m_width - 1 || q.m_y == a.m_top + a.m_height - 1); num("the point on the border", y, e); return; }
	case 4: { P p = q; R r = b; { Sut s; a.validate_point(p); a.validate_rect(r); } auto cx = [&](T v) { return std::min(std::max(v, a.m_left), (T)(a.m_left + a.m_width - 1)); }; auto cy = [&](T v) { return std::min(std::max(v, a.m_top), (T)(a.m_top + a.m_height - 1)); }; num("the point moved inside, x", p.m_x, cx(q.m_x)); num("the point moved inside, y", p.m_y, cy(q.m_y)); T L = cx(b.m_left), T_ = cy(b.m_top); eq("the other moved inside", r, L, T_, cx(b.m_left + b.m_width - 1) - L + 1, cy(b.m_top + b.m_height - 1) - T_ + 1); return; }
	case 5: { S z(3, 2); R c, d, e, f, g = a, i = a, j = a, k = a; { Sut s; c = a + q; d = a - q; e = a + z; f = a - z; g += q; i -= q; j += z; k -= z; } T X = q.m_x, Y = q.m_y, W = a.m_width, H = a.m_height; eq("+ point", c, a.m_left + X, a.m_top + Y, W, H); eq("- point", d, a.m_left - X, a.m_top - Y, W, H); eq("+ size", e, a.m_left, a.m_top, W + 3, H + 2); eq("- size", f, a.m_left, a.m_top, W - 3, H - 2); eq("+= point", g, a.m_left + X, a.m_top + Y, W, H); eq("-= point", i, a.m_left - X, a.m_top - Y, W, H); eq("+= size", j, a.m_left, a.m_top, W + 3, H + 2); eq("-= size", k, a.m_left, a.m_top, W - 3, H - 2); return; }
	case 6: { mt_point2d v(2, 0.5); R c, d, e = a, f = a; { Sut s; c = a * v; d = a / v; e *= v; f /= v; } T m[4] = {(T)(a.m_left * 2.0), (T)(a.m_top * 0.5), (T)(a.m_width * 2.0), (T)(a.m_height * 0.5)}, n[4] = {(T)(a.m_left / 2.0), (T)(a.m_top / 0.5), (T)(a.m_width / 2.0), (T)(a.m_height / 0.5)}; eq("*", c, m[0], m[1], m[2], m[3]); eq("*=", e, m[0], m[1], m[2], m[3]); eq("/", d, n[0], n[1], n[2], n[3]); eq("/=", f, n[0], n[1], n[2], n[3]); return; }
	case 7: { R r; int n = 1 + rng().below(8); T L = 1000, T_ = 1000, R_ = -1000, B = -1000; for (int i = 0; i < n; ++i) { P p(AROUND, AROUND); L = std::min(L, p.m_x); T_ = std::min(T_, p.m_y); R_ = std::max(R_, p.m_x); B = std::max(B, p.m_y); Sut s; r.adjust_by_append_point(p); } eq("the points' bound", r, L, T_, R_ - L + 1, B - T_ + 1); return; }
	case 8: { R r, z(AROUND, AROUND, 0, 0); bool none = rng().below(3) == 0; { Sut s; if (none) r.adjust_by_append_rect(z); r.adjust_by_append_rect(a); if (none) r.adjust_by_append_rect(z); r.adjust_by_append_rect(b); } T L = std::min(a.m_left, b.m_left), T_ = std::min(a.m_top, b.m_top); eq("the bound of both", r, L, T_, std::max(a.m_left + a.m_width, b.m_left + b.m_width) - L, std::max(a.m_top + a.m_height, b.m_top + b.m_height) - T_); return; }
	case 9: { T u, v; { Sut s; u = a.horizontal_dist(b); v = a.vertical_dist(b); } T eh = std::max((T)0, (T)(std::max(b.m_left - (a.m_left + a.m_width - 1), a.m_left - (b.m_left + b.m_width - 1)))), ev = std::max((T)0, (T)(std::max(b.m_top - (a.m_top + a.m_height - 1), a.m_top - (b.m_top + b.m_height - 1)))); num("the distance across", u, eh); num("the distance down", v, ev); return; }
	case 10: { R c = a, d = a, e = a; T o[4] = {AROUND, AROUND, AROUND, AROUND}; { Sut s; c.expand(); d.shrink(); e.adjust(o[0], o[1], o[2], o[3]); } eq("adjusted", e, a.m_left - o[0], a.m_top - o[1], a.m_width + o[0] + o[2], a.m_height + o[1] + o[3]); T big = std::max(a.m_width, a.m_height), small_ = std::min(a.m_width, a.m_height); if (c.m_width != big || c.m_height != big || c.m_left > a.m_left || c.m_top > a.m_top || c.m_left + big < a.m_left + a.m_width || c.m_top + big < a.m_top + a.m_height) violation("wrong-rectangle", "expanding %s to a square gives %s", str(a).c_str(), str(c).c_str()); if (d.m_width != small_ || d.m_height != small_ || d.m_left < a.m_left || d.m_top < a.m_top || d.m_left + small_ > a.m_left + a.m_width || d.m_top + small_ > a.m_top + a.m_height) violation("wrong-rectangle", "shrinking %s to a square gives %s", str(a).c_str(), str(d).c_str()); return; }
	default: { R c, d(a.tl(), a.br()), e(a.tl(), a.size()), n = a; P tr, bl, ce; bool same, other; T area, mx, mn; if (a.m_width > 1 && a.m_height > 1) { /* the same corners, given in another order */ int k = rng().below(4); P p1(k & 1 ? a.m_left + a.m_width - 1 : a.m_left, k & 2 ? a.m_top + a.m_height - 1 : a.m_top), p2(k & 1 ? a.m_left : a.m_left + a.m_width - 1, k & 2 ? a.m_top : a.m_top + a.m_height - 1); bool degenerate = (k & 1 && p2.m_x - p1.m_x + 1 == 0) || (k & 2 && p2.m_y - p1.m_y + 1 == 0); if (!degenerate) { Sut s; n = R(p1, p2); n.normlized(); } } { Sut s; c.set_rect(a.tl(), a.br()); tr = a.tr(); bl = a.bl(); same = a == b; other = a != b; area = a.getArea(); mx = a.max_size(); mn = a.min_size(); ce = a.center(); } eq("from its corners", c, a.m_left, a.m_top, a.m_width, a.m_height); eq("from its corners", d, a.m_left, a.m_top, a.m_width, a.m_height); eq("from its corner and size", e, a.m_left, a.m_top, a.m_width, a.m_height); eq("normalised", n, a.m_left, a.m_top, a.m_width, a.m_height);
		if (!(tr == P(a.m_left + a.m_width - 1, a.m_top)) || !(bl == P(a.m_left, a.m_top + a.m_height - 1))) violation("wrong-rectangle", "the corners of %s are given as (%g,%g) and (%g,%g)", str(a).c_str(), (double)tr.m_x, (double)tr.m_y, (double)bl.m_x, (double)bl.m_y); bool eqs = a.m_left == b.m_left && a.m_top == b.m_top && a.m_width == b.m_width && a.m_height == b.m_height; num("equality", same, eqs); num("inequality", other, !eqs); num("the area", area, aa); num("the longer side", mx, std::max(a.m_width, a.m_height)); num("the shorter side", mn, std::min(a.m_width, a.m_height)); { R g(AROUND, AROUND, 3, 4), em = a; bool e1, e2; double as, dist; { Sut s; g.set_tl(a.tl()); g.set_size(a.size()); as = a.aspect(); em.set_empty(); e1 = em.empty(); e2 = a.empty(); P u = a.tl(); dist = u.distance_to(q); } eq("set by corner and size", g, a.m_left, a.m_top, a.m_width, a.m_height); num("the aspect", as, a.m_width / (double)a.m_height); num("emptiness", e1, 1); num("emptiness", e2, 0); num("the distance", dist, sqrt((double)(a.m_left - q.m_x) * (double)(a.m_left - q.m_x) + (double)(a.m_top - q.m_y) * (double)(a.m_top - q.m_y))); }
		if (!in(a, ce.m_x, ce.m_y)) violation("wrong-rectangle", "the centre of %s is (%g,%g)", str(a).c_str(), (double)ce.m_x, (double)ce.m_y); return; }
	}
}
// Points, sizes, ranges and four-element values.
template <class T> void do_points() {
	typedef mt_point_t<T> P; double part = std::is_integral<T>::value ? 1 : 0.25; i64 far = rng().below(3) ? 20 : rng().below(2) ? 46000 : 1000000;
	#define SOME (T)(part * (double)((i64)rng().below((u32)(2 * far + 1)) - far))
	T x = SOME, y = SOME, X = SOME, Y = SOME; if (rng().below(3) == 0) X = x; if (rng().below(3) == 0) Y = y; P a(x, y), b(X, Y), c, d; bool e; double dist; mt_range_t<T> r(x, X); T n; mt_rect_t<T> q(x, y, (T)(part * (1 + rng().below(40))), (T)(part * (1 + rng().below(40)))); mt_size_t<T> z, z2(q.m_width, q.m_height); 
	{ Sut s; c = a + b; d = a - b; e = a == b; dist = a.distance_to(b); n = r.size(); z = q.size(); }
	auto bad = [&](const char* what, double got, double want) { if (!(fabs(got - want) <= 1e-6 * (1 + fabs(want)))) violation("wrong-point", "%s with (%g,%g) and (%g,%g): %g instead of %g", what, (double)x, (double)y, (double)X, (double)Y, got, want); };
	bad("the sum's x", c.m_x, x + X); bad("the sum's y", c.m_y, y + Y); bad("the difference's x", d.m_x, x - X); bad("the difference's y", d.m_y, y - Y); bad("whether they are equal", e, x == X && y == Y); bad("the distance", dist, sqrt(((double)X - x) * ((double)X - x) + ((double)Y - y) * ((double)Y - y)));
	bad("the size of the range", n, X - x); bad("the width of a rectangle", z.m_width, q.m_width); bad("the height of a rectangle", z.m_height, q.m_height); bad("the width of a size", z2.m_width, q.m_width); bad("the height of a size", z2.m_height, q.m_height);
	mt_scalar_t<T> u(x, y, X, Y), v(u); std::vector<T>* all; int k = rng().below(5); bool same; { Sut s; if (k < 4) v[k] = (T)(v[k] + part); same = u == v; all = new std::vector<T>; u.to_vector(*all); }
	bad("whether four values are equal", same, k == 4); bad("the number of values", all->size(), 4); T w[4] = {x, y, X, Y}; for (int i = 0; i < 4; ++i) { bad("a value", (*all)[i], w[i]); bad("a value", ((const mt_scalar_t<T>&)u)[i], w[i]); } { Sut s; delete all; }
	{ f64 from[3] = {(f64)x, (f64)y, (f64)X}; bool e1, e2; int sz, mem; { Sut s; basicsys::sys_array_type<T, 3> p(from), o(p); int k = rng().below(4); if (k < 3) o.m_value[k] = (T)(o.m_value[k] + part); e1 = (p == o) == (k == 3); e2 = (p != o) == (k < 3); sz = p.size(); mem = p.memory_size(); if (p.m_value[2] != X || p.m_value[0] != x) e1 = false; } bad("an array's comparison", e1 && e2, 1); bad("an array's size", sz, 3); bad("an array's bytes", mem, 3 * sizeof(T)); }
	if (std::is_integral<T>::value) {
		std::string t[3], f[3]; { Sut s; std::string p1 = sys_strcombine() << a, p2 = sys_strcombine() << r, p3 = sys_strcombine() << q; Quiet h; t[0] = p1.c_str(); t[1] = p2.c_str(); t[2] = p3.c_str(); }
		char o[120]; snprintf(o, sizeof o, "[%lld,%lld]", (long long)x, (long long)y); f[0] = o; snprintf(o, sizeof o, "[%lld,%lld]", (long long)x, (long long)X); f[1] = o; snprintf(o, sizeof o, "[%lld,%lld,%lld,%lld]", (long long)x, (long long)y, (long long)q.m_width, (long long)q.m_height); f[2] = o;
		for (int i = 0; i < 3; ++i) if (t[i] != f[i]) violation("wrong-point", "a %s is written as %s instead of %s", i == 0 ? "point" : i == 1 ? "range" : "rectangle", t[i].c_str(), f[i].c_str());
	}
}
void thread(int nops) {
	img_multi_connected_components* c[2]; img_connected_component* o; { Sut s; c[0] = new img_multi_connected_components; c[1] = new img_multi_connected_components; o = new img_connected_component; }
	for (int i = 0; i < nops; ++i) { count("operations"); img_multi_connected_components*& k = c[rng().below(2)]; switch (rng().below(9)) { case 0: do_extract<byte_t>(k, *o); break; case 1: do_extract<n32>(k, *o); break; case 2: do_extract<float>(k, *o); break; case 3: do_extract<double>(k, *o); break; case 4: do_extract<Byte1>(k, *o); break; case 5: do_extract<Byte3>(k, *o); break; case 6: do_extract<Byte4>(k, *o); break; default: for (int j = 0; j < 4; ++j) switch (rng().below(4)) { case 0: do_rect<n32>(); break; case 1: do_rect<double>(); break; case 2: do_points<n32>(); break; default: do_points<double>(); } } }
	Sut s; delete c[0]; delete c[1]; delete o;
}
// Several threads read one image at the same time.
void shared(int readers) {
	Pic* p = new Pic(draw_pic()); Mat<byte_t>* m = new Mat<byte_t>(*p); int back = rng().below(2); bool eight = rng().below(2); std::vector<char> on; for (int v : p->v) on.push_back(v != back); std::vector<Set>* want = new std::vector<Set>(components(*p, on, eight, false)); Threads th;
	for (int t = 0; t < readers; ++t) th.start([=] { img_multi_connected_components* c; mt_mat* mine; { Sut s; c = new img_multi_connected_components; mine = new mt_mat(*m->m); } for (int k = 0; k < 2; ++k) { { Sut s; img_connected_component_helper::connect_component(*c, *mine, mt_scalar(Px<byte_t>::of(back)), eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour); } same_sets(read_all(*c, *p, "a shared image"), *want, *p, "components of an image several threads read"); } Sut s; delete c; delete mine; });
	th.join(); m->check("several threads"); delete m; delete p; delete want;
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	int nthreads = (int)param("threads", 1, 4), nops = (int)param("operations", 1, 8), readers = (int)param("readers", 0, 4); mem_faults = param("failing_allocations", 0, 3) == 3 && nthreads == 1; if (mem_faults) readers = 0;
	HeapStats before = sut_heap();
	if (nthreads == 1) thread(nops); else { Threads th; for (int t = 0; t < nthreads; ++t) th.start([nops] { thread(nops); }); th.join(); }
	if (readers > 1) shared(readers);
	for (size_t i = 0; i < log->out.size(); ++i) violation("false-error", "a legal call logged: %s", log->out[i].c_str());
	leak_check(before, ""); heap_check(); nontrivial(mix2(rng().next(), nops)); note("%d threads, %d operations, %d readers%s", nthreads, nops, readers, mem_faults ? ", allocations fail" : "");
}
Registrar r({"C24", run, 60000, 600000,
	"one run: up to 8 operations on each of up to 4 threads with two reused results each: components and zones of images of 1x1 to 30x30 pixels of seven pixel types, own, viewed or padded, 4 or 8 neighbours, no mask, a rectangle that may leave the image, a mask image or a background value; of one point; pictures, level images, copies and assignments of results; rectangles of whole points; then up to 4 threads reading one image; in a quarter of the runs of one thread allocations fail; fresh memory holds adversarial patterns. Each result is compared with a flood fill and with sets of points. Non-trivial: every run; distinct by the state of its random stream after the operations.",
	"basicimg/include/img_connected_component.h, basicimg/src/img_connected_component.cpp, img_mser_result.cpp (level images), basicmath/include/mt_rect_t.h, basicmath/src/mt_mat*.cpp (real code, the templates compiled with the same instrumentation)", "thread scheduling, heap and its failures (simulated), log output (captured); OpenCV's resizing is not run"});
}
