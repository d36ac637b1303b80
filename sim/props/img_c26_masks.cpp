// C26: a mask confines an extraction to the pixels it admits.
#include "img_common.h"
using namespace img;
namespace {
struct Tag { char t[24]; Tag(const char* p, int i) { snprintf(t, sizeof t, "%s%d_", p, i); } };
const char* nm(const Tag& t, const char* n) { return strdup((std::string(t.t) + n).c_str()); }
struct Masked {
	Settings s; Image im, mask; int kind, l, t, w, h, value, border, mask_border; std::vector<char> on; std::vector<Region> want; bool whole, judged; std::string who;
};
enum { NONE, RECT, PICTURE, VALUE };
bool knows_masks(int alg) { return alg == A_LINEAR || alg == A_ORIG; }
Masked draw(int alg, const Tag& p, const Masked* last) {
	Masked m; m.s = draw_settings(alg, p.t); m.s.eight = param(nm(p, "eight"), 0, 3) == 3; int plain = (int)param(nm(p, "plain"), 0, 3); if (plain > 1) m.s.delta = 0; if (plain > 2) m.s.dup = -1;
	int ph, pw; parts(m.s, ph, pw);
	int same = last ? (int)param(nm(p, "same"), 0, 3) : 0;      // the very image or size of the extraction before
	if (same >= 2 && last->im.h >= ph && last->im.w >= pw) m.im = same == 2 ? draw_image(last->im.w, last->im.h, p.t) : last->im; else m.im = draw_image_sized(m.s, p.t);
	const Image& im = m.im; size_t n = im.px.size(); m.on.assign(n, 1); m.mask = im; m.l = m.t = m.w = m.h = m.value = 0;
	static const sim::i64 k[] = {PICTURE, RECT, VALUE, PICTURE, RECT, VALUE, NONE}; m.kind = (int)param_of(nm(p, "mask"), k, 7); Rng r(param(nm(p, "mask_seed"), 1, 1 << 24));
	char b[120] = "no mask";
	if (m.kind == RECT) {
		int out = (int)param(nm(p, "leaves"), 0, 3); m.w = 1 + r.below(im.w); m.h = 1 + r.below(im.h); m.l = r.below(im.w - m.w + 1); m.t = r.below(im.h - m.h + 1);
		if (out == 3) { m.l = (int)r.below(im.w + 5) - 3; m.t = (int)r.below(im.h + 5) - 3; m.w = 1 + r.below(im.w + 4); m.h = 1 + r.below(im.h + 4); } if (out == 1) { m.l = m.t = 0; m.w = im.w; m.h = im.h; }
		for (size_t i = 0; i < n; ++i) { int x = (int)i % im.w, y = (int)i / im.w; m.on[i] = x >= m.l && y >= m.t && x < m.l + m.w && y < m.t + m.h; }
		snprintf(b, sizeof b, "rectangle %d,%d %dx%d", m.l, m.t, m.w, m.h);
	} else if (m.kind == PICTURE) {
		int how = (int)param(nm(p, "picture"), 0, 5), den = 1 + r.below(20), cx = r.below(im.w), cy = r.below(im.h), rad = 1 + r.below(12), step = 2 + r.below(6);
		for (size_t i = 0; i < n; ++i) { int x = (int)i % im.w, y = (int)i / im.w;
			m.on[i] = how == 0 ? r.below(20) < (u32)den : how == 1 ? (x - cx) * (x - cx) + (y - cy) * (y - cy) <= rad * rad : how == 2 ? (x + y) % step != 0 : how == 3 ? i != 0 : how == 4 ? (x / step + y / step) % 2 : 1 + (int)r.below(40) != 1 || den != 1;
			m.mask.px[i] = m.on[i]; }
		snprintf(b, sizeof b, "mask image of kind %d", how);
	} else if (m.kind == VALUE) {
		m.value = im.px[r.below((u32)n)]; if (r.below(6) == 0) m.value = r.below(256);
		for (size_t i = 0; i < n; ++i) m.on[i] = im.px[i] != m.value;
		snprintf(b, sizeof b, "background %d", m.value);
	}
	m.who = b; m.border = (int)param(nm(p, "border"), 0, 6); m.mask_border = (int)param(nm(p, "mask_border"), 0, 6); if (m.border > 3) m.border = 0; if (m.mask_border > 3) m.mask_border = 0;
	return m;
}
int limit(const Masked& m) { return (int)(m.s.ratio * m.im.h * m.im.w); }
std::vector<Region> extract(img_mser_base* e, img_multi_msers* res, const Masked& m, int kind, const char* who) {
	Source src, msk; src.open(m.im, m.border); Image mi = m.mask; if (kind == PICTURE) for (size_t i = 0; i < mi.px.size(); ++i) mi.px[i] = m.on[i]; msk.open(mi, m.mask_border);
	img_mask_info<u8>* info; { Sut t; info = kind == RECT ? new img_mask_info<u8>(mt_rect(m.l, m.t, m.w, m.h)) : kind == PICTURE ? new img_mask_info<u8>(*msk.mat) : kind == VALUE ? new img_mask_info<u8>((u8)m.value) : new img_mask_info<u8>(); }
	{ Sut t; configure(e, m.s); if (kind == NONE && sim::rng().below(2)) e->extract(*res, *src.mat); else e->extract(*res, *src.mat, *info); }
	bool pol[2] = {(m.s.pol & 1) != 0, (m.s.pol & 2) != 0};
	std::vector<Region> got = decode(*res, m.im, who, pol, m.s.alg);
	src.check_untouched(who); msk.check_untouched(who); { Sut t; delete info; } src.close(); msk.close(); return got;
}
std::vector<Region> fresh(const Masked& m, int kind, const char* who) {      // by a new extractor, from matrices of their own
	Masked f = m; f.border = f.mask_border = 0; img_mser_base* e; img_multi_msers* res; { Sut t; e = make(m.s.alg); res = new img_multi_msers(); }
	std::vector<Region> got = extract(e, res, f, kind, who); { Sut t; delete res; delete e; } return got;
}
std::vector<Region> wanted(const Masked& m) {
	if (m.s.alg == A_LINEAR && m.s.delta > 0 && m.kind != NONE && m.kind != RECT) return fresh(m, PICTURE, "linear, new extractor, mask image");      // how far a region may grow into the mask is its own affair
	if (m.s.alg == A_LINEAR) {
		if (m.kind != RECT) return reference(m.im, m.s, m.kind == NONE ? NULL : &m.on, limit(m));
		int l = std::max(0, m.l), t = std::max(0, m.t), r = std::min(m.im.w, m.l + m.w), b = std::min(m.im.h, m.t + m.h); std::vector<Region> out; if (l >= r || t >= b) return out;
		Image cut; cut.w = r - l; cut.h = b - t; cut.px.resize((size_t)cut.w * cut.h); for (int y = 0; y < cut.h; ++y) for (int x = 0; x < cut.w; ++x) cut.px[(size_t)y * cut.w + x] = m.im.at(x + l, y + t);
		out = reference(cut, m.s, NULL, limit(m));      // the regions of the part cut out, at its place
		for (size_t i = 0; i < out.size(); ++i) { out[i].rect[0] += l; out[i].rect[1] += t; for (size_t k = 0; k < out[i].pix.size(); ++k) { int p = out[i].pix[k]; out[i].pix[k] = (p / cut.w + t) * m.im.w + p % cut.w + l; } }
		std::sort(out.begin(), out.end()); return out;
	}
	if (m.s.alg == A_ORIG && m.s.delta <= 0 && m.s.dup <= 0) return reference(m.im, m.s, &m.on, limit(m), true);      // every region within the size limits
	if (m.s.alg == A_ORIG) return fresh(m, m.kind == NONE ? NONE : PICTURE, "original, new extractor, mask image");      // every kind of mask: as the mask image that admits the same pixels
	return expected(m.im, m.s);      // masks are not for this extractor: the whole image
}
void history(int first, int alg, int n, CaptureLogger* log) {
	img_mser_base* e; img_multi_msers* res; { Sut t; e = make(alg); res = new img_multi_msers(); }
	Masked last; sim::u64 h = 3; size_t regions = 0;
	for (int i = 0; i < n; ++i) {
		Tag p("s", first + i); Masked m = draw(alg, p, i ? &last : NULL); int how = (int)param(nm(p, "how"), 0, 4);
		std::vector<Region> want = wanted(m); { Sut t; if (how == 1) e->clear_memory_cache(); if (how == 2) { delete res; res = new img_multi_msers(); } }
		char who[160]; snprintf(who, sizeof who, "%s, %s, extraction %d on one extractor", who_is(alg), m.who.c_str(), i + 1);
		size_t before = log ? log->out.size() : 0;
		std::vector<Region> got = extract(e, res, m, m.kind, who);
		if (knows_masks(alg)) check_truth(got, m.im, m.s, who, &m.on, limit(m));
		compare(got, want, who, m.s, m.im, has_boxes(alg)); sim::heap_check();
		if (log) { bool said = log->out.size() > before; if (!knows_masks(alg) && m.kind != NONE && m.s.pol && !said) violation("mask-ignored-silently", "%s: the mask was left out of account and nothing was logged", who); if (knows_masks(alg) && said) violation("false-error", "%s logged: %s", who, log->out[before].c_str()); }
		regions += want.size(); h = sim::mix2(h, hash_regions(want)); last = m; sim::count("extractions"); sim::note("%s: %s: %zu regions", who, describe(m.s, m.im).c_str(), want.size());
	}
	{ Sut t; delete res; delete e; } sim::count("regions_compared", regions); if (regions) sim::nontrivial(h);
}
void c26() {
	CaptureLogger* log = new CaptureLogger(); basiclog::log_logger::init_logger(log);
	log->enable_debug(false); log->enable_info(false); log->enable_warning(false);      // errors only
	int nt = param("threads", 0, 3) == 3 ? 2 : 1; std::vector<int> algs, steps;
	static const sim::i64 a[] = {A_LINEAR, A_ORIG, A_LINEAR, A_ORIG, A_LINEAR, A_ORIG, A_V1, A_V2, A_MS, A_OCV, A_CV, A_ID, A_VF};
	for (int t = 0; t < nt; ++t) { Tag p("t", t); if (const char* o = getenv("ONLY_ALG")) { sim::i64 k[] = {atoi(o)}; algs.push_back((int)param_of(nm(p, "alg"), k, 1)); } else algs.push_back((int)param_of(nm(p, "alg"), a, 13)); steps.push_back((int)param(nm(p, "steps"), 1, 3)); }
	if (nt == 1) history(0, algs[0], steps[0], log);
	else { Threads th; for (int t = 0; t < nt; ++t) th.start([&, t] { history(t * 4, algs[t], steps[t], NULL); }); th.join(); }
	sim::heap_check();
}
#define REAL "basicimg/src/img_linked_linear_mser.cpp, img_origin_mser.cpp, the other extractors, img_mser_base.cpp, img_connected_component.h (mask descriptions), basicmath/src/mt_mat.cpp, basiclog (real code, compiled from the working tree)"
#define STUB "OpenMP runtime (simulated teams and barriers), threads, mutexes, clock, heap (every access checked, blocks tracked), log output"
sim::Registrar r26({"C26", c26, 20000, 1200000, "one run: up to three extractions on one extractor (or on two, in two threads) of images of 12 kinds, own or viewed, with no mask, a rectangle that may leave the image, a mask image (noise, disc, stripes, checks, one corner left out; own or viewed) or a background value; settings, cache clears, reused results, poison and the schedule of every memory access from the seed. Linear: the regions must equal those of the component tree in which pixels left out come last (rectangle: of the part cut out). Original: those of a new extractor given the mask image that admits the same pixels; both: every region connected and maximal among the admitted pixels. Others: the whole image's regions and a record in the log. Non-trivial: at least one region expected.", REAL, STUB});
}
