// C27: the comparison extractors that follow rules of their own report exactly the regions these rules select.
//   original : the rules of img_linked_linear_mser, roots of the tree included.
//   VF-MSER  : VLFeat's: stability towards the brighter side only, duplicates dropped in favour of the parent; sizes and levels are reported.
//   CV-MSER  : OpenCV 3's: interior pixels, 4 neighbours, stability between level - delta (along the biggest child) and level + delta, no duplicate rule.
#include "img_common.h"
using namespace img;
namespace {
struct Tag { char c[24]; Tag(const char* p, int i) { snprintf(c, sizeof c, "%s%d_", p, i); } };
const char* nm(const Tag& t, const char* n) { return strdup((std::string(t.c) + n).c_str()); }
struct Ext { Region r; bool must; };
void vf_rules(const Image& im, const Settings& s, std::vector<Region>& out) {
	int n = im.w * im.h, hi = (int)(s.ratio * im.h * im.w);
	for (int pol = 0; pol < 2; ++pol) if (s.pol >> pol & 1) {
		std::vector<Node> N; build_nodes(im, s.eight, pol ? 255 : 0, N);
		std::vector<char> on(N.size(), 1);
		for (size_t i = 0; i < N.size(); ++i) {
			int a = (int)i; while (N[a].parent >= 0 && N[N[a].parent].gray <= N[i].gray + s.delta) a = N[a].parent;
			N[i].var = s.delta > 0 ? (float)(N[a].size - N[i].size) / N[i].size : -1;
		}
		if (s.nms >= 0) for (size_t i = 0; i < N.size(); ++i) { int p = N[i].parent; if (p < 0 || N[p].gray > N[i].gray + 1) continue;
			if (N[i].var - N[p].var < -s.nms) on[p] = 0; else if (N[p].var - N[i].var < -s.nms) on[i] = 0; }
		for (size_t k = N.size(); k-- > 0; ) if (on[k]) {      // parents first
			bool drop = N[k].var >= s.stable || N[k].size > hi || N[k].size < s.min_point;
			if (!drop && s.dup > 0 && s.dup < 1 && N[k].parent >= 0) { int p = N[k].parent; while (!on[p] && N[p].parent >= 0) p = N[p].parent; drop = (float)(N[p].size - N[k].size) / (float)N[p].size < s.dup; }
			if (drop) on[k] = 0;
		}
		for (size_t k = 0; k < N.size(); ++k) if (on[k]) { Region r; r.pol = pol; r.gray = pol ? 255 - N[k].gray : N[k].gray; r.size = N[k].size; r.pix.assign(1, r.size); memset(r.rect, 0, sizeof r.rect); out.push_back(r); }
	}
	(void)n; std::sort(out.begin(), out.end());
}
// Two equally big children: which one counts depends on the order of the flood; such a region is then allowed, not required.
void cv_sizes(const std::vector<Node>& N, int at, int floor, std::set<int>& out) {
	int big = 0; for (int c : N[at].kids) big = std::max(big, N[c].size);
	bool stay = N[at].kids.empty(); for (int c : N[at].kids) if (N[c].size == big) { if (N[c].gray >= floor) cv_sizes(N, c, floor, out); else stay = true; }
	if (stay) out.insert(N[at].size);
}
void cv_rules(const Image& whole, const Settings& s, std::vector<Ext>& out) {
	if (whole.w < 3 || whole.h < 3) return;
	int hi = (int)(s.ratio * whole.h * whole.w); Image im; im.w = whole.w - 2; im.h = whole.h - 2; im.px.resize((size_t)im.w * im.h);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) im.px[(size_t)y * im.w + x] = whole.at(x + 1, y + 1);
	for (int pol = 0; pol < 2; ++pol) if (s.pol >> pol & 1) {
		std::vector<Node> N; build_nodes(im, false, pol ? 255 : 0, N);
		std::vector<float> lo(N.size()), up(N.size());
		for (size_t i = 0; i < N.size(); ++i) {
			if (N[i].size < s.min_point) { lo[i] = up[i] = FLT_MAX; continue; }
			int a = (int)i; while (N[a].parent >= 0 && N[N[a].parent].gray <= N[i].gray + s.delta) a = N[a].parent;
			std::set<int> h; cv_sizes(N, (int)i, N[i].gray - s.delta, h);
			lo[i] = (float)(N[a].size - *h.rbegin()) / N[i].size; up[i] = (float)(N[a].size - *h.begin()) / N[i].size;
		}
		for (size_t i = 0; i < N.size(); ++i) {
			if (N[i].size < s.min_point || N[i].size > hi) continue;
			bool may = lo[i] <= s.stable, must = up[i] <= s.stable;
			if (s.nms >= 0) for (size_t k = 0; k <= N[i].kids.size(); ++k) { int o = k < N[i].kids.size() ? N[i].kids[k] : N[i].parent; if (o < 0 || abs(N[o].gray - N[i].gray) != 1) continue;
				if (lo[i] - up[o] > s.nms) may = false;
				if (up[i] - lo[o] > s.nms) must = false; }
			if (!may) continue;
			Ext e; e.r = region_of(N, (int)i, pol, im, 1, 1); e.must = must; out.push_back(e);
		}
	}
	std::sort(out.begin(), out.end(), [](const Ext& a, const Ext& b) { return a.r < b.r; });
}
void history(int t, int alg, int n) {
	img_mser_base* e; img_multi_msers* res; { Sut q; e = make(alg); res = new img_multi_msers(); }
	Image im; int b = 0; size_t expect = 0; sim::u64 h = alg;
	for (int k = 0; k < n; ++k) {
		Tag p("s", t * 4 + k); Settings s = draw_settings(alg, p.c); s.eight = param(nm(p, "eight"), 0, 4) == 4;
		if (param(nm(p, "loose"), 0, 1)) { s.stable = param(nm(p, "bound"), 0, 1) ? 20.f : FLT_MAX; s.min_point = std::min(s.min_point, 2); s.nms = s.nms > 0.1f ? 0.1f : s.nms; s.ratio = std::max(s.ratio, 0.9f); }      // the suppression decides
		 const char* who = who_is(alg);
		if (k == 0 || param(nm(p, "same"), 0, 3)) {      // or the last image with other settings
			b = (int)param(nm(p, "border"), 0, 9);
			if (param(nm(p, "tiny"), 0, 5) == 5) im = draw_image(1 + (int)param(nm(p, "tiny_w"), 0, 4), 1 + (int)param(nm(p, "tiny_h"), 0, 12), p.c); else im = draw_image_sized(s, p.c);
		}
		int how = (int)param(nm(p, "how"), 0, 4); bool on[2] = {(s.pol & 1) != 0, (s.pol & 2) != 0};
		Source src; src.open(im, b > 5 ? 0 : b);
		{ Sut q; if (how == 1) e->clear_memory_cache(); if (how == 2) { delete res; res = new img_multi_msers(); } configure(e, s); e->extract(*res, *src.mat); }
		std::vector<Region> got = decode(*res, im, who, on, alg); src.check_untouched(who); size_t expected_now;
		if (alg == A_CV) {
			for (size_t i = 0; i < got.size(); ++i) { got[i].gray = got[i].pol ? 255 : 0; for (int q : got[i].pix) got[i].gray = got[i].pol ? std::min<int>(got[i].gray, im.px[q]) : std::max<int>(got[i].gray, im.px[q]); }      // it reports no level
			std::sort(got.begin(), got.end());
			std::vector<Ext> all; cv_rules(im, s, all); std::vector<Region> want; size_t open = 0;
			for (size_t i = 0, j = 0; i < all.size(); ++i) { while (j < got.size() && got[j] < all[i].r) ++j; bool there = j < got.size() && got[j].same(all[i].r); if (!all[i].must) ++open; if (all[i].must || there) want.push_back(all[i].r); }
			compare(got, want, who, s, im, true); expected_now = want.size(); sim::count("regions_either_way", open);
		} else {
			std::vector<Region> want; if (alg == A_VF) vf_rules(im, s, want); else want = reference(im, s, NULL, -1, true);
			compare(got, want, who, s, im, false); expected_now = want.size();
		}
		src.close(); expect += expected_now; h = sim::mix2(h, hash_bytes(&im.px[0], im.px.size(), 9)); sim::count("extractions"); sim::note("%s: %zu regions", describe(s, im).c_str(), expected_now);
	}
	{ Sut q; delete res; delete e; }
	sim::count("regions_compared", expect); if (expect) sim::nontrivial(sim::mix2(h, expect));
}
void c27() {
	basiclog::log_logger::init_logger(new CaptureLogger(false));
	static const sim::i64 a[] = {A_CV, A_VF, A_ORIG}; sim::i64 only[1]; const char* o = getenv("ONLY_ALG"); if (o) only[0] = atoi(o);
	int nt = std::max(1, (int)param("threads", 0, 4) - 1); std::vector<int> algs, steps;
	for (int t = 0; t < nt; ++t) { Tag p("t", t); algs.push_back((int)(o ? param_of(nm(p, "alg"), only, 1) : param_of(nm(p, "alg"), a, 3))); steps.push_back((int)param(nm(p, "steps"), 1, 3)); }
	if (nt == 1) history(0, algs[0], steps[0]);
	else { Threads th; for (int t = 0; t < nt; ++t) th.start([&, t] { history(t, algs[t], steps[t]); }); th.join(); }
	sim::heap_check();
}
sim::Registrar r27({"C27", c27, 30000, 1500000,
	"one run: up to three threads, each with an extractor of its own (CV-MSER, VF-MSER, original MSER) used one to three times, its memory kept or cleared, its result reused or renewed; for each use an image (12 kinds of content, 1x1 to some 40x40, strips of up to 620 pixels, contiguous or part of a bigger image), settings, 4 or 8 neighbours, memory poison and the schedule (every memory access is a preemption point) are drawn from the seed. The regions reported (CV: pixels and box; VF: level and size; original: level, pixels) must equal those the published rules select on an independent union-find component tree; where two children of a region are equally big, CV-MSER may take either. Non-trivial: at least one region expected.",
	"basicimg/src/img_opencv3_mser.cpp, img_vlfeat_mser.cpp, img_origin_mser.cpp, img_mser_base.cpp, img_mser.cpp, basicmath/src/mt_mat.cpp, basicsys, basiclog (real code, compiled from the working tree)",
	"clock, heap, log output, threads (simulated)"});
}
