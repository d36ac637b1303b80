// C01, C02: the parallel extractors report exactly what a sequential component-tree extraction reports.
// C03: every region they report is true of the image. C22: the same with 8-neighbour connectivity.
#include "img_common.h"
using namespace img;
namespace {
#define WHO who_is
std::vector<Region> extract_once(const Settings& s, const Image& im, int border, bool draw = false) {
	basiclog::log_logger::init_logger(new CaptureLogger(false));
	Source src; src.open(im, border);
	img_mser_base* e; img_multi_msers* res;
	{ Sut t; e = make(s.alg); configure(e, s); res = new img_multi_msers(); e->extract(*res, *src.mat); }
	bool on[2] = {(s.pol & 1) != 0, (s.pol & 2) != 0};
	std::vector<Region> got = decode(*res, im, WHO(s.alg), on, s.alg);
	src.check_untouched(WHO(s.alg)); if (draw) check_drawn(*res, im, s, WHO(s.alg));
	{ Sut t; delete res; delete e; }
	src.close(); sim::heap_check();
	return got;
}
int draw_border() { int b = (int)param("border", 0, 9); return b > 5 ? 0 : b; }
void run_alg(Settings s) {
	Image im = draw_image_sized(s);
	std::vector<Region> got = extract_once(s, im, draw_border()), want = reference(im, s);
	compare(got, want, WHO(s.alg), s, im, has_boxes(s.alg));
	sim::count("regions_compared", want.size()); if (!want.empty()) sim::nontrivial(hash_regions(want));
	sim::note("%s: %zu regions", describe(s, im).c_str(), want.size());
}
void c01() { run_alg(draw_settings(A_V1)); }
void c02() { run_alg(draw_settings(A_V2)); }

// ---- C03: no reference, only the image
void c03() {
	static const sim::i64 a[] = {A_V1, A_V2, A_V1, A_V2, A_V1, A_V2, A_V1, A_V2, A_V1, A_V2, A_LINEAR, A_MS, A_CV, A_ORIG};
	sim::i64 only[1]; const char* o = getenv("ONLY_ALG"); if (o) only[0] = atoi(o);
	Settings s = draw_settings((int)(o ? param_of("alg", only, 1) : param_of("alg", a, 14))); s.eight = param("eight", 0, 5) == 5; Image im = draw_image_sized(s);
	std::vector<Region> got = extract_once(s, im, draw_border(), true);
	if (s.alg == A_CV) for (size_t i = 0; i < got.size(); ++i) { if (got[i].gray != 0) violation("level-changed", "CV-MSER: a gray level was reported"); got[i].gray = got[i].pol ? 255 : 0; for (size_t k = 0; k < got[i].pix.size(); ++k) { int v = im.px[got[i].pix[k]]; got[i].gray = got[i].pol ? std::min(got[i].gray, v) : std::max(got[i].gray, v); } }      // CV-MSER reports no gray level
	check_truth(got, im, s, WHO(s.alg));
	sim::count("regions_checked", got.size()); if (!got.empty()) sim::nontrivial(hash_regions(got));
	sim::note("%s: %zu regions", describe(s, im).c_str(), got.size());
}
void c22() {
	static const sim::i64 a[] = {A_V1, A_V2, A_LINEAR, A_MS};
	Settings s = draw_settings((int)param_of("alg", a, 4)); s.eight = 1;
	run_alg(s);
}
#define RULE "one run: an image (12 kinds of content: few-level noise, full noise, smooth noise, ramps, checkers, constants, cones, a snake through every block, nested rectangles, dither; 1 pixel per block up to some 40x40, strips of 250-620 pixels using all 256 gray levels, rarely 330x330 and more or a side of 65500 to 65800 pixels; contiguous or part of a bigger image), settings, thread count, delivered team size, nested parallelism, memory poison and the thread schedule (every memory access of the repository's code is a preemption point) are drawn from the seed. "
#define REAL "basicimg/src/img_fast_mser_v1.cpp, img_fast_mser_v2.cpp, img_linked_linear_mser.cpp, img_mser.cpp and the other extractors, img_mser_base.cpp, basicmath/include/mt_block_memory.h, basicmath/src/mt_mat.cpp, basicsys timers/statistics/locks, basiclog (real code, compiled from the working tree)"
#define STUB "OpenMP runtime (simulated teams and barriers), threads, mutexes, clock, heap, log output; masks are off here (C26)"
sim::Registrar r1({"C01", c01, 40000, 2500000, RULE "The regions V1 reports (polarity, gray level, size, box, pixels, multiplicity) must equal those of an independent union-find component tree with the same variation, size, suppression and duplicate rules. Non-trivial: at least one region expected.", REAL, STUB});
sim::Registrar r2({"C02", c02, 40000, 2500000, RULE "The regions V2 reports (decoded from its shared and recursive storage, every pointer checked against live memory) must equal those of an independent union-find component tree. Non-trivial: at least one region expected.", REAL, STUB});
sim::Registrar r3({"C03", c03, 40000, 2500000, RULE "Extractors: V1, V2, linear, ECCV 2008, original, OpenCV-derived (interior pixels). Every region reported is checked against the image alone: connected, maximal at its level, level present, size limits, box, distinct pixels, nested or disjoint; a region drawn shows exactly its pixels. Non-trivial: at least one region reported.", REAL, STUB});
sim::Registrar r22({"C22", c22, 20000, 1000000, RULE "8-neighbour connectivity (V1, V2, ECCV 2008); the regions must equal those of the 8-connected component tree.", REAL, STUB});
}
