// C04 reuse of an extractor, C05 concurrent extractions, C06 ownership of results, C07 leaks.
#include "img_common.h"
#include <memory>
using namespace img;
namespace {
#define WHO who_is
std::string pre(const char* p, int i) { char b[16]; snprintf(b, sizeof b, "%s%d_", p, i); return b; }
struct Job { Settings s; Image im; std::vector<Region> want; int border; };
Job draw_job(int alg, const std::string& p, const Image* last = NULL) {
	Job j; j.s = draw_settings(alg, p.c_str()); j.s.eight = param(strdup((p + "eight").c_str()), 0, 5) == 5; 
	int same = last ? (int)param(strdup((p + "same").c_str()), 0, 5) : 0, ph, pw; parts(j.s, ph, pw);      // the size of the image before, or the very image
	if (same >= 4 && last->h >= ph && last->w >= pw) j.im = same == 4 ? draw_image(last->w, last->h, p.c_str()) : *last; else j.im = draw_image_sized(j.s, p.c_str());
	j.want = expected(j.im, j.s); j.border = 0; return j;
}
int draw_alg(const char* name) { static const sim::i64 a[] = {A_V1, A_V2, A_LINEAR, A_V1, A_V2, A_MS, A_V1, A_V2, A_CV, A_VF, A_OCV, A_ORIG, A_V1, A_V2, A_ID}; if (const char* o = getenv("ONLY_ALG")) { sim::i64 k[] = {atoi(o)}; return (int)param_of(name, k, 1); } return (int)param_of(name, a, 15); }
void check_result(const img_multi_msers& res, const Job& j, const char* who) {
	bool on[2] = {(j.s.pol & 1) != 0, (j.s.pol & 2) != 0};
	std::vector<Region> got = decode(res, j.im, who, on, j.s.alg);
	compare(got, j.want, who, j.s, j.im, has_boxes(j.s.alg));
}
void quiet_log() { basiclog::log_logger::init_logger(new CaptureLogger(false)); }

// ---- C04
void c04_shrink();
void c04() {
	if (param("shrink", 0, 15) == 15) return c04_shrink();
	quiet_log();
	int alg = draw_alg("alg"), n = (int)param("steps", 2, 5); sim::u64 h = 3; size_t regions = 0;
	img_mser_base* e; img_multi_msers* res; { Sut t; e = make(alg); res = new img_multi_msers(); }
	Image last; std::vector<Source*> kept;      // images the caller goes on using
	for (int i = 0; i < n; ++i) {
		std::string p = pre("s", i);
		Job j = draw_job(alg, p, i ? &last : NULL); last = j.im;
		int how = (int)param(strdup((p + "how").c_str()), 0, 5);
		bool keep = param(strdup((p + "keep").c_str()), 0, 2) != 0;
		Source& src = *new Source(); src.open(j.im, (int)param(strdup((p + "border").c_str()), 0, 3)); kept.push_back(&src);
		int reps = i && j.im.w * j.im.h < 400 && param(strdup((p + "repeat").c_str()), 0, 9) == 9 ? 12 : 1;      // memory that stays too big for long is given back
		for (int q = 1; q < reps; ++q) { Sut t; configure(e, j.s); e->extract(*res, *src.mat); }
		{ Sut t; if (how == 1 || how == 2) e->clear_memory_cache(); if (how == 2 || how == 3) { delete res; res = new img_multi_msers(); } configure(e, j.s); e->extract(*res, *src.mat); }
		char who[64]; snprintf(who, sizeof who, "%s, extraction %d on one extractor", WHO(alg), i + 1);
		check_result(*res, j, who); for (size_t k = 0; k < kept.size(); ++k) if (kept[k]->mat) kept[k]->check_untouched(who); if (!keep) src.close(); sim::heap_check();
		h = sim::mix2(h, hash_regions(j.want)); regions += j.want.size();
		sim::note("%d: %s: %zu regions", i, describe(j.s, j.im).c_str(), j.want.size());
	}
	for (size_t k = 0; k < kept.size(); ++k) { if (kept[k]->mat) kept[k]->close(); delete kept[k]; }
	{ Sut t; delete res; delete e; }
	sim::heap_check(); sim::count("extractions", n); sim::count("regions_compared", regions); if (regions) sim::nontrivial(h);
}

// Many regions, then few for long enough that memory is given back, then some number in between.
void c04_shrink() {
	quiet_log();
	static const sim::i64 algs[] = {A_V2, A_V1, A_MS, A_LINEAR, A_ORIG, A_CV}; int alg = (int)param_of("alg", algs, 6);
	Settings s = draw_settings(alg); s.eight = 0; if (param("plain", 0, 3)) { s.min_point = 1; s.stable = FLT_MAX; s.ratio = 1; s.delta = 1; s.dup = -1; s.nms = -1; }
	int side[3] = {(int)param("big", 24, 48), (int)param("small", 2, 6), 0}, times = (int)param("times", 8, 16), more = (int)param("more", 1, 3); Rng r((sim::u64)param("image_seed", 1, 1 << 20));
	int ph, pw; parts(s, ph, pw); for (int i = 0; i < 2; ++i) side[i] = std::max(side[i], std::max(ph, pw));
	img_mser_base* e; { Sut t; e = make(alg); } sim::u64 h = 7; size_t regions = 0;
	for (int i = 0; i < 2 + more; ++i) {
		int d = i < 2 ? side[i] : std::max(side[1], side[0] * (int)param(strdup((pre("part", i)).c_str()), 3, 11) / 10);
		Job j; j.s = s; j.im.w = j.im.h = d; j.im.px.resize((size_t)d * d); int gray = i == 1 ? 1 + r.below(3) : 256; for (auto& v : j.im.px) v = (unsigned char)r.below(gray);
		j.want = expected(j.im, j.s); j.border = 0; Source src; src.open(j.im, 0); char who[80]; snprintf(who, sizeof who, "%s, extraction of %dx%d after %s", WHO(alg), d, d, i == 0 ? "nothing" : i == 1 ? "a bigger image" : "many small images");
		for (int q = 0; q < (i == 1 ? times : 1); ++q) { img_multi_msers* res; { Sut t; res = new img_multi_msers(); configure(e, s); e->extract(*res, *src.mat); } check_result(*res, j, who); { Sut t; delete res; } sim::heap_check(); regions += j.want.size(); }
		h = sim::mix2(h, hash_regions(j.want)); src.close(); sim::note("%d: %s: %zu regions", i, describe(j.s, j.im).c_str(), j.want.size());
	}
	{ Sut t; delete e; }
	sim::heap_check(); sim::count("shrink_histories", 1); sim::count("extractions", times + more + 1); sim::count("regions_compared", regions); if (regions) sim::nontrivial(h);
}

// ---- C05
void c05() {
	quiet_log();
	int nt = (int)param("threads", 2, 4), per = (int)param("per", 1, 2); bool share = param("share", 0, 1) != 0;
	std::vector<std::vector<Job> > jobs(nt); std::vector<std::vector<img_multi_msers*> > res(nt); std::vector<Source*> own; std::vector<std::vector<Source*> > src(nt);
	for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) {
		std::string p = pre("t", t * 2 + k); int alg = draw_alg(strdup((p + "alg").c_str()));
		Job j; j.s = draw_settings(alg, p.c_str());
		if (share && (t || k)) { j.im = jobs[0][0].im; int ph, pw; parts(j.s, ph, pw); if (j.im.h < ph || j.im.w < pw) j.s.threads = 1; }
		else j.im = draw_image_sized(j.s, p.c_str());
		if (share && (t || k)) src[t].push_back(src[0][0]); else { Source* s = new Source(); s->open(j.im, 0); own.push_back(s); src[t].push_back(s); }
		j.want = expected(j.im, j.s); jobs[t].push_back(j); res[t].push_back(NULL);
	}
	{ Sut t; sys_alg_analyzer::init(); }
	Threads th;
	for (int t = 0; t < nt; ++t) th.start([&, t] {
		Sut q; img_mser_base* e = NULL; int alg = -1;
		for (int k = 0; k < per; ++k) {
			if (alg != jobs[t][k].s.alg) { if (e) delete e; e = make(alg = jobs[t][k].s.alg); }
			configure(e, jobs[t][k].s); res[t][k] = new img_multi_msers(); e->extract(*res[t][k], *src[t][k]->mat);
		}
		delete e;
	});
	th.join();
	sim::u64 h = 5; size_t regions = 0;
	for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) {
		char who[64]; snprintf(who, sizeof who, "%s in thread %d of %d", WHO(jobs[t][k].s.alg), t, nt);
		check_result(*res[t][k], jobs[t][k], who); src[t][k]->check_untouched(who); h = sim::mix2(h, hash_regions(jobs[t][k].want)); regions += jobs[t][k].want.size();
		sim::note("thread %d: %s: %zu regions", t, describe(jobs[t][k].s, jobs[t][k].im).c_str(), jobs[t][k].want.size());
		{ Sut q; delete res[t][k]; }
	}
	for (size_t i = 0; i < own.size(); ++i) own[i]->close();
	// the shared statistics: every reported region was counted
	CaptureLogger* log = new CaptureLogger(); log->yields = false; basiclog::log_logger::init_logger(log);
	{ Sut t; sys_alg_analyzer::release(); }
	std::string text; for (size_t i = 0; i < log->out.size(); ++i) text += log->out[i];
	size_t p = text.find("mser_number"); long long total = -1; if (p != std::string::npos) { p += 11; while (p < text.size() && !isdigit(text[p])) ++p; total = atoll(text.c_str() + p); }
	if (total != (long long)regions) violation("statistics", "the shared statistics count %lld regions, but %zu were reported", total, regions);
	sim::heap_check(); sim::count("extractions", nt * per); sim::count("regions_compared", regions); if (regions) sim::nontrivial(h);
}

// ---- C06
struct Held { img_multi_msers* r; int job; };
void c06() {
	quiet_log();
	int ne = (int)param("extractors", 1, 2), nj = (int)param("jobs", 1, 3), ops = (int)param("ops", 3, 14);
	std::vector<Job> jobs; std::vector<int> algs; std::vector<img_mser_base*> ex(ne, (img_mser_base*)NULL); std::vector<Source*> src;
	for (int i = 0; i < ne; ++i) algs.push_back(draw_alg(strdup((pre("x", i) + "alg").c_str())));
	for (int i = 0; i < nj; ++i) { Job j = draw_job(algs[i % ne], pre("j", i)); if (j.im.w * j.im.h > 1500) j = draw_job(algs[i % ne], pre("k", i)); jobs.push_back(j); }
	std::vector<Held> held; sim::u64 h = 11; size_t regions = 0; int copies = 0;
	for (int k = 0; k < ops; ++k) {
		int op = (int)param(strdup((pre("o", k) + "op").c_str()), 0, 10), a = (int)param(strdup((pre("o", k) + "a").c_str()), 0, 9), b = (int)param(strdup((pre("o", k) + "b").c_str()), 0, 9);
		char who[80]; snprintf(who, sizeof who, "operation %d", k);
		if (op <= 2 || held.empty()) {        // extract, into a new result or over an old one; the source goes away at once
			int ji = a % nj, x = ji % ne; Job& j = jobs[ji]; Source s; s.open(j.im, 0);
			Held d; d.job = ji;
			{ Sut t; if (!ex[x]) ex[x] = make(algs[x]); configure(ex[x], j.s); if (op == 2 && !held.empty()) { Held& o = held[b % held.size()]; ex[x]->extract(*o.r, *s.mat); o.job = ji; d.r = NULL; } else { d.r = new img_multi_msers(); ex[x]->extract(*d.r, *s.mat); } }
			s.close(); if (d.r) held.push_back(d);
		} else if (op <= 4) { Held d = held[a % held.size()]; { Sut t; d.r = new img_multi_msers(*d.r); } held.push_back(d); ++copies; }
		else if (op <= 6) { Held& to = held[a % held.size()]; Held& from = held[b % held.size()]; { Sut t; *to.r = *from.r; } to.job = from.job; ++copies; }
		else if (op == 7) { size_t i = a % held.size(); { Sut t; delete held[i].r; } held.erase(held.begin() + i); }
		else if (op == 10) { // handles to the regions, and a walk over their pixels
			img_multi_msers* r = held[a % held.size()].r; std::vector<const img_mser*> p; bool ok; { Sut t; std::vector<const img_mser*> q; img_mser_helper::shallow_copy_msers(q, *r); img_mser_helper::visit_pixel_test(*r); sim::Quiet u; p.assign(q.begin(), q.end()); }
			ok = p.size() == r->m_msers[0].size() + r->m_msers[1].size(); for (size_t i = 0; ok && i < p.size(); ++i) ok = p[i] == (i < r->m_msers[0].size() ? &r->m_msers[0][i] : &r->m_msers[1][i - r->m_msers[0].size()]); if (!ok) violation("wrong-handles", "%s: the %zu handles of a result are not its regions", who, p.size()); }
		else { int x = a % ne; Sut t; if (ex[x]) { if (op == 8) ex[x]->clear_memory_cache(); else { delete ex[x]; ex[x] = NULL; } } }
		for (size_t i = 0; i < held.size(); ++i) { char w[100]; snprintf(w, sizeof w, "result %zu (%s) after operation %d", i, WHO(jobs[held[i].job].s.alg), k); check_result(*held[i].r, jobs[held[i].job], w); regions += jobs[held[i].job].want.size(); }
		sim::heap_check(); h = sim::mix2(h, op * 100 + a * 10 + b);
	}
	{ Sut t; while (!held.empty()) { size_t i = sim::rng().below((sim::u32)held.size()); delete held[i].r; held.erase(held.begin() + i); } for (int i = 0; i < ne; ++i) delete ex[i]; }
	sim::heap_check(); sim::count("copies", copies); sim::count("regions_compared", regions); if (regions && copies) sim::nontrivial(h);
	sim::note("%d operations, %d copies, %d extractors", ops, copies, ne);
}

// ---- C07
void c07() {
	quiet_log();
	int alg = draw_alg("alg"), nj = (int)param("jobs", 1, 3), rounds = (int)param("rounds", 2, 4), clear = (int)param("clear", 0, 3);
	std::vector<Job> jobs; std::vector<Source> src(nj);
	for (int i = 0; i < nj; ++i) { jobs.push_back(draw_job(alg, pre("j", i))); }
	for (int i = 0; i < nj; ++i) src[i].open(jobs[i].im, 0);
	// what the process keeps for good (statistics, per-thread logger state) is allocated by a first life of the extractor
	sim::HeapStats before = sim::sut_heap();
	for (int life = 0; life < 2; ++life) {
		img_mser_base* e; { Sut t; e = make(alg); }
		sim::u64 last = 0;
		for (int r = 0; r < rounds; ++r) {
			for (int i = 0; i < nj; ++i) { Sut t; configure(e, jobs[i].s); img_multi_msers res; e->extract(res, *src[i].mat); }
			if (clear == 1 || (clear == 2 && r % 2 == 0)) { Sut t; e->clear_memory_cache(); }
			sim::HeapStats now = sim::sut_heap();
			bool same = clear != 2 && r >= 1;       // the first round fills caches
			if (same && now.live_bytes > last) { violation("leak-per-round", "%s: round %d of the same %d extractions made live memory grow from %llu to %llu bytes (%s)", WHO(alg), r + 1, nj, (unsigned long long)last, (unsigned long long)now.live_bytes, describe(jobs[0].s, jobs[0].im).c_str()); }
			last = now.live_bytes;
		}
		{ Sut t; delete e; }
		sim::HeapStats end = sim::sut_heap();
		if (life == 0) before = end; else if (end.live_bytes > before.live_bytes) { violation("leak-at-end", "%s: after destroying the extractor and its results %lld bytes in %lld blocks more are live than before it was created (%s)", WHO(alg), (long long)(end.live_bytes - before.live_bytes), (long long)(end.live_blocks - before.live_blocks), describe(jobs[0].s, jobs[0].im).c_str()); }
	}
	for (int i = 0; i < nj; ++i) src[i].close();
	sim::heap_check(); size_t regions = 0; sim::u64 h = 13; for (int i = 0; i < nj; ++i) { regions += jobs[i].want.size(); h = sim::mix2(h, hash_regions(jobs[i].want)); }
	sim::count("extractions", 2 * rounds * nj); if (regions) sim::nontrivial(h);
	sim::note("%s, %d rounds of %d extractions, first: %s", WHO(alg), rounds, nj, describe(jobs[0].s, jobs[0].im).c_str());
}
#define REAL "basicimg/src/img_fast_mser_v1.cpp, img_fast_mser_v2.cpp, img_linked_linear_mser.cpp, the ECCV 2008, original, CV, VF, ID and old OpenCV extractors, img_mser_base.cpp, basicmath/include/mt_block_memory.h, mt_mat.cpp, basicsys statistics/timers/locks, basiclog (real code, compiled from the working tree)"
#define STUB "OpenMP runtime (simulated teams and barriers), threads, mutexes, clock, heap (every access checked, blocks tracked), log output; masks are off here (C26)"
sim::Registrar r4({"C04", c04, 16000, 1000000, "one run: 2-5 extractions on one extractor object (any of the nine) with images, sizes, thread counts, settings and polarities drawn anew each time, with cache clears in between and the result object reused or renewed, earlier images kept and compared; schedules, team sizes and memory contents as in C01. Each result must equal the reference component tree (V1, V2, linear, ECCV 2008) or what a new extractor reports (the others). Non-trivial: at least one region expected.", REAL, STUB});
sim::Registrar r5({"C05", c05, 12000, 800000, "one run: 2-4 application threads, each with extractors of its own (of the nine kinds, mixed) doing 1-2 extractions, on images of their own or shared read-only, parallel regions nested inside; every memory access is a preemption point. Each result must equal the reference component tree and the shared statistics must count every region. Non-trivial: at least one region expected.", REAL, STUB});
sim::Registrar r6({"C06", c06, 16000, 1000000, "one run: 3-14 operations on a pool of results: extract into a new or existing result, copy, assign (also to itself and across storage kinds), destroy, clear or destroy the extractor; the source image is destroyed right after each extraction. After every operation every live result must decode to its regions; every free is checked. Non-trivial: at least one copy and one region.", REAL, STUB});
sim::Registrar r7({"C07", c07, 12000, 800000, "one run: the same 1-3 extractions repeated 2-4 rounds on one extractor, twice; live memory must not grow from one round to the next (after the first) and must return to its level when the extractor is gone. Non-trivial: at least one region expected.", REAL, STUB});
}
