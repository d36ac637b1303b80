// C14: matrices made through the memory cache by several threads while it is switched on and off and resized.
#include "mats.h"
#include <mt_mat_cache.h>
using namespace sim;
namespace {
struct Live { mt_mat* m; const unsigned char* at; size_t bytes; std::vector<unsigned char> want; int dims, sizes[6], depth, ch; };
struct Made { const void* at; u64 serial; size_t bytes; };
std::vector<Live*>* live; std::vector<Made>* made; int g_ops, n_shapes, busy; bool reused_any;
struct Shape { int dims, sizes[6], depth, ch; } shapes[6];
size_t bytes_of(const Shape& s) { size_t n = mats::DS[s.depth] * s.ch; for (int i = 0; i < s.dims; ++i) n *= s.sizes[i]; return n; }
void check_one(const Live* l, const char* when) {
	if (!heap_owns(l->at, l->bytes)) violation("memory-lost", "%s, the memory of a live matrix is no longer held", when);
	if (memcmp(l->at, &l->want[0], l->bytes)) violation("two-owners", "%s, the elements of a live matrix (%zu bytes) were overwritten by somebody else", when, l->bytes);
}
void scribble(Live* l) { for (size_t i = 0; i < l->bytes; ++i) l->want[i] = (unsigned char)rng().next(); memcpy((void*)l->at, &l->want[0], l->bytes); }
Live* create(int me) {
	const Shape& s = shapes[rng().below(n_shapes)]; Live* l = new Live(); int how = rng().below(6); mt_Depth_Channel dc((mt_Depth)s.depth, s.ch); mt_mat* like = NULL; for (size_t i = 0; i < live->size() && how == 0; ++i) if ((*live)[i]->m && (*live)[i]->dims == s.dims && (*live)[i]->depth == s.depth && (*live)[i]->ch == s.ch && !memcmp((*live)[i]->sizes, s.sizes, sizeof s.sizes)) { like = (*live)[i]->m; break; }
	(void)like;
	{ Sut on; if (how == 1) { std::vector<int> v(s.sizes, s.sizes + s.dims); l->m = new mt_mat(v, dc); } else if (how == 2) { mt_mat t(s.dims, s.sizes, dc); l->m = new mt_mat(t, mt_mat::Construct_Type_Create_As_Size); } else if (how == 3) l->m = new mt_mat(s.dims, s.sizes, dc, 1.0); else if (how == 4) { std::vector<int> v(s.sizes, s.sizes + s.dims); l->m = new mt_mat(s_mat_cache.get(v, dc)); } else l->m = new mt_mat(s.dims, s.sizes, dc); }
	l->at = l->m->data(); l->bytes = bytes_of(s); l->want.resize(l->bytes); l->dims = s.dims; memcpy(l->sizes, s.sizes, sizeof s.sizes); l->depth = s.depth; l->ch = s.ch;
	bool same = l->m->dim() == s.dims && l->m->depth() == s.depth && l->m->channel() == s.ch; for (int i = 0; same && i < s.dims; ++i) same = l->m->size()[i] == s.sizes[i];
	if (!same) violation("wrong-shape", "a matrix was made with another shape or type than asked for");
	if (!heap_owns(l->at, l->bytes)) violation("too-small", "a matrix of %zu bytes was given less memory", l->bytes);
	for (size_t i = 0; i < live->size(); ++i) { Live* o = (*live)[i]; if (o->at < l->at + l->bytes && l->at < o->at + o->bytes) violation("two-owners", "a new matrix was given memory of a matrix that is still alive (%zu bytes)", o->bytes); }
	u64 sn = block_serial(l->at); bool known = false; for (size_t i = 0; i < made->size(); ++i) if ((*made)[i].serial == sn) { known = true; if ((*made)[i].bytes < l->bytes) violation("too-small", "a matrix of %zu bytes was given a buffer of %zu", l->bytes, (*made)[i].bytes); }
	if (known) { reused_any = true; count("reused"); } else { Made m = {l->at, sn, l->bytes}; made->push_back(m); }
	scribble(l); live->push_back(l); (void)me; return l;
}
void drop(Live* l) { for (size_t i = 0; i < live->size(); ++i) if ((*live)[i] == l) { live->erase(live->begin() + i); break; } { Sut on; delete l->m; } delete l; }
void work(int me) {
	std::vector<Live*> own; mt_auto_mat_cache* scope = NULL;
	for (int k = 0; k < g_ops; ++k) {
		int r = rng().below(16);
		if (r < 7 && own.size() < 8) own.push_back(create(me));
		else if (r < 11 && !own.empty()) { int i = rng().below(own.size()); check_one(own[i], "before it was dropped"); drop(own[i]); own.erase(own.begin() + i); }
		else if (r < 13 && !own.empty()) { int i = rng().below(own.size()); check_one(own[i], "while it was used"); if (rng().below(2)) scribble(own[i]); Sut on; mt_mat copy(*own[i]->m); mt_mat view = copy.index(0, 0); }
		else if (r == 13) { Sut on; if (scope) { delete scope; scope = NULL; } else scope = new mt_auto_mat_cache(); }
		else if (r == 14) { basicsys::i64 size = rng().below(4) ? rng().below(3000) : (1ll << 30); Sut on; mt_mat_cache::set_memory_size(size); (void)mt_mat_cache::get_memory_size(); }
		else { Sut on; mt_mat_cache::output_cache_statistic(); }
		count("operations");
	}
	for (size_t i = 0; i < own.size(); ++i) { check_one(own[i], "at the end"); drop(own[i]); }
	if (scope) { Sut on; delete scope; }
}
u64 total_held(const std::vector<Made>& v) { u64 t = 0; for (size_t i = 0; i < v.size(); ++i) if (block_serial(v[i].at) == v[i].serial) t += v[i].bytes; return t; }
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	live = new std::vector<Live*>(); made = new std::vector<Made>(); reused_any = false;
	int nthreads = (int)param("threads", 1, 5); g_ops = (int)param("operations", 1, 40); n_shapes = (int)param("shapes", 1, 6); int kept = (int)param("kept", 0, 4), enabled = (int)param("enabled_by_main", 0, 1);
	for (int i = 0; i < n_shapes; ++i) { Shape& s = shapes[i]; memset(&s, 0, sizeof s); s.dims = 1 + rng().below(rng().below(6) ? 3 : 6); s.depth = rng().below(10); s.ch = 1 + rng().below(4); for (int d = 0; d < s.dims; ++d) s.sizes[d] = 1 + rng().below(s.dims > 3 ? 3 : 8); if (i && rng().below(2)) { s = shapes[i - 1]; if (rng().below(2)) s.sizes[rng().below(s.dims)]++; else if (rng().below(2)) s.ch = s.ch % 4 + 1; else s.depth = rng().below(10); } }
	basicsys::i64 limit = rng().below(3) ? rng().below(4000) : (1ll << 30);
	{ Sut s; { mt_auto_mat_cache c; mt_mat m(1, mt_U8C1); } basiclog_info2("first"); mt_mat_cache::set_memory_size(limit); }
	mt_auto_mat_cache* outer = NULL; if (enabled) { Sut s; outer = new mt_auto_mat_cache(); }
	std::vector<Live*> held; for (int i = 0; i < kept; ++i) held.push_back(create(-1));
	{ Threads th; for (int t = 0; t < nthreads; ++t) th.start([t] { work(t); }); th.join(); }
	for (size_t i = 0; i < held.size(); ++i) check_one(held[i], "after all threads ended");
	// at rest: what is idle is given back when the limit says so
	u64 held_before = 0, used_before = 0; for (size_t i = 0; i < made->size(); ++i) { const Made& m = (*made)[i]; if (block_serial(m.at) != m.serial) continue; held_before += m.bytes; for (size_t k = 0; k < live->size(); ++k) if ((*live)[k]->at == m.at) used_before += m.bytes; }
	limit = rng().below(3) ? rng().below(4000) : 0; if (rng().below(3) == 0 && held_before) limit = rng().below((u32)std::min<u64>(held_before, 1u << 30)); { Sut s; mt_mat_cache::set_memory_size(limit); if (mt_mat_cache::get_memory_size() != limit) violation("limit-lost", "the memory limit set is not the one reported"); }
	u64 used = 0, total = 0; for (size_t i = 0; i < made->size(); ++i) { const Made& m = (*made)[i]; if (block_serial(m.at) != m.serial) continue; total += m.bytes; for (size_t k = 0; k < live->size(); ++k) if ((*live)[k]->at == m.at) used += m.bytes; }
	if (held_before > (u64)limit && total > 2 * used) violation("limit-exceeded", "the limit was set to %lld while %llu bytes were held (%llu of them in use), %llu are still held", (long long)limit, held_before, used_before, total);
	if (total > (u64)limit && total > 2 * used) violation("limit-exceeded", "%llu bytes are held (%llu of them in use) although the limit is %lld", total, used, (long long)limit);
	if (param("huge", 0, 20) == 20) { // more than fits into 32 bits
		int n = 2 + rng().below(4), keep = rng().below(2), rows = 20000 + rng().below(20000), cols = 40000; std::vector<mt_mat*> big; std::vector<Made> bm;
		{ Sut s; mt_auto_mat_cache* c = new mt_auto_mat_cache(); { Quiet q; for (int i = 0; i < n; ++i) { mt_mat* m; { Sut on; m = new mt_mat(rows, cols, mt_U8C1); } Made b = {m->data(), block_serial(m->data()), (size_t)rows * cols}; big.push_back(m); bm.push_back(b); } }
			{ Quiet q; while ((int)big.size() > keep) { Sut on; delete big.back(); Quiet q2; big.pop_back(); } } mt_mat_cache::set_memory_size(1ll << 30); { Quiet q; u64 t = total_held(bm), u = (u64)keep * rows * cols; if (t > (1ull << 30) && t > 2 * u) violation("limit-exceeded", "%llu bytes are held (%llu of them in use) although the limit is 1 GB", t, u); for (size_t i = 0; i < big.size(); ++i) { Sut on; delete big[i]; } } delete c; }
		if (total_held(bm)) violation("not-released", "huge buffers are still held after the cache was switched off"); count("huge");
	}
	for (int i = 0; i < 2 && enabled; ++i) { held.push_back(create(-1)); }
	for (size_t i = 0; i < held.size(); ++i) { check_one(held[i], "at the end"); drop(held[i]); }
	{ Sut s; if (outer) delete outer; mt_auto_mat_cache last; }
	for (size_t i = 0; i < made->size(); ++i) if (block_serial((*made)[i].at) == (*made)[i].serial) violation("not-released", "a buffer of %zu bytes is still held after the cache was switched off", (*made)[i].bytes);
	for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("[info]") == std::string::npos) violation("false-error", "a legal operation logged: %s", log->out[i].c_str());
	heap_check(); count("buffers", made->size()); if (reused_any) nontrivial(mix2(made->size(), steps()));
	note("%d threads, %d shapes, %zu buffers", nthreads, n_shapes, made->size());
}
Registrar r({"C14", run, 80000, 500000,
	"one run: 1 to 5 threads make and drop matrices of a few recurring, similar shapes through every cached constructor, copy and slice them, switch the cache on and off, change its memory limit and print its statistic. Every live matrix holds a random pattern that nobody else may touch, no two of them overlap, none has a buffer that is too small; at rest the limit is enforced, and at the end every buffer is gone. Non-trivial: a buffer was used again.",
	"basicmath/src/mt_mat_cache.cpp, mt_mat.cpp; basicsys/src/sys_thread_lock.cpp, sys_os.cpp (real code)", "thread scheduling, thread identity, heap (simulated), log output (captured)"});
}
