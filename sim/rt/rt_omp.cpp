// OpenMP runtime (the libomp interface clang emits) over the simulator's threads.
#include "rt_int.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>

namespace sim {
struct Dispatch { u64 id; i64 lb, ub, st, next; u64 chunk; int sched; int users; bool ordered; i64 ord_next; };
enum { DISP = 64 };
struct Team {
	int n; int level; Team* parent;
	int arrived; u64 gen;          // barrier
	u64 single_done;               // number of single constructs claimed
	Dispatch disp[DISP]; u64 disp_made;
	void* copypriv;
	void (*mt)(...); void* args[64]; int argc;
	int done;
	i64 ord;
};
static int icv_threads = 8, max_threads = 64; static bool icv_nested = false, team_faults = true;
static int faults_on() { return team_faults; }
void set_team_faults(bool on) { team_faults = on; }
void set_max_threads(int n) { icv_threads = n; }
struct WStart { Team* t; int tid; int sut; };

static Team* free_teams[512]; static int nfree;
static Team* new_team() { Team* t = nfree ? free_teams[--nfree] : (Team*)sys_alloc(sizeof(Team)); memset(t, 0, sizeof *t); return t; }

typedef void (*mt_t)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
static void invoke(Team* t, int tid) {
	int gtid = g_cur->id, bt = tid; void** a = t->args;
	((mt_t)t->mt)(&gtid, &bt, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
}
static void barrier(Team* t) {
	if (t->n == 1) return;
	sync_point(2);
	u64 g = t->gen;
	if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; wake(&t->gen); sync_point(2); return; }
	while (t->gen == g) block_on(&t->gen);
}
static void worker(void* p) {
	WStart* w = (WStart*)p; Team* t = w->t;
	g_cur->team = t; g_cur->tid = w->tid; g_cur->level = t->level;
	g_cur->sut = w->sut; g_on = g_active && w->sut > 0;
	invoke(t, w->tid);
	g_on = 0; g_cur->sut = 0;
	++t->done; wake(&t->done);
}
static void fork_team(int argc, void (*mt)(...), void** args, int force_n) {
	Fiber* c = g_cur;
	int want = force_n ? force_n : c->push_threads ? c->push_threads : icv_threads;
	c->push_threads = 0;
	if (want < 1) want = 1; if (want > max_threads) want = max_threads;
	int n = want;
	if (c->level >= 1 && !icv_nested) {
		// OpenMP's default: one active level. A runtime may be configured to nest: that is a decision too.
		n = 1;
		if (faults_on() && want > 1 && fault(F_NESTED_SERIAL, 1, 3)) n = want;
	} else if (want > 1 && faults_on()) {
		u32 v = fault_value(F_TEAM_SMALLER, 1, 4, want - 1);
		if (v) n = want - v;
	}
	Team* t = new_team(); t->n = n; t->parent = c->team; t->level = c->level + 1; t->mt = mt; t->argc = argc;
	for (int i = 0; i < argc; ++i) t->args[i] = args[i];
	Team* st = c->team; int stid = c->tid, slevel = c->level; u32 sw = c->ws_count, sd = c->disp_count, ss = c->single_count;
	int sut = c->sut;
	WStart* ws = n > 1 ? (WStart*)sys_alloc(sizeof(WStart) * n) : NULL;
	for (int i = 1; i < n; ++i) { ws[i].t = t; ws[i].tid = i; ws[i].sut = sut; new_fiber(worker, &ws[i]); }
	c->team = t; c->tid = 0; c->level = t->level; c->disp_count = c->single_count = c->ws_count = 0;
	if (n > 1) sync_point(4);
	invoke(t, 0);
	while (t->done < n - 1) { block_on(&t->done); }
	c = g_cur;
	c->team = st; c->tid = stid; c->level = slevel; c->ws_count = sw; c->disp_count = sd; c->single_count = ss;
	if (nfree < 512) free_teams[nfree++] = t;
}
static Team* team() { return g_cur ? g_cur->team : NULL; }
static int tid() { return team() ? g_cur->tid : 0; }
static int nth() { return team() ? team()->n : 1; }

struct Crit { const void* key; int owner1; int count; };
static Crit crits[2048]; static int ncrit;
static void lock_key(const void* k, bool nest = false) {
	if (!g_active) return;
	sync_point(2);
	Crit* c = NULL; for (int i = 0; i < ncrit; ++i) if (crits[i].key == k) c = &crits[i];
	if (!c) { if (ncrit == 2048) violation("too-many-locks", "more than 256 OpenMP locks"); c = &crits[ncrit++]; c->key = k; c->owner1 = 0; c->count = 0; }
	if (c->owner1 == g_cur->id + 1) { if (nest) { ++c->count; return; } violation("deadlock", "a thread enters a critical section it is already in"); }
	while (c->owner1) block_on(c);
	c->owner1 = g_cur->id + 1; c->count = 1;
}
static int try_key(const void* k) {
	if (!g_active) return 1;
	sync_point(2);
	for (int i = 0; i < ncrit; ++i) if (crits[i].key == k && crits[i].owner1) return 0;
	lock_key(k); return 1;
}
static void unlock_key(const void* k) {
	if (!g_active) return;
	for (int i = 0; i < ncrit; ++i) if (crits[i].key == k && crits[i].owner1 == g_cur->id + 1) { if (--crits[i].count > 0) return; crits[i].owner1 = 0; wake(&crits[i]); sync_point(2); return; }
}
void omp_reset() { ncrit = 0; icv_threads = 8; icv_nested = false; team_faults = true; }
}
using namespace sim;

static int atomic_key, reduce_key, task_key;

extern "C" {
struct ident_t;
int __kmpc_global_thread_num(ident_t*) { return g_cur ? g_cur->id : 0; }
void __kmpc_push_num_threads(ident_t*, int, int n) { g_cur->push_threads = n; }
void __kmpc_fork_call(ident_t*, int argc, void (*mt)(...), ...) {
	void* a[64]; va_list ap; va_start(ap, mt); for (int i = 0; i < argc && i < 32; ++i) a[i] = va_arg(ap, void*); va_end(ap);
	if (argc > 32) violation("unsupported", "parallel region with %d captured variables", argc);
	fork_team(argc, mt, a, 0);
}
void __kmpc_fork_call_if(ident_t*, int argc, void (*mt)(...), int cond, void* arg) { void* a[1] = {arg}; fork_team(argc, mt, a, cond ? 0 : 1); }
struct SerSave { Team* team; int tid, level; Team* mine; };
static SerSave ser_stack[4096]; static int ser_n;
void __kmpc_serialized_parallel(ident_t*, int) {
	Fiber* c = g_cur; Team* t = new_team(); t->n = 1; t->level = c->level; t->parent = c->team;
	if (ser_n >= 4096) violation("unsupported", "too deep serial regions");
	SerSave* s = (SerSave*)sys_alloc(sizeof(SerSave)); s->team = c->team; s->tid = c->tid; s->level = c->level; t->args[0] = s;
	c->team = t; c->tid = 0; c->push_threads = 0;
}
void __kmpc_end_serialized_parallel(ident_t*, int) { Fiber* c = g_cur; Team* t = c->team; SerSave* s = (SerSave*)t->args[0]; c->team = s->team; c->tid = s->tid; c->level = s->level; if (nfree < 512) free_teams[nfree++] = t; }
void __kmpc_barrier(ident_t*, int) { if (team()) barrier(team()); }
int __kmpc_cancel_barrier(ident_t*, int) { if (team()) barrier(team()); return 0; }
void __kmpc_flush(ident_t*) { sync_point(); }
int __kmpc_master(ident_t*, int) { return tid() == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int, int f) { return tid() == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int) {
	Team* t = team(); if (!t) return 1;
	sync_point();
	u64 mine = ++g_cur->single_count;
	if (t->single_done < mine) { t->single_done = mine; return 1; }
	return 0;
}
void __kmpc_end_single(ident_t*, int) {}
void __kmpc_copyprivate(ident_t*, int, size_t, void* data, void (*cpy)(void*, void*), int did) {
	Team* t = team(); if (!t) return;
	if (did) t->copypriv = data;
	barrier(t); if (!did) cpy(data, t->copypriv); barrier(t);
}
void __kmpc_critical(ident_t*, int, void* k) { lock_key(k); }
void __kmpc_critical_with_hint(ident_t*, int, void* k, uint32_t) { lock_key(k); }
void __kmpc_end_critical(ident_t*, int, void* k) { unlock_key(k); }
void __kmpc_atomic_start() { lock_key(&atomic_key); }
void __kmpc_atomic_end() { unlock_key(&atomic_key); }
int __kmpc_reduce_nowait(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* k) { if (nth() > 1) lock_key(k); return 1; }
void __kmpc_end_reduce_nowait(ident_t*, int, void* k) { if (nth() > 1) unlock_key(k); }
int __kmpc_reduce(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* k) { if (nth() > 1) lock_key(k); return 1; }
void __kmpc_end_reduce(ident_t*, int, void* k) { if (nth() > 1) { unlock_key(k); barrier(team()); } }
void __kmpc_ordered(ident_t*, int) { lock_key(&task_key); }
void __kmpc_end_ordered(ident_t*, int) { unlock_key(&task_key); }
void __kmpc_begin(ident_t*, int) {} void __kmpc_end(ident_t*) {}
int __kmpc_ok_to_fork(ident_t*) { return 1; }
void __kmpc_push_proc_bind(ident_t*, int, int) {}

#define STATIC_INIT(NAME, T, S) \
void __kmpc_for_static_init_##NAME(ident_t*, int, int sched, int* plast, T* plo, T* pup, S* pst, S incr, S chunk) { \
	int n = nth(), me = tid(); sync_point(); \
	if (sched >= 91) { if (plast) *plast = 1; return; } \
	if (incr > 0 ? *pup < *plo : *plo < *pup) { if (plast) *plast = 0; *pst = incr; return; } \
	if (n == 1) { if (plast) *plast = 1; *pst = (S)(incr > 0 ? (*pup - *plo + 1) : -((S)(*plo - *pup + 1))); return; } \
	u64 trip = incr > 0 ? ((u64)(*pup - *plo)) / (u64)incr + 1 : ((u64)(*plo - *pup)) / (u64)(-incr) + 1; \
	if (sched == 33 || sched == 45) { \
		if (chunk < 1) chunk = 1; S span = chunk * incr; *pst = span * n; \
		*plo = *plo + (T)(span * me); *pup = *plo + (T)(span - incr); \
		if (plast) *plast = (u64)me == ((trip - 1) / (u64)chunk) % (u64)n; return; } \
	u64 small = trip / n, extra = trip % n; \
	u64 first = (u64)me * small + ((u64)me < extra ? (u64)me : extra); u64 cnt = small + ((u64)me < extra ? 1 : 0); \
	T base = *plo; T last = *pup; (void)last; \
	*pst = (S)(trip) * incr; \
	if (!cnt) { *plo = base + (T)((S)trip * incr); *pup = *plo - (T)incr; if (plast) *plast = 0; if (incr > 0 && *pup > last) { } return; } \
	*plo = base + (T)((S)first * incr); *pup = *plo + (T)((S)(cnt - 1) * incr); \
	if (plast) *plast = first + cnt == trip; }
STATIC_INIT(4, int32_t, int32_t) STATIC_INIT(4u, uint32_t, int32_t) STATIC_INIT(8, int64_t, int64_t) STATIC_INIT(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident_t*, int) { sync_point(); }

static Dispatch* disp_of(Team* t, bool make, int sched, i64 lb, i64 ub, i64 st, u64 chunk) {
	u64 id = make ? ++g_cur->disp_count : g_cur->disp_count;
	Dispatch* d = &t->disp[id % DISP];
	if (make && d->id != id) { d->id = id; d->lb = lb; d->ub = ub; d->st = st; d->next = 0; d->chunk = chunk < 1 ? 1 : chunk; d->sched = sched & 0xff; d->users = 0; }
	return d;
}
static Team solo;
static int next_chunk(int* plast, i64* lo, i64* up, i64* st) {
	Team* t = team() ? team() : &solo; Dispatch* d = disp_of(t, false, 0, 0, 0, 0, 0);
	sync_point(2);
	i64 trip = d->st > 0 ? (d->ub < d->lb ? 0 : (d->ub - d->lb) / d->st + 1) : (d->lb < d->ub ? 0 : (d->lb - d->ub) / -d->st + 1);
	if (d->next >= trip) return 0;
	i64 c = (i64)d->chunk; i64 rem = trip - d->next; int n = t->n ? t->n : 1;
	if (d->sched == 36 || d->sched == 42) { i64 g = rem / (2 * n); if (g > c) c = g; }
	else if (d->sched == 34 || d->sched == 40) { c = (trip + n - 1) / n; }
	if (c > rem) c = rem;
	*lo = d->lb + d->next * d->st; *up = *lo + (c - 1) * d->st; *st = d->st; d->next += c; if (plast) *plast = d->next == trip;
	return 1;
}
void __kmpc_dispatch_init_4(ident_t*, int, int s, int32_t lb, int32_t ub, int32_t st, int32_t ch) { disp_of(team() ? team() : &solo, true, s, lb, ub, st, ch); }
void __kmpc_dispatch_init_4u(ident_t*, int, int s, uint32_t lb, uint32_t ub, int32_t st, int32_t ch) { disp_of(team() ? team() : &solo, true, s, lb, ub, st, ch); }
void __kmpc_dispatch_init_8(ident_t*, int, int s, int64_t lb, int64_t ub, int64_t st, int64_t ch) { disp_of(team() ? team() : &solo, true, s, lb, ub, st, ch); }
void __kmpc_dispatch_init_8u(ident_t*, int, int s, uint64_t lb, uint64_t ub, int64_t st, int64_t ch) { disp_of(team() ? team() : &solo, true, s, lb, ub, st, ch); }
int __kmpc_dispatch_next_4(ident_t*, int, int* l, int32_t* lo, int32_t* up, int32_t* st) { i64 a, b, c; if (!next_chunk(l, &a, &b, &c)) return 0; *lo = a; *up = b; *st = c; return 1; }
int __kmpc_dispatch_next_4u(ident_t*, int, int* l, uint32_t* lo, uint32_t* up, int32_t* st) { i64 a, b, c; if (!next_chunk(l, &a, &b, &c)) return 0; *lo = a; *up = b; *st = c; return 1; }
int __kmpc_dispatch_next_8(ident_t*, int, int* l, int64_t* lo, int64_t* up, int64_t* st) { i64 a, b, c; if (!next_chunk(l, &a, &b, &c)) return 0; *lo = a; *up = b; *st = c; return 1; }
int __kmpc_dispatch_next_8u(ident_t*, int, int* l, uint64_t* lo, uint64_t* up, int64_t* st) { i64 a, b, c; if (!next_chunk(l, &a, &b, &c)) return 0; *lo = a; *up = b; *st = c; return 1; }
void __kmpc_dispatch_fini_4(ident_t*, int) {} void __kmpc_dispatch_fini_4u(ident_t*, int) {} void __kmpc_dispatch_fini_8(ident_t*, int) {} void __kmpc_dispatch_fini_8u(ident_t*, int) {}
void __kmpc_dispatch_deinit(ident_t*, int) {}

// tasks run at once (a legal schedule)
struct KTask { void* shareds; int (*routine)(int, void*); int part; int pad; void* d1; void* d2; };
void* __kmpc_omp_task_alloc(ident_t*, int, int, size_t sz, size_t shsz, int (*r)(int, void*)) {
	char* p = (char*)sys_alloc(((sz + 63) & ~(size_t)63) + shsz + 64); memset(p, 0, sz); KTask* t = (KTask*)p; t->routine = r; t->shareds = shsz ? p + ((sz + 63) & ~(size_t)63) : NULL; return p;
}
int __kmpc_omp_task(ident_t*, int g, void* p) { sync_point(2); ((KTask*)p)->routine(g, p); return 0; }
int __kmpc_omp_task_with_deps(ident_t*, int g, void* p, int, void*, int, void*) { sync_point(2); ((KTask*)p)->routine(g, p); return 0; }
void __kmpc_omp_task_begin_if0(ident_t*, int, void*) {} void __kmpc_omp_task_complete_if0(ident_t*, int, void*) {}
int __kmpc_omp_taskwait(ident_t*, int) { sync_point(); return 0; }
int __kmpc_omp_taskyield(ident_t*, int, int) { sync_point(4); return 0; }
void __kmpc_taskgroup(ident_t*, int) {} void __kmpc_end_taskgroup(ident_t*, int) {}

int omp_get_thread_num() { return tid(); }
int omp_get_num_threads() { return nth(); }
int omp_get_max_threads() { return icv_threads; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return max_threads; }
void omp_set_num_threads(int n) { icv_threads = n < 1 ? 1 : n; }
int omp_in_parallel() { return g_cur && g_cur->level > 0 && nth() > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; }
void omp_set_nested(int n) { icv_nested = n; } int omp_get_nested() { return icv_nested; }
void omp_set_max_active_levels(int n) { icv_nested = n > 1; } int omp_get_max_active_levels() { return icv_nested ? 8 : 1; }
int omp_get_level() { return g_cur ? g_cur->level : 0; } int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int) { return tid(); } int omp_get_team_size(int) { return nth(); }
double omp_get_wtime() { clock_tick(); return g_mono / 1e9; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { *l = NULL; } void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock_key(l); } void omp_unset_lock(void** l) { unlock_key(l); } int omp_test_lock(void** l) { return try_key(l); }
void omp_init_nest_lock(void** l) { *l = NULL; } void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l) { lock_key(l, true); } void omp_unset_nest_lock(void** l) { unlock_key(l); }
}
