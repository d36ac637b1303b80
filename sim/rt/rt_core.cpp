// Fibers, scheduler, memory-access callbacks, heap, pthread layer. No C++ library containers here: their inline code
// is shared with the code under test and would call back into the instrumentation.
#include "rt_int.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <dlfcn.h>
#include <new>
#include <locale.h>

extern "C" void* __cxa_get_globals();

namespace sim {

const char* const fault_names[F_KINDS] = {
	"omp_fewer_threads", "omp_nesting", "open_fail", "write_fail", "write_torn", "disk_full", "read_fail", "read_short", "close_fail",
	"seek_fail", "mkdir_fail", "rename_fail", "unlink_fail", "opendir_fail", "readdir_fail", "system_fail", "wall_clock_step",
	"process_crash", "alloc_fail", "thread_stall", "memory_poison", "file_cut", "bad_sector", "rand_extreme"
};

Slot* g_slot;
Spec g_spec;
Fiber* g_cur;
volatile int g_on;
bool g_active;
Fiber g_fibers[MAX_FIBERS];
int g_nfibers;
int g_out_fd = 1;
i64 g_mono, g_wall_off;

static Rng r_work, r_sched, r_fault, r_param;
void omp_reset();
static u64 g_total_steps_limit;
static bool g_crashed;
static u64 g_steps_done; static int g_next_id;
Fiber* fiber_by_id(int id) { for (int i = 0; i < g_nfibers; ++i) if (g_fibers[i].id == id && g_fibers[i].state != FS_FREE) return &g_fibers[i]; return NULL; }
static bool (*g_crash_hook)();

void fnv(u64& h, u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }

// ---------------------------------------------------------------------------------------------- output
void say(const char* fmt, ...) {
	char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	for (int o = 0; o < n;) { long k = syscall(SYS_write, g_out_fd, b + o, n - o); if (k <= 0) break; o += k; }
}

// ---------------------------------------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x200000000000ull; static const size_t ARENA_SIZE = 64ull << 30;
static const uintptr_t SHADOW = 0x300000000000ull;  // ARENA_SIZE / 8
static bool heap_ready;
static uintptr_t arena_top, run_base = ARENA + 64, pre_top;
static char* tls_block; static size_t tls_size; const Property* g_property;
struct Head { u32 magic; u32 kind; u64 size; u64 cls; u64 serial; Head* next; u64 sut; u64 pc; u64 pad; };   // 64 bytes = redzone
enum { HM_LIVE = 0xA110CA7E, HM_FREE = 0xDEADBEEF };
enum { K_MALLOC, K_NEW, K_NEWARR };
static Head* freelist[64 * 8];
static Head* q_head; static Head* q_tail; static u64 q_bytes; static u64 q_limit = 1 << 20;
static u64 h_serial; void* sys_alloc(size_t n);
static HeapStats h_sut;
static int poison_mode; static u64 poison_state;
static u32 alloc_fail_num, alloc_fail_den; extern "C" char __executable_start, etext;

static inline u8* sh(uintptr_t a) { return (u8*)(SHADOW + ((a - ARENA) >> 3)); }

static void heap_init() {
	if (heap_ready) return;
	void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* s = mmap((void*)SHADOW, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)ARENA || s != (void*)SHADOW) { static const char m[] = "sim: cannot map the heap\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
	arena_top = ARENA + 64;
	heap_ready = true;
}
// size classes: 16-byte steps to 1024, then 8 per doubling
static inline u32 cls_of(size_t n) {
	if (n <= 1024) return (u32)((n + 15) / 16);
	int lg = 63 - __builtin_clzll(n - 1); // n in (2^lg, 2^(lg+1)]
	u32 step = (u32)(((n - 1) >> (lg - 3)) & 7);
	return 65 + (lg - 10) * 8 + step;
}
static inline size_t cls_size(u32 c) {
	if (c <= 64) return (size_t)c * 16;
	u32 k = c - 65; int lg = 10 + k / 8; u32 step = k % 8;
	return ((size_t)1 << lg) + ((size_t)(step + 1) << (lg - 3));
}
static void fill(u8* p, size_t n) {
	switch (poison_mode) {
	case 0: return;                         // whatever was there (zero if fresh from the arena)
	case 1: memset(p, 0, n); return;
	case 2: memset(p, 0xff, n); return;
	case 3: memset(p, 0x01, n); return;
	case 4: memset(p, 0xcd, n); return;
	case 5: memset(p, 0x7f, n); return;
	default: {
		size_t i = 0; u64 s = poison_state;
		for (; i + 8 <= n; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; memcpy(p + i, &s, 8); }
		for (; i < n; ++i) p[i] = (u8)(s >> (i & 7) * 8);
		poison_state = s | 1; }
	}
}
// Blocks from BIG on are never handed out twice: their shadow starts out clean, and releasing them takes their pages away.
static const size_t BIG = 128 << 10, BIG_POISON = 64 << 10;
static void* h_alloc(size_t n, int kind, void* pc, size_t align = 16) {
	heap_init();
	if (n > (1ull << 31)) return NULL;
	// The C library's own requests do not fail: glibc's newlocale() leaks a block if one does.
	if (g_on && alloc_fail_den && (kind || (pc >= (void*)&__executable_start && pc < (void*)&etext)) && fault(F_ALLOC_FAIL, alloc_fail_num, alloc_fail_den)) return NULL;
	size_t body = n + 16 + (align > 16 ? align : 0);       // trailing canary / redzone
	if (body < 32) body = 32;
	u32 c = cls_of(body); size_t cs = cls_size(c);
	Head* h = c < sizeof freelist / sizeof *freelist && n < BIG ? freelist[c] : NULL;
	if (h) freelist[c] = h->next;
	else {
		if (arena_top + 64 + cs + 64 > ARENA + ARENA_SIZE) return NULL;
		h = (Head*)arena_top; arena_top += 64 + cs;
		memset(sh((uintptr_t)h), 0xfa, n < BIG ? (64 + cs) / 8 : 8);
	}
	uintptr_t p = (uintptr_t)h + 64;
	if (align > 16) p = (p + align - 1) & ~(align - 1);
	h->magic = HM_LIVE; h->kind = kind; h->size = n; h->cls = c; h->serial = ++h_serial; h->pc = (u64)pc; h->pad = p - (uintptr_t)h;
	h->sut = g_on ? 1 : 0;
	if (h->sut) { h_sut.live_bytes += n; h_sut.live_blocks++; }
	if (align > 16) *(Head**)(p - 8) = h;                  // found again through the mark below
	if (n < BIG) { memset(sh((uintptr_t)h + 64), 0xfa, cs / 8); memset(sh(p), 0, n / 8); }
	else { memset(sh((uintptr_t)h + 64), 0xfa, (p - (uintptr_t)h - 64) / 8); memset(sh((p + n) & ~(uintptr_t)7), 0xfa, ((uintptr_t)h + 64 + cs - ((p + n) & ~(uintptr_t)7)) / 8); }
	if (n & 7) *sh(p + n) = n & 7;
	if (g_on) fill((u8*)p, n < BIG ? n : BIG_POISON);
	memset((void*)(p + n), 0xA5, (uintptr_t)h + 64 + cs - (p + n) < 16 ? (uintptr_t)h + 64 + cs - (p + n) : 16);
	return (void*)p;
}
static Head* head_of(void* p) {
	Head* h = (Head*)((uintptr_t)p - 64);
	if ((h->magic == HM_LIVE || h->magic == HM_FREE) && h->pad == 64) return h;
	Head* a = *(Head**)((uintptr_t)p - 8);
	if ((uintptr_t)a >= ARENA && (uintptr_t)a < ARENA + ARENA_SIZE && (uintptr_t)a + a->pad == (uintptr_t)p) return a;
	return h;
}
static void really_free(Head* h) { if ((uintptr_t)h < run_base) return; if (h->cls < sizeof freelist / sizeof *freelist) { h->next = freelist[h->cls]; freelist[h->cls] = h; } }
static void bad(const char* cls, void* p, void* pc, const char* what) {
	if (g_slot) g_slot->pc = (u64)pc;
	violation(cls, "%s (block %p)", what, p);
}
static bool canary_ok(Head* h) {
	uintptr_t p = (uintptr_t)h + h->pad, e = (uintptr_t)h + 64 + cls_size((u32)h->cls);
	u8* c = (u8*)(p + h->size); size_t n = e - (p + h->size); if (n > 16) n = 16;
	for (size_t i = 0; i < n; ++i) if (c[i] != 0xA5) return false;
	return true;
}
static void h_free(void* p, int kind, void* pc) {
	if (!p) return;
	if ((uintptr_t)p < ARENA || (uintptr_t)p >= ARENA + ARENA_SIZE) { if (g_on) bad("invalid-free", p, pc, "free of a pointer that is not from the heap"); return; }
	Head* h = head_of(p);
	if (g_on) {
		if (h->magic == HM_FREE && h->pad && (uintptr_t)h + h->pad == (uintptr_t)p) bad("double-free", p, pc, "block released twice");
		if (h->magic != HM_LIVE) bad("invalid-free", p, pc, "free of a pointer that is not the start of a block");
		if ((int)h->kind != kind && h->sut) bad("mismatched-free", p, pc, h->kind == K_MALLOC ? "block from malloc released by delete" : h->kind == K_NEWARR ? "block from new[] released by another deallocator" : "block from new released by another deallocator");
	} else if (h->magic != HM_LIVE) { if (g_active) bad("double-free", p, pc, "block released twice (at cleanup)"); return; }
	if (g_active && !canary_ok(h)) bad("heap-overflow", p, pc, "bytes after the end of the block were overwritten");
	if (h->sut) { h_sut.live_bytes -= h->size; h_sut.live_blocks--; h->sut = 0; }
	h->magic = HM_FREE;
	size_t cs = cls_size((u32)h->cls);
	if (h->size >= BIG) {
		uintptr_t a = ((uintptr_t)p + 4095) & ~4095ull, e = ((uintptr_t)p + h->size) & ~4095ull, end = (uintptr_t)h + 64 + cs;
		memset(sh((uintptr_t)h + 64), 0xfd, (a - (uintptr_t)h - 64) / 8); memset(sh(e), 0xfd, (end - e) / 8);
		mprotect((void*)a, e - a, PROT_NONE); madvise((void*)a, e - a, MADV_DONTNEED);
		return;
	}
	memset(sh((uintptr_t)h + 64), 0xfd, cs / 8);
	if (g_on && poison_mode && h->size <= 65536) memset(p, 0xDD, h->size);
	if (!g_active) { really_free(h); return; }
	h->next = NULL; if (q_tail) q_tail->next = h; else q_head = h; q_tail = h; q_bytes += cs;
	while (q_bytes > q_limit && q_head) { Head* x = q_head; q_head = x->next; if (!q_head) q_tail = NULL; q_bytes -= cls_size((u32)x->cls); really_free(x); }
}
HeapStats sut_heap() { HeapStats s = h_sut; s.serial = h_serial; return s; }
u64 alloc_serial() { return h_serial; }
void set_alloc_fail(u32 num, u32 den) { alloc_fail_num = num; alloc_fail_den = den; }
static u64 rand_state = 1, rand_calls; static u32 rand_extremes;
void set_rand_extremes(u32 per_1000) { rand_extremes = per_1000; }
u64 rand_draws() { return rand_calls; }
static Head* next_head(uintptr_t a) { return (Head*)a; }
void heap_check() {
	for (uintptr_t a = run_base; a < arena_top;) { Head* h = next_head(a); if (h->magic == HM_LIVE && h->sut && !canary_ok(h)) bad("heap-overflow", (void*)((uintptr_t)h + h->pad), (void*)h->pc, "bytes after the end of a live block were overwritten"); a += 64 + cls_size((u32)h->cls); }
}
void dump_live_blocks(u64 since) {
	int n = 0;
	for (uintptr_t a = run_base; a < arena_top;) { Head* h = next_head(a); if (h->magic == HM_LIVE && h->sut && h->serial > since && n++ < 12) note("live block: %llu bytes, kind %u, allocated at pc %llx", (unsigned long long)h->size, h->kind, (unsigned long long)h->pc); a += 64 + cls_size((u32)h->cls); }
}
// Which blocks can static data (of the program itself, not of the C library) still reach? Blocks of the harness do not count as holders.
static Head** r_blocks; static size_t r_nblocks, r_done; static Head** r_todo; static size_t r_ntodo; static const u64 MARK = 2;
static void scan_range(u64 from, u64 to) {
	for (u64 a = (from + 7) & ~7ull; a + 8 <= to; a += 8) {
		u64 v = *(u64*)a; if (v - ARENA >= ARENA_SIZE) continue;
		size_t lo = 0, hi = r_nblocks; while (lo < hi) { size_t m = (lo + hi) / 2; if ((u64)r_blocks[m] <= v) lo = m + 1; else hi = m; }
		if (!lo) continue; Head* h = r_blocks[lo - 1]; u64 b = (u64)h + h->pad;
		if (v >= b && v < b + (h->size ? h->size : 1) && !(h->sut & MARK)) { h->sut |= MARK; r_todo[r_ntodo++] = h; }
	}
}
static int scan_statics(struct dl_phdr_info* info, size_t, void*) {
	for (int i = 0; i < info->dlpi_phnum; ++i) { const ElfW(Phdr)& ph = info->dlpi_phdr[i]; if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) scan_range((u64)info->dlpi_addr + ph.p_vaddr, (u64)info->dlpi_addr + ph.p_vaddr + ph.p_memsz); }
	return 1;
}
static size_t unreachable_blocks(u64 since) {
	size_t n = 0;
	for (int pass = 0; pass < 2; ++pass) {
		r_nblocks = 0;
		for (uintptr_t a = ARENA + 64; a < arena_top; a = a < pre_top && a + 64 + cls_size((u32)((Head*)a)->cls) >= pre_top ? run_base : a + 64 + cls_size((u32)((Head*)a)->cls)) {
			Head* h = next_head(a); if (h->magic == HM_LIVE && (h->sut || a < pre_top)) { if (pass) r_blocks[r_nblocks] = h; ++r_nblocks; }
		}
		if (!pass) { r_blocks = (Head**)sys_alloc(r_nblocks * sizeof(Head*) + 64); r_todo = (Head**)sys_alloc(r_nblocks * sizeof(Head*) + 64); }
	}
	r_ntodo = 0; dl_iterate_phdr(scan_statics, NULL);
	if (tls_size) { scan_range((u64)tls_block, (u64)tls_block + tls_size); for (int i = 0; i < g_nfibers; ++i) if (g_fibers[i].tls) scan_range((u64)g_fibers[i].tls, (u64)g_fibers[i].tls + tls_size); }
	while (r_ntodo) { Head* h = r_todo[--r_ntodo]; u64 b = (u64)h + h->pad; scan_range(b, b + h->size); }
	for (size_t i = 0; i < r_nblocks; ++i) { Head* h = r_blocks[i]; if ((h->sut & 1) && h->serial > since && !(h->sut & MARK)) ++n; h->sut &= ~MARK; }
	return n;
}
void leak_check(const HeapStats& before, const char* what) {
	static bool second; static const bool force = getenv("FORCE_RERUN") != NULL;
	if (h_sut.live_blocks <= before.live_blocks && (second || !force)) return;
	if (second || (h_sut.live_blocks > before.live_blocks && unreachable_blocks(before.serial))) { dump_live_blocks(before.serial); violation("leak", "%llu blocks (%llu bytes) remain%s%s", h_sut.live_blocks - before.live_blocks, h_sut.live_bytes - before.live_bytes, what, second ? " and more with every call" : ""); }
	second = true; r_work = Rng(mix2(g_spec.seed, 1)); vfs::reset(); omp_reset();
	g_property->run(); run_end(); _exit(0);
}
bool heap_owns(const void* p, size_t n) {
	uintptr_t x = (uintptr_t)p;
	if (x < ARENA || x + n > arena_top || x + n < x) return false;
	for (size_t i = 0; i < n;) { u8 s = *sh(x + i); u32 off = (x + i) & 7; if (s == 0) { i += 8 - off; } else if (s < 8 && off < s) { i += s - off; if (i < n) return false; } else return false; }
	return true;
}
u64 block_serial(const void* p) { if (!heap_owns(p, 1)) return 0; Head* h = head_of((void*)p); return h->magic == HM_LIVE && (uintptr_t)h + h->pad == (uintptr_t)p ? h->serial : 0; }
void* sys_alloc(size_t n) {
	static char* base; static size_t left;
	n = (n + 63) & ~(size_t)63;
	if (n > left) { size_t k = n > (8u << 20) ? n : (8u << 20); base = (char*)mmap(NULL, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); left = k; }
	void* p = base; base += n; left -= n; return p;
}
static void __attribute__((noinline)) bad_access(uintptr_t a, size_t n, bool w, void* pc, u8 s) {
	g_slot->pc = (u64)pc;
	violation(s == 0xfd ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %p: %s", w ? "write" : "read", n, (void*)a, s == 0xfd ? "the block was already released" : "outside any allocated block");
}
static inline __attribute__((always_inline)) void chk(uintptr_t a, u32 n, bool w, void* pc) {
	if (a - ARENA < ARENA_SIZE) {
		u8 s = *sh(a);
		if (__builtin_expect(s != 0, 0)) { if (s >= 8 || (a & 7) + n > s) bad_access(a, n, w, pc, s); }
		else if (a >= arena_top) bad_access(a, n, w, pc, 0xfa);
		else if (((a & 7) + n) > 8) { u8 t = *sh(a + n - 1); if (t != 0 && (t >= 8 || ((a + n - 1) & 7) >= t)) bad_access(a, n, w, pc, t); }
	}
}
void check_range(const void* p, size_t n, bool w, void* pc) {
	uintptr_t a = (uintptr_t)p;
	if (!n || a - ARENA >= ARENA_SIZE) return;
	if (a + n > arena_top) bad_access(a, n, w, pc, 0xfa);
	for (size_t i = 0; i < n;) { u32 k = 8 - ((a + i) & 7); if (k > n - i) k = (u32)(n - i); u8 s = *sh(a + i); if (s && (s >= 8 || ((a + i) & 7) + k > s)) bad_access(a, n, w, pc, s); i += k; }
}

// ---------------------------------------------------------------------------------------------- decisions
Rng& rng() { return r_work; }
bool verbose() { return g_spec.verbose; }
static u32 fault_seq[F_KINDS];
u32 fault_value(Fault kind, u32 num, u32 den, u32 maxv) {
	u32 seq = fault_seq[kind]++;
	u32 v = 0;
	if (g_spec.explicit_mode) {
		for (u32 i = 0; i < g_spec.nf; ++i) if (g_spec.f[i].kind == (u32)kind && g_spec.f[i].seq == seq) { v = g_spec.f[i].value; break; }
	} else if (num && r_fault.chance(num, den)) v = 1 + r_fault.below(maxv);
	if (v) {
		g_slot->fired[kind]++;
		if (g_slot->nf < MAX_FAULTREC) { FaultRec& r = g_slot->f[g_slot->nf++]; r.kind = kind; r.seq = seq; r.value = v; }
		fnv(g_slot->hash, 0xfa017 + kind * 977 + v); fnv(g_slot->sched_hash, kind * 131 + v);
	}
	return v;
}
bool fault(Fault kind, u32 num, u32 den) { return fault_value(kind, num, den, 1) != 0; }
void count_fault(Fault kind, u64 n) { g_slot->fired[kind] += n; }
u64 draw_sched() { return r_sched.next(); }

static i64 param_rec(const char* name, i64 v, i64 lo) {
	for (u32 i = 0; i < g_spec.np; ++i) if (!strncmp(g_spec.p[i].name, name, 23)) v = g_spec.p[i].value;
	for (u32 i = 0; i < g_slot->nparams; ++i) if (!strncmp(g_slot->params[i].name, name, 23)) { return v; }
	if (g_slot->nparams < MAX_PARAMS) { ParamRec& r = g_slot->params[g_slot->nparams++]; strncpy(r.name, name, 23); r.name[23] = 0; r.value = v; r.lo = lo; }
	return v;
}
i64 param_w(const char* name, i64 lo, i64 hi, i64 v) { (void)hi; return param_rec(name, v, lo); }
// every parameter is drawn from its own stream, so that overriding one leaves the others alone
static u64 hash_name(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull; return h; }
i64 param(const char* name, i64 lo, i64 hi) { Rng r(mix2(g_spec.seed, hash_name(name))); return param_rec(name, r.range(lo, hi), lo); }
i64 param_of(const char* name, const i64* v, int n) { i64 i = param(name, 0, n - 1); if (i < 0) i = 0; if (i >= n) i = n - 1; return v[i]; }

void note(const char* fmt, ...) {
	if (!g_slot) return;
	va_list ap; va_start(ap, fmt);
	u32 left = NOTE - g_slot->notes_len;
	if (left > 300) { int n = vsnprintf(g_slot->notes + g_slot->notes_len, left - 2, fmt, ap); if (n > (int)left - 3) n = left - 3; g_slot->notes_len += n; g_slot->notes[g_slot->notes_len++] = '\n'; g_slot->notes[g_slot->notes_len] = 0; }
	va_end(ap);
}
static void finish_slot() {
	g_slot->steps = steps(); g_slot->sim_ns = g_mono; g_slot->vfs_ops = vfs_op_count();
	fnv(g_slot->hash, g_slot->steps); fnv(g_slot->hash, g_slot->switches);
}
void violation(const char* cls, const char* fmt, ...) {
	g_on = 0;
	if (!g_slot) { static const char m[] = "sim: violation outside a run\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
	if (g_slot->status == 0) {
		strncpy(g_slot->cls, cls, 63);
		va_list ap; va_start(ap, fmt); vsnprintf(g_slot->msg, MSG, fmt, ap); va_end(ap);
		finish_slot();
		for (const char* c = cls; *c; ++c) fnv(g_slot->hash, *c);
		g_slot->status = 2;
	}
	_exit(42);
}
void nontrivial(u64 h) { g_slot->nontrivial = 1; fnv(g_slot->state_hash, h); }
void count(const char* name, u64 n) {
	for (u32 i = 0; i < g_slot->ncounters; ++i) if (!strcmp(g_slot->counters[i].name, name)) { g_slot->counters[i].n += n; return; }
	if (g_slot->ncounters < 24) { strncpy(g_slot->counters[g_slot->ncounters].name, name, 31); g_slot->counters[g_slot->ncounters++].n = n; }
}
u64 trace_hash(u64 v) { fnv(g_slot->hash, v); return g_slot->hash; }

// ---------------------------------------------------------------------------------------------- fibers
extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static const void* tls_init; static size_t tls_init_size;
static int phdr_cb(struct dl_phdr_info* info, size_t, void* first) {
	if (*(int*)first) {
		*(int*)first = 0;
		for (int i = 0; i < info->dlpi_phnum; ++i) if (info->dlpi_phdr[i].p_type == PT_TLS) {
			size_t al = info->dlpi_phdr[i].p_align ? info->dlpi_phdr[i].p_align : 1;
			tls_size = (info->dlpi_phdr[i].p_memsz + al - 1) & ~(al - 1);
			tls_init = (void*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr); tls_init_size = info->dlpi_phdr[i].p_filesz;
			char* tp; asm("mov %%fs:0, %0" : "=r"(tp)); tls_block = tp - tls_size;
		}
	}
	return 0;
}
static char* g_stacks; static bool stack_used[MAX_FIBERS];

void core_init() {
	heap_init();
	(void)__cxa_get_globals();     // its one-time initialisation must not happen inside a switch
	int first = 1; dl_iterate_phdr(phdr_cb, &first);
	g_stacks = (char*)mmap((void*)0x400000000000ull, (size_t)MAX_FIBERS * STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (g_stacks == MAP_FAILED) { say("sim: cannot map stacks\n"); _exit(3); }
	for (int i = 0; i < MAX_FIBERS; ++i) mprotect(g_stacks + (size_t)i * STACK_SIZE, 4096, PROT_NONE);
	vfs_init();
}

// ---- strategies
enum Strategy { ST_SERIAL, ST_RANDOM, ST_PCT, ST_RACE, ST_STARVE, ST_ROUND, ST_COUNT };
static const char* const st_names[] = {"serial", "random", "pct", "race", "starve", "round"};
static int strat; static u32 quantum; static u32 sync_den; static int starved; static u32 hot_den;
static bool tracking;
static u64 pct_low;
static int live_count;
static const u64 MAXQ = 3000000;

struct Hot { u64 addr; u16 fib; u8 wr; u8 hot; u32 pad; };
static Hot* hot_tab; static u8* hot_pc; enum { HOT_N = 1 << 16 };

static void plan(Fiber* f) {       // when does f's slow path run next
	if (g_spec.explicit_mode) {
		u64 nx = f->steps + MAXQ;
		for (u32 i = f->rp_pos; i < g_spec.nsw; ++i) if (g_spec.sw[i].fiber == (u32)f->id && !g_spec.sw[i].must && g_spec.sw[i].step > f->steps) { if (g_spec.sw[i].step < nx) nx = g_spec.sw[i].step; break; }
		f->next_event = nx; return;
	}
	u64 q;
	switch (strat) {
	case ST_RANDOM: case ST_STARVE: q = 1 + r_sched.below(2 * quantum); break;
	case ST_ROUND: q = quantum; break;
	case ST_RACE: q = 1 + r_sched.below(2 * quantum); break;
	case ST_PCT: q = 1 + r_sched.below(2 * quantum); break;
	default: q = MAXQ; break;
	}
	if (q > MAXQ) q = MAXQ;
	f->next_event = f->steps + q;
}

static void switch_to(Fiber* t) {
	Fiber* c = g_cur;
	if (t == c) return;
	c->err = errno; c->loc = uselocale((locale_t)0); if (t->loc != c->loc) uselocale(t->loc ? t->loc : LC_GLOBAL_LOCALE); u64* eh = (u64*)__cxa_get_globals(); c->eh[0] = eh[0]; c->eh[1] = eh[1] & 0xffffffff;
	if (tls_size) memcpy(c->tls, tls_block, tls_size);
	g_slot->switches++;
	fnv(g_slot->sched_hash, (u64)c->id << 32 | (u64)t->id << 16 | (c->steps & 0xffff));
	fnv(g_slot->hash, (u64)t->id << 40 ^ c->steps);
	g_cur = t; t->state = FS_RUNNING;
	if (tls_size) memcpy(tls_block, t->tls, tls_size);
	sim_switch(&c->sp, t->sp);
	// back on c
	eh = (u64*)__cxa_get_globals(); eh[0] = c->eh[0]; *(u32*)&eh[1] = (u32)c->eh[1];
	errno = c->err;
	g_on = g_active && c->sut > 0;
}

static int collect(Fiber** out) {
	int n = 0;
	for (;;) {
		i64 best = -1;
		for (int i = 0; i < g_nfibers; ++i) {
			Fiber* f = &g_fibers[i];
			if (f->frozen) continue;
			if (f->state == FS_SLEEP) { if (f->wake_ns <= g_mono) f->state = FS_READY; else if (best < 0 || f->wake_ns < best) best = f->wake_ns; }
			if (f->state == FS_READY || f->state == FS_RUNNING) out[n++] = f;
		}
		if (n || best < 0) return n;
		g_mono = best;
	}
}
static void record_switch(Fiber* from, Fiber* to, bool must) {
	if (g_slot->nsw < MAX_SWITCH) { SwitchRec& r = g_slot->sw[g_slot->nsw++]; r.fiber = from->id; r.to = to->id; r.step = from->steps; r.must = must; } else g_slot->sw_overflow = 1;
}
static void describe_blocked() {
	for (int i = 0; i < g_nfibers; ++i) { Fiber* f = &g_fibers[i]; if (f->state != FS_DONE && f->state != FS_FREE) note("thread %d: state %d waiting %p steps %llu", f->id, f->state, f->waiting, (unsigned long long)f->steps); }
}
// The current fiber cannot or should not go on: choose and switch. must=true: the current one is not runnable.
static void reschedule(bool must) {
	static Fiber* cand[MAX_FIBERS];
	Fiber* c = g_cur;
	int saved_on = g_on; g_on = 0;
	if (c->state == FS_RUNNING) c->state = FS_READY;
	int n = collect(cand);
	if (n == 0) { describe_blocked(); violation("deadlock", "no thread can run"); }
	Fiber* t = NULL;
	if (g_spec.explicit_mode) {
		for (u32 i = c->rp_pos; i < g_spec.nsw; ++i) if (g_spec.sw[i].fiber == (u32)c->id) {
			if (g_spec.sw[i].step < c->steps) { c->rp_pos = i + 1; continue; }
			if (g_spec.sw[i].step == c->steps && must && !g_spec.sw[i].must) continue;
			if (g_spec.sw[i].step == c->steps && g_spec.sw[i].must == (u32)must) { c->rp_pos = i + 1; for (int k = 0; k < n; ++k) if (cand[k]->id == (int)g_spec.sw[i].to) t = cand[k]; }
			break;
		}
		if (!t) { if (!must && c->state == FS_READY) t = c; else t = cand[0]; }
		if (!must && t == c && c->steps - c->fair >= MAXQ) { c->fair = c->steps; for (int k = 0; k < n; ++k) if (cand[k] == c) t = cand[(k + 1) % n]; }
	} else {
		switch (strat) {
		case ST_SERIAL: { if (!must && n > 1) { do t = cand[r_sched.below(n)]; while (t == c); } else t = cand[r_sched.below(n)]; break; }
		case ST_PCT: {
			if (!must) c->pct_prio = --pct_low;
			t = cand[0]; for (int k = 1; k < n; ++k) if (cand[k]->pct_prio > t->pct_prio) t = cand[k];
			break; }
		case ST_STARVE: {
			int m = 0; static Fiber* o[MAX_FIBERS];
			for (int k = 0; k < n; ++k) if (cand[k]->id % 4 != starved) o[m++] = cand[k];
			if (m) { if (m < n) g_slot->fired[F_STALL]++; t = o[r_sched.below(m)]; } else t = cand[r_sched.below(n)];
			break; }
		case ST_ROUND: { int k = 0; for (int i = 0; i < n; ++i) if (cand[i]->id > c->id) { k = i; break; } t = cand[k]; break; }
		default: t = cand[r_sched.below(n)]; break;
		}
		if (n > 1 || must) if (t != c && n > 1) record_switch(c, t, must);
	}
	plan(t); if (t != c) plan(c);
	if (t == c) { c->state = FS_RUNNING; g_on = saved_on; return; }
	if (g_spec.explicit_mode && n > 1) record_switch(c, t, must);
	if (!must) g_slot->preempts++;
	switch_to(t);
}
static u64 last_limit_check;
static void __attribute__((noinline)) slow_point() {
	Fiber* c = g_cur;
	if (c->steps > g_total_steps_limit || (++last_limit_check & 255) == 0) {
		if (steps() > g_total_steps_limit) violation("no-progress", "more than %llu steps without finishing", (unsigned long long)g_total_steps_limit);
	}
	if (live_count <= 1) { plan(c); return; }
	reschedule(false);
}
static inline __attribute__((always_inline)) void point() {
	Fiber* c = g_cur;
	if (__builtin_expect(++c->steps >= c->next_event, 0)) slow_point();
}
void sync_point(int weight) {
	if (!g_active) return;
	Fiber* c = g_cur;
	++c->steps;
	if (!g_spec.explicit_mode && live_count > 1 && strat != ST_SERIAL && sync_den) { if (r_sched.below(sync_den) < (u32)weight) { slow_point(); return; } }
	if (c->steps >= c->next_event) slow_point();
}
void yield_point() { sync_point(2); }
u64 steps() { u64 s = g_steps_done; for (int i = 0; i < g_nfibers; ++i) s += g_fibers[i].steps; return s; }
int self() { return g_cur->id; }
int live_threads() { return live_count; }

static void track(uintptr_t a, bool w, void* pc) {
	if ((a >> 32) >= 0x4000) return;    // stacks
	Hot& h = hot_tab[(a >> 2) * 0x9E3779B1u >> 8 & (HOT_N - 1)];
	u32 ph = (u32)((u64)pc * 0x9E3779B97F4A7C15ull >> 48);
	if (h.addr == a) {
		if (h.fib != g_cur->id && (w || h.wr)) { h.hot = 1; hot_pc[ph] = 1; }
		h.fib = g_cur->id; h.wr = w || (h.wr && h.hot);
		if (h.hot) hot_pc[ph] = 1;
	} else if (!h.hot || (r_sched.next() & 7) == 0) { h.addr = a; h.fib = g_cur->id; h.wr = w; h.hot = 0; }
	if (hot_pc[ph] && live_count > 1 && r_sched.below(hot_den) == 0) slow_point();
}
static inline __attribute__((always_inline)) void access(void* p, u32 n, bool w, void* pc) {
	if (!g_on) return;
	chk((uintptr_t)p, n, w, pc);
	if (tracking) { Fiber* c = g_cur; if (++c->steps >= c->next_event) slow_point(); else track((uintptr_t)p, w, pc); return; }
	point();
}
static void range_access(void* p, size_t n, bool w, void* pc) {
	if (!g_on || !n) return;
	check_range(p, n, w, pc);
	if (tracking) { Fiber* c = g_cur; if (++c->steps >= c->next_event) slow_point(); else track((uintptr_t)p, w, pc); return; }
	point();
}

static void fiber_main() {
	Fiber* f = g_cur;
	u64* eh = (u64*)__cxa_get_globals(); eh[0] = 0; *(u32*)&eh[1] = 0;
	g_on = g_active && f->sut > 0;
	f->entry(f->arg);
	g_on = 0;
	f->sut = 0;
	f->state = FS_DONE; --live_count;
	stack_used[(f->stack - g_stacks) / STACK_SIZE] = false;
	wake(f);
	reschedule(true);
	__builtin_trap();
}
Fiber* new_fiber(void (*fn)(void*), void* arg) {
	Fiber* f = NULL;
	for (int i = 1; i < g_nfibers && !f; ++i) if (g_fibers[i].state == FS_DONE && !g_fibers[i].is_thread) f = &g_fibers[i];
	char* tls = f ? f->tls : NULL;
	if (!f) { if (g_nfibers >= MAX_FIBERS) violation("too-many-threads", "more than %d threads in one run", MAX_FIBERS); f = &g_fibers[g_nfibers++]; }
	else g_steps_done += f->steps;
	memset(f, 0, sizeof *f);
	f->id = g_next_id++; f->tls = tls;
	int s = 0; while (s < MAX_FIBERS && stack_used[s]) ++s;
	if (s == MAX_FIBERS) violation("too-many-threads", "out of stacks");
	stack_used[s] = true; f->stack = g_stacks + (size_t)s * STACK_SIZE;
	f->entry = fn; f->arg = arg; f->state = FS_READY;
	f->sut = 0;
	if (tls_size) { if (!f->tls) f->tls = (char*)sys_alloc(tls_size); memset(f->tls, 0, tls_size); memcpy(f->tls, tls_init, tls_init_size); }
	f->pct_prio = (1ull << 40) + (r_sched.next() >> 24);
	u64* sp = (u64*)(f->stack + STACK_SIZE - 64);
	*--sp = 0;                        // alignment: at entry rsp%16 == 8
	*--sp = (u64)fiber_main;
	for (int i = 0; i < 6; ++i) *--sp = 0;
	*--sp = 0; ((u32*)sp)[0] = 0x1f80; ((u32*)sp)[1] = 0x037f;
	f->sp = sp;
	++live_count; if (live_count > g_slot->max_live) g_slot->max_live = live_count;
	plan(f);
	return f;
}
void block_on(const void* what) { g_cur->waiting = what; g_cur->state = FS_BLOCKED; reschedule(true); g_cur->waiting = NULL; }
void wake(const void* what) { for (int i = 0; i < g_nfibers; ++i) if (g_fibers[i].state == FS_BLOCKED && g_fibers[i].waiting == what) g_fibers[i].state = FS_READY; }
int spawn(void (*fn)(void*), void* arg) { Fiber* f = new_fiber(fn, arg); f->is_thread = true; return f->id; }
void join(int id) { Fiber* f = fiber_by_id(id); if (!f) return; while (f->state != FS_DONE && !f->frozen) block_on(f); }
void freeze_others() { g_crashed = true; for (int i = 0; i < g_nfibers; ++i) if (&g_fibers[i] != g_cur && g_fibers[i].state != FS_DONE) { g_fibers[i].frozen = true; wake(&g_fibers[i]); --live_count; } }
bool crashed() { return g_crashed; }
void set_crash_hook(bool (*h)()) { g_crash_hook = h; }
void crash_point() {
	if (!g_crash_hook || g_crashed) return;
	if (g_crash_hook()) {           // everything but the main harness fiber dies here
		g_slot->fired[F_CRASH]++;
		g_crashed = true;
		for (int i = 1; i < g_nfibers; ++i) if (g_fibers[i].state != FS_DONE && !g_fibers[i].frozen) { g_fibers[i].frozen = true; --live_count; }
		for (int i = 1; i < g_nfibers; ++i) wake(&g_fibers[i]);
		g_fibers[0].state = FS_READY;
		fnv(g_slot->hash, 0xc4a54);
		if (g_cur != &g_fibers[0]) { g_on = 0; switch_to(&g_fibers[0]); }
	}
}

Sut::Sut() { g_cur->sut++; g_on = g_active && g_cur->sut > 0; }
Sut::~Sut() { g_cur->sut--; g_on = g_active && g_cur->sut > 0; }
Quiet::Quiet() { saved = g_cur ? g_cur->sut : 0; if (g_cur) g_cur->sut = 0; g_on = 0; }
Quiet::~Quiet() { if (g_cur) { g_cur->sut = saved; g_on = g_active && g_cur->sut > 0; } }

static void crash_signal(int sig, siginfo_t* si, void* uc) {
	ucontext_t* u = (ucontext_t*)uc;
	g_on = 0;
	if (g_slot) g_slot->pc = u->uc_mcontext.gregs[REG_RIP];
	bool ovf = g_cur && g_cur->stack && (char*)si->si_addr >= g_cur->stack && (char*)si->si_addr < g_cur->stack + 4096;
	if (sig == SIGVTALRM) violation("hang", "no progress in real time");
	if (sig == SIGABRT) violation("abort", "the program aborted (uncaught exception or abort)");
	if (sig == SIGSEGV && (uintptr_t)si->si_addr - ARENA < ARENA_SIZE) violation("use-after-free", "access at %p: the block was already released", si->si_addr);
	violation(ovf ? "stack-overflow" : "crash", "signal %d (%s), address %p", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "undefined operation: an index outside an array, a division by zero, a shift by too much or a missing result" : "signal", si->si_addr);
}

static int g_run_timeout = 60;
void run_begin() {
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	// processor time, not wall time: a loop that touches no memory is found however busy the machine is
	sigaction(SIGVTALRM, &sa, NULL);
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_run_timeout; setitimer(ITIMER_VIRTUAL, &it, NULL);
	// every run has its heap at the same place
	memset(freelist, 0, sizeof freelist); q_head = q_tail = NULL; q_bytes = 0; h_serial = 0; memset(&h_sut, 0, sizeof h_sut);
	pre_top = arena_top; run_base = arena_top = ARENA + (2ull << 30) + 64;
	u64 seed = g_spec.seed;
	r_work = Rng(mix2(seed, 1)); r_sched = Rng(mix2(seed, 2) + g_spec.salt * 0x5851f42d4c957f2dull); r_fault = Rng(mix2(seed, 3) + g_spec.salt * 0x5851f42d4c957f2dull);
	memset(fault_seq, 0, sizeof fault_seq);
	g_mono = 1000000000ll; g_wall_off = 1500000000ll * 1000000000ll + (i64)(r_sched.next() % 100000000) * 1000000000ll;
	g_total_steps_limit = 3000000000ull;
	g_nfibers = 1; g_next_id = 1; g_steps_done = 0; memset(&g_fibers[0], 0, sizeof(Fiber)); g_cur = &g_fibers[0]; g_cur->state = FS_RUNNING; live_count = 1;
	if (tls_size) g_cur->tls = (char*)sys_alloc(tls_size);
	g_cur->pct_prio = 1ull << 41; pct_low = 1ull << 30;
	// strategy of this run
	static const int pick[] = {ST_SERIAL, ST_RANDOM, ST_RANDOM, ST_RANDOM, ST_PCT, ST_PCT, ST_RACE, ST_RACE, ST_RACE, ST_STARVE, ST_ROUND};
	strat = pick[r_sched.below(sizeof pick / sizeof *pick)];
	static const u32 qs[] = {2, 6, 20, 60, 200, 1000, 5000, 30000};
	quantum = qs[r_sched.below(8)];
	if (strat == ST_PCT) { static const u32 pq[] = {500, 5000, 20000, 100000}; quantum = pq[r_sched.below(4)]; }
	if (strat == ST_RACE) { static const u32 rq[] = {2000, 20000, 200000}; quantum = rq[r_sched.below(3)]; tracking = true; hot_den = 1 + r_sched.below(12); hot_tab = (Hot*)sys_alloc(sizeof(Hot) * HOT_N); hot_pc = (u8*)sys_alloc(65536); }
	if (g_spec.explicit_mode) tracking = false;
	static const u32 sd[] = {0, 2, 4, 8, 32}; sync_den = sd[r_sched.below(5)];
	if (strat == ST_PCT) sync_den = 64;
	starved = r_sched.below(4);
	{ Rng r(mix2(seed, 77)); poison_mode = (int)param_w("poison", 0, 6, r.below(7)); poison_state = mix2(seed, 78) | 1; static const u64 ql[] = {0, 1 << 16, 1 << 20, 8 << 20}; q_limit = ql[r.below(4)]; if (poison_mode) g_slot->fired[F_POISON]++; }
	g_slot->strategy = strat;
	plan(g_cur);
	g_active = true; g_on = 0;
}
void run_end() {
	g_on = 0;
	heap_check();
	g_active = false;
	finish_slot();
	g_slot->status = 1;
}
const char* strategy_name(int s) { return st_names[s]; }
int strategy_count() { return ST_COUNT; }

}  // namespace sim
using namespace sim;

// ---------------------------------------------------------------------------------------------- instrumentation
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
	void __tsan_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { range_access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { range_access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access(p, 8, true, PC); (void)v; }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range_access((void*)s, n, false, PC); range_access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range_access((void*)s, n, false, PC); range_access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range_access(d, n, true, PC); return memset(d, c, n); }
// atomics: indivisible, with a preemption point before
#define AT(T, B) \
	T __tsan_atomic##B##_load(const volatile T* a, int) { access((void*)a, B / 8, false, PC); sync_point(); return *a; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = (T)(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = (T)(o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, B / 8, true, PC); sync_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*)a, B / 8, true, PC); sync_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, B / 8, true, PC); sync_point(); T o = *a; if (o == c) *a = v; return o; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------------- random numbers
// As in the C library: one stream for the whole process, each draw indivisible; which numbers a seed stands for is ours.
void srand(unsigned seed) { sync_point(); rand_state = mix(seed + 0x5eedull); }
int rand() {
	sync_point(); ++rand_calls; u64 z = mix(rand_state += 0x9e3779b97f4a7c15ull);
	if (rand_extremes && (z & 0xffff) % 1000 < rand_extremes) { count_fault(F_RAND_EXTREME); switch (z >> 16 & 3) { case 0: return 0; case 1: return RAND_MAX; case 2: return 1; default: return RAND_MAX - 1; } }
	return (int)(z >> 33);
}

// ---------------------------------------------------------------------------------------------- malloc family
void* malloc(size_t n) { void* p = h_alloc(n, K_MALLOC, PC); if (!p) errno = ENOMEM; return p; }
void free(void* p) { h_free(p, K_MALLOC, PC); }
void* calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return NULL; void* p = h_alloc(a * b, K_MALLOC, PC); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
	if (!p) return h_alloc(n, K_MALLOC, PC);
	if (!n) { h_free(p, K_MALLOC, PC); return NULL; }
	Head* h = head_of(p);
	if (g_on && h->magic != HM_LIVE) bad("use-after-free", p, PC, "realloc of a released block");
	void* q = h_alloc(n, K_MALLOC, PC); if (!q) return NULL;
	memcpy(q, p, h->size < n ? h->size : n); h_free(p, K_MALLOC, PC); return q;
}
void* memalign(size_t a, size_t n) { return h_alloc(n, K_MALLOC, PC, a); }
void* aligned_alloc(size_t a, size_t n) { return h_alloc(n, K_MALLOC, PC, a); }
int posix_memalign(void** o, size_t a, size_t n) { *o = h_alloc(n, K_MALLOC, PC, a); return *o ? 0 : ENOMEM; }
void* valloc(size_t n) { return h_alloc(n, K_MALLOC, PC, 4096); }
size_t malloc_usable_size(void* p) { return p ? head_of(p)->size : 0; }
}
static void* nw(size_t n, int k, void* pc) { void* p = h_alloc(n ? n : 1, k, pc); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return nw(n, K_NEW, PC); }
void* operator new[](size_t n) { return nw(n, K_NEWARR, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return h_alloc(n ? n : 1, K_NEW, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return h_alloc(n ? n : 1, K_NEWARR, PC); }
void* operator new(size_t n, std::align_val_t a) { return h_alloc(n ? n : 1, K_NEW, PC, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return h_alloc(n ? n : 1, K_NEWARR, PC, (size_t)a); }
void operator delete(void* p) noexcept { h_free(p, K_NEW, PC); }
void operator delete[](void* p) noexcept { h_free(p, K_NEWARR, PC); }
void operator delete(void* p, size_t) noexcept { h_free(p, K_NEW, PC); }
void operator delete[](void* p, size_t) noexcept { h_free(p, K_NEWARR, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { h_free(p, K_NEW, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { h_free(p, K_NEWARR, PC); }
void operator delete(void* p, std::align_val_t) noexcept { h_free(p, K_NEW, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { h_free(p, K_NEWARR, PC); }

// ---------------------------------------------------------------------------------------------- pthread layer
// State lives in the caller's own object, in a form for which all-zero is the unlocked static initialiser.
struct SMutex { u32 owner1; u32 count; u32 kind; u32 magic; };   // owner1 = fiber id + 1
enum { MM_DEAD = 0xDEAD0001 };
struct SCond { u64 seq; };
struct SRw { u32 writer1; u32 readers; };
extern "C" {
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { *(int*)a = t; return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof(int)); return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (g_on) check_range(m, sizeof *m, true, PC); memset(m, 0, sizeof *m); ((SMutex*)m)->kind = a ? *(int*)a : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) {
	if (g_on) { check_range(m, sizeof *m, true, PC); if (((SMutex*)m)->owner1) violation("mutex-misuse", "mutex destroyed while locked"); }
	((SMutex*)m)->magic = MM_DEAD; return 0;
}
static int lock_common(SMutex* s, bool try_only, void* pc) {
	if (!g_active) { return 0; }
	if (g_on) check_range(s, sizeof *s, true, pc);
	if (g_on && s->magic == MM_DEAD) { g_slot->pc = (u64)pc; violation("mutex-misuse", "a destroyed mutex is locked"); }
	sync_point();
	u32 me = g_cur->id + 1;
	if (s->owner1 == me) { if (s->kind == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return 0; } if (try_only) return EBUSY; if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; g_slot->pc = (u64)pc; violation("deadlock", "a thread locks a mutex it already holds"); }
	while (s->owner1) { if (try_only) return EBUSY; block_on(s); }
	s->owner1 = me; s->count = 1;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_common((SMutex*)m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_common((SMutex*)m, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!g_active) return 0;
	SMutex* s = (SMutex*)m;
	if (g_on) { check_range(s, sizeof *s, true, PC); if (s->owner1 != (u32)g_cur->id + 1) { if (s->owner1 == 0) return 0; g_slot->pc = (u64)PC; violation("mutex-misuse", "a mutex is unlocked by a thread that does not hold it"); } }
	if (s->count > 1) { --s->count; return 0; }
	s->owner1 = 0; s->count = 0; wake(s);
	sync_point();
	return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { pthread_mutex_unlock(m); u64 s = ((SCond*)c)->seq; if (s == ((SCond*)c)->seq) block_on(c); pthread_mutex_lock(m); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { (void)c; pthread_mutex_unlock(m); advance_ns(1000000); sync_point(4); pthread_mutex_lock(m); return ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (!g_active) return 0; sync_point(); ((SCond*)c)->seq++; for (int i = 0; i < g_nfibers; ++i) if (g_fibers[i].state == FS_BLOCKED && g_fibers[i].waiting == c) { g_fibers[i].state = FS_READY; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g_active) return 0; sync_point(); ((SCond*)c)->seq++; wake(c); return 0; }
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) { memset(r, 0, sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) { if (!g_active) return 0; SRw* s = (SRw*)r; sync_point(); while (s->writer1) block_on(s); ++s->readers; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) { if (!g_active) return 0; SRw* s = (SRw*)r; sync_point(); while (s->writer1 || s->readers) block_on(s); s->writer1 = g_cur->id + 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* r) { if (!g_active) return 0; SRw* s = (SRw*)r; if (s->writer1) s->writer1 = 0; else if (s->readers) --s->readers; wake(s); sync_point(); return 0; }
int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile u32*)l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { if (!g_active) return 0; sync_point(); while (*(volatile u32*)l) block_on((void*)l); *(volatile u32*)l = g_cur->id + 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!g_active) return 0; *(volatile u32*)l = 0; wake((void*)l); sync_point(); return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
struct PStart { void* (*fn)(void*); void* arg; };
static void pthread_main(void* a) { PStart* s = (PStart*)a; g_cur->sut = 1; g_on = 1; g_cur->ret = s->fn(s->arg); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
	if (!g_active) return EAGAIN;
	PStart* s = (PStart*)sys_alloc(sizeof(PStart)); s->fn = fn; s->arg = arg;
	Fiber* f = new_fiber(pthread_main, s); f->is_thread = true; *t = (pthread_t)(f->id + 1);
	sync_point(); return 0;
}
int pthread_join(pthread_t t, void** r) { if (!g_active) return ESRCH; sync_point(); Fiber* f = fiber_by_id((int)t - 1); if (!f) return ESRCH; while (f->state != FS_DONE) block_on(f); if (r) *r = f->ret; return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return g_cur ? (pthread_t)(g_cur->id + 1) : (pthread_t)1; }
int sched_yield() { if (g_active) sync_point(8); return 0; }
int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(u32*)s = v; return 0; }
int sem_wait(sem_t* s) { if (!g_active) return 0; sync_point(); while (!*(u32*)s) block_on(s); --*(u32*)s; return 0; }
int sem_post(sem_t* s) { if (!g_active) return 0; ++*(u32*)s; wake(s); sync_point(); return 0; }
int sem_destroy(sem_t*) { return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
	u32* s = (u32*)o;
	if (*s == 2) return 0;
	if (g_active) { sync_point(); while (*s == 1) block_on(s); if (*s == 2) return 0; }
	*s = 1; fn(); *s = 2; if (g_active) wake(s); return 0;
}
// function-local statics
int __cxa_guard_acquire(u64* g) {
	u8* b = (u8*)g;
	if (b[0]) return 0;
	if (g_active) { sync_point(); while (b[1] && !b[0]) block_on(g); if (b[0]) return 0; }
	b[1] = 1; return 1;
}
void __cxa_guard_release(u64* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; if (g_active) wake(g); }
void __cxa_guard_abort(u64* g) { u8* b = (u8*)g; b[1] = 0; if (g_active) wake(g); }
}
