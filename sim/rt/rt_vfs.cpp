// Simulated disk and clocks. Real glibc stdio runs above the simulated files (fopencookie), so buffering, ferror and
// fclose behave as they do on a real system; faults are injected at the level of system calls.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>

namespace sim {

// ------------------------------------------------------------------------------------------------ clock
static i64 auto_lo = 0, auto_hi = 0;
static u64 tick_rng = 88172645463325252ull;
void set_auto_advance(i64 lo, i64 hi) { auto_lo = lo; auto_hi = hi; }
void clock_tick() { if (auto_hi > 0) { tick_rng ^= tick_rng << 13; tick_rng ^= tick_rng >> 7; tick_rng ^= tick_rng << 17; g_mono += auto_lo + (i64)(tick_rng % (u64)(auto_hi - auto_lo + 1)); } }
i64 mono_ns() { return g_mono; }
i64 wall_ns() { return g_mono + g_wall_off; }
void advance_ns(i64 ns) { g_mono += ns; }
void step_wall(i64 ns) { g_wall_off += ns; g_slot->fired[F_CLOCK_STEP]++; fnv(g_slot->hash, (u64)ns); }

// ------------------------------------------------------------------------------------------------ tree
struct Node { bool used, dir, prot, lnk; int parent; char name[200]; u8* data; size_t size, cap; int opens; bool unlinked; size_t bad_at, bad_n; };
enum { NODES = 4096 };
static Node* N; static int nn;
static u32 p_open, p_write, p_read, p_close, p_seek, p_dir; static bool disk_full;
static u64 nfail, nops; static int nopen, ndirs;

void vfs_init() { N = (Node*)sys_alloc(sizeof(Node) * NODES); nn = 1; memset(&N[0], 0, sizeof(Node)); N[0].used = N[0].dir = true; N[0].parent = 0; }
u64 vfs_op_count() { return nops; }
static void (*watcher)(char, const char*);
static void path_of(int i, char* out, size_t cap) { if (i == 0) { out[0] = 0; return; } path_of(N[i].parent, out, cap); strncat(out, "/", cap - strlen(out) - 1); strncat(out, N[i].name, cap - strlen(out) - 1); }
static void watch_node(char ev, int n) { if (!watcher) return; char b[2048]; b[0] = 0; path_of(n, b, sizeof b); int so = g_on, sv = g_cur->sut; g_on = 0; g_cur->sut = 0; watcher(ev, b); g_cur->sut = sv; g_on = so; }

static int child(int d, const char* name, size_t len) {
	for (int i = 1; i < nn; ++i) if (N[i].used && !N[i].unlinked && N[i].parent == d && strlen(N[i].name) == len && !memcmp(N[i].name, name, len)) return i;
	return -1;
}
// Resolves a path. Returns the node or -1; *dir = parent directory (or -1), *leaf = last component.
static int lookup(const char* path, int* dir, char* leaf, bool* trailing, bool nofollow = false) {
	static char expanded[2][8192]; int links = 0; int cur = 0; if (dir) *dir = 0; if (leaf) leaf[0] = 0; if (trailing) *trailing = false;
	errno = ENOENT;
	if (!path || !*path) { if (dir) *dir = -1; return -1; }
	const char* p = path;
	for (;;) {
		while (*p == '/') ++p;
		if (!*p) return cur;
		const char* e = p; while (*e && *e != '/') ++e;
		size_t len = e - p; const char* q = e; while (*q == '/') ++q;
		bool last = !*q;
		if (cur >= 0 && !N[cur].dir) { errno = ENOTDIR; if (dir) *dir = -1; return -1; }
		int nx;
		if (len == 1 && p[0] == '.') nx = cur; else if (len == 2 && p[0] == '.' && p[1] == '.') nx = N[cur].parent; else {
			if (len >= sizeof N[0].name) { errno = ENAMETOOLONG; if (dir) *dir = -1; return -1; }
			nx = child(cur, p, len);
		}
		if (nx >= 0 && N[nx].lnk && (!last || !nofollow)) {   // targets are absolute
			if (++links > 16) { errno = ELOOP; if (dir) *dir = -1; return -1; }
			char* b = expanded[links & 1]; snprintf(b, sizeof expanded[0], "%s%s%s", (const char*)N[nx].data, *e ? "/" : "", q); p = b; cur = 0; continue;
		}
		if (last) {
			if (dir) *dir = cur; if (leaf) { memcpy(leaf, p, len); leaf[len] = 0; } if (trailing) *trailing = *e == '/';
			if (nx < 0) errno = ENOENT;
			if (nx >= 0 && *e == '/' && !N[nx].dir && !N[nx].lnk) { errno = ENOTDIR; if (dir) *dir = -1; return -1; }
			return nx;
		}
		if (nx < 0) { errno = ENOENT; if (dir) *dir = -1; return -1; }
		cur = nx; p = q;
	}
}
static int make(int dir, const char* name, bool isdir) {
	int i = -1; for (int k = 1; k < nn; ++k) if (!N[k].used) { i = k; break; }
	if (i < 0) { if (nn == NODES) violation("vfs", "too many files"); i = nn++; }
	memset(&N[i], 0, sizeof(Node)); N[i].used = true; N[i].dir = isdir; N[i].parent = dir; strncpy(N[i].name, name, sizeof N[i].name - 1);
	return i;
}
static void reserve(Node* n, size_t cap) {
	if (cap <= n->cap) return;
	size_t c = n->cap ? n->cap : 256; while (c < cap) c *= 2;
	u8* d = (u8*)sys_alloc(c); memset(d, 0, c); if (n->size) memcpy(d, n->data, n->size); n->data = d; n->cap = c;
}
static void drop(int i) { if (N[i].opens) N[i].unlinked = true; else N[i].used = false; }
static bool empty(int d) { for (int i = 1; i < nn; ++i) if (N[i].used && !N[i].unlinked && N[i].parent == d) return false; return true; }

static void op(const char* what, const char* path) {
	++nops; u64 h = 0; for (const char* c = what; *c; ++c) h = h * 31 + *c; if (path) for (const char* c = path; *c; ++c) h = h * 31 + *c;
	fnv(g_slot->hash, h);
	crash_point();
	sync_point(2);
}
static bool fails(Fault k, u32 p) { if (fault(k, p, 1000)) { ++nfail; return true; } return false; }

// ------------------------------------------------------------------------------------------------ file descriptors
struct Open { bool used; int node; i64 pos; bool rd, wr, app; bool dead; bool sut; bool noseek; };
enum { OPENS = 256, FD0 = 100000 };
static Open O[OPENS];
static int do_open(const char* path, int flags) {
	op("open", path);
	int dir; char leaf[256]; bool tr; int n = lookup(path, &dir, leaf, &tr); int e = errno;
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	if (fails(F_OPEN_FAIL, p_open)) { static const int es[] = {EMFILE, EACCES, EIO, ENOSPC}; errno = es[nfail % 4]; return -1; }
	if (n < 0) {
		if (!(flags & O_CREAT) || dir < 0 || tr) { errno = e; return -1; }
		if (disk_full) { ++nfail; g_slot->fired[F_DISK_FULL]++; errno = ENOSPC; return -1; }
		n = make(dir, leaf, false); watch_node('C', n);
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (N[n].dir && wr) { errno = EISDIR; return -1; }
		if ((flags & O_TRUNC) && wr) { watch_node('T', n); N[n].size = 0; }
	}
	for (int i = 0; i < OPENS; ++i) if (!O[i].used) { O[i].used = true; O[i].dead = false; O[i].node = n; O[i].pos = 0; O[i].rd = (flags & O_ACCMODE) != O_WRONLY; O[i].wr = wr; O[i].app = flags & O_APPEND; if (O[i].app) O[i].pos = N[n].size;   /* as glibc's fopen does */ O[i].sut = true; O[i].noseek = fault(F_SEEK_FAIL, p_seek, 1000); N[n].opens++; ++nopen; return i; }
	errno = EMFILE; return -1;
}
static ssize_t do_write(int i, const void* buf, size_t n) {
	Open& o = O[i]; op("write", NULL);
	if (!o.wr) { errno = EBADF; return -1; }
	if (!n) return 0;
	Node* f = &N[o.node]; size_t at = o.app ? f->size : (size_t)o.pos;
	size_t k = n;
	int err = 0;
	if (disk_full) { ++nfail; g_slot->fired[F_DISK_FULL]++; errno = ENOSPC; return -1; }
	if (fails(F_WRITE_FAIL, p_write)) { errno = (nfail & 1) ? ENOSPC : EIO; return -1; }
	if (n > 1) { u32 v = fault_value(F_WRITE_TORN, p_write, 1000, 1 << 20); if (v) { ++nfail; k = v % n; err = ENOSPC; } }
	reserve(f, at + k); if (at > f->size) memset(f->data + f->size, 0, at - f->size);
	memcpy(f->data + at, buf, k); if (at + k > f->size) f->size = at + k;
	o.pos = at + k;
	if (err) { errno = err; return k ? (ssize_t)k : -1; }
	crash_point();
	return n;
}
static ssize_t do_read(int i, void* buf, size_t n) {
	Open& o = O[i]; op("read", NULL);
	if (!o.rd) { errno = EBADF; return -1; }
	Node* f = &N[o.node];
	if (f->dir) { errno = EISDIR; return -1; }
	if (fails(F_READ_FAIL, p_read)) { errno = EIO; return -1; }
	size_t left = (size_t)o.pos < f->size ? f->size - o.pos : 0; if (n > left) n = left;
	if (f->bad_n && n && (size_t)o.pos < f->bad_at + f->bad_n && (size_t)o.pos + n > f->bad_at) { count_fault(F_BAD_SECTOR); if ((size_t)o.pos >= f->bad_at) { ++nfail; errno = EIO; return -1; } n = f->bad_at - o.pos; }
	if (n > 1) { u32 v = fault_value(F_READ_SHORT, p_read, 1000, 1 << 20); if (v) n = 1 + v % (n - 1); }
	memcpy(buf, f->data + o.pos, n); o.pos += n; return n;
}
static i64 do_seek(int i, i64 off, int wh) {
	Open& o = O[i]; ++nops;
	if (o.noseek) { ++nfail; errno = ESPIPE; return -1; }      // opened as a pipe; seeking on a regular file does not fail
	i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : (i64)N[o.node].size;
	if (b + off < 0) { errno = EINVAL; return -1; }
	o.pos = b + off; return o.pos;
}
static int do_close(int i) {
	Open& o = O[i]; op("close", NULL);
	o.used = false; --nopen; if (--N[o.node].opens == 0 && N[o.node].unlinked) N[o.node].used = false;
	if (o.wr && fails(F_CLOSE_FAIL, p_close)) { errno = EIO; return -1; }
	return 0;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
	size_t done = 0; errno = 0;
	while (done < n) { ssize_t k = do_write((int)(intptr_t)c - 1, b + done, n - done); if (k <= 0) return done; done += k; if (errno == ENOSPC && (size_t)done < n && k > 0) { return done; } }
	return done;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(intptr_t)c - 1, b, n); }
static int ck_seek(void* c, off64_t* off, int wh) { i64 r = do_seek((int)(intptr_t)c - 1, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void* c) { return do_close((int)(intptr_t)c - 1); }

namespace vfs {
void watch(void (*fn)(char, const char*)) { watcher = fn; }
void reset() { watcher = NULL; for (int i = 1; i < nn; ++i) N[i].used = false; nn = 1; for (int i = 0; i < OPENS; ++i) O[i].used = false; nopen = ndirs = 0; p_open = p_write = p_read = p_close = p_seek = p_dir = 0; disk_full = false; nfail = nops = 0; }
bool exists(const char* p) { int e = errno; bool r = lookup(p, NULL, NULL, NULL) >= 0; errno = e; return r; }
bool is_dir(const char* p) { int n = lookup(p, NULL, NULL, NULL); return n >= 0 && N[n].dir; }
bool mkdirs(const char* p) {
	char b[1024]; strncpy(b, p, 1023); b[1023] = 0;
	for (char* c = b; *c; ++c) if (*c == '/' && c != b) { *c = 0; int d; char leaf[256]; if (lookup(b, &d, leaf, NULL) < 0 && d >= 0 && leaf[0]) make(d, leaf, true); *c = '/'; }
	int d; char leaf[256]; if (lookup(b, &d, leaf, NULL) < 0 && d >= 0 && leaf[0]) make(d, leaf, true);
	return is_dir(p);
}
void put(const char* p, const void* data, size_t n) { int d; char leaf[256]; int i = lookup(p, &d, leaf, NULL); if (i < 0) { if (d < 0) return; i = make(d, leaf, false); } reserve(&N[i], n ? n : 1); memcpy(N[i].data, data, n); N[i].size = n; }
i64 size(const char* p) { int i = lookup(p, NULL, NULL, NULL); return i < 0 || N[i].dir ? -1 : (i64)N[i].size; }
const u8* data(const char* p) { int i = lookup(p, NULL, NULL, NULL); return i < 0 ? NULL : N[i].data; }
void truncate(const char* p, size_t n) { int i = lookup(p, NULL, NULL, NULL); if (i >= 0 && n < N[i].size) N[i].size = n; }
void bad_sector(const char* p, size_t at, size_t n) { int i = lookup(p, NULL, NULL, NULL); if (i >= 0) { N[i].bad_at = at; N[i].bad_n = n; } }
static int cmp_str(const void* a, const void* b) { return strcmp(*(char* const*)a, *(char* const*)b); }
void each(void (*fn)(const char*, bool, void*), void* arg) {
	static char* list[NODES]; int k = 0;
	for (int i = 1; i < nn; ++i) if (N[i].used && !N[i].unlinked) { char b[2048]; path_of(i, b, sizeof b); size_t l = strlen(b); char* s = (char*)sys_alloc(l + 2); s[0] = N[i].dir ? 'd' : 'f'; memcpy(s + 1, b, l + 1); list[k++] = s; }
	for (int i = 0; i < k; ++i) { char c = list[i][0]; (void)c; }
	struct L { static int c(const void* a, const void* b) { return strcmp(*(char* const*)a + 1, *(char* const*)b + 1); } };
	qsort(list, k, sizeof *list, L::c); (void)cmp_str;
	for (int i = 0; i < k; ++i) fn(list[i] + 1, list[i][0] == 'd', arg);
}
static void th(const char* p, bool d, void* a) { u64& h = *(u64*)a; for (; *p; ++p) fnv(h, *p); fnv(h, d); }
u64 tree_hash() { u64 h = 7; each(th, &h); return h; }
int open_files() { return nopen; }
int open_dirs() { return ndirs; }
void symlink(const char* p, const char* target) { int d; char leaf[256]; if (lookup(p, &d, leaf, NULL, true) >= 0 || d < 0) return; int i = make(d, leaf, false); size_t n = strlen(target) + 1; reserve(&N[i], n); memcpy(N[i].data, target, n); N[i].lnk = true; }
const char* link_of(const char* p) { int i = lookup(p, NULL, NULL, NULL, true); return i >= 0 && N[i].lnk ? (const char*)N[i].data : NULL; }
void set_faults(u32 o, u32 w, u32 r, u32 c, u32 s, u32 d) { p_open = o; p_write = w; p_read = r; p_close = c; p_seek = s; p_dir = d; }
void set_full(bool f) { disk_full = f; }
void protect(const char* p) { int i = lookup(p, NULL, NULL, NULL); if (i >= 0) N[i].prot = true; }
u64 failures() { return nfail; }
u64 ops() { return nops; }
}

static int do_mkdir(const char* path) {
	op("mkdir", path);
	int d; char leaf[256]; int n = lookup(path, &d, leaf, NULL); int e = errno;
	if (n >= 0) { errno = EEXIST; return -1; }
	if (d < 0) { errno = e; return -1; }
	if (!leaf[0]) { errno = ENOENT; return -1; }
	if (disk_full) { ++nfail; g_slot->fired[F_DISK_FULL]++; errno = ENOSPC; return -1; }
	if (fails(F_MKDIR_FAIL, p_dir)) { errno = ENOSPC; return -1; }
	make(d, leaf, true); return 0;
}
static int do_remove(const char* path, int want) {   // want: 0 either, 1 file, 2 dir
	op("remove", path);
	bool tr; int d; char leaf[256]; int n = lookup(path, &d, leaf, &tr, true);
	if (n < 0) return -1;
	if (N[n].lnk && tr) { errno = ENOTDIR; return -1; }
	if (n == 0) { errno = EBUSY; return -1; }
	if (N[n].prot) violation("destroyed-protected", "the file or directory '%s' outside the target was removed", path);
	if (N[n].dir) { if (want == 1) { errno = EISDIR; return -1; } if (!empty(n)) { errno = ENOTEMPTY; return -1; } } else if (want == 2) { errno = ENOTDIR; return -1; }
	if (fails(F_UNLINK_FAIL, p_dir)) { watch_node('U', n); errno = EACCES; return -1; }
	watch_node('R', n); drop(n); return 0;
}
static int do_rename(const char* a, const char* b) {
	op("rename", a);
	int n = lookup(a, NULL, NULL, NULL, true); if (n < 0) return -1;
	if (N[n].prot) violation("destroyed-protected", "'%s' outside the target was renamed away", a);
	int d; char leaf[256]; bool tr; int m = lookup(b, &d, leaf, &tr, true); int e = errno;
	if (m < 0 && d < 0) { errno = e; return -1; }
	if (m == n) return 0;
	if (fails(F_RENAME_FAIL, p_dir)) { errno = EXDEV; return -1; }
	if (m < 0 && tr && !N[n].dir) { errno = ENOTDIR; return -1; }
	for (int x = d; x; x = N[x].parent) if (x == n) { errno = EINVAL; return -1; }
	if (m >= 0) {
		if (N[m].dir != N[n].dir) { errno = N[m].dir ? EISDIR : ENOTDIR; return -1; }
		if (N[m].dir && !empty(m)) { errno = ENOTEMPTY; return -1; }
		if (N[m].prot) violation("destroyed-protected", "'%s' was overwritten by rename", b);
		drop(m);
	}
	N[n].parent = d; strncpy(N[n].name, leaf, sizeof N[n].name - 1); return 0;
}
static int copy_tree(int src, int dir, const char* name) {
	int m = child(dir, name, strlen(name));
	if (N[src].dir) {
		if (m < 0) m = make(dir, name, true); else if (!N[m].dir) return 1;
		for (int i = 1, e = nn; i < e; ++i) if (N[i].used && !N[i].unlinked && N[i].parent == src && i != m) if (copy_tree(i, m, N[i].name)) return 1;
		return 0;
	}
	if (N[src].lnk) { if (m >= 0) return 1; m = make(dir, name, false); size_t k = strlen((char*)N[src].data) + 1; reserve(&N[m], k); memcpy(N[m].data, N[src].data, k); N[m].lnk = true; return 0; }
	if (m >= 0 && N[m].dir) return 1;
	if (m >= 0 && m == src) return 1;
	if (disk_full) { ++nfail; g_slot->fired[F_DISK_FULL]++; return 1; }
	if (m < 0) m = make(dir, name, false);
	size_t k = N[src].size;
	u32 v = fault_value(F_WRITE_TORN, p_write, 1000, 1 << 20); bool torn = v && k; if (torn) { ++nfail; k = v % k; }
	reserve(&N[m], k ? k : 1); memcpy(N[m].data, N[src].data, k); N[m].size = k;
	return torn;
}
// The shell, as far as anything here needs it: words split at blanks, quotes, backslash; cp/mv/rm/mkdir. Nothing is executed.
static int shell(const char* cmd) {
	op("system", cmd);
	if (fails(F_SYSTEM_FAIL, p_dir)) { errno = EAGAIN; return -1; }
	static char w[16][4096]; int k = 0; const char* p = cmd;
	while (*p && k < 16) {
		while (*p == ' ' || *p == '\t') ++p; if (!*p) break;
		int l = 0; bool any = false;
		while (*p && *p != ' ' && *p != '\t') {
			any = true;
			if (*p == '\'') { ++p; while (*p && *p != '\'') { if (l < 4095) w[k][l++] = *p; ++p; } if (*p) ++p; }
			else if (*p == '"') { ++p; while (*p && *p != '"') { if (*p == '\\' && p[1] && strchr("\"\\$`", p[1])) ++p; if (l < 4095) w[k][l++] = *p; ++p; } if (*p) ++p; }
			else if (*p == '\\' && p[1]) { ++p; if (l < 4095) w[k][l++] = *p; ++p; }
			else if (strchr(";|&<>$`()*?", *p)) { violation("shell-injection", "text of a path is interpreted by the shell: %s", cmd); }
			else { if (l < 4095) w[k][l++] = *p; ++p; }
		}
		w[k][l] = 0; if (any) ++k;
	}
	if (!k) return 0;
	int a = 1; bool rec = false, noclob = false, opts = true; static char* arg[16]; int na = 0;
	for (; a < k; ++a) { if (opts && !strcmp(w[a], "--")) opts = false; else if (opts && w[a][0] == '-' && w[a][1]) { if (strchr(w[a], 'r') || strchr(w[a], 'R') || strchr(w[a], 'a')) rec = true; if (strchr(w[a], 'n')) noclob = true; } else arg[na++] = w[a]; }
	if (!strcmp(w[0], "cp")) {
		if (na != 2) return 256;
		int s = lookup(arg[0], NULL, NULL, NULL); if (s < 0) return 256;
		int d; char leaf[256]; bool tr; int m = lookup(arg[1], &d, leaf, &tr);
		if (m < 0 && d < 0) return 256;
		if (N[s].dir && !rec) return 256;
		if (m >= 0 && N[m].dir) { int r = copy_tree(s, m, N[s].name); return r ? 256 : 0; }
		if (m >= 0 && noclob) return 0;
		if (m < 0 && tr && !N[s].dir) return 256;
		return copy_tree(s, d, leaf) ? 256 : 0;
	}
	if (!strcmp(w[0], "mkdir")) { for (int i = 0; i < na; ++i) if (!vfs::mkdirs(arg[i])) return 256; return 0; }
	if (!strcmp(w[0], "mv") && na == 2) return do_rename(arg[0], arg[1]) ? 256 : 0;
	if (!strcmp(w[0], "rm")) { int r = 0; for (int i = 0; i < na; ++i) r |= do_remove(arg[i], 0); return r ? 256 : 0; }
	note("shell command not simulated: %s", cmd);
	return 127 << 8;
}
struct SDir { int node; int n, at; int list[1024]; struct dirent ent; struct dirent64 ent64; bool failed; };
static void fill_stat(int n, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = N[n].lnk ? (S_IFLNK | 0777) : N[n].dir ? (S_IFDIR | 0777) : (S_IFREG | 0666); s->st_size = N[n].size; s->st_nlink = 1; s->st_ino = n + 1; s->st_dev = 7; s->st_mtime = wall_ns() / 1000000000; }
static bool sim_fd(int fd) { return fd >= FD0 && fd < FD0 + OPENS && O[fd - FD0].used; }
}
using namespace sim;
#define REAL(name, T) static T real = (T)dlsym(RTLD_NEXT, name)

extern "C" {
FILE* fopen(const char* path, const char* mode) {
	if (!g_active) { typedef FILE* (*T)(const char*, const char*); REAL("fopen", T); return real(path, mode); }
	int so = g_on; g_on = 0;
	int fl = 0; bool plus = strchr(mode, '+') != NULL;
	if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; else { errno = EINVAL; g_on = so; return NULL; }
	if (strchr(mode, 'x')) fl |= O_EXCL;
	int saved = g_cur->sut; g_cur->sut = 0;
	int i = do_open(path, fl);
	FILE* f = NULL;
	if (i >= 0) { cookie_io_functions_t io; io.read = ck_read; io.write = ck_write; io.seek = ck_seek; io.close = ck_close; f = fopencookie((void*)(intptr_t)(i + 1), mode, io); }
	g_cur->sut = saved; g_on = so;
	return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int open(const char* path, int fl, ...) {
	mode_t md = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
	if (!g_active) return (int)syscall(SYS_openat, AT_FDCWD, path, fl, md);
	int i = do_open(path, fl); return i < 0 ? -1 : FD0 + i;
}
int open64(const char* path, int fl, ...) { return open(path, fl, 0666); }
ssize_t read(int fd, void* b, size_t n) { if (!sim_fd(fd)) return syscall(SYS_read, fd, b, n); return do_read(fd - FD0, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (!sim_fd(fd)) return syscall(SYS_write, fd, b, n); return do_write(fd - FD0, b, n); }
off_t lseek(int fd, off_t o, int w) { if (!sim_fd(fd)) return syscall(SYS_lseek, fd, o, w); return do_seek(fd - FD0, o, w); }
int close(int fd) { if (!sim_fd(fd)) return (int)syscall(SYS_close, fd); return do_close(fd - FD0); }
int fsync(int fd) { if (!sim_fd(fd)) return (int)syscall(SYS_fsync, fd); return 0; }
int mkdir(const char* p, mode_t m) { if (!g_active) return (int)syscall(SYS_mkdir, p, m); return do_mkdir(p); }
int rmdir(const char* p) { if (!g_active) return (int)syscall(SYS_rmdir, p); return do_remove(p, 2); }
int unlink(const char* p) { if (!g_active) return (int)syscall(SYS_unlink, p); return do_remove(p, 1); }
int remove(const char* p) { if (!g_active) { int r = (int)syscall(SYS_unlink, p); return r ? (int)syscall(SYS_rmdir, p) : 0; } return do_remove(p, 0); }
int rename(const char* a, const char* b) { if (!g_active) return (int)syscall(SYS_rename, a, b); return do_rename(a, b); }
int access(const char* p, int m) { if (!g_active) return (int)syscall(SYS_access, p, m); op("access", p); return lookup(p, NULL, NULL, NULL) >= 0 ? 0 : -1; }
int stat(const char* p, struct stat* s) noexcept { if (!g_active) return (int)syscall(SYS_stat, p, s); op("stat", p); int n = lookup(p, NULL, NULL, NULL); if (n < 0) return -1; fill_stat(n, s); return 0; }
int lstat(const char* p, struct stat* s) noexcept { if (!g_active) return (int)syscall(SYS_lstat, p, s); op("lstat", p); int n = lookup(p, NULL, NULL, NULL, true); if (n < 0) return -1; fill_stat(n, s); return 0; }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
int lstat64(const char* p, struct stat64* s) noexcept { return lstat(p, (struct stat*)s); }
int system(const char* c) { if (!g_active || !c) return -1; return shell(c); }
FILE* popen(const char* c, const char*) { note("popen not simulated: %s", c); errno = ENOSYS; return NULL; }
int chdir(const char*) noexcept { errno = ENOSYS; return -1; }
int execve(const char*, char* const*, char* const*) noexcept { errno = ENOSYS; return -1; }
DIR* opendir(const char* p) {
	if (!g_active) return NULL;
	op("opendir", p);
	int n = lookup(p, NULL, NULL, NULL); if (n < 0) return NULL;
	if (!N[n].dir) { errno = ENOTDIR; return NULL; }
	if (fails(F_OPENDIR_FAIL, p_dir)) { errno = EMFILE; return NULL; }
	SDir* d = (SDir*)sys_alloc(sizeof(SDir)); memset(d, 0, sizeof *d); d->node = n;
	d->list[d->n++] = -1; d->list[d->n++] = -2;
	for (int i = 1; i < nn; ++i) if (N[i].used && !N[i].unlinked && N[i].parent == n && d->n < 1024) d->list[d->n++] = i;
	// any order
	for (int i = d->n - 1; i > 0; --i) { int j = rng().below(i + 1); int t = d->list[i]; d->list[i] = d->list[j]; d->list[j] = t; }
	++ndirs; return (DIR*)d;
}
static int dir_next(SDir* d) {
	op("readdir", NULL); if (d->failed) violation("use-after-close", "a directory is read after it was closed");
	if (fails(F_READDIR_FAIL, p_dir)) { errno = EIO; return -1; }
	while (d->at < d->n) { int i = d->list[d->at++]; if (i < 0 || (N[i].used && !N[i].unlinked)) return d->at - 1; }
	return -1;
}
struct dirent* readdir(DIR* dd) {
	SDir* d = (SDir*)dd; int k = dir_next(d); if (k < 0) return NULL; int i = d->list[k];
	memset(&d->ent, 0, sizeof d->ent); d->ent.d_ino = i + 10; d->ent.d_type = i < 0 || N[i].dir ? DT_DIR : N[i].lnk ? DT_LNK : DT_REG; strncpy(d->ent.d_name, i == -1 ? "." : i == -2 ? ".." : N[i].name, 255); return &d->ent;
}
struct dirent64* readdir64(DIR* dd) { return (struct dirent64*)readdir(dd); }
int closedir(DIR* d) { if (((SDir*)d)->failed) violation("double-close", "a directory was closed twice"); ((SDir*)d)->failed = true; --ndirs; return 0; }

// ------------------------------------------------------------------------------------------------ clocks
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
	if (!g_active) return (int)syscall(SYS_clock_gettime, c, t);
	clock_tick(); i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? wall_ns() : g_mono;
	t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; sync_point(); return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* o) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
clock_t clock() noexcept { if (!g_active) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; } return g_mono / 1000; }
int timespec_get(struct timespec* t, int b) noexcept { clock_gettime(CLOCK_REALTIME, t); return b; }
static int sleep_ns(i64 ns) { g_cur->wake_ns = g_mono + ns; g_cur->state = FS_SLEEP; int e = errno; (void)e; block_on(&g_cur->wake_ns); return 0; }
int nanosleep(const struct timespec* r, struct timespec*) { if (!g_active) return (int)syscall(SYS_nanosleep, r, NULL); advance_ns(r->tv_sec * 1000000000ll + r->tv_nsec); sync_point(4); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec*) { return nanosleep(r, NULL); }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, NULL); return 0; }
}
