// The simulator's interface for workloads. The runtime itself uses no C++ library code (see rt_core.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

namespace sim {

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef unsigned long long u64; typedef long long i64; typedef int32_t i32;

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline u64 mix2(u64 a, u64 b) { return mix(a ^ mix(b)); }

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 0) : s(mix(seed)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u32 below(u32 n) { return n ? (u32)((next() >> 32) * (u64)n >> 32) : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64)(next() % (u64)(hi - lo + 1)); }
	bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---- fault kinds (what the simulator can inject; each firing is counted) -------------------------------------
enum Fault {
	F_TEAM_SMALLER,     // OpenMP delivers fewer threads than requested
	F_NESTED_SERIAL,    // nested parallel region serialised (or, value 1, really nested)
	F_OPEN_FAIL,        // opening a file fails (EMFILE, EACCES, EIO, ENOSPC)
	F_WRITE_FAIL,       // write fails, nothing written
	F_WRITE_TORN,       // write stops part-way and fails
	F_DISK_FULL,        // disk full interval
	F_READ_FAIL,        // read fails
	F_READ_SHORT,       // read returns fewer bytes than there are (and the next one goes on)
	F_CLOSE_FAIL,       // close reports an error
	F_SEEK_FAIL,
	F_MKDIR_FAIL, F_RENAME_FAIL, F_UNLINK_FAIL, F_OPENDIR_FAIL, F_READDIR_FAIL, F_SYSTEM_FAIL,
	F_CLOCK_STEP,       // wall clock steps
	F_CRASH,            // process crash: all threads stop, buffers of the process are lost
	F_ALLOC_FAIL,
	F_STALL,            // a thread is not scheduled for a long time
	F_POISON,           // fresh memory filled with an adversarial pattern
	F_CUT,              // a stored file is cut short or damaged
	F_BAD_SECTOR,       // a place of a stored file cannot be read, what lies before it can
	F_RAND_EXTREME,     // rand() delivers one of the two lowest or highest values it can
	F_KINDS
};
extern const char* const fault_names[F_KINDS];

// ---- run life cycle --------------------------------------------------------------------------------------------
struct Property {
	const char* id;
	void (*run)();              // one simulated run; draws everything from param()/rng()
	u32 quick_runs, thorough_runs;
	const char* rule;           // evidence: how cases are made, what is non-trivial
	const char* real_code;      // evidence: components that ran real code
	const char* stubs;          // evidence: components replaced by the simulator
};
void register_property(const Property& p);
struct Registrar { Registrar(const Property& p) { register_property(p); } };

// Workload parameter: recorded, overridable by a replay file, shrunk by the minimiser (towards lo).
i64 param(const char* name, i64 lo, i64 hi);
i64 param_of(const char* name, const i64* values, int n);       // picks one of the values; shrinks towards the first
i64 param_w(const char* name, i64 lo, i64 hi, i64 drawn);        // the value was drawn by the caller
Rng& rng();                                                     // workload stream (not shrunk)

// A fault decision: false = no fault. Recorded; the minimiser removes them one by one.
bool fault(Fault kind, u32 num, u32 den);
u32 fault_value(Fault kind, u32 num, u32 den, u32 max_value);   // 0 = none, else 1..max_value
void count_fault(Fault kind, u64 n = 1);

void violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // goes to the sample / replay log
void nontrivial(u64 state_hash);        // this run reached a non-trivial state with that hash
void count(const char* name, u64 n = 1);                        // free counters, into the evidence
u64 trace_hash(u64 v);                   // folds v into the run's trace hash
bool verbose();

// ---- threads ----------------------------------------------------------------------------------------------------
int spawn(void (*fn)(void*), void* arg);     // a simulated application thread (runs code under test)
void join(int id);
void yield_point();
int self();
int live_threads();
void freeze_others();                        // crash: no other thread ever runs again
bool crashed();
void set_crash_hook(bool (*decide)());       // called at every simulated system call
u64 steps();

// Code under test runs only inside such a scope: there every memory access is checked and may be preempted.
struct Sut { Sut(); ~Sut(); };
// Inside a Sut scope, a callback into the harness switches that off again.
struct Quiet { Quiet(); ~Quiet(); int saved; };

// ---- scheduling configuration (drawn by the runtime per run; workloads may restrict) -------------------------------
void set_team_faults(bool on);
void set_max_threads(int n);

// ---- memory -----------------------------------------------------------------------------------------------------
struct HeapStats { u64 live_bytes, live_blocks, serial; };
HeapStats sut_heap();                        // blocks allocated inside Sut scopes and not yet freed
// Blocks that remain since then are a leak, unless they are held by static data and a second run of the same does not add to them.
// May run the property's run() again and not return.
void leak_check(const HeapStats& before, const char* what);
void heap_check();                           // verifies all canaries
void dump_live_blocks(u64 since_serial);
u64 alloc_serial();
bool heap_owns(const void* p, size_t n);     // the whole range lies in one live block
u64 block_serial(const void* p);             // identifies the live block that begins at p (0: none)
void set_alloc_fail(u32 num, u32 den);

// ---- random numbers -----------------------------------------------------------------------------------------------
void set_rand_extremes(u32 per_1000);        // so many of the numbers of every stream are extreme ones
u64 rand_draws();                            // calls of rand() so far

// ---- clock --------------------------------------------------------------------------------------------------------
i64 mono_ns();                               // true elapsed simulated time
i64 wall_ns();
void advance_ns(i64 ns);
void step_wall(i64 ns);
void set_auto_advance(i64 lo_ns, i64 hi_ns); // each clock read takes this long

// ---- simulated disk -------------------------------------------------------------------------------------------------
namespace vfs {
	void reset();
	bool exists(const char* path);
	bool is_dir(const char* path);
	bool mkdirs(const char* path);
	void put(const char* path, const void* data, size_t n);     // healthy write, no faults
	i64 size(const char* path);                                 // -1: none
	const u8* data(const char* path);
	void truncate(const char* path, size_t n);
	void bad_sector(const char* path, size_t at, size_t n);     // n 0: readable again
	void each(void (*fn)(const char* path, bool dir, void* arg), void* arg);   // sorted
	u64 tree_hash();
	int open_files();
	int open_dirs();
	void symlink(const char* path, const char* target);         // absolute target
	const char* link_of(const char* path);                      // NULL: no link
	void set_faults(u32 open, u32 write, u32 read, u32 close, u32 seek, u32 dirops);  // per 1000 operations
	void set_full(bool full);
	void protect(const char* path);          // remove, rename of it are violations
	void watch(void (*fn)(char event, const char* path));   // C created, T about to be truncated, R about to be removed, U removal failed
	u64 failures();                          // injected failures so far
	u64 ops();
}
}
