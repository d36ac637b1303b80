// Internal to the runtime.
#pragma once
#include "rt.h"
#include <locale.h>
#include <signal.h>
#include <sys/types.h>

namespace sim {

enum { MAX_FIBERS = 512, STACK_SIZE = 1 << 20, MAX_PARAMS = 256, MAX_SWITCH = 1 << 16, MAX_FAULTREC = 1 << 14, MSG = 3000, NOTE = 6000 };

enum FState { FS_FREE, FS_READY, FS_RUNNING, FS_BLOCKED, FS_SLEEP, FS_DONE };

struct Team;

struct Fiber {
	void* sp;
	int id;              // stable number in this run (order of creation)
	int state;
	int sut;             // >0: code under test
	u64 steps;           // preemption points passed
	u64 next_event;      // steps value at which slow path runs
	char* stack;
	void (*entry)(void*); void* arg;
	i64 wake_ns;
	const void* waiting; // what it is blocked on
	int joiner_wait;
	bool is_thread;      // application thread (vs team worker)
	bool frozen;
	// OpenMP
	Team* team; int tid; int level; int push_threads;
	void* single_state;
	u32 ws_count, disp_count, single_count;
	// saved thread state
	int err; locale_t loc;
	u64 eh[2];
	char* tls;
	u64 pct_prio, fair;
	void* ret;           // pthread result
	bool detached;
	// replay script
	u32 rp_pos;
};

struct SwitchRec { u32 fiber; u32 to; u64 step; u32 must; u32 pad; };
struct FaultRec { u32 kind; u32 seq; u32 value; };
struct ParamRec { char name[24]; i64 value, lo; };

// What a run tells its parent (in shared memory).
struct Slot {
	int status;          // 0 not finished, 1 ok, 2 violation
	char cls[64];
	char msg[MSG];
	char notes[NOTE]; u32 notes_len;
	u64 pc;
	u64 hash, sched_hash;
	u64 steps, switches, preempts;
	i64 sim_ns;
	u64 fired[F_KINDS];
	u64 vfs_ops;
	int nontrivial; u64 state_hash;
	int strategy; int max_live;
	u32 nparams; ParamRec params[MAX_PARAMS];
	u32 nsw; SwitchRec sw[MAX_SWITCH]; int sw_overflow;
	u32 nf; FaultRec f[MAX_FAULTREC];
	struct { char name[32]; u64 n; } counters[24]; u32 ncounters;
};

// How to run.
struct Spec {
	u64 seed, salt;               // salt: another schedule and other faults for the same workload
	bool explicit_mode;          // schedule and faults come from the lists below
	u32 nsw; SwitchRec* sw;
	u32 nf; FaultRec* f;
	u32 np; ParamRec* p;         // parameter overrides
	bool verbose;
};

extern Slot* g_slot;
extern Spec g_spec;
extern Fiber* g_cur;
extern volatile int g_on;        // instrumentation acts (current fiber inside code under test)
extern const Property* g_property;
extern bool g_active;            // a run is going on
extern Fiber g_fibers[MAX_FIBERS];
extern int g_nfibers;

void run_begin();                // in the child
void run_end();
void core_init();                // once in the parent, before forking
int sut_bytes_begin();

Fiber* new_fiber(void (*fn)(void*), void* arg);
void block_on(const void* what); // current fiber sleeps until wake(what)
void wake(const void* what);
void sync_point(int weight = 1); // preemption point at a synchronisation or system call
void check_range(const void* p, size_t n, bool write, void* pc);
void* sys_alloc(size_t n);       // runtime-internal memory, never freed
void crash_point();
u64 draw_sched();
extern i64 g_mono, g_wall_off;
void clock_tick();
void vfs_init();
void say(const char* fmt, ...);  // raw output to the real stdout
extern int g_out_fd;
u64 vfs_op_count();
void fnv(u64& h, u64 v);
}
