// C16: timers while the wall clock is stepped and skewed.
#include "common.h"
using namespace sim;
namespace {
struct T { sys_timer* t; i64 lo, hi; int pairs, begins; bool running; i64 b0, b1; bool auto_out, debug; std::string name; };
CaptureLogger* g_log; int g_ops; u64 steps_made; i64 g_skew;
void judge(const T& x, i64 cost, const char* how) {
	i64 slack = 2000ll * (x.pairs + 1), lo = x.lo - slack, hi = x.hi + slack;      // clock readings may be cut to microseconds
	if (cost < 0) violation("negative-cost", "%s: a timer reports %lld ms", how, cost);
	if (cost * 1000000 < lo - 1000000 || cost * 1000000 > hi + 1000000) violation("wrong-cost", "%s: a timer reports %lld ms for %d pairs that took %.6f to %.6f ms", how, cost, x.pairs, x.lo / 1e6, x.hi / 1e6);
}
void judge_message(const T& x, size_t from, const char* how) {
	std::string want1 = x.name + " cost "; int hits = 0;
	for (size_t i = from; i < g_log->out.size(); ++i) if (g_log->by[i] == self() && g_log->out[i].find(want1) != std::string::npos) {
		++hits; long long c = 0; int n = -1; const char* p = g_log->out[i].c_str() + g_log->out[i].find(want1) + want1.size(); if (sscanf(p, "%lld ms, count = %d", &c, &n) != 2) violation("wrong-message", "%s: %s", how, quote(g_log->out[i]).c_str());
		if (n != x.begins) violation("wrong-count", "%s: a timer begun %d times reports %d", how, x.begins, n); judge(x, c, how);
	}
	if (hits != 1) violation("wrong-message", "%s: a timer wrote %d messages instead of one", how, hits);
}
void pass() { static const i64 S[] = {0, 100, 1000, 300000, 900000, 999999, 1000000, 1500000, 20000000, 1000000000, 60000000000ll, 7200000000000ll}; i64 d = S[rng().below(12)]; if (rng().below(2)) d = d ? rng().range(0, d) : 0; advance_ns(d); if (g_skew) step_wall(d / 1000 * g_skew); }
void jump() { static const i64 S[] = {1000, 1000000, 500000000, 1000000000, 3600000000000ll, 86400000000000ll * 365, 86400000000000ll * 365 * 30}; i64 d = S[rng().below(7)]; if (rng().below(2)) d = -d; if (wall_ns() + d < 1000000000) d = -d; step_wall(d); ++steps_made; }
void maybe_jump() { if (fault(F_CLOCK_STEP, 1, 5)) jump(); }
void work(int me) {
	std::vector<T*> own; i64 last_tick = 0, tick_at = 0; bool have = false; int made = 0;
	for (int k = 0; k < g_ops; ++k) {
		int r = rng().below(16); maybe_jump();
		if (own.empty() || (r == 0 && own.size() < 4)) {
			T* x = new T(); memset((void*)&x->lo, 0, (char*)&x->name - (char*)&x->lo); x->name = "timer" + std::to_string(me) + "_" + std::to_string(made++); x->auto_out = rng().below(2); x->debug = rng().below(2); std::string nm = x->name; { Sut on; x->t = new sys_timer(nm, x->auto_out ? sys_true : sys_false, x->debug ? sys_true : sys_false); } own.push_back(x);
			int c; { Sut on; c = x->t->get_cost(); } if (c) violation("wrong-cost", "a new timer reports %d ms", c);
		}
		T* x = own[rng().below(own.size())];
		if (r < 5) {
			if (!x->running) { x->b0 = mono_ns(); { Sut on; x->t->begin(); } x->b1 = mono_ns(); x->running = true; x->begins++; }
			else { i64 e0 = mono_ns(); { Sut on; x->t->end(); } i64 e1 = mono_ns(); x->running = false; x->pairs++; x->lo += e0 > x->b1 ? e0 - x->b1 : 0; x->hi += e1 - x->b0; count("pairs"); }
		}
		else if (r < 8) pass();
		else if (r < 10) { // many short pairs
			int n = 1 + rng().below(40); if (x->running) continue; i64 d = rng().below(3) ? rng().range(0, 1100000) : 999000;
			for (int i = 0; i < n; ++i) { i64 b0 = mono_ns(); { Sut on; x->t->begin(); } i64 b1 = mono_ns(); advance_ns(d); if (g_skew) step_wall(d / 1000 * g_skew); maybe_jump(); i64 e0 = mono_ns(); { Sut on; x->t->end(); } i64 e1 = mono_ns(); x->begins++; x->pairs++; x->lo += e0 - b1; x->hi += e1 - b0; } count("pairs", n);
		}
		else if (r < 12) { i64 c; { Sut on; c = x->t->get_cost(); } judge(*x, c, "get_cost"); }
		else if (r == 12) { if (x->running) continue; { Sut on; x->t->reset(); } x->lo = x->hi = 0; x->pairs = x->begins = 0; i64 c; { Sut on; c = x->t->get_cost(); } judge(*x, c, "after reset"); }
		else if (r == 13) { size_t from = g_log->out.size(); { Sut on; x->t->out(x->debug ? sys_true : sys_false); } judge_message(*x, from, "out"); }
		else if (r == 14) {
			i64 m0 = mono_ns(), t; { Sut on; t = sys_timer::get_tick_cout(); } i64 m1 = mono_ns();
			if (have) { if (t < last_tick) violation("tick-backwards", "the tick count went from %lld to %lld", last_tick, t); i64 lo = m0 - tick_at - 2000000, hi = m1 - tick_at + 4000000; i64 d = (t - last_tick) * 1000000; if (d < lo || d > hi + 1000000) violation("wrong-tick", "the tick count grew by %lld ms while %.3f ms passed", t - last_tick, (m1 - tick_at) / 1e6); }
			last_tick = t; tick_at = m0; have = true; count("ticks");
		}
		else { size_t from = g_log->out.size(); { Sut on; delete x->t; } if (x->auto_out) judge_message(*x, from, "destructor"); else for (size_t i = from; i < g_log->out.size(); ++i) if (g_log->by[i] == self()) violation("wrong-message", "a silent timer wrote a message"); for (size_t i = 0; i < own.size(); ++i) if (own[i] == x) { own.erase(own.begin() + i); break; } delete x; }
	}
	for (size_t i = 0; i < own.size(); ++i) { T* x = own[i]; i64 c; { Sut on; c = x->t->get_cost(); } judge(*x, c, "at the end"); size_t from = g_log->out.size(); { Sut on; delete x->t; } if (x->auto_out) judge_message(*x, from, "destructor"); delete x; }
}
void run() {
	g_log = new CaptureLogger(true); basiclog::log_logger::init_logger(g_log); steps_made = 0;
	int nt = (int)param("threads", 1, 4); g_ops = (int)param("operations", 1, 60); g_skew = param("skew_permille", 0, 3) == 3 ? rng().range(-900, 900) : 0; bool slow = param("slow_clock", 0, 3) == 3; if (slow) set_auto_advance(1, 1 + rng().below(200000));
	{ Sut s; sys_timer warm("warm", sys_false); warm.begin(); warm.end(); warm.out(); basiclog_info2("first"); } g_log->out.clear(); g_log->by.clear(); g_log->out.reserve(8192); g_log->by.reserve(8192);
	HeapStats before = sut_heap(); i64 m0 = mono_ns();
	{ Threads th; for (int t = 0; t < nt; ++t) th.start([t] { work(t); }); th.join(); }
	leak_check(before, "");
	heap_check(); count("clock_steps", steps_made); if (steps_made || g_skew) nontrivial(mix2(steps_made, (u64)(mono_ns() - m0)));
	note("%d threads, %llu clock steps, %.3f s of simulated time", nt, steps_made, (mono_ns() - m0) / 1e9);
}
Registrar r({"C16", run, 60000, 1500000,
	"one run: 1 to 4 threads, each with up to 4 timers of its own, begin, end, reset, print and destroy them and read tick counts while simulated time passes (from nanoseconds to minutes, clock reads may take time) and the wall clock is stepped by up to 30 years either way or runs at a wrong rate. Every cost is compared with the true elapsed time. Non-trivial: the wall clock was stepped or skewed.",
	"basicsys/src/sys_timer.cpp, sys_strhelper.cpp; basiclog/src/basiclog.cpp (real code)", "clocks (simulated), thread scheduling, heap, log output (captured)"});
}
