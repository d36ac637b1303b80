// Search, minimisation, replay, evidence.
#include "rt_int.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <unordered_set>

namespace sim {
const char* strategy_name(int);
int strategy_count();
void omp_reset();

static Property g_props[64]; static int g_nprops;
void register_property(const Property& p) { g_props[g_nprops++] = p; }
static const Property* find(const char* id) { for (int i = 0; i < g_nprops; ++i) if (!strcmp(g_props[i].id, id)) return &g_props[i]; return NULL; }

static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Slot* new_slot() { Slot* s = (Slot*)mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (s == MAP_FAILED) { say("sim: no memory\n"); _exit(3); } return s; }
static void clear_slot(Slot* s) { s->status = 0; s->cls[0] = s->msg[0] = s->notes[0] = 0; s->notes_len = 0; s->pc = 0; s->hash = s->sched_hash = 1469598103934665603ull; s->steps = s->switches = s->preempts = 0; s->sim_ns = 0; memset(s->fired, 0, sizeof s->fired); s->vfs_ops = 0; s->nontrivial = 0; s->state_hash = 1469598103934665603ull; s->strategy = 0; s->max_live = 1; s->nparams = 0; s->nsw = 0; s->sw_overflow = 0; s->nf = 0; memset(s->counters, 0, sizeof s->counters); s->ncounters = 0; }

enum { RUN_OK, R_VIOLATION, R_BROKEN };
static int exec_run(const Property* p, const Spec& spec, Slot* slot) {
	clear_slot(slot);
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) return R_BROKEN;
	if (pid == 0) {
		g_spec = spec; g_slot = slot;
		int out = (int)syscall(SYS_fcntl, 1, F_DUPFD_CLOEXEC, 50); g_out_fd = out;
		int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
		syscall(SYS_dup2, nul, 0); syscall(SYS_dup2, nul, 1); if (!spec.verbose) syscall(SYS_dup2, nul, 2);
		omp_reset(); vfs::reset();
		run_begin();
		g_property = p;
		p->run();
		run_end();
		_exit(0);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (slot->status == 2) return R_VIOLATION;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->status == 1) return RUN_OK;
	if (WIFEXITED(st) && slot->status == 0 && WEXITSTATUS(st) != 3) {
		strcpy(slot->cls, "exit"); snprintf(slot->msg, MSG, "the program ended the process with exit code %d", WEXITSTATUS(st)); slot->status = 2; return R_VIOLATION;
	}
	snprintf(slot->msg, MSG, "run ended abnormally: wait status %x, slot status %d", st, slot->status);
	return R_BROKEN;
}

struct Rec {
	u64 index, hash, sched, state, steps, switches, preempts; i64 sim_ns; u64 vfs; u64 params;
	int result, nontrivial, strategy, max_live, recheck;   // recheck: 0 not done, 1 same, 2 different
	u64 fired[F_KINDS];
	struct { char name[32]; u64 n; } counters[24]; u32 ncounters;
	char cls[64]; char msg[400];
};
struct Shared { volatile u64 next; volatile int stop; };

struct Known { std::string cls, match, what; };
static std::vector<Known> g_known;
static void load_known(const char* file, const char* id) {
	FILE* f = fopen(file, "r"); if (!f) return;
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		// known: property=C01 cls=<class> match="<part of the message>" what fails
		char* nl = strchr(line, '\n'); if (nl) *nl = 0;
		if (strncmp(line, "known: ", 7)) continue;
		std::string l(line); std::string pid = std::string("property=") + id + " ";
		if (l.find(pid) != 7) continue;
		Known k; size_t c = l.find("cls="), m = l.find("match=\"");
		if (c == std::string::npos || m == std::string::npos) continue;
		size_t ce = l.find(' ', c); k.cls = l.substr(c + 4, ce - c - 4);
		size_t me = l.find('"', m + 7); k.match = l.substr(m + 7, me - m - 7); k.what = l.substr(me + 2);
		g_known.push_back(k);
	}
	fclose(f);
}
static int known_index(const char* cls, const char* msg) { for (size_t i = 0; i < g_known.size(); ++i) if (g_known[i].cls == cls && strstr(msg, g_known[i].match.c_str())) return (int)i; return -1; }

// ---------------------------------------------------------------------------------------------- replay files
struct Trace { std::string prop; u64 seed, salt; bool explicit_mode; std::vector<SwitchRec> sw; std::vector<FaultRec> f; std::vector<ParamRec> p; std::string cls, msg; u64 hash; Trace() : seed(0), salt(0), explicit_mode(true), hash(0) {} };
static Spec spec_of(Trace& t) { Spec s; memset(&s, 0, sizeof s); s.seed = t.seed; s.salt = t.salt; s.explicit_mode = t.explicit_mode; s.nsw = t.sw.size(); s.sw = t.sw.data(); s.nf = t.f.size(); s.f = t.f.data(); s.np = t.p.size(); s.p = t.p.data(); return s; }
static void write_trace(const char* path, const Trace& t, const Slot* slot) {
	FILE* o = fopen(path, "w"); if (!o) return;
	fprintf(o, "# replay of a violation found by the simulator; run: ./check %s --replay <this file>\n", t.prop.c_str());
	fprintf(o, "property %s\nseed %llu\nsalt %llu\nmode %s\n", t.prop.c_str(), (unsigned long long)t.seed, (unsigned long long)t.salt, t.explicit_mode ? "explicit" : "seeded");
	fprintf(o, "class %s\nhash %016llx\n", t.cls.c_str(), (unsigned long long)t.hash);
	std::string m = t.msg; for (char& c : m) if (c == '\n') c = '|';
	fprintf(o, "message %s\n", m.c_str());
	if (slot && slot->pc) fprintf(o, "pc 0x%llx\n", (unsigned long long)slot->pc);
	for (auto& p : t.p) fprintf(o, "param %s %lld\n", p.name, (long long)p.value);
	for (auto& f : t.f) fprintf(o, "fault %s %u %u\n", fault_names[f.kind], f.seq, f.value);
	for (auto& s : t.sw) fprintf(o, "switch thread %u at step %llu %s to thread %u\n", s.fiber, (unsigned long long)s.step, s.must ? "blocked" : "preempted", s.to);
	if (slot) { std::string n = slot->notes; size_t b = 0; while (b < n.size()) { size_t e = n.find('\n', b); if (e == std::string::npos) e = n.size(); fprintf(o, "# %s\n", n.substr(b, e - b).c_str()); b = e + 1; } }
	fclose(o);
}
static bool read_trace(const char* path, Trace& t) {
	FILE* f = fopen(path, "r"); if (!f) return false;
	static char line[8192]; t.explicit_mode = true;
	while (fgets(line, sizeof line, f)) {
		char a[64], b[64]; long long v; unsigned x, y; unsigned long long z; char* nl = strchr(line, '\n'); if (nl) *nl = 0;
		if (line[0] == '#') continue;
		if (sscanf(line, "property %63s", a) == 1) t.prop = a;
		else if (sscanf(line, "seed %llu", &z) == 1) t.seed = z;
		else if (sscanf(line, "salt %llu", &z) == 1) t.salt = z;
		else if (sscanf(line, "mode %63s", a) == 1) t.explicit_mode = !strcmp(a, "explicit");
		else if (sscanf(line, "class %63s", a) == 1) t.cls = a;
		else if (sscanf(line, "hash %llx", &z) == 1) t.hash = z;
		else if (!strncmp(line, "message ", 8)) t.msg = line + 8;
		else if (sscanf(line, "param %63s %lld", a, &v) == 2) { ParamRec r; memset(&r, 0, sizeof r); strncpy(r.name, a, 23); r.value = v; t.p.push_back(r); }
		else if (sscanf(line, "fault %63s %u %u", a, &x, &y) == 3) { for (int k = 0; k < F_KINDS; ++k) if (!strcmp(fault_names[k], a)) { FaultRec r = {(u32)k, x, y}; t.f.push_back(r); } }
		else if (sscanf(line, "switch thread %u at step %llu %63s to thread %u", &x, &z, b, &y) == 4) { SwitchRec r; memset(&r, 0, sizeof r); r.fiber = x; r.step = z; r.to = y; r.must = !strcmp(b, "blocked"); t.sw.push_back(r); }
	}
	fclose(f);
	return !t.prop.empty();
}

// ---------------------------------------------------------------------------------------------- minimisation
struct Shrinker {
	const Property* p; Slot* slot; Trace best; double deadline; int runs;
	bool fails(Trace& t) {
		if (now_s() > deadline) return false;
		++runs; Spec s = spec_of(t);
		return exec_run(p, s, slot) == R_VIOLATION && best.cls == slot->cls;
	}
	// Delta debugging over one list. What is dropped from the list is decided by the default: no switch, no fault.
	template <class T> void dd(std::vector<T> Trace::*list) {
		{ Trace t = best; (t.*list).clear(); if (!(best.*list).empty() && fails(t)) best = t; }
		for (size_t n = 2; !(best.*list).empty() && now_s() < deadline;) {
			size_t len = (best.*list).size(); if (n > len) n = len;
			bool cut = false;
			for (size_t i = 0; i < n && now_s() < deadline; ++i) {
				size_t b = len * i / n, e = len * (i + 1) / n; if (b >= e) continue;
				Trace t = best; (t.*list).erase((t.*list).begin() + b, (t.*list).begin() + e);
				if (fails(t)) { best = t; cut = true; break; }
			}
			if (cut) { n = n > 2 ? n - 1 : 2; continue; }
			if (n >= len) return;
			n *= 2;
		}
	}
	// Smaller workload, under any of a few schedules.
	void params(int salts) {
		for (int round = 0; round < 4; ++round) {
			bool any = false;
			for (size_t i = 0; i < best.p.size() && now_s() < deadline; ++i) {
				for (int step = 0; step < 12 && now_s() < deadline; ++step) {
					i64 v = best.p[i].value, lo = best.p[i].lo; if (v == lo) break;
					i64 tries[4] = {lo, lo + (v - lo) / 2, lo + (v - lo) * 3 / 4, v > lo ? v - 1 : v + 1}; bool ok = false;
					for (int k = 0; k < 4 && !ok; ++k) {
						if (tries[k] == v || (k && tries[k] == tries[k - 1])) continue;
						for (int s = 0; s < salts && !ok; ++s) {
							Trace t = best; t.p[i].value = tries[k]; t.salt = s ? best.salt + s : best.salt;
							if (fails(t)) { ok = true; best = t; 
								std::vector<ParamRec> q(slot->params, slot->params + slot->nparams); std::string nm = best.p[i].name; best.p = q; size_t at = 0; while (at < q.size() && nm != q[at].name) ++at; if (at == q.size()) { ok = false; k = 4; break; } i = at; best.p[i].value = tries[k]; }
						}
					}
					if (!ok) break;
					any = true;
				}
			}
			if (!any) break;
		}
	}
};

// ---------------------------------------------------------------------------------------------- check
static std::string jstr(const std::string& s) {
	std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}
static u64 params_hash(Slot* s) { u64 h = 99; for (u32 i = 0; i < s->nparams; ++i) { for (char* c = s->params[i].name; *c; ++c) fnv(h, *c); fnv(h, s->params[i].value); } return h; }

struct Opt { std::string id, tier, evidence, known, replays; u64 seed, runs; double wall; int workers; double shrink; };
static void worker(const Property* p, const Opt& o, Shared* sh, Slot* slot, int fd, double t_end) {
	Slot* again = new_slot();
	for (;;) {
		u64 i = __sync_fetch_and_add(&sh->next, 1);
		if (i >= o.runs || sh->stop || now_s() > t_end) break;
		Spec s; memset(&s, 0, sizeof s); s.seed = mix2(o.seed, i);
		Rec r; memset(&r, 0, sizeof r); r.index = i;
		r.result = exec_run(p, s, slot);
		r.hash = slot->hash; r.sched = slot->sched_hash; r.state = slot->state_hash; r.steps = slot->steps; r.switches = slot->switches; r.preempts = slot->preempts; r.sim_ns = slot->sim_ns; r.vfs = slot->vfs_ops; r.params = params_hash(slot);
		r.nontrivial = slot->nontrivial; r.strategy = slot->strategy; r.max_live = slot->max_live;
		memcpy(r.fired, slot->fired, sizeof r.fired); r.ncounters = slot->ncounters; memcpy(r.counters, slot->counters, sizeof r.counters);
		strncpy(r.cls, slot->cls, 63); strncpy(r.msg, slot->msg, 399);
		if (i % 64 == 5 && r.result == RUN_OK) { int k = exec_run(p, s, again); r.recheck = k == r.result && again->hash == slot->hash && again->state_hash == slot->state_hash ? 1 : 2; }
		if (r.result != RUN_OK && known_index(r.cls, r.msg) < 0) sh->stop = 1;
		size_t off = 0; while (off < sizeof r) { long k = syscall(SYS_write, fd, (char*)&r + off, sizeof r - off); if (k <= 0) _exit(1); off += k; }
	}
	_exit(0);
}

static int check(const Property* p, const Opt& o) {
	double t0 = now_s();
	load_known(o.known.c_str(), p->id);
	Shared* sh = (Shared*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pids; std::vector<int> fds;
	for (int w = 0; w < o.workers; ++w) {
		int pp[2]; if (pipe(pp)) return 3;
		Slot* slot = new_slot();
		pid_t pid = fork();
		if (pid == 0) { syscall(SYS_close, pp[0]); for (int f : fds) syscall(SYS_close, f); worker(p, o, sh, slot, pp[1], t0 + o.wall); }
		syscall(SYS_close, pp[1]); pids.push_back(pid); fds.push_back(pp[0]);
	}
	std::unordered_set<u64> scheds, states, cases; u64 runs = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, vfs = 0, rechecks = 0, mismatches = 0, broken = 0; double sim_s = 0; int max_live = 0;
	u64 fired[F_KINDS] = {0}, fired_runs[F_KINDS] = {0}; std::map<std::string, u64> counters; std::map<std::string, u64> strat; std::vector<u64> known_hits(g_known.size()); std::vector<Rec> bad; std::string broken_msg; std::vector<u64> sample_idx;
	std::set<u64> seed_set;
	// read all pipes
	std::vector<std::string> buf(fds.size()); std::vector<bool> open(fds.size(), true); size_t nopen = fds.size();
	for (int f : fds) syscall(SYS_fcntl, f, F_SETFL, O_NONBLOCK);
	auto take = [&](const Rec& r) {
		++runs; steps += r.steps; switches += r.switches; preempts += r.preempts; vfs += r.vfs; sim_s += r.sim_ns * 1e-9; max_live = std::max(max_live, r.max_live);
		seed_set.insert(r.index);
		scheds.insert(mix2(r.sched, r.params)); if (r.nontrivial) { ++nontriv; states.insert(r.state); cases.insert(mix2(mix2(r.sched, r.state), r.params)); if (sample_idx.size() < 3) sample_idx.push_back(r.index); }
		for (int k = 0; k < F_KINDS; ++k) { fired[k] += r.fired[k]; fired_runs[k] += r.fired[k] > 0; }
		for (u32 k = 0; k < r.ncounters; ++k) counters[r.counters[k].name] += r.counters[k].n;
		strat[strategy_name(r.strategy)]++;
		if (r.recheck) { ++rechecks; if (r.recheck == 2) { ++mismatches; say("sim: run %llu is not repeatable\n", (unsigned long long)r.index); } }
		if (r.result == R_BROKEN) { ++broken; broken_msg = r.msg; }
		if (r.result == R_VIOLATION) { int k = known_index(r.cls, r.msg); if (k >= 0) known_hits[k]++; else bad.push_back(r); }
	};
	while (nopen) {
		bool got = false;
		for (size_t w = 0; w < fds.size(); ++w) if (open[w]) {
			static char tmp[65536]; long k = syscall(SYS_read, fds[w], tmp, sizeof tmp);
			if (k > 0) { got = true; buf[w].append(tmp, k); size_t n = buf[w].size() / sizeof(Rec); for (size_t i = 0; i < n; ++i) { Rec r; memcpy(&r, buf[w].data() + i * sizeof(Rec), sizeof r); take(r); } buf[w].erase(0, n * sizeof(Rec)); }
			else if (k == 0) { open[w] = false; --nopen; got = true; }
		}
		if (!got) { struct timespec ts = {0, 2000000}; syscall(SYS_nanosleep, &ts, NULL); }
	}
	for (pid_t pid : pids) waitpid(pid, NULL, 0);
	double search_s = now_s() - t0;
	int rc = 0; std::string verdict; int nviol = 0;
	Slot* slot = new_slot(); Slot* slot2 = new_slot();
	if (!bad.empty()) {
		std::sort(bad.begin(), bad.end(), [](const Rec& a, const Rec& b) { return a.index < b.index; });
		const Rec& r = bad[0]; nviol = (int)bad.size();
		say("violation in run %llu (seed %llu): %s: %s\n", (unsigned long long)r.index, (unsigned long long)mix2(o.seed, r.index), r.cls, r.msg);
		// 1. same seed twice
		Trace t; t.prop = p->id; t.seed = mix2(o.seed, r.index); t.explicit_mode = false; t.cls = r.cls;
		Spec s = spec_of(t);
		int a = exec_run(p, s, slot); u64 h1 = slot->hash;
		if (a != R_VIOLATION || slot->hash != r.hash || strcmp(slot->cls, r.cls)) { say("sim: the violation did not repeat (hash %016llx, then %016llx, class '%s')\n", (unsigned long long)r.hash, (unsigned long long)h1, slot->cls); rc = 4; }
		else {
			Shrinker k; k.p = p; k.slot = slot2; k.best = t; k.deadline = now_s() + (!strcmp(r.cls, "hang") ? 0 : o.shrink); k.runs = 0;
			memcpy(slot2, slot, sizeof(Slot)); 
			k.best.p.assign(slot->params, slot->params + slot->nparams); k.best.msg = slot->msg; k.best.hash = slot->hash;
			// 2. a smaller workload; then the same as an explicit schedule, and less of it
			double t_shrink = now_s(); double full = k.deadline; k.deadline = t_shrink + (full - t_shrink) * 0.5; k.params(10); k.deadline = full;
			Spec ks = spec_of(k.best); exec_run(p, ks, slot);
			Trace e = k.best; e.explicit_mode = true; e.sw.assign(slot->sw, slot->sw + slot->nsw); e.f.assign(slot->f, slot->f + slot->nf); u64 hs = slot->hash;
			size_t sw0 = e.sw.size(), f0 = e.f.size();
			bool exact = false;
			if (!slot->sw_overflow && k.fails(e)) { exact = slot2->hash == hs; k.best = e; k.dd(&Trace::f); k.dd(&Trace::sw); k.dd(&Trace::f); }
			// 3. from the file, in a fresh process
			mkdir(o.replays.c_str(), 0777);
			char path[600]; snprintf(path, sizeof path, "%s/%s-%llu.replay", o.replays.c_str(), p->id, (unsigned long long)(t.seed % 100000000));
			Spec fs = spec_of(k.best); exec_run(p, fs, slot); k.best.hash = slot->hash; k.best.msg = slot->msg;
			write_trace(path, k.best, slot);
			say("minimised in %d runs: %zu -> %zu thread switches, %zu -> %zu faults%s\n", k.runs, sw0, k.best.sw.size(), f0, k.best.f.size(), !k.best.explicit_mode ? " (schedule kept as a seed)" : exact ? "" : " (first explicit replay took another path to the same failure)");
			for (auto& q : k.best.p) say("  %s=%lld", q.name, (long long)q.value);
			say("\n%s: %s\n%s", k.best.cls.c_str(), slot->msg, slot->notes);
			if (slot->pc) say("pc 0x%llx\n", (unsigned long long)slot->pc);
			char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
			pid_t pid = fork(); if (!pid) { int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); syscall(SYS_dup2, nul, 1); char* av[] = {self, (char*)"replay", path, NULL}; syscall(SYS_execve, self, av, environ); _exit(9); }
			int st; waitpid(pid, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { say("sim: the replay file did not reproduce in a fresh process (status %x)\n", st); rc = 4; }
			else { char v[800]; snprintf(v, sizeof v, "VIOLATION property=%s replay=%s\n", p->id, path); verdict = v; rc = 1; }
		}
	} else if (broken) { say("sim: %llu runs ended abnormally: %s\n", (unsigned long long)broken, broken_msg.c_str()); rc = 3; }
	for (size_t i = 0; i < g_known.size(); ++i) say("KNOWN-FINDING: property=%s %s (met %llu times in this run)\n", p->id, g_known[i].what.c_str(), (unsigned long long)known_hits[i]);
	// evidence
	double wall = now_s() - t0;
	std::string samples;
	for (u64 i : sample_idx) {
		Spec s; memset(&s, 0, sizeof s); s.seed = mix2(o.seed, i); exec_run(p, s, slot);
		std::string ps; for (u32 k = 0; k < slot->nparams; ++k) { char b[80]; snprintf(b, sizeof b, "%s%s=%lld", k ? " " : "", slot->params[k].name, (long long)slot->params[k].value); ps += b; }
		std::string fs; for (u32 k = 0; k < slot->nf && k < 20; ++k) { char b[80]; snprintf(b, sizeof b, "%s%s#%u=%u", k ? " " : "", fault_names[slot->f[k].kind], slot->f[k].seq, slot->f[k].value); fs += b; }
		std::string ss; for (u32 k = 0; k < slot->nsw && k < 12; ++k) { char b[80]; snprintf(b, sizeof b, "%s%u@%llu->%u", k ? " " : "", slot->sw[k].fiber, (unsigned long long)slot->sw[k].step, slot->sw[k].to); ss += b; }
		char b[400]; snprintf(b, sizeof b, "{\"run\": %llu, \"seed\": \"%llu\", \"strategy\": \"%s\", \"threads\": %d, \"steps\": %llu, \"switches\": %llu, ", (unsigned long long)i, (unsigned long long)s.seed, strategy_name(slot->strategy), slot->max_live, (unsigned long long)slot->steps, (unsigned long long)slot->switches);
		samples += (samples.empty() ? "" : ",\n    ") + std::string(b) + "\"parameters\": " + jstr(ps) + ", \"faults\": " + jstr(fs) + ", \"first_switches\": " + jstr(ss) + ", \"notes\": " + jstr(std::string(slot->notes).substr(0, 600)) + "}";
	}
	FILE* f = fopen(o.evidence.c_str(), "w");
	if (f) {
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", p->id, o.tier.c_str(), (unsigned long long)o.seed);
		fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n", (unsigned long long)runs, cases.size(), jstr(p->rule).c_str());
		fprintf(f, "  \"simulated_runs\": %llu,\n  \"seeds\": %zu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n", (unsigned long long)runs, seed_set.size(), runs / search_s * 3600, seed_set.size() / search_s * 3600, sim_s);
		fprintf(f, "  \"nontrivial_runs\": %llu,\n  \"distinct_interleavings\": %zu,\n  \"interleaving_measure\": \"hash of (parameters, sequence of thread switches with the step of the preempted thread, fired faults)\",\n  \"distinct_states\": %zu,\n  \"state_measure\": \"hash of the workload's observed outcome\",\n", (unsigned long long)nontriv, scheds.size(), states.size());
		fprintf(f, "  \"preemption_points_passed\": %llu,\n  \"thread_switches\": %llu,\n  \"preemptions\": %llu,\n  \"max_live_threads\": %d,\n  \"file_system_calls\": %llu,\n", (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)preempts, max_live, (unsigned long long)vfs);
		fprintf(f, "  \"faults_injected\": {"); bool first = true; for (int k = 0; k < F_KINDS; ++k) if (fired[k]) { fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", fault_names[k], (unsigned long long)fired[k], (unsigned long long)fired_runs[k]); first = false; }
		fprintf(f, "},\n  \"scheduling_strategies\": {"); first = true; for (auto& k : strat) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", k.first.c_str(), (unsigned long long)k.second); first = false; }
		fprintf(f, "},\n  \"counters\": {"); first = true; for (auto& k : counters) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
		fprintf(f, "},\n  \"repeat_checks\": {\"runs_executed_twice\": %llu, \"different\": %llu},\n", (unsigned long long)rechecks, (unsigned long long)mismatches);
		fprintf(f, "  \"real_code\": %s,\n  \"simulated\": %s,\n  \"samples\": [\n    %s\n  ]\n },\n", jstr(p->real_code).c_str(), jstr(p->stubs).c_str(), samples.c_str());
		fprintf(f, " \"assumptions\": [\"sequentially consistent memory: threads interleave at every memory access of repository code, but stores are not reordered\", \"compiled by clang at -O1 with access instrumentation; library code (libc++, glibc) runs between two preemption points\"],\n");
		fprintf(f, " \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, nviol);
		fclose(f);
	}
	say("%s %s: %llu runs, %zu distinct interleavings, %llu non-trivial (%zu distinct), %.1f s, %.0f runs/h, repeat mismatches %llu\n", p->id, o.tier.c_str(), (unsigned long long)runs, scheds.size(), (unsigned long long)nontriv, cases.size(), wall, runs / search_s * 3600, (unsigned long long)mismatches);
	if (!verdict.empty()) say("%s", verdict.c_str());
	return rc;
}

static void print_run(const Property* p, Slot* slot, int r) {
	say("%s: %s %s steps %llu switches %llu preempts %llu threads %d strategy %s nontrivial %d hash %016llx state %016llx\n", p->id, r == RUN_OK ? "ok" : r == R_VIOLATION ? "VIOLATION" : "BROKEN", slot->cls, (unsigned long long)slot->steps, (unsigned long long)slot->switches, (unsigned long long)slot->preempts, slot->max_live, strategy_name(slot->strategy), slot->nontrivial, (unsigned long long)slot->hash, (unsigned long long)slot->state_hash);
	for (u32 k = 0; k < slot->nparams; ++k) say("  %s=%lld", slot->params[k].name, (long long)slot->params[k].value); say("\n");
	for (int k = 0; k < F_KINDS; ++k) if (slot->fired[k]) say("  %s:%llu", fault_names[k], (unsigned long long)slot->fired[k]); say("\n");
	for (u32 k = 0; k < slot->ncounters; ++k) say("  [%s %llu]", slot->counters[k].name, (unsigned long long)slot->counters[k].n); say("\n");
	if (slot->notes_len) say("%s", slot->notes);
	if (r != RUN_OK) say("%s: %s\n", slot->cls, slot->msg);
	if (slot->pc) say("pc 0x%llx\n", (unsigned long long)slot->pc);
}
}
using namespace sim;

int main(int argc, char** argv) {
	if (!getenv("SIM_NOASLR")) { unsigned long per = (unsigned long)syscall(SYS_personality, 0xffffffff); if (per != (unsigned long)-1 && !(per & ADDR_NO_RANDOMIZE)) { setenv("SIM_NOASLR", "1", 1); if (syscall(SYS_personality, per | ADDR_NO_RANDOMIZE) != -1) { char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n > 0) { self[n] = 0; syscall(SYS_execve, self, argv, environ); } } } }
	setenv("TZ", "UTC", 1); tzset();
	core_init();
	std::string mode = argc > 1 ? argv[1] : "list";
	if (mode == "list") { for (int i = 0; i < g_nprops; ++i) say("%s %u %u\n", g_props[i].id, g_props[i].quick_runs, g_props[i].thorough_runs); return 0; }
	if (mode == "one" && argc >= 4) {      // one ID SEED [name=value ...]   (SEED or BASE:INDEX)
		const Property* p = find(argv[2]); if (!p) return 3;
		Slot* s = new_slot(); Spec sp; memset(&sp, 0, sizeof sp);
		char* c = strchr(argv[3], ':'); sp.seed = c ? mix2(strtoull(argv[3], NULL, 10), strtoull(c + 1, NULL, 10)) : strtoull(argv[3], NULL, 10);
		std::vector<ParamRec> ps; for (int i = 4; i < argc; ++i) { char* e = strchr(argv[i], '='); if (!e) continue; ParamRec r; memset(&r, 0, sizeof r); memcpy(r.name, argv[i], std::min<size_t>(23, e - argv[i])); r.value = atoll(e + 1); ps.push_back(r); }
		sp.np = ps.size(); sp.p = ps.data(); sp.verbose = getenv("SIM_VERBOSE") != NULL;
		int r = exec_run(p, sp, s); print_run(p, s, r); return r;
	}
	if (mode == "replay" && argc >= 3) {
		Trace t; if (!read_trace(argv[2], t)) { say("sim: cannot read %s\n", argv[2]); return 3; }
		const Property* p = find(t.prop.c_str()); if (!p) { say("sim: no such property %s\n", t.prop.c_str()); return 3; }
		Slot* s = new_slot(); Spec sp = spec_of(t); int r = exec_run(p, sp, s); print_run(p, s, r);
		if (r == R_VIOLATION && t.cls == s->cls) {
			bool same = s->hash == t.hash; say("replay: the violation happened again%s\n", same ? ", with the same trace" : ", with another trace (the code has changed?)");
			return 1;
		}
		return r == RUN_OK ? 0 : 4;
	}
	if (mode == "check" && argc >= 3) {
		Opt o; o.id = argv[2]; o.tier = "quick"; o.seed = 1; o.runs = 0; o.wall = 600; o.workers = 8; o.shrink = 60; o.evidence = "evidence.json"; o.known = "/dev/null"; o.replays = "replays";
		for (int i = 3; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1]; if (a == "--tier") o.tier = v; if (a == "--seed") o.seed = strtoull(v.c_str(), NULL, 10); if (a == "--runs") o.runs = strtoull(v.c_str(), NULL, 10); if (a == "--wall") o.wall = atof(v.c_str()); if (a == "--workers") o.workers = atoi(v.c_str()); if (a == "--evidence") o.evidence = v; if (a == "--known") o.known = v; if (a == "--replays") o.replays = v; if (a == "--shrink") o.shrink = atof(v.c_str()); }
		const Property* p = find(o.id.c_str()); if (!p) { say("sim: no such property %s\n", o.id.c_str()); return 3; }
		if (!o.runs) o.runs = o.tier == "thorough" ? p->thorough_runs : p->quick_runs;
		return check(p, o);
	}
	say("usage: check ID | one ID SEED | replay FILE | list\n");
	return 3;
}
