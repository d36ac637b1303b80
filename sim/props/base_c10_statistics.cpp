// C10: the shared statistics (sys_alg_analyzer) are linearizable and lose no update.
#include "common.h"
#include <sys_alg_analyzer.h>
using namespace sim;
using basicsys::sys_alg_analyzer;

namespace {
struct Op { int kind; int tag; long long v; u64 inv, ret; };   // 0 set 1 add 2 max
struct World { std::vector<std::vector<Op> > plan; u64 clock; };

// All values some order of the remaining updates can lead to.
struct Lin {
	std::vector<std::vector<Op> > ops; std::map<std::vector<int>, std::set<std::pair<bool, long long> > > memo;
	bool has0; long long v0;
	void explore(std::vector<int>& pos, bool has, long long v, std::set<std::pair<bool, long long> >& res, std::set<std::pair<std::vector<int>, std::pair<bool, long long> > >& seen) {
		if (!seen.insert(std::make_pair(pos, std::make_pair(has, v))).second) return;
		bool end = true;
		u64 minret = ~0ull; for (size_t t = 0; t < ops.size(); ++t) if (pos[t] < (int)ops[t].size()) minret = std::min(minret, ops[t][pos[t]].ret);
		for (size_t t = 0; t < ops.size(); ++t) if (pos[t] < (int)ops[t].size()) {
			end = false; const Op& o = ops[t][pos[t]];
			if (o.inv > minret) continue;       // another pending update was over before this one began
			bool h = true; long long x = o.kind == 0 || !has ? o.v : o.kind == 1 ? v + o.v : std::max(v, o.v);
			++pos[t]; explore(pos, h, x, res, seen); --pos[t];
		}
		if (end) res.insert(std::make_pair(has, v));
	}
};

void body(World* w, int t) {
	for (size_t i = 0; i < w->plan[t].size(); ++i) {
		Op& o = w->plan[t][i];
		std::string tag = "tag" + std::to_string(o.tag);
		o.inv = ++w->clock;
		{
			Sut s;
			if (o.kind == 0) sys_alg_analyzer::set(tag, o.v); else if (o.kind == 1) sys_alg_analyzer::add(tag, o.v); else sys_alg_analyzer::max_(tag, o.v);
		}
		o.ret = ++w->clock;
	}
}

std::map<std::string, long long> report(CaptureLogger* log) {
	size_t before = log->out.size();
	{ Sut s; sys_alg_analyzer::release(); }
	std::string text; for (size_t i = before; i < log->out.size(); ++i) text += log->out[i];
	std::map<std::string, long long> m;
	for (size_t p = text.find("tag"); p != std::string::npos; p = text.find("tag", p + 1)) {
		if (p && (isalnum(text[p - 1]) || text[p - 1] == '_')) continue;
		size_t e = p + 3; while (e < text.size() && isdigit(text[e])) ++e;
		if (e == p + 3) continue;
		size_t v = e; while (v < text.size() && text[v] != '-' && !isdigit(text[v])) ++v;
		m[text.substr(p, e - p)] = atoll(text.c_str() + v);
	}
	return m;
}

void run() {
	int nt = (int)param("threads", 2, 6), ntags = (int)param("tags", 1, 3), per = (int)param("ops", 1, 5), epochs = (int)param("epochs", 1, 3), mode = (int)param("mode", 0, 3); if (param("many_tags", 0, 9) == 9) { ntags += 3 + rng().below(24); per *= 3; }
	if (mode >= 2) { while (nt > 2 && nt * per > 12) --nt; while (per > 1 && nt * per > 12) --per; }
	CaptureLogger* log = new CaptureLogger(); log->yields = false;
	basiclog::log_logger::init_logger(log);
	std::map<int, std::pair<bool, long long> > base;      // before this epoch
	u64 h = 17;
	// before initialisation: ignored
	if (param("early", 0, 1)) { Sut s; sys_alg_analyzer::set("tag0", 424242); sys_alg_analyzer::add("tag0", 1); sys_alg_analyzer::max_("tag0", 1 << 30); }
	for (int e = 0; e < epochs; ++e) {
		World w; w.clock = 0; w.plan.resize(nt);
		long long big = 1;
		for (int t = 0; t < nt; ++t) for (int i = 0; i < per; ++i) {
			Op o; o.inv = o.ret = 0; o.tag = rng().below(ntags);
			if (mode == 0) o.kind = 1; else if (mode == 1) o.kind = o.tag & 1 ? 1 : 2; else o.kind = rng().below(3);
			// every addition has a digit of its own, so that a lost one shows
			if (o.kind == 1) { o.v = big; big = big < (1ll << 40) ? big * 3 : 1; if (rng().chance(1, 6)) o.v = -o.v; } else o.v = rng().below(8) ? rng().range(-1000000, 1000000) : rng().range(-(1ll << 52), 1ll << 52);
			w.plan[t].push_back(o);
		}
		{ Sut s; sys_alg_analyzer::init(); }
		Threads th; for (int t = 0; t < nt; ++t) th.start([&w, t] { body(&w, t); });
		th.join();
		std::map<std::string, long long> rep = report(log);
		if (param("late", 0, 1)) { Sut s; sys_alg_analyzer::set("tag0", 777777); sys_alg_analyzer::add("tag1", 5); sys_alg_analyzer::max_("tag2", 1 << 30); }
		for (int tag = 0; tag < ntags; ++tag) {
			Lin l; l.ops.resize(nt); int n = 0; bool only_add = true;
			for (int t = 0; t < nt; ++t) for (size_t i = 0; i < w.plan[t].size(); ++i) if (w.plan[t][i].tag == tag) { l.ops[t].push_back(w.plan[t][i]); ++n; if (w.plan[t][i].kind != 1) only_add = false; }
			std::string name = "tag" + std::to_string(tag);
			bool has = rep.count(name) > 0; long long got = has ? rep[name] : 0;
			std::set<std::pair<bool, long long> > ok;
			if (only_add) { bool hb = base[tag].first; long long v = base[tag].second; for (int t = 0; t < nt; ++t) for (size_t i = 0; i < l.ops[t].size(); ++i) { v += l.ops[t][i].v; hb = true; } ok.insert(std::make_pair(hb, v)); }
			else { std::vector<int> pos(nt, 0); std::set<std::pair<std::vector<int>, std::pair<bool, long long> > > seen; l.explore(pos, base[tag].first, base[tag].second, ok, seen); }
			if (!ok.count(std::make_pair(has, got))) {
				std::string hist; for (int t = 0; t < nt; ++t) for (size_t i = 0; i < l.ops[t].size(); ++i) { const Op& o = l.ops[t][i]; char b[120]; snprintf(b, sizeof b, " thread %d [%llu,%llu] %s %lld;", t, (unsigned long long)o.inv, (unsigned long long)o.ret, o.kind == 0 ? "set" : o.kind == 1 ? "add" : "max", o.v); hist += b; }
				std::string exp; int k = 0; for (auto& x : ok) if (k++ < 6) exp += (x.first ? std::to_string(x.second) : std::string("absent")) + " ";
				violation("not-linearizable", "%s: reported %s, but the updates can only lead to %s; before: %s; updates:%s", name.c_str(), has ? std::to_string(got).c_str() : "nothing", exp.c_str(), base[tag].first ? std::to_string(base[tag].second).c_str() : "absent", hist.c_str());
			}
			base[tag] = std::make_pair(has, got); h = mix2(h, got);
			count("updates", n);
		}
		for (auto& kv : rep) { int tg = atoi(kv.first.c_str() + 3); if (tg >= ntags) violation("phantom-tag", "tag %s is reported but was never updated between init and release", kv.first.c_str()); }
	}
	nontrivial(h);
	note("%d threads, %d tags, %d updates each, %d epochs", nt, ntags, per, epochs);
}
Registrar r({"C10", run, 12000, 400000,
	"one run: 2-6 simulated threads issue set/add/max updates on 1-3 tags, in 1-3 init..release epochs; every memory access of the repository's code is a preemption point. The reported totals must be reachable by a linearization (program order and real-time order kept) of the updates. A run is non-trivial if all totals were compared.",
	"basicsys/src/sys_alg_analyzer.cpp, sys_thread_lock.cpp, sys_strcombine.cpp, basiclog/src/basiclog.cpp (real code)", "threads and mutexes (simulated), heap (simulated), log output (captured)"});
}
