// C09: the file logger keeps its records through rotation, clock steps, faults and crashes.
#include "common.h"
#include <algorithm>
using namespace sim;
namespace {
template <class T> struct Reg {
	struct W { u64 inv, ret; T v; }; std::vector<W> w;
	void init(T v) { W x; x.inv = x.ret = 0; x.v = v; w.push_back(x); }
	size_t begin(u64 inv, T v) { W x; x.inv = inv; x.ret = ~0ull; x.v = v; w.push_back(x); return w.size() - 1; }
	void range(u64 inv, u64 ret, T& lo, T& hi) const {
		bool any = false;
		for (size_t i = 0; i < w.size(); ++i) {
			if (w[i].inv > ret) continue; bool gone = false;
			for (size_t k = 0; k < w.size() && !gone; ++k) if (k != i && w[k].inv > w[i].ret && w[k].ret < inv) gone = true;
			if (gone) continue;
			if (!any) { lo = hi = w[i].v; any = true; } else { lo = std::min(lo, w[i].v); hi = std::max(hi, w[i].v); }
		}
	}
};
struct File { std::string path, dir; bool removed, overwritten, unfail; std::string kept; u64 call; };
struct Rec { int id, thread, level, line; std::string tag, text, body; u64 inv, ret; bool healthy, done; };
struct Gone { size_t file; u64 inv; };
struct World {
	log_file_logger* log; u64 clock; int calls; bool same, any_long;
	std::vector<File> files; std::map<std::string, int> sessions; std::map<std::string, int> unfails; std::vector<std::pair<u64, u64> > dirs_set;
	Reg<int> maxrec, maxfile; std::vector<Rec*> recs; std::vector<Gone> gone; u64 last_new;
};
World* W;
bool logfile(const std::string& p) { return p.size() > 4 && p.compare(p.size() - 4, 4, ".txt") == 0; }
std::string dir_of(const std::string& p) { return p.substr(0, p.rfind('/') + 1); }
void watch(char ev, const char* path) {
	std::string p(path);
	if (ev == 'C') { File f; f.path = p; f.dir = dir_of(p); f.removed = f.overwritten = f.unfail = false; f.call = 0; W->files.push_back(f); W->last_new = ++W->clock; return; }
	size_t at = W->files.size(); for (size_t i = 0; i < W->files.size(); ++i) if (!W->files[i].removed && !W->files[i].overwritten && W->files[i].path == p) at = i;
	if (at == W->files.size()) { if (ev == 'R') violation("removed-foreign", "the logger removed '%s', which it did not write", path); return; }
	File& f = W->files[at];
	if (ev == 'T') { if (vfs::size(path) > 0) { f.overwritten = true; File g; g.path = p; g.dir = f.dir; g.removed = g.overwritten = g.unfail = false; W->files.push_back(g); } }
	else if (ev == 'U') { f.unfail = true; W->unfails[f.dir]++; }
	else if (ev == 'R') {
		if (!W->same) for (size_t i = 0; i < at; ++i) if (W->files[i].dir == f.dir && !W->files[i].removed && !W->files[i].overwritten && !W->files[i].unfail) violation("wrong-file-removed", "'%s' was removed before the older '%s'", path, W->files[i].path.c_str());
		f.removed = true; f.kept.assign((const char*)vfs::data(path), vfs::size(path)); Gone g; g.file = at; g.inv = ++W->clock; W->gone.push_back(g);
	}
}
std::string universe(std::vector<size_t>* starts = NULL) {
	std::string s; for (size_t i = 0; i < W->files.size(); ++i) { if (starts) starts->push_back(s.size()); File& f = W->files[i]; if (f.removed) s += f.kept; else if (!f.overwritten && vfs::size(f.path.c_str()) > 0) s.append((const char*)vfs::data(f.path.c_str()), vfs::size(f.path.c_str())); }
	return s;
}
void check_present(const Rec* r, const std::string& u, const char* when) {
	size_t p = u.find(r->body); if (p == std::string::npos) {
		char b[32]; snprintf(b, sizeof b, "#%d#", r->id); size_t q = u.find(b);
		violation("lost", "record #%d (%zu bytes, logged while the disk was healthy) is not on disk %s%s", r->id, r->text.size(), when, q != std::string::npos ? " in one piece" : "");
	}
	if (u.find(r->body, p + 1) != std::string::npos) violation("duplicated", "record #%d is on disk twice %s", r->id, when);
}
void log_one(Rec* r, bool steady) {
	static const char* const LEV[] = {"debug", "info", "warning", "error"};
	u64 f0 = vfs::failures(); ++W->calls; size_t g0 = W->gone.size();
	r->inv = ++W->clock;
	{ Sut s; std::string a(LEV[r->level]), b(r->tag), c(r->text); ((log_logger*)W->log)->print(a, b, c, "src/file.cpp", r->line); }
	r->ret = ++W->clock; --W->calls; r->done = true;
	if (crashed() && !steady) return;
	r->healthy = vfs::failures() == f0;
	int lo, hi; W->maxfile.range(r->inv, r->ret, lo, hi);
	for (size_t i = g0; i < W->gone.size(); ++i) {
		File& f = W->files[W->gone[i].file]; int younger = 0; for (size_t k = W->gone[i].file + 1; k < W->files.size(); ++k) if (W->files[k].dir == f.dir) ++younger;
		if (W->calls == 0 && younger < lo) violation("removed-too-early", "'%s' and its records were removed although only %d files were begun after it (%d are to be kept)", f.path.c_str(), younger, lo);
	}
	if (W->last_new > r->inv) {
		// this call (or a concurrent one) began a file
		std::map<std::string, int> live; for (size_t i = 0; i < W->files.size(); ++i) if (!W->files[i].removed && !W->files[i].overwritten) live[W->files[i].dir]++;
		std::string d = W->files.back().dir; int ns = std::max(1, W->sessions[d]); if (ns > 1) { hi = 0; for (size_t i = 0; i < W->maxfile.w.size(); ++i) hi = std::max(hi, W->maxfile.w[i].v); }
		if (!W->calls && live[d] > hi * ns + W->unfails[d] + (crashed() ? 1 : 0)) violation("too-many-files", "%d log files are kept in '%s', the limit is %d", live[d], d.c_str(), hi);
	}
	if (r->healthy) check_present(r, universe(), "when the call returns");
}
int crash_at;
bool decide() { return crash_at > 0 && --crash_at == 0; }
Rec* draw_rec(int thread, int textmode) {
	static int id; if (W->recs.empty()) id = 0;
	Rec* r = new Rec(); r->id = ++id; r->thread = thread; r->level = rng().below(4); r->line = rng().below(1000); static const char* const T[] = {"", "net", "a b", "performanc"}; r->tag = T[rng().below(4)];
	char b[64]; snprintf(b, sizeof b, "#%d#", r->id); r->text = b;
	int k = textmode == 4 ? rng().below(4) : textmode;
	if (k == 1) { int n = rng().below(300); for (int i = 0; i < n; ++i) r->text += (char)(1 + rng().below(255)); }
	else if (k == 2) { int n = 3000 + rng().below(4000); W->any_long = true; for (int i = 0; i < n; ++i) r->text += (char)('a' + (i + r->id) % 26); }
	else if (k == 3) { int n = rng().below(20000); W->any_long = true; for (int i = 0; i < n; ++i) r->text += (char)(' ' + (i * 7 + r->id) % 90); }
	else r->text += "%s%d hello";
	r->body = "<" + r->tag + "> in line " + std::to_string(r->line) + " of <file.cpp>, " + r->text + "\n"; r->healthy = r->done = false; r->inv = r->ret = 0;
	W->recs.push_back(r); return r;
}
const char* const DIRS[] = {"log/", "", "a/b/c/", "/var/log/x/", "deep/er/"};
std::string absdir(const std::string& d) { return d.empty() || d[0] != '/' ? "/" + d : d; }

void run() {
	World w; W = &w; w.log = NULL; w.clock = 0; w.calls = 0; w.same = false; w.any_long = false; w.last_new = 0;
	vfs::reset(); vfs::watch(watch);
	int nt = (int)param("threads", 1, 4), per = (int)param("records", 1, 24), maxrec = (int)param("max_records", 1, 6), maxfile = (int)param("max_files", 1, 4), textmode = (int)param("textmode", 0, 4), dir = (int)param("dir", 0, 4), ctl = (int)param("controller", 0, 8), restarts = (int)param("restarts", 0, 2), many = (int)param("many_files", 0, 15) == 15, faulty = (int)param("faulty", 0, 2), clockmode = (int)param("clock", 0, 3);
	if (many) { maxfile = 8 + rng().below(14); maxrec = 1 + rng().below(3); restarts = restarts ? 1 + rng().below(6) : 0; }
	if (nt * per > 48) per = 48 / nt;
	if (textmode >= 2 && nt * per > 24) per = 24 / nt;
	if (clockmode == 1) set_auto_advance(1000, 400000000); else if (clockmode == 2) set_auto_advance(0, 3000000000ll);
	bool crash = faulty == 2; std::string cur = absdir(DIRS[dir]); bool crashed_once = false;
	w.maxrec.init(maxrec); w.maxfile.init(maxfile); w.sessions[cur] = 1;
	struct Ctl { static void rates(int k) { if (!k) vfs::set_faults(0, 0, 0, 0, 0, 0); else { u32 a = rng().below(4) ? 0 : 1000 >> rng().below(6), b = rng().below(3) ? 0 : 600 >> rng().below(6), c = rng().below(3) ? 0 : 500, d = rng().below(3) ? 0 : 700; vfs::set_faults(a, b, 0, c, 0, d); } } };
	{ std::string d(DIRS[dir]); int bad = faulty == 1 && param("bad_start", 0, 3) == 3; if (bad) vfs::set_faults(0, 0, 0, 0, 0, 1000); { Sut s; w.log = new log_file_logger(d, maxrec, maxfile); } vfs::set_faults(0, 0, 0, 0, 0, 0); }
	crash_at = crash ? (int)param("crash_at", 1, 200) : 0;
	std::vector<std::vector<Rec*> > plan(nt); for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) plan[t].push_back(draw_rec(t, textmode));
	if (crash) set_crash_hook(decide);
	Threads th;
	for (int t = 0; t < nt; ++t) th.start([&plan, t] { for (size_t k = 0; k < plan[t].size(); ++k) log_one(plan[t][k], false); });
	if (ctl) th.start([&] {
		for (int i = 0; i < ctl * 2; ++i) {
			int what = rng().below(faulty ? 8 : 5); u64 inv = ++w.clock;
			int spin = rng().below(40); for (int k = 0; k < spin; ++k) yield_point();
			if (what == 0) { int v = 1 + rng().below(6); size_t at = w.maxrec.begin(inv, v); { Sut s; w.log->set_file_max_log_number(v); } w.maxrec.w[at].ret = ++w.clock; }
			else if (what == 1) { int v = 1 + rng().below(many ? 16 : 4); size_t at = w.maxfile.begin(inv, v); { Sut s; w.log->set_max_file_number(v); } w.maxfile.w[at].ret = ++w.clock; }
			else if (what == 2) { static const i64 st[] = {-3600, -60, -1, 1, 1, 1, 60, 86400}; step_wall(st[rng().below(8)] * 1000000000ll); }
			else if (what == 3) { advance_ns(1000000ll * rng().below(1500)); }
			else if (what == 4 && rng().chance(1, 2)) {
				std::string d(DIRS[rng().below(5)]), ad = absdir(d); if (w.sessions[ad]) w.same = true; w.sessions[ad]++; w.dirs_set.push_back(std::make_pair(inv, ~0ull)); size_t at = w.dirs_set.size() - 1;
				{ Sut s; w.log->set_dir(d); } w.dirs_set[at].second = ++w.clock;
			}
			else if (what == 5) Ctl::rates(1);
			else if (what == 6) Ctl::rates(0);
			else if (what == 7) vfs::set_full(rng().chance(1, 2));
		}
	});
	th.join();
	set_crash_hook(NULL);
	u64 h = 3; bool clean = vfs::failures() == 0;
	for (int round = 0; round <= restarts; ++round) {
		bool died = crashed() && !crashed_once; if (died) crashed_once = true;
		{ std::string u = universe(); for (size_t i = 0; i < w.recs.size(); ++i) if (w.recs[i]->healthy) check_present(w.recs[i], u, died ? "after the crash" : "at the end"); }
		// the disk is healthy again
		vfs::set_faults(0, 0, 0, 0, 0, 0); vfs::set_full(false);
		w.calls = 0;
		if (round || crashed()) {
			if (!died && round) { Sut s; delete w.log; }           // after a crash the old object is simply gone
			std::string d(DIRS[dir]), ad = absdir(d); w.same = true; w.sessions[ad]++; w.dirs_set.push_back(std::make_pair(++w.clock, ++w.clock));
			{ Sut s; w.log = new log_file_logger(d, maxrec, maxfile); }
			Reg<int> a, b; a.init(maxrec); b.init(maxfile); size_t k = w.maxrec.begin(++w.clock, maxrec); w.maxrec.w[k].ret = ++w.clock; k = w.maxfile.begin(++w.clock, maxfile); w.maxfile.w[k].ret = ++w.clock;
		}
		int n = 1 + rng().below(8); for (int i = 0; i < n; ++i) { Rec* r = draw_rec(100 + round, textmode); log_one(r, true); if (!r->healthy) violation("harness", "failure on a healthy disk"); }
	}
	{ Sut s; delete w.log; }
	std::vector<size_t> starts; std::string u = universe(&starts);
	size_t total = 0; std::vector<std::pair<size_t, Rec*> > at;
	static const char* const LEV[] = {"debug", "info", "warning", "error"};
	int healthy = 0;
	for (size_t i = 0; i < w.recs.size(); ++i) {
		Rec* r = w.recs[i]; if (r->healthy) { check_present(r, u, "at the end"); ++healthy; }
		size_t p = u.find(r->body); if (p == std::string::npos) continue;
		std::string head = std::string("[") + LEV[r->level] + "] ["; size_t q = u.rfind(head, p);
		if (q == std::string::npos || p - q > 120 || u.compare(p - 2, 2, "] ") != 0) { if (r->healthy) violation("torn-record", "record #%d has no intact header", r->id); continue; }
		total += p + r->body.size() - q; at.push_back(std::make_pair(q, r));
	}
	std::sort(at.begin(), at.end());
	if (clean && !crashed_once && total != u.size()) violation("garbage", "the files hold %zu bytes, the records %zu", u.size(), total);
	for (size_t i = 0; i < at.size(); ++i) for (size_t k = i + 1; k < at.size(); ++k) if (at[i].second->healthy && at[k].second->healthy && at[k].second->ret < at[i].second->inv) violation("reordered", "record #%d was over before #%d began, but comes after it", at[k].second->id, at[i].second->id);
	// records per file
	std::vector<int> cnt(w.files.size()); std::vector<Rec*> first(w.files.size()), last(w.files.size());
	for (size_t i = 0; i < at.size(); ++i) {
		size_t f = std::upper_bound(starts.begin(), starts.end(), at[i].first) - starts.begin() - 1; while (f + 1 < starts.size() && starts[f + 1] <= at[i].first) ++f;
		Rec* r = at[i].second; int lo, hi; if (!r->done) continue; w.maxrec.range(r->inv, r->ret, lo, hi);
		if (cnt[f] >= hi) violation("file-too-long", "record #%d was added to '%s', which already held %d (limit %d)", r->id, w.files[f].path.c_str(), cnt[f], hi);
		if (!cnt[f]) first[f] = r; last[f] = r; cnt[f]++; h = mix2(h, f * 1000 + r->id);
	}
	if (clean && !crashed_once && !w.any_long) for (size_t f = 1; f < w.files.size(); ++f) if (cnt[f] && cnt[f - 1]) {
		int lo, hi; w.maxrec.range(first[f]->inv, first[f]->ret, lo, hi); bool sw = false; for (size_t k = 0; k < w.dirs_set.size(); ++k) if (w.dirs_set[k].second > last[f - 1]->inv && w.dirs_set[k].first < first[f]->ret) sw = true;
		if (!sw && cnt[f - 1] < lo) violation("rotated-early", "'%s' was begun although '%s' held only %d records (limit %d)", w.files[f].path.c_str(), w.files[f - 1].path.c_str(), cnt[f - 1], lo);
	}
	if (!crashed_once && vfs::open_files()) violation("file-left-open", "%d files are still open after the logger is gone", vfs::open_files());
	heap_check();
	count("records", w.recs.size()); count("healthy_records", healthy); count("files", w.files.size()); count("removed_files", w.gone.size()); count("crashes", crashed_once); count("clock_second_clashes", 0);
	if (healthy) nontrivial(h);
	note("%d threads, %zu records (%d healthy), %zu files, %zu rotated away, %llu failures, crash %d", nt, w.recs.size(), healthy, w.files.size(), w.gone.size(), vfs::failures(), (int)crashed_once);
}
Registrar r({"C09", run, 40000, 1500000,
	"one run: 1-4 simulated threads log up to 48 records through a log_file_logger with small limits, while a controller changes the limits and the directory, steps the clock, makes open/write/close/mkdir/unlink fail, fills the disk, or the process crashes at a chosen system call; then the disk heals and 1-3 further loggers go on in the same directory. The record stream (all files in order of creation, contents of removed ones kept by the checker) is compared with what was logged. Non-trivial: at least one record logged while the disk was healthy was found intact.",
	"basiclog/src/basiclog.cpp (log_file_logger), sys_path.cpp, sys_thread_lock.cpp, string helpers (real code); glibc stdio (real)", "disk, wall clock, threads, mutexes, heap, process crash (simulated)"});
}
