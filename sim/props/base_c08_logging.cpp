// C08: concurrent logging through one logger: exactly once, intact, in the order of each thread, filters and levels kept.
#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
#include <memory>
using namespace sim;
namespace {
enum { DBG, INF, WRN, ERR, NLEV };
const char* const LEV[NLEV] = {"debug", "info", "warning", "error"};
struct Msg { int id; int level; bool gated; std::string tag, text, path; int line; bool free_line; u64 inv, ret; i64 w0, w1; bool seen; };
struct Write { u64 inv, ret; bool flag; std::vector<std::string> filter; };
struct Reg { std::vector<Write> w; };           // first entry: the initial value
struct World {
	log_logger* log; u64 clock; bool dirs; bool steps;
	Reg flag[NLEV], filter; std::vector<Msg*> msgs; std::vector<std::vector<Msg*> > plan;
	std::vector<std::string> bad;
};
// writes whose value may be seen by a read in [inv, ret]
std::vector<const Write*> possible(const Reg& r, u64 inv, u64 ret) {
	std::vector<const Write*> o;
	for (size_t i = 0; i < r.w.size(); ++i) {
		const Write& a = r.w[i]; if (a.inv > ret) continue;
		bool gone = false; for (size_t k = 0; k < r.w.size() && !gone; ++k) if (k != i && r.w[k].inv > a.ret && r.w[k].ret < inv) gone = true;
		if (!gone) o.push_back(&a);
	}
	return o;
}
bool has(const std::vector<std::string>& v, const std::string& s) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) return true; return false; }
// the wrapper around the real logger, with the macros of basiclog.h
void issue(World* w, Msg* m, int how) {
	m->inv = ++w->clock; m->w0 = wall_ns();
	{
		Sut s; std::string tag(m->tag), text(m->text), path(m->path);
		if (!m->gated) w->log->print(LEV[m->level], tag, text, path, m->line);
		else if (how == 7) { basiclog_assert_message(tag, text.empty(), text); }
		else switch (m->level) {
			case DBG: if (tag.empty()) basiclog_debug2(text); else basiclog_debug(tag, text); break;
			case INF: if (tag.empty()) basiclog_info2(text); else basiclog_info(tag, text.substr(0, 3) << text.substr(3)); break;
			case WRN: if (tag.empty()) basiclog_warning2(text); else basiclog_warning(tag, text); break;
			default: if (tag.empty()) basiclog_error2(text); else basiclog_error(tag, text); break;
		}
	}
	m->ret = ++w->clock; m->w1 = wall_ns();
}
struct ConsoleCatch { int fd, old; ConsoleCatch() : fd(-1), old(-1) {}
	void begin() { fd = memfd_create("console", 0); old = dup(1); dup2(fd, 1); }
	std::string end() { fflush(stdout); std::cout.flush(); std::wcout.flush(); dup2(old, 1); ::close(old); std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); lseek(fd, 0, SEEK_SET); size_t o = 0; while (o < (size_t)n) { ssize_t k = ::read(fd, &s[o], n - o); if (k <= 0) break; o += k; } ::close(fd); return s; }
};
const char* const TAGS[] = {"", "a", "net", "performance", "x<y> in line 3", "100%s", "a ", "tag with \xc3\xa9", "A", "pe", "performance ", "%n%n"};
std::string draw_tag(int mode) { std::string t = TAGS[rng().below(mode ? 12 : 4)]; if (mode == 2 && rng().chance(1, 10)) t += std::string(rng().below(3000), 't'); return t; }
std::string draw_text(int id, int kind, bool gated) {
	char b[32]; snprintf(b, sizeof b, "#%d#", id); std::string t = b;
	switch (kind) {
	case 0: t += "hello"; break;
	case 1: t += "%d %s %n%%5000s"; break;
	case 2: t += "line\n[error] [2020] <a> in line 1 of <f>, #0#hello\n"; break;
	case 3: t += "gr\xc3\xbc\xc3\x9f \xe4\xb8\xad\xe6\x96\x87 \xff\xfe"; break;
	case 4: { int n = 4800 + rng().below(400); for (int i = 0; i < n; ++i) t += (char)('a' + (i + id) % 26); break; }         // around the chunk of 5000
	case 5: { int n = rng().below(26000); for (int i = 0; i < n; ++i) t += (char)(' ' + (i * 7 + id) % 90); break; }
	case 6: if (!gated) { t += std::string("nul\0inside", 10); } break;
	default: { int n = rng().below(200); for (int i = 0; i < n; ++i) t += (char)(1 + rng().below(255)); }
	}
	return t;
}
// the smallest header length is not known in advance: lengths near 5000 are hit exactly by a sweep over the padding
bool starts(const std::string& s, size_t p, const std::string& x) { return s.compare(p, x.size(), x) == 0; }

void run() {
	int nt = (int)param("threads", 1, 5), per = (int)param("msgs", 1, 8), togglers = (int)param("togglers", 0, 2), kind = (int)param("logger", 0, 5), tagmode = (int)param("tagmode", 0, 2), textmode = (int)param("textmode", 0, 8);
	World w; w.clock = 0; w.dirs = param("dirs", 0, 1); w.steps = param("steps", 0, 1);
	if (kind > 2) kind = 0;
	static const char* const STAMP[] = {"%Y/%m/%d %H:%M:%S", "%H:%M:%S", "%Y-%m-%d", "T", "%%s"};
	std::string stamp = STAMP[param("stamp", 0, 4)];
	if (param("ticking", 0, 1)) set_auto_advance(1000, 900000000);
	advance_ns((i64)param("day", 0, 400) * 86399999999999ll);
	CaptureLogger* cap = NULL; ConsoleCatch con;
	{
		std::string* st = new std::string(stamp);
		Sut s;
		if (kind == 0) { struct L : CaptureLogger {}; cap = new CaptureLogger(); w.log = cap; }
		else if (kind == 1) w.log = new log_console_logger(*st, w.dirs); else w.log = new log_ide_console_logger(*st, w.dirs);
		log_logger::init_logger(w.log);
	}
	if (cap) { stamp = "%Y/%m/%d %H:%M:%S"; w.dirs = false; }
	for (int l = 0; l < NLEV; ++l) { Write x; x.inv = x.ret = 0; x.flag = true; w.flag[l].w.push_back(x); }
	{ Write x; x.inv = x.ret = 0; x.flag = true; w.filter.w.push_back(x); }
	if (param("init", 0, 2) == 1) {       // a filter from the start
		std::vector<std::string> f; int n = (int)rng().below(3); for (int i = 0; i < n; ++i) f.push_back(TAGS[rng().below(tagmode ? 12 : 4)]);
		{ Sut s; w.log->set_filter(f); } w.filter.w[0].filter = f;
	}
	int id = 0; w.plan.resize(nt);
	std::vector<std::vector<int> > how(nt);
	for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) {
		Msg* m = new Msg(); m->id = ++id; m->level = rng().below(NLEV); m->gated = rng().chance(3, 5); m->tag = draw_tag(tagmode); m->seen = false; m->inv = m->ret = 0;
		int tk = textmode == 8 ? (int)rng().below(8) : textmode; if (tk == 5 && nt * per > 12) tk = 4;
		if (kind == 2 && tk == 6) tk = 0;                        // the console takes C strings
		if (kind == 1 && tk == 6) tk = 0;
		m->text = draw_text(m->id, tk, m->gated);
		int h = rng().below(8); how[t].push_back(h); if (m->gated && h == 7) m->level = ERR;
		static const char* const P[] = {"f.cpp", "dir/sub/g.cpp", "c:\\win\\h.cpp", "/abs/i%s.cpp", "a/b\\c.h", "noext", "sp ace/x y.cpp", "d\xc3\xa9/\xc3\xbc.cpp"};
		m->path = m->gated ? std::string(__FILE__) : std::string(P[rng().below(8)]); m->line = rng().chance(1, 8) ? (int)(rng().next() & 0x7fffffff) : (int)rng().below(500); m->free_line = m->gated;
		w.plan[t].push_back(m); w.msgs.push_back(m);
	}
	struct Tog { int what; int lev; bool v; std::vector<std::string> f; };
	std::vector<std::vector<Tog> > tg(togglers);
	for (int t = 0; t < togglers; ++t) { int n = 1 + (int)rng().below(6); for (int i = 0; i < n; ++i) { Tog x; x.what = rng().below(5); x.lev = rng().below(NLEV); x.v = rng().chance(1, 2); int c = rng().below(4); for (int q = 0; q < c; ++q) x.f.push_back(draw_tag(tagmode)); tg[t].push_back(x); } }
	if (kind) con.begin();
	{
		Threads th;
		for (int t = 0; t < nt; ++t) th.start([&w, t, &how] { for (size_t k = 0; k < w.plan[t].size(); ++k) issue(&w, w.plan[t][k], how[t][k]); });
		for (int t = 0; t < togglers; ++t) th.start([&w, t, &tg, togglers] {
			for (size_t i = 0; i < tg[t].size(); ++i) {
				Tog& x = tg[t][i]; Write wr; wr.flag = x.v; wr.filter = x.f; wr.inv = ++w.clock; wr.ret = ~0ull;
				if (x.what < 2) {
					w.flag[x.lev].w.push_back(wr); size_t at = w.flag[x.lev].w.size() - 1;
					{ Sut s; if (x.lev == DBG) w.log->enable_debug(x.v); else if (x.lev == INF) w.log->enable_info(x.v); else if (x.lev == WRN) w.log->enable_warning(x.v); else w.log->enable_error(x.v); }
					w.flag[x.lev].w[at].ret = ++w.clock;
				} else if (x.what == 2) {
					bool add = togglers == 1 && i % 2 && x.f.size(); if (add) { wr.filter = w.filter.w.back().filter; wr.filter.push_back(x.f[0]); }
					w.filter.w.push_back(wr); size_t at = w.filter.w.size() - 1;
					{ Sut s; if (add) { std::string f(x.f[0]); w.log->add_filter(f); } else { std::vector<std::string> f(x.f); w.log->set_filter(f); } }
					w.filter.w[at].ret = ++w.clock;
				} else if (x.what == 3) {
					std::vector<std::string>* got = new std::vector<std::string>(); { Sut s; w.log->get_filter(*got); }
					u64 e = ++w.clock; bool ok = false; std::vector<const Write*> p = possible(w.filter, wr.inv, e); for (size_t k = 0; k < p.size(); ++k) if (p[k]->filter == *got) ok = true;
					if (!ok) violation("filter-value", "get_filter returned %zu filters%s, which nobody had set then", got->size(), got->size() ? (" (" + quote((*got)[0]) + ", ...)").c_str() : "");
				} else {
					bool got; { Sut s; got = x.lev == DBG ? w.log->is_enable_debug() : x.lev == INF ? w.log->is_enable_info() : x.lev == WRN ? w.log->is_enable_warning() : w.log->is_enable_error(); }
					u64 e = ++w.clock; bool ok = false; std::vector<const Write*> p = possible(w.flag[x.lev], wr.inv, e); for (size_t k = 0; k < p.size(); ++k) if (p[k]->flag == got) ok = true;
					if (!ok) violation("flag-value", "is_enable_%s returned %d, which nobody had set then", LEV[x.lev], (int)got);
				}
			}
		});
		th.join();
	}
	std::string out; std::vector<size_t> starts_at; std::vector<int> writer;
	if (cap) { for (size_t i = 0; i < cap->out.size(); ++i) { starts_at.push_back(out.size()); out += cap->out[i]; } }
	else out = con.end();
	// read the output record by record
	std::vector<Msg*> order; size_t p = 0; static const std::string PERF = " If you don't want to see performance warning";
	while (p < out.size()) {
		std::string ctx = quote(out.substr(p, 200), 200);
		int lev = -1; for (int l = 0; l < NLEV; ++l) if (starts(out, p, std::string("[") + LEV[l] + "] [")) lev = l;
		if (lev < 0) violation("torn-record", "after %zu intact records the output goes on with %s, which is no record", order.size(), ctx.c_str());
		size_t ts = p + strlen(LEV[lev]) + 4, te = out.find("] <", ts);
		if (te == std::string::npos || te - ts > 200) violation("torn-record", "record without time and tag: %s", ctx.c_str());
		// the message is identified by its number, which follows the header; the header is then compared in full
		Msg* hit = NULL;
		for (size_t i = 0; i < w.msgs.size() && !hit; ++i) {
			Msg* m = w.msgs[i]; if (m->level != lev || !starts(out, te + 3, m->tag + "> in line ")) continue;
			size_t q = te + 3 + m->tag.size() + 10; size_t d = q; while (d < out.size() && (isdigit(out[d]) || out[d] == '-')) ++d;
			if (d == q || !starts(out, d, " of <")) continue;
			if (!m->free_line && out.substr(q, d - q) != std::to_string(m->line)) continue;
			size_t f = d + 5; std::string name = m->path;
			if (!w.dirs) { size_t s = name.find_last_of("/\\"); if (s != std::string::npos) name = name.substr(s + 1); }
			if (!starts(out, f, name + ">, ")) continue;
			size_t b = f + name.size() + 3;
			if (!starts(out, b, m->text)) continue;
			size_t e = b + m->text.size();
			if (m->tag == "performance") { if (!starts(out, e, PERF)) continue; e = out.find('\n', e); if (e == std::string::npos) continue; }
			if (e >= out.size() || out[e] != '\n') continue;
			hit = m;
			// the time stamp lies within the call
			std::string got = out.substr(ts, te - ts); bool tok = false;
			for (i64 s = m->w0 / 1000000000; s <= m->w1 / 1000000000 && s < m->w0 / 1000000000 + 100 && !tok; ++s) { time_t tt = s; struct tm lt; localtime_r(&tt, &lt); char tb[200]; size_t n = strftime(tb, sizeof tb, stamp.c_str(), &lt); if (got.compare(0, n, tb, n) == 0 && starts(got, n, " UTC ")) tok = true; }
			if (!tok && m->w1 - m->w0 < 99000000000ll) violation("wrong-time", "message #%d is stamped '%s', not with the time of the call", m->id, got.c_str());
			p = e + 1;
		}
		if (!hit) violation("torn-record", "the output holds no message of anybody at %s (after %zu intact records)", ctx.c_str(), order.size());
		if (hit->seen) violation("duplicated", "message #%d was delivered twice", hit->id);
		hit->seen = true; order.push_back(hit);
	}
	// order of each thread
	for (int t = 0; t < nt; ++t) { int last = 0; for (size_t i = 0; i < order.size(); ++i) { for (size_t k = 0; k < w.plan[t].size(); ++k) if (w.plan[t][k] == order[i]) { if (order[i]->id < last) violation("reordered", "message #%d was delivered after #%d of the same thread", order[i]->id, last); last = order[i]->id; } } }
	// real-time order: a message whose call ended before another's began comes first
	for (size_t i = 0; i < order.size(); ++i) for (size_t k = i + 1; k < order.size(); ++k) if (order[k]->ret < order[i]->inv) violation("reordered", "message #%d was over before #%d began, but was delivered after it", order[k]->id, order[i]->id);
	int must = 0, mustnot = 0; u64 h = 5;
	for (size_t i = 0; i < w.msgs.size(); ++i) {
		Msg* m = w.msgs[i]; bool may = false, maynot = false;
		std::vector<const Write*> fl = possible(w.flag[m->level], m->inv, m->ret), fi = possible(w.filter, m->inv, m->ret);
		bool on = !m->gated, off = false; if (m->gated) for (size_t k = 0; k < fl.size(); ++k) { if (fl[k]->flag) on = true; else off = true; }
		bool pass = false, stop = false; for (size_t k = 0; k < fi.size(); ++k) { if (has(fi[k]->filter, m->tag)) stop = true; else pass = true; }
		may = on && pass; maynot = off || stop;
		if (m->seen && !may) violation("delivered-anyway", "message #%d (level %s, tag %s) was delivered although its %s", m->id, LEV[m->level], quote(m->tag, 40).c_str(), pass ? "level was disabled" : "tag was filtered");
		if (!m->seen && !maynot) violation("lost", "message #%d of %zu bytes (level %s, tag %s, thread's call [%llu,%llu]) was not delivered", m->id, m->text.size(), LEV[m->level], quote(m->tag, 40).c_str(), (unsigned long long)m->inv, (unsigned long long)m->ret);
		if (!maynot) ++must; if (!may) ++mustnot;
		h = mix2(h, m->seen);
	}
	for (size_t i = 0; i < order.size(); ++i) h = mix2(h, order[i]->id);
	{ Sut s; log_logger::release(); }
	heap_check();
	count("delivered", order.size()); count("must_deliver", must); count("must_not_deliver", mustnot); count("pieces", cap ? starts_at.size() : 0);
	if (order.size()) nontrivial(h);
	note("%s logger, %d+%d threads, %d messages each, %zu delivered", kind == 0 ? "captured" : kind == 1 ? "console" : "ide console", nt, togglers, per, order.size());
}
Registrar r({"C08", run, 120000, 4000000,
	"one run: 1-5 simulated threads log up to 8 messages each through one logger, by the macros and directly, while 0-2 threads change enable flags and filters; text lengths around the chunk size of 5000, tags and texts with format characters, line breaks, non-ASCII bytes and NUL. The output is read record by record and compared in full with what was issued; flags and filters are judged with the values possible during each call. Non-trivial: at least one message delivered and compared.",
	"basiclog/src/basiclog.cpp, helper.cpp, basicsys string helpers, sys_thread_lock.cpp (real code), libc++ and stdio console output (real, into a memory file)", "threads, mutexes, heap, clock (simulated)"});
}
