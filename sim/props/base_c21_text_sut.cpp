// C21: text, conversion and path-name helpers, used by several threads at once, under the locale the environment gives,
// on memory that may run out.
#include "common.h"
#include <basicmath.h>
#include <sys_strhelper.h>
#include <sys_strconvert.h>
#include <sys_path.h>
#include <locale.h>
#include <wchar.h>
#include <new>
#include <algorithm>
using namespace sim;
namespace {
bool mem_faults, utf8_env; const char* the_locale;
template <class F> bool attempt(F f) { if (!mem_faults) { f(); return true; } bool ok = true; set_alloc_fail(1, 10); try { f(); } catch (const std::bad_alloc&) { ok = false; } set_alloc_fail(0, 0); if (!ok) count("out_of_memory_reported"); return ok; }
// A text in the memory of the code under test.
struct Text { std::string* p; Text(const std::string& s) { Sut t; p = new std::string(s.data(), s.size()); } ~Text() { Sut t; delete p; } std::string get() const { return std::string(p->data(), p->size()); } std::string& operator*() { return *p; } private: Text(const Text&); };
std::string draw_text(int max, int alphabet) { int n = rng().below(6) == 0 ? 0 : rng().below(max + 1); std::string s; for (int i = 0; i < n; ++i) s += alphabet <= 4 ? "a,bA"[rng().below(alphabet)] : alphabet == 5 ? (char)(33 + rng().below(94)) : (char)(1 + rng().below(255)); return s; }
// Now and then longer than a counter of 16 bits can say.
void stretch(std::string& s) { if (rng().below(800)) return; size_t n = 65500 + rng().below(80); if (s.empty()) s = "a"; while (s.size() < n) s += s.substr(0, n - s.size()); count("long_texts"); }
int alpha() { static const int a[] = {1, 2, 2, 3, 4, 5, 6}; return a[rng().below(7)]; }
std::string repeat(char c, size_t n) { return std::string(n, c); }
void same_text(const char* what, const std::string& in, const std::string& got, const std::string& want) { if (got != want) violation("wrong-text", "%s of %s gave %s (%zu bytes) instead of %s (%zu bytes)", what, quote(in).c_str(), quote(got).c_str(), got.size(), quote(want).c_str(), want.size()); }

void do_split() {
	int al = alpha(); std::string text = draw_text(rng().below(8) ? 14 : 200, al), tag = draw_text(3, al); if (rng().below(3) == 0 && !tag.empty()) { text.clear(); int n = rng().below(6); for (int i = 0; i < n; ++i) text += (rng().below(2) ? draw_text(2, al) : "") + tag; }
	stretch(text); std::vector<std::string> want; if (!text.empty()) { if (tag.empty()) want.push_back(text); else { size_t at = 0; for (;;) { size_t e = text.find(tag, at); want.push_back(text.substr(at, e == std::string::npos ? e : e - at)); if (e == std::string::npos) break; at = e + tag.size(); } } }
	std::vector<std::string> got; bool ret = rng().below(2); int stale = rng().below(3); Text a(text), b(tag);
	if (!attempt([&] { Sut s; std::vector<std::string> r; if (ret) { std::vector<std::string> x = sys_strhelper::split(*a, *b); r.swap(x); } else { r.resize(stale); sys_strhelper::split(r, *a, *b); } Quiet q; for (size_t i = 0; i < r.size(); ++i) got.push_back(std::string(r[i].data(), r[i].size())); })) return;
	bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i] == want[i];
	if (!ok) { std::string g; for (size_t i = 0; i < got.size() && i < 12; ++i) g += (i ? " " : "") + quote(got[i]); violation("wrong-split", "%s by %s gave %zu parts: %s; expected %zu", quote(text).c_str(), quote(tag).c_str(), got.size(), g.c_str(), want.size()); }
}
void do_replace() {
	int al = alpha(); std::string text = draw_text(rng().below(8) ? 14 : 300, al), o = draw_text(3, al), n = draw_text(4, al); if (rng().below(5) == 0) n = o + n; stretch(text); std::string want; if (o.empty()) want = text; else { size_t at = 0; for (;;) { size_t e = text.find(o, at); want += text.substr(at, e == std::string::npos ? e : e - at); if (e == std::string::npos) break; want += n; at = e + o.size(); } }
	Text t(text), a(n), b(o); if (!attempt([&] { Sut s; sys_strhelper::replace(*t, *a, *b); })) return;
	same_text(("replacing " + quote(o) + " by " + quote(n)).c_str(), text, t.get(), want);
}
void do_case() {
	std::string text = draw_text(rng().below(8) ? 20 : 400, alpha()); stretch(text); std::string up = text, low = text; for (size_t i = 0; i < text.size(); ++i) { if (text[i] >= 'a' && text[i] <= 'z') up[i] -= 32; if (text[i] >= 'A' && text[i] <= 'Z') low[i] += 32; } char c = text.empty() || rng().below(3) == 0 ? 'a' : text[0]; size_t k = 0; while (k < text.size() && text[k] == c) ++k; std::string other = rng().below(2) ? up : draw_text(3, 4);
	Text a(text), b(text), t(text), o(other); bool e1 = false, e2 = false;
	if (!attempt([&] { Sut s; sys_strhelper::upper(*a); sys_strhelper::lower(*b); sys_strhelper::trim_left(*t, c); std::string x(text.data(), text.size()); e1 = sys_strhelper::equal(x, *o); e2 = sys_strhelper::equal(x, *o, true); })) return;
	std::string oup = other; for (size_t i = 0; i < oup.size(); ++i) if (oup[i] >= 'a' && oup[i] <= 'z') oup[i] -= 32;
	same_text("upper", text, a.get(), up); same_text("lower", text, b.get(), low); same_text("trim_left", text, t.get(), text.substr(k)); if (e1 != (text == other) || e2 != (up == oup)) violation("wrong-text", "%s and %s: equal %d, without case %d", quote(text).c_str(), quote(other).c_str(), e1, e2);
}
void do_distance() {
	int al = alpha(); if (al > 5) al = 5; std::string a, b; int kind = rng().below(100); if (kind < 70) { a = draw_text(12, al); b = draw_text(12, al); } else if (kind < 90) { a = draw_text(3 + rng().below(40), al); b = draw_text(400, al); } else if (kind < 99) { a = repeat('x', rng().below(rng().below(2) ? 40 : 70)) + draw_text(20, al); b = draw_text(300, 5); } else { a = draw_text(3, 2) + repeat('y', 1030); b = rng().below(40) ? draw_text(20, 2) + repeat('y', rng().below(60)) : repeat('y', rng().below(1100)) + draw_text(9, al); } if (rng().below(200) == 0) { a.resize(4050, 'q'); b.resize(rng().below(3) ? rng().below(4) : 4060, 'q'); } if (rng().below(2)) a.swap(b);
	int ins = 1, rep = 1, del = 1; bool nocase = rng().below(3) == 0; int how = rng().below(3); if (how) { ins = rng().below(how == 1 ? 4 : 90); rep = rng().below(how == 1 ? 4 : 90); del = rng().below(how == 1 ? 4 : 90); } if (nocase && rng().below(4) == 0) for (size_t i = 0; i < b.size(); ++i) if (b[i] >= 'a' && b[i] <= 'z') b[i] -= 32;
	std::string x = a, y = b; if (nocase) { for (size_t i = 0; i < x.size(); ++i) if (x[i] >= 'a' && x[i] <= 'z') x[i] -= 32; for (size_t i = 0; i < y.size(); ++i) if (y[i] >= 'a' && y[i] <= 'z') y[i] -= 32; }
	std::vector<int> p(y.size() + 1), q(y.size() + 1); for (size_t j = 0; j <= y.size(); ++j) p[j] = (int)j * ins; for (size_t i = 1; i <= x.size(); ++i) { q[0] = (int)i * del; for (size_t j = 1; j <= y.size(); ++j) q[j] = std::min(std::min(p[j] + del, q[j - 1] + ins), p[j - 1] + (x[i - 1] == y[j - 1] ? 0 : rep)); p.swap(q); } int want = p[y.size()], got = -1;
	Text ta(a), tb(b); if (!attempt([&] { Sut s; got = how ? sys_strhelper::levenshtein_distance(*ta, *tb, ins, rep, del, nocase) : sys_strhelper::levenshtein_distance(*ta, *tb, 1, 1, 1, nocase); })) return;
	if (got != want) violation("wrong-distance", "from %s (%zu) to %s (%zu), insert %d, replace %d, delete %d%s: %d instead of %d", quote(a, 40).c_str(), a.size(), quote(b, 40).c_str(), b.size(), ins, rep, del, nocase ? ", without case" : "", got, want);
}
void do_combine() {
	char buf[900]; std::string want, got; int what = rng().below(3);
	if (what == 0) { std::string text = rng().below(12) ? draw_text(30, 5) : rng().below(3) ? draw_text(5, 5) + repeat('z', rng().below(3000)) : repeat('w', 102380 + rng().below(60)); int a = (int)rng().next(); double d = (int)rng().below(2000001) / 1000.0 - 1000; snprintf(buf, sizeof buf, "[%d|%5.2f|%x] ", a, d, a); want = buf + text + "!"; Text t(text); if (!attempt([&] { Sut s; std::string r = sys_strhelper::combine("[%d|%5.2f|%x] %s!", a, d, a, (*t).c_str()); Quiet q; got.assign(r.data(), r.size()); })) return; same_text("combine", text, got, want); return; }
	long long v = (long long)rng().next() >> rng().below(64); double f = what == 1 ? (double)(int)rng().next() / (1 << rng().below(31)) : ldexp((double)(rng().next() >> 11), (int)rng().below(1000) - 130); float g = (float)((int)rng().next() / 1024.0 / (1 << rng().below(20))); std::string text = draw_text(12, 6), num1, num2; char c = (char)(33 + rng().below(90));
	snprintf(buf, sizeof buf, "%d %u %d %u %u %lld %llu %c ", (int)v, (unsigned)v, (short)v, (unsigned)(unsigned short)v, (unsigned)(unsigned char)v, v, (unsigned long long)v, c); want = buf; want += text + (v & 1 ? "true" : "false") + "[1, " + std::to_string((int)v) + "]{\n3:" + text + "\n}x";
	Text t(text); if (!attempt([&] { Sut s; sys_strcombine o, in; in << "x"; std::vector<basicsys::i32> l; l.push_back(1); l.push_back((int)v); std::map<basicsys::i32, std::string> m; m[3] = *t;
		o << (basicsys::i32)v << " " << (basicsys::u32)v << " " << (basicsys::i16)v << " " << (basicsys::u16)v << " " << (basicsys::u8)v << " " << (basicsys::i64)v << " " << (basicsys::u64)v << " " << (basicsys::i8)c << " " << *t << basicsys::b8(v & 1 ? sys_true : sys_false) << l << m << in; std::string r = o, n1 = sys_strcombine() << f, n2 = sys_strcombine() << g; Quiet q; got.assign(r.data(), r.size()); num1.assign(n1.data(), n1.size()); num2.assign(n2.data(), n2.size()); })) return;
	same_text("combining", want, got, want); char* e1; char* e2; double p1 = strtod(num1.c_str(), &e1), p2 = strtod(num2.c_str(), &e2); if (num1.empty() || *e1 || fabs(p1 - f) > 1.1e-16 + fabs(f) * 1e-15) violation("wrong-text", "the number %.17g is written as %s", f, quote(num1).c_str()); if (num2.empty() || *e2 || fabs(p2 - g) > 1.1e-7 + fabs((double)g) * 1e-6) violation("wrong-text", "the number %.9g is written as %s", (double)g, quote(num2).c_str());
}
std::string encode(const std::wstring& w) { std::string s; for (size_t i = 0; i < w.size(); ++i) { unsigned c = w[i]; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } } return s; }
std::string show(const std::wstring& w) { std::string s; char b[16]; for (size_t i = 0; i < w.size() && i < 20; ++i) { snprintf(b, sizeof b, "%sU+%04X", i ? " " : "", (unsigned)w[i]); s += b; } return "<" + s + ">"; }
void do_convert() {
	int kind = rng().below(4), n = rng().below(6) ? rng().below(9) : rng().below(200); std::wstring w; static const unsigned edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 1}; for (int i = 0; i < n; ++i) { unsigned c; do c = kind == 0 ? 1 + rng().below(127) : kind == 1 ? 0x80 + rng().below(0x2000) : rng().below(3) ? edge[rng().below(11)] : 1 + rng().below(0x10ffff); while (c >= 0xd800 && c < 0xe000); w += (wchar_t)c; } if (n && rng().below(800) == 0) { size_t l = 65500 + rng().below(80); while (w.size() < l) w += w.substr(0, l - w.size()); count("long_texts"); }
	std::string u8 = encode(w); bool local_ok = utf8_env || kind == 0; std::string junk; int jn = rng().below(12); for (int i = 0; i < jn; ++i) junk += (char)(rng().below(3) ? 0x80 + rng().below(0x7f) : 1 + rng().below(255));
	std::wstring a, b, jw; std::string c, d, e, f; Text t(u8), j(junk);
	if (!attempt([&] { Sut s; std::wstring W(w.data(), w.size()); std::wstring ra = sys_strconvert::utf16_from_utf8(*t), rb = sys_strconvert::utf16_from_local(*t), rj = sys_strconvert::utf16_from_utf8(*j), rk = sys_strconvert::utf16_from_local(*j); std::string rc = sys_strconvert::utf8_from_utf16(W), rd = sys_strconvert::local_from_utf16(W), re = sys_strconvert::local_from_utf8(sys_strconvert::utf8_from_local(*t)), rf = sys_strconvert::utf8_from_utf16(rj) + sys_strconvert::local_from_utf16(rk);
		Quiet q; a.assign(ra.data(), ra.size()); b.assign(rb.data(), rb.size()); jw.assign(rj.data(), rj.size()); c.assign(rc.data(), rc.size()); d.assign(rd.data(), rd.size()); e.assign(re.data(), re.size()); })) return;
	if (a != w) violation("wrong-conversion", "utf16_from_utf8 of %s gave %s", show(w).c_str(), show(a).c_str()); if (c != u8) violation("wrong-conversion", "utf8_from_utf16 of %s gave %s", show(w).c_str(), quote(c).c_str());
	if (local_ok && b != w) violation("wrong-conversion", "utf16_from_local of %s under the locale %s gave %s", show(w).c_str(), the_locale, show(b).c_str()); if (local_ok && d != u8) violation("wrong-conversion", "local_from_utf16 of %s under the locale %s gave %s", show(w).c_str(), the_locale, quote(d).c_str());
	if (local_ok && e != u8) violation("wrong-conversion", "local_from_utf8(utf8_from_local(%s)) under the locale %s gave %s", quote(u8).c_str(), the_locale, quote(e).c_str()); if (jw.size() > junk.size()) violation("wrong-conversion", "%zu bytes that are no text gave %zu characters", junk.size(), jw.size());
}
std::string draw_name() { static const char* const part[] = {"a", "Report", ".", "x y", ".TXT", ".tar", ".b", "_", "..", "Q7"}; std::string s; int n = rng().below(4); for (int i = 0; i <= n; ++i) s += part[rng().below(10)]; return s; }
void do_path() {
	std::string dir, last; int depth = rng().below(4); bool root = rng().below(2); if (root) dir = rng().below(2) ? "/" : "\\"; for (int i = 0; i < depth; ++i) { last = draw_name(); dir += last + (rng().below(3) ? "/" : "\\"); } std::string name = rng().below(8) ? draw_name() : ""; std::string path = dir + name, norm = path, ndir = dir; for (size_t i = 0; i < norm.size(); ++i) if (norm[i] == '\\') norm[i] = '/'; for (size_t i = 0; i < ndir.size(); ++i) if (ndir[i] == '\\') ndir[i] = '/';
	std::string fn, title, ext, d, dn; bool isd = false; Text p(path), q(dir); if (!attempt([&] { Sut s; std::string a = sys_path::get_file_name(*p), b = sys_path::get_file_title(*p), c = sys_path::get_file_extend_name(*p), e = sys_path::get_dir_path(*p), f = sys_path::get_dir_name(*q); isd = sys_path::is_dir(*p); Quiet z; fn.assign(a.data(), a.size()); title.assign(b.data(), b.size()); ext.assign(c.data(), c.size()); d.assign(e.data(), e.size()); dn.assign(f.data(), f.size()); })) return;
	size_t dot = name.rfind('.'); std::string wt = name.substr(0, dot), we = dot == std::string::npos ? "" : name.substr(dot); for (size_t i = 0; i < we.size(); ++i) if (we[i] >= 'A' && we[i] <= 'Z') we[i] += 32;
	same_text("get_file_name", path, fn, name); same_text("get_file_title", path, title, wt); same_text("get_file_extend_name", path, ext, we); if (!dir.empty()) same_text("get_dir_path", path, d, ndir); if (depth) same_text("get_dir_name", dir, dn, last); if (isd != (!path.empty() && name.empty())) violation("wrong-text", "is_dir of %s is %d", quote(path).c_str(), isd);
}
void do_depth() {
	using namespace basicmath; static const mt_Depth dep[] = {mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64}; mt_Depth d = dep[rng().below(10)]; int ch = 1 + rng().below(rng().below(2) ? 4 : 300); std::string name; int back = 0, want = 0, d2 = 0;
	if (!attempt([&] { Sut s; mt_Depth_Channel x(d, ch); std::string n = mt_Depth_Channel::depth_channel_str(x); mt_Depth_Channel y = mt_Depth_Channel::depth_channel_i32(n); memcpy(&back, &y, sizeof back); memcpy(&want, &x, sizeof want); d2 = mt_Depth_Channel::depth_i32(mt_Depth_Channel::depth_str(d)); Quiet q; name.assign(n.data(), n.size()); })) return;
	if (back != want || d2 != d) violation("wrong-text", "the element type %s of %d channels is read back as %x instead of %x", quote(name).c_str(), ch, back, want);
}
void do_args() {
	std::vector<std::string> in; int n = rng().below(6); for (int i = 0; i < n; ++i) in.push_back(draw_text(9, 6)); std::vector<char*> av; for (int i = 0; i < n; ++i) av.push_back((char*)in[i].c_str()); av.push_back(NULL); std::vector<std::string> got; if (!attempt([&] { Sut s; std::vector<std::string> r = sys_strhelper::wstring_from_char_array(n, &av[0]); Quiet q; for (size_t i = 0; i < r.size(); ++i) got.push_back(std::string(r[i].data(), r[i].size())); })) return;
	if (got.size() != in.size()) violation("wrong-text", "%d arguments gave %zu texts", n, got.size()); for (int i = 0; i < n; ++i) same_text("wstring_from_char_array", in[i], got[i], in[i]);
}
void one() {
	count("operations"); locale_t mine = uselocale((locale_t)0);
	switch (rng().below(10)) { case 0: case 1: do_split(); break; case 2: do_replace(); break; case 3: do_case(); break; case 4: do_distance(); break; case 5: do_combine(); break; case 6: case 7: do_convert(); break; case 8: do_path(); break; default: if (rng().below(2)) do_depth(); else do_args(); }
	const char* l = setlocale(LC_ALL, NULL); if (strcmp(l, "C") || uselocale((locale_t)0) != mine) violation("process-setting", "the locale of the %s changed to %s under %s", strcmp(l, "C") ? "process" : "thread", l, the_locale);
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	int nthreads = (int)param("threads", 1, 4), nops = (int)param("operations", 1, 12), loc = (int)param("locale", 0, 3); mem_faults = param("failing_allocations", 0, 3) == 3 && nthreads == 1;
	static const char* const locs[] = {"C.UTF-8", "C", "xx_YY.nowhere", ""}; the_locale = locs[loc]; utf8_env = loc == 0; setenv("LC_ALL", the_locale, 1); setenv("LANG", the_locale, 1);
	// The C library keeps what it loaded for a locale; it does so here, outside the code under test.
	if (locale_t l = newlocale(LC_ALL_MASK, "", (locale_t)0)) { uselocale(l); wchar_t w[8]; char c[8]; mbstowcs(w, "a", 8); wcstombs(c, w, 8); uselocale(LC_GLOBAL_LOCALE); }
	HeapStats before = sut_heap();
	if (nthreads == 1) for (int i = 0; i < nops; ++i) one(); else { Threads th; for (int t = 0; t < nthreads; ++t) th.start([nops] { for (int i = 0; i < nops; ++i) one(); }); th.join(); }
	for (size_t i = 0; i < log->out.size(); ++i) violation("false-error", "a legal call logged: %s", log->out[i].c_str());
	leak_check(before, ""); heap_check(); nontrivial(mix2(rng().next(), nops)); note("%d threads, %d operations, locale %s%s", nthreads, nops, the_locale, mem_faults ? ", allocations fail" : "");
}
Registrar r({"C21", run, 50000, 500000,
	"one run: an environment whose locale is UTF-8, plain, not installed or not set; up to 12 operations on each of up to 4 threads (split, replace, case, trim, equality, edit distance with costs and words of up to 4000 characters, formatting and combining of values and texts beyond 100 KB, conversions between local, UTF-8 and wide text with characters of every length and with bytes that are no text, path names, names of element types, arguments). Allocations fail in a quarter of the single-threaded runs. Oracles: independent references; the locale of process and thread is compared after every operation. Non-trivial: every run.",
	"basicsys/src/sys_strhelper.cpp, sys_strconvert.cpp, sys_strcombine.cpp, sys_path.cpp (names), basicmath/src/mt_data_type.cpp (real code)", "thread scheduling, heap and its failures (simulated), the locale environment (set per run; the C library's conversions are real), log output (captured)"});
}
