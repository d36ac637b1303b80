// C17: a JSON object saved without a reported error is read back equal; damage is reported, whatever is left on the disk.
#include "common.h"
#include <math.h>
#include <float.h>
using namespace sim;
namespace {
enum Kind { MAP, SEQ, STR, B8, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64 };
const char* const KN[] = {"map", "seq", "string", "b8", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"};
struct Node { Kind k; std::string s; u64 bits; std::vector<std::pair<std::string, Node*> > sub; bool uniform; i64 begin, end; Node() : k(STR), bits(0), uniform(false), begin(0), end(0) {} };
bool text; int budget, bin_mixed, g_large;      // g_large: something longer than 15 or 16 bits count, once in a run at most
std::string draw_text(bool name) {
	static const char safe[] = "abcXYZ019 _-+./\\\"',;()<>=!%$#@&*~`^|?";
	std::string s; int n = name ? 1 + rng().below(12) : rng().below(8) == 0 ? 0 : rng().below(20) == 0 ? rng().below(200) == 0 && budget > 0 && !g_large++ ? 32760 + rng().below(2) * 32768 + rng().below(20) : rng().below(5000) : 1 + rng().below(20);
	for (int i = 0; i < n; ++i) {
		int c; do c = rng().below(5) ? safe[rng().below(sizeof safe - 1)] : 1 + rng().below(255); while (strchr("\t\n{}[]", c) || (name && c == ':'));
		s += (char)c;
	}
	return s;
}
u64 draw_bits(Kind k) {
	u64 x = rng().next(); int how = rng().below(4);
	if (k == F32) { f32 f; u32 b = (u32)x; if (how == 0) f = (f32)((i32)b % 1000) / 8; else if (how == 1) f = (f32)(i32)(b % 100); else { do { b = (u32)rng().next(); memcpy(&f, &b, 4); } while (f != f); if (how == 2) { static const f32 sp[] = {0, -0.f, FLT_MAX, FLT_MIN, 1e-45f, INFINITY, -INFINITY, 1e-10f, 16777217.f}; f = sp[rng().below(9)]; } } u64 r = 0; memcpy(&r, &f, 4); return r; }
	if (k == F64) { f64 f; u64 b = x; if (how == 0) f = (f64)((i64)b % 100000) / 64; else if (how == 1) f = (f64)(i64)(b % 100); else { do { b = rng().next(); memcpy(&f, &b, 8); } while (f != f); if (how == 2) { static const f64 sp[] = {0, -0.0, DBL_MAX, DBL_MIN, 5e-324, INFINITY, -INFINITY, 1e-10, 9007199254740993.0, 0.1}; f = sp[rng().below(10)]; } } u64 r; memcpy(&r, &f, 8); return r; }
	if (how == 0) x = 0; else if (how == 1) x = ~0ull; else if (how == 2) { static const u64 e[] = {1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 1ull << 53, (1ull << 53) + 1, (1ull << 63) - 1, 1ull << 63, 10, 9, 123, 91}; x = e[rng().below(21)]; }
	static const int W[] = {0, 0, 0, 1, 8, 8, 16, 16, 32, 32, 64, 64};
	if (W[k] < 64) x &= (1ull << W[k]) - 1;
	return x;
}
Node* draw(Kind k, int depth);
Kind draw_kind(int depth) { u32 r = rng().below(10); if (depth > 0 && r < 2) return MAP; if (depth > 0 && r < 5) return SEQ; return (Kind)(STR + rng().below(12)); }
Node* draw(Kind k, int depth) {
	Node* n = new Node(); n->k = k; --budget;
	if (k == MAP) { int c = rng().below(6); if (budget < 0) c = 0; std::set<std::string> used; for (int i = 0; i < c; ++i) { std::string nm = draw_text(true); if (!used.insert(nm).second) continue; n->sub.push_back(std::make_pair(nm, draw(draw_kind(depth - 1), depth - 1))); } }
	else if (k == SEQ) {
		int c = rng().below(4) == 0 ? 0 : rng().below(30) == 0 ? rng().below(150) == 0 && budget > 0 && !g_large++ ? 32760 + rng().below(2) * 32768 + rng().below(20) : 200 + rng().below(1500) : 1 + rng().below(8); if (budget < 0) c = 0;
		int mode = rng().below(4); Kind ek = draw_kind(depth - 1); if (c > 100 && ek <= SEQ) ek = U16; n->uniform = mode < 2;
		for (int i = 0; i < c; ++i) { Kind kk = ek; if (mode >= 2) { if (!text) kk = draw_kind(depth - 1); else if (ek > SEQ) do kk = draw_kind(0); while (kk <= SEQ); } if (kk <= SEQ && budget < 0) { if (text) break; kk = I32; } n->sub.push_back(std::make_pair(std::string(), draw(kk, depth - 1))); }
		if (text && mode >= 2) n->uniform = false;
		for (size_t i = 1; i < n->sub.size(); ++i) if (n->sub[i].second->k != n->sub[0].second->k) n->uniform = false;
	}
	else if (k == STR) n->s = draw_text(false);
	else n->bits = draw_bits(k);
	return n;
}
template <class T> T as(u64 b) { T v; memcpy(&v, &b, sizeof v); return v; }
template <> b8 as<b8>(u64 b) { return b8(b != 0); }
template <class T> void out_vec(sys_json_writer& w, Node* n) { std::vector<T> v; for (size_t i = 0; i < n->sub.size(); ++i) v.push_back(as<T>(n->sub[i].second->bits)); w << v; }
// ---- saving
void save(sys_json_writer& w, sys_buffer_writer* b, Node* n, int depth, std::vector<i64>* ends) {
	switch (n->k) {
	case MAP: {
		if (depth) w << "{";
		for (size_t i = 0; i < n->sub.size(); ++i) { if (depth == 0) n->sub[i].second->begin = ends->empty() ? 0 : ends->back(); w << n->sub[i].first; save(w, b, n->sub[i].second, depth + 1, ends); if (depth == 0) ends->push_back(b->position()); }
		if (depth) w << "}"; break; }
	case SEQ: {
		Kind e = n->sub.empty() ? STR : n->sub[0].second->k;
		if (n->uniform && !n->sub.empty() && e > SEQ && n->bits == 0) {
			if (e == STR) { std::vector<std::string> v; for (size_t i = 0; i < n->sub.size(); ++i) v.push_back(n->sub[i].second->s); w << v; }
			else if (e == B8) out_vec<b8>(w, n); else if (e == U8) out_vec<u8>(w, n); else if (e == I8) out_vec<i8>(w, n); else if (e == U16) out_vec<u16>(w, n); else if (e == I16) out_vec<i16>(w, n); else if (e == U32) out_vec<u32>(w, n);
			else if (e == I32) out_vec<i32>(w, n); else if (e == U64) out_vec<basicsys::u64>(w, n); else if (e == I64) out_vec<basicsys::i64>(w, n); else if (e == F32) out_vec<f32>(w, n); else out_vec<f64>(w, n);
		} else { w << "["; for (size_t i = 0; i < n->sub.size(); ++i) save(w, b, n->sub[i].second, depth + 1, ends); w << "]"; }
		break; }
	case STR: w << n->s; break;
	case B8: w << b8(n->bits != 0); break; case U8: w << as<u8>(n->bits); break; case I8: w << as<i8>(n->bits); break; case U16: w << as<u16>(n->bits); break; case I16: w << as<i16>(n->bits); break;
	case U32: w << as<u32>(n->bits); break; case I32: w << as<i32>(n->bits); break; case U64: w << as<basicsys::u64>(n->bits); break; case I64: w << as<basicsys::i64>(n->bits); break; case F32: w << as<f32>(n->bits); break; default: w << as<f64>(n->bits); break;
	}
}
// ---- reading: returns the first difference found ("" = equal)
template <class T> bool same(T a, u64 bits) { T b = as<T>(bits); return !memcmp(&a, &b, sizeof a); }
template <> bool same<b8>(b8 a, u64 bits) { return (a ? 1 : 0) == (bits != 0); }
template <class T> std::string in_one(const sys_json_reader& r, Node* n, const std::string& at) { T v = T(); r >> v; return same<T>(v, n->bits) ? "" : at; }
template <class T> std::string in_vec(const sys_json_reader& r, Node* n, const std::string& at) { std::vector<T> v; r >> v; if (v.size() != n->sub.size()) return at + " (number of elements)"; for (size_t i = 0; i < v.size(); ++i) if (!same<T>(v[i], n->sub[i].second->bits)) return at + "[" + std::to_string(i) + "]"; return ""; }
u64 way; bool light; int looked; const char* bad_kind = "";
// Steps to and fro through a map or a sequence: each must lead to the neighbouring element.
std::string stroll(const sys_json_reader& r, int n, bool seq, const std::string& at, u64 seed) {
	sys_json_reader_iteartor i = r.begin(); std::vector<std::string> names; int k = 0; if (!seq) for (sys_json_reader_iteartor j = r.begin(); j != r.end() && (int)names.size() <= n; ++j) names.push_back((*j).node_name());
	for (int s = 0; s < 12; ++s) { seed = mix(seed); int how = seed % 6, was = k, to = (int)((seed >> 8) % (n + 1)); sys_json_reader_iteartor before = i, got = i; bool post = false; const char* what = "";
		if (how == 0 && k < n) { what = "++i"; got = ++i; ++k; } else if (how == 1 && k < n) { what = "i++"; got = i++; ++k; post = true; } else if (how == 2 && k > 0) { what = "--i"; got = --i; --k; } else if (how == 3 && k > 0) { what = "i--"; got = i--; --k; post = true; } else if (how == 4 && seq) { what = "i += n"; got = i += to - k; k = to; } else if (how == 5 && seq) { what = "i -= n"; got = i -= k - to; k = to; } else continue;
		std::string where = at + ": " + what + " from element " + std::to_string(was) + " of " + std::to_string(n); if (post ? got != before || !(got == before) : got != i || !(got == i)) return where + " returns another place"; if ((i == r.begin()) != (k == 0) || (i == r.end()) != (k == n) || (i != before) != (k != was)) return where + " leads elsewhere"; if (!seq && k < n && (*i).node_name() != names[k]) return where + " leads to another name"; }
	return "";
}
std::string compare(const sys_json_reader& r, Node* n, const std::string& at) {
	way = mix(way); ++looked; bad_kind = KN[n->k];
	switch (n->k) {
	case MAP: {
		if (!r.is_map() || r.is_seq()) return at + " is no map";
		size_t k = 0, cnt = 0; if (way & 1) { sys_json_reader_iteartor i = r.begin(); while (i != r.end()) { ++cnt; sys_json_reader c = *i; Node* m = NULL; for (size_t q = 0; q < n->sub.size(); ++q) if (n->sub[q].first == c.node_name()) m = n->sub[q].second; if (!m) return at + " has an unknown name " + quote(c.node_name()); std::string d = compare(c, m, at + "." + quote(c.node_name())); if (!d.empty()) return d; if (way & 2) ++i; else i++; } if (cnt != n->sub.size()) return at + " (number of names)"; k = cnt; }
		else for (; k < n->sub.size(); ++k) { std::string p = at + "." + quote(n->sub[k].first); if (!r.has_key(n->sub[k].first)) return p + " is missing"; std::string d = compare((way & 2) ? r[n->sub[k].first] : r[n->sub[k].first.c_str()], n->sub[k].second, p); if (!d.empty()) return d; }
		if ((size_t)r.size() != n->sub.size()) { sys_json_reader c(r); (void)c.begin(); if ((size_t)c.size() != n->sub.size()) return at + " (size)"; }
		if (way & 8) { std::string d = stroll(r, (int)n->sub.size(), false, at, way); if (!d.empty()) return d; }
		if (r.has_key("no such name")) return at + " has a name it does not have"; return ""; }
	case SEQ: {
		if (!r.is_seq() || r.is_map()) return at + " is no sequence";
		Kind e = n->sub.empty() ? STR : n->sub[0].second->k;
		if (n->uniform && !n->sub.empty() && e > SEQ && ((way & 3) || light)) {
			if (e == STR) { std::vector<std::string> v; r >> v; if (v.size() != n->sub.size()) return at + " (number of elements)"; for (size_t i = 0; i < v.size(); ++i) if (v[i] != n->sub[i].second->s) return at + "[" + std::to_string(i) + "]"; return ""; }
			if (e == B8) return in_vec<b8>(r, n, at); if (e == U8) return in_vec<u8>(r, n, at); if (e == I8) return in_vec<i8>(r, n, at); if (e == U16) return in_vec<u16>(r, n, at); if (e == I16) return in_vec<i16>(r, n, at); if (e == U32) return in_vec<u32>(r, n, at);
			if (e == I32) return in_vec<i32>(r, n, at); if (e == U64) return in_vec<basicsys::u64>(r, n, at); if (e == I64) return in_vec<basicsys::i64>(r, n, at); if (e == F32) return in_vec<f32>(r, n, at); return in_vec<f64>(r, n, at);
		}
		(void)r.begin(); if ((size_t)r.size() != n->sub.size()) return at + " (number of elements " + std::to_string(r.size()) + ")";
		if (way & 8) { std::string d = stroll(r, (int)n->sub.size(), true, at, way); if (!d.empty()) return d; }
		if (way & 4) { size_t k = 0; for (sys_json_reader_iteartor i = r.begin(); i != r.end(); ++i, ++k) { std::string d = compare(*i, n->sub[k].second, at + "[" + std::to_string(k) + "]"); if (!d.empty()) return d; } }
		else for (size_t k = 0; k < n->sub.size(); ++k) { std::string d = compare(r[(basicsys::i32)k], n->sub[k].second, at + "[" + std::to_string(k) + "]"); if (!d.empty()) return d; }
		return ""; }
	case STR: { std::string v; if (way & 1) v = r.to_string(); else r >> v; return v == n->s ? "" : at; }
	case B8: return in_one<b8>(r, n, at); case U8: return in_one<u8>(r, n, at); case I8: return in_one<i8>(r, n, at); case U16: return in_one<u16>(r, n, at); case I16: return in_one<i16>(r, n, at); case U32: return in_one<u32>(r, n, at);
	case I32: return in_one<i32>(r, n, at); case U64: return in_one<basicsys::u64>(r, n, at); case I64: return in_one<basicsys::i64>(r, n, at); case F32: return in_one<f32>(r, n, at); default: return in_one<f64>(r, n, at);
	}
}
std::string cmp_top(const sys_json_reader& r, Node* m, const std::string& name) { if (!r.has_key(name)) return quote(name) + " is missing"; return compare(r[name], m, quote(name)); }
// Walks whatever a damaged file seems to hold.
void walk(const sys_json_reader& r, int depth) {
	way = mix(way); if (++looked > 3000) return;
	if (r.is_map() || r.is_seq()) { if (depth > 12) return; for (sys_json_reader_iteartor i = r.begin(); i != r.end() && looked < 3000; ++i) walk(*i, depth + 1); if (r.is_map()) { (void)r.has_key("x"); walk(r["x"], depth + 1); } else if (r.size()) walk(r[r.size() - 1], depth + 1); else walk(r[0], depth + 1); return; }
	std::string s; r >> s; u8 a = 0; i8 b = 0; basicsys::u64 c = 0; basicsys::i64 d = 0; f32 e = 0; f64 f = 0; u32 g = 0; b8 h; u16 k = 0; i16 l = 0; basicsys::i32 o = 0; std::vector<f64> v; r >> a; r >> b; r >> c; r >> d; r >> e; r >> f; r >> g; r >> h; r >> k; r >> l; r >> o; r >> v; (void)r["x"]; (void)r[3];
}
int crash_at; bool decide() { return crash_at > 0 && --crash_at == 0; }
const char* const PATH = "data/file.json";

void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	vfs::reset(); vfs::mkdirs("data");
	g_large = 0; int kind = (int)param("kind", 0, 3), what = (int)param("trouble", 0, 7); text = kind == 1 || kind == 3; bool file = kind < 2; budget = (int)param("budget", 0, 60); if (param("large", 0, 80) == 80) budget *= 12; if (!file && what < 5) what = 0;
	// what: 0 none, 1 write faults, 2 cut, 3 read faults, 4 missing / cannot be opened, 5 damaged bytes, 6 crash while saving, 7 none
	if (what == 7) what = 0; if (what == 6 && !file) what = 0;
	Node* root = draw(MAP, (int)param("depth", 1, 4) + (param("deep", 0, 40) == 40 ? 30 : 0));
	HeapStats before = sut_heap(); std::vector<i64> ends; std::vector<u8>* vec = NULL; std::string* str = NULL;
	bool reported = false, crashed_now = false; 
	{ Sut s; vec = new std::vector<u8>(); str = new std::string(); }
	struct Shot { static void faults(int k) { if (k == 1) { u32 r = 1000 >> rng().below(8); int q = rng().below(4); vfs::set_faults(q == 3 ? 1000 : 0, q == 0 ? r : 0, 0, q == 1 ? 1000 : 0, 0, 0); if (q == 2) vfs::set_full(true); } } };
	if (what == 1) { Shot::faults(1); }
	if (what == 6) { crash_at = (int)param("crash_at", 1, 40); set_crash_hook(decide); }
	{
		Threads th;
		th.start([&] {
			sys_buffer_writer* w; Sut s;
			switch (kind) { case 0: w = new sys_byte_file_buffer_writer(PATH); break; case 1: w = new sys_string_file_buffer_writer(PATH); break; case 2: w = new sys_byte_buffer_writer(vec); break; default: w = new sys_string_buffer_writer(str); }
			{ sys_json_writer jw(w); save(jw, w, root, 0, &ends); }
			bool ok = true; if (kind == 0) { ((sys_byte_file_buffer_writer*)w)->close(); ok = ((sys_byte_file_buffer_writer*)w)->get_status() == sys_IO_Status_OK; } else if (kind == 1) { ((sys_string_file_buffer_writer*)w)->close(); ok = ((sys_string_file_buffer_writer*)w)->get_status() == sys_IO_Status_OK; }
			if (!ok) reported = true;
			delete w;
		});
		th.join();
	}
	set_crash_hook(NULL); crashed_now = crashed(); vfs::set_faults(0, 0, 0, 0, 0, 0); vfs::set_full(false);
	if (!log->out.empty() && !vfs::failures()) violation("false-error", "an error was reported while a legal object was saved on a healthy disk: %s", log->out[0].c_str());
	if (!log->out.empty()) reported = true;
	if (crashed_now) { count("crashes"); ends.clear(); }
	// the stored bytes
	std::string data = kind == 2 ? std::string(vec->begin(), vec->end()) : kind == 3 ? *str : vfs::size(PATH) > 0 ? std::string((const char*)vfs::data(PATH), vfs::size(PATH)) : "";
	size_t whole = data.size(); bool damaged = false, missing = false;
	if (what == 2) { data.resize(param("cut_at", 0, 1 << 20) % (whole + 1)); count_fault(F_CUT); vfs::truncate(PATH, data.size()); }
	if (what == 5 && whole) { damaged = true; int k = 1 + rng().below(4); while (k--) { size_t p = rng().below(data.size()); switch (rng().below(text ? 4 : 3)) { case 0: data[p] ^= 1 << rng().below(8); break; case 1: data[p] = (char)rng().below(256); break; case 2: { size_t q = rng().below(data.size()), n = rng().below(16); for (size_t i = 0; i < n && p + i < data.size() && q + i < data.size(); ++i) data[p + i] = data[q + i]; break; } default: data[p] = "{}[]:\n\t1"[rng().below(8)]; } count_fault(F_CUT); } if (file) vfs::put(PATH, data.data(), data.size()); }
	if (what == 4) missing = true;
	log->out.clear(); u64 r0 = vfs::failures(); sys_buffer_reader* r; bool st_ok = true; std::string diff; int compared = 0; looked = 0; way = rng().next(); light = whole > 3000;
	bool openfail = missing && param("open_fails", 0, 1); if (openfail) vfs::set_faults(1000, 0, 0, 0, 0, 0);
	std::vector<std::pair<std::string, std::string> > diffs; bool loud_start = false;
	{
		Sut s; std::string path = missing && !openfail ? "data/none.json" : PATH;
		switch (kind) { case 0: r = new sys_byte_file_buffer_reader(path); break; case 1: r = new sys_string_file_buffer_reader(path); break; case 2: r = new sys_byte_buffer_reader((const u8*)data.data(), (const u8*)data.data() + data.size()); break; default: r = new sys_string_buffer_reader(data); }
	}
	vfs::set_faults(0, 0, 0, 0, 0, 0);
	if (what == 3 && file && !data.empty() && param("bad_sector", 0, 1)) vfs::bad_sector(PATH, rng().below(data.size()), 1 + rng().below(512));
	else if (what == 3) { u32 rate = 1000 >> rng().below(8); vfs::set_faults(0, 0, rate, 0, rng().below(3) ? 0 : 300, 0); }
	{
		Sut s; sys_json_reader jr(r);
		if (damaged) walk(jr, 0);
		else if (rng().below(2) || root->sub.empty()) { std::string d = compare(jr, root, ""); if (!d.empty()) diffs.push_back(std::make_pair(std::string(), d)); compared = looked; }
		else for (size_t i = 0; i < root->sub.size(); ++i) { std::string d = cmp_top(jr, root->sub[i].second, root->sub[i].first); if (!d.empty()) diffs.push_back(std::make_pair(root->sub[i].first, d)); compared = looked; }
		st_ok = r->get_status() == sys_IO_Status_OK;
	}
	vfs::set_faults(0, 0, 0, 0, 0, 0);
	bool rep = !st_ok || !log->out.empty(); bool faulted = vfs::failures() != r0;
	std::string first = log->out.empty() ? "status" : log->out[0];
	if (!damaged && !crashed_now) {
		bool intact = !reported && !missing && data.size() == whole;
		if (intact && !faulted) {
			if (!diffs.empty()) violation("not-equal", "saved and read back as %s, %s differs (%s)", text ? "text" : "bytes", diffs[0].second.c_str(), bad_kind);
			if (rep) violation("false-error", "reading an intact object reported an error: %s", first.c_str());
		} else if (!rep && !reported) {
			if (missing) violation("missing-file-unreported", "nothing was reported although the file %s", openfail ? "could not be opened" : "does not exist");
			for (size_t i = 0; i < diffs.size(); ++i) {
				// A text file has no end mark: what can be told from a cut one is only what lies inside brackets, and names that are not there.
				if (text && data.size() < whole) {
					bool excused = false;
					for (size_t k = 0; k < root->sub.size(); ++k) { Node* m = root->sub[k].second; if ((diffs[i].first == root->sub[k].first || diffs[i].first.empty()) && ends[k] > (i64)data.size() && m->begin <= (i64)data.size()) { if (m->k > SEQ || diffs[i].second.find("is missing") != std::string::npos) excused = true; } if (ends[k] > (i64)data.size() && diffs[i].second.find("is missing") != std::string::npos && diffs[i].second.find(quote(root->sub[k].first)) != std::string::npos) excused = true; if (diffs[i].second.find("number of names") != std::string::npos || diffs[i].second == " (size)") excused = true; }
					if (excused) continue;
				}
				if (!text && data.size() < whole) { bool told = diffs[i].second.find("is missing") != std::string::npos || diffs[i].second.find("number of names") != std::string::npos || diffs[i].second == " (size)"; bool boundary = data.size() == 0; for (size_t k = 0; k < ends.size(); ++k) if (ends[k] == (i64)data.size()) boundary = true; if (told && boundary) continue; }
				violation("partial-as-whole", "%s (%s, %zu of %zu bytes%s), yet nothing was reported", diffs[i].second.c_str(), text ? "text" : "bytes", data.size(), whole, faulted ? ", reads failed" : "");
			}
		}
	}
	if (crashed_now && !rep) {
		// What a crash left must not be taken for something else: what is there equals what was saved, or is missing.
		for (size_t i = 0; i < diffs.size(); ++i) { const std::string& d = diffs[i].second; if (d.find("is missing") != std::string::npos || d.find("number of names") != std::string::npos || d == " (size)") continue; bool excused = false; if (text) for (size_t k = 0; k < root->sub.size(); ++k) if (root->sub[k].second->k > SEQ && d == quote(root->sub[k].first)) excused = true; if (text) for (size_t k = 0; k < root->sub.size(); ++k) if (root->sub[k].second->k > SEQ && d == "." + quote(root->sub[k].first)) excused = true; if (!excused) violation("partial-as-whole", "after a crash while saving (%zu bytes on disk), %s, yet nothing was reported", data.size(), d.c_str()); }
	}
	size_t ndiffs = diffs.size();
	{ Sut s; delete r; delete vec; delete str; }
	{ std::vector<std::pair<std::string, std::string> > x; diffs.swap(x); std::vector<i64> y; ends.swap(y); }
	if (!crashed_now) {
		if (vfs::open_files()) violation("file-left-open", "a file is still open");
		leak_check(before, "");
	}
	heap_check();
	count("values_read", looked); count("bytes", data.size()); if (rep) count("reported"); count(text ? "text" : "binary"); if (damaged) count("damaged");
	if (looked > 1) nontrivial(hash_str(data, kind));
	note("kind %d, trouble %d: %zu of %zu bytes, %d values, reported %d, %zu differences", kind, what, data.size(), whole, looked, (int)rep, ndiffs);
}
Registrar r({"C17", run, 60000, 1500000,
	"one run: a random object (maps, sequences, strings, booleans, every integer and floating type, up to 4 deep, up to thousands of elements) is saved as text or bytes, to a file or memory, value by value or through whole vectors, then read back by name, by index, by iterator or as vectors and compared; meanwhile writes, closes, opens, reads and seeks fail, the disk fills, the process crashes while saving, the file is cut at any byte, damaged or missing. Non-trivial: a value was read.",
	"basicsys/src/sys_json.cpp, sys_buffer.cpp, sys_strcombine.cpp, sys_strhelper.cpp (real code), glibc stdio (real)", "disk below system-call level, heap, process crash (simulated), log output (captured)"});
}
