// C11: file buffers (and their in-memory relatives) report every I/O failure and return what was acknowledged.
#include "common.h"
#include <math.h>
using namespace sim;
namespace {
enum { BYTE_FILE, STR_FILE, BYTE_MEM, STR_MEM };
const char* const KIND[] = {"byte file", "string file", "byte memory", "string memory"};
struct Rates { static void draw() { u32 k = rng().below(5); u32 r = 1000 >> rng().below(8); vfs::set_faults(0, k == 0 || k == 3 ? r : 0, k == 1 || k == 3 ? r : 0, 0, 0, 0); if (k == 4) vfs::set_full(true); } static void none() { vfs::set_faults(0, 0, 0, 0, 0, 0); vfs::set_full(false); } };
std::string bytes(size_t n, int mode) { std::string s; for (size_t i = 0; i < n; ++i) s += mode == 0 ? (char)('a' + (i + n) % 26) : mode == 1 ? "line one\nx\n\n 12.5 -3e2 "[(i * 7 + n) % 24] : (char)rng().below(256); return s; }
size_t draw_len() { if (rng().below(600) == 0) return 30000 + rng().below(170000); switch (rng().below(8)) { case 0: return 0; case 1: return 1; case 2: return 4090 + rng().below(12); case 3: return rng().below(20000); default: return rng().below(64); } }
template <class T> T draw_val() { u64 x = rng().below(3) ? rng().next() : rng().below(3) - 1; T v; if (sizeof(T) <= 8) memcpy(&v, &x, sizeof v); return v; }
float fdraw(float) { return (float)rng().range(-1000000, 1000000) / 64; } double fdraw(double) { return (double)rng().range(-1000000000, 1000000000) / 1024; }
template <class T> T draw_any(T*) { return draw_val<T>(); }
f32 draw_any(f32*) { return fdraw(0.f); } f64 draw_any(f64*) { return fdraw(0.0); }
b8 draw_any(b8*) { return b8(rng().below(2) != 0); }

struct Writer {
	int kind; sys_buffer_writer* w; std::vector<u8>* vec; std::string* str; std::string model; i64 pos; bool append; u64 other;
	void put(const std::string& s) {
		if (append) pos = model.size();
		if (s.empty()) return;
		if (pos + (i64)s.size() > (i64)model.size()) model.resize(pos + s.size(), 0);
		model.replace(pos, s.size(), s); pos += s.size();
	}
	template <class T> void typed() {
		T v = draw_any((T*)NULL);
		{ Sut s; w->write(v); }
		if (kind == BYTE_FILE || kind == BYTE_MEM) put(std::string((const char*)&v, sizeof v)); else put((std::string)(sys_strcombine() << v));
	}
};
sys_IO_Status status(Writer& w) { sys_IO_Status s; { Sut q; if (w.kind == BYTE_FILE && (w.other & 1)) s = ((sys_byte_file_buffer_writer*)w.w)->get_status(); else if (w.kind == STR_FILE && (w.other & 1)) s = ((sys_string_file_buffer_writer*)w.w)->get_status(); else s = w.w->get_status(); } return s; }
const char* const PATH = "data/file.bin";
FILE* user_file(const char* mode) { FILE* f; { Sut s; f = fopen(PATH, mode); } return f; }

void run() {
	CaptureLogger* log = new CaptureLogger(false); log->yields = false; basiclog::log_logger::init_logger(log);
	vfs::reset(); vfs::mkdirs("data");
	int kind = (int)param("kind", 0, 3), nw = (int)param("writes", 0, 20), nr = (int)param("reads", 0, 30), text = (int)param("text", 0, 2), faulty = (int)param("faulty", 0, 4), cut = (int)param("cut", 0, 3), ctor = (int)param("ctor", 0, 1), dtor = (int)param("no_close", 0, 1);
	if (kind >= 2) faulty = 0;
	bool file = kind < 2;
	HeapStats before = sut_heap();
	u64 h = kind; int checked = 0;
	// ---- writing
	Writer w; w.kind = kind; w.vec = NULL; w.str = NULL; w.pos = 0; w.append = false; w.other = rng().next(); w.w = NULL;
	if (file && param("old", 0, 1)) { std::string o = bytes(rng().below(6000), text); vfs::put(PATH, o.data(), o.size()); w.append = param("append", 0, 1) != 0; if (w.append) w.model = o; }
	bool missing_dir = false;
	if (faulty == 4) { vfs::set_faults(param("bad_open", 0, 1) ? 1000 : 0, 0, 0, 700, 0, 0); if (param("no_dir", 0, 3) == 3 && !w.append && w.model.empty() && vfs::size(PATH) < 0) missing_dir = true; }
	if (faulty == 3) vfs::set_faults(0, 0, 0, 0, param("pipe_w", 0, 3) == 3 ? 1000 : 0, 0);
	u64 f0 = vfs::failures(); u64 opened = 0;
	{
		std::string path = missing_dir ? "nowhere/file.bin" : PATH; bool user = ctor && !w.append && faulty != 4;
		FILE* f = NULL; if (file && user) f = user_file("wb");
		Sut s;
		switch (kind) {
		case BYTE_FILE: w.w = user ? new sys_byte_file_buffer_writer(f, true) : new sys_byte_file_buffer_writer(path, w.append); break;
		case STR_FILE: w.w = user ? new sys_string_file_buffer_writer(f, true) : new sys_string_file_buffer_writer(path, w.append); break;
		case BYTE_MEM: w.vec = new std::vector<u8>(); w.w = new sys_byte_buffer_writer(w.vec); break;
		default: w.str = new std::string(); w.w = new sys_string_buffer_writer(w.str); break;
		}
	}
	bool open_failed = missing_dir || vfs::failures() != f0; opened = vfs::failures();
	if (open_failed && status(w) == sys_IO_Status_OK) violation("open-failure-unreported", "the %s writer reports OK although its file could not be opened", KIND[kind]);
	if (faulty == 4) vfs::set_faults(0, 0, 0, 700, 0, 0);
	if (w.append) w.pos = w.model.size();
	for (int i = 0; i < nw; ++i) {
		if (faulty >= 1 && faulty <= 2) { if (rng().below(faulty == 1 ? 6 : 2) == 0) Rates::draw(); else if (rng().below(2)) Rates::none(); }
		switch (rng().below(18)) {
		case 0: w.typed<b8>(); break; case 1: w.typed<i8>(); break; case 2: w.typed<u8>(); break; case 3: w.typed<u16>(); break; case 4: w.typed<i16>(); break; case 5: w.typed<u32>(); break;
		case 6: w.typed<i32>(); break; case 7: w.typed<u64>(); break; case 8: w.typed<i64>(); break; case 9: w.typed<f32>(); break; case 10: w.typed<f64>(); break;
		case 11: case 12: { std::string v = bytes(draw_len(), text); { Sut s; std::string c(v); w.w->write(c); } w.put(v); break; }
		case 13: { std::string v = bytes(rng().below(50), 0); { Sut s; w.w->write(v.c_str()); } w.put(v); break; }
		case 14: if (kind == BYTE_FILE || kind == BYTE_MEM) { std::string v = bytes(draw_len(), text); { Sut s; std::vector<u8> c(v.begin(), v.end()); ((sys_byte_buffer_writer*)w.w)->write(c); } w.put(v); } break;
		case 15: if (!w.append && !w.model.empty()) {
			i64 to = rng().range(0, (i64)w.model.size()); int how = rng().below(3); if (how == 2) to = w.model.size();
			{ Sut s; w.w->seek(how == 0 ? to : how == 1 ? to - w.pos : 0, how == 0 ? sys_File_Seek_Set : how == 1 ? sys_File_Seek_Cur : sys_File_Seek_End); } w.pos = to; } break;
		default: { i64 p; { Sut s; p = w.w->position(); } if (status(w) == sys_IO_Status_OK && p != w.pos) violation("wrong-position", "the %s writer says it is at %lld, it is at %lld", KIND[kind], p, w.pos); }
		}
	}
	if (faulty != 4 && faulty != 2) Rates::none(); else if (faulty == 2 && rng().below(2)) Rates::draw();
	u64 fclose0 = vfs::failures(); bool closed = false; sys_IO_Status st = sys_IO_Status_OK;
	if (file && !dtor) { { Sut s; w.w->close(); } closed = true; st = status(w); if (!w.w->is_closed()) violation("not-closed", "the writer does not say it is closed"); }
	bool close_failed = vfs::failures() != fclose0;
	{ Sut s; delete w.w; }
	Rates::none();
	std::string now;
	if (kind == BYTE_MEM) now.assign(w.vec->begin(), w.vec->end()); else if (kind == STR_MEM) now = *w.str; else if (vfs::size(PATH) > 0) now.assign((const char*)vfs::data(PATH), vfs::size(PATH));
	bool same = now == w.model && (!file || missing_dir || vfs::exists(PATH));
	if (file && closed) {
		if (st == sys_IO_Status_OK) {
			if (open_failed) violation("open-failure-unreported", "closed with OK, but the file was never opened");
			if (close_failed) violation("close-failure-unreported", "the %s writer reports OK although closing failed", KIND[kind]);
			if (!same) { size_t d = 0; while (d < now.size() && d < w.model.size() && now[d] == w.model[d]) ++d; violation("acknowledged-lost", "the %s writer was closed with OK, but the file (%zu bytes) differs from what was written (%zu bytes) at byte %zu", KIND[kind], now.size(), w.model.size(), d); }
			++checked;
		} else if (vfs::failures() == 0 && !missing_dir) violation("false-error", "the %s writer reports status %d although nothing failed", KIND[kind], (int)st);
	} else if (vfs::failures() == 0 && !missing_dir && !same) violation("lost", "the %s writer was destroyed on a healthy disk, but holds %zu bytes instead of %zu", KIND[kind], now.size(), w.model.size());
	else if (vfs::failures() == 0) ++checked;
	if (vfs::open_files()) violation("file-left-open", "the %s writer left its file open", KIND[kind]);
	count("bytes_written", w.model.size()); h = hash_str(w.model, h);
	{ Sut s; delete w.vec; delete w.str; }
	// ---- reading
	std::string data = bytes(rng().below(4) ? rng().below(9000) : rng().below(20), text); bool missing = false;
	if (file) {
		vfs::put(PATH, data.data(), data.size());
		if (cut == 1) { count_fault(F_CUT); data.resize(rng().below(data.size() + 1)); vfs::truncate(PATH, data.size()); }
		if (cut == 2) missing = true;
	}
	u64 r0 = vfs::failures(); if (file && faulty == 4 && param("bad_ropen", 0, 1)) vfs::set_faults(1000, 0, 0, 0, 0, 0);
	if (file && faulty == 3) vfs::set_faults(0, 0, 0, 0, param("pipe_r", 0, 3) == 3 ? 1000 : 0, 0);
	sys_buffer_reader* r; sys_byte_buffer_reader* br = NULL; sys_string_buffer_reader* sr = NULL;
	{
		std::string path = missing ? "data/none.bin" : PATH; FILE* f = NULL; bool user = ctor && !missing && faulty != 4; if (file && user) f = user_file("rb");
		Sut s;
		switch (kind) {
		case BYTE_FILE: r = br = user ? new sys_byte_file_buffer_reader(f, true) : new sys_byte_file_buffer_reader(path); break;
		case STR_FILE: r = sr = user ? new sys_string_file_buffer_reader(f, true) : new sys_string_file_buffer_reader(path); break;
		case BYTE_MEM: r = br = new sys_byte_buffer_reader((const u8*)data.data(), (const u8*)data.data() + data.size()); break;
		default: r = sr = new sys_string_buffer_reader(data); break;
		}
	}
	if (vfs::failures() != r0) missing = true;
	vfs::set_faults(0, 0, 0, 0, 0, 0);
	if (file && !missing && faulty >= 1 && faulty <= 3 && !data.empty() && param("bad_sector", 0, 1)) vfs::bad_sector(PATH, rng().below(data.size()), 1 + rng().below(512));
	i64 pos = 0, n = data.size(); bool bad = false;
	struct St { static bool ok(sys_buffer_reader* r, int kind, u64 o) { Sut s; if (kind == BYTE_FILE && (o & 2)) return ((sys_byte_file_buffer_reader*)r)->get_status() == sys_IO_Status_OK; return r->get_status() == sys_IO_Status_OK; } };
	if (missing && file && St::ok(r, kind, w.other)) violation("missing-file-unreported", "the %s reader reports OK although its file %s", KIND[kind], cut == 2 ? "does not exist" : "could not be opened");
	bool shrunk = false;
	for (int i = 0; i < nr; ++i) {
		if (faulty == 1 || faulty == 3) { if (rng().below(faulty == 1 ? 8 : 3) == 0) Rates::draw(); else if (rng().below(2)) Rates::none(); }
		if (file && cut == 3 && !shrunk && rng().below(6) == 0) { shrunk = true; count_fault(F_CUT); vfs::truncate(PATH, rng().below(n + 1)); }
		u64 fb = vfs::failures(); int op = rng().below(20); i64 need = 0; bool right = true; std::string what = "?"; i64 left = n - pos;
		bool was_ok = St::ok(r, kind, w.other);
#define TYPED(T, call) { T v; { Sut s; v = call; } need = sizeof(T); what = #call; if (left >= need) right = !memcmp(&v, data.data() + pos, sizeof v); if (left >= need) pos += need; }
		if (op >= 18) {
			i64 to = rng().range(0, n); if (rng().below(6) == 0) to = n; int how = rng().below(3); if (how == 2) to = n; if ((shrunk && how == 2) || bad) how = 0;
			{ Sut s; r->seek(how == 0 ? to : how == 1 ? to - pos : 0, how == 0 ? sys_File_Seek_Set : how == 1 ? sys_File_Seek_Cur : sys_File_Seek_End); } pos = to; what = "seek";
		} else if (op == 17) {
			i64 p, z, e; { Sut s; p = r->position(); z = r->size(); e = r->is_eof() ? 1 : 0; (void)r->remain_size(); } what = "position/size";
			if (!shrunk) right = p == pos && z == n && e == (pos >= n);
		} else if (br) switch (op) {
			case 0: { b8 v; { Sut s; v = br->read_b8(); } need = 1; what = "read_b8"; if (left >= 1) { right = v.m_data == (u8)data[pos]; ++pos; } break; }
			case 1: TYPED(i8, br->read_c8()) break; case 2: TYPED(u8, br->read_u8()) break; case 3: TYPED(u16, br->read_u16()) break; case 4: TYPED(i16, br->read_i16()) break;
			case 5: TYPED(u32, br->read_u32()) break; case 6: TYPED(i32, br->read_i32()) break; case 7: TYPED(u64, br->read_u64()) break; case 8: TYPED(i64, br->read_i64()) break;
			case 9: TYPED(f32, br->read_f32()) break; case 10: TYPED(f64, br->read_f64()) break;
			case 11: case 12: { need = draw_len(); std::vector<u8>* v; { Sut s; v = new std::vector<u8>(); if (need == 0) need = 1; br->read(*v, (i32)need); } what = "read(vector)"; if (left >= need) { right = std::string(v->begin(), v->end()) == data.substr(pos, need); pos += need; } { Sut s; delete v; } break; }
			case 13: { need = draw_len(); u8* v; { Sut s; v = new u8[need + 1]; br->read(v, (i32)need); } what = "read(array)"; if (left >= need) { right = std::string((char*)v, need) == data.substr(pos, need); pos += need; } { Sut s; delete[] v; } break; }
			default: { need = draw_len(); std::string* v; { Sut s; v = new std::string(); br->read_str(*v, (i32)need); } what = "read_str"; if (left >= need) { right = *v == data.substr(pos, need); pos += need; } { Sut s; delete v; } break; }
		} else switch (op) {
			case 0: case 1: case 2: { i8 c; { Sut s; c = sr->read_char(); } need = 1; what = "read_char"; if (left >= 1) right = c == data[pos++]; break; }
			case 3: case 4: case 5: { std::string* v; { Sut s; v = new std::string(); sr->read_line(*v); } need = 1; what = "read_line"; if (left >= 1) { size_t e = data.find('\n', pos); std::string whole = data.substr(pos, e == std::string::npos ? std::string::npos : e - pos); right = *v == whole || (shrunk && whole.compare(0, v->size(), *v) == 0); if (shrunk && *v != whole) bad = true; pos = e == std::string::npos ? n : (i64)e + 1; } { Sut s; delete v; } break; }
			case 6: case 7: { need = 1 + rng().below(12); f64 v; { Sut s; v = sr->read((i32)need); } what = "read(number)"; if (left >= need) { double x = atof(data.substr(pos, need).c_str()); right = !memcmp(&x, &v, 8) || (isnan(x) && isnan(v)); pos += need; } break; }
			default: { need = draw_len(); if (need == 0) need = 1; std::string* v; { Sut s; v = new std::string(); sr->read_str(*v, (i32)need); } what = "read_str"; if (left >= need) { right = *v == data.substr(pos, need); pos += need; } { Sut s; delete v; } break; }
		}
		bool ok = St::ok(r, kind, w.other); bool failed = vfs::failures() != fb;
		if (!was_ok && ok) violation("status-forgotten", "%s of the %s reader reset an earlier error status to OK", what.c_str(), KIND[kind]);
		if (bad) continue;
		if (ok) {
			if (missing) violation("missing-file-unreported", "%s of the %s reader reports OK without a file", what.c_str(), KIND[kind]);
			if (need > left) violation("made-up-data", "%s of %lld bytes with %lld left reports OK (%s reader)", what.c_str(), need, left, KIND[kind]);
			if (!right) violation("wrong-data", "%s (%lld bytes at %lld of %lld) of the %s reader returned something else under an OK status", what.c_str(), need, pos - need, n, KIND[kind]);
			++checked;
		} else {
			bad = true;
			if (!failed && !missing && !shrunk && need <= left && vfs::failures() == r0) violation("false-error", "%s (%lld bytes, %lld left) of the %s reader reports an error although nothing failed", what.c_str(), need, left, KIND[kind]);
		}
	}
	Rates::none();
	{ Sut s; delete r; }
	if (vfs::open_files()) violation("file-left-open", "the %s reader left its file open", KIND[kind]);
	leak_check(before, "");
	heap_check();
	count("checks", checked); count("failures_injected", vfs::failures()); count(KIND[kind]); if (bad) count("reader_reported_error");
	if (checked) nontrivial(hash_str(data, h));
	note("%s: %d writes, %d reads, %llu failures, %d checks", KIND[kind], nw, nr, vfs::failures(), checked);
}
Registrar r({"C11", run, 120000, 2000000,
	"one run: a history of up to 20 writes (typed values, strings, vectors, seeks, positions) through one kind of buffer writer on a new, existing or appended file, then up to 30 reads through the matching reader from a file that may be whole, cut, cut while being read, or missing; writes, flushes, reads, short reads, seeks, opens and closes fail, the disk fills. Compared with a byte-array model. Non-trivial: at least one acknowledged result compared.",
	"basicsys/src/sys_buffer.cpp, sys_strcombine.cpp (real code), glibc stdio (real)", "disk below system-call level, heap (simulated), log output (dropped)"});
}
