// C12: a matrix saved without a reported error loads back equal; what is left by damage, cuts, crashes and failing reads is refused.
#include "mats.h"
#include <math.h>
using namespace sim;
namespace {
int crash_at; bool decide() { return crash_at > 0 && --crash_at == 0; }
const char* const PATH = "data/mat.bin";
bool bad_number(const unsigned char* p, int depth) { if (depth == mt_F32) { float f; memcpy(&f, p, 4); return f != f; } if (depth == mt_F64) { double f; memcpy(&f, p, 8); return f != f; } return false; }
// The first element of `m` (shape already checked) that is not what the model holds, or -1.
int content_diff(const mt_mat& m, const mats::View& v, const std::vector<unsigned char>& mem, bool nan_ok) {
	int n = v.number(), es = mats::DS[v.depth];
	for (int k = 0; k < n; ++k) { const unsigned char* p = mats::at(m, v, k); if (!heap_owns(p, v.elem())) violation("out-of-bounds", "element %d of a loaded matrix (%s) lies outside its memory", k, mats::shape(v).c_str()); for (int c = 0; c < v.ch; ++c) { const unsigned char* q = &mem[v.off[k] + c * es]; if (memcmp(p + c * es, q, es) && !(nan_ok && bad_number(q, v.depth) && bad_number(p + c * es, v.depth))) return k; } }
	return -1;
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	vfs::reset(); vfs::mkdirs("data");
	int kind = (int)param("kind", 0, 3), what = (int)param("trouble", 0, 7); bool text = kind == 1 || kind == 3, file = kind < 2;
	// what: 0 none, 1 write faults, 2 cut, 3 read faults, 4 missing / cannot be opened, 5 damaged bytes, 6 crash while saving, 7 none
	if (what == 7) what = 0; if (!file && what != 0 && what != 2 && what != 5) what = 0;
	int ops = (int)param("view_ops", 0, 6), empty = param("empty", 0, 40) == 40;
	HeapStats before; mats::View v; std::vector<unsigned char> mem;
	{ // the first message and the first matrix fill tables that stay
		Sut s; { mt_mat m(1, mt_U8C1); std::vector<unsigned char> b; sys_byte_buffer_writer w(&b); mt_mat_helper::save(&w, m); }
	}
	mt_mat* m = NULL; std::vector<u8>* vec = NULL; std::string* str = NULL; before = sut_heap();
	{ Sut s; vec = new std::vector<u8>(); str = new std::string(); m = new mt_mat(); }
	if (!empty) {
		v = mats::draw_view(rng(), (int)param("dims", 1, 6), 1 + rng().below(rng().below(8) ? 60 : rng().below(25) ? 800 : 9000)); if (rng().below(600) == 0) { v.sizes.assign(1, 65500 + rng().below(80)); if (rng().below(2)) v.sizes.insert(rng().below(2) ? v.sizes.begin() : v.sizes.end(), 1 + rng().below(3)); if (v.ch > 3) v.ch = 1; v.fresh(); count("large"); }
		mem.resize(v.number() * v.elem()); int how = rng().below(4);
		for (size_t i = 0; i < mem.size(); ++i) mem[i] = how == 0 ? rng().below(2) * 255 : how == 1 ? (i % mats::DS[v.depth] == 0 ? rng().below(256) : 0) : rng().below(256);
		if (v.depth >= mt_F32 && how == 2) for (size_t i = 0; i < mem.size(); i += mats::DS[v.depth]) { double d = (double)(int)rng().below(2000) / 7 - 100; float f = (float)d; if (v.depth == mt_F32) memcpy(&mem[i], &f, 4); else memcpy(&mem[i], &d, 8); }
		{ Sut s; *m = mt_mat((int)v.sizes.size(), &v.sizes[0], mt_Depth_Channel((mt_Depth)v.depth, v.ch)); }
		if (!heap_owns(m->data(), mem.size())) violation("out-of-bounds", "a new matrix (%s) has less memory than its elements need", mats::shape(v).c_str());
		memcpy((void*)m->data(), &mem[0], mem.size());
		std::string did;
		for (int i = 0; i < ops; ++i) { const char* w; int r; mats::View nv = v; { Sut s; r = mats::step(rng(), *m, nv, w); } { mats::View copy = nv; v = copy; Sut s; nv = mats::View(); } if (r) did += std::string(" ") + w; if (r == 2) { std::vector<unsigned char> nm; for (size_t k = 0; k < v.off.size(); ++k) nm.insert(nm.end(), mem.begin() + v.off[k], mem.begin() + v.off[k] + v.elem()); mem.swap(nm); v.fresh(); } std::string d = r ? mats::shape_diff(*m, v) : ""; if (!d.empty()) violation("wrong-view", "after%s: %s instead of %s", did.c_str(), d.c_str(), mats::shape(v).c_str()); }
		note("%s after%s", mats::shape(v).c_str(), did.c_str());
		int k = content_diff(*m, v, mem, false); if (k >= 0) violation("wrong-view", "after%s, element %d of the matrix (%s) is not the one it was made from", did.c_str(), k, mats::shape(v).c_str());
	}
	bool warned = !log->out.empty(); for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("unordered dim") == std::string::npos) violation("false-error", "an error was reported while a view was made: %s", log->out[i].c_str()); (void)warned; log->out.clear();
	// ---- save
	bool reported = false; int own_buffer = (int)param("own_buffer", 0, 1);
	if (what == 1) { u32 r = 1000 >> rng().below(8); int q = rng().below(4); vfs::set_faults(q == 3 ? 1000 : 0, q == 0 ? r : 0, 0, q == 1 ? 1000 : 0, 0, 0); if (q == 2) vfs::set_full(true); }
	if (what == 6) { crash_at = (int)param("crash_at", 1, 30); set_crash_hook(decide); }
	{
		Threads th;
		th.start([&] {
			Sut s;
			if (file && !own_buffer) { mt_mat_helper::save(PATH, *m, text ? sys_true : sys_false); return; }
			if (kind == 0) { sys_byte_file_buffer_writer w(PATH); mt_mat_helper::save(&w, *m); w.close(); if (w.get_status() != sys_IO_Status_OK) reported = true; }
			else if (kind == 1) { sys_string_file_buffer_writer w(PATH); mt_mat_helper::save(&w, *m); w.close(); if (w.get_status() != sys_IO_Status_OK) reported = true; }
			else if (kind == 2) { sys_byte_buffer_writer w(vec); mt_mat_helper::save(&w, *m); } else { sys_string_buffer_writer w(str); mt_mat_helper::save(&w, *m); }
		});
		th.join();
	}
	set_crash_hook(NULL); bool crashed_now = crashed(); vfs::set_faults(0, 0, 0, 0, 0, 0); vfs::set_full(false); if (crashed_now) count("crashes");
	if (!log->out.empty() && !vfs::failures()) violation("false-error", "an error was reported while a matrix (%s) was saved on a healthy disk: %s", mats::shape(v).c_str(), log->out[0].c_str());
	if (!log->out.empty()) reported = true;
	if (!crashed_now && !empty) { std::string d = mats::shape_diff(*m, v); if (!d.empty() || content_diff(*m, v, mem, false) >= 0) violation("source-changed", "saving changed the matrix itself"); }
	std::string data = kind == 2 ? std::string(vec->begin(), vec->end()) : kind == 3 ? *str : vfs::size(PATH) > 0 ? std::string((const char*)vfs::data(PATH), vfs::size(PATH)) : "";
	size_t whole = data.size(); bool damaged = false, missing = what == 4;
	if (what == 2) { data.resize(rng().below(3) ? param("cut_at", 0, 1 << 20) % (whole + 1) : whole - std::min<size_t>(whole, 1 + rng().below(12))); count_fault(F_CUT); if (file) vfs::truncate(PATH, data.size()); }
	if (what == 5 && whole) {
		damaged = true; int k = 1 + rng().below(3);
		while (k--) { size_t p = rng().below(2) ? rng().below(data.size()) : rng().below(std::min<size_t>(data.size(), 90)); switch (rng().below(5)) { case 0: data[p] ^= 1 << rng().below(8); break; case 1: data[p] = (char)rng().below(256); break; case 2: { size_t q = rng().below(data.size()), n = rng().below(16); for (size_t i = 0; i < n && p + i < data.size() && q + i < data.size(); ++i) data[p + i] = data[q + i]; break; } case 3: data.erase(p, 1 + rng().below(4)); break; default: data[p] = "{}[]:\n\t1-C9"[rng().below(11)]; } if (data.empty()) break; count_fault(F_CUT); }
		if (file) vfs::put(PATH, data.data(), data.size());
	}
	// ---- load
	log->out.clear(); u64 r0 = vfs::failures(); bool openfail = missing && param("open_fails", 0, 1); if (openfail) vfs::set_faults(1000, 0, 0, 0, 0, 0);
	if (what == 3 && file && !data.empty() && param("bad_sector", 0, 1)) vfs::bad_sector(PATH, rng().below(data.size()), 1 + rng().below(512));
	else if (what == 3) { u32 rate = 1000 >> rng().below(8); vfs::set_faults(0, 0, rate, 0, rng().below(3) ? 0 : 300, 0); }
	mt_mat* l = NULL; bool st_ok = true; std::string path = missing && !openfail ? "data/none" : PATH;
	{
		Sut s;
		if (file && !own_buffer) l = new mt_mat(mt_mat_helper::load(path, text ? sys_true : sys_false));
		else { sys_buffer_reader* r; switch (kind) { case 0: r = new sys_byte_file_buffer_reader(path); break; case 1: r = new sys_string_file_buffer_reader(path); break; case 2: r = new sys_byte_buffer_reader((const u8*)data.data(), (const u8*)data.data() + data.size()); break; default: r = new sys_string_buffer_reader(data); }
			l = new mt_mat(mt_mat_helper::load(r)); st_ok = r->get_status() == sys_IO_Status_OK; delete r; }
	}
	vfs::set_faults(0, 0, 0, 0, 0, 0);
	bool faulted = vfs::failures() != r0, told = !st_ok || !log->out.empty(), refused = l->is_empty() || told;
	std::string first = log->out.empty() ? "status" : log->out[0];
	// whatever was loaded can be used: every element lies in memory of its own
	if (!l->is_empty()) {
		i64 n = 1; bool sane = l->dim() >= 1 && l->depth() >= mt_U8 && l->depth() <= mt_F64 && l->channel() >= 1; for (int i = 0; sane && i < l->dim(); ++i) { if (l->size()[i] < 1) sane = false; else n *= l->size()[i]; if (n > (1ll << 31)) sane = false; }
		if (!sane || !heap_owns(l->data(), (size_t)(n * l->element_size()))) violation("out-of-bounds", "a loaded matrix (dimensions %d, depth %d, channels %d) has less memory than its elements need", l->dim(), (int)l->depth(), l->channel());
	}
	bool intact = !reported && !missing && !damaged && !crashed_now && data.size() == whole && !faulted;
	std::string diff; if (empty) { if (!l->is_empty()) diff = "the empty matrix became a matrix"; } else if (l->is_empty()) diff = "it is empty"; else { diff = mats::shape_diff(*l, v); if (diff.empty()) { int k = content_diff(*l, v, mem, true); if (k >= 0) diff = "element " + std::to_string(k) + " differs"; } }
	if (intact) {
		if (!diff.empty()) violation("not-equal", "a matrix (%s) saved and loaded as %s: %s", mats::shape(v).c_str(), text ? "text" : "bytes", diff.c_str());
		if (told) violation("false-error", "loading an intact matrix (%s) reported an error: %s", mats::shape(v).c_str(), first.c_str());
	} else if (missing) { if (!l->is_empty()) violation("made-up-matrix", "a matrix was loaded from a file that %s", openfail ? "could not be opened" : "does not exist"); if (!told) violation("missing-file-unreported", "nothing was reported although the file %s", openfail ? "could not be opened" : "does not exist"); }
	else if (!damaged && !refused && !diff.empty()) violation("other-contents", "%s (%zu of %zu bytes%s%s%s) was loaded as a matrix (%s) although %s", text ? "text" : "binary data", data.size(), whole, faulted ? ", reads failed" : "", reported ? ", saving was reported to have failed" : "", crashed_now ? ", crash while saving" : "", mats::shape(v).c_str(), diff.c_str());
	{ Sut s; delete l; delete m; delete vec; delete str; }
	if (!crashed_now) {
		if (vfs::open_files()) violation("file-left-open", "a file is still open");
		leak_check(before, "");
	}
	heap_check();
	count("bytes", data.size()); if (refused) count("refused"); if (intact) count("equal"); if (damaged) count("damaged"); count(text ? "text" : "binary"); if (empty) count("empty_matrices");
	if (!intact || ops) nontrivial(hash_str(data, kind));
	note("kind %d, trouble %d: %zu of %zu bytes, reported %d/%d, loaded %s", kind, what, data.size(), whole, (int)reported, (int)told, diff.empty() ? "equal" : diff.c_str());
}
Registrar r({"C12", run, 60000, 1500000,
	"one run: a random matrix (any type, 1 to 12 channels, 1 to 8 dimensions, up to 800 elements; views made by flipping, transposing, slicing, channel selection, reshaping, splitting and joining of dimensions) is saved as text or bytes, to a file or memory, and loaded again; meanwhile writes, closes, opens, reads and seeks fail, the disk fills, the process crashes while saving, the file is cut at any byte, damaged or missing. Non-trivial: a trouble was injected or the matrix is a view.",
	"basicmath/src/mt_mat_serialize.cpp, mt_mat.cpp, mt_mat_helper.cpp, mt_array_iteration.cpp, mt_data_type.cpp, mt_mat_cache.cpp; basicsys/src/sys_json.cpp, sys_buffer.cpp (real code), glibc stdio (real)", "disk below system-call level, heap, process crash (simulated), log output (captured)"});
}
