// C13: matrix handles that share pixels, copied, sliced, written through and dropped by several threads.
#include "mats.h"
using namespace sim;
using mats::View;
namespace {
struct Buf { std::vector<unsigned char> mem; int writer; const void* at; u64 serial; bool foreign; };
struct Handle { mt_mat* m; View v; int buf; };
std::vector<Buf*>* bufs; std::vector<Handle>* roots; std::vector<Handle>* box; std::vector<void*>* foreign_mem;
int max_elems, max_dims, g_ops, g_live;
const char* last_op = "";
Buf& buf(const Handle& h) { return *(*bufs)[h.buf]; }
void verify(const Handle& h, int me, const char* after) {
	Quiet q; Buf& b = buf(h); int es = h.v.elem(), n = h.v.number();
	std::string d = mats::shape_diff(*h.m, h.v); if (!d.empty()) violation("wrong-view", "after %s: %s instead of %s", after, d.c_str(), mats::shape(h.v).c_str());
	for (int k = 0; k < n; ++k) {
		const unsigned char* p = mats::at(*h.m, h.v, k);
		if (!b.foreign && !heap_owns(p, es)) violation("pixels-lost", "after %s, element %d of a live matrix (%s) lies outside live memory", after, k, mats::shape(h.v).c_str());
		if (p != (const unsigned char*)b.at + h.v.off[k]) violation("wrong-view", "after %s, element %d of the matrix (%s) lies %ld bytes into its memory instead of %d", after, k, mats::shape(h.v).c_str(), (long)(p - (const unsigned char*)b.at), h.v.off[k]);
		if ((b.writer == -1 || b.writer == me || me == -2) && memcmp(p, &b.mem[h.v.off[k]], es)) violation("wrong-value", "after %s, element %d of the matrix (%s) does not hold what was written to it", after, k, mats::shape(h.v).c_str());
	}
}
int new_buf(mt_mat& m, const View& v, int writer, bool fill_it, bool foreign = false) {
	Quiet q; Buf* b = new Buf(); b->writer = writer; b->at = m.data(); b->serial = block_serial(b->at); b->foreign = foreign; b->mem.resize((size_t)v.number() * v.elem());
	if (!foreign && (!heap_owns(b->at, b->mem.size()) || !b->serial)) violation("pixels-lost", "a new matrix (%s) has no memory of the size it needs", mats::shape(v).c_str());
	if (!foreign) for (size_t i = 0; i < bufs->size(); ++i) { Buf* o = (*bufs)[i]; if (o->serial == b->serial) violation("shared-by-mistake", "a new matrix (%s) has the memory of another one", mats::shape(v).c_str()); }
	if (fill_it) { for (size_t i = 0; i < b->mem.size(); i += mats::DS[v.depth]) mats::put(v.depth, &b->mem[i], rng().below(101)); memcpy((void*)b->at, &b->mem[0], b->mem.size()); }
	bufs->push_back(b); return (int)bufs->size() - 1;
}
std::vector<unsigned char> content(const Handle& h) { std::vector<unsigned char> c; Buf& b = buf(h); for (size_t k = 0; k < h.v.off.size(); ++k) c.insert(c.end(), b.mem.begin() + h.v.off[k], b.mem.begin() + h.v.off[k] + h.v.elem()); return c; }
Handle make(int writer) {
	Quiet q; Handle h; h.v = mats::draw_view(rng(), max_dims, max_elems); mt_Depth_Channel dc((mt_Depth)h.v.depth, h.v.ch); int n = (int)h.v.sizes.size(); const int* s = &h.v.sizes[0]; int how = rng().below(8); bool foreign = false, filled = true;
	unsigned char* own = NULL; size_t bytes = (size_t)h.v.number() * h.v.elem();
	if (how == 7) { own = (unsigned char*)malloc(bytes); foreign = true; foreign_mem->push_back(own); }
	{
		Sut on; 
		if (how == 6) own = (unsigned char*)malloc(bytes);
		if (how == 5) { h.m = new mt_mat(); h.m->create(n, s, dc); }
		else if (how >= 6) { unsigned char* share = how == 6 ? own : NULL; if (n == 1 && rng().below(2)) h.m = new mt_mat(s[0], dc, own, (const basicsys::i32*)NULL, share); else if (n == 2 && rng().below(2)) h.m = new mt_mat(s[0], s[1], dc, own, (const basicsys::i32*)NULL, share); else if (n == 3 && rng().below(2)) h.m = new mt_mat(s[0], s[1], s[2], dc, own, (const basicsys::i32*)NULL, share); else if (rng().below(2)) { std::vector<int> sv(s, s + n); h.m = new mt_mat(sv, dc, own, std::vector<int>(), share); } else h.m = new mt_mat(n, s, dc, own, (const basicsys::i32*)NULL, share); }
		else if (n == 1) h.m = new mt_mat(s[0], dc); else if (n == 2) h.m = new mt_mat(s[0], s[1], dc); else if (n == 3 && how < 3) h.m = new mt_mat(s[0], s[1], s[2], dc); else h.m = new mt_mat(n, s, dc);
	}
	h.buf = new_buf(*h.m, h.v, writer, filled, foreign); return h;
}
void drop(Handle& h) { Sut on; delete h.m; h.m = NULL; }
void set_element(Handle& h, int k, int c, double v) { Buf& b = buf(h); mats::put(h.v.depth, &b.mem[h.v.off[k] + c * mats::DS[h.v.depth]], v); }
void work(int me) {
	std::vector<Handle> own; char what[64]; 
	for (int step = 0; step < g_ops; ++step) {
		if (own.empty() || (own.size() < 6 && rng().below(4) == 0)) {
			int r = rng().below(3);
			if (r == 0 || roots->empty()) { own.push_back(make(me)); verify(own.back(), me, "creation"); }
			else { const Handle& s = (*roots)[rng().below(roots->size())]; Handle h = s; const mt_mat& src = *s.m; int q = rng().below(3); { Sut on; if (q == 0) h.m = new mt_mat(src); else if (q == 1) { h.m = new mt_mat(); *h.m = src; } else { mt_range all(0, src.size()[0]); h.m = new mt_mat(src, all, 0); } } own.push_back(h); verify(own.back(), me, "copying a shared matrix"); }
			continue;
		}
		int i = rng().below(own.size()); Handle& h = own[i]; Buf& b = buf(h); bool mine = b.writer == me; int D = (int)h.v.sizes.size();
		switch (rng().below(15)) {
		case 0: drop(h); own.erase(own.begin() + i); break;
		case 1: { Handle c = h; { Sut on; c.m = new mt_mat(*h.m); } own.push_back(c); verify(own.back(), me, "copying"); break; }
		case 2: { int j = rng().below(own.size()); { Sut on; *own[j].m = *h.m; } own[j].v = h.v; own[j].buf = h.buf; verify(own[j], me, "assignment"); break; }
		case 3: case 4: case 5: { const char* w; View nv = h.v; int r; { Sut on; r = mats::step(rng(), *h.m, nv, w, true); } if (r) h.v = nv; snprintf(what, sizeof what, "%s", r ? w : "nothing"); { Quiet q; View t = nv; } if (r == 2) violation("wrong-view", "%s made a copy", w); verify(h, me, what); Sut on; nv = View(); break; }
		case 6: { Handle c = h; { Sut on; c.m = new mt_mat(h.m->clone()); } if (b.writer != -1 && !mine) { drop(c); break; } c.v.fresh(); c.buf = new_buf(*c.m, c.v, me, false); (*bufs)[c.buf]->mem = content(h); own.push_back(c); verify(own.back(), me, "cloning"); break; }
		case 7: { // hand over to another thread
			if (rng().below(2)) { box->push_back(h); own.erase(own.begin() + i); } else if (!box->empty()) { int j = rng().below(box->size()); own.push_back((*box)[j]); box->erase(box->begin() + j); verify(own.back(), me, "handing over"); } break; }
		case 8: if (mine) { double v = rng().below(101); { Sut on; h.m->set(v); } for (size_t k = 0; k < h.v.off.size(); ++k) for (int c = 0; c < h.v.ch; ++c) set_element(h, (int)k, c, v); verify(h, me, "setting all elements"); } break;
		case 9: if (mine) { std::vector<f64> v; for (int c = 0; c < h.v.ch; ++c) v.push_back(rng().below(3) ? rng().below(101) : v.empty() ? 7 : v[0]); { Sut on; h.m->set(v); } for (size_t k = 0; k < h.v.off.size(); ++k) for (int c = 0; c < h.v.ch; ++c) set_element(h, (int)k, c, v[c]); verify(h, me, "setting all elements by channel"); } break;
		case 10: if (mine) { // one element
			int k = rng().below(h.v.off.size()), c = rng().below(h.v.ch); std::vector<int> x(D); int r = k; for (int d = D - 1; d >= 0; --d) { x[d] = r % h.v.sizes[d]; r /= h.v.sizes[d]; } double v = rng().below(101); 
			unsigned char raw[8]; mats::put(h.v.depth, raw, v); { Sut on; u8* p = rng().below(2) ? h.m->ptr<u8>(x, c) : h.m->ptr<u8>(D, &x[0], c); memcpy(p, raw, mats::DS[h.v.depth]); } set_element(h, k, c, v); verify(h, me, "writing an element"); } break;
		case 11: case 12: { // copy the elements of another matrix of the same shape, maybe of another type
			Handle s; s.v = h.v; s.v.depth = rng().below(2) ? h.v.depth : rng().below(10); s.v.fresh(); if (!mine) break; { Sut on; s.m = new mt_mat(D, &s.v.sizes[0], mt_Depth_Channel((mt_Depth)s.v.depth, s.v.ch)); } s.buf = new_buf(*s.m, s.v, me, true);
			if (rng().below(3) == 0 && D > 1) { std::vector<int> fl(1, rng().below(D)); View nv = s.v; nv = s.v.map(s.v.sizes, [&](std::vector<int> x) { x[fl[0]] = s.v.sizes[fl[0]] - 1 - x[fl[0]]; return x; }); { Sut on; *s.m = s.m->flip(fl[0]); } s.v = nv; }
			snprintf(what, sizeof what, "setting from a matrix of %s type", s.v.depth == h.v.depth ? "the same" : "another");
			{ Sut on; h.m->set(*s.m); } for (size_t k = 0; k < h.v.off.size(); ++k) for (int c = 0; c < h.v.ch; ++c) set_element(h, (int)k, c, mats::get(s.v.depth, &buf(s).mem[s.v.off[k] + c * mats::DS[s.v.depth]])); verify(s, me, what); verify(h, me, what);
			if (rng().below(2)) drop(s); else own.push_back(s); break; }
		case 13: { // convert or copy_from
			if (b.writer != -1 && !mine) break; Handle c = h; c.v.fresh(); bool conv = rng().below(2); if (conv) { c.v.depth = rng().below(10); c.v.fresh(); } { Sut on; c.m = new mt_mat(); if (conv) *c.m = h.m->convert((mt_Depth)c.v.depth); else c.m->copy_from(*h.m); }
			c.buf = new_buf(*c.m, c.v, me, false); { Buf& nb = *(*bufs)[c.buf]; int a = mats::DS[h.v.depth], z = mats::DS[c.v.depth]; for (size_t k = 0; k < h.v.off.size(); ++k) for (int ch = 0; ch < h.v.ch; ++ch) mats::put(c.v.depth, &nb.mem[c.v.off[k] + ch * z], mats::get(h.v.depth, &buf(h).mem[h.v.off[k] + ch * a])); }
			own.push_back(c); verify(own.back(), me, conv ? "converting" : "copy_from"); break; }
		default: { // compare with a copy of its own
			if (b.writer != -1 && !mine) break; bool eq, eq2 = true, ne = false; int k = rng().below(h.v.off.size()), c = rng().below(h.v.ch); std::vector<int> x(D); int r = k; for (int d = D - 1; d >= 0; --d) { x[d] = r % h.v.sizes[d]; r /= h.v.sizes[d]; }
			unsigned char raw[8]; double old = mats::get(h.v.depth, &buf(h).mem[h.v.off[k] + c * mats::DS[h.v.depth]]); mats::put(h.v.depth, raw, old > 50 ? old - 3 : old + 3);
			{ Sut on; mt_mat t = h.m->clone(); eq = *h.m == t; eq2 = t == *h.m; memcpy(t.ptr<u8>(D, &x[0], c), raw, mats::DS[h.v.depth]); ne = *h.m != t; }
			if (!eq || !eq2) violation("wrong-value", "a matrix (%s) is not equal to its clone", mats::shape(h.v).c_str()); if (!ne) violation("wrong-value", "a matrix (%s) is equal to one that differs in element %d", mats::shape(h.v).c_str(), k); break; }
		}
		count("operations");
	}
	int end = rng().below(3); for (size_t i = 0; i < own.size(); ++i) { if (end == 0 && rng().below(2)) box->push_back(own[i]); else drop(own[i]); }
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log);
	bufs = new std::vector<Buf*>(); roots = new std::vector<Handle>(); box = new std::vector<Handle>(); foreign_mem = new std::vector<void*>();
	int nthreads = (int)param("threads", 1, 5), nroots = (int)param("roots", 0, 3); g_ops = (int)param("operations", 1, 25); max_dims = (int)param("dims", 1, 6); max_elems = 1 + rng().below(rng().below(4) ? 40 : rng().below(30) ? 300 : 3000);
	{ Sut s; mt_mat m(1, mt_U8C1); basiclog_info2("first"); } log->out.clear();
	HeapStats before = sut_heap();
	for (int i = 0; i < nroots; ++i) { Handle h = make(-1); for (int k = rng().below(3); k > 0; --k) { const char* w; View nv = h.v; int r; { Sut on; r = mats::step(rng(), *h.m, nv, w, true); } if (r) h.v = nv; { Sut on; nv = View(); } verify(h, -1, r ? w : "nothing"); } roots->push_back(h); }
	{ Threads th; for (int t = 0; t < nthreads; ++t) th.start([t] { work(t); }); int early = param("drop_roots_early", 0, 1); (void)early; th.join(); }
	for (size_t i = 0; i < box->size(); ++i) verify((*box)[i], -2, "all threads ended");
	for (size_t i = 0; i < roots->size(); ++i) verify((*roots)[i], -2, "all threads ended");
	for (size_t i = 0; i < roots->size(); ++i) drop((*roots)[i]);
	for (size_t i = 0; i < box->size(); ++i) { verify((*box)[i], -2, "the shared handle was dropped"); drop((*box)[i]); }
	for (size_t i = 0; i < bufs->size(); ++i) { Buf* b = (*bufs)[i]; if (!b->foreign && block_serial(b->at) == b->serial) violation("not-released", "the last handle is gone, yet its memory (%zu bytes) is still held", b->mem.size()); if (b->foreign && memcmp(b->at, &b->mem[0], b->mem.size())) violation("wrong-value", "memory provided by the user does not hold what was written through its matrices"); }
	for (size_t i = 0; i < foreign_mem->size(); ++i) { if (!heap_owns((*foreign_mem)[i], 1)) violation("released-twice", "memory provided by the user was released"); free((*foreign_mem)[i]); }
	for (size_t i = 0; i < log->out.size(); ++i) if (log->out[i].find("[warning]") == std::string::npos) violation("false-error", "a legal operation logged: %s", log->out[i].c_str());
	size_t nb = bufs->size(); { std::vector<Buf*> x; bufs->swap(x); std::vector<Handle> y, z; roots->swap(y); box->swap(z); std::vector<void*> w; foreign_mem->swap(w); }
	leak_check(before, "");
	heap_check(); count("buffers", nb); if (nthreads > 1) nontrivial(mix2(nb, steps()));
	note("%d threads, %d roots, %zu buffers", nthreads, nroots, nb);
}
Registrar r({"C13", run, 100000, 500000,
	"one run: 1 to 5 threads make, copy, assign, slice, flip, reshape, split, clone, convert, write, compare, hand over and drop handles of their own, taken from shared constant matrices or made by themselves (cached constructors, create, adopted and borrowed memory; any type, 1 to 8 dimensions). After each operation the handle's shape, the address and value of every element and the liveness of its memory are compared with a reference model; at the end every buffer must be gone and nothing released twice. Non-trivial: several threads.",
	"basicmath/src/mt_mat.cpp, mt_array_iteration.cpp, mt_mat_cache.cpp, mt_helper.cpp; basicsys/src/sys_thread_lock.cpp (real code)", "thread scheduling, heap (simulated), log output (captured)"});
}
