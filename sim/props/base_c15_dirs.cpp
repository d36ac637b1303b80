// C15: directory operations on a simulated disk, by several threads, with failing system calls.
#include <algorithm>
#include "common.h"
using namespace sim;
namespace {
struct Entry { char kind; std::string body; bool operator==(const Entry& o) const { return kind == o.kind && body == o.body; } };
typedef std::map<std::string, Entry> Tree;
struct Walk { Tree* t; const std::string* under; };
bool below(const std::string& p, const std::string& d) { return p.size() > d.size() && !p.compare(0, d.size(), d) && p[d.size()] == '/'; }
void visit(const char* path, bool dir, void* a) {
	Walk* w = (Walk*)a; std::string p = path; if (p != *w->under && !below(p, *w->under)) return;
	Entry e; const char* l = vfs::link_of(path); e.kind = l ? 'L' : dir ? 'D' : 'F'; if (l) e.body = l; else if (!dir && vfs::size(path) > 0) e.body.assign((const char*)vfs::data(path), (size_t)vfs::size(path)); (*w->t)[p] = e;
}
Tree snap(const std::string& under) { Tree t; Walk w = {&t, &under}; vfs::each(visit, &w); return t; }
std::string diff(const Tree& want, const Tree& got) {
	for (Tree::const_iterator i = want.begin(); i != want.end(); ++i) { Tree::const_iterator j = got.find(i->first); if (j == got.end()) return quote(i->first) + " is missing"; if (!(j->second == i->second)) return quote(i->first) + " has other contents (" + i->second.kind + quote(i->second.body) + " / " + j->second.kind + quote(j->second.body) + ")"; }
	for (Tree::const_iterator j = got.begin(); j != got.end(); ++j) if (!want.count(j->first)) return quote(j->first) + " should not be there";
	return "";
}
const char* const NAMES[] = {"a", "b", "c", "data", "a b", "it's", "$HOME", "-r", "x;y", "img*", "q\"uote", "name.txt", "b.txt.txt", "txt", ".txt", "c.jpg", "xtxt", "a.txt.bak", "(1)", "\xe5\xbd\xa9", "#1", "~", "n&m", "e.", "..f", "...", "ab"};
int g_long;
std::string name() { int r = rng().below(8); if (g_long && r == 0) return std::string(100 + rng().below(90), 'a' + rng().below(3)); return NAMES[rng().below(r < 5 ? 5 : (int)(sizeof NAMES / sizeof *NAMES))]; }
std::string pick(const Tree& t, const char* kinds) { std::vector<const std::string*> v; for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) if (strchr(kinds, i->second.kind)) v.push_back(&i->first); return v.empty() ? "" : *v[rng().below(v.size())]; }
std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }
bool through_link(const Tree& t, const std::string& p) { for (size_t k = p.find('/', 1); k != std::string::npos; k = p.find('/', k + 1)) { Tree::const_iterator i = t.find(p.substr(0, k)); if (i != t.end() && i->second.kind == 'L') return true; } return false; }
void grow(const std::string& root, int n, bool links, const std::string& outside) {
	vfs::mkdirs(root.c_str());
	for (int i = 0; i < n; ++i) {
		Tree t = snap(root); std::string d = pick(t, "D"); std::string p = d + "/" + name(); if (vfs::exists(p.c_str()) || vfs::link_of(p.c_str()) || p.size() > 900) continue;
		int r = rng().below(8); if (r < 3) vfs::mkdirs(p.c_str()); else if (r < 7 || !links) { std::string c(rng().below(40), 'x'); for (size_t k = 0; k < c.size(); ++k) c[k] = (char)rng().next(); vfs::put(p.c_str(), c.data(), c.size()); } else { std::string to = rng().below(3) ? outside : rng().below(2) ? d : root + "/nowhere"; vfs::symlink(p.c_str(), to.c_str()); }
	}
}
u64 ok_ops, refused_ops, faulted_ops, raced;
// One call and its consequences, on a tree that only this thread changes.
void step(const std::string& root) {
	Tree b = snap(root), want = b; u64 f0 = vfs::failures(); int op = rng().below(13); bool ok = false, told = false, must = true; std::string what, p, q;
	std::vector<std::string> list, expect; bool listing = false; std::string deleted; bool whole = true;   // deleted: what may go when calls fail
	if (op < 3) {
		std::string d = rng().below(6) ? pick(b, "D") : pick(b, "FDL"); if (d.empty()) d = root; p = d; int n = rng().below(g_long ? 9 : 4); for (int i = 0; i < n; ++i) p += "/" + name(); if (p.size() > 1700) return; if (through_link(b, p + "/x")) return; bool slash = rng().below(3) || (b.count(p) && b[p].kind != 'D'); bool blocked = false;
		for (size_t k = p.find('/', 1);; k = p.find('/', k + 1)) { std::string s = p.substr(0, k); if (s.size() >= root.size()) { if (!want.count(s)) { Entry e; e.kind = 'D'; want[s] = e; } else if (want[s].kind != 'D') blocked = true; } if (k == std::string::npos) break; }
		std::string arg = p + (slash ? "/" : ""); { Sut on; ok = sys_path::create_multi_dir(arg); } told = true; what = "create_multi_dir(" + quote(arg) + ")"; must = !blocked;
		Tree a = snap(root); bool faulty = vfs::failures() != f0;
		if (ok && !vfs::is_dir(p.c_str())) violation("not-created", "%s reported success but the directory does not exist", what.c_str());
		if (!ok && vfs::is_dir(p.c_str())) violation("false-failure", "%s reported failure but the directory exists", what.c_str());
		if (!ok && !blocked && !faulty) violation("false-failure", "%s reported failure on a healthy disk", what.c_str());
		if (ok && diff(want, a) != "") violation("wrong-effect", "%s: %s", what.c_str(), diff(want, a).c_str());
		if (!ok) for (Tree::iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first) && (!want.count(i->first) || i->second.kind != 'D')) violation("wrong-effect", "%s made %s", what.c_str(), quote(i->first).c_str());
		if (!ok) for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (!a.count(i->first) || !(a[i->first] == i->second)) violation("wrong-effect", "%s changed %s", what.c_str(), quote(i->first).c_str());
		(ok ? ok_ops : refused_ops)++; if (faulty) faulted_ops++; return;
	}
	if (op < 6) {
		listing = true; p = rng().below(8) ? pick(b, "D") : pick(b, "FDL") + (rng().below(2) ? "x" : ""); static const char* EXT[] = {"", "", ".txt", "txt", ".jpg", "t", ".", "a", "b.txt", ".bak"}; std::string ext = EXT[rng().below(10)]; std::string dir = p + "/"; if (through_link(b, dir)) return; bool there = b.count(p) && b[p].kind == 'D';
		if (rng().below(2)) list.push_back("left over");
		for (Tree::iterator i = b.begin(); there && i != b.end(); ++i) if (parent(i->first) == p) { std::string n = i->first.substr(p.size() + 1); bool d = i->second.kind == 'D', match = n.size() >= ext.size() && !n.compare(n.size() - ext.size(), ext.size(), ext); if (op == 5 ? d : !d && match) expect.push_back(op == 3 ? dir + n : op == 4 ? n : dir + n + "/"); }
		{ Sut on; if (op == 3) { if (ext.empty() && rng().below(2)) sys_path::get_file_path(list, dir); else sys_path::get_file_path(list, dir, ext); } else if (op == 4) sys_path::get_file_name(list, dir, ext); else sys_path::get_dir_path(list, dir); }
		what = std::string(op == 3 ? "get_file_path(" : op == 4 ? "get_file_name(" : "get_dir_path(") + quote(dir) + (op == 5 ? ")" : ", \"" + ext + "\")");
		std::vector<std::string> got = list; std::sort(got.begin(), got.end()); std::sort(expect.begin(), expect.end()); bool faulty = vfs::failures() != f0;
		for (size_t i = 0; i + 1 < got.size(); ++i) if (got[i] == got[i + 1]) violation("listed-twice", "%s lists %s twice", what.c_str(), quote(got[i]).c_str());
		for (size_t i = 0; i < got.size(); ++i) if (!std::binary_search(expect.begin(), expect.end(), got[i])) violation("wrong-listing", "%s lists %s", what.c_str(), quote(got[i]).c_str());
		if (!faulty) for (size_t i = 0; i < expect.size(); ++i) if (!std::binary_search(got.begin(), got.end(), expect[i])) violation("wrong-listing", "%s does not list %s", what.c_str(), quote(expect[i]).c_str());
		std::vector<std::string>().swap(list);
		if (diff(b, snap(root)) != "") violation("wrong-effect", "%s: %s", what.c_str(), diff(b, snap(root)).c_str()); ok_ops++; return;
	}
	if (op == 6) { p = rng().below(8) ? pick(b, "FD") : pick(b, "FD") + "x"; if (through_link(b, p)) return; bool e; { Sut on; e = sys_path::is_exist(p); } if (e != (b.count(p) != 0)) violation("wrong-existence", "is_exist(%s) is %d", quote(p).c_str(), (int)e); if (diff(b, snap(root)) != "") violation("wrong-effect", "is_exist: %s", diff(b, snap(root)).c_str()); ok_ops++; return; }
	if (op == 7) { p = rng().below(8) ? pick(b, "FL") : root + "/none"; if (p.empty()) return; { Sut on; sys_path::delete_file(p); } want.erase(p); deleted = p; what = "delete_file(" + quote(p) + ")"; }
	else if (op == 8) { p = pick(b, "D"); if (p == root && rng().below(4)) return; bool force = rng().below(3) != 0; { Sut on; sys_path::delete_dir(p + "/", force); } what = "delete_dir(" + quote(p + "/") + (force ? ", true)" : ", false)"); bool empty = true; for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (below(i->first, p)) empty = false; if (force || empty) { for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (i->first == p || below(i->first, p)) want.erase(i->first); deleted = p; } else deleted = "/nothing"; if (want.empty() && !vfs::exists(root.c_str())) { vfs::mkdirs(root.c_str()); want = snap(root); } }
	else if (op == 9) { p = pick(b, "D"); if (p == root && rng().below(4)) return; { Sut on; sys_path::delete_sub_dir(p + "/"); } what = "delete_sub_dir(" + quote(p + "/") + ")"; for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (below(i->first, p)) want.erase(i->first); deleted = p; whole = false; }
	else {
		bool move = op == 12, file = move ? rng().below(2) : rng().below(4); p = rng().below(10) ? pick(b, file ? "F" : "D") : pick(b, "D") + "/none"; if (p.empty() || p == root) return;
		q = rng().below(4) == 0 ? pick(b, "F") : rng().below(12) == 0 ? pick(b, "D") + "/no dir/x" : pick(b, "D") + "/" + name(); if (q.empty() || q.size() > 1500) return; bool refuse = rng().below(2);
		bool src = b.count(p) != 0, sdir = src && b[p].kind == 'D', dst = b.count(q) != 0, place = b.count(parent(q)) && b[parent(q)].kind == 'D';
		if (dst && b[q].kind != 'F' && !move) return; if (sdir && (q == p || below(q, p)) && !move) return; bool inside = sdir && below(q, p); if (below(p, q)) return; if (p == q && !refuse) return; if (dst && b[q].kind == 'L') return;
		if (move) { { Sut on; ok = sys_path::move_file(q, p, refuse); } what = "move_file("; } else { { Sut on; ok = sys_path::copy_file(q, p, refuse); } what = "copy_file("; }
		what += quote(q) + ", " + quote(p) + (refuse ? ", true)" : ", false)"); bool legal = src && place && !inside && (!dst || (!refuse && !sdir && !move)); if (dst && !refuse && move) must = false;
		Tree moved = b; for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (i->first == p || below(i->first, p)) { moved[q + i->first.substr(p.size())] = i->second; } if (move) for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (i->first == p || below(i->first, p)) moved.erase(i->first);
		Tree a = snap(root); bool faulty = vfs::failures() != f0;
		if (ok && dst && refuse) violation("not-refused", "%s reported success although the destination existed", what.c_str());
		if (ok && !src) violation("false-success", "%s reported success although there was no source", what.c_str());
		if (ok && diff(moved, a) != "") violation("false-success", "%s reported success but %s", what.c_str(), diff(moved, a).c_str());
		if (!ok && legal && !faulty && must) violation("false-failure", "%s reported failure on a healthy disk", what.c_str());
		if (!ok && (move || !legal || !faulty) && diff(b, a) != "") violation("wrong-effect", "%s reported failure but %s", what.c_str(), diff(b, a).c_str());
		if (!ok) { for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (i->first != q && !(a.count(i->first) && a[i->first] == i->second)) violation("wrong-effect", "%s reported failure but changed %s", what.c_str(), quote(i->first).c_str()); for (Tree::iterator i = a.begin(); i != a.end(); ++i) if (i->first != q && !below(i->first, q) && !b.count(i->first)) violation("wrong-effect", "%s reported failure but made %s", what.c_str(), quote(i->first).c_str()); }
		(ok ? ok_ops : refused_ops)++; if (faulty) faulted_ops++; return;
	}
	// deletions
	Tree a = snap(root); bool faulty = vfs::failures() != f0; if (op == 8 && a.empty()) { vfs::mkdirs(root.c_str()); }
	if (!faulty && diff(want, a) != "") violation("wrong-effect", "%s: %s", what.c_str(), diff(want, a).c_str());
	for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (!a.count(i->first)) { if (!below(i->first, deleted) && !(whole && i->first == deleted)) violation("deleted-too-much", "%s deleted %s", what.c_str(), quote(i->first).c_str()); } else if (!(a[i->first] == i->second)) violation("wrong-effect", "%s changed %s", what.c_str(), quote(i->first).c_str());
	for (Tree::iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first)) violation("wrong-effect", "%s made %s", what.c_str(), quote(i->first).c_str());
	if (!vfs::is_dir(root.c_str())) vfs::mkdirs(root.c_str());
	ok_ops++; if (faulty) faulted_ops++;
}
std::vector<std::string>* shared_paths; bool g_faults; int g_ops;
void shared_step() {
	const std::string& p = (*shared_paths)[rng().below(shared_paths->size())]; bool slash = rng().below(2); std::string arg = "/w/shared/" + p + (slash ? "/" : ""); bool ok; u64 f0 = vfs::failures(), o0 = vfs::ops();
	if (rng().below(4)) {
		{ Sut on; ok = sys_path::create_multi_dir(arg); } bool there = vfs::is_dir(arg.c_str());
		if (ok && !there) violation("not-created", "create_multi_dir(%s) reported success but the directory does not exist", quote(arg).c_str());
		if (!ok && vfs::failures() == f0) violation("false-failure", "create_multi_dir(%s) reported failure on a healthy disk while other threads made the same directories", quote(arg).c_str());
		(ok ? ok_ops : refused_ops)++; (void)o0; ++raced;
	} else {
		std::string d = "/w/shared/"; std::vector<std::string> list; Tree b = snap("/w/shared"); bool links = false; (void)links; { Sut on; sys_path::get_dir_path(list, d); }
		for (size_t i = 0; i < list.size(); ++i) { if (!vfs::is_dir(list[i].c_str())) violation("wrong-listing", "get_dir_path lists %s, which does not exist", quote(list[i]).c_str()); for (size_t k = 0; k < i; ++k) if (list[k] == list[i]) violation("listed-twice", "get_dir_path lists %s twice", quote(list[i]).c_str()); }
		if (vfs::failures() == f0) for (Tree::iterator i = b.begin(); i != b.end(); ++i) if (parent(i->first) == "/w/shared" && std::find(list.begin(), list.end(), i->first + "/") == list.end()) violation("wrong-listing", "get_dir_path does not list %s, which existed all the time", quote(i->first).c_str());
		std::vector<std::string>().swap(list);
	}
	count("shared_operations");
}
void run() {
	CaptureLogger* log = new CaptureLogger(true); log->yields = false; basiclog::log_logger::init_logger(log); vfs::reset(); ok_ops = refused_ops = faulted_ops = raced = 0;
	int nt = (int)param("threads", 1, 4); g_ops = (int)param("operations", 1, 25); int entries = (int)param("entries", 0, 25); g_long = (int)param("long_names", 0, 3) == 3; int shared = (int)param("shared", 0, 10); bool links = param("links", 0, 1); g_faults = param("faults", 0, 2) == 2;
	vfs::mkdirs("/w/shared"); vfs::mkdirs("/keep/inner"); vfs::put("/keep/inner/file", "precious", 8); vfs::protect("/keep"); vfs::protect("/keep/inner"); vfs::protect("/keep/inner/file"); vfs::protect("/w/shared");
	shared_paths = new std::vector<std::string>(); for (int i = 0; i < 4; ++i) { std::string p = i && rng().below(2) ? (*shared_paths)[i - 1] : ""; int n = 1 + rng().below(4); for (int k = 0; k < n; ++k) p += (p.empty() ? "" : "/") + std::string(1, 'a' + rng().below(3)); shared_paths->push_back(p); }
	std::vector<std::string> roots; for (int t = 0; t < nt; ++t) { std::string r = "/w/t" + std::to_string(t); roots.push_back(r); grow(r, entries + (rng().below(60) ? 0 : 100), links, rng().below(2) ? "/keep" : "/keep/inner/file"); }
	{ Sut s; sys_path::is_exist("/w"); std::vector<std::string> l; sys_path::get_file_path(l, "/w/"); }
	HeapStats before = sut_heap();
	if (g_faults) { u32 d = 1 + rng().below(150); vfs::set_faults(0, rng().below(2) ? d : 0, 0, 0, 0, d); if (rng().below(6) == 0) vfs::set_full(true); }
	{ Threads th; for (int t = 0; t < nt; ++t) th.start([&, t] { for (int k = 0; k < g_ops; ++k) { if ((int)rng().below(10) < shared) shared_step(); else step(roots[t]); } }); th.join(); }
	vfs::set_faults(0, 0, 0, 0, 0, 0); vfs::set_full(false);
	// everything asked for can be made once the disk is healthy
	for (size_t i = 0; i < shared_paths->size(); ++i) { std::string p = "/w/shared/" + (*shared_paths)[i]; bool ok; { Sut on; ok = sys_path::create_multi_dir(p + "/"); } if (!ok || !vfs::is_dir(p.c_str())) violation("false-failure", "create_multi_dir(%s) failed after the faults were over", quote(p).c_str()); }
	Tree keep = snap("/keep"); if (keep.size() != 3 || keep["/keep/inner/file"].body != "precious") violation("deleted-too-much", "something outside the directories worked on was changed");
	if (vfs::open_dirs()) violation("dir-left-open", "%d directories are still open", vfs::open_dirs());
	leak_check(before, "");
	heap_check(); count("succeeded", ok_ops); count("refused", refused_ops); count("faulted", faulted_ops); count("raced_creations", nt > 1 ? raced : 0);
	if ((nt > 1 && raced > 1) || faulted_ops) nontrivial(mix2(vfs::tree_hash(), steps()));
	note("%d threads, %llu operations succeeded, %llu refused, %llu hit a fault", nt, ok_ops, refused_ops, faulted_ops);
}
Registrar r({"C15", run, 60000, 1000000,
	"one run: 1 to 4 threads, each with a random directory tree of its own (names with blanks, quotes, shell characters, lengths up to 190, links to files and directories outside), create, list, delete, copy and move in it, and all create overlapping paths in one shared directory; mkdir, remove, rename, opendir, readdir, the shell and writes fail, the disk fills. After every call the whole tree is compared with what the call's outcome allows. Non-trivial: several threads created shared paths, or a fault was met.",
	"basicsys/src/sys_path.cpp, sys_strhelper.cpp, sys_strcombine.cpp (real code)", "file system and shell (simulated), thread scheduling, heap, log output (captured)"});
}
