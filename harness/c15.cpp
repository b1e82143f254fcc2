// C15: running out of memory or descriptors, at every point of a call
#include "session.h"
#include "containers.h"
#include <sys/wait.h>
void prop_init() { start_library(); }
void prop_done() {}
namespace {
const Interpose::Kind kinds[] = {Interpose::MALLOC, Interpose::DUP, Interpose::UNCOMPRESS};
const char *kname[] = {"allocation", "descriptor", "decompression"};
// One kind of call. Runs it and judges it; whether it failed.
enum What { ASK, OPEN_MANY, DIR_WALK, OPEN_IMAGE, EXTRACT, KEPT_LIST, TRAVERSE, HISTORY, WHATS };
struct Op { What what; Query q; const Node *n; u64 seed; string path; int count; };
struct World { std::unique_ptr<Opened> o; std::unique_ptr<Session> held; Image *im; };
string tempdir() { const char *t = getenv("TMPDIR"); return t ? t : "/tmp"; }
size_t files_in_tmp() { size_t n = 0; DIR *d = opendir(tempdir().c_str()); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
const Node *short_file(Rng &r, const Image &im) { for (;;) { const Node *n = random_node(r, im, T_REG); if (im.contents[n->content]->size < 3000000) return n; } }
bool run_op(World &w, const Op &op, bool fault) {
	Tol tol; tol.may_fail = fault; sqfs *fs = w.o->fs; Rng r(op.seed);
	switch (op.what) {
	case ASK: return ask(fs, *w.im, op.q, tol).failed;
	case OPEN_MANY: { // several descriptors of each kind; the numbers that were given out are right
		vector<std::pair<int, const Node *>> fds; vector<std::pair<SQUASH_DIR *, const Node *>> ds; bool failed = false; int left = op.count;
		while (left-- > 0) { const Node *n = random_node(r, *w.im, r.chance(70) ? T_REG : T_DIR); string p = "/" + n->path;
			if (n->isdir()) { SQUASH_DIR *d = squash_opendir(fs, p.c_str()); if (d) ds.push_back({d, n}); else { failed = true; if (!fault) violation("opendir", "squash_opendir failed: " + p); } }
			else { int fd = squash_open(fs, p.c_str()); if (fd >= 0) fds.push_back({fd, n}); else { failed = true; if (fd != -1) violation("open-value", "squash_open failed with another value than -1"); if (!fault) violation("open", "squash_open failed: " + p + " " + errname(errno)); } } }
		u64 fired = ip.fired(); (void)fired; ip.disarm(); tol.may_fail = false; set<int> seen;
		for (auto &f : fds) { if (!seen.insert(f.first).second || !SQUASH_VALID_VFD(f.first)) violation("fd-number", fmt("the descriptor number %d is not valid or issued twice", f.first)); struct stat st; if (squash_fstat(f.first, &st)) violation("fstat", "squash_fstat of an open descriptor failed"); string x = check_stat(*w.im, f.second, st); if (!x.empty()) violation("fstat", "squash_fstat: " + x); if (f.second->type == T_REG) { char b[200]; const Content &c = *w.im->contents[f.second->content]; ssize_t g = squash_read(f.first, b, sizeof b); if (g != (ssize_t)std::min<u64>(sizeof b, c.size)) violation("read-count", fmt("squash_read gave %zd", g)); string y = compare(c, 0, (u8 *)b, g); if (!y.empty()) violation("read-bytes", y); } }
		for (auto &d : ds) { int k = squash_dirfd(d.first); if (!seen.insert(k).second || !SQUASH_VALID_VFD(k)) violation("fd-number", fmt("the descriptor number %d of a stream is not valid or issued twice", k)); size_t i = 0; while (struct SQUASH_DIRENT *e = squash_readdir(d.first)) { if (i >= d.second->kids.size() || d.second->kids[i].name != e->d_name) violation("readdir-entry", "squash_readdir gave a wrong entry"); ++i; } if (i != d.second->kids.size()) violation("readdir-short", "squash_readdir ended early"); }
		for (auto &f : fds) if (squash_close(f.first)) violation("close", "squash_close failed"); for (auto &d : ds) if (squash_closedir(d.first)) violation("closedir", "squash_closedir failed"); for (int f : seen) if (SQUASH_VALID_VFD(f)) violation("fd-number", "a closed descriptor is still valid");
		return failed; }
	case DIR_WALK: { // reading goes on where it failed
		ip.disarm(); const Node *n = op.n; SQUASH_DIR *d = squash_opendir(fs, ("/" + n->path).c_str()); if (!d) violation("opendir", "squash_opendir failed"); size_t i = 0; bool failed = false; if (fault) ip.arm(kinds[op.count % 3], op.count / 6 + 1, op.count / 3 % 2);
		for (;;) { errno = 0; struct SQUASH_DIRENT *e = squash_readdir(d); if (e) { if (i >= n->kids.size() || n->kids[i].name != e->d_name || n->kids[i].node->inum != e->d_ino || e->d_type != dtype(n->kids[i].node)) violation("readdir-entry", fmt("squash_readdir at %zu gave %s", i, show(e->d_name).c_str())); ++i; continue; } int er = errno; if (!er) { if (i != n->kids.size()) violation("readdir-short", fmt("squash_readdir of %s reported the end at entry %zu of %zu%s", show(n->path).c_str(), i, n->kids.size(), fault ? " when resources ran out" : "")); break; } failed = true; if (!ip.fired()) violation("readdir-failed", fmt("squash_readdir failed with %s", errname(er).c_str())); ip.disarm(); if (op.seed & 1) { squash_rewinddir(d); i = 0; } }
		if (squash_closedir(d)) violation("closedir", "squash_closedir failed"); return failed; }
	case OPEN_IMAGE: { sqfs *f = fs_alloc(); memset(f, 0xa5, sizeof *f); sqfs_err e = sqfs_open_image(f, w.o->mem->base, w.o->mem->offset); if (!e) { ip.disarm(); if (!w.im->prof.root_alias.empty()) f->root_alias = w.im->prof.root_alias.c_str(); if (!w.im->prof.root_alias2.empty()) f->root_alias2 = w.im->prof.root_alias2.c_str(); Tol t; for (int i = 0; i < 4; ++i) ask(f, *w.im, random_query(r, *w.im), t); sqfs_destroy(f); } else if (!fault) violation("open-image", fmt("sqfs_open_image failed with %d", e)); fs_release(f); return e != SQFS_OK; }
	case EXTRACT: { size_t before = files_in_tmp(); const char *g = squash_extract(fs, op.path.c_str(), op.seed & 1 ? "so" : nullptr); ip.disarm(); const Content &c = *w.im->contents[op.n->content]; bool failed = !g; if (!g) { if (!fault) violation("extract", "squash_extract failed with " + errname(errno)); } else { FILE *fp = fopen(g, "rb"); if (!fp) violation("extract-missing", fmt("the extracted file %s does not exist", g)); vector<u8> b(c.size + 1); size_t k = fread(b.data(), 1, c.size + 1, fp); fclose(fp); if (k != c.size) violation("extract-size", fmt("the copy of %s has %zu bytes of %llu", show(op.path).c_str(), k, (unsigned long long)c.size)); string x = compare(c, 0, b.data(), k); if (!x.empty()) violation("extract-bytes", "a copy: " + x); } if (!fault) squash_extract_clear_cache(); size_t now = files_in_tmp(); if (!fault ? now > before : now != before + !!g) violation("extract-left", fmt("%zu files in the temporary directory, before %zu, after an extraction that %s", now, before, g ? "worked" : "failed")); 
		if (fault && op.seed & 2) { // the cache works after it: the same copy is found, another one may be made
			string first = g ? g : ""; const char *h = squash_extract(fs, op.path.c_str(), op.seed & 1 ? "so" : nullptr); if (!h) violation("extract", "squash_extract of the same file, without a fault, failed with " + errname(errno)); if (g && first != h) violation("extract-again", "a second extraction gave another copy"); if (files_in_tmp() != before + 1) violation("extract-left", fmt("%zu files in the temporary directory, before %zu, after two extractions of one file", files_in_tmp(), before));
			const Node *m = short_file(r, *w.im); h = squash_extract(fs, ("/" + m->path).c_str(), nullptr); if (!h) violation("extract", "squash_extract of another file, without a fault, failed with " + errname(errno)); count("extractions after a fault"); }
		if (fault) squash_extract_clear_cache(); return failed; }
	case KEPT_LIST: { struct SQUASH_DIRENT **l = (struct SQUASH_DIRENT **)0x5a5a; static Rng *cr; (void)cr; int k = squash_scandir(fs, ("/" + op.n->path).c_str(), &l, nullptr, op.seed & 1 ? [](const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return -strcmp((*a)->d_name, (*b)->d_name); } : (int (*)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))nullptr); ip.disarm(); if (k < 0) { if (!fault) violation("scandir", "squash_scandir failed"); return true; } if ((size_t)k != op.n->kids.size()) violation("scandir-count", fmt("squash_scandir of %s returned %d of %zu entries", show(op.n->path).c_str(), k, op.n->kids.size())); vector<string> want; for (auto &e : op.n->kids) want.push_back(e.name); if (op.seed & 1) std::sort(want.rbegin(), want.rend()); for (int i = 0; i < k; ++i) { if (want[i] != l[i]->d_name) violation("scandir-entry", "squash_scandir gave a wrong entry"); vf_free(l[i]); } vf_free(l); return false; }
	case TRAVERSE: { TravMon t(fs, *w.im, op.n, tol, op.seed, op.seed & 1); int left = op.count; while (left-- > 0 && t.step()) ; return t.failed; }
	case HISTORY: { // many calls, some failing, with descriptors and streams held over the fault
		Session &s = *w.held; s.r = Rng(op.seed); s.tol.may_fail = fault; u64 f0 = s.failures; for (int i = 0; i < op.count; ++i) s.op(); ip.disarm(); s.tol.may_fail = false; return s.failures != f0; }
	default: return false;
	}
}
string describe(const Op &op) { static const char *n[] = {"", "open several", "read a stream of", "open the image", "extract", "scan", "traverse", "history"}; return op.what == ASK ? op.q.describe() : string(n[op.what]) + (op.n ? " /" + show(op.n->path) : ""); }
World make(Image &im, bool warm, u64 seed) { Rng r(seed); World w; w.im = &im; w.o.reset(new Opened(im, r, false)); w.held.reset(new Session(w.o->fs, im, Tol(), seed)); w.held->quiet = true; for (int i = 0; i < 3; ++i) { w.held->open_fd(); w.held->open_dir(); } if (warm) for (int i = 0; i < 25; ++i) w.held->op(); return w; }
void unmake(World &w, Rng &r) { w.held->check_held(); if (r.chance(50)) { Tol t; for (int i = 0; i < 3; ++i) ask(w.o->fs, *w.im, random_query(r, *w.im), t); } w.held.reset(); squash_extract_clear_cache(); w.o.reset(); }
}
// In a process that has not opened anything yet, and in one whose next descriptor number is beyond all earlier ones: in children, since that happens once
void first_ones(Rng &r, Image &im) {
	for (int grown = 0; grown < 2; ++grown) for (int k = 0; k < 3; ++k) {
		Op op; op.what = k == 0 ? OPEN_MANY : ASK; op.n = nullptr; op.seed = r.next(); op.count = 1 + (int)r.below(3); if (k) { op.q.kind = k == 1 ? Q_LIST : Q_OPENREAD; op.q.node = random_node(r, im, k == 1 ? T_DIR : T_REG); op.q.path = "/" + op.q.node->path; op.q.seed = r.next(); op.q.preset = 12345; op.q.off = 0; op.q.len = op.q.arg = 20; }
		for (u64 n = 1; n <= (getenv("VF_VALGRIND") ? 4 : 25); ++n) { int pp[2]; if (pipe(pp)) harness_error("pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork"); int sticky = (int)r.below(2); u64 seed = r.next(); int more = 60 + (int)r.below(300);
			if (!pid) { ::close(pp[0]); note(fmt("in a process that has opened %s: %s with a fault at allocation %llu%s", grown ? "a few descriptors, and whose next one is high" : "nothing", describe(op).c_str(), (unsigned long long)n, sticky ? " and all later" : ""));
				World w; Rng q(seed); w.im = &im; w.o.reset(new Opened(im, q, false)); vector<int> real; if (grown) { w.held.reset(new Session(w.o->fs, im, Tol(), seed)); w.held->quiet = true; for (int i = 0; i < 3; ++i) { w.held->open_fd(); w.held->open_dir(); } for (int i = 0; i < more; ++i) { int d = dup(1); if (d < 0) break; real.push_back(d); } }
				auto fds = open_fds(); ip.arm(Interpose::MALLOC, n, sticky); run_op(w, op, true); u64 fired = ip.fired(); ip.disarm(); if (open_fds() != fds) violation("descriptor-left", "a call that ran out of memory left a descriptor open"); for (int d : real) if (SQUASH_VALID_VFD(d)) violation("fd-number", fmt("%d, a real descriptor, is taken for a virtual one", d));
				if (w.held) w.held->check_held(); run_op(w, op, false); if (open_fds() != fds) violation("descriptor-left", "descriptors are left open"); if (w.held) { w.held->check_held(); w.held->close_all(); } char f = fired ? 1 : 0; if (::write(pp[1], &f, 1) < 0) {} _exit(0); }
			::close(pp[1]); char f = 0; ssize_t got = ::read(pp[0], &f, 1); ::close(pp[0]); int st = 0; waitpid(pid, &st, 0); if (WIFSIGNALED(st)) violation("died", fmt("a process that ran out of memory was killed by signal %d", WTERMSIG(st))); if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); evaluated(); count("first and high descriptors under faults"); if (got < 1 || !f) break; }
	}
}
// The table of descriptors is kept for good, and how it grows is its own affair: from here on it has room for every number, so that the ledgers are comparable
void high_number(Rng &r, Image &im) {
	Opened o(im, r, false); vector<int> real; for (int d; real.size() < 600 && (d = ::dup(1)) >= 0;) real.push_back(d); if (real.size() < 600) for (int i = 0; i < 30 && !real.empty(); ++i) { ::close(real.back()); real.pop_back(); } const Node *f = random_node(r, im, T_REG); int fd = squash_open(o.fs, ("/" + f->path).c_str()); if (fd < 0) violation("open", fmt("a descriptor beyond %zu others could not be had: %s", real.size(), errname(errno).c_str())); if (squash_close(fd)) violation("close", "it could not be closed"); for (int d : real) ::close(d);
}
void prop_case(Rng &r, u64 index) {
	for (int i = 0; i < 3; ++i) { hash_case(r, true); stack_case(r, true); }
	Profile p = random_profile(r); p.max_file = 9000; p.files = std::min(p.files, 15); if (index % 4 == 2) p.bs_log = 12; auto im = random_image(r, p); bool wide = index % 4 == 0;
	if (wide) { Node *d = im->add(im->root, free_name(im->root, "wide"), T_DIR); d->indexed = r.chance(50); int n = 20 + (int)r.below(120); for (int i = 0; i < n; ++i) { Node *f = im->add(d, free_name(d, fmt("entry-%d", i)), T_REG); random_meta(r, *im, f); im->content(f, r.below(50), Content::TEXT, 1); } }
	vector<Node *> straddlers; if (index % 4 == 1) straddlers = add_straddlers(r, *im, 30);
	vector<Node *> longs; if (index % 4 == 2) { Node *f = im->add(im->root, free_name(im->root, "short"), T_REG); random_meta(r, *im, f); im->content(f, r.below(3000), Content::TEXT, 1); }
	if (index % 4 == 2) for (int i = 0; i < 2; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("long%d", i)), T_REG); random_meta(r, *im, f); Content *c = im->content(f, (2100 + r.below(2500)) * im->bs() + r.below(im->bs()), Content::SPARSE, r.next()); c->sparse_every = 500; c->frag = r.chance(50); longs.push_back(f); }
	Node *deep = nullptr; if (index % 8 == 3) { deep = im->add(im->root, free_name(im->root, "deep index"), T_DIR); random_meta(r, *im, deep); deep->indexed = true; int n = 1000 + (int)r.below(200); for (int i = 0; i < n; ++i) { Node *f = im->add(deep, fmt("%04d", i) + string(200 + r.below(50), (char)('a' + i % 20)), T_FIFO); random_meta(r, *im, f); } }
	vector<Node *> ends; if (index % 8 == 7) { int n = 20 + (int)r.below(60); for (int i = 0; i < n; ++i) { Node *l = im->add(im->root, free_name(im->root, fmt("tl%d", i)), T_LNK); random_meta(r, *im, l); l->target = r.chance(50) ? string(200 + r.below(1700), 't') : fmt("%s/%s", string(200 + r.below(1700), '.').c_str(), r.chance(50) ? "f" : "../.."); ends.push_back(l); } }
	im->build(r); note(im->prof.describe()); if (im->all(T_REG).empty()) return;
	{ vector<Node *> over; for (auto *l : ends) if (l->in1 < l->ix1) over.push_back(l); if (!over.empty()) ends = over; }
	static bool begun; if (!begun) { begun = true; Rng q(r.next()); first_ones(q, *im); high_number(q, *im); } else r.next();
	int ops = deep ? (getenv("VF_VALGRIND") ? 3 : 9) : ends.empty() ? 14 : 8;
	for (int k = 0; k < ops; ++k) {
		Op op; op.what = r.chance(50) ? ASK : (What)r.below(WHATS); op.n = nullptr; op.seed = r.next(); op.count = 0;
		switch (op.what) {
		case ASK: op.q = random_query(r, *im); if (r.chance(50)) op.q.preset = 12345; if (!longs.empty() && r.chance(50)) { const Node *f = longs[r.below(2)]; u64 s = im->contents[f->content]->size; op.q.kind = r.chance(70) ? Q_OPENREAD : Q_READINODE; op.q.node = f; op.q.path = "/" + f->path; op.q.off = s - r.below(std::min<u64>(s, 60 * im->bs())); op.q.len = op.q.arg = 1 + r.below(20000); count("questions about files with an index"); }
				if (!straddlers.empty() && r.chance(60)) { static const QKind ks[] = {Q_LIST, Q_SCAN, Q_ITERATE, Q_ITERATE, Q_TRAVERSE}; op.q.kind = ks[r.below(5)]; op.q.node = straddlers[r.below(straddlers.size())]; op.q.path = "/" + op.q.node->path; op.q.seed = r.next(); }
				if (deep && r.chance(60)) { op.q.kind = r.chance(60) ? Q_LSTAT : Q_LOOKUP; op.q.node = op.q.kind == Q_LSTAT ? im->root : deep; op.q.arg = r.below(2); const string &nm = r.pick(deep->kids).name; op.q.path = (op.q.kind == Q_LSTAT ? "/" + deep->path + "/" : string()) + (r.chance(85) ? nm : nm.substr(0, 1 + r.below(nm.size()))); count("questions about directories with a long index"); }
				if (!ends.empty() && r.chance(60)) { static const QKind ks[] = {Q_READLINK, Q_READLINK, Q_LSTAT, Q_STAT}; op.q.kind = ks[r.below(4)]; op.q.node = r.pick(ends); op.q.path = "/" + op.q.node->path; op.q.arg = 4096; count("questions about links whose target reaches into another block"); } break; case OPEN_MANY: op.count = r.chance(80) ? 1 + (int)r.below(8) : 40 + (int)r.below(120); break;
		case DIR_WALK: case KEPT_LIST: case TRAVERSE: op.n = random_node(r, *im, T_DIR); if (!straddlers.empty()) op.n = straddlers[r.below(straddlers.size())]; op.count = r.chance(50) ? 1 << 30 : (int)r.below(20); break;
		case EXTRACT: op.n = short_file(r, *im); op.path = "/" + op.n->path; break; case HISTORY: op.count = 1 + (int)r.below(40); break; default: break; }
		// how many events there are, then a fault at each (or at many of them)
		bool warm = !deep && r.chance(50); u64 wseed = r.next(); Ledger base; bool based = false; string d = describe(op); if (k == 0 && index < 3) sample(d + ", with a fault at each allocation, descriptor and decompression");
		for (int kd = 0; kd < 3; ++kd) for (int sticky = 0; sticky < 2; ++sticky) {
			u64 n = 1, limit = opt.thorough ? 4000 : 60, tries = 0; if (op.what == EXTRACT && kd == 2 && sticky) { }
			for (;;) {
				if (op.what == DIR_WALK) op.count = (int)(n - 1) * 6 + sticky * 3 + kd;
				World w = make(*im, warm, wseed); note(fmt("%s: fault at %s %llu%s, %s", d.c_str(), kname[kd], (unsigned long long)n, sticky ? " and all later" : "", warm ? "warm" : "cold"));
				u64 nth_now = n; ip.arm(kinds[kd], nth_now, sticky); bool failed = run_op(w, op, true); u64 fired = ip.fired(), seen = ip.seen(kinds[kd]); ip.disarm();
				evaluated(); ++tries; if (fired) { count("faults"); count(fmt("faults: %s", kname[kd]).c_str()); if (failed) count("calls that failed"); else count("calls that coped"); distinct(mix64(op.seed ^ kd << 3 ^ sticky) ^ n * 77 ^ fnvs(d)); } else if (failed && op.what != ASK && op.what != HISTORY) violation("failed-without", d + " failed although no resource was missing");
				// what was open before is still right, and the call works now
				w.held->check_held(); if (op.what != DIR_WALK || true) { note("again, without a fault"); run_op(w, op, false); count("repetitions judged"); }
				unmake(w, r); Ledger l; if (!based) { // the first closed history gives the base
					based = true; base = l; } else { string x = l.against(base); if (!x.empty()) violation("leak", fmt("%s with a fault at %s %llu%s: %s", d.c_str(), kname[kd], (unsigned long long)n, sticky ? " and all later" : "", x.c_str())); }
				if (!fired) { (void)seen; break; }
				n += n < 40 ? 1 : 1 + r.below(1 + n / 8); if (tries >= limit) break;
			}
			// between descriptors, the point is anywhere
		}
	}
}
