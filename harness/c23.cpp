// C23: many threads use the interception layer
#include "wrap.h"
#include <pthread.h>
#include <sys/wait.h>
#include <atomic>
static string so_bytes;
namespace {
string slurp(const string &p) { string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k); ::close(fd); return s; }
void put(const string &p, const string &s) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) harness_error("cannot create " + p); if (::write(fd, s.data(), s.size()) < 0) {} ::close(fd); }
void wipe(const string &p) { if (p.compare(0, opt.scratch.size() + 1, opt.scratch + "/")) harness_error("outside the scratch directory"); struct stat st; if (::lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { ::chmod(p.c_str(), 0700); DIR *d = ::opendir(p.c_str()); vector<string> v; if (d) { while (dirent *e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); ::closedir(d); } for (auto &x : v) wipe(p + "/" + x); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
vector<string> names_in(const string &p) { vector<string> v; DIR *d = ::opendir(p.c_str()); if (!d) return v; while (dirent *e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); ::closedir(d); std::sort(v.begin(), v.end()); return v; }
string text(Rng &r, size_t n) { string s; s.reserve(n); while (s.size() < n) s += (char)r.next(); return s; }

// what the threads share: nothing of it changes while they run
struct Common { Image *im; sqfs *fs; string zone, icwd, base; vector<string> zdirs, libs; vector<Node *> libnodes; struct Pos { int fd; const Node *n; u64 pos; }; vector<Pos> shared; std::atomic<int> go; bool create = true; };
Common *C;
thread_local Rng *own_rng;
bool in_zone(const string &n) { return n == MOUNT || n == C->zone || n.compare(0, C->zone.size() + 1, C->zone + "/") == 0; }
string spelled(Rng &r, const string &p) { // p is absolute and below the mount point
	if (C->icwd.empty() || r.chance(50)) return p;
	if (p.size() > C->icwd.size() + 1 && p.compare(0, C->icwd.size() + 1, C->icwd + "/") == 0) return p[C->icwd.size() + 1] == '/' ? p : p.substr(C->icwd.size() + 1);
	string up; for (size_t i = strlen(MOUNT); i < C->icwd.size(); ++i) if (C->icwd[i] == '/') up += "../"; string rest = p.size() > strlen(MOUNT) ? p.substr(strlen(MOUNT) + 1) : "."; return rest.empty() || rest[0] == '/' ? p : up + rest; }
string give(const char *path) { string p = path, n; if (!stays(p) || p.size() > 1200 || !normal(p, n) || in_zone(n)) return ""; for (size_t i = strlen(MOUNT) + 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { string q; normal(p.substr(0, i), q); if (q != MOUNT && in_zone(q)) return ""; } return own_rng ? spelled(*own_rng, p) : p; }

struct Worker {
	int id; u64 seed; int ops, first; Rng r{1}; Session *s = nullptr; map<string, std::pair<bool, string>> made; // by path: directory?, content
	map<string, int> won; // exclusive creations that succeeded
	set<string> tried; u64 created = 0, shared_reads = 0, contested = 0, loads = 0, real = 0, asked = 0, hist = 0; int serial = 0;
	string some_dir() { if (r.chance(40)) { vector<string> v; for (auto &x : made) if (x.second.first && x.first.size() < 700) v.push_back(x.first); if (!v.empty()) return r.pick(v); } return r.pick(C->zdirs); }
	void make() {
		string p = some_dir() + fmt("/t%d-%d", id, serial++), q = spelled(r, p); bool dir = r.chance(40); if (r.chance(20)) q += dir ? "/" : ""; ++created; errno = 0;
		if (dir) { int rc = w_mkdir(q.c_str(), 0755); if (rc) violation("mkdir", fmt("mkdir of %s failed with %s", show(q).c_str(), errname(errno).c_str())); made[p] = {true, ""}; return; }
		int fd = r.chance(70) ? w_open3(q.c_str(), O_CREAT | O_RDWR | (r.chance(50) ? O_EXCL : 0), 0644) : w_openat4(AT_FDCWD, q.c_str(), O_CREAT | O_RDWR, 0644); if (fd < 0) violation("create", fmt("creating %s failed with %s", show(q).c_str(), errname(errno).c_str()));
		string t = text(r, r.below(3000)); if (::write(fd, t.data(), t.size()) != (ssize_t)t.size()) violation("write", "writing to a created file failed"); made[p] = {false, t}; if (w_close(fd)) violation("close", "closing a created file failed"); }
	void contest() { // all threads want the same names
		string p = r.pick(C->zdirs) + fmt("/s%d", (int)r.below(12)); int kind = (int)(fnvs(p) % 3); string q = spelled(r, p); ++contested; tried.insert(p); errno = 0;
		if (kind == 0) { int rc = w_mkdir(q.c_str(), 0755); if (!rc) ++won[p]; else if (errno != EEXIST) violation("mkdir", fmt("mkdir of %s, which several threads create, failed with %s", show(q).c_str(), errname(errno).c_str())); }
		else if (kind == 1) { int fd = w_open3(q.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) { ++won[p]; w_close(fd); } else if (errno != EEXIST) violation("create", fmt("exclusive creation of %s by several threads failed with %s", show(q).c_str(), errname(errno).c_str())); }
		else { int fd = w_open3(q.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644); if (fd < 0) violation("create", fmt("creation of %s by several threads failed with %s", show(q).c_str(), errname(errno).c_str())); if (::write(fd, "0123456789", 10) != 10) violation("write", "writing failed"); ++won[p]; w_close(fd); }
		struct stat st; if (w_stat(q.c_str(), &st) || S_ISDIR(st.st_mode) != (kind == 0)) violation("stat", fmt("%s, which exists by now, is not reported so", show(q).c_str())); }
	void ask_made() {
		if (made.empty()) return make(); auto it = made.begin(); std::advance(it, r.below(made.size())); const string &p = it->first; string q = spelled(r, p); bool dir = it->second.first; const string &data = it->second.second; struct stat st; ++asked;
		if (w_stat(q.c_str(), &st)) violation("stat", fmt("stat of the created %s failed with %s", show(q).c_str(), errname(errno).c_str())); if (S_ISDIR(st.st_mode) != dir || (!dir && st.st_size != (off_t)data.size())) violation("stat", fmt("the created %s is reported wrongly", show(q).c_str()));
		if (!dir) { int fd = w_open2(q.c_str(), O_RDONLY); if (fd < 0) violation("open", fmt("opening the created %s failed with %s", show(q).c_str(), errname(errno).c_str())); string b(data.size() + 10, 0); ssize_t g = w_read(fd, &b[0], b.size()); if (g != (ssize_t)data.size() || b.compare(0, g, data)) violation("content", "a created file has other content"); if (w_close(fd)) violation("close", "close failed"); return; }
		set<string> want, got; for (auto &x : made) if (x.first.size() > p.size() && x.first.compare(0, p.size() + 1, p + "/") == 0 && x.first.find('/', p.size() + 1) == string::npos) want.insert(x.first.substr(p.size() + 1));
		if (r.chance(50)) { DIR *d = w_opendir(q.c_str()); if (!d) violation("opendir", "opendir of a created directory failed"); while (struct dirent *e = w_readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) got.insert(e->d_name); if (w_closedir(d)) violation("closedir", "closedir failed"); }
		else { struct dirent **l; int n = w_scandir(q.c_str(), &l, nullptr, nullptr); if (n < 0) violation("scandir", "scandir of a created directory failed"); for (int i = 0; i < n; ++i) { if (strcmp(l[i]->d_name, ".") && strcmp(l[i]->d_name, "..")) got.insert(l[i]->d_name); vf_free(l[i]); } vf_free(l); }
		if (got != want) violation("list", fmt("the created %s lists %zu entries, %zu were created", show(q).c_str(), got.size(), want.size())); }
	void zone_list() { string d = r.pick(C->zdirs), q = spelled(r, d); DIR *h = w_opendir(q.c_str()); if (!h) violation("opendir", fmt("opendir of %s failed with %s", show(q).c_str(), errname(errno).c_str())); set<string> got; while (struct dirent *e = w_readdir(h)) got.insert(e->d_name); if (w_closedir(h)) violation("closedir", "closedir failed"); ++asked;
		for (auto &x : made) if (x.first.compare(0, d.size() + 1, d + "/") == 0 && x.first.find('/', d.size() + 1) == string::npos && !got.count(x.first.substr(d.size() + 1))) violation("list", fmt("the created %s is not listed", show(x.first).c_str())); }
	void shared_pread() {
		if (C->shared.empty()) return; auto &f = r.pick(C->shared); const Content &c = *C->im->contents[f.n->content]; u64 off = r.below(c.size + 20), n = 1 + r.below(r.chance(50) ? 50 : 3 * c.bs), exp = off >= c.size ? 0 : std::min(n, c.size - off); u8 *b = (u8 *)malloc(n); errno = 0; ssize_t g = w_pread(f.fd, b, n, (off_t)off); ++shared_reads;
		if (g != (ssize_t)exp) violation("pread", fmt("pread of %llu at %llu of %s (%llu bytes) gave %zd (%s)", (unsigned long long)n, (unsigned long long)off, show(f.n->path).c_str(), (unsigned long long)c.size, g, g < 0 ? errname(errno).c_str() : "-")); string w = compare(c, off, b, exp); if (!w.empty()) violation("pread", fmt("pread at %llu of %s: ", (unsigned long long)off, show(f.n->path).c_str()) + w); free(b);
		if (r.chance(30)) { struct stat st; if (w_fstat(f.fd, &st)) violation("fstat", "fstat of a shared descriptor failed"); string why = check_stat(*C->im, f.n, st); if (!why.empty()) violation("fstat", "fstat of a shared descriptor: " + why); } }
	void load() { if (C->libs.empty()) return; size_t k = r.below(C->libs.size()); string q = spelled(r, C->libs[k]); if (q.find('/') == string::npos) q = C->libs[k]; void *h = w_dlopen(q.c_str(), RTLD_NOW); ++loads; if (!h) violation("dlopen", fmt("loading the packed %s failed: %s", show(q).c_str(), dlerror())); dlclose(h); }
	void stream() { vector<const Node *> ds; for (int i = 0; i < 6; ++i) { const Node *d = random_node(r, *C->im, T_DIR); string n; if (d != C->im->root && !in_zone("/" + d->path)) ds.push_back(d); } if (ds.empty()) return; const Node *d = ds[0]; string q = give(("/" + d->path).c_str()); if (q.empty()) return; int fd = w_open2(q.c_str(), O_RDONLY); if (fd < 0) violation("open", fmt("opening %s failed with %s", show(q).c_str(), errname(errno).c_str())); DIR *h = w_fdopendir(fd); if (!h) violation("fdopendir", "fdopendir failed with " + errname(errno)); size_t n = 0; while (struct dirent *e = w_readdir(h)) { if (!d->kid(e->d_name)) violation("fdopendir", fmt("%s is listed in %s", show(e->d_name).c_str(), show(d->path).c_str())); ++n; } if (n != d->kids.size()) violation("fdopendir", fmt("%zu of %zu entries of %s are listed", n, d->kids.size(), show(d->path).c_str())); if (w_closedir(h)) violation("closedir", "closedir failed"); ++asked; }
	void real_op() { string p = C->base + "/real/" + (r.chance(30) ? fmt("mine%d", id) : string("f")); ++real; struct stat a; if (p.back() != 'f') { int fd = w_open3(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644); if (fd < 0) violation("real", "creating a real file failed with " + errname(errno)); string t = text(r, r.below(200)); if (::write(fd, t.data(), t.size()) < 0) {} if (w_close(fd)) violation("real", "close failed"); if (slurp(p) != t) violation("real", "a real file has other content"); return; } if (w_stat(p.c_str(), &a) || a.st_size != 4) violation("real", "a real file is not reported"); int fd = w_open2(p.c_str(), O_RDONLY); char b[9]; if (fd < 0 || w_read(fd, b, 9) != 4 || memcmp(b, "real", 4)) violation("real", "a real file is not read"); char g[4200]; if (!w_getcwd(g, sizeof g) || (C->icwd.empty() ? C->base + "/real" : C->icwd) != g) violation("getcwd", "getcwd reports another directory"); if (w_close(fd)) violation("real", "close failed"); }
	void run() {
		r = Rng(seed); Rng q(seed + 7); own_rng = &q; Session ss(C->fs, *C->im, Tol(), seed + 1); ss.quiet = true; ss.max_held = 4; ss.kinds = 1u << Q_STAT | 1u << Q_LSTAT | 1u << Q_OPENREAD | 1u << Q_READLINK | 1u << Q_LIST | 1u << Q_SCAN; s = &ss;
		C->go.fetch_sub(1); while (C->go.load() > 0) sched_yield();
		for (int i = 0; i < ops; ++i) { int k = i == 0 && first >= 0 ? first : (int)r.below(100); hist = mix64(hist ^ k); if (!C->create && k < 40) k = 60;
			if (k < 14) make(); else if (k < 24) contest(); else if (k < 36) ask_made(); else if (k < 40) zone_list(); else if (k < 54) shared_pread(); else if (k < 57) load(); else if (k < 62) stream(); else if (k < 67) real_op(); else { ss.op(); } }
		ss.check_held(); ss.close_all(); hist = mix64(hist ^ ss.hist); asked += ss.ops; own_rng = nullptr; s = nullptr; }
	static void *go(void *w) { ((Worker *)w)->run(); return nullptr; }
};
void child(Rng r, Image &im, u64 index, Common &c, const string &T, int out) {
	for (auto *x : {"TMP", "TEMP"}) unsetenv(x); setenv("TMPDIR", T.c_str(), 1); clear_results(); if (::chdir((c.base + "/real").c_str())) harness_error("chdir"); srand((unsigned)r.next());
	auto *o = new Opened(im, r); enclose_io_fs = c.fs = o->fs; C = &c; c.create = index % 8 != 7; int n = 2 + (int)r.below(7);
	if (r.chance(50)) { const Node *d = random_node(r, im, T_DIR); if (d != im.root && stays("/" + d->path) && d->path.size() < 500) { string p = "/" + d->path; if (w_chdir(p.c_str())) violation("chdir", fmt("chdir to %s failed with %s", show(p).c_str(), errname(errno).c_str())); c.icwd = p; } }
	for (int i = 0; i < 8; ++i) { const Node *f = random_node(r, im, T_REG); if (!f || !stays("/" + f->path) || in_zone("/" + f->path) || f->path.size() > 1200) continue; int fd = w_open2(("/" + f->path).c_str(), O_RDONLY); if (fd < 0) violation("open", "opening a packed file failed with " + errname(errno)); u64 at = r.below(im.contents[f->content]->size + 1); if (w_lseek(fd, (off_t)at, SEEK_SET) != (off_t)at) violation("lseek", "lseek failed"); c.shared.push_back({fd, f, at}); }
	auto fds0 = open_fds(); vector<Worker> ws(n); c.go = n; int first = r.chance(70) ? (int)r.below(24) : -1; vector<pthread_t> ts(n); ip.delays(r.chance(75), r.next());
	for (int i = 0; i < n; ++i) { ws[i].id = i; ws[i].seed = r.next(); ws[i].ops = 30 + (int)r.below(60); ws[i].first = first; if (pthread_create(&ts[i], nullptr, Worker::go, &ws[i])) harness_error("pthread_create"); }
	for (auto t : ts) pthread_join(t, nullptr);
	ip.delays(false, 0); evaluated(n); u64 h = 0; map<string, int> won; set<string> tried; bool any = false;
	for (auto &w : ws) { h = mix64(h ^ w.hist); for (auto &x : w.won) won[x.first] += x.second; tried.insert(w.tried.begin(), w.tried.end()); any = any || !w.made.empty() || !w.tried.empty(); count("objects created by threads", w.created); count("contested creations", w.contested); count("positioned reads of shared descriptors", w.shared_reads); count("libraries loaded", w.loads); count("real files used", w.real); count("questions in threads", w.asked); }
	distinct(h); count("threads", n);
	for (auto &p : tried) { int kind = (int)(fnvs(p) % 3); if (kind < 2 && won[p] != 1) violation("exclusive", fmt("%d of several exclusive creations of %s succeeded", won[p], show(p).c_str())); struct stat st; if (w_stat(p.c_str(), &st)) violation("stat", "a contested object is missing"); if (kind == 2 && st.st_size != 10 * won[p]) violation("content", fmt("%s, appended to by several threads %d times, has %lld bytes", show(p).c_str(), won[p], (long long)st.st_size)); count("contests judged"); }
	for (auto &w : ws) { w.r = Rng(w.seed + 3); for (int i = 0; i < 10 && !w.made.empty(); ++i) w.ask_made(); }
	for (auto &f : c.shared) { off_t at = w_lseek(f.fd, 0, SEEK_CUR); if (at != (off_t)f.pos) violation("position", fmt("positioned reads have moved a descriptor from %llu to %lld", (unsigned long long)f.pos, (long long)at)); }
	if (open_fds() != fds0) violation("leak", fmt("%zu descriptors are open, %zu before the threads", open_fds().size(), fds0.size())); for (auto &f : c.shared) if (w_close(f.fd)) violation("close", "close failed");
	int dirs = 0; for (auto &x : names_in(T)) { struct stat st; if (!::lstat((T + "/" + x).c_str(), &st) && S_ISDIR(st.st_mode)) { ++dirs; if ((st.st_mode & 07777) != 0700) violation("not-private", fmt("the overlay has mode %o", st.st_mode)); } } if (dirs != (any ? 1 : 0)) violation("overlay", fmt("there are %d overlays", dirs)); count("overlays seen", dirs);
	string dump = dump_results(); size_t at = 0; while (at < dump.size()) { ssize_t k = ::write(out, dump.data() + at, dump.size() - at); if (k <= 0) break; at += k; } ::close(out); fflush(stdout); exit(0); }
}
void prop_init() {
	start_library(); umask(022); const char *so = getenv("VF_PROBE_SO"); if (!so) harness_error("no probe library"); so_bytes = slurp(so); if (so_bytes.size() < 100) harness_error("no probe library");
	api.open = [](sqfs *f, const char *p) { string q = give(p); return q.empty() ? squash_open(f, p) : w_open2(q.c_str(), O_RDONLY); };
	api.close = w_close; api.read = [](int fd, void *b, sqfs_off_t n) { return w_read(fd, b, (size_t)n); }; api.lseek = w_lseek; api.fstat = w_fstat;
	api.stat = [](sqfs *f, const char *p, struct stat *s) { string q = give(p); return q.empty() ? squash_stat(f, p, s) : w_stat(q.c_str(), s); };
	api.lstat = [](sqfs *f, const char *p, struct stat *s) { string q = give(p); return q.empty() ? squash_lstat(f, p, s) : w_lstat(q.c_str(), s); };
	api.readlink = [](sqfs *f, const char *p, char *b, size_t n) { string q = give(p); return q.empty() ? squash_readlink(f, p, b, n) : w_readlink(q.c_str(), b, n); };
	api.opendir = [](sqfs *f, const char *p) { string q = give(p); return q.empty() ? squash_opendir(f, p) : (SQUASH_DIR *)w_opendir(q.c_str()); };
	api.closedir = [](SQUASH_DIR *d) { return w_closedir((DIR *)d); }; api.readdir = [](SQUASH_DIR *d) { return w_readdir((DIR *)d); }; api.telldir = [](SQUASH_DIR *d) { return w_telldir((DIR *)d); }; api.seekdir = [](SQUASH_DIR *d, long l) { w_seekdir((DIR *)d, l); }; api.rewinddir = [](SQUASH_DIR *d) { w_rewinddir((DIR *)d); };
	api.scandir = [](sqfs *f, const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { string q = give(p); return q.empty() ? squash_scandir(f, p, l, s, c) : w_scandir(q.c_str(), l, s, c); };
}
void prop_done() {}
void prop_case(Rng &r, u64 index) {
	string base = opt.scratch + fmt("/m%llu", (unsigned long long)index), T = base + "/tmp"; wipe(base); ::mkdir(base.c_str(), 0755); ::mkdir(T.c_str(), 0700); ::mkdir((base + "/real").c_str(), 0755); put(base + "/real/f", "real");
	Profile p = random_profile(r); p.max_file = 30000; if (p.bs_log > 16) p.bs_log = 12; p.files = 6 + (int)r.below(12); p.dirs += 2; if (p.ids > 100) p.ids = 20; auto im = random_image(r, p); Node *m = mount_tree(*im); Common c; c.im = im.get(); c.base = base;
	for (auto &n : im->nodes) if (n->type == T_LNK && n->target[0] == '/' && r.chance(70) && n->target.size() < 1500) n->target = MOUNT + n->target;
	for (auto *nm : {"lib one.so", "lib2.so"}) { Node *f = im->add(m, free_name(m, nm), T_REG); random_meta(r, *im, f); Content *k = im->content(f, so_bytes.size(), Content::TEXT, r.next()); k->lit = so_bytes; k->frag = r.chance(50); c.libs.push_back("/" + f->path); }
	Node *z = im->add(m, free_name(m, "zone"), T_DIR); random_meta(r, *im, z); c.zone = "/" + z->path; c.zdirs.push_back(c.zone); for (int i = 0; i < 4; ++i) { Node *up = i < 2 ? z : im->nodes.back().get(); if (!up->isdir()) up = z; Node *d = im->add(up, fmt("z%d", i), T_DIR); random_meta(r, *im, d); c.zdirs.push_back("/" + d->path); }
	im->build(r); note(im->prof.describe()); if (index < 3) sample(fmt("threads creating, reading and loading beside %zu packed objects", im->nodes.size()));
	int pp[2]; if (pipe(pp)) harness_error("pipe"); u64 seed = r.next(); fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
	if (!pid) { ::close(pp[0]); child(Rng(seed), *im, index, c, T, pp[1]); }
	::close(pp[1]); string all; char b[4096]; ssize_t k; while ((k = ::read(pp[0], b, sizeof b)) > 0) all.append(b, k); ::close(pp[0]); int st; waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) violation("signal", fmt("the process ended by signal %d", WTERMSIG(st))); if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); if (all.empty()) violation("exit", "the process ended early"); absorb_results(all);
	auto left = names_in(T); if (!left.empty()) violation("left-behind", fmt("after the exit %zu entries are left in the temporary directory, such as %s", left.size(), show(left[0]).c_str())); count("exits judged"); wipe(base);
}
