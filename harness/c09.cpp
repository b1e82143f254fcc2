// C09: descriptor numbers
#include "prop.h"
#include <sys/resource.h>
// handlers of the application that run at exit after those of the library
static void at_exit() { for (int i = -1; i < 2000; ++i) if (SQUASH_VALID_VFD(i)) violation("recognised", fmt("at exit, after everything is closed, %d is recognised as virtual", i)); char b[4]; errno = 0; if (squash_read(5, b, 4) != -1 || errno != EBADF) violation("bad-number", "reading at exit from a number that is not virtual did not fail with EBADF"); if (squash_close(9) != -1 || errno != EBADF) violation("bad-number", "closing at exit a number that is not virtual did not fail with EBADF"); if (squash_find_entry(b)) violation("stream-recognised", "at exit something is recognised as a stream"); }
void prop_init() { atexit(at_exit); start_library(); struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); l.rlim_cur = std::min<rlim_t>(l.rlim_max, 8192); setrlimit(RLIMIT_NOFILE, &l); }
void prop_done() {}
namespace {
struct V { int fd; const Node *n; u64 pos = 0; SQUASH_DIR *dir = nullptr; };
struct World {
	Rng &r; Image &im; Opened &o; vector<V> vs; map<int, u64> real; /* descriptor -> its inode number */ set<int> gone; set<void *> dead; u64 history = 0; int lo = 0; /* the first of the standard descriptors that is open */
	World(Rng &rr, Image &i, Opened &op) : r(rr), im(i), o(op) {}
	bool isv(int fd) { for (auto &v : vs) if (v.fd == fd) return true; return false; }
	void fresh(int fd, const char *what) {
		VF_CHECK(fd >= 0, "negative", "%s returned the descriptor %d", what, fd);
		if (isv(fd)) violation("clash-virtual", fmt("%s returned %d, which is an open virtual descriptor", what, fd));
		if (real.count(fd) || (fd < 3 && fd >= lo)) violation("clash-real", fmt("%s returned %d, which is an open real descriptor", what, fd));
		VF_CHECK(SQUASH_VALID_VFD(fd), "not-recognised", "%s returned %d, which is not recognised as virtual", what, fd); gone.erase(fd);
	}
	u64 ident(int fd) { struct stat st; if (fstat(fd, &st)) return 0; return st.st_ino * 1000 + st.st_dev % 1000; }
	void open_real() {
		int k = (int)r.below(4), a[2] = {-1, -1};
		if (k == 0) a[0] = open("/dev/null", O_RDONLY); else if (k == 1) a[0] = dup(0); else if (k == 2) { if (pipe(a)) a[0] = a[1] = -1; } else a[0] = open("/", O_RDONLY | O_DIRECTORY);
		for (int i = 0; i < 2; ++i) if (a[i] >= 0) { note(fmt("real descriptor %d opened", a[i])); if (isv(a[i])) violation("clash-real", fmt("the system issued %d, which is an open virtual descriptor", a[i])); real[a[i]] = ident(a[i]); gone.erase(a[i]); if (SQUASH_VALID_VFD(a[i])) violation("recognised", fmt("the real descriptor %d is recognised as virtual", a[i])); }
	}
	void invalid(int fd, const char *what) { // every call must refuse it
		note(fmt("%s: %d", what, fd)); evaluated(); count("calls on numbers that are not virtual", 5);
		if (SQUASH_VALID_VFD(fd)) violation("recognised", fmt("%s %d is recognised as virtual", what, fd));
		int order = (int)r.below(5); char buf[16]; struct stat st;
		for (int i = 0; i < 5; ++i) {
			errno = r.chance(50) ? 0 : ENOENT; long rc = 0; const char *c = "";
			switch ((i + order) % 5) { case 0: c = "squash_read"; rc = squash_read(fd, buf, r.below(17)); break; case 1: c = "squash_lseek"; rc = squash_lseek(fd, r.below(9), (int)r.below(3)); break; case 2: c = "squash_fstat"; rc = squash_fstat(fd, &st); break; case 3: c = "squash_close"; rc = squash_close(fd); break; default: c = "squash_close"; rc = squash_close(fd); }
			if (rc != -1 || errno != EBADF) violation("bad-number", fmt("%s of %s %d returned %ld with %s", c, what, fd, rc, errname(errno).c_str()));
		}
	}
	void open_file() {
		const Node *n = r.chance(80) ? random_node(r, im, T_REG) : random_node(r, im); string p = "/" + n->path; Outcomes oc = resolve(im, p, true); int fd = squash_open(o.fs, p.c_str()); int e = errno; vector<const Node *> c = judge("squash_open", p, oc, fd >= 0, e, Tol());
		note(fmt("open %s -> %d", show(p).c_str(), fd)); if (fd < 0) return; fresh(fd, "squash_open"); vs.push_back(V{fd, c[0]}); count("descriptors opened"); }
	void open_dir() {
		const Node *n = random_node(r, im, T_DIR); SQUASH_DIR *d = squash_opendir(o.fs, ("/" + n->path).c_str()); if (!d) violation("opendir", "squash_opendir failed with " + errname(errno)); int fd = squash_dirfd(d); note(fmt("opendir %s -> %d", show(n->path).c_str(), fd));
		fresh(fd, "squash_opendir"); for (auto &v : vs) if (v.dir == d) violation("clash-stream", "squash_opendir returned a stream that is open already"); if (!squash_find_entry(d)) violation("stream-unknown", "an open stream is not recognised"); V v{fd, n}; v.dir = d; vs.push_back(v); dead.erase(d); count("streams opened"); }
	void fail_open() { string p = miss(r, im); Outcomes oc = resolve(im, p, true); auto before = open_fds(); int fd; if (r.chance(50)) { fd = squash_open(o.fs, p.c_str()); judge("squash_open", p, oc, fd >= 0, errno, Tol()); if (fd >= 0) squash_close(fd); } else { SQUASH_DIR *d = squash_opendir(o.fs, p.c_str()); if (d) squash_closedir(d); } note("failing open " + show(p)); auto after = open_fds(); if (before != after) violation("descriptor-left", "a failing open changed the open descriptors of the process"); }
	void use(V &v) {
		evaluated(); struct stat st; VF_CHECK(squash_fstat(v.fd, &st) == 0, "fstat", "squash_fstat of the open descriptor %d failed with %s", v.fd, errname(errno).c_str()); string w = check_stat(im, v.n, st); if (!w.empty()) violation("other-object", fmt("descriptor %d is not the object it was opened on: %s", v.fd, w.c_str()));
		if (v.dir) { if (squash_dirfd(v.dir) != v.fd) violation("dirfd", "squash_dirfd changed"); if (!squash_find_entry(v.dir)) violation("stream-unknown", "an open stream is not recognised"); if (r.chance(50)) { struct SQUASH_DIRENT *e = squash_readdir(v.dir); if (!e != (v.pos >= v.n->kids.size())) violation("readdir", "squash_readdir lost its place"); if (e) { if (v.n->kids[v.pos].name != e->d_name) violation("readdir", "squash_readdir lost its place"); ++v.pos; } } return; }
		if (v.n->type != T_REG) return;
		u8 buf[700]; u64 want = r.below(700); const Content &c = *im.contents[v.n->content]; ssize_t g = squash_read(v.fd, buf, want); u64 exp = v.pos >= c.size ? 0 : std::min<u64>(want, c.size - v.pos);
		VF_CHECK(g == (ssize_t)exp, "read-count", "squash_read of %llu at %llu from descriptor %d returned %zd, expected %llu", (unsigned long long)want, (unsigned long long)v.pos, v.fd, g, (unsigned long long)exp); w = compare(c, v.pos, buf, exp); if (!w.empty()) violation("read-bytes", fmt("descriptor %d: %s", v.fd, w.c_str())); v.pos += exp;
		if (r.chance(30)) { u64 to = r.below(c.size + 10); if (squash_lseek(v.fd, (off_t)to, SQUASH_SEEK_SET) != (off_t)to) violation("lseek", "squash_lseek failed"); v.pos = to; } }
	void close(size_t k) {
		V v = vs[k]; vs.erase(vs.begin() + k); note(fmt("close %d%s", v.fd, v.dir ? " (stream)" : ""));
		if (v.dir) { if (squash_closedir(v.dir)) violation("closedir", "squash_closedir of an open stream failed"); if (squash_find_entry(v.dir)) violation("stream-recognised", "a closed stream is still recognised"); dead.insert(v.dir); } else if (squash_close(v.fd)) violation("close", fmt("squash_close of the open descriptor %d failed with %s", v.fd, errname(errno).c_str()));
		if (SQUASH_VALID_VFD(v.fd)) violation("recognised", fmt("the closed descriptor %d is still recognised", v.fd)); gone.insert(v.fd); count("closes"); }
	void check_real() { for (auto &x : real) if (ident(x.first) != x.second) violation("real-touched", fmt("the real descriptor %d was closed or changed", x.first)); for (int i = lo; i < 3; ++i) if (fcntl(i, F_GETFD) < 0) violation("real-touched", fmt("descriptor %d was closed", i)); }
	void check_all() { for (auto &v : vs) { if (!SQUASH_VALID_VFD(v.fd)) violation("not-recognised", fmt("the open descriptor %d is not recognised any more", v.fd)); if (v.dir && !squash_find_entry(v.dir)) violation("stream-unknown", "an open stream is not recognised"); } for (int f : gone) if (SQUASH_VALID_VFD(f)) violation("recognised", fmt("the closed descriptor %d is recognised", f)); for (auto &x : real) if (SQUASH_VALID_VFD(x.first)) violation("recognised", fmt("the real descriptor %d is recognised as virtual", x.first)); for (void *d : dead) if (squash_find_entry(d)) violation("stream-recognised", "a closed stream is recognised"); check_real(); evaluated(); count("checks of all numbers"); }
};
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.max_file = 3000; p.files = 5 + (int)r.below(10); auto im = random_image(r, p); im->build(r); auto fds0 = open_fds(); Opened o(*im, r); note(im->prof.describe()); World w(r, *im, o);
	int stdin_copy = -1; if (index % 5 == 3) { stdin_copy = fcntl(0, F_DUPFD, 8000); if (stdin_copy < 0 || ::close(0)) harness_error("cannot close standard input"); w.lo = 1; w.gone.insert(0); count("cases without a standard input"); }
	int ops = 250, target = index % 6 == 0 ? 300 + (int)r.below(900) : (int)r.below(30); if (index < 3) sample(fmt("history with about %d descriptors open at a time", target));
	if (target > 200) { for (int i = 0; i < target; ++i) { if (r.chance(85)) w.open_file(); else w.open_dir(); if (r.chance(3)) w.open_real(); } count("cases with hundreds of descriptors"); w.check_all(); }
	for (int i = 0; i < ops; ++i) {
		int k = (int)r.below(20); w.history = mix64(w.history ^ k);
		if (k < 4) { if ((int)w.vs.size() < target + 20) w.open_file(); } else if (k < 6) { if ((int)w.vs.size() < target + 20) w.open_dir(); } else if (k < 8) { if (!w.vs.empty() && (int)w.vs.size() > r.below(target + 1)) w.close(r.below(w.vs.size())); }
		else if (k < 11) { if (!w.vs.empty()) w.use(w.vs[r.below(w.vs.size())]); }
		else if (k == 11) w.open_real(); else if (k == 12) { if (!w.real.empty()) { auto it = w.real.begin(); std::advance(it, r.below(w.real.size())); note(fmt("real descriptor %d closed", it->first)); ::close(it->first); w.gone.insert(it->first); w.real.erase(it); } }
		else if (k == 13) { static const int bad[] = {-1, -2, -100, INT32_MIN, INT32_MAX, INT32_MAX - 1, 1 << 20, 65536, 1 << 30, 8191, 1024, 1023}; int f = r.chance(70) ? bad[r.below(12)] : (int)r.next(); if (!w.isv(f)) w.invalid(f, "the number"); }
		else if (k == 14) { if (!w.gone.empty()) { auto it = w.gone.begin(); std::advance(it, r.below(w.gone.size())); w.invalid(*it, "the closed descriptor"); } }
		else if (k == 15) { if (!w.real.empty()) { auto it = w.real.begin(); std::advance(it, r.below(w.real.size())); w.invalid(it->first, "the real descriptor"); w.check_real(); } else { w.invalid(w.lo + (int)r.below(3 - w.lo), "the standard descriptor"); w.check_real(); } }
		else if (k == 16) { int hi = 0; for (auto &v : w.vs) hi = std::max(hi, v.fd); for (auto &x : w.real) hi = std::max(hi, x.first); int f = hi + 1 + (int)r.below(4) * (int)r.below(1000); w.invalid(f, "the number"); }
		else if (k == 17) w.fail_open(); else if (k == 18) { void *q[] = {nullptr, &w, (void *)o.fs, (void *)&im, (void *)(uintptr_t)r.below(4096), (void *)~0ull}; void *x = q[r.below(6)]; if (squash_find_entry(x)) violation("stream-recognised", "something that is no stream is recognised as a stream"); }
		else w.check_all();
		distinct(w.history);
	}
	if (r.chance(50)) w.r.shuffle(w.vs); while (!w.vs.empty()) w.close(w.vs.size() - 1);
	w.check_all(); for (auto &x : w.real) ::close(x.first); o.close(); if (stdin_copy >= 0) { if (dup2(stdin_copy, 0) != 0) harness_error("dup2"); ::close(stdin_copy); }
	if (open_fds() != fds0) violation("descriptor-left", "after closing everything the process has other open descriptors than before");
}
