// C19: the interception layer, on image and real paths in any mix
#include "wrap.h"
#include <dlfcn.h>
#include <sys/wait.h>
static string so_bytes;
namespace {
struct World;
World *W;
void put(const string &p, const string &s, mode_t m = 0644) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, m); if (fd < 0) harness_error("cannot create " + p); if (::write(fd, s.data(), s.size()) < 0) {} ::close(fd); }
string slurp(const string &p) { string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k); ::close(fd); return s; }
string text(Rng &r, size_t n) { string s; while (s.size() < n) s += "abcdefghijklmnopqrstuvwxyz\n"[r.below(27)]; return s; }
void wipe(const string &p) { if (p.compare(0, opt.scratch.size(), opt.scratch)) harness_error("outside the scratch directory"); struct stat st; if (::lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { ::chmod(p.c_str(), 0700); DIR *d = ::opendir(p.c_str()); vector<string> v; while (dirent *e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); ::closedir(d); for (auto &x : v) wipe(p + "/" + x); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
void walk(const string &p, const string &rel, map<string, string> &out) { // everything a tree is, as text
	struct stat st; if (::lstat(p.c_str(), &st)) return; string d = fmt("%o", st.st_mode); if (S_ISREG(st.st_mode)) d += " " + slurp(p); if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = ::readlink(p.c_str(), b, sizeof b); d += " " + string(b, k < 0 ? 0 : k); } out[rel] = d;
	if (S_ISDIR(st.st_mode)) { DIR *h = ::opendir(p.c_str()); if (!h) return; while (dirent *e = ::readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) walk(p + "/" + e->d_name, rel + "/" + e->d_name, out); ::closedir(h); } }
int sel_none(const struct dirent *) { return 1; }
int sel_some(const struct dirent *e) { return fnvs(e->d_name) & 1; }
int cmp_name(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }

struct World {
	Rng r; Image &im; sqfs *fs; Session s; string A, B; vector<string> rels, rdirs; // real trees, equal at first
	bool inside = false, physical = true; string icwd, rcwd; u64 hist = 0, through_relative = 0, through_absolute = 0;
	struct Twin { int w, raw; string what; }; vector<Twin> fds; struct TwinDir { DIR *w, *raw; vector<std::pair<long, long>> told; }; vector<TwinDir> dirs;
	World(Image &i, sqfs *f, u64 seed, const string &base) : r(seed), im(i), fs(f), s(f, i, Tol(), seed + 1), A(base + "/a"), B(base + "/b") { s.kinds = (1u << Q_STAT | 1u << Q_LSTAT | 1u << Q_OPENREAD | 1u << Q_READLINK | 1u << Q_LIST | 1u << Q_SCAN); }
	// how an image path is given to the layer; "" if it cannot be asked this way
	string give(const string &p) {
		if (!stays(p) || p.size() > 1400) return "";
		if (inside && r.chance(60)) {
			if (p.size() > icwd.size() + 1 && p.compare(0, icwd.size(), icwd) == 0 && p[icwd.size()] == '/' && p[icwd.size() + 1] != '/') { ++through_relative; return p.substr(icwd.size() + 1); }
			if (physical) { string up; for (size_t i = strlen(MOUNT); i < icwd.size(); ++i) if (icwd[i] == '/') up += "../"; string rest = p.substr(strlen(MOUNT)); if (!rest.empty()) rest = rest.substr(1); if (rest.empty()) rest = "."; if (rest[0] != '/') { string q = up + rest; if (r.chance(20)) q = "./" + q; if (q.size() + icwd.size() < 1900) { ++through_relative; return q; } } } }
		++through_absolute; return p; }
	void build(const string &base, Rng q, bool record) {
		::mkdir(base.c_str(), 0755); vector<string> ds{""}; vector<string> names{"__enclose_io_memfs__", "__enclose_io_memfs__x", "f", "d", "e", "lib.so", "x y"}; for (auto &e : im.root->kids[0].node->kids) if (e.name.size() < 200 && names.size() < 14) names.push_back(e.name);
		set<string> have; if (record) { rels.push_back(""); rdirs.push_back(""); }
		for (int i = 0; i < 22; ++i) { string d = q.pick(ds), rel = d + "/" + q.pick(names); int kind = i < 3 ? 0 : (int)q.below(6); string t = text(q, q.below(5000)); u64 a = q.next(); if (!have.insert(rel).second) continue; string p = base + rel;
			if (kind == 0) { if (!::mkdir(p.c_str(), a % 8 == 0 ? 0500 : 0755)) { if (a % 8) ds.push_back(rel); if (record) rdirs.push_back(rel); } } else if (kind < 4) { put(p, t, a % 10 == 0 ? 0200 : 0644); } else if (kind == 4) { const char *ts[] = {"f", ".", "missing", d.empty() ? "d" : "../d", "__enclose_io_memfs__", "/__enclose_io_memfs__", "self"}; if (::symlink(ts[a % 7], p.c_str())) {} } else put(p, so_bytes, 0755);
			if (record) rels.push_back(rel); } }
	// a real path: for the layer, for the system, and for the other tree
	struct RP { string p, b; };
	RP real_path(bool dir = false) {
		string rel = dir && r.chance(80) ? r.pick(rdirs) : r.pick(rels); int k = (int)r.below(10); if (k == 0) rel += "/missing"; else if (k == 1 && !rel.empty()) rel += "x"; else if (k == 2) rel += "/."; else if (k == 3 && !rel.empty()) rel += "/../" + string("f");
		RP x; x.b = B + rel; x.p = A + rel; if (!inside && (rel.empty() || rel[0] == '/') && r.chance(50) && (rcwd == A || rcwd.compare(0, A.size() + 1, A + "/") == 0)) { string at = rcwd.substr(A.size()); if (rel.size() > at.size() + 1 && rel.compare(0, at.size() + 1, at + "/") == 0) x.p = rel.substr(at.size() + 1); else { string up; for (char c : at) if (c == '/') up += "../"; string rest = rel.empty() ? "." : rel.substr(1); x.p = up + rest; } }
		return x; }
	void same(const char *call, const string &p, long w, int we, long raw, int re) { evaluated(); count("calls passed through"); if (w != raw || (w == -1 && we != re)) violation("not-passed-through", fmt("%s(%s) gave %ld (%s), the system call gives %ld (%s)", call, show(p).c_str(), w, w == -1 ? errname(we).c_str() : "-", raw, raw == -1 ? errname(re).c_str() : "-")); }
	void same_stat(const char *call, const string &p, const struct stat &a, const struct stat &b) { if (a.st_ino != b.st_ino || a.st_dev != b.st_dev || a.st_mode != b.st_mode || a.st_size != b.st_size || a.st_nlink != b.st_nlink || a.st_uid != b.st_uid || a.st_mtim.tv_nsec != b.st_mtim.tv_nsec || a.st_mtim.tv_sec != b.st_mtim.tv_sec) violation("not-passed-through", fmt("%s(%s) describes another object than the system call", call, show(p).c_str())); }
	void real_op() {
		int k = (int)r.below(20); struct stat a, b; RP x = real_path(k >= 6 && k <= 8); const char *p = x.p.c_str(); int pre = r.chance(50) ? 0 : ENOTTY; hist = mix64(hist ^ k); note(fmt("real %d %s%s", k, show(x.p).c_str(), inside ? " (inside)" : ""));
		switch (k) {
		case 0: case 1: { errno = pre; int w = w_stat(p, &a); int we = errno; errno = pre; int y = ::stat(p, &b); same("stat", x.p, w, we, y, errno); if (!w) same_stat("stat", x.p, a, b); break; }
		case 2: { errno = pre; int w = w_lstat(p, &a); int we = errno; errno = pre; int y = ::lstat(p, &b); same("lstat", x.p, w, we, y, errno); if (!w) same_stat("lstat", x.p, a, b); break; }
		case 3: { int m = (int)r.below(8); errno = pre; int w = w_access(p, m); int we = errno; errno = pre; int y = ::access(p, m); same("access", x.p, w, we, y, errno); break; }
		case 4: { size_t n = r.chance(50) ? 200 : r.below(9); char *q = (char *)malloc(n + 1), *z = (char *)malloc(n + 1); memset(q, 7, n + 1); memset(z, 7, n + 1); errno = pre; long w = w_readlink(p, q, n); int we = errno; errno = pre; long y = ::readlink(p, z, n); same("readlink", x.p, w, we, y, errno); if (memcmp(q, z, n + 1)) violation("not-passed-through", "readlink gave other bytes than the system call"); free(q); free(z); break; }
		case 5: { const char *q = r.chance(70) ? p : "no-such-library.so"; int w = w_dlopen(q, RTLD_NOW) != nullptr; void *y = ::dlopen(q, RTLD_NOW); if (w != (y != nullptr)) violation("not-passed-through", fmt("dlopen(%s) %s, the system call %s", q, w ? "succeeded" : "failed", y ? "succeeds" : "fails")); if (y) { ::dlclose(y); ::dlclose(y); } count("calls passed through"); break; }
		case 6: { errno = pre; DIR *w = w_opendir(p); int we = errno; errno = pre; DIR *y = ::opendir(p); same("opendir", x.p, w ? 0 : -1, we, y ? 0 : -1, errno); if (w) { dirs.push_back({w, y, {}}); if (dirs.size() > 5) close_dir(0); } break; }
		case 7: { struct dirent **l = nullptr, **m = nullptr; auto sl = r.chance(50) ? sel_some : sel_none; errno = pre; int w = w_scandir(p, &l, sl, cmp_name); int we = errno; errno = pre; int y = ::scandir(p, &m, sl, cmp_name); same("scandir", x.p, w, we, y, errno); for (int i = 0; i < w; ++i) { if (strcmp(l[i]->d_name, m[i]->d_name)) violation("not-passed-through", "scandir gave other entries than the system call"); free(l[i]); free(m[i]); } if (w >= 0) { free(l); free(m); } break; }
		case 8: { // openat with a real directory, also while inside the image
			int d = r.chance(85) ? ::open(A.c_str(), O_RDONLY | O_DIRECTORY) : r.chance(50) ? -1 : 0; string rel = r.pick(rels); rel = rel.empty() ? "." : rel.substr(1); if (r.chance(20)) rel += "x"; errno = pre; int w = r.chance(50) ? w_openat3(d, rel.c_str(), O_RDONLY | O_NONBLOCK) : w_openat4(d, rel.c_str(), O_RDONLY | O_NONBLOCK, 0644); int we = errno; errno = pre; int y = ::openat(d, rel.c_str(), O_RDONLY | O_NONBLOCK); same("openat", rel, w < 0 ? -1 : 0, we, y < 0 ? -1 : 0, errno); if (w >= 0) hold(w, y, rel); if (d > 2) ::close(d); break; }
		case 9: case 10: { int fl = r.chance(60) ? O_RDONLY : r.chance(50) ? O_RDONLY | O_DIRECTORY : O_RDONLY | O_NOFOLLOW; fl |= O_NONBLOCK; errno = pre; int w = r.chance(70) ? w_open2(p, fl) : r.chance(50) ? w_open3(p, fl, 0600) : w_openat3(AT_FDCWD, x.p[0] == '/' || !inside ? p : (A + "/f").c_str(), fl); int we = errno; errno = pre; int y = ::open(p, fl); same("open", x.p, w < 0 ? -1 : 0, we, y < 0 ? -1 : 0, errno); if (w >= 0) hold(w, y, x.p); break; }
		case 11: { // creating
			int fl = O_CREAT | O_RDWR | (r.chance(30) ? O_EXCL : 0) | (r.chance(30) ? O_TRUNC : 0) | (r.chance(20) ? O_APPEND : 0) | O_NONBLOCK; mode_t m = r.chance(50) ? 0644 : (mode_t)r.below(01000) | 0600; if (x.b.find("/..") != string::npos || r.chance(40)) { string n = fmt("/new%llu", (unsigned long long)r.below(6)); string d = r.pick(rdirs); x.p = A + d + n; x.b = B + d + n; p = x.p.c_str(); } errno = pre; int w = r.chance(60) ? w_open3(p, fl, m) : w_openat4(AT_FDCWD, p, fl, m); int we = errno; errno = pre; int y = ::open(x.b.c_str(), fl, m); same("open to create", x.p, w < 0 ? -1 : 0, we, y < 0 ? -1 : 0, errno); if (w >= 0) { string t = text(r, r.below(50)); if (::write(w, t.data(), t.size()) != ::write(y, t.data(), t.size())) violation("not-passed-through", "writing differs"); char u[64], v[64]; off_t o = (off_t)r.below(40) - 2; int wh = (int)r.below(3); errno = 0; off_t e = w_lseek(w, o, wh); int ee = errno; errno = 0; off_t g = ::lseek(y, o, wh); same("lseek", x.p, e, ee, g, errno); long n = w_read(w, u, 64), q = ::read(y, v, 64); if (n != q || (n > 0 && memcmp(u, v, n))) violation("not-passed-through", "a created file reads back differently"); if (w_close(w)) violation("not-passed-through", "close failed"); ::close(y); rels_add(x.b); } break; }
		case 12: { if (x.b.find("/..") != string::npos || r.chance(60)) { string n = fmt("/dir%llu", (unsigned long long)r.below(6)); string d = r.pick(rdirs); x.p = A + d + n; x.b = B + d + n; p = x.p.c_str(); } mode_t m = r.chance(60) ? 0755 : (mode_t)r.below(01000) | 0700; errno = pre; int w = w_mkdir(p, m); int we = errno; errno = pre; int y = ::mkdir(x.b.c_str(), m); same("mkdir", x.p, w, we, y, errno); if (!w) rels_add(x.b); break; }
		case 13: case 14: case 15: case 16: if (!fds.empty()) use(r.below(fds.size())); break;
		case 17: if (!fds.empty() && r.chance(60)) close_fd(r.below(fds.size())); else { static const int bad[] = {-1, -2, 9999, INT32_MAX, INT32_MIN, 4095}; int f = bad[r.below(6)]; char u[4]; struct iovec v{u, 4}; errno = pre; long w = 0, y = 0; int we = 0, re = 0; const char *c = "";
			switch (r.below(7)) { case 0: c = "read"; w = w_read(f, u, 4); we = errno; errno = pre; y = ::read(f, u, 4); break; case 1: c = "lseek"; w = w_lseek(f, 0, SEEK_SET); we = errno; errno = pre; y = ::lseek(f, 0, SEEK_SET); break; case 2: c = "fstat"; w = w_fstat(f, &a); we = errno; errno = pre; y = ::fstat(f, &b); break; case 3: c = "close"; w = w_close(f); we = errno; errno = pre; y = ::close(f); break; case 4: c = "pread"; w = w_pread(f, u, 4, 0); we = errno; errno = pre; y = ::pread(f, u, 4, 0); break; case 5: c = "readv"; w = w_readv(f, &v, 1); we = errno; errno = pre; y = ::readv(f, &v, 1); break; default: { c = "fdopendir"; DIR *d = w_fdopendir(f); we = errno; w = d ? 0 : -1; errno = pre; d = ::fdopendir(f); y = d ? 0 : -1; } } re = errno; same(c, fmt("descriptor %d", f), w, we, y, re); } break;
		case 18: case 19: if (!dirs.empty()) use_dir(r.below(dirs.size())); break;
		} }
	void rels_add(const string &b) { string rel = b.substr(B.size()); string n; if (!normal(rel, n)) return; if (rels.size() < 60 && n.find("/..") == string::npos) rels.push_back(n); }
	void hold(int w, int y, const string &what) { if (SQUASH_VALID_VFD(w)) violation("not-passed-through", fmt("the descriptor %d of %s is virtual", w, show(what).c_str())); struct stat a, b; if (w_fstat(w, &a) || ::fstat(y, &b)) violation("not-passed-through", "fstat failed"); same_stat("fstat", what, a, b); if (S_ISDIR(a.st_mode) && r.chance(60)) { DIR *d = w_fdopendir(w), *e = ::fdopendir(y); same("fdopendir", what, d ? 0 : -1, errno, e ? 0 : -1, errno); if (d) { if (w_dirfd(d) != w) violation("not-passed-through", "dirfd of a real stream"); dirs.push_back({d, e, {}}); if (dirs.size() > 5) close_dir(0); return; } } fds.push_back({w, y, what}); if (fds.size() > 6) close_fd(0); }
	void close_fd(size_t k) { Twin t = fds[k]; fds.erase(fds.begin() + k); note("real close"); if (w_close(t.w)) violation("not-passed-through", "close of a real descriptor failed"); if (fcntl(t.w, F_GETFD) != -1) violation("not-passed-through", "close of a real descriptor did not close it"); ::close(t.raw); }
	void close_dir(size_t k) { TwinDir t = dirs[k]; dirs.erase(dirs.begin() + k); note("real closedir"); int fd = ::dirfd(t.w); if (w_closedir(t.w)) violation("not-passed-through", "closedir of a real stream failed"); if (fcntl(fd, F_GETFD) != -1) violation("not-passed-through", "closedir of a real stream did not close it"); ::closedir(t.raw); }
	void use(size_t k) {
		Twin &t = fds[k]; u8 *u, *v; u64 n = r.chance(80) ? r.below(300) : r.below(6000); u = (u8 *)calloc(1, n + 1); v = (u8 *)calloc(1, n + 1); long w, y; int we; note(fmt("use real %d", t.w));
		switch (r.below(6)) {
		case 0: case 1: errno = 0; w = w_read(t.w, u, n); we = errno; errno = 0; y = ::read(t.raw, v, n); same("read", t.what, w, we, y, errno); break;
		case 2: { off_t o = (off_t)r.below(6000) - 10; errno = 0; w = w_pread(t.w, u, n, o); we = errno; errno = 0; y = ::pread(t.raw, v, n, o); same("pread", t.what, w, we, y, errno); break; }
		case 3: { u64 c = n ? r.below(n) : 0; struct iovec a[3] = {{u, c}, {u + c, 0}, {u + c, n - c}}, b[3] = {{v, c}, {v + c, 0}, {v + c, n - c}}; int cnt = (int)r.below(5) - 1; if (cnt > 3) cnt = 3; errno = 0; w = w_readv(t.w, a, cnt); we = errno; errno = 0; y = ::readv(t.raw, b, cnt); same("readv", t.what, w, we, y, errno); break; }
		case 4: { struct stat a, b; w = w_fstat(t.w, &a); y = ::fstat(t.raw, &b); same("fstat", t.what, w, errno, y, errno); same_stat("fstat", t.what, a, b); break; }
		default: { off_t o = (off_t)r.below(6000) - 300; int wh = (int)r.below(4); errno = 0; w = w_lseek(t.w, o, wh); we = errno; errno = 0; y = ::lseek(t.raw, o, wh); struct stat a; ::fstat(t.w, &a); if (!S_ISDIR(a.st_mode)) same("lseek", t.what, w, we, y, errno); } }
		if (memcmp(u, v, n)) violation("not-passed-through", fmt("reading %s gave other bytes than the system call", show(t.what).c_str())); struct stat a; ::fstat(t.w, &a); if (S_ISREG(a.st_mode) && ::lseek(t.w, 0, SEEK_CUR) != ::lseek(t.raw, 0, SEEK_CUR)) violation("not-passed-through", "the position of a real descriptor differs"); free(u); free(v); }
	void use_dir(size_t k) {
		TwinDir &t = dirs[k]; int n = (int)r.below(5); note("use real stream"); evaluated(); count("calls passed through");
		switch (r.below(5)) {
		case 0: t.told.push_back({w_telldir(t.w), ::telldir(t.raw)}); break;
		case 1: if (!t.told.empty()) { auto x = r.pick(t.told); w_seekdir(t.w, x.first); ::seekdir(t.raw, x.second); } break;
		case 2: w_rewinddir(t.w); ::rewinddir(t.raw); break;
		case 3: if (w_dirfd(t.w) != ::dirfd(t.w)) violation("not-passed-through", "dirfd of a real stream differs"); break;
		default: break; }
		while (n--) { struct dirent *a = w_readdir(t.w), *b = ::readdir(t.raw); if (!a != !b || (a && (strcmp(a->d_name, b->d_name) || a->d_ino != b->d_ino))) violation("not-passed-through", fmt("readdir of a real stream gave %s, the system call %s", a ? a->d_name : "the end", b ? b->d_name : "the end")); if (!a) break; } }

	// ------------------------------------------------------------ the image
	const Node *one(const string &p, bool follow, bool &unsure) { Outcomes oc = resolve(im, p, follow); unsure = oc.size() != 1; return unsure ? nullptr : oc[0].node; }
	string image_path() { if (r.chance(15)) return string(MOUNT) + miss_below(); return r.chance(60) ? "/" + random_node(r, im)->path : spell(r, im, random_node(r, im)); }
	string miss_below() { string m = miss(r, im); return m.empty() || m[0] != '/' ? "/" + m : m; }
	void check_cwd(const char *when) {
		char big[4200]; errno = 0; char *g = w_getcwd(big, sizeof big); if (!g) violation("getcwd", fmt("%s, getcwd failed with %s", when, errname(errno).c_str())); evaluated();
		if (!inside) { char raw[4200]; if (!::getcwd(raw, sizeof raw) || strcmp(raw, g)) violation("getcwd", fmt("%s, getcwd reports %s, the system call %s", when, g, raw)); return; }
		string n; normal(g, n); if (n != icwd || (g[0] && g[1] && g[strlen(g) - 1] == '/')) violation("getcwd", fmt("%s, getcwd reports %s, the directory last entered is %s", when, show(g).c_str(), show(icwd).c_str()));
		size_t len = strlen(g); char *m; switch (r.below(6)) {
		case 0: m = (char *)malloc(len + 1); if (w_getcwd(m, len + 1) != m || strcmp(m, big)) violation("getcwd", "getcwd into a buffer that just fits failed"); free(m); break;
		case 1: { size_t k = 1 + r.below(len); m = (char *)malloc(k); errno = 0; if (w_getcwd(m, k) || errno != ERANGE) violation("getcwd", fmt("getcwd into a buffer of %zu for %zu bytes did not fail with ERANGE", k, len + 1)); free(m); break; }
		case 2: m = w_getcwd(nullptr, 0); if (!m || strcmp(m, big)) violation("getcwd", "getcwd into no buffer failed"); vf_free(m); break;
		case 4: { size_t k = 1 + r.below(len + 40); errno = 0; m = w_getcwd(nullptr, k); if (m ? strcmp(m, big) != 0 : k > len || errno != ERANGE) violation("getcwd", fmt("getcwd into no buffer, of size %zu, gave %s for %s", k, m ? show(m).c_str() : errname(errno).c_str(), show(big).c_str())); vf_free(m); break; }
		case 3: { char *w = (char *)malloc(4200); if (w_getwd(w) != w || strcmp(w, big)) violation("getcwd", "getwd failed"); free(w); break; }
		default: { char b1[1]; errno = 0; if (w_getcwd(b1, 0) || errno != EINVAL) violation("getcwd", "getcwd of size 0 did not fail with EINVAL"); } }
		count("current directories judged"); }
	void enter() {
		int k = (int)r.below(12); hist = mix64(hist ^ 100 ^ k);
		if (k < 6) { // a directory of the image
			const Node *d = random_node(r, im, T_DIR); if (d == im.root) d = im.root->kids[0].node; string p = "/" + d->path; int sp = (int)r.below(6); if (sp == 1) p += "/"; else if (sp == 2) p += "/."; else if (sp == 3) { for (size_t i = 1; i < p.size(); ++i) if (p[i] == '/' && r.chance(50)) { p.insert(i, r.chance(50) ? "/" : "/."); i += 2; } } else if (sp == 4) { string par = "/" + d->parent->path; if (d->parent != im.root) p += "/../" + p.substr(par.size() + 1); } else if (sp == 5) { for (auto &e : d->kids) if (e.node->isdir()) { p += "/" + e.name + "/.."; break; } }
			string q = give(p); if (q.empty()) return; errno = 0; int rc = w_chdir(q.c_str()); note(fmt("chdir %s -> %d", show(q).c_str(), rc)); if (rc) violation("chdir", fmt("chdir to %s failed with %s", show(q).c_str(), errname(errno).c_str())); inside = true; physical = true; icwd = "/" + d->path; count("directories of the image entered"); }
		else if (k == 6) { // through links, or something that is no directory
			string p = image_path(); bool unsure; const Node *n = one(p, true, unsure); string q = give(p); if (q.empty() || unsure) return; string full = q[0] == '/' ? q : icwd + "/" + q; string nf; if (!normal(full, nf)) return; errno = 0; int rc = w_chdir(q.c_str()); note(fmt("chdir %s -> %d", show(q).c_str(), rc)); bool ok = n && n->isdir();
			// lexically it may be somewhere else
			bool u2; const Node *n2 = one(nf, true, u2); if (u2 || n2 != n) { if (rc) check_cwd("after a failing chdir"); else { inside = true; physical = false; icwd = nf; char g[4200]; if (w_getcwd(g, sizeof g)) icwd = g; } return; }
			if (!rc != ok) { string sl = p.substr(p.size() - 1); if (!(rc == 0 && n && !n->isdir())) violation("chdir", fmt("chdir to %s %s", show(q).c_str(), rc ? "failed" : "succeeded")); violation("chdir", fmt("chdir to %s, which is no directory, succeeded", show(q).c_str())); }
			if (!rc) { inside = true; icwd = nf; physical = ("/" + n->path) == nf; char g[4200]; if (w_getcwd(g, sizeof g) && "/" + n->path == g) { icwd = g; physical = true; } } else if (!errno) violation("chdir", "chdir failed without a reason"); }
		else if (k < 10) { // a real directory
			string d = r.pick(rdirs); string p = A + d; if (r.chance(20)) p += "x"; if (!inside && r.chance(30)) p = r.chance(50) ? "." : "./"; bool was = inside; char before[4200]; if (!::getcwd(before, sizeof before)) return; errno = 0; int rc = w_chdir(p.c_str()); int e = errno; note(fmt("chdir %s -> %d", show(p).c_str(), rc)); char after[4200]; if (!::getcwd(after, sizeof after)) harness_error("getcwd"); if (::chdir(before)) harness_error("chdir back"); errno = 0; int rr = ::chdir(p.c_str()); int re = errno; char want[4200]; if (!::getcwd(want, sizeof want)) harness_error("getcwd"); if (rc != rr || (rc && e != re) || strcmp(after, want)) violation("not-passed-through", fmt("chdir(%s) gave %d and leads to %s, the system call %d and %s", show(p).c_str(), rc, after, rr, want)); if (!rc) { inside = false; rcwd = want; } else inside = was; count("real directories entered"); }
		else if (k == 10) { // out of the image by dot-dot
			if (!inside || !physical) return; string up; for (size_t i = strlen(MOUNT); i < icwd.size(); ++i) if (icwd[i] == '/') up += "../"; string q = up + ".." + (r.chance(70) ? A : ""); errno = 0; int rc = w_chdir(q.c_str()); note(fmt("chdir %s -> %d", show(q).c_str(), rc)); if (!rc) { char g[4200]; if (!::getcwd(g, sizeof g)) return; inside = false; rcwd = g; string n; normal(q.substr(up.size() + 2), n); if (n != g) violation("chdir", fmt("chdir to %s leads to %s", show(q).c_str(), g)); count("ways out by dot-dot"); } }
		else { string q = inside ? (r.chance(50) ? "no such dir" : string(MOUNT) + "/no such/dir") : string(MOUNT) + "/no such dir"; if (!resolve(im, inside && q[0] != '/' ? icwd + "/" + q : q, true)[0].errs.size()) return; errno = 0; if (!w_chdir(q.c_str())) violation("chdir", "chdir to a missing directory of the image succeeded"); if (!errno) violation("chdir", "chdir failed without a reason"); note("failing chdir"); }
		check_cwd("after chdir"); }
	void image_op() {
		int k = (int)r.below(16); hist = mix64(hist ^ 200 ^ k); evaluated(); count("calls on the image");
		switch (k) {
		case 0: case 1: case 2: { // positioned reads
			if (s.fds.empty()) { s.open_fd(); return; } auto &f = s.fds[r.below(s.fds.size())]; if (f.n->type != T_REG) return; const Content &c = *im.contents[f.n->content]; u64 off = r.chance(80) ? r.below(c.size + 20) : r.chance(50) ? c.size : (u64)r.next() >> (1 + r.below(40)); u64 want = r.chance(80) ? r.below(500) : r.below(20000); u8 *b = (u8 *)malloc(want + 1); errno = 0; bool neg = r.chance(5); off_t o = neg ? -(off_t)(1 + r.below(100)) : (off_t)off; ssize_t g = w_pread(f.fd, b, want, o); note(fmt("pread %llu at %lld of %s -> %zd", (unsigned long long)want, (long long)o, show(f.n->path).c_str(), g)); u64 exp = off >= c.size ? 0 : std::min(want, c.size - off);
			if (neg) { if (g != -1) violation("pread", "pread at a negative offset succeeded"); } else if (g != (ssize_t)exp) { violation("pread", fmt("pread of %llu at %llu of %s (%llu bytes) returned %zd (%s)", (unsigned long long)want, (unsigned long long)off, show(f.n->path).c_str(), (unsigned long long)c.size, g, errname(errno).c_str())); } else { string w = compare(c, off, b, exp); if (!w.empty()) violation("pread", "pread: " + w); } free(b); off_t now = w_lseek(f.fd, 0, SEEK_CUR); if (now != (off_t)f.pos) violation("pread-moves", fmt("pread moved the descriptor from %llu to %lld", (unsigned long long)f.pos, (long long)now)); count("positioned reads"); break; }
		case 3: case 4: { // vectored reads
			if (s.fds.empty()) { s.open_fd(); return; } auto &f = s.fds[r.below(s.fds.size())]; if (f.n->type != T_REG) return; const Content &c = *im.contents[f.n->content]; int n = (int)r.below(7); struct iovec v[7]; u64 total = 0; for (int i = 0; i < n; ++i) { v[i].iov_len = r.chance(20) ? 0 : r.chance(70) ? r.below(200) : r.below(9000); v[i].iov_base = malloc(v[i].iov_len ? v[i].iov_len : 1); memset(v[i].iov_base, 0x6b, v[i].iov_len); total += v[i].iov_len; } errno = 0; ssize_t g = w_readv(f.fd, v, n); note(fmt("readv %d buffers, %llu at %llu of %s -> %zd", n, (unsigned long long)total, (unsigned long long)f.pos, show(f.n->path).c_str(), g)); u64 exp = f.pos >= c.size ? 0 : std::min(total, c.size - f.pos); if (g != (ssize_t)exp) violation("readv", fmt("readv of %llu at %llu of %s (%llu bytes) returned %zd (%s)", (unsigned long long)total, (unsigned long long)f.pos, show(f.n->path).c_str(), (unsigned long long)c.size, g, errname(errno).c_str())); u64 left = exp, at = f.pos; for (int i = 0; i < n; ++i) { u64 t = std::min<u64>(left, v[i].iov_len); string w = compare(c, at, (u8 *)v[i].iov_base, t); if (!w.empty()) violation("readv", fmt("buffer %d of readv: %s", i, w.c_str())); for (u64 j = t; j < v[i].iov_len; ++j) if (((u8 *)v[i].iov_base)[j] != 0x6b) violation("readv", "readv wrote beyond the end of the file"); at += t; left -= t; free(v[i].iov_base); } f.pos += exp; off_t now = w_lseek(f.fd, 0, SEEK_CUR); if (now != (off_t)f.pos) violation("readv", fmt("after readv the descriptor is at %lld, expected %llu", (long long)now, (unsigned long long)f.pos)); count("vectored reads"); break; }
		case 5: { string p = image_path(), q = give(p); if (q.empty()) return; int m = r.chance(50) ? F_OK : R_OK; Outcomes oc = resolve(im, p, true); errno = 0; int rc = w_access(q.c_str(), m); int e = errno; note(fmt("access %s -> %d", show(q).c_str(), rc)); judge("access", p, oc, rc == 0, e, Tol()); break; }
		case 6: { // a stream of a descriptor
			string p = image_path(), q = give(p); bool unsure; const Node *n = one(p, true, unsure); if (q.empty() || unsure || !n) return; int fd = r.chance(50) ? w_open2(q.c_str(), O_RDONLY) : w_open3(q.c_str(), O_RDONLY, 0644); if (fd < 0) violation("open", fmt("open of %s failed with %s", show(q).c_str(), errname(errno).c_str())); errno = 0; DIR *d = w_fdopendir(fd); int e = errno; note(fmt("fdopendir %s -> %s", show(q).c_str(), d ? "stream" : "nothing"));
			if (!n->isdir()) { if (d || e != ENOTDIR) violation("fdopendir", fmt("fdopendir of %s, no directory, gave %s", show(q).c_str(), d ? "a stream" : errname(e).c_str())); struct stat st; if (w_fstat(fd, &st)) violation("fdopendir", "after a failing fdopendir the descriptor is gone"); string w = check_stat(im, n, st); if (!w.empty()) violation("fdopendir", "after a failing fdopendir: " + w); if (w_close(fd)) violation("close", "close failed"); return; }
			if (!d) violation("fdopendir", fmt("fdopendir of %s failed with %s", show(q).c_str(), errname(e).c_str())); if (w_dirfd(d) != fd) violation("fdopendir", "dirfd is not the descriptor the stream was made of"); if (s.dirs.size() < 8) s.dirs.push_back(Session::Dir{(SQUASH_DIR *)d, n, 0, false, {}, nullptr, 0}); else { for (auto &x : n->kids) { struct dirent *t = w_readdir(d); if (!t || x.name != t->d_name) violation("fdopendir", "a stream made of a descriptor gives other entries"); } if (w_readdir(d)) violation("fdopendir", "a stream made of a descriptor gives too many entries"); if (w_closedir(d)) violation("closedir", "closedir failed"); if (SQUASH_VALID_VFD(fd)) violation("closedir", "closedir left the descriptor open"); } count("streams made of descriptors"); break; }
		case 7: { string p = image_path(); string q = give(p); if (q.empty()) return; Outcomes oc = resolve(im, p, true); int d = r.chance(40) ? AT_FDCWD : r.chance(50) ? -1 : 0; if (q[0] != '/') d = AT_FDCWD; errno = 0; int fd = r.chance(50) ? w_openat3(d, q.c_str(), O_RDONLY) : w_openat4(d, q.c_str(), O_RDONLY, 0); int e = errno; note(fmt("openat %s -> %d", show(q).c_str(), fd)); auto c = judge("openat", p, oc, fd >= 0, e, Tol()); if (fd < 0) return; struct stat st; if (w_fstat(fd, &st)) violation("fstat", "fstat failed"); bool ok = false; string why; for (auto *n : c) { why = check_stat(im, n, st); ok |= why.empty(); } if (!ok) violation("openat", "openat opened something else: " + why); if (w_close(fd)) violation("close", "close failed"); errno = 0; struct stat s2; if (SQUASH_VALID_VFD(fd)) violation("close", "close left the descriptor open"); (void)s2; break; }
		case 8: { string p = image_path(), q = give(p); bool unsure; const Node *n = one(p, false, unsure); if (q.empty() || unsure || !n || p == MOUNT || n == im.root->kids[0].node) return; string nf; normal(p, nf); if (nf != "/" + n->path) return; errno = 0; int rc = w_mkdir(q.c_str(), 0755); if (rc != -1 || errno != EEXIST) violation("mkdir", fmt("mkdir of the existing %s gave %d (%s)", show(q).c_str(), rc, errname(errno).c_str())); note("mkdir of something existing"); break; }
		case 9: { // libraries
			int t = (int)r.below(4); string p = t == 0 ? image_path() : string(MOUNT) + (r.chance(50) ? "/lib one.so" : "/lib2.so"), q = give(p); if (q.empty()) return; bool unsure; const Node *n = one(p, true, unsure); if (unsure || (n && n->type == T_REG && im.contents[n->content]->size > 300000)) return; if (q.find('/') == string::npos) q = "./" + q; void *h = w_dlopen(q.c_str(), RTLD_NOW | RTLD_LOCAL); bool lib = n && n->type == T_REG && !im.contents[n->content]->lit.empty(); note(fmt("dlopen %s -> %s", show(q).c_str(), h ? "loaded" : "failed"));
			if (!lib) { if (h) violation("dlopen", fmt("dlopen of %s, which is no library, succeeded", show(q).c_str())); return; } if (!h) violation("dlopen", fmt("dlopen of the packed library %s failed: %s", show(q).c_str(), dlerror())); int (*f)() = (int (*)())dlsym(h, "vf_probe_value"); if (!f || f() != 20261119) violation("dlopen", "dlopen loaded another library than the packed one"); dlclose(h); count("packed libraries loaded"); break; }
		case 10: { void *h = w_dlopen("libz.so.1", RTLD_NOW), *g = ::dlopen("libz.so.1", RTLD_NOW); if (h != g) violation("not-passed-through", "dlopen of a name without a slash differs from the system call"); if (h) dlclose(h); if (g) dlclose(g); h = w_dlopen(nullptr, RTLD_NOW); g = ::dlopen(nullptr, RTLD_NOW); if (h != g) violation("not-passed-through", "dlopen of the main program differs from the system call"); break; }
		case 11: { // a path that only looks like one of the image
			static const char *near[] = {"/__enclose_io_memfs__x", "/__enclose_io_memfs_", "/__enclose_io_memfs__.d/f", "/__ENCLOSE_IO_MEMFS__/f", "/__enclose_io_memf/f"}; struct stat a, b; const char *p = near[r.below(5)]; errno = 0; int w = w_stat(p, &a); int we = errno; errno = 0; int y = ::stat(p, &b); same("stat", p, w, we, y, errno); errno = 0; w = w_open2(p, O_RDONLY); we = errno; errno = 0; y = ::open(p, O_RDONLY); same("open", p, w, we, y, errno);
			errno = 0; w = w_lstat(p, &a); we = errno; errno = 0; y = ::lstat(p, &b); same("lstat", p, w, we, y, errno); errno = 0; w = w_access(p, F_OK); we = errno; errno = 0; y = ::access(p, F_OK); same("access", p, w, we, y, errno); errno = 0; w = w_opendir(p) ? 0 : -1; we = errno; errno = 0; y = ::opendir(p) ? 0 : -1; same("opendir", p, w, we, y, errno); char l[8]; errno = 0; w = (int)w_readlink(p, l, 8); we = errno; errno = 0; y = (int)::readlink(p, l, 8); same("readlink", p, w, we, y, errno); struct dirent **e; errno = 0; w = w_scandir(p, &e, nullptr, nullptr); we = errno; errno = 0; y = ::scandir(p, &e, nullptr, nullptr); same("scandir", p, w, we, y, errno); break; }
		case 12: { struct stat st; string p = image_path(), q = give(p); if (q.empty()) return; string keep = q; char *z = strdup(q.c_str()); w_stat(z, &st); w_open2(z, O_RDONLY); int fd = w_open2(z, O_RDONLY); if (fd >= 0) { w_close(fd); w_close(fd - 1 >= 0 && SQUASH_VALID_VFD(fd) ? fd : -1); } DIR *d = w_opendir(z); if (d) w_closedir(d); w_access(z, F_OK); if (keep != z) violation("argument-changed", fmt("a call changed its argument from %s to %s", show(keep).c_str(), show(z).c_str())); free(z); break; }
		case 13: { // copies, as a program asks for them that cannot do with a descriptor
			if (r.chance(30)) { RP x = real_path(); if (inside && x.p[0] != '/') return; int is = w_if(x.p.c_str()); if (is) violation("if", fmt("%s is taken for a path of the image", show(x.p).c_str())); const char *g = w_ifextract(x.p.c_str(), "so"); if (!g || x.p != g) violation("not-passed-through", fmt("the path %s, outside the image, was turned into %s", show(x.p).c_str(), g ? g : "nothing")); count("paths left alone"); break; }
			string p = image_path(), q = give(p); if (q.empty()) return; bool unsure; const Node *n = one(p, true, unsure); if (unsure || (n && n->type == T_REG && im.contents[n->content]->size > 300000)) return; if (!w_if(q.c_str())) violation("if", fmt("%s is not taken for a path of the image", show(q).c_str()));
			const char *ext = r.chance(30) ? nullptr : r.chance(50) ? "so" : "a b"; set<string> before; { const char *t = getenv("TMPDIR"); if (DIR *d = ::opendir(t ? t : "/tmp")) { while (dirent *e = ::readdir(d)) before.insert(e->d_name); ::closedir(d); } } errno = 0; const char *g = w_ifextract(q.c_str(), ext); note(fmt("extract %s -> %s", show(q).c_str(), g ? g : errname(errno).c_str())); bool file = n && n->type == T_REG; if (!file) { if (g) violation("extract-what", fmt("extracting %s, which is no packed file, gave %s", show(q).c_str(), g)); break; } if (!g) violation("extract-failed", fmt("extracting %s failed with %s", show(q).c_str(), errname(errno).c_str()));
			string base = strrchr(g, '/') ? strrchr(g, '/') + 1 : g; if (!before.count(base)) { string want = ext ? string(".") + ext : ""; if (ext ? base.size() <= want.size() || base.compare(base.size() - want.size(), string::npos, want) : base.find('.') != string::npos) violation("extract-name", fmt("the copy of %s, asked for with %s, is %s", show(q).c_str(), ext ? ext : "no extension", show(g).c_str())); count("new copies named"); }
			const Content &ct = *im.contents[n->content]; string got = slurp(g); if (got.size() != ct.size) violation("copy-size", fmt("the copy of %s has %zu bytes, packed %llu", show(q).c_str(), got.size(), (unsigned long long)ct.size)); string w = compare(ct, 0, (const u8 *)got.data(), got.size()); if (!w.empty()) violation("copy-bytes", "a copy: " + w); count("copies judged"); break; }
		default: check_cwd("later"); } }
	// paths longer than the layer's buffers: the right answer, or none for this very reason
	void overlong() {
		string p = "/" + random_node(r, im)->path; if (!under_mount(p)) p = MOUNT; if (r.chance(25)) p += "/no such thing"; if (p.size() > 1200) return; static const int ls[] = {2046, 2047, 2048, 2049, 2050, 2100, 3000, 4094, 4095, 4096, 4097, 4200, 10000, 70000}; size_t want = r.chance(50) ? 1940 + r.below(170) : (size_t)ls[r.below(14)];
		bool rel = inside && physical && r.chance(65); string head = MOUNT, rest = p.substr(strlen(MOUNT)); if (rel) { if (p.size() > icwd.size() + 1 && p.compare(0, icwd.size() + 1, icwd + "/") == 0 && r.chance(60)) { head = "."; rest = p.substr(icwd.size()); } else { head = "."; for (size_t i = strlen(MOUNT); i < icwd.size(); ++i) if (icwd[i] == '/') head += "/.."; } }
		size_t cwd = rel ? icwd.size() + 1 : 0; string pad; bool late = r.chance(40) && rest.size() > 1; string a = rest, z; if (late) { size_t i = rest.rfind('/'); a = rest.substr(0, i); z = rest.substr(i); } else { z = rest; a = ""; } const char *unit = r.chance(70) ? "/." : "/"; while (cwd + head.size() + a.size() + pad.size() + z.size() < want) pad += unit; if (!strcmp(unit, "/") && z.empty()) pad += "."; string q = head + a + pad + z, full = rel ? icwd + "/" + q : q; // where it is cut decides what is named instead
		bool unsure; const Node *n = one(p, true, unsure); Outcomes ol = resolve(im, p, false); if (unsure || ol.size() != 1) return; const Node *l = ol[0].node; if (l && l->type == T_LNK && pad.size() && z.empty()) return; bool may = full.size() > 1900; auto fail = [&](const char *c, int e) { if (!may || e != ENAMETOOLONG) violation("overlong", fmt("%s of a path of %zu bytes (%zu in full) for %s failed with %s", c, q.size(), full.size(), show(p).c_str(), errname(e).c_str())); count("overlong paths refused"); }; struct stat st; int k = (int)r.below(10); note(fmt("overlong %d %zu %s", k, full.size(), show(p).c_str())); evaluated(); hist = mix64(hist ^ 300 ^ k); errno = 0;
		auto bad = [&](const char *c) { violation("overlong", fmt("%s of a path of %zu bytes (%zu in full) for %s, which does not exist that way, succeeded", c, q.size(), full.size(), show(p).c_str())); }; auto right = [&](const char *c, const Node *x) { string w = check_stat(im, x, st); if (!w.empty()) violation("overlong", fmt("%s of a path of %zu bytes (%zu in full) for %s: %s", c, q.size(), full.size(), show(p).c_str(), w.c_str())); count("overlong paths answered"); };
		switch (k) {
		case 0: { int rc = w_stat(q.c_str(), &st); if (!n) { if (!rc) bad("stat"); } else if (rc) fail("stat", errno); else right("stat", n); break; }
		case 1: { int rc = w_lstat(q.c_str(), &st); if (!l) { if (!rc) bad("lstat"); } else if (rc) fail("lstat", errno); else right("lstat", l); break; }
		case 2: { int fd = r.chance(50) ? w_open2(q.c_str(), O_RDONLY) : w_openat3(AT_FDCWD, q.c_str(), O_RDONLY); int e = errno; if (!n) { if (fd >= 0) bad("open"); } else if (fd < 0) fail("open", e); else { if (w_fstat(fd, &st)) violation("fstat", "fstat failed"); right("open", n); } if (fd >= 0) w_close(fd); break; }
		case 3: { char b[2100]; ssize_t g = w_readlink(q.c_str(), b, sizeof b); if (!l || l->type != T_LNK) { if (g >= 0) bad("readlink"); } else if (g < 0 && l->target.size() < 2040) fail("readlink", errno); break; }
		case 4: { int rc = w_access(q.c_str(), F_OK); if (!n) { if (!rc) bad("access"); } else if (rc) fail("access", errno); break; }
		case 5: { DIR *d = w_opendir(q.c_str()); int e = errno; if (!n || !n->isdir()) { if (d) bad("opendir"); } else if (!d) fail("opendir", e); else { for (auto &x : n->kids) { struct dirent *t = w_readdir(d); if (!t || x.name != t->d_name) violation("overlong", "opendir of a long path lists another directory"); } if (w_readdir(d)) violation("overlong", "opendir of a long path lists another directory"); } if (d) w_closedir(d); break; }
		case 6: { struct dirent **v = nullptr; int c = w_scandir(q.c_str(), &v, nullptr, nullptr); if (!n || !n->isdir()) { if (c >= 0) bad("scandir"); } else if (c < 0) fail("scandir", errno); else { if (c != (int)n->kids.size()) violation("overlong", "scandir of a long path lists another directory"); for (int i = 0; i < c; ++i) vf_free(v[i]); vf_free(v); } break; }
		case 7: { int rc = w_chdir(q.c_str()), e = errno; if (rc) { if (n && n->isdir()) fail("chdir", e); check_cwd("after chdir to a long path"); } else { if (!n || !n->isdir()) bad("chdir"); if (l != n || p != "/" + n->path) { inside = true; physical = false; char g[4200]; if (w_getcwd(g, sizeof g)) icwd = g; break; } inside = true; physical = true; icwd = p; check_cwd("after chdir to a long path"); } break; }
		case 8: { if (!l || p == MOUNT || p != "/" + l->path) return; int rc = w_mkdir(q.c_str(), 0755), e = errno; if (!rc) bad("mkdir"); if (e != EEXIST) fail("mkdir", e); break; }
		default: { if (n && n->type == T_REG && im.contents[n->content]->size > 100000) return; const char *g = w_ifextract(q.c_str(), "so"); int e = errno; if (!n || n->type != T_REG) { if (g) bad("extract"); } else if (!g) fail("extract", e); else { const Content &ct = *im.contents[n->content]; string got = slurp(g); string w = got.size() == ct.size ? compare(ct, 0, (const u8 *)got.data(), got.size()) : "another size"; if (!w.empty()) violation("overlong", "extracting a long path: " + w); } } }
		if (full.size() > 2048) count("calls with paths of more than 2048 bytes"); }
	void exec_op() { // of a packed program and of a real one
		int pp[2]; if (::pipe(pp)) harness_error("pipe"); int kind = (int)r.below(3); string p = kind == 0 ? "/bin/echo" : give("/" + random_node(r, im)->path); if (p.empty()) p = MOUNT; if (kind == 2) p = inside ? "/bin/no such program" : "no such program"; fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
		if (!pid) { dup2(pp[1], 1); char a0[] = "name", a1[] = "first arg", a2[] = ""; char *argv[] = {a0, a1, a2, nullptr}; errno = 0; int rc = w_execv(p.c_str(), argv); dprintf(1, "failed %d %s", rc, errname(errno).c_str()); _exit(0); }
		::close(pp[1]); string got; char b[4096]; ssize_t k; while ((k = ::read(pp[0], b, sizeof b)) > 0) got.append(b, k); ::close(pp[0]); int st; waitpid(pid, &st, 0); string want; note(fmt("execv %s -> %s", show(p).c_str(), show(got).c_str()));
		if (kind == 0) want = "first arg \n"; else if (kind == 2) want = "failed -1 ENOENT"; else { // the program itself again, told the path
			string full = p[0] == '/' ? p : icwd + "/" + p, n, m; normal(full, n); size_t i = got.find("\nname\n"); size_t j = i == string::npos ? i : got.rfind("\nfirst arg\n\n"); if (j == string::npos) violation("execv", fmt("execv of the packed %s started %s", show(p).c_str(), show(got).c_str())); normal(got.substr(i + 6, j - i - 6), m); if (m != n || got.substr(j) != "\nfirst arg\n\n") violation("execv", fmt("execv of the packed %s started the program with %s", show(p).c_str(), show(got).c_str())); want = got; }
		if (got != want) violation("not-passed-through", fmt("execv of %s gave %s", show(p).c_str(), show(got).c_str())); count("programs started"); evaluated(); }
};
string given(const char *p) { return W->give(p); }
}
void prop_init() {
	start_library(); const char *so = getenv("VF_PROBE_SO"); if (!so) harness_error("no probe library"); so_bytes = slurp(so); if (so_bytes.size() < 100) harness_error("no probe library");
	api.open = [](sqfs *f, const char *p) { string q = given(p); return q.empty() ? squash_open(f, p) : W->r.chance(70) ? w_open2(q.c_str(), O_RDONLY) : w_open3(q.c_str(), O_RDONLY, 0); };
	api.close = w_close; api.read = [](int fd, void *b, sqfs_off_t n) { return w_read(fd, b, (size_t)n); }; api.lseek = w_lseek; api.fstat = w_fstat;
	api.stat = [](sqfs *f, const char *p, struct stat *s) { string q = given(p); return q.empty() ? squash_stat(f, p, s) : w_stat(q.c_str(), s); };
	api.lstat = [](sqfs *f, const char *p, struct stat *s) { string q = given(p); return q.empty() ? squash_lstat(f, p, s) : w_lstat(q.c_str(), s); };
	api.readlink = [](sqfs *f, const char *p, char *b, size_t n) { string q = given(p); return q.empty() ? squash_readlink(f, p, b, n) : w_readlink(q.c_str(), b, n); };
	api.opendir = [](sqfs *f, const char *p) { string q = given(p); return q.empty() ? squash_opendir(f, p) : (SQUASH_DIR *)w_opendir(q.c_str()); };
	api.closedir = [](SQUASH_DIR *d) { return w_closedir((DIR *)d); }; api.readdir = [](SQUASH_DIR *d) { return w_readdir((DIR *)d); }; api.telldir = [](SQUASH_DIR *d) { return w_telldir((DIR *)d); }; api.seekdir = [](SQUASH_DIR *d, long l) { w_seekdir((DIR *)d, l); }; api.rewinddir = [](SQUASH_DIR *d) { w_rewinddir((DIR *)d); };
	api.scandir = [](sqfs *f, const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { string q = given(p); return q.empty() ? squash_scandir(f, p, l, s, c) : w_scandir(q.c_str(), l, s, c); };
}
void prop_done() {}
// reads that fail because of a damaged block
static void damaged_reads(Rng &r) {
	Profile p = random_profile(r); p.data_stored_pct = 0; p.files = 1; p.max_file = 100; auto im = random_image(r, p); Node *m = mount_tree(*im); vector<Node *> fs; for (int i = 0; i < 6; ++i) { Node *f = im->add(m, free_name(m, fmt("file%d", i)), T_REG); random_meta(r, *im, f); Content *c = im->content(f, r.below(5 << p.bs_log), Content::TEXT, r.next()); c->frag = r.chance(50); fs.push_back(f); }
	im->build(r); vector<char> bad = damage(r, *im, 50, 1u << Blk::DATA | 1u << Blk::FRAG); Tol tol; tol.bad = &bad; Opened o(*im, r); enclose_io_fs = o.fs;
	for (Node *f : fs) {
		const Content &c = *im->contents[f->content]; int fd = w_open2(("/" + f->path).c_str(), O_RDONLY); if (fd < 0) violation("open", "open failed"); u64 pos = 0;
		for (int i = 0; i < 25; ++i) {
			u64 off = r.below(c.size + 10), n = r.below(r.chance(50) ? 100 : 2 * c.bs); if (r.chance(40)) { pos = off; if (w_lseek(fd, (off_t)pos, SEEK_SET) != (off_t)pos) violation("lseek", "lseek failed"); off = r.below(c.size + 10); }
			u8 *b = (u8 *)malloc(n + 1); int kind = (int)r.below(3); u64 at = kind == 0 ? off : pos, exp = at >= c.size ? 0 : std::min(n, c.size - at); errno = 0; ssize_t g; u64 split = r.below(n + 1);
			if (kind == 0) g = w_pread(fd, b, n, (off_t)off); else if (kind == 1) g = w_read(fd, b, n); else { struct iovec v[2] = {{b, split}, {b + split, n - split}}; g = w_readv(fd, v, 2); } int e = errno; const char *call = kind == 0 ? "pread" : kind == 1 ? "read" : "readv"; note(fmt("%s %llu at %llu of %s -> %zd", call, (unsigned long long)n, (unsigned long long)at, show(f->path).c_str(), g)); evaluated();
			if (g == -1) { if (!e) violation("errno", fmt("%s failed without a reason", call)); if (!read_may_fail(*im, f, at, n, tol)) violation(call, fmt("%s of %llu at %llu failed with %s", call, (unsigned long long)n, (unsigned long long)at, errname(e).c_str())); count("failing reads through the layer"); }
			else { bool part = kind == 2 && g == (ssize_t)split && read_may_fail(*im, f, at + split, n - split, tol); if (!part && g != (ssize_t)exp) violation(call, fmt("%s of %llu at %llu of %llu gave %zd", call, (unsigned long long)n, (unsigned long long)at, (unsigned long long)c.size, g)); if (read_must_fail(*im, f, at, g, tol)) violation("read-damaged", fmt("%s succeeded on a damaged block", call)); string w = compare(c, at, b, g); if (!w.empty()) violation(call, w); if (kind) pos += g; }
			free(b); off_t now = w_lseek(fd, 0, SEEK_CUR); if (now != (off_t)pos) violation("position", fmt("after %s, which %s, the descriptor is at %lld, expected %llu", call, g < 0 ? "failed" : "succeeded", (long long)now, (unsigned long long)pos)); }
		if (w_close(fd)) violation("close", "close failed"); }
}
void prop_case(Rng &r, u64 index) {
	if (index % 6 == 5) damaged_reads(r);
	string base = opt.scratch + fmt("/real%llu", (unsigned long long)(index % 1000)); wipe(base); ::mkdir(base.c_str(), 0755);
	if (index % 4 == 3) { base += "/__enclose_io_memfs__"; ::mkdir(base.c_str(), 0755); }
	Profile p = random_profile(r); p.max_file = 30000; p.files = 6 + (int)r.below(14); p.dirs += 2; auto im = random_image(r, p); Node *m = mount_tree(*im);
	for (auto &n : im->nodes) if (n->type == T_LNK && n->target[0] == '/' && r.chance(70) && n->target.size() < 1500) n->target = MOUNT + n->target;
	for (auto *nm : {"lib one.so", "lib2.so"}) { Node *f = im->add(m, free_name(m, nm), T_REG); random_meta(r, *im, f); Content *c = im->content(f, so_bytes.size(), Content::TEXT, r.next()); c->lit = so_bytes; c->frag = r.chance(50); }
	if (r.chance(50)) { Node *x = im->add(im->root, string(MOUNT + 1) + "x", r.chance(50) ? T_REG : T_DIR); random_meta(r, *im, x); if (x->type == T_REG) im->content(x, 50, Content::TEXT, 1); Node *d = im->add(im->root, string(MOUNT + 1) + ".d", T_DIR); random_meta(r, *im, d); x = im->add(d, "f", T_REG); random_meta(r, *im, x); im->content(x, 50, Content::TEXT, 1); } // beside the mount point
	im->build(r); auto fds0 = open_fds(); note(im->prof.describe());
	{ Opened o(*im, r); enclose_io_fs = o.fs; World w(*im, o.fs, r.next(), base); W = &w; Rng q(r.next()); w.build(w.A, q, true); w.build(w.B, q, false);
		if (w_chdir(w.A.c_str())) violation("chdir", "chdir to a real directory failed"); char g[4200]; if (!::getcwd(g, sizeof g)) harness_error("getcwd"); w.rcwd = g; if (w.rcwd != w.A) harness_error("the scratch directory is behind a link");
		if (index < 3) sample(fmt("300 calls on an image of %zu objects and on real trees with %zu entries", im->nodes.size(), w.rels.size()));
		for (int i = 0; i < 300; ++i) { int k = (int)r.below(100); if (k < 34) { w.s.op(); if (k < 20) evaluated(); } else if (k < 60) w.real_op(); else if (k < 84) w.image_op(); else if (k < 88) w.overlong(); else if (k < 99) w.enter(); else if (r.chance(25)) w.exec_op(); distinct(w.hist ^ mix64(w.s.hist)); }
		w.s.check_held(); w.s.close_all(); while (!w.fds.empty()) w.close_fd(0); while (!w.dirs.empty()) w.close_dir(0);
		map<string, string> a, b; walk(w.A, "", a); walk(w.B, "", b); for (auto &x : b) if (!a.count(x.first)) violation("not-passed-through", fmt("%s was not created", show(x.first).c_str())); else if (a[x.first] != x.second) violation("not-passed-through", fmt("%s is %s, expected %s", show(x.first).c_str(), show(a[x.first]).c_str(), show(x.second).c_str())); for (auto &x : a) if (!b.count(x.first)) violation("not-passed-through", fmt("%s was created", show(x.first).c_str()));
		count("calls with relative image paths", w.through_relative); count("calls with absolute image paths", w.through_absolute); count("real trees compared");
		squash_extract_clear_cache(); if (w_chdir("/")) violation("chdir", "chdir failed"); }
	(void)fds0; wipe(opt.scratch + fmt("/real%llu", (unsigned long long)(index % 1000)));
}
