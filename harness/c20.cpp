// C20: what is created under the mount prefix
#include "wrap.h"
#include <sys/wait.h>
#include <poll.h>
namespace {
typedef map<string, string> Tree;
string slurp(const string &p) { string s; int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return "?"; char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof b)) > 0) s.append(b, k); ::close(fd); return s; }
void put(const string &p, const string &s) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) harness_error("cannot create " + p); if (::write(fd, s.data(), s.size()) < 0) {} ::close(fd); }
void wipe(const string &p) { if (p.compare(0, opt.scratch.size() + 1, opt.scratch + "/")) harness_error("outside the scratch directory"); struct stat st; if (::lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { ::chmod(p.c_str(), 0700); DIR *d = ::opendir(p.c_str()); vector<string> v; if (d) { while (dirent *e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); ::closedir(d); } for (auto &x : v) wipe(p + "/" + x); ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
void walk(const string &p, const string &rel, Tree &out, const string &skip) {
	if (rel == skip) return; struct stat st; if (::lstat(p.c_str(), &st)) return; string d = fmt("%o", st.st_mode); if (S_ISREG(st.st_mode)) d += fmt(" %016llx", (unsigned long long)fnvs(slurp(p))); if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = ::readlink(p.c_str(), b, sizeof b); d += " " + string(b, k < 0 ? 0 : k); } out[rel] = d;
	if (S_ISDIR(st.st_mode)) { DIR *h = ::opendir(p.c_str()); if (!h) return; while (dirent *e = ::readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) walk(p + "/" + e->d_name, rel + "/" + e->d_name, out, skip); ::closedir(h); } }
string text(Rng &r, size_t n) { string s; s.reserve(n); while (s.size() < n) s += (char)r.next(); return s; }

struct Made { bool dir; string data; mode_t mode; };
struct World;
World *W;
struct World {
	Rng r; Image &im; sqfs *fs; Session s; Node *m; string base, T, tmp_rel, overlay; Tree before; map<string, Made> made; set<string> linked; /* directories reached through packed links */ set<string> through; /* packed directories above something created */ bool any = false, tried = false; string icwd; u64 hist = 0; int serial = 0;
	struct Fd { int fd; string rel; bool w; }; vector<Fd> fds; // real descriptors of created files
	World(Image &i, sqfs *f, Node *mount, u64 seed, const string &b, const string &t) : r(seed), im(i), fs(f), s(f, i, Tol(), seed + 1), m(mount), base(b), T(t) { s.kinds = (1u << Q_STAT | 1u << Q_LSTAT | 1u << Q_OPENREAD | 1u << Q_READLINK | 1u << Q_LIST | 1u << Q_SCAN); tmp_rel = T.substr(base.size()); walk(base, "", before, "/-"); }
	static string parent(const string &rel) { return rel.substr(0, rel.rfind('/')); }
	const Node *packed(const string &rel, bool follow = true) { Outcomes oc = resolve(im, string(MOUNT) + rel, follow); return oc.size() == 1 ? oc[0].node : nullptr; }
	bool physical(const string &rel) { const Node *n = m; size_t i = 0; while (i < rel.size()) { size_t j = rel.find('/', i + 1); if (j == string::npos) j = rel.size(); const Ent *e = n->isdir() ? n->kid(rel.substr(i + 1, j - i - 1)) : nullptr; if (!e) return false; n = e->node; i = j; } return true; }
	const Node *phys(const string &rel) { const Node *n = m; size_t i = 0; while (i < rel.size()) { size_t j = rel.find('/', i + 1); if (j == string::npos) j = rel.size(); const Ent *e = n->isdir() ? n->kid(rel.substr(i + 1, j - i - 1)) : nullptr; if (!e) return nullptr; n = e->node; i = j; } return n; }
	bool is_dir(const string &rel) { auto it = made.find(rel); if (it != made.end()) return it->second.dir; if (linked.count(rel)) return true; if (file_above(rel)) return false; const Node *n = phys(rel); return n && n->isdir(); }
	bool exists(const string &rel) { return made.count(rel) || (!file_above(rel) && phys(rel)); }
	bool file_above(const string &rel) { for (size_t i = rel.find('/', 1); i != string::npos; i = rel.find('/', i + 1)) { auto it = made.find(rel.substr(0, i)); if (it != made.end() && !it->second.dir) return true; } return false; }
	bool closed_above(const string &rel, int bits) { for (string q = parent(rel);; q = parent(q)) { auto it = made.find(q); if (it != made.end() && it->second.dir && (it->second.mode & bits) != (mode_t)bits) return true; if (q.empty()) return false; bits = 0100; } }
	string random_dir() { if (!made.empty() && r.chance(45)) { vector<string> v; for (auto &x : made) if (x.second.dir) v.push_back(x.first); if (!v.empty()) return r.pick(v); } for (;;) { const Node *d = random_node(r, im, T_DIR); if (d == im.root) continue; string rel = d == m ? "" : "/" + d->path.substr(strlen(MOUNT)); if (rel.size() > 1 && rel[1] == '/') rel = rel.substr(1); if (rel.size() < 500) return rel; } }
	// spells the path of something below the mount point
	string spell_rel(const string &rel) {
		string p = string(MOUNT) + rel; if (!icwd.empty() && r.chance(50)) { // relative
			if (p.size() > icwd.size() + 1 && p.compare(0, icwd.size() + 1, icwd + "/") == 0) return p.substr(icwd.size() + 1);
			string at = icwd.substr(strlen(MOUNT)); string up; for (char c : at) if (c == '/') up += "../"; string rest = rel.empty() ? "." : rel.substr(1); return up + rest; }
		if (r.chance(25) && rel.size()) { size_t i = p.find('/', 1 + r.below(p.size() - 1)); if (i != string::npos && i >= strlen(MOUNT)) { string at = p.substr(strlen(MOUNT), i - strlen(MOUNT)); int k = (int)r.below(3); if (k == 0) p.insert(i, "/"); else if (k == 1) p.insert(i, "/."); else { const Node *n = phys(at); if (n && n->isdir()) for (auto &e : n->kids) if (e.node->isdir() && !made.count(at + "/" + e.name)) { p.insert(i, "/" + e.name + "/.."); break; } } } }
		return p; }
	void monitor(const char *when) {
		Tree now; walk(base, "", now, overlay.empty() ? "/-" : tmp_rel + "/" + overlay); evaluated();
		if (overlay.empty()) { vector<string> fresh; for (auto &x : now) if (!before.count(x.first)) fresh.push_back(x.first); if (!fresh.empty()) { string p = fresh[0]; if (parent(p) != tmp_rel) violation("outside", fmt("%s, %s was created outside the temporary directory", when, show(base + p).c_str())); for (auto &x : fresh) if (x != p && x.compare(0, p.size() + 1, p + "/")) violation("outside", fmt("%s, both %s and %s were created", when, show(p).c_str(), show(x).c_str())); struct stat st; if (::lstat((base + p).c_str(), &st) || !S_ISDIR(st.st_mode) || (st.st_mode & 07777) != 0700 || st.st_uid != geteuid()) violation("not-private", fmt("%s, %s has mode %o", when, show(base + p).c_str(), st.st_mode)); overlay = p.substr(tmp_rel.size() + 1); for (auto &x : fresh) now.erase(x); if (!tried) violation("outside", fmt("%s, %s exists although nothing was created", when, show(p).c_str())); } }
		for (auto &x : before) { auto it = now.find(x.first); if (it == now.end()) violation("deleted", fmt("%s, %s is gone", when, show(base + x.first).c_str())); if (it->second != x.second) violation("changed", fmt("%s, %s was changed: %s, before %s", when, show(base + x.first).c_str(), it->second.c_str(), x.second.c_str())); }
		for (auto &x : now) if (!before.count(x.first)) violation("outside", fmt("%s, %s was created outside the private directory", when, show(base + x.first).c_str()));
		count("directory trees compared"); }
	void attempt(const string &rel) { for (string q = parent(rel);; q = parent(q)) { if (!made.count(q)) through.insert(q); if (q.empty()) break; } }
	void created(const string &rel, bool dir, mode_t mode) { made[rel] = Made{dir, "", mode}; any = true; for (string q = parent(rel);; q = parent(q)) { if (!made.count(q)) through.insert(q); if (q.empty()) break; } note(fmt("created %s", show(rel).c_str())); }
	string new_name(const string &dir) { const Node *n = phys(dir); if (n && n->isdir() && !n->kids.empty() && r.chance(25)) return r.pick(n->kids).name; int k = (int)r.below(8); if (k == 0) return random_name(r, nullptr, 10); if (k == 1) return "__enclose_io_memfs__"; return fmt("new%llu", (unsigned long long)r.below(9)); }
	void make_dir() {
		string d = random_dir(); if (std::count(d.begin(), d.end(), '/') > 30) return; int bad = (int)r.below(12); string rel = d + "/" + new_name(d); if (bad == 0) rel = d + "/missing dir/x"; else if (bad == 1) { const Node *f = random_node(r, im, T_REG); if (f) rel = f->path.substr(strlen(MOUNT) - 1) + "/x"; if (rel[0] != '/') rel = "/" + rel; } else if (bad == 2) rel = d + "/" + string(256 + r.below(20), 'n');
		if (rel.size() > 900) return; if (r.chance(30)) for (auto &x : made) if (r.chance(10)) { rel = x.first; break; }
		static const mode_t ms[] = {0700, 0755, 0777, 0750, 0700, 0500, 0300, 0, 0711}; mode_t mode = ms[r.below(9)]; string p = spell_rel(rel); if (r.chance(10)) p += "/"; const Node *at = phys(parent(rel)); bool old_made = made.count(rel), old_packed = phys(rel) && !file_above(rel), par = is_dir(parent(rel)) && !file_above(rel), ro = closed_above(rel, 0300), big = rel.substr(rel.rfind('/') + 1).size() > 255; tried = true; if (par) attempt(rel); (void)at;
		errno = r.chance(50) ? 0 : EBUSY; int rc = w_mkdir(p.c_str(), mode); int e = errno; note(fmt("mkdir %s %o -> %d %s", show(p).c_str(), mode, rc, rc ? errname(e).c_str() : "")); evaluated();
		if (rc != 0 && rc != -1) violation("mkdir", fmt("mkdir returned %d", rc));
		if (old_made || old_packed) { if (!rc || (e != EEXIST && !(old_made && ro && e == EACCES))) violation("mkdir", fmt("mkdir of the existing %s gave %d (%s)", show(p).c_str(), rc, errname(e).c_str())); return; }
		if (!par) { if (!rc || (e != ENOENT && e != ENOTDIR && e != EACCES)) violation("mkdir", fmt("mkdir of %s, whose parent is no directory, gave %d (%s)", show(p).c_str(), rc, errname(e).c_str())); return; }
		if (ro || big) { if (!rc) violation("mkdir", fmt("mkdir of %s succeeded", show(p).c_str())); return; }
		if (rc) violation("mkdir", fmt("mkdir of %s failed with %s", show(p).c_str(), errname(e).c_str())); created(rel, true, mode & ~022); count("directories created"); }
	void make_file() {
		string d = random_dir(), rel = d + "/" + new_name(d); bool reuse = false; if (r.chance(35)) for (auto &x : made) if (!x.second.dir && r.chance(25)) { rel = x.first; reuse = true; break; } int bad = (int)r.below(14); if (bad == 0) rel = d + "/missing/dir/x"; else if (bad == 1) { const Node *f = random_node(r, im, T_REG); if (f && f->path.size() > strlen(MOUNT)) rel = "/" + f->path.substr(strlen(MOUNT)) + "/x"; } else if (bad == 2) rel = d + "/" + string(256 + r.below(20), 'n');
		(void)reuse; if (rel.size() > 900) return; auto it = made.find(rel); bool is_made = it != made.end(); const Node *pk = file_above(rel) ? nullptr : phys(rel); if (!is_made && pk && pk->type != T_REG) return; // creating over other packed objects is left open
		int acc = r.chance(70) ? O_RDWR : O_WRONLY; int fl = O_CREAT | acc | (r.chance(25) ? O_TRUNC : 0) | (r.chance(20) ? O_APPEND : 0) | (!pk && r.chance(20) ? O_EXCL : 0); static const mode_t ms[] = {0644, 0600, 0666, 0755, 0444, 0640}; mode_t mode = ms[r.below(6)]; string p = spell_rel(rel); bool par = is_dir(parent(rel)) && !file_above(rel), ro = closed_above(rel, is_made ? 0100 : 0300), big = rel.substr(rel.rfind('/') + 1).size() > 255; tried = true; if (par || is_dir(parent(parent(rel)))) attempt(rel); bool grand = is_dir(parent(parent(rel)));
		errno = 0; int fd = r.chance(70) ? w_open3(p.c_str(), fl, mode) : w_openat4(AT_FDCWD, p.c_str(), fl, mode); int e = errno; note(fmt("create %s flags %o mode %o -> %d %s", show(p).c_str(), fl, mode, fd, fd < 0 ? errname(e).c_str() : "")); evaluated();
		if (is_made && it->second.dir) { if (fd >= 0 || e != EISDIR) if (!(e == EACCES || (fl & O_EXCL && e == EEXIST))) violation("open-dir", fmt("creating a file at the directory %s gave %d (%s)", show(p).c_str(), fd, errname(e).c_str())); return; }
		if (is_made && fl & O_EXCL) { if (fd >= 0 || (e != EEXIST && e != EACCES)) violation("open-exclusive", fmt("exclusive creation of the existing %s gave %d (%s)", show(p).c_str(), fd, errname(e).c_str())); return; }
		if (!par || ro || big) { if (fd >= 0) { if (!par && grand && !file_above(rel) && !exists(parent(rel))) { created(parent(rel), true, 0755); created(rel, false, mode & ~022); close_it(fd); return; } violation("open-create", fmt("creating %s succeeded, although %s", show(p).c_str(), !par ? "there is no such directory" : ro ? "the directory is not writable" : "the name is too long")); } if (!e) violation("errno", "creating failed without a reason"); if (!par && exists(parent(rel)) == false && grand) sync_missing(parent(rel)); return; }
		if (is_made && !(it->second.mode & 0200)) { if (fd >= 0) violation("open-create", fmt("%s, created read-only, was opened for writing", show(p).c_str())); return; }
		if (is_made && acc == O_RDWR && !(it->second.mode & 0400)) return;
		if (fd < 0) violation("open-create", fmt("creating %s failed with %s", show(p).c_str(), errname(e).c_str())); if (SQUASH_VALID_VFD(fd)) violation("open-create", "a created file is not a real one");
		if (!is_made) { created(rel, false, mode & ~022); count("files created"); if (pk) count("packed files replaced"); } else { if (fl & O_TRUNC) made[rel].data.clear(); count("created files opened again"); }
		write_some(fd, rel, fl); if (r.chance(20) && acc == O_RDWR && !(fl & O_APPEND) && fds.size() < 6) { fds.push_back({fd, rel, true}); } else close_it(fd); }
	void make_through_link() { // created by a path that leads through a packed link to a directory
		vector<Node *> ls = im.all(T_LNK); if (ls.empty()) return; const Node *l = nullptr, *d = nullptr; string lrel; for (int i = 0; i < 8 && !d; ++i) { l = r.pick(ls); if (l->path.size() <= strlen(MOUNT) || l->path.size() > 500) continue; lrel = "/" + l->path.substr(strlen(MOUNT)); if (phys(lrel) != l || made.count(lrel) || file_above(lrel)) continue; const Node *n = packed(lrel); if (n && n->isdir() && n != im.root && n != m) d = n; } if (!d) return;
		string rel = lrel; for (int i = 0; i < 3 && r.chance(50); ++i) { vector<const Ent *> v; for (auto &e : d->kids) if (e.node->isdir() && e.name.size() < 200) v.push_back(&e); if (v.empty()) break; const Ent *e = r.pick(v); rel += "/" + e->name; d = e->node; if (made.count(rel)) return; }
		rel += "/" + new_name(lrel); string nm = rel.substr(rel.rfind('/') + 1); if (d->kid(nm) || made.count(rel) || file_above(rel) || closed_above(rel, 0300) || nm.size() > 255 || rel.size() > 900) return; tried = true; bool dir = r.chance(40); static const mode_t ms[] = {0755, 0700, 0711}; mode_t mode = dir ? ms[r.below(3)] : 0644; string p = string(MOUNT) + rel; if (!icwd.empty() && r.chance(40) && p.size() > icwd.size() + 1 && p.compare(0, icwd.size() + 1, icwd + "/") == 0) p = p.substr(icwd.size() + 1);
		for (const Node *q = d; q; q = q->parent) if (q->path.size() > strlen(MOUNT)) through.insert("/" + q->path.substr(strlen(MOUNT))); attempt(rel); errno = 0; int fd = dir ? w_mkdir(p.c_str(), mode) : w_open3(p.c_str(), O_CREAT | O_RDWR, mode); int e = errno; note(fmt("create %s through a link -> %d", show(p).c_str(), fd)); evaluated(); if (fd < 0) violation("through-link", fmt("creating %s, whose directory is a packed one reached through a link, failed with %s", show(p).c_str(), errname(e).c_str()));
		for (string q = parent(rel); q.size() >= lrel.size(); q = parent(q)) linked.insert(q); created(rel, dir, mode & ~022); count("objects created through packed links"); if (!dir) { write_some(fd, rel, 0); read_back(fd, rel); close_it(fd); } }
	void sync_missing(const string &rel) { struct stat st; if (w_stat((string(MOUNT) + rel).c_str(), &st) == 0) { created(rel, true, st.st_mode & 0777); } } // a failing creation may leave the directory
	void close_it(int fd) { if (w_close(fd)) violation("close", "closing a created file failed"); if (fcntl(fd, F_GETFD) != -1) violation("close", "a created file is open after closing it"); }
	void write_some(int fd, const string &rel, int fl) {
		string &data = made[rel].data; bool app = fl & O_APPEND; int n = 1 + (int)r.below(4); if (!app) { off_t at = (off_t)r.below(data.size() + 1); if (r.chance(20)) at = (off_t)(data.size() + r.below(5000)); if (w_lseek(fd, at, SEEK_SET) != at) violation("lseek", "seeking in a created file failed"); u64 pos = at; while (n--) { string t = text(r, r.chance(90) ? r.below(700) : r.below(60000)); if (::write(fd, t.data(), t.size()) != (ssize_t)t.size()) violation("write", "writing to a created file failed with " + errname(errno)); if (pos + t.size() > data.size() && !t.empty()) data.resize(pos + t.size()); if (!t.empty()) data.replace(pos, t.size(), t); pos += t.size(); if (w_lseek(fd, 0, SEEK_CUR) != (off_t)pos) violation("lseek", "the position in a created file is wrong"); } }
		else while (n--) { string t = text(r, r.below(700)); if (::write(fd, t.data(), t.size()) != (ssize_t)t.size()) violation("write", "writing to a created file failed"); data += t; } count("writes"); }
	void use_held() {
		if (fds.empty()) return; size_t k = r.below(fds.size()); Fd f = fds[k]; string &data = made[f.rel].data; note(fmt("held %d", f.fd));
		switch (r.below(5)) { case 0: write_some(f.fd, f.rel, 0); break; case 1: close_it(f.fd); fds.erase(fds.begin() + k); break;
		case 2: { u64 off = r.below(data.size() + 10), n = r.below(3000); string b(n, 0); off_t at = ::lseek(f.fd, 0, SEEK_CUR); ssize_t g = w_pread(f.fd, &b[0], n, (off_t)off); string want = off >= data.size() ? "" : data.substr(off, n); if (g != (ssize_t)want.size() || b.compare(0, g, want)) violation("content", fmt("pread of the created %s gave other bytes", show(f.rel).c_str())); if (::lseek(f.fd, 0, SEEK_CUR) != at) violation("content", "pread moved the descriptor"); break; }
		default: read_back(f.fd, f.rel); } }
	void read_back(int fd, const string &rel) {
		const string &data = made[rel].data; if (w_lseek(fd, 0, SEEK_SET)) violation("lseek", "seeking in a created file failed"); string got; char b[5000]; ssize_t g; if (r.chance(30)) { char c[100]; struct iovec v[3] = {{b, 10}, {c, 100}, {b + 10, 3000}}; g = w_readv(fd, v, 3); if (g < 0) violation("content", "readv of a created file failed"); u64 n = g; string x(b, std::min<u64>(n, 10)); if (n > 10) x.append(c, std::min<u64>(n - 10, 100)); if (n > 110) x.append(b + 10, n - 110); got = x; }
		while ((g = w_read(fd, b, 1 + r.below(sizeof b))) > 0) got.append(b, g); if (got != data) { size_t i = 0; while (i < got.size() && i < data.size() && got[i] == data[i]) ++i; violation("content", fmt("the created %s has %zu bytes, written %zu, first difference at %zu", show(rel).c_str(), got.size(), data.size(), i)); } count("created files read back"); count("bytes of created files compared", data.size()); evaluated(); }
	void ask_made() { // about something created
		if (made.empty()) return make_dir(); auto it = made.begin(); std::advance(it, r.below(made.size())); const string rel = it->first; const Made &x = it->second; if (closed_above(rel, 0100)) return; string p = spell_rel(rel); struct stat st; evaluated(); count("questions about created objects"); note("ask about " + show(p)); bool root = geteuid() == 0;
		switch (r.below(8)) {
		case 0: case 1: { memset(&st, 0x5a, sizeof st); errno = 0; int rc = r.chance(50) ? w_stat(p.c_str(), &st) : w_lstat(p.c_str(), &st); if (rc) violation("stat", fmt("stat of the created %s failed with %s", show(p).c_str(), errname(errno).c_str())); check_st(x, rel, st); break; }
		case 2: { int md = (int)r.below(8); errno = 0; int rc = w_access(p.c_str(), md); bool ok = root || ((md << 6 & x.mode) == (mode_t)(md << 6)); if (!rc != ok) violation("access", fmt("access of the created %s, mode %o, for %d gave %d", show(p).c_str(), x.mode, md, rc)); break; }
		case 3: { char b[50]; errno = 0; if (w_readlink(p.c_str(), b, 50) != -1) violation("readlink", "readlink of a created object succeeded"); break; }
		case 4: if (x.dir) { list(rel); break; } // fall through
		case 5: { if (x.dir) { if (!(x.mode & 0400) && !root) return; int fd = w_open2(p.c_str(), O_RDONLY | (r.chance(50) ? O_DIRECTORY : 0)); if (fd < 0) violation("open", fmt("opening the created directory %s failed with %s", show(p).c_str(), errname(errno).c_str())); if (w_fstat(fd, &st)) violation("fstat", "fstat failed"); check_st(x, rel, st); close_it(fd); return; }
			if (!(x.mode & 0400) && !root) return; bool rw = x.mode & 0200 && r.chance(30), tr = rw && r.chance(20); bool ap = rw && r.chance(40); int ofl = (rw ? O_RDWR : O_RDONLY) | (tr ? O_TRUNC : 0) | (ap ? O_APPEND : 0); int fd = r.chance(60) ? w_open2(p.c_str(), ofl) : w_openat3(AT_FDCWD, p.c_str(), ofl); if (ap) count("created files opened again to append"); if (fd < 0) violation("open", fmt("opening the created %s failed with %s", show(p).c_str(), errname(errno).c_str())); if (tr) made[rel].data.clear(); if (w_fstat(fd, &st)) violation("fstat", "fstat failed"); check_st(made[rel], rel, st); if (rw && r.chance(50)) write_some(fd, rel, ap ? O_APPEND : 0); read_back(fd, rel); close_it(fd); break; }
		case 6: { if (!x.dir) { DIR *d = w_opendir(p.c_str()); if (d) violation("opendir", "opendir of a created file succeeded"); return; } list(rel); break; }
		default: { if (!x.dir || !(x.mode & 0100)) return; errno = 0; if (w_chdir(p.c_str())) violation("chdir", fmt("chdir to the created %s failed with %s", show(p).c_str(), errname(errno).c_str())); icwd = string(MOUNT) + rel; check_cwd(); count("created directories entered"); } } }
	void check_cwd() { char b[4200]; if (!w_getcwd(b, sizeof b) || icwd != b) violation("getcwd", fmt("getcwd reports %s, the directory last entered is %s", show(b).c_str(), show(icwd).c_str())); }
	void check_st(const Made &x, const string &rel, const struct stat &st) { if (S_ISDIR(st.st_mode) != x.dir) violation("stat", fmt("the created %s has the mode %o", show(rel).c_str(), st.st_mode)); if ((st.st_mode & 0777) != x.mode) violation("stat", fmt("%s, created with %o, has the mode %o", show(rel).c_str(), x.mode, st.st_mode)); if (!x.dir && st.st_size != (off_t)x.data.size()) violation("stat", fmt("the created %s has %lld bytes, written %zu", show(rel).c_str(), (long long)st.st_size, x.data.size())); }
	// scandir with a selection and an order of the caller's own, against what the same scandir gives without them
	static u64 name_hash(const char *n) { u64 h = 7; while (*n) h = mix64(h ^ (unsigned char)*n++); return h; }
	static inline u64 keep; static inline int offered;
	static int scan_select(const struct dirent *e) { ++offered; return keep == 0 || mix64(keep ^ name_hash(e->d_name)) & 1; }
	static int by_name_down(const struct dirent **a, const struct dirent **b) { return strcmp((*b)->d_name, (*a)->d_name); }
	static int by_length(const struct dirent **a, const struct dirent **b) { size_t x = strlen((*a)->d_name), y = strlen((*b)->d_name); return x != y ? x < y ? -1 : 1 : strcmp((*a)->d_name, (*b)->d_name); }
	void scan_own(const string &p) {
		auto cmp = r.chance(50) ? by_name_down : by_length; keep = r.chance(40) ? 0 : r.next() | 1; offered = 0; struct dirent **l = nullptr; int n = w_scandir(p.c_str(), &l, scan_select, cmp), k = offered; if (n < 0) violation("scandir", fmt("scandir of %s failed with %s", show(p).c_str(), errname(errno).c_str())); set<string> some;
		for (int i = 0; i < n; ++i) { if (i && cmp((const struct dirent **)&l[i - 1], (const struct dirent **)&l[i]) > 0) violation("scandir", fmt("scandir of %s is not in the order asked for: %s before %s", show(p).c_str(), show(l[i - 1]->d_name).c_str(), show(l[i]->d_name).c_str())); if (!scan_select(l[i])) violation("scandir", fmt("scandir of %s has %s, which was not selected", show(p).c_str(), show(l[i]->d_name).c_str())); if (!some.insert(l[i]->d_name).second) violation("scandir", fmt("scandir of %s gives %s twice", show(p).c_str(), show(l[i]->d_name).c_str())); }
		for (int i = 0; i < n; ++i) vf_free(l[i]); vf_free(l); l = nullptr; int all = w_scandir(p.c_str(), &l, nullptr, nullptr); if (all < 0) violation("scandir", "scandir failed the second time"); if (k < all) violation("scandir", fmt("scandir of %s offered %d of %d entries to the selection", show(p).c_str(), k, all));
		for (int i = 0; i < all; ++i) { if (scan_select(l[i]) && !some.count(l[i]->d_name)) violation("scandir", fmt("scandir of %s lacks %s, which is selected", show(p).c_str(), show(l[i]->d_name).c_str())); vf_free(l[i]); } vf_free(l); count("listings with created content selected and ordered by the caller"); evaluated(); }
	// a directory something may have been created in: all that was created, and nothing that is not there
	void list(const string &rel) {
		auto it = made.find(rel); if (it != made.end() && !(it->second.mode & 0400) && geteuid()) return; if (closed_above(rel, 0100)) return; string p = spell_rel(rel); if (rel.empty()) p = string(MOUNT) + "/"; map<string, int> got; note("list " + show(p));
		if (r.chance(60)) { DIR *d = w_opendir(p.c_str()); if (!d) violation("opendir", fmt("opendir of %s failed with %s", show(p).c_str(), errname(errno).c_str())); bool again = r.chance(30); long told = -1; vector<string> tail; do { errno = 0; while (struct dirent *e = w_readdir(d)) { if (!got.count(e->d_name) || told != -1) { if (told == -1 && got.size() == 2) {} } if (got.count(e->d_name) && !again) violation("list", fmt("%s is listed twice", e->d_name)); got[e->d_name] = e->d_type; } if (errno) violation("readdir", "readdir failed"); if (again) { w_rewinddir(d); again = false; got.clear(); continue; } break; } while (1); int fd = w_dirfd(d); if (fd < 0) violation("dirfd", "dirfd failed"); if (w_closedir(d)) violation("closedir", "closedir failed"); }
		else { struct dirent **l = nullptr; if (r.chance(40)) scan_own(p); int n = w_scandir(p.c_str(), &l, nullptr, nullptr); if (n < 0) violation("scandir", fmt("scandir of %s failed with %s", show(p).c_str(), errname(errno).c_str())); for (int i = 0; i < n; ++i) { if (got.count(l[i]->d_name)) violation("list", fmt("%s is listed twice", l[i]->d_name)); got[l[i]->d_name] = l[i]->d_type; vf_free(l[i]); } vf_free(l); }
		const Node *n = it == made.end() ? phys(rel) : nullptr; got.erase("."); got.erase("..");
		for (auto &x : made) if (!x.first.empty() && parent(x.first) == rel) { string nm = x.first.substr(rel.size() + 1); auto g = got.find(nm); if (g == got.end()) violation("list", fmt("the created %s is missing from the listing of %s", show(nm).c_str(), show(p).c_str())); if (g->second != DT_UNKNOWN && (g->second == DT_DIR) != x.second.dir) violation("list", fmt("the created %s is listed as another kind", show(nm).c_str())); }
		for (auto &g : got) { string full = rel + "/" + g.first; if (made.count(full)) continue; if (n && n->kid(g.first)) continue; violation("list", fmt("the listing of %s has %s, which nobody created", show(p).c_str(), show(g.first).c_str())); } count("directories with created content listed"); evaluated(); }
	// may a question about this path be judged by the image alone
	bool untouched(const string &path, bool listing) { string nf; if (!stays(path) || !normal(path, nf)) return false; string rel = nf.substr(strlen(MOUNT)); if (made.count(rel) || file_above(rel)) return false; if (through.count(rel)) return false; if (rel.empty() && tried) return false; (void)listing;
		// dot-dot out of something created is judged by its own
		string at; size_t i = strlen(MOUNT); while (i < path.size()) { size_t j = path.find('/', i + 1); if (j == string::npos) j = path.size(); string q; normal(path.substr(0, j), q); if (q.size() > strlen(MOUNT) && made.count(q.substr(strlen(MOUNT)))) return false; i = j; } return true; }
	string give(const char *path) { string p = path; if (!stays(p) || p.size() > 1200 || !untouched(p, true)) return ""; if (!icwd.empty() && r.chance(50)) { if (p.size() > icwd.size() + 1 && p.compare(0, icwd.size() + 1, icwd + "/") == 0 && p[icwd.size() + 1] != '/') return p.substr(icwd.size() + 1); string up; for (size_t i = strlen(MOUNT); i < icwd.size(); ++i) if (icwd[i] == '/') up += "../"; string rest = p.size() > strlen(MOUNT) ? p.substr(strlen(MOUNT) + 1) : "."; if (!rest.empty() && rest[0] != '/') return up + rest; } count(any ? "packed questions beside created objects" : "packed questions before anything is created"); return p; }
	void all_packed() { for (auto &n : im.nodes) { if (n.get() == im.root || n.get() == m) continue; string rel = "/" + n->path.substr(strlen(MOUNT)); string p = string(MOUNT) + rel; if (!untouched(p, true)) continue; Query q; q.kind = Q_LSTAT; q.path = p; ask(fs, im, q); if (n->isdir()) { q.kind = r.chance(50) ? Q_LIST : Q_SCAN; q.seed = r.next(); ask(fs, im, q); } if (n->type == T_REG && r.chance(50)) { q.kind = Q_OPENREAD; q.off = 0; q.len = std::min<u64>(im.contents[n->content]->size, 20000); q.arg = 20000; ask(fs, im, q); } count("packed objects checked beside created ones"); } }
	void change_dir() { if (r.chance(35)) { if (w_chdir((base + "/real").c_str())) violation("chdir", "chdir to a real directory failed"); icwd.clear(); note("chdir real"); return; } string d = random_dir(); if (closed_above(d + "/x", 0100)) return; string p = spell_rel(d); errno = 0; int rc = w_chdir(p.c_str()); note(fmt("chdir %s -> %d", show(p).c_str(), rc)); if (rc) violation("chdir", fmt("chdir to %s failed with %s", show(p).c_str(), errname(errno).c_str())); icwd = string(MOUNT) + d; check_cwd(); }
	void climb() { // must not lead out of the private directory
		static const char *ps[] = {"/../escaped", "/../../escaped", "/x/../../escaped", "/./../escaped", "/..", "/../real/escaped", "/../../real/escaped", "/../sub/precious"}; string p = string(MOUNT) + ps[r.below(8)]; if (r.chance(30)) { const Node *d = random_node(r, im, T_DIR); if (d != im.root && d != m && d->parent == m) p = "/" + d->path + "/.." + string(ps[r.below(8)]); } tried = true; int k = (int)r.below(3); note("climb " + p); if (k == 0) { if (w_mkdir(p.c_str(), 0755) == 0) { count("climbing creations that succeeded"); violation("climb", fmt("mkdir of %s succeeded", p.c_str())); } } else { int fd = w_open3(p.c_str(), O_CREAT | O_RDWR | (k == 2 ? O_TRUNC : 0), 0644); if (fd >= 0) { if (::write(fd, "x", 1) < 0) {} w_close(fd); violation("climb", fmt("creating %s succeeded", p.c_str())); } } count("climbing paths refused"); evaluated(); }
	// paths longer than the layer's buffers: what they name, or nothing for this very reason; never something else
	void overlong() {
		static const int ls[] = {2046, 2047, 2048, 2049, 2050, 2100, 3000, 3900, 4094, 4095, 4096, 4097, 4200, 10000, 70000}; size_t want = r.chance(60) ? 1900 + r.below(220) : (size_t)ls[r.below(15)]; string rel; bool made_one = !made.empty() && r.chance(45); if (made_one) { auto it = made.begin(); std::advance(it, r.below(made.size())); rel = it->first; } else { string d = random_dir(); rel = d + "/" + (r.chance(60) ? fmt("long%llu", (unsigned long long)r.below(40)) : string(60 + r.below(190), 'l') + std::to_string(r.below(9))); if (exists(rel)) return; } if (rel.size() > 900 || closed_above(rel, 0300) || file_above(rel)) return; string d = parent(rel); bool inside = !icwd.empty() && r.chance(60); if (inside && (through.count(icwd.substr(strlen(MOUNT))) == 0 && false)) return;
		string head = MOUNT; size_t cwd = 0; if (inside) { string at = icwd.substr(strlen(MOUNT)); if (d.size() >= at.size() && (d == at || d.compare(0, at.size() + 1, at + "/") == 0)) { head = "."; d = d.substr(at.size()); } else return; cwd = icwd.size() + 1; }
		string last = rel.substr(rel.rfind('/')), pad; bool late = r.chance(60); size_t rest = d.size() + last.size(); const char *unit = r.chance(70) ? "/." : "/"; while (cwd + head.size() + pad.size() + rest < want) pad += unit; string q = late ? head + d + pad + last : head + pad + d + last; size_t full = cwd + q.size(); bool tight = full + T.size() + 60 > 4096, may = full > 2048 || tight; struct stat st; tried = true; int k = (int)r.below(6); note(fmt("overlong %d %zu %s", k, full, show(rel).c_str())); evaluated(); if (full > 2048) count("calls with paths of more than 2048 bytes");
		auto refused = [&](const char *c, int e) { if (!may || (e != ENAMETOOLONG && !tight)) violation("overlong", fmt("%s of a path of %zu bytes (%zu in full) for %s failed with %s", c, q.size(), full, show(rel).c_str(), errname(e).c_str())); count("overlong paths refused"); };
		if (made_one) { const Made &x = made[rel]; errno = 0; if (tight) return; switch (k) { case 0: case 1: if (w_stat(q.c_str(), &st)) refused("stat", errno); else { check_st(x, rel, st); count("overlong paths answered"); } break; case 2: if (w_lstat(q.c_str(), &st)) refused("lstat", errno); else check_st(x, rel, st); break; case 3: if (w_access(q.c_str(), F_OK)) refused("access", errno); break; case 4: if (!w_mkdir(q.c_str(), 0700)) violation("overlong", "mkdir of something existing succeeded by a long path"); break; default: { if (x.dir || !(x.mode & 0400)) return; int fd = w_open2(q.c_str(), O_RDONLY); if (fd < 0) { refused("open", errno); break; } read_back(fd, rel); close_it(fd); } } return; }
		attempt(rel); errno = 0; if (k < 2) { if (w_mkdir(q.c_str(), 0755)) refused("mkdir", errno); else { created(rel, true, 0755); count("objects created by overlong paths"); } }
		else { int fd = k < 4 ? w_open3(q.c_str(), O_CREAT | O_RDWR | (k == 3 ? O_TRUNC : 0), 0644) : w_openat4(AT_FDCWD, q.c_str(), O_CREAT | O_RDWR | O_EXCL, 0644); if (fd < 0) refused("open", errno); else { created(rel, false, 0644); count("objects created by overlong paths"); write_some(fd, rel, 0); read_back(fd, rel); close_it(fd); } }
		list(parent(rel)); }
	void forked() { // the normal exit of a forked process removes what is its own only
		string rel = "/forked" + std::to_string(r.below(5)); if (exists(rel)) return; monitor("before forking"); bool had = !overlay.empty(), make = r.chance(70), ext = r.chance(50) && !relative; string data = text(r, r.below(3000)), p = string(MOUNT) + rel; const Node *f = random_node(r, im, T_REG); fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
		if (!pid) { if (ext && f && !squash_extract(fs, ("/" + f->path).c_str(), "so")) _exit(8); if (make) { int fd = w_open3(p.c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0) _exit(9); if (::write(fd, data.data(), data.size()) != (ssize_t)data.size()) _exit(10); w_close(fd); struct stat st; if (w_stat(p.c_str(), &st) || st.st_size != (off_t)data.size()) _exit(11); } exit(0); }
		int st; if (waitpid(pid, &st, 0) != pid) harness_error("waitpid"); note(make ? "a forked process creates " + rel + " and exits" : string("a forked process exits")); evaluated(); if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("forked", fmt("a forked process ended with status %x", st));
		if (make && had) { tried = true; attempt(rel); created(rel, false, 0600); made[rel].data = data; } monitor("after the exit of a forked process"); if (make && !had) { struct stat b; if (!exists(rel) && !w_stat(p.c_str(), &b)) violation("forked", "what a forked process created in a directory of its own is seen by its parent"); } count(had ? "exits of forked processes with the overlay in use" : "exits of forked processes with none"); if (had) all_made(); }
	void all_made() { for (int i = 0; i < 4; ++i) ask_made(); }
	void real() { string p = base + "/real/r" + std::to_string(r.below(4)); tried = true; int fd = w_open3(p.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644); if (fd < 0) violation("real", "creating a real file failed with " + errname(errno)); string t = text(r, r.below(100)); if (::write(fd, t.data(), t.size()) < 0) {} w_close(fd); before.clear(); string skip = overlay.empty() ? "/-" : tmp_rel + "/" + overlay; if (slurp(p) != t) violation("real", "a real file was not written"); Tree now; walk(base, "", now, skip); before = now; if (overlay.empty()) for (auto it = before.begin(); it != before.end();) { if (it->first.compare(0, tmp_rel.size() + 11, tmp_rel + "/libsquash-") == 0 && !fore.count(it->first)) it = before.erase(it); else ++it; } note("real file"); }
	set<string> fore; bool relative = false;
};
void child(Rng r, Image &im, Node *m, u64 index, const string &base, const string &T, int out) {
	clear_results(); static const char *vars[] = {"TMPDIR", "TMP", "TEMP"}; int v = (int)r.below(3); bool relative = r.chance(25); if (relative) count("relative temporary directories"); for (auto *x : vars) unsetenv(x); for (int k = v; k < 3; ++k) setenv(vars[k], k == v ? ((relative ? ".." + T.substr(base.size()) : T) + (r.chance(30) ? "/" : "")).c_str() : (base + "/real").c_str(), 1);
	if (::chdir((base + "/real").c_str())) harness_error("chdir"); unsigned seed = (unsigned)r.next(); srand(seed);
	if (r.chance(40)) { for (int i = 0; i < 5; ++i) { string q = T + fmt("/libsquash-%d", rand()); int k = (int)r.below(3); if (k == 0) ::mkdir(q.c_str(), 0755); else if (k == 1) put(q, "taken"); else if (symlink("sub", q.c_str())) {} } srand(seed); }
	auto *o = new Opened(im, r); enclose_io_fs = o->fs; auto *w = new World(im, o->fs, m, r.next(), base, T); W = w; w->relative = relative; for (auto &x : w->before) w->fore.insert(x.first);
	if (index % 9 == 4) { // no place for the private directory
		::chmod(T.c_str(), 0500); w->tried = true; bool in = w->r.chance(50); if (in) { if (w_chdir(MOUNT)) violation("chdir", "chdir to the mount point failed"); } string p = in ? "early" : string(MOUNT) + "/early"; errno = 0; int rc = w_mkdir(p.c_str(), 0755), e = errno; if (geteuid()) { if (rc != -1 || !e) violation("mkdir", fmt("mkdir without a place to create anything gave %d", rc)); errno = 0; int fd = w->r.chance(50) ? w_open3((p + "f").c_str(), O_CREAT | O_RDWR, 0644) : w_openat4(AT_FDCWD, (p + "f").c_str(), O_CREAT | O_RDWR, 0644); if (fd != -1 || !errno) violation("open", fmt("creating a file without a place gave %d", fd)); count("creations refused without a place"); } if (in && w_chdir((base + "/real").c_str())) violation("chdir", "chdir to a real directory failed"); ::chmod(T.c_str(), 0700); w->monitor("after creations without a place"); w->all_packed(); count("cases without a place at first"); }
	int ops = index % 8 == 0 ? 0 : index % 8 == 1 ? 8 : 120, start = w->r.chance(50) ? 0 : 15; if (index % 8 == 0) { w->all_packed(); }
	for (int i = 0; i < ops; ++i) {
		int k = (int)w->r.below(100); w->hist = mix64(w->hist ^ k); if (i < start && k < 45) k = 90;
		if (k < 14) w->make_dir(); else if (k < 30) w->make_file(); else if (k < 34) w->use_held(); else if (k < 37) w->make_through_link(); else if (k < 54) w->ask_made(); else if (k < 60) { string d = w->random_dir(); if (w->made.count(d) || w->through.count(d)) w->list(d); } else if (k < 63) w->change_dir(); else if (k < 65) w->overlong(); else if (k < 66) w->climb(); else if (k < 68) w->real(); else if (k == 68 && w->r.chance(60)) w->forked(); else if (k < 71) w->all_packed(); else w->s.op();
		if (w->r.chance(25)) w->monitor("later"); distinct(w->hist); }
	if (index % 8 == 2) { string d; for (int i = 0; i < 40; ++i) { d += "/deep" + std::to_string(i); if (w_mkdir((string(MOUNT) + d).c_str(), 0755)) violation("mkdir", "a deep directory was not created"); w->tried = true; w->created(d, true, 0755); } int fd = w_open3((string(MOUNT) + d + "/f").c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0) violation("open", "creating a deep file failed"); w_close(fd); w->created(d + "/f", false, 0600); count("deep trees created"); }
	if (index % 8 == 3) { for (int i = 0; i < 300; ++i) { string d = "/many" + std::to_string(i); w->tried = true; if (w->exists(d)) continue; int fd = w_open3((string(MOUNT) + d).c_str(), O_CREAT | O_WRONLY, 0400); if (fd < 0) violation("open", "creating a file failed"); w_close(fd); w->created(d, false, 0400); } count("wide directories created"); }
	for (int i = 0; i < 10 && ops; ++i) w->ask_made(); w->all_packed(); w->monitor("at the end"); w->s.check_held();
	if (w->r.chance(50)) w->s.close_all(); if (w->r.chance(50)) { for (auto &f : w->fds) w->close_it(f.fd); } if (w->r.chance(30) && w->any) { DIR *d = w_opendir((string(MOUNT) + "/.").c_str()); (void)d; }
	if (!w->overlay.empty()) count("private directories seen"); if (w->r.chance(30)) squash_extract_clear_cache(); if (w->r.chance(30)) { w->s.close_all(); o->close(); }
	string dump = dump_results(); for (auto &x : w->before) if (x.first.compare(0, T.size() - base.size(), T.substr(base.size())) == 0) dump += "t " + x.first.substr(T.size() - base.size()) + "=" + x.second + "\n"; size_t at = 0; while (at < dump.size()) { ssize_t k = ::write(out, dump.data() + at, dump.size() - at); if (k <= 0) break; at += k; } ::close(out); fflush(stdout);
	exit(w->r.chance(50) ? 0 : 3); // normal exit; nothing of the world is destroyed before
}
}
void prop_init() {
	start_library(); umask(022);
	api.open = [](sqfs *f, const char *p) { string q = W->give(p); return q.empty() ? squash_open(f, p) : w_open2(q.c_str(), O_RDONLY); };
	api.close = w_close; api.read = [](int fd, void *b, sqfs_off_t n) { return w_read(fd, b, (size_t)n); }; api.lseek = w_lseek; api.fstat = w_fstat;
	api.stat = [](sqfs *f, const char *p, struct stat *s) { string q = W->give(p); return q.empty() ? squash_stat(f, p, s) : w_stat(q.c_str(), s); };
	api.lstat = [](sqfs *f, const char *p, struct stat *s) { string q = W->give(p); return q.empty() ? squash_lstat(f, p, s) : w_lstat(q.c_str(), s); };
	api.readlink = [](sqfs *f, const char *p, char *b, size_t n) { string q = W->give(p); return q.empty() ? squash_readlink(f, p, b, n) : w_readlink(q.c_str(), b, n); };
	api.opendir = [](sqfs *f, const char *p) { string q = W->give(p); return q.empty() ? squash_opendir(f, p) : (SQUASH_DIR *)w_opendir(q.c_str()); };
	api.closedir = [](SQUASH_DIR *d) { return w_closedir((DIR *)d); }; api.readdir = [](SQUASH_DIR *d) { return w_readdir((DIR *)d); }; api.telldir = [](SQUASH_DIR *d) { return w_telldir((DIR *)d); }; api.seekdir = [](SQUASH_DIR *d, long l) { w_seekdir((DIR *)d, l); }; api.rewinddir = [](SQUASH_DIR *d) { w_rewinddir((DIR *)d); };
	api.scandir = [](sqfs *f, const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { string q = W->give(p); return q.empty() ? squash_scandir(f, p, l, s, c) : w_scandir(q.c_str(), l, s, c); };
}
void prop_done() {}
void prop_case(Rng &r, u64 index) {
	string base = opt.scratch + fmt("/w%llu", (unsigned long long)index), T = base + (index % 5 == 4 ? "/__enclose_io_memfs__" : "/tmp"); wipe(base); ::mkdir(base.c_str(), 0755); if (index % 10 == 9) { T += "/x"; ::mkdir((base + "/__enclose_io_memfs__").c_str(), 0755); } if (index % 7 == 6) { ::mkdir(T.c_str(), 0700); for (size_t l = 1200 + r.below(1700); T.size() + 205 < l;) { T += "/" + string(200, 't'); ::mkdir(T.c_str(), 0700); } count("long temporary directories"); } ::mkdir(T.c_str(), 0700); ::mkdir((base + "/real").c_str(), 0755); ::mkdir((T + "/sub").c_str(), 0755); put(T + "/sub/precious", "precious"); put(T + "/others", "others"); put(base + "/real/f", "real"); if (symlink("others", (T + "/libsquash-link").c_str())) {}
	Profile p = random_profile(r); p.max_file = 20000; p.files = 5 + (int)r.below(12); p.dirs += 2; auto im = random_image(r, p); Node *m = mount_tree(*im); for (auto &n : im->nodes) if (n->type == T_LNK && n->target[0] == '/' && r.chance(70) && n->target.size() < 1500) n->target = MOUNT + n->target; im->build(r);
	if (index < 3) sample(fmt("a process creating up to 60 objects beside %zu packed ones, then exiting", im->nodes.size()));
	int pp[2]; if (pipe(pp)) harness_error("pipe"); u64 seed = r.next(); fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
	if (!pid) { ::close(pp[0]); child(Rng(seed), *im, m, index, base, T, pp[1]); }
	::close(pp[1]); string all; char b[4096]; ssize_t k; while ((k = ::read(pp[0], b, sizeof b)) > 0) all.append(b, k); ::close(pp[0]); int st; waitpid(pid, &st, 0);
	if (WIFSIGNALED(st)) violation("signal", fmt("the process ended by signal %d", WTERMSIG(st))); int rc = WEXITSTATUS(st); if (rc != 0 && rc != 3) _exit(rc); // it has said why
	if (all.empty()) violation("exit", "the process ended early"); absorb_results(all);
	// what is left: exactly what others had there
	Tree now, last; walk(T, "", now, "/-"); for (size_t i = 0; i < all.size();) { size_t j = all.find('\n', i); if (j == string::npos) break; if (all.compare(i, 2, "t ") == 0) { size_t q = all.find('=', i); last[all.substr(i + 2, q - i - 2)] = all.substr(q + 1, j - q - 1); } i = j + 1; }
	for (auto &x : last) { auto it = now.find(x.first); if (it == now.end()) violation("deleted", fmt("at exit %s of others was deleted", show(x.first).c_str())); if (it->second != x.second) violation("changed", fmt("at exit %s of others was changed", show(x.first).c_str())); }
	for (auto &x : now) if (!last.count(x.first)) violation("left-behind", fmt("after the exit %s is left in the temporary directory, with %zu entries in all", show(x.first).c_str(), now.size() - last.size()));
	count("exits judged"); evaluated(); wipe(base);
}
