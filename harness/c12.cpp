// C12: extraction
#include "prop.h"
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
static string tmp;
static int to_first = -1, from_first = -1; // a process that has not extracted anything yet, and makes others of that kind
static void first_of_process(u64 seed, u64 index);
void prop_init() {
	start_library(); signal(SIGXFSZ, SIG_IGN); const char *t = getenv("TMPDIR"); if (!t) harness_error("no TMPDIR"); tmp = t;
	int a[2], b[2]; if (pipe(a) || pipe(b)) harness_error("pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
	if (!pid) { ::close(a[1]); ::close(b[0]); u64 m[2]; while (::read(a[0], m, sizeof m) == sizeof m) { pid_t q = fork(); if (!q) { ::close(a[0]); ::close(b[1]); set_case(fmt("%s seed=%llu case=%llu", opt.prop.c_str(), (unsigned long long)opt.seed, (unsigned long long)m[1])); first_of_process(m[0], m[1]); exit(0); } int st = -1; if (q > 0) waitpid(q, &st, 0); if (::write(b[1], &st, sizeof st) < 0) break; } _exit(0); }
	::close(a[0]); ::close(b[1]); to_first = a[1]; from_first = b[0]; }
void prop_done() {}
namespace {
string slurp(const string &p) { string s; int fd = ::open(p.c_str(), O_RDONLY | O_NOFOLLOW); if (fd < 0) return fmt("<%s>", errname(errno).c_str()); char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); ::close(fd); return s; }
// what the temporary directory holds: name -> identity and content
map<string, u64> listing(const string &dir) {
	map<string, u64> m; DIR *d = opendir(dir.c_str()); if (!d) harness_error("cannot list " + dir); while (dirent *e = readdir(d)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; u64 h = mix64(st.st_ino) ^ st.st_mode ^ mix64(st.st_size) ^ mix64(st.st_mtim.tv_nsec ^ st.st_mtim.tv_sec); if (S_ISREG(st.st_mode)) h ^= fnvs(slurp(p)); if (S_ISLNK(st.st_mode)) { char b[300]; ssize_t k = readlink(p.c_str(), b, sizeof b); h ^= fnv(b, k > 0 ? k : 0); } m[n] = h; } closedir(d); return m; }
void put(const string &p, const string &s) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); if (fd < 0) return; if (::write(fd, s.data(), s.size()) < 0) {} ::close(fd); }
string names(const map<string, u64> &m) { string s; int k = 0; for (auto &x : m) { if (k++ > 8) { s += " ..."; break; } s += " " + x.first; } return s; }
struct Copies {
	struct Copy { string path; const Image *im; const Node *n; const char *ret; }; map<std::pair<sqfs *, string>, Copy> of; map<string, u64> dir; // what must be in the directory
	string where;
	Copies(const string &d) : where(d) { dir = listing(d); }
	void expect(const char *when) { auto now = listing(where); if (now == dir) return; for (auto &x : dir) { auto it = now.find(x.first); if (it == now.end()) violation("deleted", fmt("%s, %s is gone from the temporary directory", when, show(x.first).c_str())); if (it->second != x.second) violation("overwritten", fmt("%s, %s was changed or replaced", when, show(x.first).c_str())); } for (auto &x : now) if (!dir.count(x.first)) violation("left-behind", fmt("%s, %s is left in the temporary directory", when, show(x.first).c_str())); }
	void check_copy(const Copy &c) { const Content &ct = *c.im->contents[c.n->content]; string s = slurp(c.path); if (s.size() != ct.size) violation("copy-size", fmt("the copy of %s has %zu bytes, packed %llu (%s)", show(c.n->path).c_str(), s.size(), (unsigned long long)ct.size, show(s.substr(0, 40)).c_str())); string w = compare(ct, 0, (const u8 *)s.data(), s.size()); if (!w.empty()) violation("copy-bytes", fmt("the copy of %s: %s", show(c.n->path).c_str(), w.c_str())); }
	// extracts something that is expected to work; returns whether it did
	bool extract(sqfs *fs, const Image &im, const string &p, const char *ext, const Node *n, bool may_fail) {
		auto key = std::make_pair(fs, p); auto known = of.find(key); auto fds = open_fds(); errno = 0; const char *f = squash_extract(fs, p.c_str(), ext); int e = errno; note(fmt("extract %s as %s -> %s", show(p).c_str(), ext ? ext : "(null)", f ? f : errname(e).c_str())); evaluated();
		if (open_fds() != fds) violation("descriptor-left", fmt("extracting %s changed the open descriptors of the process", show(p).c_str()));
		if (!f) { if (!may_fail && n) violation("extract-failed", fmt("extracting %s failed with %s", show(p).c_str(), errname(e).c_str())); expect("after a failing extraction"); count("failing extractions"); return false; }
		if (!n) violation("extract-what", fmt("extracting %s, which is no packed file, returned %s", show(p).c_str(), f));
		if (known != of.end()) { if (known->second.path != f) violation("another-copy", fmt("extracting %s again returned %s, before %s", show(p).c_str(), f, known->second.path.c_str())); expect("after extracting a file again"); check_copy(known->second); count("repeated extractions"); return true; }
		string path = f; size_t sl = path.rfind('/'); if (sl == string::npos || path.substr(0, sl) != where) violation("place", fmt("%s was extracted to %s, not into %s", show(p).c_str(), f, where.c_str()));
		if (ext && *ext) { string x = string(".") + ext; if (path.size() < x.size() || path.compare(path.size() - x.size(), x.size(), x)) violation("extension", fmt("extracting %s as %s gave the name %s", show(p).c_str(), show(ext).c_str(), f)); }
		if (!ext && path.find('.', sl) != string::npos) violation("extension", fmt("extracting %s without an extension gave the name %s", show(p).c_str(), f));
		string name = path.substr(sl + 1); if (dir.count(name)) violation("name-taken", fmt("extracting %s gave the name %s, which existed before", show(p).c_str(), f));
		Copy c{path, &im, n, f}; struct stat st; if (lstat(f, &st) || !S_ISREG(st.st_mode) || st.st_nlink != 1) violation("copy-kind", fmt("%s is not a regular file of its own", f)); check_copy(c); for (auto &x : of) if (x.second.path == path) violation("copy-shared", "two files share one copy");
		auto now = listing(where); dir[name] = now[name]; expect("after an extraction"); of[key] = c; count("copies compared"); return true; }
	void cleared(const char *when) { for (auto &x : of) { const string &p = x.second.path; dir.erase(p.substr(p.rfind('/') + 1)); struct stat st; if (!lstat(p.c_str(), &st)) violation("copy-left", fmt("%s, the extracted %s is still there", when, p.c_str())); } of.clear(); expect(when); count("clearings judged"); }
};
void wipe() { for (auto &x : listing(tmp)) { string p = tmp + "/" + x.first; if (p.find(opt.scratch) != 0) harness_error("outside the scratch directory"); unlink(p.c_str()); } }
string exts[] = {"so", "x", "tar.gz", "dylib", "", "1", "a b", "so.1.2.3"};
}
// the first extractions of a process, with the directory named relative to the current one, which then changes
static void first_of_process(u64 seed, u64 index) {
	Rng r(seed); string base = opt.scratch + fmt("/rel%llu", (unsigned long long)index); for (auto *d : {"", "/work", "/work/sub", "/tmp", "/else"}) mkdir((base + d).c_str(), 0700);
	static const char *dirs[] = {"../tmp", "../tmp/", ".", "./", "sub", "./sub/../sub", "../work/sub", "../../rel/../", nullptr}; int k = (int)r.below(9); string name = k == 8 ? base + "/tmp" : dirs[k], where; if (k == 7) name = "..";
	if (chdir((base + "/work").c_str())) harness_error("chdir"); char *rp = realpath(name.c_str(), nullptr); if (!rp) harness_error("realpath"); where = rp; vf_free(rp); static const char *vars[] = {"TMPDIR", "TMP", "TEMP"}; int v = (int)r.below(3); for (int i = 0; i < 3; ++i) { unsetenv(vars[i]); if (i == v) setenv(vars[i], name.c_str(), 1); }
	Profile p = random_profile(r); p.files = 4; p.max_file = 20000; auto im = random_image(r, p); vector<Node *> fs; for (int i = 0; i < 3; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("rel%d", i)), T_REG); random_meta(r, *im, f); im->content(f, r.below(20000), Content::TEXT, r.next()); fs.push_back(f); } im->build(r); auto *o = new Opened(*im, r); map<string, const char *> got;
	auto judge = [&](Node *f, const char *g, const char *when) { const Content &ct = *im->contents[f->content]; string s = slurp(g); string w = s.size() == ct.size ? compare(ct, 0, (const u8 *)s.data(), s.size()) : fmt("%zu bytes, packed %llu (%s)", s.size(), (unsigned long long)ct.size, show(s.substr(0, 40)).c_str()); if (!w.empty()) violation("copy-bytes", fmt("with the temporary directory %s, %s, the copy %s: %s", name.c_str(), when, g, w.c_str())); evaluated(); };
	for (int i = 0; i < 6; ++i) { Node *f = r.pick(fs); const char *g = squash_extract(o->fs, ("/" + f->path).c_str(), "so"); if (!g) violation("extract-failed", fmt("with the temporary directory %s, extracting failed with %s", name.c_str(), errname(errno).c_str())); if (got.count(f->path) && strcmp(got[f->path], g)) violation("another-copy", "extracting again gave another copy"); got[f->path] = g; judge(f, g, "extracted"); string dir = g; dir = dir.substr(0, dir.rfind('/')); char *d = realpath(dir.c_str(), nullptr); if (i == 0 && (!d || where != d)) violation("place", fmt("with the temporary directory %s, a file was extracted to %s", name.c_str(), g)); vf_free(d); }
	size_t n = got.size(); if (listing(where).size() < n) violation("place", "the copies are not in the configured directory");
	if (chdir((base + (r.chance(50) ? "/else" : "")).c_str())) harness_error("chdir"); for (auto *f : fs) if (got.count(f->path) || r.chance(50)) { const char *g = squash_extract(o->fs, ("/" + f->path).c_str(), "so"); if (!g) { if (got.count(f->path)) violation("extract-failed", "after a change of directory, a file extracted before is not found"); continue; } if (got.count(f->path) && strcmp(got[f->path], g)) violation("another-copy", "extracting again gave another copy"); judge(f, g, "after a change of directory"); got[f->path] = g; }
	if (r.chance(50)) { squash_extract_clear_cache(); for (auto &x : got) if (!access(x.second, F_OK)) violation("copy-left", "clearing the cache left a copy"); if (r.chance(50)) { const char *g = squash_extract(o->fs, ("/" + fs[0]->path).c_str(), "x"); if (!g) violation("extract-failed", "extracting after a change of directory failed"); judge(fs[0], g, "after clearing"); } }
}
void prop_case(Rng &r, u64 index) {
	wipe(); chmod(tmp.c_str(), 0700);
	Profile p = random_profile(r); p.max_file = 40000; p.files = 8 + (int)r.below(12); auto im = random_image(r, p);
	{ static const u64 s[] = {0, 1, 16384, 16383, 16385, 32768, 49152, 8191, 65536, 100000}; for (int i = 0; i < 4; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("x%d", i)), T_REG); random_meta(r, *im, f); Content *c = im->content(f, s[r.below(10)], (Content::Mode)r.below(6), r.next()); c->frag = r.chance(50); c->sparse_every = 3; } }
	bool many = index % 6 == 1; if (many) for (int i = 0; i < 250; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("m%d", i)), T_REG); random_meta(r, *im, f); im->content(f, 1 + r.below(40), Content::TEXT, r.next())->frag = r.chance(50); }
	im->build(r); bool hurt = index % 4 == 2; vector<char> bad; if (hurt) bad = damage(r, *im, 30, 1u << Blk::DATA | 1u << Blk::FRAG); Tol tol; if (hurt) tol.bad = &bad; note(im->prof.describe());
	// a second image with the same names
	auto im2 = std::make_unique<Image>(); im2->prof = p; im2->ids = im->ids; im2->root = im2->add(nullptr, "", T_DIR); for (auto &e : im->root->kids) if (e.node->type == T_REG) { Node *f = im2->add(im2->root, e.name, T_REG); random_meta(r, *im2, f); im2->content(f, r.below(3000), Content::TEXT, r.next()); } im2->build(r);
	if (im->contents.empty()) return;
	if (index < 3) sample(fmt("%zu files, extracted with foreign files of foreseeable names around%s", im->all(T_REG).size(), hurt ? ", some damaged" : ""));
	auto o = std::make_unique<Opened>(*im, r, false), o2 = std::make_unique<Opened>(*im2, r, false); vector<Node *> files = im->all(T_REG), files2 = im2->all(T_REG); u64 h = 0;
	// others' files, some where the next names will be
	put(tmp + "/others", "others"); if (symlink((tmp + "/target-of-link").c_str(), (tmp + "/libsquash-link").c_str())) {} unsigned seed = (unsigned)r.next();
	if (r.chance(60)) { srand(seed); const string &x = exts[r.below(3)]; int n = 1 + (int)r.below(30); for (int i = 0; i < n; ++i) { string q = tmp + fmt("/libsquash-%d", rand()); if (r.chance(70)) q += "." + x; if (r.chance(20)) { if (symlink(r.chance(50) ? "missing" : "others", q.c_str())) {} } else put(q, fmt("precious %d", i)); } srand(seed); count("cases with foreseen names taken"); }
	Copies cs(tmp);
	auto damaged = [&](const Node *n) { return hurt && read_must_fail(*im, n, 0, ~0ull >> 1, tol); };
	auto any = [&]() { // one extraction
		bool second = r.chance(20) && !files2.empty(); const Image &m = second ? *im2 : *im; sqfs *fs = second ? o2->fs : o->fs; const string &e = exts[r.below(8)]; const char *ext = r.chance(15) ? nullptr : e.c_str();
		if (r.chance(15)) { string path = r.chance(40) ? miss(r, m) : "/" + random_node(r, m)->path; Outcomes oc = resolve(m, path, true); const Node *n = nullptr; bool unsure = oc.size() > 1; for (auto &x : oc) if (x.node && x.node->type == T_REG) n = x.node; if (unsure) return; cs.extract(fs, m, path, ext, n, n && !second && damaged(n)); return; }
		Node *n = r.pick(second ? files2 : files); if (m.contents[n->content]->size > 300000) return; bool d = !second && damaged(n); string path = r.chance(92) ? "/" + n->path : spell(r, m, n); h = mix64(h ^ n->inum ^ second);
		if (cs.extract(fs, m, path, ext, n, d) && d) violation("read-damaged", "a file with a damaged block was extracted"); };
	int n = many ? 0 : 25; for (int i = 0; i < n; ++i) any();
	if (many) { for (auto *f : files) cs.extract(o->fs, *im, "/" + f->path, "so", f, damaged(f)); count("cases with hundreds of copies"); }
	// someone takes the name just before the file is created
	if (r.chance(50)) { cs.expect("now"); int left = 1 + (int)r.below(3); ip.before_fopen = [&](const char *q) { if (left-- > 0 && string(q).compare(0, tmp.size() + 1, tmp + "/") == 0) { struct stat st; if (lstat(q, &st)) { if (r.chance(70)) put(q, "taken"); else if (symlink("others", q)) {} cs.dir = listing(tmp); } } }; for (int i = 0; i < 4; ++i) any(); ip.before_fopen = nullptr; count("cases with names taken in the last moment"); }
	// failures to write
	for (int t = 0; t < 6; ++t) {
		Node *f = r.pick(files); u64 size = im->contents[f->content]->size; string path = "/" + f->path; auto key = std::make_pair(o->fs, path); if (size > 300000 || cs.of.count(key) || damaged(f)) continue;
		int kind = (int)r.below(4); note(fmt("write failure %d on %s of %llu bytes", kind, path.c_str(), (unsigned long long)size)); struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); bool must = false;
		if (kind == 0) { ip.arm(Interpose::STDIO, 1 + r.below(size / 16384 + 3), r.chance(50)); }
		else if (kind == 1) { struct rlimit l = old; l.rlim_cur = r.below(size + 1); setrlimit(RLIMIT_FSIZE, &l); must = l.rlim_cur < size; }
		else if (kind == 2) { chmod(tmp.c_str(), 0500); must = geteuid() != 0; }
		else { struct rlimit l = old; l.rlim_cur = 0; setrlimit(RLIMIT_FSIZE, &l); must = size > 0; }
		if (kind == 2 || kind == 1 || kind == 3) { auto fds = open_fds(); errno = 0; const char *g = squash_extract(o->fs, path.c_str(), "so"); int e = errno; setrlimit(RLIMIT_FSIZE, &old); chmod(tmp.c_str(), 0700); if (g && must) violation("write-failure", fmt("extracting %s succeeded although it could not be written", path.c_str())); (void)e; if (open_fds() != fds) violation("descriptor-left", "a failing extraction left a descriptor open"); if (g) { Copies::Copy c{g, im.get(), f, g}; cs.check_copy(c); string name = c.path.substr(c.path.rfind('/') + 1); cs.dir[name] = listing(tmp)[name]; cs.of[key] = c; } cs.expect("after a failure to write"); count("failures to write", must); }
		else { bool ok = cs.extract(o->fs, *im, path, "so", f, true); u64 fired = ip.fired(); ip.disarm(); if (fired && ok) violation("write-failure", fmt("extracting %s succeeded although writing failed", path.c_str())); count("failures to write", fired); }
		setrlimit(RLIMIT_FSIZE, &old); if (r.chance(70)) cs.extract(o->fs, *im, path, "so", f, false);
	}
	// clearing, and extracting again
	int rounds = 1 + (int)r.below(3);
	for (int t = 0; t < rounds; ++t) {
		if (r.chance(30) && !cs.of.empty()) { auto it = cs.of.begin(); std::advance(it, r.below(cs.of.size())); string q = it->second.path; if (unlink(q.c_str())) {} cs.dir.erase(q.substr(q.rfind('/') + 1)); note("the user deletes " + q); }
		squash_extract_clear_cache(); note("clear"); cs.cleared("after clearing the cache"); if (r.chance(30)) { squash_extract_clear_cache(); cs.cleared("after clearing twice"); } for (int i = 0; i < 8; ++i) any();
		if (r.chance(40)) { // another image in the same place
			Image *a = im.get(), *b = im2.get(); sqfs *fs = o->fs; sqfs_destroy(fs); vector<Copies::Copy> gone; map<std::pair<sqfs *, string>, Copies::Copy> keep; vector<std::pair<sqfs *, string>> ks; for (auto &x : cs.of) if (x.first.first == fs) ks.push_back(x.first);
			// their copies stay until the cache is cleared, but are no longer what the path means
			static int serial; for (auto &k : ks) { cs.of[{nullptr, k.second + fmt("#%d", ++serial)}] = cs.of[k]; cs.of.erase(k); }
			Mapped m(b->bytes, 0, false, 1); if (sqfs_open_image(fs, m.base, 0)) violation("open-image", "sqfs_open_image failed"); note("another image in the same place"); for (auto &k : ks) { const Ent *e = b->root->kid(k.second.substr(0, 1) == "/" ? k.second.substr(1) : k.second); if (e && e->node->type == T_REG) cs.extract(fs, *b, k.second, "so", e->node, false); } for (int i = 0; i < 4 && !files2.empty(); ++i) { Node *f = r.pick(files2); cs.extract(fs, *b, "/" + f->path, "so", f, false); }
			count("images replaced in place"); sqfs_destroy(fs); for (auto it = cs.of.begin(); it != cs.of.end();) if (it->first.first == fs) { auto c = it->second; it = cs.of.erase(it); cs.of[{nullptr, fmt("#%d", ++serial)}] = c; } else ++it; sqfs_open_image(fs, o->mem->base, o->mem->offset); fs->root_alias = a->prof.root_alias.empty() ? nullptr : a->prof.root_alias.c_str(); fs->root_alias2 = a->prof.root_alias2.empty() ? nullptr : a->prof.root_alias2.c_str(); }
	}
	// normal exit of a process that has extracted
	bool held = r.chance(60); if (held) { for (int i = 0; i < 5; ++i) any(); count("exits of children while copies are held", !cs.of.empty()); } else { squash_extract_clear_cache(); cs.cleared("after clearing the cache"); }
	{ fflush(stdout); int pp[2]; if (pipe(pp)) harness_error("pipe"); int style = (int)r.below(3); u64 cseed = r.next(); pid_t pid = fork(); if (pid < 0) harness_error("fork");
		if (!pid) { ::close(pp[0]); Rng q(cseed); vector<string> got; int want = (int)q.below(6); for (int i = 0; i < want; ++i) { Node *f = q.pick(files); if (damaged(f) || im->contents[f->content]->size > 300000) continue; const char *g = squash_extract(o->fs, ("/" + f->path).c_str(), "so"); if (!g || access(g, R_OK)) _exit(9); got.push_back(g); } if (style == 1) squash_extract_clear_cache(); if (style == 2) { sqfs_destroy(o->fs); } string all; for (auto &g : got) all += g + "\n"; if (::write(pp[1], all.data(), all.size()) < 0) {} ::close(pp[1]); exit(0); }
		::close(pp[1]); string all; char b[4096]; ssize_t k; while ((k = ::read(pp[0], b, sizeof b)) > 0) all.append(b, k); ::close(pp[0]); int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("exit", fmt("a process that has extracted files ended with status %x", st)); cs.expect("after the exit of a process that had extracted files"); count("exits judged"); size_t nn = 0; for (char c : all) nn += c == '\n'; count("copies removed at exit", nn); evaluated(); }
	if (held) { for (int i = 0; i < 3; ++i) any(); squash_extract_clear_cache(); cs.cleared("after clearing the cache, a child having exited"); }
	if (index % 2 == 0) { u64 m[2] = {r.next(), index}; int st = -1; if (::write(to_first, m, sizeof m) != sizeof m || ::read(from_first, &st, sizeof st) != sizeof st) harness_error("no process to extract in"); if (WIFSIGNALED(st)) violation("signal", fmt("a process that extracts ended by signal %d", WTERMSIG(st))); if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); // it has said why
		string base = opt.scratch + fmt("/rel%llu", (unsigned long long)index); for (auto *d : {"", "/work", "/work/sub", "/tmp", "/else"}) for (auto &x : listing(base + d)) if (x.first.compare(0, 10, "libsquash-") == 0) violation("copy-left", fmt("after the exit of a process that had changed its directory, %s%s/%s is left", base.c_str(), d, x.first.c_str())); for (auto *d : {"/work/sub", "/work", "/tmp", "/else", ""}) rmdir((base + d).c_str()); count("first extractions of a process, with a relative temporary directory"); evaluated(); }
	// the directory is named in different ways
	if (index % 3 == 0) { fflush(stdout); static const char *vars[] = {"TMPDIR", "TMP", "TEMP"}; int v = (int)r.below(3); bool slash = r.chance(40); string sub = tmp + "/sub", other = tmp + "/other"; mkdir(sub.c_str(), 0700); mkdir(other.c_str(), 0700); Node *f = nullptr; for (int i = 0; i < 20; ++i) { f = r.pick(files); if (!damaged(f) && im->contents[f->content]->size < 300000) break; f = nullptr; }
		if (f) { // the path read by squash_tmpdir alone
			string saved = tmp; for (auto *x : vars) unsetenv(x); for (int k = v; k < 3; ++k) setenv(vars[k], k == v ? (slash ? sub + "/" : sub).c_str() : other.c_str(), 1); const char *d = squash_tmpdir(); string got = d ? d : "(null)"; vf_free((void *)d); for (auto *x : vars) unsetenv(x); { const char *none = squash_tmpdir(); struct stat st; if (!none || none[0] != '/' || stat(none, &st) || !S_ISDIR(st.st_mode)) violation("tmpdir", fmt("with no directory configured, squash_tmpdir gave %s, which is no directory", none ? none : "nothing")); vf_free((void *)none); } for (auto *x : vars) unsetenv(x); setenv("TMPDIR", saved.c_str(), 1);
			if (got != sub) violation("tmpdir", fmt("with %s=%s, squash_tmpdir gave %s", vars[v], sub.c_str(), got.c_str())); const char *t = squash_tmpf(sub.c_str(), "e.x"); if (!t || string(t).compare(0, sub.size() + 1, sub + "/") || string(t).substr(string(t).size() - 4) != ".e.x" || !access(t, F_OK)) violation("tmpf", fmt("squash_tmpf gave %s", t ? t : "nothing")); vf_free((void *)t); count("directory settings judged"); evaluated(); }
		rmdir(sub.c_str()); rmdir(other.c_str()); }
	distinct(h ^ mix64(index)); o.reset(); o2.reset(); wipe();
}
