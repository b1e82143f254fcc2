// C16: hostile arguments. Everything given is exactly as large as it is said to be.
#include "session.h"
#include <time.h>
#include <sys/resource.h>
#include <climits>
void prop_init() { start_library(); }
void prop_done() {}
namespace {
struct Exact { char *p; size_t n; Exact(const string &s, bool nul = true) { n = s.size() + nul; p = (char *)malloc(n ? n : 1); memcpy(p, s.c_str(), n); } ~Exact() { free(p); } Exact(const Exact &) = delete; };
struct Timed { const char *what; string arg; timespec a; Timed(const char *w, const string &s) : what(w), arg(s) { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a); } ~Timed() { timespec b; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b); double t = b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9; if (t > 30) violation("time", fmt("%s(%s) took %.0f s", what, show(arg).c_str(), t)); } };
u8 pat(size_t i, u64 salt) { return (u8)(mix64(i * 31 + salt) >> 20); }
struct Buffer { u8 *p; size_t n; u64 salt; Buffer(size_t k, u64 s) : n(k), salt(s) { p = (u8 *)malloc(n ? n : 1); for (size_t i = 0; i < n; ++i) p[i] = pat(i, salt); } ~Buffer() { free(p); } Buffer(const Buffer &) = delete;
	void untouched(size_t from, const char *what) { for (size_t i = from; i < n; ++i) if (p[i] != pat(i, salt)) violation("written-beyond", fmt("%s wrote byte %zu of the buffer of %zu, but may write only %zu", what, i, n, from)); } };
string rep(const string &s, size_t n) { string o; o.reserve(s.size() * n); while (n--) o += s; return o; }
string hostile(Rng &r, const Image &im) {
	static const size_t ls[] = {1, 2, 3, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 200000, 1000000}; size_t l = ls[r.below(r.chance(15) ? 29 : 21)];
	const Node *n = random_node(r, im); string p = "/" + n->path;
	switch (r.below(16)) {
	case 0: { string s; for (size_t i = 0; i < l; ++i) s += (char)(1 + r.below(255)); return s; }
	case 1: return rep("/", l); case 2: return rep("../", l / 3 + 1); case 3: return rep("./", l / 2 + 1); case 4: return rep(".", l); case 5: return string(l, 'a');
	case 6: { string d = random_node(r, im, T_DIR)->path; return d.empty() ? rep("x/../", l / 5 + 1) : rep("/" + d + rep("/..", std::count(d.begin(), d.end(), '/') + 1), l / (d.size() + 4) + 1) + p; }
	case 7: return rep("/", l) + p; case 8: return p + rep("/", l); case 9: return p + rep("/.", l / 2); case 10: return p + string(l, (char)(1 + r.below(255)));
	case 11: { string s; size_t parts = std::min<size_t>(1 + r.below(l), 3000); while (parts--) s += "/" + (r.chance(60) && !im.root->kids.empty() ? im.nodes[r.below(im.nodes.size())]->path : string(r.below(300), 'b')); return s; }
	case 12: { string s = p; for (int i = 0; i < 1 + (int)r.below(4) && !s.empty(); ++i) s[r.below(s.size())] = (char)(1 + r.below(255)); return s; }
	case 13: { static const char *odd[] = {"", "/", ".", "..", "/.", "/..", "//", "./", "../", "/../", "%s%n%s", "\n", "\x7f", "\xff\xfe", "/.../", "...", "~", "*", "\\", "a\\b", "/./..", "/.//../.", " "}; return odd[r.below(23)]; }
	case 14: { const Ent *e = nullptr; for (int i = 0; i < 10 && !e; ++i) { const Node *d = random_node(r, im, T_DIR); if (!d->kids.empty()) e = &d->kids[r.below(d->kids.size())]; } string s = e ? e->name : "x"; return p + "/" + s + string(r.below(3), 'z') + rep("/" + s, r.below(20)); }
	default: return spell(r, im, n) + (r.chance(30) ? rep("/", l) : "");
	}
}
i64 extreme(Rng &r) { static const i64 v[] = {0, 1, -1, 2, 10, 255, 256, 4095, 4096, 4097, 65535, 65536, 131072, INT32_MAX, (i64)INT32_MAX + 1, INT32_MIN, UINT32_MAX, (i64)UINT32_MAX + 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (i64)1 << 32, (i64)1 << 40, (i64)1 << 47, (i64)1 << 62, -4096, -4097}; i64 x = v[r.below(28)]; return r.chance(20) ? (i64)r.next() >> r.below(64) : x; }
int strange_int(Rng &r) { static const int v[] = {INT_MIN, -2, -1, 0, 1, 2, 3, 4, 100, 1000, 1023, 1024, 65535, 1000000, 1 << 30, INT_MAX - 1, INT_MAX}; return r.chance(20) ? (int)r.next() : v[r.below(17)]; }
}
static void one_case(Rng &r, const Image &im, Opened &o, u64 calls, u64 big) {
	sqfs *fs = o.fs; Tol tol; u64 n = 0;
	auto paths = [&]() {
		string s = hostile(r, im); Exact e(s); Tol t; bool judged = s.size() <= 4000; int k = (int)r.below(10); note(fmt("call %d on %s (%zu bytes)", k, show(s).c_str(), s.size())); distinct(fnvs(s) ^ k); ++n; count(fmt("path calls %d", k).c_str()); Timed tm("a path call", s); count("longest path", 0);
		switch (k) {
		case 0: case 1: { struct stat st; memset(&st, 0x5a, sizeof st); errno = 0; int rc = k ? squash_lstat(fs, e.p, &st) : squash_stat(fs, e.p, &st); int er = errno; if (rc != 0 && rc != -1) violation("value", fmt("squash_stat returned %d", rc)); if (judged) { auto c = judge("squash_stat", s, resolve(im, s, !k), !rc, er, t); if (!rc) { bool f = false; for (auto *x : c) if (check_stat(im, x, st).empty()) f = true; if (!f) violation("stat", "squash_stat told something wrong"); } } break; }
		case 2: { errno = 0; int fd = squash_open(fs, e.p); int er = errno; if (judged) judge("squash_open", s, resolve(im, s, true), fd >= 0, er, t); if (fd >= 0 && squash_close(fd)) violation("close", "squash_close failed"); break; }
		case 3: { errno = 0; SQUASH_DIR *d = squash_opendir(fs, e.p); int er = errno; if (judged) { Outcomes oc = resolve(im, s, true); for (auto &x : oc) if (x.node && !x.node->isdir()) { x.node = nullptr; x.errs = {ENOTDIR}; } judge("squash_opendir", s, oc, d, er, t); } if (d) { for (int i = 0; i < 5; ++i) squash_readdir(d); if (squash_closedir(d)) violation("closedir", "squash_closedir failed"); } break; }
		case 4: { struct SQUASH_DIRENT **l; int c = squash_scandir(fs, e.p, &l, nullptr, nullptr); if (c >= 0) { for (int i = 0; i < c; ++i) vf_free(l[i]); vf_free(l); } else if (c != -1) violation("value", "squash_scandir returned neither -1 nor a count"); break; }
		case 5: case 6: { static const size_t bs[] = {0, 1, 2, 3, 10, 255, 256, 2047, 2048, 2049, 65536}; size_t z = bs[r.below(11)]; Buffer b(z, r.next()); errno = 0; ssize_t g = squash_readlink(fs, e.p, (char *)b.p, z); if (g > 0 && (size_t)g > z) violation("readlink-count", "squash_readlink reported more than the buffer holds"); if (g < 0 && judged) { Outcomes oc = resolve(im, s, false); bool link = false; for (auto &x : oc) link = link || (x.node && x.node->type == T_LNK); if (!link) b.untouched(0, "a failing squash_readlink"); } break; }
		case 7: { sqfs_inode i; if (sqfs_inode_get(fs, &i, sqfs_inode_root(fs))) violation("inode-get", "the root has no inode"); short found = 5; sqfs_err er = r.chance(50) ? sqfs_lookup_path(fs, &i, e.p, &found) : sqfs_lookup_path_inner(fs, &i, e.p, &found, 1); if (judged) { Tol u; bool ok = !er && found; Outcomes a = resolve(im, s, true), b = resolve(im, s, false); a.insert(a.end(), b.begin(), b.end()); judge("sqfs_lookup_path", s, a, ok, errno, u); } break; }
		case 8: { if (s.size() > 300) break; Query q = random_query(r, im); q.kind = Q_LOOKUP; q.path = s; q.node = random_node(r, im, T_DIR); q.arg = r.below(2); ask(fs, im, q, t); break; }
		default: { const char *g = r.chance(60) ? squash_extract(fs, e.p, "x") : nullptr; string x = hostile(r, im); for (auto &c : x) if (c == '/') c = '_'; Exact ex(x); const Node *f = random_node(r, im, T_REG); if (!g && f && im.contents[f->content]->size < 100000) { string fp = "/" + f->path; Exact q(fp); squash_extract_clear_cache(); g = squash_extract(fs, q.p, ex.p); if (g) { size_t l = strlen(g); if (l < x.size() || x.compare(g + l - x.size())) violation("extension", "the extension was changed"); } } if (r.chance(30)) squash_extract_clear_cache(); break; }
		} };
	auto names = [&]() { // names with a length, that end where they end
		const Node *d = random_node(r, im, T_DIR); sqfs_inode i; Asked a; if (!get_inode(fs, im, d, i, tol, a)) return; string s; int k = (int)r.below(6);
		if (k < 2 && !d->kids.empty()) { s = r.pick(d->kids).name; if (r.chance(50)) { if (r.chance(50) && s.size() > 1) s.pop_back(); else s += (char)(1 + r.below(255)); } } else if (k == 2) s = ""; else if (k == 3) s = string(1 + r.below(600), (char)(1 + r.below(255))); else if (k == 4) { for (int j = 0; j < 1 + (int)r.below(300); ++j) s += (char)(1 + r.below(255)); } else s = string(r.chance(50) ? 65536 : 100000, 'q');
		Exact e(s, false); sqfs_name *buf = (sqfs_name *)malloc(sizeof(sqfs_name)); sqfs_dir_entry en; memset(&en, 0xa5, sizeof en); sqfs_dentry_init(&en, *buf); short found = 9; note(fmt("sqfs_dir_lookup of %s (%zu bytes) in %s", show(s).c_str(), s.size(), show(d->path).c_str())); distinct(fnvs(s) ^ d->inum); ++n; count("names with a length");
		sqfs_err er = sqfs_dir_lookup(fs, &i, e.p, s.size(), &en, &found); const Ent *w = d->kid(s);
		if (er) violation("dir-lookup", fmt("sqfs_dir_lookup failed with %d", er)); if (!!found != !!w) violation("dir-lookup", fmt("sqfs_dir_lookup of %s in %s: found %d, packed %d", show(s).c_str(), show(d->path).c_str(), found, !!w)); if (found && sqfs_dentry_inode(&en) != w->node->ref) violation("dir-lookup", "sqfs_dir_lookup found another object"); free(buf); };
	auto fds = [&]() { // any number, any call
		const Node *f = random_node(r, im); string p = "/" + f->path; int fd = squash_open_inner(fs, p.c_str(), 0); if (fd < 0) violation("open", "squash_open_inner failed: " + show(p)); u64 pos = 0; u64 size = f->type == T_REG ? im.contents[f->content]->size : f->type == T_LNK ? f->target.size() : 0; bool lnkdir = f->type != T_REG; ++n; u64 h = f->inum;
		for (int k = 0; k < 8; ++k) {
			int who = r.chance(75) ? fd : strange_int(r); int w = (int)r.below(4); if (who != fd && SQUASH_VALID_VFD(who)) who = fd; h = mix64(h ^ who ^ w << 8);
			if (w == 0) { i64 off = extreme(r); int wh = r.chance(80) ? (int)r.below(3) : strange_int(r); if (lnkdir && wh == 2) continue; errno = 0; off_t g = squash_lseek(who, off, wh); int er = errno; __int128 to = (wh == 0 ? 0 : wh == 1 ? (__int128)pos : (__int128)size) + off; note(fmt("lseek %d by %lld from %d -> %lld", who, (long long)off, wh, (long long)g)); count("seeks"); bool ok = who == fd && wh >= 0 && wh <= 2 && to >= 0 && to <= INT64_MAX; if (ok ? g != (off_t)to : g != -1) violation("lseek", fmt("squash_lseek to %lld from %d at %llu of %llu returned %lld", (long long)off, wh, (unsigned long long)pos, (unsigned long long)size, (long long)g)); if (!ok && !er) violation("lseek", "squash_lseek failed with errno 0"); if (ok) pos = (u64)to; }
			else if (w == 1) { i64 cnt = extreme(r); if (who == fd && f->type == T_REG && cnt > 0) { u64 left = pos >= size ? 0 : size - pos; if (left > 400000) continue; Buffer b(std::min<u64>((u64)cnt, left + r.below(50)), r.next()); if ((u64)cnt > b.n && (u64)cnt <= left) continue; errno = 0; ssize_t g = squash_read(fd, b.p, cnt); u64 want = std::min<u64>((u64)cnt, left); note(fmt("read %lld at %llu of %llu -> %zd", (long long)cnt, (unsigned long long)pos, (unsigned long long)size, g)); count("reads of any count"); if (g < 0 || (u64)g != want) violation("read-count", fmt("squash_read of %lld at %llu of %llu returned %zd", (long long)cnt, (unsigned long long)pos, (unsigned long long)size, g)); string y = compare(*im.contents[f->content], pos, b.p, g); if (!y.empty()) violation("read-bytes", y); b.untouched(g, "squash_read"); pos += want; }
				else { Buffer b(0, 1); errno = 0; ssize_t g = squash_read(who, b.p, cnt > 0 && who == fd ? cnt : cnt); bool zero = who == fd && f->type == T_REG && cnt == 0; if (zero ? g != 0 : g != -1) violation("read-count", fmt("squash_read(%d, %lld) of %s returned %zd", who, (long long)cnt, show(p).c_str(), g)); count("reads that cannot be"); } }
			else if (w == 2) { struct stat st; memset(&st, 0x5a, sizeof st); int rc = squash_fstat(who, &st); if (rc != (who == fd ? 0 : -1)) violation("fstat", fmt("squash_fstat(%d) returned %d", who, rc)); }
			else if (who != fd) { errno = 0; int rc = squash_close(who); if (rc != -1 || errno != EBADF) violation("close", fmt("squash_close(%d) returned %d", who, rc)); count("strange descriptors"); }
		}
		distinct(h); if (squash_close(fd)) violation("close", "squash_close failed"); };
	auto ranges = [&]() { const Node *f = random_node(r, im); sqfs_inode i; Asked a; if (!get_inode(fs, im, f, i, tol, a)) return; i64 off = extreme(r), cnt = extreme(r); ++n; count("ranges of any kind");
		if (f->type == T_REG) { u64 size = im.contents[f->content]->size; if (size > 400000) return; u64 want = off < 0 || (u64)off >= size || cnt <= 0 ? 0 : std::min<u64>(cnt, size - off); Buffer b(want + r.below(10), r.next()); sqfs_off_t c = cnt; note(fmt("sqfs_read_range of %lld at %lld of %llu", (long long)cnt, (long long)off, (unsigned long long)size)); sqfs_err e = sqfs_read_range(fs, &i, off, &c, b.p); if (off >= 0 && cnt >= 0 && (e || (u64)c != want)) violation("read-count", fmt("sqfs_read_range of %lld at %lld of %llu gave %d and %lld", (long long)cnt, (long long)off, (unsigned long long)size, e, (long long)c)); if (!e) { if (c > 0) { string y = compare(*im.contents[f->content], off, b.p, std::min<u64>(c, want)); if (!y.empty()) violation("read-bytes", y); } } b.untouched(want, "sqfs_read_range"); distinct(mix64(off) ^ cnt ^ f->inum); }
		else { sqfs_off_t c = cnt; Buffer b(0, 1); if (!sqfs_read_range(fs, &i, off, &c, b.p)) violation("read-nonreg", "sqfs_read_range of an object that is no regular file succeeded"); }
		if (f->type == T_LNK) { static const size_t bs[] = {0, 1, 2, 3, 100, 256, 2047, 2048, 70000}; size_t z = r.chance(50) ? (size_t)std::max<i64>(0, (i64)f->target.size() + r.range(-2, 3)) : bs[r.below(9)]; { Buffer b(z, r.next()); size_t s = z; sqfs_err e = sqfs_readlink(fs, &i, (char *)b.p, &s); size_t put = z ? std::min(f->target.size(), z - 1) : 0; if (z && e) violation("readlink", "sqfs_readlink failed"); if (!z && !e) violation("readlink", "sqfs_readlink without room succeeded"); if (z && (memcmp(b.p, f->target.data(), put) || b.p[put])) violation("readlink", "sqfs_readlink gave something else"); b.untouched(z ? put + 1 : 0, "sqfs_readlink"); size_t need = 0; if (sqfs_readlink(fs, &i, nullptr, &need) || need != f->target.size() + 1) violation("readlink", "sqfs_readlink told a wrong size"); }
			{ Buffer b(z, r.next()); Exact e("/" + f->path); errno = 0; ssize_t g = squash_readlink(fs, e.p, (char *)b.p, z); string s = strip_alias(im, f->target); bool fits = z >= f->target.size() + 1, must_not = z < s.size(); if (f->path.size() < 2000 && (g < 0 ? fits : must_not)) violation("readlink", fmt("squash_readlink of a target of %zu bytes into %zu returned %zd", f->target.size(), z, g)); if (g >= 0 && ((size_t)g != s.size() || memcmp(b.p, s.data(), g))) violation("readlink", "squash_readlink gave something else"); b.untouched(std::min(z, f->target.size() + 1), "squash_readlink"); count("targets into tight buffers"); } } };
	auto streams = [&]() { const Node *d = random_node(r, im, T_DIR); SQUASH_DIR *s = squash_opendir(fs, ("/" + d->path).c_str()); if (!s) violation("opendir", "squash_opendir failed"); ++n; for (int k = 0; k < 6; ++k) { i64 to = r.chance(50) ? extreme(r) : r.range(-2, (i64)d->kids.size() + 3); squash_seekdir(s, (long)to); note(fmt("seekdir %lld of %zu", (long long)to, d->kids.size())); count("stream positions of any kind"); long t = squash_telldir(s); (void)t; struct SQUASH_DIRENT *e = squash_readdir(s); bool in = to >= 0 && (u64)to < d->kids.size(); if (e && !in && to >= 0) violation("seekdir", "an entry was read beyond the end"); if (in && (!e || (d->kids[to].name.size() < 256 && d->kids[to].name != e->d_name))) violation("seekdir", fmt("squash_readdir at position %lld gave something else", (long long)to)); if (e && memchr(e->d_name, 0, sizeof e->d_name) == nullptr) violation("d_name", "a name without an end"); } squash_rewinddir(s); size_t c = 0; while (struct SQUASH_DIRENT *e = squash_readdir(s)) { (void)e; ++c; } if (c != d->kids.size()) violation("rewinddir", fmt("after strange positions, %zu of %zu entries were read", c, d->kids.size())); if (squash_closedir(s)) violation("closedir", "squash_closedir failed");
		// inode and id numbers, offsets in listings
		for (int k = 0; k < 4; ++k) { Query q; q.node = r.chance(50) ? d : random_node(r, im, T_DIR); q.kind = (QKind)(r.chance(40) ? Q_EXPORT : r.chance(40) ? Q_ID : Q_ITERATE); q.arg = r.chance(50) ? r.below(im.inodes + 5) : (u64)extreme(r); q.seed = r.next(); bool long_name = false; for (auto &e : q.node->kids) long_name |= e.name.size() > 255; if (q.kind == Q_ITERATE && long_name) continue; ask(fs, im, q, tol); } };
	while (n < calls) { int k = (int)r.below(10); if (k < 4) paths(); else if (k < 5) names(); else if (k < 7) fds(); else if (k < 9) ranges(); else streams(); evaluated(); }
	(void)big;
}
// names of 256 bytes, the most the format has room for: what is reported may be shortened, everything else is right
static void longest_names(Rng &r) {
	Profile p = random_profile(r); p.files = 2; p.dirs = 1; p.max_file = 100; auto im = random_image(r, p); Node *d = im->add(im->root, free_name(im->root, "longest"), T_DIR); random_meta(r, *im, d); d->indexed = r.chance(50);
	for (int i = 0; i < 60; ++i) { string s = r.chance(60) ? string(256, (char)('a' + i % 26)) : string(1 + r.below(255), (char)('a' + i % 26)); s[0] = (char)('A' + i / 26); s = free_name(d, s); if (s.size() > 256) continue; Node *f = im->add(d, s, r.chance(50) ? T_DIR : T_FIFO); random_meta(r, *im, f); }
	im->build(r); Opened o(*im, r); string path = "/" + d->path; auto near = [](const string &want, const char *got) { size_t n = strlen(got); return n >= std::min<size_t>(255, want.size()) && n <= want.size() && want.compare(0, n, got) == 0; };
	SQUASH_DIR *s = squash_opendir(o.fs, path.c_str()); if (!s) violation("opendir", "squash_opendir failed"); for (int round = 0; round < 2; ++round) { size_t i = 0; while (struct SQUASH_DIRENT *e = squash_readdir(s)) { if (i >= d->kids.size() || !near(d->kids[i].name, e->d_name) || e->d_ino != d->kids[i].node->inum || e->d_type != dtype(d->kids[i].node)) violation("readdir-entry", fmt("squash_readdir at %zu gave %s", i, show(string(e->d_name, strnlen(e->d_name, 256))).c_str())); ++i; count("entries of directories with names of 256 bytes"); } if (i != d->kids.size()) violation("readdir-short", "squash_readdir ended early"); squash_rewinddir(s); } if (squash_closedir(s)) violation("closedir", "squash_closedir failed");
	struct SQUASH_DIRENT **l = nullptr; int k = squash_scandir(o.fs, path.c_str(), &l, nullptr, nullptr); if (k != (int)d->kids.size()) violation("scandir-count", fmt("squash_scandir gave %d of %zu entries", k, d->kids.size())); for (int i = 0; i < k; ++i) { if (!near(d->kids[i].name, l[i]->d_name)) violation("scandir-entry", "squash_scandir gave a wrong entry"); vf_free(l[i]); } vf_free(l);
	for (auto &e : d->kids) { struct stat st; errno = 0; int rc = squash_lstat(o.fs, (path + "/" + e.name).c_str(), &st); if (rc && (e.name.size() <= 255 || !errno)) violation("not-found", fmt("squash_lstat of a name of %zu bytes failed", e.name.size())); if (!rc) { string x = check_stat(*im, e.node, st); if (!x.empty()) violation("stat", x); } sqfs_inode i; if (sqfs_inode_get(o.fs, &i, d->ref)) violation("inode", "sqfs_inode_get failed"); if (r.chance(30)) { sqfs_dir_entry en; sqfs_name nm; short found = 0; sqfs_dentry_init(&en, nm); if (sqfs_dir_lookup(o.fs, &i, e.name.c_str(), e.name.size(), &en, &found) || (!found && e.name.size() <= 255)) violation("lookup", "sqfs_dir_lookup failed"); if (found && sqfs_dentry_inode_num(&en) != e.node->inum) violation("lookup", "sqfs_dir_lookup found another object"); if (found) sqfs_dentry_name(&en); } }
	sqfs_traverse t; sqfs_err err; if (sqfs_traverse_open(&t, o.fs, d->ref)) violation("traverse", "sqfs_traverse_open failed"); size_t seen = 0; while (sqfs_traverse_next(&t, &err)) ++seen; if (err) violation("traverse", fmt("the traversal failed with %d", err)); sqfs_traverse_close(&t); if (seen < d->kids.size()) violation("traverse", "the traversal ended early"); evaluated();
}
// descriptors up to the last place of the table they are kept in, and questions about numbers and pointers around its end
static void full_table(Rng &r) {
	Profile p = random_profile(r); p.files = 3; p.dirs = 2; p.max_file = 100; auto im = random_image(r, p); im->build(r); Opened o(*im, r); struct Open { int fd; const Node *n; SQUASH_DIR *d; }; vector<Open> all; size_t top = 0; rlimit lim; getrlimit(RLIMIT_NOFILE, &lim);
	auto open1 = [&]() { const Node *n = random_node(r, *im, r.chance(30) ? T_DIR : T_REG); if (!n) n = im->root; string s = "/" + n->path; Open x{-1, n, nullptr}; if (n->isdir() && r.chance(60)) { x.d = squash_opendir(o.fs, s.c_str()); if (!x.d) violation("opendir", "squash_opendir failed: " + string(errname(errno))); x.fd = squash_dirfd(x.d); } else x.fd = squash_open_inner(o.fs, s.c_str(), 0); if (x.fd < 0) violation("open", "squash_open failed: " + string(errname(errno))); all.push_back(x); top = std::max(top, (size_t)x.fd + 1); };
	auto asked = [&]() { size_t nr = r.chance(50) ? top : top * 10; void *odd[] = {nullptr, &nr, o.fs, (void *)~0ull, (void *)(uintptr_t)r.below(4096)}; for (void *q : odd) if (squash_find_entry(q)) violation("find", "squash_find_entry found a stream that was never opened"); for (size_t k = nr > 3 ? nr - 3 : 0; k < nr + 3; ++k) { bool mine = false; for (auto &x : all) mine |= x.fd == (int)k; if (!!SQUASH_VALID_VFD((int)k) != mine) violation("recognised", fmt("%zu near %zu is recognised: %d", k, nr, !mine)); if (!mine) { char c; errno = 0; if (squash_read((int)k, &c, 1) != -1 || errno != EBADF || squash_lseek((int)k, 0, SEEK_SET) != -1 || squash_close((int)k) != -1) violation("bad-number", "a number that is not open was accepted"); } } for (auto &x : all) if (x.d && squash_find_entry(x.d) != SQUASH_VFD_FILE(x.fd)) violation("find", "squash_find_entry did not find the stream that is open"); evaluated(); count("questions about a table of descriptors"); };
	size_t goal = std::min<size_t>(1 + r.below(r.chance(30) ? 1100 : 130), lim.rlim_cur - 20); while (all.size() < goal) { open1(); if (squash_find_entry(&all)) violation("find", "squash_find_entry found a stream that was never opened"); if (r.chance(2)) asked(); } distinct(top); count("tables of descriptors filled step by step"); asked();
	while (!all.empty()) { size_t k = r.chance(50) ? all.size() - 1 : r.below(all.size()); Open x = all[k]; all.erase(all.begin() + k); if (x.d ? squash_closedir(x.d) : squash_close(x.fd)) violation("close", "an open descriptor could not be closed"); if (r.chance(3)) asked(); } asked();
}
void prop_case(Rng &r, u64 index) {
	if (index % 20 == 7) { longest_names(r); return; }
	if (index % 20 == 13) { full_table(r); return; }
	Profile p = random_profile(r); p.max_file = 20000; p.files = std::min(p.files, 20); p.long_names_pct = 25; if (r.chance(30)) p.root_alias = "/mnt/"; auto im = random_image(r, p);
	// deep directories, names of the maximum length, huge targets
	if (index % 3 == 0) { Node *d = im->root; int n = 20 + (int)r.below(200); for (int i = 0; i < n; ++i) d = im->add(d, free_name(d, string(1 + r.below(i % 10 ? 4 : 255), 'd')), T_DIR); im->link(d, "end", im->add(d, "end2", T_FIFO)); }
	if (index % 3 == 1) { Node *d = im->add(im->root, free_name(im->root, "long"), T_DIR); d->indexed = r.chance(50); for (int i = 0; i < 80; ++i) { string s(255, (char)('a' + i % 26)); s[100] = (char)('0' + i / 26); s[254] = (char)(1 + r.below(255)); if (s[254] == '/') s[254] = 'x'; s = free_name(d, s); if (s.size() > 255) continue; Node *f = im->add(d, s, r.chance(50) ? T_REG : T_FIFO); random_meta(r, *im, f); if (f->type == T_REG) im->content(f, 10, Content::TEXT, 1); } }
	{ static const size_t ls[] = {1, 255, 256, 1024, 2046, 2047, 2048, 2049, 4096, 8191, 8192, 20000, 65535, 65536, 200000}; for (int i = 0; i < 5; ++i) { size_t l = ls[r.below(15)]; Node *k = im->add(im->root, free_name(im->root, fmt("huge%d", i)), T_LNK); random_meta(r, *im, k); k->target = r.chance(50) ? string(l, 't') : r.chance(50) ? rep("../", l / 3 + 1) : r.chance(50) ? rep("/", l) : "/mnt/" + string(l, 'u'); } }
	im->build(r); Opened o(*im, r); note(im->prof.describe()); if (index < 3) sample(fmt("%u objects, %zu long directories, hostile paths up to 1000000 bytes", im->inodes, im->all(T_DIR).size()));
	u64 calls = opt.thorough ? 600 : 260; if (index % 2) { with_stack(512 << 10, [&] { one_case(r, *im, o, calls, 0); }); count("cases on a small stack"); } else one_case(r, *im, o, calls, 0); squash_extract_clear_cache();
}
