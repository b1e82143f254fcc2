// A user of an image: asks questions, and keeps descriptors, streams, traversals and lists open across them.
// Everything it is told is judged by the model. Used by several properties; several may run at the same time.
#pragma once
#include "prop.h"
struct Session {
	sqfs *fs; const Image &im; Tol tol; Rng r; bool quiet = false; unsigned kinds = ~0u; size_t max_held = 8;
	struct Fd { int fd; const Node *n; u64 pos; }; vector<Fd> fds;
	struct Dir { SQUASH_DIR *d; const Node *n; size_t at; bool broken; vector<std::pair<long, size_t>> told; struct SQUASH_DIRENT *last; size_t last_i; }; vector<Dir> dirs;
	vector<std::unique_ptr<TravMon>> travs;
	struct List { struct SQUASH_DIRENT **l; int n; vector<string> names; }; vector<List> lists;
	u64 ops = 0, failures = 0, hist = 0; Asked last;
	Session(sqfs *f, const Image &i, const Tol &t, u64 seed) : fs(f), im(i), tol(t), r(seed) {}
	Session(const Session &) = delete;
	~Session() { close_all(); }
	void say(const string &s) { if (!quiet) note(s); }
	void op() {
		++ops; last = Asked(); int k = (int)r.below(100); hist = mix64(hist ^ k);
		if (k < 45) { Query q = random_query(r, im, kinds); say(q.describe()); last = ask(fs, im, q, tol); }
		else if (k < 52) open_fd(); else if (k < 68) read_fd(); else if (k < 72) seek_fd(); else if (k < 76) close_fd();
		else if (k < 80) open_dir(); else if (k < 88) read_dir(); else if (k < 90) move_dir(); else if (k < 92) close_dir();
		else if (k < 94) open_trav(); else if (k < 97) step_trav(); else if (k < 98) close_trav(); else keep_list();
		if (last.failed) ++failures;
	}
	void open_fd() {
		if (fds.size() >= max_held) return close_fd();
		const Node *n = random_node(r, im, r.chance(90) ? T_REG : 0); if (!n) return; string p = r.chance(90) ? "/" + n->path : miss(r, im); Outcomes oc = resolve(im, p, true);
		errno = 0; int fd = api.open(fs, p.c_str()); int e = errno; say(fmt("open %s -> %d", show(p).c_str(), fd)); auto c = judge("squash_open", p, oc, fd >= 0, e, tol); if (fd < 0) { last.failed = true; return; }
		struct stat st; if (api.fstat(fd, &st)) violation("fstat", "squash_fstat failed with " + errname(errno)); const Node *found = nullptr; string why; for (auto *x : c) { why = check_stat(im, x, st); if (why.empty()) { found = x; break; } } if (!found) violation("fstat", fmt("squash_fstat after opening %s: %s", show(p).c_str(), why.c_str()));
		fds.push_back(Fd{fd, found, 0}); }
	void read_fd() { if (fds.empty()) return open_fd(); size_t k = r.below(fds.size()); static const u64 sz[] = {1, 10, 100, 4096, 5000, 20000}; read_held(fds[k], r.below(sz[r.below(6)]) + 1, "read"); }
	void read_held(Fd &f, u64 want, const char *what) {
		if (f.n->type != T_REG) { char b[3]; if (api.read(f.fd, b, 3) != -1) violation("read-nonreg", "squash_read of an object that is no regular file succeeded"); return; }
		const Content &c = *im.contents[f.n->content]; u64 exp = f.pos >= c.size ? 0 : std::min(want, c.size - f.pos); u8 *buf = (u8 *)malloc(want); errno = 0; ssize_t g = api.read(f.fd, buf, (sqfs_off_t)want); int e = errno;
		say(fmt("%s %llu from %d (%s) at %llu -> %zd", what, (unsigned long long)want, f.fd, show(f.n->path).c_str(), (unsigned long long)f.pos, g));
		if (g < 0) { last.failed = true; if (!read_may_fail(im, f.n, f.pos, want, tol)) violation("read-failed", fmt("squash_read of %llu at %llu of %s failed with %s", (unsigned long long)want, (unsigned long long)f.pos, show(f.n->path).c_str(), errname(e).c_str())); }
		else {
			if (read_must_fail(im, f.n, f.pos, want, tol)) violation("read-damaged", fmt("squash_read of %llu at %llu of %s returned %zd, but a block it needs is damaged", (unsigned long long)want, (unsigned long long)f.pos, show(f.n->path).c_str(), g));
			if ((u64)g != exp) violation("read-count", fmt("squash_read of %llu at %llu of %s (%llu bytes) returned %zd", (unsigned long long)want, (unsigned long long)f.pos, show(f.n->path).c_str(), (unsigned long long)c.size, g));
			string w = compare(c, f.pos, buf, exp); if (!w.empty()) violation("read-bytes", fmt("squash_read of %s: %s", show(f.n->path).c_str(), w.c_str())); f.pos += exp; }
		free(buf); }
	void seek_fd() { if (fds.empty()) return; Fd &f = fds[r.below(fds.size())]; if (f.n->type != T_REG) return; u64 size = im.contents[f.n->content]->size; u64 to = r.below(size + 20); off_t g; if (r.chance(60)) g = api.lseek(f.fd, (off_t)to, SQUASH_SEEK_SET); else if (r.chance(50)) g = api.lseek(f.fd, (off_t)to - (off_t)f.pos, SQUASH_SEEK_CUR); else g = api.lseek(f.fd, (off_t)to - (off_t)size, SQUASH_SEEK_END); say(fmt("seek %d to %llu", f.fd, (unsigned long long)to)); if (g != (off_t)to) violation("lseek", fmt("squash_lseek to %llu of %llu bytes returned %lld", (unsigned long long)to, (unsigned long long)size, (long long)g)); f.pos = to; }
	void close_fd() { if (fds.empty()) return; size_t k = r.below(fds.size()); say(fmt("close %d", fds[k].fd)); if (api.close(fds[k].fd)) violation("close", "squash_close failed with " + errname(errno)); fds.erase(fds.begin() + k); }
	void open_dir() {
		if (dirs.size() >= max_held) return close_dir();
		const Node *n = random_node(r, im, T_DIR); string p = r.chance(85) ? "/" + n->path : r.chance(50) ? miss(r, im) : "/" + random_node(r, im)->path; Outcomes oc = resolve(im, p, true); for (auto &o : oc) if (o.node && !o.node->isdir()) { o.node = nullptr; o.errs = {ENOTDIR, ENOENT}; }
		errno = 0; SQUASH_DIR *d = api.opendir(fs, p.c_str()); int e = errno; say(fmt("opendir %s -> %s", show(p).c_str(), d ? "open" : errname(e).c_str())); auto c = judge("squash_opendir", p, oc, d, e, tol); if (!d) { last.failed = true; return; } if (c.size() > 1) { api.closedir(d); return; } dirs.push_back(Dir{d, c[0], 0, false, {}, nullptr, 0}); }
	void read_dir() { if (dirs.empty()) return open_dir(); Dir &d = dirs[r.below(dirs.size())]; int n = r.chance(15) ? (int)d.n->kids.size() + 1 : 1 + (int)r.below(6); say(fmt("readdir %s x%d at %zu", show(d.n->path).c_str(), n, d.at)); while (n-- > 0) if (!read_entry(d)) break; }
	bool read_entry(Dir &d) {
		errno = 0; struct SQUASH_DIRENT *e = api.readdir(d.d); int er = errno; bool listing_bad = tol.bad_range(d.n->dl0, d.n->dl1);
		if (!e) { d.last = nullptr; if (er) { last.failed = true; if (!tol.may_fail && !listing_bad && !tol.bad_range(d.n->ix0, d.n->ix1)) violation("readdir-failed", fmt("squash_readdir of %s failed with %s", show(d.n->path).c_str(), errname(er).c_str())); if (!tol.may_fail) d.broken = true; } else if (d.broken) violation("readdir-revived", "squash_readdir reported the end after an error"); else if (d.at != d.n->kids.size()) violation("readdir-short", fmt("squash_readdir of %s ended at entry %zu of %zu", show(d.n->path).c_str(), d.at, d.n->kids.size())); return false; }
		if (d.broken) violation("readdir-revived", "squash_readdir went on after an error");
		if (d.at >= d.n->kids.size()) violation("readdir-extra", "squash_readdir gave too many entries");
		const Ent &k = d.n->kids[d.at]; if (k.name != e->d_name || e->d_ino != k.node->inum || e->d_type != dtype(k.node)) violation("readdir-entry", fmt("squash_readdir of %s at %zu gave %s, expected %s", show(d.n->path).c_str(), d.at, show(e->d_name).c_str(), show(k.name).c_str()));
		if (tol.bad_range(k.md0, k.md1) || tol.bad_range(k.hdr_md0, k.hdr_md1)) violation("read-damaged", "squash_readdir gave an entry in a damaged block");
		d.last = e; d.last_i = d.at++; return true; }
	void move_dir() { if (dirs.empty()) return; Dir &d = dirs[r.below(dirs.size())]; if (r.chance(40)) { if (!d.broken && !tol.may_fail) d.told.push_back({api.telldir(d.d), d.at}); return; } if (tol.bad_range(d.n->dl0, d.n->dl1)) { api.rewinddir(d.d); d.at = 0; } else if (r.chance(50) || d.told.empty()) { api.rewinddir(d.d); d.at = 0; } else { auto t = r.pick(d.told); api.seekdir(d.d, t.first); d.at = t.second; } if (tol.may_fail) { api.rewinddir(d.d); d.at = 0; } d.broken = false; d.last = nullptr; say("rewind or seek " + show(d.n->path)); }
	void close_dir() { if (dirs.empty()) return; size_t k = r.below(dirs.size()); say("closedir " + show(dirs[k].n->path)); if (api.closedir(dirs[k].d)) violation("closedir", "squash_closedir failed with " + errname(errno)); dirs.erase(dirs.begin() + k); }
	void open_trav() { if (travs.size() >= 4 || tol.may_fail) return close_trav(); travs.emplace_back(new TravMon(fs, im, random_node(r, im, r.chance(8) ? 0 : T_DIR), tol, r.next(), r.chance(40))); last.failed = travs.back()->failed; say("traverse"); }
	void step_trav() { if (travs.empty()) return open_trav(); TravMon &t = *travs[r.below(travs.size())]; t.tol.may_fail = tol.may_fail; int n = 1 + (int)r.below(12); while (n-- > 0 && t.step()) ; last.failed = t.failed; say("traverse steps"); }
	void close_trav() { if (travs.empty()) return; travs.erase(travs.begin() + r.below(travs.size())); say("end of traverse"); }
	void keep_list() {
		if (lists.size() >= 3) { drop_list(r.below(lists.size())); return; }
		const Node *n = random_node(r, im, T_DIR); string p = "/" + n->path; struct SQUASH_DIRENT **l = nullptr; errno = 0; int k = api.scandir(fs, p.c_str(), &l, nullptr, nullptr); int e = errno; say(fmt("scandir %s -> %d, kept", show(p).c_str(), k));
		if (k < 0) { last.failed = true; Outcomes oc = resolve(im, p, true); if (!tol.bad_range(n->dl0, n->dl1) && !tol.bad_range(n->ix0, n->ix1)) judge("squash_scandir", p, oc, false, e, tol); return; }
		if ((size_t)k != n->kids.size()) violation("scandir-count", fmt("squash_scandir of %s returned %d of %zu entries", show(p).c_str(), k, n->kids.size()));
		List x; x.l = l; x.n = k; for (int i = 0; i < k; ++i) { if (n->kids[i].name != l[i]->d_name) violation("scandir-entry", "squash_scandir gave a wrong entry"); x.names.push_back(n->kids[i].name); } lists.push_back(x); }
	void drop_list(size_t i) { List &x = lists[i]; for (int k = 0; k < x.n; ++k) { if (x.names[k] != x.l[k]->d_name) violation("list-changed", "an entry of a returned list changed"); vf_free(x.l[k]); } vf_free(x.l); lists.erase(lists.begin() + i); }
	// every held thing still gives its answers
	void check_held() {
		Tol keep = tol; for (auto &f : fds) read_held(f, 1 + r.below(300), "held: read"); for (auto &d : dirs) { if (d.last) { const Ent &k = d.n->kids[d.last_i]; if (k.name != d.last->d_name) violation("entry-changed", "the entry read last from a stream changed"); } read_entry(d); } tol = keep; }
	void close_all() { while (!fds.empty()) close_fd(); while (!dirs.empty()) close_dir(); travs.clear(); while (!lists.empty()) drop_list(lists.size() - 1); }
};
