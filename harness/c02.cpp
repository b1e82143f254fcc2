// C02: positions of descriptors
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
struct Fd { int fd; const Node *n; u64 pos; };
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = 3 + (int)r.below(6); p.dirs = 2; p.bs_log = r.chance(70) ? 12 : p.bs_log;
	auto im = random_image(r, p);
	if (r.chance(50)) { Node *f = im->add(im->root, "holes", T_REG); random_meta(r, *im, f); im->content(f, (5ull << 30) + r.below(100000), Content::HOLES, 1); im->prof.bs_log = 20; for (auto &c : im->contents) c->bs = im->bs(); }
	im->build(r); vector<char> bad; Tol tol; if (r.chance(35)) { bad = damage(r, *im, 30, 1 << Blk::DATA | 1 << Blk::FRAG); tol.bad = &bad; }
	Opened o(*im, r); vector<Node *> files = im->all(T_REG); if (files.empty()) return; note(im->prof.describe());
	vector<Fd> fds; vector<Node *> hot; for (int i = 0; i < 3; ++i) hot.push_back(r.pick(files)); u64 history = 0;
	int ops = 150 + (int)r.below(200);
	for (int i = 0; i < ops; ++i) {
		int what = (int)r.below(20);
		if (fds.empty() || (what == 0 && fds.size() < 12)) {
			const Node *n = r.chance(60) ? r.pick(hot) : r.pick(files); int fd = squash_open(o.fs, ("/" + n->path).c_str());
			if (fd < 0) violation("open", fmt("squash_open(%s) failed with %s", show(n->path).c_str(), errname(errno).c_str()));
			note(fmt("open %s -> %d", show(n->path).c_str(), fd));
			fds.push_back(Fd{fd, n, 0}); continue;
		}
		size_t k = r.below(fds.size()); Fd &f = fds[k]; const Content &c = *im->contents[f.n->content]; i64 size = (i64)c.size;
		if (what == 1 && fds.size() > 1) { note(fmt("close %d", f.fd)); if (squash_close(f.fd)) violation("close", "squash_close failed"); fds.erase(fds.begin() + k); continue; }
		if (what == 2) { // something else happens
			Query q = random_query(r, *im); note("other: " + q.describe()); ask(o.fs, *im, q, tol); continue; }
		evaluated(); count("operations judged");
		if (what < 11) { // read
			u64 n; switch (r.below(6)) { case 0: n = 0; break; case 1: n = 1 + r.below(4); break; case 2: n = c.bs; break; case 3: n = r.below(3 * c.bs); break; default: n = r.below(500); break; }
			if (n > 3000000) n = 1000;
			u64 want = f.pos >= c.size ? 0 : std::min<u64>(n, c.size - f.pos); u8 *buf = (u8 *)malloc(n + 1);
			errno = 12345; ssize_t g = squash_read(f.fd, buf, (sqfs_off_t)n); int e = errno;
			note(fmt("read %d %llu at %llu of %llu -> %zd", f.fd, (unsigned long long)n, (unsigned long long)f.pos, (unsigned long long)c.size, g));
			history = mix64(history ^ (f.pos * 31 + n));
			if (g < 0) { if (!read_may_fail(*im, f.n, f.pos, n, tol)) violation("read-failed", fmt("squash_read of %llu at position %llu of %llu failed with %s", (unsigned long long)n, (unsigned long long)f.pos, (unsigned long long)c.size, errname(e).c_str())); count("failed reads"); }
			else {
				if (read_must_fail(*im, f.n, f.pos, n, tol)) violation("read-damaged", "squash_read succeeded on a damaged block");
				if ((u64)g != want) violation("read-count", fmt("squash_read of %llu at position %llu of %llu returned %zd", (unsigned long long)n, (unsigned long long)f.pos, (unsigned long long)c.size, g));
				string d = compare(c, f.pos, buf, want); if (!d.empty()) violation("read-bytes", fmt("squash_read of %llu at position %llu: %s", (unsigned long long)n, (unsigned long long)f.pos, d.c_str()));
				f.pos += (u64)g; count(want ? "reads of data" : "reads of nothing");
			}
			free(buf);
		} else if (what < 19) { // seek
			int whence; i64 off; int w = (int)r.below(20);
			whence = w < 7 ? SQUASH_SEEK_SET : w < 13 ? SQUASH_SEEK_CUR : w < 19 ? SQUASH_SEEK_END : (r.chance(50) ? (int)r.range(3, 9) : r.chance(50) ? -1 : (int)r.next());
			if (whence >= 0 && whence <= 2 && w >= 19) whence = 3;
			i64 base = whence == SQUASH_SEEK_CUR ? (i64)f.pos : whence == SQUASH_SEEK_END ? size : 0;
			switch (r.below(9)) {
			case 0: off = -base; break; case 1: off = r.range(-base - 3, -base + 3); break;
			case 2: off = size - base + r.range(-4, 4); break; case 3: off = (i64)r.below(size + 2) - base; break;
			case 4: off = (4ll << 30) + r.range(-5, 5) - (r.chance(50) ? base : 0); break;
			case 5: off = r.chance(50) ? (2ll << 30) + r.range(-3, 3) : (1ll << 40) + r.below(100); break;
			case 6: off = r.chance(30) ? INT64_MIN + (i64)r.below(3) : -(i64)r.below(1ull << 33); break;
			case 7: off = r.range(-50, 50); break;
			default: off = r.chance(70) ? (i64)r.below(size + 1) - base : INT64_MAX - (i64)r.below(100); break;
			}
			bool valid = whence >= 0 && whence <= 2; __int128 target = (__int128)base + off; bool fail = !valid || target < 0, over = valid && target > INT64_MAX;
			errno = 12345; off_t g = squash_lseek(f.fd, off, whence); int e = errno; history = mix64(history ^ (u64)off ^ whence);
			note(fmt("lseek %d %lld whence %d at %llu -> %lld", f.fd, (long long)off, whence, (unsigned long long)f.pos, (long long)g));
			if (fail || over) {
				if (g != -1) violation("seek-accepted", fmt("squash_lseek(%lld, whence %d) at %llu returned %lld", (long long)off, whence, (unsigned long long)f.pos, (long long)g));
				if (fail && e != EINVAL) violation("seek-errno", fmt("squash_lseek(%lld, whence %d) failed with %s", (long long)off, whence, errname(e).c_str()));
				count("refused seeks");
			} else { if (g != (i64)target) violation("seek", fmt("squash_lseek(%lld, whence %d) at %llu of %lld returned %lld", (long long)off, whence, (unsigned long long)f.pos, (long long)size, (long long)g)); f.pos = (u64)g; count("seeks"); }
		} else { // tell
			off_t g = squash_lseek(f.fd, 0, SQUASH_SEEK_CUR); note(fmt("tell %d -> %lld", f.fd, (long long)g));
			if ((u64)g != f.pos) violation("position", fmt("the position is %lld, expected %llu", (long long)g, (unsigned long long)f.pos)); count("positions compared");
		}
		if (r.chance(15)) { // nobody's position moved
			for (auto &x : fds) { off_t g = squash_lseek(x.fd, 0, SQUASH_SEEK_CUR); if ((u64)g != x.pos) violation("position", fmt("the position of descriptor %d is %lld, expected %llu", x.fd, (long long)g, (unsigned long long)x.pos)); count("positions compared"); }
		}
	}
	distinct(history); if (index < 2) sample(fmt("%d operations on descriptors of %zu files, damaged blocks: %s", ops, files.size(), tol.bad ? "yes" : "no"));
	for (auto &x : fds) squash_close(x.fd);
}
