// C07: metadata
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
static bool same_stat(const struct stat &a, const struct stat &b) { return a.st_mode == b.st_mode && a.st_nlink == b.st_nlink && a.st_mtime == b.st_mtime && a.st_size == b.st_size && a.st_rdev == b.st_rdev && a.st_ino == b.st_ino && a.st_dev == b.st_dev && a.st_uid == b.st_uid && a.st_gid == b.st_gid && a.st_atime == b.st_atime && a.st_ctime == b.st_ctime; }
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = (int)r.below(40); p.max_file = 5000; p.specials = 4 + (int)r.below(25); p.links = (int)r.below(20); p.hardlink_pct = r.chance(50) ? 30 : 0;
	if (index % 4 == 0) p.ids = 1 + (int)r.below(9000); if (index % 40 == 7) p.ids = 65535;
	if (index % 16 == 5) { random_gap(r, p); count("images with tables beyond 2 or 4 GiB"); }
	auto im = random_image(r, p);
	if (index % 16 == 3) { add_crowd(r, *im, 8200 + (int)r.below(12000)); count("images with more than 8192 objects"); }
	if (index % 4 == 1) { int n = 1000 + (int)r.below(3500); vector<Node *> ds = im->all(T_DIR); for (int i = 0; i < n; ++i) { Node *d = r.pick(ds); Node *k = im->add(d, free_name(d, fmt("m%d", i)), T_DIR + (int)r.below(7)); random_meta(r, *im, k); if (k->type == T_REG) { Content *c = im->content(k, r.chance(80) ? r.below(50) : r.below(20000), r.chance(50) ? Content::TEXT : Content::SPARSE, r.next()); c->frag = r.chance(50); } if (k->type == T_LNK) k->target = string(1 + r.below(80), 'l'); } }
	static const u32 times[] = {0, 1, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
	for (auto &n : im->nodes) { if (r.chance(12)) n->mtime = times[r.below(6)]; if (n->type == T_LNK && r.chance(10)) n->target = string(1 + r.below(1900), 't'); if (r.chance(5)) n->perm = 07777; if (r.chance(3)) n->perm = 0;
		if ((n->type == T_BLK || n->type == T_CHR) && r.chance(30)) { static const u32 d[] = {0, 1, 0xff, 0x100, 0xfff00, 0xfff00000u, 0xffffffffu, 0x00100000, 0x0001ff00}; n->rdev = d[r.below(9)]; } }
	for (int i = 0; i < 2; ++i) { vector<Node *> fs = im->all(T_REG); if (fs.empty()) break; Node *f = r.pick(fs); vector<Node *> ds = im->all(T_DIR); int n = r.chance(20) ? 300 : (int)r.below(10); for (int k = 0; k < n; ++k) { Node *d = r.pick(ds); im->link(d, free_name(d, fmt("hl%d.%d", i, k)), f); } }
	if (index % 5 == 2) { Node *f = im->add(im->root, free_name(im->root, "huge"), T_REG); random_meta(r, *im, f); Content *c = im->content(f, r.chance(50) ? (5ull << 30) + 17 : (u64)0xffffffff + r.below(3), Content::HOLES, r.next()); if (p.bs_log < 17) c->size = (2ull << 30) + r.below(1 << 20); c->mode = Content::ZERO; c->mode = Content::SPARSE; c->sparse_every = 4000; c->frag = r.chance(50); if (p.bs_log < 15) c->size = 100ull << 20; }
	for (auto &n : im->nodes) if (r.chance(8)) { static const u32 l[] = {255, 256, 257, 512, 768, 65535, 65536, 65537, 1u << 20, 0x7fffffff, 0xffffffff}; n->nlink = r.chance(70) ? l[r.below(11)] : 1 + (u32)r.below(100000); }
	im->build(r); Opened o(*im, r); note(im->prof.describe());
	if (index < 3) sample(fmt("image with %u inodes and %zu ids, export table %d", im->inodes, im->ids.size(), p.export_table));
	Tol tol; vector<Node *> all = im->all(); r.shuffle(all); size_t limit = 700;
	// which directory entries lead where
	std::map<const Node *, std::pair<const Node *, const Ent *>> via; for (auto *d : im->all(T_DIR)) for (auto &e : d->kids) via[e.node] = {d, &e};
	if (all.size() > limit) all.resize(limit);
	for (auto *n : all) {
		string path = "/" + n->path; note(path); evaluated(); distinct(mix64(im->bytes.size() * 31 + n->inum) ^ n->type); struct stat a, b, c; memset(&a, 0x11, sizeof a); memset(&b, 0x22, sizeof b); memset(&c, 0x33, sizeof c);
		VF_CHECK(squash_lstat(o.fs, path.c_str(), &a) == 0, "lstat-failed", "squash_lstat(%s) failed with %s", show(path).c_str(), errname(errno).c_str());
		string w = check_stat(*im, n, a); if (!w.empty()) violation("lstat", fmt("squash_lstat(%s): %s", show(path).c_str(), w.c_str()));
		if (n->type != T_LNK) {
			VF_CHECK(squash_stat(o.fs, path.c_str(), &b) == 0, "stat-failed", "squash_stat(%s) failed with %s", show(path).c_str(), errname(errno).c_str()); if (!same_stat(a, b)) violation("stat-lstat", fmt("squash_stat and squash_lstat of %s disagree", show(path).c_str()));
			int fd = squash_open(o.fs, path.c_str()); VF_CHECK(fd >= 0, "open-failed", "squash_open(%s) failed with %s", show(path).c_str(), errname(errno).c_str());
			VF_CHECK(squash_fstat(fd, &c) == 0, "fstat-failed", "squash_fstat of %s failed", show(path).c_str()); if (!same_stat(a, c)) violation("fstat-lstat", fmt("squash_fstat and squash_lstat of %s disagree", show(path).c_str()));
			if (r.chance(20) && n->type == T_REG) { char buf[64]; squash_read(fd, buf, sizeof buf); memset(&c, 0x44, sizeof c); squash_fstat(fd, &c); if (!same_stat(a, c)) violation("fstat-later", fmt("squash_fstat of %s changed after a read", show(path).c_str())); }
			if (n->type == T_REG) { off_t e = squash_lseek(fd, 0, SQUASH_SEEK_END); if (e != a.st_size) violation("size-seek", fmt("the end of %s is at %lld, its size is %lld", show(path).c_str(), (long long)e, (long long)a.st_size)); }
			squash_close(fd);
		} else {
			int fd = squash_open_inner(o.fs, path.c_str(), 0); VF_CHECK(fd >= 0, "open-failed", "squash_open_inner(%s) without following failed with %s", show(path).c_str(), errname(errno).c_str()); squash_fstat(fd, &c); if (!same_stat(a, c)) violation("fstat-lstat", fmt("squash_fstat and squash_lstat of the link %s disagree", show(path).c_str())); squash_close(fd);
			Query q; q.kind = Q_READLINK; q.path = path; q.arg = 4096; ask(o.fs, *im, q); Query s; s.kind = Q_STAT; s.path = path; ask(o.fs, *im, s);
		}
		if (n->isdir()) { SQUASH_DIR *d = squash_opendir(o.fs, path.c_str()); VF_CHECK(d, "opendir-failed", "squash_opendir(%s) failed", show(path).c_str()); VF_CHECK(squash_fstat(squash_dirfd(d), &c) == 0, "fstat-failed", "squash_fstat of the stream's descriptor failed"); if (!same_stat(a, c)) violation("fstat-lstat", fmt("squash_fstat of a stream of %s and squash_lstat disagree", show(path).c_str())); squash_closedir(d); count("stream descriptors queried"); }
		// the inode, by reference, by number, and its owners
		sqfs_inode i; Asked x; get_inode(o.fs, *im, n, i, tol, x); sqfs_id_t id = 0;
		VF_CHECK(sqfs_id_get(o.fs, i.base.uid, &id) == SQFS_OK && id == im->ids[n->uid], "owner", "the owner of %s resolved to %u, packed %u", show(path).c_str(), id, im->ids[n->uid]);
		VF_CHECK(sqfs_id_get(o.fs, i.base.guid, &id) == SQFS_OK && id == im->ids[n->gid], "group", "the group of %s resolved to %u, packed %u", show(path).c_str(), id, im->ids[n->gid]);
		Query q; q.kind = Q_EXPORT; q.arg = n->inum; ask(o.fs, *im, q); count(p.export_table ? "objects found by number" : "lookups by number refused");
		if (p.export_table) { sqfs_inode_id ref; sqfs_inode k; if (!sqfs_export_inode(o.fs, n->inum, &ref) && !sqfs_inode_get(o.fs, &k, ref)) { struct stat st; memset(&st, 0x77, sizeof st); sqfs_stat(o.fs, &k, &st); if (!same_stat(st, a)) violation("export-other", fmt("the object with the number of %s has other metadata", show(path).c_str())); } }
		count("objects compared"); if (n->ext) count("extended objects compared");
	}
	for (auto *d : im->all(T_DIR)) { if (im->all(T_DIR).size() > 60 && !r.chance(10)) continue; Query q; q.kind = r.chance(50) ? Q_LIST : Q_SCAN; q.seed = r.next() * 20; q.path = "/" + d->path; ask(o.fs, *im, q); count("directories listed"); evaluated(); }
	for (int i = 0; i < 100; ++i) { Query q = random_query(r, *im, 1u << Q_ID | 1u << Q_EXPORT); note(q.describe()); ask(o.fs, *im, q); evaluated(); count("ids and numbers, also out of range"); distinct(q.arg * 5 + q.kind); }
	vector<Node *> files = im->all(T_REG); // by number, then its bytes
	if (p.export_table) for (int i = 0; i < 10 && !files.empty(); ++i) { Node *f = r.pick(files); sqfs_inode_id ref; sqfs_inode k; if (sqfs_export_inode(o.fs, f->inum, &ref) || sqfs_inode_get(o.fs, &k, ref)) violation("export", "sqfs_export_inode failed"); u8 buf[300]; sqfs_off_t sz = sizeof buf; if (sqfs_read_range(o.fs, &k, 0, &sz, buf)) violation("export-read", "reading a file found by number failed"); string w = compare(*im->contents[f->content], 0, buf, (size_t)sz); if (!w.empty()) violation("export-read", "a file found by number: " + w); }
}
