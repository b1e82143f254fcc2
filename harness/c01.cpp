// C01: every byte range of every packed file
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
static std::unique_ptr<Image> special(Rng &r, int kind, vector<Node *> *bigs) {
	Profile p = random_profile(r); p.dirs = 2; p.files = 3; p.links = 1; p.specials = 1;
	if (kind == 1) p.bs_log = 12; // thousands of blocks
	if (kind == 2) p.bs_log = r.chance(50) ? 20 : 17; // beyond 4 GiB
	if (kind == 3 || kind == 4) { p.bs_log = 12; p.one_frag_per_file = true; }
	if (kind == 5) { p.bs_log = 12; p.data_stored_pct = 100; p.files = 0; p.gap = 1ull << 32; p.gap_where = 1; p.gap_twins = true; p.one_frag_per_file = true; }
	p.max_file = 50000;
	auto im = random_image(r, p);
	if (kind == 1) { int n = 2 + (int)r.below(11); for (int i = 0; i < n; ++i) {
		Node *before = i % 2 ? im->add(im->root, fmt("big%02d-a", i), T_LNK) : nullptr; if (before) { random_meta(r, *im, before); before->target = "x"; }
		Node *f = im->add(im->root, fmt("big%02d-f", i), T_REG); random_meta(r, *im, f); bigs->push_back(f); if (before) { before->aim = f; before->aim_end = r.chance(65); before->aim_at = r.chance(40) ? 0 : (int)r.range(-6, 6); }
		u64 blocks = 2000 + r.below(i < 3 ? 6000 : 2500); Content *c = im->content(f, blocks * 4096 + (r.chance(50) ? r.below(4096) : 0), r.chance(85) ? Content::SPARSE : Content::HOLES, r.next());
		c->sparse_every = 20 + (u32)r.below(80); c->frag = r.chance(50);
		if (!i && r.chance(35)) { u64 many = r.chance(15) ? (1 << 20) + r.below(99999) : 65536 + r.below(70000); c->size = many * 4096 + r.below(4096); c->sparse_every = (u32)(many / 300); count(many >> 20 ? "files of more than a million blocks" : "files of more than 65535 blocks"); } } }
	if (kind == 2) for (int i = 0; i < 2; ++i) { Node *f = im->add(im->root, fmt("huge%d", i), T_REG); random_meta(r, *im, f);
		Content *c = im->content(f, (4ull << 30) + r.below(2ull << 30), Content::SPARSE, r.next()); c->sparse_every = p.bs_log == 20 ? 500 : 800; c->frag = r.chance(50); }
	if (kind == 5) { bool frags = r.chance(50); u64 size = frags ? 1 + r.below(4000) : 4096 * (1 + r.below(3)); for (int i = 0, n = 2 + 2 * (int)r.below(3); i < n; ++i) { Node *f = im->add(im->root, fmt("twin%d", i), T_REG); random_meta(r, *im, f); Content *c = im->content(f, size, r.chance(50) ? Content::TEXT : Content::RANDOM, r.next()); c->frag = frags; } }
	if (kind == 4) *bigs = add_crowd(r, *im, 4200 + (int)r.below(8000));
	if (kind == 3) for (int i = 0; i < 700; ++i) { Node *f = im->add(im->root, fmt("f%d", i), T_REG); random_meta(r, *im, f); Content *c = im->content(f, 1 + r.below(60) + (r.chance(10) ? 4096 * r.below(3) : 0), Content::TEXT, r.next()); c->frag = true; }
	return im;
}
void prop_case(Rng &r, u64 index) {
	int kind = index % 8 == 3 ? 1 : index % 8 == 5 ? 2 : index % 8 == 7 ? 3 : index % 16 == 9 ? 4 : index % 16 == 2 ? 5 : 0;
	vector<Node *> bigs; auto im = kind ? special(r, kind, &bigs) : nullptr; if (!kind) { Profile p = random_profile(r); if (index % 8 == 1) { random_gap(r, p); count("images with blocks beyond 2 or 4 GiB"); } im = random_image(r, p); } im->build(r); Opened o(*im, r);
	note(im->prof.describe()); if (index < 3) sample(fmt("image of %zu bytes: %s", im->bytes.size(), im->prof.describe().c_str()));
	vector<Node *> files = im->all(T_REG); if (files.empty()) return;
	count(kind == 1 ? "images with files of thousands of blocks" : kind == 2 ? "images with files beyond 4 GiB" : kind == 3 ? "images with hundreds of fragments" : kind == 4 ? "images with thousands of fragments" : kind == 5 ? "images with blocks 4 GiB apart" : "random images");
	int n = kind ? 120 : 60 + (int)files.size() * 4;
	for (int i = 0; i < n; ++i) {
		Node *f = files[r.below(files.size())]; if (kind == 1 && r.chance(85)) f = bigs[r.below(r.chance(60) ? std::min<size_t>(bigs.size(), 3) : bigs.size())];
		if (kind == 2 && r.chance(80)) f = im->root->kid(r.chance(50) ? "huge0" : "huge1")->node;
		const Content &c = *im->contents[f->content]; Query q; q.kind = r.chance(50) ? Q_OPENREAD : Q_READINODE; q.path = "/" + f->path; q.node = f;
		u64 bs = c.bs, nb = c.blocks();
		switch (r.below(8)) {
		case 0: q.off = 0; q.len = std::min<u64>(c.size + 10, 2000000); break;
		case 1: q.off = r.below(c.size + 1); q.len = r.below(3 * bs); break;
		case 2: q.off = nb ? r.below(nb) * bs : 0; q.len = bs; break;                           // one block
		case 3: q.off = nb ? r.below(nb) * bs + r.range(-2, 2) : 0; q.len = r.below(6); break;  // around a boundary
		case 4: q.off = c.size - std::min<u64>(c.size, r.below(2 * bs + 2)); q.len = r.below(2 * bs + 100); break; // the end
		case 5: { q.off = 0; vector<u64> d; for (int t = 0; t < 20; ++t) if (!c.data_blk.empty()) { u64 b = r.below(c.data_blk.size()); if (c.data_blk[b] >= 0) d.push_back(b); } if (!d.empty()) q.off = r.pick(d) * bs + r.below(bs); q.len = 1 + r.below(2 * bs); break; } // where there is data
		case 6: q.off = r.below(c.size / bs + 1) * bs; q.len = bs * (1 + r.below(4)) + r.range(-1, 1); break;
		default: q.off = (4ull << 30) + r.range(-(i64)bs, (i64)bs); if (q.off > c.size) q.off = r.below(c.size + 1); q.len = r.below(2 * bs); break;
		}
		if ((i64)q.off < 0) q.off = 0;
		if (q.len > 4000000) q.len = 4000000;
		switch (r.below(5)) { case 0: q.arg = q.len; break; case 1: q.arg = bs; break; case 2: q.arg = 1 + r.below(bs); break; case 3: q.arg = 1 + r.below(2 * bs); break; default: q.arg = 1 + r.below(20); break; }
		q.arg = std::max<u64>(q.arg, q.len / 40 + 1);
		note(q.describe()); ask(o.fs, *im, q); evaluated(); count("ranges compared");
		u64 end = std::min<u64>(q.off + q.len, c.size); if (q.off < end) { count("bytes compared", end - q.off); distinct(mix64(im->bytes.size() + f->inum * 77) ^ q.off * 3 ^ q.len << 40); }
		if (c.frag && end > c.size / bs * bs) count("ranges reaching into a fragment");
		if (q.off < end && q.off / bs >= 2048) count("ranges beyond block 2048");
	}
}
