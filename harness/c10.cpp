// C10: closed histories release everything
#include "session.h"
void prop_init() { start_library(); }
void prop_done() {}
namespace {
struct Plan { vector<Node *> longs; Image *im; const vector<char> *bad; u64 seed; int ops; bool extract; Image *second; vector<u8> broken; };
u64 fails, total, extracted; u64 hist;
u64 im_size(const Image &im, const Node *n) { return im.contents[n->content]->size; }
void history(const Plan &p) { // one closed history; the same calls each time
	Rng r(p.seed); Tol tol; tol.bad = p.bad; Mapped broken(p.broken, 0, false, 7);
	auto o = std::make_unique<Opened>(*p.im, r, false); std::unique_ptr<Opened> o2; if (p.second) o2 = std::make_unique<Opened>(*p.second, r, false);
	auto s = std::make_unique<Session>(o->fs, *p.im, tol, r.next()); std::unique_ptr<Session> s2; if (o2) s2 = std::make_unique<Session>(o2->fs, *p.second, Tol(), r.next());
	int style = (int)r.below(4); if (style == 1) s->kinds = 1u << Q_STAT | 1u << Q_OPENREAD | 1u << Q_LIST; if (style == 2) s->max_held = 60;
	for (int i = 0; i < p.ops; ++i) {
		if (s2 && r.chance(40)) s2->op(); else s->op();
		if (!p.longs.empty() && r.chance(12)) { Query q; q.node = r.pick(p.longs); q.path = "/" + q.node->path; q.kind = r.chance(50) ? Q_OPENREAD : Q_READINODE; u64 size = im_size(*p.im, q.node); q.off = size - r.below(r.chance(50) ? 9000 : size); q.len = 1 + r.below(300); q.arg = q.len; note(q.describe()); Asked a = ask(o->fs, *p.im, q, tol); ++total; if (a.failed) ++fails; }
		if (r.chance(3)) { note("opening a broken image"); sqfs *f = fs_alloc(); memset(f, 0xa5, sizeof *f); sqfs_err e = sqfs_open_image(f, broken.base, 0); if (!e) harness_error("the broken image was accepted"); fs_release(f); ++fails; }
		if (r.chance(3)) { int bad[] = {-1, 5000, 0, INT32_MAX}; int f = bad[r.below(4)]; char b[4]; squash_read(f, b, 4); squash_lseek(f, 0, 0); struct stat st; squash_fstat(f, &st); squash_close(f); }
		if (p.extract && r.chance(10)) { const Node *n = random_node(r, *p.im, r.chance(75) ? T_REG : 0); string path = r.chance(80) ? "/" + n->path : miss(r, *p.im); if (n->type != T_REG || im_size(*p.im, n) < 300000) { const char *f = squash_extract(o->fs, path.c_str(), r.chance(70) ? "so" : nullptr); note(fmt("extract %s -> %s", show(path).c_str(), f ? "a file" : "nothing")); ++extracted; } }
		if (p.extract && r.chance(2)) { squash_extract_clear_cache(); note("clear"); }
	}
	hist = s->hist; total += s->ops; fails += s->failures;
	// closed in one order or another
	if (r.chance(50)) { s.reset(); s2.reset(); if (p.extract && r.chance(50)) { squash_extract_clear_cache(); o->close(); } else { o->close(); squash_extract_clear_cache(); } }
	else { s2.reset(); if (o2) o2->close(); s.reset(); squash_extract_clear_cache(); o->close(); }
}
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.max_file = 20000; auto im = random_image(r, p);
	if (index % 5 == 0) { Node *d = im->add(im->root, free_name(im->root, "many"), T_DIR); int n = 300 + (int)r.below(1500); for (int i = 0; i < n; ++i) { Node *f = im->add(d, free_name(d, fmt("e%d", i)), T_FIFO); random_meta(r, *im, f); } }
	bool hurt = index % 3 == 1, lists = hurt && index % 2; vector<Node *> longs; // files with an index, their block lists damaged
	if (lists || index % 11 == 3) for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("long%d", i)), T_REG); random_meta(r, *im, f); Content *c = im->content(f, (2100 + r.below(9000)) * im->bs() + r.below(im->bs()), Content::SPARSE, r.next()); c->sparse_every = 300; c->frag = r.chance(50); longs.push_back(f); }
	im->build(r); vector<char> bad; if (hurt) bad = lists ? damage(r, *im, 5 + (int)r.below(50), 1u << Blk::INODE) : damage(r, *im, 5 + (int)r.below(30)); note(im->prof.describe());
	std::unique_ptr<Image> im2; if (r.chance(40)) { Profile q = random_profile(r); q.max_file = 5000; im2 = random_image(r, q); im2->build(r); }
	Plan pl; pl.longs = longs; pl.im = im.get(); pl.bad = hurt ? &bad : nullptr; pl.seed = r.next(); pl.ops = r.chance(80) ? 60 : 400; pl.extract = r.chance(60); pl.second = im2.get();
	if (hurt) { for (int b = im->root->in0; b <= im->root->in1; ++b) if (bad[b]) pl.ops = 30; }
	pl.broken = im->bytes; switch (r.below(3)) { case 0: pl.broken[0] ^= 1; break; case 1: pl.broken[28] = 3; break; default: pl.broken[20] = 4; }
	if (index < 3) sample(fmt("a history of %d calls%s%s, four times", pl.ops, hurt ? " on a damaged image" : "", pl.extract ? " with extractions" : ""));
	fails = total = extracted = 0; Ledger l[5];
	for (int i = 0; i < 4; ++i) { note(fmt("---- repetition %d", i)); history(pl); l[i + 1] = Ledger(); if (i >= 1) { string w = l[i + 1].against(l[2]); if (!w.empty()) violation("leak", fmt("after repetition %d of a closed history: %s", i + 1, w.c_str())); } evaluated(); count("closed histories compared"); }
	// what only grows in powers of two is seen when everything is released at last
	count("calls", total); count("failing calls", fails); count("extractions", extracted); distinct(mix64(hist) ^ pl.seed);
}
