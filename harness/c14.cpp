// C14: damaged blocks
#include "session.h"
void prop_init() { start_library(); }
void prop_done() {}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.md_stored_pct = r.chance(70) ? 0 : 20; p.data_stored_pct = r.chance(70) ? 0 : 20; p.files = 5 + (int)r.below(40); p.max_file = 60000; if (r.chance(50)) p.bs_log = 12 + (int)r.below(3); if (index % 8 == 6) random_gap(r, p); if (r.chance(30)) p.ids = 200 + (int)r.below(6000); auto im = random_image(r, p);
	if (index % 3 != 0) { int nb = 1 + (int)r.below(3); for (int i = 0; i < nb; ++i) { Node *d = im->add(im->root, free_name(im->root, fmt("big%d", i)), T_DIR); random_meta(r, *im, d); int n = 100 + (int)r.below(900), lp = r.chance(50) ? 70 : 5; for (int k = 0; k < n; ++k) { Node *f = im->add(d, r.chance(50) ? free_name(d, fmt("e%04d", k)) : random_name(r, d, lp), T_DIR + (int)r.below(7)); random_meta(r, *im, f); if (f->type == T_REG) { Content *c = im->content(f, r.below(r.chance(80) ? 60 : 9000), Content::TEXT, r.next()); c->frag = r.chance(60); } if (f->type == T_LNK) f->target = string(1 + r.below(60), 'k'); } } }
	Node *lf = nullptr; if (index % 4 == 1) { Node *f = lf = im->add(im->root, free_name(im->root, "long"), T_REG); random_meta(r, *im, f); Content *c = im->content(f, (2100 + r.below(r.chance(50) ? 4000 : 12000)) * (1ull << p.bs_log) + r.below(1 << p.bs_log), Content::SPARSE, r.next()); c->sparse_every = 30; c->frag = r.chance(50); }
	Node *deep = nullptr; if (index % 6 == 3) { deep = im->add(im->root, free_name(im->root, "deep index"), T_DIR); random_meta(r, *im, deep); deep->indexed = true; int n = 1000 + (int)r.below(800); for (int k = 0; k < n; ++k) { Node *f = im->add(deep, fmt("%04d", k) + string(200 + r.below(50), (char)('a' + k % 20)), T_FIFO); random_meta(r, *im, f); } }
	if (index % 5 == 2) add_straddlers(r, *im, 80);
	if (index % 4 == 2 || index % 4 == 3) { int n = 20 + (int)r.below(60); for (int i = 0; i < n; ++i) { Node *l = im->add(im->root, free_name(im->root, fmt("tl%d", i)), T_LNK); random_meta(r, *im, l); l->target = r.chance(50) ? string(200 + r.below(1700), 't') : fmt("%s/f", string(200 + r.below(1700), '.').c_str()); } count("images with long link targets"); } // that reach into another block
	im->build(r); vector<vector<u8>> sound{im->bytes}; static const int pcts[] = {1, 5, 15, 40}; unsigned whats = ~0u; switch (r.below(5)) { case 0: whats = 1u << Blk::DATA | 1u << Blk::FRAG; break; case 1: whats = 1u << Blk::DIR | 1u << Blk::INODE; break; case 2: whats = 1u << Blk::FRAGTAB | 1u << Blk::EXPORT | 1u << Blk::ID | 1u << Blk::FRAG; break; default: break; }
	vector<char> bad = damage(r, *im, pcts[r.below(4)], whats); if (std::count(bad.begin(), bad.end(), 1) == 0) bad = damage(r, *im, 60, whats);
	if (deep && deep->in1 < deep->ix1) { // an index of which only a later part is damaged
		vector<char> was = bad; bad = damage(r, *im, 100, 1u << Blk::INODE); int keep = deep->in1 + 1 + (int)r.below(deep->ix1 - deep->in1); for (size_t b = 0; b < bad.size(); ++b) if ((bad[b] || was[b]) && (int)b != keep) { const Blk &k = im->blks[b]; std::copy(sound[0].begin() + k.pos, sound[0].begin() + k.pos + k.size, im->bytes.begin() + k.pos); bad[b] = 0; } if (bad[keep]) count("indexes damaged in a later part"); }
	if (lf && lf->in1 < lf->ix1 && r.chance(60)) { // a block list of which only one part, not the first, is damaged
		vector<char> was = bad; bad = damage(r, *im, 100, 1u << Blk::INODE); int keep = lf->in1 + 1 + (int)r.below(lf->ix1 - lf->in1); for (size_t b = 0; b < bad.size(); ++b) if ((bad[b] || was[b]) && (int)b != keep) { const Blk &k = im->blks[b]; std::copy(sound[0].begin() + k.pos, sound[0].begin() + k.pos + k.size, im->bytes.begin() + k.pos); bad[b] = 0; } if (bad[keep]) count("block lists damaged in a later part"); }
	if (r.chance(60)) for (int b = im->root->in0; b <= im->root->in1; ++b) if (bad[b]) { const Blk &k = im->blks[b]; std::copy(sound[0].begin() + k.pos, sound[0].begin() + k.pos + k.size, im->bytes.begin() + k.pos); bad[b] = 0; } // or else nothing at all can be found
	size_t hurt = std::count(bad.begin(), bad.end(), 1); note(im->prof.describe()); if (index < 3) sample(fmt("%zu of %zu blocks damaged", hurt, im->blks.size())); count("damaged blocks", hurt); if (!hurt) return;
	Tol tol; tol.bad = &bad; vector<std::pair<Query, bool>> asked; Ledger first; u64 failed = 0, right = 0; u64 seed = r.next(); u64 lives[4] = {0, 0, 0, 0};
	for (int life = 0; life < 3; ++life) {
		Rng q(seed); Opened o(*im, q); { Session s(o.fs, *im, tol, q.next()); vector<Query> mine;
			for (int i = 0; i < 200; ++i) {
				if (q.chance(50)) { Query x = random_query(q, *im); note(x.describe()); Asked a = ask(o.fs, *im, x, tol); evaluated(); a.failed ? ++failed : ++right; if (a.failed && mine.size() < 80) mine.push_back(x); distinct(fnvs(x.path, x.kind) ^ mix64(x.off * 3 + x.len + x.arg * 7) ^ seed); }
				else if (!mine.empty() && q.chance(50)) { Query x = q.pick(mine); note("again: " + x.describe()); Asked a = ask(o.fs, *im, x, tol); evaluated(); if (!a.failed) violation("revived", "what failed before because of a damaged block succeeded when tried again: " + x.describe()); ++failed; count("failed questions asked again"); }
				else { s.op(); evaluated(); s.last.failed ? ++failed : ++right; }
				if (i % 50 == 49) { s.check_held(); count("held descriptors and streams judged"); }
			}
			if (deep) for (int i = 0; i < 150; ++i) { Query x; x.kind = i % 3 ? Q_LSTAT : Q_LOOKUP; x.node = i % 3 ? im->root : deep; const string &nm = q.pick(deep->kids).name; x.path = (i % 3 ? "/" + deep->path + "/" : string()) + (q.chance(80) ? nm : nm.substr(0, 1 + q.below(nm.size()))); x.seed = q.next(); note(x.describe()); Asked a = ask(o.fs, *im, x, tol); evaluated(); a.failed ? ++failed : ++right; }
			if (lf) { u64 size = im->contents[lf->content]->size; int n = 10 + (int)q.below(40); for (int i = 0; i < n; ++i) { Query x; x.kind = i % 2 ? Q_OPENREAD : Q_READINODE; x.node = lf; x.path = "/" + lf->path; x.off = q.below(size); x.len = 1 + q.below(r.chance(80) ? 300 : 40000); x.arg = x.len; x.seed = q.next(); note(x.describe()); Asked a = ask(o.fs, *im, x, tol); evaluated(); a.failed ? ++failed : ++right; } }
			// every file and directory, once more, after all those failures
			if (life == 0) { vector<Node *> all = im->all(); r.shuffle(all); if (all.size() > 250) all.resize(250); for (auto *n : all) { Query x; x.path = "/" + n->path; x.node = n; x.seed = r.next() * 20; x.kind = n->type == T_REG ? (r.chance(50) ? Q_OPENREAD : Q_READINODE) : n->isdir() ? (r.chance(50) ? Q_LIST : Q_SCAN) : Q_LSTAT; x.off = 0; x.len = n->type == T_REG ? std::min<u64>(im->contents[n->content]->size, 200000) : 0; x.arg = x.len + 1; note(x.describe()); Asked a = ask(o.fs, *im, x, tol); evaluated(); a.failed ? ++failed : ++right; } for (int i = 0; i < 60; ++i) { Query x = random_query(r, *im, 1u << Q_ID | 1u << Q_EXPORT); ask(o.fs, *im, x, tol); evaluated(); } }
			s.close_all(); }
		o.close(); lives[life] = ip.live_blocks(); Ledger now; if (life == 0) first = now; else { string w = now.against(first); if (!w.empty()) violation("leak", "after the failures: " + w); }
	}
	count("operations that failed", failed); count("operations that gave the right answer", right);
}
