// C08: traversal
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = (int)r.below(60); p.max_file = 500; p.dirs = (int)r.below(60); p.max_depth = 1 + (int)r.below(20); p.links = (int)r.below(10); if (p.max_depth > 8 && r.chance(80)) p.long_names_pct = 5;
	auto im = random_image(r, p);
	auto filler = [&](Node *d) { int n = (int)r.below(3); for (int k = 0; k < n; ++k) { Node *f = im->add(d, random_name(r, d, 5), T_DIR + (int)r.below(7)); random_meta(r, *im, f); if (f->type == T_REG) im->content(f, r.below(9), Content::TEXT, 1); if (f->type == T_LNK) f->target = "t"; } };
	int shape = (int)(index % 5);
	if (shape == 1) { Node *d = im->root; int n = 30 + (int)r.below(120), lp = r.chance(30) ? 60 : 0; for (int i = 0; i < n; ++i) { d = im->add(d, random_name(r, d, lp), T_DIR); random_meta(r, *im, d); if (r.chance(40)) filler(d); } } // deep
	if (shape == 2) { Node *d = im->add(im->root, free_name(im->root, "wide"), T_DIR); random_meta(r, *im, d); int n = 200 + (int)r.below(700); for (int i = 0; i < n; ++i) { Node *k = im->add(d, random_name(r, d, 20), r.chance(60) ? T_DIR : T_FIFO); random_meta(r, *im, k); if (k->isdir() && r.chance(20)) filler(k); } }
	if (shape == 3) { // a bushy tree, with empty directories at the ends
		vector<Node *> front{im->root}; int b = 2 + (int)r.below(3); for (int l = 0; l < 5; ++l) { vector<Node *> next; for (auto *d : front) for (int k = 0; k < b; ++k) { Node *c = im->add(d, random_name(r, d, 3), r.chance(85) ? T_DIR : T_SOCK); random_meta(r, *im, c); if (c->isdir()) next.push_back(c); } front = next; if (front.size() > 200) front.resize(200); } }
	if (index % 60 == 4) { // so deep, with names so long, that a path is longer than 65535 bytes
		Node *d = im->root; int n = 262 + (int)r.below(60); for (int i = 0; i < n; ++i) { string nm = random_name(r, d, 256 - (int)r.below(3)); while (nm.size() < 248) nm += (char)('a' + r.below(26)); d = im->add(d, nm, T_DIR); random_meta(r, *im, d); if (i > 250 && r.chance(40)) filler(d); } count("trees with paths longer than 65535 bytes"); }
	im->build(r); Opened o(*im, r); note(im->prof.describe()); vector<Node *> dirs = im->all(T_DIR); Tol tol;
	if (index < 3) sample(fmt("traversals of a tree with %u objects, shape %d", im->inodes, shape));
	std::sort(dirs.begin(), dirs.end(), [](Node *a, Node *b) { return a->path.size() < b->path.size(); });
	u64 budget = 60000;
	for (int round = 0; round < 14 && budget; ++round) {
		// some traversals at the same time, and other questions between
		int k = round == 0 ? 1 : 1 + (int)r.below(4); vector<std::unique_ptr<TravMon>> ms; vector<const Node *> from; u64 h = 1;
		for (int i = 0; i < k; ++i) { const Node *d = round == 0 ? im->root : r.chance(40) ? dirs[r.below(std::min<size_t>(dirs.size(), 4))] : r.chance(80) ? r.pick(dirs) : random_node(r, *im); u64 seed = r.next(); bool prune = r.chance(50) && round; note(fmt("traverse from %s%s", show("/" + d->path).c_str(), prune ? " with pruning" : ""));
			if (r.chance(50) || !d->isdir()) ms.emplace_back(new TravMon(o.fs, *im, d, tol, seed, prune)); else ms.emplace_back(new TravMon(o.fs, *im, d, tol, seed, prune)); from.push_back(d); h = mix64(h ^ seed); }
		vector<u64> stop; for (int i = 0; i < k; ++i) stop.push_back(r.chance(70) ? ~0ull : r.below(40));
		bool any = true;
		while (any && budget) { any = false; for (int i = 0; i < k; ++i) { if (ms[i]->done) continue; int burst = 1 + (int)r.below(8); while (burst-- && budget) { --budget; count("events judged"); if (ms[i]->events >= stop[i]) { ms[i]->close(); count("closed early"); break; } if (!ms[i]->step()) break; } if (!ms[i]->done) any = true; }
			if (r.chance(2)) { Query q = random_query(r, *im); ask(o.fs, *im, q); } }
		for (auto &m : ms) { evaluated(); count("prunes", m->prunes); if (m->depth > 20) count("traversals deeper than 20"); if (m->ends == 3) count("traversals finished"); if (m->failed && budget) { /* a non-directory */ count("refused"); } }
		distinct(h);
	}
}
