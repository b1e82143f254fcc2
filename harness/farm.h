// A farm of symbolic links of all kinds
#pragma once
#include "prop.h"
static string rel(const Node *from_dir, const Node *to) {
	vector<const Node *> a, b; for (const Node *n = from_dir; n; n = n->parent) a.push_back(n); for (const Node *n = to; n; n = n->parent) b.push_back(n);
	while (!a.empty() && !b.empty() && a.back() == b.back()) { a.pop_back(); b.pop_back(); }
	string s; for (size_t i = 0; i < a.size(); ++i) s += "../"; const Node *top = b.empty() ? nullptr : b.back(); if (!top) { if (s.empty()) return "."; s.pop_back(); return s; }
	string base = top->parent ? top->parent->path : ""; s += base.empty() ? to->path : to->path.substr(base.size() + 1); return s;
}
static string target_to(Rng &r, const Image &im, const Node *d, const Node *to) {
	switch (r.below(8)) {
	case 0: return "/" + to->path; case 1: if (!im.prof.root_alias.empty()) return im.prof.root_alias + to->path; return "/" + to->path;
	case 2: if (!im.prof.root_alias2.empty()) return im.prof.root_alias2 + to->path; return rel(d, to);
	case 3: return "./" + rel(d, to); case 4: { string s = rel(d, to); return r.chance(50) ? ".//" + s : s; }
	case 5: return to->isdir() ? rel(d, to) + (r.chance(50) ? "/" : "/.") : rel(d, to);
	default: return rel(d, to);
	}
}
static Node *mk(Rng &r, Image &im, Node *d, const string &name) { Node *n = im.add(d, free_name(d, name), T_LNK); random_meta(r, im, n); n->target = "x"; return n; }
static void farm(Rng &r, Image &im) {
	// directories called like the mount prefixes, so that the prefixes occur within targets
	{ static const char *nm[] = {"mnt", "__enclose_io_memfs__"}; vector<Node *> ds = im.all(T_DIR); for (int c = 0; c < 2; ++c) if (r.chance(60)) { Node *d = r.pick(ds); if (d == im.root && r.chance(70)) d = r.pick(ds); if (d->kid(nm[c]) || d == im.root) continue; Node *m = im.add(d, nm[c], T_DIR); random_meta(r, im, m); for (int i = 0; i < 2; ++i) { Node *f = im.add(m, i ? "mnt" : free_name(m, "in"), i ? T_DIR : T_REG); random_meta(r, im, f); if (!i) im.content(f, 20 + r.below(50), Content::TEXT, r.next()); } for (int i = 0; i < 3; ++i) { Node *e = r.pick(ds); const Node *to = r.chance(30) ? m : m->kids[r.below(m->kids.size())].node; Node *l = im.add(e, free_name(e, fmt("in%d.%d", c, i)), T_LNK); random_meta(r, im, l); l->target = i == 0 ? "/" + to->path : i == 1 ? rel(e, to) : (im.prof.root_alias.empty() ? "/" : im.prof.root_alias) + to->path; } } }
	vector<Node *> dirs = im.all(T_DIR); auto at = [&]() { return r.pick(dirs); };
	vector<Node *> real = im.all();
	// chains
	static const int lens[] = {1, 2, 3, 5, 8, 16, 30, 31, 32, 32, 33, 34, 60};
	for (int c = 0; c < 4; ++c) { int n = lens[r.below(13)]; const Node *to = r.pick(real); bool one_dir = r.chance(40); Node *d = at();
		for (int i = 0; i < n; ++i) { if (!one_dir) d = at(); Node *l = mk(r, im, d, fmt("ch%d.%d", c, n - i)); l->target = target_to(r, im, d, to); to = l; } }
	// cycles
	for (int c = 0; c < 3; ++c) { int n = 1 + (int)r.below(c == 2 ? 40 : 4); vector<Node *> ring; for (int i = 0; i < n; ++i) ring.push_back(mk(r, im, at(), fmt("cy%d.%d", c, i)));
		for (int i = 0; i < n; ++i) { Node *to = ring[(i + 1) % n]; ring[i]->target = target_to(r, im, ring[i]->parent, to) + (r.chance(20) ? "/" : r.chance(20) ? "/x" : ""); } }
	{ Node *d = at(); Node *s = mk(r, im, d, "self"); string nm = s->path.substr(s->path.rfind('/') == string::npos ? 0 : s->path.rfind('/') + 1); static const char *t[] = {"%s", "./%s", "%s/x", "%s/%s", "%s/../%s"}; s->target = fmt(t[r.below(5)], nm.c_str(), nm.c_str()); }
	{ Node *s = mk(r, im, im.root, "again"); s->target = r.chance(50) ? "." : "/"; Node *u = mk(r, im, at(), "up"); u->target = ".."; }
	// links inside targets of links
	for (int c = 0; c < 6; ++c) { Node *d = at(); const Node *to = random_node(r, im, T_DIR); Node *a = mk(r, im, d, fmt("dl%d", c)); a->target = target_to(r, im, d, to);
		if (!to->kids.empty()) { Node *e = at(); Node *b = mk(r, im, e, fmt("via%d", c)); b->target = rel(e, a) + "/" + to->kids[r.below(to->kids.size())].name; Node *g = at(); Node *h = mk(r, im, g, fmt("twice%d", c)); h->target = rel(g, b) + (r.chance(30) ? "/.." : ""); } }
	// dangling and odd
	for (int c = 0; c < 4; ++c) { Node *d = at(); Node *l = mk(r, im, d, fmt("da%d", c)); const Node *to = r.pick(real); static const char *t[] = {"x", "/x", "/../x", "/x/../.."}; l->target = r.chance(50) ? rel(d, to) + t[r.below(4)] : target_to(r, im, d, to) + "q"; if (r.chance(20)) l->target = "/nowhere/at/all"; if (r.chance(10)) l->target = string(1 + r.below(600), 'n'); if (r.chance(10)) l->target = fmt("%s", (string("../") + "../../../../../../../../../../" + to->path).c_str()); }
	// close to the aliases
	{ static const char *t[] = {"/mn/x", "/mntx", "/mnt/", "/mnt//", "/mnt/mnt/", "/__enclose_io_memfs__/", "mnt/", "/mnt/../", "/MNT/"}; for (int c = 0; c < 3; ++c) { Node *d = at(); Node *l = mk(r, im, d, fmt("al%d", c)); const Node *to = r.pick(real); l->target = t[r.below(9)] + (r.chance(70) ? to->path : string()); } }
	// one prefix behind another: only the first one is taken away
	if (!im.prof.root_alias.empty() || !im.prof.root_alias2.empty()) { string a = im.prof.root_alias.empty() ? "/mnt/" : im.prof.root_alias, b = im.prof.root_alias2.empty() ? "/__enclose_io_memfs__/" : im.prof.root_alias2; for (int c = 0; c < 4; ++c) { Node *d = at(); Node *l = mk(r, im, d, fmt("two%d", c)); const Node *to = r.pick(real); string x = r.chance(50) ? a : b, y = r.chance(50) ? a : b; l->target = x + (r.chance(85) ? y.substr(1) : y) + (r.chance(80) ? to->path : string()); } }
	// targets of exact lengths, with noise
	for (int c = 0; c < 2; ++c) { Node *d = at(); const Node *to = r.pick(real); Node *l = mk(r, im, d, fmt("len%d", c)); static const int ls[] = {100, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 2000}; string s = rel(d, to); size_t want = ls[r.below(10)]; while (s.size() + 2 <= want) s = "./" + s; l->target = s; }
	for (auto &n : im.nodes) if (n->type == T_LNK && (n->target == "/mnt" || n->target == "/__enclose_io_memfs__")) n->target = "nowhere";
}
