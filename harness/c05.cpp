// C05: path lookup
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
static void one(Opened &o, const Image &im, Query q, const char *what) { note(q.describe()); ask(o.fs, im, q, Tol()); evaluated(); count(what); distinct(fnvs(q.path, q.kind * 7 + 1) ^ mix64(q.node ? q.node->inum : 0)); }
static QKind path_kind(Rng &r) { static const QKind k[] = {Q_STAT, Q_STAT, Q_LSTAT, Q_LOOKUP, Q_OPENREAD, Q_READLINK, Q_LIST}; return k[r.below(7)]; }
static Query by_path(Rng &r, const Image &im, const string &p) {
	Query q; q.kind = path_kind(r); if (q.kind == Q_LIST && r.chance(70)) q.kind = Q_LSTAT;
	q.path = p; q.node = im.root; q.seed = r.next(); q.off = 0; q.len = 5; q.arg = q.kind == Q_READLINK ? 4096 : q.kind == Q_LOOKUP ? r.below(3) : 5; return q;
}
// names close to those of the directory
static string near_name(Rng &r, const Node *d) {
	string s = d->kids[r.below(d->kids.size())].name;
	switch (r.below(7)) {
	case 0: s += (char)(1 + r.below(255)); break;
	case 1: s.resize(s.size() - 1); break;
	case 2: s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
	case 3: s[s.size() - 1]++; break;
	case 4: s[s.size() - 1]--; break;
	case 5: s = string(1, (char)(1 + r.below(255))); break;
	default: s = s.substr(0, 1 + r.below(s.size())) + (char)255; break;
	}
	for (auto &c : s) if (!c || c == '/') c = '0';
	if (s.empty() || s == "." || s == "..") s = "zz"; if (s.size() > 255) s.resize(255); return s;
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = (int)r.below(25); p.max_file = 2000; p.dirs = 3 + (int)r.below(25); p.max_depth = 1 + (int)r.below(14); p.links = (int)r.below(12); p.long_names_pct = r.chance(30) ? 60 : 10;
	if (p.max_depth > 6) p.long_names_pct = r.chance(50) ? 30 : 5;
	auto im = random_image(r, p);
	static const int sizes[] = {1, 2, 5, 30, 200, 300, 800, 2000}; int nb = 1 + (int)r.below(2); vector<Node *> mine;
	for (int i = 0; i < nb; ++i) {
		Node *at = r.chance(50) ? im->root : (Node *)random_node(r, *im, T_DIR); Node *d = im->add(at, random_name(r, at, 5), T_DIR); random_meta(r, *im, d); d->indexed = r.chance(70); mine.push_back(d);
		int n = sizes[r.below(index % 3 == 0 ? 8 : 6)], lp = r.chance(40) ? 80 : 5, style = (int)r.below(4);
		for (int k = 0; k < n; ++k) {
			string name = style == 0 ? random_name(r, d, lp) : style == 1 ? free_name(d, fmt("%d", k)) : style == 2 ? free_name(d, string(1 + k % 250, (char)('a' + k / 250 % 26)) + (k % 3 ? "" : "b")) : free_name(d, fmt("%c%c%04d", (char)(1 + mix64(k) % 46), (char)(128 + mix64(k) % 127), k % 999));
			Node *f = im->add(d, name, r.chance(20) ? T_DIR : T_REG + (int)r.below(6)); random_meta(r, *im, f);
			if (f->type == T_REG) im->content(f, r.below(20), Content::TEXT, r.next()); if (f->type == T_LNK) f->target = r.chance(70) ? d->kids[r.below(d->kids.size())].name : "gone"; }
	}
	im->build(r); Opened o(*im, r); note(im->prof.describe());
	if (index < 3) sample(fmt("image with %u inodes; big directory %s of %zu entries, listing of %u bytes, index %d", im->inodes, show("/" + mine[0]->path).c_str(), mine[0]->kids.size(), mine[0]->dir_bytes, mine[0]->indexed));
	// every object, each way
	vector<Node *> all = im->all(); r.shuffle(all); size_t full = std::min<size_t>(all.size(), index % 3 == 0 ? 1200 : 400);
	for (size_t i = 0; i < full; ++i) { one(o, *im, by_path(r, *im, "/" + all[i]->path), "packed paths"); if (i % 2) one(o, *im, by_path(r, *im, spell(r, *im, all[i])), "packed paths spelled strangely"); }
	// near misses in the directories
	for (auto *d : im->all(T_DIR)) { if (d->kids.empty()) continue; int n = d->kids.size() > 100 ? 150 : 4;
		for (int i = 0; i < n; ++i) { string base = r.chance(80) ? "/" + d->path : spell(r, *im, d); if (base == "/") base = ""; one(o, *im, by_path(r, *im, base + "/" + near_name(r, d)), "near misses"); }
		// looked up from the directory itself
		for (int i = 0; i < n / 2; ++i) { Query q; q.kind = Q_LOOKUP; q.node = d; q.arg = r.below(2); q.path = r.chance(60) ? d->kids[r.below(d->kids.size())].name : near_name(r, d); one(o, *im, q, "lookups from a directory"); } }
	for (int i = 0; i < 80; ++i) one(o, *im, by_path(r, *im, miss(r, *im)), "random misses");
	// through non-directories, and with many dots
	for (int i = 0; i < 80; ++i) {
		const Node *n = random_node(r, *im); string s = "/" + n->path; static const char *tails[] = {"/x", "/..", "/../", "/.", "/./.", "//", "/../..", "/x/..", "/./../.", "/...", "/.. ", "/..x"};
		int k = 1 + (int)r.below(3); for (int j = 0; j < k; ++j) s += tails[r.below(12)]; if (r.chance(40)) s = s.substr(1); if (r.chance(30)) { size_t at = s.find('/', 1 + r.below(s.size())); if (at != string::npos) s.insert(at, r.chance(50) ? "/." : "/"); }
		one(o, *im, by_path(r, *im, s), "dotted paths");
	}
	{ // deep zigzags
		const Node *d = random_node(r, *im, T_DIR); for (int i = 0; i < 20; ++i) { string z; const Node *x = im->root; int steps = 5 + (int)r.below(60);
			for (int j = 0; j < steps; ++j) { vector<const Node *> subs; for (auto &e : x->kids) if (e.node->isdir()) subs.push_back(e.node); if (!subs.empty() && (x == im->root || r.chance(60))) { x = r.pick(subs); z += "/" + x->path.substr(x->path.rfind('/') == string::npos ? 0 : x->path.rfind('/') + 1); } else if (x != im->root) { z += "/.."; x = x->parent; } if (r.chance(20)) z += "/."; if (r.chance(10)) z += "/"; if (z.size() > 1500) break; }
			if (!x->kids.empty() && r.chance(70)) z += "/" + x->kids[r.below(x->kids.size())].name; if (z.empty()) z = "/"; one(o, *im, by_path(r, *im, z), "zigzags"); }
		(void)d; }
}
