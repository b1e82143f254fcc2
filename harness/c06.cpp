// C06: symbolic links
#include "farm.h"
void prop_init() { start_library(); }
void prop_done() {}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = 3 + (int)r.below(8); p.max_file = 1000; p.dirs = 2 + (int)r.below(10); p.links = (int)r.below(6); p.specials = 2; p.max_depth = 1 + (int)r.below(7); p.long_names_pct = 3; if (r.chance(40)) { p.root_alias = "/mnt/"; } if (r.chance(30)) p.root_alias2 = "/__enclose_io_memfs__/";
	if (r.chance(25)) { static const char *as[][2] = {{"/mnt/", "/mnt/mnt/"}, {"/mnt/mnt/", "/mnt/"}, {"/", "/mnt/"}, {"/mnt/", "/"}, {"/a/b c/d/", "/mnt/"}, {"/mnt/", "/mnt/"}}; int k = (int)r.below(6); p.root_alias = as[k][0]; p.root_alias2 = as[k][1]; }
	auto im = random_image(r, p); farm(r, *im); im->build(r); Opened o(*im, r); note(im->prof.describe());
	vector<Node *> links = im->all(T_LNK); Tol t; t.errnos = true; if (index < 3) for (int i = 0; i < 1; ++i) { Node *l = r.pick(links); sample(fmt("link %s -> %s", show("/" + l->path).c_str(), show(l->target).c_str())); }
	u64 n = 0;
	auto run = [&]() {
		auto one = [&](Query q, const char *what) { note(q.describe()); Asked a = ask(o.fs, *im, q, t); evaluated(); count(what); if (a.failed) count("failed as expected"); distinct(fnvs(q.path, q.kind * 13 + q.arg) ^ mix64(im->bytes.size())); ++n; };
		static const QKind ks[] = {Q_STAT, Q_LSTAT, Q_OPENREAD, Q_READLINK, Q_LIST, Q_SCAN, Q_LOOKUP, Q_LOOKUP};
		for (auto *l : links) {
			for (int k = 0; k < 8; ++k) { if (k > 3 && !r.chance(50)) continue; Query q; q.kind = ks[k]; q.path = r.chance(75) ? "/" + l->path : spell(r, *im, l); q.node = im->root; q.seed = r.next(); q.off = 0; q.len = 50; q.arg = q.kind == Q_LOOKUP ? (k == 6 ? 1 + r.below(2) : 0) : q.kind == Q_READLINK ? 4096 : 50; q.preset = (int)r.below(3) * 33; one(q, "links asked about"); }
			{ Query q; q.kind = Q_READLINK; q.path = "/" + l->path; u64 s = strip_alias(*im, l->target).size(); static const int d[] = {-1, 0, 1, 2}; i64 a = (i64)(r.chance(50) ? s : l->target.size()) + d[r.below(4)]; q.arg = a < 0 ? 0 : a; one(q, "targets read into tight buffers"); }
			// through the link
			Outcomes oc = resolve(*im, "/" + l->path, true); const Node *d = nullptr; for (auto &x : oc) if (x.node && x.node->isdir()) d = x.node;
			for (int j = 0; j < 3; ++j) { Query q; q.kind = ks[r.below(6)]; q.node = im->root; q.seed = r.next(); q.len = 50; q.arg = q.kind == Q_READLINK ? 4096 : 50; q.path = "/" + l->path;
				if (d && !d->kids.empty()) { int steps = 1 + (int)r.below(4); const Node *at = d; for (int s = 0; s < steps && at && at->isdir() && !at->kids.empty(); ++s) { auto &e = at->kids[r.below(at->kids.size())]; q.path += "/" + e.name; at = e.node; if (at->type == T_LNK) { Outcomes x = resolve(*im, q.path, true); at = x.size() == 1 && x[0].node ? x[0].node : nullptr; } } }
				else q.path += r.chance(50) ? "/" : "/x";
				one(q, "paths through links"); }
			if (r.chance(40)) { Query q; q.kind = ks[r.below(6)]; q.node = im->root; q.seed = r.next(); q.len = 50; q.arg = q.kind == Q_READLINK ? 4096 : 50; static const char *tails[] = {"/..", "/.", "/../", "/./..", "/../.", "//", "/x/.."}; q.path = "/" + l->path + tails[r.below(7)]; if (r.chance(60)) q.path += "/" + r.pick(im->root->kids).name; one(q, "links followed by dots"); }
		}
	};
	if (index % 4 == 1) { with_stack(512 << 10, run); count("cases on a small stack"); } else run();
}
