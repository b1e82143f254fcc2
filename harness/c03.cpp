// C03: directory streams
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
struct Stream { SQUASH_DIR *d; const Node *n; size_t at = 0; map<long, size_t> told; struct SQUASH_DIRENT *last = nullptr; size_t last_i = 0; };
static void same_entry(Stream &s, const char *when) {
	const Ent &k = s.n->kids[s.last_i];
	if (k.name != s.last->d_name || s.last->d_ino != k.node->inum || s.last->d_type != dtype(k.node)) violation("entry", fmt("the entry read last from %s, %s, is now %s %s", show(s.n->path).c_str(), show(k.name).c_str(), show(s.last->d_name).c_str(), when));
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = (int)r.below(30); p.max_file = 3000; auto im = random_image(r, p);
	static const int sizes[] = {0, 1, 2, 9, 10, 11, 100, 300, 257, 1100, 3000}; int nb = 1 + (int)r.below(3);
	for (int i = 0; i < nb; ++i) { Node *d = im->add(im->root, random_name(r, im->root, 0), T_DIR); random_meta(r, *im, d); int n = sizes[r.below(index % 4 == 0 ? 11 : 9)]; int lp = r.chance(30) ? 90 : 5;
		for (int k = 0; k < n; ++k) { Node *f = im->add(d, n > 100 && r.chance(70) ? free_name(d, fmt("e%05d", k)) : random_name(r, d, lp), T_REG + (int)r.below(6)); random_meta(r, *im, f); if (f->type == T_REG) im->content(f, 0, Content::TEXT, 1); if (f->type == T_LNK) f->target = "x"; } }
	bool vast = index % 80 == 9; if (vast) { Node *d = im->add(im->root, free_name(im->root, "vast"), T_DIR); random_meta(r, *im, d); int n = 65500 + (int)r.below(3000); Node *f = nullptr; for (int k = 0; k < n; ++k) { string nm = fmt("v%06d", k * 3); if (f && f->nlink < 1000) im->link(d, nm, f); else { f = im->add(d, nm, T_FIFO); random_meta(r, *im, f); } } count("directories of about 65536 entries"); }
	im->build(r); Opened o(*im, r); note(im->prof.describe()); vector<Node *> dirs = im->all(T_DIR); vector<Stream> st; u64 history = 0;
	std::sort(dirs.begin(), dirs.end(), [](Node *a, Node *b) { return a->kids.size() > b->kids.size(); });
	if (index < 3) sample(fmt("streams over %zu directories, the largest with %zu entries", dirs.size(), dirs[0]->kids.size()));
	for (auto *d : dirs) { Query q; q.path = "/" + d->path; q.kind = Q_LIST; q.node = d; ask(o.fs, *im, q); evaluated(); count("directories listed whole"); count("entries judged", d->kids.size()); }
	int ops = 300;
	for (int i = 0; i < ops; ++i) {
		if (st.empty() || (r.chance(4) && st.size() < 10)) {
			const Node *n = r.chance(70) ? dirs[r.below(std::min<size_t>(4, dirs.size()))] : r.pick(dirs); SQUASH_DIR *d = squash_opendir(o.fs, ("/" + n->path).c_str());
			if (!d) violation("opendir", fmt("squash_opendir(%s) failed with %s", show(n->path).c_str(), errname(errno).c_str()));
			st.push_back(Stream()); st.back().d = d; st.back().n = n; note(fmt("opendir %s (%zu entries) -> stream %zu", show(n->path).c_str(), n->kids.size(), st.size() - 1)); continue; }
		size_t k = r.below(st.size()); Stream &s = st[k]; int what = (int)r.below(16); history = mix64(history ^ (k * 16 + what)); evaluated();
		if (what < 8) {
			int n = r.chance(20) ? (int)s.n->kids.size() + 2 : 1 + (int)r.below(r.chance(20) ? 200 : 6);
			for (int t = 0; t < n; ++t) {
				errno = 0; struct SQUASH_DIRENT *e = squash_readdir(s.d); int er = errno; count("entries judged");
				if (!e) { if (er) violation("readdir-failed", fmt("squash_readdir of %s at entry %zu failed with %s", show(s.n->path).c_str(), s.at, errname(er).c_str())); if (s.at != s.n->kids.size()) violation("readdir-short", fmt("squash_readdir of %s ended at entry %zu of %zu", show(s.n->path).c_str(), s.at, s.n->kids.size())); s.last = nullptr; note(fmt("readdir %zu: end", k)); if (t && r.chance(50)) break; continue; }
				if (s.at >= s.n->kids.size()) violation("readdir-extra", fmt("squash_readdir of %s gave %s after the last entry", show(s.n->path).c_str(), show(e->d_name).c_str()));
				const Ent &w = s.n->kids[s.at];
				if (w.name != e->d_name) violation("entry-name", fmt("squash_readdir of %s at position %zu gave %s, expected %s", show(s.n->path).c_str(), s.at, show(e->d_name).c_str(), show(w.name).c_str()));
				if (e->d_ino != w.node->inum || e->d_type != dtype(w.node)) violation("entry-meta", fmt("squash_readdir of %s gave %s with type %d and inode number %llu, packed %d and %u", show(s.n->path).c_str(), show(w.name).c_str(), e->d_type, (unsigned long long)e->d_ino, dtype(w.node), w.node->inum));
				s.last = e; s.last_i = s.at; ++s.at;
			}
			note(fmt("readdir %zu x%d -> at %zu", k, n, s.at));
		} else if (what < 11) {
			long l = squash_telldir(s.d); note(fmt("telldir %zu at %zu -> %ld", k, s.at, l));
			auto it = s.told.find(l); if (it != s.told.end() && it->second != s.at) violation("telldir", fmt("squash_telldir of %s reported %ld at entry %zu and at entry %zu", show(s.n->path).c_str(), l, it->second, s.at));
			s.told[l] = s.at; count("positions reported");
		} else if (what < 13) { if (s.told.empty()) continue; auto it = s.told.begin(); std::advance(it, r.below(s.told.size())); squash_seekdir(s.d, it->first); s.at = it->second; s.last = nullptr; note(fmt("seekdir %zu -> %zu", k, s.at)); count("seeks");
		} else if (what == 13) { squash_rewinddir(s.d); s.at = 0; s.last = nullptr; note(fmt("rewinddir %zu", k)); count("rewinds");
		} else if (what == 14) { if (st.size() > 1 && r.chance(40)) { if (squash_closedir(s.d)) violation("closedir", "squash_closedir failed"); st.erase(st.begin() + k); note(fmt("closedir %zu", k)); }
		} else { Query q = random_query(r, *im); note("other: " + q.describe()); ask(o.fs, *im, q); }
		for (auto &x : st) if (x.last) same_entry(x, "although only other streams were used");
	}
	distinct(history);
	for (auto &s : st) squash_closedir(s.d);
	for (int i = 0; i < 30; ++i) { Query q; q.kind = Q_ITERATE; q.node = i < 6 ? dirs[std::min<size_t>(i, dirs.size() - 1)] : r.pick(dirs); q.seed = r.next(); note(q.describe()); ask(o.fs, *im, q); evaluated(); count("low-level restarts judged", 3); distinct(q.seed); }
}
