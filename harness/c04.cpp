// C04: scans
#include "prop.h"
void prop_init() { start_library(); }
void prop_done() {}
struct Kept { struct SQUASH_DIRENT **list; int n; vector<string> names; vector<u64> inos; vector<int> types; };
static void check_kept(const Kept &k) {
	for (int i = 0; i < k.n; ++i) if (k.names[i] != k.list[i]->d_name || k.inos[i] != k.list[i]->d_ino || k.types[i] != k.list[i]->d_type) violation("list-changed", fmt("entry %d of a returned list, %s, has become %s", i, show(k.names[i]).c_str(), show(k.list[i]->d_name).c_str()));
}
static int cmp_ino(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return (*a)->d_ino < (*b)->d_ino ? -1 : (*a)->d_ino > (*b)->d_ino; }
static int odd(const struct SQUASH_DIRENT *d) { return d->d_ino & 1 ? 256 : 0; }
static int none(const struct SQUASH_DIRENT *) { return 0; }
static int recursive_calls; static sqfs *the_fs;
static int nosy(const struct SQUASH_DIRENT *d) { // a filter that uses the library itself
	string n = d->d_name; u64 ino = d->d_ino; struct stat st; squash_stat(the_fs, ("/" + n).c_str(), &st);
	struct SQUASH_DIRENT **l; if (++recursive_calls % 50 == 1) { int k = squash_scandir(the_fs, "/", &l, nullptr, nullptr); if (k >= 0) { for (int i = 0; i < k; ++i) vf_free(l[i]); vf_free(l); } }
	if (n != d->d_name || ino != d->d_ino) violation("filter-entry", "the entry given to the filter changed while the filter ran"); return 1; }
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = (int)r.below(20); p.max_file = 3000; auto im = random_image(r, p);
	static const int sizes[] = {0, 0, 1, 2, 10, 50, 300, 1023, 1024, 1025, 2048, 2500}; int nb = 1 + (int)r.below(3); vector<Node *> mine;
	for (int i = 0; i < nb; ++i) { Node *d = im->add(im->root, random_name(r, im->root, 0), T_DIR); random_meta(r, *im, d); mine.push_back(d); int n = sizes[r.below(index % 3 == 0 ? 12 : 7)];
		for (int k = 0; k < n; ++k) { Node *f = im->add(d, n > 100 && r.chance(60) ? free_name(d, fmt("e%llu", (unsigned long long)(mix64(k) % 1000000)) + (char)('a' + k % 26) + std::to_string(k)) : random_name(r, d, 5), T_REG + (int)r.below(6)); random_meta(r, *im, f); if (f->type == T_REG) im->content(f, 0, Content::TEXT, 1); if (f->type == T_LNK) f->target = "x"; } }
	bool vast = index % 80 == 7; if (vast) { Node *d = im->add(im->root, free_name(im->root, "vast"), T_DIR); random_meta(r, *im, d); int n = 65500 + (int)r.below(3000); Node *f = nullptr; for (int k = 0; k < n; ++k) { string nm = fmt("v%06d", k * 3); if (f && f->nlink < 1000) im->link(d, nm, f); else { f = im->add(d, nm, T_FIFO); random_meta(r, *im, f); } } mine.assign(1, d); count("directories of about 65536 entries"); }
	im->build(r); auto o = std::make_unique<Opened>(*im, r); note(im->prof.describe()); the_fs = o->fs; vector<Node *> dirs = im->all(T_DIR);
	Ledger before; vector<Kept> kept;
	for (int i = 0; i < (vast ? 7 : 60); ++i) {
		evaluated();
		if (r.chance(55)) { Query q; q.kind = Q_SCAN; const Node *d = r.chance(60) ? r.pick(mine) : r.pick(dirs); q.path = r.chance(80) ? spell(r, *im, d) : r.chance(50) ? miss(r, *im) : "/" + random_node(r, *im)->path; q.seed = r.next(); q.arg = 1; note(q.describe() + fmt(" (%zu entries)", d->kids.size())); ask(o->fs, *im, q); count("scans judged"); distinct(q.seed); continue; }
		// one whose list is kept
		const Node *d = r.chance(60) ? r.pick(mine) : r.pick(dirs); int fk = (int)r.below(4), ck = (int)r.below(2); struct SQUASH_DIRENT **l = nullptr;
		int n = squash_scandir(o->fs, ("/" + d->path).c_str(), &l, fk == 0 ? nullptr : fk == 1 ? odd : fk == 2 ? none : nosy, ck ? cmp_ino : nullptr);
		if (n < 0) violation("scandir-failed", fmt("squash_scandir of %s failed with %s", show(d->path).c_str(), errname(errno).c_str()));
		vector<const Ent *> want; for (auto &k : d->kids) if (fk == 0 || fk == 3 || (fk == 1 && (k.node->inum & 1))) want.push_back(&k);
		note(fmt("scan of %s (%zu entries) filter %d compare %d -> %d", show(d->path).c_str(), d->kids.size(), fk, ck, n));
		if (!l) violation("scandir-list", "squash_scandir returned no array");
		if ((size_t)n != want.size()) violation("scandir-count", fmt("squash_scandir of %s returned %d, %zu of %zu entries are accepted", show(d->path).c_str(), n, want.size(), d->kids.size()));
		if (ck) std::stable_sort(want.begin(), want.end(), [](const Ent *a, const Ent *b) { return a->node->inum < b->node->inum; });
		Kept k; k.list = l; k.n = n;
		for (int j = 0; j < n; ++j) { k.names.push_back(l[j]->d_name); k.inos.push_back(l[j]->d_ino); k.types.push_back(l[j]->d_type); }
		if (ck) { // several names may have one number
			vector<std::pair<u64, string>> a, b; for (auto *w : want) a.push_back({w->node->inum, w->name}); for (int j = 0; j < n; ++j) b.push_back({k.inos[j], k.names[j]});
			for (int j = 1; j < n; ++j) if (b[j].first < b[j - 1].first) violation("scandir-order", "squash_scandir is not in the order of the comparison");
			std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) violation("scandir-entries", fmt("squash_scandir of %s gave other entries than those accepted", show(d->path).c_str()));
		} else for (int j = 0; j < n; ++j) if (want[j]->name != k.names[j] || want[j]->node->inum != k.inos[j] || dtype(want[j]->node) != k.types[j]) violation("scandir-entry", fmt("squash_scandir of %s gave %s as entry %d, expected %s", show(d->path).c_str(), show(k.names[j]).c_str(), j, show(want[j]->name).c_str()));
		set<void *> ptrs(l, l + n); ptrs.insert(l); if (ptrs.size() != (size_t)n + 1) violation("scandir-shared", "entries of a returned list share memory");
		count("lists kept"); count("entries kept", n); if (kept.size() < 12) kept.push_back(k); else { for (int j = 0; j < n; ++j) vf_free(l[j]); vf_free(l); }
		if (r.chance(30)) { size_t x = r.below(kept.size()); check_kept(kept[x]); for (int j = 0; j < kept[x].n; ++j) { kept[x].list[j]->d_name[0] = '!'; vf_free(kept[x].list[j]); } vf_free(kept[x].list); kept.erase(kept.begin() + x); }
	}
	for (auto &k : kept) check_kept(k);
	bool first = r.chance(50); if (first) o.reset();
	for (auto &k : kept) { check_kept(k); for (int j = 0; j < k.n; ++j) vf_free(k.list[j]); vf_free(k.list); }
	if (index < 3) sample(fmt("scans of directories of %zu.. entries, %zu lists kept beyond later calls%s", mine[0]->kids.size(), kept.size(), first ? " and the image's destruction" : ""));
}
