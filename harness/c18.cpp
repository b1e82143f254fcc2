// C18: answers do not depend on history: other images, earlier images at the same addresses, caches
#include "farm.h"
#include "session.h"
void prop_init() { start_library(); }
void prop_done() {}
namespace {
// Everything an answer consists of, also what the model leaves open; no addresses, no descriptor numbers
string raw(sqfs *fs, const Query &q) {
	string s; auto put = [&](u64 v) { s.append((char *)&v, 8); }; struct stat st; memset(&st, 0, sizeof st); errno = 0;
	auto inode = [&](const Node *n, sqfs_inode &i) { memset(&i, 0, sizeof i); sqfs_err e = sqfs_inode_get(fs, &i, n->ref); put(e); return !e; };
	auto entry = [&](sqfs_dir_entry *e) { const char *n = sqfs_dentry_name(e); s += n ? n : ""; put(sqfs_dentry_inode(e)); put(sqfs_dentry_inode_num(e)); put(sqfs_dentry_type(e)); };
	switch (q.kind) {
	case Q_STAT: case Q_LSTAT: { int rc = q.kind == Q_STAT ? squash_stat(fs, q.path.c_str(), &st) : squash_lstat(fs, q.path.c_str(), &st); put(rc); if (rc) put(errno); else { put(st.st_mode); put(st.st_nlink); put(st.st_mtime); put(st.st_size); put(st.st_rdev); put(st.st_blocks); put(st.st_ino); put(st.st_uid); put(st.st_gid); put(st.st_atime); put(st.st_ctime); } break; }
	case Q_OPENREAD: { int fd = squash_open(fs, q.path.c_str()); put(fd >= 0); if (fd < 0) { put(errno); break; } put(squash_lseek(fd, (off_t)q.off, 0)); string b(q.len + 1, 0); errno = 0; ssize_t g = squash_read(fd, &b[0], (sqfs_off_t)q.len); put(g); if (g < 0) put(errno); else s.append(b, 0, g); squash_close(fd); break; }
	case Q_READLINK: { string b(q.arg + 1, 0); ssize_t g = squash_readlink(fs, q.path.c_str(), &b[0], q.arg); put(g); if (g < 0) put(errno); else s.append(b, 0, g); break; }
	case Q_LIST: { SQUASH_DIR *d = squash_opendir(fs, q.path.c_str()); put(!!d); if (!d) { put(errno); break; } errno = 0; while (struct SQUASH_DIRENT *e = squash_readdir(d)) { s += e->d_name; put(e->d_ino); put(e->d_type); put(squash_telldir(d)); } put(errno); squash_closedir(d); break; }
	case Q_SCAN: { struct SQUASH_DIRENT **l; int n = squash_scandir(fs, q.path.c_str(), &l, nullptr, nullptr); put(n); if (n < 0) { put(errno); break; } for (int i = 0; i < n; ++i) { s += l[i]->d_name; put(l[i]->d_ino); put(l[i]->d_type); vf_free(l[i]); } vf_free(l); break; }
	case Q_TRAVERSE: { sqfs_traverse t; sqfs_err e = sqfs_traverse_open(&t, fs, q.node->ref); put(e); if (e) break; int left = 400; while (left-- && sqfs_traverse_next(&t, &e)) { put(t.dir_end); s += t.path; if (!t.dir_end) entry(&t.entry); } put(e); sqfs_traverse_close(&t); break; }
	case Q_LOOKUP: { sqfs_inode i; if (!inode(q.node, i)) break; short f = 0; errno = 0; sqfs_err e = q.arg ? sqfs_lookup_path_inner(fs, &i, q.path.c_str(), &f, 1) : sqfs_lookup_path(fs, &i, q.path.c_str(), &f); put(!e && f); if (e || !f) break; put(i.base.mode); put(i.base.inode_number); put(i.base.mtime); put(i.base.uid); put(i.base.guid); put(i.nlink); break; }
	case Q_EXPORT: { sqfs_inode_id id = 0; sqfs_err e = sqfs_export_inode(fs, (u32)q.arg, &id); put(e); if (!e) put(id); break; }
	case Q_ID: { sqfs_id_t id = 0; sqfs_err e = sqfs_id_get(fs, (u16)q.arg, &id); put(e); if (!e) put(id); break; }
	case Q_READINODE: { sqfs_inode i; if (!inode(q.node, i)) break; string b(q.len + 1, 0); sqfs_off_t n = (sqfs_off_t)q.len; sqfs_err e = sqfs_read_range(fs, &i, (sqfs_off_t)q.off, &n, &b[0]); put(e); if (!e) { put(n); s.append(b, 0, n); } break; }
	case Q_ITERATE: { sqfs_inode i; if (!inode(q.node, i)) break; sqfs_dir d; sqfs_err e = sqfs_dir_open(fs, &i, &d, 0); put(e); if (e) break; sqfs_name nm; sqfs_dir_entry en; sqfs_dentry_init(&en, nm); while (sqfs_dir_next(fs, &d, &en, &e)) { entry(&en); put(sqfs_dentry_next_offset(&en)); } put(e); break; }
	default: break;
	}
	return s;
}
struct Plan { Profile p; u64 tree, build; };
std::unique_ptr<Image> make(const Plan &pl, int variant, bool same_places) {
	Rng r(pl.tree); auto im = random_image(r, pl.p); farm(r, *im);
	int big = (int)r.below(3); for (int i = 0; i < big; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("big%d", i)), T_REG); random_meta(r, *im, f); u64 blocks = 300 + r.below(6000); Content *c = im->content(f, blocks * im->bs() + r.below(5000), Content::SPARSE, r.next()); c->sparse_every = (u32)std::max<u64>(30, blocks / (300000 / im->bs() + 1)); }
	if (r.chance(35)) { int n = 2 + (int)r.below(3); for (int i = 0; i < n; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("void%d", i)), T_REG); random_meta(r, *im, f); u64 blocks = 2049 + r.below(6000); Content *c = im->content(f, blocks * im->bs() + r.below(5000), i == 0 || r.chance(40) ? Content::HOLES : Content::SPARSE, r.next()); c->sparse_every = (u32)std::max<u64>(100, blocks * im->bs() / 2000000); c->frag = r.chance(60); } } // with an index, some of nothing but holes: these begin where the next file does
	for (auto &c : im->contents) { if (same_places && c->mode != Content::SPARSE && c->size < 1000000) c->mode = Content::RANDOM; if (variant) { if (c->mode == Content::SPARSE && same_places) { /* holes in the same places */ } else c->seed ^= (u64)variant * 0x1234567; } }
	Rng v(pl.tree ^ mix64(variant));
	if (variant) for (auto &n : im->nodes) { if (v.chance(70)) n->mtime ^= (u32)v.next(); if (v.chance(70)) n->perm ^= v.below(512); if (n->type == T_LNK && v.chance(30)) { vector<Node *> all = im->all(); string t = "/" + all[v.below(all.size())]->path; if (!same_places || t.size() == n->target.size()) n->target = t; } if (n->type == T_CHR || n->type == T_BLK) n->rdev ^= v.below(200); }
	Rng b(same_places ? pl.build : pl.build + variant); im->build(b); return im;
}
struct Slot { std::unique_ptr<Mapped> mem; sqfs fs_mem; sqfs *fs = nullptr; const Image *im = nullptr; vector<char> *bad = nullptr; std::unique_ptr<Session> s; void *at = nullptr; u64 opened = 0; };
}
void prop_case(Rng &r, u64 index) {
	Plan pl; pl.p = random_profile(r); pl.p.max_file = 20000; pl.p.dirs = 1 + (int)r.below(8); pl.p.files = 5 + (int)r.below(15); pl.p.links = (int)r.below(6); if (r.chance(30)) pl.p.root_alias = "/mnt/"; bool same = index % 2 == 0; if (same) { pl.p.md_stored_pct = r.chance(70) ? 100 : pl.p.md_stored_pct; pl.p.data_stored_pct = 100; } pl.tree = r.next(); pl.build = r.next();
	vector<std::unique_ptr<Image>> ims; vector<vector<char>> bads(6); int n = 2 + (int)r.below(3); for (int i = 0; i < n; ++i) ims.push_back(make(pl, i, same));
	if (r.chance(50)) { Profile q = random_profile(r); q.max_file = 20000; auto im = random_image(r, q); im->build(r); ims.push_back(std::move(im)); }
	int hurt = r.chance(30) ? (int)r.below(ims.size()) : -1; if (hurt >= 0) bads[hurt] = damage(r, *ims[hurt], 15);
	size_t eq = 0; for (size_t i = 1; i < ims.size(); ++i) if (ims[i]->bytes.size() == ims[0]->bytes.size()) ++eq; count("images of the same size as another", eq); note(pl.p.describe());
	auto tol_of = [&](const Image *im) { Tol t; for (size_t i = 0; i < ims.size(); ++i) if (ims[i].get() == im && !bads[i].empty()) t.bad = &bads[i]; return t; };
	// questions and the answers of images just opened
	auto fresh = [&](size_t i, const Query &q) { Mapped m(ims[i]->bytes, 0, false, 3); sqfs f; memset(&f, 0xa5, sizeof f); if (sqfs_open_image(&f, m.base, 0)) violation("open-image", "a valid image is refused"); f.root_alias = ims[i]->prof.root_alias.empty() ? nullptr : ims[i]->prof.root_alias.c_str(); f.root_alias2 = ims[i]->prof.root_alias2.empty() ? nullptr : ims[i]->prof.root_alias2.c_str(); string s = raw(&f, q); sqfs_destroy(&f); return s; };
	struct Ask { Query q; string fresh; }; vector<vector<Ask>> asks(ims.size());
	for (size_t i = 0; i < ims.size(); ++i) for (int k = 0; k < 40; ++k) { Ask a; if (i && i < (size_t)n && k < 25) { a.q = asks[0][k].q; /* the same question, about the twin's node of the same path */ if (a.q.node) { const Node *o = a.q.node; a.q.node = nullptr; for (size_t x = 0; x < ims[0]->nodes.size(); ++x) if (ims[0]->nodes[x].get() == o && x < ims[i]->nodes.size()) a.q.node = ims[i]->nodes[x].get(); if (!a.q.node) a.q = random_query(r, *ims[i]); } } else a.q = random_query(r, *ims[i]); a.fresh = fresh(i, a.q); asks[i].push_back(a); }
	for (size_t i = 0; i < ims.size(); ++i) { vector<Node *> vs; for (auto &e : ims[i]->root->kids) if (e.node->type == T_REG && e.name.compare(0, 4, "void") == 0) vs.push_back(e.node); if (vs.size() < 2) continue; for (int k = 0; k < 16; ++k) { const Content &c = *ims[i]->contents[r.pick(vs)->content]; vector<u64> d; for (size_t b = 2000; b < c.data_blk.size(); ++b) if (c.data_blk[b] >= 0) d.push_back(b); u64 blk = d.empty() ? 2000 + r.below(c.blocks() - 2000) : r.pick(d); for (auto *f : vs) { if (r.chance(30)) continue; Ask a; a.q.kind = r.chance(50) ? Q_OPENREAD : Q_READINODE; a.q.node = f; a.q.path = "/" + f->path; a.q.off = blk * c.bs + r.below(c.bs); a.q.len = 1 + r.below(200); a.q.arg = a.q.len; a.fresh = fresh(i, a.q); asks[i].push_back(a); count("questions about files of holes"); } } }
	if (index < 3) sample(fmt("%zu images, %s, with %zu questions each, opened and destroyed at %d places", ims.size(), same ? "equal in layout" : "equal in paths", asks[0].size(), 3));
	// places: an image's address and its object's address, used again and again
	static Slot slots[3]; size_t biggest = 0; for (auto &i : ims) biggest = std::max(biggest, i->bytes.size());
	auto open = [&](Slot &s) { size_t k = r.below(ims.size()); s.im = ims[k].get(); s.mem.reset(new Mapped(s.im->bytes, 0, false, r.next(), s.at)); if (s.at && s.mem->map == s.at) count("images opened at the address of an earlier one"); s.at = s.mem->map; s.fs = &s.fs_mem; if (r.chance(50)) memset(s.fs, 0xa5, sizeof *s.fs); sqfs_err e = sqfs_open_image(s.fs, s.mem->base, 0); if (e) violation("open-image", "a valid image is refused"); s.fs->root_alias = s.im->prof.root_alias.empty() ? nullptr : s.im->prof.root_alias.c_str(); s.fs->root_alias2 = s.im->prof.root_alias2.empty() ? nullptr : s.im->prof.root_alias2.c_str(); s.s.reset(new Session(s.fs, *s.im, tol_of(s.im), r.next())); note(fmt("place %zu: image %zu opened", (size_t)(&s - slots), k)); ++s.opened; };
	auto shut = [&](Slot &s) { if (!s.fs) return; s.s.reset(); note(fmt("place %zu: destroyed", (size_t)(&s - slots))); sqfs_destroy(s.fs); s.fs = nullptr; s.mem.reset(); };
	u64 h = 0; int steps = opt.thorough ? 500 : 300; int reopen = r.chance(50) ? 12 : 3;
	for (int i = 0; i < steps; ++i) {
		Slot &s = slots[r.below(3)]; if (!s.fs) { open(s); continue; }
		if (r.chance(reopen)) { shut(s); for (auto &t : slots) if (t.fs && &t != &s && r.chance(60)) { note("after the destruction of another image"); t.s->check_held(); count("images judged after the destruction of another"); } if (r.chance(80)) open(s); continue; }
		if (r.chance(35)) { size_t k = 0; while (ims[k].get() != s.im) ++k; Ask &a = r.pick(asks[k]); note(fmt("place %zu: %s again", (size_t)(&s - slots), a.q.describe().c_str())); string now = raw(s.fs, a.q); evaluated(); count("answers compared with a fresh image's"); h = mix64(h ^ fnvs(now) ^ k); if (now != a.fresh) violation("history", fmt("%s is answered differently by an image just opened: %s against %s", a.q.describe().c_str(), show(now).c_str(), show(a.fresh).c_str())); distinct(h); continue; }
		s.s->op(); evaluated(); count("answers judged by the model");
		if (r.chance(4)) { const Node *f = random_node(r, *s.im, T_REG); if (f && s.im->contents[f->content]->size < 60000) { Tol t = tol_of(s.im); const char *g = squash_extract(s.fs, ("/" + f->path).c_str(), "so"); if (g) { FILE *fp = fopen(g, "rb"); vector<u8> b(s.im->contents[f->content]->size + 1); size_t k = fp ? fread(b.data(), 1, b.size(), fp) : 0; if (fp) fclose(fp); if (k != b.size() - 1) violation("extract", "the copy has another size"); string w = compare(*s.im->contents[f->content], 0, b.data(), k); if (!w.empty()) violation("extract", "the copy: " + w); count("extractions"); } else if (!read_may_fail(*s.im, f, 0, ~0ull >> 1, t) && !t.bad) violation("extract", "extraction failed"); if (r.chance(20)) squash_extract_clear_cache(); } }
	}
	for (auto &s : slots) shut(s); squash_extract_clear_cache();
}
