// C21: the image is only read, and only inside
#include "farm.h"
#include "session.h"
#include <signal.h>
void prop_init() { start_library(); }
void prop_done() {}
namespace {
std::unique_ptr<Image> tiny(Rng &r, int kind) { // images where everything is close to the ends
	auto im = std::make_unique<Image>(); Profile p = random_profile(r); p.pad = false; im->prof = p; im->ids = {0}; static const size_t full[] = {2048, 4096, 6144, 2047, 65535}; if (r.chance(12)) { im->ids.clear(); for (size_t i = full[r.below(5)]; i; --i) im->ids.push_back((u32)i); } im->root = im->add(nullptr, "", T_DIR); im->root->perm = 0755;
	if (kind == 0) return im; // nothing but the root
	static const int types[] = {T_DIR, T_REG, T_LNK, T_BLK, T_CHR, T_FIFO, T_SOCK}; int n = kind == 1 ? 1 : 1 + (int)r.below(6);
	for (int i = 0; i < n; ++i) { Node *x = im->add(im->root, free_name(im->root, random_name(r, nullptr, 10)), types[r.below(7)]); random_meta(r, *im, x); if (x->type == T_LNK) x->target = r.chance(50) ? "." : "/" + string(1 + r.below(40), 'x'); if (x->type == T_REG) { static const u64 s[] = {0, 1, 100, 4095, 4096, 4097, 9000}; im->content(x, s[r.below(7)], (Content::Mode)r.below(6), r.next())->frag = r.chance(50); } }
	return im;
}
void everything(Rng &r, sqfs *fs, const Image &im, size_t limit) { // all objects by all calls
	Tol t; size_t k = 0;
	for (auto &n : im.nodes) { if (++k > limit) break; for (int q = 0; q < Q_KINDS; ++q) { Query x = random_query(r, im, 1u << q); x.node = n.get(); string at = "/" + n->path; switch (q) { case Q_STAT: case Q_LSTAT: case Q_READLINK: case Q_LIST: case Q_SCAN: x.path = at; if (q == Q_READLINK) x.arg = r.chance(50) ? 4096 : n->target.size() + r.below(3); break; case Q_OPENREAD: x.path = at; if (n->type == T_REG) { u64 s = im.contents[n->content]->size; if (r.chance(50)) { x.off = 0; x.len = std::min<u64>(s + 5, 300000); x.arg = x.len; } } break;
			case Q_TRAVERSE: case Q_ITERATE: if (!n->isdir()) continue; break; case Q_LOOKUP: x.node = im.root; x.path = at; break; case Q_EXPORT: x.arg = n->inum; break; case Q_READINODE: if (n->type != T_REG) continue; { u64 s = im.contents[n->content]->size; x.off = 0; x.len = std::min<u64>(s + 5, 300000); } break; default: break; }
			note(x.describe()); ask(fs, im, x, t); evaluated(); count("calls on guarded images"); distinct(mix64(im.bytes.size() ^ n->inum) ^ q * 31 ^ fnv(im.bytes.data() + 96, std::min<size_t>(200, im.bytes.size() - 96))); } }
	for (size_t i = 0; i < im.ids.size() + 1; i = i < 40 ? i + 1 : i * 2) { Query x; x.kind = Q_ID; x.arg = i; ask(fs, im, x, t); } { Query x; x.kind = Q_ID; x.arg = im.ids.size() - 1; ask(fs, im, x, t); x.arg = 65535; ask(fs, im, x, t); x.kind = Q_EXPORT; x.arg = im.inodes; ask(fs, im, x, t); x.arg = im.inodes + 1; ask(fs, im, x, t); x.arg = 0xffffffff; ask(fs, im, x, t); x.arg = 0; ask(fs, im, x, t); }
}
}
void prop_case(Rng &r, u64 index) {
	std::unique_ptr<Image> im; int kind = (int)(index % 4); if (kind < 3) im = tiny(r, kind); else { Profile p = random_profile(r); p.pad = false; p.max_file = 30000; im = random_image(r, p); if (r.chance(40)) farm(r, *im); }
	im->build(r); note(im->prof.describe()); vector<char> bad; if (index % 8 == 7) bad = damage(r, *im, 20);
	size_t off = r.chance(50) ? 0 : r.below(9000); if (index < 3) sample(fmt("an image of %zu bytes at offset %zu, at the end and at the start of its pages", im->bytes.size(), off));
	for (int end = 0; end < 2; ++end) {
		// its end, or its beginning, next to a page that cannot be touched; the rest poisoned
		size_t at = end ? off : 0; Mapped m(im->bytes, at, end, r.next()); sqfs *fs = fs_alloc(); note(fmt("image of %zu bytes %s inaccessible memory", im->bytes.size(), end ? "before" : "after")); if (sqfs_open_image(fs, m.base, m.offset)) violation("open-image", "a valid image is refused"); fs->root_alias = im->prof.root_alias.empty() ? nullptr : im->prof.root_alias.c_str(); fs->root_alias2 = im->prof.root_alias2.empty() ? nullptr : im->prof.root_alias2.c_str();
		if (bad.empty()) everything(r, fs, *im, 60);
		{ Tol t; if (!bad.empty()) t.bad = &bad; Session s(fs, *im, t, r.next()); int n = kind == 3 ? 80 : 20; for (int i = 0; i < n; ++i) { s.op(); evaluated(); count("calls on guarded images"); } }
		for (auto *f : im->all(T_REG)) if (r.chance(20) && im->contents[f->content]->size < 100000) { squash_extract(fs, ("/" + f->path).c_str(), nullptr); count("extractions"); } squash_extract_clear_cache();
		if (memcmp(m.base + m.offset, im->bytes.data(), im->bytes.size())) violation("image-changed", "the image's bytes have changed"); count("images compared afterwards");
		sqfs_destroy(fs); fs_release(fs);
	}
}
