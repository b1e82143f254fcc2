// C13: which images are accepted, and where they may lie
#include "session.h"
void prop_init() { start_library(); }
void prop_done() {}
namespace {
struct Super { u32 magic; u16 major, minor, comp; };
void put16(vector<u8> &b, size_t o, u32 v) { b[o] = v & 255; b[o + 1] = v >> 8; }
void put32(vector<u8> &b, size_t o, u32 v) { put16(b, o, v & 0xffff); put16(b, o + 2, v >> 16); }
Super base_super{0x73717368, 4, 0, 1};
// An image far from the base address: nothing else is accessible
struct Far { u8 *map; size_t len, at; Far(const vector<u8> &b, size_t offset) { size_t pg = 4096, body = (b.size() + pg - 1) / pg * pg; at = offset; len = (offset / pg + 2) * pg + body; void *m = mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { map = nullptr; return; } map = (u8 *)m; size_t lo = offset / pg * pg; mprotect(map + lo, body + pg, PROT_READ | PROT_WRITE); memcpy(map + offset, b.data(), b.size()); mprotect(map + lo, body + pg, PROT_READ); } ~Far() { if (map) munmap(map, len); } };
void judge_super(Rng &r, const vector<u8> &img, const Super &s, bool quietly) {
	vector<u8> h(img.begin(), img.begin() + 96); put32(h, 0, s.magic); put16(h, 28, s.major); put16(h, 30, s.minor); put16(h, 20, s.comp); bool ok = s.magic == base_super.magic && s.major == 4 && s.minor == 0 && s.comp == 1; if (ok) { vector<u8> all = img; std::copy(h.begin(), h.end(), all.begin()); h = all; }
	int want = s.magic != base_super.magic ? SQFS_BADFORMAT : s.major != 4 || s.minor != 0 ? SQFS_BADVERSION : s.comp != 1 ? SQFS_BADCOMP : SQFS_OK;
	static const size_t offs[] = {0, 0, 1, 5, 100, 4095, 70000}; Mapped m(h, offs[r.below(7)], r.chance(60), r.next()); sqfs *fs = fs_alloc(); memset(fs, r.chance(50) ? 0xa5 : 0, sizeof *fs); Ledger before; note(fmt("superblock magic %08x version %u.%u compression %u at offset %zu", s.magic, s.major, s.minor, s.comp, m.offset));
	bool init = r.chance(30); sqfs_err e = init ? sqfs_init(fs, m.base, m.offset) : sqfs_open_image(fs, m.base, m.offset); evaluated(); count(ok ? "superblocks accepted" : "superblocks refused"); distinct(mix64(s.magic) ^ mix64((u64)s.major << 32 | (u64)s.minor << 16 | s.comp));
	if (e != want) violation("open-result", fmt("%s of a superblock with magic %08x, version %u.%u and compression %u gave %d, expected %d", init ? "sqfs_init" : "sqfs_open_image", s.magic, s.major, s.minor, s.comp, e, want));
	if (e == SQFS_OK) { if (sqfs_compression(fs) != s.comp) violation("compression", "sqfs_compression is wrong"); int a = -1, b = -1; sqfs_version(fs, &a, &b); if (a != s.major || b != s.minor) violation("version", "sqfs_version is wrong"); sqfs_destroy(fs); }
	string w = Ledger().against(before); if (!w.empty()) violation("leak", fmt("after opening%s: %s", ok ? " and destroying" : ", which failed", w.c_str())); fs_release(fs);
}
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.max_file = 20000; p.files = 4 + (int)r.below(20); if (index % 32 == 5) { p.one_frag_per_file = true; p.bs_log = 12; p.ids = 1 + (int)r.below(65535); } auto im = random_image(r, p); if (index % 32 == 5) { add_crowd(r, *im, 4200 + (int)r.below(6000)); count("images with tables of many blocks"); } im->build(r); note(im->prof.describe()); const vector<u8> &b = im->bytes;
	{ int v[4] = {-1, -1, -1, -1}; sqfs_version_supported(&v[0], &v[1], &v[2], &v[3]); if (v[0] != 4 || v[1] != 0 || v[2] != 4 || v[3] != 0) violation("version-supported", fmt("sqfs_version_supported tells %d.%d to %d.%d, but 4.0 is what is accepted", v[0], v[1], v[2], v[3])); }
	if (index < 3) sample("every single bit of the magic number, version and compression flipped, and combinations; one image at 8 places");
	if (index % 4 == 0) {
		for (int i = 0; i < 32; ++i) { Super s = base_super; s.magic ^= 1u << i; judge_super(r, b, s, true); }
		for (int i = 0; i < 16; ++i) { Super s = base_super; s.major ^= 1u << i; judge_super(r, b, s, true); s = base_super; s.minor ^= 1u << i; judge_super(r, b, s, true); s = base_super; s.comp ^= 1u << i; judge_super(r, b, s, true); }
		static const u32 magics[] = {0, 0xffffffff, 0x68737173, 0x73717368, 0x71736873, 0x73687371, 0x74717368}; for (u32 m : magics) { Super s = base_super; s.magic = m; judge_super(r, b, s, true); }
		for (u32 v = 0; v < 12; ++v) { Super s = base_super; s.comp = v; judge_super(r, b, s, true); s = base_super; s.major = v; judge_super(r, b, s, true); s = base_super; s.minor = v; judge_super(r, b, s, true); }
	}
	for (int i = 0; i < 120; ++i) { Super s = base_super; if (r.chance(40)) s.magic = r.chance(50) ? (u32)r.next() : s.magic ^ 1u << r.below(32); if (r.chance(50)) s.major = r.chance(70) ? (u16)r.below(8) : (u16)r.next(); if (r.chance(50)) s.minor = r.chance(70) ? (u16)r.below(4) : (u16)r.next(); if (r.chance(50)) s.comp = r.chance(70) ? (u16)r.below(8) : (u16)r.next(); judge_super(r, b, s, true); }
	// what the library does not decide by does not matter
	// the same image in different places: the same answers
	u64 qseed = r.next(); vector<size_t> offs = {0, 1, 3, 96, 4096, 65537, 1000003, (size_t)r.below(300000)};
	for (size_t off : offs) { Mapped m(b, off, r.chance(50), r.next()); sqfs *fs = fs_alloc(); if (sqfs_open_image(fs, m.base, m.offset)) violation("open-image", fmt("a valid image at offset %zu is refused", off)); if (!p.root_alias.empty()) fs->root_alias = p.root_alias.c_str(); if (!p.root_alias2.empty()) fs->root_alias2 = p.root_alias2.c_str(); note(fmt("image at offset %zu", off));
		{ Session s(fs, *im, Tol(), qseed); for (int i = 0; i < 60; ++i) { s.op(); evaluated(); } count("answers judged in different places", 60); distinct(mix64(off) ^ qseed); } sqfs_destroy(fs); fs_release(fs); }
	if (index % 4 == 1) { Profile g = p; random_gap(r, g); auto im2 = random_image(r, g); im2->build(r); note(im2->prof.describe()); Opened o(*im2, r); Session s(o.fs, *im2, Tol(), r.next()); for (int i = 0; i < 100; ++i) { s.op(); evaluated(); } s.close_all(); count("images larger than 2 or 4 GiB"); }
	if (index % 2 == 0) { static const size_t far[] = {(1ull << 31) - 5000, (1ull << 31) + 7, (1ull << 32) - 96, (1ull << 32) + 1, (5ull << 30) + 4096, (40ull << 30) + 3}; size_t off = far[r.below(6)]; Far f(b, off); if (f.map) { sqfs *fs = fs_alloc(); note(fmt("image at offset %zu, nothing else accessible", off)); if (sqfs_open_image(fs, f.map, off)) violation("open-image", fmt("a valid image at offset %zu is refused", off)); if (!p.root_alias.empty()) fs->root_alias = p.root_alias.c_str(); if (!p.root_alias2.empty()) fs->root_alias2 = p.root_alias2.c_str(); { Session s(fs, *im, Tol(), qseed); for (int i = 0; i < 80; ++i) { s.op(); evaluated(); } } sqfs_destroy(fs); fs_release(fs); count("images beyond 2 GiB"); } else count("no room for a far image"); }
}
