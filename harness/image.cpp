#include "image.h"
#include <zlib.h>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(a, n) __asan_poison_memory_region(a, n)
#define UNPOISON(a, n) __asan_unpoison_memory_region(a, n)
#else
#define POISON(a, n) ((void)0)
#define UNPOISON(a, n) ((void)0)
#endif

// ---------------------------------------------------------------- content
Content::Kind Content::kind(u64 blk) const {
	u64 h = mix64(seed * 31 + blk); if (!lit.empty()) return K_TEXT;
	switch (mode) {
	case TEXT: return K_TEXT;
	case RANDOM: return K_RANDOM;
	case ZERO: return K_ZERO;
	case HOLES: return K_HOLE;
	case SPARSE: return h % sparse_every == 0 ? ((h >> 32) % 4 ? K_TEXT : K_RANDOM) : K_HOLE;
	case MIXED: switch (h % 8) { case 0: case 1: return K_RANDOM; case 2: case 3: return K_HOLE; case 4: return K_ZERO; default: return K_TEXT; }
	}
	return K_TEXT;
}
void Content::fill(u64 off, size_t n, u8 *out) const {
	if (!lit.empty()) { memcpy(out, lit.data() + off, n); return; }
	while (n) {
		u64 blk = off / bs; u64 inblk = off % bs; size_t take = std::min<u64>(n, bs - inblk);
		Kind k = kind(blk);
		if (k == K_HOLE || k == K_ZERO) { memset(out, 0, take); }
		else for (size_t i = 0; i < take;) {
			u64 o = off + i, unit = o / 64, in = o % 64; u8 tmp[64];
			u64 h = mix64(seed ^ (unit * 0x9e3779b97f4a7c15ull));
			if (k == K_RANDOM) { for (int w = 0; w < 8; ++w) { u64 v = mix64(h + w); memcpy(tmp + 8 * w, &v, 8); } }
			else { static const char hex[] = "0123456789abcdef"; for (int w = 0; w < 16; ++w) tmp[w] = hex[(h >> (4 * w)) & 15];
				memset(tmp + 16, 'a' + (int)(seed % 26), 48); }
			size_t t = std::min<size_t>(64 - in, take - i); memcpy(out + i, tmp + in, t); i += t;
		}
		out += take; off += take; n -= take;
	}
}
const Ent *Node::kid(const string &name) const {
	auto it = std::lower_bound(kids.begin(), kids.end(), name, [](const Ent &e, const string &n) { return e.name < n; });
	return it != kids.end() && it->name == name ? &*it : nullptr;
}
string Profile::describe() const {
	return fmt("bs=%u dirs=%d files=%d links=%d specials=%d maxfile=%llu md_stored=%d%% data_stored=%d%% ext=%d%% frag=%d%% ids=%d export=%d pad=%d inum=%d index=%d%% onefrag=%d gap=%llu before %d",
		1u << bs_log, dirs, files, links, specials, (unsigned long long)max_file, md_stored_pct, data_stored_pct, ext_pct, frag_pct, ids, export_table, pad, inum_mode, index_pct, one_frag_per_file, (unsigned long long)gap, gap_where);
}

// ---------------------------------------------------------------- tree
Node *Image::add(Node *parent, const string &name, int type) {
	nodes.emplace_back(new Node); Node *n = nodes.back().get(); n->type = type;
	if (type == T_DIR) n->nlink = 2;
	if (parent) { n->nlink = type == T_DIR ? 2 : 0; link(parent, name, n); n->parent = parent; n->path = parent->path.empty() ? name : parent->path + "/" + name; if (type == T_DIR) parent->nlink++; }
	return n;
}
void Image::link(Node *parent, const string &name, Node *node) {
	auto it = std::lower_bound(parent->kids.begin(), parent->kids.end(), name, [](const Ent &e, const string &n) { return e.name < n; });
	if (it != parent->kids.end() && it->name == name) harness_error("two entries called " + name);
	Ent e; e.name = name; e.node = node; parent->kids.insert(it, e);
	if (node->type != T_DIR) node->nlink++;
}
Content *Image::content(Node *n, u64 size, Content::Mode mode, u64 seed) {
	contents.emplace_back(new Content); Content *c = contents.back().get(); c->size = size; c->mode = mode; c->seed = seed; c->bs = bs();
	n->content = (int)contents.size() - 1; return c;
}
vector<Node *> Image::all(int type) const { vector<Node *> v; for (auto &n : nodes) if (!type || n->type == type) v.push_back(n.get()); return v; }

string free_name(const Node *dir, string name) { while (dir->kid(name)) name += 'x'; return name; }
string random_name(Rng &r, const Node *dir, int long_pct) {
	for (int tries = 0;; ++tries) {
		string s;
		int k = (int)r.below(12);
		if ((int)r.below(100) < long_pct) { // long
			static const int lens[] = {255, 254, 253, 128, 127, 129, 200, 64};
			int n = lens[r.below(8)]; for (int i = 0; i < n; ++i) s += (char)('a' + (r.chance(80) ? i % 3 : (int)r.below(26)));
			s[s.size() - 1] = (char)('a' + r.below(26)); s[s.size() - 2] = (char)('a' + r.below(26));
		} else if (k < 3 && dir && !dir->kids.empty()) { // near another name
			s = dir->kids[r.below(dir->kids.size())].name;
			switch (r.below(4)) {
			case 0: s += (char)(33 + r.below(90)); break;
			case 1: if (s.size() > 1) s.resize(1 + r.below(s.size() - 1)); break;
			case 2: s[r.below(s.size())] ^= (char)(1 << r.below(5)); break;
			case 3: s += s; break;
			}
		} else if (k == 3) { static const char *odd[] = {"...", "..a", ".a", "....", "a..", "-", " ", "\\", "~", "\x01", "\xff", "\x80", "\xff\xff", "a\nb", "*", "%s", "con", "A", "a", "b", "ab", "abc", ".hidden"}; s = odd[r.below(23)]; }
		else if (k == 4) { int n = 1 + (int)r.below(6); for (int i = 0; i < n; ++i) s += (char)(1 + r.below(255)); }
		else { int n = 1 + (int)r.below(k < 8 ? 2 : 14); for (int i = 0; i < n; ++i) s += "abcdefghijklmnopqrstuvwxyzABC0123456789._-"[r.below(k < 8 ? 6 : 42)]; }
		for (auto &c : s) if (c == '/' || c == 0) c = 'x';
		if (s.size() > 255) s.resize(255);
		if (s.empty() || s == "." || s == "..") continue;
		if (dir && dir->kid(s)) { if (tries > 20) { s = fmt("n%llu", (unsigned long long)r.next()); if (!dir->kid(s)) return s; } continue; }
		return s;
	}
}
void random_meta(Rng &r, Image &im, Node *n) {
	n->perm = r.chance(70) ? (u16)r.below(01000) : (u16)r.below(010000);
	n->mtime = r.chance(80) ? (u32)r.below(0x7fffffff) : r.chance(50) ? (u32)r.below(100) : 0x7fffffff;
	n->uid = (u16)r.below(im.ids.size()); n->gid = (u16)r.below(im.ids.size());
	n->ext = r.chance(im.prof.ext_pct);
	if (n->type != T_DIR && n->type != T_REG && n->type != T_LNK && r.chance(30)) { static const u32 l[] = {255, 256, 257, 512, 65535, 65536, 65537, 1u << 24, 0x7fffffff, 0xffffffff}; n->nlink = r.chance(70) ? l[r.below(10)] : (u32)r.next(); }
	if (n->type == T_BLK || n->type == T_CHR) n->rdev = r.chance(50) ? (u32)r.next() : (u32)((r.below(16) << 8) | r.below(32));
	if (n->type == T_DIR) n->indexed = r.chance(im.prof.index_pct);
}
Profile random_profile(Rng &r) {
	Profile p;
	static const int bl[] = {12, 12, 12, 13, 14, 15, 16, 17, 17, 20};
	p.bs_log = bl[r.below(10)];
	static const int pc[] = {0, 20, 50, 100};
	p.md_stored_pct = pc[r.below(4)]; p.data_stored_pct = pc[r.below(4)] / 2; p.ext_pct = pc[r.below(4)]; p.frag_pct = r.chance(70) ? 60 : pc[r.below(4)];
	p.dirs = 1 + (int)r.below(12); p.files = 3 + (int)r.below(30); p.links = (int)r.below(14); p.specials = (int)r.below(10); p.max_depth = 1 + (int)r.below(7);
	p.max_file = p.bs_log >= 16 ? 400000 : 60000;
	static const int ids[] = {1, 3, 40, 2048, 2049, 4096, 5000};
	p.ids = ids[r.below(100) < 85 ? r.below(3) : 3 + r.below(4)];
	p.export_table = r.chance(80); p.pad = r.chance(50); p.inum_mode = r.chance(40); p.index_pct = pc[r.below(4)]; p.hdr_break_pct = pc[r.below(3)] / 2;
	p.long_names_pct = r.chance(70) ? 8 : 50; p.one_frag_per_file = r.chance(10);
	if (r.chance(30)) p.root_alias = "/mnt/"; if (r.chance(20)) p.root_alias2 = "/__enclose_io_memfs__/";
	return p;
}
void random_gap(Rng &r, Profile &p) {
	p.gap = (r.chance(25) ? 1ull << 31 : 1ull << 32 << r.below(2)) + (r.chance(40) ? r.below(3ull << 30) : 0) - (r.chance(60) ? r.below(r.chance(50) ? 300 : 200000) : 0); p.gap_where = (int)r.below(6); p.gap_twins = r.chance(50); }
static string relative_to(const Node *from_dir, const Node *to) {
	// from the directory from_dir to the node, with dot-dots
	vector<const Node *> a, b; for (const Node *n = from_dir; n; n = n->parent) a.push_back(n); for (const Node *n = to; n; n = n->parent) b.push_back(n);
	while (!a.empty() && !b.empty() && a.back() == b.back()) { a.pop_back(); b.pop_back(); }
	string s; for (size_t i = 0; i < a.size(); ++i) s += "../";
	const Node *top = b.empty() ? nullptr : b.back();
	if (!top) { if (s.empty()) return "."; s.pop_back(); return s; }
	string base = top->parent ? top->parent->path : ""; string full = to->path; s += base.empty() ? full : full.substr(base.size() + 1);
	return s;
}
std::unique_ptr<Image> random_image(Rng &r, const Profile &p) {
	std::unique_ptr<Image> im(new Image); im->prof = p;
	{ u64 most = p.ids > 100 && r.chance(60) ? 70000 : 0x7fffffff; for (int i = 0; i < p.ids; ++i) im->ids.push_back((u32)r.below(most)); } // small ones can be compressed
	im->root = im->add(nullptr, "", T_DIR); random_meta(r, *im, im->root);
	vector<Node *> dirs{im->root}; vector<int> depth{0};
	for (int i = 0; i < p.dirs; ++i) {
		size_t k = r.chance(30) ? dirs.size() - 1 : r.below(dirs.size()); if (depth[k] >= p.max_depth) continue;
		Node *d = im->add(dirs[k], random_name(r, dirs[k], p.long_names_pct), T_DIR); random_meta(r, *im, d); dirs.push_back(d); depth.push_back(depth[k] + 1);
	}
	vector<Node *> files;
	u32 bs = im->bs();
	for (int i = 0; i < p.files; ++i) {
		Node *d = r.pick(dirs); string name = random_name(r, d, p.long_names_pct);
		if (!files.empty() && r.chance(p.hardlink_pct)) { im->link(d, name, r.pick(files)); continue; }
		Node *f = im->add(d, name, T_REG); random_meta(r, *im, f);
		if (!files.empty() && r.chance(p.dedup_pct)) { f->content = r.pick(files)->content; files.push_back(f); continue; }
		u64 size;
		switch (r.below(10)) {
		case 0: size = 0; break;
		case 1: size = bs * r.below(4); break;
		case 2: size = bs * (1 + r.below(3)) + (r.chance(50) ? 1 : bs - 1); break;
		case 3: size = r.below(3 * bs); break;
		case 4: case 5: size = r.below(300); break;
		default: size = r.below(p.max_file); break;
		}
		if (size > p.max_file * 4) size = r.below(p.max_file);
		Content *c = im->content(f, size, (Content::Mode)r.below(6), r.next()); c->frag = r.chance(p.frag_pct); c->sparse_every = 2 + (u32)r.below(8);
		files.push_back(f);
	}
	for (int i = 0; i < p.specials; ++i) { Node *d = r.pick(dirs); Node *n = im->add(d, random_name(r, d, p.long_names_pct), T_BLK + (int)r.below(4)); random_meta(r, *im, n); }
	vector<Node *> links;
	if (p.links_ok) for (int i = 0; i < p.links; ++i) {
		Node *d = r.pick(dirs); Node *n = im->add(d, random_name(r, d, p.long_names_pct), T_LNK); random_meta(r, *im, n); links.push_back(n);
		Node *to; do to = im->nodes[r.below(im->nodes.size())].get(); while (to == n && im->nodes.size() > 1);
		string t;
		switch (r.below(8)) {
		case 0: t = "/" + to->path; break;
		case 1: t = (p.root_alias.empty() ? "/" : p.root_alias) + to->path; break;
		case 2: t = (p.root_alias2.empty() ? "/" : p.root_alias2) + to->path; break;
		case 3: t = relative_to(d, to) + (to->isdir() ? "/x" : "x"); break; // most likely dangling
		case 4: t = random_name(r, nullptr, 5); break;
		case 5: t = "./" + relative_to(d, to); break;
		default: t = relative_to(d, to); break;
		}
		if (t == "/mnt" || t == "/__enclose_io_memfs__" || t.size() > 2000) t = "nowhere";
		n->target = t;
	}
	return im;
}

// ---------------------------------------------------------------- layout
namespace {
struct Out { vector<u8> &b; explicit Out(vector<u8> &v) : b(v) {}
	void u16_(u32 v) { b.push_back(v & 255); b.push_back(v >> 8 & 255); }
	void u32_(u64 v) { u16_(v & 0xffff); u16_(v >> 16 & 0xffff); }
	void u64_(u64 v) { u32_(v & 0xffffffff); u32_(v >> 32); }
	void str(const string &s) { b.insert(b.end(), s.begin(), s.end()); } };
bool deflate_block(const u8 *p, size_t n, vector<u8> &out, int level) {
	uLongf len = compressBound(n); out.resize(len);
	if (compress2(out.data(), &len, p, n, level) != Z_OK) harness_error("compress2");
	out.resize(len); return len < n;
}
struct MetaWriter { // a stream of metadata blocks
	vector<u8> cur, out; vector<Blk> blks; vector<u64> starts; int stored_pct; Rng &r; Blk::What what;
	MetaWriter(Rng &rng, int sp, Blk::What w) : stored_pct(sp), r(rng), what(w) {}
	void flush() {
		if (cur.empty()) return;
		vector<u8> z; bool comp = !r.chance(stored_pct) && deflate_block(cur.data(), cur.size(), z, 1 + (int)r.below(9));
		const vector<u8> &d = comp ? z : cur; u16 hdr = (u16)d.size() | (comp ? 0 : 0x8000);
		starts.push_back(out.size());
		blks.push_back(Blk{out.size() + 2, (u32)d.size(), comp, what});
		out.push_back(hdr & 255); out.push_back(hdr >> 8); out.insert(out.end(), d.begin(), d.end()); cur.clear();
	}
	void sync() { if (cur.size() == 8192) flush(); }
	u64 pos() { sync(); return out.size(); }      // start of the block being filled
	u32 off() { sync(); return (u32)cur.size(); }
	int blk() { sync(); return (int)blks.size(); } // index of the block being filled
	int last_blk() { return cur.empty() ? (int)blks.size() - 1 : (int)blks.size(); } // block of the last byte
	void put(const vector<u8> &v) { for (size_t i = 0; i < v.size();) { sync(); size_t t = std::min<size_t>(8192 - cur.size(), v.size() - i); cur.insert(cur.end(), v.begin() + i, v.begin() + i + t); i += t; } }
};
}

void Image::build(Rng &r) {
	u32 bs = this->bs();
	bytes.assign(96, 0); gap_at = 0; auto here = [&]() { return (u64)bytes.size() + (gap_at ? prof.gap : 0); }; auto gap = [&](int where) { if (prof.gap && !gap_at && prof.gap_where == where) { gap_at = bytes.size(); if (prof.gap_twins) { vector<u64> at; for (auto &b : blks) if ((b.what == Blk::DATA || b.what == Blk::FRAG) == (where < 2)) at.push_back(where < 2 ? b.pos : b.pos - 2); if (!at.empty()) prof.gap = (1ull << 32) - (gap_at - at[r.below(at.size())]); } } };
	// ---- data blocks and fragments
	vector<u8> frag; struct F { u64 pos; u32 hdr; }; vector<F> fragents; vector<u8> buf(bs), z;
	auto flush_frag = [&]() {
		if (frag.empty()) return;
		bool comp = !r.chance(prof.data_stored_pct) && deflate_block(frag.data(), frag.size(), z, 1 + (int)r.below(9));
		const vector<u8> &d = comp ? z : frag;
		fragents.push_back(F{here(), (u32)d.size() | (comp ? 0 : 1u << 24)});
		frag_blk.push_back((int)blks.size()); blks.push_back(Blk{bytes.size(), (u32)d.size(), comp, Blk::FRAG});
		bytes.insert(bytes.end(), d.begin(), d.end()); frag.clear();
	};
	vector<int> order; for (size_t i = 0; i < contents.size(); ++i) order.push_back((int)i);
	if (r.chance(50)) r.shuffle(order);
	gap(0); size_t laid_out = 0;
	for (int ci : order) {
		if (laid_out++ == order.size() / 2) { if (prof.gap_where == 1) flush_frag(); gap(1); }
		Content &c = *contents[ci]; c.bs = bs;
		u64 full = c.size / bs, tail = c.size % bs; if (!tail) c.frag = false; // nothing to put in a fragment
		u64 nblk = c.frag ? full : full + (tail ? 1 : 0);
		c.start = here(); c.hdr.resize(nblk); c.data_blk.assign(nblk, -1);
		bool any = false;
		for (u64 b = 0; b < nblk; ++b) {
			if (c.kind(b) == Content::K_HOLE) { c.hdr[b] = 0; continue; }
			size_t n = b < full ? bs : (size_t)tail; buf.resize(bs); c.fill(b * bs, n, buf.data());
			bool comp = !(c.kind(b) == Content::K_RANDOM && n > 100) && !r.chance(prof.data_stored_pct) && deflate_block(buf.data(), n, z, 1 + (int)r.below(6));
			const u8 *d = comp ? z.data() : buf.data(); size_t dn = comp ? z.size() : n;
			c.hdr[b] = (u32)dn | (comp ? 0 : 1u << 24); c.data_blk[b] = (int)blks.size();
			blks.push_back(Blk{bytes.size(), (u32)dn, comp, Blk::DATA}); bytes.insert(bytes.end(), d, d + dn); any = true;
		}
		if (!any && r.chance(50)) c.start = 0;
		if (c.frag) {
			if (frag.size() + tail > bs || (prof.one_frag_per_file && !frag.empty())) flush_frag();
			c.frag_off = (u32)frag.size(); c.frag_idx = (u32)fragents.size();
			size_t o = frag.size(); frag.resize(o + tail); c.fill(full * bs, tail, &frag[o]);
			if (r.chance(5)) flush_frag();
		}
		c.laid = true;
	}
	flush_frag(); frags = (u32)fragents.size();
	// ---- inode numbers, children before parents
	vector<Node *> post; std::unordered_set<Node *> seen;
	std::function<void(Node *)> walk = [&](Node *n) { if (!seen.insert(n).second) return; for (auto &e : n->kids) walk(e.node); post.push_back(n); };
	walk(root);
	inodes = (u32)post.size(); vector<u32> nums(inodes); for (u32 i = 0; i < inodes; ++i) nums[i] = i + 1;
	if (prof.inum_mode) r.shuffle(nums);
	by_inum.assign(inodes + 1, nullptr);
	for (u32 i = 0; i < inodes; ++i) { post[i]->inum = nums[i]; by_inum[nums[i]] = post[i]; }
	// ---- inodes and directories
	MetaWriter in(r, prof.md_stored_pct, Blk::INODE), dt(r, prof.md_stored_pct, Blk::DIR);
	struct Idx { u32 index, start; string name; };
	for (Node *n : post) {
		vector<Idx> index;
		if (n->isdir() && !n->kids.empty()) {
			u64 bpos = dt.pos(); u32 boff = dt.off(); n->dir_ref = (bpos << 16) | boff; n->dl0 = dt.blk();
			u64 done = 0; size_t i = 0; u64 last_block = bpos;
			while (i < n->kids.size()) {
				// one header: same inode block, inode numbers near the base, at most 256
				u64 iblk = n->kids[i].node->ref >> 16; size_t j = i; u32 base = n->kids[i].node->inum;
				size_t maxn = r.chance(prof.hdr_break_pct) ? 1 + r.below(6) : 256;
				if (r.chance(30)) base = (u32)std::max<i64>(1, (i64)base + r.range(-100, 100));
				while (j < n->kids.size() && j - i < maxn) { Node *k = n->kids[j].node; i64 d = (i64)k->inum - (i64)base; if (k->ref >> 16 != iblk || d > 32767 || d < -32768) break; ++j; }
				if (j == i) harness_error("empty directory header");
				vector<u8> h; Out o(h); o.u32_(j - i - 1); o.u32_(iblk); o.u32_(base);
				u64 hblock = dt.pos(); dt.off(); int hmd0 = dt.blk();
				if (n->indexed && i > 0 && (hblock != last_block || r.chance(30)) && index.size() < 60000) index.push_back(Idx{(u32)done, (u32)hblock, n->kids[i].name});
				last_block = hblock;
				dt.put(h); done += 12; int hmd1 = dt.last_blk();
				for (; i < j; ++i) {
					Ent &e = n->kids[i]; vector<u8> v; Out o2(v);
					e.off = done == 12 && i == 0 ? 0 : (i == 0 ? 0 : n->kids[i - 1].next_off);
					o2.u16_((u32)(e.node->ref & 0xffff)); o2.u16_((u32)(u16)((int)e.node->inum - (int)base)); o2.u16_(e.node->type); o2.u16_((u32)e.name.size() - 1); o2.str(e.name);
					dt.sync(); e.md0 = dt.blk(); dt.put(v); e.md1 = dt.last_blk(); e.hdr_md0 = hmd0; e.hdr_md1 = hmd1;
					done += v.size(); e.next_off = done; n->dir_offsets.push_back(done);
				}
			}
			n->dl1 = dt.last_blk(); n->dir_bytes = (u32)done;
		} else if (n->isdir()) { n->dir_ref = (dt.pos() << 16) | dt.off(); n->dir_bytes = 0; }
		if (n->isdir() && (n->dir_bytes + 3 > 65535 || !index.empty())) n->ext = true;
		Content *c = n->content >= 0 ? contents[n->content].get() : nullptr;
		if (n->type == T_REG && (n->nlink > 1 || c->size > 0xffffffffull || c->start > 0xffffffffull)) n->ext = true;
		u64 ipos = in.pos(); u32 ioff = in.off();
		if (n->aim) { const Content &f = *contents[n->aim->content]; bool fext = n->aim->ext || n->aim->nlink > 1 || f.size > 0xffffffffull || f.start > 0xffffffffull;
			i64 at = ioff + 24 + (n->ext ? 4 : 0) + (fext ? 56 : 32) + (n->aim_end ? 4 * (i64)f.hdr.size() : 0), len = ((n->aim_at - at) % 8192 + 8192) % 8192; if (len < 8) len += 8192; n->target.clear(); while ((i64)n->target.size() < len) n->target += "no/such"[n->target.size() % 7]; }
		n->ref = (ipos << 16) | ioff; n->in0 = in.blk();
		vector<u8> v; Out o(v);
		o.u16_(n->type + (n->ext ? 7 : 0)); o.u16_(n->perm); o.u16_(n->uid); o.u16_(n->gid); o.u32_(n->mtime); o.u32_(n->inum);
		vector<u8> v2; Out o2(v2);
		switch (n->type) {
		case T_DIR: {
			u32 pin = n->parent ? n->parent->inum : inodes + 1;
			if (n->ext) { o.u32_(n->nlink); o.u32_(n->dir_bytes + 3); o.u32_(n->dir_ref >> 16); o.u32_(pin); o.u16_((u32)index.size()); o.u16_(n->dir_ref & 0xffff); o.u32_(0xffffffff);
				for (auto &x : index) { o2.u32_(x.index); o2.u32_(x.start); o2.u32_(x.name.size() - 1); o2.str(x.name); } }
			else { o.u32_(n->dir_ref >> 16); o.u32_(n->nlink); o.u16_(n->dir_bytes + 3); o.u16_(n->dir_ref & 0xffff); o.u32_(pin); }
			break; }
		case T_REG: {
			if (n->ext) { o.u64_(c->start); o.u64_(c->size); o.u64_(0); o.u32_(n->nlink); o.u32_(c->frag ? c->frag_idx : 0xffffffff); o.u32_(c->frag ? c->frag_off : 0); o.u32_(0xffffffff); }
			else { o.u32_(c->start); o.u32_(c->frag ? c->frag_idx : 0xffffffff); o.u32_(c->frag ? c->frag_off : 0); o.u32_(c->size); }
			for (u32 h : c->hdr) o2.u32_(h);
			break; }
		case T_LNK: o.u32_(n->nlink); o.u32_(n->target.size()); o2.str(n->target); if (n->ext) o2.u32_(0xffffffff); break;
		case T_BLK: case T_CHR: o.u32_(n->nlink); o.u32_(n->rdev); if (n->ext) o.u32_(0xffffffff); break;
		default: o.u32_(n->nlink); if (n->ext) o.u32_(0xffffffff); break;
		}
		in.put(v); n->in1 = in.last_blk(); in.put(v2); n->ix0 = n->in0; n->ix1 = in.last_blk();
	}
	in.flush(); dt.flush();
	auto place = [&](MetaWriter &w) { u64 start = here(), at = bytes.size(); int first = (int)blks.size(); for (auto b : w.blks) { b.pos += at; blks.push_back(b); } bytes.insert(bytes.end(), w.out.begin(), w.out.end()); return std::make_pair(start, first); };
	gap(1); gap(2); auto pi = place(in); gap(3); auto pd = place(dt); gap(4);
	for (Node *n : post) { n->in0 += pi.second; n->in1 += pi.second; n->ix0 += pi.second; n->ix1 += pi.second; if (n->dl0 >= 0) { n->dl0 += pd.second; n->dl1 += pd.second; }
		for (auto &e : n->kids) { e.md0 += pd.second; e.md1 += pd.second; e.hdr_md0 += pd.second; e.hdr_md1 += pd.second; } }
	// ---- tables
	auto table = [&](const vector<u8> &data, Blk::What what, vector<int> &out_blks) {
		MetaWriter w(r, prof.md_stored_pct, what); w.put(data); w.flush(); auto p = place(w);
		u64 start = here(); vector<u8> idx; Out o(idx); for (size_t i = 0; i < w.starts.size(); ++i) { o.u64_(p.first + w.starts[i]); out_blks.push_back(p.second + (int)i); }
		bytes.insert(bytes.end(), idx.begin(), idx.end()); return start; };
	vector<u8> ft; { Out o(ft); for (auto &f : fragents) { o.u64_(f.pos); o.u32_(f.hdr); o.u32_(0); } }
	u64 fstart = table(ft, Blk::FRAGTAB, fragtab_blk); if (!frags && r.chance(50)) fstart = ~0ull;
	u64 estart = ~0ull;
	if (prof.export_table) { vector<u8> et; Out o(et); for (u32 i = 1; i <= inodes; ++i) o.u64_(by_inum[i]->ref); estart = table(et, Blk::EXPORT, export_blk); }
	vector<u8> it; { Out o(it); for (u32 id : ids) o.u32_(id); }
	gap(5); u64 istart = table(it, Blk::ID, id_blk);
	gap(5); u64 used = here();
	if (prof.pad) bytes.resize((bytes.size() + 4095) / 4096 * 4096, 0);
	// ---- superblock
	vector<u8> sb; Out o(sb); o.u32_(0x73717368); o.u32_(inodes); o.u32_(1600000000); o.u32_(bs); o.u32_(frags); o.u16_(1); o.u16_(prof.bs_log); o.u16_(prof.export_table ? 0x80 : 0); o.u16_(ids.size()); o.u16_(4); o.u16_(0);
	o.u64_(root->ref); o.u64_(used); o.u64_(istart); o.u64_(~0ull); o.u64_(pi.first); o.u64_(pd.first); o.u64_(fstart); o.u64_(estart);
	if (sb.size() != 96) harness_error("superblock"); std::copy(sb.begin(), sb.end(), bytes.begin());
}

// ---------------------------------------------------------------- mapping
static size_t page() { return 4096; }
Mapped::Mapped(const vector<u8> &b, size_t off, bool align_end, u64 seed, void *at, size_t gap_at, u64 gap) {
	size_t pg = page(), total = off + b.size() + gap, body = (total + pg - 1) / pg * pg; offset = off; len = b.size() + gap; map_len = body + 2 * pg;
	void *m = mmap(at, map_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (m == MAP_FAILED || (at && m != at)) { if (m != MAP_FAILED) munmap(m, map_len); m = mmap(nullptr, map_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) harness_error("mmap"); }
	map = (u8 *)m; u8 *body0 = map + pg; base = align_end ? body0 + body - total : body0;
	Rng r(seed); auto fill = [&](u8 *from, u8 *to) { for (; from < to; from += 8) { u64 v = r.next(); memcpy(from, &v, std::min<size_t>(8, (size_t)(to - from))); } };
	u8 *img = base + off, *lo = img + gap_at, *hi = lo + gap, *none = nullptr, *none_end = nullptr; // the gap lies between lo and hi
	if (gap) { none = body0 + ((size_t)(lo - body0) + pg - 1) / pg * pg; none_end = body0 + (size_t)(hi - body0) / pg * pg; fill(body0, none); fill(none_end, body0 + body); memcpy(img, b.data(), gap_at); memcpy(hi, b.data() + gap_at, b.size() - gap_at); }
	else { fill(body0, body0 + body); memcpy(img, b.data(), b.size()); } // what surrounds it
	mprotect(map, pg, PROT_NONE); mprotect(map + pg + body, pg, PROT_NONE); mprotect(body0, body, PROT_READ); if (gap) mprotect(none, (size_t)(none_end - none), PROT_NONE);
	POISON(body0, (size_t)(img - body0)); { u8 *end = base + total; POISON(end, (size_t)(body0 + body - end)); } if (gap) { POISON(lo, (size_t)(none - lo)); POISON(none_end, (size_t)(hi - none_end)); }
	if (gap) { unpoison[0] = lo; unpoison[1] = none; unpoison[2] = none_end; unpoison[3] = hi; }
}
Mapped::~Mapped() { if (unpoison[0]) { UNPOISON(map + page(), (size_t)(unpoison[1] - map) - page()); UNPOISON(unpoison[2], (size_t)(map + map_len - page() - unpoison[2])); } else UNPOISON(map + page(), map_len - 2 * page()); munmap(map, map_len); }
sqfs *fs_alloc() { return (sqfs *)calloc(1, sizeof(sqfs)); }
void fs_release(sqfs *f) { free(f); }

vector<Node *> add_straddlers(Rng &r, Image &im, int dirs) {
	vector<Node *> v; Node *top = im.add(im.root, free_name(im.root, "straddle"), T_DIR); random_meta(r, im, top);
	while (dirs--) { Node *d = im.add(top, free_name(top, fmt("s%d", dirs)), T_DIR); random_meta(r, im, d); v.push_back(d); int n = r.chance(80) ? 1 + (int)r.below(4) : 40; while (n--) { Node *f = im.add(d, free_name(d, fmt("%03d", n) + string(180 + r.below(70), (char)('a' + n % 26))), r.chance(50) ? T_FIFO : T_DIR); random_meta(r, im, f); } }
	return v; }

vector<Node *> add_crowd(Rng &r, Image &im, int files) {
	vector<Node *> v; Node *top = im.add(im.root, free_name(im.root, "crowd"), T_DIR); random_meta(r, im, top); vector<Node *> ds; int nd = 1 + (int)r.below(60); for (int i = 0; i < nd; ++i) { Node *d = im.add(top, fmt("d%02d", i), T_DIR); random_meta(r, im, d); ds.push_back(d); }
	for (int i = 0; i < files; ++i) { Node *d = ds[(u64)i * ds.size() / files]; Node *f = im.add(d, fmt("f%05d", i), T_REG); random_meta(r, im, f); Content *c = im.content(f, 1 + r.below(40) + (r.chance(3) ? im.bs() : 0), Content::TEXT, r.next()); c->frag = true; v.push_back(f); }
	return v; }
