// Builds SquashFS 4.0 images from a model tree, and keeps the model that answers every question about them.
#pragma once
#include "vf.h"

enum { T_DIR = 1, T_REG, T_LNK, T_BLK, T_CHR, T_FIFO, T_SOCK };

// The bytes of a file, computed instead of stored, so that files may be huge.
struct Content {
	u64 size = 0, seed = 0; u32 bs = 4096; string lit; // or these bytes
	enum Mode { TEXT, RANDOM, MIXED, SPARSE, ZERO, HOLES } mode = TEXT;
	enum Kind { K_TEXT, K_RANDOM, K_HOLE, K_ZERO };
	u32 sparse_every = 64;                  // SPARSE: one data block in about that many
	u64 blocks() const { return (size + bs - 1) / bs; }
	Kind kind(u64 blk) const;
	void fill(u64 off, size_t n, u8 *out) const;
	// layout in the image
	bool laid = false, frag = false; u64 start = 0; vector<u32> hdr; u32 frag_idx = 0xffffffff, frag_off = 0;
	vector<int> data_blk;                   // per block: index in Image::blks, or -1 for holes
};

struct Node;
struct Ent { string name; Node *node; u64 off = 0, next_off = 0; int md0 = 0, md1 = 0, hdr_md0 = 0, hdr_md1 = 0; };
struct Node {
	int type = T_REG; bool ext = false; u16 perm = 0644, uid = 0, gid = 0; u32 mtime = 0, inum = 0, nlink = 1, rdev = 0; u64 ref = 0;
	string target; int content = -1;
	vector<Ent> kids; Node *parent = nullptr;
	Node *aim = nullptr; int aim_at = 0; bool aim_end = false; // links: the next inode, a file, has its block list begin or end at this offset from a boundary of a metadata block
	bool indexed = false;                   // directories: wants an index
	u32 dir_bytes = 0; u64 dir_ref = 0;     // listing size and place
	vector<u64> dir_offsets;                // every entry boundary (offset after each entry)
	// metadata blocks (indexes in Image::blks) it needs
	int in0 = 0, in1 = 0;                   // fixed part of the inode
	int ix0 = 0, ix1 = 0;                   // with the rest (block list, index, target)
	int dl0 = -1, dl1 = -1;                 // directory listing
	string path;                            // one path from the root, without leading slash
	bool isdir() const { return type == T_DIR; }
	u32 mode() const { static const u32 m[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK}; return m[type] | perm; }
	const Ent *kid(const string &name) const;
};

struct Blk { u64 pos; u32 size; bool compressed; enum What { INODE, DIR, FRAGTAB, EXPORT, ID, DATA, FRAG } what; };

// How an image is made
struct Profile {
	int bs_log = 12;
	int md_stored_pct = 20, data_stored_pct = 10, ext_pct = 30, frag_pct = 60, hardlink_pct = 5, dedup_pct = 5;
	int dirs = 6, files = 20, links = 8, specials = 6, max_depth = 5;
	u64 max_file = 40000;
	int ids = 4;
	bool export_table = true;
	bool pad = false;                       // pad the image to 4 KiB like mksquashfs
	int inum_mode = 0;                      // 0 post-order, 1 shuffled
	int index_pct = 50;                     // directories that get an index if allowed
	int hdr_break_pct = 5;                  // extra headers
	int long_names_pct = 10;
	bool one_frag_per_file = false;         // many fragments
	bool links_ok = true;
	u64 gap = 0; bool gap_twins = false; int gap_where = 0;         // that many bytes of nothing, before: the data, half of it, the inodes, the directories, the tables, the ids; twins: so that what follows lies 4 GiB behind something of the same kind
	string root_alias, root_alias2;
	string describe() const;
};

struct Image {
	Profile prof;
	vector<std::unique_ptr<Node>> nodes; Node *root = nullptr;
	vector<std::unique_ptr<Content>> contents;
	vector<u32> ids;
	vector<u8> bytes; size_t gap_at = 0;     // without the gap, and where it is
	vector<Blk> blks;
	vector<int> fragtab_blk, export_blk, id_blk, frag_blk;
	u32 inodes = 0, frags = 0;
	vector<Node *> by_inum;                 // 1-based
	u32 bs() const { return 1u << prof.bs_log; }

	Node *add(Node *parent, const string &name, int type);
	void link(Node *parent, const string &name, Node *node);
	Content *content(Node *n, u64 size, Content::Mode mode, u64 seed);
	void build(Rng &r);                     // lays everything out; the tree must be final
	string path_of(Node *n) const { return n->path; }
	vector<Node *> all(int type = 0) const;
};

string free_name(const Node *dir, string name); // the name, made unique in the directory
string random_name(Rng &r, const Node *dir, int long_pct);
// A random tree after a profile
std::unique_ptr<Image> random_image(Rng &r, const Profile &p);
Profile random_profile(Rng &r);
void random_gap(Rng &r, Profile &p); // most of the image lies beyond 2 or 4 GiB
void random_meta(Rng &r, Image &im, Node *n);
// Directories of a few entries with long names, so that most boundaries between metadata blocks lie within an entry, often the last
vector<Node *> add_straddlers(Rng &r, Image &im, int dirs);

// Thousands of tiny files in a few directories; with a profile of one_frag_per_file each has a fragment block of its own, and every table has many blocks
vector<Node *> add_crowd(Rng &r, Image &im, int files);

// An image in memory: read-only, with nothing accessible around it
struct Mapped {
	u8 *map = nullptr; size_t map_len = 0; u8 *base = nullptr; size_t offset = 0; size_t len = 0; u8 *unpoison[4] = {};
	// base is what is given to the library, the image starts at base + offset
	Mapped(const vector<u8> &bytes, size_t offset, bool align_end, u64 seed, void *at = nullptr, size_t gap_at = 0, u64 gap = 0);
	~Mapped();
	Mapped(const Mapped &) = delete;
};

struct Fs { // an opened image
	sqfs *fs = nullptr; Mapped *mem = nullptr;
	Image *im = nullptr;
};
sqfs *fs_alloc();
void fs_release(sqfs *);
