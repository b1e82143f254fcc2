// Asks the library one self-contained question and judges the answer by the model.
#pragma once
#include "image.h"

// What a path may lead to. More than one outcome is acceptable only where the properties leave it open.
struct Outcome {
	const Node *node = nullptr; set<int> errs;      // node, or the errors that name the reason
	vector<int> must, may;                          // metadata blocks certainly and possibly read on the way
};
typedef vector<Outcome> Outcomes;
Outcomes resolve(const Image &im, const string &path, bool follow_last, const Node *start = nullptr);
string strip_alias(const Image &im, const string &target);

// The calls by which images are asked; C19 puts the intercepted ones here
struct Api {
	int (*open)(sqfs *, const char *) = squash_open; int (*close)(int) = squash_close; ssize_t (*read)(int, void *, sqfs_off_t) = squash_read; off_t (*lseek)(int, off_t, int) = squash_lseek;
	int (*stat)(sqfs *, const char *, struct stat *) = squash_stat, (*lstat)(sqfs *, const char *, struct stat *) = squash_lstat, (*fstat)(int, struct stat *) = squash_fstat;
	ssize_t (*readlink)(sqfs *, const char *, char *, size_t) = squash_readlink; SQUASH_DIR *(*opendir)(sqfs *, const char *) = squash_opendir; int (*closedir)(SQUASH_DIR *) = squash_closedir; struct SQUASH_DIRENT *(*readdir)(SQUASH_DIR *) = squash_readdir;
	long (*telldir)(SQUASH_DIR *) = squash_telldir; void (*seekdir)(SQUASH_DIR *, long) = squash_seekdir, (*rewinddir)(SQUASH_DIR *) = squash_rewinddir;
	int (*scandir)(sqfs *, const char *, struct SQUASH_DIRENT ***, int (*)(const struct SQUASH_DIRENT *), int (*)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **)) = squash_scandir;
};
extern Api api;
// How an answer is judged
struct Tol {
	const vector<char> *bad = nullptr;              // damaged blocks of the image, by index in Image::blks
	bool may_fail = false;                          // a resource is missing: failing is all right
	bool errnos = false;                            // the reason of a failure counts
	bool any_bad(const vector<int> &v) const { if (bad) for (int b : v) if (b >= 0 && (*bad)[b]) return true; return false; }
	bool bad_range(int a, int b) const { if (bad && a >= 0) for (int i = a; i <= b; ++i) if ((*bad)[i]) return true; return false; }
	bool is_bad(int b) const { return bad && b >= 0 && (*bad)[b]; }
};
struct Asked { bool failed = false; string answer; }; // whether it failed (acceptably)

enum QKind { Q_STAT, Q_LSTAT, Q_OPENREAD, Q_READLINK, Q_LIST, Q_SCAN, Q_TRAVERSE, Q_LOOKUP, Q_EXPORT, Q_ID, Q_READINODE, Q_ITERATE, Q_KINDS };
extern const char *qname[];
struct Query {
	QKind kind; string path; const Node *node = nullptr; // by path, or by node
	u64 off = 0, len = 0, arg = 0; u64 seed = 0;
	int preset = 0;                                  // errno before the call
	string describe() const;
};
Query random_query(Rng &r, const Image &im, unsigned kinds = ~0u);
Asked ask(sqfs *fs, const Image &im, const Query &q, const Tol &tol = Tol());

// A path of the node, perhaps spelled in a strange but equivalent way
string spell(Rng &r, const Image &im, const Node *n);
// A path that most likely does not exist
string miss(Rng &r, const Image &im);
const Node *random_node(Rng &r, const Image &im, int type = 0);

// Pieces for drivers with histories of their own
string check_stat(const Image &im, const Node *n, const struct stat &st);      // "" or what is wrong
string compare(const Content &c, u64 off, const u8 *got, size_t n);             // "" or the first difference
int dtype(const Node *n);
// which errnos a failed call on this path may have; whether it may fail at all
vector<const Node *> judge(const char *call, const string &path, const Outcomes &oc, bool ok, int err, const Tol &tol);
// does reading [off, off+len) of the file need / perhaps touch a damaged block
bool read_must_fail(const Image &im, const Node *n, u64 off, u64 len, const Tol &tol);
bool read_may_fail(const Image &im, const Node *n, u64 off, u64 len, const Tol &tol);
extern "C" void vf_free(void *);

// reads and checks an inode
bool get_inode(sqfs *fs, const Image &im, const Node *n, sqfs_inode &i, const Tol &tol, Asked &a);
// A traversal and the monitor that follows it
struct TravMon {
	sqfs *fs; const Image &im; Tol tol; Rng r; bool pruning; sqfs_traverse t;
	struct Level { const Node *d; size_t next; string path; }; vector<Level> st;
	bool opened = false, done = false, failed = false, broken = false; int ends = 0; u64 events = 0, prunes = 0; size_t depth = 1;
	TravMon(sqfs *, const Image &, const Node *, const Tol &, u64 seed, bool prune);
	bool step();            // one event; false when there is nothing more to see
	void close();
	~TravMon() { close(); }
	TravMon(const TravMon &) = delete;
};
// Damages some compressed blocks of the image so that they cannot be decompressed
vector<char> damage(Rng &r, Image &im, int pct, unsigned whats = ~0u);
// leak accounting: what the library has allocated, and the descriptors open in the process
struct Ledger { u64 blocks, bytes; vector<int> fds; Ledger(); string against(const Ledger &before) const; };

// opens an image; a failure is a violation
struct Opened {
	Image *im; Mapped *mem; sqfs *fs; bool own_mem;
	Opened(Image &im, Rng &r, bool variety = true, void *at = nullptr);
	~Opened();
	void close();                                   // destroys the library's object early
	Opened(const Opened &) = delete;
};
