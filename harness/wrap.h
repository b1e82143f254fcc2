// The interception layer, as wrap.c sees it
#pragma once
#include "session.h"
#include <sys/uio.h>
#include <dlfcn.h>
extern "C" {
int w_stat(const char *, struct stat *), w_lstat(const char *, struct stat *), w_fstat(int, struct stat *);
int w_open2(const char *, int), w_open3(const char *, int, mode_t), w_openat3(int, const char *, int), w_openat4(int, const char *, int, mode_t), w_close(int);
ssize_t w_read(int, void *, size_t), w_pread(int, void *, size_t, off_t), w_readv(int, const struct iovec *, int); off_t w_lseek(int, off_t, int); ssize_t w_readlink(const char *, char *, size_t);
DIR *w_opendir(const char *); DIR *w_fdopendir(int); int w_closedir(DIR *); struct dirent *w_readdir(DIR *); long w_telldir(DIR *); void w_seekdir(DIR *, long); void w_rewinddir(DIR *); int w_dirfd(DIR *);
int w_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));
void *w_dlopen(const char *, int); int w_access(const char *, int), w_mkdir(const char *, mode_t), w_execv(const char *, char *const[]), w_chdir(const char *); char *w_getcwd(char *, size_t); char *w_getwd(char *);
int w_if(const char *); const char *w_ifextract(const char *, const char *);
extern sqfs *enclose_io_fs;
}
static const char *const MOUNT = "/__enclose_io_memfs__";
// Moves everything in the image below the directory the layer expects; call before build()
inline Node *mount_tree(Image &im) {
	vector<Ent> kids; kids.swap(im.root->kids); u32 dirs = 0; for (auto &e : kids) if (e.node->isdir()) ++dirs; im.root->nlink = 2;
	Node *m = im.add(im.root, MOUNT + 1, T_DIR); m->perm = 0755; m->nlink += dirs; m->kids.swap(kids); for (auto &n : im.nodes) if (n.get() != m && n->parent == im.root) n->parent = m;
	for (auto &n : im.nodes) if (n.get() != m && n.get() != im.root) n->path = string(MOUNT + 1) + "/" + n->path;
	return m; }
// Removes dots, dot-dots and repeated slashes; "" if it climbs above the root
inline bool normal(const string &p, string &out) {
	vector<string> c; size_t i = 0; bool ok = true; while (i < p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); string x = p.substr(i, j - i); i = j + 1; if (x.empty() || x == ".") continue; if (x == "..") { if (c.empty()) ok = false; else c.pop_back(); continue; } c.push_back(x); }
	out.clear(); for (auto &x : c) out += "/" + x; if (out.empty()) out = "/"; return ok; }
inline bool under_mount(const string &p) { size_t n = strlen(MOUNT); return p.compare(0, n, MOUNT) == 0 && (p.size() == n || p[n] == '/'); }
// the path never leaves the mount point, read from left to right
inline bool stays(const string &p) {
	if (!under_mount(p)) return false; int depth = -1; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); string x = p.substr(i, j - i); i = j + 1; if (x.empty() || x == ".") continue; if (x == "..") { if (--depth < 0) return false; } else ++depth; } return true; }
