/* A program built with the interception layer, as a set of functions the drivers can call. */
#define _GNU_SOURCE
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <string.h>
#include "enclose_io.h"
int w_stat(const char *p, struct stat *b) { return stat(p, b); }
int w_lstat(const char *p, struct stat *b) { return lstat(p, b); }
int w_fstat(int fd, struct stat *b) { return fstat(fd, b); }
int w_open2(const char *p, int f) { return open(p, f); }
int w_open3(const char *p, int f, mode_t m) { return open(p, f, m); }
int w_openat3(int d, const char *p, int f) { return openat(d, p, f); }
int w_openat4(int d, const char *p, int f, mode_t m) { return openat(d, p, f, m); }
int w_close(int fd) { return close(fd); }
ssize_t w_read(int fd, void *b, size_t n) { return read(fd, b, n); }
ssize_t w_pread(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t w_readv(int fd, const struct iovec *v, int n) { return readv(fd, v, n); }
off_t w_lseek(int fd, off_t o, int w) { return lseek(fd, o, w); }
ssize_t w_readlink(const char *p, char *b, size_t n) { return readlink(p, b, n); }
DIR *w_opendir(const char *p) { return opendir(p); }
DIR *w_fdopendir(int fd) { return fdopendir(fd); }
int w_closedir(DIR *d) { return closedir(d); }
struct dirent *w_readdir(DIR *d) { return readdir(d); }
long w_telldir(DIR *d) { return telldir(d); }
void w_seekdir(DIR *d, long l) { seekdir(d, l); }
void w_rewinddir(DIR *d) { rewinddir(d); }
int w_dirfd(DIR *d) { return dirfd(d); }
int w_scandir(const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { return scandir(p, l, s, c); }
void *w_dlopen(const char *p, int m) { return dlopen(p, m); }
int w_if(const char *p) { return enclose_io_if(p); }
const char *w_ifextract(const char *p, const char *e) { return enclose_io_ifextract(p, e); }
int w_access(const char *p, int m) { return access(p, m); }
int w_mkdir(const char *p, mode_t m) { return mkdir(p, m); }
int w_execv(const char *p, char *const a[]) { return execv(p, a); }
int w_chdir(const char *p) { return chdir(p); }
char *w_getcwd(char *b, size_t n) { return getcwd(b, n); }
char *w_getwd(char *b) { return getwd(b); }
