// Common ground of the harness: random numbers, counters, verdicts, and the library's API.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
extern "C" {
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"
}
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
using std::string; using std::vector; using std::map; using std::set;

inline u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(int pct) { return (int)below(100) < pct; }
	template<class T> T &pick(vector<T> &v) { return v[below(v.size())]; }
	template<class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
	template<class T> void shuffle(vector<T> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};
inline u64 fnv(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull) { const u8 *b = (const u8 *)p; while (n--) { h ^= *b++; h *= 0x100000001b3ull; } return h; }
inline u64 fnvs(const string &s, u64 h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }

string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
string show(const string &s);           // printable, shortened
string errname(int e);

// Verdicts. A violation is printed and ends the process with status 1.
[[noreturn]] void violation(const string &sig, const string &detail);
// The harness itself is broken: status 2 (never a verdict about the library).
[[noreturn]] void harness_error(const string &detail);
#define VF_CHECK(cond, sig, ...) do { if (!(cond)) violation(sig, fmt(__VA_ARGS__)); } while (0)

// What the monitors observed
void count(const char *key, u64 n = 1);
void distinct(u64 h);                   // a distinct non-trivial case was evaluated
void evaluated(u64 n = 1);
void sample(const string &s);           // a few cases, written out
void set_case(const string &s);         // description of the running case, for reports
void note(const string &s);             // last actions of the running case, for reports
// for a case that runs in a process of its own: what it observed, sent to its parent
void clear_results();
string dump_results();
void absorb_results(const string &dump);

struct Options { string prop; u64 seed = 1; u64 first = 0; u64 cases = 1; bool thorough = false; string scratch; };
extern Options opt;

// interposition (interpose.cpp): what the library's undefined references were renamed to
struct Interpose {
	// accounting
	u64 live_blocks(), live_bytes();
	u64 allocs();                       // allocations so far
	string describe_live(size_t max);
	// fault injection: fail the n-th (from 1) counted event of a kind from now on; 0 = never
	enum Kind { MALLOC, DUP, UNCOMPRESS, STDIO, KINDS };
	void arm(Kind k, u64 nth, bool sticky = false);
	void disarm();
	u64 seen(Kind k);                   // events since arm/reset
	u64 fired();
	void reset_seen();
	// called before the library creates a file
	std::function<void(const char *)> before_fopen;
	// delays
	void delays(bool on, u64 seed);
};
extern Interpose ip;
extern "C" { void vf_free(void *); void *vf_malloc(size_t); }

// descriptors open in this process
vector<int> open_fds();
