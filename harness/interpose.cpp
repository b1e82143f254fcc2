// The library's undefined references to the allocator, descriptors, stdio, locks and zlib are renamed to these.
#include "vf.h"
#include <unordered_map>
#include <mutex>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <zlib.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#else
#define VF_TSAN 0
#endif

Interpose ip;
static std::mutex *mu = new std::mutex; // never destroyed: used during exit
struct Live { size_t size; u64 seq; };
static auto *live = new std::unordered_map<void *, Live>;
static u64 live_bytes_, seq_;
static u64 nth[Interpose::KINDS]; static bool sticky_[Interpose::KINDS]; static u64 seen_[Interpose::KINDS]; static u64 fired_;
static bool delays_on; static u64 delay_seed;

static void delay(int where) {
	if (!delays_on) return;
	static thread_local Rng *r; static thread_local u64 mine; static thread_local u64 tid;
	if (!r || mine != delay_seed) { if (!tid) tid = (u64)pthread_self(); delete r; mine = delay_seed; r = new Rng(delay_seed * 1000003 + (tid >> 6)); }
	switch (r->below(64)) {
	case 0: { timespec t{0, (long)r->below(200000)}; nanosleep(&t, nullptr); break; }
	case 1: case 2: case 3: case 4: case 5: case 6: sched_yield(); break;
	case 7: case 8: { volatile u64 x = 0; u64 n = r->below(2000); for (u64 i = 0; i < n; ++i) x = x + i; break; }
	default: break;
	}
	(void)where;
}
static bool fail(Interpose::Kind k) {
#if VF_TSAN
	(void)k; return false;
#else
	std::lock_guard<std::mutex> g(*mu);
	++seen_[k];
	if (nth[k] && (seen_[k] == nth[k] || (sticky_[k] && seen_[k] > nth[k]))) { ++fired_; return true; }
	return false;
#endif
}
static void *track(void *p, size_t n) {
#if !VF_TSAN
	if (p) { std::lock_guard<std::mutex> g(*mu); (*live)[p] = Live{n, ++seq_}; live_bytes_ += n; }
#endif
	return p;
}
static bool untrack(void *p) {
#if !VF_TSAN
	if (p) { std::lock_guard<std::mutex> g(*mu); auto i = live->find(p); if (i != live->end()) { live_bytes_ -= i->second.size; live->erase(i); return true; } }
#endif
	return false;
}
u64 Interpose::live_blocks() { std::lock_guard<std::mutex> g(*mu); return live->size(); }
u64 Interpose::live_bytes() { std::lock_guard<std::mutex> g(*mu); return live_bytes_; }
u64 Interpose::allocs() { std::lock_guard<std::mutex> g(*mu); return seq_; }
string Interpose::describe_live(size_t max) { std::lock_guard<std::mutex> g(*mu); vector<std::pair<u64, size_t>> v; for (auto &l : *live) v.push_back({l.second.seq, l.second.size}); std::sort(v.rbegin(), v.rend()); string s; for (size_t i = 0; i < v.size() && i < max; ++i) s += fmt(" #%llu:%zu", (unsigned long long)v[i].first, v[i].second); return s; }
void Interpose::arm(Kind k, u64 n, bool st) { std::lock_guard<std::mutex> g(*mu); for (int i = 0; i < KINDS; ++i) seen_[i] = 0; nth[k] = n; sticky_[k] = st; fired_ = 0; }
void Interpose::disarm() { std::lock_guard<std::mutex> g(*mu); for (int i = 0; i < KINDS; ++i) nth[i] = 0; }
u64 Interpose::seen(Kind k) { std::lock_guard<std::mutex> g(*mu); return seen_[k]; }
u64 Interpose::fired() { std::lock_guard<std::mutex> g(*mu); return fired_; }
void Interpose::reset_seen() { std::lock_guard<std::mutex> g(*mu); for (int i = 0; i < KINDS; ++i) seen_[i] = 0; fired_ = 0; }
void Interpose::delays(bool on, u64 seed) { delays_on = on; delay_seed = seed; }

// zlib is not instrumented: what it is given is checked here
static void check_range(const void *p, size_t n, const char *what) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
	if (n > (1u << 26)) violation("uncompress-size", fmt("uncompress is given a %s of %zu bytes", what, n));
	if (n) if (void *bad = __asan_region_is_poisoned((void *)p, n)) violation("uncompress-range", fmt("uncompress is given a %s of %zu bytes, of which only the first %zu are valid", what, n, (size_t)((char *)bad - (char *)p)));
#endif
#endif
	(void)p; (void)n; (void)what;
}
extern "C" {
void *vf_malloc(size_t n) { delay(0); if (fail(Interpose::MALLOC)) { errno = ENOMEM; return nullptr; } return track(malloc(n), n); }
void *vf_calloc(size_t a, size_t b) { delay(0); if (fail(Interpose::MALLOC)) { errno = ENOMEM; return nullptr; } return track(calloc(a, b), a * b); }
void *vf_realloc(void *p, size_t n) {
	delay(0);
	if (fail(Interpose::MALLOC)) { errno = ENOMEM; return nullptr; }
	bool known = untrack(p); (void)known;
	return track(realloc(p, n), n);
}
void *vf_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return vf_realloc(p, a * b); }
void vf_free(void *p) { delay(0); untrack(p); free(p); }
char *vf_strdup(const char *s) { delay(0); if (fail(Interpose::MALLOC)) { errno = ENOMEM; return nullptr; } char *p = strdup(s); track(p, p ? strlen(p) + 1 : 0); return p; }
char *vf___strdup(const char *s) { return vf_strdup(s); }
char *vf_strndup(const char *s, size_t n) { delay(0); if (fail(Interpose::MALLOC)) { errno = ENOMEM; return nullptr; } char *p = strndup(s, n); track(p, p ? strlen(p) + 1 : 0); return p; }
int vf_dup(int fd) { delay(1); if (fail(Interpose::DUP)) { errno = EMFILE; return -1; } int r = dup(fd); delay(1); return r; }
int vf_close(int fd) { delay(1); int r = close(fd); delay(1); return r; }
int vf_uncompress(Bytef *d, uLongf *dl, const Bytef *s, uLong sl) { delay(2); check_range(s, sl, "source"); check_range(d, *dl, "destination"); if (fail(Interpose::UNCOMPRESS)) return Z_MEM_ERROR; return uncompress(d, dl, s, sl); }
FILE *vf_fopen(const char *p, const char *m) { delay(3); if (fail(Interpose::STDIO)) { errno = ENOSPC; return nullptr; } if (ip.before_fopen) ip.before_fopen(p); return fopen(p, m); }
FILE *vf_fopen64(const char *p, const char *m) { return vf_fopen(p, m); }
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (fail(Interpose::STDIO)) { errno = ENOSPC; return 0; } return fwrite(p, s, n, f); }
int vf_fclose(FILE *f) { if (fail(Interpose::STDIO)) { fclose(f); errno = ENOSPC; return EOF; } return fclose(f); }
int vf_pthread_mutex_lock(pthread_mutex_t *m) { delay(4); int r = pthread_mutex_lock(m); delay(5); return r; }
int vf_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); delay(6); return r; }
}
