#include "vf.h"
#include <stdarg.h>
#include <atomic>
#include <mutex>
#include <sys/wait.h>

Options opt;
static std::mutex mu;
static map<string, u64> counters;
static std::set<u64> distincts;
static u64 nevaluated;
static vector<string> samples;
static string the_case;
static vector<string> notes;

string fmt(const char *f, ...) {
	va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a);
	string r = n < 0 ? "" : string(p, n); free(p); return r;
}
string show(const string &s) {
	string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		if (i == 160) { r += fmt("...[%zu bytes]", s.size()); break; }
		u8 c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else r += fmt("\\x%02x", c);
	}
	return r + "\"";
}
string errname(int e) {
	const char *n = strerrorname_np(e);
	return n ? n : fmt("errno %d", e);
}
static void jstr(FILE *f, const string &s) {
	fputc('"', f);
	for (u8 c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c >= 32 && c < 127) fputc(c, f); else fprintf(f, "\\u%04x", c); }
	fputc('"', f);
}
void print_results() {
	std::lock_guard<std::mutex> g(mu);
	FILE *f = stdout;
	fprintf(f, "VF-RESULT {\"evaluations\": %llu, \"distinct\": [", (unsigned long long)nevaluated);
	bool first = true; size_t k = 0;
	for (u64 h : distincts) { if (k++ >= 200000) break; fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h & 0xffffffffffffull)); first = false; }
	fprintf(f, "], \"counters\": {"); first = true;
	for (auto &c : counters) { fprintf(f, "%s", first ? "" : ", "); jstr(f, c.first); fprintf(f, ": %llu", (unsigned long long)c.second); first = false; }
	fprintf(f, "}, \"samples\": ["); first = true;
	for (auto &s : samples) { fprintf(f, "%s", first ? "" : ", "); jstr(f, s); first = false; }
	fprintf(f, "]}\n"); fflush(f);
}
void violation(const string &sig, const string &detail) {
	// no library state is touched from here on
	static std::atomic<int> once{0};
	if (once++) { pause(); }
	string s = "VF-VIOLATION " + sig + " | " + detail + "\n";
	s += "VF-CASE " + the_case + "\n";
	size_t from = notes.size() > 60 ? notes.size() - 60 : 0;
	for (size_t i = from; i < notes.size(); ++i) s += "VF-NOTE " + notes[i] + "\n";
	fwrite(s.data(), 1, s.size(), stdout); fflush(stdout);
	_exit(1);
}
void harness_error(const string &detail) {
	printf("VF-HARNESS-ERROR %s (case %s)\n", detail.c_str(), the_case.c_str()); fflush(stdout);
	_exit(2);
}
void count(const char *key, u64 n) { std::lock_guard<std::mutex> g(mu); counters[key] += n; }
void distinct(u64 h) { std::lock_guard<std::mutex> g(mu); if (distincts.size() < 200000) distincts.insert(h & 0xffffffffffffull); }
void evaluated(u64 n) { std::lock_guard<std::mutex> g(mu); nevaluated += n; }
void sample(const string &s) { std::lock_guard<std::mutex> g(mu); if (samples.size() < 3) samples.push_back(s); }
void set_case(const string &s) { the_case = s; notes.clear(); printf("VF-BEGIN %s\n", s.c_str()); fflush(stdout); }
void note(const string &s) {
	std::lock_guard<std::mutex> g(mu);
	if (notes.size() > 4000) notes.erase(notes.begin(), notes.begin() + 2000);
	notes.push_back(s);
}
void clear_results() { std::lock_guard<std::mutex> g(mu); counters.clear(); distincts.clear(); samples.clear(); nevaluated = 0; }
string dump_results() {
	std::lock_guard<std::mutex> g(mu); string s = fmt("e %llu\n", (unsigned long long)nevaluated);
	for (u64 h : distincts) s += fmt("d %llu\n", (unsigned long long)h);
	for (auto &c : counters) s += fmt("c %llu %s\n", (unsigned long long)c.second, c.first.c_str());
	return s;
}
void absorb_results(const string &dump) {
	size_t i = 0;
	while (i < dump.size()) {
		size_t j = dump.find('\n', i); if (j == string::npos) break; string l = dump.substr(i, j - i); i = j + 1; if (l.size() < 3) continue; char *rest; u64 v = strtoull(l.c_str() + 2, &rest, 10);
		if (l[0] == 'e') evaluated(v); else if (l[0] == 'd') distinct(v); else if (l[0] == 'c' && *rest) count(rest + 1, v);
	}
}
vector<int> open_fds() {
	vector<int> r; DIR *d = opendir("/proc/self/fd"); if (!d) harness_error("no /proc/self/fd");
	int self = dirfd(d);
	while (dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue; int n = atoi(e->d_name); if (n != self) r.push_back(n); }
	closedir(d); std::sort(r.begin(), r.end()); return r;
}
#include <pthread.h>
void with_stack(size_t bytes, std::function<void()> f) {
	pthread_attr_t a; pthread_attr_init(&a); if (pthread_attr_setstacksize(&a, bytes)) harness_error("stack size");
	pthread_t t; if (pthread_create(&t, &a, [](void *p) -> void * { (*(std::function<void()> *)p)(); return nullptr; }, &f)) harness_error("pthread_create");
	pthread_join(t, nullptr); pthread_attr_destroy(&a);
}
