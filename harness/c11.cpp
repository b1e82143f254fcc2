// C11: many threads
#include "session.h"
#include <pthread.h>
#include <atomic>
void prop_init() { start_library(); }
void prop_done() {}
namespace {
struct Job { int what; sqfs *fs; Image *im; Tol tol; u64 seed; int ops; unsigned kinds; u64 did = 0, failed = 0, hist = 0; std::atomic<int> *go; map<string, string> *got = nullptr; vector<Image *> own; vector<Node *> wide; string dir; };
u64 ident(int fd) { struct stat st; if (fstat(fd, &st)) return 0; return st.st_ino * 1000 + st.st_dev % 1000; }
void check_copy(const Image &im, const Node *n, const char *f) {
	const Content &c = *im.contents[n->content]; int fd = ::open(f, O_RDONLY); if (fd < 0) violation("extract-gone", fmt("the extracted copy of %s cannot be opened: %s", show(n->path).c_str(), errname(errno).c_str()));
	vector<u8> buf(c.size + 10); size_t got = 0; ssize_t k; while ((k = ::read(fd, &buf[got], buf.size() - got)) > 0) got += k; ::close(fd);
	if (got != c.size) violation("extract-size", fmt("the extracted copy of %s has %zu bytes, packed %llu", show(n->path).c_str(), got, (unsigned long long)c.size)); string w = compare(c, 0, buf.data(), got); if (!w.empty()) violation("extract-bytes", "an extracted copy: " + w); }
void *work(void *arg) {
	Job &j = *(Job *)arg; Rng r(j.seed); j.go->fetch_sub(1); while (j.go->load() > 0) sched_yield();
	switch (j.what) {
	case 0: { Session s(j.fs, *j.im, j.tol, j.seed); s.quiet = true; s.kinds = j.kinds; s.max_held = 4; for (int i = 0; i < j.ops; ++i) s.op(); s.check_held(); s.close_all(); j.did = s.ops; j.failed = s.failures; j.hist = s.hist; break; }
	case 1: { // opens, closes and reopens files and streams quickly, with real descriptors in between
		struct Real { int fd; u64 id; }; vector<Real> real; Session s(j.fs, *j.im, j.tol, j.seed); s.quiet = true; s.max_held = 12;
		for (int i = 0; i < j.ops; ++i) { int k = (int)r.below(10); if (k < 3) s.open_fd(); else if (k < 5) s.open_dir(); else if (k < 6) s.read_fd(); else if (k < 7) s.read_dir(); else if (k < 8) { s.close_fd(); s.close_dir(); } else if (real.size() < 6) { int fd = ::open(r.chance(50) ? "/dev/null" : "/dev/zero", O_RDONLY); if (fd >= 0) { if (SQUASH_VALID_VFD(fd)) violation("clash-real", "a real descriptor is recognised as virtual"); real.push_back(Real{fd, ident(fd)}); } } else { size_t x = r.below(real.size()); if (ident(real[x].fd) != real[x].id) violation("real-touched", "a real descriptor of this thread was closed or changed"); ::close(real[x].fd); real.erase(real.begin() + x); }
			for (auto &f : s.fds) if (!SQUASH_VALID_VFD(f.fd)) violation("not-recognised", "an open descriptor is not recognised"); for (auto &d : s.dirs) if (!squash_find_entry(d.d)) violation("stream-unknown", "an open stream is not recognised"); ++j.did; }
		for (auto &x : real) { if (ident(x.fd) != x.id) violation("real-touched", "a real descriptor of this thread was closed or changed"); ::close(x.fd); } s.close_all(); break; }
	case 2: { // images of its own, opened and destroyed again and again
		for (int i = 0; i < j.ops / 15 + 1; ++i) { Image &im = *j.own[r.below(j.own.size())]; Opened o(im, r); Session s(o.fs, im, Tol(), r.next()); s.quiet = true; for (int k = 0; k < 15; ++k) { s.op(); ++j.did; } s.close_all(); } break; }
	case 3: { // extraction, also of what others extract
		vector<Node *> files; for (auto &n : j.im->nodes) if (n->type == T_REG && j.im->contents[n->content]->size < 100000) files.push_back(n.get());
		for (int i = 0; i < j.ops / 4 + 1 && !files.empty(); ++i) { ++j.did; if (r.chance(15)) { string p = r.chance(50) ? "/no such file" : "/" + random_node(r, *j.im, T_DIR)->path; if (squash_extract(j.fs, p.c_str(), "x")) violation("extract-what", "extracting something that is no file succeeded"); continue; }
			Node *n = files[r.below(std::min<size_t>(files.size(), 6))]; string p = "/" + n->path; const char *f = squash_extract(j.fs, p.c_str(), "so"); if (!f) { if (!j.tol.bad) violation("extract-failed", fmt("extracting %s failed with %s", show(p).c_str(), errname(errno).c_str())); continue; }
			string name = f; auto it = j.got->find(p); if (it == j.got->end()) (*j.got)[p] = name; else if (it->second != name) violation("extract-again", "extracting a file again gave another copy"); if (j.tol.bad && read_must_fail(*j.im, n, 0, ~0u, j.tol)) violation("read-damaged", "a file with a damaged block was extracted"); check_copy(*j.im, n, f); } break; }
	case 4: { // far into large files, more of them than there is room for block indexes
		vector<u8> buf(20000); for (int i = 0; i < j.ops / 8; ++i) { Node *n = r.pick(j.wide); const Content &c = *j.im->contents[n->content]; int fd = squash_open(j.fs, ("/" + n->path).c_str()); if (fd < 0 && j.tol.bad) continue; if (fd < 0) violation("open-failed", fmt("opening %s failed with %s", show(n->path).c_str(), errname(errno).c_str()));
			for (int k = 0; k < 3; ++k) { u64 at = r.below(c.size), len = 1 + r.below(buf.size()); if (squash_lseek(fd, (off_t)at, SEEK_SET) != (off_t)at) violation("seek", fmt("seeking %s to %llu failed", show(n->path).c_str(), (unsigned long long)at)); errno = 0; ssize_t got = squash_read(fd, buf.data(), len); ++j.did; if (got >= 0 && read_must_fail(*j.im, n, at, len, j.tol)) violation("read-damaged", "a read returned although a block it needs is damaged"); len = std::min(len, c.size - at);
				if (got < 0) { if (!read_may_fail(*j.im, n, at, len, j.tol)) violation("read-failed", fmt("reading %s at %llu failed with %s", show(n->path).c_str(), (unsigned long long)at, errname(errno).c_str())); ++j.failed; continue; }
				if ((u64)got != len) violation("read-short", fmt("reading %llu bytes of %s at %llu returned %zd", (unsigned long long)len, show(n->path).c_str(), (unsigned long long)at, got)); string w = compare(c, at, buf.data(), got); if (!w.empty()) violation("read-bytes", fmt("%s at %llu: ", show(n->path).c_str(), (unsigned long long)at) + w); }
			if (squash_close(fd)) violation("close", "closing an open descriptor failed"); } break; }
	}
	return nullptr;
}
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.max_file = r.chance(50) ? 20000 : 60000; if (p.bs_log > 16) p.bs_log = 12 + (int)r.below(4); p.dirs = 3 + (int)r.below(10); p.files = 5 + (int)r.below(40); if (p.ids > 100) p.ids = 50; auto im = random_image(r, p);
	if (index % 3 == 0) { Node *d = im->add(im->root, free_name(im->root, "many"), T_DIR); int n = 200 + (int)r.below(900); for (int i = 0; i < n; ++i) { Node *f = im->add(d, free_name(d, fmt("e%d", i) + string(r.below(60), 'n')), T_DIR + (int)r.below(7)); random_meta(r, *im, f); if (f->type == T_REG) im->content(f, r.below(100), Content::TEXT, r.next()); if (f->type == T_LNK) f->target = "gone"; } }
	if (index % 4 == 2) { Node *f = im->add(im->root, free_name(im->root, "long"), T_REG); random_meta(r, *im, f); im->content(f, (2100 + r.below(1000)) * (1ull << p.bs_log), Content::SPARSE, r.next())->sparse_every = 60; }
	vector<Node *> wide; // more large files than there is room for block indexes
	if (index % 4 == 3) { int n = 10 + (int)r.below(3); for (int i = 0; i < n; ++i) { Node *f = im->add(im->root, free_name(im->root, fmt("wide%d", i)), T_REG); random_meta(r, *im, f); Content *c = im->content(f, (2060 + r.below(900)) * (1ull << p.bs_log) + r.below(1ull << p.bs_log), Content::SPARSE, r.next()); c->sparse_every = 300; c->frag = r.chance(50); wide.push_back(f); } }
	im->build(r); vector<char> bad; bool hurt = index % 5 == 3; if (hurt) bad = damage(r, *im, 15); note(im->prof.describe()); Tol tol; if (hurt) tol.bad = &bad; tol.errnos = true;
	vector<std::unique_ptr<Image>> own; for (int i = 0; i < 3; ++i) { Profile q = random_profile(r); q.bs_log = 12; q.files = 8; q.max_file = 9000; q.ids = 2; own.push_back(random_image(r, q)); own.back()->build(r); }
	std::unique_ptr<Opened> shared, second; Ledger l0; u64 did = 0, failed = 0, h = 0; int rounds = 3; Ledger mid; u64 seeds[16]; for (auto &s : seeds) s = r.next(); u64 shape = r.next();
	for (int round = 0; round < rounds; ++round) {
		Rng q(shape); shared.reset(new Opened(*im, q, false)); second.reset(new Opened(*own[0], q, false)); int n = 2 + (int)q.below(7); std::atomic<int> go{n}; vector<Job> jobs(n); vector<pthread_t> ts(n); vector<map<string, string>> got(2); int mode = (int)q.below(5);
		std::vector<map<string, string>> gots(n); ip.delays(q.chance(75), seeds[0] + round); static const unsigned some[] = {~0u, ~0u, 1u << Q_OPENREAD | 1u << Q_READINODE, 1u << Q_STAT | 1u << Q_LSTAT | 1u << Q_LIST, 1u << Q_LIST | 1u << Q_SCAN | 1u << Q_ITERATE | 1u << Q_TRAVERSE}; unsigned kinds = some[q.below(5)];
		for (int i = 0; i < n; ++i) { Job &j = jobs[i]; j.go = &go; j.seed = seeds[1 + i]; j.ops = 60 + (int)q.below(140); j.kinds = kinds; bool two = q.chance(15); j.fs = two ? second->fs : shared->fs; j.im = two ? own[0].get() : im.get(); if (!two) j.tol = tol; for (auto &x : own) j.own.push_back(x.get()); j.got = &gots[i];
			int k = (int)q.below(10); j.what = mode == 0 ? 0 : mode == 1 ? (k < 5 ? 1 : 0) : mode == 2 ? (k < 5 ? 3 : 0) : mode == 3 ? (k < 5 ? 2 : 0) : (int)q.below(4); if (!wide.empty() && !two && k < 8) { j.what = 4; j.wide = wide; } if (mode == 1 && i < 2) j.what = 1; if (mode == 2 && i < 2) j.what = 3; h = mix64(h ^ j.what * 3 ^ j.seed); }
		if (round == 0 && index < 3) sample(fmt("%d threads on one image, mode %d%s", n, mode, hurt ? ", damaged" : ""));
		set_case(fmt("C11 seed=%llu case=%llu", (unsigned long long)opt.seed, (unsigned long long)index)); note(fmt("%d threads, mode %d, round %d", n, mode, round));
		for (int i = 0; i < n; ++i) if (pthread_create(&ts[i], nullptr, work, &jobs[i])) harness_error("pthread_create");
		for (auto t : ts) pthread_join(t, nullptr);
		ip.delays(false, 0); for (auto &j : jobs) { did += j.did; failed += j.failed; h = mix64(h ^ j.hist); count(j.what == 0 ? "threads asking" : j.what == 1 ? "threads opening and closing" : j.what == 2 ? "threads with images of their own" : j.what == 4 ? "threads far into large files" : "threads extracting"); }
		// copies agree between threads
		map<std::pair<sqfs *, string>, string> all; for (int i = 0; i < n; ++i) for (auto &x : gots[i]) { auto k = std::make_pair(jobs[i].fs, x.first); if (all.count(k) && all[k] != x.second) violation("extract-again", "two threads got different copies of one file of one image"); all[k] = x.second; } set<string> names; for (auto &x : all) if (!names.insert(x.second).second) violation("extract-shared", "two files were extracted to the same copy");
		squash_extract_clear_cache(); for (auto &x : all) if (access(x.second.c_str(), F_OK) == 0) violation("extract-left", "a copy is left after clearing the cache");
		shared.reset(); second.reset(); if (round == 1) mid = Ledger(); evaluated(n); distinct(mix64(h ^ round)); count("thread runs", n);
	}
	Ledger end; if (end.fds != mid.fds) { string w = end.against(mid); violation("leak", "after the threads: " + w); }
	if (end.blocks > mid.blocks + 2) violation("leak", "after the threads: " + end.against(mid));
	count("calls judged in threads", did); count("failing calls in threads", failed);
}
