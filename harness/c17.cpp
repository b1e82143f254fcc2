// C17: the reason of a failure
#include "farm.h"
#include "session.h"
#include <climits>
void prop_init() { start_library(); }
void prop_done() {}
namespace {
const int presets[] = {0, ENOENT, ELOOP, EIO, EBADF, ENOMEM, EINVAL, ENOTDIR, ENAMETOOLONG, EACCES, 12345, -1, EINTR};
struct Call { int kind; string path; size_t size; int fd; i64 off; int whence; const Node *node; };
enum { STAT, LSTAT, OPEN, OPENDIR, SCANDIR, READLINK, EXTRACT, FD_READ, FD_SEEK, FD_STAT, FD_CLOSE, READ_NONREG, SEEK_BAD, KINDS };
const char *cname[] = {"squash_stat", "squash_lstat", "squash_open", "squash_opendir", "squash_scandir", "squash_readlink", "squash_extract", "squash_read of no descriptor", "squash_lseek of no descriptor", "squash_fstat of no descriptor", "squash_close of no descriptor", "squash_read of no file", "squash_lseek to nowhere"};
struct Got { bool ok; int err; };
// makes the call with the errno given; whatever it opened is closed
Got run(sqfs *fs, const Call &c, int preset) {
	struct stat st; char b[16]; Got g{true, 0}; errno = preset;
	switch (c.kind) {
	case STAT: g.ok = !squash_stat(fs, c.path.c_str(), &st); g.err = errno; break;
	case LSTAT: g.ok = !squash_lstat(fs, c.path.c_str(), &st); g.err = errno; break;
	case OPEN: { int fd = squash_open(fs, c.path.c_str()); g.ok = fd != -1; g.err = errno; if (g.ok && fd < 0) violation("value", fmt("squash_open returned %d", fd)); if (g.ok) squash_close(fd); break; }
	case OPENDIR: { SQUASH_DIR *d = squash_opendir(fs, c.path.c_str()); g.ok = d; g.err = errno; if (d) squash_closedir(d); break; }
	case SCANDIR: { struct SQUASH_DIRENT **l; int n = squash_scandir(fs, c.path.c_str(), &l, nullptr, nullptr); g.ok = n != -1; g.err = errno; if (n < -1) violation("value", fmt("squash_scandir returned %d", n)); if (g.ok) { for (int i = 0; i < n; ++i) vf_free(l[i]); vf_free(l); } break; }
	case READLINK: { char *p = (char *)malloc(c.size + 1); ssize_t n = squash_readlink(fs, c.path.c_str(), p, c.size); g.ok = n != -1; g.err = errno; if (n < -1) violation("value", "squash_readlink returned less than -1"); free(p); break; }
	case EXTRACT: g.ok = squash_extract(fs, c.path.c_str(), "so"); g.err = errno; break;
	case FD_READ: g.ok = squash_read(c.fd, b, 8) != -1; g.err = errno; break;
	case FD_SEEK: g.ok = squash_lseek(c.fd, c.off, c.whence) != -1; g.err = errno; break;
	case FD_STAT: g.ok = squash_fstat(c.fd, &st) != -1; g.err = errno; break;
	case FD_CLOSE: g.ok = squash_close(c.fd) != -1; g.err = errno; break;
	case READ_NONREG: g.ok = squash_read(c.fd, b, 8) != -1; g.err = errno; break;
	case SEEK_BAD: g.ok = squash_lseek(c.fd, c.off, c.whence) != -1; g.err = errno; break;
	}
	return g;
}
string names(const set<int> &s) { string o; for (int e : s) o += (o.empty() ? "" : " or ") + errname(e); return o; }
}
void prop_case(Rng &r, u64 index) {
	Profile p = random_profile(r); p.files = 4 + (int)r.below(12); p.max_file = 3000; p.dirs = 2 + (int)r.below(10); p.links = (int)r.below(10); p.specials = 4; if (r.chance(40)) p.root_alias = "/mnt/"; if (r.chance(20)) p.root_alias2 = "/__enclose_io_memfs__/";
	auto im = random_image(r, p); farm(r, *im); bool hurt = index % 4 == 3; vector<Node *> lengthy; if (hurt && r.chance(70)) { int n = 20 + (int)r.below(60); for (int i = 0; i < n; ++i) { Node *l = im->add(im->root, free_name(im->root, fmt("tl%d", i)), T_LNK); random_meta(r, *im, l); l->target = r.chance(50) ? string(200 + r.below(1700), 't') : fmt("%s/f", string(200 + r.below(1700), '.').c_str()); lengthy.push_back(l); } } im->build(r); vector<char> bad; if (hurt) bad = damage(r, *im, 20); note(im->prof.describe()); Opened o(*im, r); Tol tol; tol.errnos = true; Tol plain; if (hurt) tol.bad = plain.bad = &bad; vector<Node *> links = im->all(T_LNK);
	Session s(o.fs, *im, plain, r.next()); s.max_held = 5; // earlier calls of all kinds
	// descriptors of objects that are no files, and of a file
	vector<std::pair<int, const Node *>> fds; for (int i = 0; i < 6; ++i) { const Node *n = random_node(r, *im, i ? 0 : T_REG); if (!n) continue; int fd = squash_open_inner(o.fs, ("/" + n->path).c_str(), 0); if (fd >= 0) fds.push_back({fd, n}); }
	map<string, int> reasons; // of each failing question, the whole time
	for (int k = 0; k < 260; ++k) {
		Call c{(int)r.below(KINDS), "", 0, -1, 0, 0, nullptr}; set<int> allow; Outcomes oc; bool by_path = c.kind <= EXTRACT, must_fail = false, target = !lengthy.empty() && r.chance(25); // of links whose targets lie in several blocks
		if (target) { c.kind = READLINK; by_path = true; }
		if (by_path) {
			const Node *n = random_node(r, *im); int how = (int)r.below(12);
			switch (how) {
			case 0: case 1: c.path = miss(r, *im); break; case 2: c.path = "/" + n->path; break; case 3: c.path = "/" + n->path + "/x"; break; case 4: case 5: case 6: c.path = "/" + r.pick(!lengthy.empty() && r.chance(60) ? lengthy : links)->path; break; case 7: c.path = "/" + r.pick(links)->path + (r.chance(50) ? "/x" : "/."); break;
			case 8: c.path = spell(r, *im, n); break; case 9: c.path = "/" + n->path + "/../" + (r.chance(50) ? "nothing" : r.pick(links)->path); break; case 10: c.path = "/" + string(200 + r.below(200), 'n'); break; default: c.path = "/" + n->path + string(1 + r.below(3), 'q'); }
			if (target) { c.path = "/" + r.pick(lengthy)->path; } if (c.kind == READLINK) { static const size_t z[] = {0, 1, 2, 10, 100, 4096}; c.size = z[target ? 5 : r.below(6)]; } oc = resolve(*im, c.path, c.kind != LSTAT && c.kind != READLINK);
			if (c.kind == EXTRACT) { bool reg = false; for (auto &x : oc) if (x.node && x.node->type == T_REG) reg = true; if (reg && !r.chance(20)) continue; }
			for (auto &x : oc) if (x.node) { const Node *m = x.node; bool fail = false; set<int> e;
				if ((c.kind == OPENDIR || c.kind == SCANDIR) && !m->isdir()) { fail = true; e = {ENOTDIR, ENOENT}; }
				if (c.kind == EXTRACT && m->type != T_REG) { fail = true; e = {EISDIR, EINVAL, EPERM, ENOTSUP}; }
				if (c.kind == READLINK) { if (m->type != T_LNK) { fail = true; e = {EINVAL}; } else if (c.size < m->target.size() + 1) { if (c.size < strip_alias(*im, m->target).size()) fail = true; e = {ENAMETOOLONG}; allow.insert(ENAMETOOLONG); } }
				if (fail) { x.node = nullptr; x.errs = e; } }
		} else if (c.kind <= FD_CLOSE) {
			static const int v[] = {-1, -2, INT_MIN, INT_MAX, 500, 65536, 0, 1, 2}; c.fd = r.chance(60) ? v[r.below(9)] : (int)r.below(40); if (SQUASH_VFD_FILE(c.fd)) continue; c.off = r.range(-5, 5); c.whence = (int)r.below(4); allow = {EBADF}; must_fail = true;
		} else { if (fds.empty()) continue; auto &f = r.pick(fds); c.fd = f.first; c.node = f.second; must_fail = true; if (c.kind == READ_NONREG) { if (f.second->type == T_REG) continue; allow = f.second->isdir() ? set<int>{EISDIR, EINVAL} : set<int>{EINVAL}; } else { if (f.second->type == T_DIR) continue; if (r.chance(50)) { static const int w[] = {3, -1, 99, INT_MAX, INT_MIN, 4}; c.whence = w[r.below(6)]; c.off = r.range(-3, 100); } else { c.whence = (int)r.below(3); c.off = c.whence == 2 ? -(i64)300000 - (i64)r.below(1000) : -1 - (i64)r.below(1 << 20); if (c.whence == 2 && f.second->type == T_REG && im->contents[f.second->content]->size > 300000) continue; } allow = {EINVAL}; } }
		string d = fmt("%s(%s)", cname[c.kind], by_path ? show(c.path).c_str() : fmt("%d", c.fd).c_str()); if (k < 1 && index < 3) sample(d);
		int times = 2 + (int)r.below(2); string key = fmt("%d %zu %s %d %lld %d", c.kind, c.size, c.path.c_str(), by_path ? 0 : c.fd, (long long)c.off, c.whence);
		for (int t = 0; t < times; ++t) {
			int preset = presets[r.below(13)]; if (t) { int n = (int)r.below(4); while (n-- > 0) { if (c.kind > EXTRACT) { Query q = random_query(r, *im); ask(o.fs, *im, q, plain); } else s.op(); } if (!by_path && c.kind <= FD_CLOSE && SQUASH_VFD_FILE(c.fd)) break; }
			Got g = run(o.fs, c, preset); note(fmt("%s with errno %d -> %s", d.c_str(), preset, g.ok ? "success" : errname(g.err).c_str())); evaluated();
			if (by_path) {
				Tol tt = tol; if (!g.ok && allow.count(g.err)) { tt.may_fail = true; }
				bool listing = false; if (hurt && !g.ok) for (auto &x : oc) if (x.node && (tol.bad_range(x.node->dl0, x.node->dl1) || tol.bad_range(x.node->ix0, x.node->ix1) || (x.node->type == T_REG && c.kind == EXTRACT))) listing = true;
				if (c.kind == READLINK && hurt && g.ok) listing = true;
				if (!listing) judge(cname[c.kind], c.path, oc, g.ok, g.err, tt); else if (!g.ok && !g.err) violation("errno-zero", d + " failed with errno 0");
			} else { if (g.ok && must_fail) violation("no-failure", d + " succeeded"); if (!g.ok && !allow.count(g.err)) violation("wrong-reason", fmt("%s failed with %s after errno was %d, expected %s", d.c_str(), errname(g.err).c_str(), preset, names(allow).c_str())); }
			if (!g.ok) { if (!g.err) violation("errno-zero", d + " failed with errno 0"); count("failures judged"); count(errname(g.err).c_str()); distinct(fnvs(key) ^ preset);
				auto it = reasons.find(key); if (it == reasons.end()) reasons[key] = g.err; else if (it->second != g.err) violation("reason-varies", fmt("%s failed with %s, before with %s; errno was %d", d.c_str(), errname(g.err).c_str(), errname(it->second).c_str(), preset)); else count("equal reasons later"); }
			else if (reasons.count(key) && by_path) violation("reason-varies", d + " succeeded, but failed before");
		}
	}
	for (auto &f : fds) squash_close(f.first); s.close_all(); squash_extract_clear_cache();
}
