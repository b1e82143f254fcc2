#include "query.h"
#include <zlib.h>
Api api;

const char *qname[] = {"stat", "lstat", "open+read", "readlink", "opendir+readdir", "scandir", "traverse", "lookup", "export", "id", "read_range", "dir_open+dir_next"};

string strip_alias(const Image &im, const string &t) {
	auto strip = [&](const string &a) { return !a.empty() && t.compare(0, a.size(), a) == 0; };
	if (strip(im.prof.root_alias)) return t.substr(im.prof.root_alias.size() - 1);
	if (strip(im.prof.root_alias2)) return t.substr(im.prof.root_alias2.size() - 1);
	return t;
}

// ---------------------------------------------------------------- path resolution
namespace {
vector<string> split(const string &s) { vector<string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == '/') ++i; size_t j = i; while (j < s.size() && s[j] != '/') ++j; if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
struct Resolver {
	const Image &im; bool follow_last; const Node *start; bool lexical;
	Resolver(const Image &i, bool f, const Node *s, bool l) : im(i), follow_last(f), start(s), lexical(l) {}
	Outcome err(Outcome o, std::initializer_list<int> e) { o.node = nullptr; o.errs = set<int>(e); return o; }
	// lexical: drop dot-dots from comps, climbing into the stack; false if above the start
	static bool normalize(vector<string> &comps, vector<const Node *> *stack) {
		vector<string> out;
		for (auto &c : comps) {
			if (c != "..") { out.push_back(c); continue; }
			while (!out.empty() && out.back() == ".") out.pop_back();
			if (!out.empty()) out.pop_back();
			else if (stack && stack->size() > 1) stack->pop_back();
			else return false;
		}
		comps = out; return true;
	}
	Outcomes run(const string &path) {
		Outcomes res; Outcome o;
		vector<string> comps = split(path); bool trailing = !path.empty() && path.back() == '/';
		const Node *base = start ? start : im.root;
		vector<const Node *> stack{base};
		if (!start) { for (int b = im.root->in0; b <= im.root->in1; ++b) o.must.push_back(b); }
		if (comps.empty()) { o.node = base; res.push_back(o); if (path.empty()) res.push_back(err(o, {ENOENT})); return res; }
		if (lexical && !normalize(comps, nullptr)) { res.push_back(err(o, {ENOENT})); return res; }
		int links = 0; size_t i = 0; bool maybe_loop = false;
		const Node *cur = base; // last reached object; directories are also on the stack
		while (i < comps.size()) {
			string c = comps[i++];
			if (!cur->isdir()) {
				bool only_dots = true; for (size_t k = i - 1; k < comps.size(); ++k) if (comps[k] != ".") only_dots = false;
				if (only_dots && c == ".") { Outcome k = o; k.node = cur; res.push_back(k); }
				res.push_back(err(o, {ENOENT, ENOTDIR})); goto done;
			}
			if (c == ".") continue;
			if (c == "..") { if (stack.size() > 1) stack.pop_back(); else if (start) { res.push_back(err(o, {ENOENT})); goto done; } cur = stack.back(); continue; }
			// look it up
			if (cur->ix0 != cur->ix1 || cur->in0 != cur->in1) for (int b = cur->ix0; b <= cur->ix1; ++b) o.may.push_back(b);
			if (cur->dl0 >= 0) for (int b = cur->dl0; b <= cur->dl1; ++b) o.may.push_back(b);
			const Ent *e = cur->kid(c);
			if (!e) { res.push_back(c.size() > 255 ? err(o, {ENOENT, ENAMETOOLONG}) : err(o, {ENOENT})); goto done; }
			for (int b = e->hdr_md0; b <= e->hdr_md1; ++b) o.must.push_back(b);
			for (int b = e->md0; b <= e->md1; ++b) o.must.push_back(b);
			const Node *n = e->node;
			for (int b = n->in0; b <= n->in1; ++b) o.must.push_back(b);
			for (int b = n->ix0; b <= n->ix1; ++b) o.may.push_back(b);
			bool last = i == comps.size();
			if (n->type == T_LNK) {
				bool only_dots = true; for (size_t k = i; k < comps.size(); ++k) if (comps[k] != ".") only_dots = false;
				if (last || only_dots) {
					if (!follow_last) {
						bool dup = false; for (auto &x : res) dup = dup || x.node == n;
						if (!dup) { Outcome k = o; k.node = n; res.push_back(k); }
						if (last && !trailing) goto done;
						// "link/" and "link/.": either
					}
				}
				for (int b = n->ix0; b <= n->ix1; ++b) o.must.push_back(b);
				if (++links > 500 || comps.size() > 20000) { res.push_back(err(o, {ELOOP})); goto done; }
				if (links > 32 && !maybe_loop) { maybe_loop = true; res.push_back(err(o, {ELOOP})); }
				if (n->target.size() + 1 >= 2048) res.push_back(err(o, {ENAMETOOLONG}));
				string t = strip_alias(im, n->target);
				vector<string> nc = split(t); nc.insert(nc.end(), comps.begin() + i, comps.end());
				if (t[0] == '/') { stack.assign(1, im.root); for (int b = im.root->in0; b <= im.root->ix1; ++b) o.may.push_back(b); }
				if (lexical) { if (!normalize(nc, &stack)) { res.push_back(err(o, {ENOENT})); goto done; } }
				comps = nc; i = 0; cur = stack.back();
				continue;
			}
			cur = n; if (n->isdir()) stack.push_back(n);
		}
		{
			Outcome k = o; k.node = cur; res.push_back(k);
			if (trailing && !cur->isdir()) res.push_back(err(o, {ENOENT, ENOTDIR}));
		}
	done:
		return res;
	}
};
}
static bool same(const Outcome &a, const Outcome &b) { return a.node == b.node && a.errs == b.errs; }
Outcomes resolve(const Image &im, const string &path, bool follow, const Node *start) {
	Outcomes a = Resolver(im, follow, start, true).run(path);
	Outcomes b = Resolver(im, follow, start, false).run(path);
	for (auto &o : b) { bool dup = false; for (auto &p : a) if (same(o, p)) { dup = true; p.may.insert(p.may.end(), o.may.begin(), o.may.end()); p.may.insert(p.may.end(), o.must.begin(), o.must.end()); } if (!dup) a.push_back(o); }
	return a;
}
// errno of a failure that is only what it was before the call
static void stale(const string &what, int e) { if (e == 12345) violation("stale-errno", what + " failed and left errno as it was"); }
vector<const Node *> judge(const char *call, const string &path, const Outcomes &oc, bool ok, int err, const Tol &tol) {
	vector<const Node *> c; string want; bool fine = false;
	for (auto &o : oc) {
		if (o.node) want += fmt("%s%s", want.empty() ? "" : " or ", show("/" + o.node->path).c_str());
		else { want += want.empty() ? "" : " or "; for (int e : o.errs) want += errname(e) + " "; }
		if (ok) { if (o.node && !tol.any_bad(o.must)) c.push_back(o.node); }
		else { if (!o.node && (!tol.errnos || o.errs.count(err))) fine = true; if (tol.any_bad(o.may) || tol.any_bad(o.must)) fine = true; }
	}
	if (tol.errnos && !ok && err == 0) violation("errno-zero", fmt("%s(%s) failed with errno 0", call, show(path).c_str()));
	if (!ok) stale(fmt("%s(%s)", call, show(path).c_str()), err);
	if (!ok && tol.may_fail) fine = true;
	if (ok && c.empty()) {
		bool damaged = false; for (auto &o : oc) if (o.node) damaged = true;
		violation(damaged ? "read-damaged" : "found-too-much", fmt("%s(%s) succeeded, expected %s%s", call, show(path).c_str(), want.c_str(), damaged ? " to fail: a block it needs is damaged" : ""));
	}
	if (!ok && !fine) {
		bool some_err = false; for (auto &o : oc) if (!o.node) some_err = true;
		violation(some_err ? "wrong-reason" : "not-found", fmt("%s(%s) failed with %s, expected %s", call, show(path).c_str(), errname(err).c_str(), want.c_str()));
	}
	return c;
}

// ---------------------------------------------------------------- checks of answers
int dtype(const Node *n) { static const int t[] = {0, DT_DIR, DT_REG, DT_LNK, DT_BLK, DT_CHR, DT_FIFO, DT_SOCK}; return t[n->type]; }
string check_stat(const Image &im, const Node *n, const struct stat &st) {
	if (st.st_mode != n->mode()) return fmt("mode 0%o, packed 0%o", st.st_mode, n->mode());
	if (st.st_nlink != n->nlink) return fmt("nlink %lu, packed %u", (unsigned long)st.st_nlink, n->nlink);
	if (st.st_mtime != (time_t)n->mtime) return fmt("mtime %ld, packed %u", (long)st.st_mtime, n->mtime);
	if (st.st_mtim.tv_nsec < 0 || st.st_mtim.tv_nsec > 999999999) return fmt("mtime %ld s and %ld ns", (long)st.st_mtime, (long)st.st_mtim.tv_nsec);
	if (n->type == T_REG && (u64)st.st_size != im.contents[n->content]->size) return fmt("size %lld, packed %llu", (long long)st.st_size, (unsigned long long)im.contents[n->content]->size);
	if (n->type == T_LNK && (u64)st.st_size != n->target.size()) return fmt("size %lld, link target has %zu bytes", (long long)st.st_size, n->target.size());
	if (n->type == T_BLK || n->type == T_CHR) {
		dev_t want = makedev((n->rdev >> 8) & 0xfff, (n->rdev & 0xff) | ((n->rdev >> 12) & 0xfff00));
		if (st.st_rdev != want) return fmt("rdev %lx, packed %lx", (unsigned long)st.st_rdev, (unsigned long)want);
	}
	return "";
}
string compare(const Content &c, u64 off, const u8 *got, size_t n) {
	static thread_local vector<u8> want; if (want.size() < 65536) want.resize(65536);
	for (size_t i = 0; i < n;) { size_t t = std::min<size_t>(65536, n - i); c.fill(off + i, t, want.data());
		if (memcmp(want.data(), got + i, t)) { for (size_t k = 0; k < t; ++k) if (want[k] != got[i + k]) return fmt("byte %llu is %02x, packed %02x", (unsigned long long)(off + i + k), got[i + k], want[k]); }
		i += t; }
	return "";
}
static void file_range(const Image &im, const Node *n, u64 off, u64 &len, const Content *&c) { c = im.contents[n->content].get(); if (off >= c->size) len = 0; else len = std::min(len, c->size - off); }
bool read_must_fail(const Image &im, const Node *n, u64 off, u64 len, const Tol &tol) {
	if (!tol.bad) return false;
	const Content *c; file_range(im, n, off, len, c); if (!len) return false;
	u64 b0 = off / c->bs, b1 = (off + len - 1) / c->bs;
	for (u64 b = b0; b <= b1; ++b) {
		if (b < c->data_blk.size()) { if (tol.is_bad(c->data_blk[b])) return true; }
		else if (c->frag) { if (tol.is_bad(im.frag_blk[c->frag_idx]) || tol.is_bad(im.fragtab_blk[c->frag_idx * 16 / 8192])) return true; }
	}
	return false;
}
bool read_may_fail(const Image &im, const Node *n, u64 off, u64 len, const Tol &tol) {
	if (tol.may_fail) return true;
	if (!tol.bad) return false;
	return read_must_fail(im, n, off, len, tol) || tol.bad_range(n->ix0, n->ix1);
}

// ---------------------------------------------------------------- questions
const Node *random_node(Rng &r, const Image &im, int type) {
	if (!type) return im.nodes[r.below(im.nodes.size())].get();
	for (int i = 0; i < 12; ++i) { const Node *n = im.nodes[r.below(im.nodes.size())].get(); if (n->type == type) return n; }
	vector<Node *> v = im.all(type); return v.empty() ? nullptr : v[r.below(v.size())];
}
string spell(Rng &r, const Image &im, const Node *n) {
	int style = (int)r.below(10);
	string s = (style < 7 ? "/" : "") + n->path;
	if (style < 5) return s;
	// the components, with noise
	vector<string> c; { string p = n->path; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == string::npos) j = p.size(); c.push_back(p.substr(i, j - i)); i = j + 1; } }
	const Node *d = im.root; string out = r.chance(70) ? "/" : "";
	for (size_t i = 0; i < c.size(); ++i) {
		for (int k = 0; k < 3 && r.chance(35); ++k) {
			switch (r.below(3)) {
			case 0: out += "./"; break;
			case 1: if (!out.empty()) out += "/"; break;
			case 2: { vector<string> sub; for (auto &e : d->kids) if (e.node->isdir()) sub.push_back(e.name); if (!sub.empty()) { string nm = sub[r.below(sub.size())]; out += nm + (r.chance(30) ? "/./../" : r.chance(30) ? "//../" : "/../"); } break; }
			}
		}
		out += c[i]; const Ent *e = d->kid(c[i]); if (e) d = e->node;
		if (i + 1 < c.size()) { out += "/"; if (d->isdir() && r.chance(10)) { out += ".././" ; out += c[i] + "/"; } }
	}
	if (n->isdir() && r.chance(40)) { static const char *t[] = {"/", "/.", "//", "/./"}; out += out.empty() ? "." : t[r.below(4)]; }
	if (out.empty()) out = "/";
	return out;
}
string miss(Rng &r, const Image &im) {
	const Node *n = random_node(r, im); string p = "/" + n->path;
	switch (r.below(8)) {
	case 0: return p + (char)(33 + r.below(90));
	case 1: return p.substr(0, p.size() - (p.size() > 1 ? 1 : 0));
	case 2: return p + "/" + random_name(r, nullptr, 5);
	case 3: { const Node *f = random_node(r, im, T_REG); return f ? "/" + f->path + "/" + (r.chance(50) ? "x" : random_name(r, nullptr, 0)) : p + "/zz"; }
	case 4: { string q = p; if (q.size() > 1) q[1 + r.below(q.size() - 1)] ^= 1 << r.below(3); for (auto &ch : q) if (!ch) ch = 'q'; return q; }
	case 5: { size_t k = p.rfind('/'); return p.substr(0, k + 1) + random_name(r, nullptr, 20); }
	case 6: return "/" + random_name(r, nullptr, 20);
	default: return p + "/" + (im.root->kids.empty() ? string("q") : im.root->kids[r.below(im.root->kids.size())].name);
	}
}
string Query::describe() const {
	string s = qname[kind];
	switch (kind) {
	case Q_EXPORT: case Q_ID: s += fmt("(%llu)", (unsigned long long)arg); break;
	case Q_TRAVERSE: case Q_ITERATE: s += fmt("(dir %s, seed %llu)", show("/" + node->path).c_str(), (unsigned long long)seed); break;
	case Q_READINODE: s += fmt("(file %s, %llu+%llu)", show("/" + node->path).c_str(), (unsigned long long)off, (unsigned long long)len); break;
	case Q_LOOKUP: s += fmt("(from %s, %s, follow %llu)", show("/" + node->path).c_str(), show(path).c_str(), (unsigned long long)arg); break;
	case Q_OPENREAD: s += fmt("(%s, %llu+%llu by %llu)", show(path).c_str(), (unsigned long long)off, (unsigned long long)len, (unsigned long long)arg); break;
	case Q_READLINK: s += fmt("(%s, size %llu)", show(path).c_str(), (unsigned long long)arg); break;
	default: s += fmt("(%s)", show(path).c_str());
	}
	return s;
}
static void random_range(Rng &r, const Content &c, u64 &off, u64 &len) {
	u64 bs = c.bs, s = c.size;
	switch (r.below(6)) {
	case 0: off = 0; len = s + r.below(3); break;
	case 1: off = s ? r.below(s) : 0; len = r.below(2 * bs + 2); break;
	case 2: off = s / bs ? bs * r.below(s / bs + 1) + r.range(-1, 1) : r.below(s + 1); if ((i64)off < 0) off = 0; len = bs + r.range(-1, 2); break;
	case 3: off = s > 10 ? s - r.below(10) : 0; len = r.below(20); break;
	case 4: off = s + r.below(3) * 1000; len = r.below(100); break;
	default: off = r.below(s + 1); len = r.below(s + 1); break;
	}
	if (len > 3000000) len = r.below(3000000);
}
Query random_query(Rng &r, const Image &im, unsigned kinds) {
	Query q; static const int weights[] = {3, 3, 4, 2, 2, 2, 1, 2, 2, 1, 3, 1};
	int total = 0; for (int i = 0; i < Q_KINDS; ++i) if (kinds >> i & 1) total += weights[i];
	int w = (int)r.below(total); int k = 0; for (; k < Q_KINDS; ++k) if (kinds >> k & 1) { if (w < weights[k]) break; w -= weights[k]; }
	q.kind = (QKind)k; q.seed = r.next(); static const int presets[] = {0, 0, ENOTTY, 12345, ELOOP, ENOENT, EBADF}; q.preset = presets[r.below(7)];
	auto path = [&](int type, int pct) { const Node *n = r.chance(pct) ? random_node(r, im, type) : random_node(r, im); if (!n) n = im.root; return r.chance(85) ? spell(r, im, n) : miss(r, im); };
	switch (q.kind) {
	case Q_STAT: case Q_LSTAT: q.path = path(0, 100); break;
	case Q_OPENREAD: { q.path = path(T_REG, 75); const Node *f = random_node(r, im, T_REG); Content dummy; Outcomes oc = resolve(im, q.path, true); for (auto &o : oc) if (o.node && o.node->type == T_REG) f = o.node;
		random_range(r, f ? *im.contents[f->content] : dummy, q.off, q.len); q.arg = r.chance(50) ? q.len : 1 + r.below(q.len / 2 + 2); if (q.len / std::max<u64>(1, q.arg) > 60) q.arg = q.len / 60 + 1; break; }
	case Q_READLINK: { q.path = path(T_LNK, 80); const Node *l = random_node(r, im, T_LNK); u64 t = l ? l->target.size() : 10; q.arg = r.chance(60) ? 4096 : r.chance(50) ? t + r.range(0, 2) : r.below(t + 1); break; }
	case Q_LIST: case Q_SCAN: q.path = path(T_DIR, 75); q.arg = r.below(6); break;
	case Q_TRAVERSE: q.node = r.chance(60) ? im.root : random_node(r, im, r.chance(15) ? 0 : T_DIR); q.arg = r.below(3); break;
	case Q_ITERATE: q.node = random_node(r, im, r.chance(6) ? 0 : T_DIR); break;
	case Q_LOOKUP: { q.node = r.chance(50) ? im.root : random_node(r, im, r.chance(6) ? 0 : T_DIR); q.arg = r.below(3);
		if (q.node == im.root) q.path = path(0, 100); else { const Node *d = q.node; string p; for (int i = 0; i < 6; ++i) { if (!d->isdir() || d->kids.empty()) break; const Ent &e = d->kids[r.below(d->kids.size())]; p += (p.empty() ? "" : "/") + e.name; d = e.node; if (r.chance(40)) break; } if (r.chance(15)) p += "x"; if (p.empty()) p = random_name(r, nullptr, 5); q.path = p; }
		break; }
	case Q_EXPORT: q.arg = r.chance(90) ? 1 + r.below(im.inodes) : (r.chance(50) ? im.inodes + r.below(3) : r.chance(50) ? 0 : r.next() & 0xffffffff); break;
	case Q_ID: q.arg = r.chance(80) ? r.below(im.ids.size()) : r.below(65536); break;
	case Q_READINODE: { q.node = random_node(r, im, r.chance(5) ? 0 : T_REG); if (q.node && q.node->type != T_REG) { q.off = r.below(3); q.len = r.below(300); break; } if (!q.node) { q.kind = Q_STAT; q.path = "/"; break; } random_range(r, *im.contents[q.node->content], q.off, q.len); break; }
	default: break;
	}
	return q;
}

static void q_read(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	Outcomes oc = resolve(im, q.path, true);
	errno = q.preset; int fd = api.open(fs, q.path.c_str()); int e = errno;
	auto c = judge("squash_open", q.path, oc, fd >= 0, e, tol);
	if (fd < 0) { a.failed = true; VF_CHECK(fd == -1, "open-value", "squash_open returned %d", fd); return; }
	struct stat st; memset(&st, 0x5a, sizeof st); int rc = api.fstat(fd, &st);
	VF_CHECK(rc == 0, "fstat", "squash_fstat of an open descriptor failed with %s", errname(errno).c_str());
	const Node *n = nullptr; string why; for (auto *k : c) { why = check_stat(im, k, st); if (why.empty()) { n = k; break; } }
	if (!n) violation("fstat", fmt("squash_fstat after opening %s: %s", show(q.path).c_str(), why.c_str()));
	if (n->type != T_REG) {
		u8 b[4] = {1, 2, 3, 4}; errno = q.preset; ssize_t g = api.read(fd, b, 4); int re = errno;
		VF_CHECK(g == -1, "read-nonreg", "squash_read of %s, not a regular file, returned %zd", show(q.path).c_str(), g);
		if (tol.errnos) VF_CHECK(re == (n->isdir() ? EISDIR : EINVAL), "wrong-reason", "squash_read of %s, not a regular file, failed with %s", show(q.path).c_str(), errname(re).c_str());
		if (api.close(fd)) violation("close", "squash_close failed with " + errname(errno));
		return;
	}
	const Content &ct = *im.contents[n->content]; u64 pos = q.off, left = q.len;
	off_t so = api.lseek(fd, (off_t)pos, SQUASH_SEEK_SET); VF_CHECK(so == (off_t)pos, "lseek", "squash_lseek to %llu returned %lld", (unsigned long long)pos, (long long)so);
	do {
		u64 take = std::min(left, std::max<u64>(1, q.arg)); u64 want = pos >= ct.size ? 0 : std::min(take, ct.size - pos);
		u8 *buf = (u8 *)malloc(take ? take : 1);
		errno = q.preset; ssize_t g = api.read(fd, buf, (sqfs_off_t)take);
		if (g < 0) {
			int re = errno; stale("squash_read of " + show(q.path), re); if (!read_may_fail(im, n, pos, take, tol)) violation("read-failed", fmt("squash_read of %llu at %llu of %s failed with %s", (unsigned long long)take, (unsigned long long)pos, show(q.path).c_str(), errname(re).c_str()));
			if (tol.errnos) VF_CHECK(re, "errno-zero", "squash_read failed with errno 0");
			a.failed = true; free(buf); break;
		}
		if (read_must_fail(im, n, pos, take, tol)) violation("read-damaged", fmt("squash_read of %llu at %llu of %s returned %zd, but a block it needs is damaged", (unsigned long long)take, (unsigned long long)pos, show(q.path).c_str(), g));
		VF_CHECK((u64)g == want, "read-count", "squash_read of %llu at %llu of %s (%llu bytes) returned %zd", (unsigned long long)take, (unsigned long long)pos, show(q.path).c_str(), (unsigned long long)ct.size, g);
		string d = compare(ct, pos, buf, want); if (!d.empty()) violation("read-bytes", fmt("squash_read of %llu at %llu of %s: %s", (unsigned long long)take, (unsigned long long)pos, show(q.path).c_str(), d.c_str()));
		free(buf); pos += want; left -= take;
	} while (left);
	if (api.close(fd)) violation("close", "squash_close failed with " + errname(errno));
}
bool get_inode(sqfs *fs, const Image &im, const Node *n, sqfs_inode &i, const Tol &tol, Asked &a);
static void q_readlink(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	Outcomes oc = resolve(im, q.path, false); size_t bs = q.arg; char *buf = (char *)malloc(bs ? bs : 1); if (bs) memset(buf, 0x7e, bs); // exactly this much for the sanitizer
	errno = q.preset; ssize_t g = api.readlink(fs, q.path.c_str(), buf, bs); int e = errno;
	if (g < 0) {
		a.failed = true; bool fine = tol.may_fail; string want; stale("squash_readlink(" + show(q.path) + ")", e);
		for (auto &o : oc) {
			if (tol.any_bad(o.must) || tol.any_bad(o.may)) fine = true;
			if (!o.node) { if (!tol.errnos || o.errs.count(e)) fine = true; for (int x : o.errs) want += errname(x) + " "; }
			else if (o.node->type != T_LNK) { if (!tol.errnos || e == EINVAL) fine = true; want += "EINVAL "; }
			else { if (tol.bad_range(o.node->ix0, o.node->ix1)) fine = true;
				string s = strip_alias(im, o.node->target);
				// the packed target may be what has to fit, and its terminator
				if (bs < o.node->target.size() + 1 && (!tol.errnos || e == ENAMETOOLONG)) fine = true;
				want += s.size() + 1 > bs ? "ENAMETOOLONG " : fmt("%zu bytes ", s.size()); }
		}
		if (tol.errnos && e == 0) violation("errno-zero", "squash_readlink failed with errno 0");
		if (!fine) violation("readlink", fmt("squash_readlink(%s, size %zu) failed with %s, expected %s", show(q.path).c_str(), bs, errname(e).c_str(), want.c_str()));
	} else {
		bool fine = false; string want;
		for (auto &o : oc) { if (!o.node || o.node->type != T_LNK) { want += "to fail "; continue; }
			if (tol.any_bad(o.must) || tol.bad_range(o.node->ix0, o.node->ix1)) { want += "to fail (damaged) "; continue; }
			string s = strip_alias(im, o.node->target); want += show(s) + " ";
			if (s.size() == (size_t)g && s.size() <= bs && !memcmp(s.data(), buf, s.size())) fine = true; }
		if (!fine) violation("readlink", fmt("squash_readlink(%s, size %zu) returned %zd %s, expected %s", show(q.path).c_str(), bs, g, show(string(buf, std::min<size_t>(g, bs))).c_str(), want.c_str()));
	}
	const Node *n = oc.size() == 1 ? oc[0].node : nullptr; sqfs_inode i;
	if (fs && bs && n && n->type == T_LNK && get_inode(fs, im, n, i, tol, a)) { // the same by its inode; what does not fit is cut off
		{ memset(buf, 0x7e, bs); errno = 12345; ssize_t k = squash_readlink_inode(fs, &i, buf, bs); int ke = errno; string s = strip_alias(im, n->target);
			if (k < 0) { a.failed = true; stale("squash_readlink_inode of /" + show(n->path), ke); if (!(bs < n->target.size() + 1 && (!tol.errnos || ke == ENAMETOOLONG)) && !tol.may_fail && !tol.bad_range(n->ix0, n->ix1)) violation("readlink-inode", fmt("squash_readlink_inode of %s into %zu bytes failed with %s", show("/" + n->path).c_str(), bs, errname(ke).c_str())); }
			else if ((size_t)k != s.size() || s.size() > bs || memcmp(s.data(), buf, s.size())) violation("readlink-inode", fmt("squash_readlink_inode of %s into %zu bytes gave %zd, %s, expected %s", show("/" + n->path).c_str(), bs, k, show(string(buf, std::min<size_t>(k, bs))).c_str(), show(s).c_str())); }
		memset(buf, 0x7e, bs); size_t z = bs, put = std::min(n->target.size(), bs - 1); sqfs_err err = sqfs_readlink(fs, &i, buf, &z);
		if (err) { a.failed = true; if (!tol.may_fail && !tol.bad_range(n->ix0, n->ix1)) violation("readlink-inode", fmt("sqfs_readlink of %s failed with %d", show("/" + n->path).c_str(), err)); }
		else { // what is cut off need not be read
			bool bad = n->in1 != n->ix1 && tol.bad_range(n->in1, n->ix1) && put == n->target.size(); if (bad) violation("read-damaged", fmt("sqfs_readlink of %s succeeded, but needs a damaged block", show("/" + n->path).c_str()));
			if (memcmp(buf, n->target.data(), put) || buf[put]) violation("readlink-inode", fmt("sqfs_readlink of %s into %zu bytes gave %s", show("/" + n->path).c_str(), bs, show(string(buf, strnlen(buf, bs))).c_str())); }
	}
	free(buf);
}
static void check_dirent(const Ent &e, const struct SQUASH_DIRENT *d, const string &where, const char *call) {
	size_t n = e.name.size();
	if (strnlen(d->d_name, sizeof d->d_name) != std::min<size_t>(n, sizeof d->d_name - 1) || memcmp(d->d_name, e.name.data(), std::min<size_t>(n, sizeof d->d_name - 1)))
		violation("entry-name", fmt("%s of %s gave the entry %s, expected %s", call, show(where).c_str(), show(string(d->d_name, strnlen(d->d_name, sizeof d->d_name))).c_str(), show(e.name).c_str()));
	if (d->d_type != dtype(e.node)) violation("entry-type", fmt("%s of %s gave the type %d for %s, packed %d", call, show(where).c_str(), d->d_type, show(e.name).c_str(), dtype(e.node)));
	if (d->d_ino != e.node->inum) violation("entry-ino", fmt("%s of %s gave the inode number %llu for %s, packed %u", call, show(where).c_str(), (unsigned long long)d->d_ino, show(e.name).c_str(), e.node->inum));
}
static void q_list(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	Outcomes oc = resolve(im, q.path, true);
	for (auto &o : oc) if (o.node && !o.node->isdir()) { o.node = nullptr; o.errs = {ENOTDIR, ENOENT}; }
	errno = q.preset; SQUASH_DIR *d = api.opendir(fs, q.path.c_str()); int e = errno;
	auto c = judge("squash_opendir", q.path, oc, d != nullptr, e, tol);
	if (!d) { a.failed = true; return; }
	const Node *n = c[0]; string where = "/" + n->path;
	if (c.size() > 1) { api.closedir(d); return; }
	size_t i = 0; bool whole_bad = tol.bad_range(n->dl0, n->dl1); int ends = 0;
	while (ends < 2) {
		errno = 0; struct SQUASH_DIRENT *t = api.readdir(d); int re = errno;
		if (t) {
			if (ends && !(tol.may_fail && a.failed)) violation("readdir-revived", fmt("squash_readdir of %s gave an entry after the end or an error", show(where).c_str()));
			if (i >= n->kids.size()) violation("readdir-extra", fmt("squash_readdir of %s gave %s after all %zu entries", show(where).c_str(), show(t->d_name).c_str(), n->kids.size()));
			const Ent &k = n->kids[i];
			check_dirent(k, t, where, "squash_readdir");
			if (tol.bad_range(k.md0, k.md1) || tol.bad_range(k.hdr_md0, k.hdr_md1)) violation("read-damaged", fmt("squash_readdir of %s gave entry %zu, which lies in a damaged block", show(where).c_str(), i));
			++i; continue;
		}
		++ends;
		if (i == n->kids.size() && re == 0) continue;
		if (re == 0) violation("readdir-short", fmt("squash_readdir of %s ended after %zu of %zu entries", show(where).c_str(), i, n->kids.size()));
		if (!(tol.may_fail || whole_bad)) violation("readdir-failed", fmt("squash_readdir of %s failed at entry %zu with %s", show(where).c_str(), i, errname(re).c_str()));
		a.failed = true;
	}
	if (api.closedir(d)) violation("closedir", "squash_closedir failed with " + errname(errno));
}
static thread_local u64 filter_salt; static thread_local int filter_kind;
static bool accepts(int kind, u64 salt, const string &name, int type) {
	switch (kind) { case 1: return type == DT_DIR; case 2: return mix64(fnvs(name) ^ salt) & 1; case 3: return false; case 4: return mix64(fnvs(name) ^ salt) % 5 == 0; default: return true; }
}
static int scan_filter(const struct SQUASH_DIRENT *d) { int save = errno; bool r = accepts(filter_kind, filter_salt, d->d_name, d->d_type); errno = save; return r ? (int)(1 + filter_salt % 7) * (filter_salt & 8 ? -1 : 1) : 0; }
static int cmp_name(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp((*a)->d_name, (*b)->d_name); }
static int cmp_rname(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return -strcmp((*a)->d_name, (*b)->d_name); }
static int cmp_ino(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return (*a)->d_ino < (*b)->d_ino ? -1 : (*a)->d_ino > (*b)->d_ino; }
static void q_scan(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	Outcomes oc = resolve(im, q.path, true);
	for (auto &o : oc) if (o.node && !o.node->isdir()) { o.node = nullptr; o.errs = {ENOTDIR, ENOENT}; }
	filter_kind = (int)(q.seed % 5); filter_salt = q.seed; int order = (int)(q.seed / 5 % 4);
	static int (*const cmps[])(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **) = {nullptr, cmp_name, cmp_rname, cmp_ino};
	struct SQUASH_DIRENT **list = (struct SQUASH_DIRENT **)0x10;
	errno = q.preset; int n = api.scandir(fs, q.path.c_str(), &list, filter_kind || q.seed & 1 ? scan_filter : nullptr, cmps[order]); int e = errno;
	if (n < 0) {
		a.failed = true; stale("squash_scandir(" + show(q.path) + ")", e); VF_CHECK(n == -1, "scandir-value", "squash_scandir returned %d", n);
		// the listing itself may be what is damaged
		for (auto &o : oc) if (o.node && tol.bad_range(o.node->dl0, o.node->dl1)) return;
		judge("squash_scandir", q.path, oc, false, e, tol); return;
	}
	auto c = judge("squash_scandir", q.path, oc, true, e, tol); const Node *d = c[0]; string where = "/" + d->path;
	if (list == (struct SQUASH_DIRENT **)0x10 || !list) violation("scandir-list", fmt("squash_scandir of %s returned %d and no array", show(where).c_str(), n));
	if (tol.bad_range(d->dl0, d->dl1)) { for (auto &k : d->kids) if (tol.bad_range(k.md0, k.md1) || tol.bad_range(k.hdr_md0, k.hdr_md1)) violation("read-damaged", fmt("squash_scandir of %s returned %d, but its listing is damaged", show(where).c_str(), n)); }
	vector<const Ent *> want; for (auto &k : d->kids) if (accepts(filter_kind, filter_salt, k.name, dtype(k.node))) want.push_back(&k);
	if (order == 1) std::sort(want.begin(), want.end(), [](const Ent *x, const Ent *y) { return x->name < y->name; });
	if (order == 2) std::sort(want.begin(), want.end(), [](const Ent *x, const Ent *y) { return x->name > y->name; });
	if ((size_t)n != want.size()) violation("scandir-count", fmt("squash_scandir of %s returned %d, %zu of %zu entries are accepted", show(where).c_str(), n, want.size(), d->kids.size()));
	if (order == 3) { // equal numbers may come in any order
		for (int i = 0; i < n; ++i) if (i && list[i - 1]->d_ino > list[i]->d_ino) violation("scandir-order", fmt("squash_scandir of %s is not in the order of the comparison", show(where).c_str()));
		map<string, const Ent *> by; for (auto *w : want) by[w->name] = w;
		for (int i = 0; i < n; ++i) { auto it = by.find(list[i]->d_name); if (it == by.end()) violation("scandir-entry", fmt("squash_scandir of %s gave %s twice or without it being there", show(where).c_str(), show(list[i]->d_name).c_str())); check_dirent(*it->second, list[i], where, "squash_scandir"); by.erase(it); }
	} else for (int i = 0; i < n; ++i) check_dirent(*want[i], list[i], where, "squash_scandir");
	for (int i = 0; i < n; ++i) vf_free(list[i]);
	vf_free(list);
}
TravMon::TravMon(sqfs *f, const Image &i, const Node *d, const Tol &tl, u64 seed, bool prune) : fs(f), im(i), tol(tl), r(seed), pruning(prune) {
	memset(&t, 0xa5, sizeof t);
	sqfs_err err = sqfs_traverse_open(&t, fs, d->ref);
	if (err) {
		failed = done = true; if (!d->isdir()) return;
		if (!tol.may_fail && !tol.bad_range(d->in0, d->in1) && !tol.bad_range(d->ix0, d->ix1)) violation("traverse-open", fmt("sqfs_traverse_open of %s failed with %d", show("/" + d->path).c_str(), err));
		return;
	}
	opened = true;
	if (!d->isdir()) violation("traverse-open", "sqfs_traverse_open of a non-directory succeeded");
	if (tol.bad_range(d->in0, d->in1)) violation("read-damaged", "sqfs_traverse_open succeeded, but the inode is damaged");
	st.push_back(Level{d, 0, ""});
}
bool TravMon::step() {
	if (done) return false;
	sqfs_err err = (sqfs_err)77; short more = sqfs_traverse_next(&t, &err); ++events;
	Level &l = st.back();
	if (!more) {
		if (err) {
			failed = true; bool fine = tol.may_fail || broken;
			if (tol.bad) { if (tol.bad_range(l.d->dl0, l.d->dl1) || tol.bad_range(l.d->in0, l.d->in1) || tol.bad_range(l.d->ix0, l.d->ix1)) fine = true; }
			if (!fine) violation("traverse-failed", fmt("sqfs_traverse_next failed with %d below %s", err, show(l.path).c_str()));
			if (broken) { done = true; return false; }
			if (tol.may_fail) { for (int i = 0; i < 2; ++i) sqfs_traverse_next(&t, &err); done = true; return false; } // whether it could go on is left open
			broken = true; return true; // and once more
		}
		if (broken) violation("traverse-revived", "sqfs_traverse_next reported the end after an error");
		if (st.size() != 1 || l.next != l.d->kids.size()) violation("traverse-short", fmt("sqfs_traverse_next finished in %s after %zu of %zu entries", show(l.path).c_str(), l.next, l.d->kids.size()));
		if (++ends == 3) { done = true; return false; }
		return true;
	}
	if (broken) violation("traverse-revived", "sqfs_traverse_next went on after an error");
	if (ends) violation("traverse-revived", "sqfs_traverse_next reported something after the end");
	if (l.next == l.d->kids.size()) {
		if (st.size() == 1) violation("traverse-extra", fmt("sqfs_traverse_next reported %s after everything", show(t.path).c_str()));
		if (!t.dir_end) violation("traverse-extra", fmt("sqfs_traverse_next reported %s instead of the end of %s", show(t.path).c_str(), show(l.path).c_str()));
		if (l.path != t.path) violation("traverse-end-path", fmt("sqfs_traverse_next reported the end of %s with the path %s", show(l.path).c_str(), show(t.path).c_str()));
		st.pop_back(); return true;
	}
	const Ent &k = l.d->kids[l.next++]; string path = l.path.empty() ? k.name : l.path + "/" + k.name;
	if (t.dir_end) violation("traverse-end", fmt("sqfs_traverse_next reported the end of %s before %s", show(t.path).c_str(), show(path).c_str()));
	if (path != t.path) violation("traverse-path", fmt("sqfs_traverse_next gave the path %s, expected %s", show(t.path).c_str(), show(path).c_str()));
	const char *nm = sqfs_dentry_name(&t.entry);
	if (sqfs_dentry_inode(&t.entry) != k.node->ref || sqfs_dentry_inode_num(&t.entry) != k.node->inum || (sqfs_dentry_mode(&t.entry) & S_IFMT) != (k.node->mode() & S_IFMT) || !nm || k.name != nm || sqfs_dentry_name_size(&t.entry) != k.name.size() || !!sqfs_dentry_is_dir(&t.entry) != k.node->isdir())
		violation("traverse-entry", fmt("sqfs_traverse_next gave a wrong entry for %s", show(path).c_str()));
	if (tol.bad_range(k.md0, k.md1) || tol.bad_range(k.hdr_md0, k.hdr_md1)) violation("read-damaged", fmt("sqfs_traverse_next gave %s, which lies in a damaged block", show(path).c_str()));
	bool prune = pruning && r.chance(k.node->isdir() ? 35 : 10);
	if (prune) { sqfs_traverse_prune(&t); ++prunes; }
	else if (k.node->isdir()) { st.push_back(Level{k.node, 0, path}); depth = std::max(depth, st.size()); }
	return true;
}
void TravMon::close() { if (opened) { sqfs_traverse_close(&t); opened = false; } done = true; }
static void q_traverse(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	TravMon m(fs, im, q.node, tol, q.seed, q.arg == 1); u64 stop = q.arg == 2 ? q.seed % 60 : ~0ull;
	while (m.events < stop && m.step()) ;
	m.close(); a.failed = m.failed;
}
static void check_inode(const Image &im, const sqfs_inode &i, const Node *n, const string &how) {
	if (i.base.mode != n->mode() || i.base.inode_number != n->inum) violation("inode", fmt("%s gave inode %u with mode 0%o, expected %u with 0%o", how.c_str(), i.base.inode_number, i.base.mode, n->inum, n->mode()));
	struct stat st; if (sqfs_stat(nullptr, const_cast<sqfs_inode *>(&i), &st)) violation("sqfs_stat", "sqfs_stat failed");
	string w = check_stat(im, n, st); if (!w.empty()) violation("inode", fmt("%s: %s", how.c_str(), w.c_str()));
}
bool get_inode(sqfs *fs, const Image &im, const Node *n, sqfs_inode &i, const Tol &tol, Asked &a) {
	memset(&i, 0xa5, sizeof i); sqfs_err err = sqfs_inode_get(fs, &i, n->ref);
	if (err) { a.failed = true; if (!tol.may_fail && !tol.bad_range(n->in0, n->in1) && !(n->type == T_LNK && tol.bad_range(n->ix0, n->ix1))) violation("inode-get", fmt("sqfs_inode_get of %s failed with %d", show("/" + n->path).c_str(), err)); return false; }
	if (tol.bad_range(n->in0, n->in1)) violation("read-damaged", "sqfs_inode_get succeeded on a damaged block");
	check_inode(im, i, n, "sqfs_inode_get");
	if (i.base.uid != n->uid || i.base.guid != n->gid) violation("inode-ids", fmt("sqfs_inode_get of %s gave the id indexes %u and %u, packed %u and %u", show("/" + n->path).c_str(), i.base.uid, i.base.guid, n->uid, n->gid));
	return true;
}
extern "C" sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) __attribute__((weak)); // in no header, but global
static void q_lookup(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	sqfs_inode i; if (!get_inode(fs, im, q.node, i, tol, a)) return;
	if (!q.node->isdir()) { short found = 7; sqfs_err err = q.arg ? sqfs_lookup_path_inner(fs, &i, q.path.c_str(), &found, 1) : sqfs_lookup_path(fs, &i, q.path.c_str(), &found); a.failed = true; if (!err && found) violation("lookup-below", fmt("sqfs_lookup_path(%s) found something in %s, which is no directory", show(q.path).c_str(), show("/" + q.node->path).c_str())); return; }
	Outcomes oc = resolve(im, q.path, q.arg, q.node == im.root ? nullptr : q.node); short found = 7; errno = 0;
	bool direct = q.arg == 2 && q.node == im.root && squash_follow_link; if (direct) { memset(&i, 0xa5, sizeof i); found = 1; }
	sqfs_err err = direct ? squash_follow_link(fs, q.path.c_str(), &i) : q.arg ? sqfs_lookup_path_inner(fs, &i, q.path.c_str(), &found, 1) : sqfs_lookup_path(fs, &i, q.path.c_str(), &found);
	if (err || !found) {
		bool gone = err != SQFS_OK; for (auto &o : oc) gone = gone || !o.node; // "there is none" is no failure, but an answer
		if (!gone) violation("lookup-missing", fmt("sqfs_lookup_path(%s) succeeded and told that there is no such object", show(q.path).c_str()));
		a.failed = true; Tol t = tol; t.errnos = false; judge("sqfs_lookup_path", q.path, oc, false, errno, t); return;
	}
	auto c = judge("sqfs_lookup_path", q.path, oc, true, 0, tol);
	for (auto *n : c) if (n->inum == i.base.inode_number) { check_inode(im, i, n, "sqfs_lookup_path"); return; }
	violation("lookup-other", fmt("sqfs_lookup_path(%s) gave inode %u, expected %u", show(q.path).c_str(), i.base.inode_number, c[0]->inum));
}
static void q_export(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	u32 n = (u32)q.arg; sqfs_inode_id id = 0x5a5a5a5a5a5aull;
	if (!!sqfs_export_ok(fs) != im.prof.export_table) violation("export-ok", "sqfs_export_ok is wrong");
	sqfs_err err = sqfs_export_inode(fs, n, &id);
	if (!im.prof.export_table) { if (err != SQFS_UNSUP) violation("export-unsup", fmt("sqfs_export_inode(%u) without an export table returned %d", n, err)); return; }
	if (n == 0 || n > im.inodes) { if (!err) violation("export-range", fmt("sqfs_export_inode(%u) of %u succeeded", n, im.inodes)); a.failed = true; return; }
	int tb = im.export_blk[(u64)(n - 1) * 8 / 8192]; const Node *k = im.by_inum[n];
	if (err) { a.failed = true; if (!tol.may_fail && !tol.is_bad(tb)) violation("export", fmt("sqfs_export_inode(%u) failed with %d", n, err)); return; }
	if (tol.is_bad(tb)) violation("read-damaged", "sqfs_export_inode succeeded on a damaged block");
	if (id != k->ref) violation("export", fmt("sqfs_export_inode(%u) gave %llx, packed %llx", n, (unsigned long long)id, (unsigned long long)k->ref));
	sqfs_inode i; get_inode(fs, im, k, i, tol, a);
}
static void q_id(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	sqfs_id_t id = 0; u16 n = (u16)q.arg; sqfs_err err = sqfs_id_get(fs, n, &id);
	if (n >= im.ids.size()) { if (!err) violation("id-range", fmt("sqfs_id_get(%u) of %zu succeeded", n, im.ids.size())); a.failed = true; return; }
	int tb = im.id_blk[(u64)n * 4 / 8192];
	if (err) { a.failed = true; if (!tol.may_fail && !tol.is_bad(tb)) violation("id", fmt("sqfs_id_get(%u) failed with %d", n, err)); return; }
	if (tol.is_bad(tb)) violation("read-damaged", "sqfs_id_get succeeded on a damaged block");
	if (id != im.ids[n]) violation("id", fmt("sqfs_id_get(%u) gave %u, packed %u", n, id, im.ids[n]));
}
static void q_readinode(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	const Node *n = q.node; sqfs_inode i; if (!get_inode(fs, im, n, i, tol, a)) return;
	if (n->type != T_REG) { vector<u8> b(q.len + 1, 0x5a); sqfs_off_t sz = (sqfs_off_t)q.len; if (!sqfs_read_range(fs, &i, (sqfs_off_t)q.off, &sz, b.data())) violation("read-non-file", fmt("sqfs_read_range of %s, which is no regular file, succeeded", show("/" + n->path).c_str())); a.failed = true; return; }
	const Content &c = *im.contents[n->content]; u64 want = q.off >= c.size ? 0 : std::min(q.len, c.size - q.off);
	u8 *buf = (u8 *)malloc(q.len ? q.len : 1); sqfs_off_t sz = (sqfs_off_t)q.len;
	sqfs_err err = sqfs_read_range(fs, &i, (sqfs_off_t)q.off, &sz, buf);
	if (err) {
		a.failed = true; if (!read_may_fail(im, n, q.off, q.len, tol)) violation("read-failed", fmt("sqfs_read_range of %llu at %llu of %s failed with %d", (unsigned long long)q.len, (unsigned long long)q.off, show("/" + n->path).c_str(), err));
	} else {
		if (read_must_fail(im, n, q.off, q.len, tol)) violation("read-damaged", fmt("sqfs_read_range of %llu at %llu of %s succeeded on a damaged block", (unsigned long long)q.len, (unsigned long long)q.off, show("/" + n->path).c_str()));
		if ((u64)sz != want) violation("read-count", fmt("sqfs_read_range of %llu at %llu of %s (%llu bytes) gave %lld", (unsigned long long)q.len, (unsigned long long)q.off, show("/" + n->path).c_str(), (unsigned long long)c.size, (long long)sz));
		string d = compare(c, q.off, buf, want); if (!d.empty()) violation("read-bytes", fmt("sqfs_read_range of %llu at %llu of %s: %s", (unsigned long long)q.len, (unsigned long long)q.off, show("/" + n->path).c_str(), d.c_str()));
	}
	free(buf);
}
static void q_iterate(sqfs *fs, const Image &im, const Query &q, const Tol &tol, Asked &a) {
	const Node *n = q.node; sqfs_inode i; if (!get_inode(fs, im, n, i, tol, a)) return;
	string where = "/" + n->path; Rng r(q.seed); sqfs_name *name = (sqfs_name *)malloc(sizeof(sqfs_name));
	if (!n->isdir()) { sqfs_dir d; if (!sqfs_dir_open(fs, &i, &d, (off_t)(r.chance(70) ? 0 : r.below(100)))) violation("dir-open-non-dir", fmt("sqfs_dir_open of %s, which is no directory, succeeded", show(where).c_str())); a.failed = true; free(name); return; }
	bool bad = tol.bad_range(n->dl0, n->dl1) || tol.bad_range(n->ix0, n->ix1);
	for (int round = 0; round < 4 && !a.failed; ++round) {
		size_t k = 0; i64 off = 0; bool valid = true;
		if (round) {
			switch (r.below(4)) {
			case 0: case 1: if (!n->kids.empty()) { k = r.below(n->kids.size()) + 1; off = (i64)n->kids[k - 1].next_off; } break;
			case 2: if (!n->kids.empty()) { k = r.below(n->kids.size()); off = (i64)n->kids[k].off; } break;
			default: off = r.chance(50) ? (i64)r.below(n->dir_bytes + 40) : (n->kids.empty() ? 5 : (i64)n->kids[r.below(n->kids.size())].next_off + r.range(-2, 12)); if (r.chance(5)) off = r.chance(50) ? -1 - (i64)r.below(100) : (i64)r.next() & INT64_MAX;
				valid = off == 0; for (size_t x = 0; x < n->kids.size(); ++x) if ((i64)n->kids[x].next_off == off) { valid = true; k = x + 1; }
				break;
			}
		}
		sqfs_dir d; memset(&d, 0xa5, sizeof d); sqfs_err err = sqfs_dir_open(fs, &i, &d, off);
		if (!valid) { if (!err) violation("dir-open-offset", fmt("sqfs_dir_open of %s at offset %lld, not an entry boundary, succeeded", show(where).c_str(), (long long)off)); continue; }
		if (err) { a.failed = true; if (!tol.may_fail && !bad) violation("dir-open", fmt("sqfs_dir_open of %s at offset %lld failed with %d", show(where).c_str(), (long long)off, err)); break; }
		int ends = 0; u64 cnt = 0, limit = round && n->kids.size() > 300 ? 50 : ~0ull;
		while (ends < 2 && cnt < limit) {
			sqfs_dir_entry e; memset(&e, 0xa5, sizeof e); bool nameless = q.seed % 5 == 1 && cnt % 3 == 0; sqfs_dentry_init(&e, nameless ? nullptr : *name); err = (sqfs_err)77;
			short more = sqfs_dir_next(fs, &d, &e, &err); ++cnt;
			if (!more) {
				++ends;
				if (err) { a.failed = true; if (!tol.may_fail && !bad) violation("dir-next", fmt("sqfs_dir_next of %s failed with %d at entry %zu", show(where).c_str(), err, k)); continue; }
				if (k != n->kids.size()) violation("dir-short", fmt("sqfs_dir_next of %s from offset %lld ended after entry %zu of %zu", show(where).c_str(), (long long)off, k, n->kids.size()));
				continue;
			}
			if (ends && !(tol.may_fail && a.failed)) violation("dir-revived", fmt("sqfs_dir_next of %s went on after the end", show(where).c_str()));
			if (k >= n->kids.size()) violation("dir-extra", fmt("sqfs_dir_next of %s gave too many entries", show(where).c_str()));
			const Ent &w = n->kids[k++];
			if (tol.bad_range(w.md0, w.md1)) violation("read-damaged", fmt("sqfs_dir_next of %s gave an entry in a damaged block", show(where).c_str()));
			const char *nm = sqfs_dentry_name(&e);
			if ((nameless ? nm != nullptr : !nm || w.name != nm) || sqfs_dentry_name_size(&e) != w.name.size() || sqfs_dentry_inode(&e) != w.node->ref || sqfs_dentry_inode_num(&e) != w.node->inum || (sqfs_dentry_mode(&e) & S_IFMT) != (w.node->mode() & S_IFMT) || !!sqfs_dentry_is_dir(&e) != w.node->isdir())
				violation("dir-entry", fmt("sqfs_dir_next of %s from offset %lld gave a wrong entry %zu: %s", show(where).c_str(), (long long)off, k - 1, show(nm ? nm : "").c_str()));
			if ((u64)sqfs_dentry_next_offset(&e) != w.next_off || (u64)sqfs_dentry_offset(&e) != w.off) violation("dir-offset", fmt("sqfs_dir_next of %s reported offsets %lld and %lld for entry %zu, packed %llu and %llu", show(where).c_str(), (long long)sqfs_dentry_offset(&e), (long long)sqfs_dentry_next_offset(&e), k - 1, (unsigned long long)w.off, (unsigned long long)w.next_off));
		}
	}
	free(name);
}
Asked ask(sqfs *fs, const Image &im, const Query &q, const Tol &tol) {
	Asked a;
	switch (q.kind) {
	case Q_STAT: case Q_LSTAT: {
		Outcomes oc = resolve(im, q.path, q.kind == Q_STAT); struct stat st; memset(&st, 0x5a, sizeof st);
		errno = q.preset; int rc = q.kind == Q_STAT ? api.stat(fs, q.path.c_str(), &st) : api.lstat(fs, q.path.c_str(), &st); int e = errno;
		const char *call = q.kind == Q_STAT ? "squash_stat" : "squash_lstat";
		auto c = judge(call, q.path, oc, rc == 0, e, tol);
		if (rc) { a.failed = true; VF_CHECK(rc == -1, "stat-value", "%s returned %d", call, rc); break; }
		string why; bool fine = false; for (auto *n : c) { why = check_stat(im, n, st); if (why.empty()) { fine = true; break; } }
		if (!fine) violation("stat", fmt("%s(%s): %s", call, show(q.path).c_str(), why.c_str()));
		break; }
	case Q_OPENREAD: q_read(fs, im, q, tol, a); break;
	case Q_READLINK: q_readlink(fs, im, q, tol, a); break;
	case Q_LIST: q_list(fs, im, q, tol, a); break;
	case Q_SCAN: q_scan(fs, im, q, tol, a); break;
	case Q_TRAVERSE: q_traverse(fs, im, q, tol, a); break;
	case Q_LOOKUP: q_lookup(fs, im, q, tol, a); break;
	case Q_EXPORT: q_export(fs, im, q, tol, a); break;
	case Q_ID: q_id(fs, im, q, tol, a); break;
	case Q_READINODE: q_readinode(fs, im, q, tol, a); break;
	case Q_ITERATE: q_iterate(fs, im, q, tol, a); break;
	default: break;
	}
	return a;
}

Opened::Opened(Image &i, Rng &r, bool variety, void *at) : im(&i), own_mem(true) {
	static const size_t offs[] = {0, 0, 1, 2, 3, 7, 96, 511, 4096, 65537};
	mem = new Mapped(i.bytes, variety ? offs[r.below(10)] : 0, variety ? r.chance(50) : false, r.next(), at, i.gap_at, i.gap_at ? i.prof.gap : 0);
	fs = fs_alloc(); memset(fs, 0xa5, sizeof *fs);
	sqfs_err err = sqfs_open_image(fs, mem->base, mem->offset);
	if (err) violation("open-image", fmt("sqfs_open_image of a valid image at offset %zu failed with %d", mem->offset, err));
	if (!i.prof.root_alias.empty()) fs->root_alias = i.prof.root_alias.c_str(); if (!i.prof.root_alias2.empty()) fs->root_alias2 = i.prof.root_alias2.c_str();
}
void Opened::close() { if (fs) { sqfs_destroy(fs); fs_release(fs); fs = nullptr; } }
Opened::~Opened() { close(); delete mem; }
vector<char> damage(Rng &r, Image &im, int pct, unsigned whats) {
	vector<char> bad(im.blks.size(), 0);
	for (size_t i = 0; i < im.blks.size(); ++i) {
		const Blk &b = im.blks[i]; if (!b.compressed || !(whats >> b.what & 1) || !r.chance(pct)) continue;
		bad[i] = 1;
		switch (r.below(6)) {
		case 3: { // a good stream of more bytes than a block holds
			uLong most = b.what == Blk::DATA || b.what == Blk::FRAG ? 1ul << im.prof.bs_log : 8192; vector<u8> in(most + 1 + r.below(most), (u8)r.next()), out(compressBound(in.size())); uLongf n = out.size(); compress2(out.data(), &n, in.data(), in.size(), 9); if (n > b.size) { im.bytes[b.pos] = 0xff; break; } std::copy(out.begin(), out.begin() + n, im.bytes.begin() + b.pos); break; }
		case 4: for (u32 k = b.size / 2 + 1; k < b.size; ++k) im.bytes[b.pos + k] = 0; im.bytes[b.pos + b.size - 1] ^= 1; break; // the end is missing
		case 5: if (b.size > 2) { u8 f = im.bytes[b.pos + 1] & 0xc0; u32 h = im.bytes[b.pos] << 8 | f | 0x20; h += 31 - h % 31; im.bytes[b.pos + 1] = (u8)h; break; } im.bytes[b.pos] = 0xff; break; // asks for a dictionary
		case 0: im.bytes[b.pos] = 0xff; break;                              // no zlib header
		case 1: im.bytes[b.pos + b.size - 1 - r.below(4)] ^= 1 << r.below(8); break; // checksum
		default: for (u32 k = 0; k < std::min<u32>(b.size, 2); ++k) im.bytes[b.pos + k] = 0; break;
		}
	}
	return bad;
}
Ledger::Ledger() : blocks(ip.live_blocks()), bytes(ip.live_bytes()), fds(open_fds()) {}
string Ledger::against(const Ledger &b) const {
	if (blocks != b.blocks || bytes != b.bytes) return fmt("%lld blocks and %lld bytes of the library's memory are allocated, before there were %llu and %llu; newest:%s", (long long)blocks, (long long)bytes, (unsigned long long)b.blocks, (unsigned long long)b.bytes, ip.describe_live(8).c_str());
	if (fds != b.fds) { string s = "open descriptors:"; for (int f : fds) s += fmt(" %d", f); s += ", before:"; for (int f : b.fds) s += fmt(" %d", f); return s; }
	return "";
}
