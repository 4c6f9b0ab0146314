// Scenario generation: file trees, command lines, environments, fault plans.
#include "model.hh"
#include <algorithm>
#include <fcntl.h>
#include <fnmatch.h>
#include <sys/sysmacros.h>
#include <unistd.h>

namespace sim {
Scenario sc;
extern int clock_jump_armed;
extern u64 fair_steps;
static const int S = ST_SCEN;
static u32 D(u32 n) { return draw(S, n); }
static bool P(u32 num, u32 den) { return chance(S, num, den); }
template <class T> static const T &pick(const vector<T> &v) { return v[D(v.size())]; }
static string N(long long v) { return std::to_string(v); }

// ---------------------------------------------------------------- expressions
bool ex_eval(const ExP &e, Node *n, EvCtx &c) {
	if (e->op == "leaf") return e->fn(n, c);
	if (e->op == "!") return !ex_eval(e->kids[0], n, c);
	if (e->op == "and") {
		for (auto &k : e->kids) if (!ex_eval(k, n, c) || c.quit) return false;
		return true;
	}
	if (e->op == "or") {
		for (auto &k : e->kids) if (ex_eval(k, n, c) || c.quit) return true;
		return false;
	}
	bool r = false;
	for (auto &k : e->kids) { r = ex_eval(k, n, c); if (c.quit) break; }
	return r;
}
void ex_render(const ExP &e, vector<string> &o) {
	if (e->op == "leaf") { for (auto &a : e->args) o.push_back(a); return; }
	auto sub = [&](const ExP &k) {
		bool par = k->op != "leaf";
		if (par) o.push_back("(");
		ex_render(k, o);
		if (par) o.push_back(")");
	};
	if (e->op == "!") { o.push_back(e->args.empty() ? "!" : e->args[0]); sub(e->kids[0]); return; }
	for (size_t i = 0; i < e->kids.size(); ++i) {
		if (i) {
			if (e->op == "and") { if (!e->args.empty()) o.push_back("-a"); }
			else if (e->op == "or") o.push_back("-o");
			else o.push_back(",");
		}
		sub(e->kids[i]);
	}
}
static ExP leaf(vector<string> args, std::function<bool(Node *, EvCtx &)> fn) {
	auto e = std::make_shared<Ex>();
	e->op = "leaf"; e->args = args; e->fn = fn;
	return e;
}
static ExP test(vector<string> args, std::function<bool(Node *)> fn) {
	return leaf(args, [fn](Node *n, EvCtx &) { return fn(n); });
}
static ExP node(const char *op, vector<ExP> kids) {
	auto e = std::make_shared<Ex>();
	e->op = op; e->kids = kids;
	for (auto &k : kids) e->action |= k->action;
	return e;
}
static bool has_action(const ExP &e) {
	if (e->action) return true;
	for (auto &k : e->kids) if (has_action(k)) return true;
	return false;
}

// ---------------------------------------------------------------- trees
static vector<Inode *> dirs, files, links;
static u32 next_dev;
struct TreeOpt {
	int mem = 0, nodes = 8, maxdepth = 6;
	bool plain = false; // only names that need no quoting
	bool links = true, special = true, hard = true, mounts = false, errs = false, cmdnames = false;
	bool unknown_types = true;
	int wide = 0, deep = 0, longnames = 0;
};
static int64_t base_s = 1700000000;

static void random_attrs(Inode *i) {
	static const uid_t ids[] = {1000, 0, 1001, 4242, 77};
	i->uid = ids[D(5)];
	i->gid = ids[D(5)];
	static const mode_t perms[] = {0644, 0755, 0600, 0, 0777, 04755, 02711, 01777, 0444, 0111};
	i->mode = (i->mode & S_IFMT) | (i->is_lnk() ? 0777 : perms[D(10)]);
	if (i->is_reg()) {
		static const u64 sizes[] = {0, 1, 511, 512, 513, 1023, 1024, 1025, 4096, 1048576, 1048577, 5000000000ull};
		i->size = sizes[D(12)];
		i->blocks = P(1, 4) ? 0 : (i->size + 511) / 512;
	} else if (i->is_lnk()) i->size = i->target.size();
	for (int k = 0; k < 4; ++k) {
		// half-way between the boundaries of -mmin / -mtime
		static const int64_t ago[] = {30, 90, 150, 3600 * 5 + 30, 86400 + 7230, 3 * 86400 + 7230, 40 * 86400 + 7230, 400 * 86400 + 7230, -5 * 3600 - 30};
		i->tm[k] = {base_s - ago[P(1, 16) ? 8 : D(8)], (long)D(1000) * 1000};
	}
	switch (D(16)) {
	case 0: i->has_acl = true; break;
	case 1: i->def_acl = i->is_dir(); break;
	case 2: i->acl_unsup = true; break;
	case 3: i->has_cap = true; break;
	case 4: i->cap_empty = true; break;
	}
	if (P(1, 12)) i->nobtime = true;
	if (P(1, 12)) { i->xattrs.push_back("user.a"); if (P(1, 3)) i->xattrs.push_back("user.b"); }
}
static string gen_name(Inode *d, const TreeOpt &o, int idx) {
	static const vector<string> pool = {"a", "b", "c", "d", "e", "f1", "f2", "x.c", "y.h", "Z", "Aa", ".hid", ".b", "x y", "-dash", "q*", "[z]",
		"back\\s", "tab\tt", "{}q", "\xc3\xa9", "~t", "$v", "'q'", "...", "..x"};
	static const vector<string> cmd = {"!fail1", "a!fail", "!kill"};
	string n;
	if (o.longnames) {
		n = string(200 + D(55), 'a' + idx % 26) + N(idx);
		if (n.size() > 255) n.resize(255);
		if (!d->child(n)) return n;
	}
	if (o.cmdnames && P(1, 6)) n = pick(cmd);
	else n = D(4) == 3 ? pool[D(o.plain ? 17 : pool.size())] : pool[D(8)];
	if (d->child(n)) n = (o.wide ? "w" : "n") + N(idx);
	while (d->child(n)) n += "_";
	return n;
}
static string path_of(Inode *i);
static Inode *mkdir_in(Inode *p, const string &name) {
	Inode *i = new_inode(S_IFDIR | 0755, p->dev);
	i->mnt = p->mnt;
	link_child(p, name, i);
	return i;
}
static string path_of(Inode *i) {
	if (!i->parent || i == root_ino) return "";
	for (auto &e : i->parent->ents) if (e.ino == i) return path_of(i->parent) + "/" + e.name;
	return "?";
}
static Inode *W; // cwd
static vector<Inode *> top; // children of W usable as roots
static vector<string> topnames;

static void gen_tree(const TreeOpt &o) {
	W = mkdir_in(root_ino, "w");
	int ntop = 1 + (P(1, 2) ? D(3) : 0);
	next_dev = 1;
	vector<std::pair<Inode *, int>> ds; // dir, depth
	for (int t = 0; t < ntop; ++t) {
		Inode *r = mkdir_in(W, "r" + N(t));
		random_attrs(r);
		top.push_back(r); topnames.push_back("r" + N(t));
		ds.push_back({r, 0});
		dirs.push_back(r);
	}
	if (o.deep) {
		Inode *p = top[0];
		int dp = 0;
		for (int i = 0; i < o.deep; ++i) {
			p = mkdir_in(p, gen_name(p, o, i));
			dirs.push_back(p);
			++dp;
			if (i % 7 == 3) ds.push_back({p, dp});
			if (i + 1 == o.deep) ds.push_back({p, dp});
		}
	}
	if (o.mem) { // a long spine whose vertebrae all look the same
		Inode *p = top[0];
		int w = 20 + D(70), leaves = 1 + D(6);
		for (int i = 0; i < o.mem; ++i) {
			for (int k = 0; k < w; ++k) {
				Inode *c = new_inode((k % 9 == 8 ? S_IFLNK | 0777 : S_IFREG | 0644), p->dev); c->mnt = p->mnt;
				if (c->is_lnk()) c->target = "f0-long-enough-to-matter";
				link_child(p, "f" + N(k) + "-long-enough-to-matter", c);
			}
			for (int k = 0; k < leaves; ++k) {
				Inode *c = mkdir_in(p, "d" + N(k));
				if (k % 2) { Inode *f = new_inode(S_IFREG | 0644, c->dev); f->mnt = c->mnt; link_child(c, "x", f); }
			}
			p = mkdir_in(p, "s");
		}
	}
	if (o.wide) {
		Inode *p = top[0];
		if (P(1, 2)) { p = mkdir_in(p, "wide"); dirs.push_back(p); }
		int k = D(4); // mixture
		for (int i = 0; i < o.wide; ++i) {
			Inode *c;
			if (k == 1 || (k == 2 && i % 5 == 0)) { c = mkdir_in(p, "w" + N(i)); dirs.push_back(c); }
			else {
				c = new_inode(S_IFREG | 0644, p->dev); c->mnt = p->mnt;
				link_child(p, k == 3 ? "w" + N(i) + string(60, 'x') : "w" + N(i), c);
				files.push_back(c);
			}
		}
	}
	for (int i = 0; i < o.nodes; ++i) {
		// prefer recent dirs: depth
		auto dd = P(1, 2) ? ds.back() : ds[D(ds.size())];
		if (dd.second >= o.maxdepth && dd.second < 50) dd = ds[D(ds.size())];
		Inode *d = dd.first;
		string nm = gen_name(d, o, i);
		u32 t = D(20);
		Inode *c;
		if (t < 7 || (t >= 14 && !o.links)) {
			c = new_inode(S_IFREG | 0644, d->dev); c->mnt = d->mnt;
			random_attrs(c);
			link_child(d, nm, c);
			files.push_back(c);
		} else if (t < 14) {
			c = mkdir_in(d, nm);
			if (o.mounts && P(1, 4)) {
				move_to_dev(c, next_dev++); c->under_ino_differs = true;
				static const char *types[] = {"tmpfs", "ext4", "nfs"};
				mounts.push_back({path_of(c), types[D(3)], c->dev});
			}
			random_attrs(c);
			if (o.unknown_types && P(1, 6)) c->dtype_unknown = true;
			if (o.errs && P(1, 6)) {
				static const int es[] = {EACCES, EIO, ELOOP, ESTALE};
				if (P(1, 2)) c->open_err = es[D(3)];
				else { c->read_err = D(2) ? EIO : ESTALE; c->read_err_after = D(4); }
			}
			ds.push_back({c, dd.second + 1});
			dirs.push_back(c);
		} else if (t < 17) {
			c = new_inode(S_IFLNK | 0777, d->dev); c->mnt = d->mnt;
			u32 k = D(10);
			if (k == 0 || (files.empty() && k < 3)) c->target = "nonexistent";
			else if (k < 3) c->target = path_of(d) == "?" ? "zz" : (files.empty() ? "zz" : [&] { for (auto &e : d->ents) if (e.ino->is_reg()) return e.name; return string("nope"); }());
			else if (k < 5) { auto x = dirs[D(dirs.size())]; c->target = path_of(x); }
			else if (k == 5) c->target = "..";
			else if (k == 6) c->target = ".";
			else if (k == 7) c->target = nm; // self loop
			else if (k == 8) c->target = [&] { for (auto &e : d->ents) if (e.ino->is_reg()) return e.name + "/x"; return string("a/../b"); }();
			else { c->target = "../" + (d->ents.empty() ? string("x") : d->ents[D(d->ents.size())].name); }
			if (c->target.size() > 4000) c->target = "toolong";
			random_attrs(c);
			link_child(d, nm, c);
			links.push_back(c);
		} else if (t < 18 && o.special) {
			static const mode_t ty[] = {S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK};
			c = new_inode(ty[D(4)] | 0644, d->dev); c->mnt = d->mnt;
			c->rdev = 0x0503;
			random_attrs(c);
			link_child(d, nm, c);
		} else if (o.hard && !files.empty()) {
			Inode *f = files[D(files.size())];
			if (f->dev == d->dev) { f->nlink++; link_child(d, nm, f); }
		} else {
			c = new_inode(S_IFREG | 0644, d->dev); c->mnt = d->mnt;
			random_attrs(c);
			link_child(d, nm, c);
			files.push_back(c);
		}
	}
}

// ---------------------------------------------------------------- model tree
static char type_letter(mode_t m) {
	switch (m & S_IFMT) {
	case S_IFREG: return 'f'; case S_IFDIR: return 'd'; case S_IFLNK: return 'l'; case S_IFIFO: return 'p';
	case S_IFSOCK: return 's'; case S_IFCHR: return 'c'; case S_IFBLK: return 'b';
	}
	return '?';
}
static size_t node_cap = 4000;
static void fill_node(Node *n, Inode *dir, const string &name) {
	bool fol = sc.follow == 2 || (sc.follow == 1 && n->depth == 0);
	int e = 0;
	if (n->depth == 0) e = resolve(dir, name, false, &n->l);
	else n->l = dir->child(name);
	if (e) { n->err = e; n->l = nullptr; return; }
	n->sb = n->l;
	if (fol && n->l->is_lnk()) {
		Inode *t;
		n->ferr = resolve(dir, name, true, &t);
		if (!n->ferr) n->sb = t;
		else if (n->ferr != ENOENT && n->ferr != ENOTDIR) n->err = n->ferr;
	}
	n->type = type_letter(n->sb->mode);
}
static void expand(Node *n) {
	sc.nodes.push_back(n);
	if (sc.nodes.size() > node_cap) { sc.huge = true; return; }
	if (n->err || n->type != 'd') { n->nodesc = true; return; }
	if (sc.follow == 2 && !sc.unique) {
		for (Node *a = n->parent; a; a = a->parent)
			if (a->sb == n->sb) { n->err = ELOOP; n->loop = true; n->nodesc = true; break; }
	}
	if (n->parent && n->sb->dev != n->parent->sb->dev) {
		if (sc.mount) { n->skip = true; n->err = 0; n->nodesc = true; return; }
		if (sc.xdev) n->nodesc = true;
	}
	if (n->err) return;
	if (n->depth >= sc.maxdepth) n->nodesc = true;
	if (n->nodesc) return;
	Inode *d = n->sb;
	if (d->open_err) { n->direrr = d->open_err; return; }
	if (d->read_err && (int)d->ents.size() >= d->read_err_after) n->direrr = d->read_err;
	int cnt = 0;
	for (auto &e : d->ents) {
		if (d->read_err && cnt >= d->read_err_after) break;
		++cnt;
		Node *k = new Node;
		k->parent = n; k->depth = n->depth + 1; k->root = n->root; k->rootidx = n->rootidx;
		k->path = n->path;
		if (k->path.empty() || k->path.back() != '/') k->path += '/';
		k->nameoff = k->path.size();
		k->path += e.name;
		fill_node(k, d, e.name);
		n->kids.push_back(k);
		expand(k);
		if (sc.huge) return;
	}
}
// -mount applies to every type
static void mount_skip_files(Node *n) {
	if (sc.mount && n->parent && n->sb && !n->ferr && n->sb->dev != n->parent->sb->dev) { n->skip = true; n->err = 0; }
	for (Node *k : n->kids) mount_skip_files(k);
}
static size_t xbase(const string &p) {
	size_t i = p.size();
	while (i > 0 && p[i - 1] == '/') --i;
	while (i > 0 && p[i - 1] != '/') --i;
	while (i + 1 < p.size() && p[i] == '/') ++i;
	return i;
}
static void build_nodes() {
	sc.nodes.clear(); sc.rootnodes.clear(); sc.huge = false;
	for (size_t i = 0; i < sc.roots.size(); ++i) {
		Node *n = new Node;
		n->path = n->root = sc.roots[i];
		n->rootidx = i;
		n->nameoff = xbase(n->path);
		fill_node(n, W, n->path);
		sc.rootnodes.push_back(n);
		expand(n);
		mount_skip_files(n);
	}
}
// The same path string may only be reached twice where the expression does
// not depend on the root (every file is then visited once per root).
static string bare(string s) {
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	return s;
}
static void dedup_roots() {
	std::set<string> seen;
	for (size_t i = 0; i < sc.roots.size();) {
		bool same = false, clash = false;
		for (size_t j = 0; j < i; ++j) if (sc.roots[j] == sc.roots[i]) same = true;
		if (same && sc.dup_ok) { sc.dup = true; ++i; continue; }
		for (Node *n : sc.nodes) if (n->rootidx == (int)i && seen.count(n->path)) { clash = true; break; }
		// r1 and r1/ reach the same paths with a different %H
		bool slash = false;
		for (size_t j = 0; j < i; ++j) if (sc.roots[j] != sc.roots[i] && bare(sc.roots[j]) == bare(sc.roots[i])) slash = true;
		if (clash && sc.dup_ok && !slash && (sc.unique || sc.profile != "acct")) { sc.dup = true; ++i; continue; }
		if (same || clash) { sc.roots.erase(sc.roots.begin() + i); build_nodes(); continue; }
		for (Node *n : sc.nodes) if (n->rootidx == (int)i) seen.insert(n->path);
		++i;
	}
}
// How many file visits a search needs (iterative deepening repeats them)
static u64 walk_work() {
	u64 work = 0;
	int deepest = 0;
	std::map<int, u64> at;
	for (Node *n : sc.nodes) { at[n->depth]++; deepest = std::max(deepest, n->depth); }
	if (sc.strategy == ST_IDS) { for (auto &x : at) work += x.second * (deepest - x.first + 2); }
	else if (sc.strategy == ST_EDS) { for (auto &x : at) { int b = 0; while ((1 << b) < deepest - x.first + 2) ++b; work += x.second * (b + 2); } }
	else work = sc.nodes.size();
	return work;
}
static string base_name(Node *n) {
	string s = n->name();
	if (n->depth == 0) {
		size_t j = s.find('/');
		if (j == 0) return "/";
		if (j != string::npos) s.resize(j);
	}
	return s;
}

// ---------------------------------------------------------------- leaves
static string glob_escape(const string &s) {
	string r;
	for (char c : s) { if (strchr("*?[]\\", c)) r += '\\'; r += c; }
	return r;
}
static Node *some_node() {
	for (int k = 0; k < 6; ++k) {
		Node *n = sc.nodes[D(sc.nodes.size())];
		if (n->l && !n->err) return n;
	}
	return sc.rootnodes[0]->l ? sc.rootnodes[0] : nullptr;
}
struct Cmp { string s; std::function<bool(long long)> f; };
static Cmp gen_cmp(long long v) {
	v += (int)D(3) - 1;
	if (v < 0) v = 0;
	switch (D(3)) {
	case 1: return {"+" + N(v), [v](long long x) { return x > v; }};
	case 2: return {"-" + N(v), [v](long long x) { return x < v; }};
	}
	return {N(v), [v](long long x) { return x == v; }};
}
static bool eq_types(const string &l, char t) { return l.find(t) != string::npos; }
static const char *const user_names[][2] = {{"alice", "1000"}, {"root", "0"}, {"bob", "1001"}};
// The user database as the model sees it; commands may change it
struct Db { vector<UserRec> users, groups; };
static vector<Db> dbs;
static size_t db_real, db_model;
static const vector<UserRec> &musers() { return dbs.empty() ? users : dbs[db_model % dbs.size()].users; }
static const vector<UserRec> &mgroups() { return dbs.empty() ? groups : dbs[db_model % dbs.size()].groups; }
static string user_of(const vector<UserRec> &v, u32 id) { for (auto &u : v) if (u.id == id) return u.name; return ""; }
static int access_bits(Inode *i) { return i->uid == 1000 ? i->mode >> 6 : i->gid == 1000 ? i->mode >> 3 : i->mode; }

static int64_t ref_now() { // what the time tests are relative to
	const int64_t day = 86400ll * 1000000000;
	return sc.daystart ? (first_realtime + day - 1) / day * day : first_realtime;
}
static bool nonlnk(Node *n) { return n->type != 'l'; }
// Some path is too long to be looked at from the mount table
static bool very_deep() { for (Node *n : sc.nodes) if (n->path.size() > 3800) return true; return false; }
static bool far_paths; // some path is too long for system calls that need the whole path
static ExP gen_test(bool heavy);
static bool has_time(Inode *i, int k) { return k != 1 || (envcfg.have_statx && !i->nobtime); }
static void uses_btime() { for (Node *n : sc.nodes) if (n->sb && !has_time(n->sb, 1)) n->maydiag = 1; }
// A test of a file's time, which it may not have
static ExP ttest(vector<string> args, int k, std::function<bool(Node *)> fn) {
	if (k == 1) uses_btime();
	return leaf(args, [k, fn](Node *n, EvCtx &c) {
		if (has_time(n->sb, k)) return fn(n);
		// elsewhere the optimizer may leave out or reorder a test
		if (sc.profile == "clock") c.need_diag = "birth time";
		return false;
	});
}
static int fld(char c) { return c == 'a' ? 0 : c == 'B' ? 1 : c == 'c' ? 2 : 3; }
static ExP gen_hidden() { return test({"-hidden"}, [](Node *n) { string b = n->name(); return b[0] == '.' && b != "." && b != ".."; }); }
static ExP gen_test2(Node *x) {
	switch (D(10)) {
	case 0: if (far_paths) break; return test({"-acl"}, [](Node *n) { return nonlnk(n) && (n->sb->has_acl || (n->type == 'd' && n->sb->def_acl)); });
	case 1: if (far_paths) break; return test({"-capable"}, [](Node *n) { return nonlnk(n) && n->sb->has_cap; });
	case 2: if (far_paths) break; {
		string a = P(1, 2) ? "user.a" : "user.b";
		return test({"-xattrname", a}, [a](Node *n) { return std::find(n->sb->xattrs.begin(), n->sb->xattrs.end(), a) != n->sb->xattrs.end(); });
	}
	case 3: if (far_paths) break; {
		string p = "ctx" + N(D(3));
		if (P(1, 3)) p = "c*[" + p.substr(3) + "2]";
		return test({"-context", p}, [p](Node *n) { return fnmatch(p.c_str(), ("ctx" + N(n->sb->ino % 3)).c_str(), 0) == 0; });
	}
	case 4: {
		string b = base_name(x);
		char ch = isalnum((unsigned char)b[0]) ? b[0] : 'a';
		bool ic = P(1, 3);
		if (P(1, 3)) { // the whole path has to match, whichever alternative comes first
			auto lit = [](const string &p) { string r; for (char c : p) { if (c == '.') r += '\\'; r += c; } return r; };
			bool safe = true;
			for (char c : x->path) if (!isalnum((unsigned char)c) && !strchr("/._-", c)) safe = false;
			if (safe && x->path.size() < 200) {
				string p = x->path, q = p.substr(0, 1 + D(p.size())), r = p + (P(1, 2) ? "" : "/");
				bool more = P(1, 3);
				if (P(1, 2)) std::swap(q, r);
				vector<string> a = {"(", "-regextype", P(1, 2) ? "posix-extended" : "egrep", ic ? "-iregex" : "-regex", lit(q) + "|" + lit(r) + (more ? ".+" : ""), ")"};
				return test(a, [q, r, more, ic](Node *n) {
					auto same = [&](const string &a, const string &b) { return ic ? strcasecmp(a.c_str(), b.c_str()) == 0 : a == b; };
					const string &p = n->path;
					if (same(p, q)) return true;
					return more ? p.size() > r.size() && same(p.substr(0, r.size()), r) && p.find('\n', r.size()) == string::npos : same(p, r);
				});
			}
		}
		string re = string(".*/") + ch + "[^/]*";
		if (P(1, 4)) re = string(".*/[b") + ch + "][^/]*";
		bool two = re[3] == '[';
		return test({ic ? "-iregex" : "-regex", re}, [ch, ic, two](Node *n) {
			size_t k = n->path.rfind('/');
			if (k == string::npos || k + 1 >= n->path.size()) return false;
			char c = n->path[k + 1];
			auto same = [&](char a) { return a == c || (ic && isalpha((unsigned char)a) && tolower(a) == tolower(c)); };
			return same(ch) || (two && same('b'));
		});
	}
	case 5: {
		if (P(1, 2)) { // an absolute time
			int k = D(4);
			long long t = x->sb->tm[k].tv_sec + (int)D(3) - 1;
			string v;
			auto iso = [&](const char *f, long long at) { char b[64]; time_t tt = at; struct tm tm; gmtime_r(&tt, &tm); strftime(b, sizeof b, f, &tm); return string(b); };
			switch (D(6)) {
			case 0: v = "@" + N(t); break;
			case 1: v = iso("%Y-%m-%dT%H:%M:%SZ", t); break;
			case 2: v = iso("%Y%m%d%H%M%S", t); break;
			case 3: v = iso("%Y-%m-%d %H:%M:%S+02:30", t + 9000); break;
			case 4: v = iso("%Y%m%dT%H%M%S-0100", t - 3600); break;
			default: t -= t % 86400; v = iso("%Y-%m-%d", t); break;
			}
			static const char *const nm[] = {"-newerat", "-newerBt", "-newerct", "-newermt"}, *const si[] = {"-asince", "-Bsince", "-csince", "-since"};
			return ttest({P(1, 2) ? nm[k] : si[k], v}, k, [t, k](Node *n) {
				auto &a = n->sb->tm[k];
				return a.tv_sec > t || (a.tv_sec == t && a.tv_nsec > 0);
			});
		}
		if (x->path.size() > 3000 || x->l->is_lnk()) break;
		static const char f[] = "aBcm";
		char X = f[D(4)], Y = f[D(4)];
		if (!has_time(x->l, fld(Y))) break;
		struct timespec t = x->l->tm[fld(Y)];
		int k = fld(X);
		return ttest({string("-newer") + X + Y, x->path}, k, [t, k](Node *n) {
			auto &a = n->sb->tm[k];
			return a.tv_sec > t.tv_sec || (a.tv_sec == t.tv_sec && a.tv_nsec > t.tv_nsec);
		});
	}
	case 6: case 7: {
		struct M { const char *s; mode_t f, d; };
		static const M ms[] = {{"u=rw", 0600, 0600}, {"a=r,u+w", 0644, 0644}, {"u=rwx,go=rx", 0755, 0755}, {"ug=rw,o=", 0660, 0660}, {"u+w", 0200, 0200},
			{"u+w,o+x", 0201, 0201}, {"u+s", 04000, 04000}, {"a=rX", 0444, 0555}, {"u=rwx,g=u-w,o=g", 0755 - 0, 0755}, {"a+X", 0, 0111}, {"g+s,u=x", 02100, 02100}};
		auto &m = ms[D(11)];
		if (!strchr(m.s, '-')) {
			int k = D(3);
			string s = (k == 0 ? "" : k == 1 ? "-" : "/") + string(m.s);
			return test({"-perm", s}, [&m, k](Node *n) {
				mode_t f = n->sb->mode, t = n->type == 'd' ? m.d : m.f;
				if (k == 0) return (f & 07777) == t;
				if (k == 1) return (f & t) == t;
				return !(f & t) == !t;
			});
		}
		break;
	}
	case 8: {
		string pat = glob_escape(x->path.substr(0, x->path.size() / 2)) + "*";
		if (pat.size() > 3000) break;
		for (char &c : pat) if (isalpha((unsigned char)c) && P(1, 2)) c = isupper((unsigned char)c) ? tolower(c) : toupper(c);
		return test({"-ipath", pat}, [pat](Node *n) { return fnmatch(pat.c_str(), n->path.c_str(), FNM_CASEFOLD) == 0; });
	}
	case 9: {
		string pat = x->l->is_lnk() ? glob_escape(x->l->target.substr(0, 2)) + "*" : "*E*";
		for (char &c : pat) c = toupper((unsigned char)c);
		return test({"-ilname", pat}, [pat](Node *n) { return n->type == 'l' && fnmatch(pat.c_str(), n->l->target.c_str(), FNM_CASEFOLD) == 0; });
	}
	}
	return gen_test(true);
}

static ExP gen_test(bool heavy) {
	Node *x = some_node();
	if (!x) return test({"-true"}, [](Node *) { return true; });
	if (heavy && D(4) == 3) return gen_test2(x);
	switch (D(heavy ? 30 : 8)) {
	case 0: return test({"-true"}, [](Node *) { return true; });
	case 1: {
		string b = base_name(x), pat;
		switch (D(5)) {
		case 0: pat = glob_escape(b); break;
		case 1: pat = glob_escape(b.substr(0, 1)) + "*"; break;
		case 2: pat = "*" + glob_escape(b.substr(b.size() - 1)); break;
		case 3: pat = "?"; break;
		default: pat = "[a-f]*"; break;
		}
		bool ic = P(1, 5);
		return test({ic ? "-iname" : "-name", pat}, [pat, ic](Node *n) { return fnmatch(pat.c_str(), base_name(n).c_str(), ic ? FNM_CASEFOLD : 0) == 0; });
	}
	case 2: {
		string pat;
		switch (D(4)) {
		case 0: pat = glob_escape(x->path); break;
		case 1: pat = "*/" + glob_escape(x->name()); break;
		case 2: pat = "*" + glob_escape(x->path.substr(x->path.size() / 2)); break;
		default: pat = "*b*"; break;
		}
		if (pat.size() > 5000) pat = "*a*";
		return test({"-path", pat}, [pat](Node *n) { return fnmatch(pat.c_str(), n->path.c_str(), 0) == 0; });
	}
	case 3: {
		string l(1, x->type);
		if (P(1, 3)) { l += ","; l += "fdlp"[D(4)]; }
		return test({"-type", l}, [l](Node *n) { return eq_types(l, n->type); });
	}
	case 4: return test({"-false"}, [](Node *) { return false; });
	case 5: { auto c = gen_cmp(x->depth); return test({"-depth", c.s}, [c](Node *n) { return c.f(n->depth); }); }
	case 6: return gen_hidden();
	case 7: { auto c = gen_cmp(x->sb->uid); return test({"-uid", c.s}, [c](Node *n) { return c.f(n->sb->uid); }); }
	case 8: { auto c = gen_cmp(x->sb->gid); return test({"-gid", c.s}, [c](Node *n) { return c.f(n->sb->gid); }); }
	case 9: { auto c = gen_cmp(x->sb->nlink); return test({"-links", c.s}, [c](Node *n) { return c.f(n->sb->nlink); }); }
	case 10: { auto c = gen_cmp(x->sb->ino); return test({"-inum", c.s}, [c](Node *n) { return c.f(n->sb->ino); }); }
	case 11: {
		static const char *const u[] = {"c", "", "k", "M", "w", "b", "G"};
		static const long long sc_[] = {1, 512, 1024, 1048576, 2, 512, 1073741824};
		int k = D(7);
		long long s = sc_[k];
		auto c = gen_cmp((x->sb->size + s - 1) / s);
		return test({"-size", c.s + u[k]}, [c, s](Node *n) { return c.f(((long long)n->sb->size + s - 1) / s); });
	}
	case 12: {
		static const mode_t m[] = {0644, 0755, 0600, 0111, 0, 04000, 0222, 0444};
		mode_t t = m[D(8)];
		char b[16];
		snprintf(b, sizeof b, "%o", t);
		int k = D(3);
		string s = (k == 0 ? "" : k == 1 ? "-" : "/") + string(b);
		return test({"-perm", s}, [t, k](Node *n) {
			mode_t f = n->sb->mode;
			if (k == 0) return (f & 07777) == t;
			if (k == 1) return (f & t) == t;
			return !(f & t) == !t;
		});
	}
	case 13: {
		int k = D(4); static const char f[] = {'a', 'B', 'c', 'm'};
		if (k == 1 && !envcfg.have_statx && P(1, 2)) k = 3;
		long long ago = (base_s - x->sb->tm[k].tv_sec) / 60;
		auto c = gen_cmp(ago);
		return ttest({string("-") + f[k] + "min", c.s}, k, [c, k](Node *n) {
			long long d = ref_now() / 1000000000 - n->sb->tm[k].tv_sec;
			if (ref_now() % 1000000000 < n->sb->tm[k].tv_nsec) --d;
			return c.f(d / 60);
		});
	}
	case 14: {
		int k = D(4); static const char f[] = {'a', 'B', 'c', 'm'};
		if (k == 1 && !envcfg.have_statx && P(1, 2)) k = 3;
		if (P(1, 3)) { // with units, to the second
			long long v = std::max<long long>(0, base_s - x->sb->tm[k].tv_sec + (int)D(5) - 2), r = v;
			string u;
			static const struct { char c; long long n; } us[] = {{'w', 604800}, {'d', 86400}, {'h', 3600}, {'m', 60}, {'s', 1}};
			for (auto &y : us) if ((r >= y.n && P(2, 3)) || (y.c == 's' && (r || u.empty()))) { u += N(r / y.n) + y.c; r %= y.n; }
			int how = D(3);
			return ttest({string("-") + f[k] + "time", (how == 1 ? "+" : how == 2 ? "-" : "") + u}, k, [v, how, k](Node *n) {
				long long d = ref_now() / 1000000000 - n->sb->tm[k].tv_sec;
				if (ref_now() % 1000000000 < n->sb->tm[k].tv_nsec) --d;
				return how == 1 ? d > v : how == 2 ? d < v : d == v;
			});
		}
		auto c = gen_cmp((base_s - x->sb->tm[k].tv_sec) / 86400);
		return ttest({string("-") + f[k] + "time", c.s}, k, [c, k](Node *n) {
			long long d = ref_now() / 1000000000 - n->sb->tm[k].tv_sec;
			if (ref_now() % 1000000000 < n->sb->tm[k].tv_nsec) --d;
			return c.f(d / 86400);
		});
	}
	case 15: {
		if (x->path.size() > 3000 || x->l->is_lnk()) return gen_test(false);
		struct timespec t = x->l->tm[3];
		int k = D(4); static const char *const f[] = {"-anewer", "-Bnewer", "-cnewer", "-newer"};
		if (k == 1 && !envcfg.have_statx && P(1, 2)) k = 3;
		return ttest({f[k], x->path}, k, [t, k](Node *n) {
			auto &a = n->sb->tm[k];
			return a.tv_sec > t.tv_sec || (a.tv_sec == t.tv_sec && a.tv_nsec > t.tv_nsec);
		});
	}
	case 16: {
		if (x->path.size() > 3000 || x->l->is_lnk()) return gen_test(false);
		Inode *i = x->l;
		return test({"-samefile", x->path}, [i](Node *n) { return n->sb == i; });
	}
	case 17: if (sc.mutate) return gen_test(false);
		return leaf({"-empty"}, [](Node *n, EvCtx &c) {
		if (n->type == 'f') return n->sb->size == 0;
		if (n->type != 'd') return false;
		if (n->sb->open_err || (n->sb->read_err && n->sb->read_err_after == 0)) { c.need_diag = "-empty"; return false; }
		return n->sb->ents.empty();
	});
	case 18: {
		int k = D(3); static const char *const f[] = {"-readable", "-writable", "-executable"};
		static const int m[] = {4, 2, 1};
		int bit = m[k];
		return test({f[k]}, [bit](Node *n) {
			Inode *i = n->l;
			if (i->is_lnk()) {
				Inode *t;
				if (n->ferr) return false;
				if (n->sb != n->l) t = n->sb;
				else if (n->depth == 0) { if (resolve(W, n->path, true, &t)) return false; }
				else if (resolve(n->parent->sb, n->name(), true, &t)) return false;
				i = t;
			}
			return (access_bits(i) & bit) != 0;
		});
	}
	case 19: {
		string l(1, x->type);
		if (P(1, 3)) { l += ","; l += "fdl"[D(3)]; }
		return leaf({"-xtype", l}, [l](Node *n, EvCtx &c) {
			bool fol = sc.follow == 2 || (sc.follow == 1 && n->depth == 0);
			if (fol) return eq_types(l, type_letter(n->l->mode));
			if (!n->l->is_lnk()) return eq_types(l, n->type);
			Inode *t;
			int e = n->depth == 0 ? resolve(W, n->path, true, &t) : resolve(n->parent->sb, n->name(), true, &t);
			if (!e) return eq_types(l, type_letter(t->mode));
			if (e == ENOENT || e == ENOTDIR || e == ELOOP) return eq_types(l, 'l');
			c.need_diag = "-xtype";
			return false;
		});
	}
	case 20: {
		string pat = x->l->is_lnk() ? glob_escape(x->l->target.substr(0, 2)) + "*" : "*";
		return test({"-lname", pat}, [pat](Node *n) { return n->type == 'l' && fnmatch(pat.c_str(), n->l->target.c_str(), 0) == 0; });
	}
	case 21: {
		string u = user_names[D(3)][0];
		u32 id = 0;
		for (auto &r : users) if (r.name == u) id = r.id;
		return test({"-user", u}, [id](Node *n) { return n->sb->uid == id; });
	}
	case 22: return test({"-nouser"}, [](Node *n) { return user_of(musers(), n->sb->uid).empty(); });
	case 23: return test({"-nogroup"}, [](Node *n) { return user_of(mgroups(), n->sb->gid).empty(); });
	case 24: {
		auto c = gen_cmp(D(40));
		return test({"-used", c.s}, [c](Node *n) {
			auto &a = n->sb->tm[0], &b = n->sb->tm[2];
			long long d = (long long)a.tv_sec - b.tv_sec;
			if (a.tv_nsec < b.tv_nsec) --d;
			if (d < 0) return false;
			return c.f((d + 86399) / 86400);
		});
	}
	case 25: return test({"-sparse"}, [](Node *n) { return n->sb->blocks < (n->sb->size + 511) / 512; });
	case 26: if (very_deep()) break; {
		string ty = P(1, 2) ? "rootfs" : (mounts.empty() ? string("tmpfs") : mounts[D(mounts.size())].type);
		return test({"-fstype", ty}, [ty](Node *n) {
			for (auto &m : mounts) if (m.dev == n->sb->dev) return m.type == ty;
			return false;
		});
	}
	case 27: {
		static const char *const g[] = {"staff", "wheel"};
		string u = g[D(2)];
		u32 id = 0;
		for (auto &r : groups) if (r.name == u) id = r.id;
		return test({"-group", u}, [id](Node *n) { return n->sb->gid == id; });
	}
	case 28: return test({"-xattr"}, [](Node *n) { return !n->sb->xattrs.empty(); });
	default: {
		int64_t t = x->sb->tm[3].tv_sec;
		// -newermt takes a timestamp
		time_t tt = t;
		struct tm tm;
		gmtime_r(&tt, &tm);
		char b[64];
		strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm);
		return test({"-newermt", b}, [t](Node *n) { auto &a = n->sb->tm[3]; return a.tv_sec > t || (a.tv_sec == t && a.tv_nsec > 0); });
	}
	}
}

// ---------------------------------------------------------------- actions
static ExP act(ExP e) { e->action = true; return e; }
static ExP act2(ExP e) { return e; } // -prune, -quit, -limit: do not suppress the implicit -print
static ExP a_print() { return act(leaf({"-print"}, [](Node *n, EvCtx &c) { c.out += n->path + "\n"; return true; })); }

static string fmt_dir(Node *n, char d) {
	Inode *s = n->sb;
	char b[64];
	switch (d) {
	case 'p': return n->path;
	case 'f': return n->name();
	case 'h': {
		if (n->nameoff > 0) return n->path.substr(0, n->nameoff > 1 ? n->nameoff - 1 : 1);
		return n->path[0] == '/' ? "/" : ".";
	}
	case 'P': {
		size_t o = n->root.size();
		if (o < n->path.size() && n->path[o] == '/') ++o;
		return n->path.substr(o);
	}
	case 'H': return n->root;
	case 'd': return N(n->depth);
	case 'y': return string(1, n->type);
	case 's': return N(s->size);
	case 'n': return N(s->nlink);
	case 'i': return N(s->ino);
	case 'U': return N(s->uid);
	case 'G': return N(s->gid);
	case 'u': { string u = user_of(musers(), s->uid); return u.empty() ? N(s->uid) : u; }
	case 'g': { string u = user_of(mgroups(), s->gid); return u.empty() ? N(s->gid) : u; }
	case 'm': snprintf(b, sizeof b, "%o", s->mode & 07777); return b;
	case 'D': return N(makedev(8, s->dev));
	case 'b': return N(s->blocks);
	case 'k': return N((s->blocks * 512 + 1023) / 1024);
	case 'l': return n->type == 'l' ? n->l->target : "";
	case 'T': snprintf(b, sizeof b, "%lld.%09ld0", (long long)s->tm[3].tv_sec, s->tm[3].tv_nsec); return b;
	case 'C': snprintf(b, sizeof b, "%lld.%09ld0", (long long)s->tm[2].tv_sec, s->tm[2].tv_nsec); return b;
	case 'A': snprintf(b, sizeof b, "%lld.%09ld0", (long long)s->tm[0].tv_sec, s->tm[0].tv_nsec); return b;
	case 'Y': {
		if (!n->l->is_lnk()) return string(1, n->type);
		Inode *t;
		int e = n->depth == 0 ? resolve(W, n->path, true, &t) : resolve(n->parent->sb, n->name(), true, &t);
		if (!e) return string(1, type_letter(t->mode));
		return e == ELOOP ? "L" : "N";
	}
	}
	return "?";
}
static string mode_str(mode_t m) {
	string r = "?rwxrwxrwx";
	char t = type_letter(m);
	r[0] = t == 'f' ? '-' : t;
	for (int i = 0; i < 9; ++i) if (!(m >> (8 - i) & 1)) r[i + 1] = '-';
	if (m & S_ISUID) r[3] = r[3] == 'x' ? 's' : 'S';
	if (m & S_ISGID) r[6] = r[6] == 'x' ? 's' : 'S';
	if (m & S_ISVTX) r[9] = r[9] == 'x' ? 't' : 'T';
	return r;
}
static string fs_type(Inode *i) { for (auto &m : mounts) if (m.dev == i->dev) return m.type; return "unknown"; }
static string strf(const char *f, int64_t t) {
	time_t tt = t;
	struct tm tm;
	gmtime_r(&tt, &tm);
	char b[128];
	strftime(b, sizeof b, f, &tm);
	return b;
}
static string ls_line(Node *n) {
	Inode *s = n->sb;
	char b[512];
	bool acl = nonlnk(n) && (s->has_acl || (n->type == 'd' && s->def_acl));
	snprintf(b, sizeof b, "%9ju %6ju %s%c %2ju %-8s %-8s", (uintmax_t)s->ino, (uintmax_t)(s->blocks * 512 + 1023) / 1024, mode_str(s->mode).c_str(), acl ? '+' : ' ', (uintmax_t)s->nlink,
		fmt_dir(n, 'u').c_str(), fmt_dir(n, 'g').c_str());
	string r = b;
	if (n->type == 'b' || n->type == 'c') snprintf(b, sizeof b, " %3d, %3d", (int)major(s->rdev), (int)minor(s->rdev));
	else snprintf(b, sizeof b, " %8ju", (uintmax_t)s->size);
	r += b;
	int64_t now = first_realtime / 1000000000, t = s->tm[3].tv_sec;
	bool old = t <= now - 6 * 30 * 86400 || t >= now + 86400;
	r += " " + strf(old ? "%b %e  %Y" : "%b %e %H:%M", t) + " " + n->path;
	if (n->type == 'l') r += " -> " + n->l->target;
	return r + "\n";
}
// directives with several characters
static string fmt_dir2(Node *n, const string &d) {
	if (d.size() == 1) {
		Inode *s = n->sb;
		char b[128];
		switch (d[0]) {
		case 'M': return mode_str(s->mode);
		case 'F': return fs_type(s);
		case 'S': snprintf(b, sizeof b, "%g", s->size == 0 && s->blocks == 0 ? 1.0 : 512.0 * s->blocks / s->size); return b;
		case 'Z': return "ctx" + N(s->ino % 3);
		case 't': case 'a': case 'c': {
			auto &t = s->tm[d[0] == 't' ? 3 : d[0] == 'a' ? 0 : 2];
			snprintf(b, sizeof b, "%s.%09ld0%s", strf("%a %b %e %H:%M:%S", t.tv_sec).c_str(), t.tv_nsec, strf(" %Y", t.tv_sec).c_str());
			return b;
		}
		}
		return fmt_dir(n, d[0]);
	}
	auto &t = n->sb->tm[d[0] == 'T' ? 3 : d[0] == 'A' ? 0 : d[0] == 'C' ? 2 : 1];
	char b[128];
	switch (d[1]) {
	case '@': snprintf(b, sizeof b, "%lld.%09ld0", (long long)t.tv_sec, t.tv_nsec); return b;
	case '+': snprintf(b, sizeof b, "%s.%09ld0", strf("%Y-%m-%d+%H:%M:%S", t.tv_sec).c_str(), t.tv_nsec); return b;
	case 'S': snprintf(b, sizeof b, "%s.%09ld0", strf("%S", t.tv_sec).c_str(), t.tv_nsec); return b;
	case 's': return N(t.tv_sec);
	}
	string f = string("%") + d[1];
	return strf(f.c_str(), t.tv_sec);
}
static string pad(const string &v, const string &flag, int width) {
	if ((int)v.size() >= width) return v;
	string fill(width - v.size(), flag == "0" ? '0' : ' ');
	return flag == "-" ? v + fill : fill + v;
}
static ExP a_printf2(const string &file) {
	struct Dv { string flag; int width; string d; };
	vector<Dv> ds;
	string f;
	int k = 1 + D(4);
	for (int i = 0; i < k; ++i) {
		static const vector<string> one = {"M", "F", "S", "t", "a", "c", "p", "f", "s", "n", "d", "i", "m", "l", "Z", "h"};
		string d = pick(one);
		if (d == "Z" && far_paths) d = "y";
		if (d == "F" && (sc.profile == "acct" || very_deep())) d = "M"; // needs to look at the mount points
		if (P(1, 4)) {
			d = string(1, "TCAB"[D(envcfg.have_statx || P(1, 3) ? 4 : 3)]) + string(1, "@+SsYmdHMj"[D(10)]);
		}
		if (d.size() == 2 && d[0] == 'B') uses_btime();
		Dv v{"", 0, d};
		if (P(1, 4)) { v.width = 1 + D(20); v.flag = P(1, 3) ? "-" : strchr("dm", d[0]) && d.size() == 1 && P(1, 2) ? "0" : ""; }
		ds.push_back(v);
		f += "<%" + v.flag + (v.width ? N(v.width) : "") + d;
	}
	f += "%%\\t\\101\\n";
	auto fn = [ds, file](Node *n, EvCtx &c) {
		string o;
		for (auto &v : ds) {
			o += "<";
			if (v.d.size() == 2 && v.d[0] == 'B' && !has_time(n->sb, 1)) c.need_diag = "birth time";
			else o += pad(fmt_dir2(n, v.d), v.flag, v.width);
		}
		o += "%\tA\n";
		if (file.empty()) c.out += o; else c.files[file] += o;
		return true;
	};
	return act(leaf(file.empty() ? vector<string>{"-printf", f} : vector<string>{"-fprintf", file, f}, fn));
}
static ExP a_ls(const string &file) {
	auto fn = [file](Node *n, EvCtx &c) {
		if (file.empty()) c.out += ls_line(n); else c.files[file] += ls_line(n);
		return true;
	};
	return act(leaf(file.empty() ? vector<string>{"-ls"} : vector<string>{"-fls", file}, fn));
}
static string xesc(const string &p) {
	string r;
	for (char c : p) { if (strchr(" \t\n\\$'\"`", c)) r += '\\'; r += c; }
	return r;
}
static ExP a_printf(const string &file = "") {
	if (P(1, 12)) return act(leaf(file.empty() ? vector<string>{"-printx"} : vector<string>{"-fprintf", file, "%p\\n\\cno%p"}, [file](Node *n, EvCtx &c) {
		if (file.empty()) c.out += xesc(n->path) + "\n"; else c.files[file] += n->path + "\n";
		return true;
	}));
	if (sc.profile != "alloc") switch (D(8)) {
	case 5: case 6: return a_printf2(file);
	case 7: if (sc.profile != "acct" && sc.profile != "del") return a_ls(file); break; // stops in mid-line on errors
	}
	string ds;
	int k = 1 + D(5);
	static const char all[] = "pfhPHdysniUGugmDbklTCAY";
	for (int i = 0; i < k; ++i) ds += all[D(sizeof all - 1)];
	// bfs silently falls back to numbers when the lookup runs out of memory
	if (sc.profile == "alloc") for (char &d : ds) d = d == 'u' ? 'U' : d == 'g' ? 'G' : d;
	string f;
	for (char d : ds) f += string("<%") + (d == 'T' || d == 'C' || d == 'A' ? string(1, d) + "@" : string(1, d));
	f += "\\n";
	auto fn = [ds, file](Node *n, EvCtx &c) {
		string o;
		for (char d : ds) o += "<" + fmt_dir(n, d);
		o += "\n";
		if (file.empty()) c.out += o; else c.files[file] += o;
		return true;
	};
	return act(leaf(file.empty() ? vector<string>{"-printf", f} : vector<string>{"-fprintf", file, f}, fn));
}
static ExP a_fprint() {
	string f = "/o/out" + N(D(2));
	if (std::find(sc.outfiles.begin(), sc.outfiles.end(), f) == sc.outfiles.end()) sc.outfiles.push_back(f);
	string spelled = P(1, 3) ? "/o/./" + f.substr(3) : f;
	u32 k = D(sc.mutate ? 3 : 4);
	if (k == 3) { auto e = a_printf(f); e->args[1] = spelled; return e; }
	static const char *const nm[] = {"-fprint", "-fprint0", "-fprint"};
	string term = k == 1 ? string(1, '\0') : "\n";
	return act(leaf({nm[k], spelled}, [f, term](Node *n, EvCtx &c) { c.files[f] += n->path + term; return true; }));
}
static Inode *exec_dir(Node *n) {
	if (n->depth > 0) return n->parent->sb;
	if (n->nameoff == 0) return n->path[0] == '/' ? root_ino : W;
	Inode *d = nullptr;
	resolve(W, n->path.substr(0, n->nameoff), true, &d);
	return d;
}
static string subst(const string &a, const string &p) {
	string r;
	for (size_t i = 0; i < a.size();) {
		if (a.compare(i, 2, "{}") == 0) { r += p; i += 2; } else r += a[i++];
	}
	return r;
}
static int limit_counts[16], nlimits;
static vector<string> answer_lines;
static size_t answer_pos;

static size_t single_pos;
static ChildRec *next_single() {
	for (; single_pos < children.size(); ++single_pos) {
		ChildRec *c = children[single_pos];
		if (!c->started || c->argv.size() < 2 || c->argv[1][0] != 'E') continue;
		int id = atoi(c->argv[1].c_str() + 1);
		if (id >= 0 && id < (int)sc.execs.size() && !sc.execs[id].multi) return c;
	}
	return nullptr;
}
static ExP a_exec(int forcemulti = -1, bool allow_ok = false) {
	ExecSpec s;
	s.id = sc.execs.size();
	s.dir = P(1, 2);
	s.multi = forcemulti >= 0 ? forcemulti : P(1, 2);
	s.ok = allow_ok && P(1, 2);
	if (s.ok) sc.files0_stdin = false;
	if (s.ok) s.multi = false;
	s.tmpl = {P(1, 8) ? "/bin/rec" : "rec", "E" + N(s.id)};
	if (P(1, 3)) s.tmpl.push_back("fix ed");
	if (s.multi) s.tmpl.push_back("{}");
	else {
		static const vector<string> forms = {"{}", "{}", "a{}b", "{}{}", "x{", "{} {}.{}"};
		int k = 1 + D(2);
		for (int i = 0; i < k; ++i) s.tmpl.push_back(i == 0 && sc.execfaults ? "{}" : pick(forms));
	}
	sc.execs.push_back(s);
	vector<string> args = {s.ok ? (s.dir ? "-okdir" : "-ok") : s.dir ? "-execdir" : "-exec"};
	for (auto &t : s.tmpl) args.push_back(t);
	args.push_back(s.multi ? "+" : ";");
	return act(leaf(args, [s](Node *n, EvCtx &c) {
		if (s.multi) { c.multi.push_back({s.id, n}); return true; }
		string p = n->path;
		if (s.dir) { p = n->name(); if (p[0] != '/') p = "./" + p; }
		ExecCall ec;
		ec.ex = s.id; ec.node = n; ec.cwd = s.dir ? exec_dir(n) : W;
		bool ok = true;
		string line = "X";
		for (auto &t : s.tmpl) {
			ec.argv.push_back(subst(t, p));
			if (ec.argv.size() > 1) {
				line += " [" + ec.argv.back() + "]";
				if (ec.argv.back().find("!fail") != string::npos || ec.argv.back().find("!kill") != string::npos) ok = false;
			}
		}
		if (sc.badwd && s.dir && ec.cwd && ec.cwd->open_err) { c.need_diag = "-exec"; return false; }
		if (s.ok) {
			string pr;
			for (auto &a : ec.argv) pr += a + " ";
			c.prompts.push_back(pr + "? ");
			string ans = answer_pos < answer_lines.size() ? answer_lines[answer_pos] : "";
			++answer_pos;
			if (ans.empty() || (ans[0] != 'y' && ans[0] != 'Y')) return false;
		}
		if (sc.execfaults) {
			// The command may have failed to start; then that is an error
			ChildRec *k = next_single();
			if (!k || k->argv != ec.argv || k->cwd != ec.cwd) { c.need_diag = "-exec"; return false; }
			++single_pos;
			ok = k->status == 0;
		}
		c.out += line + "\n";
		c.execs.push_back(ec);
		++db_model;
		return ok;
	}));
}
static size_t unl_pos;
static ExP a_delete() {
	return act(leaf({"-delete"}, [](Node *n, EvCtx &c) {
		if (n->path == ".") return true;
		bool dir = n->l->is_dir();
		Inode *d = exec_dir(n);
		string nm = n->name();
		if (!sc.exact) {
			c.deletes.push_back(n);
			for (auto &u : unlinks) if (u.dir == d && u.name == nm && u.rmdir == dir) { if (!u.err) sc.gone.insert({d, nm}); return u.err == 0; }
			return true;
		}
		if (unl_pos >= unlinks.size()) { if (sc.del_bad.empty()) sc.del_bad = "-delete never tried to remove " + n->path; return true; }
		UnlinkRec &u = unlinks[unl_pos++];
		if (u.dir != d || u.name != nm || u.rmdir != dir) {
			if (sc.del_bad.empty()) sc.del_bad = string("instead of ") + (dir ? "rmdir " : "unlink ") + n->path + ", -delete tried " + (u.rmdir ? "rmdir " : "unlink ") + u.path;
			return true;
		}
		if (!u.err) { sc.gone.insert({d, nm}); return true; }
		c.need_diag = "-delete";
		return false;
	}));
}
size_t unlinks_matched() { return unl_pos; }
static ExP a_prune() { sc.has_prune = true; return act2(leaf({"-prune"}, [](Node *, EvCtx &c) { c.prune = true; return true; })); }
static ExP a_quit() {
	sc.has_quit = true;
	switch (D(3)) {
	case 0: return act2(leaf({"-quit"}, [](Node *, EvCtx &c) { c.quit = true; return true; }));
	case 1: {
		int v = D(4) * 7;
		return act(leaf({"-exit", N(v)}, [v](Node *, EvCtx &c) { c.quit = true; c.exitcode = v; return true; }));
	}
	}
	int n = 1 + D(5), id = nlimits++ % 16;
	return act2(leaf({"-limit", N(n)}, [n, id](Node *, EvCtx &c) { if (++limit_counts[id] >= n) c.quit = true; return true; }));
}

struct ExprOpt { int depth = 2; bool heavy = true, prune = true, quit = false, files = false, exec = false, ok = false, printf_ = true; };
static ExP gen_action(const ExprOpt &o) {
	for (;;) {
		switch (D(8)) {
		case 0: case 1: return a_print();
		case 2: if (o.printf_) return a_printf(); break;
		case 3: if (o.prune) return a_prune(); break;
		case 4: if (o.quit) return a_quit(); break;
		case 5: if (o.files) return a_fprint(); break;
		case 6: if (o.exec) return a_exec(-1, o.ok); break;
		case 7: if (o.printf_ && P(1, 2)) return act(leaf({"-print0"}, [](Node *n, EvCtx &c) { c.out += n->path + string(1, 0); return true; })); break;
		}
	}
}
static ExP gen_expr(const ExprOpt &o, int depth) {
	if (depth <= 0 || P(1, 4)) return P(1, 3) ? gen_action(o) : gen_test(o.heavy);
	switch (D(7)) {
	case 0: case 1: {
		auto e = node("and", {gen_expr(o, depth - 1), gen_expr(o, depth - 1)});
		if (P(1, 3)) e->kids.push_back(gen_expr(o, depth - 1));
		for (auto &k : e->kids) e->action |= k->action;
		return e;
	}
	case 2: case 3: return node("or", {gen_expr(o, depth - 1), gen_expr(o, depth - 1)});
	case 4: { auto e = node("!", {gen_expr(o, depth - 1)}); if (P(1, 3)) e->args.push_back("-not"); return e; }
	case 5: return node(",", {gen_expr(o, depth - 1), gen_expr(o, depth - 1)});
	default: return node("and", {gen_test(o.heavy), gen_action(o)});
	}
}

// ---------------------------------------------------------------- environment
static void gen_env(bool big) {
	int t = D(5);
	static const int tn[] = {1, 2, 3, 4, 8};
	sc.threads = tn[t];
	envcfg.have_uring = P(1, 2);
	if (envcfg.have_uring) {
		if (P(1, 4)) envcfg.uring_ops = D(8);
		if (P(1, 4)) envcfg.uring_setup_flags = D(8);
	}
	if (P(1, 6)) { envcfg.have_statx = false; envcfg.have_uring = false; } // io_uring is newer than statx()
	if (P(1, 8)) envcfg.have_proc = false;
	if (P(1, 6)) envcfg.mntid = false;
	if (P(1, 3)) envcfg.dir_chunk = 1 + D(5);
	// A queue that small trees can fill.  Its threads pop eight slots at a time and rely on not lapping each other,
	// which the real depth guarantees for hundreds of threads.
	if (P(1, 2)) envcfg.ioq_depth = (32 << D(3)) * sc.threads;
	static const size_t bufs[] = {1024, 4096, 64, 1 << 16};
	envcfg.stdio_buf = bufs[sc.tty && P(1, 2) ? 2 : D(4)];
	switch (D(4)) {
	case 0: schedcfg.pol = POL_RANDOM; schedcfg.mean_q = 10; break;
	case 1: schedcfg.pol = POL_RANDOM; schedcfg.mean_q = 60; break;
	case 2: schedcfg.pol = POL_RANDOM; schedcfg.mean_q = 3; break;
	default: schedcfg.pol = POL_PCT; schedcfg.mean_q = 5 + D(40); break;
	}
	if (big && schedcfg.mean_q < 10) schedcfg.mean_q = 30;
	if (P(1, 3)) set_fault(F_STALL, 50 + D(500));
	if (P(1, 3)) set_fault(F_URING_DELAY, 2 + D(6));
	if (P(1, 4)) set_fault(F_GETDENTS_SHORT, 1 + D(4));
	if (P(1, 4)) set_fault(F_CAS_SPURIOUS, 2 + D(20));
	if (P(1, 4)) set_fault(F_COND_SPURIOUS, 2 + D(6));
	if (P(1, 4)) set_fault(F_SEM_EINTR, 2 + D(6));
	if (P(1, 8)) set_fault(F_SEM_UNSUPPORTED, 1, 1);
	if (P(1, 4)) set_fault(F_URING_SHORT_SUBMIT, 2 + D(6));
	if (P(1, 4)) set_fault(F_URING_WAIT_EINTR, 2 + D(6));
	if (P(1, 6)) set_fault(F_URING_INIT, 1 + D(3));
	if (P(1, 8)) set_fault(F_URING_ENABLE, 1 + D(3));
	if (P(1, 6)) set_fault(F_WRITE_SHORT, 2 + D(4));
}
static void gen_fds(bool tight) {
	proc.nofile_cur = proc.nofile_max = 1024;
	if (tight) {
		int need = 9 + (int)sc.execs.size() + (int)sc.outfiles.size();
		proc.nofile_cur = need + D(20);
		proc.nofile_max = P(1, 2) ? proc.nofile_cur : proc.nofile_cur + D(100);
	} else if (P(1, 2)) proc.nofile_max = 4096;
	for (int k = P(1, 4) ? 1 + D(3) : 0; k > 0; --k) {
		int fd = 3 + D(12);
		if (tight && !envcfg.have_proc) continue; // bfs can't know about them
		if (proc.fds.count(fd)) continue;
		proc.fds[fd] = proc.fds[0];
		sc.inherited_fds.push_back(fd);
	}
	if (tight) { proc.nofile_cur += sc.inherited_fds.size(); proc.nofile_max += sc.inherited_fds.size(); }
}
static void error_faults(u32 den) {
	auto on = [&](int f, u32 lo, u32 hi) { if (P(1, den)) set_fault(f, lo + D(hi), P(1, 3) ? 1 : 0); };
	on(F_OPEN_EMFILE, 2, 30);
	on(F_OPEN_ENOMEM, 2, 30);
	on(F_OPEN_EIO, 2, 30);
	on(F_STAT_EIO, 2, 60);
	on(F_STAT_ENOMEM, 2, 60);
	on(F_GETDENTS_EIO, 2, 40);
	on(F_READLINK_EIO, 2, 20);
	on(F_CQE_ERR, 2, 30);
	on(F_CLOSE_EIO, 2, 30);
	on(F_URING_SUBMIT_ERR, 2, 10);
	on(F_MTAB_FAIL, 1, 2);
	on(F_RLIMIT_FAIL, 1, 2);
	if (P(1, 3 * den)) set_fault(F_THREAD_EAGAIN, 2 + D(3));
}

static void pick_roots(bool weird) {
	int n = 1 + (P(1, 3) ? D(3) : 0);
	for (int i = 0; i < n; ++i) {
		u32 t = D(topnames.size());
		string r = topnames[t];
		switch (weird ? D(9) : 0) {
		case 0: case 1: break;
		case 2: r = "./" + r; break;
		case 3: r = "/w/" + r; break;
		case 4: r += "/"; break;
		case 5: r = "."; break;
		case 6: r += "//"; break;
		case 7: { // something inside
			Inode *d = top[t];
			if (!d->ents.empty()) {
				auto &e = d->ents[D(d->ents.size())];
				if (e.name[0] != '-' && e.name.size() < 100) r += "/" + e.name;
				if (e.ino->is_dir() && P(1, 3)) r += "/";
			}
			break;
		}
		case 8: if (P(1, 2)) r = "missing"; break;
		}
		sc.roots.push_back(r);
	}
}

static void render() {
	vector<string> &a = sc.argv;
	a = {"bfs"};
	static const char *const st[] = {"bfs", "dfs", "ids", "eds"};
	auto roots = [&] {
		if (sc.roots_from_file) {
			string d;
			for (auto &r : sc.roots) { d += r; d.push_back(0); }
			if (sc.files0_stdin) { envcfg.stdin_data = d; a.push_back("-files0-from"); a.push_back("-"); }
			else {
				Inode *f = new_inode(S_IFREG | 0644, 0);
				f->data = d; f->size = d.size();
				link_child(root_ino->child("o"), "list", f);
				a.push_back("-files0-from"); a.push_back("/o/list");
			}
		} else if (sc.roots.size() == 1 && sc.roots[0] == "." && P(1, 2)) { // implied
		} else for (auto &r : sc.roots) { if (P(1, 12)) a.push_back("-f"); a.push_back(r); }
	};
	bool first = !sc.roots_from_file && P(1, 4);
	if (first) roots();
	if (sc.strategy != ST_BFS || P(1, 4)) {
		if (P(1, 4)) a.push_back(string("-S") + st[sc.strategy]);
		else { a.push_back("-S"); a.push_back(st[sc.strategy]); }
	}
	if (P(1, 16)) a.push_back("-P");
	bool late_follow = false;
	if (sc.follow && sc.sort && P(1, 3)) a.push_back(string("-") + (P(1, 2) ? "s" : "") + (sc.follow == 1 ? "H" : "L") + "s");
	else {
		if (sc.follow == 2 && P(1, 6)) late_follow = true;
		else if (sc.follow) a.push_back(sc.follow == 1 ? "-H" : "-L");
		if (sc.sort) a.push_back("-s");
	}
	a.push_back("-j" + N(sc.threads));
	static const char *const ol[] = {"", "-O0", "-O1", "-O2", "-O3", "-O4", "-Ofast"};
	int o = D(sc.ofast ? 7 : 5);
	if (o) a.push_back(ol[o]);
	if (sc.color) a.push_back("-color");
	if (!sc.debug.empty()) { a.push_back("-D"); a.push_back(sc.debug); }
	if (!first) roots();
	if (late_follow) a.push_back("-follow");
	if (sc.mindepth) { a.push_back("-mindepth"); a.push_back(N(sc.mindepth)); }
	if (sc.maxdepth < 1 << 28) { a.push_back("-maxdepth"); a.push_back(N(sc.maxdepth)); }
	if (sc.post && (!sc.del || P(1, 3))) a.push_back("-depth");
	if (sc.xargs) a.push_back("-X");
	if (sc.daystart) a.push_back("-daystart");
	if (sc.unique) a.push_back("-unique");
	if (sc.xdev) a.push_back("-xdev");
	if (sc.mount) a.push_back("-mount");
	if (sc.ignore_races) a.push_back("-ignore_readdir_race");
	if (!sc.reported) { a.push_back("-noerror"); a.push_back("-warn"); }
	if (sc.status) a.push_back("-status");
	if (getenv("SIM_DEBUG_ARGS")) { a.push_back("-D"); a.push_back("opt"); }
	if (sc.exclude && sc.exclude->args.size() == 1 && sc.exclude->args[0] == "-hidden" && P(3, 4)) a.push_back("-nohidden");
	else if (sc.exclude) { a.push_back("-exclude"); a.push_back("("); ex_render(sc.exclude, a); a.push_back(")"); }
	if (sc.useV) { a.push_back("-printf"); a.push_back("V %d %y %p\\n"); }
	if (sc.expr) {
		if (sc.useV) a.push_back(",");
		a.push_back("(");
		bool impl = sc.expr->args.size() == 1 && sc.expr->args[0] == "implicit";
		ex_render(impl ? sc.expr->kids[0] : sc.expr, a);
		a.push_back(")");
	}
	// other spellings
	static const char *const alias[][2] = {{"-xdev", "-x"}, {"-delete", "-rm"}, {"-path", "-wholename"}, {"-ipath", "-iwholename"}, {"-a", "-and"}, {"-o", "-or"}, {"!", "-not"}, {"-mount", "-mount"}};
	if (P(1, 6)) for (auto &x : a) for (auto &y : alias) if (x == y[0] && P(1, 2)) { x = y[1]; break; }
}

static void base_world() {
	root_ino = new_inode(S_IFDIR | 0755, 0);
	Inode *bin = mkdir_in(root_ino, "bin"), *o = mkdir_in(root_ino, "o");
	(void)o;
	for (const char *n : {"rec", "true", "false"}) { Inode *f = new_inode(S_IFREG | 0755, 0); link_child(bin, n, f); }
	Inode *nx = new_inode(S_IFREG | 0644, 0);
	link_child(bin, "noexec", nx);
	link_child(mkdir_in(root_ino, "b2"), "rec", new_inode(S_IFREG | 0644, 0));
	mkdir_in(mkdir_in(root_ino, "b3"), "rec");
	Inode *lnk = new_inode(S_IFLNK | 0777, 0);
	lnk->target = "/nowhere";
	link_child(mkdir_in(root_ino, "b4"), "rec", lnk);
	link_child(mkdir_in(root_ino, "b5"), "rec", new_inode(S_IFREG | 0755, 0));
	mounts.push_back({"/", "rootfs", 0});
	users = {{"alice", 1000}, {"root", 0}, {"bob", 1001}};
	groups = {{"staff", 1000}, {"wheel", 0}};
	if (P(1, 4)) users[0].need = 3000;
	if (P(1, 4)) groups[0].need = 5000;
	envcfg.env = {"PATH=/bin", "HOME=/", "TZ=UTC", "TERM=xterm"};
	realtime_off = base_s * 1000000000ll;
	now_mono = 5000000000ull;
	realtime_off -= now_mono;
}

// Signals can be ignored or blocked when bfs is started (nohup, background jobs, ...)
static void gen_dispositions() {
	static const int sigs[] = {SIGHUP, SIGINT, SIGQUIT, SIGVTALRM, SIGTERM, SIGUSR2, SIGUSR1, SIGXCPU, SIGALRM, SIGWINCH, SIGCHLD}; // an ignored SIGPIPE may be handled all the same
	std::set<int> ign, blk;
	if (P(1, 3)) for (int k = 1 + D(3); k--;) ign.insert(sigs[P(3, 4) ? D(6) : D(11)]);
	if (P(1, 6)) for (int k = 1 + D(2); k--;) blk.insert(sigs[D(10)]);
	for (int s : ign) sc.ignored_at_start.push_back(s);
	for (int s : blk) sc.initial_mask |= 1ull << (s - 1);
}
// Where the commands are found
static void gen_path() {
	if (!P(1, 3)) return;
	auto &env = envcfg.env;
	if (P(1, 8)) { env.erase(env.begin()); return; }
	bool dir = false, found = false;
	for (auto &s : sc.execs) if (s.dir) dir = true;
	string p;
	auto add = [&](const string &c) { p += (p.empty() ? "" : ":") + c; };
	for (int k = D(4); k--;) switch (D(dir ? 5 : 7)) {
	case 0: add("/nope"); break;
	case 1: add("/b2"); break;
	case 2: add("/b3"); break;
	case 3: add("/b4"); break;
	case 4: add("/b5"); if (!found) sc.want_exe = "/b5/rec"; found = true; break;
	case 5: add("rel"); break;
	case 6: if (!p.empty()) add(""); else p = ":"; break;
	}
	if (sc.execfaults && P(1, 4)) { if (!found) sc.noexe = true; if (p.empty()) p = "/nope"; }
	else add("/bin");
	env[0] = "PATH=" + p;
}
static const int fatal_sigs[] = {SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGPIPE, SIGUSR2, SIGXCPU, SIGVTALRM,
	SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGSEGV, SIGIO, SIGPROF, SIGPWR, SIGSTKFLT, SIGSYS, SIGTRAP, SIGXFSZ, 34, 50, 64};
static void gen_signals(bool bar) {
	sc.status = bar ? !P(1, 4) : P(1, 4);
	static const u64 divs[] = {1, 100, 1000, 4000};
	envcfg.timer_div = divs[D(4)];
	static const int rows[] = {24, 50, 3, 2, 0, 1, 1000}, cols[] = {80, 132, 40, 20, 2, 0, 10, 300};
	auto size = [&](int &r, int &c) { r = rows[P(2, 3) ? D(2) : D(7)]; c = cols[P(2, 3) ? D(3) : D(8)]; };
	size(envcfg.winrows, envcfg.wincols);
	int n = D(6);
	for (int i = 0; i < n; ++i) {
		Scenario::SigPlan p;
		p.dt = (10000ull << D(11)) + D(10000);
		p.rows = envcfg.winrows; p.cols = envcfg.wincols;
		switch (D(4)) {
		case 0: p.sig = SIGWINCH; size(p.rows, p.cols); break;
		case 1: p.sig = SIGUSR1; break;
		default: p.sig = P(1, 2) ? SIGWINCH : SIGUSR1; if (p.sig == SIGWINCH) size(p.rows, p.cols); break;
		}
		sc.sigplan.push_back(p);
	}
	if (P(1, 2)) {
		sc.fatal_signals = true;
		int k = 1 + (P(1, 6) ? 1 : 0);
		while (k--) sc.sigplan.push_back({(10000ull << D(11)) + D(10000), fatal_sigs[P(1, 2) ? D(8) : D(23)], 0, 0});
		if (sc.tty && P(1, 3)) { // while bfs is in the middle of its output
			sc.sigplan.back().dt = 0;
			write_countdown = 1 + D(60);
		}
	}
	if (P(1, 6)) set_fault(F_TTY_FAIL, 1 + D(2));
	if (P(1, 8)) set_fault(F_WINSIZE_FAIL, 1 + D(4));
	if (P(1, 8)) set_fault(F_TIMER_FAIL, 1 + D(3));
	if (P(1, 8)) set_fault(F_SIGACTION_FAIL, 1 + D(20), 1);
}

// ---- concurrent changes to the tree -------------------------------------------------
// Some files are volatile: while bfs runs they may disappear, and new ones appear.
static void gen_mutation() {
	auto subtree = [](Inode *i, auto &&self) -> void { i->volatile_ = true; for (auto &e : i->ents) self(e.ino, self); };
	vector<std::pair<Inode *, string>> cand;
	for (Inode *d : dirs) if (!d->volatile_) for (auto &e : d->ents) if (e.ino->nlink == 1 || e.ino->is_dir()) cand.push_back({d, e.name});
	std::set<Inode *> tops(top.begin(), top.end());
	// only entries reached by one path, so that it is clear what each change affects
	std::map<Inode *, int> reach;
	for (Node *n : sc.nodes) if (n->l) reach[n->l]++;
	int k = 1 + D(6);
	for (int i = 0; i < k && !cand.empty(); ++i) {
		auto c = cand[D(cand.size())];
		Inode *v = c.first->child(c.second);
		if (!v || v->volatile_) continue;
		subtree(v, subtree);
		u64 dt = (20000ull << D(10)) + D(20000);
		Inode *d = c.first;
		string nm = c.second;
		static int serial;
		int act = D(3);
		string nn = "new" + N(serial++);
		sc.mutations.push_back({dt, [d, v, nm, nn, act] {
			auto kill = [](Inode *x, auto &&self) -> void {
				for (auto &e : x->ents) self(e.ino, self);
				x->ents.clear();
				x->deleted = true;
			};
			if (act == 2) { // moved away
				for (auto &e : d->ents) if (e.name == nm) { d->ents.erase(d->ents.begin() + (&e - &d->ents[0])); break; }
				link_child(root_ino->child("o"), nn, v);
				if (v->is_dir()) v->parent = root_ino->child("o");
				return;
			}
			unlink_child(d, nm);
			kill(v, kill);
		}});
	}
	int m = D(4);
	for (int i = 0; i < m; ++i) {
		Inode *d = dirs[D(dirs.size())];
		bool dir = P(1, 2);
		string nn = "fresh" + N(i);
		sc.mutations.push_back({(20000ull << D(10)) + D(20000), [d, dir, nn] {
			if (d->deleted || d->child(nn)) return;
			Inode *c = new_inode((dir ? S_IFDIR : S_IFREG) | 0644, d->dev);
			c->mnt = d->mnt; c->volatile_ = true;
			link_child(d, nn, c);
			if (dir) {
				c->parent = d;
				Inode *g = new_inode(S_IFREG | 0644, d->dev);
				g->mnt = d->mnt; g->volatile_ = true;
				link_child(c, "sub", g);
			}
		}});
	}
}

bool build_scenario(const string &prof) {
	sc.profile = prof;
	auto is = [&](const char *p) { return prof == p; };
	base_world();
	TreeOpt to;
	static const int sizes[] = {3, 8, 16, 30, 60, 120};
	to.nodes = 1 + D(sizes[D(6)]);
	to.maxdepth = 2 + D(8);
	bool walk = is("walk") || is("acct") || is("walkt");
	if (walk || is("order") || is("alloc")) {
		if (P(1, 12)) to.wide = 20 + D(P(1, 5) ? 1200 : 200);
		else if (P(1, 12)) to.deep = 20 + D(150);
		else if (P(1, 14)) { to.deep = 18 + D(12); to.longnames = 1; to.nodes = D(10); }
	}
	if (is("mem")) { to.mem = 30 + D(50); to.nodes = 0; node_cap = 9000; }
	to.mounts = (walk || is("expr") || is("meta") || is("unique") || is("cycle") || is("xdev")) && (P(1, is("unique") ? 2 : 4) || is("xdev"));
	to.errs = (is("walk") || is("order") || is("quit") || is("expr")) && P(1, 4);
	to.cmdnames = is("exec") || is("spawn");
	if (is("acct")) to.errs = P(1, 3);
	if (is("del") || is("mut")) { to.unknown_types = true; to.errs = false; }
	if (is("mut")) to.hard = false;
	bool sig = is("sig") || is("bar");
	if (sig) {
		envcfg.have_cterm = is("bar") || P(1, 2);
		if (is("bar") && P(1, 3)) sc.tty = envcfg.tty_out = to.plain = true;
	}
	if (P(1, 8) && (walk || is("order") || is("expr") || is("quit") || is("alloc") || is("out") || is("exec") || is("meta") || is("del") || is("color"))) {
		sc.color = to.plain = true;
	}
	if (sc.tty && P(1, 3)) { to.deep = 30 + D(60); to.nodes = D(20); } // lines longer than stdio's buffer
	bool no_color = sc.tty && P(1, 4);
	if (no_color) sc.color = P(1, 2);
	gen_tree(to);
	proc.cwd = W;
	init_process();
	if (no_color) envcfg.env.push_back("NO_COLOR=1");

	// options
	sc.strategy = D(4);
	int fl = D(4);
	sc.follow = fl == 3 ? 2 : fl == 2 ? 1 : 0;
	sc.sort = P(1, 4) || is("order");
	sc.post = P(1, 4);
	if (is("unique")) { sc.unique = true; if (P(1, 2)) sc.follow = 2; sc.sort = P(1, 4); }
	if (is("alloc") && P(1, 5)) sc.unique = true;
	if (is("cycle")) sc.follow = 2;
	if (is("mem")) sc.strategy = D(2);
		if (is("mut")) { sc.follow = 0; }
	if (P(1, 5)) sc.mindepth = D(4);
	if (P(1, 5)) sc.maxdepth = D(5);
	if (is("del")) { sc.del = sc.post = true; sc.follow = D(2); sc.maxdepth = 1 << 28; }
	if (sc.unique) { sc.mindepth = 0; sc.maxdepth = 1 << 28; }
	if (to.mounts && !sc.unique) { u32 k = D(3); sc.xdev = k == 1; sc.mount = k == 2; if (is("xdev")) { sc.xdev = D(2); sc.mount = !sc.xdev; } }
	pick_roots(true);
	if (P(1, 24) && !is("del") && !is("mut") && !sc.unique && !is("acct")) { // the root directory and its children
		static const vector<string> far = {"/", "/", "/", "//", "/w", "/w/", "/w/."};
		int n = 1 + D(3);
		for (int i = 0; i < n; ++i) sc.roots.insert(sc.roots.begin() + D(sc.roots.size() + 1), pick(far));
		sc.mindepth = sc.maxdepth = 0;
	}
	if ((is("exec") || is("spawn") || is("ok")) && P(1, 2)) { sc.execfaults = true; sc.follow = 0; sc.roots.resize(1); }
	if (sc.execfaults && P(1, 5) && top[0]->ents.size() > 1) { // inside a directory that may be searched but not read
		sc.roots.clear();
		for (auto &e : top[0]->ents) if (sc.roots.size() < 3 && P(1, 2)) sc.roots.push_back((P(1, 4) ? "./" : "") + topnames[0] + "/" + e.name);
		if (sc.roots.empty()) sc.roots.push_back(topnames[0] + "/" + top[0]->ents[0].name);
		top[0]->open_err = EACCES;
		sc.badwd = true;
	}
	if (is("del") || is("mut")) {
		sc.roots.resize(1);
		while (sc.roots[0].size() > 1 && sc.roots[0].back() == '/') sc.roots[0].pop_back();
	}
	if (is("mut")) sc.roots[0] = topnames[0];
	if (is("mem")) { sc.roots = {topnames[0]}; sc.mindepth = 0; sc.maxdepth = 1 << 28; }
	build_nodes();
	if (sc.huge) { sc.follow = 0; build_nodes(); if (sc.huge) return false; }
	if (sc.rootnodes[0]->l == nullptr && sc.nodes.size() == 1 && P(3, 4)) { sc.roots[0] = topnames[0]; build_nodes(); if (sc.huge) { sc.follow = 0; build_nodes(); } }
	if (!is("mem") && walk_work() > (P(1, 12) ? 3000 : 700)) { sc.strategy = D(2); if (sc.nodes.size() > 2500) { sc.follow = 0; build_nodes(); } }
	if (sc.del && sc.follow && !sc.huge) for (Node *n : sc.nodes) // a link that is found below itself
		if (n->depth > 0 && n->l && n->l == sc.rootnodes[0]->l) { sc.follow = 0; build_nodes(); break; }
	sc.dup_ok = walk || sc.unique;
	dedup_roots();
	if (P(1, 8) || is("files0")) { sc.roots_from_file = true; sc.files0_stdin = P(1, 2); }

	gen_env(sc.nodes.size() > 200);
	if (is("mem") && P(1, 2)) sc.threads = 1;
	far_paths = false;
	for (Node *n : sc.nodes) if (n->path.size() > 4000 && !envcfg.have_proc) far_paths = true;

	ExprOpt eo;
	if (is("mem")) {
		if (P(1, 2)) sc.expr = P(1, 2) ? a_printf() : node("and", {gen_test(false), a_printf()});
	} else if (walk) {
		if (P(1, 3)) { eo.heavy = false; eo.prune = true; sc.expr = gen_expr(eo, 1); }
	} else if (is("order")) {
		if (P(1, 3)) { eo.heavy = false; sc.expr = node("and", {gen_test(false), a_prune()}); }
	} else if (is("expr")) {
		eo.files = P(1, 4);
		sc.expr = gen_expr(eo, 2 + D(2));
		sc.useV = !P(1, 3);
		if (P(1, 6)) sc.exclude = gen_test(false);
		else if (P(1, 12)) sc.exclude = gen_hidden();
	} else if (is("meta")) {
		auto t = [&]() -> ExP {
			for (;;) {
				Node *x = some_node();
				if (!x) return gen_test(false);
				ExP e = P(1, 5) ? test({"-xattr"}, [](Node *n) { return !n->sb->xattrs.empty(); }) : gen_test2(x);
				if (e->args[0] == "-acl" || e->args[0] == "-capable" || e->args[0] == "-xattr" || e->args[0] == "-xattrname" || e->args[0] == "-context" || far_paths) return e;
			}
		};
		sc.expr = node("and", {t(), a_print()});
		if (P(1, 2)) sc.expr = node("or", {sc.expr, node("and", {t(), act(leaf({"-printf", "<%p\\n"}, [](Node *n, EvCtx &c) { c.out += "<" + n->path + "\n"; return true; }))})});
		if (P(3, 4)) { set_fault(F_XATTR_FAIL, 1 + D(12)); sc.exact = false; }
	} else if (is("quit")) {
		eo.quit = true; eo.files = P(1, 3); eo.exec = P(1, 3); eo.heavy = P(1, 2);
		sc.expr = P(1, 3) ? node("and", {gen_test(false), a_quit()}) : gen_expr(eo, 2);
		if (P(1, 2)) sc.expr = node(",", {gen_expr(eo, 1), sc.expr});
	} else if (is("exec")) {
		sc.expr = P(1, 2) ? node("and", {gen_test(false), a_exec(P(2, 3) ? 1 : 0)}) : a_exec(P(2, 3) ? 1 : 0);
		if (P(1, 3)) sc.expr = node(",", {sc.expr, P(1, 2) ? a_exec() : a_print()});
		if (P(1, 3)) sc.expr = node(",", {a_print(), sc.expr});
		// a small simulated ARG_MAX
		if (P(2, 3)) {
			u32 room = 40 + D(600);
			envcfg.arg_max = 4096 + 2048 + 200 + room;
			if (P(1, 3)) envcfg.real_arg_max = 300 + D(500); // the system's real limit is below what it says
		}
	} else if (is("spawn")) {
		sc.expr = a_exec(-1, P(1, 3));
		if (P(1, 3)) sc.expr = node(",", {sc.expr, a_exec(-1)});
		if (P(1, 3)) sc.expr = node("and", {gen_test(false), sc.expr});
	} else if (is("out")) {
		sc.expr = P(1, 2) ? a_fprint() : node(",", {a_fprint(), a_fprint()});
		if (P(1, 3)) sc.expr = node("and", {gen_test(false), sc.expr});
		if (P(1, 2)) sc.expr = node(",", {sc.expr, a_print()});
		if (P(1, 3)) sc.expr = node(",", {sc.expr, a_exec()});
	} else if (is("ok")) {
		eo.ok = true;
		auto e = a_exec(0, true);
		sc.expr = P(1, 2) ? node("and", {e, a_print()}) : e;
		int n = D(40);
		for (int i = 0; i < n; ++i) {
			static const vector<string> an = {"y", "n", "", "Y", "yes", "no", " y", "x", "Ny"};
			answer_lines.push_back(pick(an));
			envcfg.stdin_data += answer_lines.back() + "\n";
		}
		sc.roots_from_file = false;
	} else if (is("sig") || is("bar")) {
		eo.heavy = false;
		if (P(1, 4)) sc.expr = a_exec(is("sig") && P(1, 2) ? 1 : 0);
		else if (to.deep && P(3, 4)) sc.expr = node(",", {a_print(), a_print()});
		else if (P(1, 2)) sc.expr = gen_expr(eo, 1);
		gen_signals(is("bar"));
		gen_dispositions();
	} else if (is("alloc")) {
		eo.files = true; eo.exec = P(1, 4);
		if (!sc.unique) sc.expr = gen_expr(eo, 2);
	} else if (is("clock")) {
		eo.heavy = true;
		sc.daystart = P(1, 4);
		sc.expr = node("and", {gen_test(true), a_print()});
	}
	if (!sc.useV) {
		if (!sc.expr) sc.useV = true;
		else if (!has_action(sc.expr)) {
			ExP e = sc.expr;
			sc.expr = node("and", {e, a_print()});
			sc.expr->args = {"implicit"};
		}
	}
	if (is("del")) {
		auto empty = leaf({"-empty"}, [](Node *n, EvCtx &) {
			if (n->type == 'f') return n->sb->size == 0;
			if (n->type != 'd') return false;
			for (Node *k : n->kids) if (!sc.gone.count({n->sb, k->name()})) return false;
			return true;
		});
		ExP t = P(1, 3) ? empty : gen_test(false);
		sc.expr = P(1, 4) ? a_delete() : node("and", {t, a_delete()});
		if (P(1, 2)) sc.expr = node("and", {sc.expr, a_print()});
		if (P(1, 3)) sc.expr = node("or", {sc.expr, act(leaf({"-printf", "<%p %d\\n"}, [](Node *n, EvCtx &c) { c.out += "<" + n->path + " " + N(n->depth) + "\n"; return true; }))});
		if (P(1, 4)) sc.expr = node(",", {node("and", {gen_test(false), a_print()}), sc.expr});
		if (P(1, 2)) set_fault(F_UNLINK_FAIL, 2 + D(8));
		if (P(1, 3)) { error_faults(4); sc.exact = false; }
	}
	bool pw_tight = false;
	if (is("pw")) {
		ExP p1 = act(leaf({"-printf", "%u:%g\\n"}, [](Node *n, EvCtx &c) { c.out += fmt_dir(n, 'u') + ":" + fmt_dir(n, 'g') + "\n"; return true; }));
		ExP p2 = act(leaf({"-printf", "[%g|%u]\\n"}, [](Node *n, EvCtx &c) { c.out += "[" + fmt_dir(n, 'g') + "|" + fmt_dir(n, 'u') + "]\n"; return true; }));
		ExP nou = test({"-nouser"}, [](Node *n) { return user_of(musers(), n->sb->uid).empty(); });
		ExP nog = test({"-nogroup"}, [](Node *n) { return user_of(mgroups(), n->sb->gid).empty(); });
		ExP x = a_exec(0);
		if (P(1, 2)) x = node("and", {gen_test(false), x});
		sc.expr = node(",", {p1, x});
		if (P(1, 2)) sc.expr = node(",", {sc.expr, p2});
		if (P(1, 2)) sc.expr = node(",", {node("and", {nou, a_print()}), sc.expr});
		if (P(1, 2)) sc.expr = node(",", {sc.expr, node("and", {nog, a_print()})});
		if (P(1, 3)) { // facts about the owner, a command, and a test that depends on both
			Node *n0 = some_node();
			u32 id = n0 && n0->sb ? n0->sb->uid : 0, gid = n0 && n0->sb ? n0->sb->gid : 0;
			ExP ui = test({"-uid", N(id)}, [id](Node *n) { return n->sb->uid == id; });
			ExP gi = test({"-gid", N(gid)}, [gid](Node *n) { return n->sb->gid == gid; });
			ExP chain = P(1, 2) ? node("and", {ui, a_exec(0), nou, a_print()}) : node("and", {gi, a_exec(0), P(1, 2) ? nog : node("!", {nog}), a_print()});
			sc.expr = node(",", {chain, sc.expr});
		}
		if (P(1, 3)) sc.expr = node(",", {a_ls(""), sc.expr});
		if (P(1, 5)) { // failing look-ups
			sc.expr = node("and", {P(1, 2) ? nou : nog, a_print()});
			if (P(1, 2)) sc.expr = node(",", {node("and", {node("!", {P(1, 2) ? nou : nog}), a_print()}), sc.expr});
			if (P(1, 2)) sc.expr = node("and", {gen_test(false), sc.expr});
			sc.execs.clear();
			set_fault(F_PW_ERR, 2 + D(8));
			sc.exact = false;
		} else if (P(1, 4)) { // nothing but names, with few descriptors to spare
			sc.expr = P(1, 3) ? a_ls("") : P(1, 2) ? p1 : p2;
			if (P(1, 2)) sc.expr = node("and", {gen_test(false), sc.expr});
			sc.execs.clear();
			pw_tight = true;
		}
		int k = 1 + D(3);
		dbs.push_back({users, groups});
		for (int i = 0; i < k; ++i) {
			Db d;
			static const u32 ids[] = {1000, 0, 1001, 4242, 77};
			for (u32 id : ids) {
				if (P(1, 2)) d.users.push_back({"u" + N(i) + "x" + N(id), id, P(1, 6) ? 2500u : 0u});
				if (P(1, 2)) d.groups.push_back({"g" + N(i) + "x" + N(id), id, P(1, 6) ? 2500u : 0u});
			}
			dbs.push_back(d);
		}
		child_hook = [](ChildRec *r) {
			if (r->argv.size() < 2 || r->argv[1][0] != 'E') return;
			++db_real;
			users = dbs[db_real % dbs.size()].users;
			groups = dbs[db_real % dbs.size()].groups;
		};
	}
	if (is("mut")) {
		sc.mutate = true;
		sc.exact = false;
		sc.ignore_races = P(1, 2);
		u32 k = D(3);
		if (k == 1) sc.expr = node("and", {test({"-size", "0"}, [](Node *n) { return n->sb->size == 0; }), a_fprint()});
		else if (k == 2) sc.expr = node("and", {test({"-newermt", "2001-01-01T00:00:00Z"}, [](Node *) { return true; }), a_fprint()});
		gen_mutation();
	}
	if ((walk || is("expr") || is("quit")) && !sc.mutate) {
		if (P(1, 10)) sc.ignore_races = true;
		if (P(1, 12)) sc.reported = false;
		if (walk && P(1, 12)) sc.xargs = true;
	}
	// Faults
	if (is("acct")) { error_faults(3); sc.exact = false; }
	if (sc.execfaults) {
		auto on = [&](int f, u32 lo, u32 hi) { if (P(1, 4)) set_fault(f, lo + D(hi), P(1, 4) ? 1 : 0); };
		on(F_PIPE_FAIL, 1, 8); on(F_FORK_FAIL, 1, 8); on(F_SPAWN_FAIL, 1, 8); on(F_EXEC_FAIL, 1, 8); on(F_EXEC_E2BIG, 1, 8);
		on(F_WAITPID_EINTR, 2, 3); on(F_CHILD_KILLED, 2, 8); on(F_FCHDIR_FAIL, 2, 8);
		on(F_READ_EINTR, 2, 3); on(F_WRITE_EINTR, 2, 3);
		if (P(1, 8)) on(F_DUP_FAIL, 1, 8);
	}
	if (is("exec") || is("spawn") || is("out") || is("ok")) gen_dispositions();
	if (!sc.execs.empty()) gen_path();
	sc.ofast = sc.exact && sc.useV && !to.errs && sc.follow == 0 && sc.mindepth <= 0 && (is("walk") || is("order") || is("xdev"));
	if (P(1, 16) && !sc.color && (walk || is("order") || is("expr") || is("quit") || is("unique") || is("del") || is("xdev") || is("meta") || is("exec") || is("alloc"))) {
		static const vector<string> fl = {"cost", "exec", "opt", "rates", "search", "stat", "tree"};
		if (P(1, 4)) sc.debug = "all";
		else { sc.debug = pick(fl); if (P(1, 2)) sc.debug += "," + pick(fl); }
	}
	if (is("walk") || is("exec") || is("spawn") || is("out"))
		if (P(1, 16)) { u32 k = D(6); if (sc.files0_stdin) k = 1 + D(2); if (k != 1) sc.closed_std.push_back(k == 5 ? 0 : k % 3); if (k == 1 || k == 5) sc.closed_std.push_back(1); }
	if (is("out") && P(1, 2)) { set_fault(F_WRITE_EIO, 1 + D(20), P(1, 2) ? 1 : 0); sc.badwrite = true; }
	if (is("files0") && P(1, 3)) set_fault(F_READ_EIO, 1 + D(6), P(1, 2) ? 1 : 0);
	if ((is("files0") || is("ok")) && P(1, 2)) set_fault(F_READ_SHORT, 1 + D(3));
	if (is("clock")) set_fault(F_CLOCK_JUMP, 2 + D(4));
	if (is("alloc")) { set_fault(F_ALLOC, 3 + D(P(1, 2) ? 400 : 40), P(1, 2) ? 1 : 0); sc.exact = false; }
	bool tight = ((walk || is("exec") || is("spawn") || is("expr") || is("acct") || is("meta") || is("del") || is("quit") || is("out") || is("pw")) && P(1, 3)) || is("mem") || pw_tight;
	gen_fds(tight);
	if (is("mem")) proc.nofile_max = proc.nofile_cur;
	sc.nofile_cur = proc.nofile_cur; sc.nofile_max = proc.nofile_max;
	render();
	sc.work = walk_work() + 10;
	max_steps = 60000 + 4000 * sc.work;
	fair_steps = 300000 + 20000 * sc.work;
	return true;
}

void start_actors() {
	for (auto &m : sc.mutations) at_time(now_mono + m.dt, [m] { if (!in_forked_child) m.fn(); });
	for (auto &p : sc.sigplan) {
	auto post = [p] {
		if (in_forked_child) return;
		if (p.sig == SIGWINCH) { envcfg.winrows = p.rows; envcfg.wincols = p.cols; }
		// bfs need not survive it before it has asked for it
		bool begun = false;
		for (Node *n : sc.nodes) if (n->sb && n->sb->n_open) begun = true;
		if (p.sig == SIGUSR1 && (!sigacts[SIGUSR1].handler || sigacts[SIGUSR1].handler == (void *)SIG_IGN || !begun)) return;
		bool fatal = p.sig != SIGWINCH && p.sig != SIGUSR1;
		for (int s : sc.ignored_at_start) if (s == p.sig) fatal = false;
		sc.posted.push_back({p.sig, steps, fatal});
		post_signal(p.sig);
	};
	if (p.dt) at_time(now_mono + p.dt, post);
	else on_write = post;
	}
	on_epipe = [] {
		bool fatal = true;
		for (int s : sc.ignored_at_start) if (s == SIGPIPE) fatal = false;
		sc.posted.push_back({SIGPIPE, steps, fatal});
	};
	on_deliver = [](int sig) {
		if (in_forked_child) return;
		for (auto &p : sc.posted) if (p.sig == sig && p.fatal && !sc.fatal_at) { sc.fatal_at = ino_tty->data.size() + 1; break; }
	};
}
const char *prof_desc(const string &) { return ""; }
} // namespace sim
