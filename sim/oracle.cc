// Oracles: judge one finished run against the reference model.
#include "model.hh"
#include <algorithm>
#include <climits>
#include <sys/wait.h>

namespace sim {
Cover cover;
extern int live_timers_get();
static const size_t QN = 300;
static string Q(const string &s) {
	string r;
	for (char c : s) { if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } else r += c; if (r.size() > QN) { r += "..."; break; } }
	return "\"" + r + "\"";
}

extern "C" char __executable_start, __data_start, _end;
static string code_addr(void *p) { char b[40]; snprintf(b, sizeof b, "exe+0x%lx", (unsigned long)((char *)p - &__executable_start)); return b; }
// Memory that bfs never freed and that no global variable leads to
__attribute__((no_sanitize("address", "thread"))) static void check_leaks() {
	if (live_mem.empty()) return;
	vector<std::pair<uintptr_t, const LiveMem *>> blocks;
	for (auto &x : live_mem) blocks.push_back({(uintptr_t)x.first, &x.second});
	std::sort(blocks.begin(), blocks.end());
	vector<bool> reach(blocks.size());
	vector<size_t> todo;
	auto scan = [&](uintptr_t *from, uintptr_t *to) __attribute__((no_sanitize("address", "thread"))) {
		for (uintptr_t *q = from; q + 1 <= to; ++q) {
			uintptr_t v = *q;
			auto it = std::upper_bound(blocks.begin(), blocks.end(), std::make_pair(v, (const LiveMem *)UINTPTR_MAX));
			if (it == blocks.begin()) continue;
			--it;
			size_t k = it - blocks.begin();
			if (v < it->first + it->second->size && !reach[k]) { reach[k] = true; todo.push_back(k); }
		}
	};
	scan((uintptr_t *)(((uintptr_t)&__data_start + 7) & ~7ul), (uintptr_t *)&_end);
	while (!todo.empty()) {
		size_t k = todo.back();
		todo.pop_back();
		scan((uintptr_t *)blocks[k].first, (uintptr_t *)(blocks[k].first + blocks[k].second->size));
	}
	size_t n = 0, bytes = 0;
	const LiveMem *first = nullptr;
	for (size_t k = 0; k < blocks.size(); ++k) if (!reach[k]) {
		++n;
		bytes += blocks[k].second->size;
		if (!first || blocks[k].second->serial < first->serial) first = blocks[k].second;
	}
	if (first) violation("C20", "%zu blocks (%zu bytes) of memory were never freed; the first was allocated at %s", n, bytes, code_addr(first->ra).c_str());
}
// A search of a long, uniform tree must not need more memory towards its end than at its beginning
static void check_growth() {
	size_t n = mem_samples.size(), k = n / 8;
	if (n < 100) return;
	auto peak = [&](const vector<size_t> &v, size_t from) { size_t m = 0; for (size_t i = from; i < from + k; ++i) m = std::max(m, v[i]); return m; };
	size_t a = peak(mem_samples, 0), b = peak(mem_samples, n - k), ta = peak(mem_totals, 0), tb = peak(mem_totals, n - k);
	// buffers may need some time to reach their final size; what accumulates also grows in the second half
	size_t h = peak(mem_samples, n / 2), th = peak(mem_totals, n / 2);
	if (b > a + a / 2 + 98304 && b > h + (b - a) / 4) violation("C20", "memory in use grew from %zu to %zu bytes while searching %zu uniform directories", a, b, n);
	// the number of directories being read at once varies
	else if (tb > 2 * ta + (sc.threads == 1 ? 131072 : 140000 * sc.nofile_max) && tb > th + (tb - ta) / 4) violation("C20", "memory in use grew from %zu to %zu bytes in total while searching %zu uniform directories", ta, tb, n);
}
struct Diags {
	std::multimap<string, string> by_path;
	vector<string> global, warnings, other;
	bool any() const { return !by_path.empty() || !global.empty(); }
	bool has(const string &p) const { return by_path.count(p) > 0; }
};
static Diags diags;
static size_t suppressed; // errors that -noerror hid
static std::map<string, vector<Node *>> by_path;

static void parse_stderr(const string &e) {
	size_t i = 0;
	while (i < e.size()) {
		size_t j = e.find('\n', i);
		if (j == string::npos) j = e.size();
		string l = e.substr(i, j - i);
		i = j + 1;
		static const string pe = "bfs: error: ", pw = "bfs: warning: ";
		size_t at = l.find(pe);
		if (at != string::npos) {
			string r = l.substr(at + pe.size());
			size_t k = r.find(": ");
			string p = k == string::npos ? r : r.substr(0, k);
			if (by_path.count(p)) diags.by_path.emplace(p, k == string::npos ? "" : r.substr(k + 2));
			else {
				// a path may contain ": "
				bool found = false;
				for (size_t q = k; q != string::npos && !found; q = r.find(": ", q + 1))
					if (by_path.count(r.substr(0, q))) { diags.by_path.emplace(r.substr(0, q), r.substr(q + 2)); found = true; }
				if (!found) diags.global.push_back(r);
			}
		} else if (l.find(pw) != string::npos) {
			diags.warnings.push_back(l);
			size_t k = l.find("Suppressed errors: ");
			if (k != string::npos) suppressed = atoi(l.c_str() + k + 19);
		}
		else if (!l.empty()) {
			diags.other.push_back(l);
			if (l.compare(0, 11, "bfs_ctx_new") == 0 || l.find("Cannot allocate memory") != string::npos) diags.global.push_back(l);
		}
	}
}

// ---------------------------------------------------------------- walk
struct Walk {
	std::map<std::pair<int, string>, vector<Node *>> pend, optional;
	std::map<Node *, int> undone;   // -depth: descendants still to come
	vector<Node *> seq;             // visit order
	vector<size_t> seq_off;         // end of the V line in (stripped) stdout
	bool quit = false;
	int exitcode = -1;
	std::set<string> need;          // paths that must have a diagnostic
	std::map<string, string> files;
	vector<ExecCall> execs;
	std::map<int, vector<Node *>> multi;
	vector<Node *> deletes;
	vector<size_t> multi_pos;
	string prompts;
	string expect_out;              // for messages
};
static Walk w;

static bool covered(Node *n) {
	if (!sc.reported && suppressed) return true;
	if (!diags.global.empty()) return true;
	for (Node *a = n; a; a = a->parent) if (diags.has(a->path)) return true;
	return false;
}
static bool ignorable(Node *n, int e) { return sc.ignore_races && n->depth > 0 && (e == ENOENT || e == ENOTDIR); }

static bool xargs_unsafe(Node *n) { return sc.xargs && n->path.find_first_of(" \t\n'\"\\") != string::npos; }
static void activate(Node *n, bool opt) {
	if (n->skip) return;
	if (n->err) { if (!opt && !ignorable(n, n->err)) w.need.insert(n->path); return; }
	if (sc.exclude) { EvCtx c; if (ex_eval(sc.exclude, n, c)) return; }
	if (xargs_unsafe(n)) { if (!opt) w.need.insert(n->path); return; }
	bool evald = n->depth >= sc.mindepth && n->depth <= sc.maxdepth;
	if (evald) (opt ? w.optional : w.pend)[{n->depth, n->path}].push_back(n);
	if (!evald || sc.post) {
		if (n->nodesc) return;
		if (n->direrr && !opt) w.need.insert(n->path);
		for (Node *k : n->kids) activate(k, opt);
	}
}
static void after_visit(Node *n, const EvCtx &c, bool unsure) {
	if (sc.post) return;
	if (n->nodesc) return;
	if (c.prune && !unsure) return;
	bool opt = unsure && (c.prune || sc.has_prune);
	if (n->direrr && !opt) w.need.insert(n->path);
	for (Node *k : n->kids) activate(k, opt);
}
static u64 fired(int f) { return faults[f].fired; }
static bool exec_faults() {
	if (sc.badwd || sc.noexe) return true;
	for (int f : {F_PIPE_FAIL, F_FORK_FAIL, F_SPAWN_FAIL, F_EXEC_FAIL, F_EXEC_E2BIG, F_FCHDIR_FAIL, F_DUP_FAIL}) if (fired(f)) return true;
	return false;
}
static bool is_under(Node *a, Node *b) { for (; b; b = b->parent) if (a == b) return true; return false; }

static Node *take(int d, const string &p, bool &opt) {
	opt = false;
	auto it = w.pend.find({d, p});
	Node *n = nullptr;
	if (it != w.pend.end() && !it->second.empty()) {
		n = it->second.front();
		it->second.erase(it->second.begin());
		if (it->second.empty()) w.pend.erase(it);
		return n;
	}
	it = w.optional.find({d, p});
	if (it != w.optional.end() && !it->second.empty()) {
		n = it->second.front();
		it->second.erase(it->second.begin());
		opt = true;
	}
	return n;
}

// Remove the lines written by children of + actions; returns stripped text
static string strip_multi(const string &out, vector<std::pair<size_t, size_t>> &cuts) {
	for (ChildRec *c : children) {
		if (!c->started || c->argv.size() < 2 || c->argv[1][0] != 'E') continue;
		int id = atoi(c->argv[1].c_str() + 1);
		if (id < 0 || id >= (int)sc.execs.size() || !sc.execs[id].multi) continue;
		size_t len = 2;
		for (size_t k = 1; k < c->argv.size(); ++k) len += c->argv[k].size() + 3;
		if (c->exited) cuts.push_back({c->stdout_at_start.size(), len});
	}
	std::sort(cuts.begin(), cuts.end());
	string r;
	size_t p = 0;
	for (auto &x : cuts) {
		if (x.first > out.size()) break;
		r.append(out, p, x.first - p);
		p = std::min(out.size(), x.first + x.second);
	}
	if (p < out.size()) r.append(out, p, string::npos);
	return r;
}
static size_t orig_off(size_t o, const vector<std::pair<size_t, size_t>> &cuts) {
	for (auto &x : cuts) { if (x.first < o) o += x.second; else break; }
	return o;
}

static void merge(EvCtx &c) {
	for (auto &f : c.files) w.files[f.first] += f.second;
	for (auto &e : c.execs) w.execs.push_back(e);
	for (auto &m : c.multi) w.multi[m.first].push_back(m.second);
	for (auto &p : c.prompts) w.prompts += p;
	for (Node *n : c.deletes) w.deletes.push_back(n);
	if (c.quit) { w.quit = true; w.exitcode = c.exitcode; }
}

static void walk_v(const string &raw) {
	vector<std::pair<size_t, size_t>> cuts;
	string out = strip_multi(raw, cuts);
	size_t pos = 0;
	for (Node *r : sc.rootnodes) activate(r, false);
	bool ok = true;
	bool truncated = run_end.kind == END_SIGNAL; // output may stop anywhere
	while (pos < out.size()) {
		size_t nl = out.find('\n', pos);
		if (nl == string::npos || out.compare(pos, 2, "V ") != 0) {
			if (nl == string::npos && truncated) return;
			violation("C22", "unexpected output %s after %zu visits (expected the next file)", Q(out.substr(pos, 200)).c_str(), w.seq.size());
			ok = false;
			break;
		}
		if (w.quit) {
			violation("C08", "file visited after -quit/-exit/-limit took effect: %s", Q(out.substr(pos, nl - pos)).c_str());
			ok = false;
			break;
		}
		int d = 0;
		char ty = 0;
		int used = 0;
		string line = out.substr(pos, nl - pos);
		if (sscanf(line.c_str(), "V %d %c %n", &d, &ty, &used) < 2 || !used) {
			violation("C22", "malformed output line %s", Q(line).c_str());
			ok = false;
			break;
		}
		string path = line.substr(used);
		bool opt;
		Node *n = take(d, path, opt);
		if (!n && !sc.exact) {
			// A later deepening pass may get past an error that was reported
			auto it = by_path.find(path);
			if (it != by_path.end()) for (Node *m : it->second) if (m->depth == d && !m->visits && !m->skip && !m->err && covered(m)) { n = m; opt = true; break; }
		}
		if (!n) {
			auto it = by_path.find(path);
			if (it == by_path.end()) violation("C01", "visited %s (depth %d), which is not a file of the searched tree", Q(path).c_str(), d);
			else {
				Node *m = it->second[0];
				if (m->depth != d) violation("C01", "visited %s with depth %d; its depth is %d", Q(path).c_str(), d, m->depth);
				else if (m->visits) violation("C01", "visited %s more than once", Q(path).c_str());
				else if (m->skip) violation("C17", "-mount: visited %s, which is on another file system", Q(path).c_str());
				else if (m->err) violation(m->loop ? "C16" : "C03", "visited %s, although it cannot be accessed (%s)", Q(path).c_str(), strerror(m->err));
				else {
					Node *a = m->parent;
					while (a && a->visits) a = a->parent;
					bool xdev = false;
					for (Node *b = m->parent; b; b = b->parent) if (b->parent && b->sb && b->parent->sb && b->sb->dev != b->parent->sb->dev) xdev = true;
					if (a && !a->visits && a->depth >= sc.mindepth) violation("C02", "visited %s before its ancestor %s", Q(path).c_str(), Q(a->path).c_str());
					else violation(sc.exclude || sc.has_prune ? "C22" : xdev ? "C17" : "C01", "visited %s, below a directory that must not be descended into", Q(path).c_str());
				}
			}
			ok = false;
			break;
		}
		n->visits++;
		if (ty != n->type) { violation("C04", "%s has type %c but was visited as %c", Q(path).c_str(), n->type, ty); }
		if (sc.post) {
			w.undone[n] = -1;
		}
		w.seq.push_back(n);
		w.seq_off.push_back(orig_off(nl + 1, cuts));
		pos = nl + 1;
		EvCtx c;
		if (sc.expr) ex_eval(sc.expr, n, c);
		bool unsure = !sc.exact && (covered(n));
		if (!c.need_diag.empty()) { w.need.insert(n->path); }
		if (unsure) {
			// output for this file is not determined: skip to the next V line
			size_t q = pos;
			while (q < out.size() && out.compare(q, 2, "V ") != 0) {
				// -print0 output has no newline
				size_t a = out.find('\n', q), b = out.find('\0', q);
				size_t e = std::min(a, b);
				if (e == string::npos) { q = out.size(); break; }
				q = e + 1;
			}
			pos = q;
			if (c.quit || sc.has_quit) return; // cannot tell
		} else if (out.compare(pos, c.out.size(), c.out) != 0) {
			if (truncated && out.size() - pos < c.out.size() && c.out.compare(0, out.size() - pos, out, pos) == 0) return;
			size_t q = pos;
			violation(c.out.empty() ? "C22" : "C22", "for %s the expression must output %s but the output continues with %s",
				Q(path).c_str(), Q(c.out).c_str(), Q(out.substr(q, 200)).c_str());
			ok = false;
			break;
		} else pos += c.out.size();
		merge(c);
		after_visit(n, c, unsure);
	}
	if (!ok || truncated) return;
	if (!w.quit) {
		for (auto &x : w.pend) for (Node *n : x.second) {
			if (!sc.exact && covered(n)) continue;
			if (sc.exact && n->direrr && false) continue;
			const char *tag = "C01";
			if (!sc.exact) tag = "C03";
			violation(tag, "%s (depth %d, type %c) was never visited%s", Q(n->path).c_str(), n->depth, n->type,
				sc.exact ? "" : " and no error was reported for it or any of its parents");
			return;
		}
	}
}

// ---------------------------------------------------------------- order
static void check_order() {
	auto &s = w.seq;
	if (!sc.post) {
		// parents first is implied by the pending set; levels per strategy
		if (sc.strategy == ST_IDS || (sc.strategy == ST_BFS && sc.sort)) {
			for (size_t i = 1; i < s.size(); ++i)
				if (s[i]->depth < s[i - 1]->depth) { violation("C02", "breadth-first order broken: %s (depth %d) after %s (depth %d)", Q(s[i]->path).c_str(), s[i]->depth, Q(s[i - 1]->path).c_str(), s[i - 1]->depth); return; }
		}
		auto band = [](int d) { int b = 0; while ((1 << b) <= d) ++b; return b; };
		if (sc.strategy == ST_EDS) {
			for (size_t i = 1; i < s.size(); ++i)
				if (band(s[i]->depth) < band(s[i - 1]->depth)) { violation("C02", "exponential deepening order broken: %s (depth %d) after %s (depth %d)", Q(s[i]->path).c_str(), s[i]->depth, Q(s[i - 1]->path).c_str(), s[i - 1]->depth); return; }
		}
	} else {
		// children before parents
		std::map<Node *, size_t> at;
		for (size_t i = 0; i < s.size(); ++i) at[s[i]] = i;
		for (size_t i = 0; i < s.size(); ++i)
			for (Node *a = s[i]->parent; a; a = a->parent) {
				auto it = at.find(a);
				if (it != at.end() && it->second < i) { violation("C02", "-depth: %s was visited before its descendant %s", Q(a->path).c_str(), Q(s[i]->path).c_str()); return; }
			}
		if (sc.strategy == ST_IDS)
			for (size_t i = 1; i < s.size(); ++i)
				if (s[i]->depth > s[i - 1]->depth) { violation("C02", "-S ids -depth: %s (depth %d) after %s (depth %d)", Q(s[i]->path).c_str(), s[i]->depth, Q(s[i - 1]->path).c_str(), s[i - 1]->depth); return; }
	}
	if (sc.sort && sc.exact) {
		// siblings of the same kind of visit appear in name order
		std::map<Node *, Node *> last; // parent -> last child seen
		Node *lastroot = nullptr;
		auto band = [](int d) { int b = 0; while ((1 << b) <= d) ++b; return b; };
		for (Node *n : s) {
			if (sc.post && (sc.strategy == ST_BFS || sc.strategy == ST_EDS)) break;
			Node *&l = n->parent ? last[n->parent] : lastroot;
			if (l) {
				string a = n->parent ? l->name() : l->path, b = n->parent ? n->name() : n->path;
				if (strcmp(a.c_str(), b.c_str()) > 0) { violation("C02", "-s: %s visited before %s", Q(l->path).c_str(), Q(n->path).c_str()); return; }
			}
			l = n;
		}
		if (!sc.post && sc.strategy == ST_BFS) {
			// a directory's children follow the children of the directories before it
			std::map<Node *, size_t> at;
			for (size_t i = 0; i < s.size(); ++i) at[s[i]] = i;
			long prev = -1; int pd = -1;
			for (Node *n : s) {
				if (n->depth != pd) { prev = -1; pd = n->depth; }
				auto it = n->parent ? at.find(n->parent) : at.end();
				if (it == at.end()) continue;
				if ((long)it->second < prev) { violation("C02", "-s: %s visited out of its directory's turn", Q(n->path).c_str()); return; }
				prev = it->second;
			}
		}
		if (sc.strategy == ST_DFS || sc.strategy == ST_EDS) {
			if (!(sc.post && sc.strategy == ST_EDS)) {
				// subtrees are contiguous (within one deepening pass)
				std::map<Node *, int> closed; // node -> band in which its subtree was left
				vector<Node *> stack;
				int pb = -1;
				for (Node *n : s) {
					int b = sc.strategy == ST_EDS ? band(n->depth) : 0;
					if (b != pb) { stack.clear(); closed.clear(); pb = b; }
					vector<Node *> chain;
					for (Node *a = n->parent; a; a = a->parent) chain.push_back(a);
					std::reverse(chain.begin(), chain.end());
					size_t k = 0;
					while (k < stack.size() && k < chain.size() && stack[k] == chain[k]) ++k;
					for (size_t q = k; q < stack.size(); ++q) closed[stack[q]] = 1;
					for (size_t q = k; q < chain.size(); ++q)
						if (closed.count(chain[q])) { violation("C02", "depth-first order broken: returned to %s for %s", Q(chain[q]->path).c_str(), Q(n->path).c_str()); return; }
					stack = chain;
				}
			}
		}
	}
}

// ---------------------------------------------------------------- without V
static void collect(Node *n, vector<string> &lines, std::map<string, vector<string>> &files) {
	if (n->skip) return;
	if (n->err) { if (!ignorable(n, n->err)) w.need.insert(n->path); return; }
	if (sc.exclude) { EvCtx c; if (ex_eval(sc.exclude, n, c)) return; }
	if (xargs_unsafe(n)) { w.need.insert(n->path); return; }
	EvCtx c;
	bool evald = n->depth >= sc.mindepth && n->depth <= sc.maxdepth;
	if (evald) {
		ex_eval(sc.expr, n, c);
		if (!c.out.empty()) lines.push_back(c.out);
		for (auto &f : c.files) files[f.first].push_back(f.second);
		if (!c.need_diag.empty()) n->maydiag = 1;
	}
	if (n->nodesc || (c.prune && !sc.post)) return;
	if (n->direrr) n->maydiag = 1;
	for (Node *k : n->kids) collect(k, lines, files);
}
static bool match_unordered(const string &out, vector<string> lines, string &why) {
	// every evaluation's output is one contiguous block; blocks may come in any order
	std::multiset<string> left(lines.begin(), lines.end());
	size_t total = 0;
	for (auto &l : lines) total += l.size();
	size_t pos = 0;
	while (pos < out.size()) {
		// longest block first, so that a block which is a prefix of another is not taken wrongly
		string best;
		for (auto it = left.begin(); it != left.end(); ++it)
			if (it->size() > best.size() && out.compare(pos, it->size(), *it) == 0) best = *it;
		if (best.empty()) { why = "unexpected output " + Q(out.substr(pos, 200)); return false; }
		left.erase(left.find(best));
		pos += best.size();
	}
	if (!left.empty()) { why = "missing output " + Q(*left.begin()); return false; }
	return true;
}
static void walk_nov(const string &out) {
	vector<string> lines;
	std::map<string, vector<string>> files;
	for (Node *r : sc.rootnodes) collect(r, lines, files);
	if (lines.size() > 600) return;
	string why;
	if (out.size() < 100000 && !match_unordered(out, lines, why)) violation("C22", "%s", why.c_str());
	for (auto &f : sc.outfiles) {
		Inode *i = nullptr;
		if (resolve(root_ino, f, true, &i)) { violation("C11", "output file %s was not created", f.c_str()); continue; }
		string why2;
		if (!match_unordered(i->data, files[f], why2)) violation("C11", "%s: %s", f.c_str(), why2.c_str());
	}
}

// ---------------------------------------------------------------- -unique
static void walk_unique(const string &out) {
	// every reachable (dev, ino) exactly once; which path is reported is free
	std::set<Inode *> want, got;
	vector<Node *> stack;
	std::set<Inode *> seen;
	for (Node *n : sc.nodes) { if (n->skip || n->err) continue; want.insert(n->sb); }
	size_t pos = 0;
	while (pos < out.size()) {
		size_t nl = out.find('\n', pos);
		if (nl == string::npos) break;
		string line = out.substr(pos, nl - pos);
		pos = nl + 1;
		int d = 0, used = 0; char ty = 0;
		if (sscanf(line.c_str(), "V %d %c %n", &d, &ty, &used) < 2 || !used) { violation("C22", "malformed output line %s", Q(line).c_str()); return; }
		auto it = by_path.find(line.substr(used));
		if (it == by_path.end()) { violation("C16", "-unique: visited %s, which is not in the searched tree", Q(line).c_str()); return; }
		Node *m = nullptr;
		for (Node *q : it->second) if (q->depth == d && !q->skip && !q->err) { m = q; break; }
		if (!m) { violation("C16", "-unique: visited %s, which must not be visited at that depth", Q(line).c_str()); return; }
		if (m->type != ty) { violation("C16", "-unique: %s has type %c but was visited as %c", Q(line.substr(used)).c_str(), m->type, ty); return; }
		Inode *i = m->sb;
		if (got.count(i)) { violation("C16", "-unique: the file %s (inode %d) was visited twice", Q(line.substr(used)).c_str(), (int)i->ino); return; }
		got.insert(i);
	}
	for (Inode *i : want) if (!got.count(i)) {
		string p;
		for (Node *n : sc.nodes) if (n->sb == i) { p = n->path; break; }
		violation("C16", "-unique: inode %d (%s) was never visited", (int)i->ino, Q(p).c_str());
		return;
	}
}

// ---------------------------------------------------------------- concurrent changes
static bool vol(Node *n) { for (; n; n = n->parent) if (n->l && n->l->volatile_) return true; return false; }
static bool fresh(const string &p) {
	// a path whose new component was created while bfs ran
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == string::npos) j = p.size();
		if (p.compare(i, 5, "fresh") == 0) return true;
		i = j + 1;
	}
	return false;
}
static void walk_mut(const string &out) {
	std::map<string, int> seen;
	size_t pos = 0;
	while (pos < out.size()) {
		size_t nl = out.find('\n', pos);
		if (nl == string::npos) { violation("C22", "incomplete output line"); return; }
		string line = out.substr(pos, nl - pos);
		pos = nl + 1;
		int d = 0, used = 0; char ty = 0;
		if (sscanf(line.c_str(), "V %d %c %n", &d, &ty, &used) < 2 || !used) { violation("C22", "malformed output line %s", Q(line).c_str()); return; }
		string p = line.substr(used);
		if (++seen[p] > 1) { violation("C23", "%s was visited twice while the tree changed", Q(p).c_str()); return; }
		auto it = by_path.find(p);
		if (it == by_path.end()) {
			if (!fresh(p)) { violation("C23", "visited %s, which never existed", Q(p).c_str()); return; }
			continue;
		}
		Node *n = it->second[0];
		cover.visits++;
		if (d != n->depth) { violation("C23", "%s was visited with depth %d", Q(p).c_str(), d); return; }
		if (ty != n->type && !vol(n)) { violation("C23", "%s has type %c but was visited as %c", Q(p).c_str(), n->type, ty); return; }
		n->visits++;
	}
	for (Node *n : sc.nodes) {
		if (vol(n) || n->visits || n->err || n->skip) continue;
		if (n->depth < sc.mindepth || n->depth > sc.maxdepth) continue;
		violation("C23", "%s was not visited although nothing happened to it", Q(n->path).c_str());
		return;
	}
	auto bad = [&](const string &p, const string &msg) {
		bool enoent = msg.find("No such file") != string::npos;
		if (!enoent) { violation("C23", "unexpected error for %s: %s", Q(p).c_str(), msg.c_str()); return true; }
		if (sc.ignore_races && p.find('/') != string::npos) { violation("C23", "-ignore_readdir_race: error for %s: %s", Q(p).c_str(), msg.c_str()); return true; }
		return false;
	};
	for (auto &x : diags.by_path) {
		if (!vol(by_path[x.first][0])) { violation("C23", "error for %s, to which nothing happened: %s", Q(x.first).c_str(), x.second.c_str()); return; }
		if (bad(x.first, x.second)) return;
	}
	for (auto &g : diags.global) {
		size_t k = g.find(": ");
		if (k == string::npos || !fresh(g.substr(0, k))) { violation("C23", "unexpected error: %s", Q(g).c_str()); return; }
		if (bad(g.substr(0, k), g.substr(k + 2))) return;
	}
	// stable files passed the -size / -newer test like in any other run
	for (auto &f : sc.outfiles) {
		Inode *i = nullptr;
		if (resolve(root_ino, f, true, &i)) { violation("C11", "output file %s was not created", f.c_str()); continue; }
		for (Node *n : sc.nodes) {
			if (vol(n) || !n->visits) continue;
			EvCtx c;
			ex_eval(sc.expr, n, c);
			for (auto &x : c.files) if (x.first == f && !x.second.empty() && i->data.find(x.second) == string::npos) { violation("C23", "%s is missing from %s", Q(n->path).c_str(), f.c_str()); return; }
		}
	}
}

static Inode *dir_of(Node *n) {
	if (n->depth > 0) return n->parent->sb;
	if (n->nameoff == 0) return n->path[0] == '/' ? root_ino : proc.cwd;
	Inode *d = nullptr;
	resolve(proc.cwd, n->path.substr(0, n->nameoff), true, &d);
	return d;
}
// ---------------------------------------------------------------- -delete under errors
// Whatever fails, only selected files may be removed, and only after their V line
static void check_deletes() {
	if (sc.exact) {
		if (!sc.del_bad.empty()) violation("C14", "%s", Q(sc.del_bad).c_str());
		else if (run_end.kind == END_EXIT && unlinks_matched() < unlinks.size()) violation("C14", "-delete also tried to remove %s", Q(unlinks[unlinks_matched()].path).c_str());
		return;
	}
	for (Node *n : w.deletes) {
		bool tried = false;
		for (auto &u : unlinks) if (u.dir == dir_of(n) && u.name == n->name()) tried = true;
		if (!tried && !covered(n)) { violation("C14", "-delete never tried to remove %s", Q(n->path).c_str()); return; }
	}
	for (auto &u : unlinks) {
		Node *n = nullptr;
		for (Node *m : sc.nodes) if (m->visits && m->l && u.ino == m->l && dir_of(m) == u.dir && m->name() == u.name) n = m;
		if (!n) { violation("C14", "-delete tried to remove %s, which was not visited", Q(u.path).c_str()); return; }
		if (u.rmdir != n->l->is_dir()) { violation("C14", "-delete used the wrong call for %s", Q(n->path).c_str()); return; }
		if (u.err && !diags.has(n->path)) { violation("C14", "-delete failed for %s (%s) but no error was reported", Q(n->path).c_str(), strerror(u.err)); return; }
	}
}

// ---------------------------------------------------------------- children
static size_t argsize(const vector<string> &v) { size_t s = 0; for (auto &a : v) s += a.size() + 1 + sizeof(char *); return s; }

static bool exec_cwd_ok(Node *n, ChildRec *c) { return c->cwd == dir_of(n); }

static void check_children(const string &out, bool gave_up) {
	for (ChildRec *c : children) {
		if (!c->reaped) violation("C10", "child process %s was never waited for", c->exe.c_str());
		if (!c->started) continue;
		cover.children++;
		if (c->nofile_cur != sc.nofile_cur || c->nofile_max != sc.nofile_max)
			violation("C10", "command started with RLIMIT_NOFILE %lu/%lu instead of the original %lu/%lu", (unsigned long)c->nofile_cur, (unsigned long)c->nofile_max, (unsigned long)sc.nofile_cur, (unsigned long)sc.nofile_max);
		std::map<int, int> want;
		want[0] = f_stdin->id; want[1] = f_stdout->id; want[2] = f_stderr->id;
		for (int fd : sc.inherited_fds) want[fd] = f_stdin->id;
		for (int fd : sc.closed_std) want.erase(fd);
		for (auto &x : c->fds) {
			if (sc.std_closed(x.first)) continue; // bfs keeps them occupied
			if (!want.count(x.first)) { violation("C10", "command inherited descriptor %d from bfs", x.first); break; }
			if (want[x.first] != x.second) { violation("C10", "command's descriptor %d is not the one bfs was started with", x.first); break; }
		}
		for (auto &x : want) if (!c->fds.count(x.first)) { violation("C10", "command was started without descriptor %d", x.first); break; }
		vector<int> ign = c->ignored, ign0 = sc.ignored_at_start;
		ign0.erase(std::remove(ign0.begin(), ign0.end(), SIGCHLD), ign0.end()); // bfs needs it itself
		ign.erase(std::remove(ign.begin(), ign.end(), SIGCHLD), ign.end());
		if (ign != ign0) violation("C10", "ignored signals of the command differ from those bfs was started with");
		if (c->sigmask != sc.initial_mask) violation("C10", "command started with signal mask %llx instead of %llx", (unsigned long long)c->sigmask, (unsigned long long)sc.initial_mask);
		if (c->started && !c->argv.empty()) {
			Inode *x = nullptr, *y = nullptr;
			string want = c->argv[0] == "rec" ? sc.want_exe : c->argv[0];
			if (resolve(c->cwd, c->exe, true, &x) || resolve(c->cwd, want, true, &y) || x != y) violation("C10", "command %s was started from %s instead of %s", Q(c->argv[0]).c_str(), Q(c->exe).c_str(), Q(want).c_str());
		}
		if (c->handlers_run) violation("C12", "bfs's signal handler ran in a forked child");
		if (out.compare(0, c->stdout_at_start.size(), c->stdout_at_start) != 0)
			violation("C11", "output seen by the command is not a prefix of the final output");
	}
	if (!sc.useV || sc.unique || gave_up) return;
	// ; actions: exactly the expected invocations, in order
	vector<ChildRec *> single;
	std::map<int, vector<ChildRec *>> multi;
	for (ChildRec *c : children) {
		if (!c->started || c->argv.size() < 2 || c->argv[1][0] != 'E') continue;
		int id = atoi(c->argv[1].c_str() + 1);
		if (id < 0 || id >= (int)sc.execs.size()) { violation("C10", "unexpected command %s", Q(c->argv[1]).c_str()); continue; }
		if (sc.execs[id].multi) multi[id].push_back(c); else single.push_back(c);
	}
	if (sc.exact && run_end.kind == END_EXIT) {
		size_t k = std::min(single.size(), w.execs.size());
		for (size_t i = 0; i < k; ++i) {
			auto &e = w.execs[i];
			if (single[i]->argv != e.argv) {
				string a, b;
				for (auto &x : e.argv) a += x + "|";
				for (auto &x : single[i]->argv) b += x + "|";
				violation("C10", "for %s the command must be %s but was %s", Q(e.node->path).c_str(), Q(a).c_str(), Q(b).c_str());
				return;
			}
			if (single[i]->cwd != e.cwd) { violation("C10", "command for %s ran in the wrong directory (inode %d, expected %d)", Q(e.node->path).c_str(), single[i]->cwd ? (int)single[i]->cwd->ino : -1, e.cwd ? (int)e.cwd->ino : -1); return; }
		}
		if (single.size() != w.execs.size()) violation("C10", "%zu commands were run, expected %zu", single.size(), w.execs.size());
	}
	bool e2big = false;
	for (auto &x : diags.by_path) if (x.second.find("Argument list too long") != string::npos) e2big = true;
	for (auto &x : diags.global) if (x.find("Argument list too long") != string::npos) e2big = true;
	bool loose = e2big || !sc.exact || sc.execfaults;
	size_t gaps = 0, exdiags = 0;
	string gap;
	for (auto &x : diags.by_path) if (x.second.compare(0, 5, "-exec") == 0) ++exdiags;
	for (auto &x : diags.global) if (x.compare(0, 5, "-exec") == 0) ++exdiags;
	for (auto &s : sc.execs) {
		if (!s.multi) continue;
		auto &want = w.multi[s.id];
		size_t i = 0;
		size_t fixed = s.tmpl.size() - 1;
		std::map<Node *, size_t> vpos;
		for (size_t q = 0; q < w.seq.size(); ++q) vpos[w.seq[q]] = w.seq_off[q];
		for (ChildRec *c : multi[s.id]) {
			bool badfix = c->argv.size() <= fixed;
			for (size_t q = 0; q < fixed && !badfix; ++q) if (c->argv[q] != s.tmpl[q]) badfix = true;
			if (badfix) { violation("C09", "-exec + command with wrong or no arguments"); return; }
			if (argsize(c->argv) > (size_t)envcfg.arg_max && c->argv.size() > fixed + 1) { violation("C09", "-exec + passed %zu bytes of arguments although ARG_MAX is %ld", argsize(c->argv), envcfg.arg_max); return; }
			for (size_t q = fixed; q < c->argv.size(); ++q) {
				// find it among the remaining expected ones
				size_t j = i;
				auto fmt = [&](Node *n) { string p = n->path; if (s.dir) { p = n->name(); if (p[0] != '/') p = "./" + p; } return p; };
				while (j < want.size() && !(fmt(want[j]) == c->argv[q] && (loose ? (!s.dir || exec_cwd_ok(want[j], c)) : true))) {
					if (!loose) break;
					++j;
				}
				if (j >= want.size() || fmt(want[j]) != c->argv[q]) {
					violation("C09", "-exec + passed %s; expected %s (argument %zu of the matching files)", Q(c->argv[q]).c_str(), i < want.size() ? Q(fmt(want[i])).c_str() : "nothing", i);
					return;
				}
				if (s.dir) {
					if (!exec_cwd_ok(want[j], c)) { violation("C09", "-execdir + ran in the wrong directory for %s", Q(want[j]->path).c_str()); return; }
				} else if (c->cwd != proc.cwd) { violation("C09", "-exec + ran in the wrong directory"); return; }
				if (sc.exact && vpos.count(want[j]) && c->stdout_at_start.size() < vpos[want[j]]) {
					violation("C11", "command for %s started before bfs had flushed the output printed earlier", Q(want[j]->path).c_str());
					return;
				}
				if (j > i) { ++gaps; gap = want[i]->path; }
				i = j + 1;
			}
		}
		if (i < want.size()) { ++gaps; gap = want[i]->path; }
		if (i < want.size() && !loose && run_end.kind == END_EXIT) { violation("C09", "-exec + never passed %s to any command", Q(want[i]->path).c_str()); return; }
	}
	// every batch that was dropped has its own error message
	if (sc.exact && run_end.kind == END_EXIT && gaps > exdiags && viols.empty())
		violation("C09", "-exec + never passed %s to any command, and only %zu errors were reported for %zu gaps", Q(gap).c_str(), exdiags, gaps);
}

// ---------------------------------------------------------------- signals and the terminal
// Has every directory that the search needs been opened?
static bool searched_all() {
	if (sc.has_prune) return true; // cannot tell
	for (Node *n : sc.nodes) if (!n->skip && !n->err && !n->nodesc && n->sb && n->sb->is_dir() && n->kids.size() && !n->sb->n_open) return false;
	return true;
}
static string strip_color(const string &s) {
	string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
			size_t j = i + 2;
			while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) ++j;
			if (j == s.size()) break; // cut off by a signal
			if (s[j] == 'm' || s[j] == 'K') { i = j; continue; }
			if (s[j] == '\033') { i = j - 1; continue; }
		} else if (s[i] == '\033' && (i + 1 == s.size() || s[i + 1] == '\033')) continue;
		r += s[i];
	}
	return r;
}
static void check_terminal() {
	const string &t = ino_tty->data;
	bool region = false, rev = false, color = false;
	bool reset_region = false, reset_color = false; // since the fatal signal
	size_t fatal = sc.fatal_at ? sc.fatal_at - 1 : t.size() + 1;
	bool resized = false;
	for (auto &p : sc.posted) if (p.sig == SIGWINCH) resized = true;
	size_t text = string::npos;
	for (size_t i = 0; i < t.size(); ++i) {
		if (t[i] != '\033') {
			if (rev && (unsigned char)t[i] < 32 && !isspace((unsigned char)t[i])) { violation("C13", "control character %d inside the status bar", t[i]); return; }
			continue;
		}
		if (i + 1 >= t.size()) break;
		if (t[i + 1] != '[') { if (t[i + 1] != '\033') ++i; continue; }
		size_t j = i + 2;
		while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == ';')) ++j;
		if (j >= t.size()) break;
		if (t[j] == '\033') { i = j - 1; continue; } // cut short by another one
		string a = t.substr(i + 2, j - i - 2);
		if (t[j] == 'r') {
			region = !a.empty();
			if (!region && i >= fatal) reset_region = true;
			if (region && !resized) {
				int n = atoi(a.c_str() + (a[0] == ';'));
				if (n != envcfg.winrows - 1) { violation("C13", "scrollable region of %d lines on a terminal of %d lines", n, envcfg.winrows); return; }
			}
		} else if (t[j] == 'm') {
			if (a == "7") { rev = true; text = j + 1; }
			else if (a == "27") {
				rev = false;
				string s = t.substr(text, i - text);
				bool ascii = true;
				for (char c : s) if ((unsigned char)c >= 127 || (unsigned char)c < 32) ascii = false;
				if (ascii && !resized && s.size() > (size_t)envcfg.wincols) { violation("C13", "status line of %zu columns on a terminal of %d: %s", s.size(), envcfg.wincols, Q(s).c_str()); return; }
			} else {
				color = !(a.empty() || a == "0" || a == "00");
				if (!color && i >= fatal) reset_color = true;
			}
		} else if (t[j] == 'f' && !resized && atoi(a.c_str()) > envcfg.winrows) { violation("C13", "status bar on line %s of a terminal with %d lines", a.c_str(), envcfg.winrows); return; }
		i = j;
	}
	if (run_end.kind == END_EXIT) {
		if (region) violation("C13", "bfs exited without resetting the terminal's scrollable region");
		else if (rev || color) violation("C13", "bfs exited with terminal attributes still set");
	} else if (run_end.kind == END_SIGNAL && sc.fatal_at && !fired(F_SIGACTION_FAIL)) {
		if (region && !reset_region) violation("C13", "killed by signal %d without resetting the terminal's scrollable region", run_end.code);
		else if (color && !reset_color) violation("C13", "killed by signal %d without resetting the terminal's colours", run_end.code);
	}
}

static void check_fds() {
	std::set<int> want = {0, 1, 2};
	for (int fd : sc.inherited_fds) want.insert(fd);
	for (auto &x : proc.fds) if (!want.count(x.first)) { violation("C05", "descriptor %d still open at exit%s%s", x.first, x.second.f->ino ? " inode " : "", x.second.f->ino ? std::to_string(x.second.f->ino->ino).c_str() : ""); break; }
	for (int fd : want) if (!proc.fds.count(fd) && fd > 2) { violation("C05", "bfs closed inherited descriptor %d", fd); break; }
}

void check_run() {
	for (Node *n : sc.nodes) by_path[n->path].push_back(n);
	cover.nodes = sc.nodes.size();
	string out = ino_stdout->data, err = ino_stderr->data;
	switch (run_end.kind) {
	case END_EXIT: break;
	case END_SIGNAL: {
		bool sent = false;
		for (auto &p : sc.posted) if (p.sig == run_end.code && (p.fatal || searched_all())) sent = true;
		if (!sent) { violation(sc.sigplan.empty() && !sc.status ? "crash" : "C12", "bfs was killed: %s, which nobody sent", run_end.why.c_str()); return; }
		break;
	}
	case END_DEADLOCK: violation("C07", "%s", run_end.why.c_str()); return;
	case END_LIVELOCK: violation("C07", "%s", run_end.why.c_str()); return;
	default: violation("crash", "%s (stderr: %s)", run_end.why.c_str(), Q(err).c_str()); return;
	}
	if (sc.color) err = strip_color(err);
	parse_stderr(err);
	if (sc.std_closed(1) && run_end.kind == END_EXIT && sc.profile != "alloc" && sc.reported) {
		bool any = false;
		for (Node *n : sc.nodes) if (n->sb && n->sb->n_open) any = true;
		if (closed_writes && run_end.code == 0) violation("C11", "exit status 0 although standard output is closed");
		else if (closed_writes && !sc.std_closed(2) && !diags.any()) violation("C11", "no error was reported although standard output is closed");
		else if (any && !closed_writes && run_end.code == 0 && sc.useV && sc.exact && sc.mindepth <= 0) violation("C11", "standard output is closed, but bfs did not fail to write to it");
	}
	if (run_end.kind == END_EXIT)
		for (auto &p : sc.posted) if (p.fatal && !signal_pending(p.sig)) { violation("C12", "bfs survived signal %d", p.sig); return; }
	check_terminal();
	if (sc.tty || sc.color) {
		out = strip_color(out);
		for (ChildRec *c : children) c->stdout_at_start = strip_color(c->stdout_at_start);
	}
	if (fired(F_SIGACTION_FAIL) && run_end.kind == END_EXIT && run_end.code && diags.any()) return; // may refuse to start
	// Out of memory: bfs may give up anywhere, but then its exit status must say so
	bool gave_up = sc.profile == "alloc" && (run_end.kind != END_EXIT || run_end.code != 0);
	// Output that could not be written, or roots that could not be read: bfs must say so
	bool read_failed = fired(F_READ_EIO) > 0;
	if (run_end.kind == END_EXIT && (fired(F_WRITE_EIO) || read_failed)) {
		const char *tag = read_failed ? "C25" : "C11";
		if (run_end.code == 0) violation(tag, "exit status 0 although %s failed", read_failed ? "reading the list of files" : "writing the output");
		else if (!diags.any() && !sc.std_closed(2)) violation(tag, "no error was reported although %s failed (stderr %s)", read_failed ? "reading the list of files" : "writing the output", Q(err).c_str());
		return;
	}
	if (fired(F_WRITE_EIO)) return; // killed by SIGPIPE
	if (sc.std_closed(1) || sc.std_closed(2)) {
		if (run_end.kind == END_EXIT) { check_fds(); check_leaks(); }
		return;
	}
	cover.diags = diags.by_path.size() + diags.global.size();
	if (gave_up) cover.visits = 0;
	else if (sc.mutate) { if (run_end.kind == END_EXIT) walk_mut(out); }
	else if (sc.unique) { if ((sc.exact || sc.profile == "alloc") && run_end.kind == END_EXIT) walk_unique(out); }
	else if (sc.useV) { walk_v(out); cover.visits = w.seq.size(); if (viols.empty() && !sc.dup) check_order(); }
	else if (sc.exact) walk_nov(out);
	if (sc.del && (viols.empty() || !sc.del_bad.empty())) check_deletes();
	if (run_end.kind != END_EXIT) return;
	check_fds();
	check_leaks();
	if (sc.profile == "mem") check_growth();
	check_children(out, gave_up);
	// output files
	if (sc.useV && sc.exact && !sc.unique && viols.empty()) for (auto &f : sc.outfiles) {
		Inode *i = nullptr;
		if (resolve(root_ino, f, true, &i)) { violation("C11", "output file %s was not created", f.c_str()); continue; }
		if (i->data != w.files[f]) {
			size_t k = 0;
			while (k < i->data.size() && k < w.files[f].size() && i->data[k] == w.files[f][k]) ++k;
			violation("C11", "%s must contain %zu bytes but has %zu; first difference at %zu: %s instead of %s", f.c_str(), w.files[f].size(), i->data.size(), k, Q(i->data.substr(k, 80)).c_str(), Q(w.files[f].substr(k, 80)).c_str());
		}
	}
	for (auto &x : xfails) {
		bool told = false;
		for (Node *n : sc.nodes) if ((n->sb == x.first || n->l == x.first) && covered(n)) told = true;
		// one kind of ACL is enough
		if (x.second && x.first->is_dir() && (x.first->def_acl || x.first->has_acl)) told = true;
		if (!told) { violation("C03", "looking up extended attributes of inode %d failed but no error was reported", (int)x.first->ino); return; }
	}
	if (!viols.empty()) return;
	// diagnostics and exit status
	bool multi_failed = false;
	for (ChildRec *c : children) if (c->started && c->argv.size() > 1 && c->argv[1][0] == 'E') {
		int id = atoi(c->argv[1].c_str() + 1);
		if (id >= 0 && id < (int)sc.execs.size() && sc.execs[id].multi && c->status) multi_failed = true;
	}
	if (sc.exact && !sc.unique) {
		if (!sc.reported) {
			if (!diags.by_path.empty()) { violation("C03", "-noerror: an error was reported for %s", Q(diags.by_path.begin()->first).c_str()); return; }
			bool may = false;
			for (Node *n : sc.nodes) if (n->maydiag) may = true;
			if (!w.quit && sc.useV && !may && !w.need.empty() != !!suppressed) { violation("C03", "-noerror: %zu files failed but %zu errors were counted", w.need.size(), suppressed); return; }
		}
		for (auto &p : w.need) {
			if (diags.has(p)) continue;
			if (w.quit || !sc.reported) continue;
			violation("C03", "no error was reported for %s", Q(p).c_str());
			return;
		}
		// a file that is never evaluated can only be complained about once
		if (!sc.dup && !w.quit) for (Node *n : sc.nodes) if ((n->err || (n->direrr && !n->maydiag && (sc.profile == "walk" || sc.profile == "order"))) && diags.by_path.count(n->path) > 1) {
			violation("C03", "%zu errors were reported for %s, which was visited once", diags.by_path.count(n->path), Q(n->path).c_str());
			return;
		}
		bool asks = false;
		for (auto &x : sc.execs) if (x.ok) asks = true;
		if (sc.debug.empty() && !sc.status && !asks && sc.profile != "sig" && sc.profile != "bar") {
			if (!diags.other.empty()) { violation("C03", "unexpected text on standard error: %s", Q(diags.other[0]).c_str()); return; }
			if (sc.reported) for (auto &x : diags.warnings) {
				if (x.find("terminated by signal") != string::npos || x.find("Suppressed errors") != string::npos) continue;
				violation("C03", "unexpected warning: %s", Q(x).c_str());
				return;
			}
		}
		for (auto &x : diags.by_path) if (!w.need.count(x.first)) {
			bool may = false;
			for (Node *n : by_path[x.first]) if (n->maydiag || n->direrr) may = true;
			if (x.second.find("Argument list too long") != string::npos && envcfg.real_arg_max < 1 << 29) may = true;
			if (sc.execfaults && x.second.compare(0, 3, "-ex") == 0 && exec_faults()) may = true;
			if (sc.execfaults && x.second.compare(0, 3, "-ok") == 0 && exec_faults()) may = true;
			if (!may) { violation("C03", "spurious error for %s: %s", Q(x.first).c_str(), x.second.c_str()); return; }
		}
		for (auto &g : diags.global) {
			if (g.find("Argument list too long") != string::npos && envcfg.real_arg_max < 1 << 29) continue;
			if (sc.execfaults && g.compare(0, 3, "-ex") == 0 && exec_faults()) continue;
			if (read_failed) continue;
			violation("C03", "spurious error: %s", Q(g).c_str());
			return;
		}
	}
	if (sc.profile == "alloc") return;
	int code = run_end.code;
	if (w.exitcode >= 0 && !multi_failed) {
		if (code != w.exitcode) violation("C08", "exit status %d after -exit %d", code, w.exitcode);
	} else if (diags.any() || multi_failed) {
		if (!sc.reported && !diags.by_path.empty()) violation("C03", "-noerror: an error was reported for %s", Q(diags.by_path.begin()->first).c_str());
		if (code == 0 && !(sc.has_quit && w.exitcode == 0)) violation("C03", "exit status 0 although %s", multi_failed ? "an -exec + command failed" : "an error was reported");
	} else if (code != 0 && !sc.has_quit) {
		violation("C03", "exit status %d but no error was reported (stderr %s)", code, Q(err).c_str());
	} else if (code != 0 && sc.exact) {
		violation("C08", "exit status %d but no error was reported and no -exit was evaluated", code);
	}
	if (sc.profile == "ok") {
		// prompts are on stderr too, without a newline: remove whole diagnostics
		string p = err;
		for (size_t i; (i = p.find("bfs: error: ")) != string::npos;) {
			size_t j = p.find('\n', i);
			p.erase(i, j == string::npos ? string::npos : j + 1 - i);
		}
		err = p;
	}
	if (sc.profile == "ok" && err != w.prompts) violation("C24", "prompts were %s, expected %s", Q(err).c_str(), Q(w.prompts).c_str());
}
} // namespace sim
