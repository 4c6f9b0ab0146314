// Driver: one forked process per simulated run, seeded search, replay and
// minimisation.
#include "model.hh"
#include <algorithm>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
extern "C" {
extern FILE *sim_stdin, *sim_stdout, *sim_stderr;
extern char **sim_environ;
FILE *sim_mkfile(int fd, const char *mode, int buf, size_t size);
int bfs_main(int argc, char *argv[]);
[[noreturn]] void sim_exit(int c);
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=8:strict_string_checks=0"; }
const char *__ubsan_default_options() { return "print_stacktrace=1:symbolize=0:exitcode=77"; }
const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:symbolize=0:report_signal_unsafe=0:history_size=4:report_thread_leaks=0:die_after_fork=0:atexit_sleep_ms=0"; }
}
namespace sim { extern u64 max_open_fds; }

struct Result {
	int done;
	int kind, code;
	char why[600];
	int nviol;
	struct { char tag[24]; char msg[1100]; } v[6];
	u64 trace_hash, sched_hash, steps, switches, simtime, work;
	u32 fired[NFAULT];
	u64 seen[NFAULT];
	Cover cover;
	int threads, nargv, skipped;
	u32 fibers;
	char desc[3000];
	char argvs[3000];
};
struct Shared { Result r; Mirror m; };
static Shared *sh;
static int errfd = -1;     // sanitizer output of the run
static string exe_path;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Plan {
	string profile;
	u64 seed = 0;
	bool replay = false;
	vector<u32> rec[NST];
};

static string dump_tree() {
	string s;
	std::function<void(Inode *, const string &, int)> go = [&](Inode *d, const string &p, int depth) {
		for (auto &e : d->ents) {
			if (s.size() > 2500) return;
			Inode *i = e.ino;
			s += p + "/" + e.name;
			if (i->is_lnk()) s += " -> " + i->target;
			char b[200];
			snprintf(b, sizeof b, " [ino %d dev %d mode %o%s%s%s%s]", (int)i->ino, (int)i->dev, (unsigned)i->mode, i->open_err ? " open_err" : "", i->read_err ? " read_err" : "", i->dtype_unknown ? " DT_UNKNOWN" : "", i->nlink > 1 && !i->is_dir() ? " hardlink" : "");
			s += b;
			s += "\n";
			if (i->is_dir() && depth < 200) go(i, p + "/" + e.name, depth + 1);
		}
	};
	if (root_ino) { Inode *w = root_ino->child("w"); if (w) go(w, "/w", 0); }
	return s;
}
static void cpy(char *d, size_t n, const string &s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static void child_run(const Plan &pl) {
	mirror = &sh->m;
	for (int i = 0; i < NST; ++i) {
		streams[i].s = mix2(pl.seed, i + 1);
		streams[i].replay = pl.replay;
		streams[i].rec = pl.rec[i];
		streams[i].pos = 0;
		if (!pl.replay) streams[i].rec.clear();
	}
	Result &r = sh->r;
	bool api = api_profile(pl.profile);
	if (!api && !build_scenario(pl.profile)) { r.skipped = 1; r.done = 1; _exit(0); }
	string av;
	if (!api) {
		for (auto &a : sc.argv) { av += a; av += '\x1f'; }
		cpy(r.desc, sizeof r.desc, dump_tree());
	}
	for (auto &x : av) if (x == 0) x = '?';
	cpy(r.argvs, sizeof r.argvs, av);
	u64 t0 = now_mono;
	if (api) {
		run_sim([&] { run_api(pl.profile); end_run(END_EXIT, 0, "done"); });
		finish_api(pl.profile);
	} else {
		sim_stdin = sim_mkfile(0, "r", _IOFBF, envcfg.stdio_buf);
		sim_stdout = sim_mkfile(1, "w", envcfg.tty_out ? _IOLBF : _IOFBF, envcfg.stdio_buf);
		sim_stderr = sim_mkfile(2, "w", _IONBF, 0);
		vector<char *> ev, avp;
		for (auto &e : envcfg.env) ev.push_back((char *)e.c_str());
		ev.push_back(nullptr);
		sim_environ = ev.data();
		for (auto &a : sc.argv) avp.push_back((char *)a.c_str());
		avp.push_back(nullptr);
		run_sim([&] {
			for (int s : sc.ignored_at_start) sigacts[s].handler = (void *)SIG_IGN;
			for (int fd : sc.closed_std) proc.fds.erase(fd);
			cur->sigmask = sc.initial_mask;
			start_actors();
			sim_exit(bfs_main(avp.size() - 1, avp.data()));
		});
		if (verbose) fprintf(stderr, "--- stdout ---\n%s--- stderr ---\n%s--- end ---\n", ino_stdout->data.c_str(), ino_stderr->data.c_str());
		check_run();
	}
	r.kind = run_end.kind; r.code = run_end.code;
	cpy(r.why, sizeof r.why, run_end.why);
	r.nviol = std::min<size_t>(6, viols.size());
	for (int i = 0; i < r.nviol; ++i) { cpy(r.v[i].tag, sizeof r.v[i].tag, viols[i].tag); cpy(r.v[i].msg, sizeof r.v[i].msg, viols[i].msg); }
	r.trace_hash = trace_hash; r.sched_hash = sched_hash; r.steps = steps; r.switches = switches; r.simtime = now_mono - t0; r.work = sc.work;
	for (int i = 0; i < NFAULT; ++i) { r.fired[i] = faults[i].fired; r.seen[i] = faults[i].seen; }
	r.cover = cover;
	r.threads = sc.threads; r.nargv = sc.argv.size();
	r.fibers = fibers.size();
	r.done = 1;
	_exit(0);
}

static string slurp_err() {
	off_t n = lseek(errfd, 0, SEEK_END);
	string s(std::min<off_t>(n, 20000), 0);
	if (pread(errfd, &s[0], s.size(), 0) < 0) s.clear();
	return s;
}
static void add_viol(const char *tag, const string &msg) {
	Result &r = sh->r;
	if (r.nviol >= 6) return;
	cpy(r.v[r.nviol].tag, sizeof r.v[0].tag, tag);
	cpy(r.v[r.nviol].msg, sizeof r.v[0].msg, msg);
	r.nviol++;
}
// frames of a sanitizer report as module offsets, made readable
static string san_summary(const string &e) {
	string first;
	size_t i = 0;
	int frames = 0;
	string out;
	while (i < e.size()) {
		size_t j = e.find('\n', i);
		if (j == string::npos) j = e.size();
		string l = e.substr(i, j - i);
		i = j + 1;
		if (l.find("ERROR: AddressSanitizer") != string::npos || l.find("WARNING: ThreadSanitizer") != string::npos || l.find("runtime error:") != string::npos || l.find("bfs: ") == 0) {
			size_t eq = l.find("==ERROR");
			out += eq != string::npos ? l.substr(eq + 2) : l;
			out += "; ";
		}
		size_t p = l.find("+0x");
		size_t h = l.find('#');
		if (h != string::npos && p != string::npos && frames < 10) {
			string off = l.substr(p + 1);
			size_t q = off.find(')');
			off = off.substr(0, q);
			out += "@" + off + " ";
			frames++;
		}
		if (out.size() > 900) break;
	}
	// drop process ids and addresses that vary
	return out;
}

// Runs one plan in a child process; fills in sh->r
static bool run_plan(const Plan &pl, bool keep_err = false) {
	memset(&sh->r, 0, sizeof sh->r);
	for (auto &n : sh->m.nrec) n = 0;
	sh->m.overflow = false;
	sh->m.steps = 0;
	if (errfd >= 0 && ftruncate(errfd, 0) < 0) {}
	if (errfd >= 0) lseek(errfd, 0, SEEK_SET);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(3); }
	if (p == 0) {
		if (!verbose && !keep_err && errfd >= 0) dup2(errfd, 2);
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		child_run(pl);
		_exit(9);
	}
	int st;
	u64 last = 0; int stuck = 0;
	struct itimerval it = {{5, 0}, {5, 0}};
	setitimer(ITIMER_REAL, &it, nullptr);
	bool killed = false;
	while (waitpid(p, &st, 0) < 0) {
		if (errno != EINTR) { perror("waitpid"); exit(3); }
		// no simulated step although the process is burning CPU?
		clockid_t ck;
		struct timespec ts = {};
		if (clock_getcpuclockid(p, &ck) == 0) clock_gettime(ck, &ts);
		if (sh->m.steps == last && ts.tv_sec >= 15) { if (++stuck >= 3) { kill(p, SIGKILL); killed = true; } }
		else stuck = 0;
		last = sh->m.steps;
	}
	struct itimerval z = {};
	setitimer(ITIMER_REAL, &z, nullptr);
	Result &r = sh->r;
	if (killed) { r.kind = END_LIVELOCK; add_viol("C07", "bfs runs forever without making a system call"); }
	else if (!r.done) {
		string e = slurp_err();
		string sum = san_summary(e);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness failure: %s\n", e.substr(0, 500).c_str()); r.skipped = 2; return true; }
		if (WIFEXITED(st) && WEXITSTATUS(st) == 66) add_viol("race", "ThreadSanitizer: " + sum);
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) add_viol("crash", "sanitizer: " + sum);
		else {
			char b[100];
			snprintf(b, sizeof b, "the process died (wait status 0x%x); ", st);
			add_viol("crash", b + sum + (sum.empty() ? e.substr(0, 300) : ""));
		}
	} else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		add_viol("crash", "the process died after the run");
	}
	return true;
}
static Plan recorded(const Plan &pl) {
	Plan q;
	q.profile = pl.profile; q.seed = pl.seed; q.replay = true;
	for (int i = 0; i < NST; ++i) {
		size_t n = std::min<size_t>(sh->m.nrec[i], Mirror::CAP);
		q.rec[i].assign(sh->m.rec[i], sh->m.rec[i] + n);
		while (!q.rec[i].empty() && q.rec[i].back() == 0) q.rec[i].pop_back();
	}
	return q;
}
static std::set<string> accept;
static int accepted() {
	for (int i = 0; i < sh->r.nviol; ++i) if (accept.empty() || accept.count(sh->r.v[i].tag)) return i;
	return -1;
}

// ---------------------------------------------------------------- replay files
static string jstr(const string &s) {
	string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c > 126) { char b[10]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static void save_replay(const string &path, const Plan &q, int vi, const char *flavour, bool minimal) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); exit(3); }
	Result &r = sh->r;
	fprintf(f, "{\n \"profile\": %s,\n \"flavour\": \"%s\",\n \"seed\": %llu,\n \"minimised\": %s,\n", jstr(q.profile).c_str(), flavour, (unsigned long long)q.seed, minimal ? "true" : "false");
	fprintf(f, " \"tag\": %s,\n \"violation\": %s,\n", jstr(r.v[vi].tag).c_str(), jstr(r.v[vi].msg).c_str());
	fprintf(f, " \"trace_hash\": \"%016llx\",\n \"steps\": %llu,\n", (unsigned long long)r.trace_hash, (unsigned long long)r.steps);
	string cmd;
	for (char c : string(r.argvs)) { if (c == '\x1f') cmd += "  "; else cmd += c; }
	fprintf(f, " \"command\": %s,\n \"tree\": [", jstr(cmd).c_str());
	string t = r.desc;
	size_t i = 0; bool firstl = true;
	while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) j = t.size(); fprintf(f, "%s\n  %s", firstl ? "" : ",", jstr(t.substr(i, j - i)).c_str()); firstl = false; i = j + 1; }
	fprintf(f, "],\n \"faults_fired\": {");
	bool first = true;
	for (int k = 0; k < NFAULT; ++k) if (r.fired[k]) { fprintf(f, "%s\"%s\": %u", first ? "" : ", ", fault_names[k], r.fired[k]); first = false; }
	fprintf(f, "},\n");
	static const char *const sn[] = {"scenario", "schedule", "faults", "environment"};
	for (int s = 0; s < NST; ++s) {
		fprintf(f, " \"%s\": [", sn[s]);
		for (size_t k = 0; k < q.rec[s].size(); ++k) fprintf(f, "%s%u", k ? "," : "", q.rec[s][k]);
		fprintf(f, "]%s\n", s + 1 < NST ? "," : "");
	}
	fprintf(f, "}\n");
	fclose(f);
}
static bool load_replay(const string &path, Plan &q, string &tag, u64 &hash) {
	FILE *f = fopen(path.c_str(), "r");
	if (!f) { perror(path.c_str()); return false; }
	string s;
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
	fclose(f);
	auto str = [&](const char *k) -> string {
		string key = string("\"") + k + "\": \"";
		size_t i = s.find(key);
		if (i == string::npos) return "";
		i += key.size();
		return s.substr(i, s.find('"', i) - i);
	};
	q.profile = str("profile");
	tag = str("tag");
	hash = strtoull(str("trace_hash").c_str(), nullptr, 16);
	size_t i = s.find("\"seed\": ");
	if (i != string::npos) q.seed = strtoull(s.c_str() + i + 8, nullptr, 10);
	q.replay = true;
	static const char *const sn[] = {"scenario", "schedule", "faults", "environment"};
	for (int k = 0; k < NST; ++k) {
		string key = string("\n \"") + sn[k] + "\": [";
		size_t j = s.find(key);
		if (j == string::npos) return false;
		const char *p = s.c_str() + j + key.size();
		while (*p && *p != ']') { char *e; u32 v = strtoul(p, &e, 10); if (e == p) break; q.rec[k].push_back(v); p = e; if (*p == ',') ++p; }
	}
	return true;
}

// ---------------------------------------------------------------- minimisation
static bool still_fails(const Plan &q, const string &tag) {
	run_plan(q);
	for (int i = 0; i < sh->r.nviol; ++i) if (tag == sh->r.v[i].tag) return true;
	return false;
}
static Plan minimise(Plan q, const string &tag, double budget) {
	double end = now_s() + budget;
	int runs = 0;
	auto attempt = [&](const Plan &c) -> bool {
		if (now_s() > end) return false;
		++runs;
		if (!still_fails(c, tag)) return false;
		Plan n = recorded(c); // drop draws that were never consumed
		for (int i = 0; i < NST; ++i) if (n.rec[i].size() > c.rec[i].size()) n.rec[i] = c.rec[i];
		q = n;
		return true;
	};
	// whole streams first: no faults, default schedule
	for (int s : {ST_SCHED, ST_FAULT, ST_ENV}) {
		if (q.rec[s].empty()) continue;
		Plan c = q; c.rec[s].clear();
		if (attempt(c)) continue;
		// shortest failing prefix
		size_t lo = 0, hi = q.rec[s].size();
		while (lo + 1 < hi && now_s() < end) {
			size_t mid = (lo + hi) / 2;
			Plan d = q; if (mid < d.rec[s].size()) d.rec[s].resize(mid);
			if (attempt(d)) hi = std::min(mid, q.rec[s].size()); else lo = mid;
		}
	}
	bool progress = true;
	while (progress && now_s() < end) {
		progress = false;
		for (int s : {ST_SCEN, ST_SCHED, ST_FAULT, ST_ENV}) {
			for (size_t chunk = std::max<size_t>(1, q.rec[s].size() / 2); chunk >= 1; chunk /= 2) {
				for (size_t i = 0; i < q.rec[s].size() && now_s() < end;) {
					size_t n = std::min(chunk, q.rec[s].size() - i);
					bool allzero = true;
					for (size_t k = 0; k < n; ++k) if (q.rec[s][i + k]) allzero = false;
					if (s == ST_SCEN || chunk <= 4) {
						Plan c = q;
						c.rec[s].erase(c.rec[s].begin() + i, c.rec[s].begin() + i + n);
						if (attempt(c)) { progress = true; continue; }
					}
					if (!allzero) {
						Plan c = q;
						for (size_t k = 0; k < n; ++k) c.rec[s][i + k] = 0;
						if (attempt(c)) { progress = true; }
					}
					i += n;
				}
				if (chunk == 1) break;
			}
		}
	}
	return q;
}

#if SIM_HB
static const char *FLAVOUR = "hb";
#elif SIM_PLAIN
static const char *FLAVOUR = "plain";
#else
static const char *FLAVOUR = "asan";
#endif

// Confirm in a brand-new process that the replay file reproduces the violation
static bool fresh_replay(const string &file, const string &tag) {
	pid_t p = fork();
	if (p == 0) {
		int n = open("/dev/null", O_WRONLY);
		dup2(n, 1); dup2(n, 2);
		execl(exe_path.c_str(), exe_path.c_str(), "replay", file.c_str(), (char *)nullptr);
		_exit(9);
	}
	int st;
	while (waitpid(p, &st, 0) < 0) if (errno != EINTR) return false;
	return WIFEXITED(st) && WEXITSTATUS(st) == 1;
}

static const char *arg(int argc, char **argv, const char *name, const char *def) {
	for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
	return def;
}

static int do_search(int argc, char **argv) {
	vector<std::pair<string, int>> profs;
	{
		string p = arg(argc, argv, "--profiles", "walk");
		size_t i = 0;
		while (i <= p.size()) {
			size_t j = p.find(',', i);
			if (j == string::npos) j = p.size();
			string x = p.substr(i, j - i);
			size_t c = x.find(':');
			profs.push_back({x.substr(0, c), c == string::npos ? 1 : atoi(x.c_str() + c + 1)});
			i = j + 1;
		}
	}
	int wsum = 0;
	for (auto &p : profs) wsum += p.second;
	u64 base = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
	u64 worker = strtoull(arg(argc, argv, "--worker", "0"), nullptr, 10);
	u64 count = strtoull(arg(argc, argv, "--count", "1000000000"), nullptr, 10);
	u64 startat = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
	double tmax = atof(arg(argc, argv, "--time", "10")), shrink = atof(arg(argc, argv, "--shrink", "20"));
	string out = arg(argc, argv, "--out", "."), name = arg(argc, argv, "--name", "x");
	int maxviol = atoi(arg(argc, argv, "--maxviol", "1"));
	{
		string a = arg(argc, argv, "--accept", "");
		size_t i = 0;
		while (!a.empty() && i <= a.size()) { size_t j = a.find(',', i); if (j == string::npos) j = a.size(); accept.insert(a.substr(i, j - i)); i = j + 1; }
	}
	double t0 = now_s();
	u64 runs = 0, skipped = 0, nontriv = 0, steps_ = 0, sw = 0, visits = 0, nodes = 0, kids = 0, diags_ = 0, nondet = 0;
	double simt = 0, maxratio = 0; u64 maxseed = 0;
	std::set<u64> sched, traces;
	u64 fired[NFAULT] = {}, fruns[NFAULT] = {};
	std::map<string, u64> others, perprof, ends;
	std::map<string, string> other_ex;
	int found = 0;
	u64 dethash = 0;
	for (u64 i = startat; i < startat + count; ++i) {
		if (now_s() - t0 > tmax) break;
		Plan pl;
		pl.seed = mix2(mix2(base, worker), i);
		u64 pick = mix2(pl.seed, 77) % wsum;
		for (auto &p : profs) { if (pick < (u64)p.second) { pl.profile = p.first; break; } pick -= p.second; }
		run_plan(pl);
		Result &r = sh->r;
		if (r.skipped) { skipped++; continue; }
		runs++;
		perprof[pl.profile]++;
		static const char *const en[] = {"none", "exit", "signal", "abort", "deadlock", "livelock", "bug"};
		ends[en[r.kind]]++;
		sched.insert(r.sched_hash);
		if (r.work && (double)r.steps / r.work > maxratio) { maxratio = (double)r.steps / r.work; maxseed = pl.seed; }
		steps_ += r.steps; sw += r.switches; simt += r.simtime / 1e9;
		visits += r.cover.visits; nodes += r.cover.nodes; kids += r.cover.children; diags_ += r.cover.diags;
		bool anyf = false;
		for (int k = 0; k < NFAULT; ++k) { fired[k] += r.fired[k]; if (r.fired[k]) { fruns[k]++; anyf = true; } }
		if (anyf || r.switches >= 2) { nontriv++; traces.insert(r.trace_hash); }
		if (runs == 2 || runs == 20 || runs == 200) {
			string a;
			for (char c : string(r.argvs)) if (c == '\x1f') a += ' '; else a += c;
			printf("SAMPLE\t{\"profile\":%s,\"seed\":%llu,\"command\":%s,\"files\":%llu,\"visits\":%llu,\"children\":%llu,\"steps\":%llu,\"context_switches\":%llu,\"exit\":%d,\"trace_hash\":\"%016llx\",\"faults\":{", jstr(pl.profile).c_str(), (unsigned long long)pl.seed, jstr(a.substr(0, 400)).c_str(), (unsigned long long)r.cover.nodes, (unsigned long long)r.cover.visits, (unsigned long long)r.cover.children, (unsigned long long)r.steps, (unsigned long long)r.switches, r.code, (unsigned long long)r.trace_hash);
			bool f0 = true;
			for (int k = 0; k < NFAULT; ++k) if (r.fired[k]) { printf("%s\"%s\":%u", f0 ? "" : ",", fault_names[k], r.fired[k]); f0 = false; }
			printf("}}\n");
		}
		int vi = accepted();
		if (r.nviol && vi < 0) {
			others[r.v[0].tag]++;
			if (!other_ex.count(r.v[0].tag)) { char b[64]; snprintf(b, sizeof b, " [%s seed %llu]", pl.profile.c_str(), (unsigned long long)pl.seed); other_ex[r.v[0].tag] = r.v[0].msg + string(b); }
		}
		bool audit = vi >= 0 || (runs % 199 == 3);
		if (!audit) continue;
		// Every violation (and a sample of clean runs) is run again from its recorded draws
		string tag = vi >= 0 ? r.v[vi].tag : "";
		string msg = vi >= 0 ? r.v[vi].msg : "";
		u64 h1 = r.trace_hash;
		bool ovf = sh->m.overflow;
		Plan q = recorded(pl);
		run_plan(q);
		if (vi < 0) { if (sh->r.trace_hash != h1 && !ovf) { nondet++; fprintf(stderr, "NONDETERMINISM seed %llu profile %s: %016llx vs %016llx\n", (unsigned long long)pl.seed, pl.profile.c_str(), (unsigned long long)h1, (unsigned long long)sh->r.trace_hash); } continue; }
		int v2 = -1;
		for (int k = 0; k < sh->r.nviol; ++k) if (tag == sh->r.v[k].tag) v2 = k;
		if (v2 < 0 || (sh->r.trace_hash != h1)) {
			nondet++;
			fprintf(stderr, "NONDETERMINISM seed %llu profile %s: violation %s: %s not reproduced\n", (unsigned long long)pl.seed, pl.profile.c_str(), tag.c_str(), msg.c_str());
			continue;
		}
		char fn[600];
		snprintf(fn, sizeof fn, "%s/%s-%llu-%llu.json", out.c_str(), name.c_str(), (unsigned long long)worker, (unsigned long long)i);
		save_replay(fn, q, v2, FLAVOUR, false);
		if (!fresh_replay(fn, tag)) { nondet++; fprintf(stderr, "NONDETERMINISM: fresh process does not reproduce %s\n", fn); continue; }
		if (shrink > 0) {
			Plan m = minimise(q, tag, shrink);
			if (still_fails(m, tag)) {
				for (int k = 0; k < sh->r.nviol; ++k) if (tag == sh->r.v[k].tag) v2 = k;
				string fm = string(fn) + ".tmp";
				save_replay(fm, m, v2, FLAVOUR, true);
				if (fresh_replay(fm, tag)) rename(fm.c_str(), fn);
				else unlink(fm.c_str());
				msg = sh->r.v[v2].msg;
			}
		}
		printf("FOUND\t%s\t%s\t%s\n", tag.c_str(), fn, jstr(msg).c_str());
		fflush(stdout);
		if (++found >= maxviol) break;
	}
	(void)dethash;
	string hs = arg(argc, argv, "--hashes", "");
	if (!hs.empty()) {
		FILE *f = fopen(hs.c_str(), "wb");
		if (f) {
			u64 n = sched.size();
			fwrite(&n, 8, 1, f);
			for (u64 x : sched) fwrite(&x, 8, 1, f);
			n = traces.size();
			fwrite(&n, 8, 1, f);
			for (u64 x : traces) fwrite(&x, 8, 1, f);
			fclose(f);
		}
	}
	printf("STATS\t{\"runs\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_s\":%.3f,\"visits\":%llu,\"nodes\":%llu,\"children\":%llu,\"diags\":%llu,\"nondet\":%llu,\"wall\":%.2f,\"found\":%d",
		(unsigned long long)runs, (unsigned long long)skipped, (unsigned long long)nontriv, (unsigned long long)steps_, (unsigned long long)sw, simt,
		(unsigned long long)visits, (unsigned long long)nodes, (unsigned long long)kids, (unsigned long long)diags_, (unsigned long long)nondet, now_s() - t0, found);
	auto mp = [](const char *n, const std::map<string, u64> &m) {
		printf(",\"%s\":{", n);
		bool f = true;
		for (auto &x : m) { printf("%s%s:%llu", f ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); f = false; }
		printf("}");
	};
	printf(",\"maxratio\":%.0f,\"maxseed\":%llu", maxratio, (unsigned long long)maxseed);
	mp("profiles", perprof); mp("ends", ends); mp("other_tags", others);
	printf(",\"other_examples\":{");
	bool f = true;
	for (auto &x : other_ex) { printf("%s%s:%s", f ? "" : ",", jstr(x.first).c_str(), jstr(x.second).c_str()); f = false; }
	printf("},\"faults\":{");
	f = true;
	for (int k = 0; k < NFAULT; ++k) if (fired[k]) { printf("%s\"%s\":[%llu,%llu]", f ? "" : ",", fault_names[k], (unsigned long long)fired[k], (unsigned long long)fruns[k]); f = false; }
	printf("}}\n");
	return found ? 1 : 0;
}

int main(int argc, char **argv) {
	setenv("TZ", "UTC", 1);
	program_invocation_short_name = (char *)"bfs";
	program_invocation_name = (char *)"bfs";
	if (argc < 2) { fprintf(stderr, "usage: sim search|run|replay ...\n"); return 3; }
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	{
		char b[4096];
		ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
		exe_path = n > 0 ? string(b, n) : argv[0];
	}
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	errfd = memfd_create("simerr", MFD_CLOEXEC);
	struct sigaction sa = {};
	sa.sa_handler = [](int) {};
	sigaction(SIGALRM, &sa, nullptr); // no SA_RESTART: interrupts waitpid()
	string cmd = argv[1];
	if (cmd == "search") return do_search(argc, argv);
	for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], "-v")) verbose = true;
	if (cmd == "run") {
		Plan pl;
		pl.profile = arg(argc, argv, "--profile", "walk");
		pl.seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
		run_plan(pl);
		Result &r = sh->r;
		string a;
		for (char c : string(r.argvs)) if (c == '\x1f') a += "  "; else a += c;
		printf("%s\n%s\nend=%d code=%d %s steps=%llu switches=%llu hash=%016llx skipped=%d\n", a.c_str(), r.desc, r.kind, r.code, r.why, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.trace_hash, r.skipped);
		for (int i = 0; i < r.nviol; ++i) printf("VIOL %s: %s\n", r.v[i].tag, r.v[i].msg);
		return r.nviol ? 1 : 0;
	}
	if (cmd == "replay") {
		if (argc < 3) return 3;
		Plan pl;
		string tag;
		u64 hash;
		if (!load_replay(argv[2], pl, tag, hash)) return 3;
		run_plan(pl);
		Result &r = sh->r;
		bool ok = false;
		for (int i = 0; i < r.nviol; ++i) { printf("VIOL %s: %s\n", r.v[i].tag, r.v[i].msg); if (tag == r.v[i].tag) ok = true; }
		bool same = r.trace_hash == hash;
		printf("tag %s %s; trace hash %016llx %s\n", tag.c_str(), ok ? "reproduced" : "NOT reproduced", (unsigned long long)r.trace_hash, same ? "identical" : "DIFFERENT");
		return ok && same ? 1 : ok ? 2 : 0;
	}
	return 3;
}
