// Scenario, reference model and oracles.
#pragma once
#include "vfs.hh"
#include "users.hh"

namespace sim {

struct Node {
	string path, root;
	size_t nameoff = 0;
	int depth = 0, rootidx = 0;
	Inode *l = nullptr;      // lstat()
	Inode *sb = nullptr;     // what bfs_stat() with this file's flags sees
	int ferr = 0;            // error of following
	char type = '?';         // type letter as bfs sees it
	int err = 0;             // the file itself cannot be visited: this error is reported
	bool loop = false;
	int direrr = 0;          // reading the directory fails with this error
	int maydiag = 0;         // evaluating the expression may report an error here
	bool skip = false;       // -mount
	bool nodesc = false;     // -xdev, or not a directory, or maxdepth
	Node *parent = nullptr;
	vector<Node *> kids;
	string name() const { return path.substr(nameoff); }
	// oracle bookkeeping
	int visits = 0;
	bool pruned = false;
};

struct ExecCall { int ex; vector<string> argv; Inode *cwd; Node *node; };
struct Ex;
struct EvCtx {
	string out;                         // what this evaluation appends to stdout
	std::map<string, string> files;
	vector<ExecCall> execs;             // started by this evaluation (;)
	vector<std::pair<int, Node *>> multi; // handed to a + action
	vector<Node *> deletes;
	bool prune = false, quit = false;
	int exitcode = -1;
	string need_diag;                   // an error must be reported for this file
	vector<string> prompts;
};
struct Ex {
	string op;                           // "leaf" "!" "and" "or" ","
	vector<string> args;
	vector<std::shared_ptr<Ex>> kids;
	std::function<bool(Node *, EvCtx &)> fn;
	bool action = false, stats = false;
};
using ExP = std::shared_ptr<Ex>;
bool ex_eval(const ExP &e, Node *n, EvCtx &c);
void ex_render(const ExP &e, vector<string> &out);

struct ExecSpec {
	int id; bool dir, multi, ok; vector<string> tmpl; // argv template, {} last for +
};

enum { ST_BFS, ST_DFS, ST_IDS, ST_EDS };
struct Scenario {
	string profile;
	vector<string> argv;
	int strategy = ST_BFS;
	int follow = 0;            // 0 -P, 1 -H, 2 -L
	bool sort = false, post = false, unique = false, xdev = false, mount = false;
	int mindepth = 0, maxdepth = 1 << 28;
	int threads = 1;
	vector<string> roots;
	bool roots_from_file = false, files0_stdin = false;
	ExP expr;                  // after the V action
	ExP exclude;               // -exclude
	bool useV = true;
	bool exact = true;         // no transient error can occur
	bool reported = true;      // errors are reported (no -noerror)
	bool ignore_races = false;
	bool mutate = false, del = false, xargs = false, daystart = false;
	string del_bad;            // how -delete differs from the model
	std::set<std::pair<Inode *, string>> gone;
	struct Mutation { u64 dt; std::function<void()> fn; };
	vector<Mutation> mutations;
	bool badwrite = false;     // output may be truncated by write errors
	bool execfaults = false;   // starting a command may fail
	bool nofail = true;        // no fault that lets bfs stop early
	bool fatal_signals = false;
	bool status = false;
	struct SigPlan { u64 dt; int sig; int rows, cols; };
	vector<SigPlan> sigplan;
	struct Posted { int sig; u64 step; bool fatal; };
	vector<Posted> posted;     // signals actually sent
	size_t fatal_at = 0;       // terminal output when the first fatal signal was handled, + 1
	bool tty = false;          // standard output is the terminal
	vector<ExecSpec> execs;
	vector<string> outfiles;
	vector<Node *> rootnodes;
	vector<Node *> nodes;
	bool huge = false;
	int answers_used = 0;
	string answers;
	vector<int> ignored_at_start;
	bool badwd = false;        // the roots' parent directory cannot be opened
	bool color = false, ofast = false, noexe = false;
	string debug, want_exe = "/bin/rec";
	vector<int> closed_std;    // standard streams closed when bfs is started
	bool std_closed(int fd) const { for (int x : closed_std) if (x == fd) return true; return false; }
	int64_t now_s = 0;         // filled in when the clock is first read
	bool has_quit = false, has_prune = false;
	string limit_note;
	u64 initial_mask = 0;
	vector<int> inherited_fds;
	rlim_t nofile_cur = 0, nofile_max = 0;
	u32 env_bytes = 0;
	bool twin = false;
	u64 work = 0;              // file visits the search needs
	bool dup_ok = false, dup = false; // the same root is given twice
};
extern Scenario sc;

size_t unlinks_matched();
bool build_scenario(const string &profile);
void check_run();            // after the run; adds to viols
void start_actors();

// stats for the evidence
struct Cover {
	u64 visits = 0, nodes = 0, children = 0, diags = 0;
};
extern Cover cover;
extern const char *prof_desc(const string &);
extern int64_t first_realtime;   // ns, first CLOCK_REALTIME reading
bool api_profile(const string &p); // extra.cc: handles the profile itself
void run_api(const string &p);
void finish_api(const string &p);
extern string twin_out;
} // namespace sim
