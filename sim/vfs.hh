// In-memory file system, descriptor table, processes.
#pragma once
#include "core.hh"
#include <sys/stat.h>
#include <sys/resource.h>

namespace sim {

struct Inode;
struct Dirent { string name; Inode *ino; u64 cookie; };

struct Inode {
	u64 ino = 0;
	u32 dev = 0;            // index into devs
	u64 mnt = 0;
	mode_t mode = 0;
	uid_t uid = 1000;
	gid_t gid = 1000;
	u32 nlink = 1;
	u64 size = 0, blocks = 0;
	struct timespec tm[4] = {}; // a, b, c, m
	u32 rdev = 0;
	string target;          // symlink
	string data;            // regular file contents (outputs, -files0-from)
	vector<Dirent> ents;
	Inode *parent = nullptr;
	u64 next_cookie = 3;
	bool under_ino_differs = false; // mount point: d_ino is the covered inode
	// standing faults: properties of the file, not of a moment
	int open_err = 0, stat_err = 0, readlink_err = 0, unlink_err = 0, access_err = 0;
	int read_err = 0; int read_err_after = 0;
	bool nosearch = false;  // lookups below fail with EACCES
	bool dtype_unknown = false;
	bool nobtime = false;   // the file system does not record when it was created
	bool has_acl = false, def_acl = false, acl_unsup = false, has_cap = false, cap_empty = false;
	vector<string> xattrs;
	// bookkeeping for the oracles
	u64 n_stat = 0, n_open = 0;
	bool volatile_ = false; // may be touched by a concurrent actor
	bool deleted = false;
	int n_unlinked = 0;
	bool is_dir() const { return S_ISDIR(mode); }
	bool is_lnk() const { return S_ISLNK(mode); }
	bool is_reg() const { return S_ISREG(mode); }
	Inode *child(const string &n) const { for (auto &e : ents) if (e.name == n) return e.ino; return nullptr; }
};

struct Pipe { string buf; int writers = 0, readers = 0; WaitObj w; int id = 0; };

struct File {
	enum Kind { DIR, REG, PIPE_R, PIPE_W, TTY, PATHFD, RING, NUL, PROCFD } kind = REG;
	int id = 0;
	Inode *ino = nullptr;
	int flags = 0;
	u64 pos = 0;           // dir: cookie; reg: offset
	int nread = 0;         // dir entries returned so far
	std::shared_ptr<Pipe> pipe;
	int write_err = 0;     // standing error for writes
	int64_t write_room = -1; // bytes until the device is full; -1 = unlimited
	vector<int> procfds;
	~File();
};
struct Fd { std::shared_ptr<File> f; bool cloexec = false; };

struct Proc {
	std::map<int, Fd> fds;
	Inode *cwd = nullptr;
	rlim_t nofile_cur = 1024, nofile_max = 1024;
	mode_t umask_ = 022;
	int pid = 1000;
};
extern Proc proc;
extern Inode *root_ino;
extern vector<Inode *> all_inodes;
struct Mount { string path; string type; u32 dev; };
extern vector<Mount> mounts;

struct ChildRec {
	int pid = 0;
	bool via_fork = false;
	string exe;
	vector<string> argv;
	Inode *cwd = nullptr;
	std::map<int, int> fds;         // fd -> open file description id
	u64 sigmask = 0;
	vector<int> ignored, handled;   // dispositions at exec
	rlim_t nofile_cur = 0, nofile_max = 0;
	int exec_err = 0;               // errno if the program never started
	int status = 0;                 // wait status
	bool exited = false, reaped = false, started = false;
	u64 step = 0;
	size_t stdout_mark = 0;
	string stdout_at_start;
	int handlers_run = 0;           // bfs handlers run in the child before exec
	int orig_sig_mismatch = 0;
};
extern vector<ChildRec *> children;
extern vector<std::pair<Inode *, bool>> xfails; // failed lookups of extended attributes (true: of an ACL)
struct UnlinkRec { Inode *dir, *ino; string name, path; bool rmdir; int err; };
extern vector<UnlinkRec> unlinks; // every unlinkat() call

// One system call as seen by the oracles
struct Hist { u64 step; int fiber; const char *op; int err; Inode *ino; string s; };
extern vector<Hist> hist;
void log_op(const char *op, int err, Inode *ino, const string &s = "");

Inode *new_inode(mode_t mode, u32 dev);
void move_to_dev(Inode *i, u32 dev);
void link_child(Inode *dir, const string &name, Inode *child);
bool unlink_child(Inode *dir, const string &name);

// Resolve a path; returns 0 or an errno
int resolve(Inode *start, const string &path, bool follow, Inode **out, Inode **parent = nullptr, string *last = nullptr, int depth = 0);

struct EnvCfg {
	vector<string> env;
	long arg_max = 131072;        // sysconf(_SC_ARG_MAX)
	long real_arg_max = 1 << 30;  // what execve() really enforces
	int ncpu = 4;
	bool have_uring = true;
	u32 uring_ops = 7;            // 1 openat, 2 close, 4 statx
	u32 uring_setup_flags = 7;    // 1 SUBMIT_ALL 2 R_DISABLED 4 SINGLE_ISSUER/DEFER_TASKRUN
	bool have_statx = true;
	bool have_proc = true;
	bool mntid = true;
	bool tty_out = false, tty_err = false, tty_in = false;
	bool have_cterm = false;
	int winrows = 24, wincols = 80;
	u64 timer_div = 1;            // timers run this much faster
	string stdin_data;
	size_t stdio_buf = 1024;
	size_t ioq_depth = 0;         // 0: as bfs asks
	u32 dir_chunk = 0;            // max entries per getdents (0: as many as fit)
	u64 child_delay_max = 100000; // ns
	vector<string> execdirs;
};
extern EnvCfg envcfg;

// Well-known open file descriptions
extern int closed_writes;
extern std::shared_ptr<File> f_stdin, f_stdout, f_stderr, f_tty;
extern Inode *ino_stdout, *ino_stderr, *ino_tty, *ino_null, *ino_stdin;
void init_process();            // fds 0-2, cwd, devices
string &tty_data();

extern bool in_forked_child;
extern int handlers_in_child;
string errstr(int e);
} // namespace sim
