// Deterministic simulator core: draw streams, fibers, scheduler, clock,
// synchronisation objects, signals, faults, history.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <csignal>
#include <cerrno>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using std::string;
using std::vector;

namespace sim {

// ---------------------------------------------------------------- streams
// Every nondeterministic decision is a draw from one of these streams.
// 0 is always the simplest outcome (no fault, no preemption, smallest case),
// so zeroing or truncating a recorded stream simplifies the run.
enum { ST_SCEN, ST_SCHED, ST_FAULT, ST_ENV, NST };

struct Stream {
	u64 s = 0;
	bool replay = false;
	size_t pos = 0;
	vector<u32> rec;
	u32 next(u32 n);
};
extern Stream streams[NST];

// Shared with the driver, so that the draws of a run that crashes survive it
struct Mirror {
	static const size_t CAP = 1 << 21;
	bool overflow;
	volatile u64 steps;
	u64 nrec[NST];
	u32 rec[NST][CAP];
};
extern Mirror *mirror;

inline u32 draw(int st, u32 n) { return n <= 1 ? 0 : streams[st].next(n); }
// true with probability num/den
inline bool chance(int st, u32 num, u32 den) { return draw(st, den) >= den - num; }
inline int range(int st, int lo, int hi) { return lo + (int)draw(st, hi - lo + 1); }

u64 splitmix(u64 &x);
u64 mix2(u64 a, u64 b);

// ---------------------------------------------------------------- faults
enum Fault {
	F_CAS_SPURIOUS, F_COND_SPURIOUS, F_SEM_EINTR, F_SEM_UNSUPPORTED, F_STALL, F_THREAD_EAGAIN,
	F_ALLOC,
	F_OPEN_EMFILE, F_OPEN_ENOMEM, F_OPEN_EIO, F_STAT_EIO, F_STAT_ENOMEM, F_GETDENTS_EIO, F_GETDENTS_SHORT,
	F_READLINK_EIO, F_CLOSE_EIO, F_UNLINK_FAIL, F_ACCESS_FAIL,
	F_URING_INIT, F_URING_SHORT_SUBMIT, F_URING_SUBMIT_ERR, F_URING_WAIT_EINTR, F_URING_DELAY, F_CQE_ERR,
	F_URING_ENABLE,
	F_WRITE_SHORT, F_WRITE_EIO, F_WRITE_EINTR, F_READ_SHORT, F_READ_EINTR, F_READ_EIO,
	F_PIPE_FAIL, F_FORK_FAIL, F_SPAWN_FAIL, F_EXEC_FAIL, F_EXEC_E2BIG, F_WAITPID_EINTR, F_CHILD_KILLED,
	F_FCHDIR_FAIL, F_DUP_FAIL, F_SIGACTION_FAIL,
	F_PW_ERR, F_MTAB_FAIL, F_RLIMIT_FAIL, F_TIMER_FAIL, F_CLOCK_JUMP, F_SIGNAL, F_MUTATE, F_TTY_FAIL,
	F_XATTR_FAIL, F_WINSIZE_FAIL,
	NFAULT
};
extern const char *fault_names[NFAULT];
struct FaultState {
	u32 rate = 0;       // mean opportunities between faults; 0 = off
	u32 maxfire = 0;    // 0 = unlimited
	int64_t left = -1;  // opportunities left before firing; -1 = undecided; -2 = never
	u32 fired = 0;
	u64 seen = 0;
};
extern FaultState faults[NFAULT];
void set_fault(int f, u32 rate, u32 maxfire = 0);
bool fault(int f);      // one opportunity; true if the fault fires now
void faults_off();

// ---------------------------------------------------------------- run results
enum EndKind { END_NONE, END_EXIT, END_SIGNAL, END_ABORT, END_DEADLOCK, END_LIVELOCK, END_BUG };
struct End { EndKind kind = END_NONE; int code = 0; string why; };
extern End run_end;

// A violated invariant noticed while the run proceeds
struct Viol { string tag, msg; };
extern vector<Viol> viols;
void violation(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- fibers
struct Fiber;
struct WaitObj { vector<Fiber *> q; };

struct Fiber {
	int id = 0;
	string name;
	void *sp = nullptr;
	char *stack = nullptr;
	size_t stack_size = 0;
	void *fake = nullptr;      // ASan fake stack
	void *tsan = nullptr;
	int saved_errno = 0;
	enum { RUN, BLOCK, DONE } state = RUN;
	const char *why = "";
	u64 wake_at = 0;           // sleeping until this simulated time (0: not sleeping)
	u64 stalled_until = 0;     // step count
	u32 prio = 0;
	bool actor = false;        // a simulator actor, not a thread of bfs
	std::function<void()> fn;
	void *ret = nullptr;
	WaitObj joiners;
	// signals
	u64 sigmask = 0;           // bit sig-1
	vector<siginfo_t> pending;
	int handler_depth = 0;
	bool woken_by_signal = false;
};

extern vector<Fiber *> fibers;
extern Fiber *cur;
extern Fiber *main_fiber;
extern u64 steps, switches;
extern u64 now_mono;           // ns
extern int64_t realtime_off;   // ns
extern u64 max_steps;
extern u64 trace_hash, sched_hash;

enum Policy { POL_RANDOM, POL_PCT, POL_RR };
struct SchedCfg { Policy pol = POL_RANDOM; u32 mean_q = 10; u32 pct_points = 3; };
extern SchedCfg schedcfg;

Fiber *spawn_fiber(const string &name, std::function<void()> fn, size_t stack = 256 << 10);
void yield_point(int kind);         // may switch fibers, may run signal handlers
void force_switch();
void block_on(WaitObj *w, const char *why);  // until woken (or a handler ran: woken_by_signal)
void wake_all(WaitObj *w);
Fiber *wake_one(WaitObj *w);        // draws which waiter
void sleep_until(u64 t);
[[noreturn]] void end_run(EndKind k, int code, const string &why);
void run_sim(std::function<void()> main_body);  // returns when the run has ended
void hash_event(u64 a, u64 b = 0);
bool in_fiber();
void no_handler(const char *what); // not async-signal-safe

// events scheduled at a simulated time
void at_time(u64 t, std::function<void()> fn);
bool fair_phase();

// ---------------------------------------------------------------- signals
struct SigAct { void *handler = nullptr; u64 mask = 0; int flags = 0; bool siginfo = false; };
extern SigAct sigacts[65];
void post_signal(int sig, int code = SI_USER, Fiber *target = nullptr);
void deliver_pending();
bool signal_pending(int sig);
extern std::function<void(int)> on_deliver;
extern std::function<void()> on_epipe, on_write;
extern int write_countdown;
bool sig_default_ignored(int sig);

// ---------------------------------------------------------------- process model
void record_abort(const string &msg);

extern bool verbose;
void vlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
