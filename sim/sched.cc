#include "core.hh"
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>

#if SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom_old, size_t *size_old);
}
#endif
#if SIM_HB
namespace sim { void hb_acquire(const void *); void hb_release(const void *); }
#define TS_ACQ(a) sim::hb_acquire((const void *)(a))
#define TS_REL(a) sim::hb_release((const void *)(a))
#else
#define TS_ACQ(a) ((void)0)
#define TS_REL(a) ((void)0)
#endif

namespace sim {

Stream streams[NST];
FaultState faults[NFAULT];
End run_end;
vector<Viol> viols;
vector<Fiber *> fibers;
Fiber *cur;
Fiber *main_fiber;
u64 steps, switches, now_mono, max_steps = 3000000;
int64_t realtime_off;
u64 trace_hash = 0xcbf29ce484222325ull, sched_hash = 0xcbf29ce484222325ull;
SchedCfg schedcfg;
SigAct sigacts[65];
bool verbose;

const char *fault_names[NFAULT] = {
	"cas_spurious", "cond_spurious_wakeup", "sem_eintr", "sem_unsupported", "thread_stall", "thread_create_eagain",
	"alloc_failure",
	"open_emfile", "open_enomem", "open_eio", "stat_eio", "stat_enomem", "getdents_eio", "getdents_short",
	"readlink_eio", "close_eio", "unlink_fail", "access_fail",
	"uring_init_fail", "uring_short_submit", "uring_submit_error", "uring_wait_eintr", "uring_delayed_completion", "uring_cqe_error",
	"uring_enable_fail",
	"write_short", "write_error", "write_eintr", "read_short", "read_eintr", "read_error",
	"pipe_fail", "fork_fail", "spawn_fail", "exec_fail", "exec_e2big", "waitpid_eintr", "child_killed",
	"fchdir_fail", "dup_fail", "sigaction_fail",
	"passwd_lookup_error", "mtab_fail", "rlimit_fail", "timer_fail", "clock_jump", "signal", "fs_mutation", "tty_fail",
	"xattr_fail", "winsize_fail",
};

u64 splitmix(u64 &x) {
	u64 z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
u64 mix2(u64 a, u64 b) {
	u64 x = a * 0x9e3779b97f4a7c15ull ^ b;
	splitmix(x);
	return splitmix(x);
}

Mirror *mirror;
u32 Stream::next(u32 n) {
	u32 v;
	if (replay) {
		v = pos < rec.size() ? rec[pos] % n : 0;
	} else {
		v = (u32)(((splitmix(s) >> 32) * (u64)n) >> 32);
		rec.push_back(v);
	}
	if (mirror) {
		int st = this - streams;
		if (pos < Mirror::CAP) { mirror->rec[st][pos] = v; mirror->nrec[st] = pos + 1; }
		else mirror->overflow = true;
	}
	++pos;
	return v;
}

void set_fault(int f, u32 rate, u32 maxfire) {
	faults[f].rate = rate;
	faults[f].maxfire = maxfire;
	faults[f].left = -1;
}
bool fault(int f) {
	FaultState &s = faults[f];
	if (!s.rate) return false;
	s.seen++;
	if (s.left == -2) return false;
	if (s.maxfire && s.fired >= s.maxfire) return false;
	if (s.left == -1) {
		// rate 1: always
		// The draw is the gap to the next firing; 0 (the simplest) = never again
		u32 v = s.rate == 1 ? 1 : draw(ST_FAULT, 2 * s.rate);
		if (v == 0) { s.left = -2; return false; }
		s.left = v - 1;
	}
	if (s.left == 0) {
		s.left = -1;
		s.fired++;
		hash_event(0xFA, f);
		if (verbose) vlog("FAULT %s", fault_names[f]);
		return true;
	}
	s.left--;
	return false;
}
void faults_off() { for (auto &f : faults) f.rate = 0; }

void vlog(const char *fmt, ...) {
	if (!verbose) return;
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "[%llu f%d t=%.6f] ", (unsigned long long)steps, cur ? cur->id : -1, now_mono / 1e9);
	vfprintf(stderr, fmt, ap);
	fputc('\n', stderr);
	va_end(ap);
}

void violation(const char *tag, const char *fmt, ...) {
	char buf[1500];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (viols.size() < 50) viols.push_back({tag, buf});
	vlog("VIOL %s: %s", tag, buf);
}

void hash_event(u64 a, u64 b) {
	u64 h = trace_hash;
	h ^= a + 0x9e3779b97f4a7c15ull + (b << 17);
	h *= 0x100000001b3ull;
	h ^= h >> 29;
	h ^= b;
	h *= 0x100000001b3ull;
	trace_hash = h;
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_swap(void **save, void *to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_swap,.-sim_swap
)");

static Fiber host;  // the driver's own context
static const void *host_bottom;
static size_t host_size;

static void raw_switch(Fiber *from, Fiber *to, bool dying) {
	from->saved_errno = errno;
#if SIM_ASAN
	__sanitizer_start_switch_fiber(dying ? nullptr : &from->fake,
		to == &host ? host_bottom : to->stack, to == &host ? host_size : to->stack_size);
#endif
	cur = to == &host ? nullptr : to;
	sim_swap(&from->sp, to->sp);
#if SIM_ASAN
	__sanitizer_finish_switch_fiber(from->fake, nullptr, nullptr);
#endif
	errno = from->saved_errno;
	(void)dying;
}

static void fiber_entry() {
	Fiber *f = cur;
#if SIM_ASAN
	const void *b; size_t s;
	__sanitizer_finish_switch_fiber(nullptr, &b, &s);
	if (!host_bottom) { host_bottom = b; host_size = s; }
#endif
	errno = 0;
	f->fn();
	f->state = Fiber::DONE;
	TS_REL(f);
	// the kernel hands signals sent to the process on to another thread
	for (auto &si : f->pending) if (f != main_fiber) post_signal(si.si_signo, si.si_code);
	f->pending.clear();
	wake_all(&f->joiners);
	force_switch();
	abort();
}

Fiber *spawn_fiber(const string &name, std::function<void()> fn, size_t stack) {
	Fiber *f = new Fiber;
	f->id = fibers.size();
	f->name = name;
	f->fn = std::move(fn);
	f->stack_size = stack;
	char *m = (char *)mmap(nullptr, stack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); _Exit(3); }
	mprotect(m, 4096, PROT_NONE);
	f->stack = m + 4096;
	u64 *sp = (u64 *)(f->stack + stack);
	sp -= 2;              // alignment
	*--sp = 0;
	*--sp = (u64)fiber_entry;
	for (int i = 0; i < 6; ++i) *--sp = 0;
	f->sp = sp;
	if (cur) f->sigmask = cur->sigmask;
	f->prio = 1000 + draw(ST_SCHED, 1000);
	fibers.push_back(f);
	return f;
}

extern bool in_forked_child;
extern int handlers_in_child;
[[noreturn]] void child_end(EndKind k, int code);
bool in_fiber() { return cur != nullptr; }

[[noreturn]] void end_run(EndKind k, int code, const string &why) {
	if (run_end.kind == END_NONE) run_end = {k, code, why};
	if (in_forked_child) child_end(k, code);
	if (!cur) { fprintf(stderr, "end_run outside fiber: %s\n", why.c_str()); _Exit(3); }
	vlog("END kind=%d code=%d %s", k, code, why.c_str());
	raw_switch(cur, &host, false);
	abort();
}

// ---------------------------------------------------------------- timed events
struct Ev { u64 t; u64 seq; std::function<void()> fn; };
static vector<Ev> timed;
static u64 ev_seq;
void at_time(u64 t, std::function<void()> fn) { timed.push_back({t, ev_seq++, std::move(fn)}); }
static bool run_due_events() {
	bool any = false;
	int e = errno;
	for (;;) {
		size_t best = timed.size();
		for (size_t i = 0; i < timed.size(); ++i)
			if (timed[i].t <= now_mono && (best == timed.size() || timed[i].t < timed[best].t || (timed[i].t == timed[best].t && timed[i].seq < timed[best].seq))) best = i;
		if (best == timed.size()) { errno = e; return any; }
		auto fn = std::move(timed[best].fn);
		timed.erase(timed.begin() + best);
		fn();
		any = true;
	}
}

// ---------------------------------------------------------------- scheduler
static int64_t quantum;      // yields left before a preemption; <0: unlimited
static u64 since_switch;
static u64 rr_next;
bool fair_phase() { return steps > max_steps; }

u64 fair_steps = 2000000;

static int64_t draw_quantum() {
	if (fair_phase()) return 64;
	switch (schedcfg.pol) {
	case POL_RR: return 64;
	case POL_PCT: return -1;
	case POL_RANDOM: {
		if (schedcfg.mean_q >= 1000000) return -1;
		u32 v = draw(ST_SCHED, 2 * schedcfg.mean_q + 1);
		return v == 0 ? -1 : (int64_t)v - 1;
	}
	}
	return -1;
}
static bool can_run(Fiber *f) { return f->state == Fiber::RUN && f->stalled_until <= steps; }

static u64 next_pct_change = 0;
static u32 pct_low = 999;

static Fiber *pick() {
	for (;;) {
		run_due_events();
		static vector<Fiber *> c;
		c.clear();
		if (cur && can_run(cur)) c.push_back(cur);
		for (Fiber *f : fibers) if (f != cur && can_run(f)) c.push_back(f);
		if (!c.empty()) {
			if (c.size() == 1) return c[0];
			if (fair_phase() || schedcfg.pol == POL_RR) {
				// strict round robin
				Fiber *best = nullptr;
				for (Fiber *f : c) {
					if ((u64)f->id >= rr_next && (!best || f->id < best->id)) best = f;
				}
				if (!best) for (Fiber *f : c) if (!best || f->id < best->id) best = f;
				rr_next = best->id + 1;
				return best;
			}
			if (schedcfg.pol == POL_PCT) {
				Fiber *best = c[0];
				for (Fiber *f : c) if (f->prio > best->prio) best = f;
				return best;
			}
			return c[draw(ST_SCHED, c.size())];
		}
		// Nothing runnable: unstall, wake sleepers, or advance time to the next event
		bool again = false;
		for (Fiber *f : fibers) if (f->state == Fiber::RUN && f->stalled_until > steps) { f->stalled_until = 0; again = true; }
		if (again) continue;
		u64 t = UINT64_MAX;
		for (Fiber *f : fibers) if (f->state == Fiber::BLOCK && f->wake_at) t = std::min(t, f->wake_at);
		for (auto &e : timed) t = std::min(t, e.t);
		if (t == UINT64_MAX) return nullptr;
		if (t > now_mono) now_mono = t;
		for (Fiber *f : fibers)
			if (f->state == Fiber::BLOCK && f->wake_at && f->wake_at <= now_mono) { f->wake_at = 0; f->state = Fiber::RUN; }
	}
}

static string fiber_dump() {
	string s;
	for (Fiber *f : fibers) {
		if (f->state == Fiber::DONE) continue;
		s += f->name + (f->state == Fiber::RUN ? "[runnable] " : string("[") + f->why + "] ");
	}
	return s;
}

static void switch_away() {
	Fiber *from = cur;
	Fiber *to = pick();
	if (!to) {
		end_run(END_DEADLOCK, 0, "deadlock: " + fiber_dump());
	}
	since_switch = 0;
	quantum = draw_quantum();
	if (to == from) return;
	switches++;
	sched_hash = (sched_hash ^ (to->id * 1315423911ull + steps)) * 0x100000001b3ull;
	hash_event(0x51, to->id);
	raw_switch(from, to, from->state == Fiber::DONE);
}

static void tick() {
	++steps;
	if (mirror) mirror->steps = steps;
	now_mono += 1000;
	if (__builtin_expect(steps > max_steps + fair_steps, 0))
		end_run(END_LIVELOCK, 0, "no termination within the step budget (incl. fair phase): " + fiber_dump());
}

void force_switch() {
	tick();
	if (schedcfg.pol == POL_PCT && cur->state == Fiber::RUN && !fair_phase()) {
		// A spinning thread must not starve the one it waits for
		cur->prio = pct_low > 1 ? --pct_low : 1;
	}
	if (!timed.empty()) run_due_events();
	if (cur->state == Fiber::RUN && schedcfg.pol == POL_RANDOM && !fair_phase()) {
		// pick someone else if possible
		static vector<Fiber *> c;
		c.clear();
		for (Fiber *f : fibers) if (f != cur && can_run(f)) c.push_back(f);
		if (c.empty()) { deliver_pending(); return; }
		Fiber *from = cur, *to = c[draw(ST_SCHED, c.size())];
		since_switch = 0;
		quantum = draw_quantum();
		switches++;
		sched_hash = (sched_hash ^ (to->id * 1315423911ull + steps)) * 0x100000001b3ull;
		hash_event(0x51, to->id);
		raw_switch(from, to, false);
	} else {
		switch_away();
	}
	if (cur && !cur->actor) deliver_pending();
}

void yield_point(int kind) {
	if (!cur) return;
	tick();
	++since_switch;
	if (!timed.empty()) run_due_events();
	if (faults[F_STALL].rate && !cur->actor && !fair_phase() && fault(F_STALL)) {
		cur->stalled_until = steps + 50 + draw(ST_FAULT, 3000);
	}
	bool sw = cur->stalled_until > steps;
	if (schedcfg.pol == POL_PCT && !fair_phase()) {
		if (steps >= next_pct_change) {
			if (next_pct_change) { cur->prio = pct_low > 1 ? --pct_low : 1; sw = true; }
			u32 v = draw(ST_SCHED, 4 * schedcfg.mean_q * 20 + 1);
			next_pct_change = v ? steps + v : UINT64_MAX;
		}
	}
	if (quantum == 0) sw = true;
	else if (quantum > 0) --quantum;
	if (since_switch > 20000) { sw = true; if (schedcfg.pol == POL_PCT) cur->prio = pct_low > 1 ? --pct_low : 1; }
	if (sw) switch_away();
	if (!cur->actor) deliver_pending();
	(void)kind;
}

void block_on(WaitObj *w, const char *why) {
	cur->state = Fiber::BLOCK;
	cur->why = why;
	cur->woken_by_signal = false;
	w->q.push_back(cur);
	tick();
	switch_away();
	auto it = std::find(w->q.begin(), w->q.end(), cur);
	if (it != w->q.end()) w->q.erase(it);
	cur->why = "";
	if (!cur->actor) deliver_pending();
}
void wake_all(WaitObj *w) {
	for (Fiber *f : w->q) if (f->state == Fiber::BLOCK) f->state = Fiber::RUN;
	w->q.clear();
}
Fiber *wake_one(WaitObj *w) {
	if (w->q.empty()) return nullptr;
	size_t i = draw(ST_SCHED, w->q.size());
	Fiber *f = w->q[i];
	w->q.erase(w->q.begin() + i);
	f->state = Fiber::RUN;
	return f;
}
void sleep_until(u64 t) {
	cur->wake_at = t;
	cur->state = Fiber::BLOCK;
	cur->why = "sleep";
	tick();
	switch_away();
}

void run_sim(std::function<void()> body) {
	main_fiber = spawn_fiber("main", body, 1 << 20);
	quantum = draw_quantum();
	since_switch = 0;
	raw_switch(&host, main_fiber, false);
	// back in the host
	cur = nullptr;
}

// ---------------------------------------------------------------- signals
static bool sig_ignored_by_default(int sig) {
	return sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT;
}
bool sig_default_ignored(int sig) { return sig_ignored_by_default(sig); }

void post_signal(int sig, int code, Fiber *target) {
	siginfo_t si;
	memset(&si, 0, sizeof si);
	si.si_signo = sig;
	si.si_code = code;
	// dropped if ignored
	SigAct &a = sigacts[sig];
	if (a.handler == (void *)SIG_IGN || (a.handler == (void *)SIG_DFL && sig_ignored_by_default(sig))) return;
	if (!target) {
		// Process-directed: the kernel picks a thread that has it unblocked,
		// usually (not always) the main thread
		vector<Fiber *> c;
		for (Fiber *f : fibers) if (!f->actor && f->state != Fiber::DONE && !(f->sigmask >> (sig - 1) & 1)) c.push_back(f);
		if (c.empty()) target = main_fiber;
		else if (c[0] == main_fiber && code == SI_TIMER && main_fiber->pending.empty()) target = main_fiber;
		else if (c[0] == main_fiber && !chance(ST_ENV, 1, 4)) target = main_fiber;
		else target = c[draw(ST_ENV, c.size())];
	}
	for (auto &p : target->pending) if (p.si_signo == sig && sig < SIGRTMIN) return; // standard signals coalesce
	target->pending.push_back(si);
	if (verbose) vlog("signal %d posted to %s", sig, target->name.c_str());
	hash_event(0x516, sig);
	if (target->state == Fiber::BLOCK && !(target->sigmask >> (sig - 1) & 1)) {
		target->state = Fiber::RUN;
		target->wake_at = 0;
		target->woken_by_signal = true;
	}
}

bool signal_pending(int sig) {
	for (Fiber *f : fibers) if (f->state != Fiber::DONE) for (auto &p : f->pending) if (p.si_signo == sig) return true;
	return false;
}
std::function<void(int)> on_deliver;

void deliver_pending() {
	Fiber *f = cur;
	if (f->pending.empty()) return;
	for (size_t i = 0; i < f->pending.size();) {
		siginfo_t si = f->pending[i];
		int sig = si.si_signo;
		if (f->sigmask >> (sig - 1) & 1) { ++i; continue; }
		f->pending.erase(f->pending.begin() + i);
		SigAct a = sigacts[sig];
		if (a.handler == (void *)SIG_IGN) continue;
		if (a.handler == (void *)SIG_DFL) {
			if (sig_ignored_by_default(sig)) continue;
			if (on_deliver) on_deliver(sig);
			end_run(END_SIGNAL, sig, "killed by signal " + std::to_string(sig));
		}
		u64 saved = f->sigmask;
		f->sigmask |= a.mask;
		if (!(a.flags & SA_NODEFER)) f->sigmask |= 1ull << (sig - 1);
		if (a.flags & SA_RESETHAND) sigacts[sig] = SigAct();
		int e = errno;
		f->handler_depth++;
		if (in_forked_child) handlers_in_child++;
		vlog("run handler for signal %d", sig);
		if (on_deliver) on_deliver(sig);
		if (a.siginfo) ((void (*)(int, siginfo_t *, void *))a.handler)(sig, &si, nullptr);
		else ((void (*)(int))a.handler)(sig);
		f->handler_depth--;
		if (errno != e) violation("sig-errno", "signal handler for %d changed errno from %d to %d", sig, e, errno);
		errno = e;
		f->sigmask = saved;
		i = 0;
	}
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- atomics seam
extern "C" {
void sim_atomic_pre(int kind) { if (cur) yield_point(kind); }
void sim_atomic_post(int kind) { if (cur && kind != 0) yield_point(kind); }
int sim_cas_spurious(void) { return cur && fault(F_CAS_SPURIOUS); }
void sim_pause(void) { if (cur) force_switch(); }
}

// ---------------------------------------------------------------- pthread seam
struct MutexSt { Fiber *owner = nullptr; WaitObj w; };
struct CondSt { WaitObj w; };
struct SemSt { unsigned v = 0; WaitObj w; };
static std::unordered_map<void *, MutexSt> mutexes;
static std::unordered_map<void *, CondSt> conds;
static std::unordered_map<void *, SemSt> sems;
static std::unordered_map<void *, int> onces;

extern "C" {
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	yield_point(10);
	if (fault(F_THREAD_EAGAIN)) return EAGAIN;
	Fiber *f = spawn_fiber("thread", nullptr);
	f->fn = [f, fn, arg] { TS_ACQ(f); f->ret = fn(arg); };
	TS_REL(f);
	f->name = "thread" + std::to_string(f->id);
	f->sigmask = cur->sigmask;
	*t = (pthread_t)f;
	yield_point(10);
	return 0;
}
int sim_pthread_join(pthread_t t, void **ret) {
	Fiber *f = (Fiber *)t;
	yield_point(11);
	while (f->state != Fiber::DONE) block_on(&f->joiners, "pthread_join");
	TS_ACQ(f);
	if (ret) *ret = f->ret;
	return 0;
}
int sim_pthread_detach(pthread_t) { return 0; }
int sim_pthread_setname_np(pthread_t t, const char *n) { ((Fiber *)t)->name = n; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)cur; }
int sim_sched_yield(void) { force_switch(); return 0; }

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { mutexes[m] = MutexSt(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
	MutexSt &s = mutexes[m];
	if (s.owner || !s.w.q.empty()) { violation("sync", "destroyed a locked mutex"); return EBUSY; }
	mutexes.erase(m);
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
	no_handler("pthread_mutex_lock()");
	yield_point(12);
	for (;;) {
		MutexSt &s = mutexes[m];
		if (!s.owner) break;
		if (s.owner == cur) {
			// self-deadlock
			end_run(END_DEADLOCK, 0, "thread relocked a mutex it already holds");
		}
		block_on(&s.w, "mutex_lock");
	}
	mutexes[m].owner = cur;
	TS_ACQ(m);
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
	yield_point(13);
	MutexSt &s = mutexes[m];
	if (s.owner) return EBUSY;
	s.owner = cur;
	TS_ACQ(m);
	return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
	yield_point(14);
	MutexSt &s = mutexes[m];
	if (s.owner != cur) { violation("sync", "unlocked a mutex not held by this thread"); return EPERM; }
	TS_REL(m);
	s.owner = nullptr;
	wake_one(&s.w);
	yield_point(14);
	return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { conds[c] = CondSt(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) {
	if (!conds[c].w.q.empty()) violation("sync", "destroyed a condition variable with waiters");
	conds.erase(c);
	return 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	no_handler("pthread_cond_wait()");
	yield_point(15);
	MutexSt &s = mutexes[m];
	if (s.owner != cur) violation("sync", "cond_wait without holding the mutex");
	TS_REL(m);
	s.owner = nullptr;
	wake_one(&s.w);
	if (!fault(F_COND_SPURIOUS)) {
		CondSt &cs = conds[c];
		block_on(&cs.w, "cond_wait");
	} else {
		yield_point(15);
	}
	for (;;) {
		MutexSt &s2 = mutexes[m];
		if (!s2.owner) break;
		block_on(&s2.w, "cond_wait relock");
	}
	mutexes[m].owner = cur;
	TS_ACQ(m);
	return 0;
}
int sim_pthread_cond_signal(pthread_cond_t *c) { yield_point(16); wake_one(&conds[c].w); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { yield_point(17); wake_all(&conds[c].w); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
	yield_point(18);
	while (onces[o] == 1) force_switch();
	if (!onces[o]) { onces[o] = 1; fn(); TS_REL(o); onces[o] = 2; }
	TS_ACQ(o);
	return 0;
}

int sim_sem_init(sem_t *p, int, unsigned v) {
	if (fault(F_SEM_UNSUPPORTED)) { errno = ENOSYS; return -1; }
	sems[p] = SemSt();
	sems[p].v = v;
	return 0;
}
int sim_sem_destroy(sem_t *p) {
	if (!sems[p].w.q.empty()) violation("sync", "destroyed a semaphore with waiters");
	sems.erase(p);
	return 0;
}
int sim_sem_wait(sem_t *p) {
	yield_point(19);
	while (sems[p].v == 0) {
		if (fault(F_SEM_EINTR)) { errno = EINTR; return -1; }
		block_on(&sems[p].w, "sem_wait");
	}
	sems[p].v--;
	TS_ACQ(p);
	return 0;
}
int sim_sem_trywait(sem_t *p) {
	yield_point(19);
	if (!sems[p].v) { errno = EAGAIN; return -1; }
	sems[p].v--;
	TS_ACQ(p);
	return 0;
}
int sim_sem_post(sem_t *p) {
	yield_point(20);
	TS_REL(p);
	sems[p].v++;
	wake_one(&sems[p].w);
	yield_point(20);
	return 0;
}
}
