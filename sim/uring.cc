// A simulated io_uring: implements liburing's out-of-line functions over the
// simulated kernel.  Requests are executed when they complete, in an order
// the scheduler picks, so a descriptor or path that is recycled too early is
// noticed.
#include "vfs.hh"
#include <algorithm>
#include <cstdlib>
#include <fcntl.h>
#include <liburing.h>

namespace sim {
std::shared_ptr<File> make_file(File::Kind k, Inode *ino, int flags);
int install_fd(std::shared_ptr<File> f, bool cloexec, int min = 0);
int k_open(int dfd, const char *path, int flags, mode_t mode);
int k_close(int fd);
int k_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *b);

struct Op { u8 opcode; int fd; u64 addr; u64 off; u32 len, fl; u64 data; string path; };
struct Ring {
	struct io_uring *r = nullptr;
	unsigned flags = 0, sq_entries = 0, cq_entries = 0;
	unsigned skhead = 0, sktail = 0, ckhead = 0, cktail = 0, kflags = 0, dropped = 0, overflow = 0, smask = 0, cmask = 0;
	vector<io_uring_sqe> sqes;
	vector<io_uring_cqe> cqes;
	std::deque<io_uring_cqe> deferred;
	size_t inflight = 0;
	bool enabled = true, dead = false;
	Fiber *issuer = nullptr;
	WaitObj w;
};
static vector<Ring *> rings; // by ring_fd
static std::map<int, Ring *> by_fd;
int uring_live, uring_ops_done;

static void flush_cq(Ring *g) {
	unsigned head = __atomic_load_n(&g->ckhead, __ATOMIC_ACQUIRE);
	while (!g->deferred.empty() && g->cktail - head < g->cq_entries) {
		g->cqes[g->cktail & g->cmask] = g->deferred.front();
		g->deferred.pop_front();
		__atomic_store_n(&g->cktail, g->cktail + 1, __ATOMIC_RELEASE);
	}
}
static void run_op(Ring *g, const Op &op) {
	if (g->dead) return;
	int res = 0;
	switch (op.opcode) {
	case IORING_OP_NOP: break;
	case IORING_OP_OPENAT: res = k_open(op.fd, op.path.c_str(), (int)op.fl, op.len); break;
	case IORING_OP_CLOSE: res = k_close(op.fd); break;
	case IORING_OP_STATX: res = k_statx(op.fd, op.path.c_str(), (int)op.fl, op.len, (struct statx *)op.off); break;
	default: res = -EINVAL; break;
	}
	uring_ops_done++;
	hash_event(0x10, op.opcode * 1000 + res);
	io_uring_cqe c;
	memset(&c, 0, sizeof c);
	c.user_data = op.data;
	c.res = res;
	g->deferred.push_back(c);
	g->inflight--;
	if (!(g->flags & IORING_SETUP_DEFER_TASKRUN)) flush_cq(g);
	wake_all(&g->w);
}
static Ring *find(struct io_uring *r) {
	auto it = by_fd.find(r->ring_fd);
	return it == by_fd.end() ? nullptr : it->second;
}
static int do_submit(Ring *g, struct io_uring *r) {
	if (!g->enabled) return -EBADFD;
	if (g->flags & IORING_SETUP_SINGLE_ISSUER) {
		if (!g->issuer) g->issuer = cur;
		if (g->issuer != cur) return -EEXIST;
	}
	unsigned n = r->sq.sqe_tail - g->skhead;
	if (n == 0) return 0;
	if (fault(F_URING_SUBMIT_ERR)) { static const int e[] = {EAGAIN, EBUSY, EINTR, ENOMEM}; return -e[draw(ST_FAULT, 4)]; }
	if (n > 1 && fault(F_URING_SHORT_SUBMIT)) n = 1 + draw(ST_FAULT, n - 1);
	for (unsigned i = 0; i < n; ++i) {
		io_uring_sqe &s = g->sqes[g->skhead & g->smask];
		Op op;
		op.opcode = s.opcode; op.fd = s.fd; op.addr = s.addr; op.off = s.off; op.len = s.len; op.fl = s.open_flags; op.data = s.user_data;
		if ((op.opcode == IORING_OP_OPENAT || op.opcode == IORING_OP_STATX) && op.addr) op.path = (const char *)op.addr;
		g->skhead++;
		g->inflight++;
		bool sup = op.opcode == IORING_OP_NOP || (op.opcode == IORING_OP_OPENAT && envcfg.uring_ops & 1)
			|| (op.opcode == IORING_OP_CLOSE && envcfg.uring_ops & 2) || (op.opcode == IORING_OP_STATX && envcfg.uring_ops & 4);
		if (!sup) op.opcode = IORING_OP_LAST;
		if (faults[F_URING_DELAY].rate && fault(F_URING_DELAY)) {
			u64 d = 1000 + (u64)draw(ST_FAULT, 2000) * 1000;
			at_time(now_mono + d, [g, op] { run_op(g, op); });
		} else {
			run_op(g, op);
		}
	}
	r->sq.sqe_head = g->skhead;
	g->sktail = r->sq.sqe_tail;
	return n;
}
static int do_wait(Ring *g, unsigned nr) {
	flush_cq(g);
	while (g->cktail - __atomic_load_n(&g->ckhead, __ATOMIC_ACQUIRE) < nr) {
		if (fault(F_URING_WAIT_EINTR)) return -EINTR;
		if (g->inflight == 0 && g->deferred.empty()) {
			end_run(END_DEADLOCK, 0, "io_uring wait for " + std::to_string(nr) + " completions, but only "
				+ std::to_string(g->cktail - g->ckhead) + " can ever arrive");
		}
		if (g->inflight) block_on(&g->w, "io_uring wait");
		flush_cq(g);
		if (cur->woken_by_signal) { cur->woken_by_signal = false; return -EINTR; }
	}
	return 0;
}
} // namespace sim
using namespace sim;

extern "C" {
int io_uring_queue_init_params(unsigned entries, struct io_uring *r, struct io_uring_params *p) {
	yield_point(130);
	if (!envcfg.have_uring) return -ENOSYS;
	unsigned sup = 0;
	if (envcfg.uring_setup_flags & 1) sup |= IORING_SETUP_SUBMIT_ALL;
	if (envcfg.uring_setup_flags & 2) sup |= IORING_SETUP_R_DISABLED;
	if (envcfg.uring_setup_flags & 4) sup |= IORING_SETUP_SINGLE_ISSUER | IORING_SETUP_DEFER_TASKRUN;
	sup |= IORING_SETUP_ATTACH_WQ | IORING_SETUP_CLAMP | IORING_SETUP_CQSIZE;
	if (p->flags & ~sup) return -EINVAL;
	if ((p->flags & IORING_SETUP_DEFER_TASKRUN) && !(p->flags & IORING_SETUP_SINGLE_ISSUER)) return -EINVAL;
	if (fault(F_URING_INIT)) { static const int e[] = {ENOMEM, EPERM, EMFILE}; return -e[draw(ST_FAULT, 3)]; }
	if ((p->flags & IORING_SETUP_ATTACH_WQ) && !by_fd.count(p->wq_fd)) {
		violation("fd", "io_uring setup attached to descriptor %d, which is not a ring", (int)p->wq_fd);
		return -EBADF;
	}
	int fd = install_fd(make_file(File::RING, nullptr, 0), true);
	if (fd < 0) return -EMFILE;
	Ring *g = new Ring;
	unsigned n = 1;
	while (n < entries) n *= 2;
	g->sq_entries = n; g->cq_entries = 2 * n;
	g->smask = n - 1; g->cmask = 2 * n - 1;
	g->sqes.resize(n); g->cqes.resize(2 * n);
	g->flags = p->flags;
	g->enabled = !(p->flags & IORING_SETUP_R_DISABLED);
	g->r = r;
	memset(r, 0, sizeof *r);
	r->sq.khead = &g->skhead; r->sq.ktail = &g->sktail; r->sq.kring_mask = &g->smask; r->sq.kring_entries = &g->sq_entries;
	r->sq.kflags = &g->kflags; r->sq.kdropped = &g->dropped; r->sq.sqes = g->sqes.data();
	r->sq.ring_mask = g->smask; r->sq.ring_entries = n;
	r->cq.khead = &g->ckhead; r->cq.ktail = &g->cktail; r->cq.kring_mask = &g->cmask; r->cq.kring_entries = &g->cq_entries;
	r->cq.koverflow = &g->overflow; r->cq.cqes = g->cqes.data();
	r->cq.ring_mask = g->cmask; r->cq.ring_entries = 2 * n;
	r->flags = p->flags;
	r->ring_fd = r->enter_ring_fd = fd;
	p->sq_entries = n; p->cq_entries = 2 * n;
	p->features = IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_SINGLE_MMAP;
	r->features = p->features;
	by_fd[fd] = g;
	uring_live++;
	return 0;
}
int io_uring_queue_init(unsigned entries, struct io_uring *r, unsigned flags) {
	struct io_uring_params p;
	memset(&p, 0, sizeof p);
	p.flags = flags;
	return io_uring_queue_init_params(entries, r, &p);
}
void io_uring_queue_exit(struct io_uring *r) {
	yield_point(131);
	Ring *g = find(r);
	if (!g) { violation("fd", "io_uring_queue_exit() of a dead ring"); return; }
	g->dead = true;
	by_fd.erase(r->ring_fd);
	proc.fds.erase(r->ring_fd);
	uring_live--;
}
struct io_uring_probe *io_uring_get_probe_ring(struct io_uring *) {
	yield_point(132);
	size_t n = IORING_OP_LAST;
	auto *p = (struct io_uring_probe *)calloc(1, sizeof(struct io_uring_probe) + n * sizeof(struct io_uring_probe_op));
	p->last_op = n - 1; p->ops_len = n;
	for (size_t i = 0; i < n; ++i) { p->ops[i].op = i; }
	p->ops[IORING_OP_NOP].flags = IO_URING_OP_SUPPORTED;
	if (envcfg.uring_ops & 1) p->ops[IORING_OP_OPENAT].flags = IO_URING_OP_SUPPORTED;
	if (envcfg.uring_ops & 2) p->ops[IORING_OP_CLOSE].flags = IO_URING_OP_SUPPORTED;
	if (envcfg.uring_ops & 4) p->ops[IORING_OP_STATX].flags = IO_URING_OP_SUPPORTED;
	return p;
}
struct io_uring_probe *io_uring_get_probe(void) { return io_uring_get_probe_ring(nullptr); }
void io_uring_free_probe(struct io_uring_probe *p) { free(p); }
int io_uring_register_iowq_max_workers(struct io_uring *, unsigned *) { return 0; }
int io_uring_enable_rings(struct io_uring *r) {
	yield_point(133);
	Ring *g = find(r);
	if (!g) return -EBADF;
	if (fault(F_URING_ENABLE)) return -EACCES;
	g->enabled = true;
	g->issuer = cur;
	return 0;
}
int io_uring_submit(struct io_uring *r) {
	yield_point(134);
	Ring *g = find(r);
	if (!g) { violation("fd", "io_uring_submit() on a dead ring"); return -EBADF; }
	int n = do_submit(g, r);
	yield_point(134);
	return n;
}
int io_uring_submit_and_wait(struct io_uring *r, unsigned nr) {
	yield_point(134);
	Ring *g = find(r);
	if (!g) { violation("fd", "io_uring_submit() on a dead ring"); return -EBADF; }
	int n = do_submit(g, r);
	if (n < 0) return n;
	yield_point(134);
	if (nr) {
		int e = do_wait(g, nr);
		if (e && !n) return e;
	}
	return n;
}
int io_uring_wait_cqes(struct io_uring *r, struct io_uring_cqe **c, unsigned nr, struct __kernel_timespec *, sigset_t *) {
	yield_point(135);
	Ring *g = find(r);
	if (!g) return -EBADF;
	int e = do_wait(g, nr);
	unsigned head = g->ckhead;
	*c = g->cktail != head ? &g->cqes[head & g->cmask] : nullptr;
	return *c ? 0 : e ? e : -EAGAIN;
}
int io_uring_wait_cqe_timeout(struct io_uring *r, struct io_uring_cqe **c, struct __kernel_timespec *t) { return io_uring_wait_cqes(r, c, 1, t, nullptr); }
int io_uring_submit_and_wait_timeout(struct io_uring *r, struct io_uring_cqe **c, unsigned nr, struct __kernel_timespec *t, sigset_t *s) {
	int n = io_uring_submit(r);
	if (n < 0) return n;
	int e = io_uring_wait_cqes(r, c, nr, t, s);
	return e ? e : n;
}
int __io_uring_get_cqe(struct io_uring *r, struct io_uring_cqe **c, unsigned, unsigned nr, sigset_t *) { return io_uring_wait_cqes(r, c, nr, nullptr, nullptr); }
unsigned io_uring_peek_batch_cqe(struct io_uring *r, struct io_uring_cqe **c, unsigned n) {
	yield_point(136);
	Ring *g = find(r);
	if (!g) return 0;
	flush_cq(g);
	unsigned k = std::min(n, g->cktail - g->ckhead);
	for (unsigned i = 0; i < k; ++i) c[i] = &g->cqes[(g->ckhead + i) & g->cmask];
	return k;
}
int io_uring_get_events(struct io_uring *r) { Ring *g = find(r); if (g) flush_cq(g); return 0; }
}
