// The system-call and libc seam: every function here replaces the libc symbol
// of the same name (without sim_) in bfs's object files.
#include "vfs.hh"
#include "users.hh"
#include <unordered_map>
#include <malloc.h>
namespace sim { static size_t counted_bytes(); }
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <mntent.h>
#include <pwd.h>
#include <sched.h>
#include <spawn.h>
#include <sys/acl.h>
#include <sys/capability.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

namespace sim {
std::shared_ptr<File> make_file(File::Kind k, Inode *ino, int flags);
bool in_forked_child;
int handlers_in_child;
vector<UserRec> users, groups;
int pw_lookups, gr_lookups;
u64 max_open_fds;
bool alloc_armed = true;
AllocStats alloc_stats;
vector<string> bad_fd_uses;

static int fail(int e) { errno = e; return -1; }

static Fd *getfd(int fd) {
	auto it = proc.fds.find(fd);
	return it == proc.fds.end() ? nullptr : &it->second;
}
static void misuse(const char *op, int fd) {
	violation("fd", "%s on descriptor %d, which is not open", op, fd);
}

// What is called here is not async-signal-safe
void no_handler(const char *what) {
	if (cur && cur->handler_depth > 0) violation("C12", "%s in a signal handler", what);
}

static int alloc_fd(int min = 0) {
	int fd = min;
	for (auto it = proc.fds.lower_bound(min); it != proc.fds.end() && it->first == fd; ++it) ++fd;
	if ((rlim_t)fd >= proc.nofile_cur) return -1;
	return fd;
}
int install_fd(std::shared_ptr<File> f, bool cloexec, int min = 0) {
	int fd = alloc_fd(min);
	if (fd < 0) return -1;
	proc.fds[fd] = {f, cloexec};
	if (!in_forked_child) max_open_fds = std::max<u64>(max_open_fds, proc.fds.size());
	return fd;
}

static int base_dir(int dfd, const char *path, Inode **out) {
	if (path && path[0] == '/') { *out = root_ino; return 0; }
	if (dfd == AT_FDCWD) { *out = proc.cwd; return 0; }
	Fd *f = getfd(dfd);
	if (!f) { misuse("*at()", dfd); return EBADF; }
	if (!f->f->ino) return ENOTDIR;
	*out = f->f->ino;
	return 0;
}

// ---- open ------------------------------------------------------------
int k_open(int dfd, const char *path, int flags, mode_t mode) {
	Inode *base, *ino, *par; string last;
	int e = base_dir(dfd, path, &base);
	if (e) return -e;
	string p(path);
	bool isdirfd = (p == "/proc/self/fd" || p == "/dev/fd");
	if (isdirfd) {
		if (!envcfg.have_proc) return -ENOENT;
		if (alloc_fd() < 0) return -EMFILE;
		auto f = make_file(File::PROCFD, nullptr, flags);
		int fd = install_fd(f, flags & O_CLOEXEC);
		for (auto &x : proc.fds) f->procfds.push_back(x.first);
		return fd;
	}
	if (p == "/dev/null") {
		if (alloc_fd() < 0) return -EMFILE;
		return install_fd(make_file(flags & O_PATH ? File::PATHFD : File::NUL, ino_null, flags), flags & O_CLOEXEC);
	}
	if (p == "/dev/tty") {
		if (!envcfg.have_cterm || fault(F_TTY_FAIL)) return -ENXIO;
		if (alloc_fd() < 0) return -EMFILE;
		return install_fd(f_tty, flags & O_CLOEXEC);
	}
	e = resolve(base, p, !(flags & O_NOFOLLOW), &ino, &par, &last);
	if (e == ENOENT && (flags & O_CREAT) && par) {
		ino = new_inode(S_IFREG | (mode & ~proc.umask_), par->dev);
		if (alloc_fd() < 0) return -EMFILE;
		link_child(par, last, ino);
		e = 0;
	}
	if (e) { log_op("open", e, nullptr, p); return -e; }
	ino->n_open++;
	if ((flags & O_DIRECTORY) && !ino->is_dir()) { log_op("open", ENOTDIR, ino, p); return -ENOTDIR; }
	if (ino->is_lnk() && (flags & O_NOFOLLOW) && !(flags & O_PATH)) return -ELOOP;
	if (ino->is_dir() && (flags & O_ACCMODE) != O_RDONLY) return -EISDIR;
	if (ino->open_err) { log_op("open", ino->open_err, ino, p); return -ino->open_err; }
	if (ino->is_dir()) {
		int te = 0;
		if (fault(F_OPEN_EMFILE)) te = (ino->ino & 1) ? EMFILE : ENFILE;
		else if (fault(F_OPEN_ENOMEM)) te = ENOMEM;
		else if (fault(F_OPEN_EIO)) te = EIO;
		if (te) { log_op("open", te, ino, p); return -te; }
	}
	if (alloc_fd() < 0) { log_op("open", EMFILE, ino, p); return -EMFILE; }
	if ((flags & O_TRUNC) && ino->is_reg()) { ino->data.clear(); ino->size = 0; }
	if (ino->is_dir()) mem_samples.push_back(counted_bytes()), mem_totals.push_back(live_bytes);
	auto f = make_file(ino->is_dir() ? File::DIR : File::REG, ino, flags);
	int fd = install_fd(f, flags & O_CLOEXEC);
	log_op("open", 0, ino, p);
	return fd;
}
int k_close(int fd) {
	Fd *f = getfd(fd);
	if (!f) { misuse("close()", fd); return -EBADF; }
	Inode *ino = f->f->ino;
	log_op("clos", 0, ino, std::to_string(fd));
	proc.fds.erase(fd);
	if (fault(F_CLOSE_EIO)) return -EIO;
	return 0;
}

// ---- stat ------------------------------------------------------------
static int stat_target(int dfd, const char *path, int flags, Inode **out) {
	if (path[0] == 0 && (flags & AT_EMPTY_PATH)) {
		if (dfd == AT_FDCWD) { *out = proc.cwd; }
		else {
			Fd *f = getfd(dfd);
			if (!f) { misuse("fstat()", dfd); return EBADF; }
			*out = f->f->ino;
			if (!*out) return ENOENT;
		}
	} else {
		Inode *base;
		int e = base_dir(dfd, path, &base);
		if (e) return e;
		e = resolve(base, path, !(flags & AT_SYMLINK_NOFOLLOW), out);
		if (e) { log_op("stat", e, nullptr, path); return e; }
	}
	Inode *i = *out;
	i->n_stat++;
	int e = 0;
	if (i->stat_err) e = i->stat_err;
	else if (i->dev < 30 && fault(F_STAT_EIO)) e = EIO;
	else if (i->dev < 30 && fault(F_STAT_ENOMEM)) e = ENOMEM;
	log_op("stat", e, i, path);
	return e;
}
int k_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *b) {
	Inode *i;
	int e = stat_target(dfd, path, flags, &i);
	if (e) return -e;
	memset(b, 0, sizeof *b);
	b->stx_mask = STATX_BASIC_STATS | (i->nobtime ? 0 : STATX_BTIME);
	if (envcfg.mntid) { b->stx_mask |= STATX_MNT_ID; b->stx_mnt_id = i->mnt; }
	b->stx_mode = i->mode; b->stx_ino = i->ino; b->stx_nlink = i->nlink;
	b->stx_uid = i->uid; b->stx_gid = i->gid; b->stx_size = i->size; b->stx_blocks = i->blocks;
	b->stx_blksize = 4096;
	b->stx_dev_major = 8; b->stx_dev_minor = i->dev;
	b->stx_rdev_major = i->rdev >> 8; b->stx_rdev_minor = i->rdev & 255;
	auto cv = [](struct statx_timestamp &d, const struct timespec &s) { d.tv_sec = s.tv_sec; d.tv_nsec = s.tv_nsec; };
	cv(b->stx_atime, i->tm[0]); if (!i->nobtime) cv(b->stx_btime, i->tm[1]); cv(b->stx_ctime, i->tm[2]); cv(b->stx_mtime, i->tm[3]);
	(void)mask;
	return 0;
}
int k_stat(int dfd, const char *path, int flags, struct stat *b) {
	Inode *i;
	int e = stat_target(dfd, path, flags, &i);
	if (e) return -e;
	memset(b, 0, sizeof *b);
	b->st_mode = i->mode; b->st_ino = i->ino; b->st_nlink = i->nlink; b->st_uid = i->uid; b->st_gid = i->gid;
	b->st_size = i->size; b->st_blocks = i->blocks; b->st_blksize = 4096; b->st_dev = makedev(8, i->dev);
	b->st_rdev = makedev(i->rdev >> 8, i->rdev & 255);
	b->st_atim = i->tm[0]; b->st_ctim = i->tm[2]; b->st_mtim = i->tm[3];
	return 0;
}
static int ret(int r) { if (r < 0) { errno = -r; return -1; } return r; }

static u8 dtype(mode_t m) { return (m & S_IFMT) >> 12; }

ssize_t k_getdents(int fd, void *buf, size_t n) {
	Fd *f = getfd(fd);
	if (!f) { misuse("getdents()", fd); return -EBADF; }
	File *file = f->f.get();
	vector<Dirent> list;
	char *o = (char *)buf;
	size_t used = 0;
	u32 cnt = 0;
	auto put = [&](const string &name, u64 ino, u8 t, u64 cookie) -> bool {
		size_t len = offsetof(struct dirent64, d_name) + name.size() + 1;
		len = (len + 7) & ~7ul;
		if (used + len > n) return false;
		struct dirent64 *d = (struct dirent64 *)(o + used);
		memset((char *)d, 0, offsetof(struct dirent64, d_name));
		d->d_ino = ino; d->d_off = cookie; d->d_reclen = len; d->d_type = t;
		memcpy((char *)d + offsetof(struct dirent64, d_name), name.c_str(), name.size() + 1);
		used += len;
		return true;
	};
	if (file->kind == File::PROCFD) {
		u64 c = 1;
		if (file->pos < c && put(".", 1, DT_DIR, c)) file->pos = c;
		c = 2;
		if (file->pos < c && put("..", 1, DT_DIR, c)) file->pos = c;
		for (int x : file->procfds) {
			++c;
			if (file->pos < c) { if (!put(std::to_string(x), 1000 + x, DT_LNK, c)) break; file->pos = c; }
		}
		return used;
	}
	if (file->kind != File::DIR) return -ENOTDIR;
	Inode *i = file->ino;
	if (i->deleted) { log_op("gdnt", ENOENT, i); return -ENOENT; }
	if (fault(F_GETDENTS_EIO)) { log_op("gdnt", EIO, i); return -EIO; }
	u32 lim = envcfg.dir_chunk ? envcfg.dir_chunk : 1u << 30;
	if (fault(F_GETDENTS_SHORT)) lim = 1 + draw(ST_FAULT, 3);
	if (i->read_err && file->nread >= i->read_err_after) { log_op("gdnt", i->read_err, i); return -i->read_err; }
	auto lim_ok = [&] { return cnt < lim; };
	if (file->pos < 1 && lim_ok() && put(".", i->ino, DT_DIR, 1)) { file->pos = 1; cnt++; }
	if (file->pos < 2 && lim_ok() && put("..", i->parent ? i->parent->ino : i->ino, DT_DIR, 2)) { file->pos = 2; cnt++; }
	bool full = false;
	for (auto &e : i->ents) {
		if (e.cookie <= file->pos) continue;
		if (!lim_ok()) break;
		if (i->read_err && file->nread >= i->read_err_after) break;
		u64 di = e.ino->under_ino_differs ? e.ino->ino + 100000 : e.ino->ino;
		if (!put(e.name, di, i->dtype_unknown ? DT_UNKNOWN : dtype(e.ino->mode), e.cookie)) { full = true; break; }
		file->pos = e.cookie;
		file->nread++;
		cnt++;
	}
	if (used == 0 && full) return -EINVAL;
	if (used == 0 && i->read_err && file->nread >= i->read_err_after) { log_op("gdnt", i->read_err, i); return -i->read_err; }
	log_op("gdnt", 0, i, std::to_string(used));
	return used;
}

// ---- write/read -------------------------------------------------------
u64 bytes_written;
int closed_writes; // attempts to write to a standard output that was closed
std::function<void()> on_epipe, on_write;
int write_countdown;
static ssize_t k_write(int fd, const char *buf, size_t n, bool direct) {
	Fd *f = getfd(fd);
	if (!f) { misuse("write()", fd); return -EBADF; }
	auto file = f->f;
	switch (file->kind) {
	case File::NUL: return n;
	case File::PATHFD: if (fd == 1) ++closed_writes; return -EBADF;
	case File::PIPE_W:
		if (direct && fault(F_WRITE_EINTR)) return -EINTR;
		if (n > 1 && fault(F_WRITE_SHORT)) n = 1 + draw(ST_FAULT, n - 1);
		if (file->pipe->readers == 0) return -EPIPE;
		file->pipe->buf.append(buf, n);
		wake_all(&file->pipe->w);
		return n;
	case File::TTY: case File::REG: {
		if (file->kind == File::REG && (file->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
		if (direct && fault(F_WRITE_EINTR)) return -EINTR;
		if (file->write_err) return -file->write_err;
		if ((file == f_stdout || file->ino->dev < 30) && fault(F_WRITE_EIO)) {
			static const int errs[] = {ENOSPC, EIO, EPIPE, EDQUOT};
			int e = errs[draw(ST_FAULT, 4)];
			if (e == EPIPE && (file != f_stdout || file->kind == File::TTY || !on_epipe)) e = EIO;
			if (draw(ST_FAULT, 2) || e == EPIPE) file->write_err = e; // standing
			log_op("writ", e, file->ino);
			return -e;
		}
		if (file->write_room == 0) { log_op("writ", ENOSPC, file->ino); return -ENOSPC; }
		if (n > 1 && file->kind != File::TTY && fault(F_WRITE_SHORT)) n = 1 + draw(ST_FAULT, n - 1);
		if (file->write_room > 0 && (int64_t)n > file->write_room) n = file->write_room;
		if (file->write_room > 0) file->write_room -= n;
		file->ino->data.append(buf, n);
		if (file == f_stdout && file->ino == ino_tty) ino_stdout->data.append(buf, n); // what bfs printed, without the status bar
		if (file->kind == File::REG) file->ino->size = file->ino->data.size();
		bytes_written += n;
		hash_event(0x77, n);
		if (verbose) vlog("write fd=%d %zu bytes: %.*s", fd, n, (int)std::min<size_t>(n, 200), buf);
		return n;
	}
	default: return -EBADF;
	}
}
static ssize_t k_read(int fd, char *buf, size_t n) {
	Fd *f = getfd(fd);
	if (!f) { misuse("read()", fd); return -EBADF; }
	auto file = f->f;
	if (file->kind == File::PIPE_R) {
		if (fault(F_READ_EINTR)) return -EINTR;
		while (file->pipe->buf.empty() && file->pipe->writers > 0) block_on(&file->pipe->w, "pipe read");
		if (n > 1 && fault(F_READ_SHORT)) n = 1 + draw(ST_FAULT, n - 1);
		size_t k = std::min(n, file->pipe->buf.size());
		memcpy(buf, file->pipe->buf.data(), k);
		file->pipe->buf.erase(0, k);
		return k;
	}
	if (file->kind == File::REG || file->kind == File::TTY) {
		if (fault(F_READ_EIO)) return -EIO;
		const string &d = file == f_stdin || file->kind == File::TTY ? envcfg.stdin_data : file->ino->data;
		if (n > 1 && fault(F_READ_SHORT)) n = 1 + draw(ST_FAULT, std::min<size_t>(n - 1, 16));
		size_t left = file->pos < d.size() ? d.size() - file->pos : 0;
		if (file->kind == File::TTY) {
			size_t nl = d.find('\n', file->pos);
			if (nl != string::npos) left = std::min(left, nl + 1 - file->pos);
		}
		size_t k = std::min(n, left);
		memcpy(buf, d.data() + file->pos, k);
		file->pos += k;
		return k;
	}
	if (file->kind == File::NUL) return 0;
	if (file->kind == File::DIR) return -EISDIR;
	return -EBADF;
}

// ---- child processes ----------------------------------------------------
struct Xfer { // what a forked child reports back to its parent
	u32 magic;
	u32 kind;           // 1 exec'd, 2 exited, 3 ended (abort etc.)
	int code;
	u32 len;
	char data[1 << 20];
};
static Xfer *xfer;
static int next_pid = 2000;
static u64 fork_rec_pos[NST];
static std::map<int, size_t> fork_pipe_len;

struct Buf {
	string s;
	template <class T> void put(const T &v) { s.append((const char *)&v, sizeof v); }
	void str(const string &v) { put((u32)v.size()); s += v; }
};
struct Rd {
	const char *p, *e;
	template <class T> T get() { T v; memcpy(&v, p, sizeof v); p += sizeof v; return v; }
	string str() { u32 n = get<u32>(); string r(p, n); p += n; return r; }
};

static vector<Pipe *> all_pipes;

[[noreturn]] static void child_finish(u32 kind, int code, const ChildRec *rec) {
	Buf b;
	for (int i = 0; i < NST; ++i) {
		Stream &s = streams[i];
		b.put(s.s); b.put((u64)s.pos);
		u32 nn = s.replay ? 0 : s.rec.size() - fork_rec_pos[i];
		b.put(nn);
		for (u32 k = 0; k < nn; ++k) b.put(s.rec[fork_rec_pos[i] + k]);
	}
	for (auto &f : faults) b.put(f);
	b.put(steps); b.put(now_mono); b.put(trace_hash);
	b.put((u32)viols.size());
	for (auto &v : viols) { b.str(v.tag); b.str(v.msg); }
	b.str(run_end.why);
	b.put((u32)all_pipes.size());
	for (Pipe *p : all_pipes) b.str(p->buf);
	b.put((u32)(rec ? 1 : 0));
	if (rec) {
		b.str(rec->exe);
		b.put((u32)rec->argv.size());
		for (auto &a : rec->argv) b.str(a);
		b.put(rec->cwd);
		b.put((u32)rec->fds.size());
		for (auto &x : rec->fds) { b.put(x.first); b.put(x.second); }
		b.put(rec->sigmask);
		b.put((u32)rec->ignored.size()); for (int x : rec->ignored) b.put(x);
		b.put((u32)rec->handled.size()); for (int x : rec->handled) b.put(x);
		b.put(rec->nofile_cur); b.put(rec->nofile_max);
	}
	b.put(handlers_in_child);
	if (b.s.size() > sizeof xfer->data) { xfer->kind = 9; _exit(0); }
	memcpy(xfer->data, b.s.data(), b.s.size());
	xfer->len = b.s.size();
	xfer->kind = kind;
	xfer->code = code;
	xfer->magic = 0x51AB;
	_exit(0);
}

static void snapshot_exec(ChildRec *r, const char *exe, char *const argv[]) {
	r->exe = exe;
	for (int i = 0; argv[i]; ++i) r->argv.push_back(argv[i]);
	r->cwd = proc.cwd;
	for (auto &x : proc.fds) if (!x.second.cloexec) r->fds[x.first] = x.second.f->id;
	r->nofile_cur = proc.nofile_cur;
	r->nofile_max = proc.nofile_max;
	for (int s = 1; s <= 64; ++s) {
		if (sigacts[s].handler == (void *)SIG_IGN) r->ignored.push_back(s);
		else if (sigacts[s].handler != (void *)SIG_DFL) r->handled.push_back(s);
	}
	r->sigmask = cur->sigmask;
}

// Would execve() accept this?
static int exec_check(Inode *cwd, const char *exe, char *const argv[], char *const envp[]) {
	Inode *i;
	int e = resolve(cwd, exe, true, &i);
	if (e) return e;
	if (!i->is_reg() || !(i->mode & 0111)) return EACCES;
	if (fault(F_EXEC_FAIL)) { static const int errs[] = {ENOMEM, EACCES, ENOEXEC, ETXTBSY}; return errs[draw(ST_FAULT, 4)]; }
	long total = 0;
	for (int k = 0; argv[k]; ++k) total += strlen(argv[k]) + 1 + sizeof(char *);
	for (int k = 0; envp && envp[k]; ++k) total += strlen(envp[k]) + 1 + sizeof(char *);
	if (total > envcfg.real_arg_max) { log_op("e2bg", E2BIG, nullptr, std::to_string(total)); return E2BIG; }
	if (argv[0] && argv[1] && argv[2] && fault(F_EXEC_E2BIG)) return E2BIG;
	return 0;
}

vector<UnlinkRec> unlinks;
std::function<void(ChildRec *)> child_hook; // extra effects of simulated programs

static void start_program(ChildRec *r, std::map<int, std::shared_ptr<File>> fds) {
	r->started = true;
	r->stdout_mark = f_stdout->ino->data.size();
	// The program runs at some point before it exits
	u64 delay = draw(ST_ENV, 2) ? draw(ST_ENV, envcfg.child_delay_max) : 0;
	bool killed = fault(F_CHILD_KILLED);
	at_time(now_mono + delay, [r, fds, killed] {
		string line = "X";
		int code = 0, sig = 0;
		string base = r->exe.substr(r->exe.rfind('/') + 1);
		for (size_t k = 1; k < r->argv.size(); ++k) {
			line += " [" + r->argv[k] + "]";
			if (r->argv[k].find("!fail") != string::npos) code = 1;
			if (r->argv[k].find("!kill") != string::npos) sig = SIGKILL;
		}
		line += "\n";
		if (base == "false") code = 1;
		if (base == "rec") {
			auto it = fds.find(1);
			if (it != fds.end() && it->second->ino) {
				bool tty = it->second == f_stdout && it->second->ino == ino_tty;
				r->stdout_at_start = tty ? ino_stdout->data : it->second->ino->data;
				it->second->ino->data += line;
				if (tty) ino_stdout->data += line;
			}
		}
		if (child_hook) child_hook(r);
		if (killed) sig = SIGTERM;
		r->status = sig ? sig : code << 8;
		r->exited = true;
		log_op("cexi", r->status, nullptr, std::to_string(r->pid));
		for (Fiber *f : fibers) if (f->state == Fiber::BLOCK && !strcmp(f->why, "waitpid")) f->state = Fiber::RUN;
	});
}

static bool import_child(ChildRec *r) {
	Rd d{xfer->data, xfer->data + xfer->len};
	for (int i = 0; i < NST; ++i) {
		Stream &s = streams[i];
		s.s = d.get<u64>();
		s.pos = d.get<u64>();
		u32 nn = d.get<u32>();
		for (u32 k = 0; k < nn; ++k) s.rec.push_back(d.get<u32>());
	}
	for (auto &f : faults) f = d.get<FaultState>();
	steps = d.get<u64>(); now_mono = d.get<u64>(); trace_hash = d.get<u64>();
	u32 nv = d.get<u32>();
	for (u32 k = 0; k < nv; ++k) { string t = d.str(), m = d.str(); if (k >= viols.size()) viols.push_back({t, m}); }
	string why = d.str();
	u32 np = d.get<u32>();
	for (u32 k = 0; k < np; ++k) { string b = d.str(); if (k < all_pipes.size()) all_pipes[k]->buf = b; }
	u32 has = d.get<u32>();
	if (has) {
		r->exe = d.str();
		u32 na = d.get<u32>();
		for (u32 k = 0; k < na; ++k) r->argv.push_back(d.str());
		r->cwd = d.get<Inode *>();
		u32 nf = d.get<u32>();
		for (u32 k = 0; k < nf; ++k) { int a = d.get<int>(); int b = d.get<int>(); r->fds[a] = b; }
		r->sigmask = d.get<u64>();
		u32 n = d.get<u32>(); for (u32 k = 0; k < n; ++k) r->ignored.push_back(d.get<int>());
		n = d.get<u32>(); for (u32 k = 0; k < n; ++k) r->handled.push_back(d.get<int>());
		r->nofile_cur = d.get<rlim_t>(); r->nofile_max = d.get<rlim_t>();
	}
	r->handlers_run = d.get<int>();
	if (xfer->kind == 3) violation("crash", "forked child ended abnormally before exec: %s", why.c_str());
	return has;
}
} // namespace sim

using namespace sim;
extern "C" {

FILE *sim_stdin, *sim_stdout, *sim_stderr;
char **sim_environ;

// ---- files -----------------------------------------------------------
int sim_openat(int dfd, const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	yield_point(100);
	return ret(k_open(dfd, path, flags, mode));
}
int sim_open(const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	yield_point(100);
	return ret(k_open(AT_FDCWD, path, flags, mode));
}
int sim_close(int fd) { yield_point(101); return ret(k_close(fd)); }
int sim_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *b) {
	yield_point(102);
	if (!envcfg.have_statx) return fail(ENOSYS);
	return ret(k_statx(dfd, path, flags, mask, b));
}
int sim_fstatat(int dfd, const char *path, struct stat *b, int flags) { yield_point(102); return ret(k_stat(dfd, path, flags, b)); }
int sim_fstat(int fd, struct stat *b) { yield_point(102); return ret(k_stat(fd, "", AT_EMPTY_PATH, b)); }
int sim_stat(const char *p, struct stat *b) { return sim_fstatat(AT_FDCWD, p, b, 0); }
int sim_lstat(const char *p, struct stat *b) { return sim_fstatat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
ssize_t sim_getdents64(int fd, void *buf, size_t n) {
	yield_point(103);
	ssize_t r = k_getdents(fd, buf, n);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
ssize_t sim_readlinkat(int dfd, const char *path, char *buf, size_t n) {
	yield_point(104);
	Inode *base, *i;
	int e = base_dir(dfd, path, &base);
	if (!e) e = resolve(base, path, false, &i);
	if (!e && !i->is_lnk()) e = EINVAL;
	if (!e && i->readlink_err) e = i->readlink_err;
	if (!e && fault(F_READLINK_EIO)) e = EIO;
	log_op("rlnk", e, e ? nullptr : i, path);
	if (e) return fail(e);
	size_t k = std::min(n, i->target.size());
	memcpy(buf, i->target.data(), k);
	return k;
}
ssize_t sim_readlink(const char *path, char *buf, size_t n) { return sim_readlinkat(AT_FDCWD, path, buf, n); }
int sim_faccessat(int dfd, const char *path, int mode, int flags) {
	yield_point(105);
	Inode *base, *i;
	int e = base_dir(dfd, path, &base);
	if (!e) e = resolve(base, path, !(flags & AT_SYMLINK_NOFOLLOW), &i);
	if (!e && i->access_err) e = i->access_err;
	if (!e && fault(F_ACCESS_FAIL)) e = EIO;
	if (!e && mode != F_OK) {
		int bits = i->uid == 1000 ? i->mode >> 6 : i->gid == 1000 ? i->mode >> 3 : i->mode;
		if ((bits & mode & 7) != (mode & 7)) e = EACCES;
	}
	log_op("accs", e, e ? nullptr : i, path);
	if (e) return fail(e);
	return 0;
}
int sim_access(const char *p, int m) { return sim_faccessat(AT_FDCWD, p, m, 0); }
int sim_unlinkat(int dfd, const char *path, int flags) {
	yield_point(106);
	Inode *base = nullptr, *i = nullptr, *par = nullptr; string last;
	int e = base_dir(dfd, path, &base);
	if (!e) e = resolve(base, path, false, &i, &par, &last);
	if (!e) {
		if (flags & AT_REMOVEDIR) {
			if (!i->is_dir()) e = ENOTDIR;
			else if (!i->ents.empty()) e = ENOTEMPTY;
			else if (last == ".") e = EINVAL;
		} else if (i->is_dir()) e = EISDIR;
	}
	if (!e && i->unlink_err) e = i->unlink_err;
	if (!e && fault(F_UNLINK_FAIL)) { static const int errs[] = {EACCES, EBUSY, EROFS, EIO}; e = errs[draw(ST_FAULT, 4)]; }
	unlinks.push_back({par, i, last, path, !!(flags & AT_REMOVEDIR), e});
	if (!e) {
		unlink_child(par, last);
		if (flags & AT_REMOVEDIR) i->deleted = true;
		log_op("unlk", 0, i, path);
		return 0;
	}
	log_op("unlk", e, e == ENOENT ? nullptr : i, path);
	return fail(e);
}
int sim_unlink(const char *p) { return sim_unlinkat(AT_FDCWD, p, 0); }
int sim_rmdir(const char *p) { return sim_unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int sim_fchdir(int fd) {
	yield_point(107);
	Fd *f = getfd(fd);
	if (!f) { misuse("fchdir()", fd); return fail(EBADF); }
	if (!f->f->ino || !f->f->ino->is_dir()) return fail(ENOTDIR);
	if (fault(F_FCHDIR_FAIL)) return fail(EACCES);
	proc.cwd = f->f->ino;
	if (!in_forked_child) violation("cwd", "bfs changed its own working directory");
	return 0;
}
int sim_chdir(const char *p) {
	Inode *i;
	int e = resolve(proc.cwd, p, true, &i);
	if (e) return fail(e);
	proc.cwd = i;
	return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	yield_point(108);
	Fd *f = getfd(fd);
	if (!f) { if (cmd != F_GETFD) misuse("fcntl()", fd); return fail(EBADF); }
	switch (cmd) {
	case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0;
	case F_GETFL: return f->f->flags;
	case F_SETFL: return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: {
		if ((rlim_t)(int)arg >= proc.nofile_cur) return fail(EINVAL);
		if (fault(F_DUP_FAIL)) return fail(EMFILE);
		int r = install_fd(f->f, cmd == F_DUPFD_CLOEXEC, (int)arg);
		if (r < 0) return fail(EMFILE);
		log_op("dupf", 0, f->f->ino, std::to_string(r));
		return r;
	}
	default: return fail(EINVAL);
	}
}
int sim_dup(int fd) { return sim_fcntl(fd, F_DUPFD, 0L); }
int sim_dup2(int o, int n) {
	yield_point(109);
	Fd *f = getfd(o);
	if (!f) { misuse("dup2()", o); return fail(EBADF); }
	if ((rlim_t)n >= proc.nofile_cur) return fail(EBADF);
	if (fault(F_DUP_FAIL)) return fail(EMFILE);
	if (o == n) return n;
	Fd copy{f->f, false};
	proc.fds[n] = copy;
	return n;
}
int sim_dup3(int o, int n, int fl) { int r = sim_dup2(o, n); if (r >= 0 && (fl & O_CLOEXEC)) proc.fds[n].cloexec = true; return r; }
int sim_pipe2(int p[2], int flags) {
	yield_point(110);
	if (fault(F_PIPE_FAIL)) return fail(EMFILE);
	auto pp = std::make_shared<Pipe>();
	pp->id = all_pipes.size();
	pp->readers = pp->writers = 1;
	all_pipes.push_back(new Pipe); // placeholder keeps indices stable
	auto r = make_file(File::PIPE_R, nullptr, O_RDONLY), w = make_file(File::PIPE_W, nullptr, O_WRONLY);
	r->pipe = w->pipe = pp;
	delete all_pipes.back();
	all_pipes.back() = pp.get();
	static vector<std::shared_ptr<Pipe>> keep;
	keep.push_back(pp);
	int a = install_fd(r, flags & O_CLOEXEC);
	if (a < 0) return fail(EMFILE);
	int b = install_fd(w, flags & O_CLOEXEC);
	if (b < 0) { proc.fds.erase(a); return fail(EMFILE); }
	p[0] = a; p[1] = b;
	return 0;
}
int sim_pipe(int p[2]) { return sim_pipe2(p, 0); }
ssize_t sim_write(int fd, const void *buf, size_t n) {
	yield_point(111);
	ssize_t r = k_write(fd, (const char *)buf, n, true);
	if (r == -EPIPE) { if (on_epipe) on_epipe(); post_signal(SIGPIPE, SI_KERNEL, cur); deliver_pending(); }
	if (r < 0) { errno = -r; return -1; }
	return r;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
	yield_point(112);
	ssize_t r = k_read(fd, (char *)buf, n);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
mode_t sim_umask(mode_t m) { mode_t o = proc.umask_; proc.umask_ = m; return o; }

// ---- stdio: glibc's buffering over simulated descriptors ---------------
static std::map<FILE *, int> file_fds;
struct Cookie { int fd; };
static ssize_t ck_write(void *c, const char *b, size_t n) {
	no_handler("stdio output");
	int fd = ((Cookie *)c)->fd;
	size_t done = 0;
	while (done < n) { // like glibc's own write loop
		yield_point(111);
		ssize_t r = k_write(fd, b + done, n - done, false);
		if (write_countdown && !in_forked_child && fd == 1 && --write_countdown == 0 && on_write) on_write();
		if (r == -EPIPE) { if (on_epipe) on_epipe(); post_signal(SIGPIPE, SI_KERNEL, cur); deliver_pending(); }
		if (r < 0) { errno = -r; return done ? (ssize_t)done : 0; }
		done += r;
	}
	return done;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
	yield_point(112);
	ssize_t r = k_read(((Cookie *)c)->fd, b, n);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
static int ck_close(void *c) { int r = sim_close(((Cookie *)c)->fd); delete (Cookie *)c; return r; }

FILE *sim_mkfile(int fd, const char *mode, int buf, size_t size) {
	cookie_io_functions_t io = {ck_read, ck_write, nullptr, ck_close};
	FILE *f = fopencookie(new Cookie{fd}, mode, io);
	if (!f) return nullptr;
	setvbuf(f, buf == _IONBF ? nullptr : (char *)malloc(size), buf, size);
	file_fds[f] = fd;
	return f;
}
FILE *sim_fdopen(int fd, const char *mode) {
	Fd *f = getfd(fd);
	if (!f) { misuse("fdopen()", fd); errno = EBADF; return nullptr; }
	if (alloc_armed && fault(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	return sim_mkfile(fd, mode, f->f->kind == File::TTY ? _IOLBF : _IOFBF, envcfg.stdio_buf);
}
FILE *sim_fopen(const char *path, const char *mode) {
	int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
	int fd = sim_open(path, fl, 0666);
	return fd < 0 ? nullptr : sim_fdopen(fd, mode);
}
int sim_fclose(FILE *f) { file_fds.erase(f); return fclose(f); }
int sim_fileno(FILE *f) { auto it = file_fds.find(f); if (it == file_fds.end()) return fail(EBADF); return it->second; }
int sim_vprintf(const char *fmt, va_list ap) { return vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_puts(const char *s) { if (fputs(s, sim_stdout) < 0) return EOF; return fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
void sim_perror(const char *s) {
	int e = errno;
	if (s && *s) fprintf(sim_stderr, "%s: %s\n", s, strerror(e));
	else fprintf(sim_stderr, "%s\n", strerror(e));
	errno = e;
}
int sim_vdprintf(int fd, const char *fmt, va_list ap) {
	char b[4096];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	int done = 0;
	while (done < n) {
		ssize_t r = sim_write(fd, b + done, n - done);
		if (r < 0) { if (errno == EINTR) continue; return -1; }
		done += r;
	}
	return n;
}
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
	if (alloc_armed && fault(F_ALLOC)) { errno = ENOMEM; return -1; }
	return getdelim(l, n, d, f);
}

// ---- terminal ----------------------------------------------------------
int sim_isatty(int fd) {
	Fd *f = getfd(fd);
	if (!f) return (errno = EBADF, 0);
	if (f->f->kind == File::TTY) return 1;
	errno = ENOTTY;
	return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	yield_point(113);
	Fd *f = getfd(fd);
	if (!f) { misuse("ioctl()", fd); return fail(EBADF); }
	if (req == TIOCGWINSZ) {
		if (f->f->kind != File::TTY || fault(F_WINSIZE_FAIL)) return fail(ENOTTY);
		struct winsize *w = (struct winsize *)arg;
		w->ws_row = envcfg.winrows; w->ws_col = envcfg.wincols; w->ws_xpixel = w->ws_ypixel = 0;
		return 0;
	}
	if (req == TIOCSWINSZ) return 0;
	return fail(ENOTTY);
}
char *sim_ctermid(char *s) { static char b[32]; if (!s) s = b; strcpy(s, "/dev/tty"); return s; }
int sim_tcgetwinsize(int fd, struct winsize *w) { return sim_ioctl(fd, TIOCGWINSZ, w); }

// ---- memory --------------------------------------------------------------
static bool alloc_fail() {
	no_handler("memory allocation");
	alloc_stats.calls++;
	if (!cur || !alloc_armed) return false;
	if (fault(F_ALLOC)) { alloc_stats.failed++; errno = ENOMEM; return true; }
	return false;
}
}
namespace sim {
std::unordered_map<void *, LiveMem> live_mem;
static u64 mem_serial;
size_t live_bytes;
vector<size_t> mem_samples, mem_totals;
// One block per large power of two is not counted: the slabs of directory buffers, of which there may be more or fewer
static int pow2_blocks[64];
static int big_pow2(size_t n) { for (int k = 14; k < 40; ++k) if (n >= 1ull << k && n < (1ull << k) + 64) return k; return -1; }
static size_t counted_bytes() {
	size_t n = live_bytes;
	for (int k = 0; k < 64; ++k) if (pow2_blocks[k]) n -= std::min<size_t>(n, 1ull << k);
	return n;
}
static void *note_alloc(void *p, size_t n, void *ra) {
	if (!p) return p;
	int k = big_pow2(n);
	if (k >= 0) ++pow2_blocks[k];
	live_mem[p] = {ra, n, ++mem_serial};
	live_bytes += n;
	return p;
}
static void forget(void *p) {
	auto it = live_mem.find(p);
	if (it == live_mem.end()) return;
	live_bytes -= it->second.size;
	int k = big_pow2(it->second.size);
	if (k >= 0) --pow2_blocks[k];
	live_mem.erase(it);
}
}
extern "C" {
#if SIM_HB
}
namespace sim { void hb_alloc(void *); void hb_free(void *); }
extern "C" {
static void *al(void *p, size_t n) { hb_alloc(p); return note_alloc(p, n, __builtin_return_address(0)); }
static void fr(void *p) { hb_free(p); forget(p); free(p); }
#else
#define al(p, n) note_alloc(p, n, __builtin_return_address(0))
static void fr(void *p) { forget(p); free(p); }
#endif
void sim_free(void *p) { if (p) no_handler("free()"); fr(p); }
void *sim_malloc(size_t n) { return alloc_fail() ? nullptr : al(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return alloc_fail() ? nullptr : al(calloc(a, b), a * b); }
void *sim_realloc(void *p, size_t n) {
	if (alloc_fail()) return nullptr;
#if SIM_HB
	if (p) hb_free(p);
#endif
	forget(p);
	return al(realloc(p, n), n);
}
void *sim_aligned_alloc(size_t a, size_t n) { return alloc_fail() ? nullptr : al(aligned_alloc(a, n), n); }
int sim_posix_memalign(void **p, size_t a, size_t n) {
	int e = errno;
	if (alloc_fail()) { errno = e; return ENOMEM; }
	int r = posix_memalign(p, a, n);
	if (!r) al(*p, n);
	return r;
}
char *sim_strdup(const char *s) { return alloc_fail() ? nullptr : (char *)al(strdup(s), strlen(s) + 1); }
char *sim_strndup(const char *s, size_t n) { return alloc_fail() ? nullptr : (char *)al(strndup(s, n), strnlen(s, n) + 1); }

// ---- time --------------------------------------------------------------------
int clock_reads;
}
namespace sim { int64_t first_realtime; }
extern "C" {
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
	u64 t = now_mono;
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
		clock_reads++;
		if (fault(F_CLOCK_JUMP)) {
			static const int64_t jumps[] = {86400, -86400, 3600, -3600, 400 * 86400ll, -400 * 86400ll};
			realtime_off += jumps[draw(ST_FAULT, 6)] * 1000000000ll;
		}
		int64_t r = (int64_t)t + realtime_off;
		if (!first_realtime) first_realtime = r;
		ts->tv_sec = r / 1000000000; ts->tv_nsec = r % 1000000000;
	} else {
		ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	}
	return 0;
}
time_t sim_time(time_t *p) { struct timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
struct Tmr { bool live = false; u64 interval = 0; u64 gen = 0; };
static vector<Tmr> tmrs;
int live_timers;
int sim_timer_create(clockid_t, struct sigevent *, timer_t *t) {
	if (fault(F_TIMER_FAIL)) return fail(EAGAIN);
	tmrs.push_back({});
	tmrs.back().live = true;
	live_timers++;
	*t = (timer_t)(intptr_t)tmrs.size();
	return 0;
}
static void arm(size_t i, u64 gen, u64 when) {
	at_time(when, [i, gen, when] {
		if (!tmrs[i].live || tmrs[i].gen != gen || in_forked_child) return;
		post_signal(SIGALRM, SI_TIMER);
		if (tmrs[i].interval) arm(i, gen, std::max(when + tmrs[i].interval, now_mono + 1));
	});
}
int sim_timer_settime(timer_t t, int, const struct itimerspec *s, struct itimerspec *) {
	size_t i = (size_t)(intptr_t)t - 1;
	if (i >= tmrs.size() || !tmrs[i].live) return fail(EINVAL);
	if (fault(F_TIMER_FAIL)) return fail(EINVAL);
	u64 v = (s->it_value.tv_sec * 1000000000ull + s->it_value.tv_nsec) / envcfg.timer_div;
	tmrs[i].interval = (s->it_interval.tv_sec * 1000000000ull + s->it_interval.tv_nsec) / envcfg.timer_div;
	tmrs[i].gen++;
	if (v) arm(i, tmrs[i].gen, now_mono + v);
	return 0;
}
int sim_timer_delete(timer_t t) {
	size_t i = (size_t)(intptr_t)t - 1;
	if (i >= tmrs.size() || !tmrs[i].live) { violation("timer", "timer_delete() of a dead timer"); return fail(EINVAL); }
	tmrs[i].live = false;
	live_timers--;
	return 0;
}
int sim_setitimer(int, const void *, void *) { return 0; }

// ---- environment, limits ---------------------------------------------------------
char *sim_getenv(const char *n) {
	size_t l = strlen(n);
	for (auto &e : envcfg.env) if (e.size() > l && e[l] == '=' && !e.compare(0, l, n)) return (char *)e.c_str() + l + 1;
	return nullptr;
}
long sim_sysconf(int n) {
	if (n == _SC_ARG_MAX) return envcfg.arg_max;
	if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return envcfg.ncpu;
	if (n == _SC_OPEN_MAX) return proc.nofile_cur;
	return sysconf(n);
}
int sim_sched_getaffinity(pid_t, size_t sz, cpu_set_t *s) {
	memset(s, 0, sz);
	for (int i = 0; i < envcfg.ncpu; ++i) CPU_SET_S(i, sz, s);
	return 0;
}
int sim_getrlimit(int r, struct rlimit *l) {
	if (r != RLIMIT_NOFILE) return getrlimit((__rlimit_resource)r, l);
	l->rlim_cur = proc.nofile_cur; l->rlim_max = proc.nofile_max;
	return 0;
}
int sim_setrlimit(int r, const struct rlimit *l) {
	yield_point(114);
	if (r != RLIMIT_NOFILE) return 0;
	if (fault(F_RLIMIT_FAIL)) return fail(EPERM);
	if (l->rlim_cur > l->rlim_max) return fail(EINVAL);
	if (l->rlim_max > proc.nofile_max) return fail(EPERM);
	proc.nofile_cur = l->rlim_cur; proc.nofile_max = l->rlim_max;
	return 0;
}
char *sim_setlocale(int, const char *) { return (char *)"C"; }

// ---- users and groups ------------------------------------------------------------
static int put_str(char *&b, size_t &n, const string &s, char **out) {
	if (s.size() + 1 > n) return ERANGE;
	memcpy(b, s.c_str(), s.size() + 1);
	*out = b; b += s.size() + 1; n -= s.size() + 1;
	return 0;
}
static const int pw_errs[] = {EIO, EMFILE, ENFILE, ENOMEM, EINTR};
static int pw_fault() {
	if (alloc_fd() < 0) return EMFILE; // the database has to be opened
	return fault(F_PW_ERR) ? pw_errs[draw(ST_FAULT, 4)] : 0;
}
static int fill_pw(const UserRec *u, struct passwd *p, char *b, size_t n, struct passwd **r) {
	*r = nullptr;
	if (!u) return 0;
	memset(p, 0, sizeof *p);
	if (n < u->need || put_str(b, n, u->name, &p->pw_name) || put_str(b, n, "", &p->pw_passwd)) return ERANGE;
	p->pw_gecos = p->pw_dir = p->pw_shell = p->pw_passwd;
	p->pw_uid = u->id; p->pw_gid = u->id;
	*r = p;
	return 0;
}
int sim_getpwuid_r(uid_t id, struct passwd *p, char *b, size_t n, struct passwd **r) {
	yield_point(115); pw_lookups++;
	*r = nullptr;
	if (int e = pw_fault()) return e;
	const UserRec *u = nullptr;
	for (auto &x : users) if (x.id == id) { u = &x; break; }
	return fill_pw(u, p, b, n, r);
}
int sim_getpwnam_r(const char *nm, struct passwd *p, char *b, size_t n, struct passwd **r) {
	yield_point(115); pw_lookups++;
	*r = nullptr;
	if (int e = pw_fault()) return e;
	const UserRec *u = nullptr;
	for (auto &x : users) if (x.name == nm) { u = &x; break; }
	return fill_pw(u, p, b, n, r);
}
static int fill_gr(const UserRec *u, struct group *p, char *b, size_t n, struct group **r) {
	*r = nullptr;
	if (!u) return 0;
	memset(p, 0, sizeof *p);
	static char *none[] = {nullptr};
	if (n < u->need || put_str(b, n, u->name, &p->gr_name) || put_str(b, n, "", &p->gr_passwd)) return ERANGE;
	p->gr_gid = u->id; p->gr_mem = none;
	*r = p;
	return 0;
}
int sim_getgrgid_r(gid_t id, struct group *p, char *b, size_t n, struct group **r) {
	yield_point(115); gr_lookups++;
	*r = nullptr;
	if (int e = pw_fault()) return e;
	const UserRec *u = nullptr;
	for (auto &x : groups) if (x.id == id) { u = &x; break; }
	return fill_gr(u, p, b, n, r);
}
int sim_getgrnam_r(const char *nm, struct group *p, char *b, size_t n, struct group **r) {
	yield_point(115); gr_lookups++;
	*r = nullptr;
	if (int e = pw_fault()) return e;
	const UserRec *u = nullptr;
	for (auto &x : groups) if (x.name == nm) { u = &x; break; }
	return fill_gr(u, p, b, n, r);
}

// ---- mount table -----------------------------------------------------------------
struct MntIter { size_t i = 0; struct mntent me; };
FILE *sim_setmntent(const char *, const char *) {
	yield_point(116);
	if (fault(F_MTAB_FAIL)) { errno = ENOENT; return nullptr; }
	return (FILE *)new MntIter;
}
struct mntent *sim_getmntent(FILE *f) {
	MntIter *m = (MntIter *)f;
	if (m->i >= mounts.size()) return nullptr;
	Mount &x = mounts[m->i++];
	m->me.mnt_fsname = (char *)"sim"; m->me.mnt_dir = (char *)x.path.c_str(); m->me.mnt_type = (char *)x.type.c_str();
	m->me.mnt_opts = (char *)"rw"; m->me.mnt_freq = m->me.mnt_passno = 0;
	return &m->me;
}
int sim_endmntent(FILE *f) { delete (MntIter *)f; return 1; }

// ---- extended metadata --------------------------------------------------------------
} namespace sim { vector<std::pair<Inode *, bool>> xfails; } extern "C" {
static Inode *xlookup(const char *path, bool follow, bool acl = false) {
	yield_point(117);
	Inode *i;
	int e = resolve(proc.cwd, path, follow, &i);
	if (e) { errno = e; return nullptr; }
	if (fault(F_XATTR_FAIL)) { xfails.push_back({i, acl}); errno = EIO; return nullptr; }
	return i;
}
struct SimAcl { int n, at; };
acl_t sim_acl_get_file(const char *path, acl_type_t t) {
	Inode *i = xlookup(path, true, true);
	if (!i) return nullptr;
	if (i->acl_unsup) { errno = ENOTSUP; return nullptr; }
	if (t == ACL_TYPE_DEFAULT) {
		if (!i->is_dir()) { errno = EACCES; return nullptr; }
		return (acl_t)new SimAcl{i->def_acl ? 3 : 0, 0};
	}
	return (acl_t)new SimAcl{i->has_acl ? 4 : 3, 0};
}
int sim_acl_get_entry(acl_t a, int id, acl_entry_t *e) {
	SimAcl *p = (SimAcl *)a;
	if (id == ACL_FIRST_ENTRY) p->at = 0;
	if (p->at >= p->n) return 0;
	*e = (acl_entry_t)(intptr_t)(++p->at);
	return 1;
}
int sim_acl_get_tag_type(acl_entry_t e, acl_tag_t *t) {
	static const acl_tag_t tags[] = {ACL_USER_OBJ, ACL_GROUP_OBJ, ACL_OTHER, ACL_USER};
	*t = tags[(intptr_t)e - 1];
	return 0;
}
int sim_acl_free(void *p) { delete (SimAcl *)p; return 0; }
cap_t sim_cap_get_file(const char *path) {
	Inode *i = xlookup(path, true);
	if (!i) return nullptr;
	if (!i->has_cap && !i->cap_empty) { errno = ENODATA; return nullptr; }
	return (cap_t)new int(i->has_cap);
}
char *sim_cap_to_text(cap_t c, ssize_t *n) { bool y = *(int *)c; if (n) *n = y ? 2 : 0; return (char *)new int(y ? 0x2b3d : 0); }
int sim_cap_free(void *p) { delete (int *)p; return 0; }
static ssize_t xlist(Inode *i, char *b, size_t n) {
	if (!i) return -1;
	string s;
	for (auto &x : i->xattrs) { s += x; s.push_back(0); }
	if (n == 0) return s.size();
	if (s.size() > n) return fail(ERANGE);
	memcpy(b, s.data(), s.size());
	return s.size();
}
ssize_t sim_listxattr(const char *p, char *b, size_t n) { return xlist(xlookup(p, true), b, n); }
ssize_t sim_llistxattr(const char *p, char *b, size_t n) { return xlist(xlookup(p, false), b, n); }
static ssize_t xget(Inode *i, const char *name) {
	if (!i) return -1;
	for (auto &x : i->xattrs) if (x == name) return 0;
	return fail(ENODATA);
}
ssize_t sim_getxattr(const char *p, const char *nm, void *, size_t) { return xget(xlookup(p, true), nm); }
ssize_t sim_lgetxattr(const char *p, const char *nm, void *, size_t) { return xget(xlookup(p, false), nm); }
static int fcon(Inode *i, char **c) { if (!i) return -1; *c = strdup(("ctx" + std::to_string(i->ino % 3)).c_str()); return strlen(*c) + 1; }
int sim_getfilecon(const char *p, char **c) { return fcon(xlookup(p, true), c); }
int sim_lgetfilecon(const char *p, char **c) { return fcon(xlookup(p, false), c); }
void sim_freecon(char *c) { free(c); }

// ---- signals ------------------------------------------------------------------------
static u64 to_mask(const sigset_t *s) { u64 m = 0; for (int i = 1; i <= 64; ++i) if (sigismember(s, i) == 1) m |= 1ull << (i - 1); return m; }
static void from_mask(u64 m, sigset_t *s) { sigemptyset(s); for (int i = 1; i <= 64; ++i) if (m >> (i - 1) & 1) sigaddset(s, i); }
u64 initial_sigmask;
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
	yield_point(118);
	if (sig < 1 || sig > 64) return fail(EINVAL);
	if (a && !cur->handler_depth && !in_forked_child && fault(F_SIGACTION_FAIL)) return fail(EINVAL);
	SigAct &s = sigacts[sig];
	if (o) {
		memset(o, 0, sizeof *o);
		if (s.siginfo) o->sa_sigaction = (void (*)(int, siginfo_t *, void *))s.handler;
		else o->sa_handler = (void (*)(int))s.handler;
		o->sa_flags = s.flags;
		from_mask(s.mask, &o->sa_mask);
	}
	if (a) {
		if (sig == SIGKILL || sig == SIGSTOP) return fail(EINVAL);
		s.flags = a->sa_flags;
		s.siginfo = a->sa_flags & SA_SIGINFO;
		s.handler = s.siginfo ? (void *)a->sa_sigaction : (void *)a->sa_handler;
		s.mask = to_mask(&a->sa_mask);
	}
	yield_point(118);
	return 0;
}
sighandler_t sim_signal(int sig, sighandler_t h) {
	struct sigaction a, o;
	memset(&a, 0, sizeof a);
	a.sa_handler = h;
	a.sa_flags = SA_RESTART;
	if (sim_sigaction(sig, &a, &o) != 0) return SIG_ERR;
	return o.sa_handler;
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {
	if (o) from_mask(cur->sigmask, o);
	if (s) {
		u64 m = to_mask(s) & ~(1ull << (SIGKILL - 1) | 1ull << (SIGSTOP - 1));
		if (how == SIG_BLOCK) cur->sigmask |= m;
		else if (how == SIG_UNBLOCK) cur->sigmask &= ~m;
		else cur->sigmask = m;
	}
	yield_point(119);
	return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { return sim_pthread_sigmask(how, s, o); }
static void die_or_deliver(int sig, int code) {
	post_signal(sig, code, cur);
	deliver_pending();
}
int sim_raise(int sig) { die_or_deliver(sig, SI_TKILL); return 0; }
int sim_kill(pid_t pid, int sig) { if (pid == proc.pid || pid == 0) die_or_deliver(sig, SI_USER); return 0; }
long sim_syscall(long n, ...) {
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (auto &x : a) x = va_arg(ap, long);
	va_end(ap);
	switch (n) {
	case SYS_gettid: return 5000 + (cur ? cur->id : 0);
	case SYS_rt_tgsigqueueinfo: {
		siginfo_t *si = (siginfo_t *)a[3];
		(void)si;
		die_or_deliver((int)a[2], SI_TKILL);
		return 0;
	}
	case SYS_getdents64: return sim_getdents64((int)a[0], (void *)a[1], (size_t)a[2]);
	case SYS_statx: return sim_statx((int)a[0], (const char *)a[1], (int)a[2], (unsigned)a[3], (struct statx *)a[4]);
	default: return fail(ENOSYS);
	}
}
pid_t sim_getpid(void) { return proc.pid; }
pid_t sim_getppid(void) { yield_point(120); return 1; }
[[noreturn]] void sim_abort(void) {
	if (in_forked_child) { run_end = {END_ABORT, 0, "abort() in forked child"}; child_finish(3, 0, nullptr); }
	end_run(END_ABORT, 0, "abort() called");
}
[[noreturn]] void sim__Exit(int c) {
	if (in_forked_child) child_finish(2, c, nullptr);
	end_run(END_EXIT, c, "_Exit");
}
[[noreturn]] void sim__exit(int c) { sim__Exit(c); }
[[noreturn]] void sim_exit(int c) {
	fflush(sim_stdout); fflush(sim_stderr);
	sim__Exit(c);
}

// ---- the I/O queue's depth (bfs's own constant is too large to fill with small trees) ----
struct ioq *ioq_create(size_t depth, size_t nthreads) __attribute__((weak));
struct ioq *sim_ioq_create(size_t depth, size_t nthreads) {
	if (envcfg.ioq_depth && depth > envcfg.ioq_depth) depth = envcfg.ioq_depth;
	return ioq_create(depth, nthreads);
}

// ---- processes ----------------------------------------------------------------------------
pid_t sim__Fork(void) {
	yield_point(121);
	if (fault(F_FORK_FAIL)) return fail(EAGAIN);
	if (!xfer) {
		xfer = (Xfer *)mmap(nullptr, sizeof(Xfer), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	memset(xfer, 0, 64);
	for (int i = 0; i < NST; ++i) fork_rec_pos[i] = streams[i].rec.size();
	int pid = next_pid++;
	size_t nviol = viols.size();
	(void)nviol;
	pid_t real = fork();
	if (real < 0) { fprintf(stderr, "real fork failed\n"); _exit(3); }
	if (real == 0) {
		in_forked_child = true;
		handlers_in_child = 0;
		proc.pid = pid;
		// the parent keeps its ends of every pipe
		for (auto &x : proc.fds) if (x.second.f->pipe) (x.second.f->kind == File::PIPE_R ? x.second.f->pipe->readers : x.second.f->pipe->writers)++;
		for (Fiber *f : fibers) if (f != cur) f->state = Fiber::DONE;
		// A signal may reach the child before it execs
		cur->pending.clear();
		if (fault(F_SIGNAL)) {
			static const int sg[] = {SIGINT, SIGTERM, SIGUSR1, SIGALRM, SIGHUP};
			int s = sg[draw(ST_FAULT, 5)];
			siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; si.si_code = SI_USER;
			if (sigacts[s].handler != (void *)SIG_IGN) cur->pending.push_back(si);
		}
		yield_point(121);
		return 0;
	}
	int st;
	while (waitpid(real, &st, 0) < 0 && errno == EINTR);
	ChildRec *r = new ChildRec;
	r->pid = pid; r->via_fork = true; r->step = steps;
	children.push_back(r);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || xfer->magic != 0x51AB) {
		violation("crash", "forked child crashed before exec (status %d)", st);
		r->exited = true; r->status = SIGSEGV;
		return pid;
	}
	bool execd = import_child(r);
	(void)execd;
	if (xfer->kind == 1) {
		std::map<int, std::shared_ptr<File>> fds;
		for (auto &x : proc.fds) if (r->fds.count(x.first)) fds[x.first] = x.second.f;
		start_program(r, fds);
	} else if (xfer->kind == 4) { // killed by a signal before exec
		r->exited = true; r->status = xfer->code;
	} else {
		r->exited = true; r->status = xfer->code << 8; r->exec_err = -1;
	}
	log_op("fork", 0, nullptr, r->exe);
	yield_point(121);
	return pid;
}
pid_t sim_fork(void) { return sim__Fork(); }
pid_t sim_vfork(void) { return sim__Fork(); }

int sim_execve(const char *exe, char *const argv[], char *const envp[]) {
	yield_point(122);
	int e = exec_check(proc.cwd, exe, argv, envp);
	if (e) return fail(e);
	if (!in_forked_child) { violation("exec", "execve() in the bfs process itself"); end_run(END_BUG, 0, "execve in parent"); }
	ChildRec r;
	snapshot_exec(&r, exe, argv);
	child_finish(1, 0, &r);
}

struct Act { int op; int fd, fd2; string path; int flags; mode_t mode; };
static std::map<const void *, vector<Act>> facts;
static std::map<const void *, short> fattr;
int sim_posix_spawn_file_actions_init(posix_spawn_file_actions_t *a) { facts[a].clear(); return 0; }
int sim_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *a) { facts.erase(a); return 0; }
int sim_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *a, int fd) { facts[a].push_back({0, fd, 0, "", 0, 0}); return 0; }
int sim_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *a, int o, int n) { facts[a].push_back({1, o, n, "", 0, 0}); return 0; }
int sim_posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *a, int fd, const char *p, int fl, mode_t m) { facts[a].push_back({2, fd, 0, p, fl, m}); return 0; }
int sim_posix_spawn_file_actions_addfchdir_np(posix_spawn_file_actions_t *a, int fd) { facts[a].push_back({3, fd, 0, "", 0, 0}); return 0; }
int sim_posix_spawnattr_init(posix_spawnattr_t *a) { fattr[a] = 0; return 0; }
int sim_posix_spawnattr_destroy(posix_spawnattr_t *a) { fattr.erase(a); return 0; }
int sim_posix_spawnattr_getflags(const posix_spawnattr_t *a, short *f) { *f = fattr[a]; return 0; }
int sim_posix_spawnattr_setflags(posix_spawnattr_t *a, short f) { fattr[a] = f; return 0; }

static int spawn_impl(pid_t *pid, const char *file, bool search, const posix_spawn_file_actions_t *fa, char *const argv[], char *const envp[]) {
	yield_point(123);
	if (fault(F_SPAWN_FAIL)) return EAGAIN;
	Proc saved = proc;
	ChildRec *r = new ChildRec;
	int e = 0;
	auto it = facts.find(fa);
	if (it != facts.end()) for (auto &a : it->second) {
		switch (a.op) {
		case 0: if (!proc.fds.count(a.fd)) e = EBADF; else proc.fds.erase(a.fd); break;
		case 1: if (!proc.fds.count(a.fd)) e = EBADF; else proc.fds[a.fd2] = {proc.fds[a.fd].f, false}; break;
		case 2: { int x = k_open(AT_FDCWD, a.path.c_str(), a.flags, a.mode); if (x < 0) e = -x; else if (x != a.fd) { proc.fds[a.fd] = {proc.fds[x].f, false}; proc.fds.erase(x); } break; }
		case 3: {
			auto f = proc.fds.find(a.fd);
			if (f == proc.fds.end()) { misuse("posix_spawn fchdir", a.fd); e = EBADF; }
			else if (!f->second.f->ino || !f->second.f->ino->is_dir()) e = ENOTDIR;
			else if (fault(F_FCHDIR_FAIL)) e = EACCES;
			else proc.cwd = f->second.f->ino;
			break;
		}
		}
		if (e) break;
	}
	string exe = file;
	if (!e && search && exe.find('/') == string::npos) {
		const char *p = sim_getenv("PATH");
		string path = p ? p : "/bin:/usr/bin";
		e = ENOENT;
		size_t i = 0;
		while (i <= path.size()) {
			size_t j = path.find(':', i);
			if (j == string::npos) j = path.size();
			string c = path.substr(i, j - i);
			if (c.empty()) c = ".";
			Inode *x;
			if (!resolve(proc.cwd, c + "/" + file, true, &x) && x->is_reg() && (x->mode & 0111)) { exe = c + "/" + file; e = 0; break; }
			i = j + 1;
		}
	}
	if (!e) e = exec_check(proc.cwd, exe.c_str(), argv, envp);
	if (!e) {
		snapshot_exec(r, exe.c_str(), argv);
		r->handled.clear(); // exec resets caught signals
	}
	std::map<int, std::shared_ptr<File>> fds;
	for (auto &x : proc.fds) if (!x.second.cloexec) fds[x.first] = x.second.f;
	proc = saved;
	if (e) { delete r; log_op("spwn", e, nullptr, file); return e; }
	r->pid = next_pid++; r->step = steps;
	children.push_back(r);
	log_op("spwn", 0, nullptr, exe);
	start_program(r, fds);
	*pid = r->pid;
	yield_point(123);
	return 0;
}
int sim_posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *, char *const argv[], char *const envp[]) {
	return spawn_impl(pid, path, false, fa, argv, envp);
}
int sim_posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *, char *const argv[], char *const envp[]) {
	return spawn_impl(pid, file, true, fa, argv, envp);
}
pid_t sim_waitpid(pid_t pid, int *st, int flags) {
	yield_point(124);
	for (;;) {
		ChildRec *r = nullptr;
		bool any = false;
		for (auto c : children) {
			if (c->reaped) continue;
			if (pid > 0 && c->pid != pid) continue;
			any = true;
			if (c->exited) { r = c; break; }
		}
		if (!any) return fail(ECHILD);
		if (r && sigacts[SIGCHLD].handler == (void *)SIG_IGN) { r->reaped = true; continue; } // reaped by the kernel
		if (fault(F_WAITPID_EINTR)) return fail(EINTR);
		if (r) {
			r->reaped = true;
			if (st) *st = r->status;
			return r->pid;
		}
		if (flags & WNOHANG) return 0;
		static WaitObj w;
		block_on(&w, "waitpid");
	}
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
}

// signals that terminate a forked child before exec
namespace sim {
void child_end(EndKind k, int code) {
	if (k == END_SIGNAL) child_finish(4, code, nullptr);
	if (k == END_EXIT) child_finish(2, code, nullptr);
	child_finish(3, code, nullptr);
}
}
