#include "vfs.hh"
#include <algorithm>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>

namespace sim {
Proc proc;
Inode *root_ino;
vector<Inode *> all_inodes;
vector<Mount> mounts;
vector<ChildRec *> children;
vector<Hist> hist;
EnvCfg envcfg;
std::shared_ptr<File> f_stdin, f_stdout, f_stderr, f_tty;
Inode *ino_stdout, *ino_stderr, *ino_tty, *ino_null, *ino_stdin;

void log_op(const char *op, int err, Inode *ino, const string &s) {
	hash_event((u64)op[0] << 8 | op[1], (ino ? ino->ino : 0) * 131 + err);
	if (hist.size() < 200000) hist.push_back({steps, cur ? cur->id : -1, op, err, ino, s});
	if (verbose) vlog("%s %s ino=%d err=%d", op, s.c_str(), ino ? (int)ino->ino : -1, err);
}

static std::map<u32, u64> dev_inodes;
void move_to_dev(Inode *i, u32 dev) {
	i->ino = 100 + dev_inodes[dev]++;
	i->dev = dev;
	i->mnt = 40 + dev;
}
Inode *new_inode(mode_t mode, u32 dev) {
	Inode *i = new Inode;
	move_to_dev(i, dev); // inode numbers repeat across devices, as in reality
	i->mode = mode;
	if (S_ISDIR(mode)) { i->nlink = 2; i->size = 4096; i->blocks = 8; }
	for (int k = 0; k < 4; ++k) i->tm[k] = {1700000000 - 1000, 0};
	all_inodes.push_back(i);
	return i;
}
void link_child(Inode *dir, const string &name, Inode *child) {
	dir->ents.push_back({name, child, dir->next_cookie++});
	if (child->is_dir()) { child->parent = dir; dir->nlink++; }
}
bool unlink_child(Inode *dir, const string &name) {
	for (size_t i = 0; i < dir->ents.size(); ++i) {
		if (dir->ents[i].name == name) {
			Inode *c = dir->ents[i].ino;
			dir->ents.erase(dir->ents.begin() + i);
			if (c->is_dir()) { dir->nlink--; c->nlink = 0; c->deleted = true; }
			else { c->nlink--; if (!c->nlink) c->deleted = true; }
			c->n_unlinked++;
			return true;
		}
	}
	return false;
}

int resolve(Inode *start, const string &path, bool follow, Inode **out, Inode **parent, string *last, int depth) {
	if (depth > 40) return ELOOP;
	if (path.empty()) return ENOENT;
	if (path.size() >= 4096) return ENAMETOOLONG;
	Inode *cur = start;
	size_t i = 0;
	if (path[0] == '/') {
		cur = root_ino;
		// /proc/self/fd/N and /dev/fd/N
		for (const char *pre : {"/proc/self/fd/", "/dev/fd/"}) {
			size_t n = strlen(pre);
			if (path.compare(0, n, pre) == 0 && path.size() > n && isdigit(path[n])) {
				size_t j = n;
				int fd = 0;
				while (j < path.size() && isdigit(path[j])) fd = fd * 10 + (path[j++] - '0');
				auto it = proc.fds.find(fd);
				if (it == proc.fds.end()) return ENOENT;
				Inode *t = it->second.f->ino;
				if (!t) return ENOENT;
				if (j == path.size()) { if (out) *out = t; if (parent) *parent = nullptr; return 0; }
				cur = t;
				i = j;
				break;
			}
		}
	}
	Inode *par = cur;
	string name;
	while (i < path.size() && path[i] == '/') i++;
	while (i < path.size()) {
		size_t j = path.find('/', i);
		if (j == string::npos) j = path.size();
		name = path.substr(i, j - i);
		if (name.size() > 255) return ENAMETOOLONG;
		size_t k = j;
		while (k < path.size() && path[k] == '/') k++;
		bool lastc = k >= path.size();
		bool trail = j < path.size();
		if (!cur->is_dir()) return ENOTDIR;
		if (cur->nosearch) return EACCES;
		par = cur;
		Inode *next;
		if (name == ".") next = cur;
		else if (name == "..") next = cur->parent ? cur->parent : cur;
		else next = cur->child(name);
		if (!next) {
			if (lastc) { if (parent) *parent = par; if (last) *last = name; if (out) *out = nullptr; }
			return ENOENT;
		}
		if (next->is_lnk() && (!lastc || follow || trail)) {
			Inode *t;
			int e = resolve(cur, next->target, true, &t, nullptr, nullptr, depth + 1);
			if (e) return e;
			next = t;
		}
		if (lastc && trail && !next->is_dir()) return ENOTDIR;
		cur = next;
		i = k;
	}
	if (out) *out = cur;
	if (parent) *parent = par;
	if (last) *last = name;
	return 0;
}

File::~File() {
	if (pipe) {
		if (kind == PIPE_W) { if (--pipe->writers == 0) wake_all(&pipe->w); }
		if (kind == PIPE_R) { if (--pipe->readers == 0) wake_all(&pipe->w); }
	}
}

static int file_ids;
std::shared_ptr<File> make_file(File::Kind k, Inode *ino, int flags) {
	auto f = std::make_shared<File>();
	f->kind = k;
	f->id = ++file_ids;
	f->ino = ino;
	f->flags = flags;
	return f;
}

void init_process() {
	if (!root_ino) { root_ino = new_inode(S_IFDIR | 0755, 0); root_ino->parent = nullptr; }
	ino_stdin = new_inode(S_IFREG | 0600, 30);
	ino_stdin->data = envcfg.stdin_data;
	ino_stdout = new_inode(S_IFREG | 0600, 30);
	ino_stderr = new_inode(S_IFREG | 0600, 30);
	ino_tty = new_inode(S_IFCHR | 0620, 31);
	ino_null = new_inode(S_IFCHR | 0666, 31);
	f_stdin = make_file(envcfg.tty_in ? File::TTY : File::REG, envcfg.tty_in ? ino_tty : ino_stdin, O_RDONLY);
	if (envcfg.tty_in) ino_tty->data = ""; 
	f_tty = make_file(File::TTY, ino_tty, O_RDWR);
	f_stdout = envcfg.tty_out ? make_file(File::TTY, ino_tty, O_RDWR) : make_file(File::REG, ino_stdout, O_WRONLY | O_APPEND);
	f_stderr = envcfg.tty_err ? f_tty : make_file(File::REG, ino_stderr, O_WRONLY | O_APPEND);
	proc.fds[0] = {f_stdin, false};
	proc.fds[1] = {f_stdout, false};
	proc.fds[2] = {f_stderr, false};
	if (!proc.cwd) proc.cwd = root_ino;
}
string &tty_data() { return ino_tty->data; }
string errstr(int e) { return strerror(e); }
} // namespace sim
