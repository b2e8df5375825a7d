#include <execinfo.h>
// The seam: virtual file system, descriptors, pipes, processes, signals,
// allocator and stdio streams, all driven by the engine (see sim.h).
#include "sim.h"
#include <cerrno>
#include <malloc.h>
#include <cstdarg>
#include <csignal>
#include <csetjmp>
#include <fcntl.h>
#include <glob.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <pthread.h>
#include <unistd.h>

const char *op_name[OP_MAX] = {"none", "open", "read", "write", "lseek", "ftruncate", "close", "stat",
  "access", "unlink", "mkstemp", "flock", "fcntl", "pipe", "fork", "wait", "dup2", "exec", "malloc",
  "stdin", "stdout", "step", "piperead", "pipewrite", "rename", "fstat", "stderr"};
const char *cls_name[CL_MAX] = {"any", "scratch", "user", "pipe", "std"};

Arena *A; Engine *E; int me; bool sim_on; uint64_t step_watch = ~0ull; bool trace_text; bool in_probe;
std::map<std::string, std::string> sim_env; std::vector<std::string> sim_keys; uint8_t sim_pad[8];
bool stdin_tty, stdin_seekable; uint8_t *cov_map; uint32_t cov_n; uint64_t step_limit = 400000000;
uint64_t fault_counts[OP_MAX][FK_MAX];
std::vector<std::string> shell_log;
int sim_blksize = 512; bool sim_mem_reuse;
static int fdt[MAXFD];               // descriptor -> ofd index + 1 (per process)
static std::string in_buf; static size_t in_pos; static bool in_eof;
static uint64_t key_i;

void tlog(const char *fmt, ...) {
  if (!trace_text) return;
  char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  char pre[64]; int m = snprintf(pre, sizeof pre, "[p%d s%llu] ", me, (unsigned long long)A->steps);
  ssize_t r = ::write(2, pre, m); r = ::write(2, b, n); r = ::write(2, "\n", 1); (void)r;
}
void ev(uint64_t a, uint64_t b, uint64_t c) {
  A->ev_hash = hmix(hmix(hmix(A->ev_hash, a), b), c); ++A->ev_count;
}
void evs(const char *s, size_t n) {
  uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ (uint8_t)s[i]) * 1099511628211ull;
  ev(h, n);
}
void verdict(const char *kind, const char *fmt, ...) {
  if (A->v.set) return;
  A->v.set = 1; snprintf(A->v.kind, sizeof A->v.kind, "%s", kind);
  va_list ap; va_start(ap, fmt); vsnprintf(A->v.msg, sizeof A->v.msg, fmt, ap); va_end(ap);
  tlog("VERDICT %s: %s", kind, A->v.msg);
}
static void die_run(const char *kind, const char *msg) {
  verdict(kind, "%s", msg); finish_run();
}

// ------------------------------------------------------------------ arena
void sim_reset_run() {
  if (A) munmap(A, ARENA_SIZE);
  A = (Arena *)mmap((void *)ARENA_ADDR, ARENA_SIZE, PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (A == MAP_FAILED) { perror("mmap arena"); _exit(99); }
  A->used = 0; A->next_ino = 1000; A->next_pid = 100; A->space = -1; A->tspace = -1; A->ws_row = 24; A->ws_col = 80;
  new (&A->sched) Rng(1);
  for (int i = 0; i < MAXPROC; ++i) sem_init(&A->proc[i].sem, 1, 0);
}
void arena_privatise() {
  size_t n = offsetof(Arena, heap) + A->used;
  char *tmp = (char *)malloc(n); memcpy(tmp, A, n);
  void *p = mmap((void *)ARENA_ADDR, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) _exit(98);
  memcpy(A, tmp, n); free(tmp);
  for (int i = 0; i < MAXPROC; ++i) {
    sem_init(&A->proc[i].sem, 1, 0);
    if (i && A->proc[i].state != P_FREE) A->proc[i].state = P_ZOMBIE;
  }
  A->nlive = 1;
}
static size_t aheap(size_t n) {
  size_t o = (A->used + 15) & ~(size_t)15;
  if (offsetof(Arena, heap) + o + n > ARENA_SIZE) die_run("harness", "arena exhausted");
  A->used = o + n; return o;
}
// ------------------------------------------------------------------ vfs
std::string vfs_norm(const std::string &p) {
  std::string s = p.empty() || p[0] != '/' ? "/w/" + p : p;
  std::vector<std::string> part; size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i); if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i); i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == "..") { if (!part.empty()) part.pop_back(); continue; }
    part.push_back(c);
  }
  std::string r; for (auto &c : part) r += "/" + c; return r.empty() ? "/" : r;
}
static int dir_find(const std::string &n) {
  for (int i = 0; i < MAXDIRENT; ++i) if (A->dir[i].used && n == A->dir[i].path) return i;
  return -1;
}
int vfs_lookup(const std::string &p) { int d = dir_find(vfs_norm(p)); return d < 0 ? -1 : A->dir[d].ino; }
static int parent_ok(const std::string &n) {
  size_t k = n.rfind('/'); std::string par = k == 0 ? "/" : n.substr(0, k);
  int d = dir_find(par); if (d < 0) { errno = ENOENT; return -1; }
  if (A->inode[A->dir[d].ino].type != I_DIR) { errno = ENOTDIR; return -1; }
  if (!(A->inode[A->dir[d].ino].mode & 0200)) { errno = EACCES; return -1; }
  return 0;
}
static int new_inode(const std::string &norm, int type, unsigned mode) {
  if (norm.size() >= sizeof A->dir[0].path) { errno = ENAMETOOLONG; return -1; }
  int d = -1, k = -1;
  for (int i = 0; i < MAXDIRENT; ++i) if (!A->dir[i].used) { d = i; break; }
  for (int i = 0; i < MAXINO; ++i) if (A->inode[i].type == I_FREE) { k = i; break; }
  if (d < 0 || k < 0) die_run("harness", "vfs table full");
  Inode &n = A->inode[k]; memset(&n, 0, sizeof n);
  n.type = type; n.nlink = 1; n.mode = mode; n.ino = A->next_ino++;
  A->dir[d].used = 1; A->dir[d].ino = k; snprintf(A->dir[d].path, sizeof A->dir[d].path, "%s", norm.c_str());
  return k;
}
int vfs_mkfile(const std::string &path, const std::string &data, unsigned mode, int type) {
  int k = new_inode(vfs_norm(path), type, mode); if (k < 0) return -1;
  if (type == I_REG) { A->inode[k].user = 1; vfs_setdata(k, data); }
  return k;
}
static void grow(Inode &n, size_t need) {
  if (need <= n.cap) return;
  size_t c = n.cap ? n.cap : 1024; while (c < need) c *= 2;
  size_t o = aheap(c); if (n.len) memcpy(A->heap + o, A->heap + n.off, n.len);
  n.off = o; n.cap = c;
}
void vfs_setdata(int k, const std::string &d) {
  Inode &n = A->inode[k]; grow(n, d.size()); if (!d.empty()) memcpy(A->heap + n.off, d.data(), d.size());
  n.len = d.size(); ++n.version;
}
std::string vfs_data(int k) { return std::string(A->heap + A->inode[k].off, A->inode[k].len); }
bool vfs_read(const std::string &p, std::string &out) {
  int k = vfs_lookup(p); if (k < 0 || A->inode[k].type != I_REG) return false; out = vfs_data(k); return true;
}
static void unref_inode(int k) {
  Inode &n = A->inode[k]; if (n.nlink <= 0 && n.opens <= 0) n.type = I_FREE;
}
void vfs_unlink(const std::string &p) {
  int d = dir_find(vfs_norm(p)); if (d < 0) return; int k = A->dir[d].ino; A->dir[d].used = 0; --A->inode[k].nlink; unref_inode(k);
}
void vfs_rename(const std::string &a, const std::string &b) {
  int d = dir_find(vfs_norm(a)); if (d < 0) return; vfs_unlink(b);
  snprintf(A->dir[d].path, sizeof A->dir[d].path, "%s", vfs_norm(b).c_str());
}
std::vector<std::string> vfs_list() {
  std::vector<std::string> r; for (int i = 0; i < MAXDIRENT; ++i)
    if (A->dir[i].used && A->inode[A->dir[i].ino].type != I_DIR) r.push_back(A->dir[i].path);
  return r;
}
static int path_cls(const std::string &n) {
  int d = dir_find(n); if (d >= 0) return A->inode[A->dir[d].ino].scratch ? CL_SCRATCH : CL_USER;
  return n.compare(0, 5, "/tmp/") == 0 ? CL_SCRATCH : CL_USER;
}
static int ofd_cls(Ofd &o) {
  switch (o.type) { case 1: return A->inode[o.ino].scratch ? CL_SCRATCH : CL_USER; case 2: case 3: return CL_PIPE; default: return CL_STD; }
}
// ------------------------------------------------------------------ signals
void sim_clear_stdin();
struct Act { void (*h)(int); int flags; sigset_t mask; int set; };
static Act acts[65];
static uint64_t pend;
static void proc_die(int status);
static void check_pending();
void sim_signal_deliver(int signo) {
  if (me && !acts[signo].set && signo != SIGPIPE) { proc_die(signo); }
  sigset_t cur; sigprocmask(SIG_BLOCK, nullptr, &cur);
  if (sigismember(&cur, signo)) { pend |= 1ull << signo; return; }
  void (*h)(int) = acts[signo].set ? acts[signo].h : SIG_DFL;
  ev(900, signo); tlog("signal %d delivered", signo);
  if (signo == SIGINT && !me) sim_clear_stdin();     // the terminal driver discards pending input on an interrupt
  if (h == SIG_IGN) return;
  if (h == SIG_DFL) { if (signo == SIGCHLD || signo == SIGWINCH) return; proc_die(signo); }
  sigset_t m = acts[signo].mask, old; sigaddset(&m, signo);
  sigprocmask(SIG_BLOCK, &m, &old);
  h(signo);
  sigprocmask(SIG_SETMASK, &old, nullptr);
  check_pending();
}
static void check_pending() {
  if (!pend) return;
  sigset_t cur; sigprocmask(SIG_BLOCK, nullptr, &cur);
  for (int s = 1; s < 64; ++s) if ((pend >> s & 1) && !sigismember(&cur, s)) { pend &= ~(1ull << s); sim_signal_deliver(s); }
}
static void yield();
void sim_signal_all(int signo) {     // whole foreground process group
  for (int i = 1; i < MAXPROC; ++i) if (i != me && (A->proc[i].state == P_RUN || A->proc[i].state == P_BLOCK)) A->proc[i].pending |= 1 << signo;
  sim_signal_deliver(signo);
}
// ------------------------------------------------------------------ processes
static void fd_closeall();
static bool cond_ready(Proc &p) {
  if (p.wkind == W_EXEC) { for (int i = 0; i < MAXPROC; ++i) if (A->proc[i].state != P_FREE && A->proc[i].pid == p.wpid) return A->proc[i].exec_done || A->proc[i].state == P_ZOMBIE; return true; }
  if (p.pending) return true;
  switch (p.wkind) {
    case W_PREAD: return A->pipe[p.wpipe].len > 0 || A->pipe[p.wpipe].writers == 0;
    case W_PWRITE: return A->pipe[p.wpipe].len < A->pipe[p.wpipe].cap || A->pipe[p.wpipe].readers == 0;
    case W_CHILD: {
      bool any = false;
      for (int i = 0; i < MAXPROC; ++i) { Proc &c = A->proc[i];
        if (c.state != P_FREE && c.ppid == p.pid && (p.wpid == -1 || c.pid == p.wpid)) { any = true; if (c.state == P_ZOMBIE) return true; } }
      return !any;
    }
  }
  return true;
}
static int pick() {
  int c[MAXPROC], n = 0;
  for (int i = 0; i < MAXPROC; ++i) { Proc &p = A->proc[i];
    if (p.state == P_RUN || (p.state == P_BLOCK && cond_ready(p))) c[n++] = i; }
  if (!n) return -1;
  return n == 1 ? c[0] : c[A->sched.below(n)];
}
static void take_pending() {
  int pd = A->proc[me].pending; A->proc[me].pending = 0;
  for (int s = 1; s < 31; ++s) if (pd >> s & 1) sim_signal_deliver(s);
}
static void switch_to(int t) {
  if (t == me) return;
  ++A->switches; ev(901, me, t);
  sem_post(&A->proc[t].sem);
  while (sem_wait(&A->proc[me].sem) && errno == EINTR) {}
}
static void yield() {
  if (A->nlive <= 1) return;
  switch_to(pick());
  if (A->proc[me].pending) take_pending();
}
static void block(int kind, int pipe, int pid) {
  Proc &p = A->proc[me]; p.wkind = kind; p.wpipe = pipe; p.wpid = pid; p.state = P_BLOCK;
  int t = pick();
  if (t < 0) die_run("deadlock", "every process is blocked: the editor waits for ever on a child or a pipe");
  switch_to(t);
  p.state = P_RUN; p.wkind = W_NONE;
  if (p.pending) take_pending();
}
static bool ed_done;
// Commands abandoned by an interrupted editor: the simulated user kills what is still running before typing on.
void sim_reap_orphans() {
  if (me) return;
  for (int i = 1; i < MAXPROC; ++i) {
    while (A->proc[i].state == P_RUN || A->proc[i].state == P_BLOCK) { A->proc[i].pending |= 1 << SIGKILL; switch_to(i); }
    if (A->proc[i].state == P_ZOMBIE) { waitpid(A->proc[i].realpid, nullptr, 0); A->proc[i].state = P_FREE; }
  }
}
[[noreturn]] static void proc_exit(int status) {
  if (me == 0) { ed_done = true; fd_closeall(); E->on_exit(status >> 8 & 255, status & 127); finish_run(); }
  fd_closeall();
  Proc &p = A->proc[me]; p.status = status; p.state = P_ZOMBIE; --A->nlive; ev(902, me, status);
  for (int i = 0; i < MAXPROC; ++i) if (A->proc[i].state != P_FREE && A->proc[i].ppid == p.pid) A->proc[i].ppid = 1;
  int t = pick(); if (t < 0) die_run("deadlock", "every process is blocked after a child exited");
  sem_post(&A->proc[t].sem); _exit(0);
}
static void proc_die(int sig) {
  tlog("process killed by signal %d", sig);
  if (me == 0) A->ed_exit_sig = sig;
  proc_exit(sig & 127);
}
// ------------------------------------------------------------------ ops
void sim_winch(long arg) { A->ws_row = arg & 0xffff; A->ws_col = arg >> 16 & 0xffff; sim_signal_deliver(SIGWINCH); }
static Fault *op_enter(int op, int cls) {
  A->sim_us += 2;
  if (A->nlive > 1) yield();
  if (pend) check_pending();
  if (me || ed_done) return nullptr;
  Fault *f = E->on_op(op, cls);
  if (f) {
    ++fault_counts[op][f->kind]; ev(903, op * 64 + f->kind, f->arg);
    tlog("fault %s/%s kind %d arg %ld", op_name[op], cls_name[cls], f->kind, f->arg);
    if (getenv("EDSIM_FBT")) { void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); }
    if (f->kind == FK_SIGNAL && f->arg > 0) { sim_signal_deliver((int)f->arg); return f; }
    if (f->kind == FK_SIGALL && f->arg > 0) { sim_signal_all((int)f->arg); return f; }
    if (f->kind == FK_WINCH && f->arg > 0) { sim_winch(f->arg); return f; }
    if (f->kind == FK_KILL) { proc_die(SIGKILL); }
  }
  return f;
}
static void op_leave(Fault *f) {
  if (!f) return;
  if (f->kind == FK_SIGNAL && f->arg < 0) sim_signal_deliver((int)-f->arg);
  if (f->kind == FK_SIGALL && f->arg < 0) sim_signal_all((int)-f->arg);
  if (f->kind == FK_WINCH && f->arg < 0) sim_winch(-f->arg);
}
struct Leave { Fault *f; ~Leave() noexcept(false) {} };
#define FAIL_IF(f) do { if ((f) && (f)->kind == FK_ERRNO) { errno = (int)(f)->arg; return -1; } } while (0)
#define DONE(f, r) do { ssize_t r_ = (r); int e_ = errno; if (f) op_leave(f); errno = e_; return r_; } while (0)

static int fd_alloc(int ofd) {
  for (int i = 0; i < MAXFD; ++i) if (!fdt[i]) { fdt[i] = ofd + 1; return i; }
  errno = EMFILE; return -1;
}
static int ofd_alloc() {
  for (int i = 0; i < MAXOFD; ++i) if (!A->ofd[i].refs) { memset(&A->ofd[i], 0, sizeof(Ofd)); A->ofd[i].refs = 1; return i; }
  die_run("harness", "ofd table full"); return -1;
}
static void ofd_unref(int k) {
  Ofd &o = A->ofd[k]; if (--o.refs) return;
  if (o.type == 1) { --A->inode[o.ino].opens; unref_inode(o.ino); }
  if (o.type == 2) --A->pipe[o.pipe].readers;
  if (o.type == 3) --A->pipe[o.pipe].writers;
  if ((o.type == 2 || o.type == 3) && !A->pipe[o.pipe].readers && !A->pipe[o.pipe].writers) A->pipe[o.pipe].used = 0;
  o.type = 0;
}
static Ofd *fd_get(int fd) {
  if (fd < 0 || fd >= MAXFD || !fdt[fd]) { errno = EBADF; return nullptr; }
  return &A->ofd[fdt[fd] - 1];
}
static void fd_closeall() { for (int i = 0; i < MAXFD; ++i) if (fdt[i]) { ofd_unref(fdt[i] - 1); fdt[i] = 0; } }

int sys_open(const char *path, int flags, unsigned mode) {
  if (path && !me) E->on_open(path, flags);
  std::string n = vfs_norm(path);
  Fault *f = op_enter(OP_OPEN, path_cls(n)); FAIL_IF(f);
  if (!*path) { errno = ENOENT; return -1; }
  int d = dir_find(n), k;
  bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
  if (d < 0) {
    if (!(flags & O_CREAT)) { errno = ENOENT; DONE(f, -1); }
    if (parent_ok(n) < 0) DONE(f, -1);
    k = new_inode(n, I_REG, mode & ~022u & 0777u); if (k < 0) DONE(f, -1);
    A->inode[k].user = 1;
    tlog("create %s", n.c_str());
  } else {
    k = A->dir[d].ino;
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; DONE(f, -1); }
    if (A->inode[k].type == I_DIR && wr) { errno = EISDIR; DONE(f, -1); }
    if (wr && !(A->inode[k].mode & 0200)) { errno = EACCES; DONE(f, -1); }
    if (rd && !(A->inode[k].mode & 0400)) { errno = EACCES; DONE(f, -1); }
    if ((flags & O_TRUNC) && A->inode[k].type == I_REG) {
      Inode &in = A->inode[k];
      if (!in.scratch && A->space >= 0) A->space += in.len;
      in.len = 0; ++in.version; if (in.user && !me) E->on_mutate(k, "truncate");
    }
  }
  int o = ofd_alloc(); A->ofd[o].type = 1; A->ofd[o].ino = k; A->ofd[o].flags = flags; A->ofd[o].append = !!(flags & O_APPEND);
  ++A->inode[k].opens;
  int fd = fd_alloc(o); if (fd < 0) { ofd_unref(o); DONE(f, -1); }
  tlog("open %s flags %x = %d", n.c_str(), flags, fd);
  ev(OP_OPEN, fd, flags); evs(n.data(), n.size()); DONE(f, fd);
}
uint64_t cmd_epoch = 0;
int sys_close(int fd) {
  Ofd *o = fd_get(fd); if (!o) { op_enter(OP_CLOSE, CL_ANY); errno = EBADF; return -1; }
  Fault *f = op_enter(OP_CLOSE, ofd_cls(*o));
  if (f && f->kind == FK_ERRNO && o->type == 1 && o->refs == 1 && o->wepoch == cmd_epoch + 1 && !A->inode[o->ino].scratch) A->close_lost = 1;
  ofd_unref(fdt[fd] - 1); fdt[fd] = 0; ev(OP_CLOSE, fd); tlog("close %d", fd);
  FAIL_IF(f);                       // descriptor is released even when close reports an error
  DONE(f, 0);
}
static ssize_t stdin_read(void *b, size_t n) {
  if (me && A->proc[me].exec_done) return 0;           // a shell that shares the editor's input: its reads are not modelled
  if (me) { A->dup_editor = 1; die_run("duplicate-editor", "a forked child of the editor went on to read commands from standard input"); }
  Fault *f = op_enter(OP_STDIN, CL_STD); FAIL_IF(f);
  Fault fcopy; if (f) { fcopy = *f; f = &fcopy; }
  if (in_pos >= in_buf.size()) {
    in_buf.clear(); in_pos = 0; uint64_t ep = cmd_epoch; bool more = !in_eof && E->feed(in_buf);
    if (ep != cmd_epoch) f = nullptr;   // the fault belonged to the command that just ended
    if (!more) { in_eof = false; ev(OP_STDIN, 0); DONE(f, 0); }
    A->sim_us += 1000;
  }
  size_t k = in_buf.size() - in_pos; if (k > n) k = n;
  if (f && f->kind == FK_SHORT && (size_t)f->arg < k && f->arg > 0) k = f->arg;
  memcpy(b, in_buf.data() + in_pos, k); in_pos += k; ev(OP_STDIN, k);
  DONE(f, k);
}
ssize_t sys_read(int fd, void *b, size_t n) {
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->type == 4) return stdin_read(b, n);
  if (o->type == 2) {
    Fault *f = op_enter(OP_PREAD, CL_PIPE); FAIL_IF(f);
    Pipe &p = A->pipe[o->pipe];
    while (!p.len) { if (!p.writers) DONE(f, 0); block(W_PREAD, o->pipe, 0); }
    size_t k = n < p.len ? n : p.len;
    if (A->sched.chance(.4)) k = 1 + A->sched.below(k);      // short reads from pipes are always legal
    if (f && f->kind == FK_SHORT && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
    memcpy(b, p.buf, k); memmove(p.buf, p.buf + k, p.len - k); p.len -= k; ev(OP_PREAD, k); A->sim_us += 5;
    DONE(f, k);
  }
  if (o->type != 1) { errno = EBADF; return -1; }
  Fault *f = op_enter(OP_READ, ofd_cls(*o)); FAIL_IF(f);
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; DONE(f, -1); }
  Inode &in = A->inode[o->ino];
  if (in.type == I_DIR) { errno = EISDIR; DONE(f, -1); }
  if (in.type == I_CHR) DONE(f, 0);
  size_t k = o->pos < (int64_t)in.len ? in.len - o->pos : 0; if (k > n) k = n;
  if (f && f->kind == FK_SHORT && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
  memcpy(b, A->heap + in.off + o->pos, k); o->pos += k; A->sim_us += 20 + k / 100;
  ev(OP_READ, fd, k); tlog("read fd %d -> %zu", fd, k); DONE(f, k);
}
ssize_t sys_write(int fd, const void *b, size_t n) {
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->type == 5 || o->type == 6) {
    Fault *f = op_enter(o->type == 5 ? OP_STDOUT : OP_STDERR, CL_STD); FAIL_IF(f);
    size_t k = n; if (f && f->kind == FK_SHORT && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
    if (o->type == 5) { size_t c = sizeof A->out - A->out_len; if (c > k) c = k; else if (c < k) A->out_full = 1; memcpy(A->out + A->out_len, b, c); A->out_len += c; }
    else { size_t c = sizeof A->err - A->err_len; if (c > k) c = k; memcpy(A->err + A->err_len, b, c); A->err_len += c; }
    ev(o->type, k); evs((const char *)b, k); tlog("std%s <- %.*s", o->type == 5 ? "out" : "err", (int)(k > 80 ? 80 : k), (const char *)b); DONE(f, k);
  }
  if (o->type == 3) {
    Fault *f = op_enter(OP_PWRITE, CL_PIPE); FAIL_IF(f);
    Pipe &p = A->pipe[o->pipe];
    size_t done = 0;
    while (done < n) {
      if (!p.readers) {
        if (done) break;
        sim_signal_deliver(SIGPIPE); errno = EPIPE; DONE(f, -1);
      }
      size_t room = p.cap - p.len;
      if (!room) { block(W_PWRITE, o->pipe, 0); continue; }
      size_t k = n - done < room ? n - done : room;
      memcpy(p.buf + p.len, (const char *)b + done, k); p.len += k; done += k;
      if (f && f->kind == FK_SHORT && f->arg > 0 && done >= (size_t)f->arg) break;
    }
    ev(OP_PWRITE, done); A->sim_us += 5; DONE(f, done);
  }
  if (o->type != 1) { errno = EBADF; return -1; }
  Fault *f = op_enter(OP_WRITE, ofd_cls(*o)); FAIL_IF(f);
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; DONE(f, -1); }
  Inode &in = A->inode[o->ino];
  size_t k = n; if (f && f->kind == FK_SHORT && f->arg > 0 && (size_t)f->arg < k) k = f->arg;
  if (in.type == I_CHR) DONE(f, k);
  if (o->append) o->pos = in.len;
  int64_t &sp = in.scratch ? A->tspace : A->space;
  if (sp >= 0) {
    int64_t newb = o->pos + (int64_t)k - (int64_t)in.len; if (newb < 0) newb = 0;
    if (newb > sp) {                                   // disk full: as much as fits, then ENOSPC
      int64_t fit = (int64_t)k - (newb - sp);
      ++fault_counts[OP_WRITE][FK_FULL];
      if (fit <= 0) { errno = ENOSPC; tlog("ENOSPC fd %d", fd); ev(904, fd); DONE(f, -1); }
      k = fit; newb = sp;
    }
    sp -= newb;
  }
  size_t end = o->pos + k; grow(in, end); if ((size_t)o->pos > in.len) memset(A->heap + in.off + in.len, 0, o->pos - in.len);
  if (k) o->wepoch = cmd_epoch + 1;
  memcpy(A->heap + in.off + o->pos, b, k); o->pos = end; if (end > in.len) in.len = end; ++in.version; A->sim_us += 30 + k / 50;
  ev(OP_WRITE, fd, k); tlog("write fd %d %zu/%zu", fd, k, n);
  if (in.user && !me) E->on_mutate(o->ino, "write");
  DONE(f, k);
}
static off_t sys_lseek(int fd, off_t off, int wh) {
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->type == 4) {
    if (!stdin_seekable) { errno = ESPIPE; return -1; }
    if (wh == SEEK_CUR && off == 0) return in_pos;
    if (wh == SEEK_SET && off == 0) { errno = ESPIPE; return -1; }
    errno = ESPIPE; return -1;
  }
  if (o->type != 1) { errno = ESPIPE; return -1; }
  if (wh == SEEK_CUR && off == 0) return o->pos;   // only asks; no device is involved
  Fault *f = op_enter(OP_LSEEK, ofd_cls(*o)); FAIL_IF(f);
  int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->pos + off : (int64_t)A->inode[o->ino].len + off;
  if (p < 0) { errno = EINVAL; DONE(f, -1); }
  o->pos = p; ev(OP_LSEEK, fd, p); tlog("lseek fd %d %ld/%d = %ld", fd, (long)off, wh, (long)p); DONE(f, p);
}
static int sys_ftruncate(int fd, off_t len) {
  Ofd *o = fd_get(fd); if (!o) { errno = EBADF; return -1; }
  if (o->type != 1) { errno = EINVAL; return -1; }
  Fault *f = op_enter(OP_FTRUNC, ofd_cls(*o)); FAIL_IF(f);
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; DONE(f, -1); }
  Inode &in = A->inode[o->ino]; size_t l = len; if (in.type != I_REG) { errno = EINVAL; DONE(f, -1); }
  if (l < in.len) { int64_t &sp = in.scratch ? A->tspace : A->space; if (sp >= 0) sp += in.len - l; }
  grow(in, l); if (l > in.len) memset(A->heap + in.off + in.len, 0, l - in.len); in.len = l; ++in.version;
  ev(OP_FTRUNC, fd, l); tlog("ftruncate fd %d %zu", fd, l);
  if (in.user && !me) E->on_mutate(o->ino, "ftruncate");
  DONE(f, 0);
}
static void fill_stat(int k, struct stat *sb) {
  memset(sb, 0, sizeof *sb); Inode &n = A->inode[k]; sb->st_ino = n.ino; sb->st_dev = 1; sb->st_nlink = n.nlink; sb->st_size = n.len; sb->st_blksize = sim_blksize;
  sb->st_mode = n.mode | (n.type == I_REG ? S_IFREG : n.type == I_DIR ? S_IFDIR : n.type == I_FIFO ? S_IFIFO : S_IFCHR);
}
// ------------------------------------------------------------------ stdio streams over the seam
struct CFile { FILE *fp; int fd; int used; int pid; char *buf; };
static CFile cf[MAXFD];
static CFile *cf_find(FILE *fp) { for (auto &c : cf) if (c.used && c.fp == fp) return &c; return nullptr; }
static CFile *cf_need(FILE *fp, const char *fn) {
  CFile *c = cf_find(fp); if (c) return c;
  char m[128]; snprintf(m, sizeof m, "%s called on %s stream", fn, fp ? "a closed (dangling)" : "a null");
  die_run("crash", m); return nullptr;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return sys_read(((CFile *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t left = n;
  while (left) { ssize_t r = sys_write(((CFile *)c)->fd, b, left); if (r < 0) break; b += r; left -= r; }
  return n - left;
}
static int ck_seek(void *c, off64_t *p, int w) { off_t r = sys_lseek(((CFile *)c)->fd, *p, w); if (r < 0) return -1; *p = r; return 0; }
static int ck_close(void *c) { CFile *f = (CFile *)c; int fd = f->fd; f->used = 0; return sys_close(fd); }
static FILE *mk_stream(int fd, const char *mode) {
  CFile *c = nullptr; for (auto &x : cf) if (!x.used) { c = &x; break; }
  if (!c) die_run("harness", "stream table full");
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  c->fd = fd; c->pid = 0; FILE *fp = fopencookie(c, mode, io); if (!fp) return nullptr;
  c->fp = fp; c->used = 1;
  if (!c->buf) c->buf = (char *)malloc(4096);
  setvbuf(fp, c->buf, _IOFBF, sim_blksize);
  return fp;
}
static int mode_flags(const char *m) {
  bool plus = strchr(m, '+') != nullptr;
  switch (*m) { case 'r': return plus ? O_RDWR : O_RDONLY; case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; } return O_RDONLY;
}
// ================================================================== seam entry points
extern "C" {
FILE *sim_fopen(const char *p, const char *m) {
  int fd = sys_open(p, mode_flags(m), 0666); if (fd < 0) return nullptr;
  return mk_stream(fd, m);
}
FILE *sim_fdopen(int fd, const char *m) { if (!fd_get(fd)) return nullptr; return mk_stream(fd, m); }
FILE *sim_freopen(const char *p, const char *m, FILE *fp) {
  CFile *c = cf_need(fp, "freopen"); fflush(fp); sys_close(c->fd);
  int fd = sys_open(p, mode_flags(m), 0666); if (fd < 0) return nullptr;
  if (c->fd >= 0 && !fdt[c->fd]) { fdt[c->fd] = fdt[fd]; fdt[fd] = 0; } else c->fd = fd;
  clearerr(fp); return fp;
}
int sim_fclose(FILE *fp) { CFile *c = cf_need(fp, "fclose"); (void)c; return fclose(fp); }
int sim_fileno(FILE *fp) { CFile *c = cf_need(fp, "fileno"); return c->fd; }
int sim_fseeko(FILE *fp, off_t o, int w) { cf_need(fp, "fseek"); return fseeko(fp, o, w); }
off_t sim_ftello(FILE *fp) { cf_need(fp, "ftell"); return ftello(fp); }
int sim_fseek(FILE *fp, long o, int w) { cf_need(fp, "fseek"); return fseeko(fp, o, w); }
long sim_ftell(FILE *fp) { cf_need(fp, "ftell"); return ftello(fp); }
void sim_rewind(FILE *fp) { cf_need(fp, "rewind"); rewind(fp); }
size_t sim_fread(void *b, size_t s, size_t n, FILE *fp) { cf_need(fp, "fread"); return fread(b, s, n, fp); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *fp) { cf_need(fp, "fwrite"); return fwrite(b, s, n, fp); }
int sim_fflush(FILE *fp) { if (fp) cf_need(fp, "fflush"); return fflush(fp); }
int sim_getc(FILE *fp) { cf_need(fp, "getc"); return getc(fp); }
int sim_putc(int ch, FILE *fp) { cf_need(fp, "putc"); return putc(ch, fp); }
int sim_fputs(const char *s, FILE *fp) { cf_need(fp, "fputs"); return fputs(s, fp); }

int sim_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap); return sys_open(p, flags, m); }
int sim_creat(const char *p, unsigned m) { return sys_open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int sim_close(int fd) { return sys_close(fd); }
ssize_t sim_read(int fd, void *b, size_t n) { return sys_read(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return sys_write(fd, b, n); }
off_t sim_lseek(int fd, off_t o, int w) { return sys_lseek(fd, o, w); }
int sim_ftruncate(int fd, off_t l) { return sys_ftruncate(fd, l); }
int sim_truncate(const char *p, off_t l) { int fd = sys_open(p, O_WRONLY, 0); if (fd < 0) return -1; int r = sys_ftruncate(fd, l); sys_close(fd); return r; }
int sim_fsync(int fd) { return fd_get(fd) ? 0 : -1; }
int sim_stat(const char *p, struct stat *sb) {
  std::string n = vfs_norm(p); Fault *f = op_enter(OP_STAT, path_cls(n)); FAIL_IF(f);
  int d = *p ? dir_find(n) : -1; if (d < 0) { errno = ENOENT; DONE(f, -1); }
  fill_stat(A->dir[d].ino, sb); ev(OP_STAT, sb->st_ino); DONE(f, 0);
}
int sim_fstat(int fd, struct stat *sb) {
  Ofd *o = fd_get(fd); if (!o) return -1; Fault *f = op_enter(OP_FSTAT, ofd_cls(*o)); FAIL_IF(f);
  if (o->type == 1) fill_stat(o->ino, sb); else { memset(sb, 0, sizeof *sb); sb->st_mode = S_IFIFO | 0600; }
  DONE(f, 0);
}
int sim_access(const char *p, int mode) {
  std::string n = vfs_norm(p); Fault *f = op_enter(OP_ACCESS, path_cls(n)); FAIL_IF(f);
  int d = *p ? dir_find(n) : -1; if (d < 0) { errno = ENOENT; DONE(f, -1); }
  unsigned m = A->inode[A->dir[d].ino].mode;
  if (((mode & W_OK) && !(m & 0200)) || ((mode & R_OK) && !(m & 0400))) { errno = EACCES; DONE(f, -1); }
  DONE(f, 0);
}
int sim_unlink(const char *p) {
  std::string n = vfs_norm(p); Fault *f = op_enter(OP_UNLINK, path_cls(n)); FAIL_IF(f);
  int d = dir_find(n); if (d < 0) { errno = ENOENT; DONE(f, -1); }
  int k = A->dir[d].ino; bool u = A->inode[k].user; tlog("unlink %s", n.c_str());
  A->dir[d].used = 0; --A->inode[k].nlink; if (u && !me) E->on_mutate(k, "unlink"); unref_inode(k); ev(OP_UNLINK, k); DONE(f, 0);
}
int sim_rename(const char *a, const char *b) {
  Fault *f = op_enter(OP_RENAME, path_cls(vfs_norm(a))); FAIL_IF(f);
  int d = dir_find(vfs_norm(a)); if (d < 0) { errno = ENOENT; DONE(f, -1); }
  int k = A->dir[d].ino; vfs_rename(a, b); if (!me) E->on_mutate(k, "rename"); DONE(f, 0);
}
int sim_mkstemp(char *t) {
  size_t l = strlen(t); if (l < 6 || strcmp(t + l - 6, "XXXXXX")) { errno = EINVAL; return -1; }
  Fault *f = op_enter(OP_MKSTEMP, CL_SCRATCH); FAIL_IF(f);
  snprintf(t + l - 6, 7, "%06llu", (unsigned long long)++A->mkseq);
  std::string n = vfs_norm(t); if (parent_ok(n) < 0) DONE(f, -1);
  int k = new_inode(n, I_REG, 0600); A->inode[k].scratch = 1;
  int o = ofd_alloc(); A->ofd[o].type = 1; A->ofd[o].ino = k; A->ofd[o].flags = O_RDWR; ++A->inode[k].opens;
  int fd = fd_alloc(o); tlog("mkstemp %s = %d", t, fd); ev(OP_MKSTEMP, fd); DONE(f, fd);
}
int sim_flock(int fd, int op) {
  Ofd *o = fd_get(fd); if (!o) return -1; Fault *f = op_enter(OP_FLOCK, ofd_cls(*o)); FAIL_IF(f);
  if (o->type == 1 && A->inode[o->ino].lock_owner && (op & (LOCK_EX | LOCK_SH))) { errno = EWOULDBLOCK; DONE(f, -1); }
  DONE(f, 0);
}
int sim_fcntl(int fd, int cmd, ...) {
  Ofd *o = fd_get(fd); if (!o) return -1; Fault *f = op_enter(OP_FCNTL, ofd_cls(*o)); FAIL_IF(f);
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    if (o->type == 1 && A->inode[o->ino].lock_owner) { errno = EAGAIN; DONE(f, -1); }
  }
  if (cmd == F_GETFL) DONE(f, o->flags);
  DONE(f, 0);
}
int sim_dup2(int a, int b) {
  Ofd *o = fd_get(a); if (!o) return -1; Fault *f = op_enter(OP_DUP2, ofd_cls(*o)); FAIL_IF(f);
  if (a == b) return b; if (b < 0 || b >= MAXFD) { errno = EBADF; return -1; }
  if (fdt[b]) ofd_unref(fdt[b] - 1); fdt[b] = fdt[a]; ++o->refs; DONE(f, b);
}
int sim_dup(int a) { Ofd *o = fd_get(a); if (!o) return -1; int fd = fd_alloc(fdt[a] - 1); if (fd >= 0) ++o->refs; return fd; }
static int mk_pipe(int p[2]) {
  int k = -1; for (int i = 0; i < MAXPIPE; ++i) if (!A->pipe[i].used) { k = i; break; }
  if (k < 0) { errno = ENFILE; return -1; }
  Pipe &q = A->pipe[k]; q.used = 1; q.readers = q.writers = 1; q.len = 0;
  static const int caps[] = {16, 64, 200, 1024, 4096}; q.cap = caps[A->sched.below(5)];
  int a = ofd_alloc(); A->ofd[a].type = 2; A->ofd[a].pipe = k;
  int b = ofd_alloc(); A->ofd[b].type = 3; A->ofd[b].pipe = k;
  p[0] = fd_alloc(a); p[1] = fd_alloc(b);
  if (p[0] < 0 || p[1] < 0) { if (p[0] >= 0) fdt[p[0]] = 0; ofd_unref(a); ofd_unref(b); errno = EMFILE; return -1; }
  ev(OP_PIPE, p[0], p[1]); return 0;
}
int sim_pipe(int p[2]) { Fault *f = op_enter(OP_PIPE, CL_PIPE); FAIL_IF(f); int r = mk_pipe(p); DONE(f, r); }
static int do_fork(bool spawn = false) {
  int s = -1; for (int i = 1; i < MAXPROC; ++i) if (A->proc[i].state == P_FREE) { s = i; break; }
  if (s < 0) { errno = EAGAIN; return -1; }
  Proc &c = A->proc[s]; c.pid = A->next_pid++; c.ppid = A->proc[me].pid; c.status = 0; c.pending = 0; c.wkind = 0; c.exec_done = 0;
  for (int i = 0; i < MAXFD; ++i) if (fdt[i]) ++A->ofd[fdt[i] - 1].refs;
  c.state = P_RUN; ++A->nlive;
  pid_t mypid = getpid();
  pid_t r = ::fork();
  if (r < 0) die_run("harness", "real fork failed");
  if (r == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != mypid) _exit(0);
    me = s; step_watch = ~0ull; pend = 0;
    while (sem_wait(&A->proc[me].sem) && errno == EINTR) {}
    if (spawn) memset(acts, 0, sizeof acts);          // posix_spawn: handlers are reset before signals are unblocked
    if (A->proc[me].pending) take_pending();
    return 0;
  }
  c.realpid = r; ev(OP_FORK, c.pid); tlog("fork -> p%d", s);
  return c.pid;
}
int sim_fork(void) {
  Fault *f = op_enter(OP_FORK, CL_ANY); FAIL_IF(f);
  int who = me; int r = do_fork(); if (r == 0) return 0; (void)who;
  if (r > 0) yield();
  DONE(f, r);
}
// a vfork child runs while its parent is suspended until it execs or exits
int sim_vfork(void) {
  Fault *f = op_enter(OP_FORK, CL_ANY); FAIL_IF(f);
  int r = do_fork(); if (r == 0) return 0;
  if (r > 0) block(W_EXEC, 0, r);
  DONE(f, r);
}
static int do_wait(int pid, int *st) {
  for (;;) {
    bool any = false;
    for (int i = 1; i < MAXPROC; ++i) { Proc &c = A->proc[i];
      if (c.state == P_FREE || c.ppid != A->proc[me].pid || (pid > 0 && c.pid != pid)) continue;
      any = true;
      if (c.state == P_ZOMBIE) { int r = c.pid; if (st) *st = c.status; if (me == 0) waitpid(c.realpid, nullptr, 0); c.state = P_FREE; ev(OP_WAIT, r); return r; }
    }
    if (!any) { errno = ECHILD; return -1; }
    block(W_CHILD, 0, pid);
  }
}
int sim_waitpid(int pid, int *st, int opt) {
  Fault *f = op_enter(OP_WAIT, CL_ANY); FAIL_IF(f);
  if (opt & WNOHANG) {
    for (int i = 1; i < MAXPROC; ++i) { Proc &c = A->proc[i]; if (c.state == P_ZOMBIE && c.ppid == A->proc[me].pid && (pid <= 0 || c.pid == pid)) { int r = do_wait(c.pid, st); DONE(f, r); } }
    DONE(f, 0);
  }
  int r = do_wait(pid, st); DONE(f, r);
}
int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_kill(int pid, int sig) {
  op_enter(OP_NONE, CL_ANY);
  for (int i = 0; i < MAXPROC; ++i) if (A->proc[i].state != P_FREE && A->proc[i].pid == pid) {
    if (i == me) sim_signal_deliver(sig); else if (A->proc[i].state != P_ZOMBIE) A->proc[i].pending |= 1 << sig; return 0; }
  errno = ESRCH; return -1;
}
[[noreturn]] static void do_exec(const char *cmd) {
  memset(acts, 0, sizeof acts); pend = 0;              // caught signals revert to default on exec
  sigset_t z; sigemptyset(&z); sigprocmask(SIG_SETMASK, &z, nullptr);
  ++A->shell_execs; A->proc[me].exec_done = 1; ev(OP_EXEC, 0); evs(cmd, strlen(cmd)); tlog("exec sh -c %s", cmd);
  int st = shell_main(cmd);
  proc_exit((st & 255) << 8);
}
int sim_execl(const char *path, const char *a0, ...) {
  Fault *f = op_enter(OP_EXEC, CL_ANY); FAIL_IF(f);
  va_list ap; va_start(ap, a0); const char *last = a0, *a; while ((a = va_arg(ap, const char *))) last = a; va_end(ap); (void)path;
  do_exec(last); return -1;
}
int sim_execv(const char *path, char *const av[]) { (void)path; const char *l = ""; for (int i = 0; av[i]; ++i) l = av[i]; do_exec(l); return -1; }
FILE *sim_popen(const char *cmd, const char *m) {
  E->on_shell(cmd);
  Fault *f = op_enter(OP_FORK, CL_ANY); if (f && f->kind == FK_ERRNO) { errno = (int)f->arg; return nullptr; }
  int p[2]; if (mk_pipe(p) < 0) return nullptr;
  bool rd = *m == 'r';
  int pid = do_fork(true);
  if (pid == 0) {
    int w = rd ? p[1] : p[0], t = rd ? 1 : 0;
    if (fdt[t]) ofd_unref(fdt[t] - 1);
    fdt[t] = fdt[w]; ++A->ofd[fdt[w] - 1].refs;
    for (int k = 0; k < 2; ++k) { ofd_unref(fdt[p[k]] - 1); fdt[p[k]] = 0; }
    do_exec(cmd);
  }
  int keep = rd ? p[0] : p[1], drop = rd ? p[1] : p[0];
  ofd_unref(fdt[drop] - 1); fdt[drop] = 0;
  if (pid < 0) { ofd_unref(fdt[keep] - 1); fdt[keep] = 0; return nullptr; }
  block(W_EXEC, 0, pid);
  FILE *fp = mk_stream(keep, m); cf_find(fp)->pid = pid;
  if (f) op_leave(f);
  return fp;
}
int sim_pclose(FILE *fp) {
  CFile *c = cf_need(fp, "pclose"); int pid = c->pid; int st = 0; bool gone = c->fd < 0 || c->fd >= MAXFD || !fdt[c->fd]; fclose(fp); 
  if (gone) { errno = EBADF; return -1; }               // glibc: without its descriptor, the command is not waited for
  Fault *f = op_enter(OP_WAIT, CL_ANY); if (f && f->kind == FK_ERRNO && f->arg != EINTR) { errno = (int)f->arg; return -1; }
  if (do_wait(pid, &st) < 0) return -1; if (f) op_leave(f); return st;
}
int sim_system(const char *cmd) { FILE *fp = sim_popen(cmd, "w"); if (!fp) return -1; return sim_pclose(fp); }

void sim__exit(int n) { proc_exit((n & 255) << 8); }
void sim_exit(int n) { fflush(stdout); fflush(stderr); proc_exit((n & 255) << 8); }
void sim_abort(void) { die_run("crash", "abort() called"); }

int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = acts[s].set ? acts[s].h : SIG_DFL; }
  if (a) { acts[s].h = a->sa_handler; acts[s].flags = a->sa_flags; acts[s].mask = a->sa_mask; acts[s].set = 1; }
  return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h) { sh_t o = acts[s].set ? acts[s].h : SIG_DFL; acts[s].h = h; acts[s].set = h != SIG_DFL; sigemptyset(&acts[s].mask); return o; }

char *sim_getenv(const char *n) { auto it = sim_env.find(n); return it == sim_env.end() ? nullptr : (char *)it->second.c_str(); }
char *sim_getpass(const char *) {
  static char b[128]; if (key_i >= sim_keys.size()) { b[0] = 0; return b; }
  snprintf(b, sizeof b, "%s", sim_keys[key_i++].c_str()); return b;
}
int sim_isatty(int fd) { Ofd *o = fd_get(fd); if (o && o->type == 4) { if (stdin_tty) return 1; errno = ENOTTY; return 0; } errno = ENOTTY; return 0; }
int sim_ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void *p = va_arg(ap, void *); va_end(ap); (void)fd;
  if (rq == TIOCGWINSZ && stdin_tty) { struct winsize w = {(unsigned short)A->ws_row, (unsigned short)A->ws_col, 0, 0}; memcpy(p, &w, sizeof w); return 0; }
  errno = ENOTTY; return -1;
}
void sim_arc4random_buf(void *b, size_t n) { uint8_t *p = (uint8_t *)b; for (size_t i = 0; i < n; ++i) p[i] = sim_pad[i % 8]; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { sim_arc4random_buf(b, n); return n; }
int sim_getentropy(void *b, size_t n) { sim_arc4random_buf(b, n); return 0; }
uint32_t sim_arc4random(void) { uint32_t x; memcpy(&x, sim_pad, 4); return x; }

// allocator: failures only for the editor's own requests
static bool alloc_fail() { if (!sim_on || me || ed_done) return false; Fault *f = E->on_op(OP_MALLOC, CL_ANY); if (f && f->kind == FK_ERRNO) { ++fault_counts[OP_MALLOC][FK_ERRNO]; ev(905); tlog("fault malloc"); if (getenv("EDSIM_FBT")) { void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); } errno = ENOMEM; return true; }
  if (f && f->kind == FK_WINCH) { ++fault_counts[OP_MALLOC][f->kind]; sim_winch(labs(f->arg)); }
  if (f && (f->kind == FK_SIGNAL)) { ++fault_counts[OP_MALLOC][f->kind]; sim_signal_deliver(f->arg < 0 ? -f->arg : f->arg); } return false; }
#ifdef EDSIM_ASAN
void *sim_malloc(size_t n) { return alloc_fail() ? nullptr : malloc(n); }
void *sim_calloc(size_t a, size_t b) { return alloc_fail() ? nullptr : calloc(a, b); }
void *sim_realloc(void *p, size_t n) { return alloc_fail() ? nullptr : realloc(p, n); }
void sim_free(void *p) { free(p); }
char *sim_strdup(const char *s) { return alloc_fail() ? nullptr : strdup(s); }
char *sim_strndup(const char *s, size_t n) { return alloc_fail() ? nullptr : strndup(s, n); }
#else
// Every block carries a header and a canary right behind its last byte. Freed blocks are poisoned, and, as the run's
// seed decides, either held back (stale reads see poison, stale writes show on release) or reused at once, newest first.
struct Hdr { Hdr *prev, *next; size_t n; uint64_t magic; };
static const uint64_t LIVE = 0xA11C0DE5EEDF00Dull, DEAD = 0xDEADB10CDEADB10Cull, CAN = 0xC3A5C3A5C3A5C3A5ull;
static Hdr blocks = {&blocks, &blocks, 0, 0}; static Hdr *pool[40];
static void *blk_new(size_t n) {
  size_t k = (n + 15) / 16; Hdr *h;
  if (k < 40 && pool[k]) { h = pool[k]; pool[k] = h->next; const unsigned char *c = (unsigned char *)(h + 1); for (size_t i = 0; i < k * 16; ++i) if (c[i] != 0xDD) die_run("crash", "memory written to after it was freed"); }
  else h = (Hdr *)malloc(sizeof(Hdr) + k * 16 + 8);
  if (!h) return nullptr;
  h->n = n; h->magic = LIVE; h->next = blocks.next; h->prev = &blocks; blocks.next->prev = h; blocks.next = h;
  memset(h + 1, 0xCD, k * 16); memcpy((char *)(h + 1) + n, &CAN, 8); return h + 1;
}
static bool blk_bad(Hdr *h) { return memcmp((char *)(h + 1) + h->n, &CAN, 8) != 0; }
void sim_check_heap() { for (Hdr *h = blocks.next; h != &blocks; h = h->next) if (blk_bad(h)) die_run("crash", "memory written to past the end of an allocated block"); }
void *sim_malloc(size_t n) { if (alloc_fail()) return nullptr; return blk_new(n); }
void *sim_calloc(size_t a, size_t b) { if (alloc_fail()) return nullptr; void *p = blk_new(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) {
  static Hdr *q[512]; static unsigned qi; if (!p) return; Hdr *h = (Hdr *)p - 1;
  if (h->magic == DEAD) die_run("crash", "memory freed twice");
  if (h->magic != LIVE) { free(p); return; }            // the C library's own
  if (blk_bad(h)) die_run("crash", "memory written to past the end of an allocated block");
  h->magic = DEAD; h->prev->next = h->next; h->next->prev = h->prev; size_t k = (h->n + 15) / 16; memset(p, 0xDD, k * 16);
  if (sim_mem_reuse && k < 40) { h->next = pool[k]; pool[k] = h; return; }
  std::swap(h, q[qi]); qi = (qi + 1) % 512; if (!h) return;
  k = (h->n + 15) / 16; for (size_t i = 0; i < k * 16 && i < 512; ++i) if (((unsigned char *)(h + 1))[i] != 0xDD) die_run("crash", "memory written to after it was freed");
  h->magic = 0; free(h);
}
void *sim_realloc(void *p, size_t n) {
  if (alloc_fail()) return nullptr;
  if (p && ((Hdr *)p - 1)->magic != LIVE) return realloc(p, n);
  void *q = blk_new(n); if (q && p) { size_t k = ((Hdr *)p - 1)->n; memcpy(q, p, k < n ? k : n); sim_free(p); } return q;
}
char *sim_strdup(const char *s) { if (alloc_fail()) return nullptr; size_t n = strlen(s) + 1; return (char *)memcpy(blk_new(n), s, n); }
char *sim_strndup(const char *s, size_t n) { if (alloc_fail()) return nullptr; size_t k = strnlen(s, n); char *p = (char *)memcpy(blk_new(k + 1), s, k); p[k] = 0; return p; }
#endif

// a lock already held by the only thread can never be released: report instead of hanging
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  int r = pthread_mutex_trylock(m);
  if (r == EBUSY) die_run("hang", "self-deadlock: mutex left locked by an interrupted call is locked again");
  return r;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return pthread_mutex_unlock(m); }

// glob(3) over the virtual file system
struct GDir { std::string path; int i; struct dirent de; };
static void *g_opendir(const char *p) {
  std::string n = vfs_norm(p); int d = dir_find(n); if (d < 0 || A->inode[A->dir[d].ino].type != I_DIR) { errno = ENOENT; return nullptr; }
  GDir *g = new GDir; g->path = n == "/" ? "" : n; g->i = 0; return g;
}
static struct dirent *g_readdir(void *v) {
  GDir *g = (GDir *)v;
  for (; g->i < MAXDIRENT; ++g->i) { Dirent &d = A->dir[g->i]; if (!d.used) continue; std::string p = d.path;
    if (p.size() > g->path.size() + 1 && p.compare(0, g->path.size(), g->path) == 0 && p[g->path.size()] == '/' && p.find('/', g->path.size() + 1) == std::string::npos) {
      memset(&g->de, 0, sizeof g->de); g->de.d_ino = A->inode[d.ino].ino; g->de.d_type = DT_UNKNOWN; snprintf(g->de.d_name, sizeof g->de.d_name, "%s", p.c_str() + g->path.size() + 1); ++g->i; return &g->de; } }
  return nullptr;
}
static void g_closedir(void *v) { delete (GDir *)v; }
static int g_stat(const char *p, struct stat *sb) { int k = vfs_lookup(p); if (k < 0) { errno = ENOENT; return -1; } fill_stat(k, sb); return 0; }
// the result lives in the editor's heap, which the editor itself frees parts of
void sim_globfree(glob_t *g) { if (g->gl_pathv) { for (size_t i = 0; i < g->gl_pathc; ++i) sim_free(g->gl_pathv[i]); sim_free(g->gl_pathv); g->gl_pathv = nullptr; } }
int sim_glob(const char *p, int fl, int (*ef)(const char *, int), glob_t *g) {
  glob_t t; memset(&t, 0, sizeof t); t.gl_opendir = g_opendir; t.gl_readdir = g_readdir; t.gl_closedir = g_closedir; t.gl_stat = g_stat; t.gl_lstat = g_stat;
  int r = glob(p, (fl & ~(GLOB_TILDE | GLOB_TILDE_CHECK | GLOB_APPEND)) | GLOB_ALTDIRFUNC, ef, &t);
  if (!(fl & GLOB_APPEND)) { g->gl_pathc = 0; g->gl_pathv = nullptr; }
  size_t n = r ? 0 : t.gl_pathc;
  if (n) {
    char **v = (char **)sim_realloc(g->gl_pathv, (g->gl_pathc + n + 1) * sizeof *v); if (!v) r = GLOB_NOSPACE; else { g->gl_pathv = v; v[g->gl_pathc] = nullptr; }
    for (size_t i = 0; !r && i < n; ++i) { size_t l = strlen(t.gl_pathv[i]) + 1; char *q = (char *)sim_malloc(l); if (!q) { r = GLOB_NOSPACE; break; } memcpy(q, t.gl_pathv[i], l); g->gl_pathv[g->gl_pathc++] = q; g->gl_pathv[g->gl_pathc] = nullptr; }
    if (r) { sim_globfree(g); g->gl_pathc = 0; }
  }
  globfree(&t); return r;
}
unsigned sim_sleep(unsigned n) { A->sim_us += n * 1000000ull; return 0; }
long sim_time(long *t) { long v = 1700000000 + A->sim_us / 1000000; if (t) *t = v; return v; }

// coverage + logical clock: every basic block edge of the editor
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return; for (uint32_t *x = a; x < b; ++x) *x = ++cov_n;
}
static uint64_t my_steps;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!sim_on) return;
  if (cov_map && !cov_map[*g]) cov_map[*g] = 1;
  if (pend) check_pending();
  ++A->steps;
  if (++my_steps >= step_watch) E->on_step();
  if (my_steps > step_limit) { E->over_limit(); die_run("hang", "no end to the computation: step limit exceeded"); }
}
int ed_main(int, char **);
}
uint64_t sim_my_steps() { return my_steps; }

void crash_report(const char *kind, const char *msg);
static void crash_handler(int s) {
  if (getenv("EDSIM_BT")) { void *b[40]; backtrace_symbols_fd(b, backtrace(b, 40), 2); }
  char m[96]; snprintf(m, sizeof m, "fatal signal %d (%s) in the editor", s, s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGALRM ? "watchdog" : "?");
  signal(s, SIG_DFL); crash_report(s == SIGALRM ? "watchdog" : "crash", m); _exit(3);
}
int run_ed(std::vector<std::string> args) {
  static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  sigaction(SIGABRT, &sa, nullptr); sigaction(SIGALRM, &sa, nullptr);
  Proc &p = A->proc[0]; p.state = P_RUN; p.pid = A->next_pid++; p.ppid = 1; A->nlive = 1; me = 0;
  int o0 = ofd_alloc(); A->ofd[o0].type = 4; int o1 = ofd_alloc(); A->ofd[o1].type = 5; int o2 = ofd_alloc(); A->ofd[o2].type = 6;
  fdt[0] = o0 + 1; fdt[1] = o1 + 1; fdt[2] = o2 + 1;
  stdin = mk_stream(0, "r"); stdout = mk_stream(1, "w"); stderr = mk_stream(2, "w"); setvbuf(stderr, nullptr, _IONBF, 0);
  static std::vector<std::string> keep; keep = args; static std::vector<char *> av; for (auto &s : keep) av.push_back(&s[0]); av.push_back(nullptr);
  sim_on = true; step_watch = 1;
  int rc = ed_main((int)keep.size(), av.data());
  proc_exit((rc & 255) << 8); return 0;
}
void sim_clear_stdin() { in_buf.clear(); in_pos = 0; in_eof = false; }
int sim_open_fds() { int n = 0; for (int i = 3; i < MAXFD; ++i) if (fdt[i]) ++n; return n; }
