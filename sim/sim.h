// edsim: deterministic simulator for the ed line editor.
// The real ed objects are linked with every libc entry point that reaches the
// outside world redirected (objcopy --redefine-sym) to the sim_* seam below.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <semaphore.h>
#include <sys/types.h>

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  // the streams of neighbouring seeds must not be each other's, moved by one draw
  explicit Rng(uint64_t seed = 1) : s(seed + 0x1234567) { for (int i = 0; i < 2; ++i) { s ^= s >> 33; s *= 0xFF51AFD7ED558CCDull; s ^= s >> 33; s *= 0xC4CEB9FE1A85EC53ull; s ^= s >> 33; s += 0x5851F42D4C957F2Dull; } next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return b <= a ? a : a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}

// ---------------------------------------------------------------- ops
enum Op {
  OP_NONE, OP_OPEN, OP_READ, OP_WRITE, OP_LSEEK, OP_FTRUNC, OP_CLOSE, OP_STAT, OP_ACCESS,
  OP_UNLINK, OP_MKSTEMP, OP_FLOCK, OP_FCNTL, OP_PIPE, OP_FORK, OP_WAIT, OP_DUP2, OP_EXEC,
  OP_MALLOC, OP_STDIN, OP_STDOUT, OP_STEP, OP_PREAD, OP_PWRITE, OP_RENAME, OP_FSTAT, OP_STDERR, OP_MAX
};
extern const char *op_name[OP_MAX];

// which family of files an i/o op touches
enum Cls { CL_ANY, CL_SCRATCH, CL_USER, CL_PIPE, CL_STD, CL_MAX };
extern const char *cls_name[CL_MAX];
void sim_winch(long arg);      // rows + 65536 * columns

enum FKind { FK_NONE, FK_ERRNO, FK_SHORT, FK_SIGNAL, FK_FULL, FK_ACTOR, FK_KILL, FK_SIGALL, FK_WINCH, FK_MAX };
// A fault: "the nth op of this (op, class) within command `cmd`".
struct Fault {
  int cmd = 0;          // command uid
  int op = OP_NONE;
  int cls = CL_ANY;
  int nth = 0;          // 1-based within command
  int kind = FK_NONE;
  long arg = 0;         // errno, length, signo, bytes
  int sticky = 0;       // keeps firing until the command ends
  int fired = 0;
};

// ---------------------------------------------------------------- arena
constexpr int MAXINO = 96, MAXDIRENT = 128, MAXOFD = 160, MAXPIPE = 24, MAXPROC = 20, MAXFD = 48;
enum IType { I_FREE, I_REG, I_DIR, I_FIFO, I_CHR };

struct Inode {
  int type; int nlink; int opens; unsigned mode; uint64_t ino;
  size_t len, cap; size_t off;   // data at arena heap offset
  int scratch;                    // created by mkstemp
  int user;                       // user file
  uint64_t version;               // bumped on each content change
  int lock_owner;                 // external lock holder (0 none)
};
struct Dirent { int used; int ino; char path[120]; };
struct Ofd {
  int refs; int type; // 0 free 1 file 2 pipe-r 3 pipe-w 4 stdin 5 stdout 6 stderr
  int ino; int pipe; int64_t pos; int flags; int append; uint64_t wepoch;
};
struct Pipe { int used; int readers, writers; size_t cap; size_t len; char buf[4096]; };
enum PState { P_FREE, P_RUN, P_BLOCK, P_ZOMBIE };
enum { W_NONE, W_PREAD, W_PWRITE, W_CHILD, W_EXEC };
struct Proc {
  int state, pid, ppid, status, wkind, wpipe, wpid; int pending; int realpid; int term_inherit;
  int exec_done; sem_t sem;
};

struct Verdict { int set; char kind[40]; char msg[1600]; };

struct Arena {
  size_t used;
  Inode inode[MAXINO];
  Dirent dir[MAXDIRENT];
  Ofd ofd[MAXOFD];
  Pipe pipe[MAXPIPE];
  Proc proc[MAXPROC];
  int nlive;
  uint64_t next_ino;
  int next_pid;
  Rng sched;
  uint64_t ev_hash; uint64_t ev_count;
  uint64_t steps;             // total basic blocks
  uint64_t switches;          // context switches between simulated processes
  int64_t space;              // bytes free on the data disk (-1 unlimited)
  int64_t tspace;             // bytes free on the scratch disk (-1 unlimited)
  int ws_row, ws_col;         // size of the terminal
  uint64_t sim_us;            // simulated time
  size_t out_len, err_len; int out_full;
  Verdict v;
  int dup_editor;
  int violations;
  uint64_t mkseq;
  int shell_execs;            // shells executed
  int ed_exit_sig; int close_lost;   // closing a file just written was refused
  int kill_after;
  char out[1 << 17];
  char err[1 << 15];
  char heap[1];
};
constexpr size_t ARENA_SIZE = 48u << 20;
constexpr uintptr_t ARENA_ADDR = 0x200000000000ull;
extern Arena *A;
extern int me;                // current simulated process index (0 = ed)
extern bool sim_on;           // seam active

struct OpCtx { int op; int cls; const char *path; };

// ---------------------------------------------------------------- engine hooks
struct Engine {
  virtual ~Engine() {}
  // next bytes for stdin; called when fd 0 has no bytes pending. Return false = EOF.
  virtual bool feed(std::string &out) = 0;
  // consulted at each seam op. returns fault to apply or null
  virtual Fault *on_op(int op, int cls) = 0;
  virtual void on_step() = 0;
  virtual void over_limit() = 0;                 // the step limit was reached; returns if that is a hang
  virtual void on_exit(int status, int sig) = 0;  // ed process exits
  virtual void on_mutate(int ino, const char *what) = 0; // user file content changed
  virtual void on_shell(const char *cmd) = 0;
  virtual void on_open(const char *path, int flags) = 0;
};
extern Engine *E;
extern uint64_t cmd_epoch;          // counts commands fed
extern uint64_t step_watch;     // when A->steps == step_watch call E->on_step

void sim_reset_run();           // new arena etc.
int  vfs_mkfile(const std::string &path, const std::string &data, unsigned mode = 0644, int type = I_REG);
int  vfs_lookup(const std::string &path);         // inode index or -1
std::string vfs_norm(const std::string &p);
std::string vfs_data(int ino);
void vfs_setdata(int ino, const std::string &d);
bool vfs_read(const std::string &path, std::string &out);
void vfs_unlink(const std::string &path);
void vfs_rename(const std::string &a, const std::string &b);
std::vector<std::string> vfs_list();
void sim_signal_deliver(int signo);
void sim_signal_all(int signo);
void verdict(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_run();
void ev(uint64_t a, uint64_t b = 0, uint64_t c = 0);
void evs(const char *s, size_t n);
int  run_ed(std::vector<std::string> args);
void arena_privatise();
extern bool trace_text;         // print event log to stderr(real)
void tlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern std::map<std::string, std::string> sim_env;
extern std::vector<std::string> sim_keys;   // getpass replies
extern uint8_t sim_pad[8];                  // what every source of randomness yields in this run
extern bool stdin_tty, stdin_seekable;
extern std::string stdin_static;
extern uint8_t *cov_map; extern uint32_t cov_n;
extern uint64_t fault_counts[OP_MAX][FK_MAX];
extern int real_result_fd;
extern bool in_probe; extern bool sim_mem_reuse;
extern "C" void sim_check_heap();
extern uint64_t step_limit;
extern std::vector<std::string> shell_log;
extern std::function<std::string(const std::string&)> shell_model;
int shell_main(const char *cmd);  // stub shell (runs in simulated child)
// raw seam syscalls used by shell stub
ssize_t sys_read(int fd, void *b, size_t n);
ssize_t sys_write(int fd, const void *b, size_t n);
int sys_open(const char *p, int flags, unsigned mode);
int sys_close(int fd);
std::string shell_apply(const std::string &cmd, const std::string &in, bool *reads_all, int *status, std::map<std::string,std::string> *writes);
extern std::vector<std::string> shell_wrote;
