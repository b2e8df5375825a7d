// Traces (replayable executions), run results and the engine interface.
#pragma once
#include "model.h"
#include <atomic>
#define T(n) (1u << (n))
struct TFile { string path; unsigned mode; string data; };
struct Cmd { int uid = 0; vector<string> lines; uint64_t sched = 1; vector<Fault> faults; };
struct Trace {
  uint64_t seed = 0; string profile; vector<string> argv; map<string, string> env; vector<string> keys;
  int blksize = 512; bool tty = false, seekable = false; long space = -1, tspace = -1; string stdin_text; int dumb = 0;
  vector<TFile> files; vector<Cmd> cmds; uint64_t start_sched = 1; vector<Fault> start_faults;
  string text() const; bool parse(const string &t);
};
string esc(const string &s); bool unesc(const char *&p, string &o);
struct Result {                       // shared between a run and its worker
  volatile int set; char kind[40]; char msg[2400]; uint32_t tags;
  uint64_t ev_hash, ev_count, sim_us, switches, steps, cmds, probes, path_states, shells, fired;
  uint64_t faults[OP_MAX][FK_MAX];
  uint64_t unknowns, resyncs, errors; int harness; int done; int nontrivial;
  uint64_t dry[OP_MAX][CL_MAX]; uint64_t dry_steps; int dry_ok;
  char probe[1 << 19]; size_t probe_len; int probe_done; int probe_exit;
  char trace[1 << 19];
};
struct Shared {                       // across workers
  std::atomic<uint64_t> runs, cmds, probes, path_states, sim_us, switches, steps, shells, fired, unknowns, errors, events, other, harness, nontrivial, nonrepro;
  std::atomic<uint64_t> faults[OP_MAX][FK_MAX];
  std::atomic<int> stop; std::atomic<int> nviol;
  std::atomic<uint8_t> states[1 << 23];   // bitmap of state hashes
  std::atomic<uint8_t> execs[1 << 20];
  uint8_t cov[1 << 16];
};
extern Result *R; extern Shared *SH;
struct Profile;
extern const Profile *find_profile(const string &id);
const string &profile_at(uint64_t i);
void gen_setup(Trace &t, const string &prop, Rng &r);
struct GenState { vector<vector<string>> pend; bool multi = false; int want = 12; int after_err = 0; set<string> names; int uid = 1; };
// generator: next command for the current model state; false = end the session
bool gen_command(const Profile *p, Model &m, Rng &r, Cmd &c, int count, GenState &gs);
struct FaultPlan { int op, cls, kind; long arg; };
void plan_faults(const Profile *p, Rng &r, Cmd &c, Result *res);
bool want_faults(const Profile *p, Rng &r, const Cmd &c);
// a run whose commands come from -e and -f
struct Batch { bool on = false, inplace = false, has_suffix = false; string suffix, script; vector<string> files; };
Batch parse_batch(const Trace &t);
[[noreturn]] void simulate(Trace &t, const Profile *gen);
uint32_t profile_tags(const string &id);
int profile_cmds(const Profile *p, Rng &r);
