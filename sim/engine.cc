// The engine: feeds commands, injects the trace's faults, predicts every command
// with the model and compares it with the real editor's state, seen through clones.
#include "driver.h"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
extern int sim_blksize; uint64_t sim_my_steps(); void sim_clear_stdin(); void sim_reap_orphans(); int sim_open_fds();
Result *R; Shared *SH;
static const char PROMPT[] = "\001ED>"; static const size_t PL = sizeof PROMPT - 1;
enum { M_MAIN, M_DRY, M_PROBE };
static int mode = M_MAIN; static pid_t main_pid; static bool ended;
struct Probe { bool ok = false; string fail; long dot = 0, n = 0; string name; vector<string> txt; bool txt_err = false; map<char, long> marks; bool u_ok = false, u_try = false, u_err = false; vector<string> utxt; long udot = 0; bool rr_err = false; vector<string> rtxt; int mod = -1; bool regs = false; vector<string> reg[11]; int exit_code = -1; long bytes = -1; };
static const char MARKS[] = "abcdxz";

static uint32_t contam_of(const Fault &f, int cls) {
  if (f.kind == FK_SHORT) return 0;                 // a short transfer is legal and must be invisible
  switch (f.kind) {
  case FK_SIGNAL: case FK_SIGALL: return labs(f.arg) == SIGINT ? T(6) : T(7);
  case FK_KILL: return T(23);
  case FK_WINCH: return T(25);
  }
  if (f.op == OP_MALLOC) return T(14);
  if (f.op == OP_PIPE || f.op == OP_FORK || f.op == OP_PREAD || f.op == OP_PWRITE || f.op == OP_WAIT || f.op == OP_EXEC || cls == CL_PIPE) return T(12);
  if (cls == CL_SCRATCH || f.op == OP_MKSTEMP) return T(13);
  if (cls == CL_USER) return (f.op == OP_WRITE || f.op == OP_FTRUNC || f.op == OP_CLOSE || f.op == OP_FLOCK || f.op == OP_FCNTL || f.op == OP_LSEEK) ? T(4) | T(5) : (f.op == OP_READ) ? T(5) | T(4) : T(4) | T(5);
  return 0;
}
static string rawl(const vector<string> &v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "\n" : "") + v[i]; return r; }
static string joinl(const vector<string> &v, size_t lim = 12) { string r; for (size_t i = 0; i < v.size() && i < lim; ++i) r += (i ? "|" : "") + (v[i].size() > 40 ? v[i].substr(0, 37) + "..." : v[i]); if (v.size() > lim) r += "|..(" + std::to_string(v.size()) + ")"; return esc(r); }
static vector<string> texts(const St &s) { vector<string> r; for (auto &l : s.b) r.push_back(*l.t); return r; }
static vector<string> split(const string &s) { vector<string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) { r.push_back(s.substr(i)); break; } r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }

int run_ed(vector<string>);
struct Sim : Engine {
  Trace &t; const Profile *gen; Model m; Rng rng; GenState gs; Cmd cur; size_t ci = 0; int starved = 0; size_t idx = 0; bool started = false;
  uint32_t contam = 0, scen = 0; uint32_t hard_ever = 0; bool any_sig_ever = false;
  uint64_t base_steps = 0; uint64_t cnt[OP_MAX][CL_MAX]; uint64_t full0 = 0; bool sig_line = false; bool status_unknown = false;
  int max_cmds = 12;
  // dry-run / probe clone state
  bool want_regs = false; string probing;
  Sim(Trace &tr, const Profile *g) : t(tr), gen(g), rng(tr.seed * 2654435761ull + 77) {}

  // Displaying a line costs the square of its length: with very long lines the step
  // limit is no evidence of a hang, and the run ends without a verdict.
  bool big() { size_t k = 0; for (auto &l : m.s.b) k = std::max(k, l.t->size()); for (auto &g : m.reg) for (auto &l : g) k = std::max(k, l->size()); size_t q = 0; for (auto &l : m.s.b) q += l.t->size() * l.t->size(); for (auto &g : m.reg) for (auto &l : g) q += l->size() * l->size(); return k > 1500 || q > 8000000; }
  void over_limit() override { if (mode == M_PROBE && big()) { R->probe_exit = -3; _exit(0); } if (mode != M_MAIN) return; if (b.on) { if (plan_batch().longest > 1500) done_ok(); return; } if (!big()) { m.run(cur.lines); if (!big()) return; } done_ok(); }
  [[noreturn]] void viol(uint32_t tags, const char *kind, const string &msg) {
    if (msg.find("step limit") != string::npos && big()) done_ok();
    if (!R->set) { R->set = 1; snprintf(R->kind, sizeof R->kind, "%s", kind); snprintf(R->msg, sizeof R->msg, "%s", msg.c_str()); R->tags = tags | scen; }
    ended = true; flush_result(); _exit(0);
  }
  uint32_t base_tags_safe() { uint32_t g = 0; for (auto &l : cur.lines) { if (l.empty()) continue; for (char k : l) { switch (k) { case 'r': case 'e': g |= T(5); break; case 'w': g |= T(3) | T(4); break; case 'u': g |= T(2); break; case 'g': case 'v': g |= T(9); break; case '!': g |= T(12); break; case '@': g |= T(17); break; case '<': case '>': g |= T(11); break; case '~': g |= T(27); break; } } break; } return g | T(1); }
  uint32_t base_tags() {
    uint32_t g = 0; for (char k : m.seen) switch (k) {
      case 'r': case 'e': case 'E': g |= T(5); break; case 'w': case 'W': g |= T(3) | T(4); break; case 'u': g |= T(2); break;
      case 'g': case 'v': case 'G': case 'V': g |= T(9); break; case 'k': g |= T(10); break; case '!': g |= T(12); break; case '@': g |= T(17); break; case 'q': case 'Q': g |= T(8); break; case '~': g |= T(27); break; case 'z': case 'Z': case 'p': case 'n': case 'l': g |= T(25); break; }
    for (char k : m.seen) if (strchr("acdijmtspnl=\n", k)) g |= T(1);
    string a = cur.lines.empty() ? "" : cur.lines[0]; for (auto &l : cur.lines) if (l.find('<') != string::npos || l.find('>') != string::npos) if (l[0] != '<' || l[1] != 'S') g |= T(11);
    if (a.find('\'') != string::npos) g |= T(10);
    if (a.find('!') != string::npos && (g & (T(3) | T(5)))) g |= T(12);
    if (!g) g = T(1);
    return g;
  }
  string where() { string o = "command " + std::to_string(cur.uid) + " "; string l; for (size_t i = 0; i < cur.lines.size() && i < 6; ++i) l += (i ? "\\n" : "") + (cur.lines[i].size() > 60 ? cur.lines[i].substr(0, 57) + "..." : cur.lines[i]); o += esc(l); for (auto &f : cur.faults) { char b[120]; snprintf(b, 120, " [fault %s/%s#%d kind %d arg %ld%s]", op_name[f.op], cls_name[f.cls], f.nth, f.kind, f.arg, f.fired ? " fired" : ""); o += b; } return o; }

  void flush_result() {
    R->ev_hash = A->ev_hash; R->ev_count = A->ev_count; R->sim_us = A->sim_us; R->switches = A->switches; R->steps = A->steps; R->shells = A->shell_execs;
    memcpy(R->faults, fault_counts, sizeof fault_counts); R->done = 1;
    sync_trace();
  }
  void sync_trace() { if (!gen) return; string s = t.text(); if (s.size() < sizeof R->trace) memcpy(R->trace, s.c_str(), s.size() + 1); }

  bool at_prompt() { return A->out_len >= PL && !memcmp(A->out + A->out_len - PL, PROMPT, PL); }
  // ------------------------------------------------ feeding
  struct CloneEntry {};
  bool feed(string &out) override {
    if (A->out_full && mode == M_PROBE) { R->probe_exit = -3; _exit(0); }   // more output than is kept: no verdict
    if (A->out_full && mode == M_MAIN) done_ok();
    if (mode == M_PROBE) return feed_probe(out);
    if (eof_next) { eof_next = false; return false; }   // the end of file behind an unterminated last line
    try { return feed_main(out); }
    catch (CloneEntry &) { return mode == M_PROBE ? feed_probe(out) : next_line(out); }
  }
  bool feed_main(string &out) {
    if (at_prompt()) {
      sim_reap_orphans(); if (!at_prompt()) return next_line(out);
      if (mode == M_DRY) end_dry();
      string o(A->out, A->out_len - PL); A->out_len = 0; A->err_len = 0;
      step_watch = ~0ull;
      if (!started) begin(o); else finish(o);
      next_command();
    }
    return next_line(out);
  }
  bool eof_next = false;
  bool next_line(string &out) {
    for (;;) {
      if (ci >= cur.lines.size()) { if (++starved > 300 + (int)m.s.n()) { verdict("hang", "the editor keeps asking for input"); finish_run(); } out = ".\n"; return true; }
      const string &l = cur.lines[ci++];
      if (l == "<EOF>") return false;
      if (l.compare(0, 5, "<SIG ") == 0) { int sg = atoi(l.c_str() + 5); sig_line = true; if (sg == SIGINT) contam |= T(6); else contam |= T(7); ++fault_counts[OP_STDIN][FK_SIGNAL]; if (mode == M_MAIN) ++R->fired; sim_signal_deliver(sg); continue; }
      if (l.compare(0, 5, "<ACT ") == 0) { actor(l); continue; }
      if (l.compare(0, 6, "<NONL ") == 0) { out = l.substr(6, l.size() - 7); eof_next = true; return true; }
      out = l + "\n"; return true;
    }
  }
  void actor(const string &l) {
    const char *p = l.c_str() + 5; string op, a, b; while (*p && *p != ' ') op += *p++; unesc(p, a); unesc(p, b); ++fault_counts[OP_NONE][FK_ACTOR];
    string n = vfs_norm(a);
    if (op == "replace") { vfs_unlink(a); vfs_mkfile(a, b); m.files[n] = MFile{b}; }
    else if (op == "write") { int k = vfs_lookup(a); if (k < 0) vfs_mkfile(a, b); else vfs_setdata(k, b); m.files[n].data = b; }
    else if (op == "unlink") { vfs_unlink(a); m.files.erase(n); }
    else if (op == "readonly") { int k = vfs_lookup(a); if (k >= 0) { A->inode[k].mode &= ~0222u; MFile &f = m.files[n]; f.ro = true; f.mayw = m.ever.count(n) || (m.has_name && Model::norm(m.name) == n); } }
    else if (op == "writable") { int k = vfs_lookup(a); if (k >= 0) { A->inode[k].mode |= 0200u; m.files[n].ro = false; } }
    else if (op == "rename") { string n2 = vfs_norm(b); if (vfs_lookup(a) >= 0 && n2 != n) { vfs_rename(a, b); m.files[n2] = m.files[n]; m.files.erase(n); if (m.ever.count(n) || (m.has_name && Model::norm(m.name) == n)) m.ever.insert(n2); } }
    else if (op == "lock") { int k = vfs_lookup(a); if (k >= 0) A->inode[k].lock_owner = 7; }
    else if (op == "win") { long w = atol(a.c_str()); if (stdin_tty) { if ((w & 0xffff) > 1) m.ws_row = w & 0xffff, m.ws_unk = false; if (w >> 16 > 8) m.ws_col = w >> 16; } contam |= T(25); ++fault_counts[OP_NONE][FK_WINCH]; sim_winch(w); }
    else if (op == "space") A->space = atol(a.c_str());
    else if (op == "tspace") A->tspace = atol(a.c_str());
  }
  // ------------------------------------------------ startup
  void setup() {
    for (const char *d : {"/", "/w", "/tmp", "/h", "/dev"}) { vfs_mkfile(d, "", 0755, I_DIR); MFile f; f.dir = true; m.files[d] = f; }
    vfs_mkfile("/dev/null", "", 0666, I_CHR); MFile dn; dn.dev = true; m.files["/dev/null"] = dn;
    for (auto &f : t.files) { if (f.mode & 040000) { vfs_mkfile(f.path, "", f.mode & 0777, I_DIR); MFile x; x.dir = true; m.files[vfs_norm(f.path)] = x; } else { vfs_mkfile(f.path, f.data, f.mode); MFile x; x.data = f.data; x.ro = !(f.mode & 0200); m.files[vfs_norm(f.path)] = x; } }
    sim_env = t.env; if (t.env.count("LINES")) { long l = atol(t.env["LINES"].c_str()); if (l > 1) m.ws_row = l; } if (t.env.count("COLUMNS")) { long l = atol(t.env["COLUMNS"].c_str()); if (l > 8) m.ws_col = l; } sim_keys = t.keys; des_pad(t.start_sched, sim_pad); m.keys = t.keys; sim_blksize = t.blksize; stdin_tty = t.tty; stdin_seekable = t.seekable; A->space = t.space; A->tspace = t.tspace; A->sched = Rng(t.start_sched);
    b = parse_batch(t); if (b.on) { m.scripted = true; m.exit_on_error = true; }
    for (size_t i = 0; i < t.argv.size(); ++i) { auto &a = t.argv[i]; if (a == "-p" || a == "-e" || a == "-f") { ++i; continue; } if (a == "-s") m.scripted = true; if (a == "-E" || a == "-r") m.ere = true; }
    m.gl = argfiles();
    if (t.argv[0] == "red") m.restricted = true;
    for (size_t i = 1; i < t.argv.size(); ++i) { auto &a = t.argv[i]; if (a == "-p" || a == "-e" || a == "-f") ++i; else if (a == "-x") m.next_key(); }
    m.exit_on_error = b.on || (t.seekable && !t.tty);
    cur.uid = 0; cur.faults = t.start_faults; memset(cnt, 0, sizeof cnt);
  }
  vector<string> argfiles() { vector<string> v; for (size_t i = 1; i < t.argv.size(); ++i) { if (t.argv[i] == "-p" || t.argv[i] == "-e" || t.argv[i] == "-f") { ++i; continue; } if (t.argv[i][0] != '-') v.push_back(t.argv[i]); } return v; }
  string argfile() { auto v = argfiles(); return v.empty() ? "" : v[0]; }
  void begin(const string &o) {
    started = true; string f = argfile(); bool fired = note_fired() || fault_counts[OP_WRITE][FK_FULL];
    if (!f.empty()) { cur.lines = {"r " + f}; m.s.dot = 0; int r = m.run(cur.lines); if (!fired && !m.same_out(o) && r != R_UNK) viol(T(5) | T(1), "startup-output", "opening " + f + " printed " + esc(o) + " expected " + esc(m.out)); }
    Probe p; probe(p, true); if (!p.ok) viol(T(22) | contam, "probe-crash", "right after startup: " + p.fail);
    if (fired || m.last == R_UNK) { if (p.txt_err) done_ok(); status_unknown = true; resync(p); return; }
    check(p, m.snap(false), true, o);
  }
  bool note_fired() {
    bool any = false; for (auto &f : cur.faults) if (f.fired) { any |= f.kind != FK_SHORT && f.kind != FK_WINCH; ++R->fired; }
    return any;
  }
  // ------------------------------------------------ next command
  [[noreturn]] void done_ok() { ended = true; flush_result(); _exit(0); }
  void next_command() {
    bool have = false;
    if (gen) {
      Cmd c; c.uid = gs.uid; gs.uid++;
      if ((have = gen_command(gen, m, rng, c, (int)R->cmds, gs))) {
        for (auto &l : c.lines) for (char &ch : l) if (ch == '\n') ch = ' ';
        c.sched = rng.next(); idx = t.cmds.size(); bool wf = want_faults(gen, rng, c);
        if (wf) { dry_run(c); plan_faults(gen, rng, c, R); }
        t.cmds.push_back(c); cur = c; sync_trace();
      }
    } else if (idx < t.cmds.size()) { cur = t.cmds[idx++]; have = true; }
    if (!have) { cur = Cmd(); cur.uid = 999999; cur.lines = {"Q"}; if (++gs.want > 1000) done_ok(); gs.want = 1000; }
    for (auto &f : cur.faults) f.fired = 0;
    arm();
    ++R->cmds;
  }
  void arm() {
    ++cmd_epoch; A->close_lost = 0; ci = 0; starved = 0; sig_line = false; memset(cnt, 0, sizeof cnt); full0 = fault_counts[OP_WRITE][FK_FULL]; A->sched = Rng(cur.sched); base_steps = sim_my_steps(); set_watch(); ev(777, cur.uid);
    tlog("---- %s", where().c_str());
  }
  void set_watch() { uint64_t w = ~0ull; for (auto &f : cur.faults) if (f.op == OP_STEP && !f.fired && (uint64_t)f.nth + base_steps < w) w = base_steps + f.nth; step_watch = w; }
  void on_step() override {
    if (sim_my_steps() == 1) { set_watch(); return; }
    if (mode != M_MAIN || me) { step_watch = ~0ull; return; }
    Fault *hit = nullptr; for (auto &f : cur.faults) if (f.op == OP_STEP && !f.fired && sim_my_steps() >= base_steps + f.nth) { f.fired = 1; hit = &f; break; }
    set_watch(); if (!hit) return;
    contam |= contam_of(*hit, CL_ANY); ++fault_counts[OP_STEP][hit->kind]; ev(906, hit->arg); tlog("step fault kind %d arg %ld", hit->kind, hit->arg);
    if (hit->kind == FK_KILL) { sim_signal_deliver(SIGKILL); return; }
    if (hit->kind == FK_WINCH) { sim_winch(labs(hit->arg)); return; }
    if (hit->kind == FK_SIGALL) sim_signal_all((int)labs(hit->arg)); else sim_signal_deliver((int)labs(hit->arg));
  }
  Fault *on_op(int op, int cls) override {
    if (mode == M_PROBE) return nullptr;
    ++cnt[op][cls]; if (mode == M_DRY) return nullptr;
    for (auto &f : cur.faults) if (f.op == op && (f.cls == CL_ANY || f.cls == cls) && f.op != OP_STEP) {
      uint64_t c = cnt[op][cls]; if (f.cls == CL_ANY) { c = 0; for (int i = 0; i < CL_MAX; ++i) c += cnt[op][i]; }
      if (c == (uint64_t)f.nth || (f.sticky && c > (uint64_t)f.nth)) { f.fired = 1; contam |= contam_of(f, cls); if (f.kind == FK_ERRNO) hard_ever |= contam_of(f, cls); return &f; }
    }
    return nullptr;
  }
  // a batch run has no commands to hang faults on: all of it counts as start-up
  void plan_start() {
    if (!b.on || !gen) { return; }
    t.start_faults.clear(); cur.faults.clear(); Cmd c; c.uid = 0; c.lines = {"batch"}; if (!want_faults(gen, rng, c)) return;
    R->dry_ok = 0; pid_t r = clone(M_DRY); if (r == 0) { vector<string> av = t.argv; av.insert(av.begin() + 1, {"-p", PROMPT}); base_steps = 0; run_ed(av); _exit(0); }
    int st; while (waitpid(r, &st, 0) < 0 && errno == EINTR) {}
    plan_faults(gen, rng, c, R); t.start_faults = c.faults; cur.faults = c.faults;
  }
  // ------------------------------------------------ clones
  pid_t clone(int md) {
    pid_t p = getpid(); pid_t r = ::fork(); if (r < 0) { verdict("harness", "fork failed"); finish_run(); }
    if (r == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != p) _exit(0); arena_privatise(); ++cmd_epoch; mode = md; main_pid = getpid(); step_watch = ~0ull; }
    return r;
  }
  void dry_run(Cmd &c) {
    R->dry_ok = 0; pid_t r = clone(M_DRY);
    if (r == 0) { cur = c; ci = 0; arm(); step_watch = ~0ull; throw CloneEntry(); }
    int st; while (waitpid(r, &st, 0) < 0 && errno == EINTR) {}
  }
  [[noreturn]] void end_dry() { memcpy(R->dry, cnt, sizeof cnt); R->dry_steps = sim_my_steps() - base_steps; R->dry_ok = 1; _exit(0); }
  void probe(Probe &p, bool regs) {
    probe1(p, regs, true);
    if (regs && p.ok && !p.regs && R->probe_exit != -2) { Probe q; probe1(q, true, false); if (!q.ok) { p.ok = false; p.fail = q.fail; } else if (q.regs) { p.regs = true; for (int i = 0; i < 11; ++i) p.reg[i] = q.reg[i]; } }
  }
  bool ask_mod = true, ask_bytes = false; 
  void probe1(Probe &p, bool regs, bool mod) {
    ask_bytes = m.bn_unk || m.last == R_UNK || m.s.bin || m.u.bin || m.took_umod; for (auto &q : m.path) ask_bytes |= q.s.bin;
    ask_mod = mod; R->probe_done = 0; R->probe_len = 0; R->probe_exit = -1; ++R->probes; want_regs = regs && !(mod && m.scripted);
    pid_t r = clone(M_PROBE);
    if (r == 0) {
      A->space = A->tspace = -1; A->out_len = 0; probing.clear(); probing_u.clear(); st_ = mk_i = reg_i = 0; throw CloneEntry();
    }
    int st; while (waitpid(r, &st, 0) < 0 && errno == EINTR) {}
    parse_probe(p);
  }
  // The clone continues inside feed(): it unwinds there with CloneEntry and then answers the probe's own questions.
  void probe_put(const string &k, const string &v) { uint32_t a = k.size(), b = v.size(); if (R->probe_len + 8 + a + b > sizeof R->probe) { R->probe_done = 0; _exit(0); } char *d = R->probe + R->probe_len; memcpy(d, &a, 4); memcpy(d + 4, &b, 4); memcpy(d + 8, k.data(), a); memcpy(d + 8 + a, v.data(), b); R->probe_len += 8 + a + b; }
  long pn = 0; int mk_i = 0, st_ = 0, reg_i = 0; long reg_n0 = 0;
  bool feed_probe(string &out) {
    bool pr = at_prompt(); string o; if (A->out_len) { o.assign(A->out, A->out_len - (pr ? PL : 0)); }
    A->out_len = 0; if (m.verbose || m.verb_unk || m.saw_h) o = Model::unhelp(o, true);
    if (!probing.empty()) probe_put(probing, o);
    string nx;
    for (;;) {
      switch (st_) {
      case 0: if (!m.key.empty()) { sim_keys.clear(); nx = "x"; st_ = 100; break; }   // look at plain text
      case 100: nx = ".="; st_ = 1; break;
      case 1: nx = "="; st_ = 2; break;
      case 2: pn = atol(o.c_str()); st_ = 21; if (pn > 0 && ask_bytes && !m.restricted) { nx = ",w !wc -c"; break; } continue;
      case 21: nx = "f"; st_ = 3; break;
      case 3: st_ = 4; if (pn > 0) { nx = ",p"; break; } continue;
      case 4: if (!MARKS[mk_i]) { st_ = 5; continue; } { char k = MARKS[mk_i++]; if (m.exit_on_error && !(m.marks[k - 'a'] > 0 && m.find_id(m.marks[k - 'a']) > 0)) continue; nx = string("'") + k + "="; } break;
      case 5: st_ = 6; if (m.exit_on_error && !m.uval) { st_ = 12; continue; } nx = "u"; break;
      case 6: if (o == "?\n") { st_ = 12; continue; } nx = ".="; probing_u = "U"; st_ = 7; break;
      case 7: nx = "="; st_ = 8; break;
      case 8: pn = atol(o.c_str()); st_ = 9; if (pn > 0) { nx = ",p"; break; } continue;
      case 9: nx = "u"; probing_u = "V"; st_ = 10; break;
      case 10: if (o == "?\n") { st_ = 12; continue; } nx = "="; st_ = 11; break;
      case 11: pn = atol(o.c_str()); st_ = 12; if (pn > 0) { nx = ",p"; break; } continue;
      case 12: probing_u = ""; st_ = want_regs ? 13 : 20; if (!ask_mod || (m.scripted && m.restricted)) continue; nx = m.scripted ? "e /dev/null" : "q"; break;
      case 13: nx = "="; st_ = 14; break;
      case 14: reg_n0 = atol(o.c_str()); if (reg_i > 10) { st_ = 20; continue; } if (m.exit_on_error && m.reg[reg_i].empty()) { ++reg_i; continue; } nx = string("<") + (reg_i < 10 ? std::to_string(reg_i) : "") + "t$"; st_ = 15; break;
      case 15: nx = "="; st_ = 16; break;
      case 16: { long n1 = atol(o.c_str()); st_ = 17; if (n1 > reg_n0) { nx = std::to_string(reg_n0 + 1) + ",$p"; probing_u = "R" + std::to_string(reg_i) + ":" + std::to_string(n1 - reg_n0) + ":"; break; } ++reg_i; st_ = 14; continue; }
      case 17: ++reg_i; probing_u = ""; nx = "="; st_ = 14; break;
      default: nx = "Q"; st_ = 99; R->probe_done = 1; break;
      }
      break;
    }
    probing = probing_u + nx; out = nx + "\n"; return true;
  }
  string probing_u;
  void parse_probe(Probe &p) {
    const char *d = R->probe, *e = d + R->probe_len; long n = -1; int stage = 0; bool sawq = false, sawu = false;
    auto body = [&](const string &v, long n, bool &err) { vector<string> l = split(v); err = (long)l.size() != n || (n && v.back() != '\n'); return l; };
    while (d < e) {
      uint32_t a, b; memcpy(&a, d, 4); memcpy(&b, d + 4, 4); string k(d + 8, a), v(d + 8 + a, b); d += 8 + a + b;
      if (k == ".=") p.dot = atol(v.c_str()); else if (k == "=" && stage == 0) { p.n = atol(v.c_str()); n = p.n; stage = 1; }
      else if (k == ",w !wc -c") p.bytes = isdigit((unsigned char)v[0]) ? atol(v.c_str()) : -1;
      else if (k == "f") p.name = v; else if (k == ",p") p.txt = body(v, p.n, p.txt_err);
      else if (k.size() == 3 && k[0] == '\'') p.marks[k[1]] = v == "?\n" ? -1 : atol(v.c_str());
      else if (k == "u") { p.u_try = true; p.u_ok = v != "?\n"; }
      else if (k == "U.=") p.udot = atol(v.c_str()); else if (k == "U=") n = atol(v.c_str()), p.utxt.resize(0), p.u_err = false;
      else if (k == "U,p") p.utxt = body(v, n, p.u_err);
      else if (k == "Vu") { sawu = true; if (v == "?\n") p.rr_err = true; } else if (k == "V=") n = atol(v.c_str()); else if (k == "V,p") { bool er; p.rtxt = body(v, n, er); p.rr_err |= er; }
      else if (k == "q" || k == "e /dev/null") { sawq = true; p.mod = v == "?\n"; }
      else if (k[0] == 'R' && k.size() > 1 && isdigit((unsigned char)k[1])) { int i = atoi(k.c_str() + 1); p.reg[i] = split(v); size_t cl = k.find(':'); long want = cl == string::npos ? -1 : atol(k.c_str() + cl + 1); if ((long)p.reg[i].size() == want - 1 && (v.empty() || v.back() == '\n')) p.reg[i].push_back(""); }
    }
    (void)sawq; (void)sawu; p.exit_code = R->probe_exit;
    p.regs = want_regs && R->probe_done;
    p.ok = p.txt.size() || p.n == 0 || p.txt_err || stage;
    if (R->probe_exit == -3) done_ok();   // no defect: lines so long that looking at them takes for ever
    if (R->probe_exit == -2) { p.ok = false; p.fail = R->msg; R->msg[0] = 0; }
    else if (!R->probe_done && R->probe_exit < 0) { p.ok = false; p.fail = "the editor stopped answering"; }
    else { p.ok = true; if (R->probe_exit >= 0 && !R->probe_done) { if (p.mod < 0) p.mod = R->probe_exit == 2; p.regs = false; } }
  }
  // ------------------------------------------------ comparing
  static long wsize(const St &s) { long k = 0; for (auto &l : s.b) k += (long)l.t->size() + 1; return k && s.bin && s.nlapp ? k - 1 : k; }
  // component bits: 1 content 2 undo 4 marks 8 modified 16 regs 32 dot
  int cmp(const Probe &p, const Snap &s, string &why, bool lenient) {
    int bad = 0; auto add = [&](int b, const string &w) { if (!bad) why = w; bad |= b; };
    vector<string> want = texts(s.s);
    if (p.txt_err) add(1, "the buffer could not be printed");
    else if (p.txt != want) add(1, "buffer is " + joinl(p.txt) + " expected " + joinl(want));
    else if (p.bytes >= 0 && p.bytes != wsize(s.s)) add(1, "writing the buffer would give " + std::to_string(p.bytes) + " bytes, expected " + std::to_string(wsize(s.s)));
    if (p.u_try) {
      if (s.uval != p.u_ok) add(2, p.u_ok ? "undo available where none is expected" : "undo refused");
      else if (p.u_ok) { vector<string> uw = texts(s.u); if (p.u_err || p.utxt != uw) add(2, "after u the buffer is " + joinl(p.utxt) + " expected " + joinl(uw)); else if (p.rr_err || p.rtxt != want) add(2, "after u u the buffer is " + joinl(p.rtxt) + " expected " + joinl(want)); }
    }
    for (auto &k : p.marks) { int id = s.marks[k.first - 'a']; if (id == -2) continue; long w = -1; if (id == 0) w = 0; else { for (long i = 0; id > 0 && i < s.s.n(); ++i) if (s.s.b[i].id == id) w = i + 1; if (w < 0 && s.s.n() == 0) w = 0; }
      if (w != k.second) { char b[120]; snprintf(b, 120, "mark %c is at %ld expected %ld", k.first, k.second, w); add(4, b); } }
    if (p.mod >= 0 && (lenient ? (s.s.mod && !p.mod) : (int)s.s.mod != p.mod)) add(8, p.mod ? "buffer counted as modified" : "buffer counted as unmodified (q would discard changes)");
    if (p.regs) for (int i = 0; i < 11; ++i) { vector<string> w; for (auto &x : s.reg[i]) w.push_back(*x); if (w != p.reg[i] && !(reg_prefix && (reg_wfail || m.wregs >> i & 1) && (reg_prefix > 1 || p.reg[i].empty()) && rawl(w).compare(0, rawl(p.reg[i]).size(), rawl(p.reg[i])) == 0)) { add(16, "register " + std::to_string(i) + " holds " + joinl(p.reg[i]) + " expected " + joinl(w)); break; } }
    return bad;
  }
  uint32_t comp_tags(int bad) { uint32_t g = 0; if (bad & 1) g |= base_tags(); if (bad & 2) g |= T(2); if (bad & 4) g |= T(10); if (bad & 8) g |= T(8) | (base_tags() & (T(3) | T(4))); if (bad & 16) g |= T(11); if (bad & 32) g |= base_tags(); return g | (contam ? contam : 0); }
  void check(const Probe &p, const Snap &s, bool dot, const string &o) {
    string why; int bad = cmp(p, s, why, false);
    if (!bad && dot && p.dot != s.s.dot) { bad = 32; why = "current line is " + std::to_string(p.dot) + " expected " + std::to_string(s.s.dot); }
    if (p.txt_err && (hard_ever & (T(13) | T(14)))) done_ok();   // data lost to an injected storage failure, but diagnosed
    if ((p.u_err || p.rr_err) && (hard_ever & (T(13)))) done_ok();
    if (bad) viol(comp_tags(bad) | base_tags(), bad & 1 ? "buffer" : bad & 2 ? "undo" : bad & 4 ? "mark" : bad & 8 ? "modified" : bad & 16 ? "register" : "dot", "after " + where() + ": " + why);
    state_hash(s);
    string nm = m.has_name ? m.name + "\n" : ""; if (p.name != nm) viol(base_tags() | T(3) | contam, "filename", "after " + where() + ": file name is " + esc(p.name) + " expected " + esc(nm));
  }
  void state_hash(const Snap &s) {
    uint64_t h = 17; for (auto &l : s.s.b) for (char ch : *l.t) h = hmix(h, ch); h = hmix(h, s.s.b.size()); h = hmix(h, s.s.dot); h = hmix(h, s.s.mod); for (char k : m.seen) h = hmix(h, k); for (auto &f : cur.faults) if (f.fired) h = hmix(h, f.op * 100 + f.cls * 10 + f.kind + 1000);
    if (SH) { h &= (sizeof SH->states * 8) - 1; SH->states[h >> 3] |= 1 << (h & 7); }
  }
  void resync(const Probe &p) {
    ++R->resyncs; St ns; ns.dot = p.dot; ns.mod = p.mod == 1 || (p.mod < 0 && m.s.mod); ns.empty = p.n == 0; ns.bin = m.s.bin; ns.nlapp = m.s.nlapp;
    if (p.bytes >= 0) { long k = 0; for (auto &x : p.txt) k += (long)x.size() + 1; if (p.bytes == k - 1) ns.bin = ns.nlapp = true; else if (ns.bin) ns.nlapp = false; }
    for (size_t i = 0; i < p.txt.size(); ++i) ns.b.push_back(L{m.next_id++, mk(p.txt[i])});
    for (auto &k : p.marks) m.marks[k.first - 'a'] = k.second > 0 ? ns.b[k.second - 1].id : k.second == 0 && p.n > 0 ? 0 : -2;
    m.uval = p.u_ok; m.u = St(); m.u.dot = p.udot; m.u.empty = false; m.u.mod = true; m.umod_unk = true; for (auto &x : p.utxt) m.u.b.push_back(L{m.next_id++, mk(x)});
    m.s = ns; if (p.regs) for (int i = 0; i < 11; ++i) { m.reg[i].clear(); for (auto &x : p.reg[i]) m.reg[i].push_back(mk(x)); }
    m.re_unknown = m.sub_unknown = m.prev_unk = m.gl_unk = true; if (p.name.empty()) m.has_name = false; else { m.has_name = true; m.name = p.name.substr(0, p.name.size() - 1); }
    m.umod_unk = m.uids_unk = m.bn_unk = true; m.page_unk = m.fb_unk = true; m.prev1 = m.page_addr = -1;
  }
  void check_files(const map<string, MFile> &pre, bool error, uint32_t tg) {
    set<string> seen;
    for (auto &f : vfs_list()) {
      int k = vfs_lookup(f); if (A->inode[k].type != I_REG || A->inode[k].scratch) continue; seen.insert(f); string d = vfs_data(k);
      auto now = m.files.find(f); auto was = pre.find(f);
      if (now != m.files.end() && now->second.data == d) continue;
      if (m.did_shell && A->space >= 0 && f != m.wrote_path && m.touched_files.count(f) && now != m.files.end() && now->second.data.compare(0, d.size(), d) == 0) { m.files[f].data = d; continue; }   // a shell command met the full disk
      bool is_target = f == m.wrote_path || m.touched_files.count(f);
      if (error && is_target) {
        if (was != pre.end() && was->second.data == d) { m.files[f].data = d; continue; }
        if (now != m.files.end() && now->second.data.compare(0, d.size(), d) == 0 && (d.size() >= (m.last_w == 'W' && was != pre.end() ? was->second.data.size() : 0))) { m.files[f].data = d; continue; }
        if (m.did_shell) { m.files[f].data = d; continue; }
        bool part = false; for (auto &v : m.versions[f]) if (v.compare(0, d.size(), d) == 0) part = true;
        if (part) { m.files[f].data = d; continue; }
        viol(tg | T(3) | T(4) | T(23), "file", where() + ": the failed write left " + f + " as " + esc(d.substr(0, 200)) + ", neither the old text nor a part of the new");
      }
      if (error && was != pre.end() && was->second.data == d) { m.files[f].data = d; continue; }
      if (now == m.files.end()) viol(tg | T(23) | T(3), "file", where() + ": created unexpected file " + f + " holding " + esc(d.substr(0, 200)));
      viol(tg | (T(23) | (is_target ? T(3) | T(19) : 0)), "file", where() + ": " + f + " holds " + esc(d.substr(0, 300)) + " expected " + esc(now->second.data.substr(0, 300)));
    }
    for (auto f = m.files.begin(); f != m.files.end();) { bool gone = !f->second.dir && !f->second.dev && !seen.count(f->first); if (gone) { if (error && !pre.count(f->first)) { f = m.files.erase(f); continue; } viol(tg | T(23) | T(3), "file", where() + ": file " + f->first + " is missing"); } ++f; }
  }
  // ------------------------------------------------ end of one command
  void finish(const string &o) {
#ifndef EDSIM_ASAN
    sim_check_heap();
#endif
    bool fired = note_fired() || sig_line; bool full = fault_counts[OP_WRITE][FK_FULL] > full0;
    if (full) { hard_ever |= A->tspace >= 0 ? T(13) | T(4) : T(4); contam |= (A->tspace >= 0 ? T(13) : 0) | (A->space >= 0 ? T(4) : 0); ++R->fired; }
    bool signal = sig_line, hard = full; for (auto &f : cur.faults) if (f.fired) { if (f.kind == FK_SIGNAL || f.kind == FK_SIGALL) signal = true; else if (f.kind != FK_SHORT && f.kind != FK_WINCH) hard = true; }
    fired |= full;
    map<string, MFile> pre = m.files; Snap pre_s = m.snap(false); string pre_name = m.name; bool pre_has = m.has_name, pre_verb = m.verbose; bool pre_mu = m.umod_unk, pre_uu = m.uids_unk;
    m.record = fired; vector<string> lines; for (auto &l : cur.lines) if (l[0] != '<' || (l.compare(0, 4, "<SIG") && l.compare(0, 4, "<ACT"))) lines.push_back(l);
    bool idle = lines.empty() || (cur.lines[0].compare(0, 4, "<SIG") == 0);
    int r = R_OK_; Model m0; bool alts = m.bn_unk && !idle; m.win_alt = 0;
    for (auto &f : cur.faults) if (f.fired && f.kind == FK_WINCH) m.win_alt = labs(f.arg);
    if (!stdin_tty) m.win_alt = 0;
    if (m.win_alt) for (auto &l : cur.lines) if (l.compare(0, 8, "<ACT win") == 0) m.ws_unk = m.ws_pend = true;   // which of the two sizes it saw is open
    if (alts || m.win_alt) m0 = m;
    if (!idle) r = m.run(lines); else { m.path.clear(); m.path.push_back(pre_s); m.seen.clear(); m.wregs = 0; m.wrote_path.clear(); m.touched_files.clear(); m.did_shell = false; m.out = "?\n"; }
    bool wpage = m.win_alt && !idle && (m.seen.count('z') || m.seen.count('Z'));
    if (m.win_alt && !idle && r != R_UNK && (m.seen.count('z') || m.seen.count('Z'))) {
      // the window changed while a page was shown: any of the reads of its size may be the first to see the new one
      if (fired) { r = R_UNK; }
      else for (int k = 1; k < 4 && !m.same_out(o); ++k) { Model x = m0; x.zk = k; int xr = x.run(lines); if (x.same_out(o)) { m = x; r = xr; break; } }
    }
    m.win_settle(fired || r == R_UNK);
    if (fired) for (auto &l : cur.lines) if (l.compare(0, 8, "<ACT win") == 0) m.ws_unk = true;   // the interrupt may have come before the new size was read
    // a command that may stop reading early may or may not make the write to it fail
    if (m.may_epipe && r != R_UNK && m.is_epipe(o)) { m.out = o; m.exited = false; m.status = 2; r = R_ERR; }
    if (m.unknown_why.size()) { ++R->unknowns; tlog("unknown: %s", m.unknown_why.c_str()); }
    if (r == R_ERR || r == R_EMOD) ++R->errors;
    if (fired && (m.seen.count('~') || m.seen.empty())) m.gl_unk = true;
    if (fired && m.seen.count('x')) done_ok();   // which key is in use now is not known
    uint32_t bt = base_tags() | contam;
    bool regs = fired || r == R_UNK || m.used_reg || (bt & (T(11) | T(17))) || m.seen.count('d') || (R->cmds % 8 == 0);
    bool isact = lines.empty() && !sig_line; if (isact) { for (auto &l : cur.lines) if (l.compare(0, 4, "<ACT") == 0) {} }
    Probe p; probe(p, regs); if (!p.ok) viol(T(22) | bt | (p.fail.compare(0, 6, "crash:") && p.fail.compare(0, 7, "memory:") ? 0 : T(26)), "probe-crash", "after " + where() + ": " + p.fail);
    if (wpage && m.out_unknown) { m.page_unk = m.fb_unk = true; m.prev1 = m.page_addr = -1; }
    if (wpage && !fired && r != R_UNK && m.s.dot != p.dot) for (int k = 0; k < 4; ++k) { Model x = m0; x.zk = k; int xr = x.run(lines); if (x.same_out(o) && x.s.dot == p.dot) { m = x; r = xr; m.win_settle(false); break; } }
    if (alts) {
      // whether the buffer counts as binary, or lacks its last newline, may not be known after a failure: take what fits
      string w; vector<Snap> more; auto fits = [&](Model &x) { return (x.out_unknown || x.same_out(o)) && !cmp(p, x.snap(false), w, true); };
      if (r != R_UNK && !fits(m)) for (int k = 1; k < 4; ++k) {
        Model x = m0; x.s.bin ^= k & 1; x.s.nlapp ^= k >> 1; int xr = x.run(lines); if (xr == R_UNK) continue;
        if (fits(x)) { tlog("hypothesis %d fits", k); m = x; r = xr; more.clear(); break; }
        more.insert(more.end(), x.path.begin(), x.path.end());
      }
      if (fired) m.path.insert(m.path.begin(), more.begin(), more.end());
    }
    tlog("result %d model dot %ld (alt %ld) udot %ld mod %d; real dot %ld mod %d; fired %d", r, m.s.dot, m.alt_dot, m.u.dot, (int)m.s.mod, p.dot, p.mod, (int)fired);
    if (m.alt_dot >= 0 && p.dot == m.alt_dot) m.s.dot = p.dot;
    if (m.took_umod && p.mod >= 0) { m.s.mod = p.mod; for (size_t i = 1; i < m.path.size(); ++i) m.path[i].s.mod = p.mod; }
    if (m.took_umod && p.bytes >= 0) { auto fix = [&](St &q) { if (wsize(q) == p.bytes) return; long k = 0; for (auto &l : q.b) k += (long)l.t->size() + 1; if (p.bytes == k - 1) q.bin = q.nlapp = true; else if (p.bytes == k) q.nlapp = false; }; fix(m.s); for (size_t i = 1; i < m.path.size(); ++i) fix(m.path[i].s); }
    if (r == R_UNK) status_unknown = true;
    if (r == R_UNK && !fired) { resync(p); m.files = pre; sync_files(); return; }
    if (r == R_UNK) {
      if (p.txt_err) done_ok();
      for (auto f = m.files.begin(); f != m.files.end();) if (!pre.count(f->first) && vfs_lookup(f->first) < 0) f = m.files.erase(f); else ++f;   // the model created it, the editor was stopped before
      resync(p); sync_files(); return;
    }
    if (m.exited && !fired) viol(T(8) | T(16) | bt, "no-exit", "after " + where() + ": the editor should have ended");
    if (!fired) {
      if (!idle && !m.same_out(o)) viol(out_tags(o) | bt, "output", where() + " printed " + esc(o.substr(0, 500)) + " expected " + esc(m.out.substr(0, 500)));
      int want = (int)m.fi, got = 0; for (size_t i = 0; i < ci; ++i) if (cur.lines[i][0] != '<' || (cur.lines[i].compare(0, 4, "<SIG") && cur.lines[i].compare(0, 4, "<ACT"))) ++got;
      if (!idle && (want != got || m.starved != starved)) viol(bt, "input", where() + ": the editor consumed " + std::to_string(got) + "+" + std::to_string(starved) + " input lines, expected " + std::to_string(want) + "+" + std::to_string(m.starved));
      check(p, m.snap(false), true, o); check_files(pre, false, bt);
      return;
    }
    m.exited = false; if (m.saw_h) m.verb_unk = m.verbose = true;
    // a fault or a signal hit this command: it either completed exactly, or stopped short and said so
    string why; bool said = (m.saw_h && o.size()) || (o.size() >= 2 && o.substr(o.size() - 2) == "?\n") || ((m.verbose || pre_verb) && o.find("?\n") != string::npos) || (m.did_shell && o.find('?') != string::npos); bool full_ok = !cmp(p, m.snap(false), why, false) && m.same_out(o) && r >= 0;
    if (p.txt_err && (hard_ever & (T(13) | T(14)))) done_ok();
    if ((p.u_err || p.rr_err) && (hard_ever & (T(13) | T(14)))) done_ok();
    if (sig_line) m.status = 2;
    if (A->close_lost && !said && r == R_OK_ && o == m.out) viol(bt | T(4) | T(3), "silent-failure", where() + ": closing the file just written failed, but no error was reported");
    auto same_ids = [](const St &a, const St &b) { if (a.b.size() != b.b.size()) return false; for (size_t i = 0; i < a.b.size(); ++i) if (a.b[i].id != b.b[i].id) return false; return true; };
    if (full_ok) { if (said) status_unknown = true;
      if (signal || hard) { m.re_unknown = m.sub_unknown = m.prev_unk = true; Snap now = m.snap(false); auto same = [&](const Snap &q) { string w; if (cmp(p, q, w, false)) return; if (q.u.mod != now.u.mod) m.umod_unk = true; if (!same_ids(q.s, now.s) || !same_ids(q.u, now.u)) m.uids_unk = true; }; same(pre_s); for (auto &q : m.path) same(q); }   // it may have stopped earlier, in a state that looks the same
      check_files(pre, said && m.out_unknown, bt); m.s.dot = p.dot; state_hash(m.snap(false)); return; }
    bool exact_err = r < 0;
    if (!said) {
      viol(bt | comp_tags(cmp(p, m.snap(false), why, false)), "silent-failure", where() + ": no error was reported, yet " + (why.empty() ? "the output was " + esc(o.substr(0, 300)) + " expected " + esc(m.out.substr(0, 300)) : why));
    }
    (void)exact_err;
    reg_wfail = full; for (auto &f : cur.faults) if (f.fired && f.kind == FK_ERRNO && f.op != OP_MALLOC && f.op != OP_READ) reg_wfail = true;
    reg_prefix = hard ? 2 : 1; int best = 99; string bw; Snap *hit = nullptr;
    auto near_dot = [&](Snap &s) { return s.s.dot == p.dot && (!p.u_ok || p.udot == s.u.dot); }; Snap *any = nullptr; vector<Snap *> ok_states;
    for (size_t i = m.path.size(); i-- > 0;) { Snap &s = m.path[i]; if (s.weak && !hard) continue; ++R->path_states; string w; int b = cmp(p, s, w, hard || (s.s.mod && !p.mod ? false : true)); if (!b) { ok_states.push_back(&s); if (near_dot(s)) { if (!hit) hit = &s; } else if (!any) any = &s; } int sc = (b & 1 ? 16 : 0) + (b & 2 ? 8 : 0) + (b & 4 ? 4 : 0) + (b & 8 ? 2 : 0) + (b & 16 ? 1 : 0); if (sc < best) { best = sc; bw = w; best_bits = b; } }
    if (!hit) hit = any;
    if (!hit) viol(bt | comp_tags(best_bits), hard ? "after-failure" : "after-interrupt", where() + " failed and left the session in a state no prefix of it explains: " + bw);
    reg_prefix = 0;
    bool cleared = p.mod == 0;
    Snap keep = *hit; bool amb = false; bool idd = false; int mdiff[26] = {};
    // several explanations may fit: what they disagree on, and no probe can see, is not known from here on
    ok_states.push_back(&pre_s);
    for (Snap *q : ok_states) { if (q == &pre_s) { string w; if (cmp(*&p, *q, w, true)) continue; } if (q->u.mod != keep.u.mod) amb = true; if (!same_ids(q->s, keep.s) || !same_ids(q->u, keep.u)) idd = true; if (q->s.bin != keep.s.bin || q->s.nlapp != keep.s.nlapp) m.bn_unk = true; if (m.s.n() == 0 || keep.s.n() == 0) for (int i = 0; i < 26; ++i) if (q->marks[i] != keep.marks[i]) mdiff[i] = 1; }
    m.restore(keep); if (!m.wrote_path.empty() || amb || pre_mu) m.umod_unk = true; m.uids_unk |= pre_uu || idd; for (int i = 0; i < 26; ++i) if (mdiff[i]) m.marks[i] = -2; m.s.dot = p.dot; if (p.mod >= 0) m.s.mod = p.mod; else if (!m.wrote_path.empty()) m.s.mod |= pre_s.s.mod; m.re_unknown = m.sub_unknown = m.prev_unk = true; m.has_last_sub = true; if (p.regs) for (int i = 0; i < 11; ++i) { if (hard) { vector<string> w, v; for (auto &x : pre_s.reg[i]) w.push_back(*x); for (auto &x : m.path.back().reg[i]) v.push_back(*x); if (p.reg[i] != w && p.reg[i] != v) m.torn[i] = true; } m.reg[i].clear(); for (auto &x : p.reg[i]) m.reg[i].push_back(mk(x)); } if (p.u_ok) m.u.dot = p.udot; (void)cleared; status_unknown = true; m.status = 2;
    if (m.s.n() == 0) m.s.empty = true; else if (m.s.empty) m.s.empty = false;
    string nm = p.name; string n1 = m.has_name ? m.name + "\n" : "", n0 = pre_has ? pre_name + "\n" : "";
    if (nm == n0) { m.has_name = pre_has; m.name = pre_name; } else if (!nm.empty() && m.names.count(nm.substr(0, nm.size() - 1))) { m.has_name = true; m.name = nm.substr(0, nm.size() - 1); } else if (nm != n1) viol(bt | T(3), "filename", where() + ": file name became " + esc(nm));
    bool written = false; { string d; auto f = m.files.find(m.wrote_path); written = f != m.files.end() && (f->second.dev || (vfs_read(m.wrote_path, d) && d == f->second.data)); size_t nw = 0; for (auto &v : m.versions) nw += v.second.size(); written |= nw > 1; }
    check_files(pre, true, bt);
    // a write that failed must leave the buffer marked modified
    if (hard && !written && !m.same_out(o) && p.mod == 0 && pre_s.s.mod && !m.wrote_path.empty()) viol(bt | T(4), "modified", where() + " failed, but the buffer no longer counts as modified");
    state_hash(m.snap(false));
  }
  int best_bits = 0; int reg_prefix = 0; bool reg_wfail = false;
  uint32_t out_tags(const string &) { return base_tags(); }
  void sync_files() { for (auto &f : vfs_list()) { int k = vfs_lookup(f); if (A->inode[k].type == I_REG && !A->inode[k].scratch) m.files[f].data = vfs_data(k); } }
  // ------------------------------------------------ scripts given with -e and -f, and in-place editing
  Batch b;
  // What every file may hold, step by step: each version the script writes on the way, for every file in turn.
  struct Step { string path, data; bool backup; size_t file; };
  struct Plan { vector<Step> steps; string out; int status = 0; bool unk = false; map<string, MFile> fin; size_t reached = 0; vector<Plan> alts; size_t longest = 0; };
  Plan plan_batch() {
    Plan q; Model x = m; x.scripted = x.exit_on_error = true; vector<string> in = split(b.script);
    auto writes = [&](size_t k, bool bk) { for (auto &v : x.versions) for (auto &d : v.second) q.steps.push_back({v.first, d, bk, k}); };
    auto fail = [&](int r) { if (r == R_UNK) q.unk = true; else q.status = x.exit_code; q.fin = x.files; return q; };
    for (size_t k = 0; k < std::max<size_t>(b.files.size(), 1); ++k) {
      q.reached = k; int r;
      if (!b.files.empty()) { x.exited = false; r = x.run({(k ? "E " : "r ") + b.files[k]}); q.out += x.out; if (r == R_ERR || r == R_UNK) return fail(r); }
      if (b.inplace && b.has_suffix) { r = x.run({"w " + b.files[k] + b.suffix}); writes(k, true); if (r == R_ERR || r == R_UNK) { q.out += x.out; return fail(r); } }
      bool done = false;
      for (size_t i = 0; i < in.size() && !done;) { vector<string> sub(in.begin() + i, in.end()); r = x.run(sub); if (x.may_epipe && r != R_UNK) { Plan a; a.out = q.out + x.epipe_out; a.status = 4; a.fin = x.files; q.alts.push_back(a); } q.out += x.out; writes(k, false); ++R->cmds; for (auto &l : x.s.b) q.longest = std::max(q.longest, l.t->size()); if (x.starved) { q.unk = true; return q; } i += x.fi; if (r == R_ERR || r == R_UNK || r == R_EMOD) return fail(r); done = r == R_EOF; }
      if (b.inplace) { r = x.run({"w " + b.files[k]}); writes(k, false); if (r == R_ERR || r == R_UNK) { q.out += x.out; return fail(r); } }
    }
    q.fin = x.files; q.status = x.status; return q;
  }
  static string unprompt(const string &o) { string r; for (size_t i = 0; i < o.size();) if (o.compare(i, PL, PROMPT) == 0) i += PL; else r += o[i++]; return r; }
  void batch_exit(int status, int sig) {
    if (A->out_full) done_ok();
    string o = unprompt(string(A->out, A->out_len)); bool fired = note_fired(), killed = false, hup = false, sigd = false, full = fault_counts[OP_WRITE][FK_FULL] > 0; Plan q = plan_batch(); uint32_t bt = (b.inplace ? T(18) : 0) | T(16) | contam;
    cur.lines = {"ed"}; for (size_t i = 1; i < t.argv.size(); ++i) cur.lines[0] += " " + esc(t.argv[i]);
    for (auto &f : cur.faults) if (f.fired) { if (f.kind == FK_KILL) killed = true; if (f.kind == FK_SIGNAL || f.kind == FK_SIGALL) sigd = true; if ((f.kind == FK_SIGNAL || f.kind == FK_SIGALL) && labs(f.arg) == SIGHUP) hup = true; }
    if (q.unk) { ++R->unknowns; done_ok(); }
    if (sig && !fired && !killed) viol(bt | T(22), "killed", where() + ": the editor was killed by signal " + std::to_string(sig));
    if (!killed && !sig) temps();
    { uint64_t h = 17; for (auto &f : vfs_list()) { int k = vfs_lookup(f); if (A->inode[k].type == I_REG && !A->inode[k].scratch) { for (char ch : f + "=" + vfs_data(k)) h = hmix(h, ch); } } for (char ch : o) h = hmix(h, ch); h = hmix(h, status * 1000 + sig); if (SH) { h &= (sizeof SH->states * 8) - 1; SH->states[h >> 3] |= 1 << (h & 7); } }
    auto as_is = [&](const map<string, MFile> &fin) { for (auto &f : vfs_list()) { int k = vfs_lookup(f); if (A->inode[k].type != I_REG || A->inode[k].scratch) continue; auto it = fin.find(f); if (it == fin.end() || it->second.data != vfs_data(k)) return false; } for (auto &f : fin) { string d; if (!f.second.dir && !f.second.dev && !vfs_read(f.first, d)) return false; } return true; };
    if (o != q.out || status != q.status || !as_is(q.fin)) for (auto &a : q.alts) if ((o == a.out || unfold_eq(o, a.out)) && status == a.status && as_is(a.fin)) { q.out = a.out; q.status = a.status; q.fin = a.fin; break; }   // a command that stopped reading early
    if (!fired && !full) {
      if (o != q.out && unfold_eq(o, q.out) == false) viol(bt, "output", where() + " printed " + esc(o.substr(0, 400)) + " expected " + esc(q.out.substr(0, 400)));
      if (status != q.status) viol(bt, "status", where() + ": exit status " + std::to_string(status) + " expected " + std::to_string(q.status));
      map<string, MFile> pre = m.files; m.files = q.fin; check_files(pre, false, bt | T(3)); done_ok();
    }
    bool started_none = o.empty() && string(A->out, A->out_len).find(PROMPT) == string::npos;   // out of memory before the first file was opened
    // a fault: every file holds what it held before, something the script wrote to it, or part of that while it was being written
    auto cur_of = [&](const string &n, bool &have) { string d; have = vfs_read(n, d); return d; };
    auto org = [&](const string &n, bool &have) { auto it = m.files.find(vfs_norm(n)); have = it != m.files.end() && !it->second.dir; return have ? it->second.data : string(); };
    set<string> known; bool all = true;
    for (auto &f : vfs_list()) {
      int k = vfs_lookup(f); if (A->inode[k].type != I_REG || A->inode[k].scratch) continue; known.insert(f); bool h0; string d = vfs_data(k), d0 = org(f, h0);
      if (h0 && d == d0) continue; bool ok = false; for (auto &st : q.steps) if (st.path == f && st.data.compare(0, d.size(), d) == 0) ok = true;
      if (!h0 && d.empty()) for (auto &st : q.steps) ok |= st.path == f;
      if (f == "/w/ed.hup" || f == "/h/ed.hup") ok |= hup;
      if (!ok) viol(bt | T(23) | T(3), "file", where() + ": " + f + " holds " + esc(d.substr(0, 300)) + ", neither its old text nor anything the script writes there");
    }
    for (auto &f : m.files) if (!f.second.dir && !f.second.dev && !known.count(f.first)) viol(bt | T(23), "file", where() + ": file " + f.first + " is missing");
    for (auto &f : q.fin) if (!f.second.dir && !f.second.dev) { bool h; string d = cur_of(f.first, h); if (!h || d != f.second.data) all = false; }
    // and together: the writes happen in the order of the script, each one in full before the next (so a backup before its file, and one file after another)
    if (!hup) {
      map<string, string> x, now; for (auto &f : m.files) if (!f.second.dir && !f.second.dev) x[f.first] = f.second.data;
      for (auto &f : known) now[f] = vfs_data(vfs_lookup(f)); bool ok = x == now; string best = "nothing written"; 
      for (size_t i = 0; i < q.steps.size() && !ok; ++i) {
        auto &st = q.steps[i]; auto y = x; auto it = now.find(st.path); if (it != now.end() && st.data.compare(0, it->second.size(), it->second) == 0) y[st.path] = it->second; else if (it == now.end()) y.erase(st.path);
        ok = y == now; x[st.path] = st.data; ok |= x == now;
      }
      if (!ok) { string l; for (auto &f : now) { bool h0; string d0 = org(f.first, h0); if (!h0 || d0 != f.second) l += " " + f.first + "=" + esc(f.second.substr(0, 60)); } viol(bt | T(3), "order", where() + ": the files are in no state that the script passes through:" + l); }
    }
    if (!killed && !sig && status == 0 && !all && q.status == 0) viol(bt | T(4), "silent-failure", where() + ": exit status 0, yet not every file holds the result");
    if (!killed && !sig && !sigd && status != 0 && status != q.status && o.find('?') == string::npos && A->err_len == 0 && !(status == 3 && started_none)) viol(bt | T(4), "silent-failure", where() + ": the run failed without a word");
    ++R->nontrivial; done_ok();
  }
  bool unfold_eq(const string &o, const string &want) { Model x; x.out = want; x.listed = want.find('\\') != string::npos || o.find('\\') != string::npos; return x.same_out(o); }
  // ------------------------------------------------ exit
  void on_exit(int status, int sig) override {
#ifndef EDSIM_ASAN
    sim_check_heap();
#endif
    if (mode == M_DRY) end_dry();
    if (mode == M_PROBE) { if (!probing.empty() && A->out_len) probe_put(probing, string(A->out, A->out_len)); else if (!probing.empty()) probe_put(probing, ""); R->probe_exit = sig ? 1000 + sig : status; _exit(0); }
    if (b.on && mode == M_MAIN) batch_exit(status, sig);
    string o(A->out, A->out_len); bool fired = note_fired() || sig_line; map<string, MFile> pre = m.files; Snap pre_s = m.snap(false); bool killed = false, hup = false, hard = fault_counts[OP_WRITE][FK_FULL] > full0;
    for (auto &f : cur.faults) if (f.fired) { if (f.kind == FK_KILL) killed = true; else if ((f.kind == FK_SIGNAL || f.kind == FK_SIGALL) && labs(f.arg) == SIGHUP) hup = true; else if (f.kind == FK_ERRNO) hard = true; }
    for (auto &l : cur.lines) if (l == "<SIG 1>") hup = true;
    if (!started) {
      if (sig && !fired) viol(T(22), "killed", "killed by a signal at startup");
      if (!fired) { string f = argfile(); if (!f.empty()) { cur.lines = {"r " + f}; m.s.dot = 0; m.run(cur.lines); if (m.exited && m.exit_code == status && m.same_out(o)) { temps(); done_ok(); } } }
      if (!fired) viol(T(22) | T(16), "exit", "the editor ended during startup with status " + std::to_string(status));
      if (!killed && !sig) temps(); done_ok(); }
    m.record = true; vector<string> lines; for (auto &l : cur.lines) if (l[0] != '<' || (l.compare(0, 4, "<SIG") && l.compare(0, 4, "<ACT"))) lines.push_back(l);
    bool idle = !cur.lines.empty() && cur.lines[0].compare(0, 4, "<SIG") == 0;
    int r = R_OK_; if (!idle && !lines.empty()) r = m.run(lines); else { m.path.clear(); m.path.push_back(pre_s); m.wrote_path.clear(); m.touched_files.clear(); m.seen.clear(); m.wregs = 0; }
    if (m.may_epipe && r != R_UNK && m.is_epipe(o) && m.exit_on_error) { m.out = o; m.exited = true; m.exit_code = 4; r = R_ERR; }
    uint32_t bt = base_tags() | contam;
    if (killed) { check_files(pre, true, bt | T(23)); ++R->nontrivial; done_ok(); }
    if (sig) viol(T(22) | bt | (sig == SIGPIPE ? T(12) : 0), "killed", where() + ": the editor was killed by signal " + std::to_string(sig));
    if (hup) { check_hup(status, pre, hard, bt); done_ok(); }
    temps();
    if (r == R_UNK) done_ok();
    if (!m.exited) { if (hard && status) done_ok(); viol(T(22) | T(8) | T(16) | bt, "exit", where() + ": the editor ended with status " + std::to_string(status)); }
    if (!fired && !hard) {
      if (!m.same_out(o)) viol(bt | T(16), "output", where() + " printed " + esc(o.substr(0, 500)) + " expected " + esc(m.out.substr(0, 500)));
      if (status != m.exit_code && !status_unknown) viol(T(16) | bt, "status", where() + ": exit status " + std::to_string(status) + " expected " + std::to_string(m.exit_code));
      check_files(pre, false, bt);
    } else {
      check_files(pre, true, bt);
      // quitting must never follow a failed write
      if (hard && r == R_EOF && !m.wrote_path.empty() && (!m.exit_on_error || status == 0)) { string d; auto f = m.files.find(m.wrote_path); if (f != m.files.end() && !f->second.dev && (!vfs_read(m.wrote_path, d) || d != f->second.data)) viol(T(4) | T(3) | bt, "lost-write", where() + ": the editor ended although " + m.wrote_path + " was not written: it holds " + esc(d.substr(0, 200)) + " expected " + esc(f->second.data.substr(0, 200))); }
    }
    done_ok();
  }
  void temps() {
    bool unl = false; for (auto &f : cur.faults) if (f.fired && f.op == OP_UNLINK) unl = true; if (unl) return;
    for (auto &f : vfs_list()) { int k = vfs_lookup(f); if (A->inode[k].scratch) viol(T(15) | contam, "leftover", "after " + where() + " the editor ended and left temporary file " + f); }
  }
  void check_hup(int status, const map<string, MFile> &pre, bool hard, uint32_t bt) {
    // the rescue file: what this session put into ed.hup here or, failing that, at home (either may hold an older rescue)
    string d; bool have = false; const char *hf[] = {"/w/ed.hup", "/h/ed.hup"};
    for (auto f : hf) { string x; if (have || !vfs_read(f, x)) continue; auto w = pre.find(f); if (w == pre.end() || w->second.data != x) { have = true; d = x; } }
    if (!have) for (auto f : hf) { string x; if (have || !vfs_read(f, x)) continue; for (auto &s : m.path) { string y; for (auto &l : s.s.b) y += *l.t + "\n"; if (x == y && !y.empty()) { have = true; d = x; } } }
    m.files.erase("/w/ed.hup"); m.files.erase("/h/ed.hup");
    if (have) {   // under the key in use: while the key is being changed, under either of them
      bool some = false, plain = false; vector<string> ds, ks = m.kpath; if (ks.empty()) ks.push_back(m.key); for (auto &k : ks) { if (k.empty()) { plain = true; continue; } bool whole; string x = des_dec(k, d, whole); if (whole || hard) { some = true; ds.push_back(x); } }
      if (plain) ds.push_back(d); else if (!some) viol(T(7) | T(21) | bt, "hangup", where() + ": the rescued text is not encrypted with the key in use");
      if (ds.size()) { size_t b = 0; for (size_t i = 0; i < ds.size(); ++i) for (auto &s : m.path) { string x; for (auto &l : s.s.b) x += *l.t + "\n"; if (!ds[i].empty() && (x.compare(0, ds[i].size(), ds[i]) == 0)) b = i; } d = ds[b]; }
    }
    bool ok = false; string want;
    for (auto &s : m.path) { string x; for (auto &l : s.s.b) x += *l.t + "\n"; if (s.s.bin && s.s.nlapp && !x.empty()) { string y = x.substr(0, x.size() - 1); if (have && d == y) ok = true; } if (have ? d == x : x.empty()) ok = true; want = x; }
    if (m.last == R_UNK) ok = true;
    bool quit = m.exited; if (quit && !have && (status == m.exit_code || status_unknown)) ok = true;   // the command was ending the session by itself
    if (hard) { /* rescue may legitimately fail, but what exists must not be wrong text */ if (!have) ok = true; else for (auto &s : m.path) { string x; for (auto &l : s.s.b) x += *l.t + "\n"; if (x.compare(0, d.size(), d) == 0) ok = true; } }
    if (!ok) viol(T(7) | bt, "hangup", where() + ": hangup " + (have ? "rescued " + esc(d.substr(0, 300)) : string("saved nothing")) + " expected " + esc(want.substr(0, 300)));
    if (!hard) for (auto &f : vfs_list()) { int k = vfs_lookup(f); if (A->inode[k].scratch) viol(T(15) | T(7), "leftover", "after hangup the editor left temporary file " + f); }
    vfs_unlink("/w/ed.hup"); vfs_unlink("/h/ed.hup");
    if (!hard && status != 2 && status != 1 && !(quit && (status == m.exit_code || status_unknown))) viol(T(7), "hangup-status", "hangup ended with status " + std::to_string(status) + " quit " + std::to_string(quit) + " code " + std::to_string(m.exit_code) + " last " + std::to_string(m.last));
    check_files(pre, true, bt | T(7)); ++R->nontrivial;
  }
  void on_mutate(int, const char *) override {}
  void on_shell(const char *c) override { if (m.restricted && mode == M_MAIN) viol(T(20), "restricted", where() + ": the restricted editor ran shell command " + esc(c)); }
  void on_open(const char *p, int fl) override { if (m.restricted && mode == M_MAIN && started && !me) { string n = vfs_norm(p); string par = n.substr(0, n.rfind('/')); if (par != "/w" && n.compare(0, 5, "/tmp/") && n != "/dev/null" && n != "/h/ed.hup") viol(T(20), "restricted", where() + ": the restricted editor opened " + n); } (void)fl; }
};
static Sim *S;
void finish_run() {
  if (mode == M_DRY) { if (me) kill(main_pid, SIGKILL); _exit(0); }
  if (mode == M_PROBE) { snprintf(R->msg, sizeof R->msg, "%s: %s", A->v.kind, A->v.msg); R->probe_exit = -2; _exit(0); }
  if (A->v.set && !ended) {
    if (!strcmp(A->v.kind, "harness")) { R->harness = 1; snprintf(R->msg, sizeof R->msg, "%s", A->v.msg); R->done = 1; S->sync_trace(); if (me) kill(main_pid, SIGKILL); _exit(0); }
    uint32_t tg = T(22) | S->contam | S->scen; S->m.run(S->cur.lines); tg |= S->base_tags();
    R->tags = tg; snprintf(R->kind, sizeof R->kind, "%s", A->v.kind); snprintf(R->msg, sizeof R->msg, "%s: %s", S->where().c_str(), A->v.msg); R->set = 1;
  }
  if (me) { S->flush_result(); kill(main_pid, SIGKILL); _exit(0); }
  S->flush_result(); _exit(0);
}
void crash_report(const char *kind, const char *msg);
#ifdef EDSIM_ASAN
// every memory error AddressSanitizer sees in the editor ends the run as a violation
extern "C" const char *__asan_get_report_description(void);
extern "C" const char *__asan_default_options(void) { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=77"; }
extern "C" void __asan_on_error(void) { static int once; if (once++) return; char m[160]; snprintf(m, sizeof m, "%s in the editor", __asan_get_report_description()); if (!getenv("EDSIM_BT")) crash_report("memory", m); }
#endif
void crash_report(const char *kind, const char *msg) { // from a signal handler, async context
  if (mode == M_DRY) _exit(0);
  if (mode == M_PROBE) { snprintf(R->msg, sizeof R->msg, "%s: %s", kind, msg); R->probe_exit = -2; _exit(0); }
  if (!R->set) { R->tags = T(22) | T(26) | S->contam | S->scen | S->base_tags_safe(); snprintf(R->kind, sizeof R->kind, "%s", kind); snprintf(R->msg, sizeof R->msg, "during command %d: %s", S->cur.uid, msg); R->set = 1; }
  R->ev_hash = A->ev_hash; R->ev_count = A->ev_count; R->done = 1; if (me) kill(main_pid, SIGKILL); _exit(0);
}
void simulate(Trace &t, const Profile *g) {
  sim_mem_reuse = (t.start_sched >> 20) % 3 == 0; sim_reset_run(); main_pid = getpid(); cov_map = SH ? SH->cov : nullptr;
  S = new Sim(t, g); E = S; S->scen = profile_tags(t.profile); S->max_cmds = g ? profile_cmds(g, S->rng) : 0; S->gs.want = S->max_cmds; S->setup(); S->plan_start(); S->sync_trace();
  vector<string> av = t.argv; av.insert(av.begin() + 1, {"-p", PROMPT}); run_ed(av); _exit(0);
}
