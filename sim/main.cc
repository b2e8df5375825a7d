// edsim: run, check and replay simulated executions of the editor.
#include "driver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <ctime>
#include <fstream>
#include <sstream>
#include <algorithm>
void crash_report(const char *kind, const char *msg);
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class X> static X *shm() { void *p = mmap(nullptr, sizeof(X), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return (X *)p; }
static void clear_result() { size_t head = offsetof(Result, probe); memset((void *)R, 0, head); R->probe_len = 0; R->probe_done = 0; R->trace[0] = 0; }
static int watchdog_s = 30; static bool verbose;

// one simulated execution in a process of its own
static void run_one(Trace &t, const Profile *gen) {
  clear_result(); pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
    struct itimerval it = {}; it.it_value.tv_sec = watchdog_s; setitimer(ITIMER_REAL, &it, nullptr);
    simulate(t, gen);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!R->set && !R->done) {
    if (!R->harness) { R->harness = 1; snprintf(R->msg, sizeof R->msg, "run ended without a result (wait status %x)", st); }
  }
}
static bool read_file(const string &p, string &o) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::stringstream s; s << f.rdbuf(); o = s.str(); return true; }
static void write_text(const string &p, const string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }

struct Known { string prop, kind, match, text; };
static vector<Known> knowns;
static void load_known(const string &f) {
  std::ifstream in(f); string l; while (std::getline(in, l)) { if (l.compare(0, 8, "finding:")) continue; Known k; std::istringstream w(l.substr(8)); string x; while (w >> x) { if (x.compare(0, 9, "property=") == 0) k.prop = x.substr(9); else if (x.compare(0, 5, "kind=") == 0) k.kind = x.substr(5); else if (x.compare(0, 6, "match=") == 0) { k.match = x.substr(6); std::getline(w, k.text); break; } } for (auto &c : k.match) if (c == '~') c = ' '; knowns.push_back(k); }
}
static bool is_known(uint32_t, const char *kind, const char *msg) { for (auto &k : knowns) if (k.kind == kind && strstr(msg, k.match.c_str())) return true; return false; }

// does the trace still fail in the same way?
static bool fails(Trace &t, const string &kind, uint32_t bit) { run_one(t, nullptr); return R->set && kind == R->kind && (R->tags & bit); }
static void minimise(Trace &t, const string &kind, uint32_t bit, double limit) {
  double end = now() + limit;
  auto try_t = [&](Trace &c) { if (now() > end) return false; if (fails(c, kind, bit)) { t = c; return true; } return false; };
  // drop everything after the failing command first
  for (size_t n = t.cmds.size(); n > 0 && now() < end;) { size_t h = n / 2; Trace c = t; c.cmds.resize(n > 1 ? n - 1 : 0); if (!try_t(c)) break; n = t.cmds.size(); (void)h; }
  for (size_t k = t.cmds.size() / 2; k >= 1 && now() < end; k /= 2) { bool any = true; while (any && now() < end) { any = false; for (size_t i = 0; i + k <= t.cmds.size() && now() < end;) { Trace c = t; c.cmds.erase(c.cmds.begin() + i, c.cmds.begin() + i + k); if (try_t(c)) any = true; else i += 1; } if (k > 1) break; } }
  for (size_t i = 0; i < t.cmds.size(); ++i) for (size_t j = 0; j < t.cmds[i].faults.size() && now() < end;) { Trace c = t; c.cmds[i].faults.erase(c.cmds[i].faults.begin() + j); if (!try_t(c)) ++j; }
  for (size_t i = 0; i < t.cmds.size(); ++i) for (size_t j = 0; j < t.cmds[i].faults.size() && now() < end; ++j) { if (t.cmds[i].faults[j].sticky) { Trace c = t; c.cmds[i].faults[j].sticky = 0; try_t(c); } if (t.cmds[i].faults[j].nth > 1) { Trace c = t; c.cmds[i].faults[j].nth = 1; try_t(c); } }
  while (!t.start_faults.empty() && now() < end) { Trace c = t; c.start_faults.pop_back(); if (!try_t(c)) break; }
  for (size_t i = 0; i < t.cmds.size(); ++i) for (size_t j = 0; j < t.cmds[i].lines.size() && t.cmds[i].lines.size() > 1 && now() < end;) { Trace c = t; c.cmds[i].lines.erase(c.cmds[i].lines.begin() + j); if (!try_t(c)) ++j; }
  for (size_t i = 1; i < t.argv.size() && now() < end;) { Trace c = t; c.argv.erase(c.argv.begin() + i); if (!try_t(c)) ++i; }
  for (size_t i = 0; i < t.files.size() && now() < end;) { Trace c = t; c.files.erase(c.files.begin() + i); if (!try_t(c)) ++i; }
  for (int b : {512}) if (t.blksize != b) { Trace c = t; c.blksize = b; try_t(c); }
  if (t.space >= 0) { Trace c = t; c.space = -1; try_t(c); } if (t.tspace >= 0) { Trace c = t; c.tspace = -1; try_t(c); }
}
static string jesc(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static int prop_bit(const string &p) { return atoi(p.c_str() + 1); }
static string outdir = "/verif/build/replay";
struct Found { volatile int used; char kind[40]; char msg[2400]; char path[256]; };

static uint64_t ntarget; static double tcap; static uint64_t base_seed; static string prop, tier;
static Found *found; static char *sample_buf; static const size_t SAMPLE = 1 << 16;
static bool keep_going;

static void absorb() {
  SH->runs++; SH->cmds += R->cmds; SH->probes += R->probes; SH->path_states += R->path_states; SH->sim_us += R->sim_us; SH->switches += R->switches; SH->steps += R->steps; SH->shells += R->shells; SH->fired += R->fired; SH->unknowns += R->unknowns; SH->errors += R->errors; SH->events += R->ev_count;
  for (int i = 0; i < OP_MAX; ++i) for (int k = 0; k < FK_MAX; ++k) if (R->faults[i][k]) SH->faults[i][k] += R->faults[i][k];
  uint64_t h = R->ev_hash & (sizeof SH->execs * 8 - 1); uint8_t old = SH->execs[h >> 3].fetch_or(1 << (h & 7));
  if (!(old >> (h & 7) & 1) && (R->cmds > 1)) SH->nontrivial++;
}
static Trace mk_trace(uint64_t seed, const string &id) { Trace t; t.seed = seed; Rng r(seed); gen_setup(t, id == "C26" ? profile_at(seed) : id, r); return t; }   // C26 takes the scenarios of all the others in turn
static void worker(int w, int jobs) {
  uint32_t bit = T(prop_bit(prop)); double t0 = now();
  for (uint64_t i = w; i < ntarget && !SH->stop; i += jobs) {
    if (now() - t0 > tcap) break;
    uint64_t seed = base_seed * 1000003ull + i + 1; Trace t = mk_trace(seed, prop); run_one(t, find_profile(t.profile)); absorb();
    if (i < 2 && !R->set) { string s = R->trace; size_t c = strlen(sample_buf + i * SAMPLE); if (!c) { if (s.size() >= SAMPLE) s.resize(SAMPLE - 1); memcpy(sample_buf + i * SAMPLE, s.c_str(), s.size() + 1); } }
    if (R->harness) { SH->harness++; if (verbose || keep_going) { fprintf(stderr, "harness seed %llu: %s\n", (unsigned long long)seed, R->msg); } continue; }
    if (!R->set) continue;
    string kind = R->kind, msg = R->msg, text = R->trace; uint32_t tags = R->tags;
    if (is_known(tags, kind.c_str(), msg.c_str())) continue;
    if (!(tags & bit)) { SH->other++; if (keep_going) write_text(outdir + "/OTHER-" + std::to_string(seed) + ".trace", text), printf("OTHER seed=%llu tags=%08x kind=%s %s\n", (unsigned long long)seed, tags, kind.c_str(), msg.c_str()), fflush(stdout); continue; }
    if (kind == "watchdog") { SH->harness++; continue; }
    // gate: the recorded trace must fail twice, identically
    Trace rt; if (!rt.parse(text)) { SH->harness++; continue; }
    run_one(rt, nullptr); bool ok = R->set && kind == R->kind; uint64_t h1 = R->ev_hash; run_one(rt, nullptr); ok = ok && R->set && kind == R->kind && R->ev_hash == h1;
    if (!ok) { SH->nonrepro++; string f = outdir + "/nonrepro-" + prop + "-" + std::to_string(seed); write_text(f, text); if (keep_going) printf("NONREPRO seed=%llu kind=%s %s\n", (unsigned long long)seed, kind.c_str(), msg.c_str()), fflush(stdout); continue; }
    if (keep_going) { printf("FOUND seed=%llu tags=%08x kind=%s %s\n", (unsigned long long)seed, tags, kind.c_str(), msg.c_str()); fflush(stdout); write_text(outdir + "/" + prop + "-" + std::to_string(seed) + ".trace", text); SH->nviol++; continue; }
    if (SH->nviol.fetch_add(1) == 0) {
      SH->stop = 1; minimise(rt, kind, bit, 25); run_one(rt, nullptr); if (R->set && kind == R->kind) { msg = R->msg; }
      string f = outdir + "/" + prop + "-" + std::to_string(seed) + ".trace"; write_text(f, rt.text());
      snprintf(found->kind, sizeof found->kind, "%s", kind.c_str()); snprintf(found->msg, sizeof found->msg, "%s", msg.c_str()); snprintf(found->path, sizeof found->path, "%s", f.c_str()); found->used = 1;
    }
    return;
  }
}
static uint64_t popc(const volatile uint8_t *p, size_t n) { uint64_t c = 0; for (size_t i = 0; i < n; ++i) c += __builtin_popcount(p[i]); return c; }
static const char *REALC = "the complete editor: every src/*.c and the bundled regex/lib objects the editor links, compiled from /repo's working tree, with real glibc stdio on top of the seam";
static const char *STUBC = "file system, descriptors, pipes, signals, processes, terminal, allocator failures, mkstemp, getpass, randomness and clock (seam in sim.cc); /bin/sh and the programs it starts (shell.cc); locale is C";
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("EDSIM_NOASLR")) { personality(ADDR_NO_RANDOMIZE); setenv("EDSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPIPE, SIG_DFL);
  string cmd = argc > 1 ? argv[1] : ""; string file, evid, known; int jobs = 8; uint64_t seed = 1; ntarget = 2000; tcap = 60; prop = "C01"; tier = "quick";
  for (int i = 2; i < argc; ++i) { string a = argv[i]; auto nx = [&] { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--runs") ntarget = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tcap = atof(nx().c_str()); else if (a == "--evidence") evid = nx(); else if (a == "--known") known = nx(); else if (a == "--out") outdir = nx(); else if (a == "-v") verbose = trace_text = true; else if (a == "--keep-going") keep_going = true; else file = a; }
  if (!known.empty()) load_known(known);
  R = shm<Result>(); SH = shm<Shared>(); found = shm<Found>(); base_seed = seed;
  if (cmd == "run") {           // one seed, generated
    Trace t = mk_trace(seed, prop); run_one(t, find_profile(t.profile)); if (verbose) printf("%s", R->trace);
    printf("seed %llu hash %016llx events %llu cmds %llu %s\n", (unsigned long long)seed, (unsigned long long)R->ev_hash, (unsigned long long)R->ev_count, (unsigned long long)R->cmds, R->set ? R->kind : R->harness ? "harness" : "ok"); if (R->set || R->harness) printf("%s (tags %08x)\n", R->msg, R->tags); return R->set ? 1 : R->harness ? 3 : 0;
  }
  if (cmd == "hashes") { for (uint64_t s = seed; s < seed + ntarget; ++s) { Trace t = mk_trace(s, prop); run_one(t, find_profile(t.profile)); printf("%s %llu %016llx", prop.c_str(), (unsigned long long)s, (unsigned long long)R->ev_hash); uint64_t h = R->ev_hash; int set = R->set; Trace q; if (q.parse(R->trace)) { run_one(q, nullptr); printf(" %s", R->ev_hash == h && R->set == set ? "same" : "DIFFERENT-ON-REPLAY"); } printf("\n"); } return 0; }
  if (cmd == "minimise") { string s; if (!read_file(file, s)) return 3; Trace t; if (!t.parse(s)) return 3; run_one(t, nullptr); if (!R->set) { printf("does not fail\n"); return 0; } string k = R->kind; minimise(t, k, R->tags, 60); printf("%s", t.text().c_str()); run_one(t, nullptr); printf("# %s: %s\n", R->kind, R->msg); return 1; }
  if (cmd == "replay") {
    string s; if (!read_file(file, s)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; } Trace t; if (!t.parse(s)) { fprintf(stderr, "not a trace\n"); return 3; }
    run_one(t, nullptr); printf("hash %016llx events %llu cmds %llu\n", (unsigned long long)R->ev_hash, (unsigned long long)R->ev_count, (unsigned long long)R->cmds);
    if (R->harness) { printf("harness: %s\n", R->msg); return 3; }
    if (R->set) { printf("REPRODUCED kind=%s tags=%08x\n%s\n", R->kind, R->tags, R->msg); return 1; } printf("no violation\n"); return 0;
  }
  if (cmd != "check" || (prop != "C26" && !find_profile(prop))) { fprintf(stderr, "usage: edsim check|replay|run|hashes ...\n"); return 3; }
  mkdir(outdir.c_str(), 0755); double t0 = now(); sample_buf = (char *)mmap(nullptr, SAMPLE * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int w = 0; w < jobs; ++w) { pid_t p = fork(); if (p == 0) { R = shm<Result>(); worker(w, jobs); _exit(0); } }
  int st, bad = 0; while (wait(&st) > 0) if (st) ++bad;
  double wall = now() - t0; uint64_t runs = SH->runs; int viol = SH->nviol;
  uint64_t states = popc((uint8_t *)SH->states, sizeof SH->states), execs = popc((uint8_t *)SH->execs, sizeof SH->execs), cov = 0; for (size_t i = 0; i < sizeof SH->cov; ++i) cov += SH->cov[i] != 0;
  if (!evid.empty()) {
    std::ostringstream o; o << "{\n \"property\": " << jesc(prop) << ",\n \"tier\": " << jesc(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << (uint64_t)SH->nontrivial
      << ",\n  \"rule\": " << jesc("one evaluation is one simulated editor session, generated from its own seed: setup, up to two dozen commands, faults placed by a fault-free dry run of each command, and a schedule seed; distinct = its hash over every seam event (operations, results, faults, context switches, output) was not seen before in this run (measured in an 8M-bit table, so an under-count); non-trivial = it got past start-up and executed at least one command that was compared with the model");
    o << ",\n  \"samples\": ["; bool first = true; for (int i = 0; i < 2; ++i) if (sample_buf[i * SAMPLE]) { string s = sample_buf + i * SAMPLE; if (s.size() > 6000) s.resize(6000); o << (first ? "" : ", ") << jesc(s); first = false; } o << "],\n";
    o << "  \"seeds_from\": " << base_seed * 1000003ull + 1 << ",\n  \"runs_per_hour\": " << (uint64_t)(runs / std::max(wall, .01) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(runs / std::max(wall, .01) * 3600) << ",\n  \"simulated_seconds\": " << SH->sim_us / 1e6 << ",\n  \"commands_compared\": " << (uint64_t)SH->cmds << ",\n  \"state_probes\": " << (uint64_t)SH->probes << ",\n  \"prefix_states_compared\": " << (uint64_t)SH->path_states << ",\n  \"commands_answered_with_an_error\": " << (uint64_t)SH->errors << ",\n  \"commands_outside_the_model\": " << (uint64_t)SH->unknowns
      << ",\n  \"seam_events\": " << (uint64_t)SH->events << ",\n  \"editor_basic_blocks\": " << (uint64_t)SH->steps << ",\n  \"context_switches\": " << (uint64_t)SH->switches << ",\n  \"shell_children\": " << (uint64_t)SH->shells << ",\n  \"distinct_executions\": " << execs << ",\n  \"distinct_states\": " << states << ",\n  \"distinct_states_measure\": \"hash of (buffer text, current line, modified flag, commands executed, faults that fired) after each command\",\n  \"editor_edges_covered\": " << cov << ",\n  \"commands_hit_by_a_fault\": " << (uint64_t)SH->fired << ",\n  \"faults_injected\": {";
    static const char *kn[] = {"none", "errno", "short", "signal", "disk_full", "other_actor", "kill", "signal_group", "window_resize"}; first = true; for (int i = 0; i < OP_MAX; ++i) for (int k = 0; k < FK_MAX; ++k) if (uint64_t n = SH->faults[i][k]) { o << (first ? "" : ", ") << "\"" << op_name[i] << ":" << kn[k] << "\": " << n; first = false; }
    o << "},\n  \"violations_of_other_properties_seen\": " << (uint64_t)SH->other << ",\n  \"harness_failures\": " << (uint64_t)SH->harness << ",\n  \"not_reproducible\": " << (uint64_t)SH->nonrepro << ",\n  \"real_components\": " << jesc(REALC) << ",\n  \"stubbed_components\": " << jesc(STUBC) << "\n },\n \"assumptions\": [\"seeded sampling of histories, schedules and faults: evidence, not proof\", \"the seam models POSIX semantics of the calls the editor makes; stream buffers are sized from the simulated st_blksize\", \"the interrupt key also discards pending terminal input\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << viol << "\n}\n";
    write_text(evid, o.str());
  }
  printf("%s %s: %llu runs, %llu commands, %llu distinct executions, %llu states, %llu faults fired, %llu edges, %.1fs; other=%llu harness=%llu nonrepro=%llu unknown=%llu errors=%llu\n", prop.c_str(), tier.c_str(), (unsigned long long)runs, (unsigned long long)SH->cmds, (unsigned long long)execs, (unsigned long long)states, (unsigned long long)SH->fired, (unsigned long long)cov, wall, (unsigned long long)SH->other, (unsigned long long)SH->harness, (unsigned long long)SH->nonrepro, (unsigned long long)SH->unknowns, (unsigned long long)SH->errors);
  for (auto &k : knowns) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.text.c_str());
  if (found->used) { printf("%s: %s\n", found->kind, found->msg); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), found->path); return 1; }
  if (viol && keep_going) return 1;
  if (viol || bad || runs == 0) { fprintf(stderr, "edsim: workers failed (%d)\n", bad); return 3; }
  if (SH->nonrepro) { fprintf(stderr, "edsim: %llu violations did not reproduce\n", (unsigned long long)SH->nonrepro); return 3; }
  if (SH->harness > 3 + runs / 20) { fprintf(stderr, "edsim: too many harness failures\n"); return 3; }
  return 0;
}
