// Workload and fault generators: one profile per property.
#include "driver.h"
#include <cerrno>
#include <csignal>
#include <algorithm>

struct FM { int op, cls, kind; vector<long> args; int w; double sticky; };
enum { PF_SCRIPT = 1, PF_SIGLINE = 2, PF_ACTOR = 4, PF_RESTRICT = 8, PF_CRYPT = 16, PF_INPLACE = 32, PF_SPACE = 64, PF_TSPACE = 128, PF_GUARD = 256, PF_EXITS = 512, PF_MACRO = 1024, PF_FREE = 2048, PF_START = 4096, PF_PAGE = 8192, PF_LIST = 16384, PF_BAD = 32768 };
struct Profile { string id; string weights; double pf; vector<FM> menu; int flags; int lo, hi; };

static vector<FM> SHORTS = {
  {OP_READ, CL_ANY, FK_SHORT, {1, 3, 17}, 3, .6}, {OP_WRITE, CL_ANY, FK_SHORT, {1, 3, 17}, 3, .6}, {OP_STDIN, CL_ANY, FK_SHORT, {1, 2}, 1, .5}, {OP_STDOUT, CL_ANY, FK_SHORT, {1, 5}, 1, .5}};
static vector<FM> SCRATCH = {
  {OP_READ, CL_SCRATCH, FK_ERRNO, {EIO}, 6, .3}, {OP_WRITE, CL_SCRATCH, FK_ERRNO, {EIO, ENOSPC}, 6, .3}, {OP_LSEEK, CL_SCRATCH, FK_ERRNO, {EIO}, 4, .2},
  {OP_OPEN, CL_SCRATCH, FK_ERRNO, {EMFILE, EIO}, 1, .2}, {OP_MKSTEMP, CL_ANY, FK_ERRNO, {EMFILE, ENOSPC}, 2, .2}, {OP_CLOSE, CL_SCRATCH, FK_ERRNO, {EIO}, 1, 0}, {OP_FTRUNC, CL_SCRATCH, FK_ERRNO, {EIO}, 1, 0}};
static vector<FM> USERW = {
  {OP_WRITE, CL_USER, FK_ERRNO, {EIO, ENOSPC, EDQUOT}, 8, .4}, {OP_FTRUNC, CL_USER, FK_ERRNO, {EIO}, 4, .3}, {OP_CLOSE, CL_USER, FK_ERRNO, {EIO, ENOSPC}, 3, .3}, {OP_OPEN, CL_USER, FK_ERRNO, {EACCES, EMFILE, EIO, ENOSPC}, 4, .4},
  {OP_LSEEK, CL_USER, FK_ERRNO, {EIO}, 2, .2}, {OP_FLOCK, CL_USER, FK_ERRNO, {ENOLCK}, 1, .2}, {OP_FCNTL, CL_USER, FK_ERRNO, {ENOLCK, EAGAIN}, 1, .2}};
static vector<FM> USERR = {
  {OP_READ, CL_USER, FK_ERRNO, {EIO}, 8, .5}, {OP_OPEN, CL_USER, FK_ERRNO, {EACCES, EMFILE, EIO}, 4, .4}, {OP_CLOSE, CL_USER, FK_ERRNO, {EIO}, 1, 0}, {OP_LSEEK, CL_USER, FK_ERRNO, {EIO}, 2, .2}, {OP_STAT, CL_USER, FK_ERRNO, {EIO, EACCES}, 1, .3}, {OP_FSTAT, CL_USER, FK_ERRNO, {EIO}, 1, 0}};
static vector<FM> PIPES = {
  {OP_FORK, CL_ANY, FK_ERRNO, {EAGAIN, ENOMEM}, 3, .3}, {OP_PIPE, CL_ANY, FK_ERRNO, {EMFILE, ENFILE}, 3, .3}, {OP_PREAD, CL_ANY, FK_SHORT, {1, 3}, 3, .7}, {OP_PWRITE, CL_ANY, FK_SHORT, {1, 3}, 3, .7}, {OP_PREAD, CL_ANY, FK_ERRNO, {EIO}, 1, 0}, {OP_DUP2, CL_ANY, FK_ERRNO, {EIO}, 0, 0}};
static vector<FM> MALLOCS = {{OP_MALLOC, CL_ANY, FK_ERRNO, {ENOMEM}, 8, .2}};
static vector<FM> sigs(int s, int steps) {
  vector<FM> v = {{OP_STEP, CL_ANY, FK_SIGNAL, {s}, steps, 0}};
  for (int op : {OP_READ, OP_WRITE, OP_LSEEK, OP_OPEN, OP_CLOSE, OP_FTRUNC, OP_STDIN, OP_STDOUT, OP_MKSTEMP, OP_MALLOC, OP_FORK, OP_PIPE, OP_WAIT, OP_PREAD, OP_PWRITE, OP_STAT})
    v.push_back({op, CL_ANY, FK_SIGNAL, {s, -s}, op == OP_MALLOC ? 1 : 2, 0});
  return v;
}
static vector<FM> sigall(int s) { vector<FM> v; for (int op : {OP_FORK, OP_WAIT, OP_PREAD, OP_PWRITE, OP_CLOSE, OP_STEP}) v.push_back({op, CL_ANY, FK_SIGALL, {s, -s}, 2, 0}); for (auto &f : v) if (f.op == OP_STEP) f.args = {s}; return v; }
static vector<FM> wins(int w) {
  vector<FM> v; static const long s[] = {2, 3, 4, 5, 8, 10, 24, 24, 40, 100}; vector<long> a, b; for (long x : s) for (long c : {80L, 80L, 132L, 40L, 9L}) { a.push_back(x | c << 16); b.push_back(-(x | c << 16)); }
  a.push_back(1 | 80L << 16); a.push_back(30 | 1L << 16); a.push_back(0); a.back() = 24 | 0L << 16; vector<long> ab = a; ab.insert(ab.end(), b.begin(), b.end());
  v.push_back({OP_STEP, CL_ANY, FK_WINCH, a, 6 * w, 0});
  for (int op : {OP_READ, OP_WRITE, OP_LSEEK, OP_OPEN, OP_STDIN, OP_STDOUT, OP_MALLOC, OP_FORK, OP_WAIT, OP_PREAD, OP_PWRITE, OP_CLOSE}) v.push_back({op, CL_ANY, FK_WINCH, op == OP_STDIN ? a : ab, op == OP_STDOUT || op == OP_MALLOC ? 3 * w : w, 0});
  return v; }
static vector<FM> kills() { vector<FM> v = {{OP_STEP, CL_ANY, FK_KILL, {9}, 4, 0}}; for (int op : {OP_WRITE, OP_OPEN, OP_CLOSE, OP_FTRUNC, OP_LSEEK, OP_READ, OP_STDOUT}) v.push_back({op, CL_ANY, FK_KILL, {9}, 3, 0}); return v; }
static vector<FM> cat(std::initializer_list<vector<FM>> l) { vector<FM> r; for (auto &v : l) r.insert(r.end(), v.begin(), v.end()); return r; }
static vector<FM> scale(vector<FM> v, int k) { for (auto &f : v) f.w *= k; return v; }

//              letters: weights.  R = register move, M = macro, ! = shell, S = idle signal
static const char *ED = "a8i5c5d6j4m6t6s9k3p2n1l1=1\n3u2g3v1";
static const vector<Profile> &profiles() {
  static vector<Profile> P = {
    {"C01", "a8i6c6d7j5m7t7s10k2p3n2l2=1\n3u3g3v1r2w1f1e1", .3, SHORTS, 0, 8, 22},
    {"C02", "a6i4c5d6j3m5t5s7k2u16g4v2r3R2w2!1G1e1", .35, cat({SCRATCH, SHORTS, sigs(SIGINT, 10)}), PF_SIGLINE, 8, 22},
    {"C03", "a4i2d3s3c2u1w14W5e2r2f2x1m2j1!1", .3, cat({SHORTS, {{OP_WRITE, CL_USER, FK_ERRNO, {EINTR}, 1, 0}}}), 0, 8, 20},
    {"C04", "a4d2s3c2w14W5r1e1f1u1q2x1", .55, cat({scale(USERW, 2), SCRATCH}), PF_SPACE | PF_TSPACE | PF_GUARD, 6, 16},
    {"C05", "a3d2s1r14e7E4u2w2f2j1x1", .4, cat({scale(USERR, 2), SHORTS, SCRATCH, {{OP_READ, CL_USER, FK_ERRNO, {EINTR}, 8, 0}}}), PF_START, 6, 16},
    {"C06", "a5i3c3d4j2m4t4s5k2p1l1u2g4v1G1r4w3W1e1E1!4R3M2f1x1", .65, cat({sigs(SIGINT, 40), sigall(SIGINT)}), PF_SIGLINE, 6, 16},
    {"C07", "a6i3c3d4j2m4t4s5u3g3r3w3e1R2!2M1", .12, cat({sigs(SIGHUP, 30), sigall(SIGHUP), {{OP_STEP, CL_ANY, FK_SIGNAL, {SIGHUP}, 20, 0}}}), PF_SIGLINE | PF_SPACE, 3, 12},
    {"C08", "a4i1d2s3u4w6W1q8x4e5E2r2m1f1j1!1g1R1t1", .25, cat({USERW, USERR, SCRATCH, sigs(SIGINT, 6)}), PF_GUARD | PF_EXITS, 6, 18},
    {"C09", "a4d1s1k1u3g18v8G6V3m1R1x1", .15, cat({SHORTS, SCRATCH, sigs(SIGINT, 6)}), 0, 6, 16},
    {"C10", "a4i3c4d5j4m7t5s7k12K8u5g4r2R2!1", .1, cat({SHORTS, sigs(SIGINT, 6), SCRATCH}), 0, 10, 24},
    {"C11", "a4d3s2c1u3R22M3g3m2w1e1", .3, cat({scale(SCRATCH, 2), SHORTS, sigs(SIGINT, 6), MALLOCS}), 0, 8, 22},
    {"C12", "a4d2s1u2!22r3w3g2f1", .4, cat({scale(PIPES, 3), SHORTS, sigall(SIGINT)}), 0, 6, 16},
    {"C13", "a6i3c4d3j4m3t5s7p2u4g3r3w3R3M1!1k1", .5, cat({SCRATCH, SHORTS}), PF_TSPACE, 6, 18},
    {"C14", "a6i2c3d3j3m3t4s6k1p1l1u3g4v1G1r3w3e1R4M2!3f1=1x1", .6, MALLOCS, PF_START | PF_SIGLINE, 5, 14},
    {"C15", "a5d2s2m1r2w2e1R5M2!1u1Q1q2", .3, cat({SCRATCH, sigs(SIGHUP, 6), sigs(SIGINT, 6), MALLOCS, USERW}), PF_EXITS | PF_TSPACE | PF_START, 3, 10},
    {"C16", "a5i2c2d3j2m3t3s5k1p2u2g3r2w4f1q2e3b3R2!1", .2, cat({SHORTS, SCRATCH, USERW, USERR}), PF_SCRIPT | PF_EXITS, 4, 14},
    {"C17", "a3d2s2u2M20R3g1k1", .25, cat({SCRATCH, sigs(SIGINT, 14), SHORTS, MALLOCS}), PF_MACRO, 6, 16},
    {"C18", "a5i2c3d3j2m3t3s6g3v1u1k1w2p1r1n1f1e1E1", .7, cat({SHORTS, scale(USERW, 4), scale(USERR, 2), SCRATCH, MALLOCS, scale(kills(), 2), sigs(SIGINT, 6)}), PF_INPLACE | PF_SPACE, 1, 6},
    {"C19", "a4d2s3w8W2r5e3E2f1u1", .1, cat({SHORTS, USERW}), PF_ACTOR, 6, 16},
    {"C20", "a4d1s1w5r5e4E2f4!8X12u1~4", .1, SHORTS, PF_RESTRICT, 6, 18},
    {"C21", "a6i1d2s3c2w10W1r4E6e2y2R2M1!2u1x1f1", .35, cat({scale(SHORTS, 3), USERW, USERR, sigs(SIGHUP, 3), sigs(SIGINT, 3), {{OP_READ, CL_USER, FK_ERRNO, {EINTR}, 12, 0}, {OP_PREAD, CL_ANY, FK_ERRNO, {EINTR}, 2, 0}}}), PF_CRYPT | PF_SPACE, 4, 14},
    {"C22", "a6i3c3d4j2m4t4s6k2p2n1l2=1\n2u3g4v2G2V1r3w3W1e2E1!3R4M2f1X8z3x2~3", .5, cat({SCRATCH, USERW, USERR, PIPES, MALLOCS, sigs(SIGINT, 10), SHORTS}), PF_SIGLINE | PF_FREE | PF_SPACE | PF_TSPACE, 8, 24},
    {"C25", "a3i1d3s2Y24p4n2l2=1k1u2g1t2m1R1r1\n3z1", .45, cat({wins(3), SHORTS, sigs(SIGINT, 2), MALLOCS}), PF_PAGE, 8, 24},
    {"C27", "a3d1s2w4W1r2e3E1f2u1q1~30!1g2R1M1k1", .3, cat({USERR, USERW, SHORTS, sigs(SIGINT, 12), MALLOCS}), PF_LIST | PF_GUARD, 8, 20},
    {"C23", "a5d2s3c2w8W3r2e2u2!2R1f1m1g1", .3, cat({scale(kills(), 3), SCRATCH, sigs(SIGINT, 10)}), 0, 5, 16},
    {"C28", "a3d2s3k2u4j1m1t1w1f1R2g1e1B26", .08, cat({SHORTS, MALLOCS}), PF_BAD, 10, 24},
  };
  return P;
}
const Profile *find_profile(const string &id) { for (auto &p : profiles()) if (p.id == id) return &p; return nullptr; }
const string &profile_at(uint64_t i) { auto &p = profiles(); return p[i % (p.size() - 1)].id; }   // all but the last
int profile_cmds(const Profile *p, Rng &r) { return r.range(p->lo, p->hi); }
uint32_t profile_tags(const string &id) {
  const Profile *p = find_profile(id); if (!p) return 0; uint32_t t = 0;
  if (p->flags & PF_SCRIPT) t |= T(16); if (p->flags & PF_INPLACE) t |= T(18); if (p->flags & PF_RESTRICT) t |= T(20); if (p->flags & PF_CRYPT) t |= T(21); if (p->flags & PF_ACTOR) t |= T(19); if (p->flags & PF_FREE) t |= T(22); if (p->flags & PF_MACRO) t |= T(17); if (p->flags & PF_BAD) t |= T(28);
  return t;
}
// ---------------------------------------------------------------- text
static const char *VOC[] = {"foo", "bar", "abc", "ab", "a", "foobar", "x", "baz qux", "aab", "oof", "line", "", "  in", "a/b", "tab\there", "$5", "back\\slash", "b.c", "(ab)", "caf\xc3\xa9", "ff\f", "a\fb", "b\bs"};
static string word(Rng &r) { return VOC[r.below(20)]; }
static string text(Rng &r) {
  if (r.chance(.03)) { string s; int n = r.range(60, 900); for (int i = 0; i < n; ++i) s += (char)('a' + (i * 7 + n) % 26); return s; }
  if (r.chance(.04)) return r.chance(.5) ? ".." : "";
  string s = word(r); int n = (int)r.below(3); for (int i = 0; i < n; ++i) s += (r.chance(.5) ? " " : "") + word(r);
  if (r.chance(.35)) s += std::to_string(r.below(100));
  while (!s.empty() && s.back() == '\\') s.pop_back();
  return s == "." ? "dot" : s;
}
static string pat(Rng &r) { static const char *p[] = {"a", "foo", "o*", "^", "$", "[ab]", "b.r", "x", "^f", "r$", ".", "zzz", "o", "ab*", "[^a]", "^$", "[0-9]", "a.*b", "1", "line", "\\(a\\)\\(b\\)", "\\(o*\\)f", "2$"}; return p[r.below(23)]; }
static string rep(Rng &r) { static const char *p[] = {"", "X", "&&", "[&]", "b", "foo", "\\&", "\\1", "-\\1-", "xy z", "&1", "o", "a", "\\U&", "\\u&", "\\L&\\E-&", "\\l&x", "\\u\\1b", "x\\Uab\\E&", "%", "\\u\\L&B", "\\Uo\\lX\\Ey"}; return p[r.chance(.7) ? r.below(13) : r.below(22)]; }
static string num(long n) { return std::to_string(n); }
static string addr(Model &m, Rng &r, bool zero = false) {
  long n = m.s.n();
  switch (r.below(14)) {
  case 0: return "$"; case 1: return "."; case 2: return "+"; case 3: return "-"; case 4: return r.chance(.5) ? "/" + pat(r) + "/" : "?" + pat(r) + "?";
  case 5: return string("'") + "abcdxz"[r.below(6)]; case 6: return r.chance(.3) ? num(n + 1 + (long)r.below(3)) : "$-" + num((long)r.below(3)); case 7: return "";
  case 8: if (zero) return "0"; // fallthrough
  default: return n ? num(r.range(1, (int)n)) : (r.chance(.7) ? "" : "1");
  }
}
static string rng(Model &m, Rng &r) {
  long n = m.s.n();
  if (r.chance(.2)) return ""; if (r.chance(.08)) return r.chance(.5) ? "," : "%"; if (r.chance(.04)) return ";"; if (r.chance(.25)) return addr(m, r);
  if (r.chance(.12)) return addr(m, r) + (r.chance(.7) ? "," : ";") + addr(m, r);
  if (!n) return r.chance(.5) ? "" : "1";
  long a = r.range(1, (int)n), b = r.chance(.7) ? std::min<long>(n, a + (long)r.below(4)) : r.range((int)a, (int)n); return num(a) + "," + num(b);
}
static string suf(Rng &r) { static const char *s[] = {"p", "n", "l", "pn"}; static const char *bad[] = {"z", "x", "pz", "1", "g", " z", "k", "%"}; return r.chance(.12) ? s[r.below(4)] : r.chance(.02) ? bad[r.below(8)] : ""; }
static string fname(Rng &r, bool wr) { static const char *w[] = {"f1", "f2", "out1", "out2", "ro", "/h/deep", "nodir/x", "d", "/w/f1", "./f2", "/dev/null"}; static const char *rd[] = {"f1", "f2", "f3", "empty", "nonl", "bin", "none", "big", "/h/deep", "d", "out1", "./f1", "/dev/null"}; if (wr) { int k = r.below(30); return k < 22 ? w[k % 4] : w[k % 11]; } return rd[r.below(13)]; }
static string shcmd(Rng &r, bool in) {
  static const char *a[] = {"cat", "sort", "tac", "tr a-z A-Z", "sed x", "wc -l", "head -n 2", "true", "false", "cat; exit 3", "head -n 1; echo done", "printf abc", "exit 2", "echo hi", "sort; echo end", "head -n 0"};
  static const char *b[] = {"echo hi", "seq 5", "cat f1", "echo a; echo b", "true", "printf abc", "cat nonl", "seq 300", "exit 2", "false", "echo x > shout", "cat f2 f3", "nosuchcmd"};
  return in ? a[r.below(16)] : b[r.below(13)];
}
// a command line with a shell command, which may repeat the one before it, name the current file or go on over the next line
static void shline(Rng &r, vector<string> &L, const string &pre, const string &cmd) {
  if (r.chance(.7)) { L.push_back(pre + "!" + cmd); return; }
  switch (r.below(14)) {
  case 12: L.push_back(pre + "!echo " + string(r.range(80, 600), 'x')); break;
  case 13: L.push_back(pre + "!!; echo " + string(r.range(1, 400), 'y')); break;
  case 0: case 1: case 2: L.push_back(pre + "!!"); break;
  case 3: L.push_back(pre + "!!" + (r.chance(.5) ? "; echo z%" : " f2; echo a!!")); break;
  case 4: L.push_back(pre + "!cat %"); break;
  case 5: L.push_back(pre + "!echo a\\%b; cat % f2"); break;
  case 6: L.push_back(pre + "!" + cmd + "; echo %-x%"); break;
  case 7: L.push_back(pre + "!" + cmd + "\\"); L.push_back(r.chance(.5) ? "echo b" : "!!\\"); if (L.back().back() == '\\') L.push_back("echo %"); break;
  case 8: L.push_back(pre + "!echo a\\b\\\\%"); break;
  case 9: L.push_back(pre + "!!!"); break;
  case 10: L.push_back(pre + "!"); break;
  default: L.push_back(pre + "! !!" + cmd); break; }
}
static string smod(Rng &r) { static const char *p[] = {"$", "$-1", "-1", "-", "g2", "2g2", "g$", "g$-1", "$-1g", "0", "g-1", "3g", "g3p", "-2g", "+1", "1+1g", "g0", "$p", "2$", "g1$", "gg2", "g2l", "$n", "-9", "g$-9"}; return p[r.below(25)]; }
static string shortsub(Rng &r) { static const char *p[] = {"s", "sg", "sp", "sr", "s2", "sg2", "s$", "s-1", "srg", "sgp", "s3g", "sg$-1", "sg3p", "s1", "sg0", "sgpr", "s2g3", "s^", "sg-", "s 2", "spp", "sg$", "s$-1", "sn", "sgl", "s1 p"}; return p[r.below(26)]; }
static string sub(Model &m, Rng &r) {
  if (r.chance(.1)) return shortsub(r);
  if (r.chance(.12)) return "s/" + pat(r) + "/" + rep(r) + "/" + smod(r);
  if (r.chance(.002)) { string t = "s/" + pat(r) + "/"; int n = r.range(500, 4000); bool u = r.chance(.5); for (int i = 0; i < n; ++i) t += u ? "\\U" : "\\L"; return t + "x&/"; }
  (void)m; string d = "/"; string s = "s" + d + pat(r) + d + rep(r);
  switch (r.below(8)) { case 0: return s; case 1: return s + "/g"; case 2: return s + "/2"; case 3: return s + "/p"; case 4: return s + "/gp"; case 5: return s + "/3g"; default: return s + "/"; }
}
static string gcmd1(Model &m, Rng &r, bool shell) {
  switch (r.below(shell ? 19 : 17)) {
  case 0: return "d"; case 1: return "m0"; case 2: return "m$"; case 3: return "t."; case 4: return "t0"; case 5: case 6: case 7: return sub(m, r); case 8: return "p"; case 9: return "j"; case 10: return string("k") + "abcdxz"[r.below(6)];
  case 11: return "-d"; case 12: return "+d"; case 13: return ".,+j"; case 14: return r.chance(.5) ? "t>>3" : "m>>4"; case 15: return "="; case 16: return r.chance(.5) ? "r f2" : "u"; case 17: return r.chance(.15) ? "w out1\\\\" : "w out1"; default: return r.chance(.8) ? ".!cat" : r.chance(.5) ? ".!!" : ".!cat %\\\\"; }
}
static void cmdlist(Model &m, Rng &r, vector<string> &L, string &first, bool shell) {
  int n = r.chance(.6) ? 1 : 2 + (int)r.below(2); vector<string> v;
  for (int i = 0; i < n; ++i) {
    if (r.chance(.2)) { string c = "aic"[r.below(3)] + string(); v.push_back(c); int k = (int)r.below(3); for (int j = 0; j < k; ++j) v.push_back(text(r)); if (i + 1 < n || r.chance(.5)) v.push_back("."); }
    else v.push_back(gcmd1(m, r, shell));
  }
  for (size_t i = 0; i < v.size(); ++i) { string l = v[i]; if (i + 1 < v.size()) l += "\\"; if (i == 0) first = l; else L.push_back(l); }
}
static void addtext(Rng &r, vector<string> &L, int lo, int hi) { int n = r.range(lo, hi); for (int i = 0; i < n; ++i) L.push_back(text(r)); L.push_back("."); }
static string junk(Rng &r) {
  static const char *j[] = {"B", "1,2,", "s/[/x/", "g/a", "'", "/", "??", "k1", "m", "t", "9999p", "3,1p", "-5d", "p p", "q1", "e", "x", "r", "<9", ">", "@", "u1", "\\", "!", "&", "~", "f none/x/y", "2k", "kA", "s", "s/a", "v//", "=x", "1;2;3p", ",,p", "$+1p", "0p", "w", "H", "h", "#note", "s/a/\\", "g/./s//&&/", "ww", "0a", "<8t$", "<7m0", "@7", "99m0", "1m2m3"};
  return j[r.below(sizeof j / sizeof *j)];
}
static string hostile(Rng &r) { // attempts to leave the sandbox of the restricted editor
  static const char *j[] = {"!touch /etc/x", "r !cat /etc/passwd", "w !cat", "e !ls", "E !ls", "f !ls", "w /etc/passwd", "r /etc/passwd", "e /etc/passwd", "w ../x", "r ../h/deep", "e ..", "w /w/f1", "r d/../f1", "f /etc/x", "f ..", "1!cat", "%!sort", "w ./f1", "r ./f1", "E /h/deep", "W /h/deep", "W !cat", "~r *", "~n", "e d/x", "!", "!!", "r \\/h/deep", "w \\../x", "g/./w !cat", "g/./!ls", "r  /h/deep", "wq /h/x", "wq !cat", "f !x", "r", "w", "E"};
  return j[r.below(sizeof j / sizeof *j)];
}
// commands the editor must refuse: a good command with one thing wrong with it
static string past(Model &m, Rng &r) { long n = m.s.n(); switch (r.below(6)) { case 0: return num(n + 2 + (long)r.below(9)); case 1: return "-" + num(m.s.dot + 2 + (long)r.below(5)); case 2: return ".+" + num(n - m.s.dot + 2 + (long)r.below(5)); case 3: return "99999999999"; case 4: return r.chance(.5) ? "/zzzz/" : "?zzzz?"; default: { for (int i = 0; i < 4; ++i) { char k = "abcdxzqw"[r.below(8)]; if (m.marks[k - 'a'] == -1 && n) return string("'") + k; } return "'K"; } } }
static string bad(Model &m, Rng &r) {
  static const char *sx[] = {"z", "x", "pz", "1", "g", " z", "k", "%", "pp1", "np q", "d", "\x01", "lg", "p,", "#", "'", "\xc3\xa9"}; string x = sx[r.below(17)], a = rng(m, r); long n = m.s.n();
  static const char *shp[] = {"f1", "f2", "out1", "none", "f3"}; string f = shp[r.below(5)];
  switch (r.below(20)) {
  case 0: case 1: return a + "dpjmtnlk=cai"[r.below(12)] + (r.chance(.5) ? "" : "0") + x;                            // a suffix there is no such
  case 2: case 3: { string p = past(m, r); string c = string(1, "dpjmtnlk=cairwW@gvs!"[r.below(20)]); string z = c == "m" || c == "t" ? "1" : c == "k" ? "a" : c == "r" || c == "w" || c == "W" ? " " + f : c == "@" ? "1" : c == "g" || c == "v" ? "/./d" : c == "s" ? "/./X/" : c == "!" ? "cat" : ""; return (r.chance(.6) ? p : r.chance(.5) ? "1," + p : p + ",$") + c + z; }   // an address that is not there
  case 4: if (n > 1) { long y = r.range(2, (int)n); return num(y) + (r.chance(.8) ? "," : ";") + num(r.range(1, (int)y - 1)) + "dpjmtncs"[r.below(8)] + (r.chance(.5) ? "" : "0"); } return "2,1d";   // a range back to front
  case 5: { static const char *c[] = {"u", "q", "Q", "f out2", "e f2", "E f1", "h", "H", "f", "x", "E", "~f f1", "~n", "~E f2", "e", "f!ls"}; return (r.chance(.5) ? addr(m, r) : n ? "1" : "0") + c[r.below(16)]; }   // an address where none may be
  case 6: { static const char *c[] = {"efile", "Ef1", "ff2", "rf1", "wout1", "w\\", "wqq", "wq1", "wqout1", "Wf1", "qz", "Qq", "u1", "q q", "uu", "e\\", "E\\f1", "fz f1", "r1 f1", "w1 f1", "H1", "hh", "hx", "Hz"}; return c[r.below(24)]; }
  case 7: { static const char *c[] = {"kA", "k1", "k", "k ", "kab", "k a", "k\\", "k'", "'Ap", "'1d", "'d", "' d", "'a'", "k\xc3"}; return (r.chance(.5) ? a : "") + c[r.below(14)]; }
  case 8: case 9: { static const char *c[] = {"s", "s a b ", "s/[a/x/", "s/\\(/x/", "s/a\\", "s/a/b/zz", "s/a/b/gx", "s/a/b/p3", "s/zzzz/x/", "s/zzzz/x/g", "s//", "s/a/b/gpq", "s/a/b/99", "s/\\(a/b/", "s/a\\{1/b/", "s/[[:x:]]/b/", "sz", "sgz", "s/a/b/-", "s/a/b/g g", "szz", "s/^/x/2", "s1z", "s/zz\\(z\\)/\\1/p", "s/a\\{3,1\\}/x/", "s/./\\1/2z"}; return a + c[r.below(26)]; }
  case 10: { static const char *c[] = {"g", "g/", "g /a/d", "g/[a/d", "g/\\(/d", "v", "v/[/p", "G/a/z", "V/a/dd", "G", "g\\", "g/a\\", "v/a\\{/d", "V/a/p1", "G/[/", "g/a/g/b/d", "g/./v/x/d", "g/./G/x/", "v/zzzz/V/a/"}; return (r.chance(.7) ? "" : a) + c[r.below(19)]; }
  case 11: { static const char *c[] = {"m", "t", "j", "d"}; string d = c[r.below(2)]; if (r.chance(.4) && n > 2) { long y = r.range(1, (int)n - 2), z = r.range((int)y + 1, (int)n); return num(y) + "," + num(z) + "m" + num(r.range((int)y, (int)z - 1)); } return a + d + (r.chance(.7) ? past(m, r) : num(r.range(0, (int)n)) + x); }   // into itself, or to nowhere
  case 12: { static const char *c[] = {"B", "C", "D", "I", "J", "K", "L", "M", "N", "O", "R", "S", "T", "U", "X", "Y", "b", "o", "y", "\\", "&", "%x", "\"", "(", ")", "*", "_", "`", "{", "|", "}", "\x7f", "\x01", "\xff", ":"}; return (r.chance(.6) ? "" : a) + c[r.below(35)] + (r.chance(.7) ? "" : "1"); }
  case 13: { static const char *c[] = {"<1d", "<1p", "<a", "<", "<1", "<1s/a/b/", "<2k", "<0tz", "<1t$z", "<1m>2z", "<1t>2z", "<1t>>x", "t>1z", "m>2 q", "t>>z", "m>x", "<<1t1", "<1@2", "@1z", "@1 p", "@@", "<1t'K", "<2t9999", "<1m99999", "t>1>", "m>>>"}; return (r.chance(.6) ? "" : a) + c[r.below(26)]; }
  case 14: { static const char *c[] = {"w nodir/x", "w d", "w /w/ro/x", "r none/x", "r nodir", "e!", "w \\!x", "r ", "wq nodir/y", "W d", "W nodir/x"}; return (r.chance(.7) ? "" : a) + c[r.below(11)]; }
  case 15: return a + "/" + (r.chance(.5) ? "[a" : r.chance(.5) ? "\\(" : "a\\{1") + "/" + "dp=sk"[r.below(5)] + "a";
  case 16: { static const char *c[] = {"0", "0d", "0p", "0,1d", "0j", "0s/a/b/", "0,$p", "0l", "0n", "0m1", "0t1", "0,1m$", "0t>1", "0m>2", "0@1", "0g/./d", "0,1!cat", "0,0d", "0;1d", "0,1j"}; return c[r.below(20)]; }
  case 17: { static const char *c[] = {"~", "~d", "~ e", "~fx", "~e\\", "1~e f1", "~z", "~1", "~p1", "<~e f1", "~q", "~s/a/b/", "~k", "~fn x", "1~f", "~~e"}; return c[r.below(16)]; }
  case 18: return "g/" + pat(r) + "/" + bad(m, r);
  default: { static const char *c[] = {"p p", "d d", "1 2p", "1,,z", ",;z", ";,d,", "..", ".$", "$$", "$.", "1.p", "/a/b/p", "''a", "+-z", "1+2z", "$+1d", "$+1,$+2p", "-1,0d", "1;$+2d", "%,%z", "1,2,99999d", "99999,1,1z", "/a", "?"}; return c[r.below(24)] + (r.chance(.7) ? string() : x); } }
}
// ---------------------------------------------------------------- commands
static vector<string> one(const Profile *p, Model &m, Rng &r, GenState &gs, char k) {
  vector<string> L; string a;
  switch (k) {
  case 'a': case 'i': L.push_back(addr(m, r, true) + k + suf(r)); addtext(r, L, r.chance(.1) ? 0 : 1, r.chance(.1) ? 14 : 4); break;
  case 'c': L.push_back(rng(m, r) + "c" + suf(r)); addtext(r, L, 0, 4); break;
  case 'd': case 'j': L.push_back(rng(m, r) + k + suf(r)); break;
  case 'm': case 't': L.push_back(rng(m, r) + k + addr(m, r, true) + suf(r)); break;
  case 's': a = rng(m, r); if (r.chance(.12)) { L.push_back(a + "s/" + pat(r) + "/" + rep(r) + "\\"); L.push_back(rep(r) + "/" + (r.chance(.5) ? "g" : "")); } else if (r.chance(.12)) L.push_back(a + shortsub(r)); else if (r.chance(.08)) L.push_back(a + "s//" + rep(r) + "/"); else L.push_back(a + sub(m, r)); break;
  case 'k': L.push_back(addr(m, r) + "k" + "abcdxz"[r.below(6)] + suf(r)); break;
  case 'K': { string q = string("'") + "abcdxz"[r.below(6)]; static const char *t[] = {"p", "d", "=", "", "t.", "m$", "s/a/b/", "j", "i"}; string z = t[r.below(9)]; if (r.chance(.3)) q += string(",'") + "abcdxz"[r.below(6)]; L.push_back(q + z); if (z == "i") addtext(r, L, 0, 2); break; }
  case 'p': case 'n': case 'l': L.push_back(rng(m, r) + k + suf(r)); break;
  case '=': L.push_back(addr(m, r, true) + "=" + suf(r)); break;
  case '\n': L.push_back(r.chance(.4) ? "" : rng(m, r)); break;
  case 'u': L.push_back(r.chance(.05) ? "1u" : "u" + suf(r)); if (r.chance(.25)) gs.pend.push_back({"u"}); break;
  case 'g': case 'v': { string f; a = rng(m, r); if (r.chance(.7)) a = ""; cmdlist(m, r, L, f, p->id == "C12" || p->id == "C06" || p->id == "C09"); L.insert(L.begin(), a + k + "/" + (r.chance(.06) ? "" : pat(r)) + "/" + f); break; }
  case 'G': case 'V': { L.push_back((r.chance(.7) ? "" : rng(m, r)) + k + "/" + pat(r) + "/"); int n = (int)std::min<long>(12, m.s.n()) + 1; for (int i = 0; i < n; ++i) { int z = (int)r.below(10); L.push_back(z < 2 ? "" : z < 4 ? "&" : gcmd1(m, r, false)); } break; }
  case 'r': L.push_back(addr(m, r, true) + "r " + (r.chance(.15) && p->id != "C20" ? "!" + shcmd(r, false) : fname(r, false))); if (r.chance(.06)) L.back() = addr(m, r, true) + "r"; if (r.chance(.01)) { L.back() += "\\"; L.push_back("x"); } break;
  case 'e': case 'E': L.push_back(string(1, r.chance(.5) ? k : 'E') + (r.chance(.12) ? "" : r.chance(.08) && p->id != "C20" ? " !" + shcmd(r, false) : " " + fname(r, false))); break;
  case 'w': case 'W': a = r.chance(.65) ? "" : rng(m, r); if (r.chance(.12) && p->id != "C20") { L.push_back(a + k + string(" !") + shcmd(r, true)); break; } L.push_back(a + k + (r.chance(.3) ? string() : " " + fname(r, true))); if (r.chance(.01)) { L.back() += "\\"; L.push_back("x"); } break;
  case 'x': L.push_back(string(r.chance(.5) ? "" : rng(m, r)) + "wq" + (r.chance(.12) && p->id != "C20" ? " !" + shcmd(r, true) : r.chance(.4) ? string() : " " + fname(r, true))); break;
  case 'f': L.push_back(r.chance(.4) ? "f" : "f " + fname(r, r.chance(.5))); break;
  case 'q': case 'Q': L.push_back(string(1, k)); break;
  case 'b': L.push_back(junk(r)); break;
  case 'B': { string b; for (int i = 0; i < 16; ++i) { b = bad(m, r); if (b.empty() || b.back() == '\\') b += "p"; Model t = m; int rr = t.run({b}); if (rr == R_ERR && !t.starved) break; if (i == 15) b = "9999d"; } L.push_back(b); if (r.chance(.2)) gs.pend.push_back({r.chance(.6) ? "u" : "p"}); break; }
  case 'y': L.push_back("x" + suf(r)); break;
  case 'X': if (p->flags & PF_RESTRICT) { if (r.chance(.2) && !m.files.empty()) { L.push_back("f " + fname(r, false)); break; } L.push_back(hostile(r)); } else L.push_back(junk(r)); break;
  case 'Y': L.push_back((r.chance(.35) ? addr(m, r, true) : string()) + (r.chance(.6) ? "z" : "Z") + (r.chance(.25) ? num((long[]){2, 3, 4, 5, 7, 10, 23, 24, 50, 1, 0}[r.below(11)]) : string()) + suf(r)); break;
  case 'z': { static const char *z[] = {"z", "z3", "1z", "Z", "]", "[", "]2", "[2", "1z5n", "$z", "H", "h", "Z", "z1", "~f *", "=", "+2z"}; L.push_back(z[r.below(17)]); break; }
  case '~': {
    static const char *u[] = {"f1", "f[3]", "e?pty", "out1", "n*l", "d/x", "f*", "new?", "[nb]*", "nodir/x", "/h/d*", "f1 f2", "./f2", "f2/x", "b[hi]g", "none", "/w/f3", "!echo hi", "*/in", "f\\ 1"};
    static const char *l[] = {"*", "f*", "f? nonl", "f1 f2 f3", "f3 f1", "d/*", "/h/* f1", "nodir/x", "f1", "[e-n]*", "none f1", "f1/x", "./f*", "*[!1]", "f1/x f2", "d/new f2", "*/*", "f2 f2", "/w/*1", "f\\ 1 f1"};
    auto pats = [&]() -> string { if (r.chance(.5)) return l[r.below(20)]; static const char *w[] = {"f1", "f2", "f3", "f*", "none", "new?", "d", "d/x", "d/new", "/h", "/h/new", "f1/x", "e?pty", "[nb]*", "*", "nodir/x", "f[12]/y", "[dh]/z", "bin", "zz"}; string o; int n = r.range(2, 4); while (n--) { o += w[r.below(20)]; if (n) o += r.chance(.9) ? " " : " \t"; } return o + (r.chance(.1) ? " " : ""); };
    switch (r.below(13)) {
    case 0: case 1: L.push_back("~f " + pats()); break; case 2: L.push_back("~e " + pats()); break; case 3: L.push_back("~E " + pats()); break;
    case 4: case 5: L.push_back(string("~") + "eEEf"[r.below(4)] + "n"); break; case 6: L.push_back(string("~") + "eEEf"[r.below(4)] + "p"); break; case 7: L.push_back("~f"); break;
    case 8: L.push_back(string("~") + "eE"[r.below(2)]); break;
    case 9: L.push_back((r.chance(.6) ? "" : addr(m, r, true)) + "~r" + (r.chance(.1) ? "" : " " + string(u[r.below(20)]))); break;
    case 10: L.push_back((r.chance(.7) ? "" : rng(m, r)) + "~" + (r.chance(.7) ? "w" : "W") + (r.chance(.1) ? "" : " " + string(u[r.below(20)]))); break;
    case 11: L.push_back((r.chance(.8) ? "" : rng(m, r)) + "~w" + (r.chance(.7) ? "n" : r.chance(.8) ? "p" : "q") + (r.chance(.85) ? "" : " " + string(u[r.below(20)]))); break;
    default: if (r.chance(.3)) { static const char *z[] = {"~d", "~ e", "<~r f1", "~en f1", "~fx", "~r", "1~e", "~<3t0", "~fn f*", "~\\"}; L.push_back(z[r.below(9)]); }
      else { static const char *z[] = {"~r f1", "~w out1", "~f f*", "~fn", "~en", "~wn", "~r f*", "~e f1"}; L.push_back("g/" + pat(r) + "/" + z[r.below(8)]); if (r.chance(.5)) { L.back() += "\\"; L.push_back(gcmd1(m, r, false)); } } }
    break; }
  case '!': { int z = (int)r.below(10); if (z < 5) { a = rng(m, r); shline(r, L, a.empty() ? "." : a, shcmd(r, true)); } else if (z < 7) shline(r, L, "", shcmd(r, false)); else if (z < 8) shline(r, L, addr(m, r, true) + "r ", shcmd(r, false)); else shline(r, L, (r.chance(.6) ? "" : rng(m, r)) + "w ", shcmd(r, true)); break; }
  case 'R': {
    auto rn = [&] { return num((long)r.below(r.chance(.85) ? 4 : 10)); }; string i = r.chance(.15) ? "" : rn(); string j = rn();
    switch (r.below(8)) {
    case 0: case 1: L.push_back(rng(m, r) + "t>" + i); break; case 2: L.push_back(rng(m, r) + "m>" + i); break; case 3: L.push_back(rng(m, r) + (r.chance(.5) ? "t>>" : "m>>") + i); break;
    case 4: case 5: L.push_back("<" + i + "t" + addr(m, r, true) + suf(r)); break; case 6: L.push_back("<" + i + "m" + addr(m, r, true)); break; default: L.push_back("<" + i + (r.chance(.5) ? "t>" : "m>") + (r.chance(.3) ? ">" : "") + j); break; }
    break; }
  case 'M': {
    if (r.chance(.45)) { int q = (int)r.below(10); L.push_back((r.chance(.3) ? addr(m, r) : "") + "@" + num(r.chance(.8) ? r.below(4) : q)); break; }
    int idx = (int)r.below(4); int n = r.range(1, 4); L.push_back("$a"); int lines = 0;
    for (int i = 0; i < n; ++i) {
      int z = (int)r.below(12); vector<string> q;
      if (z < 2) { q = {string(1, "ai"[r.below(2)]), text(r), "."}; } else if (z < 4) q = {sub(m, r)}; else if (z < 5) q = {".d"}; else if (z < 6) q = {"t."}; else if (z < 7 && (idx > 0 || r.chance(.3))) q = {"@" + num(r.chance(.12) || !idx ? idx : (long)r.below(idx))}; else if (z < 8) { q = {"g/" + pat(r) + "/" + "s//Z/"}; } else if (z < 9) q = {addr(m, r) + "p"}; else if (z < 10) q = {string("k") + "abcdxz"[r.below(6)]}; else if (z < 11) q = {r.chance(.3) ? "q" : "u"}; else q = {r.chance(.5) ? "1m$" : "99p"};
      // text that contains "." cannot be typed with an append: write it with s/// afterwards instead
      if (q.size() == 3) { L.push_back(q[0]); L.push_back(q[1]); L.push_back("@@"); lines += 3; } else { L.push_back(q[0]); ++lines; }
    }
    L.push_back("."); gs.pend.push_back({"g/^@@$/s//./"}); gs.pend.push_back({"$-" + num(lines - 1) + ",$m>" + num(idx)}); gs.pend.push_back({(r.chance(.5) ? "1" : "") + string("@") + num(idx)}); break; }
  default: L.push_back("p");
  }
  return L;
}
static void damage(string &d, Rng &r) { if (d.empty()) return; switch (r.below(4)) { case 0: d.resize(r.below(d.size())); break; case 1: d.resize(d.size() / 8 * 8 - (d.size() >= 8 ? 8 : 0)); break; case 2: d[r.below(d.size())] ^= 1 << r.below(8); break; default: d += "x"; } }
static void nonl(const Profile *p, Model &m, Rng &r, GenState &gs, Cmd &c) {   // the input ends within a line
  if (r.chance(.7)) { c.lines = one(p, m, r, gs, "aicswgGrdeVu"[r.below(12)]); gs.pend.clear(); }
  string &l = c.lines.back(); if (l.empty() || l[0] == '<') return; l = "<NONL " + l + ">";
}
bool gen_command(const Profile *p, Model &m, Rng &r, Cmd &c, int count, GenState &gs) {
  if (p->flags & PF_INPLACE) return false;
  if (!gs.pend.empty()) { c.lines = gs.pend.front(); gs.pend.erase(gs.pend.begin()); return true; }
  if (count >= gs.want) {
    if (count > gs.want + 2) return false;
    int z = (int)r.below(p->id == "C07" ? 12 : 10); if (z < 4) c.lines = {"q"}; else if (z < 6) c.lines = {"Q"}; else if (z < 8) c.lines = {"<EOF>"}; else if (z < 9) c.lines = {m.has_name ? "wq" : "wq out1"}; else if ((p->flags & PF_SIGLINE) && !(p->flags & PF_SCRIPT)) c.lines = {"<SIG 1>"}; else c.lines = {"q"};
    if (r.chance(p->flags & (PF_SCRIPT | PF_FREE) ? .15 : .01)) nonl(p, m, r, gs, c);
    return true;
  }
  if (m.s.n() < 3 && r.chance(.45)) { c.lines = one(p, m, r, gs, 'a'); return true; }
  if ((p->flags & PF_SIGLINE) && p->id != "C07" && r.chance(p->id == "C14" ? .06 : .02)) { c.lines = {"<SIG 2>"}; return true; }
  const string &w = p->weights; int tot = 0; vector<std::pair<char, int>> v;
  for (size_t i = 0; i < w.size();) { char k = w[i++]; int n = 0; while (i < w.size() && isdigit((unsigned char)w[i])) n = n * 10 + (w[i++] - '0'); v.push_back({k, n}); tot += n; }
  int z = (int)r.below(tot); char k = v[0].first; for (auto &x : v) { if (z < x.second) { k = x.first; break; } z -= x.second; }
  if ((k == 'q' || k == 'x' || k == 'Q') && !(p->flags & PF_EXITS) && !m.s.mod && count < gs.want / 2) k = 'a';
  if ((p->flags & PF_SCRIPT) && k != 'b' && r.chance(m.exit_on_error ? .9 : .35)) for (int i = 0; i < 6; ++i) { c.lines = one(p, m, r, gs, k); Model t = m; int rr = t.run(c.lines); if (rr != R_ERR && rr != R_UNK) break; }
  else c.lines = one(p, m, r, gs, k);
  if ((p->flags & (PF_SCRIPT | PF_FREE)) && gs.pend.empty() && r.chance(.015)) nonl(p, m, r, gs, c);
  if (p->flags & PF_ACTOR) {
    if (r.chance(.5)) {
      static const char *ops[] = {"replace", "write", "unlink", "replace", "write", "rename", "lock", "readonly", "writable"}; static const char *fs[] = {"f1", "f2", "out1", "ro", "f1", "big"}; string nm = r.chance(.5) && m.has_name && m.name[0] != '!' ? m.name : fs[r.below(6)], d; int n = (int)r.below(6); for (int i = 0; i < n; ++i) d += text(r) + "\n";
      auto it = m.files.find(Model::norm(nm)); string o = ops[r.below(9)]; if (it != m.files.end() && (it->second.dir || it->second.dev)) nm = "f2"; else if (it != m.files.end() && it->second.ro && r.chance(.6)) o = "writable";
      if (o == "rename") { static const char *to[] = {"f1", "f2", "out1", "out2", "gone"}; d = to[r.below(5)]; }
      c.lines.insert(c.lines.begin(), "<ACT " + o + " " + esc(nm) + " " + esc(d) + ">"); }
  }
  if ((p->flags & PF_CRYPT) && (k == 'r' || k == 'e' || k == 'E') && r.chance(.3)) {
    static const char *fs[] = {"f1", "f2", "f3", "nonl", "out1"}; string nm = fs[r.below(5)], d; int n = (int)r.below(5); for (int i = 0; i < n; ++i) d += text(r) + "\n"; if (n && r.chance(.3)) d.pop_back();
    uint8_t pad[8]; des_pad(r.next(), pad); if (!m.key.empty()) { d = des_enc(m.key, d, pad); if (r.chance(.4)) damage(d, r); }
    c.lines = {"<ACT write " + esc(nm) + " " + esc(d) + ">", string(1, k) + " " + nm};
  }
  if ((p->flags & PF_PAGE) && r.chance(.12)) c.lines.insert(c.lines.begin(), "<ACT win " + esc(num(1L * (long[]){2, 3, 4, 6, 10, 15, 24, 60}[r.below(8)] | (long[]){80, 80, 132, 40, 10}[r.below(5)] << 16)) + " \"\">");
  if ((p->flags & PF_SPACE) && r.chance(.08)) c.lines.insert(c.lines.begin(), "<ACT space " + esc(r.chance(.4) ? "-1" : num((long)r.below(400))) + " \"\">");
  if ((p->flags & PF_TSPACE) && r.chance(.06)) c.lines.insert(c.lines.begin(), "<ACT tspace " + esc(r.chance(.5) ? "-1" : num((long)r.below(300))) + " \"\">");
  return true;
}
// ---------------------------------------------------------------- scripts on the command line
Batch parse_batch(const Trace &t) {
  Batch b; bool eo = false;
  for (size_t i = 1; i < t.argv.size(); ++i) {
    const string &a = t.argv[i];
    if (eo || a.empty() || a[0] != '-') { b.files.push_back(a); eo = true; continue; }
    if (a == "-p") { ++i; continue; }
    if (a == "-e" && i + 1 < t.argv.size()) { string e = t.argv[++i]; if (e.empty() || e.back() != '\n') e += '\n'; b.script += e; b.on = true; }
    else if (a == "-f" && i + 1 < t.argv.size()) { string n = Model::norm(t.argv[++i]); for (auto &f : t.files) if (Model::norm(f.path) == n) b.script += f.data; b.on = true; }
    else if (a.compare(0, 2, "-i") == 0) { b.inplace = true; if (a.size() > 2) { b.has_suffix = true; b.suffix = a.substr(2); } }
    else if (a.compare(0, 10, "--in-place") == 0) { b.inplace = true; if (a.size() > 11) { b.has_suffix = true; b.suffix = a.substr(11); } }
  }
  if (!b.on || b.files.empty()) b.inplace = b.inplace && b.on && !b.files.empty();
  return b;
}
static void gen_batch(Trace &t, const Profile *p, Rng &r, bool inplace) {
  Model m; GenState gs; for (const char *d : {"/", "/w", "/tmp", "/h", "/dev"}) { MFile f; f.dir = true; m.files[d] = f; } MFile dn; dn.dev = true; m.files["/dev/null"] = dn;
  for (auto &f : t.files) { MFile x; if (f.mode & 040000) x.dir = true; else { x.data = f.data; x.ro = !(f.mode & 0200); } m.files[Model::norm(f.path)] = x; }
  m.scripted = m.exit_on_error = true; for (auto &a : t.argv) if (a == "-E") m.ere = true;
  static const char *pool[] = {"f1", "f2", "f3", "big", "nonl", "empty", "f1", "f2", "f3", "bin", "ro", "none", "d"}; vector<string> fs; int nf = r.chance(.45) ? 1 : r.range(2, 4);
  for (int i = 0; i < nf; ++i) fs.push_back(pool[r.chance(.9) ? r.below(9) : r.below(13)]);
  if (!inplace && r.chance(.15)) fs.clear();
  if (!fs.empty()) m.run({"r " + fs[0]}); m.exited = false; int n = r.range(p->lo, p->hi); vector<vector<string>> cmds; string w = p->weights; vector<char> ks; for (size_t i = 0; i < w.size();) { char k = w[i++]; int c = 0; while (i < w.size() && isdigit((unsigned char)w[i])) c = c * 10 + (w[i++] - '0'); while (c--) ks.push_back(k); }
  for (int i = 0; i < n; ++i) {
    bool any = r.chance(.06);
    for (int k = 0; k < 8; ++k) { char z = ks[r.below(ks.size())]; bool mac = p->id == "C17"; if (z == '!' || (z == 'R' && !mac) || z == 'q' || (z == 'e' && r.chance(.5)) || z == 'b' || (z == 'M' && !mac)) z = 'g';
      vector<string> l; if (fs.size() > 1 && r.chance(.5)) l = {(r.chance(.5) ? "1,$" : "") + (r.chance(.5) ? "g/" + pat(r) + "/" : string()) + sub(m, r)}; else l = one(p, m, r, gs, z);
      vector<vector<string>> seq = {l}; seq.insert(seq.end(), gs.pend.begin(), gs.pend.end()); gs.pend.clear(); if (!mac) seq.resize(1);
      Model x = m; bool good = true; for (auto &q : seq) { int rr = x.run(q); if (rr == R_UNK || x.alt_dot >= 0 || x.starved || x.fi != q.size() || (!any && rr != 0)) { good = false; break; } if (rr) break; }
      if (!good) continue; cmds.insert(cmds.end(), seq.begin(), seq.end()); m = x; m.exited = false; break; } }
  if (r.chance(.1)) cmds.push_back({r.chance(.5) ? "q" : "Q"});
  if (inplace) { static const char *s[] = {"-i", "-i.bak", "-i~", "-i.orig", "--in-place=.sav", "--in-place"}; t.argv.push_back(s[r.below(6)]); }
  string file; bool usef = r.chance(.35);
  for (size_t i = 0; i < cmds.size(); ++i) { string l; for (auto &x : cmds[i]) { string y = x; for (char &c : y) if (c == '\n') c = ' '; l += (l.empty() && &x == &cmds[i][0] ? "" : "\n") + y; } if (usef) file += l + "\n"; else { t.argv.push_back("-e"); t.argv.push_back(l); } }
  if (usef || cmds.empty()) { t.files.push_back({"/w/script", 0644, file}); t.argv.push_back("-f"); t.argv.push_back("script"); }
  for (auto &f : fs) t.argv.push_back(f);
}
// ---------------------------------------------------------------- setup
static string body(Rng &r, int lo, int hi) { string s; int n = r.range(lo, hi); for (int i = 0; i < n; ++i) s += text(r) + "\n"; return s; }
void gen_setup(Trace &t, const string &id, Rng &r) {
  const Profile *p = find_profile(id); t.profile = id;
  t.blksize = (int[]){64, 128, 256, 512, 1024, 4096}[r.below(6)]; t.start_sched = r.next();
  string f1 = body(r, 1, 9), f2 = body(r, 0, 6), f3 = body(r, 2, 5), nonl = body(r, 1, 4) + "last line", bin = body(r, 0, 2); bin += string("nul\0here", 8); if (r.chance(.5)) bin += "\n";
  string big; int nb = r.chance(.3) ? r.range(40, 160) : r.range(8, 30); for (int i = 0; i < nb; ++i) big += "line " + num(i) + " " + word(r) + "\n";
  if (r.chance(.15)) f1 = f1.substr(0, f1.size() - 1);
  t.files = {{"/w/f1", 0644, f1}, {"/w/f2", 0644, f2}, {"/w/f3", 0644, f3}, {"/w/nonl", 0644, nonl}, {"/w/bin", 0644, bin}, {"/w/empty", 0644, ""}, {"/w/big", 0644, big}, {"/w/ro", 0444, "read only\n"}, {"/w/d", 040755, ""}, {"/h/deep", 0644, "deep 1\ndeep 2\n"}};
  if (id == "C07") { if (r.chance(.35)) t.files.push_back({"/w/ed.hup", r.chance(.6) ? 0644u : r.chance(.5) ? 0444u : 040755u, ""}); if (r.chance(.25)) t.files.push_back({"/h/ed.hup", 0644, ""}); for (auto &f : t.files) if (f.path.find("ed.hup") != string::npos && !(f.mode & 040000)) f.data = body(r, 1, 8); }
  if ((p->flags & PF_PAGE) && r.chance(.15)) t.env["LINES"] = num((long[]){2, 5, 12, 1, 0}[r.below(5)]);
  if ((p->flags & PF_PAGE) && r.chance(.1)) t.env["COLUMNS"] = num((long[]){40, 200, 8}[r.below(3)]);
  t.env["HOME"] = r.chance(.2) ? "/h/" : "/h";
  t.argv = {(p->flags & PF_RESTRICT) ? "red" : "ed"};
  bool guard = p->flags & (PF_GUARD | PF_EXITS);
  if (r.chance(p->flags & PF_SCRIPT ? .35 : guard ? .06 : .12)) t.argv.push_back("-s");
  if (r.chance(.12)) t.argv.push_back("-E");
  if (p->flags & PF_SCRIPT) t.seekable = r.chance(.6);
  if (p->flags & PF_PAGE) t.tty = r.chance(.9);
  if (p->flags & PF_LIST) { t.files.push_back({"/w/d/in", 0644, "inner\n"}); }
  if (p->flags & PF_CRYPT) {
    static const char *ks[] = {"sesame", "sesame", "k", "0x0123456789abcdef", "0b0110001101111010101100001111010100100111110010100011001011010011", "open sesame now", "eightchr", "0XfedcBA9876543210"};
    if (r.chance(.85)) { t.argv.push_back("-x"); t.keys.push_back(ks[r.below(8)]); }
    for (int i = 0; i < 6; ++i) t.keys.push_back(r.chance(.1) ? "" : r.chance(.05) ? "0x12" : i && r.chance(.5) ? t.keys[0] : ks[r.below(8)]);
    if (t.keys[0].empty() || t.keys[0] == "0x12") t.keys[0] = "sesame";
    uint8_t pad[8]; des_pad(r.next(), pad);
    for (auto &f : t.files) if (!(f.mode & 040000) && r.chance(.85)) { f.data = des_enc(r.chance(.9) ? t.keys[0] : ks[r.below(8)], f.data, pad); if (r.chance(.08)) damage(f.data, r); }
  }
  bool batch = (p->flags & PF_INPLACE) || ((p->flags & PF_SCRIPT) && r.chance(.25)) || (id == "C17" && r.chance(.15));
  if (batch) { gen_batch(t, p, r, (p->flags & PF_INPLACE) && r.chance(.92)); }
  else if (r.chance(.72)) { static const char *fs[] = {"f1", "f1", "f1", "big", "nonl", "f2", "f3", "none"}; static const char *fr[] = {"f1", "bin", "empty", "big", "nonl", "f2", "d", "none", "ro"}; t.argv.push_back((p->flags & PF_START) ? fr[r.below(9)] : fs[r.below(8)]); if (p->flags & PF_LIST) for (int i = r.below(4); i-- > 0;) t.argv.push_back(fs[r.below(8)]); }
  if ((p->flags & PF_SPACE) && r.chance(.3)) t.space = (long)r.below(600);
  if ((p->flags & PF_TSPACE) && r.chance(.25)) t.tspace = (long)r.range(100, 1500);
  if ((p->flags & PF_START) && r.chance(.25) && !p->menu.empty()) { const FM &f = p->menu[r.below(p->menu.size())]; if (f.kind == FK_ERRNO || f.kind == FK_SIGNAL) { Fault x; x.cmd = 0; x.op = f.op; x.cls = f.cls; x.kind = f.kind; x.arg = f.args[r.below(f.args.size())]; x.nth = f.op == OP_STEP ? r.range(1, 900) : r.range(1, f.op == OP_MALLOC ? 30 : 4); t.start_faults.push_back(x); } }
}
// ---------------------------------------------------------------- faults
bool want_faults(const Profile *p, Rng &r, const Cmd &c) {
  if (p->menu.empty() || c.lines.empty() || c.lines[0].compare(0, 4, "<SIG") == 0 || c.lines.back().compare(0, 6, "<NONL ") == 0) return false; static const char *e = getenv("EDSIM_PF"); bool y = r.chance(p->pf); return e ? y && atof(e) > 0 : y;
}
void plan_faults(const Profile *p, Rng &r, Cmd &c, Result *res) {
  if (!res->dry_ok) return;
  auto count = [&](const FM &f) -> uint64_t { if (f.op == OP_STEP) return res->dry_steps; if (f.cls != CL_ANY) return res->dry[f.op][f.cls]; uint64_t n = 0; for (int i = 0; i < CL_MAX; ++i) n += res->dry[f.op][i]; return n; };
  int nf = r.chance(.8) ? 1 : 2;
  for (int q = 0; q < nf; ++q) {
    int tot = 0; for (auto &f : p->menu) if (count(f)) tot += f.w; if (!tot) return;
    int z = (int)r.below(tot); for (auto &f : p->menu) { uint64_t n = count(f); if (!n) continue; if (z >= f.w) { z -= f.w; continue; }
      if (f.kind == FK_WINCH) { bool had = false; for (auto &y : c.faults) had |= y.kind == FK_WINCH; if (had) break; }
      Fault x; x.cmd = c.uid; x.op = f.op; x.cls = f.cls; x.kind = f.kind; x.arg = f.args[r.below(f.args.size())]; x.nth = 1 + (int)r.below(n); x.sticky = r.chance(f.sticky); c.faults.push_back(x); break; }
  }
}
