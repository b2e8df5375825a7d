// Stub shell: the commands ed hands to /bin/sh, interpreted inside the simulation.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
using std::string; using std::vector;

static vector<string> words(const string &s) {
  vector<string> r; string w; bool q = false, have = false;
  for (char c : s) {
    if (c == '\'') { q = !q; have = true; continue; }
    if (!q && (c == ' ' || c == '\t')) { if (have) r.push_back(w); w.clear(); have = false; continue; }
    w += c; have = true;
  }
  if (have) r.push_back(w); return r;
}
static vector<string> lines_of(const string &s) {
  vector<string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) { r.push_back(s.substr(i)); break; } r.push_back(s.substr(i, j - i)); i = j + 1; } return r;
}
static string joinl(const vector<string> &v) { string r; for (auto &l : v) r += l + "\n"; return r; }

// pure semantics of one simple command; needs_in: does it read standard input to the end
static string simple(const vector<string> &w, const string &in, bool *reads, int *st, const std::function<bool(const string &, string &)> &rdfile) {
  *reads = false; *st = 0; if (w.empty()) return "";
  const string &c = w[0];
  if (c == "cat") {
    if (w.size() == 1) { *reads = true; return in; }
    string o; for (size_t i = 1; i < w.size(); ++i) { string d; if (rdfile(w[i], d)) o += d; else *st = 1; } return o;
  }
  if (c == "sort") { *reads = true; auto v = lines_of(in); std::sort(v.begin(), v.end()); return joinl(v); }
  if (c == "tac") { *reads = true; auto v = lines_of(in); std::reverse(v.begin(), v.end()); return joinl(v); }
  if (c == "tr") { *reads = true; string o = in; for (auto &x : o) if (x >= 'a' && x <= 'z') x -= 32; return o; }
  if (c == "sed") { *reads = true; auto v = lines_of(in); for (auto &l : v) l = "> " + l; return joinl(v); }
  if (c == "wc") { *reads = true; return std::to_string(w.size() > 1 && w[1] == "-c" ? in.size() : lines_of(in).size()) + "\n"; }
  if (c == "head") { auto v = lines_of(in); size_t k = w.size() > 2 ? atoi(w[2].c_str()) : 10; if (v.size() > k) v.resize(k); return joinl(v); }
  if (c == "echo") { string o; for (size_t i = 1; i < w.size(); ++i) o += (i > 1 ? " " : "") + w[i]; return o + "\n"; }
  if (c == "printf") { return w.size() > 1 ? w[1] : ""; }
  if (c == "seq") { int n = w.size() > 1 ? atoi(w[1].c_str()) : 0; string o; for (int i = 1; i <= n; ++i) o += std::to_string(i) + "\n"; return o; }
  if (c == "exit") { *st = w.size() > 1 ? atoi(w[1].c_str()) : 0; return ""; }
  if (c == "false") { *st = 1; return ""; }
  if (c == "true" || c == "sleep" || c == ":") return "";
  *st = 127; return "";
}
static void split_cmds(const string &cmd, vector<string> &out) {
  string cur; bool q = false; for (char c : cmd) { if (c == '\'') q = !q; if (!q && (c == ';' || c == '\n')) { out.push_back(cur); cur.clear(); } else cur += c; } out.push_back(cur);
}
// returns (target, append) of a redirection and strips it
static string redir(vector<string> &w) {
  for (size_t i = 0; i + 1 < w.size(); ++i) if (w[i] == ">") { string t = w[i + 1]; w.erase(w.begin() + i, w.begin() + i + 2); return t; }
  return "";
}
// whole-command semantics used by the reference model
std::vector<string> shell_wrote;   // the files the last command opened to write
string shell_apply(const string &cmd, const string &in0, bool *reads_all, int *status, std::map<string, string> *writes) {
  shell_wrote.clear(); vector<string> cs; split_cmds(cmd, cs); string in = in0, out; bool any = false; int st = 0;
  for (auto &c : cs) {
    auto w = words(c); string t = redir(w); bool r = false;
    string o = simple(w, in, &r, &st, [&](const string &p, string &d) { if (writes && writes->count(p)) { d = (*writes)[p]; return true; } return vfs_read(p, d); });
    if (!w.empty() && w[0] == "head") { r = false; in = ""; }
    if (r) { any = true; in = ""; }
    if (!t.empty()) { shell_wrote.push_back(t); if (writes) (*writes)[t] = o; } else out += o;
    if (!w.empty() && w[0] == "exit") break;
  }
  if (reads_all) *reads_all = any; if (status) *status = st; return out;
}

static bool put(int fd, const string &s) {
  size_t i = 0; while (i < s.size()) {
    size_t k = 1 + A->sched.below(s.size() - i); if (k > 64 && A->sched.chance(.5)) k = 64;
    ssize_t r = sys_write(fd, s.data() + i, k); if (r < 0) { if (errno == EINTR) continue; return false; } i += r; }
  return true;
}
int shell_main(const char *cmd) {
  vector<string> cs; split_cmds(cmd, cs); int st = 0;
  for (auto &c : cs) {
    auto w = words(c); string t = redir(w);
    int ofd = 1; if (!t.empty()) { ofd = sys_open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (ofd < 0) return 1; }
    bool reads = false; st = 0;
    if (w.empty()) continue;
    if (w[0] == "cat" && w.size() == 1) {              // streaming
      char b[97]; ssize_t r; while ((r = sys_read(0, b, 1 + A->sched.below(sizeof b))) != 0) { if (r < 0) { if (errno == EINTR) continue; st = 1; break; } if (!put(ofd, string(b, r))) return 1; }
    } else if (w[0] == "head") {                        // stops reading early
      int k = w.size() > 2 ? atoi(w[2].c_str()) : 10; char ch; string o; while (k > 0 && sys_read(0, &ch, 1) == 1) { o += ch; if (ch == '\n') --k; }
      if (!o.empty() && o.back() != '\n') o += '\n'; if (!put(ofd, o)) return 1;
    } else {
      string in; simple(w, "", &reads, &st, [](const string &, string &) { return false; });
      if (reads) { char b[256]; ssize_t r; while ((r = sys_read(0, b, sizeof b)) != 0) { if (r < 0) { if (errno == EINTR) continue; break; } in.append(b, r); } }
      string o = simple(w, in, &reads, &st, [](const string &p, string &d) {
        int fd = sys_open(p.c_str(), O_RDONLY, 0); if (fd < 0) return false; char b[256]; ssize_t r; while ((r = sys_read(fd, b, sizeof b)) > 0) d.append(b, r); sys_close(fd); return true; });
      if (!put(ofd, o)) return 1;
    }
    if (ofd != 1) sys_close(ofd);
    if (w[0] == "exit") return st;
  }
  return st;
}
