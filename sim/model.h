// Executable reference model of the editor: what each command must do.
#pragma once
#include "sim.h"
#include <fnmatch.h>
#include "des.h"
#include <memory>
#include <regex.h>
#include <cctype>
using std::string; using std::vector; using std::map; using std::set;
typedef std::shared_ptr<const string> SP;
inline SP mk(const string &s) { return std::make_shared<const string>(s); }

struct L { int id; SP t; };
struct St {
  vector<L> b; long dot = 0; bool mod = false, empty = true, nlapp = false, bin = false;
  long n() const { return (long)b.size(); }
};
struct Snap { St s, u; bool uval; int marks[26]; vector<SP> reg[11]; bool weak; };
struct MFile { string data; bool ro = false, dir = false, dev = false, mayw = false; };   // mayw: made read-only while the editor may have had it open
enum { R_OK_ = 0, R_ERR = -1, R_EOF = -2, R_EMOD = -3, R_UNK = -4, R_EXIT = -5, R_FATAL = -6, R_NEXT = -7, R_PREV = -8 };
enum { F_P = 1, F_L = 2, F_N = 4 };

struct Model {
  St s, u; bool uval = false;
  int marks[26]; vector<SP> reg[11]; bool torn[11] = {};   // torn: last line lost its end to a failure
  bool has_name = false; string name; set<string> names, ever;   // the file name, and each one this command set
  map<string, MFile> files;
  string out;                        // predicted standard output of the command
  int next_id = 1;
  bool has_search = false, has_subst = false; string re_search, re_subst;
  bool has_rhs = false; string rhs, last_lhs; struct SubF { bool g = false, nlr = false, mlr = false, sw = false; long n = 0, m = 0; }; SubF subf; int sub_io = 0; bool has_last_sub = false;
  bool ere = false, scripted = false, exit_on_error = false, restricted = false, prompt_on = true;
  vector<string> keys; size_t ki = 0; string key;   // key in use, if any
  bool re_unknown = false, sub_unknown = false;   // last search pattern, last substitution not known (interrupted command)
  int status = 0;
  string unknown_why;
  // execution context
  string in; size_t pos = 0;
  bool global = false, gint = false, first_pass = true;
  vector<int> queue;
  int addrs = 0; long start = 0, end = 0;
  int rio = 0, ridx = 0, widx = 0; // register prefix state: 1 read, 2 write
  struct Src { vector<string> lines; size_t i = 0; };
  vector<Src> macro;
  vector<string> feed; size_t fi = 0; int starved = 0;  // lines of the current top-level command
  bool record = false; vector<Snap> path;
  string wrote_path; bool did_shell = false; string shell_cmd_;
  bool exited = false; int exit_code = 0;
  set<string> touched_files; map<string, vector<string>> versions;   // what each file held after each write of this command
  long budget = 0;

  Model() { memset(marks, -1, sizeof marks); }
  Snap snap(bool weak) { Snap p; p.s = s; p.u = u; p.uval = uval; memcpy(p.marks, marks, sizeof marks); for (int i = 0; i < 11; ++i) p.reg[i] = reg[i]; p.weak = weak; return p; }
  void restore(const Snap &p) { s = p.s; u = p.u; uval = p.uval; memcpy(marks, p.marks, sizeof marks); for (int i = 0; i < 11; ++i) reg[i] = p.reg[i]; }
  void step(bool weak = false) { if (record) path.push_back(snap(weak)); }
  int err() { return R_ERR; }
  int unk(const char *why) { unknown_why = why; return R_UNK; }
  char c() { return pos < in.size() ? in[pos] : 0; }
  char c1() { return pos + 1 < in.size() ? in[pos + 1] : 0; }
  void ws() { while (c() && isspace((unsigned char)c()) && c() != '\n') ++pos; }
  // ---- input
  bool getline(string &l) {           // false: end of file
    if (!macro.empty()) { Src &m = macro.back(); if (m.i >= m.lines.size()) return false; l = m.lines[m.i++] + "\n"; return true; }
    if (fi < feed.size()) { l = feed[fi++]; if (l == "<EOF>") return false; if (l.compare(0, 6, "<NONL ") == 0) { l = l.substr(6, l.size() - 7); return true; } l += "\n"; return true; }
    ++starved; l = ".\n"; return true;
  }
  static int trailing(const string &x, size_t endpos) { int k = 0; while (endpos > 0 && x[endpos - 1] == '\\') { ++k; --endpos; } return k; }
  // joins continued lines; returns false on EOF
  bool extended(string &xl, bool nonl, bool escape) {
    size_t e = in.find('\n', pos); if (e == string::npos) e = in.size() - 1;
    xl = in.substr(pos, e - pos + 1);
    int p = trailing(xl, xl.size() - 1);
    while (nonl ? xl.size() > 1 && xl[xl.size() - 2] == '\\' : p % 2) {
      size_t cut = escape ? (p + 1) / 2 : 1; xl.resize(xl.size() - cut); xl[xl.size() - 1] = '\n';
      string l; if (!getline(l) || l.back() != '\n') return false;
      xl += l; p = trailing(xl, xl.size() - 1);
    }
    if (nonl) xl.pop_back();
    return true;
  }
  // ---- helpers
  long find_id(int id) { for (long i = 0; i < s.n(); ++i) if (s.b[i].id == id) return i + 1; return -1; }
  bool bn_unk = false, umod_unk = false, uids_unk = false, took_umod = false;   // after a resync: what undoing restores is only partly known
  void reset_undo() { u = s; uval = true; umod_unk = uids_unk = false; }
  int bounds(long a) { return a < 0 || a > s.n() ? err() : 0; }
  bool num(long &v) { if (!isdigit((unsigned char)c())) return false; v = 0; while (isdigit((unsigned char)c())) { v = v * 10 + (c() - '0'); if (v > 1000000000) v = 1000000000; ++pos; } return true; }
  bool rx(const string &pat, regex_t &re) { return regcomp(&re, pat.c_str(), ere ? REG_EXTENDED : 0) == 0; }
  // a NUL character counts as any character: the editor matches it as it would a newline
  static string nonul(string t) { for (auto &ch : t) if (!ch) ch = '\n'; return t; }
  static bool hit(regex_t &re, const string &t0) { string t = nonul(t0); regmatch_t m[1]; m[0].rm_so = 0; m[0].rm_eo = t.size(); return regexec(&re, t.data(), 0, m, REG_STARTEND) == 0; }
  // parse pattern at c()==delimiter. 0 ok
  int pattern(bool subst, string &pat) {
    char dc = c(); if (isspace((unsigned char)dc) && dc != '\n') return err();
    if (dc == '\n' || (++pos, c() == '\n') || c() == dc) {
      if (re_unknown) return unk("last pattern unknown");
      if (subst) { bool us = dc != '\n' && has_search; if (us) { pat = re_search; if (!has_subst) { has_subst = true; re_subst = pat; } return 0; }
        if (sub_unknown) return unk("last pattern unknown");
        if (!has_subst) return err(); pat = re_subst; return 0; }
      if (has_search) { pat = re_search; return 0; }
      if (sub_unknown) return unk("last pattern unknown");
      if (has_subst) { pat = re_subst; has_search = true; re_search = pat; return 0; }
      return err();
    }
    pat.clear();
    while (c() && c() != '\n' && c() != dc) {
      if (c() == '[') { size_t q = pos + 1; if (q < in.size() && in[q] == '^') ++q; if (q < in.size() && in[q] == ']') ++q;
        while (q < in.size() && in[q] != ']' && in[q] != '\n') ++q; if (q >= in.size() || in[q] != ']') return err(); pat += in.substr(pos, q - pos + 1); pos = q + 1; continue; }
      if (c() == '\\') { if (c1() == dc) return unk("escaped delimiter"); if (c1() == '\n' || !c1()) return err(); pat += c(); ++pos; }
      pat += c(); ++pos;
    }
    regex_t re; if (!rx(pat, re)) return err(); regfree(&re);
    if (subst) { has_subst = true; re_subst = pat; } else { has_search = true; re_search = pat; re_unknown = false; }
    return 0;
  }
  int one_addr(long &a, bool &got) {
    ws(); size_t p0 = pos; long v;
    char ch = c();
    if (isdigit((unsigned char)ch)) { num(v); a = v; }
    else if (ch == '$') { a = s.n(); ++pos; }
    else if (ch == '.') ++pos;
    else if (ch == '/' || ch == '?') {
      if (bounds(a)) return err(); s.dot = a; string pat; int r = pattern(false, pat); if (r) return r;
      regex_t re; if (!rx(pat, re)) return unk("regex");
      a = s.dot; bool ok = false;
      do { if (ch == '/') a = a == s.n() ? 0 : a + 1; else a = a == 0 ? s.n() : a - 1;
        if (a && hit(re, *s.b[a - 1].t)) { ok = true; break; } } while (a != s.dot);
      regfree(&re); if (!ok) return err();
      if (c() == ch) ++pos;
    } else if (ch == '\'') {
      ++pos; char m = c(); ++pos; if (!(m >= 'a' && m <= 'z')) return err();
      int r = mark_addr(m, a); if (r) return r;
    }
    for (;;) {
      char d = c();
      if (isdigit((unsigned char)d)) { num(v); a += v; }
      else if (d == '+') { ++pos; v = 1; num(v); a += v; }
      else if (d == '-' || d == '^') { ++pos; v = 1; num(v); a -= v; }
      else if (d == ' ' || d == '\t') { ws(); if (num(v)) a += v; }
      else break;
    }
    got = pos != p0; return 0;
  }
  int mark_addr(char m, long &a) {
    int id = marks[m - 'a'];
    if (id == -2) return unk("mark unknown");
    if (id == 0) { a = 0; return 0; }
    if (id > 0) { long k = find_id(id); if (k > 0) { a = k; return 0; } }
    if (s.n() == 0) { a = 0; return 0; }
    return err();
  }
  static bool delim(char ch) { return ch == '%' || ch == ',' || ch == ';'; }
  int address() {
    addrs = 0; long first, second, dot; first = second = dot = s.dot; ws(); bool have = delim(c());
    do {
      if (have) { if (addrs) first = c() == ';' ? (dot = second) : second; else { first = c() == ';' ? dot : 1; second = s.n(); addrs = 2; } }
      pos += have; long a = dot; bool got = false; int r = one_addr(a, got); if (r) return r;
      if (got) { second = a; ++addrs; }
    } while ((have = delim(c())));
    if (addrs < 2) first = second; else addrs = 2;
    if (first == -1) first = s.n(); else if (first == s.n() + 1) first = 0;
    if (second == -1) second = s.n(); else if (second == s.n() + 1) second = 0;
    if (bounds(first) || bounds(second) || bounds(dot)) return err();
    start = first; end = second; s.dot = dot; return 0;
  }
  int range(long f, long t) {
    if (!addrs) { start = f; end = t; }
    if ((start < 1 || start > s.n() || end < 1 || end > s.n()) && !(rio & 1)) return err();
    if (start > end) return err();
    return 0;
  }
  int suffix(int &io) {
    do { switch (c()) { case 'p': io |= F_P; break; case 'l': io |= F_L; break; case 'n': io |= F_N; break; default: if (c() != '\n') return err(); } } while (in[pos++] != '\n');
    return 0;
  }
  static string list_line(const string &t) {
    static const char *esc = "\a\b\f\n\r\t\v"; static const char *let = "abfnrtv"; string o;
    for (char ch : t) { const char *e = ch ? strchr(esc, ch) : nullptr; if (ch == '\\') o += "\\\\"; else if (ch == '$') o += "\\$"; else if (e) { o += '\\'; o += let[e - esc]; } else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { char b[8]; snprintf(b, 8, "\\%03o", (unsigned char)ch); o += b; } else o += ch; }
    return o + "$";
  }
  bool out_unknown = false, may_epipe = false, listed = false, verbose = false, verb_unk = false, saw_h = false; string epipe_out;
  // `l` may fold long lines with backslash-newline wherever it likes; nothing else may differ
  static string unfold(const string &t) { string o; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\\' && i + 1 < t.size()) { if (t[i + 1] == '\n') { ++i; continue; } o += t[i++]; o += t[i]; } else o += t[i]; } return o; }
  // with messages on, each "?" is followed by one line of explanation, whose wording is free
  static string unhelp(const string &t, bool whole = false) { string o; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); e = e == string::npos ? t.size() : e + 1; string l = t.substr(i, e - i); o += l; i = e; if (l.size() >= 2 && (!whole || l.size() == 2) && l.compare(l.size() - 2, 2, "?\n") == 0) { e = t.find('\n', i); i = e == string::npos ? t.size() : e + 1; } } return o; }
  bool is_epipe(const string &o) const { return o != out && (o == epipe_out || (verbose && unhelp(o) == epipe_out)); }
  bool same_out(const string &o) const { if (out_unknown || o == out) return true; string a = o, b = out; if (verbose && unhelp(a) == b) return true; if (!listed) return false; a = unfold(verbose ? unhelp(a) : a); return a == unfold(b); }
  // ---- window: its size, and what the last page or range shown left behind
  int ws_row = 24, ws_col = 80, zk = 0; long win_alt = 0; bool ws_unk = false, ws_pend = false, ws_n = false, paging = false, is_paging = false, page_unk = false, is_unk = false, fb_unk = false; long page_addr = 0, prev1 = 0;
  int alt_row() const { int a = win_alt & 0xffff; return a > 1 ? a : ws_row; }
  int rows(int i) const { return win_alt && i >= 3 - zk ? alt_row() : ws_row; }
  void win_settle(bool fired) {
    if (win_alt) { int a = win_alt & 0xffff, b = win_alt >> 16; if (a > 1) { if (ws_n && a != ws_row) ws_unk = true; else { ws_row = a; ws_unk = false; } } if (b > 8) ws_col = b; }
    if (!fired && (seen.count('p') || seen.count('n') || seen.count('l') || seen.count('z') || seen.count('Z'))) ws_pend = false; if (fired && win_alt) ws_pend = ws_unk = true;   // an interrupt may leave the change of size for the next command
    if (fired) { page_unk = fb_unk = true; prev1 = page_addr = -1; for (char k : {'z', 'Z', '[', ']'}) if (seen.count(k)) ws_unk = true; }
    win_alt = 0; zk = 0; ws_n = false;
  }
  bool narrow(const string &l, int io) const {
    long cols = ws_col, w = 0; if (win_alt >> 16 > 8) cols = std::min(cols, win_alt >> 16);
    if (io & F_N) w = 24; if (io & F_L) cols -= 17;
    for (unsigned char ch : l) { if (io & F_L) { w += 4; continue; } if (ch == '\f' || ch == '\b' || ch == '\r' || ch == 27) return false; w += ch == '\t' ? 8 : 1; }
    return w < cols;
  }
  void shown(long f, long t, int io) {     // what a range that was printed leaves behind
    long R = std::min(ws_row, win_alt ? alt_row() : ws_row) - 1, n = t - f + 1; bool sure = !ws_unk && !(win_alt && alt_row() != ws_row);
    for (long i = f; i <= t; ++i) if (!narrow(*s.b[i - 1].t, io)) { fb_unk = true; prev1 = page_addr = -1; return; }
    fb_unk = false; prev1 = sure ? f + (n - 1) / R * R : f > 1 ? 2 : n <= R && !ws_unk ? 1 : -1; page_addr = sure ? prev1 : -1;
  }
  int display(long f, long t, int io) {
    if (!s.n()) return 0;
    if (f < 1) return unk("display 0");
    shown(f, t, io);
    int w = 1; for (long k = s.n(); k >= 10; k /= 10) ++w; (void)w;
    for (long i = f; i <= t; ++i) {
      if (io & F_N) { char b[40]; snprintf(b, sizeof b, "%*ld\t", w, i); out += b; }
      if (io & F_L) { string q = list_line(*s.b[i - 1].t); listed = true; out += q + "\n"; } else out += *s.b[i - 1].t + "\n";
      if (s.b[i - 1].t->find('\0') != string::npos) out_unknown = true;
    }
    s.dot = t; return 0;
  }
  void del(long f, long t) {          // delete lines f..t
    if (global) for (long i = f; i <= t; ++i) for (size_t k = 0; k < queue.size(); ++k) if (queue[k] == s.b[i - 1].id) { queue.erase(queue.begin() + k); break; }
    if (t == s.n()) s.nlapp = false;
    s.b.erase(s.b.begin() + (f - 1), s.b.begin() + t); s.dot = f - 1; s.mod = true;
  }
  void put(const SP &t) { s.b.insert(s.b.begin() + s.dot, L{next_id++, t}); ++s.dot; }
  int append(long after) {
    s.dot = after;
    for (;;) {
      string l;
      if (!global || !macro.empty()) { if (!getline(l)) return 0; if (l.back() != '\n') return err(); }
      else { if (pos >= in.size()) return 0; }
      if (!global || !macro.empty()) { if (l == ".\n") return 0; }
      else { if (c() == '.' && c1() == '\n') { pos += 2; return 0; } size_t e = in.find('\n', pos); l = in.substr(pos, e - pos + 1); pos = e + 1; }
      if (after == s.n()) s.nlapp = false;
      put(mk(l.substr(0, l.size() - 1))); s.empty = false; s.mod = true; step();
    }
  }
  // ---- files
  static string norm(const string &p) { return vfs_norm(p); }
  bool valid_name(const string &fn) { if (!restricted) return true; return !(fn[0] == '!' || fn.find('/') != string::npos || fn == ".."); }
  int rd_text(const string &d, long after, long &size, bool filt = false) {
    bool mods = filt || s.n() > 0;
    bool app = after == s.n(), was_bin = s.bin; (void)was_bin;
    s.dot = after; size = 0; size_t i = 0; bool missing = false, nul = d.find('\0') != string::npos;
    while (i < d.size()) { size_t j = d.find('\n', i); string t; if (j == string::npos) { t = d.substr(i); i = d.size(); missing = true; size += t.size() + 1; } else { t = d.substr(i, j - i); i = j + 1; size += t.size() + 1; }
      put(mk(t)); s.empty = false; s.mod |= mods; s.bin |= t.find('\0') != string::npos; if (s.dot == s.n()) s.nlapp = missing; step(); }
    s.empty = s.empty && !size; app = app && size;
    s.bin |= nul;
    if (s.bin && app && s.nlapp) --size;
    return 0;
  }
  string wr_text(long f, long n, long &size) {
    string o; if (f) for (long i = 0; i < n; ++i) { o += *s.b[f - 1 + i].t; if (!(f - 1 + i == s.n() - 1 && s.bin && s.nlapp)) o += '\n'; } size = o.size(); return o;
  }
  string run_shell(const string &cmd, const string &input, bool *rd = nullptr, int *st = nullptr) {
    map<string, string> fs, before; for (auto &f : files) if (!f.second.dir) { string n = f.first; fs[n] = f.second.data; if (n.compare(0, 3, "/w/") == 0) fs[n.substr(3)] = f.second.data; }
    before = fs; bool r; int ss; string o = shell_apply(cmd, input, rd ? rd : &r, st ? st : &ss, &fs);
    for (auto &f : fs) if (!before.count(f.first) || before[f.first] != f.second) { string n = norm(f.first); files[n].data = f.second; touched_files.insert(n); versions[n].push_back(f.second); }
    for (auto &f : shell_wrote) touched_files.insert(norm(f));
    did_shell = true; shell_cmd_ = cmd; return o;
  }
  // the shell command at the cursor: `!!' stands for the one before it, `%' for the current file
  bool has_prev = false, prev_unk = false; string prev_sh;
  int get_shell(string &sh) {
    if (restricted) return err();
    string xl; if (global) { size_t e = in.find('\n', pos); if (e == string::npos) return err(); xl = in.substr(pos, e - pos); pos = e + 1; } else { size_t p0 = pos; if (!extended(xl, true, false)) return err(); pos = in.find('\n', p0) + 1; }
    string cur = xl; bool subs = false; sh.clear();
    for (size_t i = 0; i < xl.size(); ++i) {
      if (xl[i] == '%') { if (i + 1 < xl.size() && xl[i + 1] == '-') { if (exit_on_error) return unk("script name"); sh += "stdin"; ++i; } else if (has_name) sh += name; subs = true; }
      else if (xl[i] == '!' && sh.empty() && i + 1 < xl.size() && xl[i + 1] == '!') {
        if (prev_unk) return unk("previous shell command");
        if (!has_prev) return err();
        cur = prev_sh + cur.substr(2); xl = cur; i = 0; sh += xl[0]; subs = true;
      }
      else if (xl[i] == '\\' && i + 1 < xl.size() && xl[i + 1] == '%') { sh += '%'; ++i; }
      else sh += xl[i];
    }
    has_prev = true; prev_unk = false; prev_sh = cur;
    if (subs) out += sh.substr(1) + "\n";
    return 0;
  }
  int get_line(string &x) { if (global && macro.empty()) { size_t e = in.find('\n', pos); x = in.substr(pos, e - pos); pos = e + 1; } else { size_t p0 = pos; if (!extended(x, true, false)) return err(); pos = in.find('\n', p0) + 1; } return 0; }
  int get_name(string &fn) {
    fn.clear(); if (c() == '!') return get_shell(fn);
    int r = get_line(fn); if (r) return r;
    if (!fn.empty() && !valid_name(fn)) return err();
    return 0;
  }
  // ---- file lists
  vector<string> gl; size_t goff = 0; bool gl_unk = false, gl_null = false, tilde = false;
  bool is_dir(const string &p) { auto f = files.find(norm(p.empty() ? "." : p)); return f != files.end() && f->second.dir; }
  bool exists(const string &p) { return files.count(norm(p)); }
  static bool magic(const string &p) { return p.find_first_of("*?[") != string::npos; }
  vector<string> globv(const string &p) {          // what is there that matches a pattern, in order
    if (p.empty()) return {};
    if (!magic(p)) return exists(p) ? vector<string>{p} : vector<string>();
    size_t k = p.rfind('/'); string base = k == string::npos ? p : p.substr(k + 1); vector<string> dirs, r;
    if (k == string::npos) dirs = {""}; else if (k == 0) dirs = {"/"}; else { string d = p.substr(0, k); for (auto &x : globv(d)) if (is_dir(x)) dirs.push_back(x + "/"); }
    for (auto &d : dirs) {
      if (!magic(base)) { if (exists(d + base)) r.push_back(d + base); continue; }
      string n = norm(d.empty() ? "." : d); if (n != "/") n += "/";
      for (auto &f : files) if (f.first.size() > n.size() && f.first.compare(0, n.size(), n) == 0 && f.first.find('/', n.size()) == string::npos && !fnmatch(base.c_str(), f.first.c_str() + n.size(), FNM_PERIOD)) r.push_back(d + f.first.substr(n.size()));
    }
    std::sort(r.begin(), r.end()); return r;
  }
  bool expand(const string &p, vector<string> &res) {
    auto v = globv(p); if (!v.empty()) { res.insert(res.end(), v.begin(), v.end()); return true; }
    size_t k = p.rfind('/'); if (k == string::npos) { res.push_back(p); return true; }
    auto d = globv(p.substr(0, k)); if (d.empty()) return false;
    for (auto &x : d) if (is_dir(x)) res.push_back(x + "/" + p.substr(k + 1));
    return !res.empty();
  }
  int file_list(string &fn, char cm, bool replace, bool uniq) {
    string x; int r = get_line(x); if (r) return r;
    if (restricted && (x == ".." || x.find('/') != string::npos)) return err();
    vector<string> pats, res; string w; bool have = false;
    for (size_t i = 0; i < x.size(); ++i) { if (x[i] == '\\' && i + 1 < x.size() && isspace((unsigned char)x[i + 1])) { w += x[++i]; have = true; } else if (isspace((unsigned char)x[i])) { if (have) pats.push_back(w); w.clear(); have = false; } else { w += x[i]; have = true; } }
    if (have) pats.push_back(w);
    if (!pats.empty()) {
      bool bad = false; for (auto &p : pats) if (!expand(p, res) || (uniq && res.size() > 1)) { bad = true; break; }
      if (bad) { if (replace || (gl_null && !gl_unk)) { gl.clear(); goff = 0; gl_null = true; gl_unk = false; } return err(); }
      if (replace) { gl = res; goff = 0; gl_null = gl_unk = false; } else if (gl_null) { gl_unk = true; gl_null = false; }
      fn = res[0];
    } else {
      if (gl_unk) return unk("file list");
      if (cm == 'n') { if (gl.size() < goff + 2) return err(); ++goff; }
      else if (cm == 'p') { if (!goff) return err(); --goff; }
      else { goff = 0; if (gl.empty() && has_name) { fn = name; return 0; } }
      if (gl.empty()) return err(); fn = gl[goff];
    }
    if (fn.back() == '\\') return unk("name of a file");
    if (fn.find('\n') != string::npos || (restricted && (fn == ".." || fn.find('/') != string::npos))) return err();
    return 0;
  }
  int get_file(string &fn, char cm, bool replace, bool uniq) { return tilde && c() != '!' ? file_list(fn, cm, replace, uniq) : get_name(fn); }
  char list_dir() { char cy = 0; if (tilde && (c() == 'n' || c() == 'p')) { cy = c(); ++pos; } return cy; }
  vector<string> kpath;   // every key in use at some point of the command
  int next_key() { string k = ki < keys.size() ? keys[ki++] : ""; if (k.empty()) { key.clear(); kpath.push_back(key); return 0; } uint8_t b[8]; if (!des_key_bytes(k, b)) return err(); key = k; kpath.push_back(key); return 0; }
  // the contents of a stream as the editor reads it; what precedes the first sign of damage
  int rd_stream(const string &d, long after, long &size) {
    if (key.empty()) return rd_text(d, after, size);
    bool ok; string x = des_dec(key, d, ok); if (!ok) x.resize(x.rfind('\n') == string::npos ? 0 : x.rfind('\n') + 1);
    rd_text(x, after, size); if (!ok) return err(); if (size) size += 8 - size % 8; return 0;
  }
  string wr_stream(const string &o, long &size) { if (key.empty()) return o; if (size) size += 8 - size % 8; return des_enc(key, o, sim_pad); }
  int read_any(const string &fn, bool cmdname, long after, long &addr, long &size, bool is_def) {
    addr = size = 0;
    if (fn[0] == '!' && cmdname) { string o = run_shell(fn.substr(1), ""); int r = rd_stream(o, after, size); if (r) return r; if (!scripted) out += "!\n"; addr = s.dot - after; return 0; }
    string p = norm(fn); (void)is_def;
    auto it = files.find(p); if (it == files.end()) return err(); if (it->second.dir) { if (!restricted) s.dot = after; return err(); } if (restricted && it->second.dev) return err();
    if (it->second.dev) { rd_text("", after, size); addr = 0; if (s.bin && fn == "/dev/null") s.nlapp = true; return 0; }
    { int r = rd_stream(it->second.data, after, size); if (r) return r; } addr = s.dot - after; return 0;
  }
  int cmd_E() {
    if (addrs) return err(); char cy = list_dir(); if (!isspace((unsigned char)c())) return err(); ws(); string fn; int r = get_file(fn, cy, true, false); if (r) return r;
    if (s.n()) { del(1, s.n()); step(true); }
    reset_undo(); step(true); queue.clear(); bool nm = fn.size() && fn[0] != '!';
    s = St(); u = St(); bn_unk = false; uval = false; step();
    long addr, size;
    if ((fn.size() && fn[0] == '!') || (fn.empty() && has_name && name[0] == '!')) { r = read_any(fn.empty() ? name : fn, true, 0, addr, size, false); if (r) return r; }
    else {
      if (nm) { name = fn; has_name = true; names.insert(fn), ever.insert(norm(fn)); }
      bool def = nm || (has_name && !name.empty());
      r = read_any(def ? name : "/dev/null", false, 0, addr, size, def); if (r) return r;
    }
    if (!scripted) { out += std::to_string(size) + "\n"; }
    if (!scripted && !exit_on_error) status = 0;
    return 0;
  }
  int cmd_r() {
    if (!isspace((unsigned char)c())) return err(); ws(); if (c() == '\n') tilde = false; string fn; int r = get_file(fn, 0, !has_name, true); if (r) return r;
    if (!global) reset_undo(); step();
    bool nl = s.nlapp;
    if (s.empty && s.n()) return unk("logically empty buffer");
    s.nlapp = nl;
    if (!(addrs && s.n())) end = s.n();
    long addr, size; bool def = false;
    if ((fn.size() && fn[0] == '!') || (fn.empty() && has_name && name[0] == '!')) { r = read_any(fn.empty() ? name : fn, true, end, addr, size, false); if (r) return r; }
    else {
      if (!has_name && !fn.empty()) { name = fn; has_name = true; names.insert(fn), ever.insert(norm(fn)); def = true; }
      else if (fn.empty() && has_name && !name.empty()) def = true;
      r = read_any(def ? name : fn.empty() ? "/dev/null" : fn, false, end, addr, size, def); if (r) return r;
    }
    if (!scripted) out += std::to_string(size) + "\n";
    if (addr && addr != s.n()) s.mod = true;
    return 0;
  }
  char last_w = 0;
  int cmd_w(char cmd) {
    if (!(addrs || s.n())) { start = end = 0; } else { int r = range(1, s.n()); if (r) return r; }
    char cy = list_dir(), cx = cy ? 0 : c(); if (cx == 'q') ++pos;
    if (!isspace((unsigned char)c())) return err(); ws(); if (c() == '\n') tilde = false; string fn; int r = get_file(fn, 1, !has_name, true); if (r) return r;
    long n = start ? end - start + 1 : 0, size; bool def = false;
    if ((fn.size() && fn[0] == '!') || (fn.empty() && has_name && name[0] == '!')) {
      string sh = fn.empty() ? name : fn; string data = wr_text(start, n, size); data = wr_stream(data, size); bool ra; out += run_shell(sh.substr(1), data, &ra); may_epipe = !ra && data.size(); epipe_out = out + "?\n"; if (!scripted) out += "!\n";
    } else {
      if (!has_name && !fn.empty()) { name = fn; has_name = true; names.insert(fn), ever.insert(norm(fn)); def = true; } else if (fn.empty() && has_name && !name.empty()) def = true;
      string tgt = norm(def ? name : fn.empty() ? "/dev/null" : fn);
      auto it = files.find(tgt); if (def && it != files.end() && it->second.dev) return unk("device as default file");
      if (it != files.end() && it->second.ro && it->second.mayw) return unk("write-protected while open");
      if (it != files.end() && (it->second.dir || it->second.ro || (restricted && it->second.dev))) return err();
      if (it == files.end()) { size_t k = tgt.rfind('/'); auto d = files.find(k ? tgt.substr(0, k) : "/"); if (d == files.end() || !d->second.dir) return err(); }
      string data = wr_text(start, n, size); data = wr_stream(data, size);
      wrote_path = tgt; last_w = cmd; MFile &f = files[tgt];
      if (!f.dev) { if (cmd == 'W') f.data += data; else f.data = data; versions[tgt].push_back(f.data); }
      touched_files.insert(tgt);
      if (n == s.n() && (def || !fn.empty())) { s.mod = false; u.mod = true; if (!scripted && !exit_on_error) status = 0; step(); }
    }
    if (!scripted) out += std::to_string(size) + "\n";
    if (cy && may_epipe) return unk("write to a pipe that may break");
    if (cy) return s.mod && !scripted ? R_EMOD : cy == 'n' ? R_NEXT : R_PREV;
    if (cx == 'q' && may_epipe) return unk("wq to a pipe that may break");
    if (cx == 'q') return s.mod && !scripted ? R_EMOD : R_EOF;
    return 0;
  }
  // ---- substitution
  bool hibyte = false;               // an empty match stepped over a multibyte character
  bool subst_line(regex_t &re, const string &src0, string &dst, const SubF &f) {
    string src = nonul(src0); bool g = f.g; long nth = f.n, mod = f.m;
    if (f.nlr || f.mlr) { long cnt = count_rx(re, src); if (cnt <= labs(nth)) return false; if (f.nlr) nth += cnt; if (f.mlr && (mod += cnt) <= 0) return false; }
    vector<regmatch_t> rm(re.re_nsub + 1); const char *txt = src.c_str(), *eot = txt + src.size(); ptrdiff_t o = src0.c_str() - txt; int ef = REG_STARTEND; bool changed = false, mp = false, nilp, niln = true; long k = 0; if (!nth) nth = 1; if (!mod) mod = 1; dst.clear();
    rm[0].rm_so = 0; rm[0].rm_eo = src.size(); size_t j = 0;
    for (; (!changed || g) && !regexec(&re, txt, re.re_nsub + 1, rm.data(), ef); txt += j, rm[0].rm_so = 0, rm[0].rm_eo = eot - txt, ef |= REG_NOTBOL) {
      size_t i = rm[0].rm_so; j = rm[0].rm_eo; nilp = niln; niln = !j;
      if (mp && niln) { if (txt == eot) break; if (*txt & 0x80) hibyte = true; j = 1; dst.append(txt + o, 1); mp = false; }
      else if ((!niln || nilp) && ++k >= nth && !((k - nth) % mod)) {
        dst.append(txt + o, i); apply(dst, txt + o, rm); mp = true; changed = true;
      } else { if (niln && txt == eot) break; if (!j) { j = 1; if (*txt & 0x80) hibyte = true; } dst.append(txt + o, j); mp = false; }
    }
    if (!changed) return false;
    if (eot > txt) dst.append(txt + o, eot - txt);
    return true;
  }
  long count_rx(regex_t &re, const string &src) {
    vector<regmatch_t> rm(re.re_nsub + 1); const char *txt = src.c_str(), *eot = txt + src.size(); int ef = REG_STARTEND; bool mp = false, nilp, niln = true; long k = 0; size_t j = 0; rm[0].rm_so = 0; rm[0].rm_eo = src.size();
    for (; !regexec(&re, txt, re.re_nsub + 1, rm.data(), ef); txt += j, rm[0].rm_so = 0, rm[0].rm_eo = eot - txt, ef |= REG_NOTBOL) {
      j = rm[0].rm_eo; nilp = niln; niln = !j;
      if (mp && niln) { if (txt == eot) break; if (*txt & 0x80) hibyte = true; j = 1; mp = false; }
      else if (!niln || nilp) { mp = true; ++k; }
      else { if (niln && txt == eot) break; if (!j) { j = 1; if (*txt & 0x80) hibyte = true; } mp = false; }
    }
    return k;
  }
  void apply(string &dst, const char *txt, vector<regmatch_t> &rm) {
    vector<int> cc(1, 0); int once = 0;
    auto add = [&](char ch) { dst += (cc.back() > 0 || once > 0) ? (char)toupper((unsigned char)ch) : (cc.back() < 0 || once < 0) ? (char)tolower((unsigned char)ch) : ch; once = 0; };
    auto part = [&](regmatch_t &q) { for (auto j = q.rm_so; j >= 0 && j < q.rm_eo; ++j) add(txt[j]); };
    for (size_t i = 0; i < rhs.size(); ++i) {
      if (rhs[i] == '&') { part(rm[0]); continue; }
      if (rhs[i] != '\\' || i + 1 >= rhs.size()) { add(rhs[i]); continue; }
      char e = rhs[++i];
      if (isdigit((unsigned char)e)) { if ((size_t)(e - '0') < rm.size()) part(rm[e - '0']); }
      else if (e == 'U') cc.push_back(1); else if (e == 'L') cc.push_back(-1); else if (e == 'u') once = 1; else if (e == 'l') once = -1;
      else if (e == 'E') { if (cc.size() > 1) cc.pop_back(); }
      else add(e);
    }
  }
  void offs(long &a) {
    for (;;) { long v = 1;
      if (isdigit((unsigned char)c())) { num(v); a += v; }
      else if (c() == '+' || c() == '-' || c() == '^') { bool neg = c() != '+'; ++pos; if (isdigit((unsigned char)c())) num(v); a += neg ? -v : v; }
      else if (c() == ' ' || c() == '\t') { ws(); if (isdigit((unsigned char)c())) { num(v); a += v; } }
      else return;
    }
  }
  int cmd_s() {
    int r = range(s.dot, s.dot); if (r) return r;
    bool shortf = c() && strchr("\n$+-^gpr0123456789", c()); string pat; SubF f; int io = 0;
    if (shortf) {
      if (sub_unknown) return unk("last substitution");
      f = subf; io = sub_io; pat = last_lhs; bool gf = false, tg = false, tp = false, tr = false, tf = false;
      while (c() != '\n') {
        char ch = c();
        if (ch == '$') { ++pos; if (gf) { tf = true; f.mlr = true; f.m = 0; offs(f.m); } else { f.nlr = true; f.n = 0; offs(f.n); } }
        else if (ch == '+' || ch == '-' || ch == '^' || isdigit((unsigned char)ch)) { if (gf) { tf = true; f.m = 0; offs(f.m); f.mlr = f.m <= 0; } else { f.n = 0; offs(f.n); f.nlr = f.n <= 0; } }
        else if (ch == 'g') { gf = true; tg = !tg; ++pos; } else if (ch == 'p') { tp = !tp; ++pos; } else if (ch == 'r') { tr = !tr; ++pos; }
        else return err();
      }
      if (tr) { if (re_unknown) return unk("last pattern unknown"); if (!has_search) return err(); pat = re_search; if (!has_subst) { has_subst = true; re_subst = pat; } }
      else if (!has_last_sub) return err();
      if (!global || first_pass || gint) { if (tf) f.g = false; if (tg) f.g = !f.g; if (tp) { if (!io) io = F_P; else f.sw = !f.sw; } }
    } else {
      if (c() && c() != '\n' && c1() == '\n') return err();
      char dc = c(); r = pattern(true, pat); if (r) return r;
      string xl; if (!global) { if (!extended(xl, false, false)) return err(); in = xl; pos = 0; }
      if (c() == '\n') { rhs.clear(); io = F_P; }
      else {
        // c()==dc
        ++pos; bool nlterm = false;
        if (c() == '%' && (c1() == dc || c1() == '\n')) { ++pos; if (sub_unknown) return unk("last template"); if (!has_rhs) return err(); }
        else {
          string t;
          while (pos < in.size() && c() != dc) { if (c() == '\n' && pos + 1 >= in.size()) { nlterm = true; break; } if (c() == '\\' && c1() == dc) { ++pos; t += c(); ++pos; continue; } if (c() == '\\' && c1() == '\\') { t += "\\\\"; pos += 2; continue; } t += c(); ++pos; }
          rhs = t; has_rhs = true;
        }
        if (nlterm || c() == '\n') io = F_P; else { ++pos; for (;;) {
          char ch = c();
          if (ch == '$') { ++pos; if (f.g) { f.mlr = true; offs(f.m); } else { f.nlr = true; offs(f.n); } }
          else if (ch == '+' || ch == '-' || isdigit((unsigned char)ch)) { if (f.g) { offs(f.m); f.mlr = f.m <= 0; } else { offs(f.n); f.mlr = false; f.nlr = f.n <= 0; } }
          else if (ch == 'g') { f.g = true; ++pos; } else break;
        } }
      }
    }
    r = suffix(io); if (r) return r;
    if (!global) reset_undo(); step();
    has_last_sub = true; subf = f; sub_io = io; last_lhs = pat; sub_unknown = false;
    regex_t re; if (!rx(pat, re)) return unk("regex");
    hibyte = false; long dot = s.dot, from = start, to = end; bool nl = s.nlapp; int nsub = 0; s.dot = from - 1; string d;
    for (long lc = 0; lc <= to - from; ++lc) {
      ++s.dot; L old = s.b[s.dot - 1];
      if (subst_line(re, *old.t, d, f)) {
        long at = s.dot; bool m = s.mod; (void)m; del(at, at); step(true); size_t i = 0;
        for (;;) { size_t j = d.find('\n', i); put(mk(d.substr(i, j == string::npos ? j : j - i))); int nid = s.b[s.dot - 1].id; if (!i) for (int &k : marks) if (k == old.id) k = nid; if (j == string::npos) break; step(true); i = j + 1; }
        ++nsub; dot = s.dot; s.nlapp = nl; step();
      }
    }
    regfree(&re); if (hibyte) return unk("multibyte step");
    s.dot = dot;
    if (!nsub && !global) return err();
    return io && !f.sw ? display(s.dot, s.dot, io) : 0;
  }
  // ---- global
  int cmd_g(char cmd) {
    if (global) return err();
    int r = range(1, s.n()); if (r) return r;
    bool want = cmd == 'g' || cmd == 'G'; char dc = c(); string pat; r = pattern(false, pat); if (r) return r;
    if (c() == dc && c() != '\n') ++pos;
    queue.clear(); regex_t re; if (!rx(pat, re)) return unk("regex");
    for (long i = start; i <= end; ++i) if (hit(re, *s.b[i - 1].t) == want) queue.push_back(s.b[i - 1].id);
    regfree(&re);
    int io = 0; bool inter = cmd == 'G' || cmd == 'V';
    if (inter) { global = gint = true; r = suffix(io); if (r) return r; }
    global = true; gint = inter;
    reset_undo(); step(); string gcb; bool have = false;
    if (!inter) { string xl; if (!extended(xl, false, true)) return err(); if (xl == "\n") xl = "p\n"; gcb = xl; have = true; }
    first_pass = true;
    while (!queue.empty()) {
      int id = queue.front(); queue.erase(queue.begin()); long a = find_id(id); if (a < 0) return err();
      s.dot = a;
      if (inter) {
        display(s.dot, s.dot, F_P); string l; if (!getline(l)) return 0; if (l.back() != '\n') return err(); in = l; pos = 0; string xl; if (!extended(xl, false, true)) return 0;
        if (xl == "\n") continue;
        if (xl == "&\n") { if (!have) return err(); } else { gcb = xl; have = true; }
      }
      in = gcb; pos = 0;
      while (pos < in.size()) { int r2 = exec_one(); if (r2) return r2; }
      first_pass = false;
    }
    if (inter && io) return display(s.dot, s.dot, io);
    return 0;
  }
  int dest(long &addr, bool &app) {
    long st = start, en = end; app = false;
    if (c() == '>') { rio |= 2; ++pos; if (c() == '>') { app = true; ++pos; } widx = isdigit((unsigned char)c()) ? in[pos++] - '0' : 10; return 0; }
    int r = address(); if (r) return r; if (s.n() < end) return err(); addr = end; start = st; end = en; return 0;
  }
  void reg_write(int idx, long f, long t, bool app) { wregs |= 1u << idx; if (!app) { reg[idx].clear(); step(true); } for (long i = f; i <= t; ++i) { reg[idx].push_back(s.b[i - 1].t); step(i < t); } if (f > t) step(); }
  int exec_one() {
    if (++budget > 20000) return unk("budget");
    int r = address(); if (r) return r;
    int io = 0; r = exec_cmd(io); if (r) return r;
    if (io) return display(s.dot, s.dot, io);
    return 0;
  }
  char last_cmd = 0; set<char> seen; bool used_reg = false; unsigned wregs = 0;   // registers the command writes
  int exec_cmd(int &io) {
    rio = 0; ws(); int r; bool pre = false;
    if (c() == '<') { ++pos; rio |= 1; ridx = isdigit((unsigned char)c()) ? in[pos++] - '0' : 10; ws(); pre = true; }
    tilde = false; if (c() == '~' && !pre) { tilde = true; seen.insert('~'); ++pos; if (verbose || verb_unk) out_unknown = true; }   // with messages on, the name taken is shown too
    is_paging = paging; paging = false; is_unk = page_unk; page_unk = false;
    char k = c(); ++pos; last_cmd = k; seen.insert(k);
    if (pre && k != 'm' && k != 't' && k != '@') return err();
    if (tilde && !(k && strchr("EefrwW", k))) return err();
    long addr = 0; bool app = false;
    switch (k) {
    case '\n': {
      long a = s.dot + !global; bool had = addrs; start = 1; if (!addrs) { start = 1; end = a; }
      if ((start < 1 || start > s.n() || end < 1 || end > s.n())) return err();
      if (!global || had) return display(end, end, 0); return 0; }
    case 'a':
      if (!s.empty || !s.n()) { r = suffix(io); if (r) return r; if (!global) reset_undo(); step(); return append(end); }
      return unk("logically empty buffer");
    case 'c': {
      start += !start; end += !end; r = range(s.dot, s.dot); if (r) return r; r = suffix(io); if (r) return r;
      if (!global) reset_undo(); step(); long st = start; del(start, end); step(); r = append(s.dot); if (r) return r;
      if (s.dot < st) s.dot = std::min(s.n(), st); return 0; }
    case 'i':
      end += !end; r = suffix(io); if (r) return r; if (!global) reset_undo(); step(); { long e = end; r = append(e - 1); if (r) return r; if (s.dot == e - 1) s.dot = std::min(e, s.n()); } return 0;
    case 'd': {
      r = range(s.dot, s.dot); if (r) return r; r = suffix(io); if (r) return r; if (!global) reset_undo(); step();
      torn[10] = false; reg_write(10, start, end, false); del(start, end); long a = s.dot == s.n() ? 0 : s.dot + 1; if (a) s.dot = a; s.empty = !s.n(); if (s.empty) s.bin = false; step(); return 0; }
    case 'j': {
      if (!(addrs || s.n())) { start = end = 0; } else { r = range(s.dot, s.dot + 1); if (r) return r; }
      r = suffix(io); if (r) return r; if (!global) reset_undo(); step();
      if (start != end) { string t; for (long i = start; i <= end; ++i) t += *s.b[i - 1].t; long f = start; del(start, end); step(true); s.dot = f - 1; put(mk(t)); s.mod = true; step(); }
      return 0; }
    case 'k': {
      char m = c(); ++pos; r = suffix(io); if (r) return r; if (!(m >= 'a' && m <= 'z')) return err();
      marks[m - 'a'] = end == 0 ? 0 : s.b[end - 1].id; step(); return 0; }
    case 'p': case 'n': case 'l':
      if (!(addrs || s.n())) { start = end = 0; } else { r = range(s.dot, s.dot); if (r) return r; }
      r = suffix(io); if (r) return r; io |= k == 'p' ? F_P : k == 'n' ? F_N : F_L; { int i2 = io; io = 0; return display(start, end, i2); }
    case 'z': case 'Z': {
      if (global) return unk("paging in a global command");
      if (!addrs && (is_unk || (is_paging && fb_unk))) return unk("where paging left off");
      long a; if (k == 'z') { a = s.dot + 1; if (!is_paging && a > 1) --a; } else if (addrs) a = s.dot - 1; else { if (is_paging && page_addr < 0) return unk("where the last page began"); a = (is_paging ? page_addr : s.dot) - 1; if (!is_paging && a < s.n()) ++a; }
      start = 1; r = range(1, a); start = 1; if (r) return r;
      if (isdigit((unsigned char)c())) { long n = 0; while (isdigit((unsigned char)c())) n = n * 10 + (in[pos++] - '0'); if (n > 400) return unk("huge window"); if (n > 1) { ws_row = n; ws_n = true; ws_unk = ws_pend; } }
      r = suffix(io); if (r) return r; paging = true;
      if (ws_unk) return unk("window size");
      long f, t, L = s.n(), e = end, i2 = io; io = 0; bool fwd = k == 'z', again = false;
      if (fwd) {
        t = std::min(L, e + rows(0) - 2); f = e; bool full = t - f + 1 >= rows(1) - 1;
        if (full) t = f + rows(1) - 2;
        else if (t == L && f != 1) { again = true; f = std::max(1L, L - rows(1) + 2); f = std::max(f, L - rows(2) + 2); }
      } else {
        if (!addrs && prev1 < 0 && e == 1) return unk("last page shown");
        if (!addrs && prev1 == 1 && e == 1) return err();
        f = std::max(1L, e - rows(0) + 2); t = e; bool full = t - f + 1 >= rows(1) - 1;
        if (full) f = t - rows(1) + 2;
        else if (f == 1 && t != L) { again = true; t = std::min(L, (long)rows(1) - 1); t = std::min(t, (long)rows(2) - 1); }
      }
      for (long i = f; i <= t; ++i) if (!narrow(*s.b[i - 1].t, i2)) return unk("wide line on a page");
      for (long i = std::max(1L, e - 401); i <= std::min(L, e + 401); ++i) if (!narrow(*s.b[i - 1].t, i2)) return unk("wide line near a page");
      (void)again; display(f, t, i2); prev1 = page_addr = f; return 0; }
    case '=': r = suffix(io); if (r) return r; out += std::to_string(addrs ? end : s.n()) + "\n"; return 0;
    case 'm': case 't': {
      r = range(s.dot, s.dot); if (r) return r; r = dest(addr, app); if (r) return r;
      if (k == 'm' && start <= addr && addr < end) return err();
      r = suffix(io); if (r) return r; if (!global) reset_undo(); step();
      long f = start, t = end;
      if (rio == 0 && k == 'm') {
        if (global) { }
        vector<L> mv(s.b.begin() + (f - 1), s.b.begin() + t);
        for (auto &l : mv) for (size_t q = 0; global && q < queue.size(); ++q) if (queue[q] == l.id) { queue.erase(queue.begin() + q); break; }
        if (addr == f - 1 || addr == t) { s.dot = t; }
        else { s.b.erase(s.b.begin() + (f - 1), s.b.begin() + t); long at = addr > t ? addr - (t - f + 1) : addr; s.b.insert(s.b.begin() + at, mv.begin(), mv.end()); s.dot = addr + (f > addr ? t - f + 1 : 0); }
        s.mod = true; step(); return 0;
      }
      if (rio == 0) { vector<SP> cp; for (long i = f; i <= t; ++i) cp.push_back(s.b[i - 1].t); s.dot = addr; for (auto &x : cp) { put(x); s.mod = true; step(); } return 0; }
      if (rio == 1) { if (reg[ridx].empty()) { if (global || !macro.empty() || io) return unk("empty register"); alt_dot = s.dot; } bool last = addr == s.n(); s.dot = addr; for (auto &x : reg[ridx]) { put(x); s.mod = true; s.empty = false; if (last) s.nlapp = false; step(); } if (k == 'm') { reg[ridx].clear(); step(); } return 0; }
      if (rio == 2) { if (torn[widx] && app) return unk("register cut short by a failure"); torn[widx] = false; reg_write(widx, f, t, app); if (k == 'm') { del(f, t); step(); } return 0; }
      { vector<SP> src = reg[ridx]; wregs |= 1u << widx; if (ridx == widx) return unk("same register"); if (torn[widx] && app) return unk("register cut short by a failure"); torn[widx] = torn[ridx]; if (!app) { reg[widx].clear(); step(true); } for (auto &x : src) { reg[widx].push_back(x); step(true); } step(); if (k == 'm') { reg[ridx].clear(); step(); } return 0; }
    }
    case 's': return cmd_s();
    case 'u':
      if (addrs) return err(); r = suffix(io); if (r) return r; if (!uval) return err(); std::swap(s, u); if (umod_unk) { took_umod = bn_unk = true; umod_unk = false; } if (uids_unk) for (int &x : marks) if (x != -1) x = -2; if (global) queue.clear(); step(); return 0;
    case 'g': case 'v': case 'G': case 'V': return cmd_g(k);
    case 'x': if (addrs) return err(); r = suffix(io); if (r) return r; return next_key();
    case 'H': if (addrs) return err(); r = suffix(io); if (r) return r; verbose = !verbose; if (verbose || verb_unk) out_unknown = true; saw_h = true; return 0;
    case 'h': if (addrs) return err(); r = suffix(io); if (r) return r; out_unknown = true; return 0;
    case 'e': if (s.mod) return R_EMOD; return cmd_E();
    case 'E': return cmd_E();
    case 'r': return cmd_r();
    case 'w': case 'W': return cmd_w(k);
    case 'f': {
      if (addrs) return err(); char cy = list_dir(); if (!isspace((unsigned char)c())) return err(); ws(); if (cy && c() != '\n') return err();
      if (c() == '\n' && !cy) { ++pos; if (tilde && gl_unk) return unk("file list"); if (tilde && !gl.empty()) { for (auto &x : gl) out += x + "\n"; return 0; } } else { string fn; r = get_file(fn, cy, true, false); if (r) return r; name = fn; has_name = true; names.insert(fn), ever.insert(norm(fn)); }
      if (has_name) out += name + "\n"; return 0; }
    case 'q': case 'Q': if (addrs) return err(); r = suffix(io); if (r) return r; return k == 'q' && s.mod && !scripted ? R_EMOD : R_EOF;
    case '#': while (in[pos++] != '\n') ; return 0;
    case '!': {
      --pos; string fn; r = get_name(fn); if (r) return r; string cmd = fn.substr(1);
      if (!addrs) { int st = 0; out += run_shell(cmd, "", nullptr, &st); if (!scripted) out += "!\n"; shell_status = st; return 0; }
      if (s.n() || !(start == 0 && end == 0)) { start += !start; end += !end; r = range(s.dot, s.dot); if (r) return r; addrs = 1; } else addrs = 0;
      if (!global) reset_undo(); step(); long old = s.n(), size; string input = addrs ? wr_text(start, end - start + 1, size) : "";
      string o = run_shell(cmd, input); long at = addrs ? end : 0; long e0 = end;
      return filter(o, at, old, e0); }
    case '@': {
      r = range(s.dot, s.dot); if (r) return r; if (!rio) { rio |= 1; ridx = isdigit((unsigned char)c()) ? in[pos++] - '0' : 10; ws(); } else ws();
      if (c() != '\n') return err(); ++pos;
      if (macro.size() >= 50) return err();
      Src m; for (auto &l : reg[ridx]) m.lines.push_back(*l); macro.push_back(m); size_t depth = macro.size(); s.dot = end;
      string sin = in; size_t sp = pos; r = 0;
      for (;;) { string l; if (!getline(l)) break; in = l; pos = 0; r = exec_one(); if (r) break; }
      if (r == R_EOF) r = 0;
      if (r == 0) { macro.resize(depth - 1); in = sin; pos = sp; return 0; }
      macro.clear(); return r; }
    default: return k >= 'A' && strchr("HhPzZ[]", k) ? unk("unmodelled command") : err();
    }
  }
  int shell_status = 0;
  int filter(const string &o, long, long, long) {
    // the filtered lines are replaced by the filter's output
    long size = 0, f = start, t = end; long after = addrs ? f - 1 : 0;
    if (addrs) del(f, t); if (!s.n()) { s.bin = false; s.empty = true; } if (addrs) step();
    if (!scripted) {}
    long n0 = s.n(); rd_text(o, after, size, true); long got = s.n() - n0;
    if (got) s.mod = true; if (!scripted) out += std::to_string(size) + "\n";
    s.dot = addrs ? t + got - (t - f + 1) : end + got; step(); return 0;
  }
  // ---- one top-level command; lines of its text. Returns an R_ code after error handling.
  long alt_dot = -1;   // a register that was never used, or is empty: reading it may or may not move the current line
  int run(const vector<string> &lines) {
    alt_dot = -1; took_umod = false; kpath = {key}; feed = lines; fi = 0; starved = 0; out.clear(); out_unknown = may_epipe = listed = saw_h = false; verbose |= verb_unk; path.clear(); macro.clear(); global = gint = false; queue.clear(); wrote_path.clear(); did_shell = false; unknown_why.clear(); touched_files.clear(); names.clear(); versions.clear(); budget = 0; seen.clear(); wregs = 0;
    step(); string l; int r;
    if (!getline(l)) { r = s.mod && !scripted ? R_EMOD : R_EOF; }
    else if (l.back() != '\n') r = err();
    else { in = l; pos = 0; r = exec_one(); }
    macro.clear(); global = false;
    if (r == R_NEXT || r == R_PREV) {       // on to another file of the list
      if (gl_unk) r = unk("file list"); else if (gl.empty()) r = 0; else { in = r == R_NEXT ? "~En\n" : "~Ep\n"; pos = 0; addrs = 0; start = end = 0; int io = 0; step(); r = exec_cmd(io); }
    }
    last = r;
    if (r == R_UNK) return r;
    if (r == R_EOF) { exited = true; exit_code = status; step(); return r; }
    if (r == R_EMOD) { s.mod = false; out += "?\n"; step(); if (exit_on_error) { exited = true; exit_code = 2; } status = 3; return r; }
    if (r == R_ERR) { out += "?\n"; step(); if (exit_on_error) { exited = true; exit_code = 4; } status = 2; }
    else step();
    return r;
  }
  int last = 0;
};
