#include "driver.h"
#include <sstream>
string esc(const string &s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
bool unesc(const char *&p, string &o) {
  while (*p == ' ') ++p; if (*p != '"') return false; ++p; o.clear();
  while (*p && *p != '"') { if (*p == '\\') { ++p; if (*p == 'n') o += '\n'; else if (*p == 't') o += '\t'; else if (*p == 'x') { char h[3] = {p[1], p[2], 0}; o += (char)strtol(h, 0, 16); p += 2; } else o += *p; ++p; } else o += *p++; }
  if (*p != '"') return false; ++p; return true;
}
static int opi(const string &s) { for (int i = 0; i < OP_MAX; ++i) if (s == op_name[i]) return i; return 0; }
static int cli(const string &s) { for (int i = 0; i < CL_MAX; ++i) if (s == cls_name[i]) return i; return 0; }
static const char *kn[FK_MAX] = {"none", "errno", "short", "signal", "full", "actor", "kill", "sigall", "winch"};
static string ft(const Fault &f) { char b[160]; snprintf(b, 160, "fault %d %s %s %d %s %ld%s\n", f.cmd, op_name[f.op], cls_name[f.cls], f.nth, kn[f.kind], f.arg, f.sticky ? " sticky" : ""); return b; }
string Trace::text() const {
  std::ostringstream o; o << "edsim-trace 1\nseed " << seed << "\nprofile " << profile << "\nargv"; for (auto &a : argv) o << " " << esc(a); o << "\n";
  for (auto &e : env) o << "env " << esc(e.first) << " " << esc(e.second) << "\n";
  for (auto &k : keys) o << "key " << esc(k) << "\n";
  o << "opt blksize " << blksize << "\nopt tty " << tty << "\nopt seekable " << seekable << "\nopt space " << space << "\nopt tspace " << tspace << "\nopt start_sched " << start_sched << "\nopt dumb " << dumb << "\n";
  for (auto &f : files) { char b[16]; snprintf(b, 16, "%o", f.mode); o << "file " << esc(f.path) << " " << b << " " << esc(f.data) << "\n"; }
  for (auto &f : start_faults) o << ft(f);
  for (auto &c : cmds) { o << "cmd " << c.uid << " " << c.sched; for (auto &l : c.lines) o << " " << esc(l); o << "\n"; for (auto &f : c.faults) o << ft(f); }
  return o.str();
}
bool Trace::parse(const string &t) {
  *this = Trace(); std::istringstream in(t); string l; bool ok = false;
  while (std::getline(in, l)) {
    std::istringstream w(l); string k; w >> k; string a, b, c; const char *p = l.c_str() + std::min(l.size(), k.size());
    if (k == "edsim-trace") ok = true;
    else if (k == "seed") w >> seed; else if (k == "profile") w >> profile;
    else if (k == "argv") { while (unesc(p, a)) argv.push_back(a); }
    else if (k == "env") { if (unesc(p, a) && unesc(p, b)) env[a] = b; }
    else if (k == "key") { if (unesc(p, a)) keys.push_back(a); }
    else if (k == "opt") { long v; w >> a >> v; if (a == "blksize") blksize = v; else if (a == "tty") tty = v; else if (a == "seekable") seekable = v; else if (a == "space") space = v; else if (a == "tspace") tspace = v; else if (a == "dumb") dumb = v; else if (a == "start_sched") { start_sched = strtoull(l.c_str() + l.rfind(' ') + 1, 0, 10); } }
    else if (k == "file") { TFile f; if (!unesc(p, f.path)) return false; f.mode = strtol(p, (char **)&p, 8); if (!unesc(p, f.data)) return false; files.push_back(f); }
    else if (k == "cmd") { Cmd x; char *e; x.uid = strtol(p, &e, 10); x.sched = strtoull(e, &e, 10); p = e; while (unesc(p, a)) x.lines.push_back(a); cmds.push_back(x); }
    else if (k == "fault") { Fault f; string kd, st; w >> f.cmd >> a >> b >> f.nth >> kd >> f.arg >> st; f.op = opi(a); f.cls = cli(b); f.sticky = st == "sticky"; for (int i = 0; i < FK_MAX; ++i) if (kd == kn[i]) f.kind = i;
      if (f.cmd == 0) start_faults.push_back(f); else for (auto &x : cmds) if (x.uid == f.cmd) x.faults.push_back(f); }
  }
  return ok;
}
