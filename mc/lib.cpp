#include "lib.hpp"
#include <algorithm>

namespace lib {
using namespace vos;

RunCfg cfgFor(vector<string> args, string in, string cwd) {
  RunCfg c;
  c.argv = std::move(args);
  c.in = std::move(in);
  c.cwd = std::move(cwd);
  return c;
}
Result nb(World &w, vector<string> args, const string &in, const Plan *plan, const string &cwd) {
  return run(w, cfgFor(std::move(args), in, cwd), plan);
}
static void listFiles(const FS &fs, int n, const string &p, std::set<string> &files, std::set<string> &dirs) {
  for (auto &e : fs.r(n).ents) {
    string q = p.empty() ? e.first : p + "/" + e.first;
    if (fs.r(e.second).type == T_DIR) { dirs.insert(q); listFiles(fs, e.second, q, files, dirs); }
    else files.insert(q);
  }
}
string extraFiles(const FS &fs, const string &r) {
  std::set<string> files, dirs, want{"config"}, wdirs;
  int n = fs.lookup(r);
  if (n < 0) return "repository missing";
  listFiles(fs, n, "", files, dirs);
  if (fs.exists(r + "/metadata")) want.insert("metadata");
  repo::Meta m;
  string err;
  string mb = repo::metaBytes(fs, r);
  if (!mb.empty()) {
    if (!repo::decode(mb, m, err)) return "metadata unreadable: " + err;
    map<string, repo::State> bl;
    repo::blobs(m, bl);
    for (auto &b : bl) {
      want.insert(b.first);
      string d = spec::parentOf(b.first);
      wdirs.insert(d);
      wdirs.insert(spec::parentOf(d));
    }
  }
  for (auto &f : files) if (!want.count(f)) return "unreferenced item in the repository: " + f;
  for (auto &f : dirs) if (!wdirs.count(f)) return "unreferenced directory in the repository: " + f;
  for (auto &f : want) if (!files.count(f) && f != "config") return "missing in the repository: " + f;
  return "";
}
string healthy(const FS &fs, const string &r, repo::View *out, bool exact) {
  repo::View v;
  string e = repo::load(fs, r, v);
  if (out) *out = v;
  if (e.empty() && exact) e = extraFiles(fs, r);
  return e;
}

static repo::LoadOpt loadOpt(const World &w) {
  repo::LoadOpt o;
  o.checkHash = !w.weakHash;
  return o;
}
Sim::Sim() { w.fs.mkdir(r); }
void Sim::config(const string &text) {
  cfgText = text;
  cfg = spec::parse(text);
  w.fs.mkfile(r + "/config", text);
}
vector<string> reportLines(const string &out) {
  vector<string> v;
  for (auto &l : spec::splitLines(out)) {
    if (l.empty()) break;
    v.push_back(l);
  }
  return v;
}
string linesDiff(vector<string> a, vector<string> b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a == b) return "";
  string s;
  vector<string> x, y;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x));
  std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  for (auto &l : x) s += "expected line: " + l + "\n";
  for (auto &l : y) s += "printed line:  " + l + "\n";
  return s;
}
string reportDiff(const spec::BackupResult &b, const Result &r) {
  string d = linesDiff(b.lines, reportLines(r.out));
  if (!d.empty()) return d;
  bool asked = r.out.find("proceed? (y/n)") != string::npos;
  if (asked != b.changes) return b.changes ? "did not ask for consent\n" : "asked for consent without changes\n";
  if (!b.stats.empty() && r.out.find("\n" + b.stats + "\n") == string::npos) return "expected totals: " + b.stats + "\n";
  if (b.stats.empty() && (r.out.find("\nNew: ") != string::npos || r.out.find("\nRemoved: ") != string::npos ||
                          r.out.find("\nLost: ") != string::npos))
    return "unexpected totals\n";
  return "";
}
string restoredDiff(const spec::RestoreResult &m, const FS &after, const string &r) {
  FS a = m.fs, b = after;
  for (auto &p : m.loose) {
    int x = a.lookup(p), y = b.lookup(p);
    if (x >= 0 && y >= 0 && a.r(x).type == T_DIR && b.r(y).type == T_DIR) b.w(y).mtime = a.r(x).mtime;
  }
  return diff(a, b, "/", D_ALL, [&](const string &p) { return p == r; });
}
bool restore(mc::Ctx &c, World &w, const string &r, const repo::View &v, uint64_t id, const string &path, int flags,
             Result *out, const RunCfg *cfg) {
  spec::RestoreResult m = spec::restore(v, id, path, w.fs);
  FS before = w.fs;
  Result R = cfg ? run(w, *cfg) : nb(w, {r, std::to_string(id), path});
  if (out) *out = R;
  c.trans();
  c.eval();
  auto ctxt = [&] {
    auto sk = [&](const string &p) { return p == r; };
    return "\nrestore " + std::to_string(id) + " " + path + "\nrecorded:\n" + v.str() + "before:\n" + dump(before, "/", D_ALL, sk) +
           "after:\n" + dump(w.fs, "/", D_ALL, sk) + "expected:\n" + dump(m.fs, "/", D_ALL, sk) + show(R);
  };
  if (c.verbose) c.log("---- " + ctxt());
  if (R.kind != E_EXIT) c.fail("restore-crash", ctxt());
  if (m.ok != R.ok()) {
    if (flags & R_STATE) c.fail("restore-status", (m.ok ? "restore failed" : "restore succeeded although it must be refused: " + m.why) + ctxt());
    return false;
  }
  if (flags & R_REPO) {
    string d = diff(before, w.fs, r, D_ALL & ~D_DIRMTIME);
    if (!d.empty()) c.fail("restore-changed-repository", d + ctxt());
  }
  if (!m.ok) {
    string d = diff(before, w.fs, "/", D_ALL & ~D_DIRMTIME);
    if (!d.empty()) c.fail("refused-restore-changed", d + ctxt());
    return false;
  }
  if (flags & R_STATE) {
    string d = restoredDiff(m, w.fs, r);
    if (!d.empty()) c.fail("restored-state", d + ctxt());
  }
  if (flags & R_REPORT) {
    string d = linesDiff(m.lines, reportLines(R.out));
    bool asked = R.out.find("restore? (y/n)") != string::npos;
    if (d.empty() && asked != m.changes) d = m.changes ? "did not ask for consent" : "asked for consent without changes";
    if (!d.empty()) c.fail("restore-report", d + ctxt());
  }
  c.validated();
  return true;
}
string warnDiff(const spec::BackupResult &b, const Result &r) { return linesDiff(b.warnings, spec::splitLines(r.err)); }

uint64_t Sim::canon(const string &extra) const {
  auto t = spec::times(tree);
  map<int64_t, int> rank;
  for (size_t i = 0; i < t.size(); i++) rank[t[i]] = (int)i;
  auto f = spec::flatten(tree);
  for (auto &p : f) for (auto &h : p.second.hist) h.time = rank[h.time];
  return hash64(spec::viewStr(f) + "|" + extra);
}
repo::View Sim::view(mc::Ctx &c) {
  repo::View v;
  string e = repo::load(w.fs, r, v, loadOpt(w));
  if (!e.empty()) c.fail("unloadable", e + "\n" + dump(w.fs, r));
  return v;
}
void Sim::backup(mc::Ctx &c, int flags, const string &tag) {
  uint64_t from = canon();
  n++;
  w.now = 1700000000 + n * 1000;
  when.push_back(w.now);
  seen.push_back(w.fs);
  FS before = w.fs;
  FS locked = w.fs;                        // what the run sees, should the repository itself be selected
  if (!locked.exists(r + "/lockfile")) {
    locked.mkfile(r + "/lockfile", "", 0200, w.now);
    locked.setmtime(r, w.now);
  }
  last = spec::backup(tree, cfg, locked, w.now);
  lastRun = nb(w, {r});
  const Result &R = lastRun;
  c.trans();
  c.eval();
  if (c.verbose) {
    c.log("---- backup " + std::to_string(n) + " with config:\n" + cfgText + "file system:\n" + dump(before, "/", D_ALL, [&](const string &p) { return p == r; }) +
          show(R));
  }
  auto ctxt = [&] { return "config:\n" + cfgText + "\nfile system:\n" + dump(before, "/", D_ALL, [&](const string &p) { return p == r; }) + "\nbefore:\n" + spec::viewStr(spec::flatten(tree)) + show(R); };
  if (R.kind != E_EXIT) c.fail("crash" + tag, "backup did not end normally\n" + ctxt());
  bool wantOk = cfg.ok && last.ok;
  if (wantOk != R.ok()) {
    if (flags & (O_STATUS | O_VIEW | O_FILES)) c.fail("status" + tag, (wantOk ? "backup failed\n" : "backup succeeded although it must be refused: " + last.why + "\n") + ctxt());
    throw mc::Stop();
  }
  if (!wantOk) {
    if (flags & O_VIEW) { string d = diff(before, w.fs, "/", D_ALL & ~D_DIRMTIME); if (!d.empty()) c.fail("refused-but-changed" + tag, d + ctxt()); }
    throw mc::Stop();
  }
  if (flags & O_REPORT) { string d = reportDiff(last, R); if (!d.empty()) c.fail("report" + tag, d + ctxt()); }
  if (flags & O_WARN) { string d = warnDiff(last, R); if (!d.empty()) c.fail("warnings" + tag, d + ctxt()); }
  if (flags & O_OUTSIDE) { string d = diff(before, w.fs, "/", D_ALL | D_NS, [&](const string &p) { return p == r; }); if (!d.empty()) c.fail("outside" + tag, d + ctxt()); }
  repo::View v;
  string e = repo::load(w.fs, r, v, loadOpt(w));
  if (!e.empty()) {
    c.fail("unloadable" + tag, e + "\n" + ctxt());
  }
  if (last.changes) {
    string d = spec::compare(last.next, v);
    // (otherwise the caller judges what follows by what is really recorded)
    if (!d.empty() && (flags & O_VIEW)) c.fail("recorded" + tag, d + ctxt());
    tree = last.next;
  } else {
    // nothing to report: the repository stays as it is
    string d = diff(before, w.fs, r, D_ALL & ~D_DIRMTIME);
    if (!d.empty() && (flags & O_VIEW)) c.fail("quiet-but-changed" + tag, d + ctxt());
  }
  c.validated();
  if (flags & O_FILES) { string d = extraFiles(w.fs, r); if (!d.empty()) c.fail("files" + tag, d + "\n" + ctxt()); }
  c.state(canon());
  if (last.changes && c.fresh()) c.nontrivial(canon(std::to_string(from)));
}
}  // namespace lib
