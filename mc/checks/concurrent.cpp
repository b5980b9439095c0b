// C16 (several processes on one repository), C17 (files changing while a backup runs).
#include "../faults.hpp"
#include <algorithm>
using namespace flt;

// ------------------------------------------------------------------ C16
struct Cmd { const char *name; vector<string> args; };
static const vector<Cmd> cmds = {{"backup", {"/r"}}, {"gc", {"/r", "gc"}}, {"integrity", {"/r", "integrity"}}, {"restore", {"/r", "0"}}};

static string worldView(const World &w, const string &r, int64_t base) {
  string e;
  string v = w.fs.exists(r + "/metadata") ? repoView(w.fs, r, e, base) : "-";
  return v + "|" + e + "|" + lib::extraFiles(w.fs, r) + "|" + dump(w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME, [&](const string &p) { return p == r; });
}
// Runs the chosen commands with the given kill (process, event) under a schedule with up to B preemptions.
// With "moving", the backed up files change as soon as the first process is done (removes or releases its lock file).
static void concurrent(mc::Ctx &c, int nproc, int B, bool kills, bool moving = false) {
  Sim s;
  int st = c.pick("repository", {"fresh", "one-backup", "garbage"});
  s.config("[track]\n/s/d\n");
  s.w.fs.mkdir("/s", 0755, 5000);
  if (st) { applyState(s.w.fs, 9); s.backup(c, 0); }
  applyState(s.w.fs, st == 1 ? 8 : 5);
  if (st == 2) {
    s.w.fs.mkfile(s.r + "/aa/bb/junk", "unreferenced");
    s.w.fs.mkfile(s.r + "/tmp-file", "left");
    s.w.fs.mkfile(s.r + "/lockfile", "");
  }
  vector<int> which;
  for (int i = 0; i < nproc; i++) {
    // processes are interchangeable: their commands in ascending order
    int lo = which.empty() ? 0 : which.back();
    which.push_back(lo + c.choose(4 - lo, "command"));
    if (nproc > 2 && !c.thorough && i > 0) c.require(which[i] <= 1 || which[i] == which[i - 1]);
    c.note(cmds[which[i]].name);
  }
  vos::Multi m;
  World w = s.w;
  w.now += 1000;
  for (int i = 0; i < nproc; i++) m.procs.push_back(cfgFor(cmds[which[i]].args));
  struct Ev { int proc; Event e; };
  vector<Ev> trace;
  vector<int> waiting(nproc, 0);
  int killProc = -1, killAt = -1;
  m.plans.resize(nproc);
  bool moved = false;
  World *moveIn = &w;
  auto move = [](FS &fs) {
    int d = fs.lookup("/s/d", false);
    if (d < 0 || fs.r(d).type != vos::T_DIR) { fs.rm("/s/d"); fs.mkdir("/s/d", 0755, 8000); }
    fs.rm("/s/d/c");
    fs.mkfile("/s/d/c", "changed after the first process, and long enough", 0640, 8001);
  };
  for (int i = 0; i < nproc; i++)
    m.plans[i].hook = [&, i](const Event &e) {
      trace.push_back({i, e});
      if (moving && !moved && (e.op == vos::S_UNLOCK || (e.op == vos::S_UNLINK && e.path == "/r/lockfile"))) { moved = true; move(moveIn->fs); }
      Act a;
      if (i == killProc && e.idx == killAt) a.k = Act::KillBefore;
      return a;
    };
  // Reads of sources and the terminal commute with what other processes do.
  m.visible = [&, coarse = nproc > 2 && !c.thorough](const Event &e) {
    if (e.op == vos::S_LOCK || e.op == vos::S_UNLOCK) return true;
    if (e.op == vos::S_TTYREAD) return true;
    if (e.op == vos::S_TTYWRITE || e.op == vos::S_TIME || e.op == vos::S_LSEEK) return false;
    if (e.path.find("lockfile") != string::npos) return true;
    if (coarse) return e.op == vos::S_RENAME || e.op == vos::S_UNLINK || e.path == "/r/metadata";
    return e.mutates || e.path.compare(0, 2, "/r") == 0;
  };
  if (kills) {
    killProc = c.choose(nproc, "killed");
    killAt = c.choose(c.thorough ? 120 : 60, "at");
  }
  // the order in which processes start when nobody is running, and up to B switches between running ones
  vector<int> order;
  {
    vector<int> left;
    for (int i = 0; i < nproc; i++) left.push_back(i);
    while (!left.empty()) { int q = c.choose((int)left.size(), "start"); order.push_back(left[q]); left.erase(left.begin() + q); }
  }
  struct Sw { int after, to; };                  // steps since the last switch, number among the others
  vector<Sw> sw;
  vector<int> tail;                              // for every step after the last switch: processes to switch to
  auto simulate = [&](World &q) {
    size_t k = 0;
    tail.clear();
    trace.clear();
    moved = false;
    moveIn = &q;
    m.sched = [&](int, const vector<int> &en, int last) {
      if (std::find(en.begin(), en.end(), last) == en.end()) {
        for (int o : order) if (std::find(en.begin(), en.end(), o) != en.end()) return o;
        return en[0];
      }
      if (en.size() < 2) return last;
      tail.push_back((int)en.size() - 1);
      if (k < sw.size() && (int)tail.size() == sw[k].after) {
        vector<int> oth;
        for (int e : en) if (e != last) oth.push_back(e);
        tail.clear();
        return oth[sw[k++].to];
      }
      return last;
    };
    return vos::runMulti(q, m);
  };
  const World start = w;
  vector<Result> R = simulate(w);
  for (int i = 0; i < B; i++) {
    int a = c.choose((int)tail.size() + 1);
    if (a == 0) break;
    sw.push_back({a, c.choose(tail[a - 1])});
    w = start;
    R = simulate(w);
  }
  if (kills) c.require(R[killProc].kind == vos::E_KILLED);
  c.trans();
  c.eval();
  // no two processes are at work at the same time
  auto ctxt = [&] {
    string t;
    for (auto &e : trace)
      if (m.visible(e.e)) t += std::to_string(e.proc) + " " + vos::opName[e.e.op] + " " + e.e.path + " " + e.e.path2 + "\n";
    for (int i = 0; i < nproc; i++) t += "process " + std::to_string(i) + " (" + cmds[which[i]].name + "): " + show(R[i]);
    return t + "repository:\n" + dump(w.fs, "/r");
  };
  if (c.verbose) c.log(ctxt());
  vector<int> ok;
  for (int i = 0; i < nproc; i++) {
    c.check(R[i].kind == vos::E_EXIT || (i == killProc && R[i].kind == vos::E_KILLED), "crash", ctxt());
    if (R[i].kind == vos::E_KILLED) continue;
    if (R[i].code == 0) ok.push_back(i);
    else {
      bool busy = R[i].err.find("already being used") != string::npos;
      // without a backup there is nothing to check or restore yet
      bool none = st == 0 && which[i] != 0 && R[i].err.find("no metadata") != string::npos;
      c.check(busy || none, "failed", "process " + std::to_string(i) + " failed for another reason\n" + ctxt());
      for (auto &e : trace)
        if (e.proc == i && e.e.mutates && e.e.path.find("lockfile") == string::npos)
          c.fail("refused-but-changed", string(vos::opName[e.e.op]) + " " + e.e.path + "\n" + ctxt());
    }
  }
  // working phases: from the first read or change of the repository after locking to the last one
  {
    vector<size_t> from(nproc, SIZE_MAX), to(nproc, 0);
    vector<char> locked(nproc, 0);
    for (size_t i = 0; i < trace.size(); i++) {
      auto &t = trace[i];
      bool worked = t.proc == killProc || std::find(ok.begin(), ok.end(), t.proc) != ok.end();
      if (!worked) continue;
      if (t.e.op == vos::S_LOCK) { locked[t.proc] = 1; continue; }
      if (t.e.op == vos::S_UNLOCK) locked[t.proc] = 0;
      bool work = locked[t.proc] && t.e.path.find("lockfile") == string::npos && (t.e.path.compare(0, 2, "/r") == 0 || t.e.mutates);
      if (!work) continue;
      from[t.proc] = std::min(from[t.proc], i);
      to[t.proc] = i;
    }
    for (int a = 0; a < nproc; a++)
      for (int b = 0; b < nproc; b++)
        if (a != b && from[a] != SIZE_MAX && from[b] != SIZE_MAX && a != killProc && b != killProc)
          c.check(to[a] < from[b] || to[b] < from[a], "at-work-together", "processes " + std::to_string(a) + " and " + std::to_string(b) + "\n" + ctxt());
  }
  c.note(std::to_string(sw.size()) + " switches");
  c.check(w.locks.empty(), "lock-left", ctxt());
  if (killProc < 0) c.check(!w.fs.exists("/r/lockfile") || ok.empty(), "lockfile-left", ctxt());
  // some order of the successful commands leads to the same
  string got = worldView(w, "/r", s.w.now);
  string e;
  std::set<string> want;
  vector<vector<int>> sets = {ok};
  if (killProc >= 0) {
    // what was killed counts as not run, run, or partly run: then only the repository's state counts
    vector<int> b = ok;
    b.push_back(killProc);
    std::sort(b.begin(), b.end());
    sets.push_back(b);
  }
  for (auto set : sets) {
    std::sort(set.begin(), set.end());
    do {
      World q = s.w;
      q.now += 1000;
      bool first = moving;
      for (int i : set) { Result r = vos::run(q, m.procs[i]); if (first) move(q.fs); first = false; if (r.kind != vos::E_EXIT) c.fail("crash", show(r)); }
      if (killProc < 0) want.insert(worldView(q, "/r", s.w.now));
      else { string er; want.insert(q.fs.exists("/r/metadata") ? repoView(q.fs, "/r", er, s.w.now) : "-"); }
    } while (std::next_permutation(set.begin(), set.end()));
  }
  if (killProc >= 0) {
    got = w.fs.exists("/r/metadata") ? repoView(w.fs, "/r", e, s.w.now) : "-";
    c.check(e.empty(), "damaged-repository", e + "\n" + ctxt());
  }
  // (a backup after a restore that was killed records whatever that left behind)
  bool mixed = false;
  for (int i : ok) mixed |= killProc >= 0 && which[killProc] == 3 && which[i] == 0;
  if (!mixed) c.check(want.count(got) > 0, "no-sequential-order", "result:\n" + got + "\npossible:\n" + *want.begin() + "\n" + ctxt());
  // and the repository is free again
  if (killProc >= 0 || c.thorough) {
    World q = w;
    q.now += 10;
    Result r = nb(q, {"/r"});
    c.check(r.ok(), "blocked-afterwards", ctxt() + show(r));
    if (r.out.find("proceed") != string::npos) { string h = healthy(q.fs, "/r"); c.check(h.empty(), "damaged-afterwards", h + ctxt()); }
  }
  string sig;
  for (auto &t : trace) if (t.e.path.find("lockfile") != string::npos || t.e.op == vos::S_LOCK || t.e.op == vos::S_UNLOCK) sig += std::to_string(t.proc) + vos::opName[t.e.op];
  c.state(vos::hash64(sig, st));
  if (ok.size() < (size_t)nproc || nproc > 1) c.nontrivial(vos::hash64(sig, st));
  c.validated();
}
MC_CHECK(C16, "model_checking") {
  job.rule("All interleavings with up to 2 (thorough 3) preemptions of 2, and of 3 processes (backup, gc, integrity, restore) started on the same repository (fresh, with a backup, with garbage and a stale lock file); "
           "every operation on the repository, the locks and the terminal is a possible switching point; the same with the backed up files changing as soon as the first process is done, and with one process killed at every operation. Oracle: mutual exclusion of the working phases, refusals change nothing, "
           "the final repository and files equal those of some sequential order of the successful commands, no lock and no lock file remain. Non-trivial: a distinct order of operations on locks and lock files.");
  job.assume("Operations on the repository take effect one at a time, in the order issued; advisory POSIX record locks as on local file systems.");
  job.explore("two-processes", [=](mc::Ctx &c) { concurrent(c, 2, c.thorough ? 3 : 2, false); });
  job.explore("two-processes-and-changing-files", [=](mc::Ctx &c) { concurrent(c, 2, c.thorough ? 3 : 2, false, true); });
  job.explore("three-processes", [=](mc::Ctx &c) { concurrent(c, 3, c.thorough ? 3 : 2, false); });
  job.explore("one-killed", [=](mc::Ctx &c) { concurrent(c, 2, c.thorough ? 2 : 1, true); });
}

// ------------------------------------------------------------------ C17
// What somebody else does to the files while a backup runs.
static const char *const mutName[] = {
    "append",        "append-keep-time", "truncate",      "empty",         "rewrite",     "rewrite-keep-time", "tail-keep-time", "chmod",        "chown",      "touch",
    "remove",        "replace-by-new",   "replace-by-link", "replace-by-dir", "exchange",   "rename-away",       "relink",         "retarget-same-length", "create-here", "create-in-sub",
    "remove-sub",    "sub-becomes-file", "sub-becomes-link", "swap-dirs",  "small-keep-time", "small-grows",  "small-shrinks",  "remove-all"};
static const int nMut = 28;
static bool mutate(FS &fs, int k) {
  const string f = "/s/d/f", g = "/s/d/g", l = "/s/d/l", sub = "/s/d/sub";
  auto file = [&](const string &p) { int n = fs.lookup(p, false); return n >= 0 && fs.r(n).type == vos::T_FILE; };
  auto dirT = [&](const string &p) { int n = fs.lookup(p); if (n >= 0) fs.w(n).mtime += 7; };
  if (k <= 9 && !file(f)) return false;
  switch (k) {
  case 0: { auto &i = fs.w(fs.lookup(f)); i.data += "appended"; i.mtime += 50; return true; }
  case 1: fs.w(fs.lookup(f)).data += "appended"; return true;
  case 2: { auto &i = fs.w(fs.lookup(f)); i.data.resize(i.data.size() / 2); i.mtime += 50; return true; }
  case 3: { auto &i = fs.w(fs.lookup(f)); i.data.clear(); return true; }
  case 4: { auto &i = fs.w(fs.lookup(f)); for (auto &x : i.data) x ^= 1; i.mtime += 50; return true; }
  case 5: { auto &i = fs.w(fs.lookup(f)); for (auto &x : i.data) x ^= 1; return true; }
  case 6: { auto &i = fs.w(fs.lookup(f)); i.data.back() ^= 1; return true; }
  case 7: fs.w(fs.lookup(f)).perm ^= 0111; return true;
  case 8: { auto &i = fs.w(fs.lookup(f)); i.uid += 5; i.gid += 5; return true; }
  case 9: fs.w(fs.lookup(f)).mtime += 50; return true;
  case 10: if (!fs.exists(f)) return false; fs.rm(f); dirT("/s/d"); return true;
  case 11: if (!file(f)) return false; { string d = fs.content(f); int64_t t = fs.r(fs.lookup(f)).mtime; fs.rm(f); std::reverse(d.begin(), d.end()); fs.mkfile(f, d, 0600, t, 1, 2); dirT("/s/d"); } return true;
  case 12: if (!file(f)) return false; { string d = fs.content(f); int64_t t = fs.r(fs.lookup(f)).mtime; fs.rm(f); for (auto &x : d) x ^= 3; fs.mkfile("/o/f", d, 0600, t, 1, 2); fs.mklink(f, "/o/f"); dirT("/s/d"); } return true;
  case 13: if (!file(f)) return false; fs.rm(f); fs.mkdir(f, 0700, 77); fs.mkfile(f + "/x", "x", 0600, 78); return true;
  case 14: { if (!file(f) || !file(g)) return false; fs.rename(f, "/s/d/t"); fs.rename(g, f); fs.rename("/s/d/t", g); dirT("/s/d"); return true; }
  case 15: if (!fs.exists(f) || fs.exists("/s/d/f2")) return false; fs.rename(f, "/s/d/f2"); dirT("/s/d"); return true;
  case 16: if (!fs.exists(l)) return false; fs.rm(l); fs.mklink(l, "somewhere/else/now"); dirT("/s/d"); return true;
  case 17: if (!fs.exists(l)) return false; fs.rm(l); fs.mklink(l, "TARGET"); return true;
  case 18: if (!fs.exists("/s/d")) return false; fs.mkfile("/s/d/aa", "created, and long enough for a file", 0644, 90); fs.mkfile("/s/d/zz", "created, and long enough for a file", 0644, 91); dirT("/s/d"); return true;
  case 19: if (!fs.exists(sub) || file(sub)) return false; fs.mkfile(sub + "/new", "created in sub", 0644, 92); dirT(sub); return true;
  case 20: if (!fs.exists(sub)) return false; fs.rm(sub); dirT("/s/d"); return true;
  case 21: if (!fs.exists(sub) || file(sub)) return false; fs.rm(sub); fs.mkfile(sub, "sub is a file now, long enough", 0644, 93); return true;
  case 22: if (!fs.exists(sub) || file(sub)) return false; fs.rm(sub); fs.mkfile("/o/d/h", "h reached through a link to a directory", 0644, 94); fs.mklink(sub, "/o/d"); return true;
  case 23: if (!fs.exists(sub) || file(sub)) return false; fs.rename("/s/d", "/s/e"); fs.rename("/s/e/sub", "/s/d"); fs.rename("/s/e", "/s/d/sub"); return true;
  case 24: if (!file(g) || fs.content(g).empty()) return false; fs.w(fs.lookup(g)).data.back() ^= 1; return true;
  case 25: if (!file(g)) return false; fs.w(fs.lookup(g)).data += " and now long enough for a file"; return true;
  case 26: if (!file(g)) return false; fs.w(fs.lookup(g)).data.resize(1); return true;
  case 27: if (!fs.exists("/s/d")) return false; fs.rm("/s/d"); return true;
  }
  return false;
}
// The states a path had at some instant.
struct Instants {
  struct P { std::set<string> contents, targets, attrs; std::set<int> kinds; bool steady = true; string first; };
  map<string, P> at;
  int n = 0;
  void look(const FS &fs, const string &p, int ino) {
    const vos::Inode &i = fs.r(ino);
    P &q = at[p];
    (void)q;
    if (i.type == vos::T_DIR) for (auto &e : i.ents) look(fs, p + "/" + e.first, e.second);
  }
  static string attr(const vos::Inode &i) { return mc::fmt("%d %o %u %u %lld", i.type, i.type == vos::T_LINK ? 0 : i.perm, i.uid, i.gid, i.type == vos::T_LINK ? 0LL : (long long)i.mtime); }
  // Notes one instant for every path seen so far or existing now.
  void note(const FS &fs) {
    int d = fs.lookup("/s", false);
    if (d >= 0) look(fs, "/s", d);
    for (auto &a : at) {
      P &q = a.second;
      int l = fs.lookup(a.first, false), f = fs.lookup(a.first);
      string sig = l < 0 ? "-" : attr(fs.r(l)) + fs.r(l).data;
      if (n == 0) q.first = sig;
      else if (q.first != sig) q.steady = false;
      for (int i : {l, f}) {
        if (i < 0) { q.kinds.insert(repo::K_NONE); continue; }
        const vos::Inode &x = fs.r(i);
        int k = x.type == vos::T_FILE ? repo::K_FILE : x.type == vos::T_DIR ? repo::K_DIR : x.type == vos::T_LINK ? repo::K_LINK : repo::K_NONE;
        q.kinds.insert(k);
        q.attrs.insert(attr(x));
        if (x.type == vos::T_FILE) q.contents.insert(x.data);
        if (x.type == vos::T_LINK) q.targets.insert(x.data);
      }
    }
    n++;
  }
};
MC_CHECK(C17, "fault_enumeration") {
  job.rule("A backup (first, or of changed files; under track, mirror and copy) during which somebody else changes the files: every one of 28 changes at every operation of the run, and every pair of changes at every pair of operations "
           "(quick: a subset of the changes). Oracle: on failure the repository is the old one; on success it loads, all contents match their hashes, everything recorded was so at some instant of the run, and paths that never changed are recorded exactly; "
           "afterwards the backup succeeds and records the final files. Non-trivial: a distinct recorded repository or failure.");
  job.assume("Single reads are atomic with respect to the changes; FIFOs put in place of files are not among the changes (opening one blocks until somebody writes to it).");
  auto body = [](mc::Ctx &c, int nmut) {
    Sim s;
    static const char *pol[] = {"track", "mirror", "copy"};
    int p = c.choose(nmut > 1 && !c.thorough ? 1 : 3);
    s.config(string("[") + pol[p] + "]\n/s/d\n");
    c.note(pol[p]);
    FS &fs = s.w.fs;
    s.w.blksize = 32;
    auto build = [&](int v) {
      fs.rm("/s");
      fs.mkdir("/o", 0755, 1);
      fs.mkdir("/s", 0755, 2);
      fs.mkdir("/s/d", 0755, 3 + v);
      fs.mkfile("/s/d/f", string(50, v ? 'f' : 'o') + "-contents over several blocks-" + string(20, 'F'), 0644, 100 + v);
      fs.mkfile("/s/d/g", v ? "small one" : "small two", 0644, 110 + v);
      fs.mkfile("/s/d/keep", "never touched by anybody, and long", 0640, 120, 3, 4);
      fs.mklink("/s/d/l", v ? "target" : "earlier");
      fs.mkdir("/s/d/sub", 0700, 130 + v);
      fs.mkfile("/s/d/sub/h", v ? "h, content of a file in a directory" : "h, earlier content of the same file", 0600, 140 + v);
      fs.mkfile("/s/d/sub/i", "i, an empty one is next", 0600, 150);
      fs.mkfile("/s/d/sub/j", "", 0600, 160);
    };
    int mode = c.pick("repository", {"fresh", "one-backup", "touched"});
    if (mode) { build(0); s.backup(c, 0); }
    build(mode == 2 ? 0 : 1);
    if (mode == 2) { s.w.fs.w(s.w.fs.lookup("/s/d/f")).mtime += 9; s.w.fs.w(s.w.fs.lookup("/s/d/sub/h")).mtime += 9; s.w.fs.mkfile("/s/d/k", "one new file, long enough", 0600, 5); }
    string e, oldView = mode ? repoView(s.w.fs, s.r, e, s.w.now) : "-";
    World start = s.w;
    start.now += 1000;
    // changes commute with operations that do not concern the changed files: only the others are positions
    vector<std::pair<int, int>> plan;            // event, change
    static const int few[] = {1, 5, 6, 12, 14, 23, 24};
    for (int i = 0; i < nmut; i++) {
      vector<int> pos;
      int from = plan.empty() ? 0 : plan.back().first, n = 0;
      World w = start;
      Plan q;
      q.hook = [&](const Event &ev) {
        n = ev.idx;
        if (n >= from && (ev.op == vos::S_TTYREAD || ev.path.compare(0, 2, "/s") == 0 || ev.path.compare(0, 2, "/o") == 0)) pos.push_back(n);
        for (auto &m : plan) if (m.first == n) mutate(w.fs, m.second);
        return Act();
      };
      nb(w, {s.r}, "y\n", &q);
      if (pos.empty() || pos.back() != n) pos.push_back(n);
      int at = pos[c.choose((int)pos.size())];
      int k = nmut > 1 && !c.thorough ? few[c.choose(7)] : c.choose(nMut);
      c.note(mc::fmt("#%d:%s", at, mutName[k]));
      plan.push_back({at, k});
    }
    World w = start;
    Instants in;
    in.note(w.fs);
    bool did = true;
    string where;
    Plan pl;
    pl.hook = [&](const Event &ev) {
      for (auto &m : plan)
        if (m.first == ev.idx) {
          did &= mutate(w.fs, m.second);
          where += string(vos::opName[ev.op]) + " " + ev.path + "; ";
          in.note(w.fs);
        }
      return Act();
    };
    // paths that come into existence later did not exist at first
    {
      FS probe = w.fs;
      for (auto &m : plan) mutate(probe, m.second);
      Instants later;
      later.note(probe);
      for (auto &a : later.at) in.at[a.first];
      in.n = 0;
      in.note(w.fs);
    }
    Result r = nb(w, {s.r}, "y\n", &pl);
    c.require(did);
    c.trans();
    c.eval();
    auto ctxt = [&] { return "changed before " + where + "\n" + show(r) + "repository before:\n" + oldView + "files at last:\n" + dump(w.fs, "/s"); };
    if (c.verbose) c.log(ctxt());
    c.check(r.kind == vos::E_EXIT, "crash", ctxt());
    string err;
    string view = w.fs.exists(s.r + "/metadata") ? repoView(w.fs, s.r, err, s.w.now) : "-";
    c.check(err.empty(), "damaged-repository", err + "\n" + ctxt());
    if (r.code != 0) {
      c.check(r.err.find("nb: ") != string::npos, "silent-failure", ctxt());
      c.check(view == oldView, "failed-but-recorded", view + ctxt());
      c.nontrivial(vos::hash64(r.err, mode * 3 + p));
    } else {
      repo::View v;
      repo::load(w.fs, s.r, v);
      for (auto &q : in.at) {
        const string &path = q.first;
        if (path == "/s") continue;
        auto it = v.paths.find(path);
        bool cur = it != v.paths.end() && !(it->second.policy == repo::P_TRACK && it->second.hist[0].st.kind == repo::K_NONE);
        if (q.second.steady) {
          bool exists = q.second.first != "-";
          if (!exists) continue;
          c.check(cur, "steady-not-recorded", path + " never changed\n" + v.str() + ctxt());
        }
        if (!cur) { c.check(q.second.kinds.count(repo::K_NONE) || !q.second.steady, "not-recorded", path + "\n" + v.str() + ctxt()); continue; }
        const repo::RState &st = it->second.hist[0].st;
        bool isNew = it->second.hist[0].time > s.w.now;
        // what an earlier backup recorded and this one kept (copy, or a vanished path)
        if (!isNew && !q.second.steady && q.second.kinds.count(repo::K_NONE)) continue;
        bool ok = q.second.kinds.count(st.kind);
        if (st.kind == repo::K_FILE) ok &= q.second.contents.count(st.data) > 0;
        if (st.kind == repo::K_LINK) ok &= q.second.targets.count(st.data) > 0;
        vos::Type t = st.kind == repo::K_FILE ? vos::T_FILE : st.kind == repo::K_LINK ? vos::T_LINK : vos::T_DIR;
        string a = mc::fmt("%d %o %u %u %lld", t, t == vos::T_LINK ? 0 : st.perm & 07777, st.uid, st.gid, t == vos::T_LINK ? 0LL : (long long)st.mtime);
        ok &= q.second.attrs.count(a) > 0;
        c.check(ok, "never-so", path + " is recorded as " + st.str() + "\n" + v.str() + ctxt());
      }
      c.nontrivial(vos::hash64(view, mode * 3 + p));
    }
    c.state(vos::hash64(view + r.err));
    c.validated();
    // undisturbed afterwards
    World b = w;
    b.now += 100;
    Result r2 = nb(b, {s.r});
    c.check(r2.ok(), "rerun-failed", ctxt() + show(r2));
    string h = healthy(b.fs, s.r);
    bool asked = r2.out.find("proceed?") != string::npos;
    if (asked || r.code == 0) c.check(h.empty(), "damaged-afterwards", h + ctxt() + show(r2));
  };
  job.explore("one-change", [=](mc::Ctx &c) { body(c, 1); });
  job.explore("two-changes", [=](mc::Ctx &c) { body(c, 2); });
}
