// C05 (kills), C06 (power loss), C07 (failing operations), C25 (every ending): exhaustive fault placement.
#include "../faults.hpp"
#include <cerrno>
using namespace flt;

// Runs the command of the scenario, letting fn decide at every event. World is a copy.
static Result runPlan(World &w, const Scenario &x, const std::function<Act(const Event &)> &fn, bool mallocs = false) {
  Plan p;
  p.hook = fn;
  p.mallocEvents = mallocs;
  return vos::run(w, x.cfg(), &p);
}
static string runDesc(const World &w, const Scenario &x, const Result &r) {
  return show(r) + "repository:\n" + dump(w.fs, x.s.r) + "sources:\n" + dump(w.fs, "/s");
}

struct Ref { string oldView, newView; World after; Result run; };
static Ref reference(mc::Ctx &c, const Scenario &x) {
  c.require(spec::backup(x.s.tree, x.s.cfg, x.s.w.fs, 1).ok);   // a configured parent is a dangling link: refused
  Ref f;
  string e;
  f.oldView = x.s.w.fs.exists(x.s.r + "/metadata") ? repoView(x.s.w.fs, x.s.r, e, x.s.w.now) : "-";
  f.after = x.s.w;
  f.after.now += 1000;
  f.run = vos::run(f.after, x.cfg());
  c.check(f.run.ok(), "undisturbed-run-failed", runDesc(f.after, x, f.run));
  f.newView = f.after.fs.exists(x.s.r + "/metadata") ? repoView(f.after.fs, x.s.r, e, x.s.w.now) : "-";
  c.check(e.empty(), "undisturbed-run-damaged", e + runDesc(f.after, x, f.run));
  return f;
}
static string viewOf(const World &w, const Scenario &x, string &err) {
  err.clear();
  if (!w.fs.exists(x.s.r + "/metadata")) return "-";
  return repoView(w.fs, x.s.r, err, x.s.w.now);
}
// The repository must be the old or the new one and usable. Returns 0 old, 1 new, 2 both.
static int oldOrNew(mc::Ctx &c, const Scenario &x, const Ref &f, const World &w, const string &what, const Result &r, int allowed = 3) {
  string e, v = viewOf(w, x, e);
  c.eval();
  if (!e.empty()) c.fail("damaged-repository", what + ": " + e + "\n" + runDesc(w, x, r));
  bool o = v == f.oldView, n = v == f.newView;
  if (!o && !n) c.fail("neither-old-nor-new", what + "\nrepository holds:\n" + v + "\nold:\n" + f.oldView + "\nnew:\n" + f.newView + runDesc(w, x, r));
  if (allowed == 1 && !o) c.fail("not-old", what + "\n" + runDesc(w, x, r));
  if (allowed == 2 && !n) c.fail("not-new", what + "\nrepository holds:\n" + v + "\nnew:\n" + f.newView + runDesc(w, x, r));
  return o && n ? 2 : n ? 1 : 0;
}
static uint64_t repoHash(const World &w, const string &r) {
  return vos::hash64(dump(w.fs, r, vos::D_ALL & ~(vos::D_MTIME | vos::D_DIRMTIME)));
}
static void outsideSame(mc::Ctx &c, const Scenario &x, const World &w, const string &what, const Result &r) {
  string d = diff(x.s.w.fs, w.fs, "/", vos::D_ALL, [&](const string &p) { return p == x.s.r; });
  if (!d.empty()) c.fail("changed-outside", what + "\n" + d + show(r));
}
// What must work after an interruption: integrity, gc, restoring and the same command again.
static void recover(mc::Ctx &c, const Scenario &x, const Ref &f, const World &w, int which, const string &what, bool full) {
  bool backup = x.args.size() == 1;
  if (w.fs.exists(x.s.r + "/metadata")) {
    World a = w;
    Result r = nb(a, {x.s.r, "integrity"});
    c.check(r.ok(), "integrity-after", what + "\n" + runDesc(a, x, r));
    World g = w;
    r = nb(g, {x.s.r, "gc"});
    c.check(r.ok(), "gc-after", what + "\n" + runDesc(g, x, r));
    string e = healthy(g.fs, x.s.r);
    c.check(e.empty(), "leftovers-after-gc", what + ": " + e + "\n" + runDesc(g, x, r));
    oldOrNew(c, x, f, g, what + ", then gc", r, which == 2 ? 3 : which ? 2 : 1);
    if (full) {
      World b = w;
      b.fs.rm("/s");
      r = nb(b, {x.s.r, "0"});
      c.check(r.ok(), "restore-after", what + "\n" + runDesc(b, x, r));
    }
  }
  World b = w;
  b.now += 10;
  Result r = nb(b, x.args);
  c.check(r.ok(), "rerun-failed", what + "\n" + runDesc(b, x, r));
  if (backup) oldOrNew(c, x, f, b, what + ", then the same backup again", r, 2);
  else oldOrNew(c, x, f, b, what + ", then gc again", r, 3);
  if (r.out.find("proceed?") != string::npos || !backup) {
    string e = healthy(b.fs, x.s.r);
    c.check(e.empty(), "leftovers-after-rerun", what + ": " + e + "\n" + runDesc(b, x, r));
  }
  // and a backup with a change
  if (full) {
    b.fs.mkfile("/s/d", "something else entirely, long enough", 0644, 9999);
    b.now += 5000;
    r = nb(b, {x.s.r});
    string e = healthy(b.fs, x.s.r);
    c.check(r.ok() && e.empty(), "later-backup", what + ": " + e + "\n" + runDesc(b, x, r));
  }
}

MC_CHECK(C05, "fault_enumeration") {
  job.rule("Every scenario (configuration, repository before, file system state; backup and gc), killed before and after every "
           "state-changing operation and in the middle of every write; after each kill the repository is decoded by an independent decoder, "
           "and integrity, gc, restore, the same command and a later backup are run. Second part: the command repeated after the kill is itself killed everywhere. "
           "Non-trivial: a distinct repository left behind by a kill that is neither the untouched old nor the finished new directory.");
  auto killAll = [](mc::Ctx &c, const Scenario &x, const Ref &f, const World &start, const string &pre, bool full,
                    const std::function<void(const World &, const string &)> &next) {
    std::set<uint64_t> seen{repoHash(start, x.s.r), repoHash(f.after, x.s.r)};
    // learn the events
    vector<Event> ev;
    {
      World w = start;
      w.now = f.after.now;
      runPlan(w, x, [&](const Event &e) { ev.push_back(e); return Act(); });
    }
    for (size_t i = 0; i < ev.size(); i++) {
      bool last = i + 1 == ev.size();
      if (!ev[i].mutates && !last) continue;
      for (int m = 0; m < 3; m++) {
        if (m == 2 && ev[i].op != vos::S_WRITE) continue;
        if (m == 1 && !last && ev[i].op != vos::S_WRITE && i + 1 < ev.size() && ev[i + 1].mutates) continue;  // same as killing before the next
        World w = start;
        w.now = f.after.now;
        Act::K kind = m == 0 ? Act::KillBefore : m == 1 ? Act::KillAfter : Act::KillMid;
        Result r = runPlan(w, x, [&](const Event &e) { Act a; if ((size_t)e.idx == i) a.k = kind; return a; });
        c.trans();
        string what = pre + "killed " + (m == 0 ? "before " : m == 1 ? "after " : "within ") + vos::opName[ev[i].op] + " #" + std::to_string(i) + " " + ev[i].path + " " + ev[i].path2;
        if (c.verbose) c.log(what);
        int which = oldOrNew(c, x, f, w, what, r);
        outsideSame(c, x, w, what, r);
        uint64_t h = repoHash(w, x.s.r);
        c.state(h);
        if (!seen.insert(h).second) continue;
        c.nontrivial(h);
        recover(c, x, f, w, which, what, full);
        if (next) next(w, what + "; ");
      }
    }
  };
  job.explore("single-kill", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    Ref f = reference(c, x);
    killAll(c, x, f, x.s.w, "", true, nullptr);
  });
  job.explore("two-kills", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    Ref f = reference(c, x);
    killAll(c, x, f, x.s.w, "", false, [&](const World &w, const string &pre) {
      Scenario y = x;
      y.s.w = w;
      y.s.w.now = x.s.w.now;
      string e, v = viewOf(w, x, e);
      Ref g = f;
      g.oldView = v;
      World again = w;
      again.now = f.after.now;
      nb(again, x.args);
      g.after = again;
      killAll(c, y, g, w, pre, false, nullptr);
    });
  });
}

// Visits every durable state that a power loss at every moment of the run can leave.
static Result runWithPowerLoss(mc::Ctx &c, World &w, const Scenario &x, const std::function<Act(const Event &)> &extra,
                               const std::function<void(const FS &, const string &, int idx)> &fn) {
  std::set<uint64_t> seen;
  struct Todo { FS fs; string what; int idx; };
  std::vector<Todo> todo;
  auto visit = [&](int idx, const string &when) {
    bool capped = false;
    vos::powerLoss(w.fs, [&](const FS &d, const string &desc) {
      uint64_t h = vos::hash64(dump(d, x.s.r, vos::D_DATA));
      if (!seen.insert(h).second) return;
      c.trans();
      todo.push_back({d, "power loss " + when + ":" + desc, idx});   // judged later: not on the stack of the process
    }, capped);
    if (capped) c.cap("durable states");
  };
  bool dirty = true;
  Result r = runPlan(w, x, [&](const Event &e) {
    if (dirty) visit(e.idx, string("before ") + vos::opName[e.op] + " #" + std::to_string(e.idx) + " " + e.path);
    dirty = e.mutates || e.op == vos::S_FSYNC || e.op == vos::S_CLOSE;
    return extra ? extra(e) : Act();
  });
  visit(1 << 20, "after the run");
  for (auto &t : todo) fn(t.fs, t.what, t.idx);
  return r;
}

MC_CHECK(C06, "fault_enumeration") {
  job.rule("Every scenario with a power loss before every operation and after the end; for each of them every durable state allowed by the "
           "durability model (any subset of unsynced directory operations that keeps the order per name, combined with nothing, all, half, "
           "zeros or only the first of the unsynced data of every file). Second part: the command is killed at every state-changing operation, "
           "run again to its end, and the power is lost then or at any moment of the second run. Non-trivial: a distinct durable repository.");
  job.assume("Durability model: file data is durable once that file was synced after the write; an entry operation is durable once the directory was synced in which the entry appears (for removals: vanished); "
             "renames are atomic, except that a file renamed into a directory which is never synced may be in neither; operations on the same name persist in order; everything else unsynced may be lost independently.");
  job.explore("one-run", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    Ref f = reference(c, x);
    World w = x.s.w;
    w.now = f.after.now;
    w.fs.startJournal();
    Result last;
    Result r = runWithPowerLoss(c, w, x, nullptr, [&](const FS &d, const string &what, int idx) {
      World p = x.s.w;
      p.now = f.after.now;
      p.fs = d;
      p.fs.stopJournal();
      int which = oldOrNew(c, x, f, p, what, last, idx >= 1 << 20 && x.args.size() == 1 ? 2 : 3);
      uint64_t h = repoHash(p, x.s.r);
      c.state(h);
      c.nontrivial(h);
      recover(c, x, f, p, which, what, false);
    });
    c.check(r.ok(), "run-failed", runDesc(w, x, r));
    // later commands do not endanger it
    for (auto cmd : {vector<string>{x.s.r, "gc"}, vector<string>{x.s.r}}) {
      Scenario y = x;
      y.args = cmd;
      runWithPowerLoss(c, w, y, nullptr, [&](const FS &d, const string &what, int) {
        World p = x.s.w;
        p.fs = d;
        oldOrNew(c, x, f, p, "a later " + cmd.back() + ", " + what, r, x.args.size() == 1 ? 2 : 3);
      });
    }
  });
  job.explore("killed-then-rerun", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    c.require(x.args.size() == 1);
    Ref f = reference(c, x);
    vector<Event> ev;
    {
      World w = x.s.w;
      w.now = f.after.now;
      runPlan(w, x, [&](const Event &e) { ev.push_back(e); return Act(); });
    }
    for (size_t i = 0; i < ev.size(); i++) {
      if (!ev[i].mutates) continue;
      World w = x.s.w;
      w.now = f.after.now;
      w.fs.startJournal();
      runPlan(w, x, [&](const Event &e) { Act a; if ((size_t)e.idx == i) a.k = Act::KillAfter; return a; });
      string pre = string("killed after ") + vos::opName[ev[i].op] + " #" + std::to_string(i) + " " + ev[i].path + " " + ev[i].path2 + ", run again, ";
      Result last;
      auto visit = [&](const FS &d, const string &what, int idx) {
        World p = x.s.w;
        p.fs = d;
        p.fs.stopJournal();
        oldOrNew(c, x, f, p, pre + what, last, idx >= 1 << 20 ? 2 : 3);
        c.nontrivial(repoHash(p, x.s.r));
      };
      if (1) last = runWithPowerLoss(c, w, x, nullptr, visit);
      else {
        w.now += 10;
        last = vos::run(w, x.cfg());
        bool capped = false;
        vos::powerLoss(w.fs, [&](const FS &d, const string &desc) { c.trans(); visit(d, "power loss after the run:" + desc, 1 << 20); }, capped);
        if (capped) c.cap("durable states");
      }
      c.check(last.ok(), "rerun-failed", pre + runDesc(w, x, last));
    }
  });
}

// One way a call can fail.
struct Fault { Act act; const char *name; };
static vector<Fault> faultsFor(const Event &e) {
  auto f = [](Act::K k, int err, const char *n) { Fault x; x.act.k = k; x.act.err = err; x.name = n; return x; };
  vector<Fault> v;
  switch (e.op) {
  case vos::S_MALLOC: return {f(Act::Fail, ENOMEM, "ENOMEM")};
  case vos::S_TIME: case vos::S_LSEEK: return {};
  case vos::S_WRITE: return {f(Act::Fail, ENOSPC, "ENOSPC"), f(Act::Fail, EIO, "EIO"), f(Act::Short, 0, "short"), f(Act::FailMid, ENOSPC, "partly, ENOSPC")};
  case vos::S_READ: return {f(Act::Fail, EIO, "EIO"), f(Act::Short, 0, "short")};
  case vos::S_CLOSE: case vos::S_FSYNC: return {f(Act::Fail, EIO, "EIO"), f(Act::Fail, ENOSPC, "ENOSPC")};
  case vos::S_LOCK: return {f(Act::Fail, ENOLCK, "ENOLCK")};
  case vos::S_OPEN: return {f(Act::Fail, EACCES, "EACCES"), f(Act::Fail, EMFILE, "EMFILE")};
  default: break;
  }
  v.push_back(f(Act::Fail, EIO, "EIO"));
  v.push_back(f(Act::Fail, e.mutates ? ENOSPC : EACCES, e.mutates ? "ENOSPC" : "EACCES"));
  return v;
}
static string faultStr(const Event &e, const Fault &f) {
  return string(vos::opName[e.op]) + " #" + std::to_string(e.idx) + " " + e.path + (e.path2.empty() ? "" : " " + e.path2) + " " + f.name;
}
static bool isTty(const Event &e) { return e.op == vos::S_TTYWRITE || e.op == vos::S_TTYREAD; }

// Runs the command once per way of failing at every event from `first` on (after the earlier faults in `fixed`).
struct FaultRun { Event e; Fault f; };
static void forFaults(const World &start, const Scenario &x, bool mallocs, const vector<FaultRun> &fixed,
                      const std::function<void(const World &, const Result &, const vector<FaultRun> &)> &fn) {
  auto decide = [](const vector<FaultRun> &fr, const Event &e) {
    for (auto &q : fr)
      if (q.e.idx == e.idx && (q.e.op == vos::S_MALLOC) == (e.op == vos::S_MALLOC)) return q.f.act;
    return Act();
  };
  vector<Event> ev;
  {
    World w = start;
    runPlan(w, x, [&](const Event &e) { ev.push_back(e); return decide(fixed, e); }, mallocs);
  }
  size_t from = 0;
  if (!fixed.empty())
    for (size_t i = 0; i < ev.size(); i++)
      if (ev[i].idx == fixed.back().e.idx && (ev[i].op == vos::S_MALLOC) == (fixed.back().e.op == vos::S_MALLOC)) from = i + 1;
  for (size_t i = from; i < ev.size(); i++)
    for (auto &f : faultsFor(ev[i])) {
      vector<FaultRun> fr = fixed;
      fr.push_back({ev[i], f});
      World w = start;
      Result r = runPlan(w, x, [&](const Event &e) { return decide(fr, e); }, mallocs);
      fn(w, r, fr);
    }
}
static string faultsStr(const vector<FaultRun> &v) {
  string s;
  for (auto &q : v) s += (s.empty() ? "" : "; ") + faultStr(q.e, q.f);
  return s;
}

// The verdict about a backup or gc that met faults.
static void judgeFaulted(mc::Ctx &c, const Scenario &x, const Ref &f, const World &w, const Result &r, const string &what, bool tty,
                         bool lock, bool full) {
  c.trans();
  c.check(r.kind == vos::E_EXIT, "crash", what + "\n" + runDesc(w, x, r));
  outsideSame(c, x, w, what, r);
  int which;
  if (r.code == 0) {
    which = oldOrNew(c, x, f, w, what + ", exit 0", r, 2);
    if (!tty || x.args.size() > 1) {
      World v = w;
      if (lock) v.fs.rm(x.s.r + "/lockfile");
      string e = healthy(v.fs, x.s.r);
      bool asked = r.out.find("proceed?") != string::npos;
      if (asked || x.args.size() > 1) c.check(e.empty(), "incomplete-success", what + ": " + e + "\n" + runDesc(w, x, r));
    }
  } else {
    if (!tty) c.check(r.err.find("nb: ") != string::npos, "silent-failure", what + "\n" + runDesc(w, x, r));
    which = oldOrNew(c, x, f, w, what, r);
  }
  uint64_t h = repoHash(w, x.s.r);
  c.state(h);
  c.nontrivial(vos::hash64(what.substr(0, what.find(' ')) + r.err, h));
  recover(c, x, f, w, which, what, full);
}

MC_CHECK(C07, "fault_enumeration") {
  job.rule("Every scenario of backup, gc, integrity check and restore; every call (also allocations, reads, opens, terminal output) "
           "failing in each listed way (EIO, ENOSPC, EACCES, EMFILE, ENOMEM, ENOLCK, short and partial writes, errors surfacing at sync or close, "
           "which then also lose the unsynced data); every second fault after the first; persistent faults from every point on. "
           "Non-trivial: a distinct (kind of call, message, repository left behind).");
  job.assume("ENOENT, ENOTDIR and ELOOP are not injected: they are indistinguishable from a missing path.");
  auto one = [](mc::Ctx &c, bool mallocs, int faults, int level) {
    Scenario x = choose(c, level);
    Ref f = reference(c, x);
    World start = x.s.w;
    start.now = f.after.now;
    auto lockOf = [](const vector<FaultRun> &fr) { for (auto &q : fr) if (q.e.path.find("lockfile") != string::npos || q.e.op == vos::S_LOCK || q.e.op == vos::S_UNLOCK) return true; return false; };
    auto ttyOf = [](const vector<FaultRun> &fr) { for (auto &q : fr) if (isTty(q.e)) return true; return false; };
    std::set<uint64_t> seen;
    forFaults(start, x, mallocs, {}, [&](const World &w, const Result &r, const vector<FaultRun> &fr) {
      if (mallocs && fr[0].e.op != vos::S_MALLOC) return;
      if (faults == 1) {
        string what = faultsStr(fr);
        if (c.verbose) c.log(what + " -> " + r.str() + " " + r.err);
        judgeFaulted(c, x, f, w, r, what, ttyOf(fr), lockOf(fr), seen.insert(repoHash(w, x.s.r)).second);
        return;
      }
      forFaults(start, x, mallocs, fr, [&](const World &w2, const Result &r2, const vector<FaultRun> &fr2) {
        judgeFaulted(c, x, f, w2, r2, faultsStr(fr2), ttyOf(fr2), lockOf(fr2), false);
      });
    });
  };
  job.explore("one-fault", [=](mc::Ctx &c) { one(c, false, 1, 0); });
  job.explore("failing-allocation", [=](mc::Ctx &c) { one(c, true, 1, c.thorough ? 0 : 1); });
  job.explore("two-faults", [=](mc::Ctx &c) { one(c, false, 2, c.thorough ? 0 : 1); });
  // From some point on the disk is full, or nothing works any more.
  job.explore("persistent", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    Ref f = reference(c, x);
    World start = x.s.w;
    start.now = f.after.now;
    int kind = c.pick("from-some-point", {"disk-full", "read-only", "all-writes-EIO", "everything-EIO"});
    World p = start;
    int n = runPlan(p, x, nullptr).events;
    for (int i = 0; i < n; i++) {
      World w = start;
      Result r = runPlan(w, x, [&](const Event &e) {
        Act a;
        if (e.idx < i || isTty(e) || e.op == vos::S_CLOSE || e.op == vos::S_CLOSEDIR || e.op == vos::S_LSEEK || e.op == vos::S_TIME || e.op == vos::S_UNLOCK) return a;
        bool grow = e.op == vos::S_WRITE || e.op == vos::S_MKDIR || e.create;
        bool hit = kind == 0 ? grow : kind == 1 ? e.mutates : kind == 2 ? e.mutates || e.op == vos::S_FSYNC : true;
        if (hit) { a.k = kind == 0 && e.op == vos::S_WRITE ? Act::FailMid : Act::Fail; a.err = kind == 0 ? ENOSPC : kind == 1 ? EROFS : EIO; }
        return a;
      });
      judgeFaulted(c, x, f, w, r, "from call #" + std::to_string(i) + " on", false, true, false);
    }
  });
  // Success is only reported for what is durable, even if a sync failed.
  job.explore("failed-sync-then-power-loss", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0);
    c.require(x.args.size() == 1);
    Ref f = reference(c, x);
    World start = x.s.w;
    start.now = f.after.now;
    start.fs.startJournal();
    forFaults(start, x, false, {}, [&](const World &w, const Result &r, const vector<FaultRun> &fr) {
      vos::Op o = fr[0].e.op;
      if (o != vos::S_FSYNC && o != vos::S_CLOSE && o != vos::S_OPEN) return;
      c.trans();
      bool capped = false;
      vos::powerLoss(w.fs, [&](const FS &d, const string &desc) {
        World q = w;
        q.fs = d;
        q.fs.stopJournal();
        oldOrNew(c, x, f, q, faultsStr(fr) + ", power loss after the run:" + desc, r, r.code == 0 ? 2 : 3);
        c.nontrivial(repoHash(q, x.s.r));
      }, capped);
      if (capped) c.cap("durable states");
    });
  });
  // integrity and restore
  auto readers = [](mc::Ctx &c, bool mallocs, int faults) {
    Scenario x;
    Sim &s = x.s;
    int k = c.choose(3, "state");
    s.config("[track]\n/s/d\n");
    s.w.fs.mkdir("/s", 0755, 5000);
    if (k == 0) { richState(s.w.fs, 2); s.backup(c, 0); richState(s.w.fs, 3); s.backup(c, 0); }
    else { applyState(s.w.fs, k == 1 ? 9 : 14); s.backup(c, 0); applyState(s.w.fs, k == 1 ? 8 : 9); s.backup(c, 0); }
    repo::View v = s.view(c);
    int mode = c.pick("command", {"integrity", "integrity-damaged", "restore"});
    std::set<string> damaged;
    spec::RestoreResult want;
    if (mode < 2) {
      x.args = {s.r, "integrity"};
      if (mode == 1) {
        repo::Meta m;
        string e;
        repo::decode(repo::metaBytes(s.w.fs, s.r), m, e);
        map<string, repo::State> bl;
        repo::blobs(m, bl);
        c.require(!bl.empty());
        auto it = bl.begin();
        std::advance(it, c.choose((int)bl.size(), "blob"));
        string p = s.r + "/" + it->first;
        if (c.choose(2)) s.w.fs.rm(p);
        else { string d = s.w.fs.content(p); d[d.size() - 1] ^= 1; s.w.fs.mkfile(p, d); }
      }
    } else {
      int st = c.choose(5, "now");
      if (st == 0) s.w.fs.rm("/s");
      else if (st < 3) richState(s.w.fs, st);
      else applyState(s.w.fs, st == 3 ? 1 : 12);
      int id = c.choose((int)v.times.size(), "number");
      string path = c.choose(2) ? "/s/d" : "/";
      x.args = {s.r, std::to_string(id), path};
      want = spec::restore(v, id, path, s.w.fs);
      c.require(want.ok && want.changes);
    }
    auto judge = [&](const World &w, const Result &r, const vector<FaultRun> &fr) {
      if (mallocs && fr[0].e.op != vos::S_MALLOC) return;
      c.trans();
      c.eval();
      string what = faultsStr(fr);
      bool tty = false;
      for (auto &q : fr) tty |= isTty(q.e);
      auto ctxt = [&] { return what + "\n" + runDesc(w, x, r); };
      c.check(r.kind == vos::E_EXIT, "crash", ctxt());
      if (r.code != 0 && !tty) c.check(!r.err.empty(), "silent-failure", ctxt());
      World v2 = w;
      v2.fs.rm(s.r + "/lockfile");
      string d = diff(s.w.fs, v2.fs, s.r, vos::D_ALL & ~vos::D_DIRMTIME);
      c.check(d.empty(), "repository-changed", d + ctxt());
      c.nontrivial(vos::hash64(r.err + (mode == 2 ? dump(w.fs, "/s") : r.out)));
      if (mode == 0 && r.code == 0 && !tty) c.check(r.out.find("Healthy") != string::npos, "no-verdict", ctxt());
      if (mode == 1) c.check(r.code != 0 && r.out.find("Healthy") == string::npos, "false-health", ctxt());
      if (mode == 2 && r.code == 0) { d = restoredDiff(want, w.fs, s.r); c.check(d.empty(), "incomplete-success", d + ctxt()); }
      if (mode == 0) {
        d = diff(s.w.fs, w.fs, "/s");
        c.check(d.empty(), "integrity-changed-files", d + ctxt());
      }
      // afterwards it works
      World a = w;
      Result r2 = vos::run(a, x.cfg());
      if (mode == 1) return;
      c.check(r2.ok(), "rerun-failed", ctxt() + show(r2));
    };
    forFaults(s.w, x, mallocs, {}, [&](const World &w, const Result &r, const vector<FaultRun> &fr) {
      if (faults == 1) judge(w, r, fr);
      else forFaults(s.w, x, mallocs, fr, judge);
    });
  };
  job.explore("integrity-restore", [=](mc::Ctx &c) { readers(c, false, 1); });
  job.explore("integrity-restore-two-faults", [=](mc::Ctx &c) { readers(c, false, 2); });
  job.explore("integrity-restore-allocation", [=](mc::Ctx &c) { readers(c, true, 1); });
}
