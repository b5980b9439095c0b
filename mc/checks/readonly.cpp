// C27: repositories on read-only file systems.
#include "../scenes.hpp"
#include <algorithm>
using namespace flt;

static World mounted(const World &w, const string &r) {
  World q = w;
  q.readOnly = q.fs.lookup(r);
  return q;
}
// The same command with the repository writable and read-only: nothing else may differ.
static void compare(mc::Ctx &c, const World &w, const string &r, const RunCfg &cfg) {
  World a = w, b = mounted(w, r);
  Result A = vos::run(a, cfg), B = vos::run(b, cfg);
  c.trans(2);
  c.eval();
  auto ctxt = [&] { return "writable: " + show(A) + "read-only: " + show(B) + dump(w.fs, "/"); };
  c.check(A.kind == vos::E_EXIT && B.kind == vos::E_EXIT, "crash", ctxt());
  c.check(A.code == B.code, "status-differs", ctxt());
  c.check(A.out == B.out && A.err == B.err, "output-differs", ctxt());
  auto skip = [&](const string &p) { return p == r; };
  string d = diff(a.fs, b.fs, "/", vos::D_ALL, skip);
  c.check(d.empty(), "result-differs", d + ctxt());
  d = diff(w.fs, b.fs, r, vos::D_ALL | vos::D_NS);
  c.check(d.empty(), "repository-changed", d + ctxt());
  c.check(b.locks.empty(), "lock-left", ctxt());
  c.validated();
}
// The command must be refused with a message, and nothing may change.
static void refused(mc::Ctx &c, World w, const RunCfg &cfg, const Plan *plan, bool exact) {
  World q = w;
  Result R = vos::run(q, cfg, plan);
  c.trans();
  c.eval();
  c.check(R.kind == vos::E_EXIT && R.code != 0, "not-refused", show(R) + dump(w.fs, "/"));
  c.check(!R.err.empty(), "no-message", show(R));
  c.check(R.out.find("(y/n)") == string::npos, "asked", show(R));
  int f = vos::D_ALL;
  if (!exact) f &= ~vos::D_DIRMTIME;
  string d = diff(w.fs, q.fs, "/", exact ? f | vos::D_NS : f);
  if (!exact) d = diff(w.fs, q.fs, "/", f, [](const string &p) { return p == "/r/lockfile"; });
  c.check(d.empty(), "refused-but-changed", d + show(R));
  c.check(q.locks.empty(), "lock-left", show(R));
}

MC_CHECK(C27, "model_checking") {
  job.rule("Every restore scene (configuration, two states, what stands there now, number, path, answer), nested trees as root and unprivileged, and integrity "
           "checks of repositories with every subset of contents damaged, once with the repository writable and once on a read-only file system, with and "
           "without a lock file left there; all of backup, gc on such repositories; every other failure to create or take the lock, for every command; two "
           "readers at once, switched at every operation. Judged by comparing output, status and complete file systems. Non-trivial: a distinct scene with something to restore, a damaged repository, a refusal.");
  job.assume("A read-only file system answers every attempt to change something with EROFS, and locks cannot be taken there since the lock file cannot be opened for writing.");
  job.explore("restore", [=](mc::Ctx &c) {
    RScene x = scene(c, true);
    if (c.choose(2, "lockfile-there")) x.s.w.fs.mkfile(x.s.r + "/lockfile", "", 0220);
    static const vector<string> in = {"y\n", "n\n", ""};
    RunCfg r = cfgFor(x.args(), c.of(in, "answer"), "/");
    c.nontrivial(vos::hash64(dump(x.s.w.fs, "/"), x.id * 7 + x.path.size()));
    compare(c, x.s.w, x.s.r, r);
  });
  job.explore("restore-nested", [=](mc::Ctx &c) {
    bool user = c.choose(2, "user");
    RScene x = nestedScene(c, user ? 1000 : 0, c.thorough ? 2 : 1);
    if (c.choose(2, "lockfile-there")) x.s.w.fs.mkfile(x.s.r + "/lockfile", "", 0220, 1000, user ? 1000 : 0, user ? 1000 : 0);
    int from = c.pick("from", {"/", "the repository", "relative"});
    vector<string> a = x.args();
    string cwd = "/";
    if (from == 1) { a[0] = "."; cwd = "/r"; }
    if (from == 2) a[0] = "r/";
    RunCfg r = cfgFor(a, "y\n", cwd);
    r.euid = user ? 1000 : 0;
    c.nontrivial(vos::hash64(dump(x.s.w.fs, "/"), from + 3 * user));
    compare(c, x.s.w, x.s.r, r);
  });
  job.explore("integrity", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose((int)rcfgs.size(), "config");
    s.config(rcfgs[k].text);
    static const int sub[] = {9, 6, 14, 2, 1};
    applyState(s.w.fs, sub[c.choose(5, "state")]);
    s.w.fs.mkfile("/s/other", "the other one, also recorded", 0644, 99);
    s.backup(c, 0);
    applyState(s.w.fs, sub[c.choose(5, "state")]);
    s.backup(c, 0);
    c.require(s.w.fs.exists("/r/metadata"));
    vector<string> contents;
    std::function<void(const string &)> go = [&](const string &p) {
      const vos::Inode i = s.w.fs.r(s.w.fs.lookup(p, false));
      if (i.type == vos::T_FILE && p.size() > 10) contents.push_back(p);
      if (i.type == vos::T_DIR) for (auto &e : i.ents) go(p + "/" + e.first);
    };
    go("/r");
    contents.erase(std::remove_if(contents.begin(), contents.end(), [](const string &p) { return p == "/r/metadata"; }), contents.end());
    for (auto &p : contents) {
      int d = c.pick("damage", {"none", "gone", "longer", "changed", "a directory"});
      if (d == 1) s.w.fs.rm(p);
      if (d == 2) s.w.fs.w(s.w.fs.lookup(p)).data += "x";
      if (d == 3) s.w.fs.w(s.w.fs.lookup(p)).data[1] ^= 4;
      if (d == 4) { s.w.fs.rm(p); s.w.fs.mkdir(p); }
    }
    if (c.choose(2, "lockfile-there")) s.w.fs.mkfile("/r/lockfile", "", 0220);
    c.nontrivial(dump(s.w.fs, "/r"));
    compare(c, s.w, s.r, cfgFor({"/r", "integrity"}));
    compare(c, s.w, s.r, cfgFor({"/r", "0"}, "n\n"));
  });
  job.explore("refused", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose((int)rcfgs.size(), "config");
    s.config(rcfgs[k].text);
    FS &fs = s.w.fs;
    bool first = c.choose(2, "no-metadata");
    static const int sub[] = {9, 6, 14, 2, 1, 0};
    applyState(fs, sub[c.choose(6, "state")]);
    fs.mkfile("/s/other", "the other one, also recorded", 0644, 99);
    if (!first) {
      s.backup(c, 0);
      applyState(fs, sub[c.choose(6, "state")]);
      if (c.choose(2, "junk")) { fs.mkfile("/r/junk", "to be collected"); fs.mkfile("/r/tmp-file", "left"); }
    }
    if (c.choose(2, "lockfile-there")) fs.mkfile("/r/lockfile", "", 0220);
    bool gc = c.choose(2, "gc");
    RunCfg r = cfgFor(gc ? vector<string>{"/r", "gc"} : vector<string>{"/r"});
    if (c.choose(2, "user")) r.euid = 1000;
    c.nontrivial(vos::hash64(dump(fs, "/"), gc + 2 * (r.euid != 0)));
    refused(c, mounted(s.w, "/r"), r, nullptr, true);
  });
  // Whatever else prevents the lock from being taken prevents the command.
  job.explore("no-lock", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s/d\n");
    applyState(s.w.fs, 9);
    s.backup(c, 0);
    applyState(s.w.fs, c.choose(2) ? 14 : 9);
    if (c.choose(2, "lockfile-there")) s.w.fs.mkfile("/r/lockfile", "", 0220);
    static const vector<vector<string>> cmd = {{"/r"}, {"/r", "gc"}, {"/r", "integrity"}, {"/r", "0"}, {"/r", "0", "/s/d/c"}};
    int k = c.choose(5, "command");
    RunCfg r = cfgFor(cmd[k]);
    static const int errs[] = {EACCES, EPERM, ENOSPC, EIO, EDQUOT, EMFILE, ENFILE, ENOMEM, EISDIR, EROFS, ENXIO, EINTR};
    static const int lerrs[] = {EACCES, EAGAIN, ENOLCK, EIO, EDEADLK, EINVAL, EROFS};
    bool lock = c.choose(2, "locking");
    int err = lock ? lerrs[c.choose(7, "errno")] : errs[c.choose(12, "errno")];
    c.require(lock || err != EROFS || k < 2);
    Plan p;
    p.hook = [&](const Event &e) {
      Act a;
      if (lock ? e.op == vos::S_LOCK : e.op == vos::S_OPEN && e.create && e.path.find("lockfile") != string::npos) { a.k = Act::Fail; a.err = err; }
      return a;
    };
    c.nontrivial(std::to_string(k * 1000 + err * 2 + lock));
    refused(c, s.w, r, &p, false);
  });
  // Readers do not hinder each other.
  job.explore("readers", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s\n");
    FS &fs = s.w.fs;
    applyState(fs, 9);
    s.backup(c, 0);
    applyState(fs, 14);
    s.backup(c, 0);
    if (c.choose(2, "lockfile-there")) fs.mkfile("/r/lockfile", "", 0220);
    if (c.choose(2, "damaged")) { auto &e = fs.r(fs.lookup("/r")).ents; for (auto &x : e) if (x.first.size() == 2) { fs.rm("/r/" + x.first); break; } }
    fs.rm("/s/d");
    fs.mkdir("/s/d", 0700, 4, 4, 4);
    struct P { vector<string> a, b; };
    static const vector<P> pairs = {{{"/r", "integrity"}, {"/r", "integrity"}}, {{"/r", "integrity"}, {"/r", "1", "/s/d/e"}}, {{"/r", "1", "/s/d/e"}, {"/r", "integrity"}}, {{"/r", "0", "/s/d/c"}, {"/r", "integrity"}}};
    const P &pr = pairs[c.choose((int)pairs.size(), "pair")];
    vos::Multi m;
    m.procs = {cfgFor(pr.a), cfgFor(pr.b)};
    World w = mounted(s.w, "/r");
    World qa = w, qb = w;
    Result A = vos::run(qa, m.procs[0]), B = vos::run(qb, m.procs[1]);
    int at = c.choose(A.events + 1, "switch-after"), back = c.choose(B.events + 1, "and-back-after");
    m.visible = [](const Event &e) { return e.op != vos::S_TTYWRITE && e.op != vos::S_TIME && e.op != vos::S_LSEEK; };
    int steps = 0;
    m.sched = [&](int, const vector<int> &en, int) {
      int want = steps < at ? 0 : steps < at + back ? 1 : 0;
      steps++;
      return std::find(en.begin(), en.end(), want) != en.end() ? want : en[0];
    };
    vector<Result> R = vos::runMulti(w, m);
    c.trans(3);
    c.eval();
    c.state(vos::hash64(dump(w.fs, "/"), at * 1000 + back));
    c.nontrivial(std::to_string(at * 1000 + back) + pr.a.back() + pr.b.back());
    c.check(R[0].code == A.code && R[0].out == A.out && R[0].err == A.err, "hindered", "alone: " + show(A) + "with another: " + show(R[0]));
    c.check(R[1].code == B.code && R[1].out == B.out && R[1].err == B.err, "hindered", "alone: " + show(B) + "with another: " + show(R[1]));
    string d = diff(s.w.fs, w.fs, "/r", vos::D_ALL | vos::D_NS);
    c.check(d.empty(), "repository-changed", d);
  });
}
