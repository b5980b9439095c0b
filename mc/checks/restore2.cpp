// C18 (what a restore touches), C19 (interrupted restores).
#include "../scenes.hpp"
#include <algorithm>
#include <cerrno>
using namespace flt;

static string physical(const FS &fs, const string &p) {
  // the place a path denotes when links to directories among its parents are followed
  string done;
  string rest = p;
  for (int hops = 0; hops < 40; hops++) {
    size_t i = rest.find('/', 1);
    string head = i == string::npos ? rest : rest.substr(0, i);
    string tail = i == string::npos ? "" : rest.substr(i);
    int n = fs.lookup(done + head, false);
    if (n >= 0 && fs.r(n).type == vos::T_LINK) {
      int f = fs.lookup(done + head);
      if (f >= 0 && fs.r(f).type == vos::T_DIR) {
        string t = fs.r(n).data;
        if (t[0] != '/') t = done + "/" + t;
        string norm;
        for (size_t j = 1; j < t.size();) {
          size_t e = t.find('/', j);
          if (e == string::npos) e = t.size();
          string part = t.substr(j, e - j);
          if (part == "..") norm = norm.substr(0, norm.rfind('/')); else if (part != "." && !part.empty()) norm += "/" + part;
          j = e + 1;
        }
        done = norm;
        if (tail.empty()) return done;
        rest = tail;
        continue;
      }
    }
    done += head;
    if (tail.empty()) return done;
    rest = tail;
  }
  return p;
}
static void listAll(const FS &fs, int n, const string &p, std::set<string> &out) {
  out.insert(p.empty() ? "/" : p);
  if (fs.r(n).type == vos::T_DIR) for (auto &e : fs.r(n).ents) listAll(fs, e.second, p + "/" + e.first, out);
}
static string entry(const FS &fs, const string &p, bool mtime) {
  int n = fs.lookup(p, false);
  if (n < 0) return "-";
  const vos::Inode &i = fs.r(n);
  return mc::fmt("%d %o %u %u %lld ", i.type, i.type == vos::T_LINK ? 0 : i.perm, i.uid, i.gid, mtime && i.type != vos::T_LINK ? (long long)i.mtime : -1LL) + i.data;
}
static bool below(const string &p, const string &dir) { return dir == "/" || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'); }

// Judges a finished restore by its own report: `R.out` names what may have changed.
static void frame(mc::Ctx &c, const RScene &x, const World &w, const Result &R) {
  const FS &before = x.s.w.fs, &after = w.fs;
  auto ctxt = [&] {
    auto sk = [&](const string &p) { return p == x.s.r; };
    return "\nrestore " + std::to_string(x.id) + " " + x.path + "\nrecorded:\n" + x.v.str() + "before:\n" + dump(before, "/", vos::D_ALL, sk) + "after:\n" + dump(after, "/", vos::D_ALL, sk) + show(R);
  };
  string d = diff(before, after, x.s.r, vos::D_ALL & ~vos::D_DIRMTIME);
  c.check(d.empty(), "changed-repository", d + ctxt());
  vector<string> lines = reportLines(R.out);
  // recorded paths concerned, and those announced: the longest recorded path occurring at the end of a report line's path part
  std::set<string> concerned, announced;
  string target = x.path;
  while (target.size() > 1 && target.back() == '/') target.pop_back();
  for (auto &p : x.v.paths)
    if (p.first == target || below(p.first, target) || below(target, p.first)) concerned.insert(p.first);
  for (auto l : lines) {
    if (l.find(" -> ") != string::npos) l = l.substr(0, l.find(" -> "));
    string best;
    for (auto &p : x.v.paths) {
      size_t at = l.find(p.first);
      while (at != string::npos) {
        char nx = at + p.first.size() < l.size() ? l[at + p.first.size()] : ' ';
        char pv = at ? l[at - 1] : ' ';
        bool end = nx == ' ' || (nx == '/' && (at + p.first.size() + 1 == l.size() || l[at + p.first.size() + 1] == ' '));
        if ((pv == ' ' || pv == '^') && end && p.first.size() > best.size()) best = p.first;
        at = l.find(p.first, at + 1);
      }
    }
    c.check(!best.empty(), "unknown-report-line", l + ctxt());
    announced.insert(best);
  }
  // where they are
  map<string, string> at;        // physical place -> recorded path
  for (auto &p : concerned) { at[physical(before, spec::parentOf(p)) == "/" ? p : physical(before, spec::parentOf(p)) + p.substr(p.rfind('/'))] = p; at[p] = p; }
  for (auto &p : concerned) {
    // a link to a directory in place of a recorded directory stands for that directory
    const repo::RState *st = spec::stateAt(x.v.paths.at(p), x.id);
    if (st && st->kind == repo::K_DIR) at[physical(before, p)] = p;
  }
  std::set<string> all;
  listAll(before, before.lookup("/"), "", all);
  listAll(after, after.lookup("/"), "", all);
  std::set<string> changedDirs;
  vector<string> changed;
  for (auto &p : all) {
    if (p == x.s.r || below(p, x.s.r)) continue;
    if (entry(before, p, true) == entry(after, p, true)) continue;
    if (entry(before, p, false) != entry(after, p, false) || (before.lookup(p, false) >= 0 && before.r(before.lookup(p, false)).type != vos::T_DIR)) changed.push_back(p);
    else changedDirs.insert(p);
  }
  auto isAnnounced = [&](const string &rp) {
    for (auto &a : announced) if (rp == a || below(rp, a) || (x.v.paths.at(rp).policy == repo::P_NONE && below(a, rp))) return true;   // implicit parents go without saying
    return false;
  };
  std::set<string> holding;      // directories in which entries were restored
  for (auto &p : changed) {
    auto it = at.find(p);
    if (it == at.end()) {
      // not recorded: only if it lay inside a directory which a recorded file or symlink replaced
      bool inside = false;
      for (auto &q : at) {
        const repo::RState *st = spec::stateAt(x.v.paths.at(q.second), x.id);
        int n = before.lookup(q.first, false);
        if (st && st->kind != repo::K_DIR && below(p, q.first) && n >= 0 && before.r(n).type == vos::T_DIR && isAnnounced(q.second)) inside = true;
      }
      c.check(inside, "changed-unrecorded", p + ctxt());
      continue;
    }
    c.check(isAnnounced(it->second), "changed-unannounced", p + " (" + it->second + ")" + ctxt());
    holding.insert(spec::parentOf(p));
  }
  for (auto &p : changedDirs) {
    auto it = at.find(p);
    bool ok = holding.count(p) || (it != at.end() && isAnnounced(it->second));
    c.check(ok, "changed-unannounced-time", p + ctxt());
  }
  c.eval();
}

MC_CHECK(C18, "model_checking") {
  job.rule("All scenes of: a configuration, two recorded states, what stands there when restoring (states of family.hpp, links to files, directories, nothing, themselves and into the repository in place of the paths, foreign files mixed in), "
           "a number and a path. Every entry of the file system is compared before and after; each difference must be at a recorded place concerned, named by the report printed, or inside a directory a recorded file replaced; links are never written through; the repository stays the same. "
           "The result must also equal the reference model. Non-trivial: a distinct scene with something to restore.");
  job.assume("The repository is not among the files to restore, and no link in place of a recorded directory leads into it.");
  auto framed = [=](mc::Ctx &c, const RScene &x) {
    World w = x.s.w;
    w.now += 777;
    Result R = x.run(w);
    c.trans();
    c.check(R.ok(), "restore-failed", show(R) + x.v.str());
    frame(c, x, w, R);
    string d = restoredDiff(x.want, w.fs, x.s.r);
    c.check(d.empty(), "restored-state", d + x.v.str() + show(R) + dump(x.s.w.fs, "/s"));
    c.state(vos::hash64(dump(w.fs, "/")));
    c.nontrivial(vos::hash64(dump(x.s.w.fs, "/s"), x.s.canon(x.path + std::to_string(x.id))));
    c.validated();
  };
  job.explore("frame", [=](mc::Ctx &c) { framed(c, scene(c, true)); });
  job.explore("frame-nested", [=](mc::Ctx &c) { framed(c, nestedScene(c, c.pick("as", {"user", "root"}) ? 0 : 1000, c.thorough ? 3 : 2)); });
  job.explore("consent-withheld", [=](mc::Ctx &c) {
    RScene x = scene(c, false);
    static const vector<string> ans = {"n\n", "no\n", ""};
    World w = x.s.w;
    Result R = nb(w, x.args(), c.of(ans, "answer"));
    c.trans();
    c.eval();
    string d = diff(x.s.w.fs, w.fs, "/", vos::D_ALL, [&](const string &p) { return p == x.s.r; });
    if (d.empty()) d = diff(x.s.w.fs, w.fs, x.s.r, vos::D_ALL & ~vos::D_DIRMTIME);
    c.check(d.empty() && !R.ok() && R.normal(), "changed-without-consent", d + show(R));
  });
}

// Attributes of implicit parents are not promised.
static string finalDiff(const RScene &x, const FS &after) {
  FS a = x.want.fs, b = after;
  for (auto &p : x.v.paths)
    if (p.second.policy == repo::P_NONE) {
      int i = a.lookup(p.first), j = b.lookup(p.first);
      if (i >= 0 && j >= 0 && a.r(i).type == vos::T_DIR && b.r(j).type == vos::T_DIR) { auto &n = b.w(j); auto &m = a.r(i); n.perm = m.perm; n.uid = m.uid; n.gid = m.gid; n.mtime = m.mtime; }
    }
  spec::RestoreResult m = x.want;
  return restoredDiff(m, b, x.s.r);
}
MC_CHECK(C19, "fault_enumeration") {
  job.rule("All scenes of C18 (quick: a subset), restored while being killed before and after every changing operation and inside every write, or while every operation fails (EIO, ENOSPC, EACCES, short writes); then restored again (and, second part, "
           "killed again at every operation and restored a third time). Likewise a nested tree with read-only, private and setuid parts, restored by root and by its unprivileged owner. The final files must equal those of an undisturbed restore, and restoring once more must report nothing and change nothing. Non-trivial: a distinct half-restored file system.");
  job.assume("Attributes of implicit parent directories are not promised (C01).");
  auto finish = [](mc::Ctx &c, const RScene &x, World w, const string &what) {
    w.now += 50;
    Result r = x.run(w);
    c.trans();
    c.eval();
    auto ctxt = [&] { return what + "\nrecorded:\n" + x.v.str() + "files:\n" + dump(w.fs, "/") + show(r); };
    c.check(r.ok(), "rerun-failed", ctxt());
    string d = finalDiff(x, w.fs);
    c.check(d.empty(), "not-completed", d + ctxt());
    FS before = w.fs;
    w.now += 50;
    r = x.run(w);
    c.check(r.ok() && r.out.empty(), "not-quiet-afterwards", ctxt());
    d = diff(before, w.fs, "/", vos::D_ALL, [&](const string &p) { return p == x.s.r; });
    if (d.empty()) d = diff(before, w.fs, x.s.r, vos::D_ALL & ~vos::D_DIRMTIME);
    c.check(d.empty(), "repeated-restore-changed", d + ctxt());
    d = diff(x.s.w.fs, w.fs, x.s.r, vos::D_ALL & ~vos::D_DIRMTIME);
    c.check(d.empty(), "repository-changed", d + ctxt());
    c.validated();
  };
  auto killed = [=](mc::Ctx &c, const RScene &x, bool twice) {
    auto events = [&](const World &w0) {
      vector<Event> ev;
      World w = w0;
      Plan p;
      p.hook = [&](const Event &e) { ev.push_back(e); return Act(); };
      x.run(w, &p);
      return ev;
    };
    std::set<uint64_t> seen;
    std::function<void(const World &, int, const string &)> go = [&](const World &w0, int left, const string &pre) {
      vector<Event> ev = events(w0);
      for (size_t i = 0; i < ev.size(); i++) {
        if (!ev[i].mutates && i + 1 < ev.size()) continue;
        for (int m = 0; m < 3; m++) {
          if (m == 2 && ev[i].op != vos::S_WRITE) continue;
          World w = w0;
          w.now += 20;
          Plan p;
          p.hook = [&](const Event &e) { Act a; if ((size_t)e.idx == i) a.k = m == 0 ? Act::KillBefore : m == 1 ? Act::KillAfter : Act::KillMid; return a; };
          Result r = x.run(w, &p);
          string what = pre + (m == 0 ? "killed before " : m == 1 ? "killed after " : "killed inside ") + vos::opName[ev[i].op] + " #" + std::to_string(i) + " " + ev[i].path;
          c.check(r.kind == vos::E_KILLED, "not-killed", what + show(r));
          uint64_t h = vos::hash64(dump(w.fs, "/"));
          if (!seen.insert(h).second) continue;   // already completed from this very state
          c.state(h);
          c.nontrivial(vos::hash64(dump(w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME)));
          if (left > 0) go(w, left - 1, what + ", then ");
          finish(c, x, w, what);
        }
      }
    };
    go(x.s.w, twice ? 1 : 0, "");
  };
  job.explore("killed", [=](mc::Ctx &c) { killed(c, scene(c, true), false); });
  job.explore("killed-twice", [=](mc::Ctx &c) { killed(c, scene(c, false), true); });
  job.explore("unprivileged-killed", [=](mc::Ctx &c) { killed(c, nestedScene(c, c.pick("as", {"user", "root"}) ? 0 : 1000, c.thorough ? 2 : 1), true); });
  auto failed = [=](mc::Ctx &c, const RScene &x) {
    vector<Event> ev;
    {
      World w = x.s.w;
      Plan p;
      p.hook = [&](const Event &e) { ev.push_back(e); return Act(); };
      x.run(w, &p);
    }
    std::set<uint64_t> seen;
    for (size_t i = 0; i < ev.size(); i++) {
      if (ev[i].op == vos::S_TIME || ev[i].op == vos::S_LSEEK || ev[i].op == vos::S_TTYWRITE) continue;
      for (int m = 0; m < 4; m++) {
        if (m == 3 && ev[i].op != vos::S_WRITE) continue;
        if (m == 2 && ev[i].op != vos::S_WRITE && ev[i].op != vos::S_READ) continue;
        World w = x.s.w;
        w.now += 20;
        Plan p;
        p.hook = [&](const Event &e) {
          Act a;
          if ((size_t)e.idx == i) {
            a.k = m == 3 ? Act::FailMid : m == 2 ? Act::Short : Act::Fail;
            a.err = m == 0 ? EIO : m == 1 ? (ev[i].mutates ? ENOSPC : EACCES) : ENOSPC;
          }
          return a;
        };
        Result r = x.run(w, &p);
        string what = string("failing ") + vos::opName[ev[i].op] + " #" + std::to_string(i) + " " + ev[i].path + " way " + std::to_string(m);
        auto ctxt = [&] { return what + "\nrecorded:\n" + x.v.str() + "files:\n" + dump(w.fs, "/") + show(r); };
        c.check(r.normal(), "crash", ctxt());
        if (r.ok()) { string d = finalDiff(x, w.fs); c.check(d.empty(), "incomplete-success", d + ctxt()); }
        else if (ev[i].op != vos::S_TTYREAD) c.check(!r.err.empty(), "silent-failure", ctxt());
        w.fs.rm(x.s.r + "/lockfile");
        if (!seen.insert(vos::hash64(dump(w.fs, "/"))).second) continue;
        c.state(vos::hash64(dump(w.fs, "/")));
        c.nontrivial(vos::hash64(dump(w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME)));
        finish(c, x, w, what);
      }
    }
  };
  job.explore("failed", [=](mc::Ctx &c) { failed(c, scene(c, c.thorough)); });
  job.explore("unprivileged-failed", [=](mc::Ctx &c) { failed(c, nestedScene(c, c.pick("as", {"user", "root"}) ? 0 : 1000, c.thorough ? 2 : 1)); });
  job.explore("again", [=](mc::Ctx &c) {
    // undisturbed, then again
    RScene x = scene(c, true);
    World w = x.s.w;
    w.now += 20;
    Result r = x.run(w);
    c.check(r.ok(), "restore-failed", show(r));
    c.state(vos::hash64(dump(w.fs, "/")));
    finish(c, x, w, "undisturbed");
  });
}
