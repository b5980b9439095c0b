// C01 and C02: what was backed up comes back.
#include "../lib.hpp"
#include "../family.hpp"
#include "../scenes.hpp"
#include "../real.hpp"
#include <algorithm>
#include <ctime>
using namespace lib;
using namespace fam;

// Every selected path must be as it was in `then` (independent of the restore model).
static void groundTruth(mc::Ctx &c, const repo::View &v, const FS &then, const FS &after, const char *what) {
  for (auto &p : v.paths) {
    if (p.second.policy == repo::P_NONE) continue;
    int a = then.lookup(p.first, false), b = after.lookup(p.first, false);
    if (a < 0) continue;
    if (b < 0) c.fail(what, p.first + " is missing after the restore");
    const vos::Inode &x = then.r(a);
    if (after.r(b).type == vos::T_LINK && x.type == vos::T_DIR) b = after.lookup(p.first);
    if (b < 0) c.fail(what, p.first + " is a dangling link");
    const vos::Inode &y = after.r(b);
    bool same = x.type == y.type && x.uid == y.uid && x.gid == y.gid;
    if (same && x.type != vos::T_LINK) same = x.perm == y.perm && x.mtime == y.mtime;
    if (same && x.type != vos::T_DIR) same = x.data == y.data;
    if (!same) c.fail(what, p.first + " differs from the backed-up state\nthen:\n" + dump(then, "/s") + "after:\n" + dump(after, "/s"));
  }
}

// Perturbs the entry at p in one of nPert ways; returns false if it does not apply.
static const int nPert = 46;
static bool perturb(mc::Ctx &c, FS &fs, const string &p, int k) {
  int n = fs.lookup(p, false);
  if (k == 0) { fs.rm(p); return true; }
  if (k <= 8) {
    int64_t t = 1234;
    switch (k) {
    case 1: if (fs.r(n).type == vos::T_FILE) return false; fs.rm(p); fs.mkfile(p, "replaced", 0640, t, 5, 6); break;
    case 2: if (fs.r(n).type == vos::T_DIR) return false; fs.rm(p); fs.mkdir(p, 0750, t, 5, 6); fs.mkfile(p + "/inner", "inner", 0600, t); break;
    case 3: fs.rm(p); fs.mklink(p, "/out/file", 5, 6); break;
    case 4: fs.rm(p); fs.mklink(p, "/out/missing", 5, 6); break;
    case 5: fs.rm(p); fs.mklink(p, "/out/dir", 5, 6); break;
    case 6: fs.rm(p); fs.mkfifo(p); break;
    case 7: fs.rm(p); fs.mklink(p, p.substr(p.rfind('/') + 1), 5, 6); break;   // to itself
    case 8: fs.rm("/s"); fs.mkfile("/s", "parent is a file", 0644, t); break;
    }
    return true;
  }
  if (k == 9) { fs.rm("/s"); return true; }
  // 10..: subsets of attribute and content changes
  int m = k - 10;
  if (m == 0 || m > 35) return m == 0;
  vos::Inode &i = fs.w(n);
  if (i.type == vos::T_LINK) {
    if (m & ~(1 | 4 | 8)) return false;
    if (m & 1) i.data = i.data == "changed" ? "other" : "changed";
  } else if (m < 32) {
    if (m & 1) {
      if (i.type == vos::T_DIR) { fs.mkfile(p + "/new", "new", 0600, 77); }
      else if (m & 16) i.data += "appended";
      else i.data += "x";
    }
    if (m & 2) i.perm ^= 0022;
    if (m & 16) i.mtime += 77;
  } else {
    if (i.type != vos::T_FILE) return false;
    if (m == 32) { if (i.data.empty()) return false; i.data[0] ^= 1; i.mtime += 1; }
    if (m == 33) { if (i.data.empty()) return false; i.data.back() ^= 0x80; i.mtime -= 1; }
    if (m == 34) i.data.clear();
    if (m == 35) { i.data = i.data.substr(0, i.data.size() / 2); i.perm = 04777; }
    if (m == 34 && i.data.empty()) i.mtime += 3;
    return true;
  }
  if (m & 4) fs.w(n).uid += 3;
  if (m & 8) fs.w(n).gid += 3;
  return true;
}

// One attribute differs by one bit or by a power of two: noticed when restoring, and by the next backup.
static void smallestDifferences(mc::Ctx &c, const vector<string> &pol) {
  Sim s;
  s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
  FS &fs = s.w.fs;
  int kind = c.pick("kind", {"file", "dir", "link", "large file"});
  if (kind == 0) fs.mkfile("/s/d", "content", 0644, 1700000001, 1000000, 2000000);
  if (kind == 1) fs.mkdir("/s/d", 0755, 1700000001, 1000000, 2000000);
  if (kind == 2) fs.mklink("/s/d", "some target", 1000000, 2000000);
  if (kind == 3) fs.mkfile("/s/d", string(300, 'l'), 0644, 1700000001, 1000000, 2000000);
  FS first = fs;
  s.backup(c, O_VIEW);
  vos::Inode &i = fs.w(fs.lookup("/s/d", false));
  static const int64_t d[] = {1, -1, 128, 256, 32768, 65536, 1 << 24, 1LL << 31, 1LL << 32, -(1LL << 32), 1LL << 33, 1LL << 40};
  int what = c.pick("what", {"perm", "uid", "gid", "mtime", "content"}), k = c.choose(kind == 0 || kind == 3 || what != 4 ? 12 : 1, "by");
  if (what == 0) { c.require(kind != 2); i.perm ^= 1u << k; }
  if (what == 1 || what == 2) { c.require(k < 8); (what == 1 ? i.uid : i.gid) += d[k]; }
  if (what == 3) { c.require(kind != 2); i.mtime += d[k]; }
  if (what == 4) {
    c.require(kind != 1);
    if (kind == 2) i.data.back() ^= 1;
    else { i.mtime += d[k]; i.data[k % i.data.size()] ^= 1; }
  }
  FS second = fs;
  repo::View v = s.view(c);
  World w = s.w;
  restore(c, w, s.r, v, 0, "/", 7);
  groundTruth(c, v, first, w.fs, "not-as-backed-up");
  s.backup(c, O_VIEW);
  v = s.view(c);
  fs.rm("/s/d");
  w = s.w;
  restore(c, w, s.r, v, 0, "/", 7);
  groundTruth(c, v, second, w.fs, "change-not-recorded");
  if (s.cfgText.find("track") == string::npos) return;
  w = s.w;
  restore(c, w, s.r, v, 1, "/", 7);
  groundTruth(c, v, first, w.fs, "first-state-lost");
  c.nontrivial(s.cfgText + dump(second, "/s"));
}
// Long paths, names and link targets, recorded and changed over three backups, each of them restored.
static void longPaths(mc::Ctx &c, const vector<string> &pol) {
  Sim s;
  FS &fs = s.w.fs;
  string where = c.of(pol, "policy");
  size_t n = flt::longLengths()[c.choose((int)flt::longLengths().size())];
  c.note(mc::fmt("%zu bytes", n));
  string deep = flt::longPath("/s/d", n);
  int rule = c.pick("rule", {"on-top", "on-the-deepest", "pattern-for-the-last-name"});
  string parent = spec::parentOf(deep), last = deep.substr(parent.size() + 1);
  s.config("[" + where + "]\n" + (rule == 0 ? "/s/d" : rule == 1 ? deep : parent + "//^" + last.substr(0, last.size() < 200 ? last.size() : 200)) + "\n");
  c.require(s.cfg.ok);
  flt::mkdirsAt(fs, deep);
  string same = string(254, 'n');
  auto at = [&](const string &q) { return deep + "/" + q; };
  auto fill = [&](int k) {
    fs.mkfile(at("f"), "content number " + std::to_string(k) + ", stored in the repository", 0640, 100 + k, 4, 5);
    fs.mkfile(at("g"), "inline" + std::to_string(k), 0600, 200 + k);
    if (n < 3600) { fs.mkfile(at(same + "1"), "a", 0640, 102 + k); fs.mkfile(at(same + "2"), "b" + std::to_string(k), 0640, 102); }
    fs.rm(at("l"));
    fs.mklink(at("l"), string(n - 1, 'l') + (char)('a' + k));
    if (k == 1) { fs.rm(at("g")); fs.mkdir(at("e"), 0750, 300); }
    for (string p = deep; p.size() > 2; p = spec::parentOf(p)) fs.setmtime(p, 4000 + k);
  };
  vector<FS> then;
  vector<repo::View> views;
  for (int k = 0; k < 3; k++) {
    fill(k);
    then.push_back(fs);
    s.backup(c, O_VIEW | O_FILES | O_STATUS);
    repo::View v = s.view(c);
    c.check(v.paths.count(at("f")) && v.paths.count(at("l")), "not-recorded", deep);
  }
  repo::View v = s.view(c);
  int k = where == "track" ? 2 - c.choose(3, "restored") : 2;
  int over = c.pick("over", {"nothing", "the-last-state"});
  World w = s.w;
  if (over == 0) w.fs.rm("/s");
  c.check(restore(c, w, s.r, v, 2 - k, "/s", 7), "restore-failed", "");
  for (auto q : {"f", "l", "g"}) {
    int a = then[k].lookup(at(q), false), b = w.fs.lookup(at(q), false);
    if (a < 0) continue;
    if (b < 0) c.fail("not-as-backed-up", at(q) + " is missing");
    const vos::Inode &x = then[k].r(a), &y = w.fs.r(b);
    c.check(x.type == y.type && x.data == y.data && (x.type == vos::T_LINK || x.mtime == y.mtime), "not-as-backed-up", at(q));
  }
  c.nontrivial(s.canon(std::to_string(n) + "/" + std::to_string(k * 2 + over)));
}
static void realKernel(mc::Ctx &c);
MC_CHECK(C01, "model_checking") {
  job.rule("Every combination of: a configuration (policies of a parent and a child, patterns, ignore rules), a state when backing up, a "
           "later state, and the path to restore; for single entries every combination of the listed attributes, contents and "
           "perturbations; for a nested tree all pairs of perturbations, as root and unprivileged. Compared with the reference model and, "
           "independently of it, with the file system as it was. The last part repeats backups and restores with an ordinary build on the real kernel, and compares everything with the virtual one. Non-trivial: a distinct (recorded state, later state, path) in which something must be restored.");
  job.assume("An edit is visible as a changed size or modification time, as in the documentation; hard links, ACLs, extended attributes are not recorded.");
  job.explore("states", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    if (c.thorough) {
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_VIEW | O_STATUS);
    }
    applyState(s.w.fs, chooseState(c));
    s.w.fs.mkfile("/s/unrelated", "u", 0644, 900);
    FS then = s.w.fs;
    s.backup(c, O_VIEW | O_STATUS);
    repo::View v = s.view(c);
    c.note("later");
    applyState(s.w.fs, chooseState(c));
    int t = c.choose(4);
    static const char *targets[] = {"/", "/s", "/s/d", "/s/d/c"};
    c.note(string("restore ") + targets[t]);
    World w = s.w;
    Result R;
    if (restore(c, w, s.r, v, 0, targets[t], 7, &R)) {
      if (R.out.find("restore? (y") != string::npos) c.nontrivial(s.canon(std::to_string(k) + targets[t] + dump(s.w.fs, "/s")));
      if (t == 0 && !c.thorough) groundTruth(c, v, then, w.fs, "not-as-backed-up");
    }
  });
  job.explore("single-entry", [=](mc::Ctx &c) {
    Sim s;
    static const char *pol[] = {"track", "copy", "mirror"};
    int p = c.choose(c.thorough ? 3 : 2);
    c.note(pol[p]);
    s.config(string("[") + pol[p] + "]\n/s/d\n");
    static const uint32_t perms[] = {0644, 04755, 0, 07777, 0111, 02755, 01777, 06700};
    static const uint32_t own[][2] = {{0, 0}, {7, 8}, {0, 8}, {7, 0}};
    static const int64_t mt[] = {1700000001, 8589934597, 0, 2147483648, -5, 1, -8589934597};
    static const vector<string> data = {string(20, 'h'), string(21, 'i'), "", "a", string(4096, 'x') + string(5000, '\0') + "end", string(4097, '\n'), string(19, '\xff')};
    static const vector<string> links = {"x", "/abs/olute", string(300, 'l'), "sp ace \xc3\xa4\n"};
    FS &fs = s.w.fs;
    fs.mkfile("/out/file", "outside", 0604, 500, 1, 2);
    fs.mkdir("/out/dir", 0705, 501, 3, 4);
    int kind = c.pick("kind", {"file", "dir", "link", "empty dir"});
    int pm = kind == 2 ? 0 : c.choose(c.thorough ? 8 : 5, "perm"), o = c.choose(c.thorough ? 4 : 3, "own"), t = kind == 2 ? 0 : c.choose(c.thorough ? 7 : 5, "mtime");
    if (kind == 0) fs.mkfile("/s/d", c.of(data, "content"), perms[pm], mt[t], own[o][0], own[o][1]);
    if (kind == 1) { fs.mkdir("/s/d", perms[pm], mt[t], own[o][0], own[o][1]); fs.mkfile("/s/d/kid", "kid", 0644, 3000, own[o][0], own[o][1]); }
    if (kind == 2) fs.mklink("/s/d", c.of(links, "target"), own[o][0], own[o][1]);
    if (kind == 3) fs.mkdir("/s/d", perms[pm], mt[t], own[o][0], own[o][1]);
    FS then = fs;
    s.backup(c, O_VIEW | O_STATUS);
    repo::View v = s.view(c);
    int q = c.choose(nPert, "perturbation");
    c.require(perturb(c, fs, "/s/d", q));
    string sig = dump(then, "/s") + dump(fs, "/");
    World w = s.w;
    Result R;
    bool newline = dump(then, "/s").find("\xa4\n") != string::npos;   // the report is read by lines
    restore(c, w, s.r, v, 0, c.choose(2) ? "/" : "/s/d", newline ? R_STATE | R_REPO : 7, &R);
    if (R.out.find("restore? (y") != string::npos) c.nontrivial(sig + pol[p]);
    groundTruth(c, v, then, w.fs, "not-as-backed-up");
    string d = diff(s.w.fs, w.fs, "/out");
    // through a link to a directory standing in for a recorded directory its attributes are restored
    if (!((kind == 1 || kind == 3) && q == 5)) c.check(d.empty(), "changed-elsewhere", d);
  });
  job.explore("nested-tree", [=](mc::Ctx &c) {
    Sim s;
    bool user = c.pick("as", {"root", "user"});
    uint32_t u = user ? 1000 : 0;
    FS &fs = s.w.fs;
    static const char *pol[] = {"track", "mirror"};
    s.config(string("[") + pol[c.choose(2)] + "]\n/s/d\n[copy]\n/s/d/sub\n");
    flt::nestedTree(fs, u);
    FS then = fs;
    auto cfg = [&](vector<string> a) {
      RunCfg r = cfgFor(a);
      r.euid = u;
      return r;
    };
    s.w.now = 1700001000;
    Result b = run(s.w, cfg({"/r"}));
    c.check(b.ok(), "backup-failed", show(b));
    repo::View v = s.view(c);
    for (int i = 0; i < (c.thorough ? 3 : 2); i++) {
      int it = c.choose((int)flt::nestedItems.size(), "item"), op = c.choose(flt::nestedOps, "op");
      c.require(flt::nestedChange(fs, flt::nestedItems[it], op, i & 1, u));
    }
    World w = s.w;
    RunCfg rc = cfg({"/r", "0", "/"});
    Result R;
    restore(c, w, s.r, v, 0, "/", 7, &R, &rc);
    if (R.out.find("restore? (y") != string::npos) c.nontrivial(dump(fs, "/s") + (user ? "u" : "r"));
    groundTruth(c, v, then, w.fs, "not-as-backed-up");
  });
  job.explore("smallest-differences", [=](mc::Ctx &c) { smallestDifferences(c, {"track", "copy", "mirror"}); });
  // Several trees beside each other at the top.
  job.explore("several-trees", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s\n/t/a\n[copy]\n/u/a/b\n[mirror]\n/v\n");
    FS &fs = s.w.fs;
    auto make = [&](const string &top) {
      fs.mkfile(top + "/a/b/file", "a file in " + top, 0640, 100, 1, 2);
      fs.mklink(top + "/a/b/link", "file", 1, 2);
      fs.mkdir(top + "/a/b/e", 0500, 101);
      for (auto p : {"/a/b", "/a", ""}) fs.setmtime(top + p, 90);
    };
    vector<string> tops = {"/s", "/t", "/u"};
    if (c.thorough) tops.push_back("/v");
    for (auto &t : tops) make(t);
    FS then = fs;
    s.backup(c, O_VIEW);
    repo::View v = s.view(c);
    for (auto &t : tops) {
      switch (c.pick("now", {"same", "gone", "child gone", "edited", "a file", "a link", "other contents"})) {
      case 1: fs.rm(t); break;
      case 2: fs.rm(t + "/a"); break;
      case 3: fs.mkfile(t + "/a/b/file", "another file, edited", 0640, 102, 1, 2); break;
      case 4: fs.rm(t); fs.mkfile(t, "a file", 0600, 103); break;
      case 5: fs.rm(t + "/a/b"); fs.mklink(t + "/a/b", "nowhere"); break;
      case 6: fs.rm(t + "/a/b"); fs.mkfile(t + "/a/b", "now a file", 0444, 104); fs.mkfile(t + "/more", "more", 0600, 105); break;
      }
    }
    World w = s.w;
    Result R;
    static const vector<string> targets = {"/", "/t", "/u/a/b"};
    string target = c.of(targets, "target");
    if (!restore(c, w, s.r, v, 0, target, 7, &R)) return;
    if (R.out.find("restore? (y") != string::npos) c.nontrivial(dump(s.w.fs, "/") + target);
    if (target == "/") groundTruth(c, v, then, w.fs, "not-as-backed-up");
  });
  // What a process inherits (umask, user) and what directories pass on (setgid) must not show in what is restored.
  job.explore("circumstances", [=](mc::Ctx &c) {
    Sim s;
    static const uint32_t masks[] = {022, 077, 0, 027, 0777, 0111, 0222};
    bool user = c.pick("as", {"root", "user"});
    uint32_t u = user ? 1000 : 0;
    bool kept = !user || c.thorough;
    uint32_t mb = masks[c.choose(kept ? 7 : 4, "umask-of-backup")], mr = masks[c.choose(7, "umask-of-restore")];
    c.require(!user || !((mb | mr) & 0700));
    FS &fs = s.w.fs;
    static const char *pol[] = {"track", "copy", "mirror"};
    s.config(string("[") + pol[c.choose(3, "policy")] + "]\n/s/d\n");
    if (user) { int n = fs.lookup("/r"); fs.w(n).uid = fs.w(n).gid = u; n = fs.lookup("/r/config"); fs.w(n).uid = fs.w(n).gid = u; }
    static const uint32_t dirs[][2] = {{0755, 0}, {02755, 9}, {02775, 1000}, {0700, 9}};
    int q = c.choose(4, "parent");
    int sd = fs.mkdir("/s", dirs[q][0], 5000, u, dirs[q][1] ? dirs[q][1] : u);
    fs.w(sd).mtime = 5000;
    static const uint32_t perms[] = {0644, 0777, 0666, 02755, 0700, 0};
    uint32_t pm = perms[c.choose(user ? 5 : 6, "perm")];
    int kind = c.pick("kind", {"small", "file", "link", "dir"});
    c.require(kind != 2 || pm == 0644);
    auto make = [&](const string &p, int kind, uint32_t perm, const string &more) {
      if (kind == 0) fs.mkfile(p, "small" + more, perm, 77000, u, u);
      if (kind == 1) fs.mkfile(p, "this is a larger file" + more, perm, 77001, u, u);
      if (kind == 2) fs.mklink(p, "target" + more, u, u);
      if (kind == 3) { fs.mkdir(p, perm | 0700, 77002, u, u); fs.mkfile(p + "/k", "the kid of a directory" + more, 0666, 77003, u, u); fs.mkdir(p + "/e", 0777, 77004, u, u); fs.mklink(p + "/l", "k" + more, u, u); int n = fs.lookup(p); fs.w(n).mtime = 77002; }
    };
    make("/s/d", kind, pm, "");
    c.require(!(user && kind != 2 && kind != 3 && !(pm & 0400)));
    FS then = fs;
    auto cfg = [&](vector<string> a, uint32_t m) {
      RunCfg r = cfgFor(a);
      r.euid = u;
      r.umask = m;
      return r;
    };
    s.w.now = 1700001000;
    Result b = run(s.w, cfg({"/r"}, mb));
    c.check(b.ok(), "backup-failed", show(b));
    repo::View v = s.view(c);
    int now = c.pick("now", {"gone", "another small", "another file", "another link", "another directory", "other times", "without the parent"});
    if (now <= 4) { fs.rm("/s/d"); if (now) make("/s/d", now - 1, 0640, " now"); }
    if (now == 5) { c.require(kind != 2); fs.w(fs.lookup("/s/d")).mtime++; }
    if (now == 6) { c.require(!user || dirs[q][1] != 9); fs.rm("/s"); }   // a user cannot give files to foreign groups
    World w = s.w;
    if (now == 6 && user) { int n = w.fs.lookup("/"); w.fs.w(n).perm = 0777; s.w.fs.w(n).perm = 0777; }
    RunCfg rc = cfg({"/r", "0", c.choose(2) ? "/" : "/s/d"}, mr);
    Result R;
    restore(c, w, s.r, v, 0, rc.argv.back(), 7, &R, &rc);
    if (R.out.find("restore? (y") != string::npos) c.nontrivial(dump(fs, "/s") + std::to_string(mr) + (user ? "u" : "r"));
    groundTruth(c, v, then, w.fs, "not-as-backed-up");
  });
  // Contents of every length around the limits of inline storage and of the blocks in which files are copied.
  job.explore("lengths", [=](mc::Ctx &c) {
    static const int blk[] = {4096, 512, 16, 100, 1}, small[] = {0, 1, 2, 19, 20, 21, 40};
    Sim s;
    int b = blk[c.choose(5, "blksize")];
    std::set<int> lens(small, small + 7);
    for (int k : {1, 2, 3, 4, 5, 8}) for (int o = c.thorough ? -3 : -1; o <= (c.thorough ? 3 : 1); o++) if (k * b + o > 0) lens.insert(k * b + o);
    vector<int> ls(lens.begin(), lens.end());
    int L = ls[c.choose((int)ls.size(), "length")];
    static const vector<string> pol = {"track", "copy", "mirror"};
    s.config("[" + c.of(pol, "policy") + "]\n/s\n");
    string A;
    for (int i = 0; i < L; i++) A += char('a' + (i * 11 + i / 26 + i / 512) % 26);
    s.w.blksize = b;
    int was = c.pick("before-the-backup", {"new", "empty", "longer", "link", "other-kind", "same-length", "shorter", "first-byte-differs"});
    FS &fs = s.w.fs;
    fs.mkdir("/s", 0755, 5000);
    if (was) {
      if (was == 1) fs.mkfile("/s/f", "", 0644, 100);
      if (was == 2) fs.mkfile("/s/f", A + A + "longer", 0644, 101);
      if (was == 3) fs.mklink("/s/f", "x");
      if (was == 4) fs.mkdir("/s/f", 0755, 102);
      if (was > 4) {
        c.require(L > 0);
        string B = A;
        if (was == 6) B.pop_back();
        else (was == 5 ? B.back() : B[0]) ^= 1;
        fs.mkfile("/s/f", B, 0640, 103, 4, 5);
      }
      fs.setmtime("/s", 5000);
      s.backup(c, O_VIEW | O_FILES);
      fs.rm("/s/f");
    }
    fs.mkfile("/s/f", A, 0640, 200, 4, 5);
    if (c.choose(2, "equal-neighbour")) fs.mkfile("/s/g", A, 0600, 201);
    fs.setmtime("/s", 5000);
    FS then = fs;
    s.backup(c, O_VIEW | O_FILES);
    repo::View v = s.view(c);
    c.check(nb(s.w, {s.r, "integrity"}).ok(), "integrity", "");
    static const int ob[] = {0, 512, 4096};
    int q = ob[c.choose(c.thorough ? 3 : 2, "blksize-later")];
    if (q) s.w.blksize = q;
    int over = c.pick("restored-over", {"nothing", "same-length", "longer", "shorter", "link"});
    fs.rm("/s/f");
    string B = A;
    if (L) B[L - 1] ^= 1;
    if (over == 1) { c.require(L > 0); fs.mkfile("/s/f", B, 0640, 300, 4, 5); }
    if (over == 2) fs.mkfile("/s/f", A + "more", 0640, 301, 4, 5);
    if (over == 3) { c.require(L > 0); fs.mkfile("/s/f", A.substr(0, L - 1), 0640, 302, 4, 5); }
    if (over == 4) fs.mklink("/s/f", "g");
    World w = s.w;
    c.check(restore(c, w, s.r, v, 0, "/s", 7), "restore-failed", "");
    groundTruth(c, v, then, w.fs, "not-as-backed-up");
    c.nontrivial(s.canon(std::to_string(L) + "/" + std::to_string(b * 5 + over) + "/" + std::to_string(was)));
  });
  job.explore("long-paths", [=](mc::Ctx &c) { longPaths(c, {"track", "copy", "mirror"}); });
  // Files whose size needs more than 32 bits: new, edited only beyond that, restored over what is cut off there, and grown by
  // a multiple of 2^32 while nothing else changes.
  job.explore("beyond-32-bits", [=](mc::Ctx &c) {
    static const int64_t sizes[] = {(1LL << 32) + 5000, (1LL << 31) + 5000, 1LL << 32, (1LL << 33) + 70001};
    int64_t size = sizes[c.choose(c.thorough ? 4 : 1, "size")];
    int kind = c.choose(3, "edited-beyond");   // 2: only the size changes, by a multiple of 2^32
    bool edit = kind == 1;
    Sim s;
    FS &fs = s.w.fs;
    fs.mkdir("/r");
    fs.mkfile("/r/config", "[track]\n/s/f\n");
    if (kind == 2) {
      int64_t small = size % (1LL << 32) < (1 << 20) ? size % (1LL << 32) : 200;
      size = (size >> 32 ? size >> 32 << 32 : 1LL << 32) + small;
      fs.mkfile("/s/f", string(small, 'z'), 0644, 100);
    } else flt::hugeFile(s.w, "/s/f", size, "the end", 100);
    FS first = fs;
    auto same = [&](const FS &a, const FS &b, const char *key) {
      string d = diff(a, b, "/s", vos::D_ALL & ~vos::D_DIRMTIME);
      c.check(d.empty(), key, d);
    };
    auto run = [&](vector<string> a, const char *key) {
      Result R = nb(s.w, a);
      c.trans();
      c.eval();
      c.check(R.ok(), key, show(R));
      return R;
    };
    run({"/r"}, "backup-failed");
    same(first, fs, "backup-changed-source");
    auto st = flt::storedFiles(fs, "/r");
    auto stored = [&](const string &p, const FS &then) {
      const vos::Inode &a = fs.r(fs.lookup(p)), &b = then.r(then.lookup("/s/f"));
      return a.data == b.data && a.zeros == b.zeros && a.tail == b.tail;
    };
    c.check(kind == 2 || (st.size() == 1 && stored(st[0], first)), "stored-differently", dump(fs, "/"));
    if (kind == 2) {
      flt::hugeFile(s.w, "/s/f", size, "the end", 100);
      FS second = fs;
      run({"/r"}, "second-backup-failed");
      st = flt::storedFiles(fs, "/r");
      bool found = false;
      for (const string &p : st) found |= stored(p, second);
      c.check(found, "growth-lost", dump(fs, "/"));
      Result R = run({"/r"}, "third-backup-failed");
      c.check(R.out.find("(y/n)") == string::npos, "growth-not-settled", show(R));
      run({"/r", "1", "/s/f"}, "restore-failed");
      same(first, fs, "small-state-differs");
    } else if (edit) {
      fs.w(fs.lookup("/s/f")).tail = "the END";
      fs.w(fs.lookup("/s/f")).mtime = 200;
      FS second = fs;
      run({"/r"}, "second-backup-failed");
      st = flt::storedFiles(fs, "/r");
      c.check(st.size() == 2 && (stored(st[0], second) || stored(st[1], second)) && (stored(st[0], first) || stored(st[1], first)), "edit-lost", dump(fs, "/"));
      run({"/r", "1", "/s/f"}, "restore-failed");
      same(first, fs, "first-state-differs");
    } else {
      // as if copied with a counter of 32 bits
      vos::Inode &i = fs.w(fs.lookup("/s/f"));
      i.tail.clear();
      i.zeros = size % (1LL << 32) > vos::sparseFrom ? size % (1LL << 32) - vos::sparseFrom : 0;
      run({"/r", "0", "/s/f"}, "restore-failed");
      same(first, fs, "not-as-backed-up");
      Result R = run({"/r", "0", "/s/f"}, "restore-failed");
      c.check(R.out.find("(y/n)") == string::npos, "something-left", show(R));
    }
    c.nontrivial(std::to_string(size) + "neg"[kind]);
  });
  if (real::available()) job.explore("real-kernel", realKernel);
  else job.assume("The part on the real kernel could not run here.");
  real::cleanup();
}

// The virtual OS against the real kernel: the same commands on both, each in its own scratch directory of the same name.
namespace {
const int64_t RECENT = 1500000000;     // times after that come from the clock
struct Twin {
  real::Box box;
  World w;
  string T, r, mismatch;
  Result virt;
  Twin() : T(box.dir), r(T + "/r") {
    w.fs.mkdir(T, 0755, 1000, real::UID, real::UID);
    w.fs.mkdir(r, 0755, 1000, real::UID, real::UID);
  }
  void own() {                           // everything belongs to the unprivileged user
    std::function<void(int)> go = [&](int n) {
      vos::Inode &i = w.fs.w(n);
      i.uid = i.gid = real::UID;
      auto e = i.ents;
      for (auto &x : e) go(x.second);
    };
    int n = w.fs.lookup(T + "/s", false);
    if (n >= 0) go(n);
    n = w.fs.lookup(r, false);
    go(n);
    box.put(w.fs, T + "/s");
  }
  static string lines(string s) {
    vector<string> v;
    size_t i = 0;
    while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; }
    std::sort(v.begin(), v.end());       // directories are listed in another order
    s.clear();
    for (auto &l : v) s += l + "\n";
    return s;
  }
  static FS normal(const FS &f) {
    FS g = f;
    for (size_t i = 0; i < g.ino.size(); i++) if (g.ino[i] && g.r(i).mtime > RECENT) { g.w(i).mtime = RECENT; g.w(i).mtimens = 0; }
    return g;
  }
  static string records(const FS &f, const string &r) {
    repo::View v;
    string e = repo::load(f, r, v);
    if (!e.empty()) return e;
    for (auto &t : v.times) t = 0;
    for (auto &p : v.paths) for (auto &h : p.second.hist) { h.time = 0; if (p.second.policy == repo::P_NONE) { h.st.uid = h.st.gid = h.st.perm = 0; h.st.mtime = 0; } else if (h.st.mtime > RECENT) h.st.mtime = RECENT; }
    return v.str();
  }
  Result nb(vector<string> a, const string &in = "y\n") {
    RunCfg c = cfgFor(a, in, T);
    c.euid = real::UID;
    Result x = box.nb(a, in, T);
    w.now = time(nullptr);
    Result y = virt = vos::run(w, c);
    FS got = box.get();
    auto differ = [&](const string &what, const string &d) { if (mismatch.empty()) { mismatch = what + ":"; for (auto &s : a) mismatch += " " + s; mismatch += "\n" + d; } };
    if (x.kind != y.kind || x.code != y.code || x.sig != y.sig) differ("end", "real " + show(x) + "virtual " + show(y));
    if (lines(x.out) != lines(y.out)) differ("stdout", "real " + x.out + "virtual " + y.out);
    if (lines(x.err) != lines(y.err)) differ("stderr", "real " + x.err + "virtual " + y.err);
    string d = diff(normal(w.fs), normal(got), T + "/s", vos::D_ALL | vos::D_NS);
    if (!d.empty()) differ("files", d);
    if (records(w.fs, r) != records(got, r)) differ("repository", "real " + records(got, r) + "virtual " + records(w.fs, r));
    return x;
  }
};
}  // namespace

static void realKernel(mc::Ctx &c) {
  Twin t;
  FS &fs = t.w.fs;
  const string D = t.T + "/s/d";
  bool nested = c.choose(2, "nested");
  static const char *pol[] = {"track", "mirror", "copy"};
  int p = c.choose(nested ? 2 : 5);
  string cfg = p < 3 ? string("[") + pol[p] + "]\n" + D + "\n" : p == 3 ? "[copy]\n" + t.T + "/s\n[track]\n" + D + "/c\n" : "[mirror]\n" + t.T + "/s//^d$\n[ignore]\ne$\n";
  if (nested) {
    FS tree;
    tree.mkdir("/r");
    flt::nestedTree(tree, real::UID);
    fs.rm(t.T + "/s");
    fs.mkdir(t.T + "/s", 0755, 5000);
    // the same below the scratch directory
    std::function<void(int, const string &)> copy = [&](int n, const string &q) {
      const vos::Inode i = tree.r(n);
      if (i.type == vos::T_DIR) { if (q != t.T + "/s") fs.mkdir(q, i.perm, i.mtime); for (auto &e : i.ents) copy(e.second, q + "/" + e.first); int m = fs.lookup(q); fs.w(m).mtime = i.mtime; }
      else if (i.type == vos::T_LINK) fs.mklink(q, i.data);
      else fs.mkfile(q, i.data, i.perm, i.mtime);
    };
    copy(tree.lookup("/s"), t.T + "/s");
  } else applyState(fs, chooseState(c, c.thorough ? nStates : 15), D);
  fs.mkfile(t.r + "/config", cfg, 0644, 1000, real::UID, real::UID);
  t.own();
  t.box.put(fs, t.r);
  FS first = fs;
  Result b = t.nb({t.r});
  if (!t.virt.ok() && !b.ok()) throw mc::Stop();    // e.g. a dangling link where a directory is configured
  c.check(b.ok(), "real-backup-failed", show(b));
  if (nested) {
    for (int i = 0; i < (c.thorough ? 2 : 1); i++) {
      static const vector<string> &items = flt::nestedItems;
      string it = t.T + items[c.choose((int)items.size(), "item")];
      c.require(flt::nestedChange(fs, it, c.choose(flt::nestedOps, "op"), i, real::UID));
    }
  } else {
    applyState(fs, chooseState(c, c.thorough ? nStates : 15), D);
    t.own();
    FS second = fs;
    if (c.choose(2, "second-backup")) { Result g = t.nb({"r/"}); if (!t.virt.ok() && !g.ok()) throw mc::Stop(); c.check(g.ok(), "real-backup-failed", show(g)); first = second; }
    fs.rm(D);
    if (c.choose(2, "restored-over")) { fs.mkdir(D, 0755, 7000); fs.mkfile(D + "/c", "something else", 0640, 7001); fs.mklink(D + "/l", "c"); }
  }
  t.own();
  // read back what was recorded in the last backup
  vos::FS real0 = t.box.get();
  repo::View v;
  string e = repo::load(real0, t.r, v);
  c.check(e.empty(), "real-repository", e);
  Result R;
  if (!v.times.empty()) R = t.nb({t.r, "0", "/"});
  else R = t.nb({t.r, "integrity"});
  c.trans(2);
  c.eval();
  vos::FS after = t.box.get();
  if (!v.times.empty()) {
    // as a ground truth: whatever the newest backup holds must be there
    c.check(R.ok(), "real-restore-failed", show(R) + v.str());
    for (auto &q : v.paths) {
      if (q.second.policy == repo::P_NONE || q.second.hist.empty()) continue;
      const repo::RState &s = q.second.hist.front().st;
      if (s.kind == repo::K_NONE) continue;
      bool orphan = false;               // kept below something that is no directory anymore
      for (string up = spec::parentOf(q.first); up.size() > 1; up = spec::parentOf(up))
        if (v.paths.count(up) && !v.paths[up].hist.empty() && v.paths[up].hist.front().st.kind != repo::K_DIR) orphan = true;
      if (orphan) continue;
      int n = after.lookup(q.first, false);
      if (n >= 0 && s.kind == repo::K_DIR && after.r(n).type == vos::T_LINK) n = after.lookup(q.first);
      bool same = n >= 0;
      if (same) {
        const vos::Inode &i = after.r(n);
        same = s.kind == (i.type == vos::T_FILE ? repo::K_FILE : i.type == vos::T_DIR ? repo::K_DIR : i.type == vos::T_LINK ? repo::K_LINK : repo::K_NONE);
        if (same && s.kind != repo::K_DIR) same = i.data == s.data;
        if (same && s.kind != repo::K_LINK) same = i.perm == s.perm && i.mtime == s.mtime;
      }
      c.check(same, "real-not-as-backed-up", q.first + "\n" + v.str() + dump(after, t.T + "/s"));
    }
    c.nontrivial(cfg.substr(0, 12) + dump(fs, t.T + "/s"));
  }
  t.nb({t.r, "integrity"});
  t.nb({t.r, "gc"});
  t.nb({t.r, "7", "/"}, "n\n");
  t.nb({t.r, "0", "s"}, "n\n");
  if (t.mismatch.empty()) c.validated(7);
  else { c.cap("virtual OS and real kernel differ"); c.log("DIFFERENCE " + t.mismatch); if (getenv("NB_REAL_DEBUG")) fprintf(stderr, "DIFFERENCE %s\n", t.mismatch.c_str()); }
}

MC_CHECK(C02, "model_checking") {
  job.rule("All sequences of backups with a path under the track policy (alone, with an ancestor or descendant under another policy, by "
           "pattern) over the states of family.hpp up to the depth, interleaved with gc; after the last step every number and every "
           "path is restored into a tree from which everything was deleted and into the current one. Oracle: the file system as it was at each backup, and the "
           "reference model. Non-trivial: a distinct (recorded history, number, path) that can be restored, or a distinct pair of states between which a backup recorded something.");
  // Many backups: every number beyond the limits of small counters.
  job.explore("long-histories", [=](mc::Ctx &c) {
    static const vector<int> quick = {130, 257, 300}, deep = {31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 513, 1025};
    const vector<int> &sizes = c.thorough ? deep : quick;
    int n = sizes[c.choose((int)sizes.size(), "backups")];
    int how = c.pick("how", {"always-changing", "coming-and-going", "many-paths", "kinds"});
    Sim s;
    s.config("[track]\n/s/d\n");
    map<int64_t, FS> at;
    for (int i = 0; i < n; i++) {
      FS &fs = s.w.fs;
      string text = "content number " + std::to_string(i) + (i % 5 ? "" : ", long enough to be stored in a file");
      fs.mkdir("/s/d", 0755, 4000);
      if (how == 0) fs.mkfile("/s/d/f", text, 0600 + i % 64, 10000 + i, i, i);
      if (how == 1) { if (i % 3 == 2) fs.rm("/s/d/f"); else fs.mkfile("/s/d/f", text, 0644, 10000 + i); fs.mkfile("/s/d/" + std::to_string(i / 100), text, 0644, 20000 + i); }
      if (how == 2) fs.mkfile("/s/d/" + std::to_string(i % 17), text, 0644, 10000 + i);
      if (how == 3) { fs.rm("/s/d/f"); if (i % 4 == 0) fs.mkfile("/s/d/f", text, 0644, 10000 + i); if (i % 4 == 1) fs.mklink("/s/d/f", text); if (i % 4 == 2) { fs.mkdir("/s/d/f", 0755, 10000 + i); fs.mkfile("/s/d/f/g", text, 0644, 1); fs.setmtime("/s/d/f", 10000 + i); } }
      fs.setmtime("/s/d", 4000);
      FS then = fs;
      s.backup(c, i % 16 == 0 || i == n - 1 ? O_VIEW | O_STATUS : O_STATUS);
      at[s.w.now] = then;
    }
    repo::View v = s.view(c);
    c.check(v.times.size() == (size_t)n, "backups-lost", v.str().substr(0, 2000));
    for (uint64_t id = 0; id < v.times.size(); id++) {
      World w = s.w;
      w.fs.rm("/s/d");
      bool ok = restore(c, w, s.r, v, id, "/s/d", R_STATE | R_REPO);
      if (!at.count(v.times[id])) c.fail("unknown-backup-time", std::to_string(id));
      string d = ok ? diff(at[v.times[id]], w.fs, "/s/d", vos::D_ALL) : "refused";
      c.check(d.empty(), "not-as-it-was", "number " + std::to_string(id) + "\n" + d);
      c.nontrivial(std::to_string(how) + "/" + std::to_string(n) + "/" + std::to_string(id));
    }
    // one more than there are
    World w = s.w;
    restore(c, w, s.r, v, v.times.size(), "/s/d", R_STATE | R_REPO);
  });
  job.explore("smallest-differences", [=](mc::Ctx &c) { smallestDifferences(c, {"track"}); });
  job.explore("long-paths", [=](mc::Ctx &c) { longPaths(c, {"track"}); });
  // Whatever the clock shows at the backups: the order in which they were made counts.
  job.explore("clocks", [=](mc::Ctx &c) {
    static const int64_t clocks[] = {1700000000, 1699999999, 1700000001, 1, 0, -2, (1LL << 31) - 1, 1LL << 31, (1LL << 32) + 7, 253402300800LL};
    int n = 3 + c.thorough, way = c.pick("what", {"content", "coming-and-going", "kinds"});
    World w;
    w.fs.mkdir("/r");
    w.fs.mkfile("/r/config", "[track]\n/s/d\n");
    vector<FS> then;
    string shown;
    for (int i = 0; i < n; i++) {
      w.now = clocks[c.choose(10, "clock")];
      shown += std::to_string(w.now) + " ";
      FS &fs = w.fs;
      string text = "content number " + std::to_string(i) + (i % 2 ? "" : ", long enough to be stored in a file");
      fs.mkdir("/s/d", 0755, 4000);
      if (way == 0) fs.mkfile("/s/d/f", text, 0644, 10000 + i);
      if (way == 1) { if (i % 2) fs.rm("/s/d/f"); else fs.mkfile("/s/d/f", text, 0644, 10000 + i); fs.mkfile("/s/d/g", text, 0644, 20000 + i); }
      if (way == 2) { fs.rm("/s/d/f"); if (i % 3 == 0) fs.mkfile("/s/d/f", text, 0644, 10000 + i); if (i % 3 == 1) fs.mklink("/s/d/f", text); if (i % 3 == 2) { fs.mkdir("/s/d/f", 0755, 10000 + i); fs.mkfile("/s/d/f/g", text, 0644, 1); fs.setmtime("/s/d/f", 10000 + i); } }
      fs.setmtime("/s/d", 4000);
      fs.setmtime("/s", 3000);
      then.push_back(fs);
      Result R = nb(w, {"/r"});
      c.trans();
      c.check(R.ok(), "backup-failed", "clock: " + shown + show(R));
      if (i == 1) { R = nb(w, {"/r", "gc"}); c.check(R.ok(), "gc-failed", show(R)); }
    }
    Result R = nb(w, {"/r", "integrity"});
    c.check(R.ok(), "integrity-failed", "clock: " + shown + show(R));
    for (int id = 0; id < n; id++)
      {
        World v = w;
        v.fs.rm("/s/d");
        Result R = nb(v, {"/r", std::to_string(id), "/s/d"});
        c.trans();
        c.eval();
        string d = R.ok() ? diff(then[n - 1 - id], v.fs, "/s/d", vos::D_ALL) : show(R);
        c.check(d.empty(), "not-as-it-was", "clock: " + shown + "\nnumber " + std::to_string(id) + "\n" + d);
        c.nontrivial(shown + std::to_string(way * 10 + id));
      }
  });
  int depth = job.thorough ? 4 : 3;
  for (int mode = 0; mode < 2; mode++)
  job.explore(mode ? "tracked-among-others" : "tracked-alone", [=](mc::Ctx &c) {
    Sim s;
    static const vector<Cfg> alone = {{"d", "[track]\n/s/d\n"}, {"s", "[track]\n/s\n"}, {"pattern", "[track]\n/s//^d$\n"}};
    static const vector<Cfg> mixed = {{"c:track", "[track]\n/s/d/c\n"}, {"d:copy c:track", "[copy]\n/s/d\n[track]\n/s/d/c\n"},
                                      {"d:mirror c:track", "[mirror]\n/s/d\n[track]\n/s/d/c\n"},
                                      {"d:track c:copy", "[track]\n/s/d\n[copy]\n/s/d/c\n"},
                                      {"d:track c:mirror", "[track]\n/s/d\n[mirror]\n/s/d/c\n"}};
    const vector<Cfg> &cf = mode ? mixed : alone;
    int k = c.choose((int)cf.size());
    c.note("config{" + cf[k].name + "}");
    s.config(cf[k].text);
    map<int64_t, FS> at;
    for (int i = 0; i < depth; i++) {
      applyState(s.w.fs, chooseState(c, mode ? 15 : 15));
      FS then = s.w.fs;
      s.backup(c, O_VIEW | O_STATUS);
      at[s.w.now] = then;
      if (c.seen(s.canon(cf[k].name + std::to_string(i)), depth - i)) throw mc::Stop();
      // once per new history
      if (!c.fresh()) continue;
      if (i == 1) { Result g = nb(s.w, {s.r, "gc"}); c.check(g.ok(), "gc-failed", show(g)); }
      repo::View v = s.view(c);
      for (uint64_t id = 0; id < v.times.size(); id++) {
        FS snap = at.count(v.times[id]) ? at[v.times[id]] : FS();
        if (!at.count(v.times[id])) c.fail("unknown-backup-time", v.str());
        for (auto t : {"/", "/s", "/s/d", "/s/d/c", "/s/d/c/g"})
          for (int clear = 0; clear < 2; clear++) {
            World w = s.w;
            if (clear) w.fs.rm("/s");
            bool ok = restore(c, w, s.r, v, id, t, R_STATE | R_REPO);
            if (ok) c.nontrivial(s.canon(cf[k].name + t + std::to_string(id * 2 + clear)));
            // ground truth: tracked subtrees equal the file system at that backup
            if (!clear || mode) continue;
            string root = t;
            if (root == "/" || root == "/s") root = k == 1 ? "/s" : "/s/d";
            if (ok) {
              string d = diff(snap, w.fs, root, vos::D_ALL);
              bool fifo = false;
              if (!d.empty() && !fifo) c.fail("not-as-it-was", "number " + std::to_string(id) + " of " + t + "\n" + d + "recorded:\n" + v.str());
              c.eval();
            } else if (snap.exists(root)) {
              int n = snap.lookup(root, false);
              if (snap.r(n).type != vos::T_FIFO) c.fail("state-lost", "number " + std::to_string(id) + " of " + t + "\nrecorded:\n" + v.str() + "then:\n" + dump(snap, "/s"));
            }
          }
      }
    }
  });
}
