// Scenes of the restore checks: a repository with a history, what stands there now, and a restore to do.
#pragma once
#include "faults.hpp"
namespace flt {
// A repository with a history, a current file system, and a restore to do in it.
struct RScene {
  Sim s;
  repo::View v;
  uint64_t id = 0;
  string path;
  spec::RestoreResult want;
  uint32_t euid = 0;
  vector<string> args() const { return {s.r, std::to_string(id), path}; }
  Result run(World &w, const Plan *plan = nullptr) const {
    RunCfg r = cfgFor(args(), "y\n", "/");
    r.euid = euid;
    return vos::run(w, r, plan);
  }
};
static const vector<Cfg> rcfgs = {{"s:track", "[track]\n/s\n"}, {"d:mirror", "[mirror]\n/s/d\n"}, {"d:copy c:track", "[copy]\n/s/d\n[track]\n/s/d/c\n"}, {"d:track c:mirror", "[track]\n/s/d\n[mirror]\n/s/d/c\n"},
                                 {"c:track", "[track]\n/s/d/c\n"}, {"other+d", "[track]\n/s/other\n/s/d\n/t\n"}};
// What stands there when restoring, beyond the states of family.hpp: links in place of things, foreign files mixed in.
static const int nDamage = 14;
static const char *const damageName[] = {"as-it-is", "gone", "foreign-files", "d->dir", "d->file", "d->missing", "d->itself", "c->dir", "c->file", "c->missing", "c->repository-file", "s->dir", "s-is-a-file", "d-full-of-foreign"};
inline void damage(FS &fs, int k) {
  auto dir = [&](const string &p) { int n = fs.lookup(p, false); return n >= 0 && fs.r(n).type == vos::T_DIR; };
  switch (k) {
  case 1: fs.rm("/s"); fs.rm("/t"); break;
  case 2: if (dir("/s/d")) { fs.mkfile("/s/d/foreign", "foreign", 0640, 60, 4, 4); fs.mkdir("/s/d/fdir", 0751, 61); fs.mkfile("/s/d/fdir/f", "f", 0600, 62); } if (dir("/s/d/c")) fs.mkfile("/s/d/c/foreign", "foreign", 0640, 63); fs.mkfile("/s/foreign", "foreign", 0640, 64); break;
  case 3: fs.rm("/s/d"); fs.mklink("/s/d", "/out/dir"); break;
  case 4: fs.rm("/s/d"); fs.mklink("/s/d", "../out/file"); break;
  case 5: fs.rm("/s/d"); fs.mklink("/s/d", "/out/missing"); break;
  case 6: fs.rm("/s/d"); fs.mklink("/s/d", "d"); break;
  case 7: case 8: case 9: case 10: {
    static const char *t[] = {"/out/dir", "/out/file", "/out/missing", "/r/config"};
    if (!dir("/s/d")) { fs.rm("/s/d"); fs.mkdir("/s/d", 0755, 65); }
    fs.rm("/s/d/c");
    fs.mklink("/s/d/c", t[k - 7]);
    break;
  }
  case 11: fs.rm("/s"); fs.mklink("/s", "/out/dir"); break;
  case 12: fs.rm("/s"); fs.mkfile("/s", "a file in place of s", 0600, 66); break;
  case 13: fs.rm("/s/d"); fs.mkdir("/s/d", 0700, 67, 8, 8); for (auto n : {"a", "c", "e", "z"}) { fs.mkdir(string("/s/d/") + n, 0711, 68); fs.mkfile(string("/s/d/") + n + "/g", "foreign g", 0604, 69, 5, 5); } break;
  }
}
inline RScene scene(mc::Ctx &c, bool full) {
  RScene x;
  Sim &s = x.s;
  int k = c.choose(full ? (int)rcfgs.size() : 3);
  c.note("config{" + rcfgs[k].name + "}");
  s.config(rcfgs[k].text);
  FS &fs = s.w.fs;
  fs.mkfile("/out/file", "outside, a file", 0604, 500, 1, 2);
  fs.mkdir("/out/dir", 0705, 501, 3, 4);
  fs.mkfile("/out/dir/c", "c outside", 0600, 502);
  fs.mkfile("/out/dir/e", "e outside", 0600, 503);
  if (rcfgs[k].name == "other+d") { fs.mkfile("/s/other", "the other one, also recorded", 0644, 99); fs.mkfile("/t/x", "a second tree, also recorded", 0600, 97); }
  static const int sub[] = {9, 1, 8, 3, 14};
  int states = c.thorough ? 15 : full ? 15 : 5;
  int a = c.choose(c.thorough ? 15 : 5);
  int q = c.thorough ? a : sub[a];
  c.note(stateNames[q]);
  applyState(fs, q);
  if (rcfgs[k].name == "other+d") { fs.mkfile("/s/other", "the other one, also recorded", 0644, 99); fs.mkfile("/t/x", "a second tree, also recorded", 0600, 97); }
  s.backup(c, 0);
  int b = c.choose(states);
  q = states == 15 ? b : sub[b];
  c.note(stateNames[q]);
  applyState(fs, q);
  if (rcfgs[k].name == "other+d") { fs.mkfile("/s/other", "the other one, changed and recorded", 0644, 98); fs.mkfile("/t/x", "a second tree, changed", 0600, 96); }
  if (c.choose(2, "second-backup")) s.backup(c, 0);
  int d = c.choose(nDamage);
  c.note(damageName[d]);
  damage(fs, d);
  x.v = s.view(c);
  c.require(!x.v.times.empty());
  x.id = c.choose((int)x.v.times.size(), "number");
  static const char *targets[] = {"/", "/s/d", "/s/d/c", "/s"};
  int t = c.choose(full ? 4 : 3);
  x.path = targets[t];
  c.note(x.path);
  x.want = spec::restore(x.v, x.id, x.path, fs);
  c.require(x.want.ok && x.want.changes);
  return x;
}

// A nested tree with read-only, private, setgid and setuid parts, and the ways its entries may differ when restoring.
static const vector<string> nestedItems = {"/s/d", "/s/d/ro", "/s/d/ro/x", "/s/d/sub", "/s/d/sub/deep", "/s/d/sub/deep/y", "/s/d/l", "/s/d/empty", "/s/d/ro/rosub/z", "/s/d/sub/suid", "/s/d/ro/rosub", "/s/d/ro/rosub/k", "/s/d/closed"};
inline void nestedTree(FS &fs, uint32_t u) {
  fs.mkdir("/s", 0755, 5000, u, u);
  fs.w(fs.lookup("/r")).uid = fs.w(fs.lookup("/r")).gid = u;
  fs.mkdir("/s/d", 0755, 2000, u, u);
  fs.mkdir("/s/d/ro", 0555, 2001, u, u);
  fs.mkfile("/s/d/ro/x", "content of x which is long", 0444, 2002, u, u);
  fs.mkdir("/s/d/ro/rosub", 0500, 2011, u, u);
  fs.mkfile("/s/d/ro/rosub/z", string(9000, 'b'), 0400, 2012, u, u);
  fs.mkdir("/s/d/sub", 0700, 2003, u, u);
  fs.mkdir("/s/d/sub/deep", 02770, 2004, u, u);
  fs.mkfile("/s/d/sub/deep/y", "y", 0600, 2005, u, u);
  fs.mkfile("/s/d/sub/suid", "privileged program", 06551, 2013, u, u);
  fs.mklink("/s/d/l", "sub", u, u);
  fs.mkdir("/s/d/empty", 0711, 2006, u, u);
  fs.mkdir("/s/d/closed", 0500, 2007, u, u);
  fs.mklink("/s/d/ro/rosub/k", "z", u, u);
  fs.mkdir("/out/0", 0755, 77, u, u);
  fs.mkdir("/out/1", 0755, 77, u, u);
}
static const int nestedOps = 8;
inline bool nestedChange(FS &fs, const string &p, int op, int i, uint32_t u) {
  if (!fs.exists(p)) return false;
  string par = p.substr(0, p.rfind('/'));
  int n = fs.lookup(p, false);
  if (fs.r(fs.lookup(par, false)).type != vos::T_DIR) return false;
  bool link = fs.r(n).type == vos::T_LINK;
  switch (op) {
  case 0: fs.rm(p); break;
  case 1: fs.rm(p); fs.mkfile(p, "in place", 0600, 3000, u, u); break;
  case 2: fs.rm(p); fs.mkdir(p, 0755, 3001, u, u); break;
  case 3: fs.rm(p); fs.mklink(p, "/out/" + std::to_string(i), u, u); break;
  case 4: if (link) return false; fs.w(n).perm ^= 0055; break;
  case 5: if (link) return false; fs.w(n).mtime += 5; break;
  case 6: if (fs.r(n).type != vos::T_FILE) return false; fs.w(n).data += "more"; break;
  case 7: fs.rm(p); fs.mklink(p, "nowhere", u, u); break;
  }
  return true;
}
inline RScene nestedScene(mc::Ctx &c, uint32_t u, int changes) {
  RScene x;
  x.euid = u;
  Sim &s = x.s;
  FS &fs = s.w.fs;
  static const char *pol[] = {"track", "mirror"};
  s.config(string("[") + pol[c.choose(2)] + "]\n/s/d\n[copy]\n/s/d/sub\n");
  nestedTree(fs, u);
  RunCfg b = cfgFor({s.r}, "y\n", "/");
  b.euid = u;
  Result r = vos::run(s.w, b);
  c.check(r.ok(), "backup-failed", show(r));
  for (int i = 0; i < changes; i++) {
    int it = c.choose((int)nestedItems.size(), "item"), op = c.choose(nestedOps, "op");
    c.note(nestedItems[it]);
    c.require(nestedChange(fs, nestedItems[it], op, i, u));
  }
  x.v = s.view(c);
  x.id = 0;
  x.path = "/";
  x.want = spec::restore(x.v, x.id, x.path, fs);
  c.require(x.want.ok && x.want.changes);
  return x;
}
}  // namespace flt
