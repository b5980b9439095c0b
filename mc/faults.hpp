// Scenarios and helpers of the crash, power-loss and fault checks.
#pragma once
#include "family.hpp"
namespace flt {
// A file of that size: a distinct beginning, zeros, and a given end.
inline int hugeFile(vos::World &w, const std::string &p, int64_t size, const std::string &tail, int64_t mtime) {
  w.sparse = true;
  w.stepLimit = 1LL << 40;
  w.blksize = 1 << 16;
  std::string d = "the beginning of " + p;
  d.resize(vos::sparseFrom, 'x');
  int n = w.fs.mkfile(p, d, 0640, mtime, 4, 5);
  vos::Inode &i = w.fs.w(n);
  i.zeros = size - vos::sparseFrom - (int64_t)tail.size();
  i.tail = tail;
  return n;
}
// Lengths of paths, around everything a fixed buffer might hold.
inline const std::vector<int> &longLengths() {
  static const std::vector<int> v = {60, 100, 127, 128, 129, 199, 200, 201, 239, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3900};
  return v;
}
// A path of that length below a given one, made of long names.
inline std::string longPath(const std::string &start, size_t n) {
  std::string p = start;
  while (p.size() < n) {
    size_t k = std::min<size_t>(n - p.size() - 1, 255);
    if (n - p.size() - 1 - k == 1) k--;     // no room for the next slash and a name
    if (!k) break;
    p += "/" + std::string(k, (char)('a' + p.size() % 26));
  }
  return p;
}
inline void mkdirsAt(vos::FS &fs, const std::string &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') fs.mkdir(p.substr(0, i), 0755, 4000); }
// The regular files two levels below a directory (the stored contents of a repository).
inline std::vector<std::string> storedFiles(const vos::FS &fs, const std::string &r) {
  std::vector<std::string> v;
  std::function<void(const std::string &, int)> go = [&](const std::string &p, int depth) {
    const vos::Inode &i = fs.r(fs.lookup(p, false));
    if (i.type == vos::T_FILE && depth == 3) v.push_back(p);
    if (i.type == vos::T_DIR) for (auto &e : i.ents) go(p + "/" + e.first, depth + 1);
  };
  go(r, 0);
  return v;
}
using namespace lib;
using namespace fam;

struct Scenario {
  Sim s;                 // the repository before the command, file system ready for it
  vector<string> args;   // the command
  string in = "y\n";
  string desc;
  vos::RunCfg cfg() const { return cfgFor(args, in); }
};

static const string kBig(10000, 'B');
// Extra states with more files than family.hpp: several new contents, a shared hash directory, duplicates.
inline void richState(FS &fs, int k) {
  fs.rm("/s");
  fs.mkdir("/s", 0755, 5000);
  fs.mkdir("/s/d", 0755, 4000 + k);
  if (k == 0) return;
  fs.mkfile("/s/d/big", kBig + (k == 1 ? "1" : "2"), 0644, 100 + k);
  fs.mkfile("/s/d/dup1", "the same long content twice", 0644, 200);
  if (k >= 2) { fs.mkfile("/s/d/dup2", "the same long content twice", 0600, 201); fs.mkdir("/s/d/sub", 0700, 300); fs.mkfile("/s/d/sub/small", "tiny", 0644, 301); }
  if (k == 3) { fs.rm("/s/d/dup1"); fs.mkfile("/s/d/sub/new", "another content, also long enough", 0640, 302); }
}
// Chooses a scenario. level 0: the full family, 1: a representative subset.
inline Scenario choose(mc::Ctx &c, int level, bool withGc = true) {
  Scenario x;
  Sim &s = x.s;
  x.args = {s.r};
  static const vector<Cfg> all = configs();
  static const vector<Cfg> few = {{"d:track", "[track]\n/s/d\n"}, {"d:mirror", "[mirror]\n/s/d\n"}, {"d:copy c:track", "[copy]\n/s/d\n[track]\n/s/d/c\n"},
                                 {"d:track c:mirror", "[track]\n/s/d\n[mirror]\n/s/d/c\n"}, {"d:copy", "[copy]\n/s/d\n"}};
  const vector<Cfg> &cf = c.thorough && level == 0 ? all : few;
  int k = c.choose(level ? 2 : (int)cf.size());
  c.note("config{" + cf[k].name + "}");
  s.config(cf[k].text);
  int mode = level ? c.pick("repository", {"rich", "fresh", "one-backup"}) : c.pick("repository", {"rich", "fresh", "one-backup", "colliding"});
  repo::checkHashes = mode != 3;
  if (mode == 3) {
    // Contents of equal size and hash: several places per name.
    s.w.weakHash = true;
    auto put = [&](const char *n, int k, int64_t t) { s.w.fs.mkfile(string("/s/d/") + n, "colliding content number " + std::to_string(k), 0644, t); };
    int from = c.choose(3, "from"), to = c.choose(3, "to");
    s.w.fs.mkdir("/s/d", 0755, 4000);
    if (from) {
      for (int i = 0; i < from; i++) put(i ? "c" : "f", i, 100 + i);
      s.backup(c, 0);
    }
    if (to == 0) { put("c", 2, 110); put("f", 3, 111); put("g", 4, 112); }
    if (to == 1) { put("c", 0, 110); put("g", 2, 112); }
    if (to == 2) { s.w.fs.rm("/s/d/f"); put("g", 1, 113); put("h", 5, 114); }
    x.desc = c.notes;
    return x;
  }
  if (mode == 2 && c.thorough && level == 0) mode += c.choose(2, "two-backups");
  if (mode == 0) {
    int a = c.choose(4, "from"), b = c.choose(4, "to");
    c.require(a != b || withGc);
    if (a) { richState(s.w.fs, a); s.backup(c, 0); }
    richState(s.w.fs, b);
    if (a == b) {
      // gc with something to collect, as left behind by an interrupted run
      c.require(a != 0);
      x.args = {s.r, "gc"};
      string junk = "unreferenced content which must go";
      string bp = repo::blobPath(repo::blake2b(junk), junk.size(), 0);
      s.w.fs.mkfile(s.r + "/" + bp, junk);
      s.w.fs.mkfile(s.r + "/tmp-file", "left");
      s.w.fs.mkfile(s.r + "/ab/cd/junk", "left");
      c.note("gc");
    }
  } else {
    static const int sub[] = {5, 8, 1, 0, 14, 3, 12};
    auto pickState = [&](const char *w) {
      int i = level ? c.choose(7) : c.choose(15);
      int st = level ? sub[i] : i;
      c.note(string(w) + ":" + stateNames[st]);
      applyState(s.w.fs, st);
    };
    if (mode == 3) { pickState("earlier"); s.backup(c, 0); }
    if (mode >= 2) { pickState("from"); s.backup(c, 0); }
    pickState("to");
  }
  x.desc = c.notes;
  return x;
}
// What a repository holds, with every backup time after `base` shown as "new".
inline string repoView(const FS &fs, const string &r, string &err, int64_t base) {
  repo::View v;
  err = repo::load(fs, r, v);
  if (!err.empty()) return "";
  string s;
  for (auto &p : v.paths) {
    s += p.first + " [" + repo::policyName(p.second.policy) + "]\n";
    for (auto &h : p.second.hist) s += "    @" + (h.time > base ? "new" : std::to_string(h.time)) + " " + h.st.str() + "\n";
  }
  return s;
}
}  // namespace flt
