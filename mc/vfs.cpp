#include "vos.hpp"
#include <algorithm>
#include <cstdlib>
#include <set>

namespace vos {

const char *opName[S_N] = {"open",   "close",  "read",    "write",    "lseek",   "fsync",   "truncate", "stat",
                           "lstat",  "fstat",  "access",  "chmod",    "chown",   "utime",   "mkdir",    "rmdir",
                           "unlink", "rename", "link",    "symlink",  "readlink","opendir", "readdir",  "closedir",
                           "getcwd", "chdir",  "lock",    "unlock",   "ttyread", "ttywrite","time",     "malloc"};

uint64_t hash64(const std::string &s, uint64_t seed) {
  uint64_t h = seed ^ (s.size() * 0xff51afd7ed558ccdull);
  size_t i = 0;
  auto mix = [&](uint64_t v) {
    h ^= v;
    h *= 0x9FB21C651E98DF25ull;
    h ^= h >> 29;
    h = (h << 27) | (h >> 37);
  };
  for (; i + 8 <= s.size(); i += 8) {
    uint64_t v;
    memcpy(&v, s.data() + i, 8);
    mix(v);
  }
  uint64_t v = 0;
  if (i < s.size()) memcpy(&v, s.data() + i, s.size() - i);
  mix(v ^ 0xabcdef);
  h ^= h >> 32;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 33;
  return h;
}

FS::FS() {
  alloc(T_DIR);
  ino[0]->perm = 0755;
  ino[0]->mtime = 1000;
  ino[0]->parent = 0;
}
int FS::alloc(Type t) {
  auto n = std::make_shared<Inode>();
  n->type = t;
  ino.push_back(n);
  return (int)ino.size() - 1;
}
Inode &FS::w(int i) {
  if (ino[i].use_count() > 1) ino[i] = std::make_shared<Inode>(*ino[i]);
  return *ino[i];
}
void FS::startJournal() {
  journaling = true;
  journal.clear();
  base = ino;
}
void FS::stopJournal() {
  journaling = false;
  journal.clear();
  base.clear();
}

static std::vector<std::string> comps(const std::string &path) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') i++;
    size_t j = i;
    while (j < path.size() && path[j] != '/') j++;
    if (j > i) v.push_back(path.substr(i, j - i));
    i = j;
  }
  return v;
}
static int walk(const FS &fs, int cwd, const std::string &path, bool follow, int depth) {
  if (depth > 40) return -1;
  int cur = (!path.empty() && path[0] == '/') ? fs.root : cwd;
  auto cs = comps(path);
  for (size_t k = 0; k < cs.size(); k++) {
    const Inode &d = fs.r(cur);
    if (d.type != T_DIR) return -1;
    if (cs[k] == ".") continue;
    if (cs[k] == "..") { cur = d.parent; continue; }
    auto it = d.ents.find(cs[k]);
    if (it == d.ents.end()) return -1;
    int n = it->second;
    if (fs.r(n).type == T_LINK && (follow || k + 1 < cs.size())) {
      n = walk(fs, cur, fs.r(n).data, true, depth + 1);
      if (n < 0) return -1;
    }
    cur = n;
  }
  return cur;
}
int FS::lookup(const std::string &path, bool follow) const { return walk(*this, root, path, follow, 0); }

int FS::parentOf(const std::string &path, std::string &name, int64_t mtime) {
  auto p = path.rfind('/');
  name = path.substr(p + 1);
  std::string dir = path.substr(0, p);
  return dir.empty() ? root : mkdirs(dir, 0755, mtime);
}
int FS::mkdirs(const std::string &path, uint32_t perm, int64_t mtime) {
  int cur = root;
  for (auto &c : comps(path)) {
    auto it = r(cur).ents.find(c);
    if (it != r(cur).ents.end()) {
      int n = it->second;
      if (r(n).type == T_LINK) n = walk(*this, cur, r(n).data, true, 0);  // a link to a directory is followed
      if (n < 0 || r(n).type != T_DIR) abort();
      cur = n;
      continue;
    }
    int n = alloc(T_DIR);
    ino[n]->perm = perm;
    ino[n]->mtime = mtime;
    ino[n]->parent = cur;
    w(cur).ents[c] = n;
    cur = n;
  }
  return cur;
}
static int put(FS &fs, const std::string &path, Type t, int dir, const std::string &name) {
  auto it = fs.r(dir).ents.find(name);
  int n;
  if (it != fs.r(dir).ents.end() && fs.r(it->second).type == t && t != T_DIR) {
    n = it->second;
  } else {
    if (it != fs.r(dir).ents.end()) fs.rm(path);
    n = fs.alloc(t);
    fs.w(n).parent = dir;
    fs.w(dir).ents[name] = n;
  }
  return n;
}
int FS::mkfile(const std::string &path, const std::string &data, uint32_t perm, int64_t mtime, uint32_t uid,
               uint32_t gid) {
  std::string name;
  int d = parentOf(path, name, 1000), n = put(*this, path, T_FILE, d, name);
  Inode &i = w(n);
  i.data = data; i.perm = perm; i.mtime = mtime; i.uid = uid; i.gid = gid;
  return n;
}
int FS::mkdir(const std::string &path, uint32_t perm, int64_t mtime, uint32_t uid, uint32_t gid) {
  int n = lookup(path, false);
  if (n < 0 || r(n).type != T_DIR) {
    std::string name;
    int d = parentOf(path, name, 1000);
    n = put(*this, path, T_DIR, d, name);
  }
  Inode &i = w(n);
  i.perm = perm; i.mtime = mtime; i.uid = uid; i.gid = gid;
  return n;
}
int FS::mklink(const std::string &path, const std::string &target, uint32_t uid, uint32_t gid) {
  std::string name;
  int d = parentOf(path, name, 1000), n = put(*this, path, T_LINK, d, name);
  Inode &i = w(n);
  i.data = target; i.perm = 0777; i.uid = uid; i.gid = gid; i.mtime = 1000;
  return n;
}
int FS::mkfifo(const std::string &path) {
  std::string name;
  int d = parentOf(path, name, 1000);
  return put(*this, path, T_FIFO, d, name);
}
void FS::rm(const std::string &path) {
  auto p = path.rfind('/');
  std::string dir = path.substr(0, p), name = path.substr(p + 1);
  int d = dir.empty() ? root : lookup(dir);
  if (d < 0 || r(d).type != T_DIR) return;
  if (r(d).ents.count(name)) w(d).ents.erase(name);
}
void FS::rename(const std::string &from, const std::string &to) {
  int n = lookup(from, false);
  if (n < 0) abort();
  rm(to);
  std::string name;
  int d = parentOf(to, name, 1000);
  w(d).ents[name] = n;
  auto p = from.rfind('/');
  int od = p == 0 ? root : lookup(from.substr(0, p));
  w(od).ents.erase(from.substr(p + 1));
  w(n).parent = d;
}
std::string FS::content(const std::string &path) const {
  int n = lookup(path);
  return n < 0 ? std::string("<missing>") : r(n).data;
}
void FS::setmtime(const std::string &path, int64_t t) {
  int n = lookup(path, false);
  if (n < 0) abort();
  w(n).mtime = t;
}
static int graft(FS &dst, const FS &src, int n, int parent, std::map<int, int> &seen) {
  auto it = seen.find(n);
  if (it != seen.end()) return it->second;
  int k = (int)dst.ino.size();
  dst.ino.push_back(std::make_shared<Inode>(src.r(n)));
  seen[n] = k;
  dst.ino[k]->parent = parent;
  if (src.r(n).type == T_DIR) {
    std::map<std::string, int> e;
    for (auto &x : src.r(n).ents) e[x.first] = graft(dst, src, x.second, k, seen);
    dst.ino[k]->ents = e;
  }
  return k;
}
void FS::setTreeFrom(const FS &o, const std::string &path) {
  rm(path);
  int n = o.lookup(path, false);
  if (n < 0) return;
  std::string name;
  int d = parentOf(path, name, 1000);
  std::map<int, int> seen;
  int k = graft(*this, o, n, d, seen);
  w(d).ents[name] = k;
}
FS FS::compact() const {
  FS f;
  f.ino.clear();
  std::map<int, int> seen;
  f.root = graft(f, *this, root, 0, seen);
  f.w(0).parent = 0;
  return f;
}

static const char *tname(Type t) {
  static const char *n[] = {"file", "dir", "link", "fifo", "sock"};
  return n[t];
}
static std::string attrs(const Inode &i, int flags) {
  std::string s = tname(i.type);
  if ((flags & D_PERM) && i.type != T_LINK) { char b[16]; snprintf(b, 16, " %04o", i.perm); s += b; }
  if (flags & D_OWNER) s += " " + std::to_string(i.uid) + ":" + std::to_string(i.gid);
  if ((flags & D_MTIME) && i.type != T_LINK && (i.type != T_DIR || (flags & D_DIRMTIME)))
    s += " t" + std::to_string(i.mtime) + ((flags & D_NS) ? "." + std::to_string(i.mtimens) : "");
  if ((flags & D_DATA) && i.type == T_FILE) {
    if (i.data.size() <= 40) {
      s += " \"";
      for (unsigned char c : i.data) {
        char b[8];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c;
        else { snprintf(b, 8, "\\x%02x", c); s += b; }
      }
      s += "\"";
    } else {
      char b[64];
      snprintf(b, 64, " [%zu bytes #%016llx]", i.data.size(), (unsigned long long)hash64(i.data));
      s += b;
    }
  }
  if ((flags & D_DATA) && i.type == T_FILE && (i.zeros || i.tail.size())) {
    char b[96];
    snprintf(b, 96, " + %lld zeros + [%zu bytes #%016llx]", (long long)i.zeros, i.tail.size(), (unsigned long long)hash64(i.tail));
    s += b;
  }
  if (i.type == T_LINK) s += " -> " + i.data;
  return s;
}
static void collect(const FS &fs, int n, const std::string &p, int flags,
                    const std::function<bool(const std::string &)> &skip, std::map<std::string, std::string> &out) {
  if (skip && skip(p)) return;
  const Inode &i = fs.r(n);
  out[p.empty() ? "/" : p] = attrs(i, flags);
  if (i.type == T_DIR)
    for (auto &e : i.ents) collect(fs, e.second, p + "/" + e.first, flags, skip, out);
}
static std::map<std::string, std::string> table(const FS &fs, const std::string &path, int flags,
                                                const std::function<bool(const std::string &)> &skip) {
  std::map<std::string, std::string> m;
  int n = fs.lookup(path, false);
  std::string p = path;
  while (!p.empty() && p.back() == '/') p.pop_back();
  if (n >= 0) collect(fs, n, p, flags, skip, m);
  return m;
}
std::string dump(const FS &fs, const std::string &path, int flags,
                 const std::function<bool(const std::string &)> &skip) {
  std::string s;
  for (auto &x : table(fs, path, flags, skip)) s += x.first + ": " + x.second + "\n";
  return s;
}
std::string diff(const FS &a, const FS &b, const std::string &path, int flags,
                 const std::function<bool(const std::string &)> &skip) {
  auto x = table(a, path, flags, skip), y = table(b, path, flags, skip);
  std::string s;
  for (auto &e : x) {
    auto it = y.find(e.first);
    if (it == y.end()) s += "- " + e.first + ": " + e.second + "\n";
    else if (it->second != e.second) s += "! " + e.first + ": " + e.second + "  =>  " + it->second + "\n";
  }
  for (auto &e : y)
    if (!x.count(e.first)) s += "+ " + e.first + ": " + e.second + "\n";
  return s;
}

// --- power loss ---------------------------------------------------------------
// Durability model: file data is durable up to the last sync of that file; every operation on directory entries is
// durable once the directory in which an entry appeared (or, for removals, from which it vanished) has been synced afterwards; entry operations
// in one directory are atomic; operations on
// the same name persist in order; everything else unsynced may or may not be there.
static void applyData(Inode &i, const JOp &o, int64_t maxlen = -1, bool zeros = false) {
  if (o.k == JOp::Trunc) { i.data.resize(o.off, '\0'); return; }
  std::string d = o.data;
  if (maxlen >= 0 && (int64_t)d.size() > maxlen) d.resize(maxlen);
  if (zeros) d.assign(d.size(), '\0');
  if (i.data.size() < o.off + d.size()) i.data.resize(o.off + d.size(), '\0');
  i.data.replace(o.off, d.size(), d);
}

size_t powerLoss(const FS &fs, const std::function<void(const FS &, const std::string &)> &fn, bool &capped,
                 size_t cap) {
  // A rename into another directory is two operations: the entry may vanish from one directory without appearing in the
  // other (which was never synced), but never appear while it is still there. The bond between them is a name in no directory.
  std::vector<JOp> J;
  for (auto &o : fs.journal) {
    JOp gone, add;
    gone.k = add.k = JOp::Entry;
    if (o.k == JOp::Entry)
      for (auto &e : o.es) (e.to < 0 ? gone : add).es.push_back(e);
    bool across = !gone.es.empty() && !add.es.empty();
    for (auto &e : gone.es) for (auto &x : add.es) across &= e.dir != x.dir;
    if (!across) { J.push_back(o); continue; }
    std::string bond = "#" + std::to_string(J.size());
    gone.es.push_back({-1, bond, -1});
    add.es.push_back({-1, bond, -1});
    J.push_back(gone);
    J.push_back(add);
  }
  size_t n = J.size();
  std::vector<char> durable(n, 0);
  std::set<int> fileSyncedSeen;
  std::set<int> dirSynced;
  bool all = false;
  for (size_t i = n; i-- > 0;) {
    const JOp &o = J[i];
    switch (o.k) {
    case JOp::SyncAll: all = true; break;
    case JOp::SyncFile: fileSyncedSeen.insert(o.ino); break;
    case JOp::SyncDir: dirSynced.insert(o.ino); break;
    case JOp::Write:
    case JOp::Trunc: durable[i] = all || fileSyncedSeen.count(o.ino); break;
    case JOp::Entry:
      durable[i] = all;
      for (auto &e : o.es) {
        bool adds = false;   // a rename from one directory into another is only safe once the latter was synced
        for (auto &x : o.es) adds |= x.to >= 0;
        if ((e.to >= 0 || !adds) && dirSynced.count(e.dir)) durable[i] = 1;
      }
      break;
    }
  }
  // an entry op that is durable makes the earlier ops on the same names durable
  for (bool ch = true; ch;) {
    ch = false;
    std::set<std::pair<int, std::string>> need;
    for (size_t i = n; i-- > 0;)
      if (J[i].k == JOp::Entry) {
        if (!durable[i])
          for (auto &e : J[i].es)
            if (need.count({e.dir, e.name})) durable[i] = 1, ch = true;
        if (durable[i])
          for (auto &e : J[i].es) need.insert({e.dir, e.name});
      }
  }
  std::vector<int> pend;                 // unsynced entry ops
  std::map<int, std::vector<int>> pdata; // inode -> unsynced data ops
  for (size_t i = 0; i < n; i++) {
    if (durable[i]) continue;
    if (J[i].k == JOp::Entry) pend.push_back(i);
    if (J[i].k == JOp::Write || J[i].k == JOp::Trunc) pdata[J[i].ino].push_back(i);
  }
  // Enumerate downward closed subsets of pend.
  std::vector<std::vector<char>> subsets;
  size_t m = pend.size();
  auto conflict = [&](int a, int b) {
    for (auto &x : J[a].es)
      for (auto &y : J[b].es)
        if (x.dir == y.dir && x.name == y.name) return true;
    return false;
  };
  std::function<void(size_t, std::vector<char> &)> rec = [&](size_t k, std::vector<char> &cur) {
    if (subsets.size() >= cap) { capped = true; return; }
    if (k == m) { subsets.push_back(cur); return; }
    bool can = true;
    for (size_t j = 0; j < k && can; j++)
      if (!cur[j] && conflict(pend[j], pend[k])) can = false;
    cur[k] = 0;
    rec(k + 1, cur);
    if (can) { cur[k] = 1; rec(k + 1, cur); cur[k] = 0; }
  };
  if (m <= 16) {
    std::vector<char> cur(m, 0);
    rec(0, cur);
  } else {
    capped = true;  // all prefixes and all single omissions (with their dependants)
    for (size_t k = 0; k <= m; k++) {
      std::vector<char> c(m, 0);
      for (size_t j = 0; j < k; j++) c[j] = 1;
      subsets.push_back(c);
    }
    for (size_t k = 0; k < m; k++) {
      std::vector<char> c(m, 1);
      c[k] = 0;
      for (size_t j = k + 1; j < m; j++)
        for (size_t l = 0; l < j; l++)
          if (!c[l] && conflict(pend[l], pend[j])) c[j] = 0;
      subsets.push_back(c);
    }
  }
  size_t count = 0;
  for (auto &sub : subsets) {
    FS s;
    s.ino = fs.base;
    s.root = fs.root;
    while (s.ino.size() < fs.ino.size()) {
      auto c = std::make_shared<Inode>(*fs.ino[s.ino.size()]);
      c->data = c->type == T_LINK ? c->data : std::string();
      c->ents.clear();
      s.ino.push_back(c);
    }
    std::string desc;
    for (size_t i = 0; i < n; i++) {
      const JOp &o = J[i];
      if (o.k == JOp::Entry) {
        bool on = durable[i];
        if (!on) on = sub[std::lower_bound(pend.begin(), pend.end(), (int)i) - pend.begin()];
        if (!on) {
          desc += " lost{";
          for (auto &e : o.es) desc += (e.to < 0 ? "-" : "+") + e.name + " ";
          desc += "}";
          continue;
        }
        for (auto &e : o.es) {
          if (e.dir < 0) continue;
          if (e.to < 0) s.w(e.dir).ents.erase(e.name);
          else { s.w(e.dir).ents[e.name] = e.to; s.w(e.to).parent = e.dir; }
        }
      } else if ((o.k == JOp::Write || o.k == JOp::Trunc) && durable[i]) {
        applyData(s.w(o.ino), o);
      }
    }
    // Which inodes with unsynced data are reachable?
    std::set<int> reach;
    std::function<void(int)> dfs = [&](int x) {
      if (!reach.insert(x).second) return;
      for (auto &e : s.r(x).ents) dfs(e.second);
    };
    dfs(s.root);
    std::vector<int> vars;
    for (auto &p : pdata)
      if (reach.count(p.first)) vars.push_back(p.first);
    // variants: 0 nothing, 1 everything, 2 half of the bytes, 3 length but zeros, 4 first op only
    std::function<void(size_t, FS, std::string)> rec2 = [&](size_t k, FS f, std::string d) {
      if (count >= cap) { capped = true; return; }
      if (k == vars.size()) { count++; fn(f, d); return; }
      auto &ops = pdata[vars[k]];
      for (int v = 0; v < 5; v++) {
        if (v == 4 && ops.size() < 2) continue;
        FS g = f;
        Inode &i = g.w(vars[k]);
        for (size_t q = 0; q < ops.size(); q++) {
          const JOp &o = J[ops[q]];
          if (v == 0) break;
          if (v == 4 && q > 0) break;
          if (v == 2) applyData(i, o, (o.data.size()) / 2);
          else if (v == 3) applyData(i, o, -1, true);
          else applyData(i, o);
        }
        static const char *vn[] = {"none", "all", "half", "zeros", "first"};
        rec2(k + 1, g, d + " data#" + std::to_string(vars[k]) + "=" + vn[v]);
      }
    };
    rec2(0, s, desc);
  }
  return count;
}

}  // namespace vos
