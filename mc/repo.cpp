#include "repo.hpp"
#include <cstdio>
#include <sys/stat.h>

namespace repo {
bool checkHashes = true;
using vos::FS;

bool State::operator==(const State &o) const {
  if (kind != o.kind) return false;
  if (kind == K_NONE) return true;
  if (uid != o.uid || gid != o.gid) return false;
  if (kind == K_LINK) return target == o.target;
  if (mode != o.mode || mtime != o.mtime) return false;
  if (kind == K_DIR) return true;
  return size == o.size && inl == o.inl && (size <= HASHLEN || slot == o.slot);
}
const char *policyName(int p) {
  static const char *n[] = {"none", "copy", "mirror", "track", "ignore", "summarize"};
  return p >= 0 && p < 6 ? n[p] : "?";
}
const char *kindName(int k) {
  static const char *n[] = {"nonexisting", "file", "symlink", "directory"};
  return k >= 0 && k < 4 ? n[k] : "?";
}

// ---------------------------------------------------------------- BLAKE2b (RFC 7693)
static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
                               0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SG[12][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
                                   {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
                                   {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
                                   {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
                                   {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
                                   {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
                                   {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
                                   {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
                                   {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
                                   {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
                                   {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
                                   {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}};
static inline uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
std::string blake2b(const std::string &d, size_t outlen) {
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = IV[i];
  h[0] ^= 0x01010000ull ^ outlen;
  size_t off = 0, n = d.size();
  for (;;) {
    uint8_t blk[128] = {0};
    size_t k = n - off > 128 ? 128 : n - off;
    memcpy(blk, d.data() + off, k);
    bool last = n - off <= 128;
    off += k;
    uint64_t m[16], v[16];
    for (int i = 0; i < 16; i++) memcpy(&m[i], blk + 8 * i, 8);
    for (int i = 0; i < 8; i++) v[i] = h[i], v[i + 8] = IV[i];
    v[12] ^= off;
    if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int e, uint64_t x, uint64_t y) {
      v[a] = v[a] + v[b] + x; v[e] = rotr(v[e] ^ v[a], 32);
      v[c] = v[c] + v[e];     v[b] = rotr(v[b] ^ v[c], 24);
      v[a] = v[a] + v[b] + y; v[e] = rotr(v[e] ^ v[a], 16);
      v[c] = v[c] + v[e];     v[b] = rotr(v[b] ^ v[c], 63);
    };
    for (int r = 0; r < 12; r++) {
      const uint8_t *s = SG[r];
      G(0, 4, 8, 12, m[s[0]], m[s[1]]);   G(1, 5, 9, 13, m[s[2]], m[s[3]]);
      G(2, 6, 10, 14, m[s[4]], m[s[5]]);  G(3, 7, 11, 15, m[s[6]], m[s[7]]);
      G(0, 5, 10, 15, m[s[8]], m[s[9]]);  G(1, 6, 11, 12, m[s[10]], m[s[11]]);
      G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    if (last) break;
  }
  return std::string((char *)h, outlen);
}
std::string hex(const std::string &s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
  return r;
}
std::string blobPath(const std::string &hash, uint64_t size, unsigned slot) {
  std::string h = hex(hash);
  char b[64];
  snprintf(b, 64, "x%llxx%x", (unsigned long long)size, slot);
  return h.substr(0, 1) + "/" + h.substr(1, 2) + "/" + h.substr(3) + b;
}
std::string blobPath(const State &s) { return blobPath(s.inl, s.size, s.slot); }

// ---------------------------------------------------------------- codec
struct Rd {
  const std::string &b;
  size_t p = 0;
  bool bad = false;
  std::string err;
  std::vector<Field> *f;
  uint64_t num(int n, const char *what) {
    if (bad || b.size() - p < (size_t)n) { bad = true; if (err.empty()) err = std::string("truncated at ") + what; return 0; }
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= (uint64_t)(uint8_t)b[p + i] << (8 * i);
    if (f) f->push_back({p, (size_t)n, what});
    p += n;
    return v;
  }
  std::string bytes(uint64_t n, const char *what) {
    if (bad || b.size() - p < n) { bad = true; if (err.empty()) err = std::string("truncated at ") + what; return ""; }
    if (f) f->push_back({p, (size_t)n, what});
    std::string s = b.substr(p, n);
    p += n;
    return s;
  }
  void fail(const std::string &e) { bad = true; if (err.empty()) err = e; }
};
static void rdHist(Rd &r, std::vector<Point> &h, uint64_t nb) {
  uint64_t n = r.num(8, "history length");
  for (uint64_t i = 0; i < n && !r.bad; i++) {
    Point p;
    p.id = r.num(8, "backup id");
    if (p.id >= nb) r.fail("backup id out of range");
    uint8_t k = r.num(1, "kind");
    if (k > 3) r.fail("invalid kind");
    p.st.kind = (Kind)k;
    if (k != K_NONE) { p.st.uid = r.num(4, "uid"); p.st.gid = r.num(4, "gid"); }
    if (k == K_FILE) {
      p.st.mode = r.num(4, "mode");
      p.st.mtime = (int64_t)r.num(8, "mtime");
      p.st.size = r.num(8, "file size");
      if (p.st.size > HASHLEN) { p.st.inl = r.bytes(HASHLEN, "hash"); p.st.slot = r.num(1, "slot"); }
      else if (p.st.size) p.st.inl = r.bytes(p.st.size, "content");
    } else if (k == K_LINK) {
      uint64_t l = r.num(8, "target length");
      p.st.target = r.bytes(l, "target");
      if (!r.bad && (l == 0 || p.st.target.find('\0') != std::string::npos)) r.fail("bad target");
    } else if (k == K_DIR) {
      p.st.mode = r.num(4, "mode");
      p.st.mtime = (int64_t)r.num(8, "mtime");
    }
    if (!h.empty() && p.id <= h.back().id) r.fail("history not in order");
    h.push_back(p);
  }
}
static void rdNodes(Rd &r, std::vector<Node> &v, uint64_t nb, int depth) {
  uint64_t n = r.num(8, "node count");
  for (uint64_t i = 0; i < n && !r.bad; i++) {
    Node x;
    uint64_t l = r.num(8, "name length");
    if (l == 0) r.fail("empty name");
    x.name = r.bytes(l, "name");
    if (x.name.find('\0') != std::string::npos || x.name.find('/') != std::string::npos || x.name == "." || x.name == "..")
      r.fail("bad name");
    for (auto &y : v) if (y.name == x.name) r.fail("name recorded twice");
    x.policy = r.num(1, "policy");
    if (x.policy > 3) r.fail("bad policy");
    rdHist(r, x.hist, nb);
    if (x.hist.empty()) r.fail("empty history");
    if (!r.bad && depth < 5000) rdNodes(r, x.subs, nb, depth + 1);
    v.push_back(std::move(x));
  }
}
bool decode(const std::string &bytes, Meta &m, std::string &err, std::vector<Field> *fields) {
  Rd r{bytes, 0, false, "", fields};
  m = Meta();
  uint64_t n = r.num(8, "backup count");
  for (uint64_t i = 0; i < n && !r.bad; i++) m.times.push_back((int64_t)r.num(8, "backup time"));
  rdHist(r, m.config, n);
  m.total = r.num(8, "path count");
  rdNodes(r, m.roots, n, 0);
  if (!r.bad && r.p != bytes.size()) r.fail("trailing bytes");
  err = r.err;
  return !r.bad;
}
static void wn(std::string &o, uint64_t v, int n) {
  for (int i = 0; i < n; i++) o += (char)(v >> (8 * i));
}
static void wHist(std::string &o, const std::vector<Point> &h) {
  wn(o, h.size(), 8);
  for (auto &p : h) {
    wn(o, p.id, 8);
    wn(o, p.st.kind, 1);
    if (p.st.kind != K_NONE) { wn(o, p.st.uid, 4); wn(o, p.st.gid, 4); }
    if (p.st.kind == K_FILE) {
      wn(o, p.st.mode, 4);
      wn(o, (uint64_t)p.st.mtime, 8);
      wn(o, p.st.size, 8);
      if (p.st.size > HASHLEN) { o += p.st.inl; wn(o, p.st.slot, 1); }
      else o += p.st.inl;
    } else if (p.st.kind == K_LINK) {
      wn(o, p.st.target.size(), 8);
      o += p.st.target;
    } else if (p.st.kind == K_DIR) {
      wn(o, p.st.mode, 4);
      wn(o, (uint64_t)p.st.mtime, 8);
    }
  }
}
static void wNodes(std::string &o, const std::vector<Node> &v) {
  wn(o, v.size(), 8);
  for (auto &x : v) {
    wn(o, x.name.size(), 8);
    o += x.name;
    wn(o, x.policy, 1);
    wHist(o, x.hist);
    wNodes(o, x.subs);
  }
}
std::string encode(const Meta &m) {
  std::string o;
  wn(o, m.times.size(), 8);
  for (auto t : m.times) wn(o, (uint64_t)t, 8);
  wHist(o, m.config);
  wn(o, m.total, 8);
  wNodes(o, m.roots);
  return o;
}
uint64_t countNodes(const std::vector<Node> &v) {
  uint64_t n = 0;
  for (auto &x : v) n += 1 + countNodes(x.subs);
  return n;
}
void forEach(const std::vector<Node> &v, const std::string &prefix,
             const std::function<void(const std::string &, const Node &)> &fn) {
  for (auto &x : v) {
    fn(prefix + "/" + x.name, x);
    forEach(x.subs, prefix + "/" + x.name, fn);
  }
}
void blobs(const Meta &m, std::map<std::string, State> &out) {
  forEach(m.roots, "", [&](const std::string &, const Node &n) {
    for (auto &p : n.hist)
      if (p.st.kind == K_FILE && p.st.size > HASHLEN) out[blobPath(p.st)] = p.st;
  });
}
std::string metaBytes(const FS &fs, const std::string &rpath) {
  int n = fs.lookup(rpath + "/metadata");
  return n < 0 ? std::string() : fs.r(n).data;
}
std::string RState::str() const {
  if (kind == K_NONE) return "nonexisting";
  char b[128];
  snprintf(b, sizeof b, "%s %04o %u:%u t%lld ", kindName(kind), perm, uid, gid, (long long)mtime);
  std::string s = b;
  if (kind == K_FILE) {
    if (data.size() <= 40) s += "\"" + data + "\"";
    else { snprintf(b, sizeof b, "[%zu bytes #%016llx]", data.size(), (unsigned long long)vos::hash64(data)); s += b; }
  }
  if (kind == K_LINK) s += "-> " + data;
  return s;
}
std::string View::str() const {
  std::string s = "backups:";
  for (auto t : times) s += " " + std::to_string(t);
  s += "\n";
  for (auto &p : paths) {
    s += p.first + " [" + policyName(p.second.policy) + "]\n";
    for (auto &h : p.second.hist) s += "    @" + std::to_string(h.time) + " " + h.st.str() + "\n";
  }
  return s;
}
std::string load(const FS &fs, const std::string &rpath, View &v, LoadOpt o) {
  v = View();
  int n = fs.lookup(rpath + "/metadata", false);
  if (n < 0) return "";  // empty repository
  if (fs.r(n).type != vos::T_FILE) return "metadata is not a regular file";
  Meta m;
  std::string err;
  if (!decode(fs.r(n).data, m, err)) return "metadata unreadable: " + err;
  v.times = m.times;
  std::string bad;
  uint64_t cnt = 0;
  forEach(m.roots, "", [&](const std::string &p, const Node &x) {
    cnt++;
    if (v.paths.count(p)) bad = "path recorded twice: " + p;
    RNode &r = v.paths[p];
    r.policy = x.policy;
    if (x.policy > 3) bad = "invalid policy of " + p;
    uint64_t lastId = 0;
    bool first = true;
    for (auto &h : x.hist) {
      RPoint q;
      q.id = h.id;
      q.time = m.times[h.id];
      if (!first && h.id <= lastId) bad = "history of " + p + " is not in order";
      lastId = h.id;
      first = false;
      q.st.kind = h.st.kind;
      if (h.st.kind != K_NONE) {
        q.st.uid = h.st.uid;
        q.st.gid = h.st.gid;
        q.st.perm = h.st.mode & 07777;
        q.st.mtime = h.st.mtime;
      }
      if (h.st.kind == K_LINK) { q.st.data = h.st.target; q.st.perm = 0; q.st.mtime = 0; }
      if (h.st.kind == K_FILE) {
        if (h.st.size <= HASHLEN) q.st.data = h.st.inl;
        else {
          std::string bp = rpath + "/" + blobPath(h.st);
          int b = fs.lookup(bp, false);
          if (b < 0) { bad = "content of " + p + " missing: " + blobPath(h.st); continue; }
          const vos::Inode &bi = fs.r(b);
          if (bi.type != vos::T_FILE) { bad = "content of " + p + " is not a regular file"; continue; }
          if (bi.data.size() != h.st.size) {
            bad = "content of " + p + " has size " + std::to_string(bi.data.size()) + " instead of " + std::to_string(h.st.size);
            continue;
          }
          if (o.checkHash && blake2b(bi.data) != h.st.inl) { bad = "content of " + p + " does not match its hash"; continue; }
          q.st.data = bi.data;
        }
      }
      r.hist.push_back(q);
    }
  });
  if (bad.empty() && cnt != m.total) bad = "path count " + std::to_string(m.total) + " differs from the " + std::to_string(cnt) + " recorded paths";
  // every backup must be referenced
  std::vector<char> used(m.times.size(), 0);
  forEach(m.roots, "", [&](const std::string &, const Node &x) {
    for (auto &h : x.hist) used[h.id] = 1;
  });
  for (size_t i = 0; i < used.size(); i++)
    if (!used[i] && bad.empty()) bad = "unreferenced backup " + std::to_string(i);
  return bad;
}
}  // namespace repo
