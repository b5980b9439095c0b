// C11 (format and round trip), C12 (corrupt metadata).
#include "../faults.hpp"
#include <algorithm>
#include <stdexcept>
using namespace flt;

// ------------------------------------------------------------------ writing repositories with the own encoder
struct EncOpt { bool reverse = false; int slot = 0; int extraAt = -1; bool cfgHist = false; };
static repo::State toState(FS &fs, const string &r, const repo::RState &x, int slot) {
  repo::State s;
  s.kind = x.kind;
  s.uid = x.uid;
  s.gid = x.gid;
  s.mode = x.kind == repo::K_FILE ? x.perm | 0100000 : x.kind == repo::K_DIR ? x.perm | 0040000 : 0;   // as in st_mode
  s.mtime = x.mtime;
  if (x.kind == repo::K_LINK) s.target = x.data;
  if (x.kind == repo::K_FILE) {
    s.size = x.data.size();
    if (s.size <= repo::HASHLEN) s.inl = x.data;
    else {
      s.inl = repo::blake2b(x.data);
      s.slot = slot;
      fs.mkfile(r + "/" + repo::blobPath(s), x.data, 0600, 77);
    }
  }
  return s;
}
static void toNodes(FS &fs, const string &r, const spec::Tree &t, const map<int64_t, uint64_t> &id, const EncOpt &o, vector<repo::Node> &out) {
  for (auto &x : t) {
    repo::Node n;
    n.name = x.first;
    n.policy = x.second.policy;
    for (auto &h : x.second.hist) n.hist.push_back({id.at(h.time), toState(fs, r, h.st, o.slot)});
    toNodes(fs, r, x.second.subs, id, o, n.subs);
    out.push_back(n);
  }
  if (o.reverse) std::reverse(out.begin(), out.end());
}
static repo::Meta toMeta(FS &fs, const string &r, const spec::Tree &t, const EncOpt &o) {
  repo::Meta m;
  m.times = spec::times(t);
  if (o.extraAt >= 0) {
    size_t k = std::min((size_t)o.extraAt, m.times.size());
    int64_t tm = k == 0 ? (m.times.empty() ? 1 : m.times[0]) + 7 : m.times[k - 1] - 7;
    m.times.insert(m.times.begin() + k, tm);
  }
  map<int64_t, uint64_t> id;
  for (size_t i = 0; i < m.times.size(); i++) id[m.times[i]] = i;
  toNodes(fs, r, t, id, o, m.roots);
  m.total = repo::countNodes(m.roots);
  if (o.cfgHist) {
    // releases which also recorded the configuration: newest state first, the oldest backup is referenced by it only
    m.times.push_back(m.times.empty() ? 5 : m.times.back() - 100);
    repo::RState a;
    a.kind = repo::K_FILE;
    a.perm = 0600;
    a.uid = 1; a.gid = 2; a.mtime = 33;
    a.data = "[copy]\n/some/old/config/long/enough\n";
    if (m.times.size() > 1) m.config.push_back({0, toState(fs, r, a, 0)});
    a.data = "short";
    m.config.push_back({m.times.size() - 1, toState(fs, r, a, 0)});
  }
  return m;
}
static string timesStr(const vector<int64_t> &v) { string s; for (auto t : v) s += " " + std::to_string(t); return s; }
// Raw metadata must be exactly what the own encoder makes of its meaning.
static void canonical(mc::Ctx &c, const FS &fs, const string &r, const string &what) {
  string b = repo::metaBytes(fs, r), e;
  repo::Meta m;
  if (!fs.exists(r + "/metadata")) return;
  c.check(repo::decode(b, m, e), "layout", e + "\n" + what);
  c.check(repo::encode(m) == b, "layout", "bytes differ from the documented layout\n" + what);
}
static string configStr(const repo::Meta &m) {
  string s;
  for (auto &p : m.config) s += "@" + std::to_string(m.times[p.id]) + " " + std::to_string(p.st.kind) + " " + std::to_string(p.st.uid) + ":" + std::to_string(p.st.gid) + " " + std::to_string(p.st.mode) + " " +
                                std::to_string(p.st.mtime) + " " + std::to_string(p.st.size) + " " + repo::hex(p.st.inl) + "\n";
  return s;
}

// A repository written by the own encoder must be read and rewritten without any loss. s.tree holds what it contains.
static void readAndRewrite(mc::Ctx &c, Sim &s, const EncOpt &o, const std::function<void(FS &)> &next, bool restores) {
  repo::Meta m = toMeta(s.w.fs, s.r, s.tree, o);
  string bytes = repo::encode(m);
  s.w.fs.mkfile(s.r + "/metadata", bytes, 0600, 99);
  auto ctxt = [&] { return "\nrepository written by the own encoder:\n" + spec::viewStr(spec::flatten(s.tree)) + "times:" + timesStr(m.times) + "\nconfig:\n" + s.cfgText; };
  World w = s.w;
  Result r = nb(w, {s.r, "integrity"});
  c.check(r.ok() && r.out.find("Healthy") != string::npos, "not-loaded", ctxt() + show(r));
  string d = diff(s.w.fs, w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME);
  c.check(d.empty(), "integrity-changed", d + ctxt());
  c.eval();
  // the numbers address the backups in the order stored
  repo::View v;
  repo::LoadOpt lo;
  string e = repo::load(s.w.fs, s.r, v, lo);
  if (!e.empty() && o.extraAt < 0 && !o.cfgHist) throw std::runtime_error("encoder: " + e);
  if (restores)
    for (size_t i = 0; i < m.times.size(); i++) {
      World q = s.w;
      lib::restore(c, q, s.r, v, i, "/");
    }
  // rewritten together with a new file
  next(s.w.fs);
  spec::Tree before = s.tree;
  FS fsBefore = s.w.fs;
  spec::BackupResult want = spec::backup(s.tree, s.cfg, s.w.fs, 1700900000);
  c.require(want.ok);
  s.w.now = 1700900000;
  r = nb(s.w, {s.r});
  c.trans();
  c.check(r.ok(), "backup-failed", ctxt() + show(r));
  repo::Meta m2;
  c.check(repo::decode(repo::metaBytes(s.w.fs, s.r), m2, e), "layout", e + ctxt());
  if (!want.changes) {
    c.check(repo::metaBytes(s.w.fs, s.r) == bytes, "rewritten-without-changes", ctxt() + show(r));
    c.validated();
    return;
  }
  canonical(c, s.w.fs, s.r, ctxt());
  std::set<int64_t> keep;
  for (auto t : spec::times(want.next)) keep.insert(t);
  for (auto &p : m.config) keep.insert(m.times[p.id]);
  vector<int64_t> wt;
  if (keep.count(s.w.now)) wt.push_back(s.w.now);
  for (auto t : m.times) if (keep.count(t)) wt.push_back(t);
  repo::View v2;
  e = repo::load(s.w.fs, s.r, v2, lo);
  if (o.cfgHist && e.compare(0, 19, "unreferenced backup") == 0) e = "";
  auto full = [&] { return ctxt() + "\nfile system:\n" + dump(fsBefore, "/", vos::D_ALL, [&](const string &p) { return p == s.r; }) + "afterwards:\n" + v2.str() + show(r); };
  c.check(e.empty(), "rewritten-broken", e + full());
  c.check(m2.times == wt, "backups", "expected times:" + timesStr(wt) + "\nrecorded times:" + timesStr(m2.times) + full());
  d = spec::compare(want.next, v2);
  c.check(d.empty(), "lossy", d + full());
  c.check(configStr(m) == configStr(m2), "config-history", configStr(m) + "became\n" + configStr(m2) + full());
  c.check(m2.total == repo::countNodes(m2.roots), "count", full());
  c.validated();
  c.eval();
  c.state(s.canon(d));
  c.nontrivial(vos::hash64(bytes + s.cfgText + dump(fsBefore, "/s")));
}

MC_CHECK(C11, "model_checking") {
  job.rule("Repositories holding every result of a modelled history (states x configurations), written by an independent encoder in several "
           "forms (order of entries, places, unreferenced backups, recorded configuration), are checked, restored at every number, and rewritten by the program "
           "together with every change of a set; boundary values of every attribute, name and content; every metadata file the program writes "
           "in all histories of a family must equal the independent encoding of its meaning. Non-trivial: a distinct rewritten repository.");
  static const int nForms = 7;
  auto form = [](mc::Ctx &c) {
    EncOpt o;
    int k = c.choose(nForms);
    if (k == 1) o.reverse = true;
    if (k == 2) o.slot = 255;
    if (k == 3) o.extraAt = 0;
    if (k == 4) o.extraAt = 1;
    if (k == 5) o.extraAt = 9;
    if (k == 6) o.cfgHist = true;
    c.note("form " + std::to_string(k));
    return o;
  };
  job.explore("written-elsewhere", [=](mc::Ctx &c) {
    Sim s;
    static const vector<Cfg> all = configs();
    static const vector<Cfg> few = {{"d:track", "[track]\n/s/d\n"}, {"d:track c:copy", "[track]\n/s/d\n[copy]\n/s/d/c\n"}, {"d:mirror c:track", "[mirror]\n/s/d\n[track]\n/s/d/c\n"}, {"d:copy c:track", "[copy]\n/s/d\n[track]\n/s/d/c\n"}};
    const vector<Cfg> &cf = c.thorough ? all : few;
    int k = c.choose((int)cf.size());
    c.note("config{" + cf[k].name + "}");
    s.config(cf[k].text);
    int n = 1 + c.choose(c.thorough ? 3 : 2, "backups");
    for (int i = 0; i < n; i++) {
      applyState(s.w.fs, chooseState(c));
      spec::BackupResult b = spec::backup(s.tree, s.cfg, s.w.fs, 1700000000 + i * 1000);
      c.require(b.ok);
      s.tree = b.next;
    }
    c.require(!s.tree.empty());
    EncOpt o = form(c);
    int nx = c.choose(5, "then");
    readAndRewrite(c, s, o, [&](FS &fs) {
      static const int to[] = {-1, 0, 1, 9, 12};
      if (nx) applyState(fs, to[nx]);
      if (nx == 1) fs.rm("/s/d");
    }, nx == 0);
  });
  job.explore("boundary-values", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s/d\n[copy]\n/s/new\n");
    static const uint32_t ids[] = {0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu};
    static const uint32_t perms[] = {0, 07777, 0644, 04000, 02000, 01000, 0777, 0400};
    static const int64_t mt[] = {0, 1, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 1ll << 40, -1, -(1ll << 33)};
    static const vector<string> names = {"c", string(255, 'n'), "new\nline", "\xc3\xa4\xff", " ", "...", "a b", "-", "\\", "c~", "\x01"};
    static const vector<string> data = {"", "1", string(19, '9'), string(20, '0'), string(21, '1'), string(4096, 'x'), string(10001, '\0'), string("\0\n\r\xff", 4)};
    static const vector<string> targets = {"x", string(1000, 't'), "/", "..", "a\nb", "\xff"};
    uint32_t uid = 3, gid = 4, perm = 0640;
    int64_t t = 12345;
    string name = "c", dat = "content long enough to be a stored file", tgt = "target";
    int kind = c.choose(3, "kind"), what = c.choose(7, "varied"), what2 = c.thorough || what < 4 ? c.choose(7, "and") : what;
    c.require(what2 >= what);
    for (int q : {what, what2}) {
      if (q == what2 && what == what2 && q != what) break;
      switch (q) {
      case 0: uid = ids[c.choose(9)]; break;
      case 1: gid = ids[c.choose(9)]; break;
      case 2: perm = perms[c.choose(8)]; break;
      case 3: t = mt[c.choose(9)]; break;
      case 4: name = names[c.choose((int)names.size())]; break;
      case 5: if (kind == 0) dat = data[c.choose((int)data.size())]; break;
      case 6: if (kind == 1) tgt = targets[c.choose((int)targets.size())]; break;
      }
      if (what == what2) break;
    }
    FS &fs = s.w.fs;
    fs.mkdir("/s", 0755, 1);
    fs.mkdir("/s/d", 0755, 2);
    string p = "/s/d/" + name;
    if (kind == 0) fs.mkfile(p, dat, perm, t, uid, gid);
    if (kind == 1) fs.mklink(p, tgt, uid, gid);
    if (kind == 2) fs.mkdir(p, perm, t, uid, gid);
    // written by the program, read back independently
    Sim a = s;
    a.backup(c, O_VIEW | O_STATUS | O_FILES);
    canonical(c, a.w.fs, a.r, c.notes);
    // read again: nothing changed
    a.backup(c, O_VIEW | O_STATUS);
    c.check(!a.last.changes, "model", c.notes);
    // rewritten with something new
    a.w.fs.mkfile("/s/new", "something new and long enough for a file");
    a.w.fs.setmtime("/s", 1);
    a.backup(c, O_VIEW | O_STATUS | O_FILES);
    canonical(c, a.w.fs, a.r, c.notes);
    // written independently, read by the program
    spec::BackupResult b = spec::backup(s.tree, s.cfg, s.w.fs, 1700000000);
    c.require(b.ok);
    s.tree = b.next;
    EncOpt o = form(c);
    readAndRewrite(c, s, o, [&](FS &fs2) { fs2.mkfile("/s/new", "something new and long enough for a file"); fs2.setmtime("/s", 1); }, true);
  });
  // The times of backups, in every order.
  job.explore("times", [=](mc::Ctx &c) {
    static const int64_t at[] = {1700000000, 1, 1LL << 31, (1LL << 32) + 5, 0xffffffffLL, 1LL << 40, -5, INT64_MAX - 1, -(1LL << 33), 0};
    int n = c.thorough ? 10 : 8;
    World w;
    w.fs.mkdir("/r");
    w.fs.mkfile("/r/config", "[track]\n/s\n");
    vector<int64_t> times;
    bool patched = c.choose(2, "written-elsewhere");
    for (int i = 0; i < (c.thorough ? 4 : 3); i++) {
      int64_t t = at[c.choose(n, "time")];
      times.insert(times.begin(), t);
      w.fs.mkfile("/s/f", "content number " + std::to_string(i) + ", long enough for a file", 0644, 100 + i);
      w.now = patched && i < 2 ? 1800000000 + i : t;
      Result R = nb(w, {"/r"});
      c.trans();
      c.eval();
      string ctxt;
      for (auto x : times) ctxt += " " + std::to_string(x);
      c.check(R.ok(), "backup-failed", ctxt + "\n" + show(R));
      canonical(c, w.fs, "/r", ctxt);
      repo::Meta m;
      string e;
      c.check(repo::decode(repo::metaBytes(w.fs, "/r"), m, e), "layout", e + ctxt);
      if (patched && i < 2) { m.times[0] = t; w.fs.mkfile("/r/metadata", repo::encode(m), 0600, 99); }
      c.check(m.times == times, "backups", "expected:" + ctxt + "\nrecorded:" + timesStr(m.times));
      c.state(vos::hash64(ctxt));
      c.nontrivial(ctxt);
    }
    c.check(nb(w, {"/r", "integrity"}).ok(), "integrity", "");
  });
  job.explore("every-written-file", [=](mc::Ctx &c) {
    Sim s;
    static const vector<Cfg> all = configs();
    int depth = c.thorough ? 3 : 2;
    for (int i = 0; i < depth; i++) {
      int k = c.choose(i ? 1 + (int)all.size() : (int)all.size()) - (i ? 1 : 0);
      if (k >= 0) { c.note("config{" + all[k].name + "}"); s.config(all[k].text); }
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_FILES);
      repo::View v = s.view(c);
      canonical(c, s.w.fs, s.r, v.str());
      c.check(v.times == spec::times(s.tree), "backups", "expected:" + timesStr(spec::times(s.tree)) + "\nrecorded:" + timesStr(v.times));
      c.prune(vos::hash64(s.cfgText, s.canon()), depth - i);
    }
  });
}

// ------------------------------------------------------------------ C12
static Sim corruptBase(mc::Ctx &c, int k) {
  Sim s;
  FS &fs = s.w.fs;
  if (k == 0) { s.config("[copy]\n/s/d\n"); applyState(fs, 1); s.backup(c, 0); }
  if (k == 1) { s.config("[track]\n/s/d\n"); applyState(fs, 5); s.backup(c, 0); applyState(fs, 7); s.backup(c, 0); applyState(fs, 3); s.backup(c, 0); }
  if (k == 2) {
    s.config("[mirror]\n/s/d\n[track]\n/s/d/sub\n[copy]\n/s/e\n");
    richState(fs, 2);
    fs.mklink("/s/e", "somewhere/else");
    s.backup(c, 0);
    richState(fs, 3);
    fs.mkdir("/s/d/sub", 0700, 300);
    fs.mkfile("/s/d/sub/g", "a file in sub, large enough", 0644, 1);
    s.backup(c, 0);
  }
  if (k == 3) {   // with a recorded configuration
    s.config("[track]\n/s/d\n");
    applyState(fs, 9);
    s.tree = spec::backup(s.tree, s.cfg, fs, 1700000000).next;
    EncOpt o;
    o.cfgHist = true;
    fs.mkfile(s.r + "/metadata", repo::encode(toMeta(fs, s.r, s.tree, o)), 0600, 99);
  }
  return s;
}
static void judgeCorrupt(mc::Ctx &c, const Sim &s, const string &bytes, const string &what) {
  repo::Meta m;
  string err;
  bool valid = repo::decode(bytes, m, err);
  World base = s.w;
  base.fence = true;
  base.fs.mkfile(s.r + "/metadata", bytes, 0600, 99);
  base.fs.mkfile(s.r + "/leftover", "unreferenced");
  static const vector<vector<string>> cmds = {{"/r", "integrity"}, {"/r", "gc"}, {"/r"}, {"/r", "0", "/"}, {"/r", "1", "/s/d"}};
  for (auto &cmd : cmds) {
    World w = base;
    if (cmd.size() == 3) w.fs.rm("/s");
    FS before = w.fs;
    if (cmd.size() == 1) w.fs.mkfile("/s/d", "new file replacing everything, large", 0600, 4242), before = w.fs;
    Result r = nb(w, cmd);
    c.trans();
    c.eval();
    auto ctxt = [&] {
      string a;
      for (auto &q : cmd) a += " " + q;
      return what + (valid ? " (still readable)" : " (" + err + ")") + "\nnb" + a + "\n" + show(r);
    };
    c.check(r.kind == vos::E_EXIT, "crash", ctxt());
    if (!valid) {
      c.check(r.code != 0, "accepted", ctxt());
      c.check(r.err.find("nb: ") != string::npos, "no-message", ctxt());
      string d = diff(before, w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME);
      c.check(d.empty(), "changed", d + ctxt());
      c.nontrivial(r.err);
    } else if (cmd.size() == 2 && cmd[1] == "integrity") {
      string d = diff(before, w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME);
      c.check(d.empty(), "changed", d + ctxt());
    } else if (cmd.size() == 2 && r.ok()) {
      c.check(repo::metaBytes(w.fs, s.r) == bytes && !w.fs.exists(s.r + "/leftover"), "gc", ctxt());
    }
  }
  c.state(vos::hash64(bytes));
  c.validated();
}

MC_CHECK(C12, "model_checking") {
  job.rule("Metadata of four repositories with every prefix, every single-byte substitution from a set (thorough: all values), every removed, doubled or inserted byte, "
           "every field set to each boundary value, every pair of fields so (thorough and the smallest repository), fields removed, doubled or exchanged, trailing bytes, duplicated and deeply nested entries; "
           "each through integrity, gc, backup and two restores with memory fenced so that any access outside an allocation traps. "
           "What an independent decoder rejects must be refused with a message and without any change; whatever is left must end normally. Non-trivial: a distinct message.");
  auto basebytes = [](const Sim &s) { return repo::metaBytes(s.w.fs, s.r); };
  job.explore("prefixes", [=](mc::Ctx &c) {
    Sim s = corruptBase(c, c.choose(4, "base"));
    string b = basebytes(s);
    for (size_t n = 0; n <= b.size(); n++) judgeCorrupt(c, s, b.substr(0, n), "first " + std::to_string(n) + " bytes");
    for (string t : {string(1, '\0'), string(8, '\0'), string(1, 'x'), b, string(100, '\xff')}) judgeCorrupt(c, s, b + t, "trailing bytes");
  });
  job.explore("bytes", [=](mc::Ctx &c) {
    int k = c.choose(4, "base");
    int part = c.choose(8, "part");
    Sim s = corruptBase(c, k);
    string b = basebytes(s);
    for (size_t i = part; i < b.size(); i += 8) {
      std::set<int> vals;
      if (c.thorough) for (int q = 0; q < 256; q++) vals.insert(q);
      else {
        for (int q : {0, 1, 2, 3, 4, 5, 6, (int)'.', (int)'/', 0x7f, 0x80, 0xff}) vals.insert(q);
        for (int q = 0; q < 8; q++) vals.insert((uint8_t)(b[i] ^ (1 << q)));
        vals.insert((uint8_t)(b[i] + 1));
        vals.insert((uint8_t)(b[i] - 1));
      }
      vals.erase((uint8_t)b[i]);
      for (int q : vals) { string t = b; t[i] = (char)q; judgeCorrupt(c, s, t, "byte " + std::to_string(i) + " = " + std::to_string(q)); }
      string t = b;
      t.erase(i, 1);
      judgeCorrupt(c, s, t, "byte " + std::to_string(i) + " removed");
      t = b;
      t.insert(i, 1, b[i]);
      judgeCorrupt(c, s, t, "byte " + std::to_string(i) + " doubled");
      for (int q : {0, 1, 0xff}) { t = b; t.insert(i, 1, (char)q); judgeCorrupt(c, s, t, "byte inserted at " + std::to_string(i)); }
    }
  });
  auto fieldValues = [](const repo::Field &f, const string &b, bool few) {
    vector<string> v;
    string old = b.substr(f.off, f.len);
    bool num = !strstr(f.what, "hash") && strcmp(f.what, "name") && strcmp(f.what, "content") && strcmp(f.what, "target");
    if (num) {
      uint64_t o = 0;
      for (size_t i = 0; i < f.len; i++) o |= (uint64_t)(uint8_t)old[i] << (8 * i);
      std::set<uint64_t> x = {0, 1, 2, 3, 4, 5, 6, 7, 19, 20, 21, 255, o + 1, o - 1, o * 2, o + 8, ~0ull, ~0ull - 1, ~0ull - 7, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1, 1ull << 31,
                              1ull << 40, b.size() - f.off, b.size() - f.off - f.len, b.size() - f.off - f.len + 1, b.size(), (uint64_t)0 - f.off, (uint64_t)0 - f.off - f.len, ~0ull / 24, ~0ull / 24 + 1, ~0ull / 8, 1ull << 20};
      if (few) x = {0, 1, o + 1, 255, ~0ull, 1ull << 63};
      for (auto q : x) {
        string s;
        for (size_t i = 0; i < f.len; i++) s += (char)(q >> (8 * i));
        v.push_back(s);
      }
    } else {
      for (char ch : {'\0', '/', '.', '\xff'}) {
        v.push_back(string(f.len, ch));
        for (size_t i = 0; i < f.len; i += f.len > 1 ? f.len - 1 : 1) { string s = old; s[i] = ch; v.push_back(s); }
      }
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    v.erase(std::remove(v.begin(), v.end(), old), v.end());
    return v;
  };
  job.explore("fields", [=](mc::Ctx &c) {
    int k = c.choose(4, "base");
    Sim s = corruptBase(c, k);
    string b = basebytes(s), err;
    repo::Meta m;
    vector<repo::Field> f;
    if (!repo::decode(b, m, err, &f)) throw std::runtime_error("base: " + err);
    int i = c.choose((int)f.size(), "field");
    for (auto &v : fieldValues(f[i], b, false)) {
      string t = b;
      t.replace(f[i].off, f[i].len, v);
      judgeCorrupt(c, s, t, string(f[i].what) + " at " + std::to_string(f[i].off) + " = " + repo::hex(v));
      if (!c.thorough && k) continue;
      for (size_t j = i + 1; j < f.size(); j++)
        for (auto &v2 : fieldValues(f[j], b, !c.thorough)) {
          string t2 = t;
          t2.replace(f[j].off, f[j].len, v2);
          judgeCorrupt(c, s, t2, string(f[i].what) + " = " + repo::hex(v) + ", " + f[j].what + " at " + std::to_string(f[j].off) + " = " + repo::hex(v2));
        }
    }
    string t = b;
    t.erase(f[i].off, f[i].len);
    judgeCorrupt(c, s, t, string(f[i].what) + " removed");
    t = b;
    t.insert(f[i].off, b.substr(f[i].off, f[i].len));
    judgeCorrupt(c, s, t, string(f[i].what) + " doubled");
    if (i + 1 < (int)f.size()) {
      t = b.substr(0, f[i].off) + b.substr(f[i + 1].off, f[i + 1].len) + b.substr(f[i].off, f[i].len) + b.substr(f[i + 1].off + f[i + 1].len);
      judgeCorrupt(c, s, t, string(f[i].what) + " exchanged with the next");
    }
  });
  // Well-formed bytes with impossible or odd meaning.
  job.explore("odd-entries", [=](mc::Ctx &c) {
    int k = c.choose(4, "base");
    Sim s = corruptBase(c, k);
    repo::Meta m;
    string err;
    repo::decode(basebytes(s), m, err);
    // all nodes in order
    vector<repo::Node *> all;
    std::function<void(vector<repo::Node> &)> coll = [&](vector<repo::Node> &v) { for (auto &x : v) { all.push_back(&x); coll(x.subs); } };
    coll(m.roots);
    int i = c.choose((int)all.size(), "node");
    repo::Node &n = *all[i];
  string name = n.name;
    int q = c.choose(21, "oddity");
    switch (q) {
    case 0: n.policy = 4; break;
    case 1: n.policy = 5; break;
    case 2: n.policy = 255; break;
    case 3: n.hist.clear(); break;
    case 4: n.hist.clear(); n.subs.clear(); break;
    case 5: { repo::Node d = n; n.subs.push_back(d); break; }                // nested into itself
    case 6: { vector<repo::Node> *v = i == 0 ? &m.roots : nullptr; for (auto *x : all) for (auto &y : x->subs) if (&y == &n) v = &x->subs; repo::Node d = n; if (v) v->push_back(d); break; }  // twice
    case 7: std::reverse(n.hist.begin(), n.hist.end()); break;
    case 8: { auto h = n.hist; n.hist.insert(n.hist.end(), h.begin(), h.end()); break; }
    case 9: n.name = "."; break;
    case 10: n.name = ".."; break;
    case 11: n.name = "a/b"; break;
    case 12: n.name = string("a\0b", 3); break;
    case 13: n.name = string(300, 'n'); break;
    case 14: { repo::Node d = n; d.subs.clear(); for (int j = 0; j < 1500; j++) { repo::Node e2 = d; e2.subs = {d}; d = e2; } n.subs.push_back(d); break; }
    case 15: n.name = string(70000, 'n'); break;
    case 16: for (auto &h : n.hist) { h.st.mode = 0xffffffff; } break;
    case 17: for (auto &h : n.hist) h.id = m.times.size(); break;
    case 19: case 20: {   // nested far deeper than any path
      const int depth = q == 19 ? 3000 : 30000;
      repo::Node leaf;
      leaf.name = "d";
      leaf.policy = 1;
      leaf.hist = {n.hist[0]};
      repo::Meta one;
      one.times = m.times;
      one.roots = {leaf};
      string enc = repo::encode(one), pre = enc.substr(0, 8 + 8 * m.times.size() + 16), node = enc.substr(pre.size() + 8, enc.size() - pre.size() - 16);
      string one8 = enc.substr(pre.size(), 8), bytes = pre;
      for (int j = 0; j < depth; j++) bytes += one8 + node;
      bytes += string(8, '\0');
      judgeCorrupt(c, s, bytes, "nested " + std::to_string(depth) + " levels deep");
      return;
    }
    case 18: for (auto &h : n.hist) if (h.st.kind == repo::K_NONE) h.st.kind = repo::K_DIR; else h.st.kind = repo::K_NONE; break;
    }
    int tot = c.choose(3, "count");
    m.total = tot == 0 ? repo::countNodes(m.roots) : tot == 1 ? 0 : ~0ull;
    judgeCorrupt(c, s, repo::encode(m), "oddity " + std::to_string(q) + " of " + name);
  });
}
