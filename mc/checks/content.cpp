// C08 (garbage collection), C09 (deduplication), C10 (integrity check): the stored contents.
#include "../faults.hpp"
#include <algorithm>
using namespace flt;

// A history whose repository has shared, inline, large and historic contents.
static void richRepo(mc::Ctx &c, Sim &s, int k) {
  if (k == 0) { s.config("[track]\n/s/d\n"); richState(s.w.fs, 2); s.backup(c, 0); richState(s.w.fs, 3); s.backup(c, 0); }
  if (k == 1) { s.config("[copy]\n/s/d\n"); applyState(s.w.fs, 9); s.backup(c, 0); }
  if (k == 2) { s.config("[copy]\n/s/d\n"); applyState(s.w.fs, 1); s.backup(c, 0); }
  if (k == 3) {   // colliding hashes: several slots
    s.w.weakHash = true;
    s.config("[track]\n/s/d\n");
    s.w.fs.mkdir("/s/d", 0755, 4000);
    for (int i = 0; i < 3; i++) s.w.fs.mkfile("/s/d/f" + std::to_string(i), "colliding content number " + std::to_string(i), 0644, 100 + i);
    s.backup(c, 0);
    s.w.fs.rm("/s/d/f1");
    s.w.fs.mkfile("/s/d/g", "colliding content, other size", 0644, 200);
    s.backup(c, 0);
  }
}
// Larger repositories: many states of a path, deep trees, long paths, many entries.
static void grownRepo(mc::Ctx &c, Sim &s) {
  FS &fs = s.w.fs;
  s.config("[track]\n/s/d\n");
  auto text = [](const string &p, int k) { return "content of " + p.substr(0, 40) + std::to_string(p.size()) + " number " + std::to_string(k); };
  int form = c.pick("form", {"many-states", "long-paths", "many-levels", "many-entries", "many-trees"});
  if (form == 0) {
    int n = vector<int>{20, 70, 140, 270}[c.choose(c.thorough ? 4 : 3, "backups")];
    for (int i = 0; i < n; i++) {
      fs.mkfile("/s/d/f", text("f", i), 0644, 100 + i);
      fs.mkfile("/s/d/e/g", text("g", i % 7 ? 0 : i), 0644, 100 + i);
      if (i % 10 == 3) fs.rm("/s/d/e/h"); else if (i % 10 == 8) fs.mkfile("/s/d/e/h", text("h", i), 0644, 100 + i);
      s.backup(c, 0);
    }
    return;
  }
  if (form == 1) {
    string deep = longPath("/s/d", longLengths()[c.choose((int)longLengths().size(), "length")]);
    mkdirsAt(fs, deep);
    for (string p = deep; p.size() > 3; p = spec::parentOf(p)) fs.mkfile(p + "/f", text(p, 1), 0644, 100);
  }
  if (form == 2) {
    int n = vector<int>{20, 70, 140, 270, 1000}[c.choose(c.thorough ? 5 : 4, "levels")];
    string p = "/s/d";
    for (int i = 0; i < n; i++) { fs.mkdir(p, 0755, 4000); fs.mkfile(p + "/f", text(p, i), 0644, 100); p += "/" + std::to_string(i % 10); }
  }
  if (form >= 3) {
    int n = vector<int>{20, 70, 140, 270, 1100}[c.choose(c.thorough ? 5 : 4, "entries")];
    string t = "[track]\n";
    for (int i = 0; i < n; i++) {
      string p = form == 3 ? "/s/d/f" + std::to_string(i) : "/s/t" + std::to_string(i);
      fs.mkfile(form == 3 ? p : p + "/f", text(p, i), 0644, 100);
      t += p + "\n";
    }
    if (form == 4) s.config(t);
  }
  s.backup(c, 0);
}
static map<string, repo::State> blobsOf(const FS &fs, const string &r) {
  repo::Meta m;
  string e;
  map<string, repo::State> bl;
  if (repo::decode(repo::metaBytes(fs, r), m, e)) repo::blobs(m, bl);
  return bl;
}

static const int nJunk = 22;
static void addJunk(FS &fs, const string &r, const string &blob, int k) {
  string dir = spec::parentOf(r + "/" + blob);
  bool have = !blob.empty();
  switch (k) {
  case 0: fs.mkfile(r + "/junk", string(100, 'j'), 0644, 50); break;
  case 1: fs.mkfile(r + "/tmp-file", string(50, 't'), 0600, 51); break;
  case 2: fs.mkdir(r + "/a0/bc"); break;
  case 3: fs.mkfile(r + "/ab/cd/ef", string(10, 'x'), 0444, 52); break;
  case 4: fs.mkfile(r + "/x/y/z/file", string(3000, 'y')); fs.mkdir(r + "/x/y/e"); fs.mkdir(r + "/x/empty"); break;
  case 5: fs.mklink(r + "/ln", "/out/file"); break;
  case 6: fs.mklink(r + "/lndir", "/out/dir"); break;
  case 7: fs.mkfifo(r + "/fifo"); break;
  case 8: fs.mkfile(r + "/" + (have ? blob.substr(0, blob.size() - 1) + "9" : "0/00/x"), string(77, 's')); break;
  case 9: fs.mkfile((have ? dir : r + "/0") + "/neighbour", string(5, 'n')); break;
  case 10: fs.mklink((have ? dir : r + "/1") + "/lndir", "/out/dir"); break;
  case 11: fs.mklink(r + "/self", "/r"); break;
  case 12: fs.mklink(r + "/config2", "config"); break;
  case 13: fs.mkfile(r + "/config.d/metadata", "m"); fs.mkfile(r + "/sub/config", "c"); fs.mkfile(r + "/sub2/config", ""); fs.mkfile(r + "/sub2/metadata", ""); fs.mkdir(r + "/sub2/lockfile"); fs.mkfifo(r + "/sub3/config"); break;
  case 14: fs.mkfile(r + "/config~", "old config"); fs.mkfile(r + "/metadata.bak", "old metadata"); break;
  case 15: fs.mkfile(r + "/lockfile", ""); break;
  case 16: fs.mkfile(r + "/closed/f", "no access", 0); fs.mkdir(r + "/closed", 0); break;
  case 17: { int n = fs.mkfile(r + "/huge", "sparse"); fs.w(n).fakesize = 5368709121ll; } break;
  case 18: fs.mkfile(r + "/line\nbreak \xc3\xa4", "odd name"); break;
  case 19: { string p = r; for (int i = 0; i < 30; i++) p += "/deep"; fs.mkfile(p, "deep"); } break;
  case 20: fs.mklink(r + "/dangling", "/nowhere"); fs.mklink(r + "/up", ".."); break;
  case 21: fs.mkfile((have ? r + "/" + blob.substr(0, blob.find('/')) : r + "/2") + "/x", string(9, 'q')); break;
  }
}
static uint64_t regularBytes(const FS &fs, int n) {
  const vos::Inode &i = fs.r(n);
  if (i.type == vos::T_FILE) return i.fakesize >= 0 ? i.fakesize : i.data.size();
  uint64_t s = 0;
  if (i.type == vos::T_DIR) for (auto &e : i.ents) s += regularBytes(fs, e.second);
  return s;
}

MC_CHECK(C08, "model_checking") {
  job.rule("All repositories of a set (shared, historic, inline, colliding contents) with every subset of stray items up to a size, "
           "under every spelling of the repository path, through gc and through the gc ending a backup; and all histories of backups with changing configuration and "
           "files. Oracle: exactly the configuration, the metadata and the contents named by the independently decoded metadata remain, unaltered. "
           "Non-trivial: a distinct repository before gc that holds something to remove.");
  const int maxJunk = job.thorough ? 4 : 3;
  job.explore("stray-items", [=](mc::Ctx &c) {
    Sim s;
    richRepo(c, s, c.choose(4, "repository"));
    s.w.fs.mkfile("/out/file", "outside", 0600, 77);
    s.w.fs.mkfile("/out/dir/inner/file", "outside too", 0600, 78);
    auto bl = blobsOf(s.w.fs, s.r);
    string blob = bl.empty() ? "" : bl.begin()->first;
    int from = 0, cnt = 0;
    while (cnt < maxJunk) {
      int k = c.choose(nJunk - from + 1);
      if (k == 0) break;
      from += k;
      addJunk(s.w.fs, s.r, blob, from - 1);
      c.note("junk" + std::to_string(from - 1));
      cnt++;
    }
    static const struct { const char *arg, *cwd; } sp[] = {{"/r", "/"}, {"/r/", "/"}, {"r", "/"}, {"./r//", "/"}, {".", "/r"}, {"../r", "/out"}, {"/link", "/"}, {"//r///", "/"}, {"/link/", "/out"}};
    int q = c.choose(cnt <= 2 ? 9 : 2, "spelling");
    int mode = cnt > 2 ? 0 : c.pick("through", {"gc", "backup"});
    s.w.fs.mklink("/link", "r");
    s.w.readdirOrder = cnt <= 1 ? c.choose(3, "order") : 0;
    FS before = s.w.fs;
    string in = "y\n";
    vector<string> args{sp[q].arg};
    if (mode == 0) args.push_back("gc");
    else s.w.fs.mkfile("/s/d", "a new state of d, long enough to be stored", 0644, 4321);
    FS base = s.w.fs;
    s.w.now += 777;
    Result r = nb(s.w, args, in, nullptr, sp[q].cwd);
    c.trans();
    c.eval();
    auto ctxt = [&] { return "\nnb " + args[0] + (mode ? "" : " gc") + " in " + sp[q].cwd + "\nbefore:\n" + dump(base, s.r) + "after:\n" + dump(s.w.fs, s.r) + show(r); };
    c.check(r.ok(), "gc-failed", ctxt());
    string d = diff(base, s.w.fs, "/", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "changed-outside", d + ctxt());
    d = extraFiles(s.w.fs, s.r);
    c.check(d.empty(), "not-exact", d + ctxt());
    repo::View v;
    repo::LoadOpt lo;
    lo.checkHash = !s.w.weakHash;
    d = repo::load(s.w.fs, s.r, v, lo);
    c.check(d.empty(), "damaged", d + ctxt());
    c.state(vos::hash64(dump(s.w.fs, s.r, vos::D_DATA)));
    if (cnt) c.nontrivial(vos::hash64(dump(base, s.r, vos::D_DATA) + sp[q].arg + std::to_string(mode)));
    c.validated();
    if (mode == 0) {
      // everything kept is untouched, the amount is right
      d = diff(base, s.w.fs, s.r, vos::D_ALL & ~vos::D_DIRMTIME, [&](const string &p) { return !s.w.fs.exists(p); });
      c.check(d.empty(), "altered", d + ctxt());
      uint64_t gone = regularBytes(base, base.lookup(s.r)) - regularBytes(s.w.fs, s.w.fs.lookup(s.r));
      string want = "Discarding unreferenced data... 100.0% (" + spec::humanSize(gone) + " deleted)\n";
      c.check(r.out == want, "amount", "expected: " + want + ctxt());
    }
    World again = s.w;
    Result r2 = nb(again, {"/r", "gc"});
    c.check(r2.ok() && r2.out == "Discarding unreferenced data... 100.0% (0 b deleted)\n", "second-gc", ctxt() + show(r2));
    d = diff(s.w.fs, again.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME);
    c.check(d.empty(), "second-gc-changed", d + ctxt());
  });
  job.explore("larger", [=](mc::Ctx &c) {
    Sim s;
    grownRepo(c, s);
    addJunk(s.w.fs, s.r, "", c.of(vector<int>{0, 3, 4}, "junk"));
    FS base = s.w.fs;
    bool backup = c.pick("through", {"gc", "backup"});
    if (backup) s.w.fs.mkfile("/s/d", "a file now, long enough to be stored in the repository", 0644, 4321);
    FS then = s.w.fs;
    s.w.now += 777;
    Result r = nb(s.w, backup ? vector<string>{s.r} : vector<string>{s.r, "gc"}, "y\n");
    c.trans();
    c.eval();
    auto ctxt = [&] { return show(r).substr(0, 3000); };
    if (backup && s.cfgText.find("/s/t0") == string::npos) c.check(r.out.find("/s/d") != string::npos, "not-recorded", ctxt());
    c.check(r.ok(), "gc-failed", ctxt());
    string d = extraFiles(s.w.fs, s.r);
    if (!backup || s.cfgText.find("/s/t0") == string::npos) c.check(d.empty(), "not-exact", d.substr(0, 3000) + ctxt());
    repo::View v;
    d = repo::load(s.w.fs, s.r, v);
    c.check(d.empty(), "damaged", d.substr(0, 3000) + ctxt());
    // every content is still in its place
    for (auto &b : blobsOf(base, s.r)) c.check(s.w.fs.exists(s.r + "/" + b.first) && s.w.fs.content(s.r + "/" + b.first) == base.content(s.r + "/" + b.first), "content-removed", b.first + ctxt());
    d = diff(then, s.w.fs, "/", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "changed-outside", d.substr(0, 3000));
    c.nontrivial(vos::hash64(dump(base, s.r, vos::D_DATA), backup));
    c.validated();
  });
  job.explore("histories", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    for (int i = 0; i < 3; i++) {
      int k = c.choose((int)cfgs.size());
      c.note("config{" + cfgs[k].name + "}");
      s.config(cfgs[k].text);
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_FILES);
      c.prune(s.canon(), 3 - i);
    }
  });
}

// ------------------------------------------------------------------ C09
// Every stored file must hold another content. known: the violation is the recorded one, a content stored again in a lower
// place that was collected while the content remained in a higher one.
static void contentsDistinct(mc::Ctx &c, const World &w, const string &r, const FS &before) {
  map<string, string> by;
  for (auto &b : blobsOf(w.fs, r)) {
    int n = w.fs.lookup(r + "/" + b.first, false);
    c.check(n >= 0, "missing", b.first);
    const string &d = w.fs.r(n).data;
    c.check(d.size() > repo::HASHLEN, "small-content-in-a-file", b.first);
    if (by.count(d)) {
      bool x = before.exists(r + "/" + b.first), y = before.exists(r + "/" + by[d]);
      c.fail(x != y ? "stored-again-below-remaining-place" : "stored-twice",
             "the same content is stored twice: " + by[d] + " and " + b.first + "\nbefore the backup:\n" + dump(before, r) + "after:\n" + dump(w.fs, r) + dump(w.fs, "/s"));
    }
    by[d] = b.first;
  }
}
MC_CHECK(C09, "model_checking") {
  job.rule("All assignments of contents (equal, different, colliding in size and in the weakened hash, around the inline limit) to "
           "three paths in two or three consecutive backups; all sequences of adding and removing colliding contents; 256 and 257 colliding "
           "contents. The hash function is weakened at its interface so that contents of equal size collide in one or two classes. "
           "Non-trivial: a distinct pair of repositories between which a backup recorded something.");
  job.assume("The hash is replaced by one with one or two values; collisions of the real hash behave the same.");
  static const vector<string> con = {
      "", "colliding content AAAAAAA", "colliding content BBBBBBB", "colliding content CCCCCCC", "colliding content of another size",
      string(20, 'i'), string(21, 'i'), string(20, 'i') + "j", string(5000, 'L') + "1", string(5000, 'L') + "2"};
  job.explore("assignments", [=](mc::Ctx &c) {
    Sim s;
    s.w.weakHash = true;
    s.w.weakClasses = 1 + c.choose(2, "classes");
    s.w.blksize = 4096;
    const char *pol = c.choose(2) ? "mirror" : "track";
    s.config(string("[") + pol + "]\n/s\n");
    const bool deep = c.thorough && c.choose(2, "deep");
    const int depth = deep ? 3 : 2;
    int last[3] = {-1, -1, -1};
    for (int i = 0; i < depth; i++) {
      s.w.fs.mkdir("/s", 0755, 5000 + i);
      for (int f = 0; f < 3; f++) {
        // an existing path keeps its content or changes its size (see the part "in-place")
        int n = deep ? (f == 2 ? 4 : 5) : (int)con.size() - (c.thorough ? 0 : f == 2 ? 4 : 2);
        int k = c.choose(n + 1) - 1;
        string p = "/s/" + string(1, 'a' + f);
        if (last[f] >= 0 && k >= 0 && k != last[f] && con[k].size() == con[last[f]].size()) c.skip();
        last[f] = k;
        c.note(k < 0 ? "-" : std::to_string(k));
        if (k < 0) s.w.fs.rm(p);
        else s.w.fs.mkfile(p, con[k], 0644, 1000 + k);
      }
      FS before = s.w.fs;
      s.backup(c, O_VIEW | O_FILES | O_STATUS);
      contentsDistinct(c, s.w, s.r, before);
      World a = s.w;
      Result r = nb(a, {s.r, "integrity"});
      c.check(r.ok(), "integrity", show(r));
      c.prune(s.canon(std::to_string(s.w.weakClasses) + pol + dump(s.w.fs, "/s")), depth - i);
    }
  });
  job.explore("blocks", [=](mc::Ctx &c) {
    // contents of several blocks that differ in one place only
    Sim s;
    s.w.weakHash = true;
    static const int lens[] = {21, 22, 511, 512, 513, 1023, 1024, 1025, 1536, 1537, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289};
    static const int blk[] = {512, 1024, 4096, 16};
    int L = lens[c.choose(18, "length")];
    s.w.blksize = blk[c.choose(4, "blksize")];
    std::set<int> pos{0, 1, L / 2, L - 2, L - 1};
    for (int b = 512; b < L; b += 512) for (int o = -1; o <= 1; o++) if (b + o < L) pos.insert(b + o);
    vector<int> ps(pos.begin(), pos.end());
    int at = ps[c.choose((int)ps.size(), "position")];
    string A, B;
    for (int i = 0; i < L; i++) A += char('a' + (i * 7 + i / 512) % 26);
    B = A;
    B[at] ^= 1;
    s.config(c.choose(2) ? "[track]\n/s\n" : "[mirror]\n/s\n");
    int third = c.pick("third", {"none", "equals-first", "equals-second"});
    bool together = c.choose(2, "together");
    s.w.fs.mkfile("/s/a", A, 0644, 100);
    if (!together) s.backup(c, O_VIEW | O_FILES | O_STATUS);
    s.w.fs.mkfile("/s/b", B, 0644, 200);
    if (third) s.w.fs.mkfile("/s/c", third == 1 ? A : B, 0644, 300);
    s.w.fs.mkdir("/s", 0755, 5001);
    FS before = s.w.fs;
    s.backup(c, O_VIEW | O_FILES | O_STATUS);
    contentsDistinct(c, s.w, s.r, before);
    c.check(blobsOf(s.w.fs, s.r).size() == 2, "places", dump(s.w.fs, s.r));
    c.nontrivial(vos::hash64(dump(s.w.fs, "/s") + dump(s.w.fs, s.r) + std::to_string(s.w.blksize)));
  });
  job.explore("large-blocks", [=](mc::Ctx &c) {
    // large contents that differ in one place only
    Sim s;
    s.w.weakHash = true;
    s.w.stepLimit = 1 << 26;
    static const int lens[] = {65535, 65537, 70000, 131073, 1048577, 1600000, 4194305};
    int L = lens[c.choose(c.thorough ? 7 : 6, "length")];
    s.w.blksize = c.choose(2, "blksize") ? 4096 : 1 << 16;
    std::set<int> pos{0, L / 2, L - 1};
    for (int b = 16384; b < L; b *= 2) { pos.insert(b - 1); pos.insert(b); }
    vector<int> ps(pos.begin(), pos.end());
    int at = ps[c.choose((int)ps.size(), "position")];
    string A(L, 'q');
    for (int k = 0; k < L; k += 251) A[k] = char('a' + k / 251 % 26);
    string B = A;
    B[at] ^= 1;
    s.config(c.choose(2) ? "[track]\n/s\n" : "[mirror]\n/s\n");
    int third = c.pick("third", {"none", "equals-first", "equals-second"});
    s.w.fs.mkfile("/s/a", A, 0644, 100);
    s.backup(c, O_VIEW | O_FILES | O_STATUS);
    s.w.fs.mkfile("/s/b", B, 0644, 200);
    if (third) s.w.fs.mkfile("/s/c", third == 1 ? A : B, 0644, 300);
    s.w.fs.mkdir("/s", 0755, 5001);
    FS before = s.w.fs;
    s.backup(c, O_VIEW | O_FILES | O_STATUS);
    contentsDistinct(c, s.w, s.r, before);
    c.check(blobsOf(s.w.fs, s.r).size() == 2, "places", "not two places for two contents");
    c.nontrivial(vos::hash64(std::to_string(L) + "," + std::to_string(at) + "," + std::to_string(third) + s.cfgText + std::to_string(s.w.blksize)));
  });
  job.explore("add-remove", [=](mc::Ctx &c) {
    // chains of colliding contents that grow and shrink
    Sim s;
    s.w.weakHash = true;
    s.config(c.choose(2) ? "[track]\n/s\n" : "[mirror]\n/s\n");
    const int depth = 4, n = c.thorough ? 5 : 4;
    static const int id[] = {0, 1, 1, 2, 3};
    for (int i = 0; i < depth; i++) {
      int set = c.choose(1 << n, "set");
      s.w.fs.mkdir("/s", 0755, 5000 + i);
      for (int k = 0; k < n; k++) {
        string p = "/s/f" + std::to_string(k);
        if (set >> k & 1) s.w.fs.mkfile(p, "colliding content number " + std::to_string(id[k]), 0644, 100 + k);
        else s.w.fs.rm(p);
      }
      FS before = s.w.fs;
      s.backup(c, O_VIEW | O_FILES | O_STATUS);
      contentsDistinct(c, s.w, s.r, before);
      string blobs;
      for (auto &b : blobsOf(s.w.fs, s.r)) blobs += b.first + s.w.fs.content(s.r + "/" + b.first);
      c.prune(s.canon(blobs), depth - i);
    }
  });
  job.explore("in-place", [=](mc::Ctx &c) {
    // A path changes to a colliding content of the same size (with a changed modification time).
    Sim s;
    s.w.weakHash = true;
    s.config(c.choose(2) ? "[track]\n/s/a\n" : "[copy]\n/s/a\n");
    int x = 1 + c.choose(3), y = 1 + c.choose(3);
    c.require(x != y);
    s.w.fs.mkfile("/s/a", con[x], 0644, 100);
    s.backup(c, O_VIEW);
    s.w.fs.mkfile("/s/a", con[y], 0644, 200);
    repo::View v;
    s.w.now += 1000;
    Result r = nb(s.w, {s.r});
    c.check(r.ok(), "failed", show(r));
    string e = repo::load(s.w.fs, s.r, v, {false});
    c.check(e.empty(), "unloadable", e);
    c.eval();
    c.trans();
    c.check(v.paths["/s/a"].hist[0].st.data == con[y], "equal-size-and-hash-in-place", "the changed content was not stored\n" + v.str() + show(r));
  });
  job.explore("all-places", [=](mc::Ctx &c) {
    static const int cnt[] = {255, 256, 257, 300};
    Sim s;
    s.w.weakHash = true;
    s.w.stepLimit = 4000000;
    int n = cnt[c.choose(4, "contents")];
    int split = c.pick("in", {"one-backup", "two-backups", "three-backups"});
    bool dup = c.choose(2, "with-duplicates");
    s.config("[track]\n/s\n");
    auto add = [&](int a, int b) {
      for (int i = a; i < b; i++) {
        s.w.fs.mkfile(mc::fmt("/s/f%03d", i), mc::fmt("colliding content number %03d", i), 0644, 100 + i);
        if (dup && i % 50 == 0) s.w.fs.mkfile(mc::fmt("/s/g%03d", i), mc::fmt("colliding content number %03d", i), 0644, 100 + i);
      }
      s.w.fs.mkdir("/s", 0755, 5000 + b);
    };
    auto one = [&](int b) {
      FS before = s.w.fs;
      if (b <= 256) { s.backup(c, O_VIEW | O_FILES | O_STATUS); return true; }
      s.w.now += 1000;
      Result r = nb(s.w, {s.r});
      c.trans();
      c.check(r.failedCleanly() && !r.err.empty(), "no-place-left", show(r));
      repo::View v, o;
      string e = repo::load(s.w.fs, s.r, v, {false}), e2 = repo::load(before, s.r, o, {false});
      c.check(e.empty() && v.str() == o.str(), "old-state-lost", e);
      // content that is already there, or of another size, can still be stored
      s.w.fs.rm("/s");
      s.w.fs.mkfile("/s/again", mc::fmt("colliding content number %03d", split ? 100 : 150), 0644, 9);
      s.w.fs.mkfile("/s/other", "content of yet another size", 0644, 9);
      s.n++;
      s.backup(c, O_VIEW | O_FILES | O_STATUS);
      return false;
    };
    if (split == 1) { add(0, n / 2); one(n / 2); }
    if (split == 2) { add(0, 3); one(3); add(3, 255); one(255); }
    add(split == 0 ? 0 : split == 1 ? n / 2 : 255, n);
    one(n);
    c.nontrivial("all" + std::to_string(n) + std::to_string(split) + std::to_string(dup));
    contentsDistinct(c, s.w, s.r, s.seen.back());
  });
}

// ------------------------------------------------------------------ C10
MC_CHECK(C10, "model_checking") {
  job.rule("Repositories with shared, historic and colliding contents; every stored content damaged in every listed way (each byte flipped, "
           "every truncation, extensions, replaced by other kinds of files or by another content), every pair, and all subsets of the "
           "contents in coarse ways. Oracle: the paths whose recorded history names a content that is no longer the stored regular file. Non-trivial: a distinct damaged repository.");
  auto judge = [](mc::Ctx &c, Sim &s, const FS &good) {
    // expected
    repo::Meta m;
    string err;
    repo::decode(repo::metaBytes(good, s.r), m, err);
    vector<string> want;
    repo::forEach(m.roots, "", [&](const string &p, const repo::Node &n) {
      bool bad = false;
      for (auto &h : n.hist)
        if (h.st.kind == repo::K_FILE && h.st.size > repo::HASHLEN) {
          string bp = s.r + "/" + repo::blobPath(h.st);
          int i = s.w.fs.lookup(bp, false), g = good.lookup(bp, false);
          if (i < 0 || s.w.fs.r(i).type != vos::T_FILE || s.w.fs.r(i).data != good.r(g).data) bad = true;
        }
      if (bad) want.push_back("?? " + p + " (corrupted)");
    });
    FS before = s.w.fs;
    Result r = nb(s.w, {s.r, "integrity"});
    c.trans();
    c.eval();
    auto ctxt = [&] { return "\nrepository:\n" + dump(before, s.r) + "metadata:\n" + repo::View().str() + show(r); };
    c.check(r.kind == vos::E_EXIT, "crash", ctxt());
    vector<string> got;
    for (auto &l : spec::splitLines(r.out)) if (l.compare(0, 3, "?? ") == 0) got.push_back(l);
    string d = linesDiff(want, got);
    c.check(d.empty(), "listed", d + ctxt());
    c.check((r.code == 0) == want.empty(), "exit-status", ctxt());
    c.check((r.out.find("Status of repository: Healthy\n") != string::npos) == want.empty(), "verdict", ctxt());
    c.check((r.out.find("Status of repository: Incomplete\n") != string::npos) == !want.empty(), "verdict", ctxt());
    if (!want.empty())
      c.check(r.err == mc::fmt("nb: error: found %zu item%s with corrupted backup history\n", want.size(), want.size() == 1 ? "" : "s"), "message", ctxt());
    d = diff(before, s.w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME, [&](const string &p) { return p == s.r + "/lockfile"; });
    c.check(d.empty(), "modified", d + ctxt());
    d = diff(before, s.w.fs, "/", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "modified-outside", d + ctxt());
    c.state(vos::hash64(dump(before, s.r, vos::D_DATA)));
    if (!want.empty()) {
      string w;
      for (auto &l : want) w += l;
      c.nontrivial(vos::hash64(dump(before, s.r, vos::D_DATA) + w + "!"));
    }
    c.validated();
  };
  // way of damaging; false: not applicable
  static const int nWay = 18;
  auto damage = [](FS &fs, const string &r, const string &blob, const string &other, int way) {
    string p = r + "/" + blob, d = fs.content(p);
    auto put = [&](const string &x) { fs.mkfile(p, x, 0644, 555); };
    string x = d;
    switch (way) {
    case 0: fs.rm(p); break;
    case 1: x[0] ^= 1; put(x); break;
    case 2: x.back() ^= 0x80; put(x); break;
    case 3: x.pop_back(); put(x); break;
    case 4: put(""); break;
    case 5: put(d + "x"); break;
    case 6: put(d + string(1, '\0')); break;
    case 7: fs.rm(p); fs.mkdir(p); break;
    case 8: fs.rm(p); fs.mkfile("/out/copy", d); fs.mklink(p, "/out/copy"); break;
    case 9: fs.rm(p); fs.mklink(p, "nowhere"); break;
    case 10: fs.rm(p); fs.mkfifo(p); break;
    case 11: if (other.empty()) return false; put(fs.content(r + "/" + other)); break;
    case 12: put(string(d.size(), '\0')); break;
    case 13: fs.rm(spec::parentOf(p)); break;
    case 14: fs.rm(spec::parentOf(spec::parentOf(p))); break;
    case 16: fs.rm(spec::parentOf(p)); fs.mkfile(spec::parentOf(p), "file"); break;
    case 17: { FS f = fs; fs.mkfile("/out/copy", d); fs.rm(p); fs.mklink(p, "/out/dirlink"); fs.mklink("/out/dirlink", "/out"); } break;
    case 15: std::reverse(x.begin(), x.end()); if (x == d) return false; put(x); break;
    }
    return true;
  };
  job.explore("one-content", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose(4, "repository");
    richRepo(c, s, k);
    s.w.blksize = c.choose(2) ? 4096 : 512;
    FS good = s.w.fs;
    auto bl = blobsOf(good, s.r);
    c.require(!bl.empty());
    auto it = bl.begin();
    std::advance(it, c.choose((int)bl.size(), "content"));
    string p = s.r + "/" + it->first, d = good.content(p);
    if (c.choose(2) == 0) {
      if (k == 3) s.w.weakHash = true;
      string other = bl.size() > 1 ? (it == bl.begin() ? std::next(it)->first : bl.begin()->first) : "";
      int way = c.choose(nWay, "way");
      // with the weakened hash only the size and kind are visible
      if (k == 3 && (way == 1 || way == 2 || way == 11 || way == 12 || way == 15)) c.skip();
      c.require(damage(s.w.fs, s.r, it->first, other, way));
    } else {
      c.require(k != 3);
      // flip or cut at every position (large content: around every block boundary)
      vector<int> pos;
      for (int i = 0; i < (int)d.size(); i++)
        if (d.size() < 300 || c.thorough || i % 512 < 2 || i % 512 > 510 || i + 3 > (int)d.size()) pos.push_back(i);
      int i = pos[c.choose((int)pos.size(), "position")];
      int what = c.choose(c.thorough ? 10 : 4, "change");
      string x = d;
      if (what == 0) x[i] ^= 1;
      else if (what == 1) x[i] = ~x[i];
      else if (what == 2) x = x.substr(0, i);
      else if (what == 3) x.erase(i, 1), x += 'B';
      else x[i] ^= 1 << (what - 3);
      s.w.fs.mkfile(p, x, 0644, 555);
    }
    judge(c, s, good);
  });
  job.explore("several-contents", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose(2, "repository");
    richRepo(c, s, k);
    if (k == 0) {  // more history
      s.w.fs.mkfile("/s/d/big", "became small but is still stored", 0644, 900);
      s.w.fs.mkfile("/s/d/big2", kBig + "2", 0644, 901);
      s.backup(c, 0);
      s.w.fs.rm("/s/d/sub");
      s.backup(c, 0);
    }
    FS good = s.w.fs;
    auto bl = blobsOf(good, s.r);
    static const int ways[] = {-1, 0, 1, 3, 5, 7, 9};
    int n = c.thorough ? 7 : 5;
    for (auto &b : bl) {
      int w = ways[c.choose(n)];
      if (w >= 0) damage(s.w.fs, s.r, b.first, "", w);
    }
    judge(c, s, good);
  });
  job.explore("larger", [=](mc::Ctx &c) {
    Sim s;
    grownRepo(c, s);
    FS good = s.w.fs;
    auto bl = blobsOf(good, s.r);
    int n = (int)bl.size(), q = c.choose(c.thorough ? n + 1 : 14, "damaged");
    if (!c.thorough) q = q == 0 ? 0 : 1 + (int)((int64_t)(q - 1) * (n - 1) / 12);
    if (q) { auto it = bl.begin(); std::advance(it, q - 1); c.require(damage(s.w.fs, s.r, it->first, "", c.choose(3, "way"))); }
    judge(c, s, good);
  });
  job.explore("stray-items", [=](mc::Ctx &c) {
    // what does not belong to the contents is no damage
    Sim s;
    richRepo(c, s, c.choose(4, "repository"));
    FS good = s.w.fs;
    auto bl = blobsOf(good, s.r);
    addJunk(s.w.fs, s.r, bl.empty() ? "" : bl.begin()->first, c.choose(nJunk, "junk"));
    s.w.fs.rm("/s");
    judge(c, s, good);
  });
  job.explore("beyond-32-bits", [=](mc::Ctx &c) {
    static const int64_t sizes[] = {(1LL << 32) + 5000, (1LL << 31) + 5000, 1LL << 32, (1LL << 33) + 70001};
    int64_t size = sizes[c.choose(c.thorough ? 4 : 1, "size")];
    int way = c.pick("damage", {"none", "end-differs", "last-byte-missing", "low-32-bits-of-size", "one-more"});
    Sim s;
    FS &fs = s.w.fs;
    fs.mkdir("/r");
    fs.mkfile("/r/config", "[track]\n/s/f\n");
    hugeFile(s.w, "/s/f", size, "the end", 100);
    Result R = nb(s.w, {"/r"});
    c.check(R.ok(), "backup-failed", show(R));
    auto st = storedFiles(fs, "/r");
    c.check(st.size() == 1, "not-stored", dump(fs, "/r"));
    vos::Inode &i = fs.w(fs.lookup(st[0]));
    if (way == 1) i.tail = "the enD";
    if (way == 2) i.tail.pop_back();
    if (way == 3) { c.require(size % (1LL << 32)); i.tail.clear(); i.zeros = 0; i.data.resize(size % (1LL << 32)); }
    if (way == 4) i.tail += "!";
    FS before = fs;
    R = nb(s.w, {"/r", "integrity"});
    c.trans(2);
    c.eval();
    c.check(R.kind == vos::E_EXIT && (R.code != 0) == (way != 0), way ? "damage-not-reported" : "false-report", show(R));
    c.check((R.out.find("/s/f") != string::npos) == (way != 0), way ? "path-not-reported" : "false-report", show(R));
    c.check(R.out.find("(" + spec::humanSize(size) + " processed)") != string::npos, "amount", show(R));
    string d = diff(before, fs, "/", vos::D_ALL);
    c.check(d.empty(), "changed-something", d);
    c.nontrivial(std::to_string(size) + "/" + std::to_string(way));
  });
  job.explore("histories", [=](mc::Ctx &c) {
    // after every history the check is satisfied, and each content is needed by the listed paths
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    s.config(cfgs[k].text);
    for (int i = 0; i < 2; i++) { applyState(s.w.fs, chooseState(c)); s.backup(c, 0); }
    FS good = s.w.fs;
    auto bl = blobsOf(good, s.r);
    int w = c.choose((int)bl.size() + 1, "damage");
    if (w) { auto it = bl.begin(); std::advance(it, w - 1); damage(s.w.fs, s.r, it->first, "", 0); }
    judge(c, s, good);
  });
}
