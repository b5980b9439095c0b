// C26: many paths, deep paths, related and unusual names, colliding lookups.
#include "../faults.hpp"
#include <algorithm>
using namespace flt;

// A repository directory for many files: everything it recorded, compared with the model after each backup, and every number restored.
static void restoreAll(mc::Ctx &c, Sim &s, const string &target) {
  repo::View v = s.view(c);
  for (uint64_t id = 0; id < v.times.size(); id++) {
    World w = s.w;
    w.fs.rm(target);
    restore(c, w, s.r, v, id, target, R_STATE | R_REPO);
  }
}
static string content(const string &path, int version) {
  string t = "content " + std::to_string(version) + " of " + path;
  return version & 1 ? t + ", long enough to be stored in a file of its own" : t.substr(0, 19);
}

MC_CHECK(C26, "model_checking") {
  job.rule("(1) every directory size across every growth threshold of the lookup table x patterns of which entries change, vanish or appear x every way the lookup hashes collide; (2) every depth across every growth threshold of the walk; (3) all assignments of changes (same, changed, vanished, new, other kind) to up to four names from families of related names "
           "(prefixes, separators, unusual bytes) with colliding and distinct hashes; (4) all pairs of related names as directory and file; (5) all assignments of changes to four symbolic links. After every backup everything recorded must equal the model's, and every number is restored. Non-trivial: a distinct recorded step.");
  static const vector<string> pol = {"track", "copy", "mirror"};
  job.explore("sizes", [=](mc::Ctx &c) {
    Sim s;
    static const vector<int> quick = {0, 1, 2, 3, 5, 15, 16, 17, 28, 29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 256, 257, 513};
    int n;
    if (c.thorough) n = c.choose(301, "files");
    else n = quick[c.choose((int)quick.size(), "files")];
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    static const int collide[] = {0, 1, 2, 7, 32};
    s.w.sipClasses = collide[c.choose(n > 130 ? 1 : 5, "colliding")];
    s.w.readdirOrder = c.choose(3, "order");
    s.w.randSeed = 1 + c.choose(c.thorough ? 4 : 2, "seed");
    auto name = [&](int i) { return "/s/d/" + std::to_string(i * 7919 % 100003); };
    for (int i = 0; i < n; i++) s.w.fs.mkfile(name(i), content(name(i), 0), 0644, 1000 + i);
    s.w.fs.mkdir("/s/d", 0755, 4000);
    s.backup(c, O_VIEW | O_REPORT | O_FILES);
    int step = c.pick("change", {"every-third-changed", "first-half-gone", "doubled", "every-second-gone-and-new"});
    for (int i = 0; i < n; i++) {
      string p = name(i);
      if (step == 0 && i % 3 == 0) s.w.fs.mkfile(p, content(p, 1), 0600, 5000 + i);
      if (step == 1 && i < n / 2) s.w.fs.rm(p);
      if (step == 2) s.w.fs.mkfile(name(n + i), content(name(n + i), 1), 0644, 1000 + i);
      if (step == 3 && i % 2) { s.w.fs.rm(p); s.w.fs.mkdir(p + "x", 0755, 100); s.w.fs.mkfile(p + "x/y", content(p, 1), 0644, 300); }
    }
    s.w.fs.mkdir("/s/d", 0755, 4001);
    s.backup(c, O_VIEW | O_REPORT | O_FILES);
    if (n < 40 || c.thorough) restoreAll(c, s, "/s/d");
    Result r = nb(s.w, {s.r, "integrity"});
    c.check(r.ok(), "integrity", show(r));
  });
  // Any amount of entries that are not selected between those that are.
  // Beyond every size at which the table of paths is enlarged, up to well over 2^16 paths.
  job.explore("large", [=](mc::Ctx &c) {
    static const vector<int> quick = {1025, 4097, 66000}, deep = {1025, 2049, 4097, 8193, 16385, 32769, 65530, 65536, 65537, 66000, 131073, 140000};
    const vector<int> &sizes = c.thorough ? deep : quick;
    int n = sizes[c.choose((int)sizes.size(), "files")];
    Sim s;
    s.w.stepLimit = 40000000;
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    s.w.readdirOrder = c.choose(2, "order");
    int spread = c.pick("placed", {"one-directory", "many-directories"});
    c.require(c.thorough ? spread || n < 70000 : spread || n < 5000);
    auto dirOf = [&](int i) { return spread ? "/s/d/" + std::to_string(i % 251) : string("/s/d"); };
    auto name = [&](int i) { return dirOf(i) + "/f" + std::to_string(i * 7919 % 1000003); };
    auto text = [&](int i, int v) { return i % 1000 == 7 ? content(name(i), 1 + 2 * v) : std::to_string(i * 3 + v); };
    for (int i = 0; i < n; i++) s.w.fs.mkfile(name(i), text(i, 0), 0644, 1000 + i);
    auto settle = [&] { for (int i = 0; i < 251 && spread; i++) s.w.fs.mkdir("/s/d/" + std::to_string(i), 0755, 3000 + i); s.w.fs.mkdir("/s/d", 0755, 4000); };
    settle();
    s.backup(c, O_VIEW | O_FILES);
    World w = s.w;
    Result r = nb(s.w, {s.r});
    c.check(r.ok() && diff(w.fs, s.w.fs, s.r).empty(), "again", show(r).substr(0, 2000));
    for (int i = 0; i < n; i++) {
      if (i % 1013 == 1) s.w.fs.mkfile(name(i), text(i, 2), 0600, 500000 + i);
      if (i % 1999 == 3) s.w.fs.rm(name(i));
    }
    settle();
    s.backup(c, O_VIEW | O_REPORT | O_FILES);
    r = nb(s.w, {s.r, "gc"});
    c.check(r.ok(), "gc", show(r).substr(0, 2000));
    repo::View v = s.view(c);
    for (uint64_t id = 0; id < v.times.size(); id++)
      for (int i : {0, 1, 3, 7, n / 2, n - 1}) {
        World w = s.w;
        w.fs.rm(name(i));
        restore(c, w, s.r, v, id, name(i), R_STATE | R_REPO);
      }
  });
  // More entries of one kind than a process may have files open, changed in one way.
  job.explore("more-than-open-files", [=](mc::Ctx &c) {
    Sim s;
    s.w.stepLimit = 4000000;
    const int n = 1100;
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    int kind = c.pick("kind", {"stored", "inline", "links", "directories", "equal-contents", "empty"});
    enum { TOUCHED, SAME_SIZE, OTHER_SIZE, TO_LINK, TO_FILE, COPIES, GONE };
    int change = c.pick("change", {"touched", "same-size", "other-size", "to-link", "to-file", "copies", "gone"});
    c.require(!(kind == 2 && (change == TOUCHED || change == TO_LINK || change == COPIES)) && !(kind == 3 && (change == OTHER_SIZE || change == COPIES || change == SAME_SIZE)) && !(kind == 5 && change == SAME_SIZE));
    FS &fs = s.w.fs;
    auto name = [&](int i) { return "/s/d/" + std::to_string(i); };
    auto text = [&](int i, int v) { if (kind == 5) return string(); string x = mc::fmt("%c%05d", 'a' + v, kind == 4 ? 0 : i); return kind == 1 ? x : x + ", long enough to be stored in a file of its own"; };
    auto put = [&](const string &p, int i, int v, int64_t t) {
      fs.rm(p);
      if (kind == 2) fs.mklink(p, text(i, v), 1, 2);
      else if (kind == 3) fs.mkdir(p, 0755, t);
      else fs.mkfile(p, text(i, v), 0644, t);
    };
    for (int i = 0; i < n; i++) put(name(i), i, 0, 1000 + i);
    fs.setmtime("/s/d", 4000);
    s.backup(c, O_VIEW | O_FILES);
    World first = s.w;
    for (int i = 0; i < n; i++) {
      string p = name(i);
      switch (change) {
      case TOUCHED: fs.setmtime(p, 9000 + i); break;
      case SAME_SIZE: put(p, i, 1, 9000 + i); break;
      case OTHER_SIZE: fs.rm(p); if (kind == 2) fs.mklink(p, text(i, 0) + "+"); else fs.mkfile(p, text(i, 0) + "+", 0644, 9000 + i); break;
      case TO_LINK: fs.rm(p); fs.mklink(p, "elsewhere" + std::to_string(i)); break;
      case TO_FILE: fs.rm(p); fs.mkfile(p, "now a file of its own, or still one " + std::to_string(i), 0600, 9100 + i); break;
      case COPIES: put(p + "copy", i, 0, 9000 + i); break;
      case GONE: fs.rm(p); break;
      }
    }
    fs.setmtime("/s/d", 4000);
    World between = s.w;
    s.backup(c, O_VIEW | O_FILES);
    Result r = nb(s.w, {s.r, "integrity"});
    c.check(r.ok(), "integrity", show(r).substr(0, 2000));
    World g = s.w;
    for (int i = 0; i < n; i++) g.fs.mkfile(s.r + mc::fmt("/%d/%d/%d", i % 7, i % 11, i), "to be collected", 0644, 1);
    r = nb(g, {s.r, "gc"});
    c.check(r.ok(), "gc", show(r).substr(0, 2000));
    string d = healthy(g.fs, s.r);
    c.check(d.empty(), "files", d);
    repo::View v = s.view(c);
    for (uint64_t id = 0; id < v.times.size(); id++) {
      World w = s.w;
      w.fs.rm("/s/d");
      restore(c, w, s.r, v, id, "/s/d", R_STATE | R_REPO);
      w = s.w;                                  // over what stands there now
      restore(c, w, s.r, v, id, "/s/d", R_STATE | R_REPO);
    }
    c.nontrivial(vos::hash64(v.str()));
  });
  job.explore("skipped-entries", [=](mc::Ctx &c) {
    Sim s;
    static const int sizes[] = {100, 1000, 20000, 70000};
    int n = sizes[c.choose(4, "skipped")], how = c.pick("how", {"ignored", "unmatched", "missing-rules", "other-kind"});
    c.require(n <= 20000 || how != 2);
    static const string p = pol[0];
    string t = "[track]\n";
    if (how == 0) t += "/s/d\n[ignore]\n/i[0-9]*$\n";
    if (how == 1) t += "/s/d//^k\n";
    if (how == 2) { for (int i = 0; i < n; i++) t += "/s/d/i" + std::to_string(i) + "\n"; t += "/s/d/k1\n/s/d/k2\n"; }
    if (how == 3) t += "/s/d\n";
    s.config(t);
    FS &fs = s.w.fs;
    fs.mkdir("/s/d", 0755, 4000);
    for (int i = 0; i < (how == 2 ? 0 : n); i++) {
      string q = "/s/d/i" + std::to_string(i);
      if (how == 3) { int q2 = fs.mkfifo(q); if (i % 2) fs.w(q2).type = vos::T_SOCK; }
      else fs.mkfile(q, "", 0644, 1);
    }
    s.w.readdirOrder = c.choose(2, "order");
    fs.mkfile("/s/d/k1", content("k1", 1), 0644, 10);
    fs.mkfile("/s/d/k2", content("k2", 0), 0644, 11);
    fs.setmtime("/s/d", 4000);
    s.backup(c, O_VIEW | O_FILES);
    fs.rm("/s/d/k1");
    fs.setmtime("/s/d", 4000);
    s.backup(c, O_VIEW | O_FILES);
    restoreAll(c, s, "/s/d/k1");
  });
  job.explore("depths", [=](mc::Ctx &c) {
    Sim s;
    int n = 1 + c.choose(c.thorough ? 150 : 70, "depth");
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    s.w.sipClasses = c.choose(3, "colliding");
    bool same = c.choose(2, "same-names");
    string p = "/s/d";
    s.w.fs.mkdir(p, 0755, 4000);
    vector<string> dirs = {p};
    for (int i = 0; i < n; i++) {
      p += same ? "/d" : "/" + std::to_string(i);
      s.w.fs.mkdir(p, 0700 + i % 8, 2000 + i);
      s.w.fs.mkfile(p + "/before", content(p, 0), 0644, 500 + i);
      s.w.fs.mkfile(p + "/~after", content(p, 1), 0644, 600 + i);
      dirs.push_back(p);
    }
    for (auto &d : dirs) s.w.fs.setmtime(d, 4000);
    s.backup(c, O_VIEW | O_REPORT | O_FILES);
    int at = (int)dirs.size() - 1 - c.choose(3, "at");
    if (at < 0) at = 0;
    s.w.fs.mkfile(dirs[at] + "/before", content(p, 3), 0600, 700);
    if (c.choose(2, "cut")) s.w.fs.rm(dirs[dirs.size() / 2]);
    for (auto &d : dirs) if (s.w.fs.exists(d)) s.w.fs.setmtime(d, 4000);
    s.backup(c, O_VIEW | O_FILES);
    restoreAll(c, s, "/s/d");
  });
  job.explore("very-deep", [=](mc::Ctx &c) {
    Sim s;
    s.w.stepLimit = 4000000;
    static const int ns[] = {120, 126, 127, 128, 129, 250, 253, 254, 255, 256, 257, 258, 259, 400, 508, 509, 510, 511, 512, 513, 514, 515, 700, 980};
    int n = ns[c.choose(24, "depth")];
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    string p = "/s/d";
    s.w.fs.mkdir(p, 0755, 4000);
    vector<string> dirs = {p};
    for (int i = 0; i < n; i++) {
      p += "/d";
      s.w.fs.mkdir(p, 0700 + i % 8, 2000 + i);
      if (i > n - 3 || (i & (i - 1)) == 0) { s.w.fs.mkfile(p + "/before", content(p, 0), 0644, 500 + i); s.w.fs.mkfile(p + "/~after", content(p, 1), 0644, 600 + i); }
      dirs.push_back(p);
    }
    for (auto &d : dirs) s.w.fs.setmtime(d, 4000);
    s.backup(c, O_VIEW | O_REPORT | O_FILES);
    s.w.fs.mkfile(dirs.back() + "/before", content(p, 3), 0600, 700);
    int cut = c.choose(2, "cut");
    if (cut) s.w.fs.rm(dirs[dirs.size() / 2]);
    for (auto &d : dirs) if (s.w.fs.exists(d)) s.w.fs.setmtime(d, 4000);
    s.backup(c, O_VIEW | O_FILES);
    restoreAll(c, s, "/s/d");
    c.nontrivial(vos::hash64(s.cfgText + std::to_string(n), cut));
  });
  static const vector<vector<string>> families = {
      {"a", "aa", "aaa", "aaaa"}, {"a", "a ", " a", " "}, {"a", "A", "\xc3\xa4", "a\xcc\x88"}, {"a.", ".a", "..a", "..."}, {"a\n", "\n", "a\nb", "a"},
      {"\xff", "\xfe", "\xff\xff", "\x01"}, {"-", "--", "-a", "*"}, {"a\\", "a\"", "a'", "a$"}, {"x11x0", "0", "00", "x"}, {"metadata", "config", "lockfile", "tmp-file"},
      {string(255, 'n'), string(254, 'n'), string(253, 'n') + "m", "n"}};
  enum { SAME, GONE, CHANGED, NEW, TODIR, TOFILE };
  job.explore("related-names", [=](mc::Ctx &c) {
    Sim s;
    const vector<string> &f = families[c.choose((int)families.size(), "family")];
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    static const int collide[] = {0, 1, 2};
    s.w.sipClasses = collide[c.choose(3, "colliding")];
    int what[4];
    for (int i = 0; i < 4; i++) what[i] = i < 3 || c.thorough ? c.choose(6) : (what[0] * 2 + what[1] + 1) % 6;
    auto put = [&](int i, bool dir, int version) {
      string p = "/s/d/" + f[i];
      s.w.fs.rm(p);
      if (dir) { s.w.fs.mkdir(p, 0750, 3000); for (int j = 0; j < 4; j++) s.w.fs.mkfile(p + "/" + f[j], content(p + f[j], version), 0644, 100 + j + version); s.w.fs.setmtime(p, 3000); }
      else s.w.fs.mkfile(p, content(p, version), 0640, 200 + i + 10 * version, i, version);
    };
    s.w.fs.mkdir("/s/d", 0755, 4000);
    for (int i = 0; i < 4; i++) if (what[i] != NEW) put(i, what[i] == TOFILE, i % 2);
    s.w.fs.setmtime("/s/d", 4000);
    s.backup(c, O_VIEW | O_FILES);
    for (int i = 0; i < 4; i++) {
      if (what[i] == GONE) s.w.fs.rm("/s/d/" + f[i]);
      if (what[i] == CHANGED || what[i] == NEW || what[i] == TOFILE) put(i, false, 3 - i % 2);
      if (what[i] == TODIR) put(i, true, 3);
    }
    s.w.fs.setmtime("/s/d", 4000);
    s.w.readdirOrder = c.choose(2, "order");
    s.backup(c, O_VIEW | O_FILES);
    restoreAll(c, s, "/s/d");
    // a single path restored leaves its relatives alone
    repo::View v = s.view(c);
    for (int i = 0; i < 4; i++) {
      string p = "/s/d/" + f[i];
      if (!v.paths.count(p)) continue;
      if (!c.thorough && i != (what[0] + what[1] + what[2]) % 4) continue;
      for (uint64_t id = 0; id < v.times.size(); id++) {
        World w = s.w;
        for (int j = 0; j < 4; j++) w.fs.rm("/s/d/" + f[j]);
        restore(c, w, s.r, v, id, p, R_STATE | R_REPO);
      }
    }
  });
  // Paths whose texts are related across levels: /s/d/a + b/c against /s/d/a/b + c, names that end where others go on.
  job.explore("across-levels", [=](mc::Ctx &c) {
    Sim s;
    static const vector<string> pool = {"a", "ab", "a/b", "a/bc", "ab/c", "a/b/c", "b", "ba", "b/a", "abc", "a b", "a/ b"};
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    s.w.sipClasses = c.choose(3, "colliding");
    auto fill = [&](int a, int b, int version, int t) {
      s.w.fs.rm("/s");
      s.w.fs.mkdir("/s", 0755, 5000);
      s.w.fs.mkdir("/s/d", 0755, 4000);
      for (int k : {a, b}) {
        string p = "/s/d/" + pool[k];
        // a directory on the way may already be a file
        for (string q = spec::parentOf(p); q.size() > 4; q = spec::parentOf(q)) { int n = s.w.fs.lookup(q, false); if (n >= 0 && s.w.fs.r(n).type != vos::T_DIR) return; }
        if (s.w.fs.exists(p)) continue;
        s.w.fs.mkfile(p, content(p, version), 0644, t + k);
      }
    };
    int steps = c.thorough ? 3 : 2;
    for (int i = 0; i < steps; i++) {
      int a = c.choose((int)pool.size()), b = c.choose((int)pool.size());
      c.note(pool[a] + " & " + pool[b]);
      c.require(a <= b);
      fill(a, b, i, 100 * i + 100);
      s.backup(c, O_VIEW | O_FILES);
      c.prune(s.canon(std::to_string(s.w.sipClasses)), steps - i);
    }
    restoreAll(c, s, "/s/d");
  });
  // Several symbolic links (and what replaces them) changing in one backup: each keeps its own target.
  job.explore("links", [=](mc::Ctx &c) {
    Sim s;
    static const vector<string> names = {"a", "b", "c/a", "c/b"};
    static const vector<string> old = {"target", "t", "../other/target", "c"};
    enum { KEEP, SHORTER, LONGER, EQUAL, NEIGHBOURS, VANISH, FILE_ };
    s.config("[" + c.of(pol, "policy") + "]\n/s/d\n");
    auto link = [&](int i, const string &to) { s.w.fs.rm("/s/d/" + names[i]); s.w.fs.mklink("/s/d/" + names[i], to, i, 10 + i); };
    for (int i = 0; i < 4; i++) link(i, old[i]);
    auto stamp = [&] { s.w.fs.mkdir("/s/d", 0755, 4000); s.w.fs.mkdir("/s/d/c", 0755, 4001); };
    stamp();
    s.backup(c, O_VIEW | O_FILES);
    for (int i = 0; i < 4; i++) {
      switch (c.choose(7)) {
      case KEEP: break;
      case SHORTER: link(i, old[i].substr(0, old[i].size() - 1) + (old[i].size() > 1 ? "" : "z")); break;
      case LONGER: link(i, old[i] + string(40 + i, 'x')); break;
      case EQUAL: link(i, string(old[i].size(), '1' + i)); break;
      case NEIGHBOURS: link(i, old[(i + 1) % 4]); break;
      case VANISH: s.w.fs.rm("/s/d/" + names[i]); break;
      case FILE_: s.w.fs.rm("/s/d/" + names[i]); s.w.fs.mkfile("/s/d/" + names[i], content(names[i], i), 0640, 300 + i); break;
      }
    }
    stamp();
    s.w.readdirOrder = c.thorough ? c.choose(3, "order") : 1;
    s.backup(c, O_VIEW | O_FILES | O_REPORT);
    for (int i = 0; i < 4; i += 1 + c.choose(3, "stride")) link(i, string(3 + i, 'z') + names[i]);
    stamp();
    s.backup(c, O_VIEW | O_FILES | O_REPORT);
    restoreAll(c, s, "/s/d");
  });
  // Many explicitly configured paths, and many stored contents in the collector's table.
  job.explore("many-rules", [=](mc::Ctx &c) {
    Sim s;
    static const vector<int> sizes = {1, 2, 31, 32, 33, 63, 64, 65, 100};
    int n = c.thorough ? 1 + c.choose(140, "rules") : sizes[c.choose((int)sizes.size(), "rules")];
    s.w.sipClasses = c.choose(3, "colliding");
    string t[3];
    for (int i = 0; i < n; i++) t[i % 3] += "/s/d/" + string(i % 5, 'p') + std::to_string(i) + "\n";
    s.config("[track]\n" + t[0] + "[copy]\n" + t[1] + "[mirror]\n" + t[2]);
    for (int step = 0; step < 2; step++) {
      int m = 1 + c.choose(3, "stride");
      for (int i = 0; i < n; i++) {
        string p = "/s/d/" + string(i % 5, 'p') + std::to_string(i);
        if (i % m == 0) s.w.fs.mkfile(p, content(p, 1 + 2 * step), 0644, 100 + i + 1000 * step);
        else if (step) s.w.fs.rm(p);
      }
      s.w.fs.mkdir("/s/d", 0755, 4000);
      s.w.fs.mkfile("/r/7/77/junk", "junk", 0644, 1);
      s.backup(c, O_VIEW | O_REPORT);
    }
    Result r = nb(s.w, {s.r, "gc"});
    c.check(r.ok(), "gc", show(r));
    string d = healthy(s.w.fs, s.r);
    c.check(d.empty(), "files", d);
    r = nb(s.w, {s.r, "integrity"});
    c.check(r.ok(), "integrity", show(r));
    restoreAll(c, s, "/s/d");
  });
}
