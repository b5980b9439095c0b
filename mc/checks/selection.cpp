// C13 (configuration texts), C14 (selection and policies), C23 (entries that match nothing).
#include "../faults.hpp"
#include <algorithm>
using namespace flt;

// One configuration text on one file system: interpreted as the model says, or rejected naming the line, without effect.
static void judgeText(mc::Ctx &c, Sim s, const string &text, int flags) {
  s.config(text);
  if (!s.cfg.ok) {
    World w = s.w;
    w.now += 500;
    Result r = nb(w, {s.r});
    c.trans();
    c.eval();
    auto ctxt = [&] { return "config:\n" + text + "\nto be rejected: " + s.cfg.why + " in line " + std::to_string(s.cfg.errLine) + "\n" + show(r); };
    c.check(r.kind == vos::E_EXIT, "crash", ctxt());
    c.check(r.code != 0, "accepted", ctxt());
    if (s.cfg.why == "null") c.check(r.err.find("nb: ") != string::npos, "no-message", ctxt());
    else c.check(r.err.find("config: line " + std::to_string(s.cfg.errLine) + ":") != string::npos, "wrong-line", ctxt());
    string d = diff(s.w.fs, w.fs, "/", vos::D_ALL & ~vos::D_DIRMTIME);
    c.check(d.empty(), "rejected-but-changed", d + ctxt());
    c.nontrivial(r.err);
    c.validated();
    c.state(vos::hash64(r.err));
    return;
  }
  s.backup(c, flags);
}
static void sourceTree(FS &fs) {
  fs.mkdir("/a", 0755, 10);
  fs.mkdir("/a/b", 0750, 11);
  fs.mkfile("/a/b/c", "content of /a/b/c, long enough", 0644, 12);
  fs.mkfile("/a/b/x y", "blank", 0600, 13);
  fs.mkfile("/a/ab", "ab", 0600, 14);
  fs.mkfile("/a/b ", "trailing blank", 0600, 15);
  fs.mkfile("/a/[", "bracket", 0600, 16);
  fs.mkfile("/a/^b", "caret", 0600, 17);
  fs.mkfile("/a/.a", "hidden", 0600, 18);
  fs.mkdir("/a/..b", 0700, 19);
  fs.mkfile("/a/...", "three dots", 0600, 20);
  fs.mkfile("/a/b\r", "carriage return", 0600, 21);
  fs.mkfile("/a/*", "star", 0600, 22);
  fs.mklink("/a/l", "b");
  fs.mkdir("/b", 0755, 23);
  fs.mkfile("/b/a", "/b/a", 0644, 24);
  fs.mkfile("/#", "hash", 0644, 25);
}

MC_CHECK(C13, "model_checking") {
  job.rule("All configuration texts of up to 3 (thorough 4) lines from a set of lines, with and without byte order mark and final newline; all path lines of up to 5 (6) "
           "characters from an alphabet; all texts of up to 4 (5) raw characters after a valid beginning; all orders of all policy assignments to nested paths and patterns; texts of up to 150000 elements, lines, slashes or characters; each on a fixed tree. Compared with an independent "
           "interpretation: recorded paths, policies and warnings on acceptance, the line named and no change on rejection. Non-trivial: a distinct outcome.");
  job.assume("Patterns are matched by the C library's POSIX extended regular expressions, also in the model.");
  static const vector<string> lines = {
      "", "[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]", "[bad]", "[copy] ", " [copy]", "[copy", "[COPY]", "[]", "#", "# [track]", " # x", "  \t", "/a", "/a/", "/a//", "/a/b", "/a/b/c",
      "/a//b", "/a//^b$", "/a//^b$/c", "/a//^b$//c", "/a/b//", "//^a$", "//", "/", "\f", "relative", "a/b", "/a/./b", "/a/..", "/./a", "/a/..b", "/a/...", "/a//.", "/a//..", "/a//[", "/a/[", "/a//(/b", "//[/a", "/a/b\r", "/a/b ", "[", "]",
      "^/a/b$", "b", ".", "/#", "\v", "/a/b/"};
  const int n = job.thorough ? 4 : 3;
  job.explore("lines", [=](mc::Ctx &c) {
    Sim s;
    sourceTree(s.w.fs);
    string t;
    int k = 0;
    for (; k < n; k++) {
      // the first two lines decide most: in longer texts the others come from the whole set as well
      int q = c.choose((int)lines.size() + (k > 0 ? 1 : 0));
      if (k > 0 && q == 0) break;
      t += lines[q - (k > 0 ? 1 : 0)] + "\n";
    }
    int form = c.choose(k <= 2 ? 3 : 1);
    if (form == 1) t = "\xEF\xBB\xBF" + t;
    if (form == 2) t.pop_back();
    c.note(t);
    judgeText(c, s, t, O_VIEW | O_STATUS | O_WARN);
  });
  const int pl = job.thorough ? 6 : 5;
  job.explore("path-lines", [=](mc::Ctx &c) {
    Sim s;
    sourceTree(s.w.fs);
    static const char al[] = {'/', 'a', 'b', '.', '[', '^', '*'};
    static const char *pre[] = {"[copy]\n/a/b\n[track]\n/", "[copy]\n/a/", "[mirror]\n/a//"};
    int p = c.choose(3);
    string t = pre[p];
    for (int i = 0; i < pl; i++) {
      int q = c.choose(8);
      if (q == 0) break;
      t += al[q - 1];
    }
    c.note(t);
    judgeText(c, s, t, O_VIEW | O_STATUS | O_WARN);
  });
  const int rl = job.thorough ? 5 : 4;
  job.explore("raw-characters", [=](mc::Ctx &c) {
    Sim s;
    sourceTree(s.w.fs);
    static const char al[] = {'[', ']', '/', '\n', 'a', '#', ' ', '\0', '\r', '\t', '\xEF', '\xBB', '\xBF'};
    static const char *pre[] = {"", "[copy]\n/b\n", "[ignore]\n"};
    string t = pre[c.choose(3)];
    for (int i = 0; i < rl; i++) {
      int q = c.choose(14);
      if (q == 0) break;
      t += al[q - 1];
    }
    c.note(repo::hex(t));
    judgeText(c, s, t, O_VIEW | O_STATUS | O_WARN);
  });
  // Long lines, deep paths, many lines: nothing may depend on the size of a text.
  job.explore("large", [=](mc::Ctx &c) {
    Sim s;
    sourceTree(s.w.fs);
    static const int sizes[] = {100, 2048, 4094, 4095, 4096, 4097, 20000, 150000};
    int n = sizes[c.choose(8, "size")];
    auto times = [](const string &x, int n) { string t; for (int i = 0; i < n; i++) t += x; return t; };
    string t;
    switch (c.pick("kind", {"deep", "deep-at-existing", "slashes", "trailing-slashes", "patterns", "long-name", "long-pattern", "long-comment", "blank-lines", "comments", "long-word", "many-paths", "many-ignores"})) {
    case 0: t = "[copy]\n" + times("/a", n); break;
    case 1: t = "[copy]\n/a/b" + times("/a", n - 2) + "\n/b"; break;
    case 2: t = "[copy]\n" + times("/", n); break;
    case 3: t = "[copy]\n/a" + times("/", n - 1); break;
    case 4: c.require(n <= 20000); t = "[copy]\n/a" + times("//b", n / 2); break;
    case 5: c.require(n == 100); t = "[copy]\n/b\n/a/" + times("n", 255); break;   // (longer names than the file system allows make the backup fail)
    case 6: c.require(n <= 4097); t = "[copy]\n/a//^(" + times("b|", n) + "b)$"; break;
    case 7: t = "#" + times("x", n) + "\n[copy]\n/a"; break;
    case 8: t = times("\n", n) + "[copy]\n/a\nx"; break;
    case 9: t = "[copy]\n" + times("# /a\n", n) + "/a\n/a"; break;
    case 10: t = "[copy]\n/b\n" + times("w", n); break;
    case 11: c.require(n <= 4097); t = "[track]\n"; for (int i = 0; i < n; i++) t += "/a/" + std::to_string(i) + "\n"; t += "/a/b\n"; break;
    case 12: c.require(n <= 4097); t = "[track]\n/a\n[ignore]\n"; for (int i = 0; i < n; i++) t += "^/a/" + std::to_string(i) + "$\n"; break;
    }
    if (c.choose(2, "final-newline")) t += "\n";
    judgeText(c, s, t, O_VIEW | O_STATUS | O_WARN);
  });
  job.explore("inheritance", [=](mc::Ctx &c) {
    Sim s;
    sourceTree(s.w.fs);
    static const char *sets[][4] = {{"/a", "/a/b", "/a/b/c", "/"}, {"/a", "/a//^b$", "/a//^b$//.", "/"}, {"//^a$", "//^a$/b", "//^a$/b/c", "/b"}, {"/a", "/a/b/c", "/a//^b.$", "/b/a"}};
    int k = c.choose(4);
    vector<std::pair<int, int>> order;   // path, policy
    std::set<int> used;
    for (int i = 0; i < 4; i++) {
      int q = c.choose(13);
      if (!q) break;
      int p = (q - 1) / 3, pol = (q - 1) % 3;
      c.require(used.insert(p).second);
      order.push_back({p, pol});
    }
    c.require(!order.empty());
    static const char *pn[] = {"[copy]\n", "[mirror]\n", "[track]\n"};
    string t;
    for (auto &o : order) t += string(pn[o.second]) + sets[k][o.first] + "\n";
    c.note(t);
    judgeText(c, s, t, O_VIEW | O_STATUS | O_WARN);
  });
}

// ------------------------------------------------------------------ C14, C23: rules on trees
static const int nTrees = 8;
static void tree(FS &fs, int k) {
  switch (k) {
  case 0: sourceTree(fs); break;
  case 1: break;
  case 2: fs.mkfile("/a", "a is a file, and long enough", 0644, 5); fs.mkdir("/b", 0700, 6); fs.mkfile("/b/a", "ba", 0644, 7); fs.mkdir("/b/b", 0700, 8); break;
  case 3: fs.mkdir("/x", 0755, 4); fs.mkdir("/x/b", 0755, 3); fs.mkfile("/x/b/c", "behind the link, long enough", 0644, 2); fs.mklink("/a", "x"); break;
  case 4: fs.mkdir("/a", 0755, 4); fs.mkdir("/x", 0711, 9, 5, 6); fs.mkfile("/x/c", "through a link below, long enough", 0644, 2); fs.mkdir("/x/b", 0700, 3); fs.mklink("/a/b", "/x"); fs.mkfile("/a/f", "f", 0644, 1); break;
  case 5: fs.mkdir("/a", 0755, 4); fs.mkfifo("/a/b"); fs.mkdir("/a/bb", 0755, 4); fs.mkfifo("/a/bb/c"); fs.mkfile("/a/bb/bb", "", 0600, 5); fs.mklink("/a/ba", "nowhere"); break;
  case 6: fs.mkdir("/a", 0755, 4); fs.mklink("/a/b", "f"); fs.mkfile("/a/f", "a file behind a link, long enough", 0644, 1); fs.mkdir("/a/a", 0755, 2); fs.mkdir("/a/a/a", 0755, 2); fs.mkfile("/a/a/a/b", "deep", 0644, 1); break;
  case 7: fs.mkdir("/a", 0755, 4); fs.mkdir("/a/b", 0, 4); fs.mkfile("/a/b/c", "below a closed directory, long enough", 0, 3); fs.mkdir("/a/b/d", 0, 3); fs.mkfile("/a/e", string(20, 'e'), 0, 3); break;
  }
}
static const vector<string> rulePaths = {"/a", "/a/b", "/a/b/c", "/a//b", "/a//^b$", "/a//.", "/a/b//c$", "/a//b/c", "//^a$", "//./b", "/", "/a/l/c", "/missing/x", "/a/ab/x", "/a/f", "//[ab]//[ab]", "/a//^(b|f)$", "/b/a", "/a/a//.//b", "/x", "/a//^(b|f)$/x", "/a//./b", "//^.$/b/none"};
static const vector<string> ignores = {"", "/b$", "^/a/b/", "c", "^/a$", ".", "b\nc$"};
static const vector<string> sums = {"", "/b$", "^/a$\n^/a/b$", "c", ".\n/a"};
static string chooseRules(mc::Ctx &c, int maxRules, bool withSums) {
  static const char *pn[] = {"[copy]\n", "[track]\n", "[mirror]\n"};
  string t;
  int last = -1, same = 0;
  for (int i = 0; i < maxRules; i++) {
    int q = c.choose((int)rulePaths.size() + (i ? 1 : 0));
    if (i && q == 0) break;
    q -= i ? 1 : 0;
    c.require(q != last);
    last = q;
    if (i == 1) same = c.choose(2, "one-policy");
    t += same ? rulePaths[q] + "\n" : string(pn[i % 3]) + rulePaths[q] + "\n";
  }
  const string &ig = ignores[c.choose((int)ignores.size())];
  if (!ig.empty()) t += "[ignore]\n" + ig + "\n";
  if (withSums) {
    const string &su = sums[c.choose((int)sums.size())];
    if (!su.empty()) t = "[summarize]\n" + su + "\n" + t;
  }
  c.note(t);
  return t;
}
MC_CHECK(C14, "model_checking") {
  job.rule("All sets of up to 2 (thorough 3) rules from a set of literal and pattern paths, each with an ignore list from a set, on every tree of a set (files, symlinks to files and "
           "directories, other kinds, closed directories, nested), and then on every second tree. Oracle: recorded paths, kinds, attributes and policies equal an independently computed selection; "
           "ambiguous rules make the run fail. Non-trivial: a distinct repository.");
  job.explore("first-backup", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose(nTrees, "tree");
    tree(s.w.fs, k);
    string t = chooseRules(c, 3, false);
    judgeText(c, s, t, O_VIEW | O_STATUS | O_FILES);
  });
  job.explore("second-backup", [=](mc::Ctx &c) {
    Sim s;
    tree(s.w.fs, c.choose(nTrees, "tree"));
    s.config(chooseRules(c, c.thorough ? 3 : 2, false));
    c.require(s.cfg.ok);
    s.backup(c, O_VIEW | O_STATUS);
    FS n;
    n.mkdir(s.r);
    n.setTreeFrom(s.w.fs, s.r);
    tree(n, c.choose(nTrees, "later"));
    s.w.fs = n;
    s.backup(c, O_VIEW | O_STATUS | O_FILES);
  });
  job.explore("order-of-names", [=](mc::Ctx &c) {
    // the order in which directories list their entries must not matter
    Sim s;
    tree(s.w.fs, c.choose(nTrees, "tree"));
    s.w.readdirOrder = 1 + c.choose(2);
    judgeText(c, s, chooseRules(c, 2, false), O_VIEW | O_STATUS);
  });
  // Names of all kinds of characters against patterns of all kinds.
  job.explore("odd-names", [=](mc::Ctx &c) {
    Sim s;
    FS &fs = s.w.fs;
    static const vector<string> names = {"a", "b", "ab", "aab", "A", "a\nb", "\na", "a\n", "b\na\nb", " a", "a ", "a\tb", "a\rb", "-a", ".a", "..a", "...", "\\a", "[a]", "a*", "a|b", "(a)", "^a", "a$", "$", "a+b", "a?", "{1}", "#a",
                                          "\xff", "\xc3\xa9", "\x01", "a\x7f", "a%sb", "~", "a=b", "'a'", "\"a\"", "a;b", "!", "1", "10", "02", "aB", "lockfile", "config", "metadata"};
    static const vector<string> pats = {"^a$", "a.b", "[^b]$", "A", "\\.", "a\\|b", "^[[:alpha:]]$", "a{2}", "^(a|b)+$", "(a)\\1", "ab?$", "^.$", "..", "^[^a]", "\\$", "\\^a", "[[:space:]]", "[[:cntrl:]]", "\\[a\\]", "a*b", "^\\*", "a|^b", "$", "^", "[]a]", "[a-c]b", "[0-9]+", "\\\\", "#", "%", "^()", "b$", "a$"};
    fs.mkdir("/o", 0755, 100);
    int how = c.pick("used", {"pattern-for-names", "pattern-for-directories", "ignored", "literal"});
    const string &n = c.of(names, "name");
    int other = c.choose(c.thorough ? (int)names.size() : 2, "other-name");
    const string &m = c.thorough ? names[other] : other ? string("b") : string("aab");
    string pre = how == 1 ? "/f" : "";
    auto put = [&](const string &q, int mt) { if (how == 1) { fs.mkdir("/o/" + q, 0750, mt); fs.mkfile("/o/" + q + "/f", "f", 0640, mt); fs.mkfile("/o/" + q + "/g", "g", 0640, mt); } else fs.mkfile("/o/" + q, "of " + q, 0640, mt); };
    put(n, 101);
    if (m != n) put(m, 102);
    string t;
    if (how == 3) {
      c.require(n.find('\n') == string::npos);
      t = "[track]\n/o/" + n + "\n";
      if (c.choose(2, "and-another")) t += "[mirror]\n/o\n";
    } else {
      const string &p = c.of(pats, "pattern");
      t = how == 2 ? "[track]\n/o\n[ignore]\n" + p + "\n" : "[track]\n/o//" + p + pre + "\n";
      if (how == 2 && c.choose(2, "anchored")) t = "[track]\n/o\n[ignore]\n^/o/" + p + "\n";
    }
    judgeText(c, s, t, O_VIEW | O_STATUS | O_FILES);
  });
  // Names and paths of many lengths, in the tree, in rules, in patterns and in ignore patterns.
  job.explore("long-paths", [=](mc::Ctx &c) {
    Sim s;
    FS &fs = s.w.fs;
    int len = flt::longLengths()[c.choose((int)flt::longLengths().size())];
    c.note(mc::fmt("%d bytes", len));
    int nameLen = std::min(len, 255);
    string deep = flt::longPath("/s", (size_t)len);
    flt::mkdirsAt(fs, deep);
    string a = string(nameLen - 1, 'n') + "a", b = string(nameLen - 1, 'n') + "b";
    for (const string &d : {string("/s"), deep}) {
      if (d.size() + 1 + nameLen > 4000) continue;
      fs.mkfile(d + "/" + a, "content of a, long enough to be stored", 0640, 100);
      fs.mkfile(d + "/" + b, "b", 0600, 101);
      fs.mklink(d + "/l", a);
      fs.mkdir(d + "/x", 0750, 102);
      fs.mkfile(d + "/x/f", "f", 0640, 103);
    }
    fs.mkfile("/s/" + string(nameLen == 255 ? 254 : nameLen + 1, 'n'), "another", 0640, 104);
    string parent = spec::parentOf(deep), last = deep.substr(parent.size() + 1);
    string t = "[" + c.of(vector<string>{"copy", "mirror", "track"}, "policy") + "]\n";
    int rule = c.pick("rule", {"top", "deepest", "pattern", "name-below-top", "name-below-deepest", "pattern-of-alternatives", "longer-than-present", "shorter-than-present"});
    c.require(rule != 4 || deep.size() + 1 + nameLen < 4000);   // beyond what the system accepts
    static const string lots = [] { string q; for (int i = 0; i < 600; i++) q += "x" + std::to_string(i) + "y|"; return q; }();
    t += rule == 0 ? "/s" : rule == 1 ? deep : rule == 2 ? parent + "//^" + last.substr(0, std::min<size_t>(last.size(), 200)) : rule == 3 ? "/s/" + a : rule == 4 ? deep + "/" + b
         : rule == 5 ? "/s//^(" + lots + string(std::min(nameLen, 200) - 1, 'n') + "b)" : rule == 6 ? deep + "y" : deep.substr(0, deep.size() - 1);
    t += "\n";
    int ign = c.pick("ignored", {"nothing", "whole-path", "end-of-path", "everything-longer", "alternatives"});
    if (ign == 1) t += "[ignore]\n^" + deep.substr(0, std::min<size_t>(deep.size(), 20000)) + "/x$\n";
    if (ign == 2) t += "[ignore]\n" + a + "$\n";
    if (ign == 3) t += "[ignore]\n" + string(std::min(nameLen, 200), 'n') + "\n";
    if (ign == 4) t += "[ignore]\n(" + lots + "/x)$\n";
    judgeText(c, s, t, O_VIEW | O_STATUS | O_FILES);
  });
  job.explore("unprivileged", [=](mc::Ctx &c) {
    // what cannot be read makes the run fail; nothing is left out silently
    Sim s;
    int k = c.choose(nTrees, "tree");
    tree(s.w.fs, k);
    s.w.fs.mkdir(s.r, 0777);
    s.config(chooseRules(c, 1, false));
    c.require(s.cfg.ok);
    FS locked = s.w.fs;
    locked.mkfile(s.r + "/lockfile", "", 0200, s.w.now, 1000, 1000);
    locked.setmtime(s.r, s.w.now);
    spec::BackupResult want = spec::backup(s.tree, s.cfg, locked, s.w.now);
    FS before = s.w.fs;
    vos::RunCfg rc = cfgFor({s.r}, "y\n");
    rc.euid = 1000;
    Result r = vos::run(s.w, rc);
    c.trans();
    c.eval();
    auto ctxt = [&] { return s.cfgText + show(r); };
    c.check(r.kind == vos::E_EXIT, "crash", ctxt());
    if (!r.ok()) { c.check(!r.err.empty(), "silent", ctxt()); c.nontrivial(r.err); return; }
    c.check(want.ok, "status", ctxt());
    repo::View v;
    string e = repo::load(s.w.fs, s.r, v);
    c.check(e.empty(), "unloadable", e + ctxt());
    if (want.changes) { e = spec::compare(want.next, v); c.check(e.empty(), "recorded", e + ctxt()); }
    c.nontrivial(vos::hash64(v.str()));
    c.validated();
  });
}

MC_CHECK(C23, "model_checking") {
  job.rule("All sets of up to 2 (thorough 3) rules with ignore and summarize lists on every tree of a set, and then on every later tree; the warnings printed must be exactly those computed "
           "independently, and the backup must be the same. Non-trivial: a distinct repository or outcome.");
  job.explore("first-backup", [=](mc::Ctx &c) {
    Sim s;
    tree(s.w.fs, c.choose(nTrees, "tree"));
    judgeText(c, s, chooseRules(c, c.thorough ? 3 : 2, true), O_VIEW | O_STATUS | O_WARN);
  });
  job.explore("second-backup", [=](mc::Ctx &c) {
    Sim s;
    tree(s.w.fs, c.choose(nTrees, "tree"));
    s.config(chooseRules(c, c.thorough ? 2 : 1, true));
    c.require(s.cfg.ok);
    s.backup(c, O_STATUS);
    FS n;
    n.mkdir(s.r);
    n.setTreeFrom(s.w.fs, s.r);
    tree(n, c.choose(nTrees, "later"));
    s.w.fs = n;
    s.backup(c, O_VIEW | O_STATUS | O_WARN);
  });
}
