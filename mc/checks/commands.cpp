// C24 (command lines), C25 (ways of ending), C22 (synchronisation of repositories).
#include "../scenes.hpp"
#include <algorithm>
#include <cerrno>
using namespace flt;

static string lexical(const string &cwd, const string &p) { return p.empty() ? "" : p[0] == '/' ? p : cwd == "/" ? "/" + p : cwd + "/" + p; }
static string whole(const FS &a, const FS &b, const string &r) {
  string d = diff(a, b, "/", vos::D_ALL, [&](const string &p) { return p == r; });
  return d.empty() ? diff(a, b, r, vos::D_ALL & ~vos::D_DIRMTIME) : d;
}
static string join(const vector<string> &v) { string s; for (auto &x : v) s += " '" + x.substr(0, 60) + "'"; return s; }
// The number a digit string denotes, or false if it is none or does not fit.
static bool number(const string &t, uint64_t &v) {
  if (t.empty()) return false;
  v = 0;
  for (char ch : t) {
    if (ch < '0' || ch > '9') return false;
    if (v > (uint64_t)(INT64_MAX - (ch - '0')) / 10) return false;   // does not fit
    v = v * 10 + (ch - '0');
  }
  return true;
}

MC_CHECK(C24, "model_checking") {
  job.rule("All argument lists (0 to 4 arguments, plus one more for every accepted command) over an alphabet of spellings of repositories, commands, numbers and paths, from three working directories, on repositories that are complete, damaged, without metadata or without configuration. "
           "An independent interpreter says which command on which repository, number and path it denotes; the outcome must be the model's, and equal to the same command in its plainest spelling; anything else must be refused with a message and without effect. Non-trivial: a distinct argument list and outcome.");
  job.assume("Paths with empty, '.' or '..' elements may be refused or taken as the path they denote; so may an empty path, which denotes the working directory.");
  static const vector<string> repos = {"/r", "/r/", "/r//", "r", "../r", "./r", "/l", "/l/", "/q", "/s/../q/", "/none", "/f", "/f/", "/e", "", "/dangling", "."};
  static const vector<string> words = {"gc", "integrity", "0", "1", "00", "01", "2", "3", "000000000000000000000000000000", "18446744073709551615", "18446744073709551616", "18446744073709551614", "9223372036854775807", "9223372036854775808",
                                       "4294967296", "99999999999999999999999999999999", "-1", "+1", "1x", "x1", " 1", "1 ", "", "GC", "gcx", "g", "integrity ", "0x1", "1.0", "-", "--help", "/s/d", "0\n"};
  static const vector<string> paths = {"/", "/s", "/s/d", "/s/d/", "/s/d///", "s/d", "d", "d/c", "s", "//s/d", "/s//d", "./s/d", "/s/./d", "../s/d", ".", "..", "/s/d/c", "/s/d/missing", "/missing", "/s/dd", "/s/", "//", "c", "/s/d/c/", "gc", "s/d/", "d/", ""};
  static const vector<string> extras = {"/s/d", "0", ""};
  static const vector<string> cwds = {"/", "/s", "/r"};
  auto base = [](mc::Ctx &c, Sim &s) {
    s.config("[track]\n/s/d\n");
    FS &fs = s.w.fs;
    fs.mkfile("/f", "a file", 0644, 70);
    fs.mkdir("/e", 0755, 71);
    fs.mklink("/l", "/r");
    fs.mklink("/dangling", "/nowhere");
    applyState(fs, 9);
    s.backup(c, 0);
    applyState(fs, 6);
    s.backup(c, 0);
    // another repository with other contents
    Sim q;
    q.w = s.w;
    q.r = "/q";
    q.w.fs.mkdir("/q");
    q.config("[copy]\n/s/d\n/f\n");
    q.w.fs.mkfile("/s/d/c", "only the other repository has this", 0600, 1200);
    q.backup(c, 0);
    int64_t now = q.w.now;
    FS keep = q.w.fs;
    s.w.fs = keep;
    s.w.now = now + 1000;
    s.w.fs.mkfile("/r/1/23/junk", "to be collected", 0644, 73);
    s.w.fs.mkfile("/q/junk", "to be collected, too", 0644, 74);
    applyState(s.w.fs, 8);                 // what stands there now differs from everything recorded
    switch (c.pick("state", {"complete", "damaged", "no-metadata", "no-config", "neither"})) {
    case 1: { repo::Meta m; string e; repo::decode(repo::metaBytes(s.w.fs, "/r"), m, e); map<string, repo::State> bl; repo::blobs(m, bl); int n = s.w.fs.lookup("/r/" + bl.begin()->first); s.w.fs.w(n).data[3] ^= 1; break; }
    case 2: s.w.fs.rm("/r/metadata"); break;
    case 3: s.w.fs.rm("/r/config"); break;
    case 4: s.w.fs.rm("/r/metadata"); s.w.fs.rm("/r/config"); break;
    }
  };
  auto judge = [](mc::Ctx &c, Sim &s, const vector<string> &argv, const string &cwd) {
    const World &start = s.w;
    const FS &fs = start.fs;
    // --- what it means
    enum { REFUSE, BACKUP, GC, INTEGRITY, RESTORE } cmd = REFUSE;
    string repo, path;
    uint64_t id = 0;
    bool odd = false;
    if (!argv.empty()) {
      int n = argv[0].empty() ? -1 : fs.lookup(lexical(cwd, argv[0]));
      if (n >= 0 && fs.r(n).type == vos::T_DIR) repo = n == fs.lookup("/r") ? "/r" : n == fs.lookup("/q") ? "/q" : n == fs.lookup("/e") ? "/e" : "/";
      if (repo == "/" || repo == "/e") repo.clear();
      if (!repo.empty()) {
        bool conf = fs.exists(repo + "/config"), meta = fs.exists(repo + "/metadata");
        if (argv.size() == 1) cmd = conf ? BACKUP : REFUSE;
        else if (argv[1] == "gc") cmd = argv.size() == 2 && meta ? GC : REFUSE;
        else if (argv[1] == "integrity") cmd = argv.size() == 2 && meta ? INTEGRITY : REFUSE;
        else if (number(argv[1], id) && argv.size() <= 3 && meta) {
          cmd = RESTORE;
          path = argv.size() == 3 ? lexical(cwd, argv[2]) : "/";
          if (argv.size() == 3 && argv[2].empty()) { path = cwd; odd = true; }
          // leave out trailing slashes; elements that mean nothing make it odd
          while (path.size() > 1 && path.back() == '/') path.pop_back();
          string norm;
          for (size_t i = 1; i <= path.size();) {
            size_t j = path.find('/', i);
            if (j == string::npos) j = path.size();
            string el = path.substr(i, j - i);
            if (path.size() > 1 && (el.empty() || el == "." || el == "..")) odd = true;
            if (el == "..") norm = norm.substr(0, norm.rfind('/') == string::npos ? 0 : norm.rfind('/'));
            else if (el != "." && !el.empty()) norm += "/" + el;
            i = j + 1;
          }
          path = norm.empty() ? "/" : norm;
        }
      }
    }
    // --- what happens
    World w = start;
    Result R = vos::run(w, cfgFor(argv, "y\n", cwd));
    c.trans();
    c.eval();
    auto ctxt = [&] { return "nb" + join(argv) + " in " + cwd + "\n" + show(R); };
    c.check(R.normal(), "crash", ctxt());
    c.check(w.locks.empty() && !w.fs.exists("/r/lockfile") && !w.fs.exists("/q/lockfile"), "lock-left", ctxt());
    c.nontrivial(join(argv) + cwd + std::to_string(R.code) + std::to_string(vos::hash64(R.out)));
    c.state(vos::hash64(dump(w.fs, "/")));
    auto refused = [&](const string &why) {
      c.check(!R.ok(), "not-refused", why + ctxt());
      c.check(!R.err.empty(), "no-message", ctxt());
      string d = whole(fs, w.fs, "/r");
      if (!d.empty()) { FS a = fs, b = w.fs; a.setmtime("/q", 1); b.setmtime("/q", 1); d = whole(a, b, "/r"); }
      c.check(d.empty(), "refused-but-changed", d + ctxt());
    };
    if (cmd == REFUSE) { refused(""); return; }
    if (cmd == RESTORE) {
      repo::View v;
      string e = repo::load(fs, repo, v);
      spec::RestoreResult m;
      m.ok = false;
      if (e.empty()) m = spec::restore(v, id, path, fs);
      if (!m.ok) { if (e.empty()) refused("restore of " + path + " at number " + std::to_string(id) + "\n"); return; }
      if (odd && !R.ok()) { refused(""); return; }
      // (with the damaged content, a restore that needs it fails after all)
      bool damaged = false;
      for (auto &l : R.err) damaged |= l != 0;
      if (!R.ok() && c.notes.find("damaged") != string::npos && damaged) return;
      c.check(R.ok(), "status", "expected restore of " + path + " at number " + std::to_string(id) + "\n" + ctxt());
      if (c.notes.find("damaged") != string::npos) return;
      string d = restoredDiff(m, w.fs, repo);
      if (d.empty()) { string o = repo == "/r" ? "/q" : "/r"; d = diff(fs, w.fs, o); }
      c.check(d.empty(), "restored", "expected restore of " + path + " at number " + std::to_string(id) + "\n" + d + ctxt());
      d = linesDiff(m.lines, reportLines(R.out));
      c.check(d.empty(), "restore-report", d + ctxt());
      c.validated();
      return;
    }
    // the plainest spelling
    World p = start;
    Result P = vos::run(p, cfgFor(cmd == BACKUP ? vector<string>{repo} : vector<string>{repo, argv[1]}, "y\n", "/"));
    c.check(R.code == P.code && R.out == P.out, "other-outcome", ctxt() + "instead of\n" + show(P));
    string d = diff(p.fs, w.fs, "/");
    c.check(d.empty(), "other-effect", d + ctxt());
    if (cmd != INTEGRITY) c.check(R.ok(), "status", ctxt());
    if (cmd == INTEGRITY) { c.check(R.ok() == (c.notes.find("damaged") == string::npos || repo == "/q"), "integrity-status", ctxt()); d = whole(fs, w.fs, repo); c.check(d.empty(), "changed", d + ctxt()); return; }
    string o = repo == "/r" ? "/q" : "/r";
    d = diff(fs, w.fs, "/", vos::D_ALL, [&](const string &x) { return x == repo; });
    c.check(d.empty(), "changed-elsewhere", d + ctxt());
    d = extraFiles(w.fs, repo);
    if (cmd == GC && fs.exists(repo + "/config")) c.check(d.empty(), "gc-incomplete", d + ctxt());
    if (cmd == GC) { d = repo::metaBytes(fs, repo) == repo::metaBytes(w.fs, repo) ? "" : "metadata changed"; c.check(d.empty(), "gc-metadata", d + ctxt()); }
    c.validated();
  };
  job.explore("argument-lists", [=](mc::Ctx &c) {
    Sim s;
    base(c, s);
    string cwd = c.of(cwds, "cwd");
    vector<string> argv;
    int n = c.choose(c.thorough ? 6 : 5, "arguments");
    static const vector<string> some = {"/r", "r", "/none", "/q/"};
    if (n > 0) argv.push_back(n > 3 && !c.thorough ? c.of(some, "repository") : c.of(repos, "repository"));
    if (n > 1) argv.push_back(c.of(words, "second"));
    if (n > 2) argv.push_back(c.of(paths, "third"));
    if (n > 3) argv.push_back(c.of(extras, "fourth"));
    if (n > 4) argv.push_back("/");
    judge(c, s, argv, cwd);
  });
  // Long paths: of the repository, of what is backed up, of the working directory, of names and link targets.
  job.explore("long-paths", [=](mc::Ctx &c) {
    const vector<int> &lengths = longLengths();
    auto mkdirs = [](FS &fs, const string &p) { mkdirsAt(fs, p); };
    auto build = longPath;
    int which = c.pick("long", {"repository", "relative-repository", "source", "working-directory", "target-of-link"});
    size_t n = lengths[c.choose((int)lengths.size())];
    c.note(mc::fmt("%zu bytes", n));
    Sim s;
    FS &fs = s.w.fs;
    string cwd = "/", arg, src = "/s/d";
    if (which == 0) s.r = build("/t", n);
    if (which == 1) { cwd = build("/t", n / 2); s.r = build(cwd, n); arg = s.r.substr(cwd.size() + 1); }
    if (which == 2) src = build("/s/d", n);
    if (which == 3) src = cwd = build("/s/d", n);
    if (arg.empty()) arg = s.r;
    mkdirs(fs, s.r);
    mkdirs(fs, cwd);
    mkdirs(fs, src);
    s.config("[track]\n/s/d\n");
    fs.mkfile(src + "/f", "a content to be stored in the repository", 0640, 100);
    fs.mkfile(src + "/g", "inline", 0600, 101);
    fs.mklink(src + "/l", which == 4 ? string(n, 'l') : "f");
    string full = string(255, 'n');
    if (src.size() < 3600) fs.mkfile(src + "/" + full, "the name has as many bytes as names can have", 0640, 102);
    for (string p = src; p.size() > 2; p = spec::parentOf(p)) fs.setmtime(p, 4000);
    World before = s.w;
    auto cmd = [&](vector<string> more, const string &wd) {
      more.insert(more.begin(), arg);
      Result r = vos::run(s.w, cfgFor(more, "y\n", wd));
      s.w.now += 1000;
      c.trans();
      c.eval();
      c.check(r.ok(), "refused", "nb" + join(more).substr(0, 500) + "\n" + show(r).substr(0, 2000));
    };
    cmd({}, cwd);
    string e = healthy(fs, s.r);
    c.check(e.empty(), "repository", e);
    string d = diff(before.fs, fs, "/", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "changed-elsewhere", d.substr(0, 3000));
    fs.mkfile(s.r + "/0/00/junk", "left over", 0644, 1);
    cmd({"gc"}, cwd);
    e = healthy(fs, s.r);
    c.check(e.empty(), "after-gc", e);
    cmd({"integrity"}, cwd);
    vector<string> back = which == 3 ? vector<string>{"f", "g", "l"} : vector<string>{src};
    if (which == 3 && src.size() < 3600) back.push_back(full);
    if (which == 3) for (auto &x : back) fs.rm(src + "/" + x);
    else fs.rm(which == 2 ? "/s/d" : src);
    for (auto &x : back) cmd({"0", x}, cwd);
    d = diff(before.fs, fs, "/s/d", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "not-restored", d.substr(0, 3000));
    c.nontrivial(vos::hash64(dump(fs, s.r), n));
    c.validated();
  });
}

// ------------------------------------------------------------------ C25
namespace {
struct End {
  const char *name;
  vector<string> args;
  string in;
};
}
static const vector<End> ends = {
    {"backup", {}, "y\n"}, {"backup-refused", {}, "n\n"}, {"backup-eof", {}, ""}, {"gc", {"gc"}, ""}, {"integrity", {"integrity"}, ""},
    {"restore", {"0"}, "y\n"}, {"restore-refused", {"0"}, "no\n"}, {"restore-eof", {"0"}, ""}, {"restore-missing", {"0", "/missing"}, "y\n"}, {"restore-number", {"77"}, "y\n"}, {"invalid", {"nonsense"}, "y\n"}, {"too-many", {"gc", "x"}, "y\n"}};
MC_CHECK(C25, "fault_enumeration") {
  job.rule("Every command with every answer, on repositories that are sound or damaged in several ways, running undisturbed, with every single operation failing (three ways) and killed at every operation (and within every write), with and without a stale lock file and an old temporary file, followed by every command. "
           "No lock may remain, no lock file unless the process was killed or the operation on that very file failed; every following command must work, and after the following backup or gc nothing left over may remain. Non-trivial: a distinct end (command, operation, way, message).");
  job.assume("Following commands are judged after the damage put into the repository or configuration itself has been taken back. The lock file's own operations failing may leave the lock file.");
  static const vector<string> damageOf = {"sound", "metadata-cut", "metadata-garbage", "config-invalid", "config-missing", "content-missing", "content-cut", "source-vanishing", "ambiguous-rules"};
  auto prepare = [](mc::Ctx &c, Sim &s, int dmg) {
    s.config("[track]\n/s/d\n");
    applyState(s.w.fs, 9);
    s.backup(c, 0);
    applyState(s.w.fs, c.choose(2, "change") ? 14 : 9);
    s.w.fs.mkfile("/s/d/more", "one more long content to be stored in the repository", 0644, 1300);
    FS &fs = s.w.fs;
    repo::Meta m;
    string e, b = repo::metaBytes(fs, s.r);
    repo::decode(b, m, e);
    map<string, repo::State> bl;
    repo::blobs(m, bl);
    string blob = s.r + "/" + bl.begin()->first;
    switch (dmg) {
    case 1: fs.mkfile(s.r + "/metadata", b.substr(0, b.size() / 2)); break;
    case 2: fs.mkfile(s.r + "/metadata", string(300, '\xff')); break;
    case 3: fs.mkfile(s.r + "/config", "[track]\nrelative/path\n"); break;
    case 4: fs.rm(s.r + "/config"); break;
    case 5: fs.rm(blob); break;
    case 6: fs.mkfile(blob, "cut"); break;
    case 7: fs.rm("/s"); break;
    case 8: fs.mkfile(s.r + "/config", "[track]\n/s//d\n/s//^d$\n"); break;
    }
  };
  auto leftovers = [](World &w, int k) {
    if (k == 1) w.fs.mkfile("/r/lockfile", "", 0200, 90);
    if (k == 2) w.fs.mkfile("/r/lockfile", "a stale lock with some text in it", 0644, 91, 5, 5);
    if (k == 3) { w.fs.mkfile("/r/lockfile", "", 0, 92); w.fs.mkfile("/r/tmp-file", string(9000, 't'), 0600, 93); }
    if (k == 4) w.fs.mkfile("/r/tmp-file", "x", 0400, 94, 6, 6);
  };
  // every command after an end
  auto follow = [](mc::Ctx &c, const Sim &s, const FS &sound, const World &after, int dmg, const std::function<string()> &ctxt) {
    World f = after;
    // take the damage back
    FS &fs = f.fs;
    if (dmg == 3 || dmg == 4 || dmg == 8) fs.mkfile("/r/config", s.cfgText);
    if (dmg == 1 || dmg == 2) fs.mkfile("/r/metadata", sound.content("/r/metadata"));
    if (dmg == 5 || dmg == 6) {
      repo::Meta m; string e; repo::decode(repo::metaBytes(sound, "/r"), m, e);
      map<string, repo::State> bl; repo::blobs(m, bl);
      for (auto &x : bl) { string p = "/r/" + x.first; if (sound.exists(p)) fs.mkfile(p, sound.content(p)); }
    }
    static const vector<vector<string>> cmds = {{"/r"}, {"/r", "gc"}, {"/r", "integrity"}, {"/r", "0"}};
    for (auto &a : cmds) {
      World w = f;
      w.now += 5000;
      w.fs.mkdir("/s/d", 0755, 77);
      w.fs.mkfile("/s/d/touched", "so that there is something to back up", 0644, 1400);
      Result R = vos::run(w, cfgFor(a));
      c.trans();
      c.check(R.ok(), "next-command", ctxt() + "then nb" + join(a) + "\n" + show(R));
      c.check(w.locks.empty() && !w.fs.exists("/r/lockfile"), "lock-left-by-next", ctxt() + show(R));
      if (a.size() == 1 || a[1] == "gc") { string d = healthy(w.fs, "/r"); c.check(d.empty(), "leftovers", d + "\n" + ctxt() + "then nb" + join(a) + "\n" + show(R)); }
    }
  };
  job.explore("undisturbed", [=](mc::Ctx &c) {
    Sim s;
    int dmg = c.choose((int)damageOf.size());
    c.note(damageOf[dmg]);
    prepare(c, s, dmg);
    FS sound = s.w.fs;
    { Sim t; mc::Ctx q; t.config("[track]\n/s/d\n"); applyState(t.w.fs, 9); t.w.now = 1700000000; t.backup(q, 0); sound = t.w.fs; }
    int k = c.choose(5, "leftovers");
    leftovers(s.w, k);
    const End &x = c.of(ends);
    c.note(x.name);
    vector<string> args = {c.choose(2) ? "/r/" : "/r"};
    for (auto &a : x.args) args.push_back(a);
    vos::RunCfg rc = cfgFor(args, x.in);
    rc.tty = c.choose(2, "terminal");
    rc.euid = c.choose(2, "unprivileged") ? 1000 : 0;
    World w = s.w;
    w.now += 500;
    Result R = vos::run(w, rc);
    c.trans();
    c.eval();
    auto ctxt = [&] { return "nb" + join(args) + "\n" + dump(s.w.fs, "/r") + show(R); };
    c.check(R.normal(), "crash", ctxt());
    c.check(w.locks.empty(), "locked", ctxt());
    c.check(!w.fs.exists("/r/lockfile") || s.w.fs.exists("/r/lockfile"), "lock-file-left", ctxt());
    c.nontrivial(vos::hash64(R.str() + R.err + R.out, k));
    c.state(vos::hash64(dump(w.fs, "/")));
    follow(c, s, sound, w, dmg, ctxt);
  });
  job.explore("failing-or-killed", [=](mc::Ctx &c) {
    Sim s;
    int dmg = c.choose((int)damageOf.size());
    c.note(damageOf[dmg]);
    prepare(c, s, dmg);
    FS sound;
    { Sim t; mc::Ctx q; t.config("[track]\n/s/d\n"); applyState(t.w.fs, 9); t.w.now = 1700000000; t.backup(q, 0); sound = t.w.fs; }
    int k = c.choose(c.thorough ? 5 : 3, "leftovers");
    leftovers(s.w, k ? k : 0);
    const End &x = c.of(ends);
    c.note(x.name);
    vector<string> args = {"/r"};
    for (auto &a : x.args) args.push_back(a);
    World start = s.w;
    start.now += 500;
    vector<Event> ev;
    { World w = start; Plan p; p.hook = [&](const Event &e) { ev.push_back(e); return Act(); }; vos::run(w, cfgFor(args, x.in), &p); }
    static const int errs[] = {EIO, EACCES, ENOSPC};
    for (size_t i = 0; i < ev.size(); i++)
      for (int m = 0; m < 6; m++) {
        if (m == 5 && ev[i].op != vos::S_WRITE) continue;
        if (m == 3 && !ev[i].mutates) continue;
        if (ev[i].op == vos::S_TIME || ev[i].op == vos::S_TTYWRITE) continue;
        World w = start;
        Plan p;
        p.hook = [&](const Event &e) { Act a; if ((size_t)e.idx == i) { a.k = m < 3 ? Act::Fail : m == 3 ? Act::KillBefore : m == 4 ? Act::KillAfter : Act::KillMid; if (m < 3) a.err = errs[m]; } return a; };
        Result R = vos::run(w, cfgFor(args, x.in), &p);
        c.trans();
        c.eval();
        auto ctxt = [&] { return mc::fmt("nb%s: %s #%zu %s, way %d\n", join(args).c_str(), vos::opName[ev[i].op], i, ev[i].path.c_str(), m) + dump(start.fs, "/r") + "after:\n" + dump(w.fs, "/r") + show(R); };
        bool onLock = ev[i].path.find("/lockfile") != string::npos;
        if (m < 3) {
          c.check(R.normal(), "crash", ctxt());
          c.check(w.locks.empty(), "locked", ctxt());
          c.check(onLock || !w.fs.exists("/r/lockfile") || start.fs.exists("/r/lockfile"), "lock-file-left", ctxt());
        } else c.check(w.locks.empty(), "locked", ctxt());
        c.state(vos::hash64(dump(w.fs, "/r")));
        c.nontrivial(vos::hash64(mc::fmt("%d %zu %d", dmg, i, m) + x.name + R.err, k));
        follow(c, s, sound, w, dmg, ctxt);
      }
  });
}

// ------------------------------------------------------------------ C22
// cp -rn from/* to/: returns false when the budget of files is used up (the procedure stops there).
static bool copyMissing(FS &fs, const string &from, const string &to, int &budget, int cut) {
  vector<std::pair<string, int>> es;
  { const vos::Inode &d = fs.r(fs.lookup(from)); for (auto &e : d.ents) es.push_back(e); }
  for (auto &e : es) {
    string a = from + "/" + e.first, b = to + "/" + e.first;
    const vos::Inode i = fs.r(e.second);
    if (i.type == vos::T_DIR) {
      if (!fs.exists(b)) fs.mkdir(b, i.perm);
      if (!copyMissing(fs, a, b, budget, cut)) return false;
    } else if (!fs.exists(b)) {
      if (budget-- == 0) {
        if (cut == 1) fs.mkfile(b, i.data.substr(0, i.data.size() / 2), i.perm);
        if (cut == 2) fs.mkfile(b, "", i.perm);
        return false;
      }
      fs.mkfile(b, i.data, i.perm);
    }
  }
  return true;
}
static string sameRepo(const FS &fs, const string &a, const string &b) {
  FS x, y;
  std::function<void(FS &, const FS &, const string &, const string &)> cp = [&](FS &to, const FS &from, const string &src, const string &dst) {
    const vos::Inode &i = from.r(from.lookup(src, false));
    if (i.type == vos::T_DIR) { to.mkdir(dst); for (auto &e : i.ents) cp(to, from, src + "/" + e.first, dst + "/" + e.first); }
    else if (i.type == vos::T_FILE) to.mkfile(dst, i.data);
    else to.mklink(dst, i.data);
  };
  cp(x, fs, a, "/x");
  cp(y, fs, b, "/x");
  return diff(x, y, "/x", vos::D_DATA);
}
MC_CHECK(C22, "model_checking") {
  job.rule("All histories of backups up to a depth, copied as the older repository at every point (including several copies from different points, and copies which were themselves backed up to since), then the documented procedure to bring the copy up to date, with a stop before every copied file or in the middle of it. "
           "Until the metadata is replaced the copy must hold what it held, verified by integrity checks and restores of everything; at the end it must equal the current repository byte for byte, also after a stop between files and repetition, and be usable. Non-trivial: a distinct pair of repositories.");
  job.assume("cp is modelled as copying entries in name order, the metadata last. No two contents share a hash.");
  auto run = [](mc::Ctx &c, Sim &s, const FS &olderIn, bool restoreAll) {
    // /old is the older copy next to /r
    World w = s.w;
    w.now += 777;
    w.fs.mkdir("/old");
    { FS o; o.mkdir("/x"); std::function<void(const string &, const string &)> cp = [&](const string &a, const string &b) {
        const vos::Inode i = olderIn.r(olderIn.lookup(a, false));
        if (i.type == vos::T_DIR) { w.fs.mkdir(b); for (auto &e : i.ents) cp(a + "/" + e.first, b + "/" + e.first); } else w.fs.mkfile(b, i.data, i.perm, i.mtime); };
      cp("/r", "/old"); }
    repo::View was;
    string e = repo::load(w.fs, "/old", was);
    c.check(e.empty(), "old-unloadable", e);
    string oldView = was.str();
    c.nontrivial(vos::hash64(dump(w.fs, "/old"), vos::hash64(dump(w.fs, "/r"))));
    auto ctxt = [&] { return dump(s.w.fs, "/r") + "older:\n" + oldView; };
    auto procedure = [&](World &p, int budget, int cut) {
      if (!copyMissing(p.fs, "/r", "/old", budget, cut)) return false;
      p.fs.mkfile("/old/config", p.fs.content("/r/config"));
      if (budget-- == 0) return false;
      p.fs.mkfile("/old/metadata", p.fs.content("/r/metadata"));
      Result R = nb(p, {"/old", "gc"});
      c.trans();
      c.check(R.ok(), "gc-failed", show(R) + ctxt());
      return true;
    };
    for (int stop = 0;; stop++) {
      bool done = false;
      for (int cut = 0; cut < 3 && !done; cut++) {
        World p = w;
        done = procedure(p, stop, cut);
        c.eval();
        if (done) {
          string d = sameRepo(p.fs, "/r", "/old");
          c.check(d.empty(), "not-equal", d + ctxt());
          Result R = nb(p, {"/old", "integrity"});
          c.check(R.ok(), "integrity-after", show(R) + ctxt());
          World a = p, b = p;
          a.now += 100; b.now += 100;
          Result A = nb(a, {"/r"}), B = nb(b, {"/old"});
          c.trans(3);
          c.check(A.code == B.code && A.out == B.out, "differing-next-backup", show(A) + show(B) + ctxt());
          repo::View va, vb;
          c.check(repo::load(a.fs, "/r", va).empty() && repo::load(b.fs, "/old", vb).empty() && va.str() == vb.str(), "differing-after-next-backup", ctxt());
          c.validated();
          break;
        }
        // stopped: the copy is what it was
        repo::View v;
        string x = repo::load(p.fs, "/old", v);
        c.check(x.empty(), "old-damaged", x + ctxt());
        c.check(v.str() == oldView, "old-altered", v.str() + ctxt());
        World q = p;
        Result R = nb(q, {"/old", "integrity"});
        c.trans();
        c.check(R.ok(), "integrity-stopped", show(R) + ctxt());
        if (restoreAll)
          for (uint64_t id = 0; id < was.times.size(); id++) {
            World t = p;
            restore(c, t, "/old", v, id, "/", R_STATE | R_REPO);
          }
        // a gc on the stopped copy drops what was copied, and the procedure can be repeated
        World g = p;
        R = nb(g, {"/old", "gc"});
        c.trans();
        c.check(R.ok(), "gc-stopped", show(R) + ctxt());
        x = healthy(g.fs, "/old", &v);
        c.check(x.empty() && v.str() == oldView, "old-altered-by-gc", x + ctxt());
        if (cut == 0) {
          World t = p;
          procedure(t, 1 << 20, 0);
          string d = sameRepo(t.fs, "/r", "/old");
          c.check(d.empty(), "repeated-not-equal", d + ctxt());
        }
        World t = g;
        procedure(t, 1 << 20, 0);
        string d = sameRepo(t.fs, "/r", "/old");
        c.check(d.empty(), "repeated-after-gc-not-equal", d + ctxt());
        c.state(vos::hash64(dump(p.fs, "/old")));
      }
      if (done) break;
      c.check(stop < 200, "endless", "");
    }
  };
  job.explore("histories", [=](mc::Ctx &c) {
    Sim s;
    static const vector<Cfg> cf = {{"d:track", "[track]\n/s/d\n"}, {"d:copy c:track", "[copy]\n/s/d\n[track]\n/s/d/c\n"}, {"d:mirror", "[mirror]\n/s/d\n"}, {"d:copy", "[copy]\n/s/d\n"}};
    int k = c.choose(4);
    c.note("config{" + cf[k].name + "}");
    s.config(cf[k].text);
    vector<FS> versions;
    int depth = c.thorough ? 5 : 4;
    for (int i = 0; i < depth; i++) {
      if (i && c.choose(2, "stop-here")) break;
      static const int sub[] = {9, 6, 14, 2, 3, 10, 0, 5};
      int st = sub[c.choose(i ? 6 : 8)];
      c.note(stateNames[st]);
      applyState(s.w.fs, st);
      s.backup(c, 0);
      c.require(s.w.fs.exists("/r/metadata"));
      versions.push_back(s.w.fs);
    }
    int from = c.choose((int)versions.size(), "copied-after");
    run(c, s, versions[from], c.thorough);
  });
  job.explore("larger-trees", [=](mc::Ctx &c) {
    Sim s;
    s.config(c.choose(2) ? "[track]\n/s/d\n" : "[mirror]\n/s/d\n");
    vector<FS> versions;
    for (int i = 0; i < 2; i++) {
      richState(s.w.fs, c.choose(3, "state") + 1);
      s.w.fs.mkfile("/s/d/step", "the content of step number " + std::to_string(i), 0644, 900 + i);
      s.backup(c, 0);
      versions.push_back(s.w.fs);
    }
    if (c.choose(2, "other-config")) { s.config("[copy]\n/s/d\n[ignore]\nbig$\n"); s.backup(c, 0); }
    run(c, s, versions[c.choose(2, "copied-after")], true);
  });
  // Both repositories were backed up to after the copy was made; the copy then becomes equal to the current one again.
  job.explore("diverged", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s/d\n");
    auto st = [&](FS &fs) { static const int sub[] = {9, 6, 14, 2, 10, 8}; int k = sub[c.choose(c.thorough ? 6 : 4)]; c.note(stateNames[k]); applyState(fs, k); };
    st(s.w.fs);
    s.backup(c, 0);
    World other = s.w;
    other.now += 333;
    st(other.fs);
    Result R = nb(other, {"/r"});
    c.trans();
    c.check(R.ok(), "status", show(R));
    st(s.w.fs);
    s.backup(c, 0);
    run(c, s, other.fs, c.thorough);
  });
}
