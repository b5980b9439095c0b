// C15 (reports and consent), C20 (nothing to do), C21 (nothing outside the repository).
#include "../scenes.hpp"
#include <algorithm>
#include <cerrno>
using namespace flt;

static const vector<Cfg> sumCfgs = [] {
  vector<Cfg> v;
  const char *pats[] = {"", "/d$", "/c$", "^/s$\n/c$", "."};
  for (auto &k : configs()) for (int i = 0; i < 5; i++) v.push_back({k.name + " sum{" + pats[i] + "}", k.text + (i ? string("[summarize]\n") + pats[i] + "\n" : "")});
  return v;
}();
// What an answer means: 1 consent, 0 refusal, 2 either
struct Answer { string text; int means; };
static const vector<Answer> answers = {
    {"y\n", 1}, {"yes\n", 1}, {"n\n", 0}, {"no\n", 0}, {"", 0}, {"\n", 0}, {"Y\n", 0}, {"YES\n", 0}, {"Yes\n", 0}, {"N\n", 0}, {"y", 2}, {"yes", 2}, {"ye\n", 0}, {"yess\n", 0}, {"yy\n", 0}, {" y\n", 0},
    {"y \n", 0}, {"\ty\n", 0}, {"maybe\ny\n", 1}, {"\n\n\nyes\n", 1}, {"maybe\nn\ny\n", 0}, {"no\ny\n", 0}, {"n\nyes\n", 0}, {"q\n", 0}, {"1\n", 0}, {"j\n", 0}, {"y\r\n", 2}, {"ny\n", 0}, {"yn\n", 0}, {"not yes\n", 0}, {"yes please\n", 0},
    {string(5000, 'x') + "\ny\n", 1}, {string(5000, 'y') + "\n", 0}, {"x\ny\nn\n", 1}, {"no way\nyes\n", 1}};

static string wholeDiff(const FS &a, const FS &b, const string &r) {
  string d = diff(a, b, "/", vos::D_ALL, [&](const string &p) { return p == r; });
  return d.empty() ? diff(a, b, r, vos::D_ALL & ~vos::D_DIRMTIME) : d;
}
// Runs a command that asks; every operation before the answer must leave everything as it is.
static Result asked(mc::Ctx &c, World &w, const vos::RunCfg &rc, const string &r, const std::function<string()> &ctxt) {
  const FS before = w.fs;
  string early;
  bool answered = false;
  Plan p;
  p.hook = [&](const Event &e) {
    if (e.op == vos::S_TTYREAD && !answered) {
      FS now = w.fs;
      now.rm(r + "/lockfile");
      if (early.empty()) early = wholeDiff(before, now, r);
      answered = true;
    }
    if (!answered && e.mutates && e.path.find("/lockfile") == string::npos && early.empty()) early = string(vos::opName[e.op]) + " " + e.path;
    return Act();
  };
  Result R = vos::run(w, rc, &p);
  c.trans();
  c.eval();
  c.check(R.normal(), "crash", ctxt() + show(R));
  if (answered) {
    c.check(early.empty(), "changed-before-consent", early + ctxt() + show(R));
    // who is to answer has seen the report and the question
    size_t q = R.out.find("(y/n)");
    if (!rc.tty) c.check(q != string::npos && q < R.outAtRead, "asked-before-shown", ctxt() + show(R));
  }
  else { string d = wholeDiff(before, w.fs, r); c.check(d.empty(), "changed-without-asking", d + ctxt() + show(R)); }
  return R;
}

MC_CHECK(C15, "model_checking") {
  job.rule("Reports: all histories over the states of family.hpp under every configuration combined with summarize patterns, fixed or changing at each step; the lines, totals and the question must equal the model's, and the changes then made are the model's. "
           "Consent: scenarios of backups and restores with every answer of a set (yes, no, end of input, anything else first, ...), on pipes and terminals; nothing changes before the answer, nothing at all without consent. Non-trivial: a distinct step reported, or a distinct outcome.");
  job.assume("Unterminated answers at the end of the input may count either way. The report of a restore describes file attributes of the newest recorded state of the path.");
  job.explore("reports", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose((int)sumCfgs.size());
    c.note(sumCfgs[k].name);
    s.config(sumCfgs[k].text);
    for (int i = 0; i < (c.thorough ? 4 : 3); i++) {
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_REPORT | O_VIEW);
      c.prune(s.canon(std::to_string(k)), 4 - i);
    }
  });
  job.explore("reports-of-larger-trees", [=](mc::Ctx &c) {
    Sim s;
    static const char *pol[] = {"track", "mirror", "copy"};
    static const vector<string> sum = {"", "/d$", "/sub$", "^/s$", "/d$\n/sub$", "/d$\n^/s$", "sub"};
    string t = string("[") + pol[c.choose(3)] + "]\n/s" + (c.choose(2) ? "/d" : "") + "\n";
    if (c.choose(2)) t += string("[") + pol[c.choose(3)] + "]\n/s/d/sub\n";
    const string &q = c.of(sum);
    s.config(t + (q.empty() ? "" : "[summarize]\n" + q + "\n"));
    c.note(s.cfgText);
    c.require(s.cfg.ok);
    for (int i = 0; i < 3; i++) {
      int k = c.choose(6);
      c.note(std::to_string(k));
      if (k < 4) richState(s.w.fs, k);
      else {
        richState(s.w.fs, 3);
        s.w.fs.mkfile("/s/d/sub/huge", string(k == 4 ? 70000 : 1023, 'h'), 0644, 400 + k);
        s.w.fs.mkfile("/s/d/x", string(k == 4 ? 999 : 1000, 'x'), k == 4 ? 0600 : 0640, 402, k, 0);
        s.w.fs.mkdir("/s/d/sub/deep", 0700 + k, 403, 0, k);
        if (k == 5) s.w.fs.mklink("/s/d/sub/deep/l", "nowhere");
      }
      s.backup(c, O_REPORT | O_VIEW);
      c.prune(s.canon(s.cfgText), 3 - i);
    }
  });
  // Sizes around every limit, which need not exist as contents: what is recorded is written with the own encoder, and the answer is no.
  job.explore("reports-of-sizes", [=](mc::Ctx &c) {
    static const int64_t sizes[] = {-1, 100, 999, 1000, 1023, 1024, 10189, 1048575, 1048576, (1LL << 31) - 1, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 3000, (1LL << 40) - 1, (999LL << 40), (1LL << 50) + 1, 1LL << 62};
    static const vector<string> pol = {"copy", "mirror", "track"}, sum = {"", "[summarize]\n/d$\n"};
    int n = sizeof sizes / sizeof *sizes;
    Sim s;
    s.config("[" + c.of(pol, "policy") + "]\n/s\n" + c.of(sum, "summarize"));
    int64_t was = sizes[c.choose(n, "was")], now = sizes[c.choose(n, "now")];
    static const int64_t other[] = {-1, 100, (1LL << 32) - 50};
    int64_t b = other[c.choose(3, "another")];
    bool removed = b >= 0 && c.choose(2, "another-removed");
    FS &fs = s.w.fs;
    fs.mkdir("/s/d", 0755, 5000);
    fs.mkfile("/s/d/keep", "kept", 0644, 50);
    if (was >= 0) fs.mkfile("/s/d/a", "placeholder of the content", 0644, 60);
    if (removed) fs.mkfile("/s/d/b", "placeholder of another content", 0644, 70);
    fs.setmtime("/s/d", 5000);
    s.backup(c, 0);
    repo::Meta m;
    string e;
    c.check(repo::decode(repo::metaBytes(fs, s.r), m, e), "setup", e);
    repo::View v = s.view(c);
    std::function<void(vector<repo::Node> &)> patch = [&](vector<repo::Node> &l) {
      for (auto &x : l) {
        if (x.name == "a") x.hist[0].st.size = was;
        if (x.name == "b") x.hist[0].st.size = b;
        patch(x.subs);
      }
    };
    patch(m.roots);
    fs.mkfile(s.r + "/metadata", repo::encode(m));
    for (auto k : {"/s/d/a", "/s/d/b"}) {
      auto i = v.paths.find(k);
      if (i == v.paths.end()) continue;
      auto &st = i->second.hist[0].st;
      st.more = (k[5] == 'a' ? was : b) - (int64_t)st.data.size();
    }
    s.tree = spec::fromView(v);
    fs.rm("/s/d/a");
    fs.rm("/s/d/b");
    if (now >= 0) { int k = fs.mkfile("/s/d/a", "content a", 0644, 60); fs.w(k).fakesize = now; }
    if (b >= 0 && !removed) { int k = fs.mkfile("/s/d/b", "content b", 0644, 70); fs.w(k).fakesize = b; }
    fs.setmtime("/s/d", 5001);
    if (was >= 0 || removed) if (c.choose(2, "all-gone")) { c.require(now < 0 && (removed || b < 0)); fs.rm("/s/d"); fs.setmtime("/s", 1); }
    FS before = fs;
    auto ctxt = [&] { return s.cfgText + "was " + std::to_string(was) + ", now " + std::to_string(now) + ", another " + std::to_string(b) + "\n"; };
    spec::BackupResult want = spec::backup(s.tree, s.cfg, fs, s.w.now + 1000);
    Result R = nb(s.w, {s.r}, "n\n");
    c.trans();
    c.eval();
    string d = reportDiff(want, R);
    c.check(d.empty(), "report", d + ctxt() + show(R));
    d = wholeDiff(before, fs, s.r);
    c.check(d.empty(), "changed", d + ctxt());
    spec::RestoreResult rw = spec::restore(v, 0, "/s", fs);
    R = nb(s.w, {s.r, "0", "/s"}, "n\n");
    c.trans();
    c.eval();
    d = linesDiff(rw.lines, reportLines(R.out));
    c.check(d.empty(), "restore-report", d + ctxt() + show(R));
    d = wholeDiff(before, fs, s.r);
    c.check(d.empty(), "changed", d + ctxt());
    c.validated(2);
    c.nontrivial(s.cfgText + ctxt());
  });
  job.explore("reports-of-policy-changes", [=](mc::Ctx &c) {
    Sim s;
    for (int i = 0; i < 2; i++) {
      int k = c.choose((int)sumCfgs.size());
      c.note(sumCfgs[k].name);
      if (!c.thorough) c.require(i > 0 || k % 5 == 0);
      s.config(sumCfgs[k].text);
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_REPORT | O_VIEW);
      c.prune(s.canon(), 2 - i);
    }
  });
  // Every change between two assignments of policies to a path, its parent and its child, with changed attributes.
  job.explore("reports-of-policies-and-attributes", [=](mc::Ctx &c) {
    Sim s;
    static const char *pol[] = {"none", "copy", "mirror", "track"};
    auto text = [&](int which) {
      string t;
      for (auto p : {"/s", "/s/d", "/s/d/c"}) {
        int k = c.choose(4, "policy");
        if (k) t += string("[") + pol[k] + "]\n" + p + "\n";
      }
      c.require(!t.empty() && (which == 0 || t != s.cfgText));
      return t;
    };
    FS &fs = s.w.fs;
    bool dir = c.choose(2, "c-is-directory"), more = c.choose(2, "another-file");
    if (dir) { fs.mkdir("/s/d/c", 0755, 70); fs.mkfile("/s/d/c/f", "content", 0600, 71); fs.setmtime("/s/d/c", 70); }
    else fs.mkfile("/s/d/c", "the content of a child", 0644, 72);
    if (more) fs.mkfile("/s/d/e", "e", 0644, 73);
    fs.setmtime("/s/d", 80);
    fs.setmtime("/s", 81);
    s.config(text(0));
    s.backup(c, O_REPORT | O_VIEW);
    s.config(text(1));
    for (auto p : {"/s/d", "/s/d/c", "/s"}) {
      int k = c.choose(p[2] ? (c.thorough || p[4] == 0 ? 5 : 3) : (c.thorough ? 3 : 1), "changed");
      vos::Inode &i = fs.w(fs.lookup(p));
      if (k == 1) i.uid = 7;
      if (k == 2) i.perm = 0750;
      if (k == 3) { i.perm = 0750; i.gid = 9; }
      if (k == 4) i.mtime += 5;
    }
    s.backup(c, O_REPORT | O_VIEW);
    c.nontrivial(s.canon(s.cfgText));
  });
  job.explore("reports-of-lost-histories", [=](mc::Ctx &c) {
    Sim s;
    int k = c.choose((int)sumCfgs.size());
    c.require(sumCfgs[k].text.find("[track]") != string::npos && k % 5 == 0);
    c.note(sumCfgs[k].name);
    s.config(sumCfgs[k].text);
    static const int states[] = {1, 5, 6, 8, 14, 2};
    for (int i = 0; i < 2; i++) {
      applyState(s.w.fs, states[c.choose(c.thorough ? 6 : 5)]);
      s.backup(c, O_REPORT | O_VIEW);
      c.prune(s.canon(std::to_string(k)), 2 - i);
    }
    k = c.choose((int)sumCfgs.size());
    if (!c.thorough) c.require(k % 5 == 0);
    c.note(sumCfgs[k].name);
    s.config(sumCfgs[k].text);
    applyState(s.w.fs, chooseState(c));
    s.backup(c, O_REPORT | O_VIEW);
  });
  job.explore("answers-to-backups", [=](mc::Ctx &c) {
    Scenario x = choose(c, c.thorough ? 0 : 1, false);
    Sim &s = x.s;
    const Answer &a = c.of(answers, "answer");
    bool tty = c.choose(2, "terminal");
    World w = s.w;
    w.now += 1000;
    spec::BackupResult m = spec::backup(s.tree, s.cfg, w.fs, w.now);
    c.require(m.ok);
    vos::RunCfg rc = cfgFor({s.r}, a.text);
    rc.tty = tty;
    auto ctxt = [&] { return "answer \"" + a.text.substr(0, 40) + "\"\n" + dump(s.w.fs, "/s"); };
    Result R = asked(c, w, rc, s.r, ctxt);
    bool q = R.out.find("(y/n)") != string::npos;
    c.check(q == m.changes, "question", ctxt() + show(R));
    c.nontrivial(vos::hash64(a.text + R.out + (tty ? "t" : "p")));
    c.validated();
    if (!m.changes) { c.check(R.ok(), "status", ctxt() + show(R)); return; }
    string d = wholeDiff(s.w.fs, w.fs, s.r);
    bool went = a.means == 1 || (a.means == 2 && R.ok());
    if (!went) {
      c.check(d.empty(), "changed-without-consent", d + ctxt() + show(R));
      c.check(!R.ok(), "success-without-consent", ctxt() + show(R));
      return;
    }
    c.check(R.ok(), "consent-not-accepted", ctxt() + show(R));
    repo::View v;
    string e = repo::load(w.fs, s.r, v);
    c.check(e.empty(), "damaged", e + ctxt());
    e = spec::compare(m.next, v);
    c.check(e.empty(), "not-done", e + ctxt() + show(R));
  });
  job.explore("reports-of-restores", [=](mc::Ctx &c) {
    RScene x = scene(c, true);
    World w = x.s.w;
    vos::RunCfg rc = cfgFor(x.args(), "n\n");
    auto ctxt = [&] { return x.v.str() + dump(x.s.w.fs, "/s"); };
    Result R = asked(c, w, rc, x.s.r, ctxt);
    bool q = R.out.find("(y/n)") != string::npos;
    string d = wholeDiff(x.s.w.fs, w.fs, x.s.r);
    c.check(d.empty(), "changed-without-consent", d + ctxt() + show(R));
    c.check(q == (x.want.ok && x.want.changes), "question", ctxt() + show(R));
    if (!q) { c.check(R.ok() == x.want.ok, "status", ctxt() + show(R)); return; }
    c.check(!R.ok(), "success-without-consent", ctxt() + show(R));
    c.check(!reportLines(R.out).empty(), "asked-without-report", ctxt() + show(R));
    d = linesDiff(x.want.lines, reportLines(R.out));
    c.check(d.empty(), "restore-report", d + ctxt() + show(R));
    c.nontrivial(vos::hash64(R.out));
    c.validated();
  });
  job.explore("answers-to-restores", [=](mc::Ctx &c) {
    RScene x = scene(c, false);
    if (!c.thorough) c.require(x.path != "/s/d/c" && x.id == 0);
    const Answer &a = c.of(answers, "answer");
    bool tty = c.thorough ? c.choose(2, "terminal") : 0;
    World w = x.s.w;
    vos::RunCfg rc = cfgFor(x.args(), a.text);
    rc.tty = tty;
    auto ctxt = [&] { return "answer \"" + a.text.substr(0, 40) + "\"\n" + x.v.str() + dump(x.s.w.fs, "/s"); };
    Result R = asked(c, w, rc, x.s.r, ctxt);
    if (!tty) { string d = linesDiff(x.want.lines, reportLines(R.out)); c.check(d.empty(), "restore-report", d + ctxt() + show(R)); }
    string d = wholeDiff(x.s.w.fs, w.fs, x.s.r);
    bool went = a.means == 1 || (a.means == 2 && R.ok());
    c.nontrivial(vos::hash64(a.text + R.out + (tty ? "t" : "p")));
    c.validated();
    if (!went) {
      c.check(d.empty(), "changed-without-consent", d + ctxt() + show(R));
      c.check(!R.ok(), "success-without-consent", ctxt() + show(R));
    } else {
      c.check(R.ok(), "consent-not-accepted", ctxt() + show(R));
      d = restoredDiff(x.want, w.fs, x.s.r);
      c.check(d.empty(), "restored-state", d + ctxt() + show(R));
    }
  });
}

// Something recorded is kept although it vanished, outside the track policy: it is listed again by every backup.
static bool keepsVanished(const spec::Tree &t, const FS &fs, const string &pre = "") {
  for (auto &x : t) {
    string p = pre + "/" + x.first;
    int n = fs.lookup(p);
    int l = fs.lookup(p, false);
    bool gone = l < 0 || (n < 0 && x.second.hist[0].st.kind != repo::K_LINK);
    if (l >= 0 && x.second.hist[0].st.kind != repo::K_NONE) {
      int k = x.second.hist[0].st.kind;
      vos::Type t2 = fs.r(l).type;
      bool same = k == repo::K_FILE ? t2 == vos::T_FILE || (n >= 0 && fs.r(n).type == vos::T_FILE) : k == repo::K_LINK ? t2 == vos::T_LINK : n >= 0 && fs.r(n).type == vos::T_DIR;
      if (!same) gone = true;
    }
    if (x.second.policy != repo::P_TRACK && gone && x.second.hist[0].st.kind != repo::K_NONE) return true;
    if (keepsVanished(x.second.subs, fs, p)) return true;
  }
  return false;
}
// Something is recorded below a path that is no directory anymore. (A changed configuration takes effect there one backup later.)
static bool belowReplaced(const spec::Tree &t, const FS &fs, const string &pre = "") {
  for (auto &x : t) {
    string p = pre + "/" + x.first;
    if (!x.second.subs.empty() && x.second.hist[0].st.kind != repo::K_DIR) return true;
    if (belowReplaced(x.second.subs, fs, p)) return true;
  }
  return false;
}
// A parent directory of a configured path exists, but nothing below it is to be recorded: the test suite specifies that every backup lists it as lost.
static bool idleParent(const Sim &s, const FS &fs) {
  auto have = spec::flatten(s.tree);
  size_t i = 0;
  while (i < s.cfgText.size()) {
    size_t j = s.cfgText.find('\n', i);
    string l = s.cfgText.substr(i, j - i);
    i = j == string::npos ? s.cfgText.size() : j + 1;
    if (l.empty() || l[0] != '/') continue;
    for (string p = spec::parentOf(l); p.size() > 1; p = spec::parentOf(p)) {
      int n = fs.lookup(p);
      if (n >= 0 && fs.r(n).type == vos::T_DIR && !have.count(p)) return true;
    }
  }
  return false;
}
static void quietAgain(mc::Ctx &c, const Sim &s, const string &tag, const std::function<void(World &)> &between = nullptr, bool sameConfig = true) {
  World w = s.w;
  w.now += 100000;
  if (between) between(w);
  const FS before = w.fs;
  bool kept = keepsVanished(s.tree, w.fs) || idleParent(s, w.fs) || (!sameConfig && belowReplaced(s.tree, w.fs));
  Result r = nb(w, {s.r});
  c.trans();
  c.eval();
  auto ctxt = [&] { return "config:\n" + s.cfgText + "files:\n" + dump(before, "/s") + "recorded:\n" + spec::viewStr(spec::flatten(s.tree)) + show(r); };
  c.check(r.ok(), "status" + tag, ctxt());
  if (!kept) {
    c.check(r.out.empty(), "not-quiet" + tag, ctxt());
    string d = wholeDiff(before, w.fs, s.r);
    c.check(d.empty(), "changed" + tag, d + ctxt());
  } else {
    repo::View v;
    string e = repo::load(w.fs, s.r, v);
    c.check(e.empty(), "damaged" + tag, e + ctxt());
    auto strip = [](map<string, repo::RNode> m) { for (auto &p : m) for (auto &h : p.second.hist) h.time = h.id = 0; return spec::viewStr(m); };
    // (what is kept while its parent is replaced can become subject to a new configuration one backup later)
    c.check(!sameConfig || strip(v.paths) == strip(spec::flatten(s.tree)), "recorded-again" + tag, strip(v.paths) + ctxt());
    string d = wholeDiff(before, w.fs, s.r);
    d = diff(before, w.fs, "/", vos::D_ALL, [&](const string &p) { return p == s.r; });
    c.check(d.empty(), "outside" + tag, d + ctxt());
  }
  c.validated();
}

MC_CHECK(C20, "model_checking") {
  job.rule("After every history of backups over the states of family.hpp under every configuration (and after gc, integrity, refused and restore commands, with another order of directory entries, another time, another seed), the backup is run again: nothing printed, nothing asked, "
           "exit 0, repository byte for byte the same. The same for every entry with boundary attributes, and after changes that were undone. Paths kept although they vanished (copy) are listed again by design: then what is recorded must stay the same. Non-trivial: a distinct repository.");
  job.explore("again", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    for (int i = 0; i < (c.thorough ? 4 : 3); i++) {
      applyState(s.w.fs, chooseState(c));
      s.backup(c, 0);
      c.prune(s.canon(std::to_string(k) + dump(s.w.fs, "/s")), 4 - i);
      if (!c.fresh()) continue;
      quietAgain(c, s, "");
      quietAgain(c, s, "-other-order", [](World &w) { w.readdirOrder = 1; w.sipClasses = 1; w.randSeed = 77; });
      quietAgain(c, s, "-after-commands", [&](World &w) { nb(w, {s.r, "integrity"}); nb(w, {s.r, "gc"}); nb(w, {s.r, "0", "/missing"}); nb(w, {s.r, "x"}); });
      quietAgain(c, s, "-foreign-items", [&](World &w) {
        FS &f = w.fs;
        f.mkfile(s.r + "/0/00/0000000000000000000000000000000000000x5x0", "unreferenced", 0640, 70, 3, 3);
        f.mkfile(s.r + "/f/ff/stray", "", 0600, 71);
        f.mkdir(s.r + "/f/fe", 0700, 72);
        f.mkdir(s.r + "/a-directory/of/somebody", 0751, 73);
        f.mkfile(s.r + "/notes", "notes of somebody", 0604, 74);
        f.mklink(s.r + "/link", "/s");
        f.mkfile(s.r + "/tmp-file", "left by an interrupted backup", 0600, 75);
      });
    }
  });
  job.explore("changing-configurations", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    for (int i = 0; i < 2; i++) {
      int k = c.choose((int)cfgs.size());
      c.note("config{" + cfgs[k].name + "}");
      s.config(cfgs[k].text);
      applyState(s.w.fs, chooseState(c));
      s.backup(c, 0);
      c.prune(s.canon(std::to_string(k) + dump(s.w.fs, "/s")), 2 - i);
      if (c.fresh()) quietAgain(c, s, "", nullptr, i == 0);
    }
  });
  job.explore("undone", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    int a = chooseState(c);
    applyState(s.w.fs, a);
    s.backup(c, 0);
    FS at = s.w.fs;
    int b = chooseState(c);
    applyState(s.w.fs, b);
    bool between = c.choose(2, "backup-between");
    spec::Tree first = s.tree;
    if (between) s.backup(c, 0);
    FS back;
    back.mkdir(s.r);
    back.setTreeFrom(at, "/s");
    back.setTreeFrom(s.w.fs, s.r);
    s.w.fs = back;
    if (!between) { quietAgain(c, s, "-undone"); return; }
    s.backup(c, 0);
    quietAgain(c, s, "-undone-twice");
    // what is mirrored is as if nothing had happened
    auto f = spec::flatten(first), g = spec::flatten(s.tree);
    bool onlyMirror = cfgs[k].text.find("copy") == string::npos && cfgs[k].text.find("track") == string::npos &&
                      cfgs[k].name.compare(0, 3, "d:-") != 0;   // (what is below an implicit parent that vanished is kept)
    if (onlyMirror) {
      for (auto *m : {&f, &g}) for (auto &p : *m) for (auto &h : p.second.hist) h.time = h.id = 0;
      c.check(spec::viewStr(f) == spec::viewStr(g), "not-as-before", spec::viewStr(f) + "\n" + spec::viewStr(g));
    }
    c.nontrivial(s.canon(std::to_string(k)));
  });
  job.explore("attributes", [=](mc::Ctx &c) {
    Sim s;
    static const char *pol[] = {"track", "copy", "mirror"};
    s.config(string("[") + pol[c.choose(3)] + "]\n/s/d\n");
    static const uint32_t perms[] = {0644, 04755, 0, 07777, 0111, 02755, 01777, 06700};
    static const uint32_t own[][2] = {{0, 0}, {7, 8}, {65534, 65534}, {4294967294u, 2147483648u}};
    static const int64_t mt[] = {1700000001, 8589934597, 0, 2147483648, -1, 253402300800};
    static const vector<string> data = {string(20, 'h'), string(21, 'i'), "", "a", string(4096, 'x') + string(5000, '\0') + "end", string(4097, '\n'), string(19, '\xff'), string(19, '\0')};
    static const vector<string> links = {"x", "/abs/olute", string(300, 'l'), "sp ace \xc3\xa4\n"};
    FS &fs = s.w.fs;
    int kind = c.pick("kind", {"file", "dir", "link"});
    int pm = kind == 2 ? 0 : c.choose(8, "perm"), o = c.choose(4, "own"), t = kind == 2 ? 0 : c.choose(6, "mtime");
    if (kind == 0) fs.mkfile("/s/d", c.of(data, "content"), perms[pm], mt[t], own[o][0], own[o][1]);
    if (kind == 1) { fs.mkdir("/s/d", perms[pm], mt[t], own[o][0], own[o][1]); fs.mkfile("/s/d/kid", "kid", 0644, 3000, own[o][0], own[o][1]); }
    if (kind == 2) fs.mklink("/s/d", c.of(links, "target"), own[o][0], own[o][1]);
    s.backup(c, 0);
    quietAgain(c, s, "");
    // a touched file with the same content: recorded once more, then quiet
    int n = fs.lookup("/s/d", false);
    if (kind != 2) { fs.w(n).mtime += 1; s.backup(c, 0); quietAgain(c, s, "-touched"); }
    c.nontrivial(s.canon());
  });
  job.explore("larger-trees", [=](mc::Ctx &c) {
    Scenario x = choose(c, 0, false);
    x.s.backup(c, 0);
    quietAgain(c, x.s, "");
    // undone changes of the next state
    x.s.w.blksize = 512 << c.choose(5);
    quietAgain(c, x.s, "-blocksize");
    c.nontrivial(x.s.canon());
  });
}

MC_CHECK(C21, "fault_enumeration") {
  job.rule("All histories of two backups under every configuration; repositories holding links to files and directories outside (in every place gc visits), damaged contents and foreign files, with every command (backup, gc, integrity, restore refused or without consent, invalid arguments); repositories lying inside "
           "what they back up; every scenario with every operation failing or the process being killed there. Everything outside the repository - contents, attributes, times, entries - must be the same afterwards; integrity checks and refused commands leave the repository the same too. Non-trivial: a distinct (repository, command) or end.");
  job.assume("Access times are not observed. The repository's own hash directories, temporary and lock file are not symbolic links put there to redirect writes.");
  job.explore("histories", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    for (int i = 0; i < 3; i++) {
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_OUTSIDE);
      c.prune(s.canon(std::to_string(k) + dump(s.w.fs, "/s")), 3 - i);
    }
  });
  auto judge = [](mc::Ctx &c, const World &before, World &w, const Result &r, const string &repo, bool repoToo, const std::function<string()> &ctxt) {
    c.eval();
    string d = diff(before.fs, w.fs, "/", vos::D_ALL | vos::D_NS, [&](const string &p) { return p == repo; });
    c.check(d.empty(), "changed-outside", d + ctxt() + show(r));
    if (repoToo) { d = diff(before.fs, w.fs, repo, vos::D_ALL & ~vos::D_DIRMTIME); c.check(d.empty(), "changed-repository", d + ctxt() + show(r)); }
  };
  job.explore("links-and-foreign-files", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s/d\n");
    FS &fs = s.w.fs;
    fs.mkfile("/out/file", "outside, a file", 0604, 500, 1, 2);
    fs.mkdir("/out/dir", 0705, 501, 3, 4);
    fs.mkfile("/out/dir/f", "f outside", 0600, 502);
    fs.mkdir("/out/dir/empty", 0700, 503);
    applyState(fs, 9);
    s.backup(c, 0);
    applyState(fs, c.choose(2) ? 9 : 14);
    repo::Meta m;
    string e;
    repo::decode(repo::metaBytes(fs, s.r), m, e);
    map<string, repo::State> bl;
    repo::blobs(m, bl);
    string blob = s.r + "/" + bl.begin()->first, d1 = blob.substr(0, blob.rfind('/')), d0 = d1.substr(0, d1.rfind('/'));
    static const vector<string> where = {"/r/link", "/r/a", "/r/a/bb", "/r/f/ff/junk", "D0/link", "D1/link", "D0/zz", "BLOB"};
    static const vector<string> to = {"/out/file", "/out/dir", "/out", "/", "..", "/s/d", "/missing", "link", "/out/dir/empty", "/r"};
    for (int i = 0; i < 2; i++) {
      int q = c.choose((int)where.size() + (i ? 1 : 0), "where");
      if (i && q == 0) break;
      string p = where[q - (i ? 1 : 0)];
      if (p.compare(0, 2, "D0") == 0) p = d0 + p.substr(2);
      if (p.compare(0, 2, "D1") == 0) p = d1 + p.substr(2);
      if (p == "BLOB") { p = blob; fs.rm(p); }
      c.require(fs.lookup(p, false) < 0);
      for (string q = spec::parentOf(p); q.size() > 1; q = spec::parentOf(q)) { int n = fs.lookup(q, false); c.require(n < 0 || fs.r(n).type == vos::T_DIR); }
      fs.mklink(p, c.of(to, "to"));
    }
    static const vector<vector<string>> cmd = {{"/r", "gc"}, {"/r", "integrity"}, {"/r"}, {"/r", "0", "/missing"}, {"/r", "nonsense"}};
    int k = c.choose(5, "command");
    World w = s.w;
    w.now += 900;
    Result r = vos::run(w, cfgFor(cmd[k]));
    c.trans();
    c.check(r.normal(), "crash", show(r));
    judge(c, s.w, w, r, s.r, k == 1 || k > 2, [&] { return dump(s.w.fs, s.r); });
    c.nontrivial(vos::hash64(dump(s.w.fs, s.r), k));
    c.state(vos::hash64(dump(w.fs, s.r), k));
  });
  job.explore("repository-inside", [=](mc::Ctx &c) {
    Sim s;
    s.w.fs.rm("/r");
    static const vector<string> places = {"/s/d/repo", "/s/r", "/r"};
    s.r = c.of(places, "repository");
    s.w.fs.mkdir("/s", 0755, 5000);
    applyState(s.w.fs, 9);
    FS keep = s.w.fs;
    static const vector<string> cfgs = {"[track]\n/s\n", "[mirror]\n/\n", "[copy]\n/s/d\n[track]\n/s/r\n", "[track]\n/\n[ignore]\n^/s/d/repo\n^/r/\n", "[mirror]\n/s\n[copy]\n/s/d/repo/metadata\n"};
    s.w.fs.mkdir(s.r, 0755, 4000);
    s.config(c.of(cfgs, "config"));
    World w = s.w;
    for (int i = 0; i < 3; i++) {
      w.now += 1000;
      static const vector<vector<string>> cmd = {{}, {"gc"}, {"integrity"}};
      int k = i == 0 ? 0 : c.choose(3, "command");
      if (c.choose(2, "change")) w.fs.mkfile("/s/d/c", "changed " + std::to_string(i) + " and long enough", 0644, 7000 + i);
      vector<string> a = {s.r};
      for (auto &x : cmd[k]) a.push_back(x);
      World b = w;
      string in = i == 1 && c.choose(2, "refuse") ? "n\n" : "y\n";
      Result r = vos::run(w, cfgFor(a, in));
      c.trans();
      c.check(r.normal(), "crash", show(r));
      string d = diff(b.fs, w.fs, "/", vos::D_ALL | vos::D_NS, [&](const string &p) { return p == s.r; });
      // the directory holding the repository is not touched either: only the repository itself is
      c.check(d.empty(), "changed-outside", d + show(r));
      if (k == 2 || in == "n\n") { d = diff(b.fs, w.fs, s.r, vos::D_ALL & ~vos::D_DIRMTIME); if (k == 2 || r.out.find("proceed") != string::npos) c.check(d.empty(), "changed-repository", d + show(r)); }
      c.nontrivial(vos::hash64(dump(w.fs, "/"), k));
    }
  });
  job.explore("failing-or-killed", [=](mc::Ctx &c) {
    Scenario x = choose(c, c.thorough ? 0 : 1);
    World start = x.s.w;
    start.now += 1000;
    if (c.choose(2, "integrity")) { c.require(start.fs.exists(x.s.r + "/metadata")); x.args = {x.s.r, "integrity"}; }
    start.fs.mklink(x.s.r + "/junk-link", "/s");
    vector<Event> ev;
    {
      World w = start;
      Plan p;
      p.hook = [&](const Event &e) { ev.push_back(e); return Act(); };
      vos::run(w, x.cfg(), &p);
    }
    for (size_t i = 0; i < ev.size(); i++)
      for (int m = 0; m < 5; m++) {
        if (ev[i].op == vos::S_TIME || ev[i].op == vos::S_LSEEK) continue;
        if ((m == 3 || m == 4) && ev[i].op != vos::S_WRITE) continue;
        World w = start;
        Plan p;
        p.hook = [&](const Event &e) {
          Act a;
          if ((size_t)e.idx == i) { a.k = m == 0 ? Act::Fail : m == 1 ? Act::KillBefore : m == 2 ? Act::Fail : m == 3 ? Act::KillMid : Act::FailMid; a.err = m == 0 ? EIO : m == 2 ? EACCES : ENOSPC; }
          return a;
        };
        Result r = vos::run(w, x.cfg(), &p);
        c.trans();
        World w2 = w;
        if (x.args.size() > 1 && x.args[1] == "integrity") { w2.fs.rm(x.s.r + "/lockfile"); }
        judge(c, start, w2, r, x.s.r, x.args.size() > 1 && x.args[1] == "integrity", [&] { return mc::fmt("%s #%zu %s way %d\n", vos::opName[ev[i].op], i, ev[i].path.c_str(), m); });
        c.state(vos::hash64(dump(w.fs, "/")));
        c.nontrivial(vos::hash64(r.err + r.str(), vos::hash64(ev[i].path)));
      }
  });
}
