// C28: what is shown on terminals.
#include "../scenes.hpp"
#include <algorithm>
#include <cmath>
using namespace flt;

// A terminal of unlimited size which understands colours, moving up and erasing lines.
struct Screen {
  vector<string> rows{""};
  size_t r = 0, col = 0;
  string bad;
  vector<string> lines;             // every line as it was when completed
  void feed(const string &s) {
    for (size_t i = 0; i < s.size(); i++) {
      char ch = s[i];
      if (ch == '\n') { lines.push_back(rows[r]); r++; col = 0; if (r == rows.size()) rows.push_back(""); continue; }
      if (ch == '\033') {
        size_t j = i + 1;
        if (j >= s.size() || s[j] != '[') { bad = "unknown sequence"; return; }
        string par;
        for (j++; j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';'); j++) par += s[j];
        if (j >= s.size()) { bad = "incomplete sequence"; return; }
        int n = par.empty() ? 1 : atoi(par.c_str());
        if (s[j] == 'm') { lastSgr = par; }
        else if (s[j] == 'F' || s[j] == 'A') { if (r < (size_t)n) { bad = "moves above the first line"; return; } r -= n; if (s[j] == 'F') col = 0; }
        else if (s[j] == 'E' || s[j] == 'B') { r += n; if (s[j] == 'E') col = 0; while (r >= rows.size()) rows.push_back(""); }
        else if (s[j] == 'G') col = n - 1;
        else if (s[j] == 'K') { if (par == "2") rows[r] = ""; else if (par.empty() || par == "0") rows[r].resize(std::min(rows[r].size(), col)); else { bad = "unknown erasure"; return; } }
        else { bad = "unknown sequence"; return; }
        i = j;
        continue;
      }
      if (ch == '\r') { col = 0; continue; }
      if (rows[r].size() < col + 1) rows[r].resize(col + 1, ' ');
      rows[r][col++] = ch;
    }
  }
  string lastSgr;
  string text() const {
    string t;
    for (auto &x : rows) t += x + "\n";
    while (t.size() > 1 && t[t.size() - 1] == '\n' && t[t.size() - 2] == '\n') t.pop_back();
    return t;
  }
};
struct Frame { string what; bool start = false; int permille = 0; double amount = 0, ulp = 1; };
static bool frameOf(const string &l, Frame &f) {
  size_t p = l.find("... ");
  if (p == string::npos) return false;
  f.what = l.substr(0, p);
  if (f.what != "Checking integrity" && f.what != "Discarding unreferenced data") return false;
  string rest = l.substr(p + 4);
  if (rest.find_first_not_of(' ') == string::npos) { f.start = true; return true; }
  int a = 0, b = 0;
  double v = 0;
  char unit[8] = "", act[32] = "";
  if (sscanf(rest.c_str(), "%d.%d%% (%lf %7s %31[a-z])", &a, &b, &v, unit, act) != 5) return false;
  f.permille = a * 10 + b;
  double m = 1;
  for (char u : string("KMGT")) { m *= 1024; if (unit[0] == u) { v *= m; f.ulp = m / 10; } }
  f.amount = v;
  return true;
}
// The user's answers appear on a terminal where they are typed.
static string echoed(string s, bool tty) {
  if (!tty) return s;
  for (size_t p = 0; (p = s.find("(y/n) ", p)) != string::npos; p += 7) s.insert(p + 6, "\n");
  return s;
}
static vector<vector<int64_t>> clocks = {{0}, {51}, {1000}, {0, 51}, {51, 0, 0}, {100, -100}, {-60}, {50}, {3600000, -7200000}};

static void compare(mc::Ctx &c, const World &w, RunCfg cfg, bool progress, int64_t total = -1) {
  int mask = 1 + c.choose(7, "terminals");
  int ck = progress && (mask & 2) ? c.choose((int)clocks.size(), "clock") : 0;
  cfg.clockMs = clocks[ck];
  RunCfg plain = cfg;
  plain.ttys = 0;
  cfg.ttys = mask;
  World a = w, b = w;
  Result A = vos::run(a, plain), B = vos::run(b, cfg);
  c.trans(2);
  c.eval();
  auto ctxt = [&] { return "without terminals: " + show(A) + "with: " + show(B) + dump(w.fs, "/"); };
  c.check(A.kind == vos::E_EXIT && B.kind == vos::E_EXIT, "crash", ctxt());
  c.check(A.code == B.code, "status-differs", ctxt());
  string d = diff(a.fs, b.fs, "/", vos::D_ALL | vos::D_NS);
  c.check(d.empty(), "effect-differs", d + ctxt());
  c.check(A.out.find('\033') == string::npos && A.err.find('\033') == string::npos, "control-sequences", "without any terminal\n" + ctxt());
  if (!(mask & 2)) c.check(B.out.find('\033') == string::npos, "control-sequences", "standard output is no terminal\n" + ctxt());
  if (!(mask & 4)) c.check(B.err.find('\033') == string::npos, "control-sequences", "standard error is no terminal\n" + ctxt());
  Screen so, se, po;
  so.feed(echoed(B.out, mask & 1));
  se.feed(B.err);
  po.feed(A.out);
  c.check(so.bad.empty() && se.bad.empty(), "bad-sequence", so.bad + se.bad + "\n" + ctxt());
  string want = po.text();
  c.check(so.text() == want, "shows-something-else", "on the screen:\n" + so.text() + "expected:\n" + want + ctxt());
  Screen pe;
  pe.feed(A.err);
  c.check(se.text() == pe.text(), "shows-something-else", "messages on the screen:\n" + se.text() + ctxt());
  c.check((so.lastSgr.empty() || so.lastSgr == "0") && (se.lastSgr.empty() || se.lastSgr == "0"), "colour-left", ctxt());
  // progress
  auto frames = [&](const Screen &s) { vector<Frame> r; for (auto &l : s.lines) { Frame f; if (frameOf(l, f)) r.push_back(f); } return r; };
  vector<Frame> pf = frames(po), f = frames(so);
  c.check(pf.size() <= 1, "progress-without-terminal", ctxt());
  if (pf.size() == 1) {
    c.check(pf[0].permille == 1000, "not-finished", ctxt());
    c.check(!f.empty() && f.back().permille == 1000 && f.back().amount == pf[0].amount, "not-finished", ctxt());
    if (total >= 0) c.check(A.out.find("(" + spec::humanSize((uint64_t)total) + " processed)") != string::npos, "wrong-amount", "recorded contents: " + std::to_string(total) + " bytes\n" + ctxt());
  }
  for (size_t i = 0; i < f.size(); i++) {
    c.check((f[i].permille == 1000) == (i + 1 == f.size()), "finished-too-early", ctxt());
    if (i) c.check(f[i].permille >= f[i - 1].permille && f[i].amount + f[i].ulp >= f[i - 1].amount, "progress-backwards", ctxt());
    if (total > 0 && !f[i].start) c.check(std::fabs(f[i].permille / 1000.0 * (double)total - f[i].amount) <= (double)total / 500 + f[i].ulp, "wrong-percentage", "recorded contents: " + std::to_string(total) + " bytes\n" + ctxt());
  }
  if (f.size() > 3) c.check(!f[f.size() - 2].start, "progress-stands-still", ctxt());
  c.nontrivial(vos::hash64(B.out + "|" + B.err, mask));
  if (f.size() > 2) c.state(vos::hash64(B.out, mask));
  c.validated();
}

MC_CHECK(C28, "model_checking") {
  job.rule("Every command in families of scenes (backups of pairs of states under all configurations, configurations with warnings and errors, restores, garbage collections of repositories with stray items, "
           "integrity checks with damaged contents, refused argument lists), once with all streams redirected and once for every other choice of standard streams being terminals; for commands with a progress display also under 9 behaviours of the clock. "
           "What the control sequences leave on the screen of a modelled terminal must equal the redirected output. Non-trivial: a distinct output on terminals.");
  job.assume("The terminal is high and wide enough, shows the typed answers, and knows colours, moving up and erasing a line (ECMA-48).");
  job.explore("backups", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size(), "config");
    s.config(cfgs[k].text + (c.choose(2, "summarize") ? "[summarize]\nd$\n" : ""));
    int a = c.choose(c.thorough ? nStates : 8), b = c.choose(c.thorough ? nStates : 8);
    static const int sub[] = {0, 1, 3, 5, 8, 9, 13, 14};
    applyState(s.w.fs, c.thorough ? a : sub[a]);
    s.backup(c, 0);
    applyState(s.w.fs, c.thorough ? b : sub[b]);
    compare(c, s.w, cfgFor({"/r"}, c.choose(2, "answer") ? "n\n" : "y\n"), true);
  });
  job.explore("warnings", [=](mc::Ctx &c) {
    static const vector<string> lines = {"[copy]\n", "[mirror]\n", "[track]\n", "[ignore]\n", "[summarize]\n", "/s/d\n", "/s//^x\n", "/s/gone\n", "/s/d/c/below\n", "/s//.*/below\n", "never$\n", "d$\n", "# [x]\n", "[x]\n", "(\n", "relative\n"};
    int n = c.thorough ? 4 : 3;
    string text;
    for (int i = 0; i < n; i++) { int q = c.choose((int)lines.size() + 1, "line"); if (!q) break; text += lines[q - 1]; }
    Sim s;
    s.config(text);
    applyState(s.w.fs, c.choose(2) ? 9 : 1);
    compare(c, s.w, cfgFor({"/r"}, "y\n"), false);
  });
  job.explore("restores", [=](mc::Ctx &c) {
    RScene x = scene(c, c.thorough);
    compare(c, x.s.w, cfgFor(x.args(), c.choose(2, "answer") ? "no\n" : "maybe\nyes\n"), false);
  });
  job.explore("garbage", [=](mc::Ctx &c) {
    Sim s;
    s.config("[track]\n/s/d\n");
    FS &fs = s.w.fs;
    int files = c.choose(4, "files"), inside = c.choose(6, "stray"), size = c.choose(4, "size");
    fs.mkdir("/s/d", 0755, 4000);
    for (int i = 0; i < files; i++) fs.mkfile("/s/d/f" + std::to_string(i), "a stored content, number " + std::to_string(i), 0644, 100 + i);
    s.backup(c, 0);
    static const size_t sz[] = {0, 999, 1000, 70000};
    auto bl = fs.r(fs.lookup("/r")).ents;
    vector<string> dirs;
    for (auto &e : bl) if (e.first.size() == 2) dirs.push_back("/r/" + e.first);
    if (inside & 1) fs.mkfile("/r/0000", string(sz[size], 'x'));
    if (inside & 2) { for (auto &d : dirs) fs.mkfile(d + "/stray", string(sz[size] + 1, 'y')); fs.mkdir("/r/zzz"); fs.mkfile("/r/zzz/file", "z"); }
    if (inside == 4) for (int i = 0; i < 12; i++) fs.mkfile("/r/x" + std::to_string(i), string(sz[size] / 3, 'x'));
    if (inside == 5) { fs.mklink("/r/l", "/s"); fs.mkfile("/r/lockfile", ""); }
    s.w.readdirOrder = c.choose(3, "order");
    if (c.choose(2, "in-a-backup")) { fs.mkfile("/s/d/new", "new, and long enough to be stored", 0644, 7); compare(c, s.w, cfgFor({"/r"}, "y\n"), true); }
    else compare(c, s.w, cfgFor({"/r", "gc"}), true);
  });
  job.explore("integrity", [=](mc::Ctx &c) {
    Sim s;
    s.w.blksize = c.choose(2, "blksize") ? 512 : 4096;
    s.config("[track]\n/s/d\n");
    FS &fs = s.w.fs;
    static const size_t sz[] = {0, 20, 21, 700, 5000};
    int n = c.thorough ? 4 : 3;
    vector<int> chosen;
    fs.mkdir("/s/d", 0755, 4000);
    for (int i = 0; i < n; i++) {
      chosen.push_back(c.thorough ? c.choose(5, "size") : 1 + c.choose(4, "size"));
      bool dup = i && c.choose(2, "same-content");
      fs.mkfile("/s/d/f" + std::to_string(i), dup ? fs.content("/s/d/f0") : string(sz[chosen[i]], (char)('a' + i)), 0644, 100 + i);
    }
    s.backup(c, 0);
    repo::Meta m;
    string e;
    map<string, repo::State> bl;
    c.require(repo::decode(repo::metaBytes(fs, s.r), m, e));
    repo::blobs(m, bl);
    int64_t total = 0;
    for (auto &b : bl) {
      total += (int64_t)b.second.size;
      string p = s.r + "/" + b.first;
      int d = c.pick("damage", {"none", "gone", "longer", "changed"});
      if (d == 1) fs.rm(p);
      if (d == 2) fs.w(fs.lookup(p)).data += string(3000, 'x');
      if (d == 3) fs.w(fs.lookup(p)).data[1] ^= 4;
    }
    compare(c, s.w, cfgFor({"/r", "integrity"}), true, total);
  });
  job.explore("usage", [=](mc::Ctx &c) {
    Sim s;
    s.config("[copy]\n/s/d\n");
    applyState(s.w.fs, 9);
    if (c.choose(2)) s.backup(c, 0);
    static const vector<vector<string>> args = {{}, {"/none"}, {"/r/config"}, {"/s"}, {"/r", "x"}, {"/r", "gc", "x"}, {"/r", "integrity", "x"}, {"/r", "0"}, {"/r", "7"}, {"/r", "0", "/none"}, {"/r", "0", "/", "/"}, {"/r", "0", ""}, {"/r", "99999999999999999999"}, {"/r", ""}};
    compare(c, s.w, cfgFor(args[c.choose((int)args.size(), "arguments")], "y\n"), false);
  });
}
