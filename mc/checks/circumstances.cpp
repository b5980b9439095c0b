// C29: results do not depend on incidental circumstances.
#include "../faults.hpp"
#include <algorithm>
using namespace flt;

struct Circumstance {
  string name;
  std::function<void(World &, RunCfg &, Plan &, int)> set;   // called before the n-th command
  bool time = false;   // times of directories in which something was restored differ
};
static Act halfReads(const Event &e) { Act a; if (e.op == vos::S_READ && e.len > 1) a.k = Act::Short; return a; }
static const vector<Circumstance> &circumstances() {
  static const vector<Circumstance> v = {
      {"order-reversed", [](World &w, RunCfg &, Plan &, int) { w.readdirOrder = 1; }},
      {"order-hashed", [](World &w, RunCfg &, Plan &, int) { w.readdirOrder = 2; }},
      {"order-changing", [](World &w, RunCfg &, Plan &, int n) { w.readdirOrder = n % 3; }},
      {"blocks-of-512", [](World &w, RunCfg &, Plan &, int) { w.blksize = 512; }},
      {"blocks-of-1", [](World &w, RunCfg &, Plan &, int) { w.blksize = 1; }},
      {"blocks-of-1M", [](World &w, RunCfg &, Plan &, int) { w.blksize = 1 << 20; }},
      {"blocks-changing", [](World &w, RunCfg &, Plan &, int n) { w.blksize = n % 2 ? 7 : 64; }},
      {"another-seed", [](World &w, RunCfg &, Plan &, int n) { w.randSeed = 12345 + 77 * n; }},
      {"constant-seed", [](World &w, RunCfg &, Plan &, int) { w.constHashKey = true; }},
      {"all-paths-collide", [](World &w, RunCfg &, Plan &, int) { w.sipClasses = 1; }},
      {"other-memory", [](World &w, RunCfg &, Plan &, int) { w.fence = true; }},
      {"umask-0", [](World &, RunCfg &c, Plan &, int) { c.umask = 0; }},
      {"umask-077", [](World &, RunCfg &c, Plan &, int) { c.umask = 077; }},
      {"umask-changing", [](World &, RunCfg &c, Plan &, int n) { c.umask = n % 2 ? 0777 : 027; }},
      {"short-reads", [](World &, RunCfg &, Plan &p, int) { p.hook = halfReads; }},
      {"other-directory", [](World &, RunCfg &c, Plan &, int) { c.cwd = "/s"; }},
      {"relative-repository", [](World &, RunCfg &c, Plan &, int) { c.cwd = "/"; c.argv[0] = "r"; }},
      {"inside-the-repository", [](World &, RunCfg &c, Plan &, int n) { c.cwd = "/r"; c.argv[0] = n % 2 ? "../r" : "../r/"; }},
      {"repository-by-link", [](World &, RunCfg &c, Plan &, int) { c.argv[0] = "/out/link-to-r"; }},
      {"environment", [](World &, RunCfg &c, Plan &, int) { c.env = {{"LANG", "de_DE.UTF-8"}, {"LC_ALL", "tr_TR.UTF-8"}, {"TZ", "Asia/Kolkata"}, {"HOME", "/s"}, {"PWD", "/nowhere"}, {"TMPDIR", "/s/d"}, {"COLUMNS", "20"}, {"POSIXLY_CORRECT", "1"}, {"NO_COLOR", "1"}}; }},
      {"later", [](World &w, RunCfg &, Plan &, int n) { if (n == 0) w.now += 86400 * 365 * 20; }, true},
      {"at-the-same-second", [](World &w, RunCfg &, Plan &, int) { w.now = 1700000000; }, true},
      {"long-ago", [](World &w, RunCfg &, Plan &, int n) { w.now = 10 + n; }, true},
      {"clock-going-backwards", [](World &w, RunCfg &, Plan &, int n) { w.now = 1500000000 - 3600 * n; }, true},
      {"killed-once-before", [](World &w, RunCfg &, Plan &, int n) { if (n != 1) return; w.fs.mkfile("/r/lockfile", "", 0220); }},
  };
  return v;
}
// What commands do and say, without what depends on the time.
struct Story {
  vector<string> commands, said, left, untimed;
};
static string sorted(const string &t) {
  vector<string> l = spec::splitLines(t);
  std::sort(l.begin(), l.end());
  string r;
  for (auto &x : l) r += x + "\n";
  return r;
}
static string recorded(const FS &fs, const string &r) {
  repo::View v;
  string e = fs.lookup(r + "/metadata", false) < 0 ? "no metadata" : repo::load(fs, r, v);
  if (!e.empty()) return e;
  for (size_t i = 0; i < v.times.size(); i++) v.times[i] = 1000 - (int64_t)i;
  for (auto &p : v.paths) for (auto &h : p.second.hist) h.time = (int64_t)h.id;
  return v.str();
}
static Story story(mc::Ctx &c, const Sim &s0, const Circumstance *q, const vector<int> &states, bool damaged) {
  Sim s = s0;
  World &w = s.w;
  Story t;
  int n = 0;
  bool spoilt = false;
  auto cmd = [&](vector<string> more, const string &in = "y\n") {
    more.insert(more.begin(), "/r");
    RunCfg rc = cfgFor(more, in);
    Plan p;
    w.now += 1000;
    if (q) q->set(w, rc, p, n);
    Result R = vos::run(w, rc, p.hook ? &p : nullptr);
    n++;
    c.trans();
    string what;
    for (auto &x : more) what += " " + x;
    t.commands.push_back(what);
    string head = R.kind == vos::E_EXIT ? "exit " + std::to_string(R.code) : R.str();
    string sp = rc.argv[0];
    if (sp.back() == '/') sp.pop_back();
    for (size_t a = 0; sp != "/r" && (a = R.err.find("\"" + sp, a)) != string::npos; a += 3)   // as it was spelled
      if (a + 1 + sp.size() < R.err.size() && strchr("\"/", R.err[a + 1 + sp.size()])) R.err.replace(a, sp.size() + 1, "\"/r");
    for (size_t a; (a = R.err.find("\"/r/\"")) != string::npos;) R.err.erase(a + 3, 1);
    t.said.push_back(head + "\n" + sorted(R.out) + sorted(R.err));
    FS l = w.fs;
    l.rm("/r");
    l.rm("/out");
    string rec = spoilt ? "damaged" : recorded(w.fs, "/r");
    t.left.push_back(rec + dump(l, "/s"));
    t.untimed.push_back(rec + dump(l, "/s", vos::D_ALL & ~vos::D_DIRMTIME));
  };
  for (int k : states) { applyState(w.fs, k); cmd({}); }
  cmd({});
  cmd({"0", "/"});
  w.fs.mkfile("/r/ab/junk", "left over, and collected", 0644, 4);
  cmd({"gc"});
  if (damaged) {
    auto st = storedFiles(w.fs, "/r");
    spoilt = true;
    for (auto &f : st) w.fs.w(w.fs.lookup(f, false)).data[0] ^= 1;
  }
  cmd({"integrity"});
  if (damaged) return t;
  w.fs.rm("/s");
  w.fs.mkdir("/s", 0755, 5000);
  cmd({"1", "/s/d"}, "n\n");
  cmd({"1", "/"});
  cmd({"0", "/s/d"});
  cmd({"5", "/s/d/c"});
  return t;
}

MC_CHECK(C29, "model_checking") {
  job.rule("All histories of two (thorough three) backups over the states and configurations of family.hpp, followed by an idle backup, a restore over the present, gc, integrity (of sound and damaged contents) and restores over nothing, "
           "each carried out plainly and under every one of 25 circumstances (order of directories, block sizes, seeds, colliding path hashes, memory contents, umasks, short reads, "
           "working directories, spellings of the repository, environment, times, leftovers of a killed run). Exit status, lines of output, recorded history and resulting files must be the same. Non-trivial: a distinct history and circumstance.");
  job.assume("The order of output lines is not compared, since it may follow the order in which directories list their entries.");
  job.explore("stories", [=](mc::Ctx &c) {
    Sim s;
    static const vector<Cfg> cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    static const int few[] = {9, 1, 8, 3, 14, 0};
    vector<int> st{chooseState(c)};
    int b = c.choose(c.thorough ? nStates : 6);
    st.push_back(c.thorough ? b : few[b]);
    if (c.thorough) st.push_back(few[c.choose(3)]);
    for (size_t i = 1; i < st.size(); i++) c.note(stateNames[st[i]]);
    bool damaged = c.choose(2, "damaged");
    s.w.fs.mkdir("/out", 0755, 5);
    s.w.fs.mklink("/out/link-to-r", "../r");
    Story plain = story(c, s, nullptr, st, damaged);
    for (auto &q : circumstances()) {
      Story t = story(c, s, &q, st, damaged);
      c.eval();
      for (size_t i = 0; i < plain.said.size(); i++) {
        auto ctxt = [&] { return q.name + ": command " + std::to_string(i) + "," + plain.commands[i] + "\nplainly:\n" + plain.said[i] + plain.left[i] + "\nso:\n" + t.said[i] + t.left[i]; };
        c.check(plain.said[i] == t.said[i], "says-something-else", ctxt());
        c.check(q.time ? plain.untimed[i] == t.untimed[i] : plain.left[i] == t.left[i], "does-something-else", ctxt());
      }
      string all = q.name + plain.left.back() + s.cfgText + plain.said[0] + plain.said[1];
      c.nontrivial(vos::hash64(all));
    }
    c.validated();
  });
}
