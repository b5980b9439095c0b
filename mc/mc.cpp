#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
using std::string;

string fmt(const char *f, ...) {
  va_list a;
  va_start(a, f);
  char b[8192];
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

static const int MAXC = 96;            // choices per execution
static const int NW_MAX = 64;
struct Item { uint16_t n; uint16_t c[MAXC]; };

struct Violation { char key[200]; char msg[6000]; uint16_t n; uint16_t c[MAXC]; };
static const size_t STACKN = 1u << 16;
struct Shared {
  std::atomic<int> lock;
  size_t sn;
  Item st[STACKN];
  std::atomic<int> busy;
  std::atomic<int> stop;               // 1: unknown violation, 2: time
  std::atomic<uint64_t> execs, states, trans, evals, nontriv, valid, pruned, skipped, caps;
  std::atomic<int> nviol, nsample;
  Violation viol[32];
  char capWhat[128];
  char sample[12][3000];
  Item cur[NW_MAX];
  std::atomic<int> curBusy[NW_MAX];
};
static Shared *S;
static std::atomic<uint64_t> *setA, *setB, *setC;  // states, nontrivial, prune
static size_t setN = 1u << 22;

struct PartStat { string name; uint64_t execs, states, trans, evals, nontriv, valid, pruned; bool complete; double secs; };
static std::vector<PartStat> parts;
static std::vector<string> samples, assumptions, rules;
static std::map<string, string> infos;
static std::vector<Violation> violations;
static std::vector<string> capsHit;
static std::vector<std::pair<string, string>> vparts;
static std::map<string, int> knownSeen;
static std::set<string> knownKeys;     // for this property
static double budget = 700;
static std::chrono::steady_clock::time_point t0;
static int nworkers = 8;
static string onlyPart;
static bool stopAll = false;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

static bool setInsert(std::atomic<uint64_t> *t, uint64_t h) {
  if (!h) h = 1;
  size_t m = setN - 1;
  for (size_t i = h & m, k = 0; k < setN; i = (i + 1) & m, k++) {
    uint64_t v = t[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      if (t[i].compare_exchange_strong(v, h)) return true;
      if (v == h) return false;
    }
  }
  return true;
}
// Prune map: upper 58 bits fingerprint, lower 6 bits depth.
static bool setPrune(uint64_t h, int rem) {
  uint64_t key = (h | 64) & ~63ull;
  size_t m = setN - 1;
  for (size_t i = (h >> 6) & m, k = 0; k < setN; i = (i + 1) & m, k++) {
    uint64_t v = setC[i].load(std::memory_order_relaxed);
    if (v == 0) {
      if (setC[i].compare_exchange_strong(v, key | rem)) return false;
    }
    if ((v & ~63ull) == key) {
      for (;;) {
        if ((int)(v & 63) >= rem) return true;
        if (setC[i].compare_exchange_strong(v, key | rem)) return false;
      }
    }
  }
  return false;
}

// ------------------------------------------------------------------ Ctx
static bool reproducing = false;
int Ctx::choose(int n, const char *what) {
  if (n <= 0) { fprintf(stderr, "choose(%d) %s\n", n, what ? what : ""); abort(); }
  if (n == 1) return 0;
  if (n > 65535 || pos >= (size_t)MAXC) { fprintf(stderr, "too many choices (%s)\n", what ? what : ""); abort(); }
  int v;
  if (pos < pre.size()) {
    v = pre[pos];
    if (v >= n) { fprintf(stderr, "nondeterministic body: choice %zu is %d of %d (%s)\n", pos, v, n, what ? what : ""); abort(); }
  } else {
    v = 0;
    alts.push_back({pos, (uint16_t)n});
  }
  pos++;
  taken.push_back(v);
  if (what) note(fmt("%s=%d", what, v));
  return v;
}
int Ctx::pick(const char *what, std::initializer_list<const char *> names) {
  int v = choose((int)names.size());
  note(fmt("%s=%s", what, names.begin()[v]));
  return v;
}
void Ctx::note(const string &s) {
  if (notes.size() > 2500) return;
  if (!notes.empty()) notes += ' ';
  notes += s;
  if (verbose) printf("  . %s\n", s.c_str());
}
void Ctx::log(const string &s) {
  if (verbose) printf("%s\n", s.c_str());
}
void Ctx::skip() { S->skipped++; throw Stop(); }
bool Ctx::seen(uint64_t h, int rem) {
  if (verbose || reproducing || !fresh()) return false;
  if (setPrune(h, rem)) { S->pruned++; return true; }
  return false;
}
void Ctx::prune(uint64_t h, int rem) { if (seen(h, rem)) throw Stop(); }
void Ctx::state(uint64_t h) { if (setInsert(setA, h)) S->states++; }
void Ctx::trans(uint64_t n) { if (fresh()) S->trans += n; }
void Ctx::eval(uint64_t n) { S->evals += n; }
void Ctx::validated(uint64_t n) { S->valid += n; }
void Ctx::nontrivial(uint64_t h) { if (setInsert(setB, h)) S->nontriv++; }
void Ctx::cap(const char *what) {
  if (S->caps++ == 0) snprintf(S->capWhat, sizeof S->capWhat, "%s", what);
}
void Ctx::fail(const string &key, const string &msg) {
  string k = key.substr(0, sizeof(Violation::key) - 1);
  for (auto &c : k) if (c == '\n' || c == ' ') c = '_';
  if (verbose) printf("\nviolated: %s\n%s\n", k.c_str(), msg.c_str());
  while (S->lock.exchange(1)) usleep(10);
  bool dup = false;
  for (int i = 0; i < S->nviol; i++) dup |= k == S->viol[i].key;
  if (!dup && S->nviol < 32) {
    Violation &v = S->viol[S->nviol];
    snprintf(v.key, sizeof v.key, "%s", k.c_str());
    snprintf(v.msg, sizeof v.msg, "case: %s\n%s\n", notes.c_str(), msg.c_str());
    v.n = taken.size();
    for (size_t i = 0; i < taken.size(); i++) v.c[i] = taken[i];
    S->nviol++;
  }
  S->lock = 0;
  if (!knownKeys.count(k)) S->stop = 1;
  throw Stop();
}

// ------------------------------------------------------------------ exploration
static bool popShared(Item &it) {
  bool ok = false;
  while (S->lock.exchange(1)) usleep(5);
  if (S->sn) { it = S->st[--S->sn]; ok = true; S->busy++; }
  S->lock = 0;
  return ok;
}
static void execOne(int w, const Body &body, const Item &it, bool thorough, bool verbose, std::vector<Item> *out) {
  Ctx c;
  c.thorough = thorough;
  c.verbose = verbose;
  c.pre.assign(it.c, it.c + it.n);
  c.base = it.n;
  S->cur[w] = it;
  S->curBusy[w] = 1;
  try { body(c); } catch (Stop &) {}
  S->curBusy[w] = 0;
  uint64_t n = ++S->execs;
  if (c.pos < it.n) { fprintf(stderr, "nondeterministic body: %zu of %u choices used\n", c.pos, it.n); abort(); }
  bool pow10 = n == 3;
  for (uint64_t q = 10; q <= n; q *= 10) pow10 |= q == n;
  if (pow10 && !verbose) {
    int k = S->nsample++;
    if (k < 12) snprintf(S->sample[k], sizeof S->sample[k], "%s", c.notes.c_str());
  }
  if (out)
    for (auto &a : c.alts)
      for (int v = a.second - 1; v >= 1; v--) {
        Item ni;
        ni.n = a.first + 1;
        for (size_t i = 0; i < a.first; i++) ni.c[i] = c.taken[i];
        ni.c[a.first] = v;
        out->push_back(ni);
      }
}
static void worker(int w, const Body &body, bool thorough) {
  std::vector<Item> loc;
  for (;;) {
    if (S->stop) _exit(0);
    Item it;
    bool fromShared = false;
    if (!loc.empty()) { it = loc.back(); loc.pop_back(); }
    else if (popShared(it)) fromShared = true;
    else {
      if (S->busy == 0 && S->sn == 0) _exit(0);
      usleep(200);
      continue;
    }
    (void)fromShared;
    execOne(w, body, it, thorough, false, &loc);
    if (S->sn < 64 && loc.size() > 1) {
      while (S->lock.exchange(1)) usleep(5);
      size_t give = std::min<size_t>(loc.size() / 2, 64);
      // the shallowest alternatives are the largest subtrees
      std::stable_sort(loc.begin(), loc.end(), [](const Item &a, const Item &b) { return a.n > b.n; });
      std::reverse(loc.begin(), loc.end());
      for (size_t i = 0; i < give && S->sn < STACKN; i++) { S->st[S->sn++] = loc[i]; }
      loc.erase(loc.begin(), loc.begin() + give);
      S->lock = 0;
    }
    if (loc.empty()) S->busy--;
    if ((S->execs & 63) == 0 && now() > budget) S->stop = 2;
  }
}
static string itemStr(uint16_t n, const uint16_t *c) {
  string s;
  for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(c[i]);
  return s;
}

void Job::explore(const string &part, const Body &body) {
  if (stopAll) return;
  if (replay) {
    if (part != replayPart) return;
    Item it;
    it.n = replayChoices.size();
    for (size_t i = 0; i < replayChoices.size(); i++) it.c[i] = replayChoices[i];
    execOne(0, body, it, thorough, true, nullptr);
    if (S->nviol) { printf("\nreproduced: %s\n%s", S->viol[0].key, S->viol[0].msg); stopAll = true; }
    else printf("\nno violation\n");
    return;
  }
  if (!onlyPart.empty() && part.find(onlyPart) == string::npos) return;
  double start = now();
  S->sn = 1;
  S->st[0].n = 0;
  S->busy = 0;
  S->stop = 0;
  S->execs = S->states = S->trans = S->evals = S->nontriv = S->valid = S->pruned = S->skipped = S->caps = 0;
  S->nviol = 0;
  S->nsample = 0;
  for (auto t : {setA, setB, setC}) madvise((void *)t, setN * 8, MADV_REMOVE);
  bool complete = true;
  if (now() > budget) complete = false;
  else {
    fflush(stdout);
    fflush(stderr);
    std::map<pid_t, int> kids;
    for (int w = 0; w < nworkers; w++) {
      S->curBusy[w] = 0;
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        worker(w, body, thorough);
        _exit(0);
      }
      if (p < 0) { perror("fork"); exit(2); }
      kids[p] = w;
    }
    while (!kids.empty()) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      if (!kids.count(p)) continue;
      int w = kids[p];
      kids.erase(p);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      // The worker died. If its case kills a fresh child as well, the program destroyed its surroundings.
      int dead = 0;
      for (int k = 0; k < 2; k++) {
        pid_t q = fork();
        if (q == 0) { execOne(w, body, S->cur[w], thorough, false, nullptr); _exit(0); }
        int s2;
        waitpid(q, &s2, 0);
        if (!(WIFEXITED(s2) && WEXITSTATUS(s2) == 0)) dead++;
      }
      for (auto &k : kids) kill(k.first, SIGKILL);
      while (!kids.empty()) { pid_t q = waitpid(-1, &st, 0); if (q < 0) break; kids.erase(q); }
      S->lock = 0;
      if (dead == 2 && WIFSIGNALED(st)) {
        Violation &v = S->viol[S->nviol < 31 ? S->nviol++ : 31];
        snprintf(v.key, sizeof v.key, "process-destroyed");
        snprintf(v.msg, sizeof v.msg, "the program corrupted memory so badly that the explorer died\n");
        v.n = S->cur[w].n;
        memcpy(v.c, S->cur[w].c, sizeof v.c);
        S->stop = 1;
      } else {
        fprintf(stderr, "harness error: a worker died (status %x) in part %s, choices %s\n", st, part.c_str(),
                itemStr(S->cur[w].n, S->cur[w].c).c_str());
        exit(2);
      }
    }
    if (S->stop == 2) complete = false;
  }
  PartStat ps{part, S->execs, S->states, S->trans, S->evals, S->nontriv, S->valid, S->pruned, complete, now() - start};
  // Every violation must show again when its case alone is executed by a fresh process.
  std::vector<Violation> found(S->viol, S->viol + S->nviol);
  for (auto &v : found) {
    Item it;
    it.n = v.n;
    memcpy(it.c, v.c, sizeof it.c);
    fflush(stdout);
    fflush(stderr);
    S->nviol = 0;
    pid_t q = fork();
    if (q == 0) { reproducing = true; execOne(0, body, it, thorough, false, nullptr); _exit(0); }
    int st = 0;
    waitpid(q, &st, 0);
    bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    S->lock = 0;
    if (died ? strcmp(v.key, "process-destroyed") : S->nviol != 1 || strcmp(S->viol[0].key, v.key)) {
      fprintf(stderr, "harness error: violation %s of part %s (choices %s) does not show again in a fresh process\n%s\n", v.key,
              part.c_str(), itemStr(v.n, v.c).c_str(), v.msg);
      exit(2);
    }
    violations.push_back(v);
    vparts.push_back({part, v.key});
    if (!knownKeys.count(v.key)) stopAll = true;
  }
  if (S->caps) { capsHit.push_back(part + ": " + S->capWhat + fmt(" (%llu times)", (unsigned long long)S->caps)); }
  parts.push_back(ps);
  int ns = std::min<int>(S->nsample, 12);
  // Keep the first, the last, and one in the middle of each part.
  std::set<int> keep;
  if (ns) keep = {0, ns / 2, ns - 1};
  for (int i : keep) samples.push_back(part + ": " + S->sample[i]);
  fprintf(stderr, "[%s] %-28s %8llu executions %8llu states %9llu transitions %7llu nontrivial %7llu pruned %7llu skipped %6.1fs%s\n",
          prop.c_str(), part.c_str(), (unsigned long long)ps.execs, (unsigned long long)ps.states,
          (unsigned long long)ps.trans, (unsigned long long)ps.nontriv, (unsigned long long)ps.pruned,
          (unsigned long long)S->skipped.load(), ps.secs, complete ? "" : " (time limit)");
}
void Job::assume(const string &s) { assumptions.push_back(s); }
void Job::rule(const string &s) { rules.push_back(s); }
void Job::info(const string &k, const string &v) { infos[k] = v; }

// ------------------------------------------------------------------ driver
static std::map<string, Check> &checks() { static std::map<string, Check> m; return m; }
void reg(const Check &c) { checks()[c.id] = c; }

static string js(const string &s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
template <class T> static string jl(const std::vector<T> &v) {
  string o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ",\n      " : "") + js(v[i]);
  return o + "]";
}

int mainEntry(int argc, char **argv) {
  string id, root = ".", replay;
  Job job;
  const char *e;
  if ((e = getenv("VERIF_TIER"))) job.thorough = string(e) == "thorough";
  if ((e = getenv("VERIF_SEED"))) job.seed = atoi(e);
  if ((e = getenv("MC_WORKERS"))) nworkers = std::min(atoi(e), NW_MAX);
  else nworkers = std::max(1, std::min<int>(NW_MAX, (int)sysconf(_SC_NPROCESSORS_ONLN)));
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--root") root = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--tier") job.thorough = string(argv[++i]) == "thorough";
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--part") onlyPart = argv[++i];
    else if (a == "--list") { for (auto &c : checks()) printf("%s\n", c.first.c_str()); return 0; }
    else id = a;
  }
  if (!checks().count(id)) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
  const Check &chk = checks()[id];
  job.prop = id;
  t0 = std::chrono::steady_clock::now();
  if (job.thorough) setN = 1u << 25;
  auto sh = [](size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  };
  S = (Shared *)sh(sizeof(Shared));
  setA = (std::atomic<uint64_t> *)sh(setN * 8);
  setB = (std::atomic<uint64_t> *)sh(setN * 8);
  setC = (std::atomic<uint64_t> *)sh(setN * 8);

  std::vector<std::pair<string, string>> known;  // key, text
  {
    std::ifstream f(root + "/known-findings.txt");
    string line;
    while (std::getline(f, line)) {
      // known: property=<id> key=<key> <text>
      std::istringstream is(line);
      string k, p, q;
      is >> k >> p >> q;
      if (k != "known:" || p != "property=" + id || q.compare(0, 4, "key=") != 0) continue;
      string rest;
      std::getline(is, rest);
      known.push_back({q.substr(4), rest});
      knownKeys.insert(q.substr(4));
    }
  }
  if (!replay.empty()) {
    std::ifstream f(replay);
    string line, choices;
    while (std::getline(f, line)) {
      if (line.compare(0, 5, "part=") == 0) job.replayPart = line.substr(5);
      if (line.compare(0, 8, "choices=") == 0) choices = line.substr(8);
      if (line == "tier=thorough") job.thorough = true;
    }
    std::istringstream is(choices);
    string t;
    while (std::getline(is, t, ',')) job.replayChoices.push_back(atoi(t.c_str()));
    job.replay = true;
    chk.fn(job);
    return stopAll ? 1 : 0;
  }
  chk.fn(job);

  // evidence
  PartStat tot{"", 0, 0, 0, 0, 0, 0, 0, true, 0};
  string pj = "[";
  for (auto &p : parts) {
    tot.execs += p.execs; tot.states += p.states; tot.trans += p.trans; tot.evals += p.evals;
    tot.nontriv += p.nontriv; tot.valid += p.valid; tot.pruned += p.pruned;
    tot.complete &= p.complete;
    if (pj.size() > 1) pj += ",";
    pj += fmt("\n      {\"part\": %s, \"executions\": %llu, \"states\": %llu, \"transitions\": %llu, \"oracle_evaluations\": %llu, "
              "\"distinct_nontrivial\": %llu, \"model_predictions_compared\": %llu, \"pruned_revisits\": %llu, \"complete\": %s, \"seconds\": %.2f}",
              js(p.name).c_str(), (unsigned long long)p.execs, (unsigned long long)p.states, (unsigned long long)p.trans,
              (unsigned long long)p.evals, (unsigned long long)p.nontriv, (unsigned long long)p.valid,
              (unsigned long long)p.pruned, p.complete ? "true" : "false", p.secs);
  }
  pj += "]";
  int unknown = 0;
  for (auto &v : violations) if (!knownKeys.count(v.key)) unknown++;
  std::vector<string> sm(samples);
  if (sm.size() > 24) sm.resize(24);
  string lvl = chk.level, cov;
  string rule;
  for (auto &r : rules) rule += (rule.empty() ? "" : " ") + r;
  cov += fmt("    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n", (unsigned long long)tot.execs, (unsigned long long)tot.nontriv);
  if (lvl == "model_checking")
    cov += fmt("    \"states\": %llu,\n    \"transitions\": %llu,\n    \"traces_validated_against_impl\": %llu,\n",
               (unsigned long long)tot.states, (unsigned long long)tot.trans, (unsigned long long)tot.valid);
  else if (tot.states)
    cov += fmt("    \"states\": %llu,\n    \"transitions\": %llu,\n", (unsigned long long)tot.states, (unsigned long long)tot.trans);
  cov += "    \"rule\": " + js(rule) + ",\n";
  cov += "    \"samples\": " + jl(sm) + ",\n";
  cov += fmt("    \"exhaustive\": %s,\n", tot.complete && capsHit.empty() && !unknown ? "true" : "false");
  if (!capsHit.empty()) cov += "    \"caps_hit\": " + jl(capsHit) + ",\n";
  for (auto &i : infos) cov += "    " + js(i.first) + ": " + js(i.second) + ",\n";
  cov += "    \"parts\": " + pj;
  mkdir((root + "/evidence").c_str(), 0755);
  {
    std::ofstream o(root + "/evidence/" + id + ".json");
    o << "{\n  \"property\": " << js(id) << ",\n  \"tier\": " << js(job.thorough ? "thorough" : "quick")
      << ",\n  \"seed\": " << job.seed << ",\n  \"level\": " << js(lvl) << ",\n  \"coverage\": {\n" << cov
      << "\n  },\n  \"assumptions\": " << jl(assumptions) << ",\n  \"wall_s\": " << fmt("%.2f", now())
      << ",\n  \"violations\": " << unknown << "\n}\n";
  }
  // verdict
  int rc = 0;
  for (size_t i = 0; i < violations.size(); i++) {
    Violation &v = violations[i];
    if (knownKeys.count(v.key)) { knownSeen[v.key]++; continue; }
    mkdir((root + "/out").c_str(), 0755);
    mkdir((root + "/out/replay").c_str(), 0755);
    string p = fmt("%s/out/replay/%s-%zu.txt", root.c_str(), id.c_str(), i);
    std::ofstream o(p);
    o << "property=" << id << "\npart=" << vparts[i].first << "\nchoices=" << itemStr(v.n, v.c) << "\ntier="
      << (job.thorough ? "thorough" : "quick") << "\nkey=" << v.key << "\n\n" << v.msg
      << "\nreplay with: ./run.sh " << id << " --replay " << p << "\n";
    o.close();
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), p.c_str());
    printf("%s\n%s\n", v.key, v.msg);
    rc = 1;
  }
  for (auto &k : known)
    if (knownSeen.count(k.first)) printf("KNOWN-FINDING: property=%s %s%s\n", id.c_str(), k.first.c_str(), k.second.c_str());
    else if (!stopAll) printf("note: known finding %s of %s was not met in this run\n", k.first.c_str(), id.c_str());
  if (rc == 0)
    printf("%s holds on everything explored: %llu executions, %llu states, %llu transitions, %.1fs%s\n", id.c_str(),
           (unsigned long long)tot.execs, (unsigned long long)tot.states, (unsigned long long)tot.trans, now(),
           tot.complete ? "" : " (time limit reached: not exhaustive)");
  return rc;
}
}  // namespace mc
