#include "spec.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <regex.h>
#include <unordered_map>

namespace spec {
using namespace repo;
using std::map;
using std::string;
using std::vector;
using vos::FS;

// ------------------------------------------------------------------ patterns
struct Rx { regex_t re; bool ok; };
static std::shared_ptr<Rx> compile(const string &t) {
  static std::unordered_map<string, std::shared_ptr<Rx>> cache;
  auto it = cache.find(t);
  if (it != cache.end()) return it->second;
  auto r = std::make_shared<Rx>();
  r->ok = regcomp(&r->re, t.c_str(), REG_EXTENDED | REG_NOSUB) == 0;
  cache[t] = r;
  return r;
}
bool rxMatch(const std::shared_ptr<Rx> &r, const string &s) { return regexec(&r->re, s.c_str(), 0, nullptr, 0) == 0; }

vector<string> splitLines(const string &s) {
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i);
    if (e == string::npos) e = s.size();
    v.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return v;
}
string parentOf(const string &p) {
  auto i = p.rfind('/');
  return i == 0 || i == string::npos ? "/" : p.substr(0, i);
}

// ------------------------------------------------------------------ configuration
// A path line is a sequence of elements, each introduced by one slash (literal) or by two (pattern). Further slashes
// belong to the pattern text.
static vector<std::pair<bool, string>> elements(string p) {
  while (!p.empty() && p.back() == '/') p.pop_back();
  vector<std::pair<bool, string>> v;
  size_t i = 0;
  while (i < p.size()) {
    i++;  // the introducing slash
    bool rx = i < p.size() && p[i] == '/';
    if (rx) i++;
    size_t j = i;
    while (j < p.size() && p[j] == '/') j++;
    while (j < p.size() && p[j] != '/') j++;
    v.push_back({rx, p.substr(i, j - i)});
    i = j;
  }
  return v;
}
Config parse(const string &textIn) {
  Config c;
  c.nodes.emplace_back();
  auto reject = [&](const char *why, int line) { c.ok = false; c.why = why; c.errLine = line; return c; };
  if (textIn.find('\0') != string::npos) return reject("null", 0);
  string text = textIn;
  if (text.compare(0, 3, "\xEF\xBB\xBF") == 0) text = text.substr(3);
  int section = 0, line = 0;
  for (auto &l : splitLines(text)) {
    line++;
    if (l.find_first_not_of(" \t") == string::npos || l[0] == '#') continue;
    static const map<string, int> sec = {{"[copy]", P_COPY}, {"[mirror]", P_MIRROR}, {"[track]", P_TRACK},
                                         {"[ignore]", P_IGNORE}, {"[summarize]", P_SUMMARIZE}};
    auto s = sec.find(l);
    if (s != sec.end()) { section = s->second; continue; }
    if (l[0] == '[' && l.back() == ']') return reject("policy", line);
    if (!section) return reject("section", line);
    if (section == P_IGNORE || section == P_SUMMARIZE) {
      auto r = compile(l);
      if (!r->ok) return reject("regex", line);
      (section == P_IGNORE ? c.ignore : c.summarize).push_back({l, r, line});
      continue;
    }
    if (l[0] != '/') return reject("relative", line);
    if (std::count(l.begin(), l.end(), '/') > 4096) return reject("elements", line);
    // dots are judged on the line as written: a trailing slash ends the path with an empty element
    auto els = elements(l);
    for (auto &e : els)
      if (!e.first && (e.second == "." || e.second == "..")) return reject("dots", line);
    int cur = 0;
    bool created = false;
    for (auto &e : els) {
      int nx = -1;
      for (int k : c.nodes[cur].subs)
        if ((c.nodes[k].rx != nullptr) == e.first && c.nodes[k].name == e.second) nx = k;
      if (nx < 0) {
        CNode n;
        n.name = e.second;
        n.line = line;
        if (e.first) {
          n.rx = compile(e.second);
          if (!n.rx->ok) return reject("regex", line);
          c.nodes[cur].subsRegex = true;
        }
        n.policy = c.nodes[cur].policy;
        nx = (int)c.nodes.size();
        c.nodes.push_back(n);
        c.nodes[cur].subs.push_back(nx);
        created = true;
      }
      cur = nx;
    }
    (void)created;
    if (c.nodes[cur].own) return reject("redefine", line);
    c.nodes[cur].own = true;
    c.nodes[cur].policy = section;
    c.nodes[cur].policyLine = line;
    std::vector<int> todo(c.nodes[cur].subs);
    while (!todo.empty()) {
      int k = todo.back();
      todo.pop_back();
      if (c.nodes[k].own) continue;
      c.nodes[k].policy = section;
      for (int q : c.nodes[k].subs) todo.push_back(q);
    }
  }
  return c;
}

// ------------------------------------------------------------------ selection
namespace {
struct Walker {
  const Config &c;
  const FS &fs;
  Walk &w;
  static RState stateOf(const vos::Inode &i) {
    RState s;
    s.uid = i.uid;
    s.gid = i.gid;
    switch (i.type) {
    case vos::T_FILE: s.kind = K_FILE; s.perm = i.perm; s.mtime = i.mtime; s.data = i.data; s.more = (i.fakesize >= 0 ? i.fakesize : vos::sizeOf(i)) - (int64_t)i.data.size(); break;
    case vos::T_DIR: s.kind = K_DIR; s.perm = i.perm; s.mtime = i.mtime; break;
    case vos::T_LINK: s.kind = K_LINK; s.data = i.data; break;
    default: s.kind = K_NONE;
    }
    return s;
  }
  void fail(const char *why) { if (w.ok) { w.ok = false; w.why = why; } }
  void dir(int ino, const string &path, int node, int policy, vector<Found> &out, int depth) {
    if (!w.ok || depth > 2000) { if (depth > 2000) fail("depth"); return; }
    const vos::Inode &d = fs.r(ino);
    // Entries the configuration names without needing to look at the directory are accessed directly.
    bool direct = node >= 0 && c.nodes[node].policy == P_NONE && !c.nodes[node].subsRegex;
    for (auto &e : d.ents) {
      if (!w.ok) return;
      int m = -1;
      if (node >= 0)
        for (int k : c.nodes[node].subs) {
          bool hit = c.nodes[k].rx ? rxMatch(c.nodes[k].rx, e.first) : c.nodes[k].name == e.first;
          if (!hit) continue;
          if (m >= 0) { fail("ambiguous"); return; }
          m = k;
        }
      int pol;
      string p = path + "/" + e.first;
      if (m >= 0) pol = c.nodes[m].policy;
      else {
        if (direct || policy == P_NONE) continue;
        bool ign = false;
        for (size_t k = 0; k < c.ignore.size(); k++)
          if (rxMatch(c.ignore[k].rx, p)) { ign = true; w.ignoreHit[k] = 1; }
        if (ign) continue;
        pol = policy;
      }
      int n = e.second;
      if (m >= 0 && !c.nodes[m].subs.empty() && fs.r(n).type == vos::T_LINK) {
        n = fs.lookup(p);
        if (n < 0) { fail("access"); return; }
      }
      Found f;
      f.name = e.first;
      f.st = stateOf(fs.r(n));
      f.policy = pol;
      f.node = m;
      if (m >= 0)
        w.kinds[m] |= f.st.kind == K_FILE ? 1 : f.st.kind == K_LINK ? 2 : f.st.kind == K_DIR ? 4 : 8;
      if (f.st.kind == K_DIR) dir(n, p, m, pol, f.subs, depth + 1);
      if (f.st.kind != K_NONE) out.push_back(std::move(f));
    }
  }
};
}  // namespace
Walk walk(const Config &c, const FS &fs) {
  Walk w;
  w.kinds.assign(c.nodes.size(), 0);
  w.ignoreHit.assign(c.ignore.size(), 0);
  Walker k{c, fs, w};
  k.dir(fs.root, "", 0, c.nodes[0].policy, w.roots, 0);
  return w;
}

// ------------------------------------------------------------------ trees
Tree fromView(const View &v) {
  Tree t;
  for (auto &p : v.paths) {
    Tree *cur = &t;
    size_t i = 1;
    for (;;) {
      size_t j = p.first.find('/', i);
      string n = p.first.substr(i, j == string::npos ? string::npos : j - i);
      MNode &m = (*cur)[n];
      if (j == string::npos) {
        m.policy = p.second.policy;
        for (auto &h : p.second.hist) m.hist.push_back({h.time, h.st});
        break;
      }
      cur = &m.subs;
      i = j + 1;
    }
  }
  return t;
}
static void flat(const Tree &t, const string &pre, map<string, RNode> &out) {
  for (auto &x : t) {
    RNode &n = out[pre + "/" + x.first];
    n.policy = x.second.policy;
    for (auto &h : x.second.hist) n.hist.push_back({h.time, 0, h.st});
    flat(x.second.subs, pre + "/" + x.first, out);
  }
}
map<string, RNode> flatten(const Tree &t) {
  map<string, RNode> m;
  flat(t, "", m);
  return m;
}
string viewStr(const map<string, RNode> &v) {
  string s;
  for (auto &p : v) {
    s += p.first + " [" + policyName(p.second.policy) + "]\n";
    for (auto &h : p.second.hist) s += "    @" + std::to_string(h.time) + " " + h.st.str() + "\n";
  }
  return s;
}
static bool sameNode(const RNode &a, const RNode &b) {
  if (a.policy != b.policy || a.hist.size() != b.hist.size()) return false;
  for (size_t i = 0; i < a.hist.size(); i++)
    if (a.hist[i].time != b.hist[i].time || !(a.hist[i].st == b.hist[i].st)) return false;
  return true;
}
string compare(const Tree &t, const View &v) {
  auto m = flatten(t);
  string s;
  auto one = [](const string &p, const RNode &n) { return viewStr({{p, n}}); };
  for (auto &x : m) {
    auto it = v.paths.find(x.first);
    if (it == v.paths.end()) s += "missing: " + one(x.first, x.second);
    else if (!sameNode(x.second, it->second)) s += "expected: " + one(x.first, x.second) + "recorded: " + one(x.first, it->second);
  }
  for (auto &x : v.paths)
    if (!m.count(x.first)) s += "unexpected: " + one(x.first, x.second);
  return s;
}
static void collectTimes(const Tree &t, std::set<int64_t> &s) {
  for (auto &x : t) {
    for (auto &h : x.second.hist) s.insert(h.time);
    collectTimes(x.second.subs, s);
  }
}
vector<int64_t> times(const Tree &t) {
  std::set<int64_t> s;
  collectTimes(t, s);
  return vector<int64_t>(s.rbegin(), s.rend());
}

// ------------------------------------------------------------------ backup
string Change::str() const {
  static const char *n[] = {"none", "same", "added", "removed", "wiped", "type", "mod"};
  string s = n[k];
  if (owner) s += " owner";
  if (perm) s += " perm";
  if (time) s += " time";
  if (content) s += " content";
  if (policy) s += " policy";
  if (loses) s += " loses";
  return s;
}
namespace {
struct Backup {
  const Config &c;
  const FS &fs;
  int64_t now;

  static void wipe(MNode &n) {
    n.ch.k = Change::WIPED;
    n.ch.owner = n.ch.perm = n.ch.time = n.ch.content = false;
    for (auto &s : n.subs) wipe(s.second);
  }
  // Attribute and content differences between two states of the same kind. Contents are looked at only when the size
  // or the modification time differ.
  static void compareStates(const RState &a, const RState &b, Change &ch) {
    ch.owner |= a.uid != b.uid || a.gid != b.gid;
    if (a.kind == K_LINK) { ch.content |= a.data != b.data; }
    else {
      ch.perm |= a.perm != b.perm;
      ch.time |= a.mtime != b.mtime;
      if (a.kind == K_FILE) ch.content |= a.size() != b.size() || (a.mtime != b.mtime && a.data != b.data);
    }
    if (ch.attrs()) ch.k = Change::MOD;
  }
  // A path that vanished, with everything below. Histories are extended only along an unbroken chain of tracked paths.
  void vanish(MNode &n, bool extend) {
    if (n.ch.k == Change::WIPED) return;
    if (n.hist[0].st.kind == K_NONE) {
      if (!n.ch.policy) n.ch.k = Change::SAME;
    } else {
      n.ch.k = Change::REMOVED;
      extend = extend && n.policy == P_TRACK;
      if (extend) n.hist.insert(n.hist.begin(), Pt{now, RState()});
    }
    for (auto &s : n.subs) vanish(s.second, extend);
  }
  void newPolicy(MNode &n, int pol) {
    if (n.policy == pol) return;
    n.ch.policy = true;
    if (n.policy == P_TRACK) {
      if (n.hist[0].st.kind == K_NONE) n.hist.erase(n.hist.begin());
      if (n.hist.size() > 1) { n.hist.resize(1); n.ch.loses = true; }
      if (n.hist[0].st.kind != K_DIR)
        for (auto &s : n.subs) wipe(s.second);
    }
    n.policy = pol;
  }
  void gone(MNode &n, int pol) {
    newPolicy(n, pol);
    if (pol == P_MIRROR) wipe(n);
    else if (pol == P_NONE && (n.subs.empty() || n.hist[0].st.kind != K_DIR)) {
      n.ch.k = Change::WIPED;
    } else vanish(n, true);
  }
  void others(Tree &t, const string &path, int node, int pol, const std::set<string> &found) {
    for (auto &s : t) {
      if (found.count(s.first) || s.second.ch.k != Change::NONE) continue;
      int m = -1;
      if (node >= 0)
        for (int k : c.nodes[node].subs)
          if (c.nodes[k].rx ? rxMatch(c.nodes[k].rx, s.first) : c.nodes[k].name == s.first) { m = k; }
      bool ign = false;
      for (auto &g : c.ignore) ign |= rxMatch(g.rx, path + "/" + s.first);
      if (m >= 0) gone(s.second, c.nodes[m].policy);
      else if (pol == P_NONE || ign) wipe(s.second);
      else gone(s.second, pol);
    }
  }
  void level(Tree &t, const string &path, const vector<Found> &fv, int node, int pol) {
    std::set<string> names;
    for (auto &f : fv) {
      names.insert(f.name);
      entry(t, path, f);
    }
    others(t, path, node, pol, names);
  }
  void entry(Tree &t, const string &path, const Found &f) {
    auto it = t.find(f.name);
    bool added = false;
    if (it != t.end() && it->second.ch.k == Change::WIPED) {
      // It was dropped together with what its parent used to be; now it is there again.
      MNode n;
      n.policy = f.policy;
      n.hist.push_back({now, f.st});
      n.ch.k = Change::ADDED;
      n.subs = std::move(it->second.subs);   // still lost
      it->second = std::move(n);
      added = true;
    }
    if (it == t.end()) {
      MNode n;
      n.policy = f.policy;
      n.hist.push_back({now, f.st});
      n.ch.k = Change::ADDED;
      it = t.emplace(f.name, n).first;
      added = true;
    }
    MNode &n = it->second;
    if (!added) {
      newPolicy(n, f.policy);
      RState &cur = n.hist[0].st;
      if (f.policy == P_TRACK && cur.kind == K_NONE) {
        n.ch.k = Change::ADDED;
        n.hist.insert(n.hist.begin(), Pt{now, f.st});
      } else {
        if (cur.kind != f.st.kind) {
          n.ch.k = Change::TYPE;
          n.ch.from = cur.kind;
          n.ch.to = f.st.kind;
        } else compareStates(cur, f.st, n.ch);
        bool changed = n.ch.k == Change::TYPE || n.ch.k == Change::MOD;
        if (f.policy == P_TRACK) {
          if (changed) {
            RState s = f.st;
            if (n.ch.k == Change::MOD && !n.ch.content && s.kind == K_FILE) s.data = cur.data;
            n.hist.insert(n.hist.begin(), Pt{now, s});
          }
        } else {
          if (changed && !(f.policy == P_NONE && n.ch.k == Change::TYPE && f.st.kind != K_DIR)) {
            RState s = f.st;
            if (n.ch.k == Change::MOD && !n.ch.content && s.kind == K_FILE) s.data = cur.data;
            cur = s;
          }
          if (changed || f.policy == P_NONE) n.hist[0].time = now;
        }
      }
    }
    string p = path + "/" + f.name;
    std::set<string> names;
    if (f.st.kind == K_DIR)
      for (auto &s : f.subs) { names.insert(s.name); entry(n.subs, p, s); }
    if (n.ch.k == Change::TYPE && n.ch.from == K_DIR) {
      for (auto &s : n.subs)
        if (f.policy == P_NONE || f.policy == P_TRACK) vanish(s.second, f.policy == P_TRACK);
        else wipe(s.second);
    } else if (f.policy == P_TRACK && n.hist[0].st.kind == K_FILE) {
      for (auto &s : n.subs) vanish(s.second, false);
    } else {
      others(n.subs, p, f.node, f.policy, names);
    }
    if (f.policy == P_NONE) {
      bool need = false;
      for (auto &s : n.subs) need |= s.second.ch.k != Change::WIPED;
      if (!need) { n.ch.k = Change::WIPED; n.ch.owner = n.ch.perm = n.ch.time = n.ch.content = false; }
    }
    if (n.ch.k == Change::NONE && !n.ch.policy) n.ch.k = Change::SAME;
  }
  static void drop(Tree &t) {
    for (auto i = t.begin(); i != t.end();) {
      if (i->second.ch.k == Change::WIPED) i = t.erase(i);
      else { i->second.ch = Change(); drop(i->second.subs); ++i; }
    }
  }
};
void clearChanges(Tree &t) {
  for (auto &x : t) { x.second.ch = Change(); clearChanges(x.second.subs); }
}
}  // namespace

static string quoted(const string &s) { return "\"" + s + "\""; }
static void searchWarnings(const Config &c, const Walk &w, int node, vector<string> &out) {
  for (int k : c.nodes[node].subs) {
    const CNode &n = c.nodes[k];
    string pre = "config: line " + std::to_string(n.line) + ": " + (n.rx ? "regex" : "string");
    if (!w.kinds[k]) out.push_back(pre + " never matched a " + (n.subs.empty() ? "file" : "directory") + ": " + quoted(n.name));
    else if (!n.subs.empty()) {
      if (!(w.kinds[k] & 4)) { out.push_back(pre + " matches, but not a directory: " + quoted(n.name)); continue; }
      if (w.kinds[k] & ~4) out.push_back(pre + " matches not only directories: " + quoted(n.name));
      searchWarnings(c, w, k, out);
    }
  }
}
BackupResult backup(const Tree &old, const Config &c, const FS &fs, int64_t time) {
  BackupResult r;
  r.w = walk(c, fs);
  if (!r.w.ok) { r.ok = false; r.why = r.w.why; return r; }
  r.tree = old;
  clearChanges(r.tree);
  Backup b{c, fs, time};
  b.level(r.tree, "", r.w.roots, 0, c.nodes[0].policy);
  vector<char> sumHit(c.summarize.size(), 0);
  Sum s = report(r.tree, c.summarize, r.lines, &sumHit);
  r.changes = s.any();
  if (s.nNew) r.stats += "New: " + std::to_string(s.nNew) + " (" + humanSize(s.sNew) + ")";
  if (s.nRem) r.stats += (r.stats.empty() ? "" : ", ") + ("Removed: " + std::to_string(s.nRem)) + " (" + humanSize(s.sRem) + ")";
  if (s.nLost) r.stats += (r.stats.empty() ? "" : ", ") + ("Lost: " + std::to_string(s.nLost)) + " (" + humanSize(s.sLost) + ")";
  r.next = r.tree;
  Backup::drop(r.next);
  searchWarnings(c, r.w, 0, r.warnings);
  for (size_t i = 0; i < c.ignore.size(); i++)
    if (!r.w.ignoreHit[i])
      r.warnings.push_back("config: line " + std::to_string(c.ignore[i].line) + ": regex never matched a path: " + quoted(c.ignore[i].text));
  for (size_t i = 0; i < c.summarize.size(); i++)
    if (!sumHit[i])
      r.warnings.push_back("config: line " + std::to_string(c.summarize[i].line) + ": regex never matched a directory: " + quoted(c.summarize[i].text));
  return r;
}

// ------------------------------------------------------------------ report
string humanSize(uint64_t s) {
  char b[64];
  const char u[] = "bKMGT";
  double v = (double)s;
  int i = 0;
  while (v > 999.9 && i < 4) { v /= 1024; i++; }
  if (i == 0) snprintf(b, sizeof b, "%llu b", (unsigned long long)s);
  else snprintf(b, sizeof b, "%llu.%d %ciB", (unsigned long long)v, (int)((uint64_t)(v * 10) % 10), u[i]);
  return b;
}
static const RState &shown(const MNode &n) {
  return n.hist[0].st.kind == K_NONE && n.hist.size() > 1 ? n.hist[1].st : n.hist[0].st;
}
static string amount(size_t n, uint64_t s, const char *sign) {
  string r = (n ? sign : "") + std::to_string(n) + (n == 1 ? " item" : " items");
  if (s) r += string(", ") + sign + humanSize(s);
  return r;
}
static const char *kindTitle(Kind k) {
  return k == K_FILE ? "File" : k == K_LINK ? "Symlink" : k == K_DIR ? "Directory" : "Other";
}
static Sum reportLevel(const Tree &t, const string &pre, const vector<Pattern> *pats, bool print, vector<string> &lines,
                       vector<char> *hit) {
  Sum total;
  for (auto &x : t) {
    const MNode &n = x.second;
    const Change &ch = n.ch;
    string path = pre + "/" + x.first;
    const RState &sh = shown(n);
    bool isDir = sh.kind == K_DIR;
    bool summarize = false;
    if (pats && n.policy != P_NONE && isDir)
      for (size_t i = 0; i < pats->size(); i++)
        if (rxMatch((*pats)[i].rx, path)) { summarize = true; if (hit) (*hit)[i] = 1; }
    const vector<Pattern> *down = summarize ? nullptr : pats;
    bool anything = (ch.k != Change::NONE && ch.k != Change::SAME) || ch.policy;
    // An implicit parent is not worth a line for being new or for its attributes.
    bool attrOnly = ch.k == Change::MOD && !ch.content;
    bool hidden = n.policy == P_NONE && !ch.policy && (ch.k == Change::ADDED || attrOnly);
    Sum sub;
    bool line = false;
    if (print && summarize) {
      sub = reportLevel(n.subs, path, down, false, lines, hit);
      line = anything || sub.any();
    } else if (print && anything && !hidden) {
      bool inner = ch.k == Change::MOD || ch.k == Change::NONE || ch.k == Change::SAME;
      sub = reportLevel(n.subs, path, down, inner, lines, hit);
      bool onlyTime = ch.k == Change::MOD && ch.time && !ch.owner && !ch.perm && !ch.content && !ch.policy;
      line = !(onlyTime && sub.touchesParent);
    } else {
      sub = reportLevel(n.subs, path, down, print, lines, hit);
      // Unless it is all there is to tell.
      if (print && hidden && ch.k == Change::ADDED) line = sub.nNew == 0;
    }
    if (line) {
      string l;
      string shownPath = (sh.kind == K_LINK ? "^" : "") + path + (isDir ? "/" : "");
      string dots;
      if (ch.k == Change::ADDED) l = "++ ";
      else if (ch.k == Change::REMOVED) l = "-- ";
      else if (ch.k == Change::WIPED) l = n.policy == P_MIRROR ? "xx " : "?? ";
      else if (ch.k == Change::TYPE) l = "<> ";
      else if (ch.k == Change::MOD && ch.content) l = "!! ";
      else if (summarize && sub.content()) { l = "!! "; dots = "..."; }
      else if (ch.k == Change::MOD || ch.k == Change::SAME) { l = "@@ "; if (summarize && sub.nAttr) dots = "..."; }
      else l = ":: ";
      l += shownPath + dots;
      vector<string> d;
      if (ch.k == Change::TYPE) d.push_back(string(kindTitle(ch.from)) + " -> " + kindTitle(ch.to));
      if (ch.owner) d.push_back("owner");
      if (ch.perm) d.push_back("permissions");
      if (n.hist[0].st.kind != K_LINK && ch.time != ch.content && !sub.touchesParent) d.push_back(ch.time ? "timestamp" : "same timestamp");
      if (ch.policy) d.push_back("policy changed");
      if (ch.loses) d.push_back("looses history");
      if (isDir) {
        if (ch.k == Change::ADDED || (ch.k == Change::TYPE && ch.to == K_DIR && ch.from != K_NONE)) d.push_back(amount(sub.nNew, sub.sNew, "+"));
        else if (ch.k == Change::REMOVED) d.push_back(amount(sub.nRem, sub.sRem, "-"));
        else if (ch.k == Change::WIPED) d.push_back(amount(sub.nLost, sub.sLost, "-"));
        else if (summarize) {
          if (sub.nNew) d.push_back(amount(sub.nNew, sub.sNew, "+"));
          if (sub.nRem + sub.nLost) d.push_back(amount(sub.nRem + sub.nLost, sub.sRem + sub.sLost, "-"));
          if (sub.nChg) d.push_back(std::to_string(sub.nChg) + " changed");
          if (sub.nAttr) d.push_back(std::to_string(sub.nAttr) + " metadata change" + (sub.nAttr == 1 ? "" : "s"));
        }
      } else if (ch.k == Change::TYPE && ch.from == K_DIR) {
        d.push_back(amount(sub.nRem + sub.nLost, sub.sRem + sub.sLost, "-"));
      }
      for (size_t i = 0; i < d.size(); i++) l += (i ? ", " : " (") + d[i];
      if (!d.empty()) l += ")";
      if (sh.kind == K_LINK) l += " -> " + sh.data;
      lines.push_back(l);
    }
    // totals
    uint64_t size = sh.kind == K_FILE ? sh.size() : 0;
    bool up = false;
    auto attrCount = [&]() { total.nAttr += (ch.owner ? 1 : 0) + (ch.perm ? 1 : 0); };
    if (ch.k == Change::ADDED) { total.nNew++; total.sNew += size; up = true; }
    else if (ch.k == Change::REMOVED) { total.nRem++; total.sRem += size; up = true; }
    else if (ch.k == Change::WIPED) { total.nLost++; total.sLost += size; up = n.policy == P_MIRROR && !ch.policy; }
    else if (ch.k == Change::MOD && ch.content) { total.nChg++; total.sChg += size; up = true; attrCount(); }
    else if (anything && (n.policy != P_NONE || ch.policy || ch.k == Change::TYPE)) {
      total.other = true;
      up = ch.k == Change::TYPE;
      attrCount();
      if (ch.time && !ch.owner && !ch.perm && !ch.policy && ch.k == Change::MOD && !sub.touchesParent) total.nAttr++;
    }
    total.touchesParent |= up;
    total.nNew += sub.nNew; total.sNew += sub.sNew;
    total.nRem += sub.nRem; total.sRem += sub.sRem;
    total.nLost += sub.nLost; total.sLost += sub.sLost;
    total.nChg += sub.nChg; total.sChg += sub.sChg;
    total.nAttr += sub.nAttr;
    total.other |= sub.other;
  }
  return total;
}
Sum report(const Tree &t, const vector<Pattern> &pats, vector<string> &lines, vector<char> *hit) {
  return reportLevel(t, "", &pats, true, lines, hit);
}

// ------------------------------------------------------------------ restore
const RState *stateAt(const RNode &n, uint64_t id) {
  if (n.policy != P_TRACK) return n.hist[0].st.kind == K_NONE ? nullptr : &n.hist[0].st;
  for (auto &h : n.hist)
    if (h.id >= id) return h.st.kind == K_NONE ? nullptr : &h.st;
  return nullptr;
}
namespace {
struct Restore {
  const View &v;
  uint64_t id;
  RestoreResult &r;
  Tree rep;                                // for the report
  map<string, vector<string>> kids;

  void link(Tree &t, const string &path, const MNode &n) {
    Tree *cur = &t;
    size_t i = 1;
    for (;;) {
      size_t j = path.find('/', i);
      string nm = path.substr(i, j == string::npos ? string::npos : j - i);
      if (j == string::npos) { MNode &m = (*cur)[nm]; auto s = m.subs; m = n; m.subs = s; break; }
      cur = &(*cur)[nm].subs;
      i = j + 1;
    }
  }
  // Restores one path; returns whether what is below can exist already. affects: entries of the parent were replaced.
  bool one(const string &p, const RNode &n, const RState &s, bool couldExist, bool &affects) {
    FS &fs = r.fs;
    Change ch;
    affects = false;
    int ino = couldExist ? fs.lookup(p, false) : -1;
    if (ino >= 0 && s.kind == K_DIR && fs.r(ino).type == vos::T_LINK) {
      // a symlink to a directory counts as that directory, others do not
      int q = fs.lookup(p, true);
      if (q >= 0 && fs.r(q).type == vos::T_DIR) ino = q;
    }
    r.paths.push_back(p);
    auto create = [&] {
      switch (s.kind) {
      case K_FILE: fs.mkfile(p, s.data, s.perm, s.mtime, s.uid, s.gid); break;
      case K_LINK: fs.mklink(p, s.data, s.uid, s.gid); break;
      case K_DIR: fs.mkdir(p, s.perm, s.mtime, s.uid, s.gid); break;
      default: break;
      }
      affects = true;
    };
    static const Kind kt[] = {K_FILE, K_DIR, K_LINK, K_NONE, K_NONE};
    bool below = true;
    if (ino < 0) {
      ch.k = Change::ADDED;
      create();
      below = false;
    } else {
      Kind cur = kt[fs.r(ino).type];
      if (cur != s.kind) {
        ch.k = Change::TYPE;
        ch.from = cur;
        ch.to = s.kind;
        fs.rm(p);
        create();
        below = false;
      } else {
        const vos::Inode &i = fs.r(ino);
        RState c;
        c.kind = cur;
        c.uid = i.uid; c.gid = i.gid; c.perm = i.perm; c.mtime = i.mtime;
        if (cur != K_DIR) c.data = i.data;
        if (cur == K_FILE && i.fakesize >= 0) c.more = i.fakesize - (int64_t)i.data.size();
        if (cur == K_LINK) c.perm = 0, c.mtime = 0;
        Backup::compareStates(s, c, ch);
        if (ch.k == Change::MOD && n.policy != P_NONE) {
          if (cur == K_LINK && ch.content) { fs.rm(p); create(); }
          else {
            vos::Inode &w = fs.w(ino);
            w.uid = s.uid; w.gid = s.gid;
            if (cur != K_LINK) { w.perm = s.perm; w.mtime = s.mtime; }
            if (cur == K_FILE && ch.content) w.data = s.data;
          }
        }
        if (ch.k == Change::NONE) ch.k = Change::SAME;
      }
    }
    MNode m;
    m.policy = n.policy;
    for (auto &h : n.hist) m.hist.push_back({h.time, h.st});
    m.ch = ch;
    link(rep, p, m);
    if (ch.k != Change::SAME && !(n.policy == P_NONE && ch.k == Change::MOD)) r.touched.insert(p);
    return below;
  }
  // returns whether the parent's entries changed
  bool tree(const string &p, bool couldExist) {
    const RNode &n = v.paths.at(p);
    const RState *s = stateAt(n, id);
    if (!s) return false;
    bool aff;
    bool below = one(p, n, *s, couldExist, aff);
    if (s->kind == K_DIR) {
      bool sub = false;
      for (auto &k : kids[p]) sub |= tree(k, below);
      after(p, n, *s, sub);
    }
    return aff;
  }
  void after(const string &p, const RNode &n, const RState &s, bool sub) {
    if (n.policy == P_NONE) { r.loose.insert(p); return; }
    int ino = r.fs.lookup(p, true);
    if (sub && ino >= 0) r.fs.w(ino).mtime = s.mtime;
  }
};
}  // namespace
RestoreResult restore(const View &v, uint64_t id, const string &path, const FS &fs) {
  RestoreResult r;
  r.fs = fs;
  Restore R{v, id, r, {}, {}};
  vector<string> roots;
  for (auto &p : v.paths) {
    string par = parentOf(p.first);
    if (par == "/") roots.push_back(p.first);
    else R.kids[par].push_back(p.first);
  }
  string target = path;
  while (!target.empty() && target.back() == '/') target.pop_back();
  if (target.empty()) {
    for (auto &k : roots) R.tree(k, true);
  } else {
    // the recorded parents come first
    vector<string> chain;
    for (size_t i = 1; (i = target.find('/', i)) != string::npos; i++) chain.push_back(target.substr(0, i));
    bool could = true;
    vector<std::pair<string, bool>> aff;
    for (auto &a : chain) {
      auto it = v.paths.find(a);
      if (it == v.paths.end()) { r.ok = false; r.why = "unknown"; return r; }
      const RState *s = stateAt(it->second, id);
      if (!s) { r.ok = false; r.why = "not then"; return r; }
      if (s->kind != K_DIR) { r.ok = false; r.why = "not a directory then"; return r; }
      bool af;
      could = R.one(a, it->second, *s, could, af);
      aff.push_back({a, af});
    }
    auto it = v.paths.find(target);
    if (it == v.paths.end()) { r.ok = false; r.why = "unknown"; return r; }
    if (!stateAt(it->second, id)) { r.ok = false; r.why = "not then"; return r; }
    bool sub = R.tree(target, could);
    for (size_t i = aff.size(); i-- > 0;) {
      const RNode &n = v.paths.at(aff[i].first);
      R.after(aff[i].first, n, *stateAt(n, id), sub);
      sub = aff[i].second;
    }
  }
  // the report covers the whole recorded tree; paths that are not concerned are unchanged
  Sum s = report(R.rep, {}, r.lines);
  r.changes = s.any();
  if (!r.changes) { r.fs = fs; r.touched.clear(); }
  r.loose.insert("/");
  return r;
}
}  // namespace spec
