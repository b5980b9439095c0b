// Reference model of nano-backup: configuration, file selection, backup, report and restore, written from the
// documentation and the properties rather than from the code's structure.
#pragma once
#include "repo.hpp"
#include "vos.hpp"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace spec {
using repo::RState;

struct Rx;                                 // compiled POSIX ERE
struct CNode {
  std::string name;                        // literal name or pattern
  std::shared_ptr<Rx> rx;
  int policy = 0;
  bool own = false;                        // policy set by a line of its own
  int line = 0, policyLine = 0;
  std::vector<int> subs;
  bool subsRegex = false;
};
struct Pattern { std::string text; std::shared_ptr<Rx> rx; int line; };
struct Config {
  bool ok = true;
  int errLine = 0;                         // line named by the rejection
  std::string why;                         // category: null, policy, section, redefine, dots, relative, regex
  std::vector<CNode> nodes;                // 0 is the root
  std::vector<Pattern> ignore, summarize;  // in file order
};
Config parse(const std::string &text);
bool rxMatch(const std::shared_ptr<Rx> &r, const std::string &s);

struct Found {
  std::string name;
  RState st;                               // K_NONE: other kind of file (not recorded)
  int policy = 0;
  int node = -1;
  std::vector<Found> subs;
};
struct Walk {
  bool ok = true;
  std::string why;                         // "ambiguous", "access"
  std::vector<Found> roots;
  std::vector<int> kinds;                  // per configuration node: bit set of kinds matched (1 file 2 link 4 dir 8 other)
  std::vector<char> ignoreHit;             // excluded something
};
Walk walk(const Config &c, const vos::FS &fs);

struct Change {
  enum K { NONE, SAME, ADDED, REMOVED, WIPED, TYPE, MOD } k = NONE;
  repo::Kind from = repo::K_NONE, to = repo::K_NONE;  // TYPE (to restore: from is what stands there; K_NONE: other)
  bool owner = false, perm = false, time = false, content = false, policy = false, loses = false;
  bool attrs() const { return owner || perm || time || content; }
  std::string str() const;
};
struct Pt { int64_t time; RState st; };
struct MNode {
  int policy = 0;
  std::vector<Pt> hist;                    // newest first
  std::map<std::string, MNode> subs;
  Change ch;
};
using Tree = std::map<std::string, MNode>;

Tree fromView(const repo::View &v);
std::map<std::string, repo::RNode> flatten(const Tree &t);   // ids are left 0
std::string viewStr(const std::map<std::string, repo::RNode> &v);
// Difference between a model tree and a loaded repository ("" if equal).
std::string compare(const Tree &t, const repo::View &v);
std::vector<int64_t> times(const Tree &t);  // referenced backups, newest first

struct BackupResult {
  bool ok = true;                          // false: the run must be refused
  std::string why;
  Tree tree;                               // with changes; wiped nodes still present
  Tree next;                               // what the repository holds afterwards
  bool changes = false;                    // anything to report (asks for consent)
  std::vector<std::string> lines;          // report lines (unordered)
  std::vector<std::string> warnings;       // stderr lines (unordered)
  std::string stats;                       // summary line
  Walk w;
};
BackupResult backup(const Tree &old, const Config &c, const vos::FS &fs, int64_t time);

// Report of changes noted in a tree.
struct Sum {
  size_t nNew = 0, nRem = 0, nLost = 0, nChg = 0, nAttr = 0;
  uint64_t sNew = 0, sRem = 0, sLost = 0, sChg = 0;
  bool other = false, touchesParent = false;
  bool content() const { return nNew || nRem || nLost || nChg; }
  bool any() const { return content() || nAttr || other; }
};
Sum report(const Tree &t, const std::vector<Pattern> &summarize, std::vector<std::string> &lines,
           std::vector<char> *sumHit = nullptr);
std::string humanSize(uint64_t s);

struct RestoreResult {
  bool ok = true;
  std::string why;
  bool changes = false;
  std::vector<std::string> lines;
  vos::FS fs;                              // expected file system
  std::set<std::string> loose;             // directories whose modification time is not determined
  std::set<std::string> touched;           // paths announced
  std::vector<std::string> paths;          // all paths that are restored (state exists)
};
RestoreResult restore(const repo::View &v, uint64_t id, const std::string &path, const vos::FS &fs);
// State of a path for a backup number (nullptr: did not exist)
const RState *stateAt(const repo::RNode &n, uint64_t id);

std::vector<std::string> splitLines(const std::string &s);
std::string parentOf(const std::string &p);
}  // namespace spec
