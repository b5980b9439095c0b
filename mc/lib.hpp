// Shared pieces of the checks: running nb in the virtual OS and comparing it with the reference model.
#pragma once
#include "mc.hpp"
#include "spec.hpp"

namespace lib {
using std::map;
using std::string;
using std::vector;
using vos::FS;
using vos::Result;
using vos::World;
using vos::RunCfg;
using vos::Plan;
using vos::Event;
using vos::Act;

vos::RunCfg cfgFor(vector<string> args, string in = "y\n", string cwd = "/");
Result nb(World &w, vector<string> args, const string &in = "y\n", const vos::Plan *plan = nullptr, const string &cwd = "/");
inline string show(const Result &r) { return r.str() + "\nstdout:\n" + r.out + "\nstderr:\n" + r.err + "\n"; }

// Files a repository must consist of according to its metadata, as "path" -> content presence.
// Returns "" if the repository directory holds exactly config, metadata and the referenced contents.
string extraFiles(const FS &fs, const string &r);
// load() plus extraFiles()
string healthy(const FS &fs, const string &r, repo::View *out = nullptr, bool exact = true);

enum {                                     // what Sim::backup compares
  O_VIEW = 1,                              // recorded state equals the model
  O_REPORT = 2,                            // report lines, totals, consent
  O_WARN = 4,                              // warnings about the configuration
  O_OUTSIDE = 8,                           // nothing outside the repository changed
  O_FILES = 16,                            // repository holds nothing else
  O_STATUS = 32                            // exit status as predicted
};

struct Sim {
  World w;
  string r = "/r";
  string cfgText;
  spec::Config cfg;
  spec::Tree tree;                         // what the repository must hold
  int n = 0;                               // backups made
  vector<int64_t> when;
  vector<FS> seen;                         // file system at each backup
  spec::BackupResult last;
  Result lastRun;
  Sim();
  void config(const string &text);
  // One backup with consent; compares what flags say. Differences end the execution as violations.
  void backup(mc::Ctx &c, int flags, const string &tag = "");
  uint64_t canon(const string &extra = "") const;  // fingerprint of the repository modulo absolute times
  repo::View view(mc::Ctx &c);
};
enum { R_STATE = 1, R_REPORT = 2, R_REPO = 4, R_NOREFUSE = 8 };
// Restores path at number id with consent and compares with the model: the resulting file system, the report, status.
// Returns false if the restore was refused (as predicted).
bool restore(mc::Ctx &c, World &w, const string &r, const repo::View &v, uint64_t id, const string &path, int flags = 7,
             Result *out = nullptr, const vos::RunCfg *cfg = nullptr);
// Difference between a file system and what a restore should give.
string restoredDiff(const spec::RestoreResult &m, const FS &after, const string &r);
string reportDiff(const spec::BackupResult &b, const Result &r);
string warnDiff(const spec::BackupResult &b, const Result &r);
string linesDiff(vector<string> want, vector<string> got);
vector<string> reportLines(const string &out);  // the lines before the first empty one
}  // namespace lib
