// Explorer: exhaustive enumeration of the choices a check body makes, in parallel, with recorded coverage.
#pragma once
#include "repo.hpp"
#include "vos.hpp"
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Stop {};                        // thrown to end an execution

struct Ctx {
  // A choice among n alternatives; alternative 0 is explored first. n must depend only on earlier choices.
  int choose(int n, const char *what = nullptr);
  int pick(const char *what, std::initializer_list<const char *> names);  // choose with names for the notes
  template <class V> const typename V::value_type &of(const V &v, const char *what = nullptr) {
    return v[choose((int)v.size(), what)];
  }
  // True if everything up to here was not already executed by an earlier execution.
  bool fresh() const { return pos >= base; }
  // Ends the execution if a state with this fingerprint has already been expanded with at least that much depth left.
  void prune(uint64_t h, int remaining);
  bool seen(uint64_t h, int remaining);
  void require(bool c) { if (!c) skip(); }
  [[noreturn]] void skip();            // discard (not a case of the alphabet)
  void state(uint64_t h);              // a state of the explored system
  void state(const std::string &s) { state(vos::hash64(s)); }
  void trans(uint64_t n = 1);          // transitions made (only counted when fresh)
  void eval(uint64_t n = 1);           // oracle evaluations
  void validated(uint64_t n = 1);      // model predictions compared with the implementation
  void nontrivial(uint64_t h);         // distinct non-trivial case
  void nontrivial(const std::string &s) { nontrivial(vos::hash64(s)); }
  void cap(const char *what);          // a bound of the enumeration was hit
  void note(const std::string &s);     // part of the description of this execution
  void log(const std::string &s);      // only shown in replays
  bool verbose = false;
  [[noreturn]] void fail(const std::string &key, const std::string &msg);
  void check(bool ok, const std::string &key, const std::string &msg) { if (!ok) fail(key, msg); }
  bool thorough = false;

  // internal
  std::vector<uint16_t> pre;           // forced choices
  size_t base = 0;                     // number of forced choices
  size_t pos = 0;
  std::vector<std::pair<size_t, uint16_t>> alts;  // position, number of alternatives
  std::vector<uint16_t> taken;
  std::string notes;
};

using Body = std::function<void(Ctx &)>;

struct Job {
  std::string prop;
  bool thorough = false;
  int seed = 1;
  bool replay = false;
  std::string replayPart;
  std::vector<uint16_t> replayChoices;
  // Explores everything body can choose. Parts are named so that replays find their body.
  void explore(const std::string &part, const Body &body);
  void assume(const std::string &s);
  void rule(const std::string &s);     // what is enumerated, what counts as non-trivial
  void info(const std::string &key, const std::string &value);
};

struct Check {
  const char *id;
  const char *level;                   // evidence level
  void (*fn)(Job &);
};
void reg(const Check &c);
#define MC_CHECK(ID, LEVEL)                                                                                            \
  static void check_##ID(mc::Job &);                                                                                   \
  static struct Reg_##ID { Reg_##ID() { mc::reg({#ID, LEVEL, check_##ID}); } } reg_##ID;                               \
  static void check_##ID(mc::Job &job)

int mainEntry(int argc, char **argv);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace mc
