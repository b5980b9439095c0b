// Histories of backups over a parent and a child: C03 (vanishing), C04 (policy changes), C02 (tracked states).
#include "../lib.hpp"
#include "../family.hpp"
using namespace lib;
using namespace fam;

MC_CHECK(C03, "model_checking") {
  job.rule("All sequences of backups of a parent /s/d and what is below it, over the states listed in family.hpp, under every "
           "combination of policies; non-trivial: a distinct pair of repository states between which a backup recorded something.");
  int depth = job.thorough ? 5 : 4;
  job.explore("vanish-fixed-config", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    for (int i = 0; i < depth; i++) {
      int st = chooseState(c);
      applyState(s.w.fs, st);
      s.backup(c, O_VIEW | O_STATUS);
      c.prune(s.canon("cfg" + std::to_string(k)), depth - i);
    }
  });
  // Something vanishes in the very backup in which the policies change.
  job.explore("vanish-while-policies-change", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    for (int i = 0; i < 2; i++) {
      int k = c.choose((int)cfgs.size());
      c.note("config{" + cfgs[k].name + "}");
      s.config(cfgs[k].text);
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_VIEW | O_STATUS);
      c.prune(s.canon(), 2 - i);
    }
  });
  job.explore("configured-and-ignored", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = ignoredConfigs();
    int k = c.choose((int)cfgs.size());
    c.note("config{" + cfgs[k].name + "}");
    s.config(cfgs[k].text);
    for (int i = 0; i < depth; i++) {
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_VIEW | O_STATUS);
      c.prune(s.canon("ignored" + std::to_string(k)), depth - i);
    }
  });
}

MC_CHECK(C04, "model_checking") {
  job.rule("All sequences of backups in which both the configuration (all policy combinations of a parent and a child, plus "
           "ignore rules, patterns and deconfiguration) and the file system state change at every step; non-trivial: a distinct "
           "repository state reached.");
  int depth = 3;
  job.explore("policy-changes", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = configs();
    for (int i = 0; i < depth; i++) {
      int k = c.choose((int)cfgs.size());
      c.note("config{" + cfgs[k].name + "}");
      s.config(cfgs[k].text);
      int st = chooseState(c);
      applyState(s.w.fs, st);
      s.backup(c, O_VIEW | O_STATUS | O_REPORT);
      c.prune(s.canon(), depth - i);
    }
  });
  job.explore("configured-and-ignored", [=](mc::Ctx &c) {
    Sim s;
    auto cfgs = ignoredConfigs();
    cfgs.push_back({"d:track", "[track]\n/s/d\n"});
    for (int i = 0; i < (c.thorough ? 3 : 2); i++) {
      int k = c.choose((int)cfgs.size());
      c.note("config{" + cfgs[k].name + "}");
      s.config(cfgs[k].text);
      applyState(s.w.fs, chooseState(c));
      s.backup(c, O_VIEW | O_STATUS | O_REPORT);
      c.prune(s.canon(), 3 - i);
    }
  });
}
