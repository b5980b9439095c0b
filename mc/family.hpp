// Alphabet of the history checks: states of /s/d and below, and configurations for them.
#pragma once
#include "lib.hpp"
namespace fam {
using std::string;
using std::vector;
static const char *const stateNames[] = {
    "absent", "file1", "file2", "link", "emptydir", "dir{c=A}", "dir{c=B}", "dir{c->}", "dir{c/{g}}", "dir{c=A,e}",
    "dir{c=A'}", "dir{c=Amode}", "dir'{c=A}", "dir{c/{}}", "dir{c/{g'}}", "fifo"};
static const int nStates = 16;
inline void applyState(vos::FS &fs, int k, const string &d = "/s/d") {
  static const string A = "content of A, long enough to be stored in a file", B = "content of B: it is another one and long as well";
  fs.mkdir(spec::parentOf(d), 0755, 5000);
  fs.rm(d);
  auto dir = [&](int64_t t, uint32_t perm = 0755) { fs.mkdir(d, perm, t); };
  string c = d + "/c";
  switch (k) {
  case 0: break;
  case 1: fs.mkfile(d, "one", 0644, 1101); break;
  case 2: fs.mkfile(d, "the second content of d, long enough", 0600, 1102, 7, 8); break;
  case 3: fs.mklink(d, "c-target"); break;
  case 4: dir(2004); break;
  case 5: dir(2005); fs.mkfile(c, A, 0644, 1105); break;
  case 6: dir(2005); fs.mkfile(c, B, 0644, 1106); break;
  case 7: dir(2007); fs.mklink(c, "../x", 3, 4); break;
  case 8: dir(2008); fs.mkdir(c, 0700, 2108); fs.mkfile(c + "/g", "g content", 0644, 1108); break;
  case 9: dir(2009); fs.mkfile(c, A, 0644, 1105); fs.mkfile(d + "/e", B, 0644, 1109); break;
  case 10: dir(2005); fs.mkfile(c, A, 0644, 1110); break;
  case 11: dir(2005); fs.mkfile(c, A, 04755, 1105); break;
  case 12: dir(2012, 0700); fs.mkfile(c, A, 0644, 1105, 9, 9); break;
  case 13: dir(2013); fs.mkdir(c, 0700, 2113); break;
  case 14: dir(2008); fs.mkdir(c, 0700, 2108); fs.mkfile(c + "/g", "g changed, and long enough for a file", 0644, 1114); break;
  case 15: fs.mkfifo(d); break;
  }
}
inline int chooseState(mc::Ctx &c, int n = nStates) {
  int k = c.choose(n);
  c.note(stateNames[k]);
  return k;
}
struct Cfg { string name, text; };
inline vector<Cfg> configs(bool extra = true) {
  vector<Cfg> v;
  const char *pol[] = {"", "copy", "mirror", "track"};
  for (int d = 0; d < 4; d++)
    for (int c = 0; c < 4; c++) {
      if (!d && !c) continue;
      Cfg x;
      x.name = string("d:") + (d ? pol[d] : "-") + " c:" + (c ? pol[c] : "-");
      if (d) x.text += string("[") + pol[d] + "]\n/s/d\n";
      if (c) x.text += string("[") + pol[c] + "]\n/s/d/c\n";
      v.push_back(x);
    }
  if (extra) {
    for (int d = 1; d < 4; d++) v.push_back({string("d:") + pol[d] + " ignore c", string("[") + pol[d] + "]\n/s/d\n[ignore]\n/c$\n"});
    v.push_back({"other", "[copy]\n/s/other\n"});
    v.push_back({"d-by-pattern", "[track]\n/s//^d$\n"});
    v.push_back({"s:track", "[track]\n/s\n"});
    v.push_back({"s:copy g:track", "[copy]\n/s\n[track]\n/s/d//./g\n"});
    v.push_back({"s:mirror ignore d", "[mirror]\n/s\n[ignore]\n^/s/d$\n"});
  }
  return v;
}
// Paths which are configured and match an ignore expression as well, alone or below others, directly or by patterns.
inline vector<Cfg> ignoredConfigs() {
  vector<Cfg> v;
  const char *pol[] = {"copy", "mirror", "track"};
  for (int c = 0; c < 3; c++) v.push_back({string("c:") + pol[c] + " ignored", string("[") + pol[c] + "]\n/s/d/c\n[ignore]\nc$\n"});
  for (int d = 0; d < 3; d++)
    for (int c = 0; c < 3; c++) v.push_back({string("d:") + pol[d] + " c:" + pol[c] + " ignored", string("[") + pol[d] + "]\n/s/d\n[" + pol[c] + "]\n/s/d/c\n[ignore]\n/c$\n"});
  v.push_back({"all ignored", "[copy]\n/s/d\n[ignore]\n.\n"});
  v.push_back({"d, c by pattern, ignored", "[track]\n/s//^d$\n[copy]\n/s//^d$//^c$\n[ignore]\n^/s/d/c\n"});
  v.push_back({"below c ignored", "[mirror]\n/s/d\n[copy]\n/s/d/c\n[ignore]\n/c/\n"});
  v.push_back({"d:copy c:track g ignored", "[copy]\n/s/d\n[track]\n/s/d/c\n[ignore]\ng$\ne$\n"});
  return v;
}
}  // namespace fam
