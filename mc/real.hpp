// The same program, built in the ordinary way, on the real kernel: unprivileged, inside a scratch directory.
#pragma once
#include "vos.hpp"
namespace real {
using std::string;
using std::vector;
static const uint32_t UID = 65534;
// True if an ordinary build lies beside this program, and a scratch directory for it could be set up as needed.
bool available();
struct Box {
  string dir;                       // e.g. /tmp/nbreal.x1y2z3/17
  Box();
  ~Box();
  void put(const vos::FS &fs, const string &path);   // makes what is at path equal to fs
  vos::FS get() const;              // everything below dir, at the same place
  vos::Result nb(const vector<string> &args, const string &in, const string &cwd);
};
void cleanup();
}  // namespace real
