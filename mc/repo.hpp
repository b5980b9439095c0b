// Independent implementation of the repository format (decoder, encoder, BLAKE2b) used as oracle.
#pragma once
#include "vos.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace repo {

enum Kind : uint8_t { K_NONE = 0, K_FILE = 1, K_LINK = 2, K_DIR = 3 };
enum Policy : uint8_t { P_NONE = 0, P_COPY = 1, P_MIRROR = 2, P_TRACK = 3, P_IGNORE = 4, P_SUMMARIZE = 5 };
const size_t HASHLEN = 20;

struct State {
  Kind kind = K_NONE;
  uint32_t uid = 0, gid = 0;
  uint32_t mode = 0;     // as stored
  int64_t mtime = 0;
  uint64_t size = 0;
  std::string inl;       // small content (size <= HASHLEN) or the hash
  uint8_t slot = 0;
  std::string target;
  bool operator==(const State &o) const;
};
struct Point { uint64_t id = 0; State st; };
struct Node {
  std::string name;
  uint8_t policy = 0;
  std::vector<Point> hist;
  std::vector<Node> subs;
};
struct Meta {
  std::vector<int64_t> times;
  std::vector<Point> config;
  uint64_t total = 0;
  std::vector<Node> roots;
};
// One recorded position of a field, for targeted corruption.
struct Field { size_t off, len; const char *what; };
bool decode(const std::string &bytes, Meta &m, std::string &err, std::vector<Field> *fields = nullptr);
std::string encode(const Meta &m);
uint64_t countNodes(const std::vector<Node> &v);

std::string blake2b(const std::string &data, size_t outlen = HASHLEN);
std::string hex(const std::string &s);
std::string blobPath(const State &s);       // relative to the repository
std::string blobPath(const std::string &hash, uint64_t size, unsigned slot);

// Resolved view of a repository: every path with policy and history (newest first).
struct RState {
  Kind kind = K_NONE;
  uint32_t uid = 0, gid = 0, perm = 0;
  int64_t mtime = 0;
  std::string data;      // file content or link target
  int64_t more = 0;      // that much is missing in data (contents which are only given by their size)
  uint64_t size() const { return data.size() + more; }
  bool operator==(const RState &o) const {
    return kind == o.kind && (kind == K_NONE || (uid == o.uid && gid == o.gid && data == o.data && more == o.more &&
           (kind == K_LINK || (perm == o.perm && mtime == o.mtime))));
  }
  std::string str() const;
};
struct RPoint { int64_t time; uint64_t id; RState st; };
struct RNode { uint8_t policy; std::vector<RPoint> hist; };
struct View {
  std::vector<int64_t> times;
  std::map<std::string, RNode> paths;
  std::string str() const;
};
extern bool checkHashes;   // false while a scenario uses the weakened hash
struct LoadOpt { bool checkHash = checkHashes; };
// Loads and fully verifies the repository at rpath. Returns "" or a description of what is broken.
std::string load(const vos::FS &fs, const std::string &rpath, View &v, LoadOpt o = LoadOpt());
// Set of blob paths referenced.
void blobs(const Meta &m, std::map<std::string, State> &out);
std::string metaBytes(const vos::FS &fs, const std::string &rpath);
void forEach(const std::vector<Node> &v, const std::string &prefix,
             const std::function<void(const std::string &, const Node &)> &fn);
const char *policyName(int p);
const char *kindName(int k);
}  // namespace repo
