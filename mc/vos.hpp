// Virtual OS: an in-memory POSIX file system, process and libc front end under
// which the real nano-backup code runs. See DESIGN.md ("vos").
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/stat.h>

namespace vos {

enum Type : uint8_t { T_FILE, T_DIR, T_LINK, T_FIFO, T_SOCK };

struct Inode {
  Type type = T_FILE;
  uint32_t perm = 0644;
  uint32_t uid = 0, gid = 0;
  int64_t mtime = 0;
  int mtimens = 123000000;           // its nanoseconds
  int64_t ctime = 0;
  std::string data;                  // file content or link target
  int64_t zeros = 0;                 // that many zero bytes follow,
  std::string tail;                  // and then this (only in worlds with sparse files)
  std::map<std::string, int> ents;   // directory entries
  int parent = -1;                   // for ".."
  int nlink = 1;
  int64_t fakesize = -1;             // >=0: stat reports this size
};
inline int64_t sizeOf(const Inode &i) { return (int64_t)i.data.size() + i.zeros + (int64_t)i.tail.size(); }
using InodeP = std::shared_ptr<Inode>;

struct JOp {
  enum K : uint8_t { Write, Trunc, Entry, SyncFile, SyncDir, SyncAll } k;
  int ino = -1;          // Write/Trunc/Sync*: inode
  int64_t off = 0;       // Write: offset, Trunc: new size
  std::string data;      // Write
  struct E { int dir; std::string name; int to; };  // to==-1: removed
  std::vector<E> es;     // Entry (atomic)
};

struct FS {
  std::vector<InodeP> ino;
  int root = 0;
  bool journaling = false;
  std::vector<JOp> journal;
  std::vector<InodeP> base;  // state when journaling started (all durable)

  FS();
  int alloc(Type t);
  Inode &w(int i);                    // writable (copy on write)
  const Inode &r(int i) const { return *ino[i]; }
  void startJournal();                // everything so far is durable
  void stopJournal();

  // Host-side helpers (never fail silently; abort on misuse).
  int lookup(const std::string &path, bool follow = true) const;  // -1 if missing
  int mkdirs(const std::string &path, uint32_t perm = 0755, int64_t mtime = 1000);
  int mkfile(const std::string &path, const std::string &data, uint32_t perm = 0644, int64_t mtime = 1000,
             uint32_t uid = 0, uint32_t gid = 0);
  int mkdir(const std::string &path, uint32_t perm = 0755, int64_t mtime = 1000, uint32_t uid = 0, uint32_t gid = 0);
  int mklink(const std::string &path, const std::string &target, uint32_t uid = 0, uint32_t gid = 0);
  int mkfifo(const std::string &path);
  void rm(const std::string &path);   // recursive, ok if missing
  void rename(const std::string &from, const std::string &to);  // host-side move
  bool exists(const std::string &path) const { return lookup(path, false) >= 0; }
  std::string content(const std::string &path) const;
  void setmtime(const std::string &path, int64_t t);
  void setTreeFrom(const FS &o, const std::string &path);  // replace subtree by the one in o
  FS compact() const;                 // drop unreachable inodes and the journal
private:
  int parentOf(const std::string &path, std::string &name, int64_t mtime);
};

// Canonical dump of a subtree. flags select what is included.
enum { D_MTIME = 1, D_OWNER = 2, D_PERM = 4, D_DATA = 8, D_DIRMTIME = 16, D_ALL = 31, D_NS = 32 };
std::string dump(const FS &fs, const std::string &path, int flags = D_ALL,
                 const std::function<bool(const std::string &)> &skip = nullptr);
// First difference between two subtrees ("" if equal)
std::string diff(const FS &a, const FS &b, const std::string &path, int flags = D_ALL,
                 const std::function<bool(const std::string &)> &skip = nullptr);

uint64_t hash64(const std::string &s, uint64_t seed = 0x9E3779B97F4A7C15ull);

// --- power loss -----------------------------------------------------------
// Enumerates every durable state that may remain after a power loss now.
// Returns the number of states passed to fn; capped tells whether a cap was hit.
size_t powerLoss(const FS &fs, const std::function<void(const FS &, const std::string &desc)> &fn, bool &capped,
                 size_t cap = 20000);

// --- running the program -----------------------------------------------------
enum Op : uint8_t {
  S_OPEN, S_CLOSE, S_READ, S_WRITE, S_LSEEK, S_FSYNC, S_TRUNC, S_STAT, S_LSTAT, S_FSTAT, S_ACCESS, S_CHMOD, S_CHOWN,
  S_UTIME, S_MKDIR, S_RMDIR, S_UNLINK, S_RENAME, S_LINK, S_SYMLINK, S_READLINK, S_OPENDIR, S_READDIR, S_CLOSEDIR,
  S_GETCWD, S_CHDIR, S_LOCK, S_UNLOCK, S_TTYREAD, S_TTYWRITE, S_TIME, S_MALLOC, S_N
};
extern const char *opName[S_N];

struct Event {
  int idx;               // number of the system call within its process (0-based; malloc events counted separately)
  Op op;
  int proc;              // process number
  std::string path;      // path or link of the file concerned
  std::string path2;     // rename target
  bool mutates;          // could change persistent state
  bool create = false;   // open with O_CREAT / O_WRONLY ...
  int64_t len = 0;       // bytes for read/write
};

struct Act {
  enum K : uint8_t { Go, Fail, KillBefore, KillAfter, KillMid, Short, FailMid } k = Go;
  int err = 0;
};

struct Lock { int ino; int proc; };

struct Plan {                           // environment decisions for one process
  std::function<Act(const Event &)> hook;  // called before each event (may modify world.fs)
  bool mallocEvents = false;
};

enum EndKind { E_EXIT, E_KILLED, E_SIGNAL, E_ABORT, E_HANG, E_UNSUPPORTED };

struct Result {
  EndKind kind = E_EXIT;
  int code = 0;
  int sig = 0;
  std::string out, err;
  int events = 0;        // system calls made
  int mallocs = 0;
  bool outErr = false;
  size_t outAtRead = std::string::npos;   // how much was printed when the input was first read
  std::string note;
  bool ok() const { return kind == E_EXIT && code == 0; }
  bool failedCleanly() const { return kind == E_EXIT && code != 0; }
  bool normal() const { return kind == E_EXIT; }
  std::string str() const;
};

struct RunCfg {
  std::vector<std::string> argv;   // without argv[0]
  std::string in;                  // stdin
  std::string cwd = "/";
  bool tty = false;
  int ttys = -1;                   // which of the three standard streams are terminals (bits; -1: all or none, by tty)
  std::vector<int64_t> clockMs;    // milliseconds by which the clock moves at each reading, repeated
  uint32_t euid = 0;
  uint32_t umask = 022;
  std::map<std::string, std::string> env;
};

static const int64_t sparseFrom = 1 << 20;
struct World {
  FS fs;
  int64_t now = 1700000000;
  uint32_t randSeed = 1;
  int readdirOrder = 0;            // 0 sorted, 1 reverse, 2 hashed
  int64_t blksize = 4096;
  std::vector<Lock> locks;
  bool weakHash = false;           // collapse the hash function (see shim.cpp)
  int weakClasses = 1;             // number of distinct hashes in weak mode
  int64_t stepLimit = 400000;
  bool fence = false;              // every allocation ends at an inaccessible page; freed ones are inaccessible
  bool constHashKey = false;       // the seed of the path lookup is constant
  int readOnly = -1;               // inode of a directory on which a file system is mounted read-only
  bool sparse = false;             // zeros in files beyond sparseFrom take no memory
  int sipClasses = 0;              // >0: path lookup hashes collapse to this many values
};

// Runs one process to its end.
Result run(World &w, const RunCfg &cfg, const Plan *plan = nullptr);

// Runs several processes under a scheduler. sched(step, enabled, last) returns the process to run next; a scheduling
// decision is taken before every event. A process blocked in a lock wait is not enabled.
struct Multi {
  std::vector<RunCfg> procs;
  std::vector<Plan> plans;   // optional
  std::function<int(int step, const std::vector<int> &enabled, int last)> sched;
  std::function<bool(const Event &)> visible;  // only visible events are scheduling points (default: all)
};
std::vector<Result> runMulti(World &w, const Multi &m);

}  // namespace vos
