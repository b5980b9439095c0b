// Process layer and libc front end of the virtual OS.
#include "vos.hpp"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <regex.h>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <utime.h>
#include <wchar.h>

extern "C" {
extern char __start_nbdata[] __attribute__((weak));
extern char __stop_nbdata[] __attribute__((weak));
extern char __start_nbbss[] __attribute__((weak));
extern char __stop_nbbss[] __attribute__((weak));
int nb_main(int, const char **);
FILE *mc_stdin, *mc_stdout, *mc_stderr;
char **mc_environ;
char *mc_program_invocation_name = (char *)"nb", *mc_program_invocation_short_name = (char *)"nb";
}

namespace vos {

struct OpenFile {
  int ino; int64_t off = 0; int flags; std::string path; int tty = -1;  // tty: 0,1,2
  bool dirty = false;          // written since the last sync
};
struct VDir {
  int magic = 0x44495231;
  int fd; std::vector<std::pair<std::string, int>> list; size_t pos = 0; std::string path;
  struct dirent de;
};
struct Proc;
struct Ck { Proc *p; int fd; bool dead; FILE *f; bool writable; };

static const size_t STACK = 8u << 20, ARENA = 96u << 20;
struct Mem { char *stack = nullptr, *arena = nullptr; size_t high = 0; };
static std::vector<Mem> memPool;

struct Proc {
  int id = 0;
  const RunCfg *cfg = nullptr;
  const Plan *plan = nullptr;
  Result res;
  bool done = false, started = false, dying = false;
  std::map<int, OpenFile> fds;
  std::vector<Ck *> files;
  std::vector<VDir *> dirs;
  std::vector<void (*)(void)> atexits;
  size_t inPos = 0;
  int64_t ms = 0;              // by which the clock is ahead of `now`
  size_t clockReads = 0;
  int cwd = 0;
  uint32_t umask = 022;
  Mem mem;
  size_t brk = 0;
  std::vector<size_t> allocs;  // offsets of headers
  std::map<char *, std::pair<size_t, bool>> fenced;  // fence mode: start -> size, live
  std::string data, bss;       // saved images
  ucontext_t ctx;
  int lockWait = -1;           // inode waited for
  int events = 0;
  int64_t now = 0;
  uint32_t rnd = 1;
  std::vector<const char *> argv;
  std::vector<std::string> argvs;
  Event pendingEv;
  bool atEvent = false;
  bool heapBroken = false;
};

static World *W;
static Proc *cur;
static ucontext_t schedCtx;
static sigjmp_buf schedEnv;
static bool multi = false;
static const Multi *multiCfg;
static std::string pristineData;
static bool pristineSaved = false;

// ----- process control -------------------------------------------------------
static void toSched() __attribute__((noreturn));
static void toSched() { siglongjmp(schedEnv, 1); }

static void finish(EndKind k, int code) __attribute__((noreturn));
static void closeStreams(Proc *p, bool flush) {
  while (!p->files.empty()) {
    Ck *c = p->files.back();
    if (!flush) c->dead = true;
    if (flush && c->writable) fflush(c->f);  // may end the process; c is then closed by the caller
    p->files.pop_back();
    c->dead = true;
    fclose(c->f);
    delete c;
  }
  for (auto d : p->dirs) delete d;
  p->dirs.clear();
}
static void checkHeap(Proc *p);
static void releaseProc(Proc *p) {
  p->fds.clear();
  W->locks.erase(std::remove_if(W->locks.begin(), W->locks.end(), [&](const Lock &l) { return l.proc == p->id; }),
                 W->locks.end());
}
static void finish(EndKind k, int code) {
  Proc *p = cur;
  if (p->dying && k == E_EXIT) { /* exit during exit handlers: continue with the stronger code */ }
  p->dying = true;
  p->res.kind = k;
  p->res.code = code;
  if (k == E_EXIT) {
    closeStreams(p, true);
  }
  toSched();
}
static void doExit(int code) __attribute__((noreturn));
static void doExit(int code) {
  Proc *p = cur;
  p->res.code = code;
  while (!p->atexits.empty()) {
    auto f = p->atexits.back();
    p->atexits.pop_back();
    f();
  }
  finish(E_EXIT, code);
}

static void sigHandler(int sig, siginfo_t *, void *) {
  if (cur) {
    Proc *p = cur;
    p->res.kind = sig == SIGVTALRM ? E_HANG : sig == SIGABRT ? E_ABORT : E_SIGNAL;
    p->res.sig = sig;
    siglongjmp(schedEnv, 1);
  }
  if (sig == SIGVTALRM) return;
  signal(sig, SIG_DFL);
  raise(sig);
}
static bool sigInit = false;
static void initSignals() {
  if (sigInit) return;
  sigInit = true;
  static char alt[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = sigHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

static std::string pathOf(int ino) {
  // Best effort name of an inode for event descriptions.
  return "#" + std::to_string(ino);
}

// Called at every system call. Returns true if the call shall fail (errno set).
static Act event(Op op, const std::string &path, bool mutates, const std::string &path2 = "", bool create = false,
                 int64_t len = 0) {
  Proc *p = cur;
  Event e;
  e.op = op;
  e.proc = p->id;
  e.path = path;
  e.path2 = path2;
  e.mutates = mutates;
  e.create = create;
  e.len = len;
  if (op == S_MALLOC) {
    e.idx = p->res.mallocs++;
    if (!p->plan || !p->plan->mallocEvents) return Act();
  } else {
    e.idx = p->events++;
    p->res.events = p->events;
    if (p->events > W->stepLimit) { finish(E_HANG, 0); }
  }
  if (multi && op != S_MALLOC && op != S_TTYWRITE && (!multiCfg->visible || multiCfg->visible(e))) {
    p->pendingEv = e;
    p->atEvent = true;
    swapcontext(&p->ctx, &schedCtx);
    p->atEvent = false;
  }
  Act a;
  if (p->plan && p->plan->hook) a = p->plan->hook(e);
  if (a.k == Act::KillBefore) finish(E_KILLED, 0);
  return a;
}
static inline void after(const Act &a) {
  if (a.k == Act::KillAfter) finish(E_KILLED, 0);
}
#define EV(...)                                                                                                        \
  Act act = event(__VA_ARGS__);                                                                                        \
  if (act.k == Act::Fail) { errno = act.err; return FAILV; }
#define RET(v)                                                                                                         \
  do { auto rv__ = (v); after(act); return rv__; } while (0)
#define ERR(e)                                                                                                         \
  do { after(act); errno = (e); return FAILV; } while (0)

// ----- path resolution -------------------------------------------------------
static bool isTerm(int stream) {
  return cur->cfg->ttys >= 0 ? cur->cfg->ttys >> stream & 1 : cur->cfg->tty;
}
static bool perm(const Inode &i, int want) {
  if (cur->cfg->euid == 0) return true;
  int bits = i.uid == cur->cfg->euid ? (i.perm >> 6) & 7 : i.gid == cur->cfg->euid ? (i.perm >> 3) & 7 : i.perm & 7;
  return (bits & want) == want;
}
static bool isReadOnly(int n) {   // lies on a file system mounted read-only
  if (W->readOnly < 0) return false;
  for (int k = 0; n >= 0 && k < 5000; k++) {
    if (n == W->readOnly) return true;
    if (n == W->fs.root) return false;
    n = W->fs.r(n).parent;
  }
  return false;
}
struct Res { int err = 0; int parent = -1; std::string name; int ino = -1; bool trailing = false; };
static Res resolveAt(int start, const char *path, bool follow, int &links) {
  Res R;
  if (!*path) { R.err = ENOENT; return R; }
  size_t L = strlen(path);
  if (L >= 4096) { R.err = ENAMETOOLONG; return R; }
  int c = *path == '/' ? W->fs.root : start;
  size_t i = 0;
  R.ino = c;
  R.parent = c;
  R.name = ".";
  while (i < L) {
    while (i < L && path[i] == '/') i++;
    if (i >= L) break;
    size_t j = i;
    while (j < L && path[j] != '/') j++;
    std::string name(path + i, j - i);
    size_t k = j;
    while (k < L && path[k] == '/') k++;
    bool last = k >= L, slash = j < L;
    const Inode &d = W->fs.r(c);
    if (d.type != T_DIR) { R.err = ENOTDIR; return R; }
    if (!perm(d, 1)) { R.err = EACCES; return R; }
    if (name.size() > 255) { R.err = ENAMETOOLONG; return R; }
    int n;
    if (name == ".") n = c;
    else if (name == "..") n = d.parent;
    else {
      auto it = d.ents.find(name);
      n = it == d.ents.end() ? -1 : it->second;
    }
    R.parent = c;
    R.name = name;
    R.trailing = slash;
    if (n < 0) {
      R.ino = -1;
      if (!last) R.err = ENOENT;
      return R;
    }
    if (W->fs.r(n).type == T_LINK && (!last || follow || slash)) {
      if (++links > 40) { R.err = ELOOP; return R; }
      Res q = resolveAt(c, W->fs.r(n).data.c_str(), true, links);
      if (q.err) { R.err = q.err; R.ino = -1; return R; }
      if (q.ino < 0) {
        if (!last) { R.err = ENOENT; R.ino = -1; return R; }
        q.trailing = slash;
        return q;  // dangling link: creation would happen at the target
      }
      n = q.ino;
      if (last) { R.parent = q.parent; R.name = q.name; }
    }
    if (slash && W->fs.r(n).type != T_DIR) { R.err = ENOTDIR; return R; }
    c = n;
    R.ino = n;
    i = k;
  }
  return R;
}
static Res resolve(const char *path, bool follow, int start = -1) {
  int links = 0;
  if (!path) { Res r; r.err = EFAULT; return r; }
  return resolveAt(start < 0 ? cur->cwd : start, path, follow, links);
}
static int dirfdStart(int dfd, int *err) {
  if (dfd == AT_FDCWD) return cur->cwd;
  auto it = cur->fds.find(dfd);
  if (it == cur->fds.end()) { *err = EBADF; return -1; }
  return it->second.ino;
}

static void touchDir(int d) { Inode &i = W->fs.w(d); i.mtime = i.ctime = cur->now; }
static void jEntry(std::vector<JOp::E> es) {
  if (!W->fs.journaling) return;
  JOp o;
  o.k = JOp::Entry;
  o.es = std::move(es);
  W->fs.journal.push_back(std::move(o));
}
static void jData(JOp::K k, int ino, int64_t off, const void *d, size_t n) {
  if (!W->fs.journaling) return;
  JOp o;
  o.k = k;
  o.ino = ino;
  o.off = off;
  if (d) o.data.assign((const char *)d, n);
  W->fs.journal.push_back(std::move(o));
}
static void fillStat(struct stat *st, int n) {
  const Inode &i = W->fs.r(n);
  memset(st, 0, sizeof *st);
  static const mode_t tm[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFSOCK};
  st->st_dev = 1;
  st->st_ino = n + 1;
  st->st_mode = tm[i.type] | i.perm;
  st->st_nlink = i.type == T_DIR ? 2 : i.nlink;
  st->st_uid = i.uid;
  st->st_gid = i.gid;
  st->st_size = i.fakesize >= 0 ? i.fakesize : i.type == T_DIR ? 4096 : sizeOf(i);
  st->st_blksize = W->blksize;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = st->st_atim.tv_sec = i.mtime;
  st->st_mtim.tv_nsec = st->st_atim.tv_nsec = i.mtimens;
  st->st_ctim.tv_sec = i.ctime;
}
static int newFd(OpenFile of) {
  int fd = 3;
  while (cur->fds.count(fd)) fd++;
  if (fd >= 1024) { errno = EMFILE; return -1; }
  cur->fds[fd] = std::move(of);
  return fd;
}
static bool canModifyEntry(int dir, int victim) {
  const Inode &d = W->fs.r(dir);
  if (!perm(d, 3)) return false;
  if (cur->cfg->euid != 0 && (d.perm & 01000) && d.uid != cur->cfg->euid && victim >= 0 &&
      W->fs.r(victim).uid != cur->cfg->euid)
    return false;
  return true;
}
// Linux drops these bits when somebody else than root changes a file.
static void dropPrivileges(Inode &i) {
  if (cur->cfg->euid != 0) i.perm &= ~((i.perm & 010) ? 06000u : 04000u);
}
static void truncTo(int n, int64_t len) {
  Inode &i = W->fs.w(n);
  if ((int64_t)i.data.size() != len || true) {
    jData(JOp::Trunc, n, len, nullptr, 0);
    if (i.zeros || i.tail.size()) {
      if (len > sizeOf(i)) { if (i.tail.size()) abort(); i.zeros += len - sizeOf(i); }
      else if (len >= (int64_t)i.data.size() + i.zeros) i.tail.resize(len - i.data.size() - i.zeros);
      else { i.tail.clear(); i.zeros = std::max<int64_t>(0, len - (int64_t)i.data.size()); }
    }
    if (len < (int64_t)i.data.size() || !W->sparse) i.data.resize(len, '\0');
    else if (len > sizeOf(i)) i.zeros += len - sizeOf(i);
    i.mtime = i.ctime = cur->now;
    dropPrivileges(i);
  }
}

// ----- system calls ----------------------------------------------------------
#define FAILV -1
static int vopen(const char *path, int flags, mode_t mode, int start = -1) {
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  EV(S_OPEN, path ? path : "", (flags & O_CREAT) || (flags & O_TRUNC), "", wr || (flags & O_CREAT));
  Res r = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), start);
  if (r.err) ERR(r.err);
  int n = r.ino;
  if (n < 0) {
    if (!(flags & O_CREAT)) ERR(ENOENT);
    if (r.trailing) ERR(EISDIR);
    if (isReadOnly(r.parent)) ERR(EROFS);
    if (!canModifyEntry(r.parent, -1)) ERR(EACCES);
    n = W->fs.alloc(T_FILE);
    Inode &i = W->fs.w(n);
    i.perm = mode & ~cur->umask & 07777;
    i.uid = i.gid = cur->cfg->euid;
    i.mtime = i.ctime = cur->now;
    i.parent = r.parent;
    if (W->fs.r(r.parent).perm & 02000) i.gid = W->fs.r(r.parent).gid;
    W->fs.w(r.parent).ents[r.name] = n;
    touchDir(r.parent);
    jEntry({{r.parent, r.name, n}});
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
    const Inode &i = W->fs.r(n);
    if (i.type == T_LINK) ERR(ELOOP);
    if (i.type == T_DIR && (wr || (flags & O_CREAT))) ERR(EISDIR);
    if ((flags & O_DIRECTORY) && i.type != T_DIR) ERR(ENOTDIR);
    if (i.type == T_SOCK) ERR(ENXIO);
    if (i.type == T_FIFO && !(flags & O_NONBLOCK)) { finish(E_HANG, 0); }
    int want = ((flags & O_ACCMODE) == O_RDONLY ? 4 : (flags & O_ACCMODE) == O_WRONLY ? 2 : 6);
    if ((want & 2 || flags & O_TRUNC) && i.type == T_FILE && isReadOnly(n)) ERR(EROFS);
    if (!perm(i, want)) ERR(EACCES);
    if ((flags & O_TRUNC) && wr && i.type == T_FILE) truncTo(n, 0);
  }
  OpenFile of{n, 0, flags, path, -1};
  int fd = newFd(of);
  RET(fd);
}
static OpenFile *gfd(int fd) {
  auto it = cur->fds.find(fd);
  return it == cur->fds.end() ? nullptr : &it->second;
}
static void dropLocks(int ino) {
  auto &L = W->locks;
  L.erase(std::remove_if(L.begin(), L.end(), [&](const Lock &l) { return l.ino == ino && l.proc == cur->id; }),
          L.end());
}
static int vclose(int fd) {
  OpenFile *f = gfd(fd);
  Act act = event(S_CLOSE, f ? f->path : "", false);
  f = gfd(fd);
  if (!f) ERR(EBADF);
  if (f->tty < 0) dropLocks(f->ino);
  if (act.k == Act::Fail && f->dirty) {   // an error surfacing at close: what was written last did not arrive
    std::string &d = W->fs.w(f->ino).data;
    d.resize(d.size() / 2);
  }
  cur->fds.erase(fd);
  if (act.k == Act::Fail) { errno = act.err; return -1; }
  RET(0);
}
static void readAt(const Inode &i, int64_t off, char *buf, size_t k) {
  int64_t z0 = i.data.size(), t0 = z0 + i.zeros;
  if (off < z0) { size_t m = std::min(k, (size_t)(z0 - off)); memcpy(buf, i.data.data() + off, m); buf += m; off += m; k -= m; }
  if (k && off < t0) { size_t m = std::min(k, (size_t)(t0 - off)); memset(buf, 0, m); buf += m; off += m; k -= m; }
  if (k) memcpy(buf, i.tail.data() + (off - t0), k);
}
static void appendSparse(Inode &i, const char *b, size_t n) {
  if (!i.zeros && i.tail.empty() && (int64_t)i.data.size() < sparseFrom) {
    size_t m = std::min(n, (size_t)(sparseFrom - i.data.size()));
    i.data.append(b, m);
    b += m; n -= m;
  }
  if (!n) return;
  if (i.tail.empty()) {
    size_t z = 0;
    if (n > 16 && !b[0] && !memcmp(b, b + 1, n - 1)) z = n;
    while (z < n && !b[z]) z++;
    i.zeros += z;
    b += z; n -= z;
  }
  i.tail.append(b, n);
}
static ssize_t vread(int fd, void *buf, size_t n, int64_t at = -1) {
  OpenFile *f = gfd(fd);
  if (f && f->tty >= 0) {
    if (cur->res.outAtRead == std::string::npos) cur->res.outAtRead = cur->res.out.size();
    EV(S_TTYREAD, "<stdin>", false, "", false, (int64_t)n);
    const std::string &s = cur->cfg->in;
    size_t k = std::min(n, s.size() - cur->inPos);
    if (isTerm(f->tty)) {  // line by line
      auto nl = s.find('\n', cur->inPos);
      if (nl != std::string::npos) k = std::min(k, nl + 1 - cur->inPos);
    }
    memcpy(buf, s.data() + cur->inPos, k);
    cur->inPos += k;
    RET((ssize_t)k);
  }
  EV(S_READ, f ? f->path : "", false, "", false, (int64_t)n);
  f = gfd(fd);
  if (!f || (f->flags & O_ACCMODE) == O_WRONLY) ERR(EBADF);
  const Inode &i = W->fs.r(f->ino);
  if (i.type == T_DIR) ERR(EISDIR);
  int64_t off = at >= 0 ? at : f->off;
  size_t k = off >= sizeOf(i) ? 0 : std::min(n, (size_t)(sizeOf(i) - off));
  if (act.k == Act::Short && k > 1) k = k / 2;
  readAt(i, off, (char *)buf, k);
  if (at < 0) f->off += k;
  RET((ssize_t)k);
}
static ssize_t vwrite(int fd, const void *buf, size_t n, int64_t at = -1) {
  OpenFile *f = gfd(fd);
  if (f && f->tty >= 0) {
    EV(S_TTYWRITE, f->tty == 2 ? "<stderr>" : "<stdout>", false, "", false, (int64_t)n);
    if (f->tty == 2) cur->res.err.append((const char *)buf, n);
    else cur->res.out.append((const char *)buf, n);
    if (cur->res.out.size() + cur->res.err.size() > (16u << 20)) finish(E_HANG, 0);
    RET((ssize_t)n);
  }
  EV(S_WRITE, f ? f->path : "", true, "", false, (int64_t)n);
  f = gfd(fd);
  if (!f || (f->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
  if (act.k == Act::Short || act.k == Act::KillMid || act.k == Act::FailMid) n = n / 2;
  if (f->flags & O_APPEND) f->off = sizeOf(W->fs.r(f->ino));
  int64_t off = at >= 0 ? at : f->off;
  Inode &i = W->fs.w(f->ino);
  f->dirty = true;
  if (n) {
    jData(JOp::Write, f->ino, off, buf, n);
    if (W->sparse && off == sizeOf(i)) appendSparse(i, (const char *)buf, n);
    else {
      if (i.zeros || i.tail.size()) abort();  // not needed so far
      if ((int64_t)i.data.size() < off) i.data.resize(off, '\0');
      if (i.data.size() < off + n) i.data.resize(off + n);
      memcpy(&i.data[off], buf, n);
    }
    i.mtime = i.ctime = cur->now;
    dropPrivileges(i);
  }
  if (at < 0) f->off += n;
  if (act.k == Act::KillMid) finish(E_KILLED, 0);
  if (act.k == Act::FailMid) { errno = act.err; return -1; }
  if (n == 0 && act.k == Act::Short) { errno = EINTR; return -1; }
  RET((ssize_t)n);
}
static int64_t vseek(int fd, int64_t off, int whence) {
  OpenFile *f = gfd(fd);
  EV(S_LSEEK, f ? f->path : "", false);
  f = gfd(fd);
  if (!f) ERR(EBADF);
  if (f->tty >= 0) ERR(ESPIPE);
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->off : sizeOf(W->fs.r(f->ino));
  if (b + off < 0) ERR(EINVAL);
  f->off = b + off;
  RET(f->off);
}
static int vsync(int fd) {
  OpenFile *f = gfd(fd);
  EV(S_FSYNC, f ? f->path : "", false);
  f = gfd(fd);
  if (!f) ERR(EBADF);
  if (f->tty >= 0) ERR(EINVAL);
  f->dirty = false;
  if (W->fs.journaling)
    jData(W->fs.r(f->ino).type == T_DIR ? JOp::SyncDir : JOp::SyncFile, f->ino, 0, nullptr, 0);
  RET(0);
}
static int vftruncate(int fd, int64_t len) {
  OpenFile *f = gfd(fd);
  EV(S_TRUNC, f ? f->path : "", true);
  f = gfd(fd);
  if (!f || (f->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
  if (len < 0 || len > (64 << 20)) ERR(len < 0 ? EINVAL : EFBIG);
  truncTo(f->ino, len);
  RET(0);
}
static int vstat(const char *path, struct stat *st, bool follow, int start = -1) {
  EV(follow ? S_STAT : S_LSTAT, path ? path : "", false);
  Res r = resolve(path, follow, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  fillStat(st, r.ino);
  RET(0);
}
static int vfstat(int fd, struct stat *st) {
  OpenFile *f = gfd(fd);
  EV(S_FSTAT, f ? f->path : "", false);
  f = gfd(fd);
  if (!f) ERR(EBADF);
  if (f->tty >= 0) {
    memset(st, 0, sizeof *st);
    st->st_mode = (isTerm(f->tty) ? S_IFCHR : S_IFIFO) | 0600;
    st->st_blksize = 1024;
  } else
    fillStat(st, f->ino);
  RET(0);
}
static int vaccess(const char *path, int mode, int start = -1) {
  EV(S_ACCESS, path ? path : "", false);
  Res r = resolve(path, true, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  if ((mode & 2) && isReadOnly(r.ino)) ERR(EROFS);
  if (mode && !perm(W->fs.r(r.ino), mode)) ERR(EACCES);
  RET(0);
}
static int chmodIno(int n, mode_t m) {
  if (isReadOnly(n)) return EROFS;
  const Inode &i = W->fs.r(n);
  if (cur->cfg->euid && i.uid != cur->cfg->euid) return EPERM;
  if (cur->cfg->euid && i.gid != cur->cfg->euid) m &= ~02000u;   // not a member of the group
  W->fs.w(n).perm = m & 07777;
  W->fs.w(n).ctime = cur->now;
  return 0;
}
static int vchmod(const char *path, mode_t m, bool follow = true, int start = -1) {
  EV(S_CHMOD, path ? path : "", true);
  Res r = resolve(path, follow, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  if (W->fs.r(r.ino).type == T_LINK) ERR(EOPNOTSUPP);
  if (int e = chmodIno(r.ino, m)) ERR(e);
  RET(0);
}
static int chownIno(int n, uid_t u, gid_t g) {
  if (isReadOnly(n)) return EROFS;
  const Inode &i = W->fs.r(n);
  if (cur->cfg->euid) {
    if (i.uid != cur->cfg->euid) return EPERM;
    if (u != (uid_t)-1 && u != i.uid) return EPERM;
    if (g != (gid_t)-1 && g != i.gid && g != cur->cfg->euid) return EPERM;
  }
  Inode &x = W->fs.w(n);
  if (u != (uid_t)-1) x.uid = u;
  if (g != (gid_t)-1) x.gid = g;
  if (x.type == T_FILE) {
    x.perm &= ~04000u;
    if (x.perm & 010) x.perm &= ~02000u;
  }
  x.ctime = cur->now;
  return 0;
}
static int vchown(const char *path, uid_t u, gid_t g, bool follow, int start = -1) {
  EV(S_CHOWN, path ? path : "", true);
  Res r = resolve(path, follow, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  if (int e = chownIno(r.ino, u, g)) ERR(e);
  RET(0);
}
static int vutime(const char *path, const int64_t *t, bool follow, int start = -1, int ns = 0) {
  EV(S_UTIME, path ? path : "", true);
  Res r = resolve(path, follow, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  const Inode &i = W->fs.r(r.ino);
  if (isReadOnly(r.ino)) ERR(EROFS);
  if (cur->cfg->euid && i.uid != cur->cfg->euid && (t || !perm(i, 2))) ERR(t ? EPERM : EACCES);
  W->fs.w(r.ino).mtime = t ? *t : cur->now;
  W->fs.w(r.ino).mtimens = ns;
  W->fs.w(r.ino).ctime = cur->now;
  RET(0);
}
static int vmkdir(const char *path, mode_t mode, int start = -1) {
  EV(S_MKDIR, path ? path : "", true);
  Res r = resolve(path, false, start);
  if (r.err) ERR(r.err);
  if (r.ino >= 0) ERR(EEXIST);
  if (isReadOnly(r.parent)) ERR(EROFS);
  if (!canModifyEntry(r.parent, -1)) ERR(EACCES);
  int n = W->fs.alloc(T_DIR);
  Inode &i = W->fs.w(n);
  i.perm = mode & ~cur->umask & 01777;
  i.uid = i.gid = cur->cfg->euid;
  i.mtime = i.ctime = cur->now;
  i.parent = r.parent;
  const Inode &pd = W->fs.r(r.parent);
  if (pd.perm & 02000) { i.gid = pd.gid; i.perm |= 02000; }
  W->fs.w(r.parent).ents[r.name] = n;
  touchDir(r.parent);
  jEntry({{r.parent, r.name, n}});
  RET(0);
}
static int removeEntry(const char *path, int mode, int start = -1) {  // 0 unlink, 1 rmdir, 2 either
  EV(mode == 1 ? S_RMDIR : S_UNLINK, path ? path : "", true);
  Res r = resolve(path, false, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  bool dir = W->fs.r(r.ino).type == T_DIR;
  if (r.name == "." || r.ino == W->fs.root) ERR(r.name == "." ? EINVAL : EBUSY);
  if (r.name == "..") ERR(ENOTEMPTY);
  if (dir && mode == 0) ERR(EISDIR);
  if (!dir && mode == 1) ERR(ENOTDIR);
  if (isReadOnly(r.parent)) ERR(EROFS);
  if (!canModifyEntry(r.parent, r.ino)) ERR(EACCES);
  if (dir && !W->fs.r(r.ino).ents.empty()) ERR(ENOTEMPTY);
  W->fs.w(r.parent).ents.erase(r.name);
  W->fs.w(r.ino).nlink--;
  touchDir(r.parent);
  jEntry({{r.parent, r.name, -1}});
  RET(0);
}
static int vrename(const char *a, const char *b, int s1 = -1, int s2 = -1, bool noreplace = false) {
  EV(S_RENAME, a ? a : "", true, b ? b : "");
  Res x = resolve(a, false, s1), y = resolve(b, false, s2);
  if (x.err) ERR(x.err);
  if (x.ino < 0) ERR(ENOENT);
  if (y.err) ERR(y.err);
  if (noreplace && y.ino >= 0) ERR(EEXIST);
  const Inode &xi = W->fs.r(x.ino);
  if (x.name == "." || x.name == ".." || y.name == "." || y.name == "..") ERR(EBUSY);
  if (isReadOnly(x.parent) || isReadOnly(y.parent)) ERR(isReadOnly(x.parent) == isReadOnly(y.parent) ? EROFS : EXDEV);
  if (!canModifyEntry(x.parent, x.ino) || !canModifyEntry(y.parent, y.ino)) ERR(EACCES);
  if (x.ino == y.ino) RET(0);
  if (y.ino >= 0) {
    const Inode &yi = W->fs.r(y.ino);
    if (yi.type == T_DIR && xi.type != T_DIR) ERR(EISDIR);
    if (yi.type != T_DIR && xi.type == T_DIR) ERR(ENOTDIR);
    if (yi.type == T_DIR && !yi.ents.empty()) ERR(ENOTEMPTY);
  } else if (y.trailing && xi.type != T_DIR)
    ERR(ENOTDIR);
  if (xi.type == T_DIR)
    for (int d = y.parent;; d = W->fs.r(d).parent) {
      if (d == x.ino) ERR(EINVAL);
      if (d == W->fs.root) break;
    }
  W->fs.w(x.parent).ents.erase(x.name);
  W->fs.w(y.parent).ents[y.name] = x.ino;
  W->fs.w(x.ino).parent = y.parent;
  touchDir(x.parent);
  touchDir(y.parent);
  jEntry({{x.parent, x.name, -1}, {y.parent, y.name, x.ino}});
  RET(0);
}
static int vlink(const char *a, const char *b, bool follow = false) {
  EV(S_LINK, a ? a : "", true, b ? b : "");
  Res x = resolve(a, follow), y = resolve(b, false);
  if (x.err) ERR(x.err);
  if (x.ino < 0) ERR(ENOENT);
  if (y.err) ERR(y.err);
  if (y.ino >= 0) ERR(EEXIST);
  if (W->fs.r(x.ino).type == T_DIR) ERR(EPERM);
  if (isReadOnly(y.parent) || isReadOnly(x.ino)) ERR(isReadOnly(y.parent) && isReadOnly(x.ino) ? EROFS : EXDEV);
  if (!canModifyEntry(y.parent, -1)) ERR(EACCES);
  W->fs.w(x.ino).nlink++;
  W->fs.w(y.parent).ents[y.name] = x.ino;
  touchDir(y.parent);
  jEntry({{y.parent, y.name, x.ino}});
  RET(0);
}
static int vsymlink(const char *target, const char *path, int start = -1) {
  EV(S_SYMLINK, path ? path : "", true, target ? target : "");
  Res r = resolve(path, false, start);
  if (r.err) ERR(r.err);
  if (r.ino >= 0) ERR(EEXIST);
  if (!*target) ERR(ENOENT);
  if (strlen(target) >= 4096) ERR(ENAMETOOLONG);
  if (isReadOnly(r.parent)) ERR(EROFS);
  if (!canModifyEntry(r.parent, -1)) ERR(EACCES);
  int n = W->fs.alloc(T_LINK);
  Inode &i = W->fs.w(n);
  i.data = target;
  i.perm = 0777;
  i.uid = i.gid = cur->cfg->euid;
  i.mtime = i.ctime = cur->now;
  i.parent = r.parent;
  if (W->fs.r(r.parent).perm & 02000) i.gid = W->fs.r(r.parent).gid;
  W->fs.w(r.parent).ents[r.name] = n;
  touchDir(r.parent);
  jEntry({{r.parent, r.name, n}});
  RET(0);
}
static ssize_t vreadlink(const char *path, char *buf, size_t n, int start = -1) {
  EV(S_READLINK, path ? path : "", false);
  Res r = resolve(path, false, start);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  const Inode &i = W->fs.r(r.ino);
  if (i.type != T_LINK) ERR(EINVAL);
  size_t k = std::min(n, i.data.size());
  memcpy(buf, i.data.data(), k);
  RET((ssize_t)k);
}
static int dirList(VDir *d, int ino) {
  const Inode &i = W->fs.r(ino);
  d->list.push_back({".", ino});
  d->list.push_back({"..", i.parent});
  std::vector<std::pair<std::string, int>> v(i.ents.begin(), i.ents.end());
  if (W->readdirOrder == 1) std::reverse(v.begin(), v.end());
  else if (W->readdirOrder == 2)
    std::sort(v.begin(), v.end(), [](const std::pair<std::string, int> &a, const std::pair<std::string, int> &b) {
      return hash64(a.first) < hash64(b.first);
    });
  if (W->readdirOrder == 2) { d->list.insert(d->list.begin(), v.begin(), v.end()); }
  else d->list.insert(d->list.end(), v.begin(), v.end());
  return 0;
}
#undef FAILV
#define FAILV nullptr
static VDir *vopendir(const char *path) {
  EV(S_OPENDIR, path ? path : "", false);
  Res r = resolve(path, true);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  if (W->fs.r(r.ino).type != T_DIR) ERR(ENOTDIR);
  if (!perm(W->fs.r(r.ino), 4)) ERR(EACCES);
  OpenFile of{r.ino, 0, O_RDONLY | O_DIRECTORY, path, -1};
  int fd = newFd(of);
  if (fd < 0) return nullptr;
  VDir *d = new VDir;
  d->fd = fd;
  d->path = path;
  dirList(d, r.ino);
  cur->dirs.push_back(d);
  RET(d);
}
static struct dirent *vreaddir(VDir *d) {
  EV(S_READDIR, d->path, false);
  if (d->pos >= d->list.size()) RET((struct dirent *)nullptr);
  auto &e = d->list[d->pos++];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = e.second + 1;
  d->de.d_off = d->pos;
  d->de.d_reclen = sizeof d->de;
  static const unsigned char dt[] = {DT_REG, DT_DIR, DT_LNK, DT_FIFO, DT_SOCK};
  d->de.d_type = dt[W->fs.r(e.second).type];
  strcpy(d->de.d_name, e.first.c_str());
  RET(&d->de);
}
static char *vgetcwd(char *buf, size_t n) {
  EV(S_GETCWD, "", false);
  std::string s;
  for (int c = cur->cwd; c != W->fs.root;) {
    int p = W->fs.r(c).parent;
    std::string nm;
    for (auto &e : W->fs.r(p).ents)
      if (e.second == c) nm = e.first;
    if (nm.empty()) ERR(ENOENT);
    s = "/" + nm + s;
    c = p;
  }
  if (s.empty()) s = "/";
  if (!buf) {
    if (!n) n = s.size() + 1;
    buf = (char *)malloc(n);
  }
  if (s.size() + 1 > n) ERR(n ? ERANGE : EINVAL);
  strcpy(buf, s.c_str());
  RET(buf);
}
#undef FAILV
#define FAILV -1
static int vclosedir(VDir *d) {
  Act act = event(S_CLOSEDIR, d->path, false);
  cur->dirs.erase(std::find(cur->dirs.begin(), cur->dirs.end(), d));
  int fd = d->fd;
  delete d;
  OpenFile *f = gfd(fd);
  if (f) dropLocks(f->ino);
  cur->fds.erase(fd);
  if (act.k == Act::Fail) { errno = act.err; return -1; }
  RET(0);
}
static int vchdir(const char *p) {
  EV(S_CHDIR, p, false);
  Res r = resolve(p, true);
  if (r.err) ERR(r.err);
  if (r.ino < 0) ERR(ENOENT);
  if (W->fs.r(r.ino).type != T_DIR) ERR(ENOTDIR);
  cur->cwd = r.ino;
  RET(0);
}
static int lockHolder(int ino, int exceptProc) {
  for (auto &l : W->locks)
    if (l.ino == ino && l.proc != exceptProc) return l.proc;
  return -1;
}
// kind: 0 unlock, 1 try, 2 wait, 3 test
static int vlock(int fd, int kind) {
  OpenFile *f = gfd(fd);
  EV(kind == 0 ? S_UNLOCK : S_LOCK, f ? f->path : "", false);
  f = gfd(fd);
  if (!f) ERR(EBADF);
  int ino = f->ino;
  if (kind == 0) { dropLocks(ino); RET(0); }
  if (kind != 3 && (f->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
  while (lockHolder(ino, cur->id) >= 0) {
    if (kind != 2) ERR(EAGAIN);
    if (!multi) finish(E_HANG, 0);
    cur->lockWait = ino;
    swapcontext(&cur->ctx, &schedCtx);
    cur->lockWait = -1;
  }
  if (kind == 3) RET(0);
  bool have = false;
  for (auto &l : W->locks) have |= l.ino == ino && l.proc == cur->id;
  if (!have) W->locks.push_back({ino, cur->id});
  RET(0);
}

// ----- stdio ----------------------------------------------------------------
static ssize_t ckRead(void *c, char *b, size_t n) {
  Ck *k = (Ck *)c;
  if (k->dead) return 0;
  return vread(k->fd, b, n);
}
static ssize_t ckWrite(void *c, const char *b, size_t n) {
  Ck *k = (Ck *)c;
  if (k->dead) return n;
  size_t done = 0;
  while (done < n) {   // like the C library: short writes are continued
    ssize_t r = vwrite(k->fd, b + done, n - done);
    if (r < 0) break;
    done += r;
  }
  return done;
}
static int ckSeek(void *c, off64_t *o, int w) {
  Ck *k = (Ck *)c;
  if (k->dead) return -1;
  int64_t r = vseek(k->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ckClose(void *) { return 0; }
static FILE *wrapFd(int fd, const char *mode, bool writable) {
  Ck *k = new Ck{cur, fd, false, nullptr, writable};
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  k->f = fopencookie(k, mode, io);
  cur->files.push_back(k);
  return k->f;
}
static Ck *ckOf(FILE *f) {
  for (auto k : cur->files)
    if (k->f == f) return k;
  return nullptr;
}
static FILE *vfopen(const char *path, const char *mode) {
  int fl = 0;
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { errno = EINVAL; return nullptr; }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = vopen(path, fl, 0666);
  if (fd < 0) return nullptr;
  return wrapFd(fd, mode, mode[0] != 'r' || plus);
}
static int vfclose(FILE *f) {
  Ck *k = ckOf(f);
  if (!k) { cur->heapBroken = true; errno = EBADF; return EOF; }   // closed twice, or never opened
  int r = 0, e = 0;
  if (k->writable && fflush(f) != 0) { r = EOF; e = errno; }
  if (ferror(f) && k->writable && r == 0) {}
  if (vclose(k->fd) != 0) {
    if (!r) e = errno;
    r = EOF;
  }
  k->dead = true;
  cur->files.erase(std::find(cur->files.begin(), cur->files.end(), k));
  fclose(f);
  delete k;
  if (r) errno = e;
  return r;
}

// ----- memory ---------------------------------------------------------------
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t LIVE = 0x4c495645aa55aa55ull, DEAD = 0x4445414455aa55aaull;
static void *amalloc(size_t n) {
  Proc *p = cur;
  if (n >> 32 == 0xDDDDDDDDu || n >> 32 == 0xBEBEBEBEu) p->heapBroken = true;   // a size read from freed or uninitialized memory
  Act a = event(S_MALLOC, "", false, "", false, (int64_t)n);
  if (a.k == Act::Fail) { errno = ENOMEM; return nullptr; }
  if (n > ARENA) { errno = ENOMEM; return nullptr; }
  if (W->fence) {   // every block ends at an inaccessible page
    size_t pages = (n + 4095) / 4096, tot = (pages + 1) * 4096;
    if (p->brk + tot > ARENA) { errno = ENOMEM; return nullptr; }
    char *b = p->mem.arena + p->brk, *u = b + pages * 4096 - n;
    memset(b, 0xBE, pages * 4096);
    mprotect(b + pages * 4096, 4096, PROT_NONE);
    p->brk += tot;
    p->fenced[u] = {n, true};
    return u;
  }
  size_t tot = (sizeof(Hdr) + n + 16 + 15) & ~(size_t)15;
  if (p->brk + tot > ARENA) { errno = ENOMEM; return nullptr; }
  Hdr *h = (Hdr *)(p->mem.arena + p->brk);
  h->size = n;
  h->magic = LIVE;
  char *u = (char *)(h + 1);
  memset(u, 0xBE, n);
  memset(u + n, 0xCA, tot - sizeof(Hdr) - n);
  p->allocs.push_back(p->brk);
  p->brk += tot;
  return u;
}
static bool inArena(void *q) {
  return cur && (char *)q >= cur->mem.arena && (char *)q < cur->mem.arena + ARENA;
}
static bool hdrOk(Hdr *h) {
  if (h->magic != LIVE && h->magic != DEAD) return false;
  size_t tot = (sizeof(Hdr) + h->size + 16 + 15) & ~(size_t)15;
  unsigned char *t = (unsigned char *)(h + 1) + h->size;
  for (size_t i = 0; i < tot - sizeof(Hdr) - h->size; i++)
    if (t[i] != 0xCA) return false;
  return true;
}
static void checkHeap(Proc *p) {
  for (size_t o : p->allocs)
    if (!hdrOk((Hdr *)(p->mem.arena + o))) { p->heapBroken = true; return; }
}
static void badFree() {   // double free or wild free
  cur->res.note += "[invalid free]";
  cur->res.kind = E_ABORT;
  cur->heapBroken = true;
  siglongjmp(schedEnv, 1);
}
static void afree(void *q) {
  if (!q) return;
  if (!inArena(q)) { free(q); return; }
  if (W->fence) {
    auto i = cur->fenced.find((char *)q);
    if (i == cur->fenced.end() || !i->second.second) badFree();
    i->second.second = false;
    size_t pages = (i->second.first + 4095) / 4096;
    if (pages) mprotect((char *)q + i->second.first - pages * 4096, pages * 4096, PROT_NONE);
    return;
  }
  Hdr *h = (Hdr *)q - 1;
  if (h->magic != LIVE) badFree();
  h->magic = DEAD;
  memset(q, 0xDD, h->size);
}
static void *arealloc(void *q, size_t n) {
  if (!q) return amalloc(n);
  if (!inArena(q)) return realloc(q, n);
  if (W->fence) {
    auto i = cur->fenced.find((char *)q);
    if (i == cur->fenced.end() || !i->second.second) badFree();
    if (n == 0) { afree(q); return nullptr; }
    void *m = amalloc(n);
    if (!m) return nullptr;
    memcpy(m, q, std::min(i->second.first, n));
    afree(q);
    return m;
  }
  Hdr *h = (Hdr *)q - 1;
  if (h->magic != LIVE) { afree(q); }
  if (n == 0) { afree(q); return nullptr; }
  void *m = amalloc(n);
  if (!m) return nullptr;
  memcpy(m, q, std::min((size_t)h->size, n));
  afree(q);
  return m;
}

// ----- running --------------------------------------------------------------
static Mem takeMem() {
  if (!memPool.empty()) { Mem m = memPool.back(); memPool.pop_back(); return m; }
  Mem m;
  m.stack = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(m.stack, 4096, PROT_NONE);
  m.arena = (char *)mmap(nullptr, ARENA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(m.arena + ARENA, 4096, PROT_NONE);
  return m;
}
static void giveMem(Mem m, size_t used) {
  if (used > (8u << 20)) madvise(m.arena, ARENA, MADV_DONTNEED);
  memPool.push_back(m);
}

static void entry() {
  Proc *p = cur;
  int c = nb_main((int)p->argv.size() - 1, p->argv.data());
  doExit(c);
}
static size_t dlen() { return __stop_nbdata - __start_nbdata; }
static size_t blen() { return __stop_nbbss - __start_nbbss; }
static void initProc(Proc *p, int id, const RunCfg &cfg, const Plan *plan) {
  initSignals();
  if (!pristineSaved) {
    pristineData.assign(__start_nbdata, dlen());
    pristineSaved = true;
  }
  p->id = id;
  p->cfg = &cfg;
  p->plan = plan;
  p->umask = cfg.umask;
  p->now = W->now;
  p->rnd = W->randSeed + id;
  int c = W->fs.lookup(cfg.cwd);
  p->cwd = c < 0 ? W->fs.root : c;
  p->mem = takeMem();
  p->argvs = cfg.argv;
  p->argvs.insert(p->argvs.begin(), "nb");
  for (auto &s : p->argvs) p->argv.push_back(s.c_str());
  p->argv.push_back(nullptr);
  for (int t = 0; t < 3; t++) p->fds[t] = OpenFile{-1, 0, t == 0 ? O_RDONLY : O_WRONLY, "", t};
  p->data = pristineData;
  p->bss.assign(blen(), '\0');
  getcontext(&p->ctx);
  p->ctx.uc_stack.ss_sp = p->mem.stack + 4096;
  p->ctx.uc_stack.ss_size = STACK;
  p->ctx.uc_link = nullptr;
  makecontext(&p->ctx, entry, 0);
}
struct Std { FILE *i, *o, *e; };
static std::map<Proc *, Std> stds;
static void setupStd(Proc *p) {
  Proc *save = cur;
  cur = p;
  Std s;
  s.i = wrapFd(0, "r", false);
  s.o = wrapFd(1, "w", true);
  s.e = wrapFd(2, "w", true);
  setvbuf(s.e, nullptr, _IONBF, 0);
  stds[p] = s;
  cur = save;
}
static void swapIn(Proc *p) {
  memcpy(__start_nbdata, p->data.data(), dlen());
  if (blen()) memcpy(__start_nbbss, p->bss.data(), blen());
  Std &s = stds[p];
  mc_stdin = s.i;
  mc_stdout = s.o;
  mc_stderr = s.e;
}
static void swapOut(Proc *p) {
  p->data.assign(__start_nbdata, dlen());
  p->bss.assign(__start_nbbss, blen());
}

// Runs p until it ends or reaches a scheduling point.
static void step(Proc *p, bool swap) {
  cur = p;
  volatile bool ended = false;
  if (sigsetjmp(schedEnv, 0) == 0) {
    swapcontext(&schedCtx, &p->ctx);
  } else
    ended = true;
  if (ended) {
    // still in p's identity
    sigset_t none;
    if (p->res.kind == E_SIGNAL || p->res.kind == E_HANG || p->res.kind == E_ABORT) {
      sigemptyset(&none);
      sigprocmask(SIG_SETMASK, &none, nullptr);
    }
    p->plan = nullptr;
    closeStreams(p, false);
    checkHeap(p);
    if (p->heapBroken) p->res.note += "[heap corruption]";
    releaseProc(p);
    p->done = true;
    if (W->fence) mprotect(p->mem.arena, std::min(p->brk, ARENA), PROT_READ | PROT_WRITE);
    giveMem(p->mem, p->brk);
    stds.erase(p);
  }
  if (swap && !ended) swapOut(p);
  cur = nullptr;
}
static void armTimer(int sec) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

Result run(World &w, const RunCfg &cfg, const Plan *plan) {
  W = &w;
  multi = false;
  Proc p;
  initProc(&p, 0, cfg, plan);
  setupStd(&p);
  swapIn(&p);
  armTimer(w.sparse ? 600 : 20);
  errno = 0;
  step(&p, false);
  armTimer(0);
  if (p.heapBroken && p.res.kind == E_EXIT) p.res.kind = E_SIGNAL;
  return p.res;
}

std::vector<Result> runMulti(World &w, const Multi &m) {
  W = &w;
  multi = true;
  multiCfg = &m;
  std::vector<std::unique_ptr<Proc>> ps;
  for (size_t i = 0; i < m.procs.size(); i++) {
    ps.emplace_back(new Proc);
    initProc(ps.back().get(), (int)i, m.procs[i], i < m.plans.size() ? &m.plans[i] : nullptr);
    setupStd(ps.back().get());
  }
  armTimer(30);
  int last = -1, stepNo = 0;
  for (;;) {
    std::vector<int> en;
    bool alive = false;
    for (size_t i = 0; i < ps.size(); i++) {
      if (ps[i]->done) continue;
      alive = true;
      if (ps[i]->lockWait >= 0) {
        bool held = false;
        for (auto &l : w.locks) held |= l.ino == ps[i]->lockWait && l.proc != (int)i;
        if (held) continue;
      }
      en.push_back((int)i);
    }
    if (!alive) break;
    if (en.empty()) {  // deadlock
      for (auto &p : ps)
        if (!p->done) {
          p->res.kind = E_HANG;
          p->res.note += "[deadlock]";
          cur = p.get();
          closeStreams(p.get(), false);
          releaseProc(p.get());
          giveMem(p->mem, p->brk);
          stds.erase(p.get());
          p->done = true;
          cur = nullptr;
        }
      break;
    }
    int c = m.sched(stepNo++, en, last);
    swapIn(ps[c].get());
    errno = 0;
    step(ps[c].get(), true);
    last = c;
  }
  armTimer(0);
  multi = false;
  std::vector<Result> r;
  for (auto &p : ps) {
    if (p->heapBroken && p->res.kind == E_EXIT) p->res.kind = E_SIGNAL;
    r.push_back(p->res);
  }
  return r;
}

std::string Result::str() const {
  static const char *k[] = {"exit", "killed", "signal", "abort", "hang", "unsupported"};
  std::string s = k[kind];
  if (kind == E_EXIT) s += " " + std::to_string(code);
  if (kind == E_SIGNAL) s += " " + std::to_string(sig);
  if (!note.empty()) s += " " + note;
  if (!err.empty()) s += " err=\"" + err.substr(0, 300) + "\"";
  return s;
}

static void unsupported(const char *what) __attribute__((noreturn));
static void unsupported(const char *what) {
  cur->res.note += std::string("[unsupported call: ") + what + "]";
  finish(E_UNSUPPORTED, 0);
}
}  // namespace vos

using namespace vos;

// ============================================================================
// libc front end: every symbol mc_X replaces X in the code under test.
// ============================================================================
extern "C" {
#define ALIAS64(ret, name, params) ret mc_##name##64 params __attribute__((alias("mc_" #name)));

int mc_open(const char *p, int fl, ...) {
  va_list a;
  va_start(a, fl);
  mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return vopen(p, fl, m);
}
int mc_open64(const char *p, int fl, ...) __attribute__((alias("mc_open")));
int mc_openat(int d, const char *p, int fl, ...) {
  va_list a;
  va_start(a, fl);
  mode_t m = (fl & O_CREAT) ? va_arg(a, mode_t) : 0;
  va_end(a);
  int e = 0, s = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vopen(p, fl, m, s);
}
int mc_openat64(int, const char *, int, ...) __attribute__((alias("mc_openat")));
int mc_creat(const char *p, mode_t m) { return vopen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ALIAS64(int, creat, (const char *, mode_t))
int mc_close(int fd) { return vclose(fd); }
ssize_t mc_read(int fd, void *b, size_t n) { return vread(fd, b, n); }
ssize_t mc_write(int fd, const void *b, size_t n) { return vwrite(fd, b, n); }
ssize_t mc_pread(int fd, void *b, size_t n, off_t o) { return vread(fd, b, n, o); }
ALIAS64(ssize_t, pread, (int, void *, size_t, off_t))
ssize_t mc_pwrite(int fd, const void *b, size_t n, off_t o) { return vwrite(fd, b, n, o); }
ALIAS64(ssize_t, pwrite, (int, const void *, size_t, off_t))
off_t mc_lseek(int fd, off_t o, int w) { return vseek(fd, o, w); }
ALIAS64(off_t, lseek, (int, off_t, int))
int mc_fsync(int fd) { return vsync(fd); }
int mc_fdatasync(int fd) { return vsync(fd); }
int mc_syncfs(int) { event(S_FSYNC, "*", false); jData(JOp::SyncAll, -1, 0, nullptr, 0); return 0; }
void mc_sync(void) { event(S_FSYNC, "*", false); jData(JOp::SyncAll, -1, 0, nullptr, 0); }
int mc_ftruncate(int fd, off_t l) { return vftruncate(fd, l); }
ALIAS64(int, ftruncate, (int, off_t))
int mc_truncate(const char *p, off_t l) {
  int fd = vopen(p, O_WRONLY, 0);
  if (fd < 0) return -1;
  int r = vftruncate(fd, l), e = errno;
  cur->fds.erase(fd);
  errno = e;
  return r;
}
ALIAS64(int, truncate, (const char *, off_t))
int mc_posix_fadvise(int, off_t, off_t, int) { return 0; }
ALIAS64(int, posix_fadvise, (int, off_t, off_t, int))
int mc_posix_fallocate(int fd, off_t o, off_t l) {
  OpenFile *f = gfd(fd);
  if (!f) return EBADF;
  if (sizeOf(W->fs.r(f->ino)) < o + l) return vftruncate(fd, o + l) ? errno : 0;
  return 0;
}
ALIAS64(int, posix_fallocate, (int, off_t, off_t))

int mc_stat(const char *p, struct stat *s) { return vstat(p, s, true); }
ALIAS64(int, stat, (const char *, struct stat *))
int mc_lstat(const char *p, struct stat *s) { return vstat(p, s, false); }
ALIAS64(int, lstat, (const char *, struct stat *))
int mc_fstat(int fd, struct stat *s) { return vfstat(fd, s); }
ALIAS64(int, fstat, (int, struct stat *))
int mc_fstatat(int d, const char *p, struct stat *s, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (p && *p != '/' && e) { errno = e; return -1; }
  if ((fl & AT_EMPTY_PATH) && p && !*p) return vfstat(d, s);
  return vstat(p, s, !(fl & AT_SYMLINK_NOFOLLOW), st);
}
ALIAS64(int, fstatat, (int, const char *, struct stat *, int))
int mc_access(const char *p, int m) { return vaccess(p, m); }
int mc_euidaccess(const char *p, int m) { return vaccess(p, m); }
int mc_eaccess(const char *p, int m) { return vaccess(p, m); }
int mc_faccessat(int d, const char *p, int m, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (p && *p != '/' && e) { errno = e; return -1; }
  if (fl & AT_SYMLINK_NOFOLLOW) { struct stat s; return vstat(p, &s, false, st); }
  return vaccess(p, m, st);
}
int mc_chmod(const char *p, mode_t m) { return vchmod(p, m); }
int mc_lchmod(const char *p, mode_t m) { return vchmod(p, m, false); }
int mc_fchmod(int fd, mode_t m) {
  OpenFile *f = gfd(fd);
  Act act = event(S_CHMOD, f ? f->path : "", true);
  if (act.k == Act::Fail) { errno = act.err; return -1; }
  if (!(f = gfd(fd))) ERR(EBADF);
  if (int e = chmodIno(f->ino, m)) ERR(e);
  RET(0);
}
int mc_fchmodat(int d, const char *p, mode_t m, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vchmod(p, m, !(fl & AT_SYMLINK_NOFOLLOW), st);
}
int mc_chown(const char *p, uid_t u, gid_t g) { return vchown(p, u, g, true); }
int mc_lchown(const char *p, uid_t u, gid_t g) { return vchown(p, u, g, false); }
int mc_fchown(int fd, uid_t u, gid_t g) {
  OpenFile *f = gfd(fd);
  Act act = event(S_CHOWN, f ? f->path : "", true);
  if (act.k == Act::Fail) { errno = act.err; return -1; }
  if (!(f = gfd(fd))) ERR(EBADF);
  if (int e = chownIno(f->ino, u, g)) ERR(e);
  RET(0);
}
int mc_fchownat(int d, const char *p, uid_t u, gid_t g, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vchown(p, u, g, !(fl & AT_SYMLINK_NOFOLLOW), st);
}
int mc_utime(const char *p, const struct utimbuf *b) {
  int64_t t = b ? b->modtime : 0;
  return vutime(p, b ? &t : nullptr, true);
}
int mc_utimes(const char *p, const struct timeval *tv) {
  int64_t t = tv ? tv[1].tv_sec : 0;
  return vutime(p, tv ? &t : nullptr, true);
}
int mc_lutimes(const char *p, const struct timeval *tv) {
  int64_t t = tv ? tv[1].tv_sec : 0;
  return vutime(p, tv ? &t : nullptr, false);
}
int mc_utimensat(int d, const char *p, const struct timespec *ts, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  if (ts && ts[1].tv_nsec == UTIME_OMIT) return 0;
  bool now = !ts || ts[1].tv_nsec == UTIME_NOW;
  int64_t t = now ? 0 : ts[1].tv_sec;
  return vutime(p, now ? nullptr : &t, !(fl & AT_SYMLINK_NOFOLLOW), st, now ? 0 : (int)ts[1].tv_nsec);
}
int mc_futimens(int fd, const struct timespec *ts) {
  OpenFile *f = gfd(fd);
  Act act = event(S_UTIME, f ? f->path : "", true);
  if (act.k == Act::Fail) { errno = act.err; return -1; }
  if (!(f = gfd(fd))) ERR(EBADF);
  if (ts && ts[1].tv_nsec == UTIME_OMIT) RET(0);
  bool now = !ts || ts[1].tv_nsec == UTIME_NOW;
  W->fs.w(f->ino).mtime = now ? cur->now : ts[1].tv_sec;
  W->fs.w(f->ino).mtimens = now ? 0 : (int)ts[1].tv_nsec;
  RET(0);
}
int mc_mkdir(const char *p, mode_t m) { return vmkdir(p, m); }
int mc_mkdirat(int d, const char *p, mode_t m) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vmkdir(p, m, st);
}
int mc_rmdir(const char *p) { return removeEntry(p, 1); }
int mc_unlink(const char *p) { return removeEntry(p, 0); }
int mc_remove(const char *p) { return removeEntry(p, 2); }
int mc_unlinkat(int d, const char *p, int fl) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return removeEntry(p, (fl & AT_REMOVEDIR) ? 1 : 0, st);
}
int mc_rename(const char *a, const char *b) { return vrename(a, b); }
int mc_renameat(int d1, const char *a, int d2, const char *b) {
  int e = 0, s1 = dirfdStart(d1, &e), s2 = dirfdStart(d2, &e);
  if (e) { errno = e; return -1; }
  return vrename(a, b, s1, s2);
}
int mc_renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) {
  int e = 0, s1 = dirfdStart(d1, &e), s2 = dirfdStart(d2, &e);
  if (e) { errno = e; return -1; }
  if (fl & ~1u) unsupported("renameat2 flags");
  return vrename(a, b, s1, s2, fl & 1);
}
int mc_link(const char *a, const char *b) { return vlink(a, b); }
int mc_linkat(int, const char *a, int, const char *b, int fl) { return vlink(a, b, fl & AT_SYMLINK_FOLLOW); }
int mc_symlink(const char *t, const char *p) { return vsymlink(t, p); }
int mc_symlinkat(const char *t, int d, const char *p) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vsymlink(t, p, st);
}
ssize_t mc_readlink(const char *p, char *b, size_t n) { return vreadlink(p, b, n); }
ssize_t mc_readlinkat(int d, const char *p, char *b, size_t n) {
  int e = 0, st = dirfdStart(d, &e);
  if (e) { errno = e; return -1; }
  return vreadlink(p, b, n, st);
}
DIR *mc_opendir(const char *p) { return (DIR *)vopendir(p); }
DIR *mc_fdopendir(int fd) {
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return nullptr; }
  if (W->fs.r(f->ino).type != T_DIR) { errno = ENOTDIR; return nullptr; }
  VDir *d = new VDir;
  d->fd = fd;
  d->path = f->path;
  dirList(d, f->ino);
  cur->dirs.push_back(d);
  return (DIR *)d;
}
struct dirent *mc_readdir(DIR *d) { return vreaddir((VDir *)d); }
ALIAS64(struct dirent *, readdir, (DIR *))
int mc_closedir(DIR *d) { return vclosedir((VDir *)d); }
void mc_rewinddir(DIR *d) {
  VDir *v = (VDir *)d;
  v->pos = 0;
  v->list.clear();
  dirList(v, cur->fds[v->fd].ino);
}
int mc_dirfd(DIR *d) { return ((VDir *)d)->fd; }
char *mc_getcwd(char *b, size_t n) { return vgetcwd(b, n); }
char *mc_get_current_dir_name(void) { return vgetcwd(nullptr, 0); }
int mc_chdir(const char *p) { return vchdir(p); }
int mc_fchdir(int fd) {
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return -1; }
  cur->cwd = f->ino;
  return 0;
}
int mc_lockf(int fd, int cmd, off_t) {
  switch (cmd) {
  case F_ULOCK: return vlock(fd, 0);
  case F_TLOCK: return vlock(fd, 1);
  case F_LOCK: return vlock(fd, 2);
  case F_TEST: return vlock(fd, 3);
  }
  errno = EINVAL;
  return -1;
}
ALIAS64(int, lockf, (int, int, off_t))
int mc_flock(int fd, int op) {
  if (op & LOCK_UN) return vlock(fd, 0);
  int r = vlock(fd, (op & LOCK_NB) ? 1 : 2);
  if (r && errno == EAGAIN) errno = EWOULDBLOCK;
  return r;
}
int mc_dup(int fd) {
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return -1; }
  return newFd(*f);
}
int mc_dup2(int fd, int to) {
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return -1; }
  OpenFile c = *f;
  cur->fds[to] = c;
  return to;
}
int mc_fcntl(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  void *arg = va_arg(a, void *);
  va_end(a);
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return -1; }
  switch (cmd) {
  case F_GETFD: return 0;
  case F_SETFD: return 0;
  case F_GETFL: return f->flags;
  case F_SETFL: return 0;
  case F_DUPFD:
  case F_DUPFD_CLOEXEC: return newFd(*f);
  case F_SETLK:
  case F_SETLKW: {
    struct flock *l = (struct flock *)arg;
    if (l->l_type == F_UNLCK) return vlock(fd, 0);
    return vlock(fd, cmd == F_SETLKW ? 2 : 1);
  }
  case F_GETLK: {
    struct flock *l = (struct flock *)arg;
    int h = lockHolder(f->ino, cur->id);
    l->l_type = h < 0 ? F_UNLCK : F_WRLCK;
    l->l_pid = 1000 + h;
    return 0;
  }
  }
  unsupported("fcntl");
}
int mc_fcntl64(int, int, ...) __attribute__((alias("mc_fcntl")));
mode_t mc_umask(mode_t m) {
  mode_t o = cur->umask;
  cur->umask = m & 0777;
  return o;
}
int mc_isatty(int fd) {
  OpenFile *f = gfd(fd);
  if (!f) { errno = EBADF; return 0; }
  if (f->tty >= 0 && isTerm(f->tty)) return 1;
  errno = ENOTTY;
  return 0;
}
int mc_mkstemp(char *t) {
  size_t n = strlen(t);
  static const char *al = "abcdefghijklmnopqrstuvwxyz";
  for (int k = 0; k < 26 * 26; k++) {
    t[n - 6] = 'T'; t[n - 5] = 'M'; t[n - 4] = 'P'; t[n - 3] = al[k / 26]; t[n - 2] = al[k % 26]; t[n - 1] = 'x';
    int fd = vopen(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST;
  return -1;
}
ALIAS64(int, mkstemp, (char *))
char *mc_realpath(const char *p, char *out) {
  Act act = event(S_STAT, p ? p : "", false);
  if (act.k == Act::Fail) { errno = act.err; return nullptr; }
  Res r = resolve(p, true);
  if (r.err || r.ino < 0) { errno = r.err ? r.err : ENOENT; return nullptr; }
  std::string s;
  for (int c = r.ino; c != W->fs.root;) {
    int q = c == r.ino ? r.parent : W->fs.r(c).parent;
    std::string nm;
    for (auto &e : W->fs.r(q).ents)
      if (e.second == c) nm = e.first;
    s = "/" + nm + s;
    c = q;
  }
  if (s.empty()) s = "/";
  if (!out) out = (char *)amalloc(4096);
  if (out) strcpy(out, s.c_str());
  return out;
}
char *mc_canonicalize_file_name(const char *p) { return mc_realpath(p, nullptr); }
int mc_mkfifo(const char *, mode_t) { unsupported("mkfifo"); }
int mc_mknod(const char *, mode_t, dev_t) { unsupported("mknod"); }
int mc_statvfs(const char *, struct statvfs *s) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 30; return 0; }

// --- stdio
FILE *mc_fopen(const char *p, const char *m) { return vfopen(p, m); }
FILE *mc_fopen64(const char *p, const char *m) { return vfopen(p, m); }
FILE *mc_fdopen(int fd, const char *m) {
  if (!gfd(fd)) { errno = EBADF; return nullptr; }
  return wrapFd(fd, m, m[0] != 'r' || strchr(m, '+'));
}
FILE *mc_freopen(const char *, const char *, FILE *) { unsupported("freopen"); }
FILE *mc_tmpfile(void) { unsupported("tmpfile"); }
int mc_fclose(FILE *f) { return vfclose(f); }
int mc_fileno(FILE *f) {
  Ck *k = ckOf(f);
  if (!k) { errno = EBADF; return -1; }
  return k->fd;
}
int mc_fileno_unlocked(FILE *f) { return mc_fileno(f); }
int mc_printf(const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = vfprintf(mc_stdout, f, a);
  va_end(a);
  return r;
}
int mc_vprintf(const char *f, va_list a) { return vfprintf(mc_stdout, f, a); }
int mc_puts(const char *s) {
  if (fputs(s, mc_stdout) < 0) return EOF;
  return fputc('\n', mc_stdout) == EOF ? EOF : 1;
}
int mc_putchar(int c) { return fputc(c, mc_stdout); }
int mc_putchar_unlocked(int c) { return fputc(c, mc_stdout); }
int mc_getchar(void) { return fgetc(mc_stdin); }
void mc_perror(const char *s) { fprintf(mc_stderr, "%s%s%s\n", s ? s : "", s && *s ? ": " : "", strerror(errno)); }
int mc_fflush(FILE *f) {
  if (f) return fflush(f);
  int r = 0;
  auto fl = cur->files;
  for (auto k : fl)
    if (k->writable && fflush(k->f)) r = EOF;
  return r;
}
int mc_dprintf(int fd, const char *f, ...) {
  char b[8192];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return (int)vwrite(fd, b, std::min<size_t>(n, sizeof b - 1));
}

// --- memory
void *mc_malloc(size_t n) { return amalloc(n); }
void *mc_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = amalloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void *mc_realloc(void *p, size_t n) { return arealloc(p, n); }
void *mc_reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return arealloc(p, n);
}
void mc_free(void *p) { afree(p); }
char *mc_strdup(const char *s) {
  char *p = (char *)amalloc(strlen(s) + 1);
  return p ? strcpy(p, s) : nullptr;
}
char *mc_strndup(const char *s, size_t n) {
  size_t l = strnlen(s, n);
  char *p = (char *)amalloc(l + 1);
  if (p) { memcpy(p, s, l); p[l] = 0; }
  return p;
}
void *mc_aligned_alloc(size_t, size_t n) { return amalloc(n); }
int mc_posix_memalign(void **o, size_t, size_t n) {
  *o = amalloc(n);
  return *o ? 0 : ENOMEM;
}

ssize_t mc_getdelim(char **line, size_t *cap, int delim, FILE *f) {
  size_t n = 0;
  for (;;) {
    int ch = fgetc(f);
    if (ch == EOF) break;
    if (!*line || n + 2 > *cap) {
      size_t want = *line ? *cap * 2 + 2 : 120;
      char *p = (char *)(*line ? arealloc(*line, want) : amalloc(want));
      if (!p) { errno = ENOMEM; return -1; }
      *line = p; *cap = want;
    }
    (*line)[n++] = (char)ch;
    if (ch == delim) break;
  }
  if (!n) return -1;
  (*line)[n] = 0;
  return (ssize_t)n;
}
ssize_t mc_getline(char **line, size_t *cap, FILE *f) { return mc_getdelim(line, cap, '\n', f); }
int mc_vasprintf(char **out, const char *fmt, va_list ap) {
  va_list b;
  va_copy(b, ap);
  int n = vsnprintf(nullptr, 0, fmt, b);
  va_end(b);
  if (n < 0 || !(*out = (char *)amalloc((size_t)n + 1))) return -1;
  return vsnprintf(*out, (size_t)n + 1, fmt, ap);
}
int mc_asprintf(char **out, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = mc_vasprintf(out, fmt, ap);
  va_end(ap);
  return n;
}

// --- time, randomness, identity
time_t mc_time(time_t *t) {
  event(S_TIME, "", false);
  if (t) *t = cur->now;
  return cur->now;
}
static void vclock(struct timespec *ts) {
  event(S_TIME, "", false);
  const auto &st = cur->cfg->clockMs;
  if (!st.empty()) cur->ms += st[cur->clockReads++ % st.size()];
  int64_t t = cur->now * 1000 + cur->ms;
  ts->tv_sec = t / 1000;
  ts->tv_nsec = t % 1000 * 1000000;
}
int mc_clock_gettime(clockid_t, struct timespec *ts) { vclock(ts); return 0; }
int mc_timespec_get(struct timespec *ts, int b) { vclock(ts); return b; }
int mc_gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  vclock(&ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
clock_t mc_clock(void) { return 0; }
unsigned mc_sleep(unsigned s) { cur->now += s; return 0; }
int mc_usleep(useconds_t) { return 0; }
int mc_nanosleep(const struct timespec *, struct timespec *) { return 0; }
void mc_srand(unsigned) { }
int mc_rand(void) {
  if (W->constHashKey) return 0;
  cur->rnd = cur->rnd * 1103515245u + 12345u;
  return (cur->rnd >> 1) & 0x7fffffff;
}
long mc_random(void) { return mc_rand(); }
void mc_srandom(unsigned) { }
ssize_t mc_getrandom(void *b, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) ((char *)b)[i] = mc_rand() >> 8;
  return n;
}
int mc_getentropy(void *b, size_t n) { mc_getrandom(b, n, 0); return 0; }
pid_t mc_getpid(void) { return 1000 + cur->id; }
pid_t mc_getppid(void) { return 1; }
uid_t mc_getuid(void) { return cur->cfg->euid; }
uid_t mc_geteuid(void) { return cur->cfg->euid; }
gid_t mc_getgid(void) { return cur->cfg->euid; }
gid_t mc_getegid(void) { return cur->cfg->euid; }
char *mc_getenv(const char *n) {
  auto it = cur->cfg->env.find(n);
  return it == cur->cfg->env.end() ? nullptr : (char *)it->second.c_str();
}
char *mc_secure_getenv(const char *n) { return mc_getenv(n); }
int mc_kill(pid_t, int) { unsupported("kill"); }
int mc_raise(int) { unsupported("raise"); }
void (*mc_signal(int, void (*)(int)))(int) { return SIG_DFL; }
int mc_sigaction(int, const struct sigaction *, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); return 0; }
int mc_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }

// --- process end
void mc_exit(int c) { doExit(c); }
void mc__exit(int c) { closeStreams(cur, false); cur->res.kind = E_EXIT; cur->res.code = c; siglongjmp(schedEnv, 1); }
void mc__Exit(int c) { mc__exit(c); }
void mc_quick_exit(int c) { mc__exit(c); }
int mc_atexit(void (*f)(void)) { cur->atexits.push_back(f); return 0; }
int mc_at_quick_exit(void (*)(void)) { return 0; }
void mc_abort(void) { finish(E_ABORT, 0); }
void mc___assert_fail(const char *e, const char *, unsigned, const char *) {
  cur->res.note += std::string("[assertion failed: ") + e + "]";
  finish(E_ABORT, 0);
}
void mc___stack_chk_fail(void) { cur->res.note += "[stack smashed]"; finish(E_ABORT, 0); }

// --- hash functions (third-party; only the outcome may be weakened)
int blake2b_init(void *, size_t) __attribute__((weak));
int blake2b_update(void *, const void *, size_t) __attribute__((weak));
int blake2b_final(void *, void *, size_t) __attribute__((weak));
int blake2b(void *, size_t, const void *, size_t, const void *, size_t) __attribute__((weak));
static void weaken(unsigned char *o, size_t n) {
  if (!W->weakHash) return;
  unsigned c = o[0] % W->weakClasses;
  for (size_t i = 0; i < n; i++) o[i] = (unsigned char)(0x11 * (c + 1));
}
int mc_blake2b_init(void *s, size_t n) { return blake2b_init(s, n); }
int mc_blake2b_update(void *s, const void *d, size_t n) { return blake2b_update(s, d, n); }
int mc_blake2b_final(void *s, void *o, size_t n) {
  int r = blake2b_final(s, o, n);
  weaken((unsigned char *)o, n);
  return r;
}
int mc_blake2b(void *o, size_t on, const void *i, size_t in, const void *k, size_t kn) {
  int r = blake2b(o, on, i, in, k, kn);
  weaken((unsigned char *)o, on);
  return r;
}
uint64_t siphash(const uint8_t *, uint64_t, const uint8_t *) __attribute__((weak));
uint64_t mc_siphash(const uint8_t *in, uint64_t n, const uint8_t *k) {
  uint64_t h = siphash(in, n, k);
  return W->sipClasses > 0 ? h % W->sipClasses : h;
}

// --- anything that would reach the real system
#define NO(ret, name) ret mc_##name(void) { unsupported(#name); }
NO(int, system) NO(void *, popen) NO(int, pclose) NO(int, fork) NO(int, vfork) NO(int, execve) NO(int, execv)
NO(int, execvp) NO(int, execl) NO(int, execlp) NO(int, posix_spawn) NO(int, posix_spawnp) NO(int, waitpid) NO(int, wait) NO(int, mount)
NO(int, umount) NO(int, umount2) NO(int, chroot) NO(int, pivot_root) NO(int, unshare) NO(int, reboot) NO(long, syscall)
NO(int, socket) NO(int, connect) NO(int, bind) NO(int, pipe) NO(int, pipe2) NO(void *, mmap) NO(void *, mmap64) NO(int, munmap) NO(int, msync)
NO(int, sendfile) NO(int, sendfile64) NO(int, copy_file_range) NO(int, splice) NO(int, pthread_create) NO(int, nftw) NO(int, nftw64) NO(int, ftw)
NO(int, ftw64) NO(int, glob) NO(int, glob64) NO(int, scandir) NO(int, scandir64) NO(int, statx) NO(int, ioctl) NO(int, setuid) NO(int, setgid) NO(int, seteuid)
NO(int, setegid) NO(int, ptrace) NO(int, prctl) NO(int, setrlimit) NO(int, sethostname) NO(int, settimeofday) NO(int, clock_settime)
NO(int, select) NO(int, poll) NO(int, writev) NO(int, readv) NO(int, fallocate) NO(int, fallocate64) NO(int, sync_file_range) NO(int, shm_open)
NO(int, mkdtemp) NO(int, mkostemp) NO(int, tmpnam) NO(int, tempnam) NO(int, setxattr) NO(int, open_by_handle_at) NO(int, alarm) NO(int, setitimer)

// --- regular expressions: compiled patterns are cached (glibc's regcomp is slow and leaks when abandoned)
struct RxEntry { int rc; regex_t rx; };
static std::unordered_map<std::string, RxEntry *> &rxCache() {
  static auto *m = new std::unordered_map<std::string, RxEntry *>;
  return *m;
}
int mc_regcomp(regex_t *out, const char *pat, int flags) {
  Act a = event(S_MALLOC, "", false, "", false, 64);
  if (a.k == Act::Fail) return REG_ESPACE;
  std::string key = std::to_string(flags) + ":" + pat;
  auto &m = rxCache();
  auto it = m.find(key);
  if (it == m.end()) {
    RxEntry *e = new RxEntry;
    e->rc = regcomp(&e->rx, pat, flags);
    it = m.emplace(key, e).first;
  }
  memcpy(out, &it->second->rx, sizeof *out);
  return it->second->rc;
}
void mc_regfree(regex_t *r) { memset(r, 0xDD, sizeof *r); }
int mc_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) { return regexec(r, s, n, m, fl); }
size_t mc_regerror(int c, const regex_t *r, char *b, size_t n) { return regerror(c, r, b, n); }
}
