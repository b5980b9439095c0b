#include "real.hpp"
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace real {
static string base, exe;
static int counter = 0;

static bool writeFile(const string &p, const string &d) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
  if (fd < 0) return false;
  bool ok = write(fd, d.data(), d.size()) == (ssize_t)d.size();
  return close(fd) == 0 && ok;
}
static string readFile(const string &p) {
  string s;
  int fd = open(p.c_str(), O_RDONLY | O_NOFOLLOW);
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd);
  return s;
}
// Everything below is done by us, as root, with paths below the scratch directory only and without following links.
static bool create(const vos::FS &fs, int n, const string &p) {
  const vos::Inode &i = fs.r(n);
  bool ok = true;
  switch (i.type) {
  case vos::T_FILE: ok = writeFile(p, i.data); break;
  case vos::T_LINK: ok = symlink(i.data.c_str(), p.c_str()) == 0; break;
  case vos::T_FIFO: ok = mkfifo(p.c_str(), 0600) == 0; break;
  case vos::T_DIR:
    ok = mkdir(p.c_str(), 0700) == 0;
    for (auto &e : i.ents) ok = ok && create(fs, e.second, p + "/" + e.first);
    break;
  default: return false;
  }
  ok = ok && lchown(p.c_str(), i.uid, i.gid) == 0;
  if (i.type != vos::T_LINK) {
    ok = ok && chmod(p.c_str(), i.perm) == 0;
    struct timespec t[2] = {{i.mtime, i.mtimens}, {i.mtime, i.mtimens}};
    ok = ok && utimensat(AT_FDCWD, p.c_str(), t, AT_SYMLINK_NOFOLLOW) == 0;
  }
  return ok;
}
static void import(vos::FS &fs, int n, const string &p) {
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) return;
  {
    vos::Inode &i = fs.w(n);
    i.perm = st.st_mode & 07777;
    i.uid = st.st_uid;
    i.gid = st.st_gid;
    i.mtime = st.st_mtim.tv_sec;
    i.mtimens = (int)st.st_mtim.tv_nsec;
  }
  if (!S_ISDIR(st.st_mode)) return;
  std::vector<string> names;
  if (DIR *d = opendir(p.c_str())) {
    while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
  }
  for (auto &name : names) {
    string q = p + "/" + name;
    if (lstat(q.c_str(), &st) != 0) continue;
    int m;
    if (S_ISLNK(st.st_mode)) {
      string t(4096, 0);
      ssize_t l = readlink(q.c_str(), &t[0], t.size());
      t.resize(l < 0 ? 0 : l);
      m = fs.mklink(q, t);
    } else if (S_ISDIR(st.st_mode)) m = fs.mkdir(q);
    else if (S_ISREG(st.st_mode)) m = fs.mkfile(q, readFile(q));
    else m = fs.mkfifo(q);
    import(fs, m, q);
  }
  fs.w(n).mtime = [&] { lstat(p.c_str(), &st); return st.st_mtim.tv_sec; }();
}

bool available() {
  char buf[4096];
  ssize_t l = readlink("/proc/self/exe", buf, sizeof buf - 1);
  if (l < 0) return false;
  exe = string(buf, l);
  exe = exe.substr(0, exe.rfind('/')) + "/nb-real";
  if (geteuid() != 0 || access(exe.c_str(), X_OK) != 0) return false;
  char t[] = "/tmp/nbreal.XXXXXX";
  if (!mkdtemp(t)) return false;
  base = t;
  if (chmod(t, 0755) != 0) return false;
  // the unprivileged user must be able to run it (wherever this directory is, a copy of it can be)
  string copy = base + "/nb";
  string bin = readFile(exe);
  if (bin.empty() || !writeFile(copy, bin) || chmod(copy.c_str(), 0755) != 0) return false;
  exe = copy;
  try {
    Box b;
    vos::FS fs;
    fs.mkdir(b.dir, 0755, 1000, UID, UID);
    fs.mkfile(b.dir + "/t/f", "x", 06711, 1234, UID, UID);
    fs.mklink(b.dir + "/t/l", "nowhere", UID, UID);
    fs.mkfifo(b.dir + "/t/p");
    b.put(fs, b.dir + "/t");
    vos::FS g = b.get();
    vos::Result r = b.nb({}, "", b.dir);
    return vos::diff(fs, g, b.dir + "/t").empty() && r.kind == vos::E_EXIT && r.code != 127;
  } catch (...) {
    return false;
  }
}
void cleanup() {
  std::error_code ec;
  if (base.compare(0, 12, "/tmp/nbreal.") == 0) std::filesystem::remove_all(base, ec);
}
Box::Box() {
  dir = base + "/" + std::to_string(getpid()) + "." + std::to_string(counter++);
  if (mkdir(dir.c_str(), 0755) != 0 || chmod(dir.c_str(), 0755) != 0 || chown(dir.c_str(), UID, UID) != 0) throw 1;
}
Box::~Box() {
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
}
void Box::put(const vos::FS &fs, const string &path) {
  std::error_code ec;
  std::filesystem::remove_all(path, ec);
  int n = fs.lookup(path, false);
  if (n >= 0 && !create(fs, n, path)) throw 1;
}
vos::FS Box::get() const {
  vos::FS fs;
  int n = fs.mkdir(dir);
  import(fs, n, dir);
  return fs;
}
vos::Result Box::nb(const vector<string> &args, const string &in, const string &cwd) {
  vos::Result r;
  string pre = base + "/io." + std::to_string(getpid());
  unlink((pre + ".in").c_str());
  if (!writeFile(pre + ".in", in)) throw 1;
  pid_t p = fork();
  if (p < 0) throw 1;
  if (p == 0) {
    signal(SIGPIPE, SIG_DFL);
    int i = open((pre + ".in").c_str(), O_RDONLY), o = open((pre + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600),
        e = open((pre + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    for (int fd = 3; fd < 64; fd++) close(fd);
    struct rlimit z = {0, 0}, t = {20, 20};
    setrlimit(RLIMIT_CORE, &z);
    setrlimit(RLIMIT_CPU, &t);
    alarm(60);
    umask(022);
    if (setgroups(0, nullptr) || setgid(UID) || setuid(UID) || chdir(cwd.c_str())) _exit(127);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    vector<char *> av = {(char *)"nb"};
    for (auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    char *env[] = {(char *)"LC_ALL=C", nullptr};
    execve(exe.c_str(), av.data(), env);
    _exit(127);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.out = readFile(pre + ".out");
  r.err = readFile(pre + ".err");
  if (WIFEXITED(st)) { r.kind = vos::E_EXIT; r.code = WEXITSTATUS(st); }
  else { r.kind = vos::E_SIGNAL; r.sig = WTERMSIG(st); }
  return r;
}
}  // namespace real
