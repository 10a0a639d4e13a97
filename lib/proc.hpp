// Running programs with captured output and a time limit.
#pragma once
#include <dirent.h>
#include <ftw.h>
#include <poll.h>
#include "pbt.hpp"
#include <mutex>
extern char **environ;
namespace proc {
// children that somebody waits for; others may be reaped by a thread
inline std::mutex own_mx;
inline std::set<pid_t> own;
inline pid_t fork_own() {
  own_mx.lock();
  pid_t p = fork();
  if (p > 0) own.insert(p);
  own_mx.unlock();
  return p;
}
inline void disown(pid_t p) {
  own_mx.lock();
  own.erase(p);
  own_mx.unlock();
}
struct Result {
  int status = -1;  // exit status, 128 + signal, or -1 when it had to be killed
  std::string out, err;
};
inline void slurp(const std::string &p, std::string &s) {
  s.clear();
  int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  char b[65536];
  ssize_t n;
  while (fd != -1 && (n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
  if (fd != -1) close(fd);
}
inline std::string read_file(const std::string &p) {
  std::string s;
  slurp(p, s);
  return s;
}
inline bool exists(const std::string &p) {
  struct stat st;
  return lstat(p.c_str(), &st) == 0;
}
inline void write_file(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
  f.close();
  if (!f) pbt::fail("cannot write %s", p.c_str());
}
inline int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
// only ever used on directories below the scratch directory of the check
inline void rmtree(const std::string &p) {
  if (pbt::g_scratch.size() < 6 || p.compare(0, pbt::g_scratch.size() + 1, pbt::g_scratch + "/") != 0) abort();
  nftw(p.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
inline void mkdirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
}
inline Result run(const std::vector<std::string> &argv, const std::string &in = "", double limit = 30,
                  const std::vector<std::string> &env = {}, const std::string &cwd = "") {
  static int counter = 0;
  std::string base = pbt::g_scratch + pbt::fmt("/run.%d.%d", getpid(), counter++);
  write_file(base + ".in", in);
  std::vector<char *> av;
  for (auto &a : argv) av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  pid_t pid = fork_own();
  if (pid == 0) {
    int fd = open((base + ".in").c_str(), O_RDONLY);
    dup2(fd, 0);
    fd = open((base + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    dup2(fd, 1);
    fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    dup2(fd, 2);
    for (int i = 3; i < 64; i++) close(i);
    if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(126);
    for (auto &e : env) putenv((char *)e.c_str());
    execvp(av[0], av.data());
    _exit(127);
  }
  Result r;
  double t0 = pbt::now();
  int st;
  useconds_t nap = 300;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) {
      r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      break;
    }
    if (pbt::now() - t0 > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.status = -1;
      break;
    }
    usleep(nap);
    if (nap < 4000) nap += nap / 4;
  }
  disown(pid);
  slurp(base + ".out", r.out);
  slurp(base + ".err", r.err);
  unlink((base + ".in").c_str());
  unlink((base + ".out").c_str());
  unlink((base + ".err").c_str());
  return r;
}
// ended by itself with a non-zero status
inline bool refused(const Result &r) { return r.status > 0 && !(r.status > 128 && r.status < 193); }
inline std::vector<std::string> list(const std::string &dir) {
  std::vector<std::string> v;
  DIR *d = opendir(dir.c_str());
  if (!d) return v;
  while (auto e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") v.push_back(n);
  }
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}
}  // namespace proc
