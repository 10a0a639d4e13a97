// Domains for checks: every worker owns an account, an IPC key and a directory,
// so that everything it leaves behind can be found (and removed) by owner.
#pragma once
#include <dirent.h>
#include <sys/ipc.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include "proc.hpp"
extern "C" int setgroups(size_t, const gid_t *) noexcept;
namespace dom {
using pbt::fmt;
inline uid_t g_base = 64200;  // set by the check
inline uid_t uid(int w) { return g_base + w; }
inline uint32_t key(int w) { return 0x46000000u + (uint32_t)uid(w); }
inline std::string dir(int w) { return pbt::g_scratch + fmt("/d%d", w); }

struct Ipc {
  std::vector<int> q, m, s;
  size_t n() const { return q.size() + m.size() + s.size(); }
  std::string str() const { return pbt::fmt("%zu queues, %zu shared memory segments, %zu semaphores", q.size(), m.size(), s.size()); }
};
// System V objects that belong to an account
inline Ipc ipc_of(uid_t u) {
  Ipc r;
  struct msginfo mi;
  int max = msgctl(0, MSG_INFO, (struct msqid_ds *)&mi);
  for (int i = 0; i <= max; i++) {
    struct msqid_ds d;
    int id = msgctl(i, MSG_STAT, &d);
    if (id != -1 && d.msg_perm.cuid == u) r.q.push_back(id);
  }
  struct shm_info si;
  max = shmctl(0, SHM_INFO, (struct shmid_ds *)&si);
  for (int i = 0; i <= max; i++) {
    struct shmid_ds d;
    int id = shmctl(i, SHM_STAT, &d);
    if (id != -1 && d.shm_perm.cuid == u) r.m.push_back(id);
  }
  union {
    int val;
    struct semid_ds *buf;
    struct seminfo *info;
  } a;
  struct seminfo sem;
  a.info = &sem;
  max = semctl(0, 0, SEM_INFO, a);
  for (int i = 0; i <= max; i++) {
    struct semid_ds d;
    a.buf = &d;
    int id = semctl(i, 0, SEM_STAT, a);
    if (id != -1 && d.sem_perm.cuid == u) r.s.push_back(id);
  }
  return r;
}
inline void remove_ipc(uid_t u) {
  if (u < 64000 || u > 65000) abort();
  Ipc r = ipc_of(u);
  for (int i : r.q) msgctl(i, IPC_RMID, nullptr);
  for (int i : r.m) shmctl(i, IPC_RMID, nullptr);
  for (int i : r.s) semctl(i, 0, IPC_RMID);
}
struct Proc {
  pid_t pid, ppid;
  char state;
  std::string comm;
  std::vector<std::string> args;
};
inline std::vector<Proc> procs_of(uid_t u) {
  std::vector<Proc> r;
  DIR *d = opendir("/proc");
  if (!d) return r;
  while (auto *e = readdir(d)) {
    pid_t p = atoi(e->d_name);
    struct stat st;
    if (p <= 1 || stat(fmt("/proc/%d", p).c_str(), &st) != 0 || st.st_uid != u) continue;
    std::string s = proc::read_file(fmt("/proc/%d/stat", p)), c = proc::read_file(fmt("/proc/%d/cmdline", p));
    size_t a = s.find('('), b = s.rfind(')');
    if (a == std::string::npos || b == std::string::npos || b + 4 > s.size()) continue;
    Proc x;
    x.pid = p;
    x.comm = s.substr(a + 1, b - a - 1);
    x.state = s[b + 2];
    x.ppid = atoi(s.c_str() + b + 4);
    for (size_t i = 0; i < c.size();) {
      x.args.push_back(c.c_str() + i);
      i += x.args.back().size() + 1;
    }
    r.push_back(x);
  }
  closedir(d);
  return r;
}
// by the (privileged) coordinator
inline void kill_all(uid_t u) {
  if (u < 64000 || u > 65000) abort();
  for (int i = 0; i < 400; i++) {
    auto v = procs_of(u);
    bool any = false;
    for (auto &p : v)
      if (p.state != 'Z' && p.pid != getpid()) {
        kill(p.pid, SIGKILL);
        any = true;
      }
    if (!any) return;
    usleep(5000);
  }
}
inline void wipe(int w) {
  kill_all(uid(w));
  remove_ipc(uid(w));
  proc::rmtree(dir(w));
}
// first thing in the setup of a worker: a fresh directory, then the account
inline void become(int w) {
  chmod(pbt::g_scratch.c_str(), 01777);
  wipe(w);
  if (mkdir(dir(w).c_str(), 0700) != 0 || chown(dir(w).c_str(), uid(w), uid(w)) != 0) pbt::fail("cannot create %s", dir(w).c_str());
  if (setgroups(0, nullptr) != 0 || setresgid(uid(w), uid(w), uid(w)) != 0 || setresuid(uid(w), uid(w), uid(w)) != 0)
    pbt::fail("cannot use account %d", (int)uid(w));
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  prctl(PR_SET_DUMPABLE, 1);
  umask(077);
  if (chdir(dir(w).c_str()) != 0) pbt::fail("cannot enter %s", dir(w).c_str());
  setenv("HOME", dir(w).c_str(), 1);
  setenv("TMPDIR", dir(w).c_str(), 1);
  setenv("APPDIR", dir(w).c_str(), 1);
  setenv("TUXCONFIG", (dir(w) + "/tuxconfig").c_str(), 1);
  setenv("ULOGPFX", "/nonexistent/ULOG", 1);
}
}  // namespace dom
