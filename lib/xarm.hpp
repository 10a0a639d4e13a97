// A resource manager for checks: an xa_switch_t whose calls are recorded, in
// order and across processes, in shared memory, and whose answers follow the
// XA specification or a script of the check.
#pragma once
#include <atmi.h>
#include <tx.h>
#include <xa.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include "pbt.hpp"
namespace xarm {
enum Fn { OPEN, CLOSE, START, END, PREPARE, COMMIT, ROLLBACK, NFN };
inline const char *fn_name(int f) {
  static const char *n[] = {"open", "close", "start", "end", "prepare", "commit", "rollback"};
  return n[f];
}
struct Ev {
  int fn, rmid, ret;
  long flags;
  pid_t pid, tid;
  XID xid;
  char info[64];
};
constexpr int MAXEV = 60000;
struct Shared {
  std::atomic<uint32_t> lock;
  uint32_t n;
  int fault[NFN][8];  // answers to the next calls, 0: none
  int fault_rm;       // the group these are for (but for TMRESUME), 0: any
  int vote[64];       // answer of a group to prepare
  int strict;         // answers to start like a real resource manager
  Ev ev[MAXEV];
};
inline Shared *sh = nullptr;
inline void create() {
  if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
struct Lock {
  Lock() {
    uint32_t z = 0;
    while (!sh->lock.compare_exchange_weak(z, 1)) {
      z = 0;
      sched_yield();
    }
  }
  ~Lock() { sh->lock = 0; }
};
inline std::string xs(const XID &x) {
  if (x.formatID == -1) return "null";
  std::string s = std::to_string(x.formatID) + ".";
  for (int i = 0; i < x.gtrid_length + x.bqual_length && i < XIDDATASIZE; i++) {
    if (i == x.gtrid_length) s += ".";
    char b[4];
    snprintf(b, sizeof(b), "%02x", (unsigned char)x.data[i]);
    s += b;
  }
  return s;
}
inline std::string str(const Ev &e) {
  return pbt::fmt("xa_%s(%s, group %d, 0x%lx)=%d by %d", fn_name(e.fn), e.fn <= CLOSE ? e.info : xs(e.xid).c_str(), e.rmid, e.flags, e.ret, (int)e.tid);
}
inline int call(int fn, XID *x, const char *info, int rmid, long flags) {
  Lock l;
  if (sh->n >= MAXEV) abort();
  Ev &e = sh->ev[sh->n++];
  memset(&e, 0, sizeof(e));
  e.fn = fn;
  e.rmid = rmid;
  e.flags = flags;
  e.pid = getpid();
  e.tid = (pid_t)syscall(SYS_gettid);
  if (x)
    e.xid = *x;
  else
    e.xid.formatID = -1;
  if (info) snprintf(e.info, sizeof(e.info), "%s", info);
  int ret = 0;
  if (sh->fault_rm == 0 || (sh->fault_rm == rmid && !(flags & TMRESUME))) {
    ret = sh->fault[fn][0];
    for (int i = 0; i + 1 < 8; i++) sh->fault[fn][i] = sh->fault[fn][i + 1];
    sh->fault[fn][7] = 0;
  }
  if (ret == 0 && fn == PREPARE && rmid >= 0 && rmid < 64) ret = sh->vote[rmid];
  if (ret == 0 && fn == PREPARE) {
    // work that was marked as failed, or is still going on, cannot be prepared
    int active = 0;
    for (uint32_t i = 0; i + 1 < sh->n; i++) {
      Ev &o = sh->ev[i];
      if (o.rmid != rmid || o.fn == OPEN || o.fn == CLOSE || xs(o.xid) != xs(*x)) continue;
      if (o.fn == START && o.ret == XA_OK) active++;
      if (o.fn == END && (o.ret == XA_OK || o.ret >= XA_RBBASE)) active--;
      if (o.fn == END && (o.flags & TMFAIL)) ret = XA_RBROLLBACK;
    }
    if (active > 0 && ret == 0) ret = XAER_PROTO;
  }
  if (ret == 0 && fn == START && sh->strict && !(flags & TMRESUME)) {
    bool exists = false;
    std::string id = xs(*x);
    for (uint32_t i = 0; i + 1 < sh->n && !exists; i++) {
      Ev &o = sh->ev[i];
      exists = o.rmid == rmid && o.fn == START && o.ret == XA_OK && xs(o.xid) == id;
    }
    if (exists && !(flags & TMJOIN)) ret = XAER_DUPID;
    if (!exists && (flags & TMJOIN)) ret = XAER_NOTA;
  }
  e.ret = ret;
  return ret;
}
inline int xa_open(char *i, int rm, long f) { return call(OPEN, nullptr, i, rm, f); }
inline int xa_close(char *i, int rm, long f) { return call(CLOSE, nullptr, i, rm, f); }
inline int xa_start(XID *x, int rm, long f) { return call(START, x, nullptr, rm, f); }
inline int xa_end(XID *x, int rm, long f) { return call(END, x, nullptr, rm, f); }
inline int xa_rollback(XID *x, int rm, long f) { return call(ROLLBACK, x, nullptr, rm, f); }
inline int xa_prepare(XID *x, int rm, long f) { return call(PREPARE, x, nullptr, rm, f); }
inline int xa_commit(XID *x, int rm, long f) { return call(COMMIT, x, nullptr, rm, f); }
inline int xa_recover(XID *, long, int, long) { return 0; }
inline int xa_forget(XID *, int, long) { return XA_OK; }
inline int xa_complete(int *, int *, int, long) { return XAER_PROTO; }
inline struct xa_switch_t vx_switch = {"VX",    TMNOFLAGS,   0,          xa_open,   xa_close,   xa_start,  xa_end,
                                       xa_rollback, xa_prepare, xa_commit, xa_recover, xa_forget, xa_complete};

// ---- legal order of the recorded calls (XA specification, chapter 6) ----
struct Branch {
  // none, active in some thread(s), suspended by a thread, idle, prepared, done
  enum { none, live, prepared, done } st = none;
  std::map<pid_t, int> assoc;  // thread -> 1 associated, 2 suspended, 3 failed to end
  bool rbonly = false, committed = false, rolledback = false, rdonly = false, touched = false;
  int decisions = 0;
  bool in_use() const {
    for (auto &a : assoc)
      if (a.second != 3) return true;
    return false;
  }
};
struct Checker {
  std::map<std::pair<std::string, int>, Branch> br;  // identifier, group
  std::map<std::pair<pid_t, int>, bool> open;
  std::map<std::pair<pid_t, int>, std::string> cur;  // what a thread is associated with
  uint32_t pos = 0;
  bool lenient = false;  // callers may learn from an error whether a branch exists
  // consumes new events, fails when one is out of order
  void run() {
    uint32_t n;
    {
      Lock l;
      n = sh->n;
    }
    for (; pos < n; pos++) {
      const Ev &e = sh->ev[pos];
      std::string why = one(e);
      if (!why.empty()) {
        std::string h;
        for (uint32_t i = pos > 25 ? pos - 25 : 0; i <= pos; i++) h += str(sh->ev[i]) + "\n";
        pbt::fail("illegal call to the resource manager, %s; calls:\n%s", why.c_str(), h.c_str());
      }
    }
  }
  std::string one(const Ev &e) {
    auto ok = [&] { return e.ret == XA_OK || e.ret == XA_RDONLY || (e.ret >= XA_RBBASE && e.ret <= XA_RBEND); };
    pid_t who = e.tid;
    if (e.fn == OPEN) {
      if (e.ret == XA_OK) open[{who, e.rmid}] = true;
      return "";
    }
    if (e.fn == CLOSE) {
      if (cur.count({who, e.rmid})) return "close while associated with a transaction";
      if (e.ret == XA_OK) open[{who, e.rmid}] = false;
      return "";
    }
    if (!open[{who, e.rmid}]) return "call before open";
    if (e.xid.formatID == -1 || e.xid.gtrid_length < 1 || e.xid.gtrid_length > 64 || e.xid.bqual_length < 0 || e.xid.bqual_length > 64)
      return "bad identifier";
    std::string x = xs(e.xid);
    Branch &b = br[{x, e.rmid}];
    auto me = std::make_pair(who, e.rmid);
    switch (e.fn) {
      case START: {
        if (cur.count(me)) return "start while associated with " + cur[me];
        if (e.flags & TMRESUME) {
          if (b.assoc.find(who) == b.assoc.end() || b.assoc[who] != 2) return "resume of what is not suspended";
        } else if (lenient && e.ret != XA_OK) {
          return "";
        } else if (e.flags & TMJOIN) {
          if (b.st != Branch::live) return "join of a branch that is not active";
        } else {
          if (b.st != Branch::none) return "start of a branch that exists";
        }
        if (b.st == Branch::prepared || b.st == Branch::done) return "start of a finished branch";
        if (e.ret == XA_OK) {
          b.st = Branch::live;
          b.touched = true;
          b.assoc[who] = 1;
          cur[me] = x;
        }
        return "";
      }
      case END: {
        auto it = b.assoc.find(who);
        if (it == b.assoc.end()) return "end of what this thread is not associated with";
        if ((e.flags & TMSUSPEND) && it->second == 2) return "suspend of what is suspended";
        if (!(e.flags & (TMSUSPEND | TMSUCCESS | TMFAIL))) return "end without a valid flag";
        if (ok()) {
          if (e.flags & TMFAIL || e.ret >= XA_RBBASE) b.rbonly = true;
          if (e.flags & TMSUSPEND && e.ret == XA_OK)
            it->second = 2;
          else
            b.assoc.erase(it);
          cur.erase(me);
        } else {
          it->second = 3;  // not known: may be ended again, cannot be committed
          b.rbonly = true;
          cur.erase(me);
        }
        return "";
      }
      case PREPARE:
        if (b.st != Branch::live) return "prepare of a branch that is not there";
        if (e.ret == XAER_PROTO && b.in_use()) return "";  // refused as still active
        if (b.in_use()) return "prepare of a branch still in use";
        if (e.ret == XA_OK) {
          if (b.rbonly) return "";
          b.st = Branch::prepared;
        } else if (e.ret == XA_RDONLY) {
          b.st = Branch::done;
          b.rdonly = true;
        } else if (e.ret >= XA_RBBASE && e.ret <= XA_RBEND) {
          b.st = Branch::done;
          b.rolledback = true;
          b.decisions++;
        }
        return "";
      case COMMIT:
        if (b.st == Branch::done) return "commit of a finished branch";
        if (e.flags & TMONEPHASE) {
          if (b.st != Branch::live || b.in_use()) return "one-phase commit of a branch that is not idle";
        } else if (b.st != Branch::prepared)
          return "commit of a branch that is not prepared";
        b.decisions++;
        b.st = Branch::done;
        (ok() && e.ret == XA_OK ? b.committed : b.rolledback) = true;
        return "";
      case ROLLBACK:
        if (b.st == Branch::done) return "rollback of a finished branch";
        if (b.st == Branch::none && lenient) return "";
        if (b.st == Branch::none) return "rollback of an unknown branch";
        b.decisions++;
        b.st = Branch::done;
        b.rolledback = true;
        return "";
    }
    return "";
  }
};
}  // namespace xarm
