// Real domains for checks: the executable of a check also is the server that
// tmboot starts (through a link), so that services do what the check plans and
// record what they see in memory shared through a file.
#pragma once
#include <atmi.h>
#include <fml32.h>
#include <tx.h>
#include <xa.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <atomic>
#include <thread>
#include "domain.hpp"
#include "xarm.hpp"
extern "C" {
int _tmrunserver(int);
extern int _tmbuilt_with_thread_option;
int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs);
extern struct xa_switch_t tmnull_switch;
void TM(TPSVCINFO *);
}
namespace fux {
extern bool threaded;
namespace glob {
extern xa_switch_t *xasw;
}
namespace tx {
extern uint16_t grpno;
}
}  // namespace fux
namespace e2e {
using pbt::fmt;
using pbt::G;

// ---- values in buffers, independent of their representation
struct Val {
  std::string type;   // "": no buffer
  std::string bytes;  // contents of STRING and CARRAY
  struct F {
    FLDID32 id;
    std::string v;
  };
  std::vector<F> f;  // fields of FML32, nested buffers as serialised values
  bool operator==(const Val &o) const {
    if (type != o.type || bytes != o.bytes || f.size() != o.f.size()) return false;
    for (size_t i = 0; i < f.size(); i++)
      if (f[i].id != o.f[i].id || f[i].v != o.f[i].v) return false;
    return true;
  }
  std::string str() const {
    if (type.empty()) return "no data";
    if (type != "FML32") return type + " " + pbt::show(bytes, 40);
    std::string s = fmt("FML32 with %zu fields", f.size());
    for (size_t i = 0; i < f.size() && i < 4; i++) s += fmt(" %d=", (int)f[i].id) + pbt::show(f[i].v, 20);
    return s;
  }
  std::string pack() const {
    std::string s;
    auto put = [&](const std::string &x) {
      uint32_t n = x.size();
      s.append((char *)&n, 4);
      s += x;
    };
    put(type);
    put(bytes);
    uint32_t n = f.size();
    s.append((char *)&n, 4);
    for (auto &x : f) {
      s.append((char *)&x.id, 4);
      put(x.v);
    }
    return s;
  }
  static Val unpack(const char *p) {
    Val v;
    auto get = [&](std::string &x) {
      uint32_t n;
      memcpy(&n, p, 4);
      x.assign(p + 4, n);
      p += 4 + n;
    };
    get(v.type);
    get(v.bytes);
    uint32_t n;
    memcpy(&n, p, 4);
    p += 4;
    v.f.resize(n);
    for (auto &x : v.f) {
      memcpy(&x.id, p, 4);
      p += 4;
      get(x.v);
    }
    return v;
  }
};
inline std::vector<Val::F> fields_of(FBFR32 *b) {
  std::vector<Val::F> r;
  FLDID32 id = FIRSTFLDID;
  FLDOCC32 oc = 0;
  while (Fnext32(b, &id, &oc, nullptr, nullptr) == 1) {
    FLDLEN32 len;
    char *p = Ffind32(b, id, oc, &len);
    Val::F f;
    f.id = id;
    if (p && Fldtype32(id) == FLD_FML32) {
      Val n;
      n.type = "FML32";
      n.f = fields_of((FBFR32 *)p);
      f.v = n.pack();
    } else if (p)
      f.v.assign(p, len);
    r.push_back(f);
  }
  return r;
}
inline Val value_of(char *data, long len) {
  Val v;
  if (!data) return v;
  char t[9] = "", st[17] = "";
  if (tptypes(data, t, st) == -1) {
    v.type = "invalid";
    return v;
  }
  v.type = t;
  if (v.type == "STRING")
    v.bytes = data;
  else if (v.type == "FML32")
    v.f = fields_of((FBFR32 *)data);
  else if (len > 0)
    v.bytes.assign(data, len);
  return v;
}
inline long need(const Val &v) {
  long n = 512 + v.bytes.size() + 1;
  for (auto &f : v.f) n += f.v.size() + 64;
  return n;
}
inline bool fill(FBFR32 *b, const std::vector<Val::F> &f) {
  for (auto &x : f) {
    if (Fldtype32(x.id) == FLD_FML32) {
      Val n = Val::unpack(x.v.data());
      std::vector<char> m(need(n) + 512);
      if (Finit32((FBFR32 *)m.data(), m.size()) == -1 || !fill((FBFR32 *)m.data(), n.f)) return false;
      if (Fadd32(b, x.id, m.data(), 0) == -1) return false;
    } else if (Fadd32(b, x.id, (char *)x.v.data(), x.v.size()) == -1)
      return false;
  }
  return true;
}
// a buffer with the value; len: what the sender passes
inline char *build(const Val &v, long &len, long slack = 0) {
  len = 0;
  if (v.type.empty()) return nullptr;
  long n = (v.type == "FML32" ? need(v) : v.bytes.size() + 1) + slack;
  char *p = tpalloc((char *)v.type.c_str(), nullptr, n);
  if (!p) return nullptr;
  if (v.type == "FML32") {
    if (!fill((FBFR32 *)p, v.f)) {
      tpfree(p);
      return nullptr;
    }
  } else {
    memcpy(p, v.bytes.data(), v.bytes.size());
    if (v.type == "STRING") p[v.bytes.size()] = 0;
    if (v.type == "CARRAY") len = v.bytes.size();
  }
  return p;
}
// the length a receiver is told
inline long length_of(const Val &v, char *data) {
  if (v.type.empty()) return 0;
  if (v.type == "STRING") return v.bytes.size() + 1;
  if (v.type == "FML32") return data ? Fused32((FBFR32 *)data) : 0;
  return v.bytes.size();
}

// ---- what services do and record
struct Ref {
  uint64_t off, len;
};
struct Call {
  char svc[128];
  Ref in, out0;
  long flags;
  int ret, err;
  long ur, olen;
  Ref out;
  bool done;
};
enum End { RETURN, FORWARD, FALLOFF, ECHO };
struct Node {
  int ncalls;
  Call calls[3];
  int end, rval;
  long rcode, rflags;
  char fsvc[128];
  Ref out;
  int delay_us;
  // recorded
  bool seen;
  char svc[128];
  long flags, len;
  Ref got;
  long outlen;
  int srvid, grpno, fn;
};
struct Rec {
  uint64_t id;
  int srvid, grpno, fn;
  pid_t pid, tid;
  char svc[128];
  long a, b;
  double t0, t1;
  char xid[160];
};
constexpr uint64_t ARENA = 192ull << 20;
constexpr int MAXREC = 60000, MAXNODE = 24;
struct Shared {
  std::atomic<uint32_t> next;  // node of the next invocation
  uint32_t nnodes;
  Node nodes[MAXNODE];
  std::atomic<uint32_t> nrec;
  Rec rec[MAXREC];
  std::atomic<uint64_t> used;
  std::atomic<uint32_t> inits, dones;
  xarm::Shared xa;
  char arena[ARENA];
};
inline Shared *sh = nullptr;
inline void map_shared(const char *path, bool create) {
  int fd = open(path, O_RDWR | (create ? O_CREAT : 0) | O_CLOEXEC, 0600);
  if (fd == -1 || (create && ftruncate(fd, sizeof(Shared)) != 0)) abort();
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) abort();
  close(fd);
  xarm::sh = &sh->xa;
}
inline Ref put(const Val &v) {
  std::string s = v.pack();
  uint64_t n = (s.size() + 7) / 8 * 8, o = sh->used.fetch_add(n);
  if (o + n > ARENA) abort();
  memcpy(sh->arena + o, s.data(), s.size());
  return {o + 1, s.size()};
}
inline Val get(const Ref &r) { return r.off ? Val::unpack(sh->arena + r.off - 1) : Val(); }

// ---- the server
inline int g_srvid = -1, g_grpno = -1;
inline Rec *record(TPSVCINFO *i, int fn, uint64_t id) {
  uint32_t n = sh->nrec++;
  if (n >= MAXREC) abort();
  Rec &r = sh->rec[n];
  memset(&r, 0, sizeof(r));
  r.id = id;
  r.srvid = g_srvid;
  r.grpno = g_grpno;
  r.fn = fn;
  r.pid = getpid();
  r.tid = syscall(SYS_gettid);
  snprintf(r.svc, sizeof(r.svc), "%s", i->name);
  r.t0 = pbt::now();
  return &r;
}
// follows the plan
template <int N>
void plan(TPSVCINFO *i) {
  uint32_t k = sh->next++;
  if (k >= sh->nnodes) {
    tpreturn(TPFAIL, 7777777, nullptr, 0, 0);
    return;
  }
  Node &n = sh->nodes[k];
  n.seen = true;
  snprintf(n.svc, sizeof(n.svc), "%s", i->name);
  n.flags = i->flags;
  n.len = i->len;
  n.srvid = g_srvid;
  n.grpno = g_grpno;
  n.fn = N;
  {
    Val v = value_of(i->data, i->len);
    n.got = put(v);
    // len must also be right for the receiver's own buffer
    if (v.type == "FML32" && Fused32((FBFR32 *)i->data) != i->len) n.len = -1000000 - i->len;
  }
  for (int c = 0; c < n.ncalls; c++) {
    Call &x = n.calls[c];
    long l = 0, ol = -5;
    char *in, *out;
    {
      Val v = get(x.in), o = get(x.out0);
      in = build(v, l);
      long ign;
      out = build(o, ign);
    }
    tpurcode = -99;
    x.ret = tpcall(x.svc, in, l, &out, &ol, x.flags);
    x.err = x.ret == -1 ? tperrno : 0;
    x.ur = tpurcode;
    x.olen = ol;
    {
      Val v = value_of(out, ol);
      x.out = put(v);
      if (v.type == "FML32" && ol > 0 && Fused32((FBFR32 *)out) != ol) x.olen = -1000000 - ol;
    }
    x.done = true;
    if (in) tpfree(in);
    if (out) tpfree(out);
  }
  if (n.delay_us) usleep(n.delay_us);
  if (n.end == FALLOFF) return;
  if (n.end == ECHO) {
    n.outlen = i->len;
    tpreturn(n.rval, n.rcode, i->data, i->len, n.rflags);
    return;
  }
  long l = 0;
  char *out;
  {
    Val v = get(n.out);
    out = build(v, l);
    n.outlen = length_of(v, out);
  }
  if (n.end == FORWARD)
    tpforward(n.fsvc, out, l, 0);
  else
    tpreturn(n.rval, n.rcode, out, l, n.rflags);
}
// ID DELAY RVAL RCODE: waits and returns "ID"
template <int N>
void cmd(TPSVCINFO *i) {
  unsigned long long id = 0;
  long delay = 0, rcode = 0;
  int rval = TPSUCCESS;
  sscanf(i->data ? i->data : "", "%llu %ld %d %ld", &id, &delay, &rval, &rcode);
  Rec *r = record(i, N, id);
  r->a = i->flags;
  if (delay) usleep(delay);
  char *out = tpalloc((char *)"STRING", nullptr, 64);
  snprintf(out, 64, "%llu %d %d %d", id, N, g_srvid, g_grpno);
  r->t1 = pbt::now();
  tpreturn(rval, rcode, out, 0, 0);
}
constexpr int NFN = 6;
typedef void (*Fn)(TPSVCINFO *);
inline Fn cmd_fn(int n) {
  static Fn f[NFN] = {cmd<0>, cmd<1>, cmd<2>, cmd<3>, cmd<4>, cmd<5>};
  return f[n];
}
// A NAME FN / U NAME: advertises or withdraws; the user code is tperrno, or 0
inline void ctl(TPSVCINFO *i) {
  char op = 0, name[4096] = "";
  int fn = 0, rc = -1;
  int nul = 0;
  if (i->data) sscanf(i->data, "%c %d %d %4000s", &op, &fn, &nul, name);
  Rec *r = record(i, -1, 0);
  tperrno = -1;
  char *n = nul == 1 ? nullptr : nul == 2 ? (char *)"" : name;
  if (op == 'A')
    rc = tpadvertise(n, fn < 0 ? nullptr : cmd_fn(fn));
  else if (op == 'U')
    rc = tpunadvertise(n);
  long code = rc == 0 ? (tperrno == 0 ? 0 : 1000 + tperrno) : tperrno;
  r->t1 = pbt::now();
  tpreturn(TPSUCCESS, code, nullptr, 0, 0);
}
inline std::function<int()> server_init;
inline int svrinit(int argc, char **argv) {
  sh->inits++;
  if (tpopen() == -1) return -1;
  return server_init ? server_init() : 0;
}
inline void svrdone() {
  sh->dones++;
  tpclose();
}
// the services of a server, in the table that buildserver would generate
inline std::vector<std::pair<std::string, Fn>> server_services;
// SERVER names: vt...: with threads, vx...: with the recording resource
// manager (vxt...: and threads), vm...: transaction manager
inline bool is_server(const char *a0) {
  const char *b = strrchr(a0, '/');
  b = b ? b + 1 : a0;
  return !strncmp(b, "vs", 2) || !strncmp(b, "vt", 2) || !strncmp(b, "vx", 2) || !strncmp(b, "vm", 2);
}
inline int server_main(int argc, char **argv, std::function<void()> prepare) {
  const char *b = strrchr(argv[0], '/');
  b = b ? b + 1 : argv[0];
  const char *path = getenv("VSHARED");
  if (!path) return 3;
  map_shared(path, false);
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "-i")) g_srvid = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "-g")) g_grpno = atoi(argv[i + 1]);
  }
  prctl(PR_SET_PDEATHSIG, 0);
  static std::vector<tmdsptchtbl_t> table;
  if (b[1] == 'm')
    table.push_back({(char *)".TM", (char *)"TM", TM, 0, 0, NULL});
  else {
    prepare();
    for (auto &s : server_services) table.push_back({(char *)s.first.c_str(), (char *)"fn", s.second, 0, 0, NULL});
  }
  table.push_back({NULL, NULL, NULL, 0, 0, NULL});
  bool xa = b[1] == 'x' || b[1] == 'm';
  static struct tmsvrargs_t args = {xa ? &xarm::vx_switch : &tmnull_switch, table.data(), 0,    svrinit, svrdone, _tmrunserver, NULL, NULL,
                                    NULL,                                   NULL,         tprminit, tpsvrthrinit,   tpsvrthrdone, NULL};
  _tmbuilt_with_thread_option = b[1] == 't' || (b[1] == 'x' && b[2] == 't');
  return _tmstartserver(argc, argv, &args);
}

// ---- the domain, in a worker
inline std::string tuxdir() { return getenv("TUXDIR"); }
inline void reaper() {
  while (true) {
    siginfo_t si;
    si.si_pid = 0;
    if (waitid(P_ALL, 0, &si, WEXITED | WNOWAIT) != 0) {
      usleep(2000);
      continue;
    }
    bool mine;
    proc::own_mx.lock();
    mine = proc::own.count(si.si_pid);
    if (!mine) {
      int st;
      waitpid(si.si_pid, &st, WNOHANG);
    }
    proc::own_mx.unlock();
    if (mine) usleep(300);
  }
}
inline std::vector<std::string> tool_env() {
  static std::string v = fmt("VSHARED=%s/shared", getenv("HOME")), l = "LSAN_OPTIONS=detect_leaks=0";
  return {v, l};
}
inline proc::Result tool(std::vector<std::string> argv, double limit = 60, const std::string &in = "") {
  argv[0] = tuxdir() + "/bin/" + argv[0];
  return proc::run(argv, in, limit, tool_env(), getenv("HOME"));
}
inline void on_crash(int sig) {
  void *f[60];
  int n = backtrace(f, 60);
  backtrace_symbols_fd(f, n, 2);
  signal(sig, SIG_DFL);
  raise(sig);
}
// enters the account, and prepares memory and the links to servers
inline void enter(int w, const std::vector<std::string> &links) {
  dom::become(w);
  void *f[2];
  backtrace(f, 2);
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE}) signal(s, on_crash);
  std::string home = getenv("HOME");
  if (prctl(PR_SET_CHILD_SUBREAPER, 1) != 0) pbt::fail("no subreaper");
  map_shared((home + "/shared").c_str(), true);
  setenv("VSHARED", (home + "/shared").c_str(), 1);
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof(self) - 1);
  if (n < 0) pbt::fail("no executable");
  self[n] = 0;
  for (auto &l : links)
    if (symlink(self, (home + "/" + l).c_str()) != 0) pbt::fail("cannot create %s", l.c_str());
  std::thread(reaper).detach();
}
inline std::string ubb_head(int w, const std::string &resources = "") {
  std::string home = getenv("HOME");
  return fmt("*RESOURCES\nIPCKEY %u\n", dom::key(w)) + resources +
         fmt("*MACHINES\nhost LMID=simple TUXCONFIG=\"%s/tuxconfig\" TUXDIR=\"%s\" APPDIR=\"%s\" ULOGPFX=\"/nonexistent/ULOG\"\n", home.c_str(),
             tuxdir().c_str(), home.c_str());
}
inline void load(const std::string &ubb) {
  std::string home = getenv("HOME");
  proc::write_file(home + "/ubb", ubb);
  auto r = tool({"tmloadcf", "-y", home + "/ubb"});
  if (r.status != 0) pbt::fail("tmloadcf: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
}
inline void boot() {
  auto r = tool({"tmboot", "-y"});
  if (r.status != 0 || r.out.find("Failed") != std::string::npos)
    pbt::fail("tmboot: status %d, %s %s; %s", r.status, pbt::show(r.out, 2000).c_str(), pbt::show(r.err, 500).c_str(),
              pbt::show(proc::read_file(std::string(getenv("HOME")) + "/stderr"), 500).c_str());
}
inline void reset() {
  sh->next = 0;
  sh->nnodes = 0;
  sh->nrec = 0;
  sh->used = 0;
  memset(sh->nodes, 0, sizeof(sh->nodes));
}
inline void common(pbt::Check &c, int base, int workers = 8) {
  dom::g_base = base;
  c.workers = workers;
  c.cleanup = [](int w, bool) { dom::wipe(w); };
  c.global_teardown = [] {
    for (int w = 0; w < 16; w++) dom::wipe(w);
  };
  c.teardown = [](int w) {
    // everything of this account but the worker is removed by the coordinator
  };
  c.hang_s = 60;
}
}  // namespace e2e
