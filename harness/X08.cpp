// X08: the life of a server: its hooks run in order, and a server that cannot
// start offers nothing.
#include "e2egen.hpp"
using namespace e2e;

enum Kind { INIT_B, INIT_E, THR_B, THR_E, THRDONE, DONE_B, DONE_E, NKIND };
static const char *kinds[] = {"tpsvrinit", "end of tpsvrinit", "tpsvrthrinit", "end of tpsvrthrinit", "tpsvrthrdone", "tpsvrdone", "end of tpsvrdone"};
struct Plan {
  int grpno, srvid;
  int init;       // 0: succeeds, 1: fails, 2: dies
  int nadv;       // advertised in tpsvrinit
  char adv[3][32];
  char mismatch[32];  // of the table, advertised with another function
  char initcall[32], donecall[32];
  int initus, thrus, doneus;
  unsigned thrfail;  // by ordinal
  int late;          // dies or fails after (1) or before (0) it advertised
};
struct Ev {
  int kind, grpno, srvid, pid, tid;
  int ord, rc, err, by;
  double t;
};
constexpr int MAXEV = 4000, MAXSRV = 8;
struct Life {
  int nplan;
  Plan plan[MAXSRV];
  std::atomic<uint32_t> nev;
  Ev ev[MAXEV];
};
static Life *life;
static void map_life(const std::string &path, bool create) {
  int fd = open(path.c_str(), O_RDWR | (create ? O_CREAT : 0) | O_CLOEXEC, 0600);
  if (fd == -1 || (create && ftruncate(fd, sizeof(Life)) != 0)) abort();
  life = (Life *)mmap(nullptr, sizeof(Life), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (life == MAP_FAILED) abort();
  close(fd);
}
// ---- the server
static Plan *my;
static Ev &event(Kind k) {
  uint32_t n = life->nev++;
  if (n >= MAXEV) abort();
  Ev &e = life->ev[n];
  e.kind = k;
  e.grpno = g_grpno;
  e.srvid = g_srvid;
  e.pid = getpid();
  e.tid = syscall(SYS_gettid);
  e.ord = e.rc = e.err = 0;
  e.by = -1;
  e.t = pbt::now();
  return e;
}
static void call(const char *svc, Ev &e) {
  char *in = tpalloc((char *)"STRING", nullptr, 100), *out = tpalloc((char *)"STRING", nullptr, 100);
  strcpy(in, fmt("9 0 %d 0", TPSUCCESS).c_str());
  strcpy(out, "");
  long l = 0;
  e.rc = tpcall((char *)svc, in, 0, &out, &l, 0);
  e.err = e.rc == -1 ? tperrno : 0;
  int s = -1, g = -1;
  sscanf(out, "%*s %*d %d %d", &s, &g);
  e.by = e.rc == -1 ? -1 : g * 100000 + s;
  tpfree(in);
  tpfree(out);
}
static int hook_init(int, char **) {
  Ev &b = event(INIT_B);
  if (tpopen() == -1) return -1;
  if (my->initcall[0]) call(my->initcall, b);
  auto end = [] {
    if (my->initus) usleep(my->initus);
    if (my->init == 2) raise(SIGKILL);
  };
  if (!my->late) {
    end();
    if (my->init) return -1;
  }
  for (int i = 0; i < my->nadv; i++)
    if (tpadvertise(my->adv[i], cmd_fn(1 + i)) == -1) {
      Ev &e = event(INIT_E);
      e.rc = -2;
      e.err = tperrno;
      return -1;
    }
  if (my->mismatch[0]) tpadvertise(my->mismatch, cmd_fn(5));
  if (my->late) end();
  event(INIT_E).rc = my->init;
  return my->init ? -1 : 0;
}
static void hook_done() {
  Ev &b = event(DONE_B);
  if (my->donecall[0]) call(my->donecall, b);
  if (my->doneus) usleep(my->doneus);
  event(DONE_E);
  tpclose();
}
static std::atomic<int> ordinal;
static int hook_thrinit(int, char **) {
  int o = ordinal++;
  event(THR_B).ord = o;
  if (my->thrus) usleep(my->thrus);
  Ev &e = event(THR_E);
  e.ord = o;
  e.rc = (my->thrfail >> o) & 1;
  return e.rc ? -1 : tpopen();
}
static void hook_thrdone() {
  event(THRDONE);
  tpclose();
}
static int life_main(int argc, char **argv) {
  const char *b = strrchr(argv[0], '/');
  b = b ? b + 1 : argv[0];
  const char *path = getenv("VSHARED");
  if (!path) return 3;
  map_shared(path, false);
  map_life(std::string(path) + ".life", false);
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "-i")) g_srvid = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "-g")) g_grpno = atoi(argv[i + 1]);
  }
  for (int i = 0; i < life->nplan; i++)
    if (life->plan[i].grpno == g_grpno && life->plan[i].srvid == g_srvid) my = &life->plan[i];
  if (!my) return 4;
  static std::string own = fmt("S%d_%d", g_grpno, g_srvid), own2 = own + "x";
  static tmdsptchtbl_t table[] = {{(char *)own.c_str(), (char *)"a", cmd<0>, 0, 0, NULL},
                                  {(char *)"COMMON", (char *)"b", cmd<0>, 0, 0, NULL},
                                  {(char *)own2.c_str(), (char *)"c", cmd<0>, 0, 0, NULL},
                                  {NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t args = {&tmnull_switch, table, 0, hook_init, hook_done, _tmrunserver, NULL, NULL, NULL, NULL, tprminit, hook_thrinit, hook_thrdone, NULL};
  _tmbuilt_with_thread_option = b[1] == 't';
  return _tmstartserver(argc, argv, &args);
}
// ---- the model
static int W;
static void setup(int w) {
  W = w;
  enter(w, {"vsa", "vta"});
  map_life(std::string(getenv("HOME")) + "/shared.life", true);
}
struct Srv {
  Plan p;
  int threads;  // 0: no pool
  std::string grp;
  bool up = false;
  bool starts() const { return !p.init && !p.mismatch[0] && !(threads && good() == 0); }
  bool fails() const { return p.init || p.mismatch[0]; }
  int good() const {
    int n = 0;
    for (int i = 0; i < threads; i++) n += !((p.thrfail >> i) & 1);
    return threads ? n : 1;
  }
  std::string str() const { return fmt("%d/%d", p.grpno, p.srvid); }
  std::string own() const { return fmt("S%d_%d", p.grpno, p.srvid); }
  int key() const { return p.grpno * 100000 + p.srvid; }
  std::set<std::string> offers() const {
    std::set<std::string> r{own(), own() + "x", "COMMON"};
    for (int i = 0; i < p.nadv; i++) r.insert(p.adv[i]);
    return r;
  }
};
struct Dom {
  std::vector<Srv> s;
  std::set<std::string> names;
  std::string when;
  bool bbl = false;
  bool match(const Srv &x, int id, const std::string &grp) { return (id == -1 || x.p.srvid == id) && (grp.empty() || grp == x.grp); }
  // who may execute it
  std::set<int> by(const std::string &name) {
    std::set<int> r;
    for (auto &x : s)
      if (x.up && x.offers().count(name)) r.insert(x.key());
    return r;
  }
  void expect_call(const Ev &e, const std::string &svc, const std::string &what) {
    auto who = by(svc);
    if (who.empty())
      PBT_ASSERT(e.rc == -1 && e.err == TPENOENT, "%s: %s called %s, that nobody offers: %d %s", when.c_str(), what.c_str(), svc.c_str(), e.rc, e.err ? tpstrerror(e.err) : "ok");
    else
      PBT_ASSERT(e.rc != -1 && who.count(e.by), "%s: %s called %s: %d %s, executed by %d", when.c_str(), what.c_str(), svc.c_str(), e.rc, e.err ? tpstrerror(e.err) : "ok", e.by);
  }
  void new_plan(G &g, Srv &x, bool healthy) {
    Plan &p = x.p;
    p.init = !healthy && g.chance(1, 3) ? 1 + g.below(2) : 0;
    p.late = g.chance(2, 3);
    p.nadv = g.below(3);
    for (int i = 0; i < p.nadv; i++) snprintf(p.adv[i], sizeof(p.adv[i]), "%s", i == 0 && g.flip() ? "DYN" : fmt("D%d_%d_%d", p.grpno, p.srvid, i).c_str());
    p.mismatch[0] = 0;
    if (!healthy && !p.init && g.chance(1, 4)) snprintf(p.mismatch, sizeof(p.mismatch), "%s", g.flip() ? "COMMON" : (x.own() + (g.flip() ? "x" : "")).c_str());
    p.initcall[0] = p.donecall[0] = 0;
    if (g.chance(1, 3)) snprintf(p.initcall, sizeof(p.initcall), "%s", g.flip() ? "COMMON" : g.pick(s).own().c_str());
    if (g.chance(1, 3)) snprintf(p.donecall, sizeof(p.donecall), "%s", g.flip() ? "COMMON" : g.pick(s).own().c_str());
    p.initus = g.chance(1, 4) ? g.below(150000) : 0;
    p.thrus = g.chance(1, 4) ? g.below(60000) : 0;
    p.doneus = g.chance(1, 4) ? g.below(60000) : 0;
    p.thrfail = 0;
    if (x.threads && g.chance(1, 3)) p.thrfail = !healthy && g.chance(1, 4) ? ~0u : g.below(1u << x.threads);
    if (healthy && !x.good()) p.thrfail = 0;
    for (int i = 0; i < p.nadv; i++) names.insert(p.adv[i]);
    g.log("server %s (%d threads): init %d late %d adv %d mismatch '%s' thrfail %x call '%s' '%s'", x.str().c_str(), x.threads, p.init, p.late, p.nadv, p.mismatch, p.thrfail & 15,
          p.initcall, p.donecall);
  }
  void publish() {
    life->nplan = s.size();
    for (size_t i = 0; i < s.size(); i++) life->plan[i] = s[i].p;
  }
  static bool there(pid_t p) { return kill(p, 0) == 0; }
  std::map<int, pid_t> pid;  // of servers that are up
  // events since n
  std::vector<Ev> since(uint32_t n, const Srv &x) {
    std::vector<Ev> r;
    for (uint32_t i = n; i < life->nev; i++)
      if (life->ev[i].grpno == x.p.grpno && life->ev[i].srvid == x.p.srvid) r.push_back(life->ev[i]);
    return r;
  }
  static int count(const std::vector<Ev> &v, int k) {
    int n = 0;
    for (auto &e : v) n += e.kind == k;
    return n;
  }
  std::map<int, uint32_t> from;  // the events of the present instance
  void boot(G &g, int id, const std::string &grp) {
    // a server whose threads all fail may be found for a moment
    bool moment = false;
    for (auto &x : s)
      if (!x.up && match(x, id, grp) && !x.fails() && !x.starts()) moment = true, x.p.donecall[0] = 0;
    if (moment)
      for (auto &x : s)
        if (!x.up) x.p.initcall[0] = 0;
    publish();
    std::vector<std::string> a = {"tmboot", "-y", "-d"};
    if (id != -1) a.insert(a.end(), {"-i", std::to_string(id)});
    if (!grp.empty()) a.insert(a.end(), {"-g", grp});
    uint32_t n = life->nev;
    auto r = tool(a, 60);
    // what it said about each
    std::map<std::string, std::string> said;
    {
      std::istringstream in(r.out);
      std::string l, last;
      while (std::getline(in, l)) {
        if (l.compare(0, 5, "exec ") == 0) {
          auto G = l.find("-g "), I = l.find("-i ");
          last = G == std::string::npos || I == std::string::npos ? l : fmt("%d/%d", atoi(l.c_str() + G + 3), atoi(l.c_str() + I + 3));
          PBT_ASSERT(!said.count(last), "%s: started %s twice", when.c_str(), last.c_str());
          said[last] = "";
        } else
          said[last] += l;
      }
    }
    if (id == -1 && grp.empty()) bbl = true;
    for (auto &x : s) {
      std::string what = fmt("server %s", x.str().c_str());
      if (!match(x, id, grp)) {
        PBT_ASSERT(!said.count(x.str()) && since(n, x).empty(), "%s: %s was not selected", when.c_str(), what.c_str());
        continue;
      }
      PBT_ASSERT(said.count(x.str()), "%s: %s was not started, %s %s", when.c_str(), what.c_str(), pbt::show(r.out, 600).c_str(), pbt::show(r.err, 200).c_str());
      std::string &m = said[x.str()];
      if (x.up) {
        PBT_ASSERT(m.find("Duplicate") != std::string::npos, "%s: %s runs, but: %s", when.c_str(), what.c_str(), m.c_str());
        PBT_ASSERT(since(n, x).empty(), "%s: %s runs, and was started again", when.c_str(), what.c_str());
        continue;
      }
      auto ev = since(n, x);
      PBT_EQ(count(ev, INIT_B), 1, fmt("%s: calls of tpsvrinit of %s", when.c_str(), what.c_str()));
      const Ev *b = nullptr;
      for (auto &e : ev)
        if (e.kind == INIT_B) b = &e;
      if (x.p.initcall[0]) expect_call(*b, x.p.initcall, "tpsvrinit of " + x.str());
      if (x.fails()) {
        PBT_ASSERT(m.find("Failed") != std::string::npos, "%s: %s cannot start, but: %s", when.c_str(), what.c_str(), m.c_str());
        PBT_ASSERT(!there(b->pid), "%s: %s failed, but runs", when.c_str(), what.c_str());
        PBT_EQ(count(ev, THR_B) + (x.p.init ? count(ev, DONE_B) : 0), 0, fmt("%s: hooks of %s after it failed", when.c_str(), what.c_str()));
        g.label(x.p.init == 2 ? "dies in tpsvrinit" : x.p.init ? "tpsvrinit fails" : "cannot advertise");
        continue;
      }
      for (auto &e : ev)
        if (e.kind == INIT_E) PBT_ASSERT(e.rc == 0, "%s: %s could not advertise: %s", when.c_str(), what.c_str(), tpstrerror(e.err));
      from[x.key()] = n;
      pid[x.key()] = b->pid;
      if (!x.starts()) {
        // no thread can serve
        for (int i = 0; i < 4000 && there(b->pid); i++) usleep(5000);
        PBT_ASSERT(!there(b->pid), "%s: %s runs without threads", when.c_str(), what.c_str());
        ended(g, x);
        g.label("all threads fail");
        continue;
      }
      PBT_ASSERT(m.find("Started") != std::string::npos && m.find(fmt("id=%d ", b->pid)) != std::string::npos, "%s: %s with process id %d: %s", when.c_str(), what.c_str(), b->pid,
                 m.c_str());
      PBT_ASSERT(there(b->pid), "%s: %s was started, but does not run", when.c_str(), what.c_str());
      x.up = true;
    }
  }
  // the history of an instance that is over
  void ended(G &g, const Srv &x) {
    pid_t p = pid[x.key()];
    std::string who = fmt("%s: server %s", when.c_str(), x.str().c_str());
    std::vector<Ev> ev;
    for (auto &e : since(from[x.key()], x))
      if (e.pid == p) ev.push_back(e);
    std::vector<Rec> rec;
    for (uint32_t i = 0; i < sh->nrec; i++)
      if (sh->rec[i].pid == p) rec.push_back(sh->rec[i]);
    PBT_EQ(count(ev, INIT_B), 1, who + " calls of tpsvrinit");
    PBT_EQ(count(ev, INIT_E), 1, who + " ends of tpsvrinit");
    PBT_EQ(count(ev, DONE_B), 1, who + " calls of tpsvrdone");
    PBT_EQ(count(ev, DONE_E), 1, who + " ends of tpsvrdone");
    PBT_EQ(count(ev, THR_B), x.threads, who + " calls of tpsvrthrinit");
    PBT_EQ(count(ev, THR_E), x.threads, who + " ends of tpsvrthrinit");
    PBT_EQ(count(ev, THRDONE), x.threads ? x.good() : 0, who + " calls of tpsvrthrdone");
    double init = 0, done = 0;
    std::map<int, double> ready, over;
    std::set<int> all;
    for (auto &e : ev) {
      if (e.kind == INIT_E) init = e.t;
      if (e.kind == DONE_B) done = e.t;
      if (e.kind == INIT_B || e.kind == DONE_B) PBT_EQ(e.tid, e.pid, who + " runs " + kinds[e.kind] + " in thread");
      if (e.kind == THR_B) PBT_ASSERT(all.insert(e.tid).second, "%s initialised a thread twice", who.c_str());
      if (e.kind == THR_E && !e.rc) ready[e.tid] = e.t;
      if (e.kind == THRDONE) {
        PBT_ASSERT(ready.count(e.tid), "%s: tpsvrthrdone in a thread that was not initialised", who.c_str());
        PBT_ASSERT(!over.count(e.tid), "%s: tpsvrthrdone twice in a thread", who.c_str());
        over[e.tid] = e.t;
      }
    }
    for (auto &e : ev) {
      if (e.kind != INIT_B && e.kind != INIT_E) PBT_ASSERT(e.t >= init, "%s runs %s before tpsvrinit ended", who.c_str(), kinds[e.kind]);
      if (e.kind != DONE_B && e.kind != DONE_E) PBT_ASSERT(e.t <= done, "%s runs %s after tpsvrdone", who.c_str(), kinds[e.kind]);
    }
    for (auto &r : rec) {
      PBT_ASSERT(r.t0 >= init, "%s executes a service before tpsvrinit ended", who.c_str());
      PBT_ASSERT(r.t1 != 0 && r.t1 <= done, "%s executes a service after tpsvrdone", who.c_str());
      if (!x.threads) {
        PBT_EQ(r.tid, r.pid, who + " executes a service in thread");
        continue;
      }
      PBT_ASSERT(ready.count(r.tid) && r.t0 >= ready[r.tid], "%s executes a service in a thread that is not initialised", who.c_str());
      PBT_ASSERT(r.t1 <= over[r.tid], "%s executes a service after tpsvrthrdone", who.c_str());
    }
    if (x.p.donecall[0])
      for (auto &e : ev)
        if (e.kind == DONE_B) expect_call(e, x.p.donecall, "tpsvrdone of " + x.str());
    if (x.threads && x.p.thrfail) g.label("threads fail");
    pid.erase(x.key());
  }
  void shutdown(G &g, int id, const std::string &grp) {
    std::vector<std::string> a = {"tmshutdown", "-y"};
    if (id != -1) a.insert(a.end(), {"-i", std::to_string(id)});
    if (!grp.empty()) a.insert(a.end(), {"-g", grp});
    auto r = tool(a, 60);
    PBT_ASSERT(r.status == 0, "%s: status %d, %s %s", when.c_str(), r.status, pbt::show(r.out, 600).c_str(), pbt::show(r.err, 300).c_str());
    for (size_t i = s.size(); i-- > 0;) {
      Srv &x = s[i];
      if (!x.up) continue;
      if (!match(x, id, grp)) {
        PBT_ASSERT(there(pid[x.key()]), "%s: server %s ended", when.c_str(), x.str().c_str());
        continue;
      }
      for (int k = 0; k < 2000 && there(pid[x.key()]); k++) usleep(5000);
      PBT_ASSERT(!there(pid[x.key()]), "%s: server %s runs", when.c_str(), x.str().c_str());
      x.up = false;
      ended(g, x);
    }
  }
  // runs a client
  pid_t client(std::function<std::string()> f, int &fd) {
    int p[2];
    if (pipe(p) != 0) abort();
    pid_t c = proc::fork_own();
    if (c == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      tpsblktime(30, TPBLK_ALL);
      std::string e = f();
      tpterm();
      if (write(p[1], e.c_str(), e.size()) == -1) _exit(1);
      _exit(0);
    }
    close(p[1]);
    fd = p[0];
    return c;
  }
  void join(pid_t c, int fd) {
    std::string e;
    char b[2000];
    ssize_t n;
    while ((n = read(fd, b, sizeof(b))) > 0) e.append(b, n);
    close(fd);
    int st;
    while (waitpid(c, &st, 0) == -1 && errno == EINTR)
      ;
    proc::disown(c);
    PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: the client ended with %x", when.c_str(), st);
    PBT_ASSERT(e.empty(), "%s: %s", when.c_str(), e.c_str());
  }
  // every name that was ever used
  void calls() {
    int fd;
    pid_t c = client(
        [&] {
          std::string e;
          for (auto &name : names) {
            auto who = by(name);
            int n = who.empty() ? 1 : 2;
            while (n-- > 0) {
              Ev x{};
              ::call(name.c_str(), x);
              if (who.empty()) {
                if (x.rc != -1 || x.err != TPENOENT) e += fmt("call of %s, which nobody offers: %d %s; ", name.c_str(), x.rc, x.err ? tpstrerror(x.err) : "ok");
              } else if (x.rc == -1)
                e += fmt("call of %s: %s; ", name.c_str(), tpstrerror(x.err));
              else if (!who.count(x.by))
                e += fmt("call of %s was executed by %d; ", name.c_str(), x.by);
            }
          }
          return e;
        },
        fd);
    join(c, fd);
  }
};
static void hooks(G &g) {
  reset();
  dom::remove_ipc(getuid());
  life->nev = 0;
  Dom d;
  size_t ng = 1 + g.below(2), ns = 2 + g.below(4);
  std::string gs = "*GROUPS\n", ss = "*SERVERS\n";
  for (size_t i = 0; i < ng; i++) gs += fmt("GRP%zu GRPNO=%zu\n", i, i + 1);
  for (size_t i = 0; i < ns; i++) {
    Srv x;
    memset(&x.p, 0, sizeof(x.p));
    int n = g.below(ng);
    x.grp = fmt("GRP%d", n);
    x.p.grpno = n + 1;
    x.p.srvid = 1 + i;
    x.threads = g.chance(2, 5) ? 2 + g.below(3) : 0;
    ss += fmt("%s SRVGRP=%s SRVID=%d", x.threads ? "vta" : "vsa", x.grp.c_str(), x.p.srvid);
    if (x.threads) ss += fmt(" MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=%d", x.threads, x.threads);
    ss += "\n";
    d.s.push_back(x);
  }
  for (auto &x : d.s) d.names.insert({x.own(), x.own() + "x"});
  d.names.insert({"COMMON", "DYN"});
  for (auto &x : d.s) d.new_plan(g, x, g.chance(1, 2));
  load(ubb_head(W, "BLOCKTIME 40\n") + gs + ss);
  auto select = [&](int &id, std::string &grp) {
    if (g.flip()) id = g.pick(d.s).p.srvid;
    if (id == -1 || g.chance(1, 3)) grp = fmt("GRP%zu", (size_t)g.below(ng));
  };
  d.when = "step 0, tmboot";
  d.boot(g, -1, "");
  size_t n = 2 + g.below(5);
  for (size_t i = 1; i <= n; i++) {
    switch (g.below(6)) {
      case 0: case 1:
        d.when = fmt("step %zu, calls", i);
        g.log("calls");
        d.calls();
        break;
      case 2: {
        int id = -1;
        std::string grp;
        if (!g.chance(1, 3)) select(id, grp);
        for (auto &x : d.s)
          if (!x.up && d.match(x, id, grp)) d.new_plan(g, x, g.chance(2, 3));
        d.when = fmt("step %zu, tmboot -i %d -g '%s'", i, id, grp.c_str());
        g.log("%s", d.when.c_str());
        d.boot(g, id, grp);
        break;
      }
      case 3: {
        int id = -1;
        std::string grp;
        select(id, grp);
        d.when = fmt("step %zu, tmshutdown -i %d -g '%s'", i, id, grp.c_str());
        g.log("%s", d.when.c_str());
        d.shutdown(g, id, grp);
        break;
      }
      default: {
        // servers that execute services end when these have
        int id = -1;
        std::string grp;
        if (g.flip()) select(id, grp);
        std::vector<std::pair<std::string, long>> w;
        for (auto &x : d.s)
          if (x.up)
            for (int k = 0, m = g.below(1 + x.good()); k < m; k++) w.push_back({x.own() + (g.flip() ? "x" : ""), 1000 * (20 + (long)g.below(150))});
        bool all = id == -1 && grp.empty();
        d.when = fmt("step %zu, %zu calls and tmshutdown -i %d -g '%s'", i, w.size(), id, grp.c_str());
        g.log("%s", d.when.c_str());
        uint32_t n0 = sh->nrec;
        int fd;
        pid_t c = d.client(
            [&] {
              std::string e;
              std::vector<int> cds;
              for (size_t k = 0; k < w.size(); k++) {
                char *in = tpalloc((char *)"STRING", nullptr, 100);
                strcpy(in, fmt("%zu %ld %d %zu", 1000 + k, w[k].second, TPSUCCESS, k).c_str());
                int cd = tpacall((char *)w[k].first.c_str(), in, 0, 0);
                if (cd == -1) e += fmt("call of %s: %s; ", w[k].first.c_str(), tpstrerror(tperrno));
                cds.push_back(cd);
                tpfree(in);
              }
              for (size_t k = 0; k < w.size(); k++) {
                if (cds[k] == -1) continue;
                char *out = tpalloc((char *)"STRING", nullptr, 100);
                long l;
                if (tpgetrply(&cds[k], &out, &l, 0) == -1)
                  e += fmt("reply of %s: %s; ", w[k].first.c_str(), tpstrerror(tperrno));
                else if (atoll(out) != 1000 + (long)k || tpurcode != (long)k)
                  e += fmt("reply of %s: %s; ", w[k].first.c_str(), out);
                tpfree(out);
              }
              return e;
            },
            fd);
        // all are being executed
        for (int k = 0; k < 10000; k++) {
          if (sh->nrec - n0 >= w.size()) break;
          usleep(2000);
        }
        if (g.chance(1, 4)) usleep(g.below(60000));
        // the client needs its domain until it has the replies
        if (all) {
          for (auto &x : {std::string("GRP0"), std::string("GRP1")}) d.shutdown(g, -1, x);
          d.join(c, fd);
          d.shutdown(g, -1, "");
          d.when = fmt("step %zu, tmboot", i);
          for (auto &x : d.s) d.new_plan(g, x, g.chance(2, 3));
          d.boot(g, -1, "");
        } else {
          d.shutdown(g, id, grp);
          d.join(c, fd);
        }
        if (!w.empty()) g.label("calls in progress");
      }
    }
  }
  d.when = "calls at the end";
  d.calls();
  d.when = "the end";
  d.shutdown(g, -1, "");
  g.nontrivial(life->nev >= 8);
}
int main(int argc, char **argv) {
  if (is_server(argv[0])) return life_main(argc, argv);
  pbt::Check c;
  c.id = "X08";
  c.rule =
      "hooks: generated domains of 2-5 servers with and without threads whose hooks follow a plan (advertise, call, delay, fail, die), full and partial boots and shutdowns, calls of "
      "every name ever used, and calls in progress at shutdown. Non-trivial: at least 8 hooks ran.";
  c.subs = {{"hooks", hooks, 150, 3000, 4}};
  c.setup = setup;
  common(c, 64520);
  c.repro_n = 3;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
