// X06: starting and stopping a domain is complete and leaves nothing behind.
#include "e2egen.hpp"
using namespace e2e;

static std::string g_name;
static void prepare() {
  static std::string s = fmt("S%d_%d", g_grpno, g_srvid);
  server_services = {{s, cmd<0>}};
  server_init = [] {
    uint32_t n = sh->nrec++;
    if (n >= MAXREC) abort();
    Rec &r = sh->rec[n];
    memset(&r, 0, sizeof(r));
    r.id = 0xb007;
    r.srvid = g_srvid;
    r.grpno = g_grpno;
    r.pid = getpid();
    snprintf(r.svc, sizeof(r.svc), "%s", g_name.c_str());
    r.t1 = 1;
    return 0;
  };
}
static int W;
static void setup(int w) {
  W = w;
  enter(w, {"vsa", "vsb", "vta", "vxa", "vma"});
}
struct Id {
  int grpno, srvid;
  bool operator<(const Id &o) const { return grpno != o.grpno ? grpno < o.grpno : srvid < o.srvid; }
  bool operator==(const Id &o) const { return grpno == o.grpno && srvid == o.srvid; }
};
static std::string str(const Id &i) { return fmt("%d/%d", i.grpno, i.srvid); }
struct Domain {
  struct Grp {
    std::string name;
    int no;
    bool tms;
  };
  std::vector<Grp> groups;
  std::map<Id, std::string> servers;  // that are started
  std::set<Id> shared;                // by queue, with others
  std::string text;
};
static Domain domain(G &g) {
  Domain d;
  size_t ng = 1 + g.below(3);
  std::string gs = "*GROUPS\n", ss = "*SERVERS\n";
  std::set<int> nos;
  d.servers[{0, 0}] = "BBL";
  size_t room = 3 + g.below(6);
  for (size_t i = 0; i < ng; i++) {
    Domain::Grp x;
    x.name = fmt("GRP%zu", i);
    x.no = g.chance(1, 4) ? 1 + g.below(29000) : 1 + g.below(20);
    while (nos.count(x.no)) x.no++;
    nos.insert(x.no);
    x.tms = g.chance(1, 6);
    d.groups.push_back(x);
    gs += fmt("%s GRPNO=%d", x.name.c_str(), x.no);
    if (x.tms) {
      gs += " TMSNAME=vma TMSCOUNT=2 OPENINFO=\"VX:x\"";
      for (int k = 1; k <= 2; k++) d.servers[{x.no, 30000 + k}] = "vma";
    }
    gs += "\n";
  }
  size_t ne = 1 + g.below(4), total = 0, slots = 0;
  std::map<int, std::set<int>> used;
  for (size_t i = 0; i < ne && total < room; i++) {
    auto &grp = g.pick(d.groups);
    static const char *names[] = {"vsa", "vsb", "vta"};
    std::string n = grp.tms ? "vxa" : names[g.below(3)];
    int min = 1 + (g.chance(1, 3) ? g.below(3) : 0), max = min + (g.chance(1, 3) ? g.below(3) : 0);
    int id = g.chance(1, 5) ? 1 + g.below(29000) : 1 + g.below(60);
    bool clash = false;
    for (int k = 0; k < max; k++) clash |= used[grp.no].count(id + k) != 0;
    if (clash) continue;
    for (int k = 0; k < max; k++) used[grp.no].insert(id + k);
    ss += fmt("%s SRVGRP=%s SRVID=%d", n.c_str(), grp.name.c_str(), id);
    if (max > 1 || g.flip()) ss += fmt(" MIN=%d MAX=%d", min, max);
    if (g.chance(1, 3)) {
      ss += fmt(" RQADDR=\"q%zu\"", i);
      // servers of one queue should offer the same services, these do not
      if (min > 1)
        for (int k = 0; k < min; k++) d.shared.insert({grp.no, id + k});
    }
    if (n == "vta") ss += fmt(" MINDISPATCHTHREADS=%d MAXDISPATCHTHREADS=4", 1 + (int)g.below(4));
    ss += "\n";
    slots += max;
    for (int k = 0; k < min; k++) d.servers[{grp.no, id + k}] = n;
    total += min;
  }
  if (total == 0) {
    auto &grp = d.groups[0];
    ss += fmt("vxa SRVGRP=%s SRVID=1\n", grp.name.c_str());
    d.servers[{grp.no, 1}] = "vxa";
    slots++;
  }
  // the tables may be just large enough
  size_t all = 1 + slots;
  for (auto &x : d.groups)
    if (x.tms) all += 2;
  d.text = ubb_head(W, "BLOCKTIME 40\n" + fmt("MAXSERVERS %zu\n", g.flip() ? all : 40) + (g.flip() ? fmt("MAXGROUPS %zu\n", ng) : "")) + gs + ss;
  return d;
}
// the processes of the domain
static std::map<Id, std::vector<pid_t>> running(const std::string &when) {
  std::map<Id, std::vector<pid_t>> r;
  for (auto &p : dom::procs_of(getuid())) {
    if (p.pid == getpid() || p.state == 'Z' || p.args.empty()) continue;
    auto b = p.args[0].rfind('/');
    std::string n = b == std::string::npos ? p.args[0] : p.args[0].substr(b + 1);
    if (n != "BBL" && !is_server(n.c_str())) continue;
    Id id{-1, -1};
    for (size_t i = 1; i + 1 < p.args.size(); i++) {
      if (p.args[i] == "-g") id.grpno = atoi(p.args[i + 1].c_str());
      if (p.args[i] == "-i") id.srvid = atoi(p.args[i + 1].c_str());
    }
    r[id].push_back(p.pid);
  }
  return r;
}
struct Run {
  Domain d;
  std::map<Id, pid_t> up;
  std::string when;
  void compare() {
    std::map<Id, std::vector<pid_t>> r;
    // servers that were told to stop may need a moment to exit
    for (int i = 0; i < 400; i++) {
      r = running(when);
      bool more = false;
      for (auto &x : r) more |= !up.count(x.first);
      if (!more) break;
      usleep(5000);
    }
    for (auto &x : r) {
      PBT_ASSERT(up.count(x.first), "%s: server %s runs but should not", when.c_str(), str(x.first).c_str());
      PBT_ASSERT(x.second.size() == 1, "%s: server %s runs %zu times", when.c_str(), str(x.first).c_str(), x.second.size());
    }
    for (auto &x : up) {
      PBT_ASSERT(r.count(x.first), "%s: server %s (%s) does not run", when.c_str(), str(x.first).c_str(), d.servers[x.first].c_str());
      if (x.second) PBT_ASSERT(r[x.first][0] == x.second, "%s: server %s was replaced", when.c_str(), str(x.first).c_str());
    }
    for (auto &x : up) x.second = r[x.first][0];
  }
  bool match(const Id &id, int srvid, const std::string &grp) {
    if (srvid != -1 && id.srvid != srvid) return false;
    if (!grp.empty()) {
      for (auto &x : d.groups)
        if (x.name == grp) return id.grpno == x.no;
      return false;
    }
    return true;
  }
  void boot(int srvid, const std::string &grp) {
    std::vector<std::string> a = {"tmboot", "-y"};
    if (srvid != -1) a.insert(a.end(), {"-i", std::to_string(srvid)});
    if (!grp.empty()) a.insert(a.end(), {"-g", grp});
    std::set<Id> fresh;
    for (auto &x : d.servers)
      if (match(x.first, srvid, grp) && !up.count(x.first)) {
        fresh.insert(x.first);
        up[x.first] = 0;
      }
    sh->nrec = 0;
    auto r = tool(a, 60);
    PBT_ASSERT(r.status == 0 && r.out.find("Failed") == std::string::npos, "%s: status %d, %s %s", when.c_str(), r.status, pbt::show(r.out, 600).c_str(),
               (pbt::show(r.err, 300) + "; " + pbt::show(proc::read_file(std::string(getenv("HOME")) + "/stderr"), 800)).c_str());
    // each started once, as itself
    std::map<Id, int> starts;
    for (uint32_t i = 0; i < sh->nrec; i++) {
      Rec &x = sh->rec[i];
      Id id{x.grpno, x.srvid};
      starts[id]++;
      PBT_ASSERT(fresh.count(id), "%s: server %s was started, but it %s", when.c_str(), str(id).c_str(), up.count(id) ? "runs already" : "is not selected");
      PBT_ASSERT(starts[id] == 1, "%s: server %s was started twice", when.c_str(), str(id).c_str());
      PBT_ASSERT(d.servers[id] == x.svc, "%s: server %s was started from %s, not %s", when.c_str(), str(id).c_str(), x.svc, d.servers[id].c_str());
    }
    for (auto &id : fresh)
      if (d.servers[id] != "BBL" && d.servers[id] != "vma") PBT_ASSERT(starts.count(id), "%s: server %s was not started", when.c_str(), str(id).c_str());
    compare();
  }
  void shutdown(int srvid, const std::string &grp) {
    std::vector<std::string> a = {"tmshutdown", "-y"};
    if (srvid != -1) a.insert(a.end(), {"-i", std::to_string(srvid)});
    if (!grp.empty()) a.insert(a.end(), {"-g", grp});
    for (auto i = up.begin(); i != up.end();) {
      if (match(i->first, srvid, grp))
        i = up.erase(i);
      else
        ++i;
    }
    auto r = tool(a, 60);
    PBT_ASSERT(r.status == 0, "%s: status %d, %s %s", when.c_str(), r.status, pbt::show(r.out, 600).c_str(), pbt::show(r.err, 300).c_str());
    compare();
    if (srvid == -1 && grp.empty()) nothing();
  }
  // objects of the same user that do not belong to the domain
  dom::Ipc other;
  void others(unsigned n) {
    for (unsigned i = 0; i < n; i++) {
      other.q.push_back(msgget(IPC_PRIVATE, 0600 | IPC_CREAT));
      other.m.push_back(shmget(dom::key(W) + 0x1000 + i, 4096, 0600 | IPC_CREAT));
      other.s.push_back(semget(IPC_PRIVATE, 1, 0600 | IPC_CREAT));
    }
  }
  ~Run() {
    for (int i : other.q) msgctl(i, IPC_RMID, nullptr);
    for (int i : other.m) shmctl(i, IPC_RMID, nullptr);
    for (int i : other.s) semctl(i, 0, IPC_RMID);
  }
  dom::Ipc own() {
    auto all = dom::ipc_of(getuid());
    auto without = [&](std::vector<int> &v, const std::vector<int> &o, const char *what) {
      for (int id : o) {
        auto i = std::find(v.begin(), v.end(), id);
        PBT_ASSERT(i != v.end(), "%s: a %s that does not belong to the domain was removed", when.c_str(), what);
        v.erase(i);
      }
    };
    without(all.q, other.q, "queue");
    without(all.m, other.m, "segment");
    without(all.s, other.s, "semaphore");
    return all;
  }
  void nothing() {
    auto ipc = own();
    // memory is there until the last thread of an ending program is gone
    for (int i = 0; i < 1000 && ipc.n() != 0; i++) {
      usleep(5000);
      ipc = own();
    }
    PBT_ASSERT(ipc.n() == 0, "%s: %s are left", when.c_str(), ipc.str().c_str());
  }
  void kill_one(const Id &id) {
    pid_t p = up[id];
    kill(p, SIGKILL);
    while (kill(p, 0) == 0) usleep(500);  // reaped
    up.erase(id);
  }
  // a client finds every server under its name
  void call() {
    // the servers that were killed may still be found
    std::string why = "the client did not finish";
    int fd[2];
    if (pipe(fd) != 0) abort();
    pid_t p = proc::fork_own();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      std::string e;
      tpsblktime(30, TPBLK_ALL);
      for (auto &x : d.servers) {
        if (x.second == "BBL" || x.second == "vma" || d.shared.count(x.first)) continue;
        std::string n = fmt("S%d_%d", x.first.grpno, x.first.srvid);
        char *in = tpalloc((char *)"STRING", nullptr, 100), *out = tpalloc((char *)"STRING", nullptr, 100);
        strcpy(in, fmt("5 0 %d 0", TPSUCCESS).c_str());
        strcpy(out, "");
        long l;
        bool dead = !up.count(x.first);
        if (dead && crashed.count(x.first)) continue;
        int r = tpcall((char *)n.c_str(), in, 0, &out, &l, 0), err = tperrno;
        int srv = 0, grp = 0;
        sscanf(out, "%*s %*d %d %d", &srv, &grp);
        if (dead) {
          if (r != -1 || err != TPENOENT) e += fmt("call of %s, which does not run: %d %s; ", n.c_str(), r, tpstrerror(err));
        } else if (r == -1)
          e += fmt("call of %s: %s; ", n.c_str(), tpstrerror(err));
        else if (srv != x.first.srvid || grp != x.first.grpno)
          e += fmt("call of %s was executed by %d/%d; ", n.c_str(), grp, srv);
      }
      tpterm();
      if (write(fd[1], e.c_str(), e.size()) == -1) _exit(1);
      _exit(0);
    }
    close(fd[1]);
    std::string e;
    char b[2000];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof(b))) > 0) e.append(b, n);
    close(fd[0]);
    int st;
    while (waitpid(p, &st, 0) == -1 && errno == EINTR)
      ;
    proc::disown(p);
    PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: the client ended with %x", when.c_str(), st);
    PBT_ASSERT(e.empty(), "%s: %s", when.c_str(), e.c_str());
  }
  std::set<Id> crashed;
};
static void lifecycle(G &g) {
  reset();
  dom::remove_ipc(getuid());
  Run r;
  r.d = domain(g);
  load(r.d.text);
  if (g.chance(1, 2)) r.others(1 + g.below(3));
  g.log("%s", r.d.text.substr(r.d.text.find("*GROUPS")).c_str());
  size_t n = 2 + g.below(7);
  bool attached = false;  // the domain's memory may exist
  int boots = 0;
  for (size_t i = 0; i < n; i++) {
    int op = i == 0 && g.chance(2, 3) ? 0 : g.below(14);
    int srvid = -1;
    std::string grp;
    auto select = [&] {
      std::vector<Id> ids;
      for (auto &x : r.d.servers) ids.push_back(x.first);
      int k = g.below(5);
      if (k != 1) srvid = g.chance(1, 8) ? 29999 : g.pick(ids).srvid;
      if (k == 1 || k == 2) grp = g.pick(r.d.groups).name;
    };
    switch (op) {
      case 0: case 1: case 2: {
        r.when = fmt("step %zu, tmboot", i);
        g.log("tmboot");
        r.boot(-1, "");
        r.crashed.clear();
        if (++boots > 1) g.label("booted again");
        attached = true;
        break;
      }
      case 3: case 4: {
        select();
        r.when = fmt("step %zu, tmboot -i %d -g '%s'", i, srvid, grp.c_str());
        g.log("%s", r.when.c_str());
        for (auto j = r.crashed.begin(); j != r.crashed.end();)
          if (r.match(*j, srvid, grp)) j = r.crashed.erase(j);
          else ++j;
        r.boot(srvid, grp);
        g.label("part booted");
        attached = true;
        break;
      }
      case 5: case 6: {
        r.when = fmt("step %zu, tmshutdown", i);
        g.log("tmshutdown");
        r.shutdown(-1, "");
        r.crashed.clear();
        attached = false;
        break;
      }
      case 7: {
        select();
        r.when = fmt("step %zu, tmshutdown -i %d -g '%s'", i, srvid, grp.c_str());
        g.log("%s", r.when.c_str());
        r.shutdown(srvid, grp);
        g.label("part stopped");
        attached = true;
        break;
      }
      case 8: case 9: {
        size_t k = 1 + g.below(3);
        for (size_t j = 0; j < k && !r.up.empty(); j++) {
          auto it = r.up.begin();
          std::advance(it, g.below(r.up.size()));
          Id id = it->first;
          g.log("kill %s", str(id).c_str());
          r.crashed.insert(id);
          r.kill_one(id);
          g.label("killed");
        }
        if (g.chance(1, 4)) usleep(g.below(1500) * 1000);
        r.when = fmt("step %zu, kill", i);
        r.compare();
        break;
      }
      case 10: {
        // everything dies at once
        g.log("crash, tmipcrm");
        g.label("crash and clean-up");
        while (!r.up.empty()) r.kill_one(r.up.begin()->first);
        r.when = fmt("step %zu, tmipcrm", i);
        auto had = r.own();
        int how = g.below(3);
        if (had.n() && g.chance(1, 3)) {
          // no; nonsense and then no; no answer at all, which cannot be a yes
          static const char *no[] = {"n\n", "yes\n\nno\nn\n", "", "what\n"};
          size_t k = g.below(4);
          auto x = tool({"tmipcrm"}, 30, no[k]);
          PBT_ASSERT((x.status == 0) == (k < 2), "%s: status %d %s", r.when.c_str(), x.status, pbt::show(x.err, 300).c_str());
          auto now = r.own();
          PBT_ASSERT(now.n() == had.n(), "%s answered n: removed something", r.when.c_str());
          g.label("clean-up refused");
        }
        auto x = how ? tool({"tmipcrm", "-y"}, 30) : tool({"tmipcrm"}, 30, "y\n");
        PBT_ASSERT(x.status == 0, "%s: status %d %s", r.when.c_str(), x.status, pbt::show(x.err, 300).c_str());
        for (int id : had.q) PBT_ASSERT(x.out.find(std::to_string(id)) != std::string::npos, "%s: did not find queue %d", r.when.c_str(), id);
        for (int id : had.m) PBT_ASSERT(x.out.find(std::to_string(id)) != std::string::npos, "%s: did not find shared memory %d", r.when.c_str(), id);
        for (int id : had.s) PBT_ASSERT(x.out.find(std::to_string(id)) != std::string::npos, "%s: did not find semaphore %d", r.when.c_str(), id);
        r.nothing();
        r.crashed.clear();
        attached = false;
        break;
      }
      case 11: {
        r.when = fmt("step %zu, tmboot -n", i);
        auto x = tool({"tmboot", "-n", "-y"}, 30);
        PBT_ASSERT(x.status == 0, "%s: status %d %s", r.when.c_str(), x.status, pbt::show(x.err, 300).c_str());
        r.compare();
        attached = true;
        break;
      }
      default: {
        if (!attached) break;
        r.when = fmt("step %zu, calls", i);
        g.log("calls");
        r.call();
        r.compare();
      }
    }
  }
  r.when = "the end";
  g.log("tmshutdown");
  r.shutdown(-1, "");
  PBT_EQ((uint32_t)sh->dones > sh->inits, false, "servers ended more often than started");
  g.nontrivial(r.d.servers.size() >= 3);
}
// several programs reach a domain that does not run at the same moment
static void attach(G &g) {
  reset();
  dom::remove_ipc(getuid());
  Domain d = domain(g);
  load(d.text);
  int n = 2 + g.below(8);
  auto *go = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> naps;
  for (int i = 0; i < n; i++) naps.push_back(g.chance(1, 2) ? 0 : g.below(2000));
  std::vector<pid_t> kids;
  for (int i = 0; i < n; i++) {
    pid_t p = proc::fork_own();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      while (!*go) usleep(20);
      for (volatile int k = 0; k < naps[i]; k++)
        ;
      int r = tpinit(nullptr);
      (*(go + 1))++;
      for (int k = 0; k < 20000 && *(go + 1) < n; k++) usleep(200);
      _exit(r == -1 ? 1 : 0);
    }
    kids.push_back(p);
  }
  *go = 1;
  int bad = 0;
  for (pid_t p : kids) {
    int st;
    while (waitpid(p, &st, 0) == -1 && errno == EINTR)
      ;
    proc::disown(p);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad++;
  }
  munmap((void *)go, 4096);
  auto ipc = dom::ipc_of(getuid());
  PBT_EQ(bad, 0, "programs that could not attach");
  PBT_EQ(ipc.m.size(), (size_t)1, "shared memory segments");
  PBT_EQ(ipc.s.size(), (size_t)1, "semaphores");
  // one boot starts each server once
  if (g.chance(1, 8)) {
    Run r;
    r.d = d;
    r.when = "boot after many programs attached";
    r.boot(-1, "");
    r.when = "shutdown after many programs attached";
    r.shutdown(-1, "");
  } else {
    auto x = tool({"tmboot", "-n", "-y"});
    size_t execs = 0;
    for (size_t p = 0; (p = x.out.find("exec ", p)) != std::string::npos; p++) execs++;
    PBT_EQ(execs, d.servers.size(), "servers to boot");
    auto y = tool({"tmipcrm", "-y"});
    ipc = dom::ipc_of(getuid());
    PBT_ASSERT(ipc.n() == 0, "after tmipcrm: %s are left", ipc.str().c_str());
  }
  g.log("%d programs", n);
  g.nontrivial(n >= 2);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) {
    const char *b = strrchr(argv[0], '/');
    g_name = b ? b + 1 : argv[0];
    return server_main(argc, argv, prepare);
  }
  pbt::Check c;
  c.id = "X06";
  c.rule =
      "lifecycle: generated domains and random sequences of full and partial boots and shutdowns, killed servers, crashes with clean-up, dry runs and calls; "
      "attach: several programs attach at once to a domain without shared memory. Non-trivial: at least 2 servers besides the bulletin board (attach: 2 programs).";
  c.subs = {{"lifecycle", lifecycle, 200, 4000, 6}, {"attach", attach, 400, 8000, 40}};
  c.setup = setup;
  common(c, 64400);
  c.repro_n = 3;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
