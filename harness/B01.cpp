// B01: the shared registry stays consistent with every registration history.
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/wait.h>
#include <map>
#include <memory>
#include <atmi.h>
#include <mib.h>
#include <trx.h>
#include "shmfix.hpp"
#include "pbt.hpp"
using pbt::G;
using pbt::fmt;

struct MGroup {
  int grpno;
  std::string name, open, close, tms;
};
struct MQueue {
  std::string addr;
  long servercnt;
};
struct MServer {
  int srvid, grpno;
  std::string name, clopt;
  size_t queue;
};
struct Model {
  tuxconfig cfg;
  std::vector<MGroup> groups;
  std::vector<MQueue> queues;
  std::vector<MServer> servers;
  std::vector<std::string> services;
  std::vector<int> accessers;  // process, 0 when free
  std::multiset<std::pair<size_t, size_t>> adv;
};

static tuxconfig gen_cfg(G &g) {
  tuxconfig c;
  memset(&c, 0, sizeof(c));
  c.maxservers = 1 + g.below(6);
  c.maxservices = 1 + g.below(6);
  c.maxqueues = 1 + g.below(6);
  c.maxgroups = 1 + g.below(5);
  c.maxaccessers = 1 + g.below(5);
  return c;
}

// every lookup and every stored value against the model
static void verify(mib &m, Model &x) {
  PBT_EQ((size_t)m.groups()->len, x.groups.size(), "number of groups");
  PBT_EQ((size_t)m.queues()->len, x.queues.size(), "number of queues");
  PBT_EQ((size_t)m.servers()->len, x.servers.size(), "number of servers");
  PBT_EQ((size_t)m.services()->len, x.services.size(), "number of services");
  PBT_EQ((size_t)m.accessers()->len, x.accessers.size(), "number of accessers");
  PBT_ASSERT(m.groups()->size == x.cfg.maxgroups && m.queues()->size == x.cfg.maxqueues && m.servers()->size == x.cfg.maxservers &&
                 m.services()->size == x.cfg.maxservices && m.accessers()->size == x.cfg.maxaccessers,
             "the capacity of the registry changed");
  for (size_t i = 0; i < x.groups.size(); i++) {
    auto &a = x.groups[i];
    auto &b = m.groups().at(i);
    PBT_EQ((int)b.grpno, a.grpno, "group number");
    PBT_EQ(std::string(b.srvgrp), a.name, "group name");
    PBT_EQ(std::string(b.openinfo), a.open, "group open string");
    PBT_EQ(std::string(b.closeinfo), a.close, "group close string");
    PBT_EQ(std::string(b.tmsname), a.tms, "group transaction manager");
    PBT_EQ(m.find_group(a.grpno), i, "group found by number");
    PBT_ASSERT(&m.group_by_id(a.grpno) == &b, "group_by_id finds another group");
    size_t first = i;
    for (size_t k = 0; k < i; k++)
      if (x.groups[k].name == a.name) {
        first = k;
        break;
      }
    PBT_EQ(m.group_index(a.name), first, "group found by name");
  }
  for (size_t i = 0; i < x.queues.size(); i++) {
    auto &b = m.queues().at(i);
    PBT_EQ(std::string(b.rqaddr), x.queues[i].addr, "queue address");
    PBT_EQ((long)b.servercnt, x.queues[i].servercnt, "servers on the queue");
    PBT_EQ(b.msqid, -1, "kernel queue of an unused queue");
    PBT_EQ(m.find_queue(x.queues[i].addr), i, "queue found by address");
    if (x.queues[i].servercnt > 0)
      PBT_ASSERT(b.server_idx < x.servers.size() && x.servers[b.server_idx].queue == i, "queue names a server that does not use it");
  }
  for (size_t i = 0; i < x.servers.size(); i++) {
    auto &a = x.servers[i];
    auto &b = m.servers().at(i);
    PBT_EQ((int)b.srvid, a.srvid, "server id");
    PBT_EQ((int)b.grpno, a.grpno, "server group");
    PBT_EQ(std::string(b.servername), a.name, "server name");
    PBT_EQ(std::string(b.clopt), a.clopt, "server command line");
    PBT_EQ((size_t)b.rqaddr, a.queue, "server queue");
    PBT_EQ(m.find_server(a.srvid, a.grpno), i, "server found by id and group");
  }
  for (size_t i = 0; i < x.services.size(); i++) {
    PBT_EQ(std::string(m.services().at(i).servicename), x.services[i], "service name");
    PBT_EQ(m.find_service(x.services[i]), i, "service found by name");
    PBT_EQ(m.find_service(x.services[i].c_str()), i, "service found by name");
  }
  for (size_t i = 0; i < x.accessers.size(); i++) PBT_EQ((int)m.accessers().at(i).pid, x.accessers[i], "client process");
  std::multiset<std::pair<size_t, size_t>> got;
  size_t cap = (size_t)x.cfg.maxservers * x.cfg.maxservices;
  PBT_EQ((size_t)m.advertisements()->size, cap, "capacity for advertisements");
  PBT_ASSERT(m.advertisements()->len <= cap, "more advertisements than capacity");
  for (size_t i = 0; i < m.advertisements()->len; i++) {
    auto &a = m.advertisements().at(i);
    if (a.service == mib::badoff) {
      PBT_ASSERT(a.queue == mib::badoff && a.server == mib::badoff, "half-removed advertisement");
      continue;
    }
    PBT_ASSERT(a.server < x.servers.size() && a.service < x.services.size(), "advertisement of unknown service or server");
    PBT_EQ(a.queue, x.servers[a.server].queue, "queue of an advertisement");
    PBT_ASSERT(a.state == state_t::ACTive, "advertisement is not active");
    got.insert({a.service, a.server});
  }
  PBT_ASSERT(got == x.adv, "%zu advertisements registered, expected %zu (or other ones)", got.size(), x.adv.size());
}

enum Res { OK, DUP, FULL, LONG, OTHER };
template <class F>
static Res attempt(F f) {
  try {
    f();
    return OK;
  } catch (std::out_of_range &) {
    return FULL;
  } catch (std::length_error &) {
    return LONG;
  } catch (std::logic_error &) {
    return DUP;
  } catch (...) {
    return OTHER;
  }
}
static const char *RN[] = {"done", "refused as duplicate", "refused, full", "refused, too long", "failed otherwise"};

static std::string gen_name(G &g, const char *prefix, size_t cap) {
  switch (g.weighted({10, 2, 1, 1})) {
    case 0: return fmt("%s%d", prefix, (int)g.below(6));
    case 1: return std::string(g.below(cap), 'A' + g.below(3));  // possibly a prefix of another one
    case 2: return std::string(cap - 1, 'A' + g.below(3));
    default: return std::string(cap + g.below(3), 'A' + g.below(3));  // too long
  }
}

static void check(Res r, bool dup, bool full, bool toolong) {
  if (!dup && !full && !toolong) {
    PBT_ASSERT(r == OK, "a valid registration %s", RN[r]);
    return;
  }
  PBT_ASSERT((r == DUP && dup) || (r == FULL && full) || (r == LONG && toolong), "registration (duplicate %d, full %d, too long %d) %s", dup, full, toolong, RN[r]);
}

static void histories(G &g) {
  Model x;
  x.cfg = gen_cfg(g);
  // exactly the memory it asks for, as it would get in shared memory
  mib m(x.cfg, fux::mib::in_heap());
  std::unique_ptr<void, void (*)(void *)> hold(m.operator->(), free);
  g.log("capacity: %d servers, %d services, %d queues, %d groups, %d clients", x.cfg.maxservers, x.cfg.maxservices, x.cfg.maxqueues, x.cfg.maxgroups,
        x.cfg.maxaccessers);
  size_t ops = 3 + g.below(40), refused = 0, done = 0;
  auto note = [&](const std::string &what, Res r) {
    g.log("%s: %s", what.c_str(), RN[r]);
    (r == OK ? done : refused)++;
    if (r == DUP) g.label("duplicate");
    if (r == FULL) g.label("full");
    if (r == LONG) g.label("too long");
  };
  for (size_t k = 0; k < ops; k++) {
    switch (g.weighted({2, 1, 4, 1, 8, 5, 3, 2, 2})) {
      case 0: {
        MGroup a{(int)(g.chance(1, 6) ? 30000 : 1 + g.below(5)), gen_name(g, "GROUP", sizeof(group::srvgrp)), gen_name(g, "open", sizeof(group::openinfo)),
                 gen_name(g, "close", sizeof(group::closeinfo)), gen_name(g, "TMS", sizeof(group::tmsname))};
        bool dup = false;
        for (auto &b : x.groups) dup |= b.grpno == a.grpno;
        bool full = x.groups.size() >= x.cfg.maxgroups;
        bool lng = a.name.size() >= sizeof(group::srvgrp) || a.open.size() >= sizeof(group::openinfo) || a.close.size() >= sizeof(group::closeinfo) ||
                   a.tms.size() >= sizeof(group::tmsname);
        size_t at = mib::badoff;
        Res r = attempt([&] { at = m.make_group(a.grpno, a.name, a.open, a.close, a.tms); });
        note(fmt("group %d %s", a.grpno, pbt::show(a.name).c_str()), r);
        check(r, dup, full, lng);
        if (r == OK) {
          PBT_EQ(at, x.groups.size(), "position of the new group");
          x.groups.push_back(a);
        }
        break;
      }
      case 1: {
        std::string a = gen_name(g, "queue", sizeof(queue::rqaddr));
        bool dup = false;
        for (auto &b : x.queues) dup |= b.addr == a;
        Res r = attempt([&] { m.make_queue(a); });
        note("queue " + pbt::show(a), r);
        check(r, dup, x.queues.size() >= x.cfg.maxqueues, a.size() >= sizeof(queue::rqaddr));
        if (r == OK) x.queues.push_back({a, 0});
        break;
      }
      case 2: {
        MServer a{(int)(1 + g.below(4)), (int)(1 + g.below(3)), gen_name(g, "server", sizeof(server::servername)), gen_name(g, "-A ", sizeof(server::clopt)), 0};
        if (g.chance(1, 8)) a.srvid = 30001;
        std::string addr = gen_name(g, "queue", sizeof(queue::rqaddr));
        bool dup = false;
        for (auto &b : x.servers) dup |= b.srvid == a.srvid && b.grpno == a.grpno;
        size_t q = 0;
        while (q < x.queues.size() && x.queues[q].addr != addr) q++;
        bool full = x.servers.size() >= x.cfg.maxservers || (q == x.queues.size() && q >= x.cfg.maxqueues);
        bool lng = a.name.size() >= sizeof(server::servername) || a.clopt.size() >= sizeof(server::clopt) || addr.size() >= sizeof(queue::rqaddr);
        size_t at = mib::badoff;
        Res r = attempt([&] { at = m.make_server(a.srvid, a.grpno, a.name, a.clopt, addr); });
        note(fmt("server %d in %d on %s", a.srvid, a.grpno, pbt::show(addr).c_str()), r);
        check(r, dup, full, lng);
        if (r == OK) {
          PBT_EQ(at, x.servers.size(), "position of the new server");
          if (q == x.queues.size()) x.queues.push_back({addr, 0});
          a.queue = q;
          x.queues[q].servercnt++;
          x.servers.push_back(a);
        }
        break;
      }
      case 3: {
        std::string a = gen_name(g, "SVC", XATMI_SERVICE_NAME_LENGTH);
        bool dup = false;
        for (auto &b : x.services) dup |= b == a;
        Res r = attempt([&] { m.make_service(a); });
        note("service " + pbt::show(a), r);
        check(r, dup, x.services.size() >= x.cfg.maxservices, a.size() >= XATMI_SERVICE_NAME_LENGTH);
        if (r == OK) x.services.push_back(a);
        break;
      }
      case 4: {
        if (x.servers.empty()) break;
        std::string a = gen_name(g, "SVC", XATMI_SERVICE_NAME_LENGTH);
        size_t s = g.below(x.servers.size()), n = 0;
        while (n < x.services.size() && x.services[n] != a) n++;
        bool isnew = n == x.services.size();
        bool dup = x.adv.count({n, s}) > 0;
        uint64_t rev = isnew ? 0 : m.services().at(n).revision;
        Res r = attempt([&] { m.advertise(a, x.servers[s].queue, s); });
        note(fmt("server #%zu offers %s", s, pbt::show(a).c_str()), r);
        check(r, dup, isnew && n >= x.cfg.maxservices, a.size() >= XATMI_SERVICE_NAME_LENGTH);
        if (r == OK) {
          if (isnew) x.services.push_back(a);
          x.adv.insert({n, s});
          PBT_ASSERT(m.services().at(n).revision != rev, "clients cannot notice that %s is offered by another server", a.c_str());
          PBT_ASSERT(m.services().at(n).state == state_t::ACTive, "offered service is not active");
        }
        break;
      }
      case 5: {
        if (x.servers.empty()) break;
        std::string a = gen_name(g, "SVC", XATMI_SERVICE_NAME_LENGTH);
        size_t s = g.below(x.servers.size()), n = 0;
        if (!x.adv.empty() && g.chance(2, 3)) {
          auto it = x.adv.begin();
          std::advance(it, g.below(x.adv.size()));
          a = x.services[it->first];
          s = it->second;
        }
        while (n < x.services.size() && x.services[n] != a) n++;
        bool offered = x.adv.count({n, s}) > 0;
        uint64_t rev = n == x.services.size() ? 0 : m.services().at(n).revision;
        Res r = attempt([&] { m.unadvertise(a, x.servers[s].queue, s); });
        note(fmt("server #%zu withdraws %s", s, pbt::show(a).c_str()), r);
        PBT_ASSERT(r == (offered ? OK : DUP), "withdrawal of a service that is %soffered: %s", offered ? "" : "not ", RN[r]);
        if (r == OK) {
          x.adv.erase({n, s});
          PBT_ASSERT(m.services().at(n).revision != rev, "clients cannot notice that %s was withdrawn", a.c_str());
          g.label("withdrawn");
        }
        break;
      }
      case 6: {
        int pid = 1 + g.below(1000);
        size_t n = 0;
        while (n < x.accessers.size() && x.accessers[n] != 0) n++;
        bool full = n >= x.cfg.maxaccessers;
        size_t at = mib::badoff;
        Res r = attempt([&] { at = m.make_accesser(pid); });
        note(fmt("client %d", pid), r);
        check(r, false, full, false);
        if (r == OK) {
          PBT_ASSERT(at < x.cfg.maxaccessers, "client registered beyond capacity");
          PBT_ASSERT(at <= x.accessers.size() && (at == x.accessers.size() || x.accessers[at] == 0), "new client replaced another one");
          if (at == x.accessers.size()) x.accessers.push_back(0);
          x.accessers[at] = pid;
          auto &a = m.accessers().at(at);
          PBT_ASSERT(a.valid() && a.rpid == -1 && a.rpid_timeout == INVALID_TIME, "new client has the reply queue or time limit of another one");
          // as clients do
          a.rpid = 1000000 + pid;
          a.rpid_timeout = {};
        }
        break;
      }
      case 7: {
        std::vector<size_t> used;
        for (size_t i = 0; i < x.accessers.size(); i++)
          if (x.accessers[i]) used.push_back(i);
        if (used.empty()) break;
        size_t i = g.pick(used);
        g.log("client at %zu leaves", i);
        m.accessers().at(i).invalidate();
        PBT_ASSERT(!m.accessers().at(i).valid(), "client that left is still valid");
        x.accessers[i] = 0;
        break;
      }
      default: {  // unknown names
        PBT_EQ(m.find_group(29999), (size_t)mib::badoff, "unknown group");
        PBT_EQ(m.group_index("NOSUCH"), (size_t)mib::badoff, "unknown group name");
        PBT_EQ(m.find_server(29999, 1), (size_t)mib::badoff, "unknown server");
        PBT_EQ(m.find_queue("nosuch"), (size_t)mib::badoff, "unknown queue");
        PBT_EQ(m.find_service("NOSUCH"), (size_t)mib::badoff, "unknown service");
        if (!x.servers.empty()) {
          auto &s = g.pick(x.servers);
          for (int gr = 1; gr <= 3; gr++) {
            bool have = false;
            for (auto &o : x.servers) have |= o.srvid == s.srvid && o.grpno == gr;
            PBT_EQ(m.find_server(s.srvid, gr) != mib::badoff, have, "server of another group");
          }
        }
        if (!x.services.empty()) {
          std::string s = g.pick(x.services);
          for (std::string t : {s + "X", s.substr(0, s.size() ? s.size() - 1 : 0)}) {
            bool have = std::find(x.services.begin(), x.services.end(), t) != x.services.end();
            PBT_EQ(m.find_service(t) != mib::badoff, have, "service of a similar name");
          }
        }
      }
    }
    verify(m, x);
    // only the reply queues of registered clients are there to be removed
    if (g.chance(1, 6)) {
      std::vector<int> q, mm, ss;
      m.collect(q, mm, ss);
      std::multiset<int> want, have(q.begin(), q.end());
      for (int p : x.accessers)
        if (p) want.insert(1000000 + p);
      PBT_ASSERT(want == have, "%zu queues would be removed, expected %zu (or other ones)", have.size(), want.size());
    }
  }
  // every part of the memory up to its capacity
  if (g.chance(1, 3)) {
    auto &t = m.transactions();
    PBT_EQ((size_t)t.max_groups, (size_t)x.cfg.maxgroups, "groups in the table of transactions");
    size_t n = 0;
    std::vector<XID> ids;
    while (true) {
      XID id;
      memset(&id, 0, sizeof(id));
      id.formatID = 1;
      id.gtrid_length = 8;
      memcpy(id.data, &n, 8);
      Res r = attempt([&] { t.start(id, g.below(x.cfg.maxgroups)); });
      if (n == t.size) {
        PBT_ASSERT(r == FULL, "transaction beyond capacity: %s", RN[r]);
        break;
      }
      PBT_ASSERT(r == OK, "transaction %zu: %s", n, RN[r]);
      ids.push_back(id);
      n++;
    }
    g.log("%zu transactions", n);
    verify(m, x);
    for (auto &id : ids) t.end(t.find(id));
    verify(m, x);
    g.label("table of transactions filled");
  }
  g.nontrivial(done >= 3 && refused >= 1);
}

// ---- several processes at work on the shared memory ----
static std::map<int, uint32_t> g_key;
static void wipe_key(uint32_t key) {
  int id = shmget(key, 0, 0);
  if (id == -1) return;
  void *p = shmat(id, nullptr, SHM_RDONLY);
  if (p != (void *)-1) {
    int sem = ((mibmem *)p)->mainsem;
    struct semid_ds ds;
    union {
      int v;
      struct semid_ds *b;
    } a;
    a.b = &ds;
    if (sem > 0 && semctl(sem, 0, IPC_STAT, a) == 0) semctl(sem, 0, IPC_RMID);
    shmdt(p);
  }
  shmctl(id, IPC_RMID, nullptr);
}
static uint32_t key_of(int w) { return 0x46420000u + (uint32_t)w; }

static void shared(G &g) {
  tuxconfig c;
  memset(&c, 0, sizeof(c));
  size_t n = 2 + g.below(5), per = 3 + g.below(30);
  c.ipckey = key_of(g.worker);
  c.maxservers = n;
  c.maxservices = 3 + g.below(4);
  c.maxqueues = n;
  c.maxgroups = 1;
  c.maxaccessers = n * 2;
  wipe_key(c.ipckey);
  struct Guard {
    uint32_t k;
    ~Guard() { wipe_key(k); }
  } guard{c.ipckey};
  struct Shared {
    std::atomic<int> go;
    int result[16];
    char msg[16][200];
    uint8_t offered[16][16];
    uint64_t uids[16][64];
    size_t nuids[16];
  };
  auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Un {
    void *p;
    ~Un() { munmap(p, sizeof(Shared)); }
  } un{sh};
  bool same_q = g.chance(1, 3);
  bool lookups = g.flip();
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < n; i++) seeds.push_back(g.u64());
  g.log("%zu processes, %zu steps each, %d services%s", n, per, c.maxservices, same_q ? ", one queue" : "");
  std::vector<pid_t> kids;
  for (size_t i = 0; i < n; i++) {
    pid_t p = fork();
    if (p == 0) {
      int rc = 0;
      try {
        while (!sh->go) std::this_thread::yield();
        mib m(c);
        uint64_t r = seeds[i];
        size_t srv, acc;
        {
          auto lock = m.data_lock();
          srv = m.make_server(1 + i, 1, fmt("server%zu", i), "-A", same_q ? std::string("shared") : fmt("q%zu", i));
          acc = m.make_accesser(10000 + i);
        }
        size_t q = m.servers().at(srv).rqaddr;
        std::vector<bool> on(c.maxservices);
        for (size_t k = 0; k < per; k++) {
          size_t s = pbt::splitmix(r) % c.maxservices;
          std::string name = fmt("SVC%zu", s);
          auto lock = m.data_lock();
          if (on[s])
            m.unadvertise(name, q, srv);
          else
            m.advertise(name, q, srv);
          on[s] = !on[s];
          if (k % 4 == 3) {
            m.accessers().at(acc).invalidate();
            acc = m.make_accesser(10000 + i);
          }
          if (sh->nuids[i] < 64) sh->uids[i][sh->nuids[i]++] = m.genuid();
        }
        for (size_t s = 0; s < on.size(); s++) sh->offered[i][s] = on[s];
        if (m.find_server(1 + i, 1) != srv || strcmp(m.servers().at(srv).servername, fmt("server%zu", i).c_str()) != 0)
          throw std::runtime_error("own server not found");
        if (m.accessers().at(acc).pid != (pid_t)(10000 + i)) throw std::runtime_error("own client entry was replaced");
      } catch (std::exception &e) {
        snprintf(sh->msg[i], sizeof(sh->msg[i]), "%s", e.what());
        rc = 1;
      }
      sh->result[i] = rc ? 2 : 1;
      _exit(rc);
    }
    kids.push_back(p);
  }
  sh->go = 1;
  for (auto p : kids) waitpid(p, nullptr, 0);
  for (size_t i = 0; i < n; i++) PBT_ASSERT(sh->result[i] == 1, "process %zu: %s", i, sh->result[i] ? sh->msg[i] : "died");
  int sem = -1;
  {
    mib m(c);
    PBT_EQ((size_t)m.servers()->len, n, "number of servers");
    std::set<size_t> accs;
    size_t clients = 0;
    for (size_t i = 0; i < m.accessers()->len; i++)
      if (m.accessers().at(i).valid()) {
        clients++;
        accs.insert(m.accessers().at(i).pid);
      }
    PBT_EQ(clients, n, "number of clients");
    PBT_EQ(accs.size(), n, "number of distinct clients");
    std::multiset<std::pair<std::string, std::string>> want, got;
    for (size_t i = 0; i < n; i++)
      for (size_t s = 0; s < c.maxservices; s++)
        if (sh->offered[i][s]) want.insert({fmt("SVC%zu", s), fmt("server%zu", i)});
    for (size_t i = 0; i < m.advertisements()->len; i++) {
      auto &a = m.advertisements().at(i);
      if (a.service == mib::badoff) continue;
      got.insert({m.services().at(a.service).servicename, m.servers().at(a.server).servername});
    }
    PBT_ASSERT(want == got, "%zu advertisements remain, expected %zu (or other ones)", got.size(), want.size());
    std::set<std::string> names;
    for (size_t i = 0; i < m.services()->len; i++) PBT_ASSERT(names.insert(m.services().at(i).servicename).second, "service registered twice");
    std::set<uint64_t> u;
    for (size_t i = 0; i < n; i++)
      for (size_t k = 0; k < sh->nuids[i]; k++) PBT_ASSERT(u.insert(sh->uids[i][k]).second, "the same unique number was given out twice");
    sem = m->mainsem;
    m.remove();
    shmdt(m.operator->());
  }
  PBT_ASSERT(shmget(c.ipckey, 0, 0) == -1, "shared memory remains after removal");
  struct semid_ds ds;
  union {
    int v;
    struct semid_ds *b;
  } a;
  a.b = &ds;
  PBT_ASSERT(semctl(sem, 0, IPC_STAT, a) == -1, "semaphore remains after removal");
  g.nontrivial(n >= 2 && per >= 4);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "B01";
  c.rule =
      "histories: registrations of groups, queues, servers, services, clients and advertisements with small capacities, compared after every step "
      "with a model, in exactly the memory the registry asks for (AddressSanitizer); shared: 2-6 processes attach and register at the same time. "
      "Non-trivial: at least 3 registrations done and one refused; at least 4 steps per process.";
  c.subs = {
      {"histories", histories, 60000, 1000000},
      {"shared", shared, 1500, 20000},
  };
  c.cleanup = [](int w, bool) { wipe_key(key_of(w)); };
  return pbt::main(argc, argv, c);
}
