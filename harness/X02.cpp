// X02: every asynchronous reply reaches the request that asked for it.
#include "e2egen.hpp"
using namespace e2e;

static void prepare() {
  switch (g_srvid) {
    case 1: case 2: server_services = {{"A", cmd<0>}}; break;
    case 3: case 4: server_services = {{"B", cmd<1>}}; break;
    case 5: server_services = {{"C", cmd<2>}, {"A", cmd<0>}}; break;
    default: server_services = {{"D", cmd<3>}};
  }
}
static bool offers(int srvid, char svc) {
  switch (srvid) {
    case 1: case 2: return svc == 'A';
    case 3: case 4: return svc == 'B';
    case 5: return svc == 'C' || svc == 'A';
    default: return svc == 'D';
  }
}
static const int MAXT = 8;
struct Result {
  char msg[MAXT][1200];
  uint32_t accepted[MAXT];
  uint64_t ids[MAXT][200];
  char svc[MAXT][200];
};
static Result *res;
static void setup(int w) {
  enter(w, {"vsa", "vsb", "vtc", "vsd"});
  load(ubb_head(w, "BLOCKTIME 40\nMAXACCESSERS 200\n") +
       "*GROUPS\nG1 GRPNO=1\nG2 GRPNO=2\n*SERVERS\nvsa SRVGRP=G1 SRVID=1\nvsa SRVGRP=G2 SRVID=2\nvsb SRVGRP=G1 SRVID=3 MIN=2 MAX=2 RQADDR=shared\n"
       "vtc SRVGRP=G1 SRVID=5 MINDISPATCHTHREADS=4 MAXDISPATCHTHREADS=4\nvsd SRVGRP=G2 SRVID=6\n");
  boot();
  res = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

enum Kind { ACALL, GET, GETANY, CANCEL, CALL, BADGET, BADCANCEL, TERM, DRAIN, NAP };
struct Op {
  int kind;
  char svc;
  int delay, rval, rcode, flags, sel, pad;
};
typedef std::vector<Op> Program;

static Program program(G &g, bool concurrent) {
  Program p;
  size_t n = 1 + g.below(g.chance(1, 3) ? 60 : 15);
  for (size_t i = 0; i < n; i++) {
    Op o;
    memset(&o, 0, sizeof(o));
    switch (g.below(20)) {
      default: o.kind = ACALL; break;
      case 8: case 9: case 10: o.kind = GET; break;
      case 11: case 12: case 13: o.kind = GETANY; break;
      case 14: o.kind = CANCEL; break;
      case 15: o.kind = CALL; break;
      case 16: o.kind = g.flip() ? BADGET : BADCANCEL; break;
      case 17: o.kind = g.chance(1, 3) ? TERM : GETANY; break;
      case 18: o.kind = DRAIN; break;
      case 19: o.kind = NAP; break;
    }
    o.svc = "AABBCCD"[g.below(7)];
    if (o.kind == ACALL || o.kind == CALL) {
      o.delay = g.chance(1, 3) ? g.below(g.chance(1, 10) ? 20000 : 2000) : 0;
      o.rval = g.chance(1, 4) ? TPFAIL : TPSUCCESS;
      o.rcode = g.below(100000);
      o.pad = g.chance(1, 10) ? (int)g.below(9000) : 0;
      if (o.kind == ACALL && g.chance(1, 6)) o.flags |= TPNOREPLY;
      if (g.chance(1, 6)) o.flags |= TPNOTIME;
      if (g.chance(1, 8)) o.flags |= TPNOBLOCK;
    } else {
      o.sel = g.below(1000);
      if (g.chance(1, 3)) o.flags |= TPNOBLOCK;
      if (g.chance(1, 6)) o.flags |= TPNOTIME;
      if (o.kind == NAP) o.delay = g.below(3000);
    }
    p.push_back(o);
  }
  return p;
}

// one client: runs the program against a model of its descriptors
struct Client {
  int t;
  uint64_t base;
  struct Out {
    uint64_t id;
    int rval, rcode;
    char svc;
  };
  std::map<int, Out> out;
  std::vector<int> used;
  size_t reordered = 0, cancelled = 0, got = 0;
  std::string trace;
  char *buf = nullptr;
  void accept(uint64_t id, char svc) {
    uint32_t n = res->accepted[t];
    res->ids[t][n] = id;
    res->svc[t][n] = svc;
    res->accepted[t] = n + 1;
  }
  static char *request(const Op &o, uint64_t id) {
    std::string s = fmt("%llu %d %d %d", (unsigned long long)id, o.delay, o.rval, o.rcode) + std::string(o.pad, ' ');
    char *p = tpalloc((char *)"STRING", nullptr, s.size() + 1);
    strcpy(p, s.c_str());
    return p;
  }
  void reply(const char *what, const Out &x, int ret, int err, long ur, const char *data) {
    unsigned long long id = 0;
    int fn = -1, srvid = -1, grpno = -1;
    sscanf(data, "%llu %d %d %d", &id, &fn, &srvid, &grpno);
    PBT_ASSERT(id == x.id, "%s: reply %s is not to request %llu", what, pbt::show(data).c_str(), (unsigned long long)x.id);
    if (x.rval == TPSUCCESS)
      PBT_ASSERT(ret != -1, "%s: failed with %s, but the service succeeded", what, tpstrerror(err));
    else
      PBT_ASSERT(ret == -1 && err == TPESVCFAIL, "%s: result %d %s, but the service failed", what, ret, tpstrerror(err));
    PBT_EQ(ur, (long)x.rcode, fmt("%s: user code", what));
    PBT_ASSERT(offers(srvid, x.svc), "%s: server %d does not offer %c", what, srvid, x.svc);
    got++;
  }
  // true: a reply was received
  bool get(int cd, int flags) {
    bool any = flags & TPGETANY;
    int c = any ? -12345 : cd;
    long len = -1;
    if (!buf) buf = tpalloc((char *)"STRING", nullptr, 0);
    strcpy(buf, "none");
    int ret = tpgetrply(&c, &buf, &len, flags);
    int err = tperrno;
    std::string what = any ? fmt("tpgetrply(any, 0x%x)", flags) : fmt("tpgetrply(%d, 0x%x)", cd, flags);
    if (trace.size() < 6000) trace += what + fmt(" = %d %s, descriptor %d, %s\n", ret, ret == -1 ? tpstrerror(err) : "", c, buf);
    if (ret == -1 && err == TPEBLOCK && (flags & TPNOBLOCK)) return false;
    if (ret == -1 && err != TPESVCFAIL) pbt::fail("%s: %s", what.c_str(), tpstrerror(err));
    auto i = out.find(c);
    PBT_ASSERT(i != out.end(), "%s: reply for descriptor %d, which is not outstanding; %s", what.c_str(), c, pbt::show(buf).c_str());
    if (!any) PBT_EQ(c, cd, what + ": descriptor");
    reply(what.c_str(), i->second, ret, err, tpurcode, buf);
    if (i->first != out.begin()->first) reordered++;
    used.push_back(c);
    out.erase(i);
    return true;
  }
  void drain() {
    while (!out.empty()) {
      size_t k = used.size() % 3;
      if (k == 0)
        get(0, TPGETANY);
      else if (k == 1)
        get(out.rbegin()->first, 0);
      else
        get(out.begin()->first, 0);
    }
  }
  void run(const Program &p) {
    uint64_t seq = 0;
    for (auto &o : p) {
      switch (o.kind) {
        case ACALL: {
          if (out.size() >= 24) drain();
          uint64_t id = base + ++seq;
          char *d = request(o, id);
          char svc[2] = {o.svc, 0};
          int cd = tpacall(svc, d, 0, o.flags), err = tperrno;
          tpfree(d);
          if (trace.size() < 6000) trace += fmt("tpacall(%s, \"%llu %d\", 0x%x) = %d\n", svc, (unsigned long long)id, o.delay, o.flags, cd);
          if (cd == -1) {
            PBT_ASSERT((o.flags & TPNOBLOCK) && err == TPEBLOCK, "tpacall failed: %s", tpstrerror(err));
            break;
          }
          accept(id, o.svc);
          if (o.flags & TPNOREPLY) {
            PBT_EQ(cd, 0, "tpacall with TPNOREPLY");
          } else {
            PBT_ASSERT(cd > 0, "tpacall returned %d", cd);
            PBT_ASSERT(!out.count(cd), "descriptor %d is given to two outstanding requests", cd);
            out[cd] = {id, o.rval, o.rcode, o.svc};
          }
          break;
        }
        case CALL: {
          uint64_t id = base + ++seq;
          char *d = request(o, id);
          char svc[2] = {o.svc, 0};
          if (!buf) buf = tpalloc((char *)"STRING", nullptr, 0);
          strcpy(buf, "none");
          long len = -1;
          int ret = tpcall(svc, d, 0, &buf, &len, o.flags), err = tperrno;
          tpfree(d);
          if (trace.size() < 6000) trace += fmt("tpcall(%s, \"%llu %d\", 0x%x) = %d %s\n", svc, (unsigned long long)id, o.delay, o.flags, ret, buf);
          if (ret == -1 && err == TPEBLOCK && (o.flags & TPNOBLOCK)) break;
          accept(id, o.svc);
          PBT_ASSERT(ret != -1 || err == TPESVCFAIL, "tpcall failed: %s", tpstrerror(err));
          reply("tpcall", {id, o.rval, o.rcode, o.svc}, ret, err, tpurcode, buf);
          break;
        }
        case GET:
          if (!out.empty()) {
            auto i = out.begin();
            std::advance(i, o.sel % out.size());
            get(i->first, o.flags);
          }
          break;
        case GETANY:
          if (!out.empty() || (o.flags & TPNOBLOCK)) get(0, o.flags | TPGETANY);
          break;
        case CANCEL:
          if (!out.empty()) {
            auto i = out.begin();
            std::advance(i, o.sel % out.size());
            if (trace.size() < 6000) trace += fmt("tpcancel(%d)\n", i->first);
            PBT_ASSERT(tpcancel(i->first) != -1, "tpcancel(%d): %s", i->first, tpstrerror(tperrno));
            used.push_back(i->first);
            out.erase(i);
            cancelled++;
          }
          break;
        case BADGET:
        case BADCANCEL: {
          int c;
          if (o.sel % 3 == 0 && !used.empty())
            c = used[o.sel / 3 % used.size()];
          else {
            static const int v[] = {0, -1, 1 << 30, 999999, -5};
            c = v[o.sel / 3 % 5];
          }
          if (out.count(c)) break;
          int ret, c2 = c;
          if (o.kind == BADGET) {
            long len;
            if (!buf) buf = tpalloc((char *)"STRING", nullptr, 0);
            ret = tpgetrply(&c2, &buf, &len, o.flags);
          } else
            ret = tpcancel(c);
          if (trace.size() < 6000) trace += fmt("%s(%d) = %d\n", o.kind == BADGET ? "tpgetrply" : "tpcancel", c, ret);
          PBT_ASSERT(ret == -1 && tperrno == TPEBADDESC, "%s of unknown descriptor %d: %d %s", o.kind == BADGET ? "tpgetrply" : "tpcancel", c, ret, tpstrerror(tperrno));
          break;
        }
        case TERM:
          if (trace.size() < 6000) trace += "tpterm()\n";
          PBT_ASSERT(tpterm() != -1, "tpterm: %s", tpstrerror(tperrno));
          PBT_ASSERT(tpinit(nullptr) != -1, "tpinit: %s", tpstrerror(tperrno));
          out.clear();
          used.clear();
          break;
        case DRAIN: drain(); break;
        case NAP: usleep(o.delay); break;
      }
    }
    drain();
  }
  // after everything was executed nothing may be left
  void finish() {
    if (!buf) buf = tpalloc((char *)"STRING", nullptr, 0);
    int c = -1;
    long len;
    int ret = tpgetrply(&c, &buf, &len, TPGETANY | TPNOBLOCK);
    PBT_ASSERT(ret == -1 && tperrno == TPEBLOCK, "there is a reply for nobody: %d, descriptor %d, %s", ret, c, pbt::show(buf).c_str());
    tpfree(buf);
    buf = nullptr;
  }
};

static void verify(G &g, int threads) {
  size_t total = 0;
  std::map<uint64_t, char> want;
  for (int t = 0; t < threads; t++)
    for (uint32_t i = 0; i < res->accepted[t]; i++) {
      want[res->ids[t][i]] = res->svc[t][i];
      total++;
    }
  auto done = [&] {
    if (sh->nrec < total) return false;
    for (uint32_t i = 0; i < sh->nrec; i++)
      if (sh->rec[i].t1 == 0) return false;
    return true;
  };
  for (int i = 0; i < 20000 && !done(); i++) usleep(500);
  std::map<uint64_t, int> seen;
  for (uint32_t i = 0; i < sh->nrec; i++) {
    Rec &r = sh->rec[i];
    auto w = want.find(r.id);
    PBT_ASSERT(w != want.end(), "request %llu was executed but never accepted", (unsigned long long)r.id);
    PBT_ASSERT(++seen[r.id] == 1, "request %llu was executed twice", (unsigned long long)r.id);
    PBT_ASSERT(r.svc[0] == w->second && r.svc[1] == 0 && offers(r.srvid, w->second), "request for %c was executed as %s in server %d", w->second, r.svc, r.srvid);
  }
  for (auto &w : want) PBT_ASSERT(seen.count(w.first), "request %llu was accepted but not executed", (unsigned long long)w.first);
}
static void clients(G &g, int threads, bool procs) {
  static uint64_t serial = 0;
  reset();
  memset(res->accepted, 0, sizeof(res->accepted));
  for (auto &m : res->msg) m[0] = 0;
  std::vector<Program> ps;
  for (int t = 0; t < threads; t++) ps.push_back(program(g, threads > 1));
  serial++;
  std::atomic<bool> reordered{false}, cancelled{false};
  auto body = [&](int t) {
    Client c;
    c.t = t;
    c.base = (serial << 24) + ((uint64_t)t << 16);
    try {
      if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
      c.run(ps[t]);
      // everything this client asked for has been executed
      for (int i = 0; i < 20000; i++) {
        bool all = true;
        for (uint32_t k = 0; k < res->accepted[t] && all; k++) {
          bool found = false;
          for (uint32_t j = 0; j < sh->nrec && !found; j++) found = sh->rec[j].id == res->ids[t][k] && sh->rec[j].t1 != 0;
          all = found;
        }
        if (all) break;
        usleep(500);
      }
      c.finish();
      if (c.reordered) reordered = true;
      if (c.cancelled) cancelled = true;
      tpterm();
    } catch (pbt::Fail &f) {
      snprintf(res->msg[t], sizeof(res->msg[t]), "client %d: %s\n%s", t, f.msg.c_str(), c.trace.size() > 900 ? c.trace.substr(c.trace.size() - 900).c_str() : c.trace.c_str());
      tpterm();
    }
  };
  if (procs) {
    std::vector<pid_t> kids;
    for (int t = 0; t < threads; t++) {
      pid_t p = proc::fork_own();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::thread th(body, t);
        th.join();
        _exit(0);
      }
      kids.push_back(p);
    }
    for (pid_t p : kids) {
      int st;
      while (waitpid(p, &st, 0) == -1 && errno == EINTR)
        ;
      proc::disown(p);
      PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a client ended with status %x", st);
    }
  } else if (threads == 1)
    body(0);
  else {
    std::vector<std::thread> th;
    static std::mutex mx;
    for (int t = 0; t < threads; t++) th.emplace_back(body, t);
    for (auto &t : th) t.join();
  }
  for (int t = 0; t < threads; t++)
    if (res->msg[t][0]) pbt::fail("%s", res->msg[t]);
  verify(g, threads);
  if (reordered) g.label("collected in another order");
  if (cancelled) g.label("cancelled");
  uint32_t n = 0;
  for (int t = 0; t < threads; t++) n += res->accepted[t];
  g.log("%d clients, %u requests", threads, n);
  g.nontrivial(n >= 3);
}
// a client that lives long: descriptors are neither lost nor given out twice
static void longlife(G &g) {
  static uint64_t serial = 0;
  serial++;
  reset();
  memset(res->accepted, 0, sizeof(res->accepted));
  uint64_t base = (1ull << 50) + (serial << 24), seq = 0;
  size_t held = g.below(7);
  static const size_t sizes[] = {300, 1100, 2100, 33000, 66000};
  size_t n = sizes[g.weighted({4, 12, 4, 1, 1})] + g.below(100);
  // kinds of calls that are made
  std::vector<int> kinds;
  if (n > 30000)
    kinds = {(int)(g.flip() ? 0 : 2)};
  else
    for (size_t i = 0, k = 1 + g.below(3); i < k; i++) kinds.push_back(g.below(8));
  std::vector<int> what;
  for (size_t i = 0; i < 64; i++) what.push_back(g.pick(kinds));
  std::vector<Op> first;
  for (size_t i = 0; i < held; i++) {
    Op o;
    memset(&o, 0, sizeof(o));
    o.svc = "ABCD"[g.below(4)];
    o.rval = g.chance(1, 4) ? TPFAIL : TPSUCCESS;
    o.rcode = g.below(1000);
    first.push_back(o);
  }
  std::string msg;
  std::thread th([&] {
    Client c;
    c.t = 0;
    c.base = base;
    try {
      if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
      int aerr = 0;
      auto acall = [&](const Op &o, const char *name = nullptr) {
        char *d = Client::request(o, base + ++seq);
        char svc[2] = {o.svc, 0};
        int cd = tpacall((char *)(name ? name : svc), d, 0, o.flags);
        aerr = tperrno;
        tpfree(d);
        return cd;
      };
      auto keep = [&](const Op &o, int cd) {
        PBT_ASSERT(cd > 0, "call %llu: tpacall = %d, %s", (unsigned long long)seq, cd, cd == -1 ? tpstrerror(aerr) : "");
        Client::Out x;
        x.id = base + seq;
        x.svc = o.svc;
        x.rval = o.rval;
        x.rcode = o.rcode;
        PBT_ASSERT(c.out.insert({cd, x}).second, "call %llu: descriptor %d is outstanding, and was given out again", (unsigned long long)seq, cd);
      };
      for (auto &o : first) keep(o, acall(o));
      for (size_t i = 0; i < n; i++) {
        Op o;
        memset(&o, 0, sizeof(o));
        o.svc = "ABCD"[i % 4];
        o.rval = TPSUCCESS;
        o.rcode = i % 1000;
        int k = what[i % what.size()];
        if (i % 500 == 499) sh->nrec = 0;
        if (i % 16 == 15 && (k == 3 || k == 6)) k = 0;  // lets servers catch up
        switch (k) {
          case 1: o.rval = TPFAIL;  // fall through
          case 0: {
            char *d = Client::request(o, base + ++seq), svc[2] = {o.svc, 0};
            long len = 0;
            if (!c.buf) c.buf = tpalloc((char *)"STRING", nullptr, 100);
            strcpy(c.buf, "none");
            int r = tpcall(svc, d, 0, &c.buf, &len, 0), err = tperrno;
            long ur = tpurcode;
            tpfree(d);
            Client::Out x;
            x.id = base + seq;
            x.svc = o.svc;
            x.rval = o.rval;
            x.rcode = o.rcode;
            if (r == -1 && err != TPESVCFAIL) pbt::fail("call %llu: tpcall: %s", (unsigned long long)seq, tpstrerror(err));
            c.reply("tpcall", x, r, err, ur, c.buf);
            break;
          }
          case 2: {
            int cd = acall(o);
            keep(o, cd);
            c.get(cd, 0);
            break;
          }
          case 3: {
            int cd = acall(o);
            PBT_ASSERT(cd > 0 && !c.out.count(cd), "call %llu: tpacall = %d, %s", (unsigned long long)seq, cd, cd == -1 ? tpstrerror(aerr) : "already outstanding");
            PBT_ASSERT(tpcancel(cd) != -1, "call %llu: tpcancel: %s", (unsigned long long)seq, tpstrerror(tperrno));
            break;
          }
          case 4: PBT_ASSERT(acall(o, "NOBODY") == -1 && aerr == TPENOENT, "call of an unknown service"); break;
          case 5: {
            // what cannot be sent
            char *d = Client::request(o, base + ++seq), *out = tpalloc((char *)"STRING", nullptr, 10);
            long len;
            int r = tpcall((char *)"A", d, 0, &out, &len, TPNOREPLY);
            PBT_ASSERT(r == -1 && tperrno == TPEINVAL, "tpcall without a reply: %d", r);
            tpfree(d);
            tpfree(out);
            break;
          }
          case 6: {
            o.flags = TPNOREPLY;
            int cd = acall(o);
            PBT_ASSERT(cd == 0, "call %llu: tpacall without a reply = %d, %s", (unsigned long long)seq, cd, cd == -1 ? tpstrerror(aerr) : "");
            break;
          }
          default: {
            int cd = acall(o);
            keep(o, cd);
            if (c.out.size() > held + 3) c.get(held ? c.out.rbegin()->first : 0, held ? 0 : TPGETANY);
          }
        }
        if (c.trace.size() > 3000) c.trace.clear();
      }
      // the last ones first, then those from the beginning
      while (c.out.size() > held) c.get(c.out.rbegin()->first, 0);
      c.drain();
      if (c.buf) tpfree(c.buf), c.buf = nullptr;
      tpterm();
    } catch (pbt::Fail &f) {
      msg = f.msg;
      tpterm();
    }
  });
  th.join();
  g.log("%zu calls of kinds %d.., %zu held", n, kinds[0], held);
  if (!msg.empty()) pbt::fail("%s", msg.c_str());
  if (n > 30000) g.label("more than 30000 calls");
  g.nontrivial(n > 1000);
}
static void single(G &g) { clients(g, 1, false); }
static void several(G &g) { clients(g, 2 + g.below(MAXT - 1), false); }
static void processes(G &g) { clients(g, 2 + g.below(MAXT - 1), true); }

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X02";
  c.rule =
      "single, several, processes: random programs of asynchronous and synchronous calls, collecting, cancelling and leaving, by one or several concurrent "
      "clients (threads or processes) against 6 servers, with and without threads and a shared queue; long: hundreds to 66000 calls of all kinds by one client that "
      "holds some descriptors all the time. Non-trivial: at least 3 requests (long: 1000).";
  c.subs = {{"single", single, 6000, 120000, 250}, {"several", several, 2000, 40000, 80}, {"processes", processes, 800, 16000, 40}, {"long", longlife, 120, 3000, 15}};
  c.setup = setup;
  common(c, 64340);
  c.repro_n = 8;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
