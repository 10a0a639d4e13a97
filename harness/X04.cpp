// X04: a request runs the function currently advertised for its service.
#include "e2egen.hpp"
using namespace e2e;

static const int NSRV = 5, MAXSERVICES = 60;
static void prepare() {
  server_services = {{fmt("CTL%d", g_srvid), ctl}, {"TABLE", cmd<4>}};
  if (g_srvid <= 2) server_services.push_back({"TABLE2", g_srvid == 1 ? cmd<3> : cmd<2>});
  server_init = [] {
    static std::string n = fmt("INIT%d", g_srvid);
    return tpadvertise((char *)n.c_str(), cmd<5>);
  };
}
struct Model {
  std::map<std::string, int> s[NSRV + 1];  // server -> name -> function
  std::set<std::string> ever;
  void start() {
    ever.insert(".TMIB");
    for (int i = 1; i <= NSRV; i++) {
      s[i][fmt("CTL%d", i)] = -1;
      s[i]["TABLE"] = 4;
      s[i][fmt("INIT%d", i)] = 5;
      if (i <= 2) s[i]["TABLE2"] = i == 1 ? 3 : 2;
      for (auto &x : s[i]) ever.insert(x.first);
    }
  }
  bool offered(const std::string &n) const {
    for (int i = 1; i <= NSRV; i++)
      if (s[i].count(n)) return true;
    return false;
  }
};
static Model M;
static bool bad_setup = false;
static void setup(int w) {
  enter(w, {"vsa", "vta"});
  load(ubb_head(w, fmt("BLOCKTIME 40\nMAXSERVICES %d\nMAXSERVERS 10\n", MAXSERVICES)) +
       "*GROUPS\nG1 GRPNO=1\nG2 GRPNO=2\n*SERVERS\nvsa SRVGRP=G1 SRVID=1\nvsa SRVGRP=G2 SRVID=2\nvsa SRVGRP=G1 SRVID=3\n"
       "vta SRVGRP=G2 SRVID=4 MINDISPATCHTHREADS=3 MAXDISPATCHTHREADS=3\nvsa SRVGRP=G1 SRVID=5\n");
  boot();
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
  M = Model();
  M.start();
}
static const char *codename(long c) {
  static char b[60];
  if (c == 0) return "success";
  if (c >= 900 && c < 1100) snprintf(b, sizeof(b), "success with tperrno %ld", c - 1000);
  else snprintf(b, sizeof(b), "%s", tpstrerror(c));
  return b;
}
// tells a server to advertise (op A) or withdraw (op U); 0 or tperrno
static long control(int srv, char op, const std::string &name, int fn, int nul = 0) {
  std::string s = fmt("%c %d %d %s", op, fn, nul, name.c_str()), svc = fmt("CTL%d", srv);
  char *d = tpalloc((char *)"STRING", nullptr, s.size() + 1);
  strcpy(d, s.c_str());
  char *o = tpalloc((char *)"STRING", nullptr, 0);
  long len;
  int rc = tpcall((char *)svc.c_str(), d, 0, &o, &len, 0);
  int err = tperrno;
  long ur = tpurcode;
  tpfree(d);
  tpfree(o);
  if (rc == -1) pbt::fail("%s, which the server offers, failed: %s", svc.c_str(), tpstrerror(err));
  return ur;
}
struct Called {
  int ret, err, srvid, fn;
  std::string data;
};
static Called call(const std::string &name, uint64_t id, int delay = 0) {
  std::string s = fmt("%llu %d %d 0", (unsigned long long)id, delay, TPSUCCESS);
  char *d = tpalloc((char *)"STRING", nullptr, s.size() + 1), *o = tpalloc((char *)"STRING", nullptr, 0);
  strcpy(d, s.c_str());
  strcpy(o, "none");
  long len;
  Called r;
  r.ret = tpcall((char *)name.c_str(), d, 0, &o, &len, 0);
  r.err = r.ret == -1 ? tperrno : 0;
  r.srvid = r.fn = -2;
  unsigned long long got = 0;
  if (r.ret != -1) {
    sscanf(o, "%llu %d %d", &got, &r.fn, &r.srvid);
    r.data = o;
    if (got != id) pbt::fail("the reply to request %llu is %s", (unsigned long long)id, pbt::show(r.data).c_str());
  }
  tpfree(d);
  tpfree(o);
  return r;
}
static uint64_t serial = 0;
static void check_call(const std::string &name) {
  uint32_t n0 = sh->nrec;
  uint64_t id = ++serial;
  Called r = call(name, id);
  if (!M.offered(name)) {
    PBT_ASSERT(r.ret == -1, "call of %s, which nobody offers, was answered by server %d: %s", name.c_str(), r.srvid, pbt::show(r.data).c_str());
    PBT_ASSERT(r.err == TPENOENT || (r.err == TPEINVAL && name.size() >= XATMI_SERVICE_NAME_LENGTH), "call of %s, which nobody offers: %s", name.c_str(), tpstrerror(r.err));
    PBT_EQ((uint32_t)sh->nrec, n0, "services run");
    return;
  }
  PBT_ASSERT(r.ret != -1, "call of %s, which is offered, failed: %s", name.c_str(), tpstrerror(r.err));
  PBT_EQ((uint32_t)sh->nrec, n0 + 1, "services run");
  Rec &rec = sh->rec[n0];
  PBT_ASSERT(rec.srvid >= 1 && rec.srvid <= NSRV && rec.id == id && rec.fn == r.fn && rec.srvid == r.srvid, "call %llu of %s was recorded as %llu in server %d",
             (unsigned long long)id, name.c_str(), (unsigned long long)rec.id, rec.srvid);
  auto i = M.s[rec.srvid].find(name);
  PBT_ASSERT(i != M.s[rec.srvid].end(), "%s ran in server %d, which does not offer it", name.c_str(), rec.srvid);
  PBT_EQ(rec.fn, i->second, fmt("function for %s in server %d", name.c_str(), rec.srvid));
  PBT_EQ(std::string(rec.svc), name, "name given to the service");
}
static void withdraw_all() {
  for (int i = 1; i <= NSRV; i++) {
    Model d;
    d.start();
    std::vector<std::string> del;
    for (auto &x : M.s[i])
      if (!d.s[i].count(x.first)) del.push_back(x.first);
    for (auto &n : del) {
      long c = control(i, 'U', n, 0);
      PBT_ASSERT(c == 0, "withdrawal of %s in server %d: %s", n.c_str(), i, codename(c));
      M.s[i].erase(n);
    }
    for (auto &x : d.s[i])
      if (!M.s[i].count(x.first)) {
        long c = control(i, 'A', x.first, x.second);
        PBT_ASSERT(c == 0, "advertising %s again in server %d: %s", x.first.c_str(), i, codename(c));
        M.s[i][x.first] = x.second;
      } else if (M.s[i][x.first] != x.second) {
        PBT_ASSERT(control(i, 'U', x.first, 0) == 0 && control(i, 'A', x.first, x.second) == 0, "advertising %s again in server %d", x.first.c_str(), i);
        M.s[i][x.first] = x.second;
      }
  }
}
static const std::string &name(G &g) {
  static const std::vector<std::string> n = {"S1", "S2", "S3", "s1", "S", "TABLE", "TABLE2", "INIT1", "INIT2", std::string(XATMI_SERVICE_NAME_LENGTH - 1, 'L'), std::string(XATMI_SERVICE_NAME_LENGTH - 2, 'L'), "S1x", "A.B-C"};
  return n[g.below(g.chance(1, 3) ? n.size() : 4)];
}
static void one_op(G &g, bool many) {
  int srv = 1 + g.below(NSRV);
  std::string n = name(g);
  if (many && g.chance(1, 3)) n = fmt("M%d", (int)g.below(70));
  switch (g.below(8)) {
    case 0: case 1: case 2: {
      int fn = g.chance(1, 3) ? (int)g.below(5) : (int)(n[0] + n.size()) % 4;
      long c = control(srv, 'A', n, fn);
      g.log("server %d advertises %s as %d: %s", srv, n.size() > 30 ? fmt("L%zu", n.size()).c_str() : n.c_str(), fn, codename(c));
      auto i = M.s[srv].find(n);
      if (i != M.s[srv].end()) {
        if (i->second == fn)
          PBT_ASSERT(c == 0, "advertising the same function again: %s", codename(c));
        else
          PBT_ASSERT(c == TPEMATCH, "advertising another function for an active name: %s", codename(c));
      } else if (c == TPELIMIT) {
        PBT_ASSERT(!M.ever.count(n) && M.ever.size() >= MAXSERVICES, "advertising %s in server %d: no room, with %zu of %d names", n.c_str(), srv, M.ever.size(), MAXSERVICES);
        g.label("full");
      } else {
        PBT_ASSERT(c == 0, "advertising %s in server %d: %s", n.c_str(), srv, codename(c));
        M.s[srv][n] = fn;
        M.ever.insert(n);
        g.label("advertised");
      }
      break;
    }
    case 3: case 4: {
      long c = control(srv, 'U', n, 0);
      g.log("server %d withdraws %s: %s", srv, n.size() > 30 ? fmt("L%zu", n.size()).c_str() : n.c_str(), codename(c));
      if (M.s[srv].erase(n))
        PBT_ASSERT(c == 0, "withdrawal: %s", codename(c));
      else
        PBT_ASSERT(c == TPENOENT, "withdrawal of a name that is not advertised: %s", codename(c));
      break;
    }
    case 5: {
      if (!g.chance(1, 4)) {
        check_call(n);
        break;
      }
      int kind = g.below(5);
      long c;
      switch (kind) {
        case 0: c = control(srv, 'A', "x", 0, 1); break;
        case 1: c = control(srv, 'A', "x", 0, 2); break;
        case 2: c = control(srv, 'A', std::string(128 + g.below(200), 'V'), 0); break;
        case 3: c = control(srv, 'A', "NOFUNCTION", -1); break;
        default: c = control(srv, 'U', "x", 0, 1 + g.below(2)); break;
      }
      g.log("server %d, invalid argument %d: %s", srv, kind, codename(c));
      PBT_ASSERT(c == TPEINVAL, "invalid argument (kind %d): %s", kind, codename(c));
      break;
    }
    default:
      g.log("call of %s", n.size() > 30 ? fmt("L%zu", n.size()).c_str() : n.c_str());
      check_call(n);
  }
}
static void run(G &g, bool many) {
  reset();
  withdraw_all();
  size_t ops = 3 + g.below(g.chance(1, 4) ? 120 : 30);
  for (size_t i = 0; i < ops; i++) one_op(g, many);
  std::set<std::string> names;
  for (int i = 1; i <= NSRV; i++)
    for (auto &x : M.s[i]) names.insert(x.first);
  for (auto n : {"S1", "S2", "S3", "s1", "M1", "NOFUNCTION"}) names.insert(n);
  int several = 0;
  for (auto &n : names) {
    int c = 0;
    for (int i = 1; i <= NSRV; i++) c += M.s[i].count(n);
    if (c > 1 && n != "TABLE") several++;
    if (n.compare(0, 3, "CTL") == 0) continue;
    for (int k = 0; k < std::max(1, c); k++) check_call(n);
  }
  if (several) g.label("offered by several servers");
  g.nontrivial(several > 0);
}
static void histories(G &g) { run(g, false); }
static void capacity(G &g) {
  run(g, true);
}
// calls while the service comes and goes
static void churn(G &g) {
  reset();
  withdraw_all();
  struct Toggle {
    double t0, t1;
    int srv, fn;
    bool on;
  };
  std::vector<Toggle> log;
  std::mutex mx;
  size_t n = 4 + g.below(30);
  std::vector<int> plan_srv, plan_fn, nap;
  for (size_t i = 0; i < n; i++) {
    plan_srv.push_back(1 + g.below(NSRV));
    plan_fn.push_back(g.below(5));
    nap.push_back(g.chance(1, 3) ? g.below(1500) : 0);
  }
  int keep = g.flip() ? 1 + (int)g.below(NSRV) : 0;
  int callers = 1 + g.below(4), calls = 5 + g.below(40);
  std::atomic<bool> stop{false};
  std::atomic<int> ok{0}, noent{0};
  std::string err;
  if (keep) {
    double a = pbt::now();
    PBT_ASSERT(control(keep, 'A', "S1", 1) == 0, "advertise");
    M.s[keep]["S1"] = 1;
    M.ever.insert("S1");
    log.push_back({a, pbt::now(), keep, 1, true});
  }
  struct Res {
    double t0, t1;
    Called c;
  };
  std::vector<Res> results;
  auto caller = [&](int t) {
    try {
      for (int i = 0; i < calls && !stop; i++) {
        Res r;
        r.t0 = pbt::now();
        r.c = call("S1", ((uint64_t)(t + 1) << 32) + (++serial), 0);
        r.t1 = pbt::now();
        std::lock_guard<std::mutex> l(mx);
        results.push_back(r);
      }
    } catch (pbt::Fail &f) {
      std::lock_guard<std::mutex> l(mx);
      err = f.msg;
    }
    tpterm();
  };
  std::vector<std::thread> th;
  serial += 1000;
  for (int t = 0; t < callers; t++) th.emplace_back(caller, t);
  try {
    for (size_t i = 0; i < n; i++) {
      int s = plan_srv[i];
      if (s == keep) continue;
      bool on = !M.s[s].count("S1");
      double a = pbt::now();
      long c = control(s, on ? 'A' : 'U', "S1", plan_fn[i]);
      double b = pbt::now();
      if (c != 0) pbt::fail("server %d %s S1: %s", s, on ? "advertises" : "withdraws", codename(c));
      log.push_back({a, b, s, on ? plan_fn[i] : -1, on});
      if (on)
        M.s[s]["S1"] = plan_fn[i];
      else
        M.s[s].erase("S1");
      M.ever.insert("S1");
      if (nap[i]) usleep(nap[i]);
    }
  } catch (pbt::Fail &f) {
    stop = true;
    for (auto &t : th) t.join();
    throw;
  }
  for (auto &t : th) t.join();
  if (!err.empty()) pbt::fail("%s", err.c_str());
  for (auto &r : results) {
    if (r.c.ret != -1) {
      // the server offered this function at some moment of the call
      bool possible = false;
      for (size_t i = 0; i < log.size() && !possible; i++) {
        if (log[i].srv != r.c.srvid || !log[i].on || log[i].fn != r.c.fn || log[i].t0 > r.t1) continue;
        double end = 1e18;
        for (size_t j = i + 1; j < log.size(); j++)
          if (log[j].srv == r.c.srvid) {
            end = log[j].t1;
            break;
          }
        possible = end >= r.t0;
      }
      PBT_ASSERT(possible, "S1 ran function %d in server %d, which did not offer it during the call", r.c.fn, r.c.srvid);
      ok++;
    } else {
      PBT_ASSERT(r.c.err == TPENOENT, "call failed: %s", tpstrerror(r.c.err));
      // refused only if nobody offered it for a moment, or a server withdrew it meanwhile
      bool possible = false;
      for (auto &t : log)
        if (!t.on && t.t0 <= r.t1 && t.t1 >= r.t0) possible = true;
      if (!possible) {
        std::set<int> on;
        for (auto &t : log) {
          if (t.t1 >= r.t0) break;
          if (t.on)
            on.insert(t.srv);
          else
            on.erase(t.srv);
        }
        possible = on.empty();
      }
      PBT_ASSERT(possible, "S1 was refused although it was offered all the time");
      noent++;
    }
  }
  check_call("S1");
  g.log("%d callers, %d answered, %d refused", callers, (int)ok, (int)noent);
  if (ok && noent) g.label("answered and refused");
  g.nontrivial(ok > 0);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X04";
  c.rule =
      "histories, capacity: random histories of advertising, withdrawing and calling over 5 servers (one with threads), also beyond the number of services "
      "there is room for; churn: concurrent calls while servers advertise and withdraw. Non-trivial: a service offered by several servers; an answered call.";
  c.subs = {{"histories", histories, 6000, 120000, 250}, {"capacity", capacity, 600, 12000, 30}, {"churn", churn, 1200, 24000, 60}};
  c.assumptions = {"Servers that share a queue offer the same services (as the documentation of such servers requires)."};
  c.setup = setup;
  common(c, 64360);
  c.repro_n = 6;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
