// X03: the outcome chosen by a service is what the caller sees.
#include "e2egen.hpp"
using namespace e2e;

static const int NSRV = 4;
static void prepare() {
  server_services = {{fmt("P%d", g_srvid), plan<0>}, {fmt("ALSO%d", g_srvid), plan<1>}};
}
static void setup(int w) {
  enter(w, {"vsa"});
  std::string u = ubb_head(w, "BLOCKTIME 40\n") + "*GROUPS\nG1 GRPNO=1\n*SERVERS\n";
  for (int i = 0; i < NSRV; i++) u += fmt("vsa SRVGRP=G1 SRVID=%d\n", i + 1);
  load(u);
  boot();
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
}
static Val small(G &g) {
  Val v;
  switch (g.below(4)) {
    case 0: break;
    case 1:
      v.type = "STRING";
      v.bytes = contents(g, g.below(40), true);
      break;
    case 2:
      v.type = "CARRAY";
      v.bytes = contents(g, g.chance(1, 10) ? g.below(9000) : g.below(40), false);
      break;
    default: v = g.chance(1, 3) ? value(g) : Val();
  }
  return v;
}
static std::string name(G &g, int server) { return fmt("%s%d", g.flip() ? "P" : "ALSO", server); }
static std::string missing(G &g) {
  static const char *n[] = {"NONE", "", "P", "P5", "p1", "ALSO", "P1 ", "X"};
  return g.chance(1, 4) ? std::string(g.below(300), 'N') : g.pick(n);
}
// what the caller of node k sees
struct Want {
  std::set<int> err;  // 0: success
  int from = -1;      // the node that returned, or none
};
struct Plan {
  uint32_t n = 0;
  std::vector<std::string> svc;
  std::vector<std::vector<Want>> nested;
  std::set<std::string> kinds;
  Want gen(G &g, const std::string &s, int server, int depth) {
    int k = n++;
    svc.push_back(s);
    nested.push_back({});
    Node &x = sh->nodes[k];
    if (server < NSRV && depth < 2 && n < 18 && g.chance(1, 5)) {
      int nc = 1 + g.below(2);
      x.ncalls = nc;
      for (int c = 0; c < nc; c++) {
        Call &y = x.calls[c];
        y.in = put(small(g));
        y.out0 = put(receiver(g));
        Want w;
        std::string cs;
        if (g.chance(1, 6)) {
          cs = missing(g);
          w.err = {TPENOENT};
          if (cs.size() > 127) w.err.insert(TPEINVAL);
          if (cs.empty()) w.err.insert(TPEINVAL);
          kinds.insert("nested call of a missing service");
        } else {
          int t = server + 1 + g.below(NSRV - server);
          cs = name(g, t);
          if (cs.size() < 120) w = gen(g, cs, t, depth + 1);
        }
        snprintf(y.svc, sizeof(y.svc), "%s", cs.c_str());
        nested[k].push_back(w);
      }
    }
    Want w;
    if (n < 20 && g.chance(1, 3)) {
      x.end = FORWARD;
      x.out = put(small(g));
      if (g.chance(1, 6)) {
        std::string m = missing(g).substr(0, 120);
        snprintf(x.fsvc, sizeof(x.fsvc), "%s", m.c_str());
        w.err = {TPESVCERR};
        kinds.insert("forwarded to a missing service");
        return w;
      }
      int t = server + g.below(NSRV - server + 1);
      std::string f = name(g, t);
      snprintf(x.fsvc, sizeof(x.fsvc), "%s", f.c_str());
      kinds.insert("forwarded");
      return gen(g, f, t, depth);
    }
    x.out = put(small(g));
    x.end = RETURN;
    switch (g.below(4)) {
      case 0: x.rcode = 0; break;
      case 1: x.rcode = g.range(-100, 100); break;
      default: x.rcode = (long)g.u64();
    }
    w.from = k;
    switch (g.below(8)) {
      case 0: case 1: case 2: x.rval = TPSUCCESS; w.err = {0}; break;
      case 3: case 4: x.rval = TPFAIL; w.err = {TPESVCFAIL}; kinds.insert("failed"); break;
      case 5:
        x.rval = g.flip() ? TPEXIT : (int)g.u64();
        if (x.rval == TPSUCCESS || x.rval == TPFAIL) x.rval = TPEXIT;
        w.err = {TPESVCERR};
        if (x.rval == TPEXIT) w.err.insert(TPESVCFAIL);
        w.from = -1;
        kinds.insert("another result");
        break;
      case 6:
        x.rval = g.flip() ? TPSUCCESS : TPFAIL;
        x.rflags = g.flip() ? 1L << g.below(20) : (long)g.u64() | 1;
        w.err = {TPESVCERR};
        w.from = -1;
        kinds.insert("flags");
        break;
      default:
        x.end = FALLOFF;
        w.err = {TPESVCERR};
        w.from = -1;
        kinds.insert("no return");
    }
    return w;
  }
};
static void check(const std::string &what, const Want &w, int ret, int err, long ur, long olen, const Val &out) {
  int code = ret == 0 ? 0 : err;
  std::string exp;
  for (int e : w.err) exp += (exp.empty() ? "" : " or ") + std::string(e ? tpstrerror(e) : "success");
  PBT_ASSERT((ret == 0 || ret == -1) && w.err.count(code), "%s: result %d %s, expected %s", what.c_str(), ret, ret ? tpstrerror(err) : "", exp.c_str());
  if (w.from < 0) return;
  Node &f = sh->nodes[w.from];
  PBT_EQ(ur, f.rcode, what + ": user code");
  Val v = get(f.out);
  if (v.type.empty()) return;
  PBT_ASSERT(out == v, "%s: received %s, but the service returned %s", what.c_str(), out.str().c_str(), v.str().c_str());
  PBT_EQ(olen, f.outlen, what + ": length of the reply");
}
static void outcomes(G &g) {
  size_t nc = 1 + g.below(4);
  bool any = false;
  for (size_t c = 0; c < nc; c++) {
    reset();
    Plan p;
    Want w;
    int server = 1 + g.below(NSRV);
    std::string s = name(g, server);
    if (g.chance(1, 8)) {
      s = missing(g);
      w.err = {TPENOENT};
      if (s.empty() || s.size() > 127) w.err.insert(TPEINVAL);
      p.kinds.insert("missing service");
    } else
      w = p.gen(g, s, server, 0);
    sh->nnodes = p.n;
    Val in = small(g), o = receiver(g);
    long len, ign, olen = -5;
    char *idata = build(in, len), *out = build(o, ign);
    tpurcode = -99;
    int ret, err;
    bool async = g.chance(1, 3);
    double t0 = pbt::now();
    if (async) {
      int cd = tpacall((char *)s.c_str(), idata, len, 0);
      if (cd == -1)
        ret = -1, err = tperrno;
      else {
        ret = tpgetrply(&cd, &out, &olen, 0);
        err = tperrno;
      }
    } else {
      ret = tpcall((char *)s.c_str(), idata, len, &out, &olen, 0);
      err = tperrno;
    }
    double dt = pbt::now() - t0;
    long ur = tpurcode;
    g.log("%s %s: %d %s, %u invocations", async ? "tpacall" : "tpcall", pbt::show(s).c_str(), ret, ret == -1 ? tpstrerror(err) : "", p.n);
    if (w.err.count(TPENOENT)) PBT_ASSERT(dt < 15, "it took %.0f s to refuse a call of a missing service", dt);
    PBT_EQ((uint32_t)sh->next, p.n, "number of invocations");
    for (uint32_t k = 0; k < p.n; k++) {
      Node &n = sh->nodes[k];
      PBT_ASSERT(n.seen && p.svc[k] == n.svc, "invocation %u is of %s, not of %s", k, n.svc, p.svc[k].c_str());
      PBT_EQ(n.fn, n.svc[0] == 'A' ? 1 : 0, "function of the service");
      for (int i = 0; i < n.ncalls; i++) {
        Call &y = n.calls[i];
        std::string what = fmt("invocation %u, nested call %d of %s", k, i, pbt::show(y.svc).c_str());
        PBT_ASSERT(y.done, "%s did not finish", what.c_str());
        check(what, p.nested[k][i], y.ret, y.err, y.ur, y.olen, get(y.out));
      }
    }
    check("the call", w, ret, err, ur, olen, value_of(out, olen));
    if (ret == 0) PBT_EQ(err, 0, "tperrno after success");
    if (idata) tpfree(idata);
    if (out) tpfree(out);
    for (auto &k : p.kinds) g.label(k);
    if (!p.kinds.empty()) any = true;
  }
  g.nontrivial(any);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X03";
  c.rule =
      "outcomes: sequences of calls in a real domain of 4 servers, whose services return, fail, forward, call others or do not return as planned. "
      "Non-trivial: a failure, a missing service or a forwarded request.";
  c.subs = {{"outcomes", outcomes, 12000, 250000, 500}};
  c.assumptions = {"TPEXIT may be reported as TPESVCERR or TPESVCFAIL; user code and data of calls that end with TPESVCERR are not promised."};
  c.setup = setup;
  common(c, 64320);
  return pbt::main(argc, argv, c);
}
