// X01: a service call delivers request and reply data unchanged.
#include "e2egen.hpp"
using namespace e2e;

static const int NSRV = 4;
static void prepare() {
  server_services = {{fmt("P%d", g_srvid), plan<0>}};
}
static void setup(int w) {
  enter(w, {"vsa"});
  std::string u = ubb_head(w, "BLOCKTIME 40\n") + "*GROUPS\nG1 GRPNO=1\n*SERVERS\n";
  for (int i = 0; i < NSRV; i++) u += fmt("vsa SRVGRP=G1 SRVID=%d\n", i + 1);
  load(u);
  boot();
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
}

struct Plan {
  uint32_t n = 0;
  std::vector<Val> request;  // what invocation k must see
  std::vector<std::string> svc;
  std::vector<std::vector<int>> kid_of_call;      // first node of the nested calls
  std::vector<int> finisher;                      // of the request that began at node k: who returns
  // returns the index of the node
  int gen(G &g, const Val &in, int server, int depth) {
    int k = n++;
    request.push_back(in);
    svc.push_back(fmt("P%d", server));
    kid_of_call.push_back({});
    finisher.push_back(k);
    Node &x = sh->nodes[k];
    if (server < NSRV && depth < 2 && g.chance(1, 4)) {
      x.ncalls = 1 + g.below(2);
      for (int c = 0; c < x.ncalls; c++) {
        Val cin = value(g), out0 = receiver(g);
        Call &y = x.calls[c];
        int s = server + 1 + g.below(NSRV - server);
        snprintf(y.svc, sizeof(y.svc), "P%d", s);
        y.in = put(cin);
        y.out0 = put(out0);
        y.flags = g.chance(1, 4) ? TPNOTIME : 0;
        int kid = gen(g, cin, s, depth + 1);
        kid_of_call[k].push_back(kid);
      }
    }
    if (n < 14 && g.chance(1, 4)) {
      x.end = FORWARD;
      Val out = value(g);
      x.out = put(out);
      int s = server + g.below(NSRV - server + 1);
      snprintf(x.fsvc, sizeof(x.fsvc), "P%d", s);
      int nx = gen(g, out, s, depth);
      finisher[k] = finisher[nx];
      return k;
    }
    x.rval = g.chance(1, 4) ? TPFAIL : TPSUCCESS;
    x.rcode = g.chance(1, 3) ? (long)g.below(1000) : 0;
    if (g.chance(1, 4) && !in.type.empty()) {
      x.end = ECHO;
      // the service returns the buffer it was given
      x.out = put(in);
    } else {
      x.end = RETURN;
      x.out = put(value(g));
    }
    return k;
  }
};
static void check_reply(const char *what, int fin, const Val &out0, int ret, int err, long olen, const Val &out, long ur) {
  Node &f = sh->nodes[fin];
  Val want = get(f.out);
  if (f.rval == TPSUCCESS)
    PBT_ASSERT(ret == 0, "%s failed: %s", what, tpstrerror(err));
  else
    PBT_ASSERT(ret == -1 && err == TPESVCFAIL, "%s: result %d, error %s, but the service failed", what, ret, tpstrerror(err));
  PBT_EQ(ur, f.rcode, fmt("%s: user code", what));
  if (want.type.empty()) {
    PBT_EQ(olen, 0L, fmt("%s: length of a reply without data", what));
    return;
  }
  PBT_ASSERT(out == want, "%s: received %s, but the service returned %s", what, out.str().c_str(), want.str().c_str());
  PBT_EQ(olen, f.outlen, fmt("%s: length of the reply", what));
}

static void calls(G &g) {
  size_t ncalls = 1 + g.below(3);
  long cap = 2;
  char *out = nullptr;
  Val held;
  bool big = false, deep = false;
  for (size_t c = 0; c < ncalls; c++) {
    reset();
    Plan p;
    Val in = value(g);
    int server = 1 + g.below(2);
    p.gen(g, in, server, 0);
    sh->nnodes = p.n;
    if (!out || g.flip()) {
      if (out) tpfree(out);
      held = receiver(g);
      long ign;
      out = build(held, ign, g.chance(1, 6) ? g.below(5000) : 0);
      if (!out) pbt::fail("tpalloc: %s", tpstrerror(tperrno));
    }
    long len, olen = -5;
    char *idata = build(in, len, g.chance(1, 6) ? g.below(5000) : 0);
    bool same = false;
    if (idata && g.chance(1, 6)) {  // one buffer for both
      tpfree(out);
      out = idata;
      held = in;
      same = true;
    }
    long flags = g.chance(1, 4) ? TPNOTIME : 0;
    bool async = g.chance(1, 4);
    g.log("%s %s with %s into %s, %u invocations", async ? "tpacall" : "tpcall", p.svc[0].c_str(), in.str().c_str(), held.str().c_str(), p.n);
    int ret, err;
    tpurcode = -99;
    std::string svc = p.svc[0];
    if (async) {
      int cd = tpacall((char *)svc.c_str(), idata, len, flags);
      PBT_ASSERT(cd > 0, "tpacall failed: %s", tpstrerror(tperrno));
      if (idata && !same) {  // the request no longer depends on the buffer
        if (in.type != "FML32" && in.bytes.size()) memset(idata, '?', in.bytes.size());
        tpfree(idata);
        idata = nullptr;
      }
      ret = tpgetrply(&cd, &out, &olen, flags);
    } else
      ret = tpcall((char *)svc.c_str(), idata, len, &out, &olen, flags);
    err = ret == -1 ? tperrno : 0;
    long ur = tpurcode;
    for (uint32_t k = 0; k < p.n; k++) {
      Node &n = sh->nodes[k];
      std::string what = fmt("invocation %u, service %s", k, p.svc[k].c_str());
      PBT_ASSERT(n.seen, "%s did not happen; the call returned %d %s", what.c_str(), ret, tpstrerror(err));
      PBT_EQ(std::string(n.svc), p.svc[k], what + ": name");
      Val got = get(n.got);
      PBT_ASSERT(got == p.request[k], "%s: received %s, sent %s", what.c_str(), got.str().c_str(), p.request[k].str().c_str());
      if (p.request[k].type != "FML32")
        PBT_EQ(n.len, length_of(p.request[k], nullptr), what + ": length");
      else
        PBT_ASSERT(n.len > 0, "%s: length %ld differs from what the buffer uses", what.c_str(), n.len);
      PBT_EQ(n.flags & ~(long)(TPCONV | TPSENDONLY | TPRECVONLY), 0l, what + ": flags of the request, which expects a reply and is outside of a transaction");
      for (int i = 0; i < n.ncalls; i++) {
        Call &y = n.calls[i];
        std::string w2 = what + fmt(", nested call %d", i);
        PBT_ASSERT(y.done, "%s did not finish", w2.c_str());
        check_reply(w2.c_str(), p.finisher[p.kid_of_call[k][i]], get(y.out0), y.ret, y.err, y.olen, get(y.out), y.ur);
      }
      for (auto &v : {p.request[k], get(n.out)}) {
        size_t s = v.bytes.size();
        for (auto &f : v.f) s += f.v.size();
        if (s > 3800) big = true;
      }
    }
    PBT_EQ((uint32_t)sh->next, p.n, "number of invocations");
    Val res = value_of(out, olen);
    check_reply("the call", p.finisher[0], held, ret, err, olen, res, ur);
    if (res.type == "FML32" && get(sh->nodes[p.finisher[0]].out).type == "FML32") PBT_EQ(olen, (long)Fused32((FBFR32 *)out), "length of the reply and of the buffer");
    held = res;
    if (idata && !same) {
      Val still = value_of(idata, len);
      PBT_ASSERT(still == in, "the call changed the request buffer to %s", still.str().c_str());
      tpfree(idata);
    }
    if (p.n > 1) deep = true;
  }
  if (out) tpfree(out);
  if (big) g.label("through files");
  if (deep) g.label("nested or forwarded");
  g.nontrivial(big || deep);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X01";
  c.rule =
      "calls: sequences of calls in a real domain of 4 servers, with requests, replies, forwarded requests and nested calls of all buffer types and sizes. "
      "Non-trivial: some data larger than a message, or a nested or forwarded call.";
  c.subs = {{"calls", calls, 12000, 250000, 500}};
  c.setup = setup;
  common(c, 64300);
  return pbt::main(argc, argv, c);
}
