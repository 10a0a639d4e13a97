// T03: a global transaction ends the same way in every group that took part.
#include <mib.h>
#include <trx.h>
#include "e2egen.hpp"
using namespace e2e;

// Server k belongs to group GROUP[k]; requests only go to servers with higher
// numbers, so that nobody waits for somebody who waits.
static const int NSRV = 9;
static const int GROUP[NSRV + 1] = {0, 1, 2, 3, 4, 1, 2, 3, 1, 2};
static const char *BIN[NSRV + 1] = {"", "vxa", "vxa", "vxa", "vsn", "vxt", "vxa", "vxa", "vxa", "vxt"};
static const int NULLGROUP = 4;  // has no resource manager

enum Op { CALL, ACALL, GET, BEGIN, COMMIT, ABORT, SUSPEND, RESUME, FAULT };
struct TOp {
  int op, child, server, cdslot;
  long flags;
  int fn, code;  // FAULT
  // recorded
  bool done;
  int ret, err;
  long lev;  // tpgetlev afterwards
  char xid[300];
};
struct TNode {
  int n;
  TOp ops[24];
  int end, rval, child, server;  // FORWARD
  // recorded
  std::atomic<int> seen;
  int srvid, grpno;
  long flags;
  char xid0[300], xid1[300];
  bool done;
};
constexpr int MAXN = 40;
struct Plan {
  TNode n[MAXN];
};
static Plan *plan_() { return (Plan *)(((uintptr_t)sh->arena + 63) / 64 * 64); }
static void now(char *to) {
  TXINFO i;
  i.xid.formatID = -1;
  int rc = tx_info(&i);
  snprintf(to, 300, "%s", rc == 1 ? xarm::xs(i.xid).c_str() : rc == 0 ? "" : "?");
}
static void request(int child, char *b) { sprintf(b, "%d", child); }
static void node(TPSVCINFO *s) {
  int k = s->data ? atoi(s->data) : -1;
  if (k < 0 || k >= MAXN) return tpreturn(TPFAIL, 0, nullptr, 0, 0);
  TNode &n = plan_()->n[k];
  n.seen++;
  n.srvid = g_srvid;
  n.grpno = g_grpno;
  n.flags = s->flags;
  now(n.xid0);
  int cds[16];
  memset(cds, 0, sizeof(cds));
  TPTRANID id;
  char *in = tpalloc((char *)"STRING", nullptr, 32), *out = tpalloc((char *)"STRING", nullptr, 32);
  for (int i = 0; i < n.n; i++) {
    TOp &o = n.ops[i];
    long l;
    char svc[16];
    snprintf(svc, sizeof(svc), "T%d", o.server);
    tperrno = 0;
    switch (o.op) {
      case CALL:
        request(o.child, in);
        o.ret = tpcall(svc, in, 0, &out, &l, o.flags);
        if (i > 0 && n.ops[i - 1].op == FAULT) {
          int err = tperrno;
          xarm::Lock lk;
          memset(xarm::sh->fault, 0, sizeof(xarm::sh->fault));
          tperrno = err;
        }
        break;
      case ACALL:
        request(o.child, in);
        o.ret = cds[o.cdslot] = tpacall(svc, in, 0, o.flags);
        if (o.ret > 0) o.ret = 0;
        break;
      case GET:
        o.ret = tpgetrply(&cds[o.cdslot], &out, &l, 0);
        break;
      case BEGIN: o.ret = tpbegin(0, 0); break;
      case COMMIT: o.ret = tpcommit(0); break;
      case ABORT: o.ret = tpabort(0); break;
      case SUSPEND: o.ret = tpsuspend(&id, 0); break;
      case RESUME: o.ret = tpresume(&id, 0); break;
      case FAULT: {
        xarm::Lock lk;
        xarm::sh->fault_rm = GROUP[o.server];
        for (int f = 0; f < (o.fn == xarm::START ? 3 : 1); f++) xarm::sh->fault[o.fn][f] = o.code;
        break;
      }
    }
    o.err = o.ret == -1 ? tperrno : 0;
    o.lev = tpgetlev();
    now(o.xid);
    o.done = true;
  }
  now(n.xid1);
  tpfree(in);
  n.done = true;
  if (n.end == FALLOFF) return;
  request(n.child, out);
  if (n.end == FORWARD) {
    char svc[16];
    snprintf(svc, sizeof(svc), "T%d", n.server);
    tpforward(svc, out, 0, 0);
  } else
    tpreturn(n.rval, 0, out, 0, 0);
}
static void prepare() { server_services = {{fmt("T%d", g_srvid % 100), node}}; }

static xarm::Checker *checker;
static void setup(int w) {
  enter(w, {"vxa", "vxt", "vsn", "vm"});
  std::string u = ubb_head(w, "BLOCKTIME 40\nMAXGROUPS 4\nMAXSERVERS 60\nMAXACCESSERS 150\n") + "*GROUPS\n";
  // the tables are just large enough, and the last entry matters
  u += fmt("G4 GRPNO=%d TMSNAME=TMS TMSCOUNT=2\n", NULLGROUP);
  for (int i = 1; i <= 3; i++) u += fmt("G%d GRPNO=%d TMSNAME=vm TMSCOUNT=2 OPENINFO=\"VX:db%d\" CLOSEINFO=\"VX:db%d\"\n", i, i, i, i);
  u += "*SERVERS\n";
  for (int i = 1; i <= NSRV; i++) {
    bool t = std::string(BIN[i]) == "vxt";
    u += fmt("%s SRVGRP=G%d SRVID=%d RQADDR=q%d%s", BIN[i], GROUP[i], i, i, t ? " MINDISPATCHTHREADS=3 MAXDISPATCHTHREADS=3\n" : "\n");
    if (!t) u += fmt("%s SRVGRP=G%d SRVID=%d RQADDR=q%d\n", BIN[i], GROUP[i], i + 100, i);
  }
  load(u);
  xarm::sh->strict = 1;
  boot();
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
  checker = new xarm::Checker();
  checker->lenient = true;
  checker->run();
}

// ---- what must happen
struct MTx {
  std::string xid;       // as it was at its beginning
  std::set<int> groups;  // resource managers that take part
  bool doomed = false, maybe = false;  // maybe: may also be rolled back
  int outcome = -1;      // 1 committed, 0 rolled back
  int begun_node = -1, begun_op = -1, end_op = -1;
  int parts = 0;
};
struct Gen {
  G &g;
  int votes[5];
  bool faults = false;  // one request at a time, so that failures can be planned
  int n = 0;
  std::vector<MTx> tx;
  std::vector<int> node_tx;            // transaction each node is called in, or -1
  std::vector<std::vector<int>> op_tx;  // after each operation
  std::vector<std::vector<std::set<int>>> want;  // error codes allowed for each operation (0: success)
  std::vector<bool> runs;
  std::vector<int> end_tx;  // transaction in force when the service ends
  std::set<std::string> kinds;
  Gen(G &g) : g(g) {}
  int fresh(int intx, int server) {
    int k = n++;
    node_tx.push_back(intx);
    op_tx.emplace_back();
    want.emplace_back();
    runs.push_back(true);
    end_tx.push_back(intx);
    server_of[k] = server;
    if (intx >= 0 && GROUP[server] != NULLGROUP) tx[intx].groups.insert(GROUP[server]);
    if (intx >= 0) tx[intx].parts++;
    return k;
  }
  bool room() { return n < MAXN - 12; }
  TOp &op(int k, int kind) {
    TNode &x = plan_()->n[k];
    if (x.n >= 24) abort();
    TOp &o = x.ops[x.n++];
    memset((void *)&o, 0, sizeof(o));
    o.op = kind;
    return o;
  }
  void expect(int k, std::set<int> w, int cur) {
    want[k].push_back(w);
    op_tx[k].push_back(cur);
  }
  // the body of a service at a server; true: the caller sees success
  bool body(int k, int server, int intx, int depth, bool plain = false) {
    TNode &x = plan_()->n[k];
    int cur = intx;        // transaction in force
    bool own = false;      // begun here
    int suspended = -1;
    struct Out {
      int slot, child, tx;
      bool ok;
      std::set<int> w;
    };
    std::vector<Out> out;
    int slots = 0;
    int nops = plain ? 0 : g.below(depth == 0 ? 8 : 4);
    if (depth == 0 && !plain) {
      op(k, BEGIN);
      cur = begin(k);
      own = true;
      expect(k, {0}, cur);
    }
    auto finish = [&](bool commit) {  // of the own transaction
      auto &t = tx[cur];
      op(k, commit ? COMMIT : ABORT);
      for (auto &o : out)
        if (o.tx == cur) {
          if (!commit) kinds.insert("rolled back with replies outstanding");
          t.doomed = true;
        }
      int me = cur;
      // replies of this transaction are gone
      out.erase(std::remove_if(out.begin(), out.end(), [&](const Out &o) { return o.tx == me; }), out.end());
      bool refused = false;
      for (int gr : t.groups)
        if (votes[gr] != XA_OK && votes[gr] != XA_RDONLY) refused = true;
      bool ok = commit && !t.doomed && !refused;
      t.outcome = ok;
      t.end_op = x.n - 1;
      if (t.groups.size() > 1) kinds.insert(ok ? "committed in several groups" : "rolled back in several groups");
      if (commit && t.doomed) kinds.insert("commit of failed work");
      if (commit && !t.doomed && refused) kinds.insert("refusal to prepare");
      std::set<int> w = {commit && !ok ? TPEABORT : 0};
      if (commit && ok && t.maybe) w.insert(TPEABORT), t.outcome = 2;
      own = false;
      cur = -1;
      expect(k, w, -1);
    };
    for (int i = 0; i < nops; i++) {
      if (x.n > 9) break;
      bool down = server < NSRV && room();
      switch (g.weighted({6, 4, 3, 2, 2, 1, 1, 1, 1})) {
        case 0: {  // call
          if (!down) break;
          int t = target(server);
          bool notran = g.chance(1, 4);
          int ctx = notran ? -1 : cur;
          int fault = 0, code = 0;
          if (faults && ctx >= 0 && GROUP[t] != NULLGROUP && g.chance(1, 8)) fault = xarm::START;
          if (fault) {
            code = g.pick({XAER_RMERR, XAER_RMFAIL, XAER_PROTO, XAER_DUPID});
            TOp &f = op(k, FAULT);
            f.fn = fault;
            f.code = code;
            f.server = t;
            expect(k, {0}, cur);
            kinds.insert("a group could not join");
          }
          TOp &o = op(k, CALL);
          o.server = t;
          o.flags = notran ? TPNOTRAN : 0;
          if (fault) {
            std::set<int> before = tx[ctx].groups;
            int c = fresh(ctx, t);
            tx[ctx].groups = before;
            plan_()->n[c].end = RETURN;
            o.child = c;
            runs[c] = false;
            tx[ctx].doomed = true;
            expect(k, {TPESVCERR}, cur);
            break;
          }
          int c = fresh(ctx, t);
          o.child = c;
          bool ok = body(c, t, ctx, depth + 1);
          if (!ok && ctx >= 0) tx[ctx].doomed = true;
          if (notran && cur >= 0) kinds.insert("call outside the transaction");
          expect(k, ok ? std::set<int>{0} : std::set<int>{TPESVCFAIL, TPESVCERR}, cur);
          break;
        }
        case 1: {  // asynchronous call
          if (!down || slots > 4 || faults) break;
          int t = target(server);
          bool notran = g.chance(1, 4);
          int ctx = notran ? -1 : cur;
          TOp &o = op(k, ACALL);
          o.server = t;
          o.flags = notran ? TPNOTRAN : 0;
          o.cdslot = slots++;
          int slot = o.cdslot;
          int c = fresh(ctx, t);
          o.child = c;
          expect(k, {0}, cur);
          bool ok = body(c, t, ctx, depth + 1);
          if (!ok && ctx >= 0) late_doom(ctx);
          out.push_back({slot, c, ctx, ok, ok ? std::set<int>{0} : std::set<int>{TPESVCFAIL, TPESVCERR}});
          kinds.insert("asynchronous call");
          break;
        }
        case 2:  // collect
          if (out.empty()) break;
          collect(k, out, g.below(out.size()), cur);
          break;
        case 3:
          if (cur == -1 && intx == -1) {
            op(k, BEGIN);
            cur = begin(k);
            own = true;
            expect(k, {0}, cur);
          } else if (cur != -1) {
            op(k, BEGIN);
            expect(k, {TPEPROTO}, cur);
            kinds.insert("begin in a transaction");
          }
          break;
        case 4:
          if (own && cur != -1) finish(g.chance(2, 3));
          else if (cur != -1 && g.chance(1, 2)) {
            op(k, g.flip() ? COMMIT : ABORT);
            expect(k, {TPEPROTO}, cur);
            kinds.insert("participant cannot end it");
          }
          break;
        case 5:
          if (own && cur != -1 && suspended == -1 && out.empty()) {
            op(k, SUSPEND);
            suspended = cur;
            cur = -1;
            expect(k, {0}, -1);
            kinds.insert("suspended");
          } else if (suspended != -1 && cur == -1 && out.empty()) {
            op(k, RESUME);
            cur = suspended;
            own = true;
            suspended = -1;
            expect(k, {0}, cur);
          }
          break;
        case 6: {  // a service that is not there
          TOp &o = op(k, CALL);
          o.server = 77;
          if (cur >= 0) tx[cur].maybe = true;
          expect(k, {TPENOENT}, cur);
          break;
        }
        default: break;
      }
    }
    // everything is collected, but for a transaction that is ended here
    bool leave = own && cur != -1 && g.chance(1, 3);
    if (!leave)
      while (!out.empty()) collect(k, out, 0, cur);
    else {
      for (int i = (int)out.size() - 1; i >= 0; i--)
        if (out[i].tx != cur) collect(k, out, i, cur);
    }
    if (suspended != -1) {
      if (cur != -1) finish(g.flip());
      while (!out.empty()) collect(k, out, 0, cur);
      op(k, RESUME);
      cur = suspended;
      own = true;
      expect(k, {0}, cur);
    }
    bool failed = false;
    if (own && cur != -1) {
      if (g.chance(1, 8)) {
        // returns in the middle of it
        while (!out.empty()) collect(k, out, 0, cur);
        tx[cur].doomed = true;
        tx[cur].outcome = 0;
        failed = true;
        kinds.insert("returned without ending the transaction");
      } else
        finish(g.chance(3, 4));
    }
    bool open = failed;
    end_tx[k] = cur;
    switch (g.weighted({12, 2, 1, 3})) {
      case 1:
        x.end = RETURN;
        x.rval = TPFAIL;
        kinds.insert("failed service");
        return false;
      case 2:
        x.end = FALLOFF;
        kinds.insert("no return");
        return false;
      case 3:
        if (server < NSRV && room()) {
          int t = target(server);
          x.end = FORWARD;
          x.server = t;
          if (open) {
            // not forwarded
            int c = fresh(-1, t);
            plan_()->n[c].end = RETURN;
            runs[c] = false;
            x.child = c;
            return false;
          }
          kinds.insert("forwarded");
          int c = fresh(intx, t);
          x.child = c;
          return body(c, t, intx, depth + 1);
        }
    }
    x.end = RETURN;
    x.rval = TPSUCCESS;
    return !failed;
  }
  int target(int server) { return server + 1 + g.below(std::min(NSRV - server, 4)); }
  int begin(int k) {
    tx.push_back({});
    tx.back().begun_node = k;
    tx.back().begun_op = plan_()->n[k].n - 1;
    int gr = GROUP[server_of[k]];
    if (gr != NULLGROUP) tx.back().groups.insert(gr);
    return tx.size() - 1;
  }
  // The failure of an asynchronous call is known before the transaction ends
  // as replies are collected or waited for
  void late_doom(int t) { tx[t].doomed = true; }
  template <class V>
  void collect(int k, V &out, size_t i, int cur) {
    TOp &o = op(k, GET);
    o.cdslot = out[i].slot;
    expect(k, out[i].w, cur);
    out.erase(out.begin() + i);
  }
  std::map<int, int> server_of;
};

static void clear() {
  checker->run();
  xarm::Lock l;
  xarm::sh->n = 0;
  checker->pos = 0;
  checker->br.clear();
  memset(xarm::sh->fault, 0, sizeof(xarm::sh->fault));
  memset(xarm::sh->vote, 0, sizeof(xarm::sh->vote));
}
static std::string op_name(const TOp &o) {
  static const char *n[] = {"tpcall", "tpacall", "tpgetrply", "tpbegin", "tpcommit", "tpabort", "tpsuspend", "tpresume", "fault"};
  std::string s = n[o.op];
  if (o.op == CALL || o.op == ACALL) s += fmt("(T%d%s)%s", o.server, o.flags & TPNOTRAN ? ", TPNOTRAN" : "", o.child || o.server != 77 ? fmt(" [%d]", o.child).c_str() : "");
  return s;
}
static std::string describe(Gen &m) {
  std::string s;
  for (int k = 0; k < m.n; k++) {
    TNode &x = plan_()->n[k];
    s += fmt("[%d] at server %d, group %d%s:", k, m.server_of[k], GROUP[m.server_of[k]], m.node_tx[k] >= 0 ? fmt(", in transaction %d", m.node_tx[k]).c_str() : "");
    for (int i = 0; i < x.n; i++) s += " " + op_name(x.ops[i]) + ";";
    s += x.end == FORWARD ? fmt(" forward to [%d]", x.child) : x.end == FALLOFF ? " no return" : x.rval == TPSUCCESS ? " success" : " failure";
    s += "\n";
  }
  return s;
}
static std::string events(const std::string &x) {
  std::string s;
  xarm::Lock l;
  for (uint32_t i = 0; i < xarm::sh->n; i++)
    if (xarm::sh->ev[i].fn > xarm::CLOSE && (x.empty() || xarm::xs(xarm::sh->ev[i].xid) == x)) s += "\n" + xarm::str(xarm::sh->ev[i]);
  return s;
}
static void run(G &g, bool faults, int tops) {
  clear();
  memset((void *)plan_(), 0, sizeof(Plan));
  Gen m(g);
  m.faults = faults;
  for (int i = 0; i < 5; i++) {
    m.votes[i] = XA_OK;
    if (i >= 1 && i <= 3) switch (g.weighted({14, 2, 2, 1})) {
        case 1: m.votes[i] = XA_RDONLY; break;
        case 2: m.votes[i] = XA_RBBASE + (int)g.below(8); break;
        case 3: m.votes[i] = g.pick({XAER_RMERR, XAER_RMFAIL, XAER_NOTA, XAER_INVAL, XAER_PROTO}); break;
      }
    xarm::sh->vote[i] = m.votes[i];
  }
  std::vector<int> top;
  std::vector<bool> ok;
  for (int i = 0; i < tops && m.n < MAXN - 14; i++) {
    int s = 1 + g.below(5);
    int k = m.fresh(-1, s);
    top.push_back(k);
    ok.push_back(m.body(k, s, -1, 0));
  }
  for (int i = 1; i <= 3; i++)
    if (m.votes[i]) g.log("group %d answers %d to prepare", i, m.votes[i]);
  g.log("%s", describe(m).c_str());
  char *b = tpalloc((char *)"STRING", nullptr, 64);
  std::vector<int> cds;
  for (size_t i = 0; i < top.size(); i++) {
    request(top[i], b);
    int cd = tpacall((char *)fmt("T%d", m.server_of[top[i]]).c_str(), b, 0, 0);
    if (cd == -1) pbt::fail("tpacall: %s", tpstrerror(tperrno));
    cds.push_back(cd);
  }
  std::vector<int> errs;
  for (int &cd : cds) {
    long l;
    int rc = tpgetrply(&cd, &b, &l, 0);
    errs.push_back(rc == -1 ? tperrno : 0);
  }
  tpfree(b);
  // what every service saw
  auto xid = [&](int t) -> std::string { return t < 0 ? "" : m.tx[t].xid; };
  for (auto &t : m.tx) {
    TOp &o = plan_()->n[t.begun_node].ops[t.begun_op];
    if (o.ret == 0) t.xid = o.xid;
  }
  for (int k = 0; k < m.n; k++) {
    TNode &x = plan_()->n[k];
    std::string who = fmt("[%d]", k);
    PBT_EQ((int)x.seen, m.runs[k] ? 1 : 0, who + " executed");
    if (!m.runs[k]) continue;
    PBT_ASSERT(x.done, "%s did not finish", who.c_str());
    PBT_ASSERT(x.srvid % 100 == m.server_of[k] && x.grpno == GROUP[m.server_of[k]], "%s was executed by server %d of group %d", who.c_str(), x.srvid, x.grpno);
    PBT_EQ(std::string(x.xid0), xid(m.node_tx[k]), who + " transaction at the start of the service");
    PBT_EQ((x.flags & TPTRAN) != 0, m.node_tx[k] >= 0, who + " TPTRAN flag of the service");
    for (int i = 0; i < x.n; i++) {
      TOp &o = x.ops[i];
      std::string what = fmt("%s %s (operation %d)", who.c_str(), op_name(o).c_str(), i);
      int r = o.ret == 0 ? 0 : o.err;
      std::string exp;
      for (int e : m.want[k][i]) exp += (exp.empty() ? "" : " or ") + std::string(e ? tpstrerror(e) : "success");
      PBT_ASSERT(m.want[k][i].count(r), "%s: %s, expected %s; calls:%s", what.c_str(), r ? tpstrerror(r) : "success", exp.c_str(), events("").c_str());
      PBT_EQ(std::string(o.xid), xid(m.op_tx[k][i]), what + ": transaction afterwards");
      PBT_EQ(o.lev, m.op_tx[k][i] >= 0 ? 1L : 0L, what + ": tpgetlev afterwards");
      if (o.op == COMMIT && r == TPEABORT)
        for (auto &t : m.tx)
          if (t.outcome == 2 && t.begun_node == k && t.end_op == i) t.outcome = 0;
    }
    PBT_EQ(std::string(x.xid1), xid(m.end_tx[k]), who + " transaction at the end of the service");
  }
  for (size_t i = 0; i < top.size(); i++) PBT_EQ(errs[i] == 0, (bool)ok[i], fmt("result of [%d]: %s", top[i], tpstrerror(errs[i])));
  // what every group saw
  checker->run();
  std::set<std::string> ids;
  for (auto &t : m.tx) PBT_ASSERT(!t.xid.empty() && ids.insert(t.xid).second, "two transactions with one identifier %s", t.xid.c_str());
  for (auto &b : checker->br) PBT_ASSERT(ids.count(b.first.first), "transaction %s was never begun", b.first.first.c_str());
  for (size_t i = 0; i < m.tx.size(); i++) {
    auto &t = m.tx[i];
    std::set<int> groups;
    for (auto &b : checker->br)
      if (b.first.first == t.xid && b.second.touched) groups.insert(b.first.second);
    std::string ev = events(t.xid);
    auto list = [](const std::set<int> &s) {
      std::string r;
      for (int x : s) r += fmt(" %d", x);
      return r;
    };
    PBT_ASSERT(groups == t.groups, "transaction %zu: groups%s took part, expected%s; calls:%s", i, list(groups).c_str(), list(t.groups).c_str(), ev.c_str());
    for (int gr : groups) {
      auto &b = checker->br[{t.xid, gr}];
      bool commit = t.outcome != 0;
      if (commit)
        PBT_ASSERT(b.committed || b.rdonly, "transaction %zu was committed, but not in group %d:%s", i, gr, ev.c_str());
      else {
        PBT_ASSERT(!b.committed, "transaction %zu was rolled back, but committed in group %d:%s", i, gr, ev.c_str());
        PBT_ASSERT(b.rolledback || b.rdonly, "transaction %zu was rolled back, but is undecided in group %d:%s", i, gr, ev.c_str());
      }
      PBT_ASSERT(b.decisions == (b.rdonly ? 0 : 1), "transaction %zu: group %d was told the outcome %d times:%s", i, gr, b.decisions, ev.c_str());
      PBT_ASSERT(!b.in_use(), "transaction %zu: work in group %d was never ended:%s", i, gr, ev.c_str());
    }
    if (t.groups.size() > 1) g.nontrivial();
  }
  {
    mib &mb = getmib();
    auto lock = mb.data_lock();
    for (size_t i = 0; i < mb.transactions().len; i++) PBT_ASSERT(mb.transactions()[i].xid.formatID == -1, "an ended transaction remains in the table of the domain");
  }
  for (auto &k : m.kinds) g.label(k);
}
static void sequential(G &g) { run(g, true, 1); }
static void async(G &g) { run(g, false, 1); }
static void concurrent(G &g) { run(g, false, 2 + g.below(3)); }

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "T03";
  c.rule =
      "sequential, async, concurrent: trees of services in a real domain with 3 recording resource managers (and one group without), that begin, suspend, end and "
      "leave transactions, call each other inside and outside of them, fail, forward and refuse to join or prepare, as planned. Non-trivial: at least two groups "
      "take part in a transaction.";
  c.subs = {{"sequential", sequential, 3000, 45000, 100}, {"async", async, 3000, 45000, 100}, {"concurrent", concurrent, 2000, 30000, 60}};
  c.assumptions = {"A call of a service that does not exist may or may not force its transaction to roll back.",
                   "A service that takes part in a transaction collects the replies to its own calls before it returns."};
  c.setup = setup;
  common(c, 64440);
  c.repro_n = 6;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
