// T01: transaction demarcation follows the TX state table, and what the
// resource managers see is a legal two-phase commit with one outcome.
#include <thread>
#include <atmi.h>
#include <tx.h>
#include <xa.h>
#include <tpadm.h>
#include <mib.h>
#include <trx.h>
#include "domain.hpp"
#include "xarm.hpp"
#include "shmfix.hpp"
#include "pbt.hpp"
using pbt::G;
using pbt::fmt;

extern "C" {
void TM(TPSVCINFO *);
int _tmrunserver(int);
extern int _tmbuilt_with_thread_option;
int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs);
}
namespace fux::tx {
extern uint16_t grpno;
}
namespace fux::glob {
extern xa_switch_t *xasw;
}
static constexpr int GROUPS = 3;
static xarm::Checker *checker;

static void write_tuxconfig(int w) {
  std::string ubb;
  ubb += "*RESOURCES\nIPCKEY " + fmt("%u", dom::key(w)) + "\nMASTER m\nMODEL SHM\n*MACHINES\n\"localhost\" LMID=m APPDIR=\"" + dom::dir(w) +
         "\" TUXCONFIG=\"" + getenv("TUXCONFIG") + "\" TUXDIR=\"/nonexistent\"\n*GROUPS\n";
  for (int i = 1; i <= GROUPS; i++)
    ubb += fmt("G%d LMID=m GRPNO=%d TMSNAME=TMS TMSCOUNT=2 OPENINFO=\"VX:db%d\" CLOSEINFO=\"VX:db%d\"\n", i, i, i, i);
  ubb += "*SERVERS\n*SERVICES\n";
  tuxconfig c;
  memset(&c, 0, sizeof(c));
  c.size = sizeof(c) + ubb.size();
  c.ipckey = dom::key(w);
  c.maxservers = 20;
  c.maxservices = 20;
  c.maxqueues = 20;
  c.maxgroups = 8;
  c.maxaccessers = 60;
  std::string s((char *)&c, sizeof(c));
  proc::write_file(getenv("TUXCONFIG"), s + ubb);
}

static void tm_child(int grp) {
  static struct tmdsptchtbl_t table[] = {{(char *)".TM", (char *)"TM", TM, 0, 0, NULL}, {NULL, NULL, NULL, 0, 0, NULL}};
  static struct tmsvrargs_t args = {&xarm::vx_switch, table, 0, tpsvrinit, tpsvrdone, _tmrunserver, NULL, NULL, NULL, NULL, tprminit, tpsvrthrinit, tpsvrthrdone, NULL};
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  _tmbuilt_with_thread_option = 0;
  std::string g = std::to_string(grp);
  const char *argv[] = {"TMS", "-g", g.c_str(), "-i", "30001", "-A", nullptr};
  _exit(_tmstartserver(6, (char **)argv, &args) & 1);
}

static void setup(int w) {
  dom::become(w);
  write_tuxconfig(w);
  xarm::create();
  xarm::sh->n = 0;
  memset(xarm::sh->fault, 0, sizeof(xarm::sh->fault));
  memset(xarm::sh->vote, 0, sizeof(xarm::sh->vote));
  mib &m = getmib();
  for (int i = 1; i <= GROUPS; i++) {
    pid_t p = fork();
    if (p == 0) tm_child(i);
    if (p < 0) pbt::fail("cannot start the transaction manager");
  }
  for (int i = 0;; i++) {
    size_t n = 0;
    {
      auto lock = m.data_lock();
      size_t s = m.find_service(".TM");
      if (s != m.badoff)
        for (size_t k = 0; k < m.advertisements()->len; k++)
          if (m.advertisements().at(k).service == s) n++;
    }
    if (n == GROUPS) break;
    if (i > 4000) pbt::fail("the transaction managers do not start");
    usleep(5000);
  }
  fux::tx::grpno = 1;
  fux::glob::xasw = &xarm::vx_switch;
  checker = new xarm::Checker();
  checker->run();
}

// ---- events of one transaction
struct Tx {
  XID xid;
  std::string x;
  std::set<int> groups;
};
static std::vector<xarm::Ev> events_of(const std::string &x) {
  std::vector<xarm::Ev> v;
  xarm::Lock l;
  for (uint32_t i = 0; i < xarm::sh->n; i++)
    if (xarm::sh->ev[i].fn > xarm::CLOSE && xarm::xs(xarm::sh->ev[i].xid) == x) v.push_back(xarm::sh->ev[i]);
  return v;
}
static std::string show(const std::vector<xarm::Ev> &v) {
  std::string s;
  for (auto &e : v) s += "\n" + xarm::str(e);
  return s;
}
// One outcome in all groups that took part
static void check_outcome(xarm::Checker &ck, const Tx &t, bool committed) {
  auto v = events_of(t.x);
  bool decided = false;
  for (auto &e : v) {
    if (e.fn == xarm::COMMIT || e.fn == xarm::ROLLBACK) decided = true;
    if (e.fn == xarm::PREPARE && decided && committed) pbt::fail("a group was asked to prepare after the decision:%s", show(v).c_str());
  }
  for (int g : t.groups) {
    auto &b = ck.br[{t.x, g}];
    if (committed && !(b.committed || b.rdonly)) pbt::fail("commit was reported, but group %d did not commit:%s", g, show(v).c_str());
    if (!committed && b.committed) pbt::fail("rollback was reported, but group %d committed:%s", g, show(v).c_str());
    if (!committed && !b.rolledback && !b.rdonly) pbt::fail("rollback was reported, but group %d was not rolled back:%s", g, show(v).c_str());
    if (b.decisions > 1) pbt::fail("group %d was told the outcome %d times:%s", g, b.decisions, show(v).c_str());
  }
  for (auto &e : v)
    if (!t.groups.count(e.rmid)) pbt::fail("group %d took no part in the transaction:%s", e.rmid, show(v).c_str());
}
static bool in_table(XID &x) {
  mib &m = getmib();
  auto lock = m.data_lock();
  try {
    m.transactions().find(x);
    return true;
  } catch (const std::out_of_range &) {
    return false;
  }
}
static size_t live_entries() {
  mib &m = getmib();
  auto lock = m.data_lock();
  size_t n = 0;
  for (size_t i = 0; i < m.transactions().len; i++) n += m.transactions()[i].xid.formatID != -1;
  return n;
}
// work done by the server of another group
static void other_group(G &g, Tx &t, int grp) {
  mib &m = getmib();
  std::thread th([&] {
    {
      auto lock = m.data_lock();
      m.transactions().join(m.transactions().find(t.xid), m.find_group(grp));
    }
    int save[8];
    {
      xarm::Lock l;
      memcpy(save, xarm::sh->fault[xarm::START], sizeof(save));
      memset(xarm::sh->fault[xarm::START], 0, sizeof(save));
    }
    XID x = t.xid;
    char info[] = "db";
    xarm::xa_open(info, grp, TMNOFLAGS);
    xarm::xa_start(&x, grp, TMNOFLAGS);
    // an answer scripted for this function is kept for the code under test
    int e[8];
    {
      xarm::Lock l;
      memcpy(e, xarm::sh->fault[xarm::END], sizeof(e));
      memset(xarm::sh->fault[xarm::END], 0, sizeof(e));
    }
    xarm::xa_end(&x, grp, TMSUCCESS);
    xarm::xa_close(info, grp, TMNOFLAGS);
    xarm::Lock l;
    memcpy(xarm::sh->fault[xarm::END], e, sizeof(e));
    memcpy(xarm::sh->fault[xarm::START], save, sizeof(save));
  });
  th.join();
  t.groups.insert(grp);
  g.log("group %d takes part", grp);
}
static void reset_log() {
  checker->run();
  xarm::Lock l;
  xarm::sh->n = 0;
  checker->pos = 0;
  checker->br.clear();
  memset(xarm::sh->fault, 0, sizeof(xarm::sh->fault));
  memset(xarm::sh->vote, 0, sizeof(xarm::sh->vote));
}
static void fault(int fn, int code) {
  xarm::Lock l;
  xarm::sh->fault[fn][0] = code;
}
static void nofault() {
  xarm::Lock l;
  memset(xarm::sh->fault, 0, sizeof(xarm::sh->fault));
}

struct M {  // the model of one thread of control
  int s = 0;
  long control = TX_UNCHAINED, timeout = 0, when = -1;
  Tx cur;
  std::map<int, std::pair<TPTRANID, Tx>> susp;
  int next_susp = 0;
  std::vector<TPTRANID> stale;
  std::set<std::string> seen;
  bool in() const { return s >= 3; }
};

static void verify(G &g, M &m) {
  checker->run();
  TXINFO i;
  memset(&i, 0x5a, sizeof(i));
  int rc = tx_info(&i);
  int want = m.s == 0 ? TX_PROTOCOL_ERROR : m.in() ? 1 : 0;
  PBT_EQ(rc, want, fmt("tx_info in S%d", m.s));
  tperrno = 0;
  int lev = tpgetlev();
  PBT_EQ(lev, m.s == 0 ? -1 : want, "tpgetlev");
  if (lev == -1) PBT_EQ(tperrno, TPEPROTO, "error of tpgetlev");
  if (m.s == 0) return;
  if (m.when == -1) m.when = i.when_return;
  PBT_EQ((long)i.when_return, m.when, "commit_return characteristic");
  PBT_EQ((long)i.transaction_control, m.control, "transaction_control characteristic");
  PBT_EQ((long)i.transaction_timeout, m.timeout, "transaction_timeout characteristic");
  PBT_EQ((long)i.transaction_state, (long)TX_ACTIVE, "transaction state");
  if (m.in()) {
    PBT_EQ(xarm::xs(i.xid), m.cur.x, "identifier of the transaction");
    PBT_ASSERT(in_table(m.cur.xid), "the transaction is not in the table of the domain");
  } else
    PBT_EQ(i.xid.formatID, -1L, "identifier outside a transaction");
  PBT_EQ(live_entries(), (size_t)(m.in() + m.susp.size()), "entries in the table of transactions");
  for (auto &p : m.susp) PBT_ASSERT(in_table(p.second.second.xid), "a suspended transaction is not in the table of the domain");
}
static void started(G &g, M &m) {  // a new transaction must be there
  TXINFO i;
  PBT_EQ(tx_info(&i), 1, "tx_info after the start of a transaction");
  m.cur = Tx();
  m.cur.xid = i.xid;
  m.cur.x = xarm::xs(i.xid);
  m.cur.groups = {1};
  PBT_ASSERT(i.xid.formatID != -1, "the new transaction has a null identifier");
  PBT_ASSERT(m.seen.insert(m.cur.x).second, "identifier %s was used before", m.cur.x.c_str());
  auto v = events_of(m.cur.x);
  PBT_EQ(v.size(), (size_t)1, "calls at the start of the transaction" + show(v));
  PBT_ASSERT(v[0].fn == xarm::START && v[0].ret == XA_OK && v[0].rmid == 1, "the resource manager was not told of the start:%s", show(v).c_str());
}
static int start_rc(int code) {
  switch (code) {
    case XAER_RMERR:
    case XAER_DUPID:
    case XAER_PROTO: return TX_ERROR;
    case XAER_OUTSIDE: return TX_OUTSIDE;
    default: return TX_FAIL;
  }
}
static void tp(int rc, int tx, const char *what) {  // tx: what the tx_ function would return
  PBT_EQ(rc, tx == TX_OK ? 0 : -1, what);
  if (tx == TX_PROTOCOL_ERROR) PBT_EQ(tperrno, TPEPROTO, fmt("error of %s", what));
  else if (tx == TX_OUTSIDE) PBT_EQ(tperrno, TPETRAN, fmt("error of %s", what));
  else if (tx == TX_ROLLBACK) PBT_EQ(tperrno, TPEABORT, fmt("error of %s", what));
  else if (tx == TX_ERROR || tx == TX_FAIL) PBT_EQ(tperrno, TPERMERR, fmt("error of %s", what));
  else if (tx != TX_OK) PBT_ASSERT(tperrno != 0, "no error of %s", what);
}

// commit or rollback of the current transaction
static void end(G &g, M &m, bool commit, bool atmi) {
  int expect = TX_OK;
  bool committed = commit;
  std::string how;
  bool chained = m.s == 4;
  int begin_fault = 0;
  Tx t = m.cur;
  if (m.in()) {
    if (g.chance(1, 6)) {
      int code = g.pick({XAER_RMERR, XAER_RMFAIL, (int)XA_RBROLLBACK, (int)XA_RBDEADLOCK, (int)XA_RBTIMEOUT});
      fault(xarm::END, code);
      how += fmt(" xa_end answers %d,", code);
      committed = false;
      g.label("end of work refused");
    }
    if (commit) {
      for (int gr : t.groups) {
        int v = XA_OK;
        switch (g.weighted({10, 2, 2, 2})) {
          case 1: v = XA_RDONLY; break;
          case 2: v = XA_RBBASE + (int)g.below(8); break;
          case 3: v = g.pick({XAER_RMERR, XAER_RMFAIL, XAER_NOTA, XAER_INVAL, XAER_PROTO}); break;
        }
        {
          xarm::Lock l;
          xarm::sh->vote[gr] = v;
        }
        if (v) how += fmt(" group %d votes %d,", gr, v);
        if (v && v != XA_RDONLY) committed = false, g.label("refused to prepare");
        if (v == XA_RDONLY) g.label("read-only group");
      }
    }
    if (chained && g.chance(1, 5)) {
      begin_fault = g.pick({XAER_RMERR, XAER_RMFAIL, XAER_OUTSIDE});
      fault(xarm::START, begin_fault);
      how += " next xa_start fails,";
      g.label("next transaction refused");
    }
    if (t.groups.size() > 1) g.label(commit ? "commit of several groups" : "rollback of several groups");
    expect = commit && !committed ? TX_ROLLBACK : TX_OK;
    if (begin_fault) expect += TX_NO_BEGIN;
  } else
    expect = TX_PROTOCOL_ERROR;
  const char *name = atmi ? (commit ? "tpcommit" : "tpabort") : commit ? "tx_commit" : "tx_rollback";
  tperrno = 0;
  int rc = atmi ? (commit ? tpcommit(0) : tpabort(0)) : commit ? tx_commit() : tx_rollback();
  g.log("%s in S%d%s -> %d", name, m.s, how.c_str(), rc);
  nofault();
  {
    xarm::Lock l;
    memset(xarm::sh->vote, 0, sizeof(xarm::sh->vote));
  }
  if (atmi)
    tp(rc, expect, name);
  else
    PBT_EQ(rc, expect, fmt("%s in S%d,%s", name, m.s, how.c_str()));
  checker->run();
  if (expect == TX_PROTOCOL_ERROR) return;
  g.nontrivial();
  check_outcome(*checker, t, commit && committed);
  PBT_ASSERT(!in_table(t.xid), "the ended transaction remains in the table of the domain");
  m.s = chained ? (begin_fault ? 2 : 4) : 1;
  TPTRANID id;
  memset(&id, 0, sizeof(id));
  memcpy(&id, &t.xid, std::min(sizeof(id), sizeof(XID)));
  if (m.stale.size() < 4) m.stale.push_back(id);
  if (m.s == 4) {
    g.label("chained");
    started(g, m);
  }
}

static void suspend(G &g, M &m) {
  TPTRANID id;
  memset(&id, 0, sizeof(id));
  int code = m.in() && g.chance(1, 6) ? g.pick({XAER_RMERR, XAER_RMFAIL}) : 0;
  if (code) fault(xarm::END, code);
  tperrno = 0;
  int rc = tpsuspend(&id, 0);
  nofault();
  g.log("tpsuspend in S%d%s -> %d", m.s, code ? ", refused by the resource manager" : "", rc);
  if (!m.in()) {
    tp(rc, TX_PROTOCOL_ERROR, "tpsuspend");
    return;
  }
  if (code) {
    g.label("refused suspend");
    PBT_EQ(rc, -1, "tpsuspend");
    PBT_ASSERT(tperrno != 0, "no error");
    // the transaction goes on; whatever follows, it must not commit
    verify(g, m);
    auto t = m.cur;
    m.stale.clear();
    bool chained = m.s == 4;
    fault(xarm::END, XAER_PROTO);
    int rc = tx_rollback();
    nofault();
    g.log("tx_rollback -> %d", rc);
    PBT_EQ(rc, TX_OK, "tx_rollback after tpsuspend was refused");
    checker->run();
    check_outcome(*checker, t, false);
    m.s = chained ? 4 : 1;
    if (chained) started(g, m);
    return;
  }
  tp(rc, TX_OK, "tpsuspend");
  g.label("suspended");
  m.susp[m.next_susp++] = {id, m.cur};
  m.s = m.s == 4 ? 2 : 1;
}
static void resume(G &g, M &m) {
  tperrno = 0;
  if (m.susp.empty() || g.chance(1, 6)) {
    TPTRANID id;
    memset(&id, 0, sizeof(id));
    if (!m.stale.empty()) id = g.pick(m.stale);
    int rc = tpresume(&id, 0);
    g.log("tpresume of an ended transaction in S%d -> %d", m.s, rc);
    PBT_EQ(rc, -1, "tpresume of an ended transaction");
    if (m.s == 0 || m.in()) PBT_EQ(tperrno, TPEPROTO, "error of tpresume");
    PBT_ASSERT(tperrno != 0, "no error");
    return;
  }
  auto it = m.susp.begin();
  std::advance(it, g.below(m.susp.size()));
  int code = (m.s == 1 || m.s == 2) && g.chance(1, 6) ? g.pick({XAER_RMERR, XAER_RMFAIL}) : 0;
  if (code) fault(xarm::START, code);
  int rc = tpresume(&it->second.first, 0);
  nofault();
  g.log("tpresume of transaction %d in S%d%s -> %d", it->first, m.s, code ? ", refused by the resource manager" : "", rc);
  if (m.s == 0 || m.in()) {
    tp(rc, TX_PROTOCOL_ERROR, "tpresume");
    return;
  }
  tp(rc, code ? start_rc(code) : TX_OK, "tpresume");
  if (code) {
    g.label("refused resume");
    return;
  }
  g.label("resumed");
  m.cur = it->second.second;
  m.susp.erase(it);
  m.s = m.s == 2 ? 4 : 3;
}
static void begin(G &g, M &m, bool atmi) {
  int code = (m.s == 1 || m.s == 2) && g.chance(1, 6) ? g.pick({XAER_RMERR, XAER_RMFAIL, XAER_OUTSIDE, XAER_DUPID, XAER_INVAL, XAER_PROTO}) : 0;
  if (code) fault(xarm::START, code);
  long t = g.chance(1, 2) ? 0 : (long)g.below(100000);
  tperrno = 0;
  int rc = atmi ? tpbegin(t, 0) : tx_begin();
  nofault();
  g.log("%s in S%d%s -> %d", atmi ? fmt("tpbegin(%ld)", t).c_str() : "tx_begin", m.s, code ? fmt(", xa_start answers %d", code).c_str() : "", rc);
  int expect = m.s == 1 || m.s == 2 ? (code ? start_rc(code) : TX_OK) : TX_PROTOCOL_ERROR;
  if (atmi)
    tp(rc, expect, "tpbegin");
  else
    PBT_EQ(rc, expect, fmt("tx_begin in S%d", m.s));
  if (atmi && expect == TX_OK) m.timeout = t;
  if (atmi && expect != TX_OK && m.s != 0) {  // whether the timeout has been set is not promised
    TXINFO i;
    tx_info(&i);
    PBT_ASSERT(i.transaction_timeout == m.timeout || i.transaction_timeout == t, "timeout %ld out of nowhere", (long)i.transaction_timeout);
    m.timeout = i.transaction_timeout;
  }
  if (code) g.label("refused start");
  if (expect == TX_OK) {
    g.label("begun");
    m.s = m.s == 1 ? 3 : 4;
    started(g, m);
  }
}
static void open_close(G &g, M &m, bool open, bool atmi) {
  bool allowed = open || m.s <= 2;
  // resource managers are not closed under suspended work
  if (!open && !m.susp.empty()) return;
  int code = allowed && g.chance(1, 6) ? g.pick({XAER_RMERR, XAER_INVAL, XAER_PROTO, XAER_RMFAIL}) : 0;
  if (code) fault(open ? xarm::OPEN : xarm::CLOSE, code);
  uint32_t before = xarm::sh->n;
  tperrno = 0;
  int rc = atmi ? (open ? tpopen() : tpclose()) : open ? tx_open() : tx_close();
  nofault();
  const char *name = atmi ? (open ? "tpopen" : "tpclose") : open ? "tx_open" : "tx_close";
  g.log("%s in S%d%s -> %d", name, m.s, code ? fmt(", answer %d", code).c_str() : "", rc);
  int expect = !allowed ? TX_PROTOCOL_ERROR : code == XAER_RMERR ? TX_ERROR : code ? TX_FAIL : TX_OK;
  if (atmi)
    tp(rc, expect, name);
  else
    PBT_EQ(rc, expect, fmt("%s in S%d", name, m.s));
  if (!allowed) return;
  if (m.s == 0 && open) {
    PBT_ASSERT(xarm::sh->n == before + 1, "%u calls to the resource manager, expected xa_open", xarm::sh->n - before);
    xarm::Ev &e = xarm::sh->ev[before];
    PBT_ASSERT(e.fn == xarm::OPEN && e.rmid == 1 && std::string(e.info) == "db1", "xa_open with other arguments: %s", xarm::str(e).c_str());
  }
  if (m.s != 0 && !open && expect == TX_OK) {
    PBT_ASSERT(xarm::sh->n == before + 1 && xarm::sh->ev[before].fn == xarm::CLOSE && xarm::sh->ev[before].rmid == 1, "the resource manager was not closed");
  }
  if (expect == TX_OK && open && m.s == 0) {
    m.s = 1;
    m.control = TX_UNCHAINED;
    m.timeout = 0;
    m.when = -1;
  }
  if (expect == TX_OK && !open) m.s = 0;
}
static void characteristics(G &g, M &m) {
  int rc, expect = TX_OK;
  switch (g.below(3)) {
    case 0: {
      long v = g.pick({0L, 1L, 1L, 0L, 2L, -1L, 77L});
      rc = tx_set_transaction_control(v);
      g.log("tx_set_transaction_control(%ld) in S%d -> %d", v, m.s, rc);
      if (m.s == 0)
        expect = TX_PROTOCOL_ERROR;
      else if (v != TX_CHAINED && v != TX_UNCHAINED)
        expect = TX_EINVAL;
      else {
        m.control = v;
        if (m.s <= 2)
          m.s = v == TX_CHAINED ? 2 : 1;
        else
          m.s = v == TX_CHAINED ? 4 : 3;
      }
      break;
    }
    case 1: {
      long v = g.pick({0L, 1L, 1L, 0L, 2L, -1L, 77L});
      rc = tx_set_commit_return(v);
      g.log("tx_set_commit_return(%ld) in S%d -> %d", v, m.s, rc);
      if (m.s == 0)
        expect = TX_PROTOCOL_ERROR;
      else if (v != TX_COMMIT_COMPLETED && v != TX_COMMIT_DECISION_LOGGED)
        expect = TX_EINVAL;
      else
        m.when = v;
      break;
    }
    default: {
      long v = g.pick({0L, 1L, 5L, 100000L, -1L, -100L, 2147483647L});
      rc = tx_set_transaction_timeout(v);
      g.log("tx_set_transaction_timeout(%ld) in S%d -> %d", v, m.s, rc);
      if (m.s == 0)
        expect = TX_PROTOCOL_ERROR;
      else if (v < 0)
        expect = TX_EINVAL;
      else
        m.timeout = v;
    }
  }
  PBT_EQ(rc, expect, "result");
}
static void bad_arguments(G &g, M &m) {
  TPTRANID id;
  memset(&id, 0, sizeof(id));
  int rc;
  long flags = 1L << g.below(20);
  tperrno = 0;
  switch (g.below(7)) {
    case 0: rc = tpbegin(10, flags); break;
    case 1: rc = tpcommit(flags); break;
    case 2: rc = tpabort(flags); break;
    case 3: rc = tpsuspend(&id, flags); break;
    case 4: rc = tpresume(&id, flags); break;
    case 5: rc = tpsuspend(nullptr, 0); break;
    default: rc = tpresume(nullptr, 0); break;
  }
  g.log("call with invalid arguments in S%d -> %d, %d", m.s, rc, (int)tperrno);
  PBT_EQ(rc, -1, "call with invalid arguments");
  PBT_EQ(tperrno, TPEINVAL, "error of a call with invalid arguments");
}
// ends everything and forgets the log
static void settle(G &g, M &m) {
  nofault();
  while (true) {
    if (m.in()) {
      PBT_EQ(tx_set_transaction_control(TX_UNCHAINED), TX_OK, "tx_set_transaction_control");
      m.control = TX_UNCHAINED;
      m.s = 3;
      PBT_EQ(tx_rollback(), TX_OK, "tx_rollback");
      m.s = 1;
      checker->run();
      check_outcome(*checker, m.cur, false);
    }
    if (m.susp.empty()) break;
    auto it = m.susp.begin();
    PBT_EQ(tpresume(&it->second.first, 0), 0, "tpresume of a suspended transaction");
    m.cur = it->second.second;
    m.susp.erase(it);
    m.s = 3;
  }
  PBT_EQ(tx_close(), TX_OK, "tx_close");
  m.s = 0;
  verify(g, m);
  PBT_EQ(live_entries(), (size_t)0, "entries in the table of transactions at the end");
  reset_log();
}

static void histories(G &g) {
  M m;
  verify(g, m);
  if (g.chance(9, 10)) open_close(g, m, true, g.flip());
  size_t n = 1 + g.below(40);
  for (size_t i = 0; i < n; i++) {
    bool atmi = g.flip();
    switch (g.weighted({6, 2, 1, 8, 8, 4, 5, 5, 1, 4})) {
      case 0: characteristics(g, m); break;
      case 1: open_close(g, m, true, atmi); break;
      case 2: open_close(g, m, false, atmi); break;
      case 3: begin(g, m, atmi); break;
      case 4: end(g, m, true, atmi); break;
      case 5: end(g, m, false, atmi); break;
      case 6: suspend(g, m); break;
      case 7: resume(g, m); break;
      case 8: bad_arguments(g, m); break;
      case 9:
        if (m.in()) {
          int gr = 2 + g.below(GROUPS - 1);
          if (!m.cur.groups.count(gr)) other_group(g, m.cur, gr);
        }
        break;
    }
    verify(g, m);
  }
  g.label(fmt("ends in S%d", m.s));
  settle(g, m);
}

// more transactions at the same time than the domain can hold, and more one after another
static void capacity(G &g) {
  M m;
  PBT_EQ(tx_open(), TX_OK, "tx_open");
  m.s = 1;
  verify(g, m);
  size_t cap = getmib().transactions().size, rounds = 1 + g.below(3);
  for (size_t r = 0; r < rounds; r++) {
    size_t want = g.chance(1, 2) ? cap + 1 : 1 + g.below(cap);
    g.log("round of %zu transactions", want);
    for (size_t i = 0; i < want; i++) {
      int rc = tx_begin();
      if (m.susp.size() == cap) {
        PBT_EQ(rc, TX_ERROR, "tx_begin with a full table");
        PBT_EQ(tx_info(nullptr), 0, "tx_info");
        g.label("table full");
        g.nontrivial();
        break;
      }
      PBT_EQ(rc, TX_OK, fmt("tx_begin with %zu suspended transactions", m.susp.size()));
      m.s = 3;
      started(g, m);
      TPTRANID id;
      memset(&id, 0, sizeof(id));
      PBT_EQ(tpsuspend(&id, 0), 0, "tpsuspend");
      m.susp[m.next_susp++] = {id, m.cur};
      m.s = 1;
    }
    verify(g, m);
    while (!m.susp.empty()) {
      auto it = m.susp.begin();
      std::advance(it, g.below(m.susp.size()));
      PBT_EQ(tpresume(&it->second.first, 0), 0, "tpresume");
      m.cur = it->second.second;
      m.susp.erase(it);
      bool commit = g.flip();
      PBT_EQ(commit ? tx_commit() : tx_rollback(), TX_OK, "end of the transaction");
      checker->run();
      check_outcome(*checker, m.cur, commit);
      if (r + 1 < rounds && g.chance(1, 20)) break;
    }
    g.nontrivial(want > 1);
    verify(g, m);
  }
  settle(g, m);
}

// every thread has its own context, the identifiers are different
static void threads(G &g) {
  int n = 2 + g.below(5);
  struct Plan {
    std::vector<int> ops;
  };
  std::vector<Plan> plans(n);
  for (auto &p : plans)
    for (size_t i = 0, k = 3 + g.below(30); i < k; i++) p.ops.push_back(g.weighted({4, 3, 2, 2, 2}));
  std::vector<std::string> err(n);
  std::vector<std::vector<std::pair<Tx, bool>>> done(n);
  std::vector<std::thread> th;
  for (int t = 0; t < n; t++)
    th.emplace_back([&, t] {
      try {
        int s = 0;
        bool susp = false;
        TPTRANID id;
        Tx cur, held;
        PBT_EQ(tx_info(nullptr), TX_PROTOCOL_ERROR, "tx_info in a new thread");
        PBT_EQ(tx_open(), TX_OK, "tx_open");
        s = 1;
        auto finish = [&](bool commit) {
          PBT_EQ(commit ? tx_commit() : tx_rollback(), s == 3 ? TX_OK : TX_PROTOCOL_ERROR, "end of the transaction");
          if (s == 3) {
            s = 1;
            done[t].push_back({cur, commit});
          }
        };
        for (int o : plans[t].ops) switch (o) {
            case 0:
              PBT_EQ(tx_begin(), s == 1 ? TX_OK : TX_PROTOCOL_ERROR, "tx_begin");
              if (s == 1) {
                TXINFO i;
                PBT_EQ(tx_info(&i), 1, "tx_info");
                cur.xid = i.xid;
                cur.x = xarm::xs(i.xid);
                cur.groups = {1};
                s = 3;
              }
              break;
            case 1: finish(true); break;
            case 2: finish(false); break;
            case 3:
              if (s == 3 && !susp) {
                PBT_EQ(tpsuspend(&id, 0), 0, "tpsuspend");
                susp = true;
                held = cur;
                s = 1;
              }
              break;
            case 4:
              if (s == 1 && susp) {
                PBT_EQ(tpresume(&id, 0), 0, "tpresume");
                susp = false;
                cur = held;
                s = 3;
              }
              break;
          }
        if (s == 3) finish(true);
        if (susp) {
          PBT_EQ(tpresume(&id, 0), 0, "tpresume");
          s = 3;
          cur = held;
          finish(false);
        }
        PBT_EQ(tx_close(), TX_OK, "tx_close");
        PBT_EQ(tx_info(nullptr), TX_PROTOCOL_ERROR, "tx_info after tx_close");
        tpterm();
      } catch (pbt::Fail &e) {
        err[t] = e.msg;
      } catch (std::exception &e) {
        err[t] = fmt("exception %s", e.what());
      }
    });
  for (auto &t : th) t.join();
  size_t total = 0;
  for (auto &e : err) PBT_ASSERT(e.empty(), "thread: %s", e.c_str());
  checker->run();
  std::set<std::string> ids;
  for (auto &d : done)
    for (auto &p : d) {
      total++;
      PBT_ASSERT(ids.insert(p.first.x).second, "two transactions have the identifier %s", p.first.x.c_str());
      check_outcome(*checker, p.first, p.second);
    }
  g.log("%d threads, %zu transactions", n, total);
  g.nontrivial(total >= 2);
  PBT_EQ(live_entries(), (size_t)0, "entries in the table of transactions at the end");
  reset_log();
}

int main(int argc, char **argv) {
  dom::g_base = 64200;
  pbt::Check c;
  c.id = "T01";
  c.rule =
      "histories: at least one transaction was ended; capacity: several transactions were open at once or the table was full; threads: at least "
      "two transactions were ended by concurrent threads";
  c.subs = {{"histories", histories, 6000, 120000, 60}, {"capacity", capacity, 60, 800, 4}, {"threads", threads, 300, 6000, 20}};
  c.assumptions = {"The resource manager is a recording stand-in that follows the XA specification; its answers to xa_commit and xa_rollback are always XA_OK (heuristic outcomes are not promised).",
                   "Work of other groups is done by threads that register with the transaction the way a joining server does."};
  c.setup = setup;
  c.cleanup = [](int w, bool) { dom::wipe(w); };
  c.global_teardown = [] {
    for (int w = 0; w < 16; w++) dom::wipe(w);
  };
  c.hang_s = 60;
  return pbt::main(argc, argv, c);
}
