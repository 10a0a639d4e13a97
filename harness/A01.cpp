// A01: the administrative view shows the domain as it is.
#include <mib.h>
#include <tpadm.h>
#include <fcntl.h>
#include "e2egen.hpp"
#include "ubbgen.hpp"
using namespace e2e;

static void prepare() {
  server_services = {{fmt("C%d_%d", g_grpno, g_srvid), ctl}, {fmt("S%d", g_srvid % 3), cmd<0>}};
}

// ---- what is shown
typedef std::map<FLDID32, std::string> Row;
struct View {
  int rc = 0, err = 0;
  std::vector<Row> rows;
};
struct Attr {
  FLDID32 id;
  const char *name;
};
#define A(x) {x, #x}
static const std::map<std::string, std::vector<Attr>> attrs = {
    {"T_DOMAIN", {A(TA_IPCKEY), A(TA_MODEL), A(TA_MAXSERVERS), A(TA_MAXSERVICES), A(TA_MAXQUEUES), A(TA_MAXGROUPS), A(TA_MAXACCESSERS)}},
    {"T_MACHINE", {A(TA_PMID), A(TA_LMID), A(TA_APPDIR), A(TA_TUXCONFIG), A(TA_TUXDIR), A(TA_ULOGPFX), A(TA_TLOGDEVICE), A(TA_BLOCKTIME)}},
    {"T_SERVICE", {A(TA_SERVICENAME), A(TA_STATE), A(TA_LOAD), A(TA_PRIO), A(TA_TRANTIME), A(TA_BUFTYPE), A(TA_AUTOTRAN), A(TA_BUFTYPECONV)}},
    {"T_SVCGRP", {A(TA_SERVICENAME), A(TA_GRPNO), A(TA_SRVID), A(TA_RQADDR), A(TA_STATE), A(TA_LMID), A(TA_LOAD), A(TA_PRIO)}},
    {"T_SERVER", {A(TA_SRVGRP), A(TA_SRVID), A(TA_GRPNO), A(TA_SERVERNAME), A(TA_STATE), A(TA_CLOPT), A(TA_BASESRVID), A(TA_MIN), A(TA_MAX), A(TA_MINDISPATCHTHREADS), A(TA_MAXDISPATCHTHREADS), A(TA_LMID)}},
    {"T_QUEUE", {A(TA_RQADDR), A(TA_SERVERCNT), A(TA_SERVERNAME), A(TA_LMID), A(TA_RQID)}},
};
static const char *CLASSES[] = {"T_DOMAIN", "T_MACHINE", "T_SERVICE", "T_SVCGRP", "T_SERVER", "T_QUEUE"};
static FBFR32 *query(const std::string &klass, const std::string &op) {
  FBFR32 *b = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 1024 + klass.size() + op.size());
  if (!b) pbt::fail("tpalloc: %s", tpstrerror(tperrno));
  if (Fadd32(b, TA_CLASS, (char *)klass.c_str(), 0) == -1 || Fadd32(b, TA_OPERATION, (char *)op.c_str(), 0) == -1) pbt::fail("Fadd32: %s", Fstrerror32(Ferror32));
  return b;
}
static std::vector<Row> decode(FBFR32 *b, const std::string &klass) {
  long n = -1, e = -1;
  if (Fget32(b, TA_ERROR, 0, (char *)&e, nullptr) == -1 || e != TAOK) pbt::fail("%s: TA_ERROR is %ld", klass.c_str(), e);
  if (Fget32(b, TA_OCCURS, 0, (char *)&n, nullptr) == -1 || n < 0) pbt::fail("%s: TA_OCCURS is %ld", klass.c_str(), n);
  std::vector<Row> rows(n);
  for (auto &a : attrs.at(klass)) {
    PBT_EQ((long)Foccur32(b, a.id), n, klass + " GET: occurrences of " + a.name);
    for (long i = 0; i < n; i++) {
      FLDLEN32 len;
      char *p = Ffind32(b, a.id, i, &len);
      if (!p) pbt::fail("%s: Ffind32(%s): %s", klass.c_str(), a.name, Fstrerror32(Ferror32));
      std::string v;
      if (Fldtype32(a.id) == FLD_STRING)
        v = p;
      else {
        long x;
        memcpy(&x, p, sizeof(x));
        v = fmt("%ld", x);
      }
      rows[i][a.id] = v;
    }
  }
  return rows;
}
// through the service of the BBL
static std::vector<Row> ask(const std::string &klass) {
  FBFR32 *b = query(klass, "GET");
  long l = 0;
  int rc = tpcall((char *)".TMIB", (char *)b, 0, (char **)&b, &l, 0);
  if (rc == -1) pbt::fail("tpcall(.TMIB) for %s: %s", klass.c_str(), tpstrerror(tperrno));
  auto r = decode(b, klass);
  tpfree((char *)b);
  return r;
}
// as a function
static std::vector<Row> direct(const std::string &klass, bool reuse) {
  FBFR32 *b = query(klass, "GET"), *o = (FBFR32 *)tpalloc((char *)"FML32", nullptr, reuse ? 4096 : 0);
  int rc = tpadmcall(b, &o, 0);
  if (rc == -1) pbt::fail("tpadmcall for %s: %s", klass.c_str(), tpstrerror(tperrno));
  PBT_EQ(tperrno, 0, "tperrno after tpadmcall");
  auto r = decode(o, klass);
  tpfree((char *)b);
  tpfree((char *)o);
  return r;
}

// ---- what must be shown
struct Adv {
  std::string svc;
  size_t server;
  bool operator<(const Adv &o) const { return std::tie(svc, server) < std::tie(o.svc, o.server); }
};
struct Model {
  ubb::Config c;
  std::vector<ubb::Server> srv;
  std::vector<bool> running;
  std::set<Adv> adv;
  std::set<std::string> known;  // ever advertised
  uint32_t key;
  std::string at;  // for messages
  void init(const ubb::Config &conf, uint32_t k) {
    c = conf;
    srv = ubb::servers(c);
    running.assign(srv.size(), false);
    key = k;
  }
  std::string group(long no) const {
    for (auto &e : c.groups)
      if (e.num("GRPNO", 0) == no) return e.name;
    return "";
  }
  std::string lmid() const { return c.machines[0].str("LMID"); }
  void want(const std::string &what, const std::string &got, const std::string &exp) { PBT_EQ(got, exp, at + ": " + what); }
  static std::string n(long x) { return fmt("%ld", x); }
  void check(const std::string &k, const std::vector<Row> &rows) {
    auto &r = c.resources;
    if (k == "T_DOMAIN") {
      PBT_EQ(rows.size(), (size_t)1, at + ": number of domains");
      auto x = rows[0];
      want("TA_IPCKEY", x[TA_IPCKEY], n(key));
      want("TA_MODEL", x[TA_MODEL], "SHM");
      want("TA_MAXSERVERS", x[TA_MAXSERVERS], n(r.num("MAXSERVERS", 50)));
      want("TA_MAXSERVICES", x[TA_MAXSERVICES], n(r.num("MAXSERVICES", 100)));
      want("TA_MAXQUEUES", x[TA_MAXQUEUES], n(r.num("MAXQUEUES", 50)));
      want("TA_MAXGROUPS", x[TA_MAXGROUPS], n(r.num("MAXGROUPS", 100)));
      want("TA_MAXACCESSERS", x[TA_MAXACCESSERS], n(r.num("MAXACCESSERS", 50)));
    } else if (k == "T_MACHINE") {
      PBT_EQ(rows.size(), (size_t)1, at + ": number of machines");
      auto x = rows[0];
      auto &m = c.machines[0];
      want("TA_PMID", x[TA_PMID], m.name);
      want("TA_LMID", x[TA_LMID], m.str("LMID"));
      want("TA_APPDIR", x[TA_APPDIR], m.str("APPDIR"));
      want("TA_TUXCONFIG", x[TA_TUXCONFIG], m.str("TUXCONFIG"));
      want("TA_TUXDIR", x[TA_TUXDIR], m.str("TUXDIR"));
      want("TA_ULOGPFX", x[TA_ULOGPFX], m.str("ULOGPFX"));
      want("TA_TLOGDEVICE", x[TA_TLOGDEVICE], m.str("TLOGDEVICE"));
      want("TA_BLOCKTIME", x[TA_BLOCKTIME], n(ubb::blocktime(c)));
    } else if (k == "T_SERVICE") {
      std::set<std::string> seen, active;
      for (auto &a : adv) active.insert(a.svc);
      for (auto x : rows) {
        std::string s = x[TA_SERVICENAME];
        PBT_ASSERT(seen.insert(s).second, "%s: service %s is shown twice", at.c_str(), s.c_str());
        PBT_ASSERT(known.count(s), "%s: service %s was never offered", at.c_str(), pbt::show(s).c_str());
        if (s != ".TM") want("TA_STATE of service " + s, x[TA_STATE], active.count(s) ? "ACT" : "INA");
        want("TA_LOAD", x[TA_LOAD], "50");
        want("TA_PRIO", x[TA_PRIO], "50");
        want("TA_TRANTIME", x[TA_TRANTIME], "30");
        want("TA_BUFTYPE", x[TA_BUFTYPE], "ALL");
        want("TA_AUTOTRAN", x[TA_AUTOTRAN], "N");
        want("TA_BUFTYPECONV", x[TA_BUFTYPECONV], "NOCONVERT");
      }
      for (auto &s : active) PBT_ASSERT(seen.count(s), "%s: service %s is not shown", at.c_str(), s.c_str());
    } else if (k == "T_SVCGRP") {
      std::multiset<std::string> got, exp;
      for (auto x : rows) {
        got.insert(x[TA_SERVICENAME] + " by server " + x[TA_SRVID] + " of group " + x[TA_GRPNO] + " at " + x[TA_RQADDR] + " " + x[TA_STATE]);
        want("TA_LMID", x[TA_LMID], lmid());
        want("TA_LOAD", x[TA_LOAD], "50");
        want("TA_PRIO", x[TA_PRIO], "50");
      }
      for (auto &a : adv) {
        auto &s = srv[a.server];
        exp.insert(a.svc + " by server " + n(s.srvid) + " of group " + n(s.grpno) + " at " + s.rqaddr + " ACT");
      }
      for (auto &s : exp) PBT_ASSERT(got.count(s) == 1, "%s: %s is shown %zu times", at.c_str(), s.c_str(), got.count(s));
      for (auto &s : got) PBT_ASSERT(exp.count(s), "%s: shows %s", at.c_str(), s.c_str());
    } else if (k == "T_SERVER") {
      std::map<std::pair<long, long>, Row> got;
      for (auto x : rows)
        PBT_ASSERT(got.insert({{atol(x[TA_GRPNO].c_str()), atol(x[TA_SRVID].c_str())}, x}).second, "%s: server %s of group %s is shown twice", at.c_str(),
                   x[TA_SRVID].c_str(), x[TA_GRPNO].c_str());
      PBT_EQ(got.size(), srv.size(), at + ": number of servers");
      for (size_t i = 0; i < srv.size(); i++) {
        auto &s = srv[i];
        std::string w = fmt("server %ld of group %ld, ", s.srvid, s.grpno);
        auto it = got.find({s.grpno, s.srvid});
        PBT_ASSERT(it != got.end(), "%s: %s is not shown", at.c_str(), w.c_str());
        auto &x = it->second;
        want(w + "TA_SRVGRP", x[TA_SRVGRP], group(s.grpno));
        want(w + "TA_SERVERNAME", x[TA_SERVERNAME], s.name);
        want(w + "TA_CLOPT", x[TA_CLOPT], s.clopt);
        want(w + "TA_LMID", x[TA_LMID], lmid());
        if (s.minthreads != -1) {
          want(w + "TA_BASESRVID", x[TA_BASESRVID], n(s.base));
          want(w + "TA_MIN", x[TA_MIN], n(s.min));
          want(w + "TA_MAX", x[TA_MAX], n(s.max));
          want(w + "TA_MINDISPATCHTHREADS", x[TA_MINDISPATCHTHREADS], n(s.minthreads));
          want(w + "TA_MAXDISPATCHTHREADS", x[TA_MAXDISPATCHTHREADS], n(s.maxthreads));
        }
        if (running[i])
          want(w + "TA_STATE", x[TA_STATE], "ACT");
        else
          PBT_ASSERT(x[TA_STATE] != "ACT", "%s: %s which is not running is active", at.c_str(), w.c_str());
      }
    } else if (k == "T_QUEUE") {
      std::map<std::string, std::vector<size_t>> exp;
      for (size_t i = 0; i < srv.size(); i++) exp[srv[i].rqaddr].push_back(i);
      std::map<std::string, Row> got;
      std::set<std::string> ids;
      for (auto x : rows) PBT_ASSERT(got.insert({x[TA_RQADDR], x}).second, "%s: queue %s is shown twice", at.c_str(), x[TA_RQADDR].c_str());
      PBT_EQ(got.size(), exp.size(), at + ": number of queues");
      for (auto &e : exp) {
        auto it = got.find(e.first);
        PBT_ASSERT(it != got.end(), "%s: queue %s is not shown", at.c_str(), e.first.c_str());
        auto &x = it->second;
        want("TA_SERVERCNT of queue " + e.first, x[TA_SERVERCNT], n(e.second.size()));
        bool named = false, run = false;
        for (size_t i : e.second) named = named || srv[i].name == x[TA_SERVERNAME], run = run || running[i];
        PBT_ASSERT(named, "%s: queue %s belongs to %s", at.c_str(), e.first.c_str(), x[TA_SERVERNAME].c_str());
        want("TA_LMID", x[TA_LMID], lmid());
        if (run) {
          PBT_ASSERT(ids.insert(x[TA_RQID]).second, "%s: two queues with identifier %s", at.c_str(), x[TA_RQID].c_str());
          struct msqid_ds d;
          PBT_ASSERT(msgctl(atoi(x[TA_RQID].c_str()), IPC_STAT, &d) == 0, "%s: queue %s of a running server does not exist as %s", at.c_str(), e.first.c_str(),
                     x[TA_RQID].c_str());
        }
      }
    }
  }
};
// queue name -> program, number of servers, as tmadmin prints it
static void check_printqueue(Model &m) {
  static int form = 0;
  auto r = tool({"tmadmin"}, 30, form++ % 2 ? "pq\n" : "help\nprintqueue\n");
  PBT_EQ(r.status, 0, m.at + ": status of tmadmin");
  std::multiset<std::string> got, exp;
  std::istringstream in(r.out);
  std::string line;
  bool body = false;
  while (std::getline(in, line)) {
    if (line.compare(0, 4, "----") == 0) {
      body = true;
      continue;
    }
    if (!body || line.compare(0, 2, "> ") == 0) continue;
    std::istringstream f(line);
    std::string prog, q, cnt;
    f >> prog >> q >> cnt;
    got.insert(q + " " + cnt);
  }
  std::map<std::string, int> n;
  for (auto &s : m.srv) n[s.rqaddr]++;
  for (auto &x : n) exp.insert(x.first + fmt(" %d", x.second));
  PBT_ASSERT(got == exp, "%s: tmadmin shows %s", m.at.c_str(), pbt::show(r.out, 2000).c_str());
}

// ---- configurations that are not running
static void in_child(std::function<void()> f) {
  int p[2];
  if (pipe2(p, O_CLOEXEC) != 0) pbt::fail("pipe");
  pid_t pid = proc::fork_own();
  if (pid == 0) {
    std::string s;
    int st = 0;
    try {
      f();
    } catch (pbt::Fail &e) {
      s = e.msg;
      st = 1;
    } catch (const std::exception &e) {
      s = fmt("exception: %s", e.what());
      st = 1;
    }
    for (size_t o = 0; o < s.size();) {
      ssize_t n = write(p[1], s.data() + o, s.size() - o);
      if (n <= 0) break;
      o += n;
    }
    _exit(st);
  }
  close(p[1]);
  std::string s;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof(b))) > 0) s.append(b, n);
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) == -1 && errno == EINTR)
    ;
  proc::disown(pid);
  dom::kill_all(getuid());
  dom::remove_ipc(getuid());
  if (!s.empty()) pbt::fail("%s", s.c_str());
  if (st) pbt::fail("the process ended with status 0x%x", st);
}
static uint32_t my_key;
static void configured(G &g) {
  ubb::Opts o;
  o.tuxconfig = getenv("TUXCONFIG");
  o.ipckey = my_key;
  ubb::Config c = ubb::gen(g, o);
  std::string text = ubb::print(g, c);
  g.log("%s", text.c_str());
  proc::write_file(std::string(getenv("HOME")) + "/ubb", text);
  auto r = tool({"tmloadcf", "-y", std::string(getenv("HOME")) + "/ubb"});
  if (r.status != 0) pbt::fail("tmloadcf: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
  Model m;
  m.init(c, my_key);
  struct Op {
    int kind;
    std::string svc;
    size_t server;
  };
  std::vector<Op> ops;
  std::vector<std::string> names;
  size_t max = std::min<long>(12, c.resources.num("MAXSERVICES", 100));
  for (size_t i = 0; i < max; i++) {
    std::string n = i == 0 && g.flip() ? std::string(31, 'N') : fmt("N%zu", i) + ubb::word(g, 20);
    names.push_back(n);
  }
  size_t n = g.below(30);
  for (size_t i = 0; i < n; i++) {
    Op x;
    x.kind = g.weighted({4, 2, 1});
    x.svc = g.pick(names);
    x.server = g.below(m.srv.size());
    ops.push_back(x);
    g.log("%s %s server %zu", x.kind == 0 ? "advertise" : x.kind == 1 ? "withdraw" : "withdraw everything", x.svc.c_str(), x.server);
  }
  bool reuse = g.flip();
  size_t every = 1 + g.below(8);
  size_t full = (size_t)c.resources.num("MAXSERVERS", 50) * c.resources.num("MAXSERVICES", 100);
  g.nontrivial(m.srv.size() > 1 && n > 2);
  in_child([&] {
    mib &b = getmib();
    for (size_t i = 0; i <= ops.size(); i++) {
      if (i) {
        auto &x = ops[i - 1];
        auto &s = m.srv[x.server];
        m.at = fmt("after step %zu", i);
        auto lock = b.data_lock();
        size_t at = b.find_server(s.srvid, s.grpno);
        PBT_ASSERT(at != mib::badoff, "server %ld of group %ld is not known", s.srvid, s.grpno);
        size_t q = b.servers().at(at).rqaddr;
        bool there = m.adv.count({x.svc, x.server}), refused = false;
        switch (x.kind) {
          case 0:
            if (m.adv.size() >= full) break;
            try {
              b.advertise(x.svc, q, at);
            } catch (const std::logic_error &) {
              refused = true;
            }
            PBT_EQ(refused, there, m.at + ": advertise refused");
            m.adv.insert({x.svc, x.server});
            m.known.insert(x.svc);
            break;
          case 1:
            try {
              b.unadvertise(x.svc, q, at);
            } catch (const std::logic_error &) {
              refused = true;
            }
            PBT_EQ(refused, !there, m.at + ": withdrawal refused");
            m.adv.erase({x.svc, x.server});
            break;
          default: {
            b.unadvertise(at);
            std::set<Adv> keep;
            for (auto &a : m.adv)
              if (a.server != x.server) keep.insert(a);
            m.adv = keep;
          }
        }
      } else
        m.at = "at first";
      if (i % every == 0 || i == ops.size())
        for (auto k : CLASSES) m.check(k, direct(k, reuse));
    }
    // what does not exist is refused
    for (auto k : {"T_NONE", "", "t_domain", "T_DOMAIN "}) {
      FBFR32 *q = query(k, "GET"), *o = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 0);
      PBT_ASSERT(tpadmcall(q, &o, 0) == -1 && tperrno == TPEINVAL, "class '%s' is not refused as invalid: %s", k, tpstrerror(tperrno));
    }
    for (auto k : {"get", "", "GETNEXT", "SETT"}) {
      FBFR32 *q = query("T_SERVER", k), *o = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 0);
      PBT_ASSERT(tpadmcall(q, &o, 0) == -1 && tperrno == TPEINVAL, "operation '%s' is not refused as invalid: %s", k, tpstrerror(tperrno));
    }
    for (int k = 0; k < 3; k++) {
      FBFR32 *q = query("T_SERVER", "GET"), *o = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 0);
      if (k != 1) Fdel32(q, TA_CLASS, 0);
      if (k != 0) Fdel32(q, TA_OPERATION, 0);
      PBT_ASSERT(tpadmcall(q, &o, 0) == -1 && tperrno != 0, "an incomplete request (%d) is not refused", k);
    }
    b.remove();
  });
}

// ---- running domains
static int g_w;
static char *cmdbuf(const std::string &s) {
  char *p = tpalloc((char *)"STRING", nullptr, s.size() + 1);
  strcpy(p, s.c_str());
  return p;
}
static long command(const ubb::Server &s, const std::string &cmd) {
  char *b = cmdbuf(cmd);
  long l;
  int rc = tpcall((char *)fmt("C%ld_%ld", s.grpno, s.srvid).c_str(), b, 0, &b, &l, 0);
  if (rc == -1) pbt::fail("cannot control server %ld of group %ld: %s", s.srvid, s.grpno, tpstrerror(tperrno));
  tpfree(b);
  return tpurcode;
}

// a request that .TMIB cannot answer
struct Senseless {
  std::string what, type, data, klass, op, to = ".TMIB";
  bool has_class = true, has_op = true;
};
static Senseless senseless(G &g) {
  Senseless s;
  switch (g.below(7)) {
    case 0: s.what = "no data"; break;
    case 1:
      s.what = "a string";
      s.type = "STRING";
      s.data = g.flip() ? std::string(g.bytes(g.below(200)).c_str()) : std::string(g.below(6000), 'x');
      break;
    case 2:
      s.what = "an array";
      s.type = "CARRAY";
      s.data = g.bytes(1 + g.below(300));
      break;
    case 3: {
      static const char *k[] = {"", "NOTHING", "DOMAINS", "DM_LOCAL"};
      s.what = "an unknown class";
      s.type = "FML32";
      s.klass = g.flip() ? std::string("T_") + g.pick(k) : std::string(g.below(5000), 'T');
      s.op = "GET";
      break;
    }
    case 4: {
      static const char *k[] = {"", "get", "NEXT", "GETNEXT"};
      s.what = "an unknown operation";
      s.type = "FML32";
      s.klass = g.pick(CLASSES);
      s.op = g.pick(k);
      break;
    }
    default:
      s.what = "an incomplete request";
      s.type = "FML32";
      s.klass = g.pick(CLASSES);
      s.op = "GET";
      s.has_class = g.flip();
      s.has_op = !s.has_class && g.flip();
  }
  return s;
}
static void send_senseless(Senseless s, bool tm) {
  if (tm) s.to = ".TM";
  char *b = nullptr;
  long l = 0;
  if (s.type == "FML32") {
    b = (char *)query(s.klass, s.op);
    if (!s.has_class) Fdel32((FBFR32 *)b, TA_CLASS, 0);
    if (!s.has_op) Fdel32((FBFR32 *)b, TA_OPERATION, 0);
  } else if (!s.type.empty()) {
    b = tpalloc((char *)s.type.c_str(), nullptr, s.data.size() + 1);
    memcpy(b, s.data.data(), s.data.size());
    if (s.type == "STRING") b[s.data.size()] = 0;
    l = s.data.size();
  }
  char *o = tpalloc((char *)"FML32", nullptr, 1024);
  long ol = 0;
  int rc = tpcall((char *)s.to.c_str(), b, l, &o, &ol, 0);
  PBT_ASSERT(rc == -1, "%s to %s was accepted", s.what.c_str(), s.to.c_str());
  PBT_ASSERT(tperrno == TPESVCFAIL || tperrno == TPESVCERR, "%s to %s: %s", s.what.c_str(), s.to.c_str(), tpstrerror(tperrno));
  if (b) tpfree(b);
  tpfree(o);
}
struct Step {
  enum { ADVERTISE, WITHDRAW, STOP, START, SENSELESS } kind;
  size_t pick;
  int name;  // -1: what it offers from the start
  Senseless s;
  bool tm;  // to the transaction manager
};
static void run_domain(const ubb::Config &c, const std::string &text, const std::vector<Step> &steps) {
  Model m;
  m.init(c, my_key);
  load(text);
  auto start = [&](size_t i) {
    auto &s = m.srv[i];
    m.running[i] = true;
    std::vector<std::string> names;
    if (s.name == "BBL") names = {".TMIB"};
    if (s.name == "vsa") names = {fmt("C%ld_%ld", s.grpno, s.srvid), fmt("S%ld", s.srvid % 3)};
    for (auto &n : names) m.adv.insert({n, i}), m.known.insert(n);
  };
  auto stop = [&](size_t i) {
    m.running[i] = false;
    std::set<Adv> keep;
    for (auto &a : m.adv)
      if (a.server != i) keep.insert(a);
    m.adv = keep;
  };
  sh->nrec = 0;
  boot();
  m.known.insert(".TM");
  for (size_t i = 0; i < m.srv.size(); i++)
    if (m.srv[i].autostart) start(i);
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
  // what transaction managers advertise is their business
  auto others = [&](const std::string &k, std::vector<Row> rows) {
    if (k != "T_SVCGRP") return rows;
    std::vector<Row> r;
    for (auto &x : rows)
      if (x[TA_SERVICENAME] != ".TM") r.push_back(x);
    return r;
  };
  auto views = [&] {
    for (auto k : CLASSES) m.check(k, others(k, ask(k)));
  };
  std::vector<size_t> mine;
  for (size_t i = 0; i < m.srv.size(); i++)
    if (m.srv[i].name == "vsa") mine.push_back(i);
  bool has_tms = false;
  for (auto &e : c.groups) has_tms = has_tms || !e.str("TMSNAME").empty();
  m.at = "after tmboot";
  views();
  for (size_t n = 0; n < steps.size(); n++) {
    auto &st = steps[n];
    size_t i = mine[st.pick % mine.size()];
    auto &s = m.srv[i];
    std::string name = st.name == -1 ? fmt("S%ld", s.srvid % 3) : fmt("X%d", st.name);
    bool there = m.adv.count({name, i});
    std::string who = fmt("step %zu, server %ld of group %ld: ", n, s.srvid, s.grpno);
    if (st.kind != Step::SENSELESS && m.running[i] == (st.kind == Step::START)) continue;
    if (st.kind == Step::START && !s.autostart) continue;
    switch (st.kind) {
      case Step::ADVERTISE:
        m.at = who + "advertises " + name;
        {
          long rc = command(s, "A 0 0 " + name);
          if (!(st.name == -1 && there)) PBT_EQ(rc, 0L, m.at);
        }
        m.adv.insert({name, i});
        m.known.insert(name);
        break;
      case Step::WITHDRAW:
        m.at = who + "withdraws " + name;
        PBT_EQ(command(s, "U 0 0 " + name) == 0, there, m.at);
        m.adv.erase({name, i});
        break;
      case Step::STOP: {
        m.at = who + "tmshutdown";
        auto x = tool({"tmshutdown", "-y", "-i", fmt("%ld", s.srvid), "-g", m.group(s.grpno)});
        if (x.status != 0) pbt::fail("%s: status %d %s", m.at.c_str(), x.status, pbt::show(x.err).c_str());
        stop(i);
        break;
      }
      case Step::START: {
        m.at = who + "tmboot";
        auto x = tool({"tmboot", "-y", "-i", fmt("%ld", s.srvid), "-g", m.group(s.grpno)});
        if (x.status != 0 || x.out.find("Failed") != std::string::npos) pbt::fail("%s: status %d %s", m.at.c_str(), x.status, pbt::show(x.out).c_str());
        start(i);
        break;
      }
      case Step::SENSELESS:
        m.at = fmt("step %zu, %s", n, st.s.what.c_str());
        send_senseless(st.s, has_tms && st.tm);
    }
    views();
  }
  check_printqueue(m);
  for (auto k : CLASSES) m.check(k, others(k, direct(k, true)));
  tpterm();
  auto x = tool({"tmshutdown", "-y"});
  if (x.status != 0) pbt::fail("tmshutdown: status %d %s", x.status, pbt::show(x.err).c_str());
}
static void domain(G &g) {
  std::string home = getenv("HOME");
  ubb::Config c;
  auto &r = c.resources;
  r.set("IPCKEY", fmt("%u", my_key));
  r.set("BLOCKTIME", "40");
  if (g.flip()) r.set("MAXSERVERS", fmt("%d", 30 + (int)g.below(20)));
  if (g.flip()) r.set("MAXSERVICES", fmt("%d", 60 + (int)g.below(100)));
  if (g.flip()) r.set("MAXACCESSERS", fmt("%d", 60 + (int)g.below(100)));
  ubb::Entry mach;
  mach.name = "host";
  mach.set("LMID", "simple");
  mach.set("TUXCONFIG", getenv("TUXCONFIG"));
  mach.set("TUXDIR", tuxdir());
  mach.set("APPDIR", home);
  mach.set("ULOGPFX", "/nonexistent/ULOG");
  c.machines.push_back(mach);
  size_t ng = 1 + g.below(3);
  for (size_t i = 0; i < ng; i++) {
    ubb::Entry e;
    e.name = fmt("GROUP%zu", i);
    e.set("GRPNO", fmt("%zu", 1 + i * 7));
    if (g.chance(1, 4)) {
      e.set("TMSNAME", "TMS");
      e.set("TMSCOUNT", "2");
    }
    c.groups.push_back(e);
  }
  size_t ns = 1 + g.below(4);
  for (size_t i = 0; i < ns; i++) {
    ubb::Entry e;
    e.name = "vsa";
    e.set("SRVGRP", g.pick(c.groups).name);
    e.set("SRVID", fmt("%zu", 10 * (i + 1)));
    if (g.chance(1, 3)) {
      e.set("MAX", fmt("%d", 1 + (int)g.below(3)));
      e.set("MIN", "1");
    }
    if (g.chance(1, 3)) e.set("CLOPT", "-A");
    c.servers.push_back(e);
  }
  std::vector<Step> steps(2 + g.below(10));
  bool down = false;
  for (auto &s : steps) {
    s.kind = (decltype(s.kind))g.weighted({4, 3, 2, 2, 3});
    s.pick = g.below(12);
    s.name = (int)g.below(6) - 1;
    if (s.kind == Step::SENSELESS) s.s = senseless(g), s.tm = g.chance(1, 3);
    if (s.kind == Step::STOP) down = true;
    static const char *n[] = {"advertise", "withdraw", "stop", "start", "senseless request"};
    g.log("%s: server %zu, service %d%s", n[s.kind], s.pick, s.name, s.kind == Step::SENSELESS ? (", " + s.s.what).c_str() : "");
  }
  std::string text = ubb::print(g, c);
  g.nontrivial(down || ns > 2);
  in_child([&] { run_domain(c, text, steps); });
}
static void setup(int w) {
  enter(w, {"vsa"});
  my_key = dom::key(w);
}
int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "A01";
  c.rule =
      "configured: what tpadmcall shows for generated configurations and histories of advertised services, and what it refuses. domain: what .TMIB, tpadmcall and "
      "tmadmin show while servers of a generated domain advertise, withdraw, stop and start, and after requests that make no sense. Non-trivial: several servers and "
      "changes.";
  c.subs = {{"configured", configured, 1500, 30000, 40}, {"domain", domain, 100, 2500, 4}};
  c.assumptions = {"Attributes without an effect (such as TA_GRACE) are not compared.", "T_GROUP and SET operations, which are unfinished, are not used."};
  c.setup = setup;
  common(c, 64460);
  c.repro_n = 4;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
