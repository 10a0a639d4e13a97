// C01: a configuration file is loaded faithfully.
#include <atmi.h>
#include <mib.h>
#include <ubbreader.h>
#include <map>
#include <sstream>
#include "ubbgen.hpp"
#include "proc.hpp"
using pbt::fmt;
using pbt::G;
void ubb2mib(ubbconfig &u, mib &m);

static void check_registry(mib &m, const ubb::Config &c) {
  auto &mach = m.mach();
  auto &e = c.machines[0];
  PBT_EQ(std::string(mach.address), e.name, "machine");
  PBT_EQ(std::string(mach.lmid), e.str("LMID"), "LMID");
  PBT_EQ(std::string(mach.tuxconfig), e.str("TUXCONFIG"), "TUXCONFIG");
  PBT_EQ(std::string(mach.tuxdir), e.str("TUXDIR"), "TUXDIR");
  PBT_EQ(std::string(mach.appdir), e.str("APPDIR"), "APPDIR");
  PBT_EQ(std::string(mach.ulogpfx), e.str("ULOGPFX"), "ULOGPFX");
  PBT_EQ(std::string(mach.tlogdevice), e.str("TLOGDEVICE"), "TLOGDEVICE");
  PBT_EQ((long)mach.blocktime, ubb::blocktime(c), "block time in milliseconds");
  auto &r = c.resources;
  auto &d = m.domain();
  PBT_EQ((long)d.ipckey, r.num("IPCKEY", 0), "IPCKEY of the domain");
  PBT_EQ((long)d.maxservers, r.num("MAXSERVERS", 50), "MAXSERVERS");
  PBT_EQ((long)d.maxservices, r.num("MAXSERVICES", 100), "MAXSERVICES");
  PBT_EQ((long)d.maxqueues, r.num("MAXQUEUES", 50), "MAXQUEUES");
  PBT_EQ((long)d.maxgroups, r.num("MAXGROUPS", 100), "MAXGROUPS");
  PBT_EQ((long)d.maxaccessers, r.num("MAXACCESSERS", 50), "MAXACCESSERS");
  PBT_EQ((long)m.servers().size(), r.num("MAXSERVERS", 50), "room for servers");
  PBT_EQ((long)m.services().size(), r.num("MAXSERVICES", 100), "room for services");
  PBT_EQ((long)m.queues().size(), r.num("MAXQUEUES", 50), "room for queues");
  PBT_EQ((long)m.groups().size(), r.num("MAXGROUPS", 100), "room for groups");
  PBT_EQ((long)m.accessers().size(), r.num("MAXACCESSERS", 50), "room for clients");

  PBT_EQ((size_t)m.groups()->len, c.groups.size(), "number of groups");
  for (auto &g : c.groups) {
    size_t i = m.find_group(g.num("GRPNO", 0));
    PBT_ASSERT(i != mib::badoff, "group number %ld does not exist", g.num("GRPNO", 0));
    auto &x = m.groups().at(i);
    PBT_EQ(std::string(x.srvgrp), g.name, "group name");
    PBT_EQ(std::string(x.openinfo), g.str("OPENINFO"), "OPENINFO");
    PBT_EQ(std::string(x.closeinfo), g.str("CLOSEINFO"), "CLOSEINFO");
    PBT_EQ(std::string(x.tmsname), g.str("TMSNAME"), "TMSNAME");
  }
  auto want = ubb::servers(c);
  PBT_EQ((size_t)m.servers()->len, want.size(), "number of servers");
  std::map<std::string, long> q;
  for (auto &s : want) {
    size_t i = m.find_server(s.srvid, s.grpno);
    PBT_ASSERT(i != mib::badoff, "server %ld of group %ld does not exist", s.srvid, s.grpno);
    auto &x = m.servers().at(i);
    std::string what = fmt("server %ld of group %ld: ", s.srvid, s.grpno);
    PBT_EQ(std::string(x.servername), s.name, what + "name");
    PBT_EQ(std::string(x.clopt), s.clopt, what + "CLOPT");
    PBT_EQ(std::string(m.queues().at(x.rqaddr).rqaddr), s.rqaddr, what + "RQADDR");
    PBT_ASSERT(x.autostart == s.autostart, "%sstarted %s", what.c_str(), x.autostart ? "but not configured to" : "not although configured to");
    if (s.minthreads >= 0) {
      PBT_EQ((long)x.mindispatchthreads, s.minthreads, what + "MINDISPATCHTHREADS");
      PBT_EQ((long)x.maxdispatchthreads, s.maxthreads, what + "MAXDISPATCHTHREADS");
    }
    PBT_EQ((long)x.pid, 0L, what + "process");
    q[s.rqaddr]++;
  }
  PBT_EQ((size_t)m.queues()->len, q.size(), "number of queues");
  for (auto &x : q) {
    size_t i = m.find_queue(x.first);
    PBT_ASSERT(i != mib::badoff, "queue %s does not exist", x.first.c_str());
    PBT_EQ((long)m.queues().at(i).servercnt, x.second, "servers of queue " + x.first);
  }
  PBT_EQ((size_t)m.services()->len, (size_t)0, "number of services");
}

static void check_parsed(const ubbconfig &u, const ubb::Config &c) {
  for (auto &p : c.resources.params) {
    auto i = u.resources.find(p.k);
    PBT_ASSERT(i != u.resources.end(), "resource %s is missing", p.k.c_str());
    PBT_EQ(i->second, p.v, "resource " + p.k);
  }
  auto section = [](const char *n, const ubb_section &s, const std::vector<ubb::Entry> &want) {
    PBT_EQ(s.size(), want.size(), fmt("entries in %s", n));
    for (size_t i = 0; i < want.size(); i++) {
      PBT_EQ(s[i].first, want[i].name, fmt("entry %zu of %s", i, n));
      PBT_EQ(s[i].second.size(), want[i].params.size(), fmt("parameters of %s", want[i].name.c_str()));
      for (auto &p : want[i].params) {
        auto f = s[i].second.find(p.k);
        PBT_ASSERT(f != s[i].second.end(), "parameter %s of %s is missing", p.k.c_str(), want[i].name.c_str());
        PBT_EQ(f->second, p.v, fmt("parameter %s of %s", p.k.c_str(), want[i].name.c_str()));
      }
    }
  };
  section("MACHINES", u.machines, c.machines);
  section("GROUPS", u.groups, c.groups);
  section("SERVERS", u.servers, c.servers);
}

static std::string casedir() {
  static int n = 0;
  std::string d = pbt::g_scratch + fmt("/c%d.%d", getpid(), n++);
  proc::mkdirs(d);
  return d;
}

static void load(G &g) {
  std::string d = casedir(), tux = getenv("TUXDIR");
  struct Rm {
    std::string d;
    ~Rm() { proc::rmtree(d); }
  } rm{d};
  ubb::Opts o;
  o.tuxconfig = d + "/tuxconfig";
  ubb::Config c = ubb::gen(g, o);
  std::string text = ubb::print(g, c);
  g.log("%s", text.c_str());
  proc::write_file(d + "/ubb", text);
  setenv("TUXCONFIG", o.tuxconfig.c_str(), 1);
  if (g.chance(1, 3)) proc::write_file(o.tuxconfig, g.flip() ? g.bytes(g.size(3000)) : std::string());
  std::vector<std::string> av = {tux + "/bin/tmloadcf"};
  if (g.flip()) av.push_back("-y");
  av.push_back(d + "/ubb");
  auto r = proc::run(av);
  PBT_ASSERT(r.status == 0, "tmloadcf refused a valid configuration: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
  r = proc::run({tux + "/bin/tmunloadcf"});
  PBT_ASSERT(r.status == 0, "tmunloadcf failed: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
  PBT_ASSERT(r.out == text, "tmunloadcf printed another text: %s", pbt::show(r.out, 3000).c_str());
  ubbconfig u;
  tuxconfig cfg = getconfig(&u);
  PBT_EQ((long)cfg.ipckey, c.resources.num("IPCKEY", 0), "IPCKEY");
  check_parsed(u, c);
  mib m(cfg, fux::mib::in_heap());
  m.conf() = cfg;  // as the shared memory constructor does
  ubb2mib(u, m);
  check_registry(m, c);
  free(m.operator->());
  g.nontrivial(c.servers.size() >= 2 && c.groups.size() >= 1);
  if (text.find('#') != std::string::npos) g.label("with comments");
  for (auto &e : c.servers)
    if (e.num("MAX", 1) > 1) g.label("with several instances");
  for (auto &e : c.groups)
    if (!e.str("TMSNAME").empty()) g.label("with transaction managers");
}

// the same configuration in two layouts
static void parse(G &g) {
  ubb::Opts o;
  o.tuxconfig = "/tmp/none";
  o.max_groups = 8;
  o.max_servers = 12;
  ubb::Config c = ubb::gen(g, o);
  std::string text = ubb::print(g, c);
  g.log("%s", text.c_str());
  std::istringstream is(text);
  ubbconfig u;
  try {
    u = ubbreader(is).parse();
  } catch (basic_parser_error &e) {
    pbt::fail("refused at line %d: %s %s", e.row, e.what(), e.extra.c_str());
  }
  check_parsed(u, c);
  g.nontrivial(c.servers.size() >= 2 && c.groups.size() >= 1);
}

// text that was not generated by a grammar: an error or a result, nothing else
static void soup(G &g) {
  std::string t;
  if (g.flip()) {
    ubb::Opts o;
    o.tuxconfig = "/tmp/none";
    t = ubb::print(g, ubb::gen(g, o));
    for (size_t n = 1 + g.below(4); n; n--) {
      size_t p = g.below(t.size() + 1);
      switch (g.below(4)) {
        case 0: t.resize(p); break;
        case 1: t.insert(p, g.bytes(1 + g.below(4))); break;
        case 2: t.erase(p, 1 + g.below(10)); break;
        default: t.insert(p, t.substr(g.below(t.size() + 1), g.below(200))); break;
      }
    }
  } else {
    static const char *tok[] = {"*", "RESOURCES", "\n", " ", "=", "\"", "#", "IPCKEY", "1", "*SERVERS\n", "A=B", "*MACHINES\n", "\t", "x", "\xff", "\r"};
    for (size_t n = g.below(40); n; n--) t += g.pick(tok);
  }
  g.log("%s", pbt::show(t, 500).c_str());
  std::istringstream is(t);
  try {
    ubbreader(is).parse();
    g.label("accepted");
  } catch (basic_parser_error &e) {
    g.label("refused");
    PBT_ASSERT(strlen(e.what()) > 0, "refused without a message");
  }
  g.nontrivial(t.size() > 4);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "C01";
  c.fds = true;
  c.rule =
      "load: configurations from a model with a random layout through tmloadcf and tmunloadcf, and the registry derived from what was stored compared "
      "with the model; parse: the parsed sections compared; soup: damaged text. Non-trivial: at least 2 servers and a group; text longer than 4.";
  c.subs = {
      {"load", load, 2500, 40000},
      {"parse", parse, 40000, 600000},
      {"soup", soup, 40000, 600000},
  };
  c.stack_mb = 512;
  return pbt::main(argc, argv, c);
}
