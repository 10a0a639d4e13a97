// Configurations: a model and its text with a random layout.
#pragma once
#include "pbt.hpp"
namespace ubb {
using pbt::fmt;
using pbt::G;
struct Param {
  std::string k, v;
};
struct Entry {
  std::string name;
  std::vector<Param> params;
  const std::string *get(const std::string &k) const {
    for (auto &p : params)
      if (p.k == k) return &p.v;
    return nullptr;
  }
  std::string str(const std::string &k, const std::string &def = "") const {
    auto p = get(k);
    return p ? *p : def;
  }
  long num(const std::string &k, long def) const {
    auto p = get(k);
    return p ? atol(p->c_str()) : def;
  }
  void set(const std::string &k, const std::string &v) {
    for (auto &p : params)
      if (p.k == k) {
        p.v = v;
        return;
      }
    params.push_back({k, v});
  }
  void del(const std::string &k) {
    for (size_t i = 0; i < params.size(); i++)
      if (params[i].k == k) {
        params.erase(params.begin() + i);
        return;
      }
  }
};
struct Config {
  Entry resources;
  std::vector<Entry> machines, groups, servers, services;
};

inline std::string word(G &g, size_t max) {
  static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-.:/,+@";
  size_t n = 1 + (g.chance(1, 8) ? g.below(max) : g.below(std::min<size_t>(max, 10)));
  if (g.chance(1, 40)) n = max;
  std::string s;
  s += cs[g.below(52)];
  while (s.size() < n) s += cs[g.below(sizeof(cs) - 1)];
  return s;
}
// may need quotes
inline std::string text(G &g, size_t max) {
  if (!g.chance(1, 3)) return word(g, max);
  size_t n = g.chance(1, 40) ? max : g.size(std::min<size_t>(max, 60));
  std::string s;
  for (size_t i = 0; i < n; i++) {
    static const char cs[] = "ab Z09 =#*-/:.,;'\\\t%$()[]{}<>|&!?";
    s += cs[g.below(sizeof(cs) - 1)];
  }
  return s;
}
inline bool bare(const std::string &s) {
  if (s.empty() || s[0] == '"' || s[0] == '*') return false;
  for (char c : s)
    if (isspace((unsigned char)c) || c == '#' || c == '=' || c == '"') return false;
  return true;
}
inline std::string quote(G &g, const std::string &s) { return bare(s) && !g.chance(1, 3) ? s : "\"" + s + "\""; }
inline std::string comment(G &g) {
  std::string s = "#";
  size_t n = g.below(30);
  for (size_t i = 0; i < n; i++) {
    static const char cs[] = "abc =#*\"'XYZ \tIPCKEY 1*RESOURCES";
    s += cs[g.below(sizeof(cs) - 1)];
  }
  return s;
}
inline std::string blank(G &g) { return std::string(1 + g.below(3), g.flip() ? ' ' : '\t'); }
inline void filler(G &g, std::string &o) {
  while (g.chance(1, 5)) switch (g.below(3)) {
      case 0: o += "\n"; break;
      case 1: o += comment(g) + "\n"; break;
      default: o += "\n" + comment(g) + "\n"; break;
    }
}
inline void eol(G &g, std::string &o) {
  if (g.chance(1, 6)) o += blank(g);
  if (g.chance(1, 10)) o += blank(g) + comment(g);
  o += "\n";
}
inline void entry(G &g, std::string &o, const Entry &e, bool shuffle) {
  std::vector<Param> ps = e.params;
  if (shuffle)
    for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[g.below(i)]);
  o += quote(g, e.name);
  for (auto &p : ps) {
    if (g.chance(1, 3)) {
      eol(g, o);
      if (g.chance(1, 12)) o += blank(g) + comment(g) + "\n";
    }
    o += blank(g) + (g.chance(1, 15) ? "\"" + p.k + "\"" : p.k);
    if (g.chance(1, 6)) o += blank(g);
    o += "=";
    if (g.chance(1, 6)) o += blank(g);
    o += quote(g, p.v);
  }
  eol(g, o);
  filler(g, o);
}
// the text of a configuration
inline std::string print(G &g, const Config &c, bool shuffle = true) {
  std::string o;
  auto section = [&](const char *n) {
    filler(g, o);
    o += fmt("*%s", n);
    eol(g, o);
    filler(g, o);
  };
  section("RESOURCES");
  std::vector<Param> ps = c.resources.params;
  if (shuffle)
    for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[g.below(i)]);
  for (auto &p : ps) {
    if (g.chance(1, 6)) o += blank(g);
    o += p.k + blank(g) + quote(g, p.v);
    eol(g, o);
    filler(g, o);
  }
  section("MACHINES");
  for (auto &e : c.machines) entry(g, o, e, shuffle);
  section("GROUPS");
  for (auto &e : c.groups) entry(g, o, e, shuffle);
  section("SERVERS");
  for (auto &e : c.servers) entry(g, o, e, shuffle);
  if (!c.services.empty()) {
    section("SERVICES");
    for (auto &e : c.services) entry(g, o, e, shuffle);
  }
  if (g.chance(1, 10)) {
    section("ROUTING");
    if (g.flip()) o += "RT FIELD=X RANGES=\"1-10:A\"\n";
  }
  if (g.chance(1, 12) && o.back() == '\n') o.pop_back();
  return o;
}

struct Opts {
  std::string tuxconfig, tuxdir, appdir;
  uint32_t ipckey = 0;
  size_t max_groups = 5, max_servers = 6, max_instances = 4;
};
inline std::string num(G &g, long v) {
  if (g.chance(1, 12)) return fmt("0%ld", v);
  return fmt("%ld", v);
}
// a valid configuration
inline Config gen(G &g, const Opts &o) {
  Config c;
  auto &r = c.resources;
  r.set("IPCKEY", o.ipckey ? fmt("%u", o.ipckey) : num(g, g.chance(1, 4) ? g.range(1, 2147483647) : g.range(1, 100000)));
  Entry m;
  m.name = g.chance(1, 3) ? text(g, 63) : word(g, 63);
  if (m.name.empty()) m.name = "host";
  m.set("LMID", word(g, 29));
  m.set("TUXCONFIG", o.tuxconfig);
  m.set("TUXDIR", o.tuxdir.empty() ? "/" + text(g, 254) : o.tuxdir);
  m.set("APPDIR", o.appdir.empty() ? "/" + text(g, 254) : o.appdir);
  if (g.chance(1, 3)) m.set("ULOGPFX", text(g, 255));
  if (g.chance(1, 3)) m.set("TLOGDEVICE", text(g, 255));
  if (g.chance(1, 5)) m.set("UNUSED", text(g, 20));
  c.machines.push_back(m);
  size_t ng = g.below(o.max_groups + 1);
  std::set<long> nos;
  std::set<std::string> names;
  size_t total = 1;
  std::set<std::string> queues = {".BBL"};
  for (size_t i = 0; i < ng; i++) {
    Entry e;
    e.name = word(g, 29);
    if (names.count(e.name)) e.name = fmt("GROUP.%zu", i);
    if (!names.insert(e.name).second) e.name += "x", names.insert(e.name);
    long no;
    no = g.chance(1, 6) ? g.range(1, 30000) : g.range(1, 12);
    while (!nos.insert(no).second) no = 1 + no % 30000;
    e.set("GRPNO", num(g, no));
    if (g.flip()) e.set("OPENINFO", text(g, 255));
    if (g.flip()) e.set("CLOSEINFO", text(g, 255));
    if (g.chance(1, 4)) e.set("LMID", m.str("LMID"));
    if (g.chance(1, 3)) {
      e.set("TMSNAME", word(g, 127));
      if (g.flip()) e.set("TMSCOUNT", num(g, g.range(2, 10)));
      total += e.num("TMSCOUNT", 3);
      queues.insert(fmt("%ld.TM", no));
    }
    c.groups.push_back(e);
  }
  if (ng) {
    size_t ns = g.below(o.max_servers + 1);
    std::set<std::pair<std::string, long>> ids;
    for (size_t i = 0; i < ns; i++) {
      Entry e;
      e.name = word(g, 127);
      auto &grp = g.pick(c.groups);
      e.set("SRVGRP", grp.name);
      long mn = 1, mx = 1;
      if (g.chance(1, 3)) {
        mx = g.range(1, o.max_instances);
        e.set("MAX", num(g, mx));
      }
      if (g.chance(1, 3)) {
        mn = g.range(1, g.chance(1, 5) ? mx + 2 : mx);
        e.set("MIN", num(g, mn));
      }
      long id;
      bool ok;
      int tries = 0;
      do {
        id = g.chance(1, 6) && tries == 0 ? g.range(1, 30000 - mx) : g.range(1, 30) + 50 * tries;
        tries++;
        ok = true;
        for (long k = 0; k < mx; k++) ok = ok && !ids.count({grp.name, id + k});
      } while (!ok);
      for (long k = 0; k < mx; k++) ids.insert({grp.name, id + k});
      e.set("SRVID", num(g, id));
      if (g.chance(1, 3)) e.set("CLOPT", text(g, 1023));
      if (g.chance(1, 4)) e.set("RQADDR", g.flip() ? word(g, 31) : std::string("shared"));
      if (g.chance(1, 5)) e.set("MINDISPATCHTHREADS", num(g, g.range(1, 1000)));
      if (g.chance(1, 5)) e.set("MAXDISPATCHTHREADS", num(g, g.range(1, 1000)));
      total += mx;
      std::string q = e.str("RQADDR");
      for (long k = 0; k < mx; k++) queues.insert(q.empty() ? fmt("%ld.%ld", grp.num("GRPNO", 0), id + k) : q);
      c.servers.push_back(e);
    }
  }
  if (total > 50 || g.chance(1, 3)) r.set("MAXSERVERS", num(g, total + (g.chance(1, 3) ? 0 : g.below(50))));
  if (queues.size() > 50 || g.chance(1, 3)) r.set("MAXQUEUES", num(g, queues.size() + (g.chance(1, 3) ? 0 : g.below(50))));
  if (c.groups.size() > 100 || g.chance(1, 3)) r.set("MAXGROUPS", num(g, std::max<size_t>(1, c.groups.size() + (g.chance(1, 3) ? 0 : g.below(50)))));
  if (g.chance(1, 3)) r.set("MAXSERVICES", num(g, g.range(1, g.chance(1, 4) ? 3000 : 50)));
  if (g.chance(1, 3)) r.set("MAXACCESSERS", num(g, g.range(1, g.chance(1, 4) ? 3000 : 50)));
  if (g.chance(1, 3)) r.set("BLOCKTIME", num(g, g.range(1, 300)));
  if (g.chance(1, 3)) {
    static const char *ms[] = {"MS", "ms", "Ms", "mS"};
    r.set("SCANUNIT", g.flip() ? fmt("%d%s", (int)g.range(1, 60) * (g.flip() ? 100 : 7), g.pick(ms)) : fmt("%d", (int)g.range(1, 60)));
  }
  static const char *extra[][2] = {{"MASTER", "simple"}, {"MODEL", "SHM"}, {"LDBAL", "Y"}, {"DOMAINID", "dom 1"}};
  for (auto &x : extra)
    if (g.chance(1, 5)) r.set(x[0], x[1]);
  if (g.chance(1, 4)) {
    Entry s;
    s.name = word(g, 20);
    s.set("LOAD", "50");
    c.services.push_back(s);
  }
  return c;
}
// milliseconds
inline long blocktime(const Config &c) {
  std::string s = c.resources.str("SCANUNIT", "1000MS");
  long unit = atol(s.c_str());
  if (!(s.size() > 2 && strcasecmp(s.c_str() + s.size() - 2, "ms") == 0)) unit *= 1000;
  return c.resources.num("BLOCKTIME", 15) * unit;
}
struct Server {
  long srvid, grpno, minthreads, maxthreads;
  std::string name, clopt, rqaddr;
  bool autostart;
  long base = -1, min = -1, max = -1;
};
inline std::vector<Server> servers(const Config &c) {
  std::vector<Server> v;
  v.push_back({0, 0, -1, -1, "BBL", "-A", ".BBL", true});
  for (auto &e : c.groups)
    if (!e.str("TMSNAME").empty())
      for (long n = 0; n < e.num("TMSCOUNT", 3); n++)
        v.push_back({30001 + n, e.num("GRPNO", 0), -1, -1, e.str("TMSNAME"), "-A", fmt("%ld.TM", e.num("GRPNO", 0)), true});
  for (auto &e : c.servers) {
    long grpno = 0;
    for (auto &x : c.groups)
      if (x.name == e.str("SRVGRP")) grpno = x.num("GRPNO", 0);
    for (long n = 0; n < e.num("MAX", 1); n++) {
      long id = e.num("SRVID", 0) + n;
      v.push_back({id, grpno, e.num("MINDISPATCHTHREADS", 1), e.num("MAXDISPATCHTHREADS", 1), e.name, e.str("CLOPT"),
                   e.str("RQADDR").empty() ? fmt("%ld.%ld", grpno, id) : e.str("RQADDR"), n < e.num("MIN", 1), e.num("SRVID", 0), e.num("MIN", 1), e.num("MAX", 1)});
    }
  }
  return v;
}
}  // namespace ubb
