// C02: invalid configurations are refused and the previous one is kept.
#include <fcntl.h>
#include "ubbgen.hpp"
#include "domain.hpp"
using pbt::fmt;
using pbt::G;

static std::string tux() { return getenv("TUXDIR"); }
struct Case {
  std::string d, tuxconfig, ubb;
  Case() {
    static int n = 0;
    d = std::string(getenv("HOME")) + fmt("/c%d.%d", getpid(), n++);
    proc::mkdirs(d);
    tuxconfig = d + "/tuxconfig";
    ubb = d + "/ubb";
  }
  ~Case() { proc::rmtree(d); }
  std::string before;
  bool had = false;
  // what was loaded before
  void previous(G &g, const std::string &valid) {
    switch (g.below(4)) {
      case 0: return;
      case 1: before = g.bytes(g.size(4000)); break;
      default: {
        proc::write_file(ubb, valid);
        auto r = proc::run({tux() + "/bin/tmloadcf", "-y", ubb}, "", 30, {"TUXCONFIG=" + tuxconfig});
        PBT_ASSERT(r.status == 0, "a valid configuration was refused: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
        PBT_ASSERT(proc::exists(tuxconfig), "a valid configuration was not stored");
        before = proc::read_file(tuxconfig);
        had = true;
        return;
      }
    }
    proc::write_file(tuxconfig, before);
    had = true;
  }
  void unchanged(const char *what) {
    if (had) {
      PBT_ASSERT(proc::exists(tuxconfig), "%s: the previous configuration was removed", what);
      PBT_ASSERT(proc::read_file(tuxconfig) == before, "%s: the previous configuration was changed", what);
    } else {
      PBT_ASSERT(!proc::exists(tuxconfig), "%s: a configuration file was created", what);
    }
    for (auto &f : proc::list(d)) PBT_ASSERT(f == "ubb" || f == "tuxconfig", "%s: left a file %s", what, f.c_str());
  }
};
static std::vector<std::string> command(G &g, const Case &c, bool noop) {
  std::vector<std::string> av = {tux() + "/bin/tmloadcf"};
  if (noop) av.push_back("-n");
  if (g.flip()) av.push_back("-y");
  av.push_back(c.ubb);
  return av;
}

// breaks a valid configuration in one way; in the model, or in its text
static std::string damage(G &g, ubb::Config &c, std::string &what) {
  auto bad_number = [&](long lo, long hi) -> std::string {
    switch (g.below(5)) {
      case 0: return fmt("%ld", lo - 1 - (long)g.below(3));
      case 1: return fmt("%ld", hi + 1 + (long)g.below(3));
      case 2: return g.flip() ? "99999999999999999999" : "-99999999999999999999";
      case 3: return g.flip() ? "x" : "five";
      default: return fmt("%ld", hi + 1 + (long)g.below(1000000));
    }
  };
  auto too_long = [&](size_t max) { return std::string(max + 1 + (g.flip() ? 0 : g.below(3000)), 'L'); };
  size_t ng = c.groups.size(), ns = c.servers.size();
  for (int tries = 0;; tries++) {
    auto &m = c.machines[0];
    auto *grp = ng ? &c.groups[g.below(ng)] : nullptr;
    auto *srv = ns ? &c.servers[g.below(ns)] : nullptr;
    switch (tries < 8 ? g.below(24) : 0) {
      case 0: c.resources.del("IPCKEY"); what = "no IPCKEY"; break;
      case 1: c.resources.set("IPCKEY", g.pick(std::vector<std::string>{"abc", "", "-", "99999999999", "+"})); what = "bad IPCKEY"; break;
      case 2: {
        static const char *k[] = {"LMID", "TUXDIR", "APPDIR", "TUXCONFIG"};
        const char *x = g.pick(k);
        m.del(x);
        what = fmt("no %s", x);
        break;
      }
      case 3: c.machines.clear(); what = "no machine"; break;
      case 4: {
        auto n = m;
        n.name += "2";
        if (n.name.size() > 60) n.name = "other";
        n.set("LMID", "other");
        c.machines.push_back(n);
        what = "two machines";
        break;
      }
      case 5: m.set("TUXCONFIG", m.str("TUXCONFIG") + (g.flip() ? "x" : "/")); what = "another TUXCONFIG"; break;
      case 6: {
        static const struct {
          const char *k;
          size_t max;
        } l[] = {{"LMID", 29}, {"TUXDIR", 255}, {"APPDIR", 255}, {"ULOGPFX", 255}, {"TLOGDEVICE", 255}};
        auto &x = g.pick(l);
        m.set(x.k, too_long(x.max));
        what = fmt("too long %s", x.k);
        break;
      }
      case 7: {
        static const struct {
          const char *k;
          long max;
        } l[] = {{"MAXSERVERS", 8192}, {"MAXSERVICES", 65535}, {"MAXQUEUES", 8192}, {"MAXGROUPS", 32768}, {"MAXACCESSERS", 32768}};
        auto &x = g.pick(l);
        c.resources.set(x.k, bad_number(1, x.max));
        what = fmt("bad %s", x.k);
        break;
      }
      case 8: c.resources.set(g.flip() ? "BLOCKTIME" : "SCANUNIT", g.pick(std::vector<std::string>{"x", "MS", "ten", "."})); what = "bad time"; break;
      case 9:
        if (!grp) continue;
        grp->del("GRPNO");
        what = "no GRPNO";
        break;
      case 10:
        if (!grp) continue;
        grp->set("GRPNO", bad_number(1, 30000));
        what = "bad GRPNO";
        break;
      case 11:
        if (!grp) continue;
        switch (g.below(4)) {
          case 0: grp->set("OPENINFO", too_long(255)); break;
          case 1: grp->set("CLOSEINFO", too_long(255)); break;
          case 2: grp->set("TMSNAME", too_long(127)); break;
          default: {
            std::string n = grp->name, l = too_long(29);
            grp->name = l;
            for (auto &s : c.servers)
              if (s.str("SRVGRP") == n) s.set("SRVGRP", l);
          }
        }
        what = "too long text in a group";
        break;
      case 12:
        if (!grp) continue;
        grp->set("TMSNAME", "TMS");
        grp->set("TMSCOUNT", bad_number(2, 10));
        c.resources.set("MAXSERVERS", "8000");
        c.resources.set("MAXQUEUES", "8000");
        what = "bad TMSCOUNT";
        break;
      case 13:
        if (!srv) continue;
        srv->del("SRVID");
        what = "no SRVID";
        break;
      case 14:
        if (!srv) continue;
        srv->del("SRVGRP");
        what = "no SRVGRP";
        break;
      case 15:
        if (!srv) continue;
        srv->set("SRVGRP", g.flip() ? "" : srv->str("SRVGRP") + ".none");
        what = "undefined group";
        break;
      case 16:
        if (!srv) continue;
        srv->set("SRVID", bad_number(1, 30000));
        what = "bad SRVID";
        break;
      case 17: {
        if (!srv) continue;
        static const char *k[] = {"MIN", "MAX", "MINDISPATCHTHREADS", "MAXDISPATCHTHREADS"};
        const char *x = g.pick(k);
        srv->set(x, bad_number(1, 1000));
        c.resources.set("MAXSERVERS", "8000");
        c.resources.set("MAXQUEUES", "8000");
        what = fmt("bad %s", x);
        break;
      }
      case 18:
        if (!srv) continue;
        switch (g.below(3)) {
          case 0: srv->name = too_long(127); break;
          case 1: srv->set("CLOPT", too_long(1023)); break;
          default: srv->set("RQADDR", too_long(31)); break;
        }
        what = "too long text in a server";
        break;
      case 19: {
        // more entities than there is room for
        auto all = ubb::servers(c);
        std::set<std::string> q;
        for (auto &s : all) q.insert(s.rqaddr);
        switch (g.below(3)) {
          case 0:
            if (all.size() < 2) continue;
            c.resources.set("MAXSERVERS", fmt("%ld", (long)g.range(1, all.size() - 1)));
            break;
          case 1:
            if (q.size() < 2) continue;
            c.resources.set("MAXQUEUES", fmt("%ld", (long)g.range(1, q.size() - 1)));
            break;
          default:
            if (ng < 2) continue;
            c.resources.set("MAXGROUPS", fmt("%ld", (long)g.range(1, ng - 1)));
            break;
        }
        what = "more than there is room for";
        break;
      }
      case 20: {
        std::string t = ubb::print(g, c), bad;
        if (t.empty() || t.back() != '\n') t += "\n";
        static const char *sec[] = {"MACHINES", "GROUPS", "SERVERS"};
        static const char *line[] = {"NAME KEY", "NAME KEY\n", "NAME KEY=", "NAME KEY=\n", "NAME KEY=\"open", "NAME KEY=\"open\n", "\"NAME", "NAME =\n", "NAME KEY \"VALUE\"\n",
                                     "NAME A=B C\n", "NAME A=B C=#D\n", "NAME A=B\n KEY\n", "NAME A=B\n C=\n"};
        what = "bad entry";
        return t + fmt("*%s\n%s", g.pick(sec), g.pick(line));
      }
      case 21: {
        std::string t = ubb::print(g, c);
        if (t.back() != '\n') t += "\n";
        static const char *line[] = {"*RESOURCES\nPARAM\n", "*RESOURCES\nPARAM", "*RESOURCES\nPARAM VALUE MORE\n", "*RESOURCES\nPARAM \"VALUE\n", "*RESOURCES\nPARAM #VALUE\n",
                                     "*\n", "*", "* RESOURCES\n", "*RESOURCES X\n", "*RESOURCES=\n", "*RESOURCES \"X\"\n"};
        what = "bad resource or section";
        return t + g.pick(line);
      }
      case 22: {
        // a mandatory section is missing
        std::string t = ubb::print(g, c);
        const char *s = g.flip() ? "*RESOURCES" : "*MACHINES";
        size_t p = 0;
        // (the same word may occur in a comment)
        while ((p = t.find(s, p)) != std::string::npos) {
          if (p == 0 || t[p - 1] == '\n') break;
          p++;
        }
        if (p == std::string::npos) continue;
        t.replace(p, strlen(s), g.flip() ? "*UNKNOWN" : "#");
        if (t[p] == '#') t[p] = '#';
        what = fmt("no section %s", s + 1);
        // without the header of the section, its lines belong to the previous one
        if (t[p] == '#' && s[1] == 'M') t.insert(p, "*UNKNOWN\n");
        if (t[p] == '#' && s[1] == 'R') t.insert(0, "*UNKNOWN\n");
        return t;
      }
      default: {
        what = "no text";
        static const char *t[] = {"", "\n", "# nothing\n", "*RESOURCES\n", "*RESOURCES\nIPCKEY 5\n", "*MACHINES\n", "\n\n*SERVERS\n"};
        return g.pick(t);
      }
    }
    return ubb::print(g, c);
  }
}

static void refuse(G &g) {
  Case k;
  ubb::Opts o;
  o.tuxconfig = k.tuxconfig;
  ubb::Config c = ubb::gen(g, o);
  k.previous(g, ubb::print(g, c));
  std::string what, t = damage(g, c, what);
  g.log("%s\n%s", what.c_str(), t.size() > 6000 ? (t.substr(0, 6000) + "...").c_str() : t.c_str());
  bool noop = g.chance(1, 3);
  proc::write_file(k.ubb, t);
  auto r = proc::run(command(g, k, noop), "", 30, {"TUXCONFIG=" + k.tuxconfig});
  PBT_ASSERT(r.status != 0, "%s: accepted", what.c_str());
  PBT_ASSERT(proc::refused(r), "%s: tmloadcf ended with status %d", what.c_str(), r.status);
  PBT_ASSERT(!r.err.empty() || !r.out.empty(), "%s: refused without a message", what.c_str());
  k.unchanged(what.c_str());
  g.nontrivial(k.had);
  g.label(what);
}

static void checkonly(G &g) {
  Case k;
  ubb::Opts o;
  o.tuxconfig = k.tuxconfig;
  k.previous(g, ubb::print(g, ubb::gen(g, o)));
  ubb::Config c = ubb::gen(g, o);
  std::string t = ubb::print(g, c);
  g.log("%s", t.c_str());
  proc::write_file(k.ubb, t);
  auto r = proc::run(command(g, k, true), "", 30, {"TUXCONFIG=" + k.tuxconfig});
  PBT_ASSERT(r.status == 0, "a valid configuration was refused: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
  k.unchanged("check only");
  g.nontrivial(k.had);
}

// random damage, where the answer is not known: all or nothing
static void random_damage(G &g) {
  Case k;
  ubb::Opts o;
  o.tuxconfig = k.tuxconfig;
  ubb::Config c = ubb::gen(g, o);
  k.previous(g, ubb::print(g, c));
  std::string t = ubb::print(g, c);
  for (size_t n = 1 + g.below(3); n; n--) {
    size_t p = g.below(t.size() + 1);
    switch (g.below(5)) {
      case 0: t.resize(p); break;
      case 1: t.insert(p, g.bytes(1 + g.below(4))); break;
      case 2: t.erase(p, 1 + g.below(10)); break;
      case 3: t.insert(p, t.substr(g.below(t.size() + 1), g.below(100))); break;
      default: {
        static const char *s[] = {"\"", "=", "\n", "#", "*", " ", "0", "-", "9"};
        t.insert(p, g.pick(s));
      }
    }
  }
  g.log("%s", pbt::show(t, 3000).c_str());
  proc::write_file(k.ubb, t);
  bool noop = g.chance(1, 4);
  auto r = proc::run(command(g, k, noop), "", 30, {"TUXCONFIG=" + k.tuxconfig});
  if (r.status == 0) {
    g.label("accepted");
    if (noop) {
      k.unchanged("check only");
      return;
    }
    r = proc::run({tux() + "/bin/tmunloadcf"}, "", 30, {"TUXCONFIG=" + k.tuxconfig});
    PBT_ASSERT(r.status == 0, "tmunloadcf failed: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
    PBT_ASSERT(r.out == t, "tmunloadcf printed another text: %s", pbt::show(r.out, 3000).c_str());
  } else {
    g.label("refused");
    PBT_ASSERT(proc::refused(r), "tmloadcf ended with status %d", r.status);
    PBT_ASSERT(!r.err.empty() || !r.out.empty(), "refused without a message");
    k.unchanged("refused");
  }
  g.nontrivial(k.had);
}

// the text cannot be read, or the result cannot be written
static void files(G &g) {
  Case k;
  ubb::Opts o;
  std::string target;
  int kind = g.below(8);
  switch (kind) {
    case 7:  // not allowed to write
      target = k.tuxconfig;
      break;
    case 0: target = k.d + "/none/tuxconfig"; break;
    case 1: target = k.d; break;
    case 2: target = "/dev/full"; break;
    default: target = k.tuxconfig;
  }
  o.tuxconfig = k.tuxconfig;
  ubb::Config c = ubb::gen(g, o);
  std::string valid = ubb::print(g, c);
  k.previous(g, valid);
  c.machines[0].set("TUXCONFIG", target);
  std::string t = ubb::print(g, c);
  g.log("target %s\n%s", target.c_str(), t.c_str());
  proc::write_file(k.ubb, t);
  auto av = command(g, k, false);
  std::string env = "TUXCONFIG=" + target;
  switch (kind) {
    case 3: av.back() += ".none"; break;
    case 4: av.back() = k.d; break;
    case 5: av.pop_back(); break;
    case 6: env = "TUXCONFIG"; break;
    case 7:
      if (k.had) chmod(k.tuxconfig.c_str(), 0400);
      chmod(k.d.c_str(), 0500);
      break;
  }
  auto r = proc::run(av, "", 30, {env});
  if (kind == 7) chmod(k.d.c_str(), 0700);
  PBT_ASSERT(proc::refused(r), "tmloadcf ended with status %d", r.status);
  PBT_ASSERT(!r.err.empty() || !r.out.empty(), "failed without a message");
  k.unchanged("failed");
  g.nontrivial(true);
  g.label(fmt("kind %d", kind));
}

// a damaged file is not taken for a configuration
static void unload(G &g) {
  Case k;
  ubb::Opts o;
  o.tuxconfig = k.tuxconfig;
  proc::write_file(k.ubb, ubb::print(g, ubb::gen(g, o)));
  std::string env = "TUXCONFIG=" + k.tuxconfig;
  auto r = proc::run({tux() + "/bin/tmloadcf", "-y", k.ubb}, "", 30, {env});
  PBT_ASSERT(r.status == 0, "a valid configuration was refused: status %d, %s", r.status, pbt::show(r.err, 300).c_str());
  std::string b = proc::read_file(k.tuxconfig);
  switch (g.below(3)) {
    case 0: b.resize(g.below(b.size())); break;
    case 1: b += g.bytes(1 + g.below(100)); break;
    default: {
      size_t p = g.below(b.size());
      b.erase(p, 1 + g.below(b.size() - p));
    }
  }
  g.log("%zu bytes", b.size());
  if (g.chance(1, 10))
    unlink(k.tuxconfig.c_str());
  else
    proc::write_file(k.tuxconfig, b);
  r = proc::run({tux() + "/bin/tmunloadcf"}, "", 30, {env});
  PBT_ASSERT(proc::refused(r), "tmunloadcf ended with status %d and %s", r.status, pbt::show(r.out, 200).c_str());
  PBT_ASSERT(!r.err.empty(), "failed without a message");
  g.nontrivial(true);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "C02";
  c.rule =
      "refuse: a valid configuration broken in one way, in 24 classes of damage; checkonly: valid configurations with -n; random: texts with random damage; "
      "files: texts that cannot be read and targets that cannot be written; unload: damaged stored files. Non-trivial: something had been loaded before.";
  // an ordinary account: the targets that cannot be written include a device
  dom::g_base = 64800;
  c.setup = dom::become;
  c.global_teardown = [] {
    for (int w = 0; w < 64; w++) dom::wipe(w);
  };
  c.subs = {
      {"refuse", refuse, 3000, 60000},
      {"checkonly", checkonly, 400, 6000},
      {"random", random_damage, 2000, 60000},
      {"files", files, 400, 6000},
      {"unload", unload, 400, 8000},
  };
  return pbt::main(argc, argv, c);
}
