// G01: programs built by buildserver, buildclient and buildtms do what the options say.
#include "e2e.hpp"
using namespace e2e;

static int g_worker;
static std::string home() { return getenv("HOME"); }
static const int NRM = 3;
static std::string real_tuxdir;
// a TUXDIR with resource managers of its own
static void setup(int w) {
  g_worker = w;
  real_tuxdir = getenv("TUXDIR");
  enter(w, {});
  std::string t = home() + "/tux";
  proc::mkdirs(t + "/udataobj");
  for (auto d : {"bin", "lib", "include"})
    if (symlink((real_tuxdir + "/" + d).c_str(), (t + "/" + d).c_str()) != 0) pbt::fail("symlink");
  proc::mkdirs(home() + "/rm");
  for (int i = 0; i < NRM; i++) {
    std::string s = home() + fmt("/rm/r%d", i);
    proc::write_file(s + ".c", fmt(R"C(#include <string.h>
#include <xa.h>
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
static int o(char *info, int rmid, long flags) {
  char b[4096];
  snprintf(b, sizeof b, "%%s/opened", getenv("HOME"));
  FILE *f = fopen(b, "a");
  if (f) fprintf(f, "RM%d %%s\n", info), fclose(f);
  return XA_OK;
}
static int c(char *info, int rmid, long flags) { return XA_OK; }
static int x(XID *xid, int rmid, long flags) { return XA_OK; }
static int r(XID *xid, long n, int rmid, long flags) { return 0; }
static int k(int *h, int *rv, int rmid, long flags) { return XA_OK; }
struct xa_switch_t switch_%d = {"RM%d", TMNOFLAGS, 0, o, c, x, x, x, x, x, r, x, k};
)C", i, i, i));
    auto c = proc::run({"cc", "-c", "-I" + t + "/include", "-o", s + ".o", s + ".c"}, "", 60);
    if (c.status != 0) pbt::fail("cc: %s", c.err.c_str());
    auto a = proc::run({"ar", "rc", home() + fmt("/rm/librm%d.a", i), s + ".o"}, "", 60);
    if (a.status != 0) pbt::fail("ar: %s", a.err.c_str());
  }
  setenv("TUXDIR", t.c_str(), 1);
  setenv("LD_LIBRARY_PATH", (t + "/lib").c_str(), 1);
  // compilers that leave a trace
  for (auto c : {"cc", "g++"}) {
    std::string p = home() + "/my" + c;
    proc::write_file(p, fmt("#!/bin/sh\necho %s >>\"$HOME/cc.log\"\nexec %s \"$@\"\n", c, c));
    chmod(p.c_str(), 0700);
  }
}
static std::string word(G &g, const char *extra, size_t max) {
  std::string a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  std::string s(1, a[g.below(52)]);
  size_t n = g.below(max);
  std::string b = a + extra;
  for (size_t i = 0; i < n; i++) s += b[g.below(b.size())];
  return s;
}
struct Svc {
  std::string name, fn;
};
static void plan(G &g, std::vector<Svc> &v) {
  std::set<std::string> names;
  std::vector<std::string> fns;
  size_t n = g.chance(1, 10) ? 10 + g.below(25) : g.below(6);
  for (size_t i = 0; i < n; i++) {
    Svc s;
    s.name = g.chance(1, 6) ? word(g, ".-_", 30) : word(g, "", 12);
    bool plain = g.chance(1, 3);
    if (plain) s.name = "S_" + word(g, "", 10);
    while (s.name.size() > 25 || !names.insert(s.name).second) s.name = fmt("S_%zu_%zu", i, names.size());
    if (plain)
      s.fn = s.name;
    else if (fns.size() && g.chance(1, 3))
      s.fn = g.pick(fns);
    else
      s.fn = "f_" + word(g, "", 40);
    if (std::find(fns.begin(), fns.end(), s.fn) == fns.end()) fns.push_back(s.fn);
    v.push_back(s);
  }
}
struct Case {
  std::string d;
  Case() {
    static int n = 0;
    d = home() + fmt("/g%d", n++);
    proc::mkdirs(d);
    unlink((home() + "/opened").c_str());
    unlink((home() + "/cc.log").c_str());
    for (auto v : {"CC", "CFLAGS"}) unsetenv(v);
  }
  ~Case() {
    for (auto v : {"CC", "CFLAGS"}) unsetenv(v);
    proc::rmtree(d);
  }
};
static std::string source(const std::vector<std::string> &fns, bool cpp, const std::string &mark) {
  std::string s = "#include <atmi.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n";
  if (cpp) s += "#include <string>\n";
  s += R"C(
#ifndef MARK
#define MARK 0
#endif
#ifndef CF
#define CF 0
#endif
static int in_use, most;
extern int extra(void);
static void reply(TPSVCINFO *i, const char *fn) {
  int n = __sync_add_and_fetch(&in_use, 1), ms = i->data ? atoi(i->data) : 0;
  if (n > most) most = n;
  while (most < 2 && ms-- > 0) usleep(1000);
  char *o = tpalloc((char *)"STRING", 0, 400);
  snprintf(o, 400, "%s %s %d %d %d %d", fn, i->name, MARK, CF, extra(), most > 1);
  __sync_sub_and_fetch(&in_use, 1);
  tpreturn(TPSUCCESS, 0, o, 0, 0);
}
)C";
  for (auto &f : fns) s += (cpp ? "extern \"C\" void " : "void ") + f + "(TPSVCINFO *i) { reply(i, \"" + f + "\"); }\n";
  return s;
}
static void servers(G &g) {
  Case k;
  std::vector<Svc> v;
  plan(g, v);
  bool cpp = g.chance(1, 6);
  std::vector<std::string> fns;
  for (auto &s : v)
    if (std::find(fns.begin(), fns.end(), s.fn) == fns.end()) fns.push_back(s.fn);
  // functions in one or two files, one more in a file that comes last
  int mark = 1 + g.below(1000), cf = g.flip() ? 1 + g.below(1000) : 0, extra = 1 + g.below(1000);
  std::vector<std::string> av = {"buildserver"}, files;
  std::string ext = cpp ? ".cpp" : ".c";
  size_t cut = g.flip() ? fns.size() : g.below(fns.size() + 1);
  proc::write_file(k.d + "/one" + ext, source({fns.begin(), fns.begin() + cut}, cpp, ""));
  files.push_back("one" + ext);
  if (cut < fns.size()) {
    proc::write_file(k.d + "/two" + ext, source({fns.begin() + cut, fns.end()}, cpp, ""));
    files.push_back("two" + ext);
  }
  proc::write_file(k.d + "/last" + ext, fmt("int extra(void) { return %d; }\n", extra));
  std::vector<std::vector<std::string>> opts;
  if (g.flip()) {
    for (auto &f : files) opts.push_back({"-f", f});
  } else {
    std::string s;
    for (auto &f : files) s += (s.empty() ? "" : " ") + f;
    opts.push_back({"-f", s});
  }
  opts.push_back({"-f", fmt("-DMARK=%d", mark)});
  opts.push_back({g.flip() ? "-l" : "-f", "last" + ext});
  for (auto &s : v) opts.push_back({"-s", s.name == s.fn ? s.name : s.name + ":" + s.fn});
  bool keep = g.chance(1, 4), threads = g.chance(1, 3), verbose = g.chance(1, 3);
  if (keep) opts.push_back({"-k"});
  if (threads) opts.push_back({"-t"});
  if (verbose) opts.push_back({"-v"});
  int rm = g.flip() ? (int)g.below(NRM + 1) : -1;  // NRM: the null resource manager
  std::string out = g.chance(1, 4) ? k.d + "/srv" : "srv";
  opts.push_back({"-o", out});
  // the list of resource managers
  std::string rms = "# generated\n\n";
  std::vector<std::string> rmname;
  for (int i = 0; i < NRM; i++) {
    rmname.push_back(g.pick(std::vector<std::string>{"RM", "My_RM", "T/RM", "X"}) + fmt("%d", i));
    std::string l = g.flip() ? fmt("%s/rm/r%d.o", home().c_str(), i) : fmt("-L%s/rm -lrm%d", home().c_str(), i);
    rms += rmname[i] + fmt(":switch_%d:", i) + l + "\n";
    if (g.chance(1, 4)) rms += "#" + rmname[i] + ":nothing:nothing\n";
  }
  if (g.chance(1, 4)) rms += "no resource manager\n";
  rms += g.flip() ? "NONE:tmnull_switch:\n" : "NONE:tmnull_switch\n";
  rmname.push_back("NONE");
  proc::write_file(home() + "/tux/udataobj/RM", rms);
  if (rm >= 0) opts.push_back({"-r", rmname[rm]});
  for (size_t i = 1; i < opts.size(); i++)  // any order, but files and services stay in theirs
    if (g.chance(1, 3) && !(opts[i][0] == "-f" && opts[i - 1][0] == "-f") && !(opts[i][0] == "-s" && opts[i - 1][0] == "-s")) std::swap(opts[i], opts[i - 1]);
  std::string os;
  for (auto &o : opts)
    for (auto &x : o) av.push_back(x), os += " '" + x + "'";
  bool mycc = g.chance(1, 4) || cpp;
  if (mycc) setenv("CC", (home() + (cpp ? "/myg++" : "/mycc")).c_str(), 1);
  std::string cflags = "-w";
  if (cf) cflags += fmt(" -DCF=%d", cf);
  setenv("CFLAGS", cflags.c_str(), 1);
  g.log("buildserver%s%s", os.c_str(), mycc ? " with CC" : "");
  av[0] = tuxdir() + "/bin/buildserver";
  auto r = proc::run(av, "", 120, {}, k.d);
  PBT_ASSERT(r.status == 0, "buildserver ended with status %d: %s", r.status, pbt::show(r.err, 600).c_str());
  if (verbose)
    PBT_ASSERT(r.out.find(files[0]) != std::string::npos && r.out.find("-o") != std::string::npos, "the command is not shown: %s", pbt::show(r.out, 300).c_str());
  else
    PBT_ASSERT(r.out.empty(), "output without -v: %s", pbt::show(r.out, 300).c_str());
  PBT_EQ(proc::exists(home() + "/cc.log"), mycc, "use of the compiler selected by CC");
  size_t left = 0;
  for (auto &f : proc::list(k.d))
    if (f != "srv" && f != "last" + ext && std::find(files.begin(), files.end(), f) == files.end()) {
      PBT_ASSERT(keep && f.size() > 2 && f.substr(f.size() - 2) == ".c", "%s was left behind", f.c_str());
      left++;
      auto c = proc::run({"cc", "-fsyntax-only", "-I" + tuxdir() + "/include", k.d + "/" + f}, "", 60);
      PBT_ASSERT(c.status == 0, "the code kept does not compile");
    }
  PBT_EQ(left, (size_t)keep, "files of code kept");
  // what it says about itself
  r = proc::run({k.d + "/srv", "-v"}, "", 30, {}, k.d);
  std::string want = "# Service : Function mapping\n";
  for (auto &s : v) want += s.name + ":" + s.fn + "\n";
  PBT_EQ(r.status, 0, "status of the server with -v");
  std::vector<std::string> a, b;
  for (auto *p : {&r.out, &want}) {
    std::istringstream is(*p);
    for (std::string l; getline(is, l);) (p == &want ? b : a).push_back(l);
    std::sort((p == &want ? b : a).begin(), (p == &want ? b : a).end());
  }
  PBT_ASSERT(a == b, "the server lists %s instead of %s", pbt::show(r.out, 500).c_str(), pbt::show(want, 500).c_str());
  g.nontrivial(v.size() > 1);
  if (g.chance(1, 2)) return;
  // what it does
  g.label("booted");
  bool pool = g.flip();  // the configuration asks for threads
  std::string info = rm >= 0 && rm < NRM && g.flip() ? fmt("OPENINFO=\"RM%d:info %d\"", rm, (int)g.below(100)) : "";
  load(ubb_head(g_worker, "BLOCKTIME 40\n") + "*GROUPS\nG1 GRPNO=1 " + info + fmt("\n*SERVERS\n\"%s/srv\" SRVGRP=G1 SRVID=1%s\n", k.d.c_str(), pool ? " MINDISPATCHTHREADS=2 MAXDISPATCHTHREADS=2" : ""));
  boot();
  struct Down {
    ~Down() {
      tpterm();
      tool({"tmshutdown", "-y"});
    }
  };
  std::vector<std::string> got;
  std::string together;
  bool missing = false;
  // the registry is attached once per process, so in a child
  std::string res = k.d + "/results";
  auto call = [&] {
    std::ofstream f(res);
    if (tpinit(nullptr) == -1) return;
    char *o = tpalloc((char *)"STRING", nullptr, 500);
    long n;
    for (auto &s : v) {
      int rc = tpcall((char *)s.name.c_str(), nullptr, 0, &o, &n, 0);
      f << (rc == -1 ? tpstrerror(tperrno) : o) << "\n";
    }
    for (auto &s : v) {  // functions are no services
      bool also = false;
      for (auto &x : v) also |= x.name == s.fn;
      if (!also) {
        int rc = s.fn.size() > 31 ? -1 : tpcall((char *)s.fn.c_str(), nullptr, 0, &o, &n, 0);
        f << (rc == -1 ? "none" : "a function is offered") << "\n";
        break;
      }
    }
    if (v.size()) {
      char *in = tpalloc((char *)"STRING", nullptr, 100);
      bool both = threads && pool;
      snprintf(in, 100, "%d", both ? 8000 : 120);
      int c1 = tpacall((char *)v[0].name.c_str(), in, 0, 0), c2 = tpacall((char *)v[0].name.c_str(), in, 0, 0);
      std::string p;
      for (int c : {c1, c2})
        if (tpgetrply(&c, &o, &n, 0) == -1)
          p += tpstrerror(tperrno);
        else
          p += std::string(" ") + (o + strlen(o) - 1);
      f << p << "\n";
    }
    tpterm();
    f << "end\n";
  };
  {
    Down down;
    pid_t p = proc::fork_own();
    if (p == 0) {
      call();
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    proc::disown(p);
    PBT_ASSERT(WIFEXITED(st), "the client was ended by signal %d", WTERMSIG(st));
  }
  std::string text = proc::read_file(res), expected;
  for (auto &s : v) expected += fmt("%s %s %d %d %d 0\n", s.fn.c_str(), s.name.c_str(), mark, cf, extra);
  for (auto &s : v) {
    bool also = false;
    for (auto &x : v) also |= x.name == s.fn;
    if (!also) {
      expected += "none\n";
      break;
    }
  }
  if (v.size()) expected += threads && pool ? " 1 1\n" : " 0 0\n";
  expected += "end\n";
  PBT_ASSERT(text == expected, "calls gave %s instead of %s", pbt::show(text, 600).c_str(), pbt::show(expected, 600).c_str());
  std::string opened = proc::read_file(home() + "/opened");
  if (rm >= 0 && rm < NRM) {
    std::istringstream is(opened);
    size_t n = 0;
    for (std::string l; getline(is, l); n++) PBT_ASSERT(l.compare(0, 4, fmt("RM%d ", rm).substr(0, 4)) == 0, "opened %s instead of resource manager %d", l.c_str(), rm);
    PBT_ASSERT(n >= 1, "the resource manager was not opened");
    g.label("resource manager");
  } else
    PBT_ASSERT(opened.empty(), "opened %s", opened.c_str());
  if (threads && pool) g.label("threads");
}
// buildtms: a transaction manager for the resource manager; buildclient: a client
static void others(G &g) {
  Case k;
  int rm = g.below(NRM + 1);
  std::string rms;
  std::vector<int> ord;
  for (int i = 0; i < NRM; i++) rms += fmt("R%d:switch_%d:%s/rm/r%d.o\n", i, i, home().c_str(), i);
  rms += "NONE:tmnull_switch:\n";
  proc::write_file(home() + "/tux/udataobj/RM", rms);
  std::string name = rm == NRM ? "NONE" : fmt("R%d", rm);
  setenv("CFLAGS", "-w", 1);
  bool verbose = g.flip();
  std::vector<std::string> av = {tuxdir() + "/bin/buildtms", "-r", name, "-o", g.flip() ? "tms" : k.d + "/tms"};
  if (verbose) av.insert(av.begin() + 1 + 2 * g.below(2), "-v");
  g.log("buildtms for %s", name.c_str());
  auto r = proc::run(av, "", 120, {}, k.d);
  PBT_ASSERT(r.status == 0, "buildtms ended with status %d: %s", r.status, pbt::show(r.err, 600).c_str());
  PBT_ASSERT(verbose == !r.out.empty(), "output: %s", pbt::show(r.out, 300).c_str());
  PBT_ASSERT(proc::list(k.d) == std::vector<std::string>{"tms"}, "more files than the server exist");
  r = proc::run({k.d + "/tms", "-v"}, "", 30, {}, k.d);
  PBT_EQ(r.out, std::string("# Service : Function mapping\n.TM:TM\n"), "services of the transaction manager");
  // a server and a client
  int mark = g.below(1000), cf = g.below(1000), extra = g.below(1000);
  proc::write_file(k.d + "/s.c", "#include <atmi.h>\nvoid ECHO(TPSVCINFO *i) { tpreturn(TPSUCCESS, 0, i->data, i->len, 0); }\n");
  r = proc::run({tuxdir() + "/bin/buildserver", "-f", "s.c", "-s", "ECHO", "-r", name, "-o", "srv"}, "", 120, {}, k.d);
  PBT_ASSERT(r.status == 0, "buildserver ended with status %d: %s", r.status, pbt::show(r.err, 600).c_str());
  proc::write_file(k.d + "/c.c", R"C(#include <atmi.h>
#include <stdio.h>
#include <string.h>
extern int extra(void);
int main(int argc, char **argv) {
  long n;
  char *b = tpalloc((char *)"STRING", 0, 200), *o = tpalloc((char *)"STRING", 0, 20);
  snprintf(b, 200, "%s %d %d %d", argv[1], MARK, CF, extra());
  if (tpcall((char *)"ECHO", b, 0, &o, &n, 0) == -1) return 1;
  puts(o);
  tpterm();
  return 0;
}
)C");
  proc::write_file(k.d + "/e.c", fmt("int extra(void) { return %d; }\n", extra));
  av = {tuxdir() + "/bin/buildclient", "-f", "c.c", "-f", fmt("-DMARK=%d", mark), g.flip() ? "-l" : "-f", "e.c", "-o", "clt"};
  if (g.flip()) av.insert(av.begin() + 1, "-v"), verbose = true; else verbose = false;
  setenv("CFLAGS", fmt("-w -DCF=%d", cf).c_str(), 1);
  bool mycc = g.flip();
  if (mycc) setenv("CC", (home() + "/mycc").c_str(), 1);
  g.log("buildclient");
  r = proc::run(av, "", 120, {}, k.d);
  PBT_ASSERT(r.status == 0, "buildclient ended with status %d: %s", r.status, pbt::show(r.err, 600).c_str());
  PBT_ASSERT(verbose == !r.out.empty(), "output: %s", pbt::show(r.out, 300).c_str());
  PBT_EQ(proc::exists(home() + "/cc.log"), mycc, "use of the compiler selected by CC");
  PBT_ASSERT((proc::list(k.d) == std::vector<std::string>{"c.c", "clt", "e.c", "s.c", "srv", "tms"}), "other files were left behind");
  unlink((home() + "/opened").c_str());
  load(ubb_head(g_worker, "BLOCKTIME 40\n") + fmt("*GROUPS\nG1 GRPNO=1 TMSNAME=\"%s/tms\" TMSCOUNT=2\n*SERVERS\n\"%s/srv\" SRVGRP=G1 SRVID=1\n", k.d.c_str(), k.d.c_str()));
  boot();
  std::string arg = "a" + word(g, "", 30);
  auto c = proc::run({k.d + "/clt", arg}, "", 60, {}, k.d);
  tool({"tmshutdown", "-y"});
  PBT_EQ(c.status, 0, "status of the client");
  PBT_EQ(c.out, fmt("%s %d %d %d\n", arg.c_str(), mark, cf, extra), "output of the client");
  std::string opened = proc::read_file(home() + "/opened");
  std::string want;
  for (int i = 0; i < 3 && rm < NRM; i++) want += fmt("RM%d \n", rm);
  PBT_EQ(opened, want, "resource managers opened by two transaction managers and a server");
  g.nontrivial(rm < NRM);
}
// it cannot be built: an error, and nothing is left
static void failures(G &g) {
  Case k;
  setenv("CFLAGS", "-w", 1);
  proc::write_file(home() + "/tux/udataobj/RM", fmt("R0:switch_0:%s/rm/r0.o\n#OLD:switch_1:%s/rm/r1.o\nBROKEN:no_such_switch:\n", home().c_str(), home().c_str()));
  proc::write_file(k.d + "/s.c", source({"A", "B"}, false, "") + "int extra(void) { return 1; }\n");
  std::string tool = g.pick(std::vector<std::string>{"buildserver", "buildserver", "buildserver", "buildtms", "buildclient"});
  std::vector<std::string> av = {tuxdir() + "/bin/" + tool};
  std::vector<std::string> files = {"s.c"};
  bool ro = false;
  std::string what;
  if (tool == "buildserver") {
    av.insert(av.end(), {"-f", "s.c", "-s", "A", "-s", "SVC:B", "-o", "srv"});
    switch (g.below(7)) {
      case 0: av.insert(av.end(), {"-s", g.flip() ? "X:missing" : "missing"}), what = "a function is missing"; break;
      case 1: av.insert(av.end(), {"-f", "nothing.c"}), what = "a file is missing"; break;
      case 2: av.insert(av.end(), {"-r", g.pick(std::vector<std::string>{"R", "R00", "OLD", "#OLD", "r0", "switch_0"})}), what = "unknown resource manager"; break;
      case 3: av.insert(av.end(), {"-r", "BROKEN"}), what = "the switch is missing"; break;
      case 4:
        proc::write_file(k.d + "/b.c", "int this is no code;\n");
        files.insert(files.begin(), "b.c");
        av.insert(av.end(), {g.flip() ? "-l" : "-f", "b.c"}), what = "a file does not compile";
        break;
      case 5: ro = true, what = "the directory cannot be written"; break;
      default: av.push_back(g.pick(std::vector<std::string>{"-z", "--what", "-Q1"})), what = "unknown option";
    }
  } else if (tool == "buildtms") {
    switch (g.below(4)) {
      case 0: av.insert(av.end(), {"-r", "NOTHING", "-o", "tms"}), what = "unknown resource manager"; break;
      case 1: av.insert(av.end(), {"-r", "BROKEN", "-o", "tms"}), what = "the switch is missing"; break;
      case 2: av.insert(av.end(), {"-r", "R0", "-o", "tms"}), ro = true, what = "the directory cannot be written"; break;
      default: av.insert(av.end(), {"-r", "R0", "-o", "tms", "-z"}), what = "unknown option";
    }
  } else {
    av.insert(av.end(), {"-o", "clt"});
    switch (g.below(4)) {
      case 0: av.insert(av.end(), {"-f", "s.c"}), what = "no main function"; break;
      case 1: av.insert(av.end(), {"-f", "nothing.c"}), what = "a file is missing"; break;
      case 2:
        proc::write_file(k.d + "/m.c", "int main(void) { return 0; }\n");
        files.insert(files.begin(), "m.c");
        av.insert(av.end(), {"-f", "m.c"}), ro = true, what = "the directory cannot be written";
        break;
      default: av.insert(av.end(), {"-f", "s.c", "-z"}), what = "unknown option";
    }
  }
  bool v = g.chance(1, 4);
  if (v) av.insert(av.begin() + 1, "-v");
  g.log("%s: %s", tool.c_str(), what.c_str());
  if (ro) chmod(k.d.c_str(), 0500);
  auto r = proc::run(av, "", 120, {}, k.d);
  chmod(k.d.c_str(), 0700);
  PBT_ASSERT(proc::refused(r), "%s: %s ended with status %d", what.c_str(), tool.c_str(), r.status);
  PBT_ASSERT(!r.err.empty(), "%s: failed without a message", what.c_str());
  PBT_ASSERT(proc::list(k.d) == files, "%s: files were left behind", what.c_str());
  g.nontrivial();
  g.label(tool + ": " + what);
}
int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "G01";
  c.rule =
      "servers: generated service tables, sources, compilers and resource managers given to buildserver; the server is asked for its table, and booted and called in "
      "every second case; others: buildtms and buildclient, everything booted and called; failures: builds that cannot succeed. Non-trivial: several services, a "
      "resource manager, a failed build.";
  c.subs = {{"servers", servers, 320, 3600, 20}, {"others", others, 64, 720, 8}, {"failures", failures, 320, 2800, 20}};
  c.setup = setup;
  common(c, 64500);
  return pbt::main(argc, argv, c);
}
