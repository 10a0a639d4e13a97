// X05: errors are reported precisely and per thread.
#include "e2egen.hpp"
#include <pthread.h>
using namespace e2e;

static void noop(TPSVCINFO *) { tpreturn(TPFAIL, 0, nullptr, 0, 0); }
static void noop2(TPSVCINFO *) { tpreturn(TPFAIL, 1, nullptr, 0, 0); }

// One call with given arguments; "" or what is wrong. S: in a service.
struct Prober {
  bool S;
  uint64_t id = 0;      // of the next request
  uint32_t executed = 0;  // requests that were accepted
  std::string err;
  std::string what;
  std::set<std::string> kinds;

  static std::string name(const std::set<int> &c) {
    std::string s;
    for (int e : c) s += (s.empty() ? "" : " or ") + std::string(e ? tpstrerror(e) : "success");
    return s;
  }
  void spoil(uint32_t a) {
    // a previous error
    switch (a % 4) {
      case 0: tptypes(nullptr, nullptr, nullptr); break;
      case 1: tpalloc((char *)"NOTYPE", nullptr, 1); break;
      case 2: tpcancel(-1); break;
      default: tperrno = 1 + a % 25;
    }
  }
  // ok: the call reported success
  void want(bool ok, const std::set<int> &codes) {
    int code = tperrno;
    if (!err.empty()) return;
    if (ok ? !codes.count(0) || code != 0 : codes.count(code) == 0 || code == 0)
      err = what + fmt(": %s, tperrno %d (%s), expected %s", ok ? "success" : "failure", code, code ? tpstrerror(code) : "none", name(codes).c_str());
    if (!ok && !*tpstrerror(code) && err.empty()) err = what + fmt(": no message for code %d", code);
    kinds.insert(ok ? "success" : tpstrerror(code));
  }
  void bad(const std::string &m) {
    if (err.empty()) err = what + ": " + m;
  }
  char *str(const std::string &s) {
    char *p = tpalloc((char *)"STRING", nullptr, s.size() + 1);
    strcpy(p, s.c_str());
    return p;
  }
  char *request(int rval = TPSUCCESS, long rcode = 0) { return str(fmt("%llu 0 %d %ld", (unsigned long long)id, rval, rcode)); }
  void run(int op, uint32_t a);
  static const int OPS = 30;
};
// names of services that nobody offers
static std::string missing(uint32_t a) {
  switch (a % 6) {
    case 0: return "NOBODY";
    case 1: return "ECHO ";
    case 2: return "echo";
    case 3: return "ECH";
    case 4: return std::string(31 + a / 6 % 3, 'E');
    default: return std::string(100 + a / 6 % 3000, 'E');
  }
}
void Prober::run(int op, uint32_t a) {
  what = fmt("op %d/%u", op, a);
  uint32_t pre = a * 2654435761u >> 8;
  switch (op) {
    case 0: {
      what = "tpalloc(NULL)";
      spoil(pre);
      want(tpalloc(nullptr, nullptr, a) != nullptr, {TPEINVAL});
      break;
    }
    case 1: {
      static const char *t[] = {"", "X", "STRINGS", "FML", "FML3", "VIEW32", "string", "CARRA", "CARRAYS", "X_OCTET", "STRIN", "TPINI", "FML32X"};
      const char *n = t[a % 13];
      what = fmt("tpalloc(\"%s\")", n);
      spoil(pre);
      want(tpalloc((char *)n, nullptr, 10) != nullptr, {TPENOENT});
      break;
    }
    case 2: {
      what = "tprealloc(NULL)";
      spoil(pre);
      want(tprealloc(nullptr, a) != nullptr, {TPEINVAL});
      break;
    }
    case 3: {
      what = "tptypes(NULL)";
      char t[9] = "a", s[17] = "b";
      spoil(pre);
      want(tptypes(nullptr, t, s) != -1, {TPEINVAL});
      if (strcmp(t, "a") || strcmp(s, "b")) bad("type written");
      break;
    }
    case 4: {
      char *b = str("kept"), *n = nullptr;
      long l = 77;
      char text[] = "AAAA";
      what = fmt("tpimport with argument %u NULL", a % 3);
      spoil(pre);
      int r = a % 3 == 0 ? tpimport(nullptr, 0, &b, &l, TPEX_STRING) : tpimport(text, 0, a % 3 == 1 ? nullptr : &n, &l, TPEX_STRING);
      want(r != -1, {TPEINVAL});
      if (l != 77 || n || strcmp(b, "kept")) bad("something was written");
      tpfree(b);
      break;
    }
    case 5: {
      static const char *t[] = {"A", "AB", "ABC", "!!!!", "AAAA", "A===", "\x80\x81\x82\x83", "AAA AAA=", "=AAA", "AAAAAAAA"};
      const char *s = t[a % 10];
      char *b = str("kept"), *o = b;
      long l = 77;
      what = fmt("tpimport(%s)", pbt::show(s).c_str());
      spoil(pre);
      want(tpimport((char *)s, 0, &b, &l, TPEX_STRING) != -1, {TPEPROTO});
      char ty[9] = "";
      if (b != o || l != 77 || strcmp(b, "kept")) bad("something was written");
      tptypes(b, ty, nullptr);
      if (strcmp(ty, "STRING")) bad(fmt("the buffer is now %s", ty));
      tpfree(b);
      break;
    }
    case 6: {
      char *b = str("hello"), o[200];
      long l = 200;
      memset(o, 'x', sizeof(o));
      spoil(pre);
      int r, k = a % 5;
      std::set<int> c = {TPEINVAL};
      if (k == 0) what = "tpexport(NULL)", r = tpexport(nullptr, 0, o, &l, 0);
      else if (k == 1) what = "tpexport(.., ostr NULL)", r = tpexport(b, 0, nullptr, &l, 0);
      else if (k == 2) what = "tpexport(.., olen NULL)", r = tpexport(b, 0, o, nullptr, 0);
      else if (k == 3) what = "tpexport(.., flags)", r = tpexport(b, 0, o, &l, 2 + a / 5 % 1000);
      else {
        l = a / 5 % 24;
        what = fmt("tpexport into %ld bytes", l);
        c = {TPELIMIT};
        long had = l;
        r = tpexport(b, 0, o, &l, a / 120 % 2 ? TPEX_STRING : 0);
        if (l <= had) bad(fmt("the needed length is %ld", l));
      }
      want(r != -1, c);
      for (char x : o)
        if (x != 'x') bad("the output area was written");
      if (k < 4 && l != 200) bad("length written");
      tpfree(b);
      break;
    }
    case 7: case 8: {
      char *in = request(), *out = str("kept"), *o = out, *n = nullptr;
      long l = 77;
      int k = a % 6;
      std::set<int> c = {TPEINVAL};
      std::string m = missing(a / 6);
      spoil(pre);
      int r;
      long fl = a / 48 % 3 == 0 ? 0 : a / 48 % 3 == 1 ? TPNOTRAN : TPNOTIME;
      if (k == 0) what = "tpcall(NULL)", r = tpcall(nullptr, in, 0, &out, &l, fl);
      else if (k == 1) what = "tpcall(.., odata NULL)", r = tpcall((char *)"ECHO", in, 0, nullptr, &l, fl);
      else if (k == 2) what = "tpcall(.., *odata NULL)", r = tpcall((char *)"ECHO", in, 0, &n, &l, fl);
      else if (k == 3) what = "tpcall(.., TPNOREPLY)", r = tpcall((char *)"ECHO", in, 0, &out, &l, fl | TPNOREPLY);
      else {
        what = fmt("tpcall(%s)", pbt::show(m, 20).c_str());
        c = {TPENOENT};
        if (m.size() >= XATMI_SERVICE_NAME_LENGTH) c.insert(TPEINVAL);
        r = tpcall((char *)m.c_str(), in, 0, &out, &l, fl);
      }
      want(r != -1, c);
      if (n || out != o || strcmp(out, "kept") || l != 77) bad("the reply was written");
      tpfree(in);
      tpfree(out);
      break;
    }
    case 9: case 10: {
      char *in = request();
      std::set<int> c = {TPENOENT};
      std::string m = missing(a / 3);
      if (m.size() >= XATMI_SERVICE_NAME_LENGTH) c.insert(TPEINVAL);
      spoil(pre);
      int r;
      long fl = a / 18 % 2 ? TPNOREPLY : 0;
      if (a % 3 == 0) what = "tpacall(NULL)", c = {TPEINVAL}, r = tpacall(nullptr, in, 0, fl);
      else what = fmt("tpacall(%s)", pbt::show(m, 20).c_str()), r = tpacall((char *)m.c_str(), in, 0, fl);
      want(r != -1, c);
      tpfree(in);
      break;
    }
    case 11: case 12: {
      char *out = str("kept"), *o = out, *n = nullptr;
      long l = 77;
      int cd = (int[]){0, -1, 999999, 1 << 30, -7}[a / 4 % 5], c0 = cd, r;
      long fl = a / 20 % 2 ? TPNOBLOCK : 0;
      std::set<int> c = {TPEINVAL};
      spoil(pre);
      if (a % 4 == 0) what = "tpgetrply(NULL)", r = tpgetrply(nullptr, &out, &l, fl);
      else if (a % 4 == 1) what = "tpgetrply(.., data NULL)", r = tpgetrply(&cd, nullptr, &l, fl);
      else if (a % 4 == 2) what = "tpgetrply(.., *data NULL)", r = tpgetrply(&cd, &n, &l, fl);
      else what = fmt("tpgetrply(%d)", cd), c = {TPEBADDESC}, r = tpgetrply(&cd, &out, &l, fl);
      want(r != -1, c);
      if (n || out != o || strcmp(out, "kept") || l != 77 || cd != c0) bad("something was written");
      tpfree(out);
      break;
    }
    case 13: {
      int cd = (int[]){0, -1, 999999, 1 << 30, -7}[a % 5];
      what = fmt("tpcancel(%d)", cd);
      spoil(pre);
      want(tpcancel(cd) != -1, {TPEBADDESC});
      break;
    }
    case 14: {
      int v = -1 - (int)(a % 1000);
      long fl = (a / 7 % 2 ? TPBLK_NEXT : TPBLK_ALL) | (a / 14 % 2 ? TPBLK_MILLISECOND : 0);
      if (a % 3 == 0) v = 5, fl = (long[]){0, 3, 4, 8, 0x10, 0x20 | TPBLK_NEXT, 0x40 | TPBLK_ALL, 0x100, 0x13}[a / 3 % 9];
      what = fmt("tpsblktime(%d, 0x%lx)", v, fl);
      int n = tpgblktime(TPBLK_NEXT | TPBLK_MILLISECOND), al = tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND);
      spoil(pre);
      want(tpsblktime(v, fl) == 0, {TPEINVAL});
      if (n != tpgblktime(TPBLK_NEXT | TPBLK_MILLISECOND) || al != tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND)) bad("the block time changed");
      break;
    }
    case 15: {
      long fl = (long[]){3, 4, 8, 0x20 | TPBLK_NEXT, 0x40 | TPBLK_ALL, 0x100, 0x13}[a % 7];
      what = fmt("tpgblktime(0x%lx)", fl);
      spoil(pre);
      want(tpgblktime(fl) != -1, {TPEINVAL});
      break;
    }
    case 16: case 17: {
      static char x[] = "X05NAME";
      spoil(pre);
      if (S) {
        if (a % 2) what = "tpinit in a server", want(tpinit(nullptr) != -1, {TPEPROTO});
        else what = "tpterm in a server", want(tpterm() != -1, {TPEPROTO});
      } else
        switch (a % 5) {
          case 0: what = "tpadvertise in a client"; want(tpadvertise(x, noop) != -1, {TPEPROTO}); break;
          case 1: what = "tpadvertisex in a client"; want(tpadvertisex(x, noop, 0) != -1, {TPEPROTO}); break;
          case 2: what = "tpunadvertise in a client"; want(tpunadvertise(x) != -1, {TPEPROTO}); break;
          case 3: what = "tpappthrinit in a client"; want(tpappthrinit(nullptr) != -1, {TPEPROTO}); break;
          case 4: what = "tpappthrterm in a client"; want(tpappthrterm() != -1, {TPEPROTO}); break;
        }
      break;
    }
    case 18: case 19: {
      if (!S) {
        run(16, a);
        break;
      }
      std::string n = missing(a / 8);
      spoil(pre);
      switch (a % 8) {
        case 0: what = "tpadvertise(NULL)"; want(tpadvertise(nullptr, noop) != -1, {TPEINVAL}); break;
        case 1: what = "tpadvertise(\"\")"; want(tpadvertise((char *)"", noop) != -1, {TPEINVAL}); break;
        case 2: {
          std::string l(32 + a / 8 % 200, 'L');
          what = fmt("tpadvertise(name of %zu characters)", l.size());
          want(tpadvertise((char *)l.c_str(), noop) != -1, {TPEINVAL});
          break;
        }
        case 3: what = "tpadvertise(.., NULL)"; want(tpadvertise((char *)"X05NAME", nullptr) != -1, {TPEINVAL}); break;
        case 4: what = "tpadvertise(other function)"; want(tpadvertise((char *)"PROBE", noop2) != -1, {TPEMATCH}); break;
        case 5: what = "tpunadvertise(NULL)"; want(tpunadvertise(nullptr) != -1, {TPEINVAL}); break;
        case 6: what = "tpunadvertise(\"\")"; want(tpunadvertise((char *)"") != -1, {TPEINVAL}); break;
        case 7:
          what = fmt("tpunadvertise(%s)", pbt::show(n, 20).c_str());
          want(tpunadvertise((char *)n.c_str()) != -1, n.size() >= 32 ? std::set<int>{TPENOENT, TPEINVAL} : std::set<int>{TPENOENT});
          break;
      }
      break;
    }
    case 20: {  // successes
      static const char *t[] = {"STRING", "CARRAY", "FML32", "TPINIT"};
      what = fmt("tpalloc(%s)", t[a % 4]);
      spoil(pre);
      char *p = tpalloc((char *)t[a % 4], nullptr, a / 4 % 5000);
      want(p != nullptr, {0});
      what = "tptypes";
      spoil(pre >> 3);
      want(tptypes(p, nullptr, nullptr) != -1, {0});
      what = "tprealloc";
      spoil(pre >> 5);
      p = tprealloc(p, 5000 + a / 4 % 9000);
      want(p != nullptr, {0});
      what = "tpfree";
      spoil(pre >> 7);
      tpfree(p);
      want(true, {0});
      what = "tpfree(NULL)";
      spoil(pre >> 8);
      tpfree(nullptr);
      want(true, {0});
      break;
    }
    case 21: {
      char *b = str(std::string(a % 300, 'e')), o[2000];
      long l = sizeof(o);
      what = "tpexport";
      long fl = a / 300 % 2 ? TPEX_STRING : 0;
      spoil(pre);
      want(tpexport(b, 0, o, &l, fl) != -1, {0});
      what = "tpimport";
      spoil(pre >> 4);
      want(tpimport(o, l, &b, nullptr, fl) != -1, {0});
      tpfree(b);
      break;
    }
    case 22: {
      int v = a % 1000;
      what = "tpsblktime";
      int al = tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND);
      spoil(pre);
      want(tpsblktime(v + 20, TPBLK_ALL) == 0, {0});
      what = "tpgblktime";
      spoil(pre >> 4);
      int g = tpgblktime(TPBLK_ALL);
      want(g != -1, {0});
      if (g != v + 20) bad(fmt("%d, but it was set to %d", g, v + 20));
      tpsblktime(al, TPBLK_ALL | TPBLK_MILLISECOND);
      break;
    }
    case 23: {
      spoil(pre);
      if (S) what = "tpappthrinit", want(tpappthrinit(nullptr) != -1, {0});
      else what = "tpinit", want(tpinit(nullptr) != -1, {0});
      break;
    }
    case 24: {
      if (!S) {
        run(23, a);
        break;
      }
      what = "tpadvertise";
      spoil(pre);
      want(tpadvertise((char *)"X05NAME", noop) != -1, {0});
      what = "tpadvertise again";
      spoil(pre >> 3);
      want(tpadvertise((char *)"X05NAME", noop) != -1, {0});
      what = "tpunadvertise";
      spoil(pre >> 5);
      want(tpunadvertise((char *)"X05NAME") != -1, {0});
      break;
    }
    case 25: case 26: {
      // a call that works, or fails in the service
      bool fail = a % 3 == 0;
      long rc = (long)(a / 3 % 100000) - 5000;
      id++;
      char *in = request(fail ? TPFAIL : TPSUCCESS, rc), *out = str("kept");
      long l = 77;
      what = "tpcall";
      spoil(pre);
      tpurcode = -77;
      int r = tpcall((char *)"ECHO", in, 0, &out, &l, 0);
      long ur = tpurcode;
      executed++;
      want(r != -1, {fail ? TPESVCFAIL : 0});
      if (ur != rc) bad(fmt("user code %ld, expected %ld", ur, rc));
      if (strtoull(out, nullptr, 10) != id) bad("reply " + pbt::show(out));
      tpfree(in);
      tpfree(out);
      break;
    }
    case 27: case 28: {
      id++;
      bool fail = a % 3 == 0;
      char *in = request(fail ? TPFAIL : TPSUCCESS, 7), *out = str("kept");
      long l = 77;
      what = "tpacall";
      spoil(pre);
      int cd = tpacall((char *)"ECHO", in, 0, a % 5 == 0 ? TPNOREPLY : 0);
      want(cd != -1, {0});
      executed++;
      if (a % 5 == 0) {
        if (cd != 0) bad(fmt("descriptor %d", cd));
      } else if (a % 5 == 1) {
        what = "tpcancel";
        spoil(pre >> 3);
        want(tpcancel(cd) != -1, {0});
        what = "tpcancel again";
        spoil(pre >> 5);
        want(tpcancel(cd) != -1, {TPEBADDESC});
      } else {
        what = "tpgetrply";
        int c = cd;
        spoil(pre >> 3);
        int r = tpgetrply(&c, &out, &l, 0);
        want(r != -1, {fail ? TPESVCFAIL : 0});
        if (strtoull(out, nullptr, 10) != id) bad("reply " + pbt::show(out));
        what = "tpgetrply again";
        strcpy(out, "kept");
        spoil(pre >> 5);
        want(tpgetrply(&cd, &out, &l, a % 2 ? TPNOBLOCK : 0) != -1, {TPEBADDESC});
        if (strcmp(out, "kept")) bad("the reply was written");
      }
      tpfree(in);
      tpfree(out);
      break;
    }
    case 29: {
      int n = 1 + a % 25;
      what = fmt("tpstrerror(%d)", n);
      if (!tpstrerror(n) || !*tpstrerror(n)) bad("no message");
      for (int k = 1; k <= 25; k++)
        if (k != n && tpstrerror(k) && !strcmp(tpstrerror(k), tpstrerror(n))) bad(fmt("the same message as %d", k));
      int m = (int[]){0, -1, 26, 10000, -2147483647}[a / 25 % 5];
      if (!tpstrerror(m)) bad("NULL for an unknown code");
      int f = 1 + a % FBADRECORD;
      what = fmt("Fstrerror32(%d)", f);
      if (!Fstrerror32(f) || !*Fstrerror32(f)) bad("no message");
      if (!Fstrerror32(m == 26 ? 1000 : m)) bad("NULL for an unknown code");
      break;
    }
  }
}
typedef std::vector<std::pair<int, uint32_t>> Script;
// runs a script with a request outstanding all the time
static std::string run_script(const Script &s, bool server, uint64_t base, uint32_t *executed, std::set<std::string> *kinds) {
  Prober p;
  p.S = server;
  p.id = base + 1;
  // a request in flight, that nothing may disturb
  char *in = p.request();
  int cd = tpacall((char *)"ECHO", in, 0, 0);
  tpfree(in);
  if (cd == -1) return fmt("tpacall: %s", tpstrerror(tperrno));
  p.executed++;
  for (auto &x : s) {
    p.run(x.first, x.second);
    if (!p.err.empty()) break;
  }
  if (p.err.empty()) {
    char *out = p.str("kept");
    long l = 77;
    p.what = "tpgetrply of the first request";
    int c = cd;
    p.spoil(1);
    int r = tpgetrply(&c, &out, &l, 0);
    p.want(r != -1, {0});
    if (strtoull(out, nullptr, 10) != base + 1) p.bad("reply " + pbt::show(out));
    p.what = "tpgetrply(TPGETANY | TPNOBLOCK) with nothing outstanding";
    strcpy(out, "kept");
    p.want(tpgetrply(&c, &out, &l, TPGETANY | TPNOBLOCK) != -1, {TPEBLOCK});
    if (strcmp(out, "kept")) p.bad("the reply was written");
    tpfree(out);
  }
  *executed = p.executed;
  if (kinds) *kinds = p.kinds;
  return p.err;
}
// BASE OP ARG OP ARG...
static void probe(TPSVCINFO *i) {
  std::string err;
  uint32_t n = 0;
  char *out;
  {
    Script s;
    unsigned long long base = 0;
    int op, used = 0;
    unsigned a;
    const char *p = i->data;
    sscanf(p, "%llu%n", &base, &used);
    p += used;
    while (sscanf(p, "%d %u%n", &op, &a, &used) == 2) {
      s.push_back({op, a});
      p += used;
    }
    err = run_script(s, true, base, &n, nullptr);
    out = tpalloc((char *)"STRING", nullptr, err.size() + 1);
    strcpy(out, err.c_str());
    std::string().swap(err);
    Script().swap(s);
  }
  tpreturn(TPSUCCESS, n, out, 0, 0);
}
static void prepare() {
  switch (g_srvid) {
    case 1: case 2: server_services = {{"ECHO", cmd<0>}}; break;
    default: server_services = {{"PROBE", probe}};
  }
}
static void setup(int w) {
  enter(w, {"vsa", "vta"});
  load(ubb_head(w, "BLOCKTIME 40\nMAXACCESSERS 200\n") +
       "*GROUPS\nG1 GRPNO=1\nG2 GRPNO=2\n*SERVERS\nvsa SRVGRP=G1 SRVID=1\nvsa SRVGRP=G2 SRVID=2\n"
       "vsa SRVGRP=G1 SRVID=3\nvta SRVGRP=G1 SRVID=4 MINDISPATCHTHREADS=3 MAXDISPATCHTHREADS=3\n");
  boot();
  if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
}
static Script script(G &g) {
  Script s;
  size_t n = 1 + g.below(g.chance(1, 4) ? 40 : 10);
  for (size_t i = 0; i < n; i++) {
    int op = g.below(Prober::OPS);
    s.push_back({op, (uint32_t)g.below(1 << 20)});
  }
  return s;
}
static void records(uint32_t executed, uint64_t base, const char *who) {
  // everything accepted is executed, and nothing else
  for (int i = 0; i < 20000 && sh->nrec < executed; i++) usleep(500);
  usleep(200);
  PBT_EQ((uint32_t)sh->nrec, executed, fmt("requests executed for the %s", who));
}
static uint64_t serial = 0;
static void client_calls(G &g) {
  reset();
  Script s = script(g);
  uint32_t n = 0;
  std::set<std::string> kinds;
  serial += 1000;
  g.log("%zu calls", s.size());
  std::string e = run_script(s, false, serial, &n, &kinds);
  if (!e.empty()) pbt::fail("in a client: %s", e.c_str());
  records(n, serial, "client");
  for (auto &k : kinds) g.label(k);
  g.nontrivial(kinds.size() >= 2);
}
static void server_calls(G &g) {
  reset();
  Script s = script(g);
  serial += 1000;
  std::string t = fmt("%llu", (unsigned long long)serial);
  for (auto &x : s) t += fmt(" %d %u", x.first, x.second);
  g.log("%zu calls", s.size());
  char *in = tpalloc((char *)"STRING", nullptr, t.size() + 1), *out = tpalloc((char *)"STRING", nullptr, 0);
  strcpy(in, t.c_str());
  long l;
  int r = tpcall((char *)"PROBE", in, 0, &out, &l, 0), code = tperrno;
  long n = tpurcode;
  std::string e = out;
  tpfree(in);
  tpfree(out);
  PBT_ASSERT(r != -1, "the service with the calls failed: %s", tpstrerror(code));
  if (!e.empty()) pbt::fail("in a service: %s", e.c_str());
  records(n, serial, "service");
  g.nontrivial(s.size() >= 2);
}
// ---- several threads
struct Step {
  int k;
  uint32_t a;
  int nap;
};
struct Mine {
  int tp = -1, f = -1;  // expected tperrno and Ferror32; -1: unknown
  long ur = 0;
  bool has_ur = false;
};
static void step(const Step &s, Mine &m, uint64_t id) {
  auto tpfail = [&](const char *w, bool ok, int code) {
    m.tp = code;
    m.f = -1;
    PBT_ASSERT(ok == (code == 0), "%s: %s", w, ok ? "succeeded" : tpstrerror(tperrno));
  };
  auto ffail = [&](const char *w, bool ok, int code) {
    m.f = code;
    PBT_ASSERT(!ok, "%s: succeeded", w);
  };
  alignas(16) char fb[600];
  switch (s.k) {
    case 0: tpfail("tpalloc(NULL)", tpalloc(nullptr, nullptr, 0), TPEINVAL); break;
    case 1: tpfail("tpalloc(unknown type)", tpalloc((char *)"NONE", nullptr, 0), TPENOENT); break;
    case 2: tpfail("tpcancel(-5)", tpcancel(-5) != -1, TPEBADDESC); break;
    case 3: tpfail("tpadvertise in a client", tpadvertise((char *)"A", noop) != -1, TPEPROTO); break;
    case 4: {
      char *p = tpalloc((char *)"STRING", nullptr, 0), o[4];
      strcpy(p, "abc");
      long l = 4;
      bool ok = tpexport(p, 0, o, &l, 0) != -1;
      int e = tperrno;
      tpfree(p);
      PBT_ASSERT(!ok && e == TPELIMIT, "tpexport into 4 bytes: %d, tperrno %d", ok, e);
      m.tp = 0;
      break;
    }
    case 5: {
      char *p = tpalloc((char *)"FML32", nullptr, 0);
      tpfail("tpalloc", p, 0);
      tpfree(p);
      break;
    }
    case 6: {
      tpfail("tpsblktime", tpsblktime(30 + s.a % 10, TPBLK_ALL) != -1, 0);
      break;
    }
    case 7: case 8: {
      // with the outcome of a service
      bool fail = s.a % 2;
      long rc = (long)s.a - 500000;
      char *in = tpalloc((char *)"STRING", nullptr, 100), *out = tpalloc((char *)"STRING", nullptr, 100);
      snprintf(in, 100, "%llu %d %d %ld", (unsigned long long)id, (int)(s.a / 2 % 300), fail ? TPFAIL : TPSUCCESS, rc);
      long l;
      int r;
      r = tpcall((char *)"ECHO", in, 0, &out, &l, 0);
      int e = tperrno;
      m.ur = rc;
      m.has_ur = true;
      m.f = -1;
      PBT_ASSERT(fail ? r == -1 && e == TPESVCFAIL : r != -1 && e == 0, "call of a service that %s: %d, tperrno %d", fail ? "fails" : "succeeds", r, e);
      PBT_ASSERT(strtoull(out, nullptr, 10) == id, "reply %s to request %llu", out, (unsigned long long)id);
      tpfree(in);
      tpfree(out);
      m.tp = 0;
      if (fail) {
        // again the last call of the sequence
        tpfail("tpcancel(0)", tpcancel(0) != -1, TPEBADDESC);
      }
      break;
    }
    case 9: tpfail("tpcall of a missing service", tpacall((char *)"NOBODY", nullptr, 0, 0) != -1, TPENOENT); break;
    case 10: {
      Finit32((FBFR32 *)fb, sizeof(fb));
      ffail("Ffind32 of an absent field", Ffind32((FBFR32 *)fb, Fmkfldid32(FLD_LONG, 5), 0, nullptr), FNOTPRES);
      break;
    }
    case 11: ffail("Ffind32(NULL)", Ffind32(nullptr, Fmkfldid32(FLD_LONG, 5), 0, nullptr), FNOTFLD); break;
    case 12: {
      char *t = Fboolco32((char *)"1 ++");
      ffail("Fboolco32(\"1 ++\")", t, FSYNTAX);
      break;
    }
    case 13: {
      Finit32((FBFR32 *)fb, sizeof(fb));
      static const std::string big(1000, 'b');
      ffail("Fadd32 of too much", Fadd32((FBFR32 *)fb, Fmkfldid32(FLD_STRING, 5), (char *)big.c_str(), 0) != -1, FNOSPACE);
      break;
    }
    default: {
      Finit32((FBFR32 *)fb, sizeof(fb));
      long v = s.a;
      PBT_ASSERT(Fadd32((FBFR32 *)fb, Fmkfldid32(FLD_LONG, 5), (char *)&v, 0) != -1, "Fadd32: %s", Fstrerror32(Ferror32));
      ffail("Fget32 of an absent occurrence", Fget32((FBFR32 *)fb, Fmkfldid32(FLD_LONG, 5), 1 + s.a % 9, nullptr, nullptr) != -1, FNOTPRES);
    }
  }
}
static void held(const Mine &m, const char *when) {
  if (m.tp != -1) PBT_ASSERT(tperrno == m.tp, "%s: tperrno is %d, but this thread's last code is %d", when, tperrno, m.tp);
  if (m.f != -1) PBT_ASSERT(Ferror32 == m.f, "%s: Ferror32 is %d, but this thread's last code is %d", when, Ferror32, m.f);
  if (m.has_ur) PBT_ASSERT(tpurcode == m.ur, "%s: tpurcode is %ld, but this thread's last code is %ld", when, tpurcode, m.ur);
}
static void threads(G &g) {
  reset();
  int nt = 2 + g.below(5);
  bool together = g.flip();
  size_t n = 1 + g.below(20);
  std::vector<std::vector<Step>> st(nt);
  for (auto &v : st)
    for (size_t i = 0; i < n; i++) {
      Step s;
      s.k = g.below(16);
      s.a = g.below(1000000);
      s.nap = g.chance(1, 3) ? g.below(300) : 0;
      v.push_back(s);
    }
  g.log("%d threads, %zu steps each%s", nt, n, together ? ", in lock step" : "");
  serial += 100000;
  std::vector<std::string> errs(nt);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, nt);
  std::vector<std::thread> th;
  std::atomic<bool> stop{false};
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      Mine m;
      std::string when;
      try {
        m.tp = tperrno;
        if (tperrno != 0) pbt::fail("a new thread starts with tperrno %d", tperrno);
        if (Ferror32 != 0) pbt::fail("a new thread starts with Ferror32 %d", Ferror32);
        if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
        m.tp = 0;
        held(m, "after tpinit");
      } catch (pbt::Fail &f) {
        errs[t] = f.msg;
      }
      for (size_t i = 0; i < n; i++) {
        if (errs[t].empty()) try {
            step(st[t][i], m, serial + t * 1000 + i);
            when = fmt("step %zu (%d)", i, st[t][i].k);
            held(m, when.c_str());
          } catch (pbt::Fail &f) {
            errs[t] = f.msg;
          }
        if (together) pthread_barrier_wait(&bar);
        if (st[t][i].nap) usleep(st[t][i].nap);
        if (errs[t].empty()) try {
            held(m, (when + ", some time later").c_str());
          } catch (pbt::Fail &f) {
            errs[t] = f.msg;
          }
        if (together) pthread_barrier_wait(&bar);
      }
      tpterm();
    });
  for (auto &t : th) t.join();
  pthread_barrier_destroy(&bar);
  for (int t = 0; t < nt; t++)
    if (!errs[t].empty()) pbt::fail("thread %d: %s", t, errs[t].c_str());
  g.nontrivial(nt * n >= 6);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X05";
  c.rule =
      "client, server: random sequences of valid and invalid calls in a client or inside a service, with a request in flight; threads: several threads "
      "with failing and succeeding calls. Non-trivial: at least 2 calls with different outcomes (threads: 6 calls).";
  c.subs = {{"client", client_calls, 8000, 160000, 400}, {"server", server_calls, 6000, 120000, 300}, {"threads", threads, 2500, 50000, 80}};
  c.assumptions = {"Codes are those documented for ATMI; where a too long service name could be refused as TPEINVAL or TPENOENT both are accepted."};
  c.setup = setup;
  common(c, 64380);
  c.repro_n = 6;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
