// X07: call time limits follow the configured and overridden block time.
#include "e2egen.hpp"
using namespace e2e;

static void prepare() { server_services = {{"ECHO", cmd<0>}}; }
static int conf_ms;
static void setup(int w) {
  enter(w, {"vta"});
  static const struct {
    const char *text;
    int ms;
  } c[] = {{"BLOCKTIME 2\n", 2000}, {"SCANUNIT 500MS\nBLOCKTIME 3\n", 1500}, {"SCANUNIT 1\nBLOCKTIME 1\n", 1000}, {"BLOCKTIME 1\nSCANUNIT 2\n", 2000},
           {"BLOCKTIME 3\nSCANUNIT 1000MS\n", 3000}};
  conf_ms = c[w % 5].ms;
  load(ubb_head(w, fmt("%sMAXACCESSERS 200\n", c[w % 5].text)) +
       "*GROUPS\nG1 GRPNO=1\n*SERVERS\nvta SRVGRP=G1 SRVID=1 MIN=4 MAX=4 MINDISPATCHTHREADS=16 MAXDISPATCHTHREADS=16\n");
  boot();
}
enum Kind { SET, GET, CALL, ASYNC, NOTIME, PAUSE };
struct Op {
  int kind, value, delay;
  long flags;
  bool late;
};
typedef std::vector<Op> Program;
static const int MARGIN = 3200;  // the bulletin board looks once per second

// the block time in force, for both generator and oracle
struct Model {
  long next = 0, all = 0;
  long peek() const { return next ? next : all ? all : conf_ms; }
  long take() {
    long r = peek();
    next = 0;
    return r;
  }
};
static Program program(G &g) {
  Program p;
  Model m;
  size_t n = 2 + g.below(6);
  int slow = 0;
  for (size_t i = 0; i < n; i++) {
    Op o;
    memset(&o, 0, sizeof(o));
    switch (g.below(9)) {
      case 0: case 1: case 2: o.kind = SET; break;
      case 3: o.kind = GET; break;
      case 4: case 5: case 6: o.kind = CALL; break;
      case 7: o.kind = ASYNC; break;
      default: o.kind = g.flip() ? NOTIME : PAUSE;
    }
    if (o.kind == NOTIME && m.next) o.kind = GET;
    if (o.kind == SET) {
      o.flags = g.flip() ? TPBLK_NEXT : TPBLK_ALL;
      if (g.chance(1, 3)) {
        o.value = g.chance(1, 4) ? 0 : g.chance(1, 4) ? g.below(2000000) : 1 + g.below(3);
      } else {
        o.flags |= TPBLK_MILLISECOND;
        o.value = g.chance(1, 6) ? 0 : g.chance(1, 6) ? (int)g.below(2000000000) : 100 + g.below(2500);
      }
      long ms = o.flags & TPBLK_MILLISECOND ? o.value : o.value * 1000L;
      (o.flags & TPBLK_NEXT ? m.next : m.all) = ms;
    } else if (o.kind == CALL || o.kind == ASYNC) {
      long l = m.peek();
      if (o.kind == ASYNC) {
        o.value = g.below(2);  // next set between the request and its reply
        m.take();
        if (o.value) m.next = l = 300 + g.below(1500), o.flags = l;
        else l = m.peek();
      }
      m.take();
      if (l < 3500 && slow < 3 && g.chance(1, 2)) {
        o.delay = l + MARGIN;
        o.late = true;
        slow++;
      } else
        o.delay = g.chance(1, 2) ? 0 : g.below(std::min(l, 3000L));
    } else if (o.kind == NOTIME) {
      o.delay = g.chance(1, 4) && slow < 3 ? slow++, conf_ms + MARGIN : g.below(500);
    } else if (o.kind == PAUSE)
      o.delay = g.below(1500);
    p.push_back(o);
  }
  return p;
}
struct Run {
  int t;
  uint64_t id;
  std::string trace, err;
  bool timed_out = false, followed = false;
  void run(const Program &p) {
    Model m;
    char *out = tpalloc((char *)"STRING", nullptr, 100);
    int step = 0;
    for (auto &o : p) {
      step++;
      std::string what;
      switch (o.kind) {
        case SET: {
          int r = tpsblktime(o.value, o.flags);
          what = fmt("tpsblktime(%d, 0x%lx) = %d", o.value, o.flags, r);
          trace += what + "\n";
          PBT_ASSERT(r == 0, "%s: %s", what.c_str(), r == -1 ? tpstrerror(tperrno) : "neither 0 nor -1");
          (o.flags & TPBLK_NEXT ? m.next : m.all) = o.flags & TPBLK_MILLISECOND ? o.value : o.value * 1000L;
          int b = tpgblktime(o.flags);
          PBT_ASSERT(b == o.value, "%s, but tpgblktime(0x%lx) = %d", what.c_str(), o.flags, b);
          break;
        }
        case GET: {
          int n = tpgblktime(TPBLK_NEXT | TPBLK_MILLISECOND), a = tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND);
          trace += fmt("tpgblktime: next %d, all %d\n", n, a);
          PBT_EQ((long)n, m.next, "block time of the next call");
          PBT_EQ((long)a, m.all, "block time of all calls");
          break;
        }
        case PAUSE: usleep(o.delay * 1000); break;
        case NOTIME: {
          double t0 = pbt::now();
          int r = call(o, out, TPNOTIME);
          double ms = (pbt::now() - t0) * 1000;
          trace += fmt("tpcall(TPNOTIME), service takes %d ms: %d after %.0f ms\n", o.delay, r, ms);
          PBT_ASSERT(r != -1, "a call without time limit failed: %s", tpstrerror(tperrno));
          mine(out);
          break;
        }
        case CALL: {
          long l = m.take();
          double t0 = pbt::now();
          int r = call(o, out, 0), e = tperrno;
          judge("tpcall", o, l, r, e, (pbt::now() - t0) * 1000, out);
          break;
        }
        case ASYNC: {
          m.take();
          id++;
          char *in = tpalloc((char *)"STRING", nullptr, 100);
          strcpy(in, fmt("%llu %d %d 0", (unsigned long long)id, o.delay * 1000, TPSUCCESS).c_str());
          int cd = tpacall((char *)"ECHO", in, 0, 0);
          tpfree(in);
          PBT_ASSERT(cd > 0, "tpacall: %s", tpstrerror(tperrno));
          if (o.value) {
            tpsblktime(o.flags, TPBLK_NEXT | TPBLK_MILLISECOND);
            m.next = o.flags;
          }
          long l = m.take();
          strcpy(out, "none");
          long len;
          double t0 = pbt::now();
          int r = tpgetrply(&cd, &out, &len, 0), e = tperrno;
          judge("tpgetrply", o, l, r, e, (pbt::now() - t0) * 1000, out);
          if (r == -1 && e == TPETIME) {
            // the request is still known
            if (step % 2) {
              r = tpgetrply(&cd, &out, &len, TPNOTIME);
              PBT_ASSERT(r != -1, "tpgetrply after a time-out: %s", tpstrerror(tperrno));
              mine(out);
            } else
              PBT_ASSERT(tpcancel(cd) != -1, "tpcancel after a time-out: %s", tpstrerror(tperrno));
          }
          break;
        }
      }
      int n = tpgblktime(TPBLK_NEXT | TPBLK_MILLISECOND), a = tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND);
      PBT_ASSERT(n == m.next && a == m.all, "block time next %d, all %d, but it should be %ld, %ld", n, a, m.next, m.all);
    }
    tpfree(out);
  }
  int call(const Op &o, char *&out, long flags) {
    id++;
    char *in = tpalloc((char *)"STRING", nullptr, 100);
    strcpy(in, fmt("%llu %d %d 0", (unsigned long long)id, o.delay * 1000, TPSUCCESS).c_str());
    strcpy(out, "none");
    long len;
    int r = tpcall((char *)"ECHO", in, 0, &out, &len, flags), e = tperrno;
    tpfree(in);
    tperrno = e;
    return r;
  }
  void mine(const char *out) { PBT_ASSERT(strtoull(out, nullptr, 10) == id, "reply %s to request %llu", pbt::show(out).c_str(), (unsigned long long)id); }
  void judge(const char *fn, const Op &o, long l, int r, int e, double ms, const char *out) {
    std::string what = fmt("%s with a limit of %ld ms and a service that takes %d ms: %s after %.0f ms", fn, l, o.delay, r == -1 ? tpstrerror(e) : "success", ms);
    trace += what + "\n";
    if (r == -1) {
      PBT_ASSERT(e == TPETIME, "%s", what.c_str());
      PBT_ASSERT(ms >= l - 2, "%s", what.c_str());
      timed_out = true;
    } else {
      PBT_ASSERT(!o.late, "%s", what.c_str());
      mine(out);
      if (timed_out) followed = true;
    }
  }
};
static void limits(G &g) {
  static uint64_t serial = 0;
  reset();
  int nt = 1 + g.below(12);
  std::vector<Program> ps;
  for (int t = 0; t < nt; t++) ps.push_back(program(g));
  serial++;
  std::vector<Run> rs(nt);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      rs[t].t = t;
      rs[t].id = (serial << 24) + ((uint64_t)t << 16);
      try {
        if (tpinit(nullptr) == -1) pbt::fail("tpinit: %s", tpstrerror(tperrno));
        rs[t].run(ps[t]);
      } catch (pbt::Fail &f) {
        rs[t].err = f.msg;
      }
      tpterm();
    });
  for (auto &t : th) t.join();
  bool timed = false, followed = false;
  for (auto &r : rs) {
    if (!r.err.empty()) pbt::fail("thread %d (configured block time %d ms): %s\n%s", r.t, conf_ms, r.err.c_str(), r.trace.c_str());
    timed |= r.timed_out;
    followed |= r.followed;
  }
  if (timed) g.label("timed out");
  if (followed) g.label("calls after a time-out");
  g.log("%d threads\n%s", nt, rs[0].trace.c_str());
  g.nontrivial(timed);
}
// settings only, no calls
static void settings(G &g) {
  Model m;
  tpterm();
  size_t n = 1 + g.below(20);
  bool over = false;
  for (size_t i = 0; i < n; i++) {
    if (g.chance(1, 12)) {
      tpterm();
      m = Model();
      continue;
    }
    long what = g.flip() ? TPBLK_NEXT : TPBLK_ALL, unit = g.flip() ? TPBLK_MILLISECOND : 0;
    int v;
    switch (g.below(4)) {
      case 0: v = 0; break;
      case 1: v = g.below(100); break;
      case 2: v = g.below(100000); break;
      default: v = unit ? (int)(g.u64() & 0x7fffffff) : (int)g.below(2147483);
    }
    g.log("tpsblktime(%d, 0x%lx)", v, what | unit);
    PBT_ASSERT(tpsblktime(v, what | unit) == 0, "tpsblktime(%d, 0x%lx): %s", v, what | unit, tpstrerror(tperrno));
    (what == TPBLK_NEXT ? m.next : m.all) = unit ? v : v * 1000L;
    if (m.next && m.all) over = true;
    PBT_EQ(tpgblktime(what | unit), v, "tpgblktime");
    PBT_EQ((long)tpgblktime(TPBLK_NEXT | TPBLK_MILLISECOND), m.next, "next");
    PBT_EQ((long)tpgblktime(TPBLK_ALL | TPBLK_MILLISECOND), m.all, "all");
    if (m.next % 1000 == 0) PBT_EQ((long)tpgblktime(TPBLK_NEXT), m.next / 1000, "next, seconds");
    if (m.all % 1000 == 0) PBT_EQ((long)tpgblktime(TPBLK_ALL), m.all / 1000, "all, seconds");
  }
  g.nontrivial(over);
}

int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "X07";
  c.rule =
      "limits: concurrent threads with random histories of block time settings, calls and replies, whose services end well before or after the limit; settings: "
      "setting and reading back only. Non-trivial: a call timed out (settings: both settings at once).";
  c.subs = {{"limits", limits, 48, 1400, 2}, {"settings", settings, 3000, 60000, 200}};
  c.assumptions = {"A limit is enforced by the bulletin board, which looks once per second: a time-out may be reported up to 3.2 s late. Never before the limit."};
  c.setup = setup;
  common(c, 64420, 16);
  c.hang_s = 100;
  c.repro_n = 3;
  c.repro_need = 2;
  return pbt::main(argc, argv, c);
}
