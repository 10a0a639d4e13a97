// M01: typed buffers keep contents and type across resizing.
#include <atmi.h>
#include <climits>
#include "fmlnames.hpp"
using namespace fm;

struct B {
  std::string type, sub;
  char *p;
  std::string data;  // CARRAY, TPINIT: all bytes ever written; STRING: with NUL
  M m;               // FML32
  size_t room;       // what was asked for
};

static char *dup(const std::string &s) { return strdup(s.c_str()); }
// types have a size that buffers are never smaller than
static long least_of(const std::string &type) {
  static std::map<std::string, long> m;
  auto i = m.find(type);
  if (i != m.end()) return i->second;
  char *p = tpalloc((char *)type.c_str(), nullptr, 0);
  PBT_ASSERT(p != nullptr, "tpalloc failed with %d", tperrno);
  long n = tptypes(p, nullptr, nullptr);
  tpfree(p);
  return m[type] = n;
}
static void verify(B &b, const char *what) {
  char type[8 + 1], sub[16 + 1];
  memset(type, 'x', sizeof(type));
  memset(sub, 'x', sizeof(sub));
  long size = tptypes(b.p, type, sub);
  PBT_ASSERT(size != -1, "%s: tptypes failed with %d", what, tperrno);
  PBT_ASSERT((size_t)size >= b.room, "%s: %s buffer of %ld bytes, %zu requested", what, b.type.c_str(), size, b.room);
  PBT_ASSERT(size >= least_of(b.type), "%s: %s buffer of %ld bytes, the type has at least %ld", what, b.type.c_str(), size, least_of(b.type));
  PBT_ASSERT(type[8] == 'x' && sub[16] == 'x', "tptypes wrote too much");
  type[8] = sub[16] = 0;
  PBT_EQ(std::string(type), b.type, std::string(what) + ": type");
  PBT_EQ(std::string(sub), b.sub, std::string(what) + ": subtype");
  PBT_ASSERT(tptypes(b.p, nullptr, sub) != -1 && tptypes(b.p, type, nullptr) != -1, "tptypes without one of the outputs failed");
  if (b.type == "FML32") {
    PBT_ASSERT((size_t)Fsizeof32((FBFR32 *)b.p) >= b.room, "%s: buffer of %ld bytes, %zu requested", what, Fsizeof32((FBFR32 *)b.p), b.room);
    check_is((FBFR32 *)b.p, b.m, what);
  } else {
    PBT_ASSERT(memcmp(b.p, b.data.data(), b.data.size()) == 0, "%s: contents of %s changed from %s to %s", what, b.type.c_str(),
               pbt::show(b.data).c_str(), pbt::show(std::string(b.p, b.data.size())).c_str());
  }
}
static void fill(G &g, B &b, const std::vector<FLDID32> &pool) {
  if (b.type == "FML32") {
    GenOpt o;
    o.maxlen = 120;
    o.depth = 1;
    size_t n = 1 + g.below(4);
    for (size_t i = 0; i < n; i++) {
      FLDID32 id = g.pick(pool);
      V v = gen_val(g, id, o, pool);
      if (add((FBFR32 *)b.p, id, v) != -1)
        b.m.f[id].push_back(v);
      else
        PBT_EQ(Ferror32, FNOSPACE, "Fadd32 error");
    }
  } else if (b.type == "STRING") {
    size_t max = b.room;
    if (max == 0) return;
    b.data = g.text(std::min(g.size(max - 1), max - 1), true) + std::string(1, 0);
    memcpy(b.p, b.data.data(), b.data.size());
  } else {
    b.data = g.bytes(b.room);  // every requested byte is usable
    memcpy(b.p, b.data.data(), b.data.size());
  }
}

static void histories(G &g) {
  std::vector<B> live;
  auto pool = gen_pool(g, 5);
  size_t ops = 2 + g.below(25), resizes = 0;
  static const char *types[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
  for (size_t k = 0; k < ops; k++) {
    switch (live.empty() ? 0 : g.weighted({3, 5, 4, 1, 1})) {
      case 0: {
        if (live.size() > 5) break;
        B b;
        b.type = g.pick(types);
        int sk = g.below(3);
        b.sub = sk == 0 ? "*" : "";
        b.room = g.size(g.chance(1, 8) ? 200000 : 2000);
        if (b.type == "TPINIT") b.room = std::max<size_t>(b.room, TPINITNEED(0));
        g.log("tpalloc %s %s %zu -> #%zu", b.type.c_str(), sk == 2 ? "NULL" : b.sub.c_str(), b.room, live.size());
        char *t = dup(b.type), *s = dup(b.sub);
        b.p = tpalloc(t, sk == 2 ? nullptr : s, b.room);
        free(t);
        free(s);
        PBT_ASSERT(b.p != nullptr, "tpalloc failed with %d", tperrno);
        PBT_ASSERT((uintptr_t)b.p % 8 == 0, "data is not aligned");
        if (b.type == "STRING") b.p[0] = 0, b.data = std::string(1, 0);
        live.push_back(b);
        if (b.type != "STRING" || b.room) fill(g, live.back(), pool);
        break;
      }
      case 1: {
        B &b = live[g.below(live.size())];
        size_t i = &b - &live[0];
        size_t least = b.type == "FML32" ? Fused32((FBFR32 *)b.p) : b.type == "STRING" ? b.data.size() : 0;
        size_t to = least + g.size(g.chance(1, 8) ? 200000 : 2000);
        g.log("tprealloc #%zu to %zu", i, to);
        if (b.type == "CARRAY" || b.type == "TPINIT")
          if (b.data.size() > to) b.data.resize(to);
        char *np = tprealloc(b.p, to);
        PBT_ASSERT(np != nullptr, "tprealloc failed with %d", tperrno);
        b.p = np;
        b.room = to;
        verify(b, "after tprealloc");
        resizes++;
        break;
      }
      case 2: {
        B &b = live[g.below(live.size())];
        g.log("write #%zu", (size_t)(&b - &live[0]));
        fill(g, b, pool);
        break;
      }
      case 3: {
        size_t i = g.below(live.size());
        g.log("tpfree #%zu", i);
        verify(live[i], "before tpfree");
        tpfree(live[i].p);
        live.erase(live.begin() + i);
        break;
      }
      default: {
        static const char *bad[] = {"", "FOO", "CARRAYX", "STRIN", "fml32", "FML", "CARRAY ", "FML32XYZW"};
        static const char *badsub[] = {"x", "**", "*x", "abcdefghijklmnopqrst"};
        char *t = dup(g.pick(bad));
        g.log("refusals %s", t);
        PBT_ASSERT(tpalloc(t, (char *)"*", 100) == nullptr && tperrno == TPENOENT, "tpalloc of type %s: error %d", t, tperrno);
        free(t);
        char *ty = dup(g.pick(types)), *su = dup(g.pick(badsub));
        PBT_ASSERT(tpalloc(ty, su, 100) == nullptr && tperrno == TPENOENT, "tpalloc of type %s subtype %s: error %d", ty, su, tperrno);
        free(ty);
        free(su);
        PBT_ASSERT(tpalloc(nullptr, nullptr, 100) == nullptr && tperrno == TPEINVAL, "tpalloc of type NULL: error %d", tperrno);
        PBT_ASSERT(tprealloc(nullptr, 100) == nullptr && tperrno == TPEINVAL, "tprealloc of NULL: error %d", tperrno);
        char a[8], s[16];
        PBT_ASSERT(tptypes(nullptr, a, s) == -1 && tperrno == TPEINVAL, "tptypes of NULL: error %d", tperrno);
        tpfree(nullptr);
        // more than there is
        static const long huge[] = {1l << 48, 1l << 55, 1l << 62, LONG_MAX, LONG_MAX - 63};
        long n = g.pick(huge);
        ty = dup(g.pick(types));
        PBT_ASSERT(tpalloc(ty, nullptr, n) == nullptr && tperrno == TPEOS, "tpalloc of %ld bytes: error %d", n, tperrno);
        free(ty);
        if (!live.empty()) {
          B &b = live[g.below(live.size())];
          PBT_ASSERT(tprealloc(b.p, n) == nullptr && tperrno == TPEOS, "tprealloc to %ld bytes: error %d", n, tperrno);
        }
      }
    }
    for (auto &b : live) verify(b, "after an operation on some buffer");
  }
  for (auto &b : live) tpfree(b.p);
  g.label(pbt::fmt("%zu+ resizes", resizes / 4 * 4));
  g.nontrivial(resizes >= 2);
}

// buffers of fields made by the field functions
static void fielded(G &g) {
  auto pool = gen_pool(g, 5);
  long f = g.below(20), v = g.below(300);
  g.log("Falloc32(%ld,%ld)", f, v);
  long need = Fneeded32(f, v);
  FBFR32 *b = Falloc32(f, v);
  PBT_ASSERT(b != nullptr, "Falloc32 failed with %d", Ferror32);
  PBT_ASSERT(Fsizeof32(b) >= need, "Falloc32(%ld,%ld) has %ld bytes, Fneeded32 says %ld", f, v, Fsizeof32(b), need);
  M m;
  size_t n = g.below(20), re = 0;
  GenOpt o;
  o.maxlen = 100;
  o.depth = 1;
  for (size_t k = 0; k < n; k++) {
    if (g.chance(1, 3)) {
      long f2 = 1 + g.below(30), v2 = 1 + g.below(500);
      if (Fneeded32(f2, v2) < Fused32(b)) continue;
      g.log("Frealloc32(%ld,%ld)", f2, v2);
      FBFR32 *nb = Frealloc32(b, f2, v2);
      PBT_ASSERT(nb != nullptr, "Frealloc32 failed with %d", Ferror32);
      b = nb;
      PBT_ASSERT(Fsizeof32(b) >= Fneeded32(f2, v2), "Frealloc32 made %ld bytes", Fsizeof32(b));
      re++;
    } else {
      FLDID32 id = g.pick(pool);
      V val = gen_val(g, id, o, pool);
      g.log("add %s", idstr(id).c_str());
      if (add(b, id, val) != -1)
        m.f[id].push_back(val);
      else
        PBT_EQ(Ferror32, FNOSPACE, "Fadd32 error");
    }
    check_is(b, m, "after an operation");
  }
  if (g.chance(1, 8)) {
    long f2 = INT_MAX - (long)g.below(1000), v2 = UINT_MAX - (long)g.below(1000);
    PBT_ASSERT(Falloc32(f2, v2) == nullptr && Ferror32 == FMALLOC, "Falloc32(%ld,%ld): error %d", f2, v2, Ferror32);
    PBT_ASSERT(Frealloc32(b, f2, v2) == nullptr && Ferror32 == FMALLOC, "Frealloc32(%ld,%ld): error %d", f2, v2, Ferror32);
    check_is(b, m, "after a refused reallocation");
  }
  PBT_ASSERT(Ffree32(b) != -1, "Ffree32 failed with %d", Ferror32);
  PBT_ASSERT(Frealloc32(nullptr, 1, 1) == nullptr, "Frealloc32 of NULL succeeded");
  PBT_ASSERT(Ffree32(nullptr) == -1, "Ffree32 of NULL succeeded");
  g.nontrivial(re >= 1 && m.count() >= 1);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "M01";
  c.rule =
      "histories: up to six buffers of all types with random sequences of tpalloc, tprealloc, writes over all requested bytes, tpfree "
      "and refusals; every buffer is verified after every step. fielded: the same for Falloc32/Frealloc32. Non-trivial: at least 2 "
      "(1) resizes with contents.";
  c.subs = {
      {"histories", histories, 100000, 1500000},
      {"fielded", fielded, 60000, 800000},
  };
  c.assumptions = {"resizing a fielded or string buffer below its contents is excluded", "runs under AddressSanitizer; allocations fail by their size only"};
  return pbt::main(argc, argv, c);
}
