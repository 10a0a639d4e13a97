// F02: failed operations change nothing; space is accounted and respected.
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

// Space the contents take, measured on a freshly built buffer.
static long used_of(const M &m) {
  Built f(m, 4096);
  return Fused32(f);
}

static void verify(FBFR32 *b, long cap, const M &m, const char *what) {
  check_is(b, m, what);
  PBT_EQ(Fsizeof32(b), cap, std::string(what) + ": Fsizeof32");
  PBT_EQ(Fused32(b), used_of(m), std::string(what) + ": Fused32 compared with a fresh buffer of the same contents");
}

static void run(G &g, size_t maxops, size_t maxcap, size_t maxlen) {
  auto pool = gen_pool(g, 6);
  GenOpt o;
  o.maxlen = maxlen;
  o.depth = 1;
  M m;
  long empty = used_of(M());
  long cap = empty + g.below(maxcap);
  char *p = (char *)malloc(cap);
  struct Free {
    char *&p;
    ~Free() { free(p); }
  } guard{p};
  PBT_ASSERT(Finit32((FBFR32 *)p, cap) != -1, "Finit32(%ld) failed with %d", cap, Ferror32);
  if (g.chance(1, 20)) {
    char *q = (char *)malloc(empty);
    int rc = Finit32((FBFR32 *)q, g.below(empty));
    int e = Ferror32;
    free(q);
    PBT_ASSERT(rc == -1 && e == FNOSPACE, "Finit32 below the minimum: %d error %d", rc, e);
  }
  size_t ops = 1 + g.below(maxops), nospace = 0, okafter = 0;
  bool deleted = false;
  for (size_t i = 0; i < ops; i++) {
    FBFR32 *b = (FBFR32 *)p;
    FLDID32 id = g.pick(pool);
    int type = idtype(id);
    auto cur = m.at(id).size();
    M m2 = m;
    switch (g.weighted({6, 6, 3, 1, 2, 2, 2, 2})) {
      case 0:
      case 1: {
        V v = gen_val(g, id, o, pool);
        FLDOCC32 oc;
        switch (g.weighted({4, 3, 2, 1})) {
          case 0: oc = -1; break;
          case 1: oc = g.below(cur + 1); break;
          case 2: oc = cur + g.below(6); break;
          default: oc = cur + g.below(g.chance(1, 4) ? 2000000000u : 300);
        }
        size_t at = oc == -1 ? cur : oc;
        long need;
        if (at > cur + 5000) {
          need = cap + 1;  // no buffer here can hold that many
        } else {
          auto &vec = m2.f[id];
          while (vec.size() < at) vec.push_back(defval(type));
          if (vec.size() == at)
            vec.push_back(v);
          else
            vec[at] = v;
          need = used_of(m2);
        }
        g.log("Fchg32(%s,%d,%s)", idstr(id).c_str(), oc, vstr(id, v).c_str());
        int rc = oc == -1 && g.flip() ? add(b, id, v) : put(b, id, oc, v);
        if (need <= cap) {
          PBT_ASSERT(rc != -1, "%ld of %ld bytes needed, yet the change failed with %d", need, cap, Ferror32);
          if (deleted && nospace) okafter++;
          m = m2;
          verify(b, cap, m, "after change");
          if (at > cur) g.label("gap filled");
        } else {
          PBT_ASSERT(rc == -1, "%ld bytes needed in %ld, yet the change succeeded", need, cap);
          PBT_EQ(Ferror32, FNOSPACE, "error without space");
          nospace++;
          verify(b, cap, m, "after refused change");
          g.label(at > cur ? "no space for gap" : at < cur ? "no space to overwrite" : "no space to append");
        }
        break;
      }
      case 2: {
        FLDOCC32 oc = g.below(cur + 2);
        g.log("Fdel32(%s,%d)", idstr(id).c_str(), oc);
        int rc = Fdel32(b, id, oc);
        if ((size_t)oc < cur) {
          PBT_ASSERT(rc != -1, "Fdel32 failed with %d", Ferror32);
          m.erase(id, oc);
          deleted = true;
        } else {
          PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "Fdel32 of absent: %d error %d", rc, Ferror32);
        }
        verify(b, cap, m, "after Fdel32");
        break;
      }
      case 3: {
        g.log("Fdelall32(%s)", idstr(id).c_str());
        int rc = Fdelall32(b, id);
        if (cur) {
          PBT_ASSERT(rc != -1, "Fdelall32 failed with %d", Ferror32);
          m.f.erase(id);
          deleted = true;
        } else {
          PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "Fdelall32 of absent: %d error %d", rc, Ferror32);
        }
        verify(b, cap, m, "after Fdelall32");
        break;
      }
      case 4: {  // copy from another buffer
        M s = gen_model(g, pool, g.below(8), o);
        Built src(s, g.below(100));
        long need = used_of(s);
        g.log("Fcpy32 from %s", mstr(s).c_str());
        int rc = Fcpy32(b, src);
        if (need <= cap) {
          PBT_ASSERT(rc != -1, "Fcpy32 of %ld bytes into %ld failed with %d", need, cap, Ferror32);
          m = s;
        } else {
          PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "Fcpy32 of %ld bytes into %ld: %d error %d", need, cap, rc, Ferror32);
          nospace++;
          g.label("no space to copy");
        }
        verify(b, cap, m, "after Fcpy32");
        check_is(src, s, "source of Fcpy32");
        break;
      }
      case 5: {  // resize
        FLDOCC32 F = g.below(12);
        FLDLEN32 Vv = g.below(30);
        g.log("Frealloc32(%d,%u)", F, Vv);
        long want = Fneeded32(F, Vv), used = Fused32(b);
        FBFR32 *q = Frealloc32(b, F, Vv);
        if (F == 0 || Vv == 0) {
          PBT_ASSERT(q == nullptr && Ferror32 == FEINVAL, "Frealloc32 with zero: %p error %d", (void *)q, Ferror32);
        } else if (want < used) {
          PBT_ASSERT(q == nullptr, "Frealloc32 below the used size succeeded");
          PBT_EQ(Ferror32, FNOSPACE, "Frealloc32 error");
          g.label("resize refused");
        } else {
          PBT_ASSERT(q != nullptr, "Frealloc32 to %ld failed with %d", want, Ferror32);
          p = (char *)q;
          cap = want;
          g.label("resized");
        }
        verify((FBFR32 *)p, cap, m, "after Frealloc32");
        break;
      }
      case 6: {  // concatenation refused or complete
        M s = gen_model(g, pool, g.below(6), o);
        Built src(s);
        for (auto &x : s.f)
          for (auto &v : x.second) m2.f[x.first].push_back(v);
        long need = used_of(m2);
        g.log("Fconcat32 %s", mstr(s).c_str());
        bool must = Funused32(b) >= Fused32(src);
        int rc = Fconcat32(b, src);
        if (rc != -1) {
          PBT_ASSERT(need <= cap, "Fconcat32 succeeded without space");
          m = m2;
        } else {
          PBT_EQ(Ferror32, FNOSPACE, "Fconcat32 error");
          PBT_ASSERT(!must, "Fconcat32 of %ld bytes into %ld unused bytes refused", Fused32(src), Funused32(b));
          nospace++;
          g.label("no space to concatenate");
        }
        verify(b, cap, m, "after Fconcat32");
        break;
      }
      default: {  // bad arguments
        GenOpt so;
        so.maxlen = 8;
        so.depth = 0;
        V v = gen_val(g, id, so, pool);
        Arg a(v);
        g.log("bad arguments");
        static const FLDID32 bad[] = {0, (FLDID32)7 << 24 | 5, (FLDID32)8 << 24 | 1, (FLDID32)11 << 24 | 9, 0xff000001u, 0xffffffffu};
        FLDID32 x = g.pick(bad);
        int expect = x == 0 ? FBADFLD : FTYPERR;
        char area[64];
        FLDLEN32 al = sizeof(area);
        FLDOCC32 loc = 0;
        switch (g.below(12)) {
          case 0: PBT_EQ(Fadd32(b, x, a.get(), 1), -1, "Fadd32 of a bad field"); break;
          case 1: PBT_EQ(Fchg32(b, x, 0, a.get(), 1), -1, "Fchg32 of a bad field"); break;
          case 2: PBT_EQ(Fdel32(b, x, 0), -1, "Fdel32 of a bad field"); break;
          case 3: PBT_EQ(Fdelall32(b, x), -1, "Fdelall32 of a bad field"); break;
          case 4: PBT_ASSERT(Ffind32(b, x, 0, nullptr) == nullptr, "Ffind32 of a bad field"); break;
          case 5: PBT_EQ(Fget32(b, x, 0, area, &al), -1, "Fget32 of a bad field"); break;
          case 6: PBT_EQ(Fpres32(b, x, 0), -1, "Fpres32 of a bad field"); break;
          case 7: PBT_EQ(Foccur32(b, x), -1, "Foccur32 of a bad field"); break;
          case 8: PBT_EQ(Flen32(b, x, 0), -1l, "Flen32 of a bad field"); break;
          case 9: PBT_EQ(CFadd32(b, x, (char *)"1", 0, FLD_STRING), -1, "CFadd32 of a bad field"); break;
          case 10: PBT_ASSERT(Ffindlast32(b, x, &loc, &al) == nullptr, "Ffindlast32 of a bad field"); break;
          default:
            PBT_ASSERT(Fgetalloc32(b, x, 0, &al) == nullptr, "Fgetalloc32 of a bad field");
        }
        PBT_EQ(Ferror32, expect, "error for a bad field");
        verify(b, cap, m, "after call with bad field");
        FBFR32 *nb = g.flip() ? nullptr : (FBFR32 *)(p + 1 + g.below(7));
        int rc;
        switch (g.below(6)) {
          case 0: rc = add(nb, id, v); break;
          case 1: rc = Fdel32(nb, id, 0); break;
          case 2: rc = Fcpy32(nb, b); break;
          case 3: rc = Fcpy32(b, nb); break;
          case 4: rc = Fsizeof32(nb); break;
          default: rc = Fnext32(nb, &x, &loc, nullptr, nullptr);
        }
        PBT_ASSERT(rc == -1 && Ferror32 == FNOTFLD, "call on a pointer that is no buffer: %d error %d", rc, Ferror32);
        verify(b, cap, m, "after call with bad buffer");
      }
    }
  }
  if (okafter) g.label("space reused after deletion");
  g.nontrivial(nospace && m.count() >= 1);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F02";
  c.rule =
      "Random operations on buffers of 0 to 400 (or 3000) bytes beyond the minimum, placed in exactly sized heap memory under "
      "AddressSanitizer; the expected outcome comes from the space a fresh buffer with the resulting contents takes. "
      "Non-trivial: at least one operation was refused for lack of space while the buffer held data.";
  c.subs = {
      {"tiny", [](G &g) { run(g, 30, 200, 40); }, 60000, 1000000},
      {"medium", [](G &g) { run(g, 40, 3000, 400); }, 12000, 200000},
      {"huge", [](G &g) { run(g, 10, 400000, 150000); }, 600, 10000},
      {"many-small", [](G &g) { run(g, 150, 600, 10); }, 5000, 80000},
  };
  c.assumptions = {"occurrence numbers below -1 and values pointing into the buffer are outside the domain"};
  return pbt::main(argc, argv, c);
}
