// F06: conversions between field types.
#include <math.h>
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

static const int CT[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY};

static std::string numtext(G &g) {
  switch (g.weighted({4, 3, 2, 2, 1, 1, 1})) {
    case 0: return fmt("%ld", gen_long(g));
    case 1: return fmt("%f", gen_double(g));
    case 2: return fmt("%.*e", (int)g.below(5), gen_double(g));
    case 3: return std::string(g.below(3), ' ') + (g.flip() ? "+" : "") + fmt("%ld", (long)g.below(1000)) + g.text(g.below(4), true);
    case 4: return "";
    case 5: return g.text(g.below(12), true);
    default: return g.text(g.below(300), false);
  }
}

// value bytes of a given type: what is passed to the conversion
static V gen_from(G &g, int type) {
  switch (type) {
    case FLD_STRING: return {numtext(g) + std::string(1, 0)};
    case FLD_CARRAY: {
      std::string s = numtext(g);
      if (g.chance(1, 6)) s += std::string(1, 0) + "7";
      return {s};
    }
    default: {
      GenOpt o;
      return gen_val(g, mkid(type, 1), o, {});
    }
  }
}

// Expected result bytes; false when C leaves the conversion undefined.
template <class T>
static bool fromnum(T v, int to, std::string &out) {
  bool isf = std::is_floating_point<T>::value;
  auto in = [&](double lo, double hi) { return !isf || (trunc((double)v) >= lo && trunc((double)v) <= hi); };
  switch (to) {
    case FLD_SHORT:
      if (!in(-32768, 32767)) return false;
      out = raw<short>((short)v);
      return true;
    case FLD_CHAR:
      if (!in(-128, 127)) return false;
      out = raw<char>((char)v);
      return true;
    case FLD_LONG:
      if (!in(-9.2e18, 9.2e18)) return false;
      out = raw<long>((long)v);
      return true;
    case FLD_FLOAT: out = raw<float>((float)v); return true;
    case FLD_DOUBLE: out = raw<double>((double)v); return true;
    case FLD_STRING:
    case FLD_CARRAY: {
      char b[512];
      if (isf)
        snprintf(b, sizeof(b), "%f", (double)v);
      else
        snprintf(b, sizeof(b), "%ld", (long)v);
      out = b;
      out.push_back(0);
      return true;
    }
  }
  return false;
}
static bool expect(int from, const V &v, int to, std::string &out) {
  switch (from) {
    case FLD_SHORT: return fromnum(as<short>(v.b), to, out);
    case FLD_LONG: return fromnum(as<long>(v.b), to, out);
    case FLD_FLOAT: return fromnum(as<float>(v.b), to, out);
    case FLD_DOUBLE: return fromnum(as<double>(v.b), to, out);
    case FLD_CHAR:
      if (to == FLD_STRING || to == FLD_CARRAY) {
        out = v.b + std::string(1, 0);
        return true;
      }
      return fromnum(as<char>(v.b), to, out);
  }
  std::string s = v.b;
  if (from == FLD_STRING) s.pop_back();
  switch (to) {
    case FLD_SHORT: out = raw<short>((short)strtol(s.c_str(), nullptr, 10)); return true;
    case FLD_LONG: out = raw<long>(strtol(s.c_str(), nullptr, 10)); return true;
    case FLD_CHAR: out = raw<char>(s.c_str()[0]); return true;
    case FLD_FLOAT: {
      double d = strtod(s.c_str(), nullptr);
      if (!(fabs(d) < 3e38) && !isinf(d) && !isnan(d)) return false;
      out = raw<float>((float)d);
      return true;
    }
    case FLD_DOUBLE: out = raw<double>(strtod(s.c_str(), nullptr)); return true;
    case FLD_STRING:
      out = s + std::string(1, 0);
      return true;
    case FLD_CARRAY:
      out = s;
      if (from == FLD_STRING) out.push_back(0);
      return true;
  }
  return false;
}

static bool numeq(int type, const std::string &a, const std::string &b) {
  if (type == FLD_DOUBLE) return as<double>(a) == as<double>(b) || (isnan(as<double>(a)) && isnan(as<double>(b)));
  if (type == FLD_FLOAT) return as<float>(a) == as<float>(b) || (isnan(as<float>(a)) && isnan(as<float>(b)));
  return a == b;
}
// converting to an array of bytes may or may not keep the terminator of text
static bool agrees(int from, int to, const std::string &got, const std::string &want) {
  if (to == FLD_CARRAY && from != FLD_CARRAY) return got == want || got + std::string(1, 0) == want;
  if (to == FLD_STRING && from == FLD_CARRAY) {
    // as text, up to the first NUL at least
    return got == want || std::string(got.c_str()) == std::string(want.c_str());
  }
  return numeq(to, got, want);
}

static void convert(G &g) {
  int from = g.pick(CT), to = g.pick(CT);
  V v = gen_from(g, from);
  std::string want;
  g.log("Ftypcvt32 %s %s to %s", tname(from), vstr(mkid(from, 1), v).c_str(), tname(to));
  if (!expect(from, v, to, want)) {
    g.label("undefined in C");
    return;
  }
  Arg a(v);
  FLDLEN32 len = 4711;
  char *r = Ftypcvt32(&len, to, a.get(), from, from == FLD_CARRAY ? v.b.size() : g.below(3));
  PBT_ASSERT(r != nullptr, "Ftypcvt32 from %s to %s failed with %d", tname(from), tname(to), Ferror32);
  std::string got(r, len);
  PBT_ASSERT(agrees(from, to, got, want), "Ftypcvt32 from %s to %s: got %s, expected %s", tname(from), tname(to),
             pbt::show(got).c_str(), pbt::show(want).c_str());
  // refusals
  static const int badt[] = {FLD_FML32, 7, 8, 11, 12, 55, -1};
  int b = g.pick(badt);
  PBT_ASSERT(Ftypcvt32(&len, b, a.get(), from, v.b.size()) == nullptr && Ferror32 == FEBADOP, "conversion to type %d: error %d", b, Ferror32);
  PBT_ASSERT(Ftypcvt32(&len, to, a.get(), b, v.b.size()) == nullptr && Ferror32 == FEBADOP, "conversion from type %d: error %d", b, Ferror32);
  PBT_ASSERT(Ftypcvt32(nullptr, to, a.get(), from, 0) == nullptr && Ferror32 == FEINVAL, "no length: error %d", Ferror32);
  PBT_ASSERT(Ftypcvt32(&len, to, nullptr, from, 0) == nullptr && Ferror32 == FEINVAL, "no value: error %d", Ferror32);
  g.label(std::string(tname(from)) + " to " + tname(to));
  g.nontrivial(from != to);
}

static void buffers(G &g) {
  std::vector<FLDID32> pool;
  size_t np = 1 + g.below(5);
  for (size_t i = 0; i < np; i++) pool.push_back(mkid(g.pick(CT), 1 + g.below(3)));
  if (g.chance(1, 5)) pool.push_back(mkid(FLD_FML32, 4));
  Buf b(1 << 17);
  M m;
  GenOpt so;
  so.maxlen = 12;
  size_t ops = 1 + g.below(16), conv = 0;
  for (size_t k = 0; k < ops; k++) {
    FLDID32 id = g.pick(pool);
    int ft = idtype(id);
    auto &cur = m.at(id);
    FLDOCC32 n = cur.size();
    int other = g.pick(CT);
    switch (g.weighted({5, 3, 3, 4, 2, 1})) {
      case 0:
      case 1: {  // CFadd32, CFchg32
        V v = gen_from(g, other);
        FLDOCC32 oc = g.flip() ? n : (FLDOCC32)g.below(n + 2);
        Arg a(v);
        FLDLEN32 al = other == FLD_CARRAY ? v.b.size() : 0;
        bool plain = g.flip();
        g.log("%s(%s,%d,%s as %s)", plain && oc == n ? "CFadd32" : "CFchg32", idstr(id).c_str(), oc,
              vstr(mkid(other, 1), v).c_str(), tname(other));
        std::string want;
        bool isn = ft == FLD_FML32;
        if (!isn && !expect(other, v, ft, want)) break;
        int rc = plain && oc == n ? CFadd32(b, id, a.get(), al, other) : CFchg32(b, id, oc, a.get(), al, other);
        if (isn) {
          PBT_ASSERT(rc == -1 && Ferror32 == FEBADOP, "converting into a nested buffer: %d error %d", rc, Ferror32);
        } else {
          PBT_ASSERT(rc != -1, "adding with conversion failed with %d", Ferror32);
          auto &vec = m.f[id];
          while ((FLDOCC32)vec.size() < oc) vec.push_back(defval(ft));
          // the same as converting first and using the plain operation
          FLDLEN32 clen = 0;
          char *cv = Ftypcvt32(&clen, ft, a.get(), other, al);
          PBT_ASSERT(cv != nullptr, "Ftypcvt32 failed with %d", Ferror32);
          Buf ref(8192);
          PBT_ASSERT(Fadd32(ref, id, cv, clen) != -1, "Fadd32 failed with %d", Ferror32);
          FLDLEN32 rl = 0, gl = 0;
          char *rp = Ffind32(ref, id, 0, &rl), *gp = Ffind32(b, id, oc, &gl);
          PBT_ASSERT(rp && gp, "value is missing");
          PBT_EQ(std::string(gp, gl), std::string(rp, rl), "value stored with conversion");
          if (ft != FLD_STRING || want.find('\0') == want.size() - 1)
            PBT_ASSERT(agrees(other, ft, std::string(gp, gl), want), "stored %s, expected %s",
                       pbt::show(std::string(gp, gl)).c_str(), pbt::show(want).c_str());
          V sv{std::string(gp, gl)};
          if ((FLDOCC32)vec.size() == oc)
            vec.push_back(sv);
          else
            vec[oc] = sv;
          conv++;
        }
        check_is(b, m, "after change with conversion");
        break;
      }
      case 2:
      case 3: {  // CFfind32, CFget32, Ffinds32, Fgets32
        FLDOCC32 oc = g.below(n + 2);
        bool present = oc < n;
        std::string want;
        int how = g.below(4);
        if (how >= 2) other = FLD_STRING;
        g.log("read %s[%d] as %s (%d)", idstr(id).c_str(), oc, tname(other), how);
        if (ft == FLD_FML32) {
          if (n == 0) {
            GenOpt o2;
            o2.depth = 0;
            V v = defval(FLD_FML32);
            PBT_ASSERT(add(b, id, v) != -1, "Fadd32");
            m.f[id].push_back(v);
          }
          FLDLEN32 l = 100;
          PBT_ASSERT(CFfind32(b, id, 0, &l, other) == nullptr && Ferror32 == FEBADOP, "converting a nested buffer: error %d", Ferror32);
          break;
        }
        if (present && !expect(ft, cur[oc], other, want)) break;
        FLDLEN32 len = 0;
        std::string got;
        if (how == 0 || how == 2) {
          char *p = how == 0 ? CFfind32(b, id, oc, g.flip() ? &len : nullptr, other) : Ffinds32(b, id, oc);
          if (!present) {
            PBT_ASSERT(p == nullptr && Ferror32 == FNOTPRES, "absent field: %p error %d", p, Ferror32);
            break;
          }
          PBT_ASSERT(p != nullptr, "CFfind32 failed with %d", Ferror32);
          if (how == 2 || len == 0)
            got = other == FLD_STRING ? std::string(p) + std::string(1, 0) : std::string(p, want.size());
          else
            got.assign(p, len);
          if (other == FLD_STRING && (how == 2 || len == 0)) want = std::string(want.c_str()) + std::string(1, 0);
        } else {
          size_t room = want.size() + g.below(4);
          bool small = present && other != FLD_CARRAY && how == 1 && want.size() > 1 && g.chance(1, 4);
          if (small) room = 1 + g.below(want.size() - 1);
          if (!present) room = 16;
          char *loc = (char *)malloc(room + 1);
          memset(loc, 0x5a, room + 1);
          len = room;
          bool wl = how == 1 && (small || g.flip());
          int rc = how == 1 ? CFget32(b, id, oc, loc, wl ? &len : nullptr, other) : Fgets32(b, id, oc, loc);
          got.assign(loc, room);
          free(loc);
          if (!present) {
            PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "absent field: %d error %d", rc, Ferror32);
            PBT_ASSERT(got == std::string(room, 0x5a), "area changed");
            break;
          }
          if (small) {
            PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "too small area: %d error %d", rc, Ferror32);
            PBT_ASSERT(got == std::string(room, 0x5a), "too small area was written");
            g.label("too small area");
            break;
          }
          PBT_ASSERT(rc != -1, "CFget32 failed with %d", Ferror32);
          if (wl) {
            got.resize(std::min<size_t>(len, got.size()));
          } else {
            got.resize(want.size());
          }
          if (how == 3) want = std::string(want.c_str()) + std::string(1, 0), got = std::string(got.c_str()) + std::string(1, 0);
        }
        PBT_ASSERT(agrees(ft, other, got, want), "read %s as %s: got %s, expected %s", vstr(id, cur[oc]).c_str(), tname(other),
                   pbt::show(got).c_str(), pbt::show(want).c_str());
        conv++;
        break;
      }
      case 4: {  // CFfindocc32: as converting first
        if (ft == FLD_FML32) break;
        V v = n && g.flip() && ft != FLD_STRING ? V{} : gen_from(g, other);
        if (v.b.empty() && other != FLD_CARRAY) {
          // something that is there, converted to the other type
          std::string w;
          FLDOCC32 oc = g.below(n ? n : 1);
          if (!n || !expect(ft, cur[oc], other, w)) break;
          v.b = w;
          if (other == FLD_STRING && (v.b.empty() || v.b.back())) v.b.push_back(0);
        }
        if (ft == FLD_STRING) {
          // becomes a pattern: letters and digits only
          std::string lit;
          std::string w;
          if (!expect(other, v, ft, w)) break;
          for (char c : std::string(w.c_str()))
            if (!isalnum((unsigned char)c)) lit = "no";
          if (!lit.empty()) break;
        }
        Arg a(v);
        FLDLEN32 al = other == FLD_CARRAY ? v.b.size() : 0, clen = 0;
        std::string w;
        if (!expect(other, v, ft, w)) break;
        g.log("CFfindocc32(%s,%s as %s)", idstr(id).c_str(), vstr(mkid(other, 1), v).c_str(), tname(other));
        FLDOCC32 r = CFfindocc32(b, id, a.get(), al, other);
        int e1 = Ferror32;
        char *cv = Ftypcvt32(&clen, ft, a.get(), other, al);
        PBT_ASSERT(cv != nullptr, "Ftypcvt32");
        std::string copy(cv, clen);
        FLDOCC32 r2 = Ffindocc32(b, id, &copy[0], clen);
        PBT_EQ(r, r2, "CFfindocc32 compared with conversion and Ffindocc32");
        if (r == -1) PBT_EQ(e1, FNOTPRES, "CFfindocc32 error");
        long want = -1;
        for (size_t i = 0; i < cur.size() && want < 0; i++) {
          bool eq = ft == FLD_STRING ? strstr(cur[i].b.c_str(), w.c_str()) != nullptr
                    : ft == FLD_FLOAT ? as<float>(cur[i].b) == as<float>(w)
                    : ft == FLD_DOUBLE ? as<double>(cur[i].b) == as<double>(w)
                                       : cur[i].b == copy;
          if (eq) want = i;
        }
        PBT_EQ((long)r, want, "CFfindocc32");
        g.label(r == -1 ? "occurrence absent" : "occurrence found");
        conv++;
        break;
      }
      default: {
        PBT_ASSERT(CFadd32(b, id, (char *)"1", 1, FLD_FML32) == -1 && Ferror32 == FEBADOP, "CFadd32 from a nested buffer: error %d", Ferror32);
        PBT_ASSERT(CFchg32(b, id, 0, (char *)"1", 1, 77) == -1 && Ferror32 == FEBADOP, "CFchg32 from type 77: error %d", Ferror32);
        check_is(b, m, "after refused conversion");
      }
    }
  }
  g.nontrivial(conv >= 2);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F06";
  c.rule =
      "convert: random values of every type converted to every type against C casts, printf and strtol/strtod; buffers: random "
      "sequences of adding, changing, reading and searching with conversion against converting first. Non-trivial: the types "
      "differ; at least 2 conversions happened.";
  c.subs = {
      {"convert", convert, 300000, 4000000},
      {"buffers", buffers, 60000, 800000},
  };
  c.assumptions = {"conversions that C leaves undefined (out-of-range floating point to integer) are skipped",
                   "whether text converted to a byte array keeps its terminator is left open"};
  return pbt::main(argc, argv, c);
}
