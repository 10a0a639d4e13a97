// Reference model of FML32 buffers and generators for fields, values, buffers.
#pragma once
#include <fml32.h>
#include <xatmi.h>

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace fm {
using pbt::G;
using pbt::fmt;

static const int TYPES[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};
inline const char *tname(int t) {
  switch (t) {
    case FLD_SHORT: return "short";
    case FLD_LONG: return "long";
    case FLD_CHAR: return "char";
    case FLD_FLOAT: return "float";
    case FLD_DOUBLE: return "double";
    case FLD_STRING: return "string";
    case FLD_CARRAY: return "carray";
    case FLD_FML32: return "fml32";
  }
  return "?";
}
inline FLDID32 mkid(int type, uint32_t num) { return (FLDID32)type << 24 | num; }
inline int idtype(FLDID32 id) { return id >> 24; }
inline std::string idstr(FLDID32 id) { return fmt("%s:%u", tname(idtype(id)), id & 0xffffff); }

struct M;
struct V {
  std::string b;            // the bytes Ffind would show (strings with their NUL)
  std::shared_ptr<M> nest;  // for nested buffers
};
struct M {
  std::map<FLDID32, std::vector<V>> f;  // never holds empty vectors
  size_t count() const {
    size_t n = 0;
    for (auto &x : f) n += x.second.size();
    return n;
  }
  const std::vector<V> &at(FLDID32 id) const {
    static const std::vector<V> none;
    auto it = f.find(id);
    return it == f.end() ? none : it->second;
  }
  void erase(FLDID32 id, size_t oc) {
    auto it = f.find(id);
    it->second.erase(it->second.begin() + oc);
    if (it->second.empty()) f.erase(it);
  }
};
inline bool same(const M &a, const M &b);
inline bool same(const V &a, const V &b) {
  if ((bool)a.nest != (bool)b.nest) return false;
  if (a.nest) return same(*a.nest, *b.nest);
  return a.b == b.b;
}
inline bool same(const M &a, const M &b) {
  if (a.f.size() != b.f.size()) return false;
  for (auto i = a.f.begin(), j = b.f.begin(); i != a.f.end(); ++i, ++j) {
    if (i->first != j->first || i->second.size() != j->second.size()) return false;
    for (size_t k = 0; k < i->second.size(); k++)
      if (!same(i->second[k], j->second[k])) return false;
  }
  return true;
}

inline V defval(int type) {
  switch (type) {
    case FLD_SHORT: return {std::string(sizeof(short), 0)};
    case FLD_CHAR: return {std::string(1, 0)};
    case FLD_FLOAT: return {std::string(sizeof(float), 0)};
    case FLD_LONG: return {std::string(sizeof(long), 0)};
    case FLD_DOUBLE: return {std::string(sizeof(double), 0)};
    case FLD_STRING: return {std::string(1, 0)};
    case FLD_CARRAY: return {std::string()};
    case FLD_FML32: return {std::string(), std::make_shared<M>()};
  }
  return {};
}

template <class T>
std::string raw(T v) {
  return std::string((char *)&v, sizeof(v));
}
template <class T>
T as(const std::string &s) {
  T v;
  memcpy(&v, s.data(), sizeof(v));
  return v;
}

inline std::string vstr(FLDID32 id, const V &v);
inline std::string mstr(const M &m) {
  std::string s = "{";
  for (auto &x : m.f) {
    if (s.size() > 4000) return s + "...}";
    s += idstr(x.first) + "=[";
    for (auto &v : x.second) {
      if (s.size() > 4000) {
        s += "...";
        break;
      }
      s += vstr(x.first, v) + ",";
    }
    s += "] ";
  }
  return s + "}";
}
inline std::string vstr(FLDID32 id, const V &v) {
  switch (idtype(id)) {
    case FLD_SHORT: return fmt("%d", as<short>(v.b));
    case FLD_CHAR: return fmt("c%d", as<char>(v.b));
    case FLD_FLOAT: return fmt("%.9g", as<float>(v.b));
    case FLD_LONG: return fmt("%ld", as<long>(v.b));
    case FLD_DOUBLE: return fmt("%.17g", as<double>(v.b));
    case FLD_FML32: return v.nest ? mstr(*v.nest) : "?";
    default: return pbt::show(v.b, 24);
  }
}

// A buffer in exactly sized heap memory, so that the address sanitizer sees
// every access outside of it.
struct Buf {
  char *p = nullptr;
  explicit Buf(size_t size, int fill = -1) { alloc(size, fill); }
  void alloc(size_t size, int fill) {
    p = (char *)malloc(size);
    if (fill >= 0) memset(p, fill, size);
    if (Finit32((FBFR32 *)p, size) == -1) pbt::fail("Finit32(%zu) failed: %d", size, Ferror32);
  }
  ~Buf() { free(p); }
  Buf(const Buf &) = delete;
  Buf &operator=(const Buf &) = delete;
  FBFR32 *get() const { return (FBFR32 *)p; }
  operator FBFR32 *() const { return get(); }
};

inline int put(FBFR32 *b, FLDID32 id, FLDOCC32 oc, const V &v);
inline size_t roughsize(const M &m) {
  size_t n = 64;
  for (auto &x : m.f)
    for (auto &v : x.second) n += 24 + (v.nest ? roughsize(*v.nest) : v.b.size());
  return n;
}
// Builds the contents in order with plain adds.
inline void build(FBFR32 *b, const M &m) {
  for (auto &x : m.f) {
    FLDOCC32 oc = 0;
    for (auto &v : x.second)
      if (put(b, x.first, oc++, v) == -1) pbt::fail("building %s failed, error %d", mstr(m).c_str(), Ferror32);
  }
}
struct Built {
  Buf b;
  explicit Built(const M &m, size_t extra = 64, int fill = -1) : b(roughsize(m) + extra, fill) { build(b, m); }
  operator FBFR32 *() const { return b.get(); }
};
// Value memory handed to the library: exact size, so over-reads are seen.
struct Arg {
  char *p = nullptr;
  std::unique_ptr<Built> nest;
  FLDLEN32 len = 0;
  explicit Arg(const V &v) {
    if (v.nest) {
      nest.reset(new Built(*v.nest, 40));
    } else {
      p = (char *)malloc(v.b.size() ? v.b.size() : 1);
      memcpy(p, v.b.data(), v.b.size());
    }
    len = v.b.size();
  }
  ~Arg() { free(p); }
  char *get() { return nest ? (char *)(FBFR32 *)*nest : p; }
};
inline FLDLEN32 arglen(FLDID32 id, const V &v, FLDLEN32 junk = 0) {
  return idtype(id) == FLD_CARRAY ? v.b.size() : junk;  // ignored for all other types
}
inline int put(FBFR32 *b, FLDID32 id, FLDOCC32 oc, const V &v) {
  Arg a(v);
  return Fchg32(b, id, oc, a.get(), arglen(id, v));
}
inline int add(FBFR32 *b, FLDID32 id, const V &v) {
  Arg a(v);
  return Fadd32(b, id, a.get(), arglen(id, v));
}

inline M extract(FBFR32 *b, int depth = 0);
inline V extract_val(FLDID32 id, char *p, FLDLEN32 len, int depth) {
  V v;
  if (idtype(id) == FLD_FML32)
    v.nest = std::make_shared<M>(extract((FBFR32 *)p, depth + 1));
  else
    v.b.assign(p, len);
  return v;
}
// Enumerates with Fnext32 and fetches with Ffind32.
inline M extract(FBFR32 *b, int depth) {
  if (depth > 64) pbt::fail("nesting too deep: corrupted buffer?");
  M m;
  FLDID32 id = BADFLDID, prev = 0;
  FLDOCC32 oc = 0;
  int rc;
  size_t n = 0;
  while ((rc = Fnext32(b, &id, &oc, nullptr, nullptr)) == 1) {
    if (++n > 2000000) pbt::fail("endless enumeration");
    if (n > 1 && id < prev) pbt::fail("enumeration order broken: %s after %s", idstr(id).c_str(), idstr(prev).c_str());
    if ((n == 1 || id != prev) && oc != 0) pbt::fail("first occurrence of %s enumerated as %d", idstr(id).c_str(), oc);
    auto &v = m.f[id];
    if ((size_t)oc != v.size()) pbt::fail("occurrence %d of %s enumerated, expected %zu", oc, idstr(id).c_str(), v.size());
    FLDLEN32 len = 0;
    char *p = Ffind32(b, id, oc, &len);
    if (!p) pbt::fail("enumerated %s[%d] is not found, error %d", idstr(id).c_str(), oc, Ferror32);
    v.push_back(extract_val(id, p, len, depth));
    prev = id;
  }
  if (rc == -1) pbt::fail("Fnext32 failed with %d", Ferror32);
  return m;
}
inline void check_is(FBFR32 *b, const M &m, const char *what) {
  M got = extract(b);
  if (!same(got, m)) pbt::fail("%s: buffer holds %s, expected %s", what, mstr(got).c_str(), mstr(m).c_str());
  if (Fused32(b) + Funused32(b) != Fsizeof32(b))
    pbt::fail("%s: used %ld + unused %ld != size %ld", what, Fused32(b), Funused32(b), Fsizeof32(b));
  if (Funused32(b) < 0) pbt::fail("%s: negative unused space", what);
}

// ---- generators
struct GenOpt {
  size_t maxlen = 300;
  int depth = 2;
  bool printable = false;
  bool nul = true;  // NUL bytes in carrays
};
inline long gen_long(G &g) {
  switch (g.weighted({5, 2, 2, 1})) {
    case 0: return g.range(-20, 100) + 0;
    case 1: return (long)g.u64();
    case 2: {
      static const long b[] = {0, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647L, 2147483648L, -2147483648L, 9223372036854775807L, (long)0x8000000000000000ull};
      return g.pick(b);
    }
    default: return g.range(-100000, 100000);
  }
}
inline double gen_double(G &g) {
  switch (g.weighted({4, 3, 2, 1})) {
    case 0: return g.range(-10, 100);
    case 1: return g.range(-100000, 100000) / 64.0;
    case 2: {
      static const double b[] = {0.0, -0.0, 1e10, -1e10, 0.5, 1e-3, 123456789.125, 1e17, -1e17, 3.0000001};
      return g.pick(b);
    }
    default: {
      int e = g.range(-60, 60);
      double m = (double)g.range(-(1l << 40), 1l << 40);
      return __builtin_ldexp(m, e - 40);
    }
  }
}
inline std::string gen_str(G &g, const GenOpt &o) { return g.text(g.size(o.maxlen), o.printable || g.chance(1, 2)); }
inline M gen_model(G &g, const std::vector<FLDID32> &pool, size_t n, const GenOpt &o);
inline V gen_val(G &g, FLDID32 id, const GenOpt &o, const std::vector<FLDID32> &pool) {
  switch (idtype(id)) {
    case FLD_SHORT: return {raw<short>((short)gen_long(g))};
    case FLD_CHAR: return {raw<char>((char)g.below(256))};
    case FLD_FLOAT: return {raw<float>((float)gen_double(g))};
    case FLD_LONG: return {raw<long>(gen_long(g))};
    case FLD_DOUBLE: return {raw<double>(gen_double(g))};
    case FLD_STRING: {
      std::string s = gen_str(g, o);
      s.push_back(0);
      return {s};
    }
    case FLD_CARRAY: {
      std::string s = g.chance(1, 2) ? g.bytes(g.size(o.maxlen)) : g.text(g.size(o.maxlen), true);
      if (o.nul && !s.empty() && g.chance(1, 4)) s[g.below(s.size())] = 0;
      if (!o.nul)
        for (auto &c : s)
          if (!c) c = 'z';
      return {s};
    }
    case FLD_FML32: {
      V v;
      if (o.depth <= 0) {
        v.nest = std::make_shared<M>();
      } else {
        GenOpt o2 = o;
        o2.depth--;
        // nested ones are small, unless the sizes are what matters
        o2.maxlen = o.maxlen > 50000 ? o.maxlen : std::min<size_t>(o.maxlen, 40);
        v.nest = std::make_shared<M>(gen_model(g, pool, g.below(5), o2));
      }
      return v;
    }
  }
  return {};
}
inline M gen_model(G &g, const std::vector<FLDID32> &pool, size_t n, const GenOpt &o) {
  M m;
  for (size_t i = 0; i < n; i++) {
    FLDID32 id = g.pick(pool);
    m.f[id].push_back(gen_val(g, id, o, pool));
  }
  return m;
}
// A small pool of fields so that operations meet on the same ones.
inline std::vector<FLDID32> gen_pool(G &g, size_t max = 8) {
  std::vector<FLDID32> p;
  size_t n = 1 + g.below(max);
  static const uint32_t nums[] = {1, 2, 3, 10, 100, 101, 102, 0xffffff, 0xfffffe, 0x10000, 255, 256};
  for (size_t i = 0; i < n; i++) {
    int t = TYPES[g.below(8)];
    uint32_t num = g.chance(1, 6) ? 1 + g.below(0xffffff) : nums[g.below(12)];
    p.push_back(mkid(t, num));
  }
  return p;
}
inline bool has_type(const M &m, int t) {
  for (auto &x : m.f)
    if (idtype(x.first) == t) return true;
  return false;
}
}  // namespace fm
