// Reference model of boolean/arithmetic expressions over FML32 buffers.
#pragma once
#include <math.h>

#include <memory>

#include "fmlnames.hpp"

namespace ex {
using namespace fm;

enum Kind { NUM, DBL, STR, FLD, ANY, UN, BIN };
struct E {
  Kind k;
  std::string text;  // literal as written (NUM, DBL), operator (UN, BIN), contents (STR)
  FLDID32 id = 0;
  int oc = 0;
  bool plain = false;  // field without subscript
  std::unique_ptr<E> a, b;
};
using P = std::unique_ptr<E>;

inline int prec(const std::string &o) {
  if (o == "*" || o == "/" || o == "%") return 70;
  if (o == "+" || o == "-") return 60;
  if (o == "<" || o == ">" || o == "<=" || o == ">=" || o == "==" || o == "!=") return 50;
  if (o == "%%" || o == "!%") return 40;
  if (o == "^") return 30;
  if (o == "&&") return 20;
  return 10;
}
inline bool iscmp(const std::string &o) { return prec(o) == 50 || prec(o) == 40; }

// ---- evaluation
struct Val {
  enum { L, D, S } t = L;
  long l = 0;
  double d = 0;
  std::string s;
  bool cs = false;   // string constant
  bool amb = false;  // value is not settled by the documentation
  bool err = false;  // evaluation has to fail
};
inline Val VL(long l) { Val v; v.l = l; return v; }
inline Val VD(double d) { Val v; v.t = Val::D; v.d = d; return v; }
inline Val VS(const std::string &s) { Val v; v.t = Val::S; v.s = s; return v; }
inline Val AMB() { Val v; v.amb = true; return v; }
inline Val ERR() { Val v; v.amb = v.err = true; return v; }

inline bool clean(const Val &v) {
  return v.t != Val::S || strtod(v.s.c_str(), nullptr) == (double)strtol(v.s.c_str(), nullptr, 10);
}
inline double todbl(const Val &v) { return v.t == Val::L ? (double)v.l : v.t == Val::D ? v.d : strtod(v.s.c_str(), nullptr); }
inline long tolng(const Val &v) { return v.t == Val::L ? v.l : strtol(v.s.c_str(), nullptr, 10); }
inline std::string totext(const Val &v) {
  if (v.t == Val::L) return fmt("%ld", v.l);
  if (v.t == Val::D) return fmt("%f", v.d);
  return v.s;
}

// Basic regular expressions restricted to: literals, '.', x*, [a-b]..., final $
struct Rx {
  const char *p, *s0;
  bool cls(const char *p, const char *&next, char c) {
    if (*p == '.') {
      next = p + 1;
      return c != 0;
    }
    if (*p == '[') {
      const char *q = p + 1;
      bool ok = false;
      while (*q != ']') {
        if (q[1] == '-' && q[2] != ']') {
          ok |= c >= q[0] && c <= q[2];
          q += 3;
        } else {
          ok |= c == *q;
          q++;
        }
      }
      next = q + 1;
      return ok && c;
    }
    next = p + 1;
    return *p == c && c;
  }
  bool run(const char *p, const char *s, bool full) {
    if (!*p) return !full || !*s;
    if (*p == '$' && !p[1]) return !*s;
    const char *nx;
    cls(p, nx, 0);
    if (*nx == '*') {
      const char *t = s;
      while (true) {
        if (run(nx + 1, t, full)) return true;
        const char *n2;
        if (!*t || !cls(p, n2, *t)) return false;
        t++;
      }
    }
    return *s && cls(p, nx, *s) && run(nx, s + 1, full);
  }
};
// 1, 0 or -1 when anchoring at the end is what makes the difference
inline int rxmatch(const std::string &pat, const std::string &s) {
  Rx r;
  bool pre = r.run(pat.c_str(), s.c_str(), false), full = r.run(pat.c_str(), s.c_str(), true);
  return pre == full ? pre : -1;
}

inline Val fieldval(const M &m, FLDID32 id, int oc) {
  auto &v = m.at(id);
  bool present = oc < (int)v.size();
  switch (idtype(id)) {
    case FLD_SHORT: return VL(present ? as<short>(v[oc].b) : 0);
    case FLD_LONG: return VL(present ? as<long>(v[oc].b) : 0);
    case FLD_FLOAT: return VD(present ? as<float>(v[oc].b) : 0.0);
    case FLD_DOUBLE: return VD(present ? as<double>(v[oc].b) : 0.0);
    case FLD_CHAR: return VS(present ? std::string(std::string(v[oc].b).c_str()) : "");
    case FLD_STRING:
    case FLD_CARRAY: return VS(present ? std::string(v[oc].b.c_str()) : "");
  }
  return ERR();
}

inline Val cmp(const std::string &o, const Val &a, const Val &b) {
  if (a.amb || b.amb) return AMB();
  if (o == "%%" || o == "!%") {
    int r = rxmatch(b.s, totext(a));
    if (r < 0) return AMB();
    return VL(o == "%%" ? r : !r);
  }
  auto rel = [&](auto x, auto y) -> long {
    if (o == "<") return x < y;
    if (o == ">") return x > y;
    if (o == "<=") return x <= y;
    if (o == ">=") return x >= y;
    if (o == "==") return x == y;
    return x != y;
  };
  if (a.cs || b.cs || (a.t == Val::S && b.t == Val::S)) return VL(rel(strcmp(totext(a).c_str(), totext(b).c_str()), 0));
  if (a.t == Val::D || b.t == Val::D) return VL(rel(todbl(a), todbl(b)));
  if (!clean(a) || !clean(b)) return AMB();
  return VL(rel(tolng(a), tolng(b)));
}

inline Val eval(const E &e, const M &m) {
  switch (e.k) {
    case NUM: return VL(strtol(e.text.c_str(), nullptr, 10));
    case DBL: return VD(strtod(e.text.c_str(), nullptr));
    case STR: {
      Val v = VS(e.text);
      v.cs = true;
      return v;
    }
    case FLD: return fieldval(m, e.id, e.oc);
    case ANY: return ERR();  // only on the left of a comparison
    case UN: {
      Val a = eval(*e.a, m);
      if (e.text == "+") return a;
      if (a.amb) return a;
      if (e.text == "-") {
        if (a.t == Val::D) return VD(-a.d);
        if (!clean(a)) return AMB();
        long r;
        if (__builtin_sub_overflow(0l, tolng(a), &r)) return AMB();
        return VL(r);
      }
      if (e.text == "!") {
        if (a.t == Val::D) return isnan(a.d) ? AMB() : VL(a.d == 0);
        if (!clean(a)) return AMB();
        return VL(!tolng(a));
      }
      if (a.t == Val::D || !clean(a)) return AMB();
      return VL(~tolng(a));
    }
    default: break;
  }
  auto &o = e.text;
  if (iscmp(o) && e.a->k == ANY) {
    Val b = eval(*e.b, m);
    if (b.amb) return b;
    bool amb = false;
    size_t n = m.at(e.a->id).size();
    for (size_t i = 0; i < n; i++) {
      Val r = cmp(o, fieldval(m, e.a->id, i), b);
      if (r.amb)
        amb = true;
      else if (r.l)
        return VL(1);
    }
    return amb ? AMB() : VL(0);
  }
  Val a = eval(*e.a, m), b = eval(*e.b, m);
  if (a.amb || b.amb) return a.err || b.err ? ERR() : AMB();
  if (iscmp(o)) return cmp(o, a, b);
  bool dbl = a.t == Val::D || b.t == Val::D;
  if (dbl) {
    double x = todbl(a), y = todbl(b);
    if (o == "*") return VD(x * y);
    if (o == "/") return VD(x / y);
    if (o == "+") return VD(x + y);
    if (o == "-") return VD(x - y);
    if (o == "&&") return isnan(x) || isnan(y) ? AMB() : VL(x != 0 && y != 0);
    if (o == "||") return isnan(x) || isnan(y) ? AMB() : VL(x != 0 || y != 0);
    return AMB();  // % and ^ of floating-point values
  }
  if (!clean(a) || !clean(b)) return AMB();
  long x = tolng(a), y = tolng(b), r;
  if (o == "*") return __builtin_mul_overflow(x, y, &r) ? AMB() : VL(r);
  if (o == "+") return __builtin_add_overflow(x, y, &r) ? AMB() : VL(r);
  if (o == "-") return __builtin_sub_overflow(x, y, &r) ? AMB() : VL(r);
  if (o == "/" || o == "%") {
    if (y == 0 || (y == -1 && x == LONG_MIN)) return ERR();
    return VL(o == "/" ? x / y : x % y);
  }
  if (o == "^") return VL(x ^ y);
  if (o == "&&") return VL(x && y);
  return VL(x || y);
}

// ---- generation
struct Gen {
  G &g;
  std::vector<FLDID32> pool;
  std::vector<std::string> texts;  // string values that occur in buffers
  size_t nodes = 0;
  bool anymisuse = false;

  explicit Gen(G &g) : g(g) {
    size_t n = 2 + g.below(5);
    for (size_t i = 0; i < n; i++) {
      static const int ts[] = {FLD_LONG, FLD_STRING, FLD_SHORT, FLD_DOUBLE, FLD_FLOAT, FLD_CARRAY, FLD_CHAR};
      int t = g.pick(ts);
      std::vector<FLDID32> c;
      for (auto &x : named())
        if (idtype(x.id) == t) c.push_back(x.id);
      pool.push_back(g.pick(c));
    }
    texts = {"", "1", "0", "foo", "bar", "foobar", "-7", "000001", "12"};
    for (int i = 0; i < 3; i++) texts.push_back(g.text(g.below(6), g.chance(2, 3)));
    texts.push_back(std::string(g.below(300), 'q') + "z");
    texts.push_back("1.5");
    texts.push_back("it's \\ \"x\"");
  }
  long num() { return g.chance(1, 6) ? std::abs(gen_long(g) / 2) : g.below(12); }
  std::string str() { return g.pick(texts); }
  std::string dbltext() {
    switch (g.below(4)) {
      case 0: return fmt("%u.%u", (unsigned)g.below(20), (unsigned)g.below(10));
      case 1: return fmt("%u.%02u", (unsigned)g.below(1000), (unsigned)g.below(100));
      case 2: return fmt("%u.", (unsigned)g.below(20));
      default: return fmt("%lu.%016lu", (unsigned long)g.below(1ul << 40), (unsigned long)g.below(1ul << 50));
    }
  }
  P leaf(bool any = false) {
    P e(new E);
    size_t w = g.weighted({4, 2, 2, 5});
    if (any) w = 3;
    switch (w) {
      case 0:
        e->k = NUM;
        e->text = fmt("%ld", num());
        if (g.chance(1, 10)) e->text = "00" + e->text;
        break;
      case 1:
        e->k = DBL;
        e->text = dbltext();
        break;
      case 2:
        e->k = STR;
        e->text = str();
        break;
      default:
        e->k = FLD;
        e->id = g.pick(pool);
        e->oc = g.below(4);
        e->plain = e->oc == 0 && g.flip();
        if (any) e->k = ANY;
    }
    nodes++;
    return e;
  }
  P pattern() {
    P e(new E);
    e->k = STR;
    std::string s;
    size_t n = g.below(6);
    std::string base = str();
    for (size_t i = 0; i < n; i++) {
      switch (g.weighted({4, 2, 2})) {
        case 0: {
          char c = i < base.size() ? base[i] : 'a';
          s += isalnum((unsigned char)c) ? c : 'o';
          break;
        }
        case 1: s += '.'; break;
        default: s += g.flip() ? "[a-o]" : "[0-9fz]"; break;
      }
      if (g.chance(1, 4)) s += '*';
    }
    if (g.chance(1, 3)) s += ".*";
    if (g.chance(1, 4)) s += '$';
    e->text = s;
    nodes++;
    return e;
  }
  P expr(int depth) {
    if (depth <= 0 || g.chance(1, 6)) return leaf();
    if (g.chance(1, 5)) {
      P e(new E);
      e->k = UN;
      static const char *u[] = {"-", "!", "~", "+"};
      e->text = g.pick(u);
      e->a = expr(depth - 1);
      nodes++;
      return e;
    }
    static const char *ops[] = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "^", "%%", "!%"};
    P e(new E);
    e->k = BIN;
    e->text = g.pick(ops);
    nodes++;
    if (prec(e->text) == 40) {
      do {
        e->a = leaf(g.chance(1, 3));
        if (e->a->k == NUM || e->a->k == DBL) e->a->k = STR, e->a->text = str();
      } while (0);
      e->b = pattern();
    } else if (prec(e->text) == 50 && g.chance(1, 3)) {
      e->a = leaf(true);
      e->b = expr(depth - 1);
    } else {
      e->a = expr(depth - 1);
      e->b = expr(depth - 1);
    }
    return e;
  }
  M buffer() {
    M m;
    size_t n = g.below(9);
    for (size_t i = 0; i < n; i++) {
      FLDID32 id = g.pick(pool);
      V v;
      switch (idtype(id)) {
        case FLD_SHORT: v.b = raw<short>(g.chance(1, 5) ? gen_long(g) : g.range(-3, 12)); break;
        case FLD_LONG: v.b = raw<long>(g.chance(1, 5) ? gen_long(g) : g.range(-3, 12)); break;
        case FLD_FLOAT: v.b = raw<float>(g.chance(1, 5) ? gen_double(g) : g.range(-8, 40) / 4.0); break;
        case FLD_DOUBLE: v.b = raw<double>(g.chance(1, 5) ? gen_double(g) : g.range(-8, 40) / 4.0); break;
        case FLD_CHAR: v.b = std::string(1, (char)(g.chance(1, 5) ? g.below(256) : '0' + g.below(10))); break;
        case FLD_STRING: v.b = str() + std::string(1, 0); break;
        default: v.b = str(); break;
      }
      m.f[id].push_back(v);
    }
    return m;
  }
  std::string ws() {
    static const char *w[] = {"", "", " ", "  ", "\t", "\n", " \t "};
    return g.pick(w);
  }
  std::string lit(const std::string &s, bool wild) {
    std::string o = "'";
    for (unsigned char c : s)
      if (c == '\'' || c == '\\' || (wild && g.chance(1, 6)))
        o += fmt(g.flip() ? "\\%02x" : "\\%02X", c);
      else
        o += c;
    return o + "'";
  }
  // min: precedence the context asks for; right operands need one more
  std::string text(const E &e, int min, bool wild) {
    std::string s;
    bool par = wild && g.chance(1, 8);
    switch (e.k) {
      case NUM:
      case DBL: s = e.text; break;
      case STR: s = lit(e.text, wild); break;
      case FLD: s = *name_of(e.id) + (e.plain ? std::string() : fmt("[%s%d]", wild && g.chance(1, 8) ? "0" : "", e.oc)); break;
      case ANY: s = *name_of(e.id) + "[?]"; break;
      case UN: s = e.text + (wild ? ws() : "") + text(*e.a, 100, wild); break;
      case BIN:
        s = text(*e.a, prec(e.text), wild) + (wild ? ws() : " ") + e.text + (wild ? ws() : " ") + text(*e.b, prec(e.text) + 1, wild);
        if (prec(e.text) < min) par = true;
        break;
    }
    if (par) {
      s = "(" + (wild ? ws() : "") + s + (wild ? ws() : "") + ")";
      if (wild && g.chance(1, 6)) s = "(" + s + ")";
    }
    return wild ? ws() + s + ws() : s;
  }
};
inline std::string full(const E &e) {
  switch (e.k) {
    case NUM:
    case DBL: return e.text;
    case STR: return pbt::show(e.text, 30);
    case FLD: return *name_of(e.id) + fmt("[%d]", e.oc);
    case ANY: return *name_of(e.id) + "[?]";
    case UN: return e.text + "(" + full(*e.a) + ")";
    default: return "(" + full(*e.a) + " " + e.text + " " + full(*e.b) + ")";
  }
}
struct Tree {
  char *p;
  explicit Tree(const std::string &s) {
    std::string c = s;
    p = Fboolco32(&c[0]);
  }
  ~Tree() { free(p); }
  Tree(const Tree &) = delete;
};
inline std::string print(char *tree) {
  char *buf = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&buf, &n);
  Fboolpr32(tree, f);
  fclose(f);
  std::string s(buf, n);
  free(buf);
  return s;
}
inline bool samed(double a, double b) { return a == b || (isnan(a) && isnan(b)); }
}  // namespace ex
