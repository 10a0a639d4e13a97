// E03: any expression text is compiled or refused cleanly.
#include <limits.h>
#include <sys/resource.h>
#include "exprmodel.hpp"
using namespace ex;

// Independent recogniser. ok: 1 valid, 0 invalid, -1 left open
struct Rec {
  const std::string &s;
  size_t i = 0;
  bool open = false;
  size_t complexity = 0;
  struct Bad {};
  explicit Rec(const std::string &s) : s(s) {}
  int ch(size_t k = 0) { return i + k < s.size() ? (unsigned char)s[i + k] : -1; }
  void ws() {
    while (ch() >= 0 && strchr(" \t\n\v\f\r", ch()) && ch()) i++;
  }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool hexd(int c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
  enum T { TFIELD, TSTR, TOTHER };
  T primary() {
    complexity++;
    ws();
    T t = TOTHER;
    if (ch() >= 0 && strchr("+-!~", ch()) && ch()) {
      bool plus = ch() == '+';
      i++;
      T in = primary();
      return plus ? in : TOTHER;
    }
    if (alpha(ch())) {
      std::string n;
      while (alpha(ch()) || dig(ch()) || ch() == '_') n += ch(), i++;
      if (ch() == '[') {
        i++;
        size_t j = i;
        if (ch() == '?') {
          i++;
        } else {
          if (!dig(ch())) {
            if (ch() == ' ') open = true;
            throw Bad();
          }
          while (dig(ch())) i++;
          if (ch() == '.') {
            open = true;  // a fraction in the subscript
            i++;
            while (dig(ch())) i++;
          }
          if (i - j > 9) {
            if (strtod(s.substr(j, i - j).c_str(), nullptr) > INT_MAX) throw Bad();
          }
        }
        if (ch() == ' ') open = true;
        if (ch() != ']') throw Bad();
        i++;
      } else {
        size_t k = i;
        while (k < s.size() && strchr(" \t\n", s[k])) k++;
        if (k > i && k < s.size() && s[k] == '[') open = true;
      }
      bool known = false;
      for (auto &x : named())
        if (x.name == n && idtype(x.id) != FLD_FML32) known = true;
      if (!known) throw Bad();
      t = TFIELD;
    } else if (dig(ch())) {
      size_t j = i;
      bool frac = false;
      while (dig(ch())) i++;
      if (ch() == '.') {
        frac = true;
        i++;
        while (dig(ch())) i++;
      }
      std::string n = s.substr(j, i - j);
      errno = 0;
      if (frac) {
        if (strtod(n.c_str(), nullptr) > 1e30 || n.size() > 40) open = true;
      } else {
        strtol(n.c_str(), nullptr, 10);
        if (errno) throw Bad();
      }
    } else if (ch() == '\'') {
      i++;
      while (ch() != '\'') {
        if (ch() < 0) throw Bad();
        if (ch() == '\\') {
          if (hexd(ch(1))) {
            if (!hexd(ch(2))) throw Bad();
            if (ch(1) == '0' && ch(2) == '0') throw Bad();
            i += 3;
          } else {
            open = true;  // backslash in front of something else
            i++;
            if (ch() < 0) throw Bad();
          }
        } else {
          i++;
        }
      }
      i++;
      t = TSTR;
    } else if (ch() == '(') {
      i++;
      t = expr();
      ws();
      if (ch() != ')') throw Bad();
      i++;
    } else {
      throw Bad();
    }
    ws();
    return t;
  }
  std::string peekop() {
    ws();
    std::string o;
    if (ch() > 0 && strchr("+-!~*/%<>=^&|", ch())) {
      o += ch();
      if (ch(1) > 0 && strchr("=%&|", ch(1))) o += ch(1);
    }
    return o;
  }
  T climb(int min) {
    T l = primary();
    while (true) {
      std::string o = peekop();
      if (o.empty()) return l;
      static const std::set<std::string> all = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "^", "%%", "!%"};
      if (!all.count(o)) throw Bad();
      int p = prec(o);
      if (p < min) return l;
      i += o.size();
      complexity++;
      T r = climb(p + 1);
      if (p == 40 && (l == TOTHER || r != TSTR)) throw Bad();
      l = TOTHER;
    }
  }
  T expr() { return climb(0); }
  int run() {
    try {
      expr();
      ws();
      if (i != s.size()) throw Bad();
    } catch (Bad &) {
      return open ? -1 : 0;
    }
    return open || complexity > 3000 ? -1 : 1;
  }
};

static void check(G &g, Gen &x, const std::string &text, bool recognise = true) {
  int want = recognise ? Rec(text).run() : -1;
  Ferror32 = 0;
  Tree t(text);
  if (!t.p) {
    PBT_ASSERT(want != 1, "well-formed %s was refused with error %d", pbt::show(text, 500).c_str(), Ferror32);
    PBT_ASSERT(Ferror32 == FSYNTAX || Ferror32 == FBADNAME || Ferror32 == FEBADOP, "refused with error %d", Ferror32);
    g.label(want < 0 ? "refused, left open" : "refused");
    return;
  }
  PBT_ASSERT(want != 0, "malformed %s was accepted", pbt::show(text, 500).c_str());
  g.label(want < 0 ? "accepted, left open" : "accepted");
  for (int i = 0; i < 2; i++) {
    M m = x.buffer();
    Built b(m);
    int bv = Fboolev32(b, t.p);
    PBT_ASSERT(bv == 0 || bv == 1 || bv == -1, "Fboolev32 returned %d", bv);
    Ffloatev32(b, t.p);
    check_is(b, m, "after evaluation");
  }
  print(t.p);
}

static const char *TOK[] = {"1",  "0",  "2.5", "'a'",     "'",   "(",  ")",      "+",   "-",   "*",  "/",  "%",   "==", "!=",    "<",
                            ">",  "<=", ">=",  "&&",      "||",  "^",  "%%",     "!%",  "!",   "~",  "=",  "&",   "|",  "[0]",   "[?]",
                            "[1", "]",  "[",   "XSTRING", "XLONG", "XFML32", "XCHAR", "NOPE", "\\", "\\4", "'\\41'", ".", "_",  "'.*'",  "'['",
                            "\n", "1.", "99999999999999999999", "9223372036854775807", "[2147483648]", "'\\00'", "\"", "\x80", "\xff", "'*'", "'\\5c\\28'"};
static void soup(G &g) {
  Gen x(g);
  std::string s;
  size_t n = g.below(12);
  for (size_t i = 0; i < n; i++) {
    s += g.pick(TOK);
    if (g.chance(1, 3)) s += ' ';
  }
  g.log("%s", pbt::show(s, 600).c_str());
  check(g, x, s);
  g.nontrivial(n >= 2);
}
static void mutate(G &g) {
  Gen x(g);
  P e = x.expr(1 + g.below(4));
  std::string s = x.text(*e, 0, true);
  size_t n = 1 + g.below(3);
  for (size_t k = 0; k < n; k++) {
    size_t at = g.below(s.size() + 1);
    switch (g.below(5)) {
      case 0: s.erase(at, 1 + g.below(3)); break;
      case 1: s.insert(at, g.pick(TOK)); break;
      case 2:
        if (at < s.size()) s[at] = (char)(1 + g.below(255));
        break;
      case 3: s = s.substr(0, at); break;
      default: {
        size_t l = g.below(10);
        s.insert(g.below(s.size() + 1), s.substr(at, l));
      }
    }
  }
  g.log("%s", pbt::show(s, 600).c_str());
  check(g, x, s);
  g.nontrivial(s.size() > 2);
}
static void bytes(G &g) {
  Gen x(g);
  std::string s = g.text(g.size(200), g.flip());
  g.log("%s", pbt::show(s, 600).c_str());
  check(g, x, s);
  g.nontrivial(s.size() > 1);
}
// well-formed and extreme
static void extreme(G &g) {
  Gen x(g);
  std::string s;
  size_t n = g.size(g.chance(1, 6) ? 70000 : 5000);
  int kind = g.below(9);
  bool rec = true;
  switch (kind) {
    case 0: s = "XSTRING == '" + std::string(n, 'a') + "'"; break;
    case 1: s = std::string(n, '(') + "1" + std::string(n, ')'), rec = n < 2000; break;
    case 2: s = std::string(n, '!') + "1", rec = n < 2000; break;
    case 3:
      s = "1";
      for (size_t i = 0; i < n; i++) s += g.flip() ? "+1" : "-XLONG";
      rec = n < 2000;
      break;
    case 4: s = std::string(n % 400, '9') + (g.flip() ? "." + std::string(n % 300, '3') : "") + " == 1"; break;
    case 5: s = "0." + std::string(n % 400, '0') + "1 < XDOUBLE || 1 == 1.0"; break;
    case 6: {
      s = "1";
      for (size_t i = 0; i < n % 300; i++) s = "'" + std::string(i, 'x') + "' == (" + s + ")";
      break;
    }
    case 7: {  // division and extremes
      static const char *v[] = {"0", "-1", "(-9223372036854775807-1)", "XLONG", "XDOUBLE", "0.0", "1", "'0'", "XSTRING", "100000000000000000000.0"};
      static const char *o[] = {"/", "%", "*", "^", "-"};
      s = g.pick(v);
      size_t c = 1 + g.below(3);
      for (size_t i = 0; i < c; i++) s += std::string(g.pick(o)) + g.pick(v);
      break;
    }
    default: {  // comparisons of very large values and broken patterns
      static const char *v[] = {"XDOUBLE", "XFLOAT", "XDOUBLE[?]", "XSTRING[?]", "XCARRAY[1]", "XLONG", "'a'", "XCHAR[?]"};
      static const char *o[] = {"%% '['", "%% '\\5c('", "!% '*'", "%% 'a\\5c{1'", "== '1'", "!= 'a'", "< XSTRING", ">= XSTRING[?]", "== XDOUBLE * 10000000000000000000000000000.0"};
      s = std::string(g.pick(v)) + " " + g.pick(o);
      if (s.find("100000") != std::string::npos) rec = false;
    }
  }
  g.log("kind %d n %zu %s", kind, n, pbt::show(s, 200).c_str());
  check(g, x, s, rec);
  g.label(pbt::fmt("kind %d", kind));
  g.nontrivial();
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "E03";
  c.rule =
      "soup: random token sequences; mutate: damaged well-formed expressions; bytes: random bytes; extreme: very long constants, "
      "deep nesting, long chains, zero divisors, huge numbers and broken patterns. Acceptance is compared with an independent "
      "recogniser; accepted trees are evaluated and printed under AddressSanitizer. Non-trivial: at least two tokens or bytes.";
  c.subs = {
      {"soup", soup, 250000, 3000000},
      {"mutate", mutate, 150000, 2000000},
      {"bytes", bytes, 40000, 500000},
      {"extreme", extreme, 24000, 300000},
  };
  c.stack_mb = 64;
  c.setup = [](int) { use_names(getenv("VERIF_SCRATCH")); };
  c.assumptions = {"left open: backslash in front of other than hexadecimal digits, spaces and fractions in subscripts, constants "
                   "beyond 1e30 or longer than 40 digits, expressions with more than 3000 operators and parentheses",
                   "the sanitizer build runs with a 64 MB stack because its frames are larger; the unsanitized depth is bounded by the parser"};
  return pbt::main(argc, argv, c);
}
