// E02: a compiled expression prints back to an equivalent expression.
#include <limits.h>
#include "exprmodel.hpp"
using namespace ex;

static bool hasdbl(const E &e) { return e.k == DBL || (e.a && hasdbl(*e.a)) || (e.b && hasdbl(*e.b)); }

static void same_results(Gen &x, char *t1, char *t2, const char *what, const std::string &s1, const std::string &s2) {
  for (int i = 0; i < 3; i++) {
    M m = x.buffer();
    Built b(m);
    int b1 = Fboolev32(b, t1), b2 = Fboolev32(b, t2);
    double f1 = Ffloatev32(b, t1), f2 = Ffloatev32(b, t2);
    PBT_ASSERT(b1 == b2 && samed(f1, f2), "%s: %s gives %d/%.17g but %s gives %d/%.17g on %s", what, pbt::show(s1, 300).c_str(), b1, f1,
               pbt::show(s2, 300).c_str(), b2, f2, mstr(m).c_str());
  }
}
static void roundtrip(G &g) {
  Gen x(g);
  P e = x.expr(1 + g.below(5));
  std::string t1 = x.text(*e, 0, false);
  g.log("%s", pbt::show(t1, 400).c_str());
  Tree a(t1);
  PBT_ASSERT(a.p != nullptr, "refused with error %d", Ferror32);
  std::string p1 = print(a.p);
  g.log("prints %s", pbt::show(p1, 600).c_str());
  PBT_ASSERT(p1.size() > 1 && p1.back() == '\n', "printed text does not end the line: %s", pbt::show(p1).c_str());
  PBT_ASSERT(std::count(p1.begin(), p1.end(), '\n') == 1, "printed text takes several lines");
  std::string line = p1.substr(0, p1.size() - 1);
  Tree b(line);
  PBT_ASSERT(b.p != nullptr, "printed text %s was refused with error %d", pbt::show(line, 400).c_str(), Ferror32);
  std::string p2 = print(b.p);
  PBT_ASSERT(p1 == p2, "prints %s, then %s", pbt::show(p1, 400).c_str(), pbt::show(p2, 400).c_str());
  same_results(x, a.p, b.p, "printed expression", t1, line);
  // the reference evaluation of the original holds for the printed one
  M m = x.buffer();
  Val want = eval(*e, m);
  if (!want.amb) {
    Built bb(m);
    double f = Ffloatev32(bb, b.p);
    PBT_ASSERT(samed(f, todbl(want)), "printed text %s gives %.17g, the source means %.17g", pbt::show(line, 400).c_str(), f, todbl(want));
  }
  g.label(hasdbl(*e) ? "with floating-point constants" : "no floating-point constants");
  g.nontrivial(x.nodes >= 3);
}
static void layout(G &g) {
  Gen x(g);
  P e = x.expr(1 + g.below(5));
  std::string t1 = x.text(*e, 0, false), t2 = x.text(*e, 0, true), t3 = x.text(*e, 0, true);
  g.log("%s", pbt::show(t1, 400).c_str());
  g.log("%s", pbt::show(t2, 400).c_str());
  g.log("%s", pbt::show(t3, 400).c_str());
  Tree a(t1), b(t2), c(t3);
  PBT_ASSERT(a.p && b.p && c.p, "one layout was refused: %d %d %d", a.p != nullptr, b.p != nullptr, c.p != nullptr);
  std::string p1 = print(a.p), p2 = print(b.p), p3 = print(c.p);
  PBT_ASSERT(p1 == p2 && p1 == p3, "layouts of one expression print differently: %s, %s, %s", pbt::show(p1, 300).c_str(),
             pbt::show(p2, 300).c_str(), pbt::show(p3, 300).c_str());
  same_results(x, a.p, b.p, "layout", t1, t2);
  same_results(x, a.p, c.p, "layout", t1, t3);
  g.nontrivial(x.nodes >= 3 && t2 != t3);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "E02";
  c.rule =
      "roundtrip: random expressions are compiled, printed, compiled again and compared by printing and by evaluation on random "
      "buffers and against the reference evaluator; layout: the same tree written with different white space, parentheses and "
      "escapes. Non-trivial: at least 3 nodes (and different texts).";
  c.subs = {
      {"roundtrip", roundtrip, 120000, 1500000},
      {"layout", layout, 100000, 1200000},
  };
  c.setup = [](int) { use_names(getenv("VERIF_SCRATCH")); };
  return pbt::main(argc, argv, c);
}
