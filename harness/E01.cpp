// E01: expressions evaluate to their defined value.
#include <limits.h>
#include "exprmodel.hpp"
using namespace ex;

static void check(G &g, const E &e, const std::string &text, const M &m) {
  Tree t(text);
  PBT_ASSERT(t.p != nullptr, "%s was refused with error %d", pbt::show(text, 400).c_str(), Ferror32);
  Built b(m);
  std::string before(b.b.p, Fsizeof32(b));
  Val want = eval(e, m);
  for (int twice = 0; twice < 2; twice++) {
    int bv = Fboolev32(b, t.p);
    double fv = Ffloatev32(b, t.p);
    PBT_ASSERT(std::string(b.b.p, Fsizeof32(b)) == before, "evaluation changed the buffer");
    PBT_ASSERT(bv == 0 || bv == 1 || bv == -1, "Fboolev32 returned %d", bv);
    if (want.amb) {
      g.label(want.err ? "evaluation error" : "not settled");
      return;
    }
    double wf = todbl(want);
    PBT_ASSERT(samed(fv, wf), "Ffloatev32 of %s = %s on %s: got %.17g, expected %.17g", pbt::show(text, 300).c_str(), full(e).c_str(),
               mstr(m).c_str(), fv, wf);
    if (want.t == Val::S && !clean(want)) break;
    if (want.t == Val::D && isnan(want.d)) break;
    int wb = want.t == Val::D ? want.d != 0 : tolng(want) != 0;
    PBT_ASSERT(bv == wb, "Fboolev32 of %s = %s on %s: got %d, expected %d", pbt::show(text, 300).c_str(), full(e).c_str(),
               mstr(m).c_str(), bv, wb);
  }
  g.label(want.t == Val::L ? (want.l ? "long, true" : "long, false") : want.t == Val::D ? "double" : "string");
}

static void run(G &g, int depth) {
  Gen x(g);
  P e = x.expr(depth);
  std::string text = x.text(*e, 0, g.flip());
  g.log("%s", full(*e).c_str());
  g.log("as %s", pbt::show(text, 400).c_str());
  size_t n = 1 + g.below(3);
  for (size_t i = 0; i < n; i++) {
    M m = x.buffer();
    g.log("on %s", mstr(m).c_str());
    check(g, *e, text, m);
  }
  g.label(pbt::fmt("nodes %s", x.nodes < 4 ? "<4" : x.nodes < 10 ? "<10" : "10+"));
  g.nontrivial(x.nodes >= 3 && !eval(*e, x.buffer()).amb);
}
static void small(G &g) { run(g, 1 + g.below(2)); }
static void large(G &g) { run(g, 3 + g.below(4)); }

// a op1 b op2 c with all pairs of operators and no parentheses
static void chains(G &g) {
  Gen x(g);
  static const char *ops[] = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "^"};
  size_t n = 3 + g.below(5);
  std::string text;
  std::vector<P> vals;
  std::vector<std::string> os;
  for (size_t i = 0; i < n; i++) {
    P l(new E);
    l->k = NUM;
    l->text = fmt("%d", 1 + (int)g.below(9));
    if (i) {
      os.push_back(g.pick(ops));
      text += (g.flip() ? " " : "") + os.back() + (g.flip() ? " " : "");
    }
    text += l->text;
    vals.push_back(std::move(l));
  }
  // reduce by precedence, left to right
  for (int p : {70, 60, 50, 30, 20, 10})
    for (size_t i = 0; i < os.size();)
      if (prec(os[i]) == p) {
        P e(new E);
        e->k = BIN;
        e->text = os[i];
        e->a = std::move(vals[i]);
        e->b = std::move(vals[i + 1]);
        vals[i] = std::move(e);
        vals.erase(vals.begin() + i + 1);
        os.erase(os.begin() + i);
      } else {
        i++;
      }
  g.log("%s", text.c_str());
  check(g, *vals[0], text, M());
  g.nontrivial(!eval(*vals[0], M()).amb);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "E01";
  c.rule =
      "random expression trees written with minimal or random extra parentheses and white space, evaluated on random buffers and "
      "compared with a reference evaluator; chains: unparenthesised operator chains reduced by precedence. Non-trivial: at least 3 "
      "nodes and a settled value.";
  c.subs = {
      {"small", small, 250000, 3000000},
      {"large", large, 80000, 1200000},
      {"chains", chains, 150000, 1500000},
  };
  c.setup = [](int) { use_names(getenv("VERIF_SCRATCH")); };
  c.assumptions = {"not settled and therefore only checked for safety: text with a fraction used in integer arithmetic, integer "
                   "operators on floating-point values, integer overflow, patterns that match only a part of the text, NaN truth",
                   "patterns use literals, '.', '*', ranges and a final '$'"};
  return pbt::main(argc, argv, c);
}
