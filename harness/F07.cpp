// F07: checksums depend on the contents and on nothing else.
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

static M gen(G &g, const std::vector<FLDID32> &pool, size_t n, const GenOpt &o) { return gen_model(g, pool, n, o); }

static void build_by_history(G &g, FBFR32 *b, const M &target, const std::vector<FLDID32> &pool, int depth);

// A value whose nested buffers are themselves built by some other history.
struct HArg {
  Arg *a = nullptr;
  char *mem = nullptr;
  HArg(G &g, const V &v, const std::vector<FLDID32> &pool, int depth) {
    if (!v.nest) {
      a = new Arg(v);
      return;
    }
    size_t sz = roughsize(*v.nest) * 2 + 8192 + g.below(3) * g.below(4000);
    mem = (char *)malloc(sz);
    memset(mem, (int)g.below(256), sz);
    if (Finit32((FBFR32 *)mem, sz) == -1) pbt::fail("Finit32");
    build_by_history(g, (FBFR32 *)mem, *v.nest, pool, depth + 1);
  }
  char *get() { return mem ? mem : a->get(); }
  ~HArg() {
    delete a;
    free(mem);
  }
};

static void build_by_history(G &g, FBFR32 *b, const M &target, const std::vector<FLDID32> &pool, int depth) {
  GenOpt jo;
  jo.maxlen = 30;
  jo.depth = depth ? 0 : 1;
  std::map<FLDID32, size_t> done;
  M junk;  // extra occurrences at the end of fields, removed later
  std::vector<std::pair<FLDID32, size_t>> todo;
  for (auto &x : target.f)
    for (size_t i = 0; i < x.second.size(); i++) todo.push_back({x.first, i});
  // shuffle
  for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[g.below(i)]);
  for (auto &t : todo) {
    // unrelated data that comes and goes, to leave traces in memory
    if (depth == 0 && g.chance(1, 3)) {
      FLDID32 id = g.pick(pool);
      if (!target.f.count(id)) {
        V v = gen_val(g, id, jo, pool);
        if (add(b, id, v) != -1 && g.flip()) Fdelall32(b, id);
      }
    }
    // a first, different value
    if (g.chance(1, 3)) {
      V v = gen_val(g, t.first, jo, pool);
      if (put(b, t.first, t.second, v) == -1) pbt::fail("put of first value failed: %d", Ferror32);
    }
    const V &v = target.at(t.first)[t.second];
    HArg a(g, v, pool, depth);
    if (Fchg32(b, t.first, t.second, a.get(), arglen(t.first, v)) == -1) pbt::fail("Fchg32 failed: %d", Ferror32);
  }
  // occurrences beyond the end
  for (auto &x : target.f)
    if (g.chance(1, 4)) {
      V v = gen_val(g, x.first, jo, pool);
      if (add(b, x.first, v) != -1 && Fdel32(b, x.first, x.second.size()) == -1) pbt::fail("Fdel32 failed: %d", Ferror32);
    }
  if (depth == 0)
    for (auto id : pool)
      if (!target.f.count(id) && Foccur32(b, id) > 0) Fdelall32(b, id);
}

static void equal(G &g, size_t nmax, size_t maxlen) {
  auto pool = gen_pool(g, 8);
  GenOpt o;
  o.maxlen = maxlen;
  M m = gen(g, pool, g.below(nmax), o);
  g.log("contents %s", mstr(m).c_str());
  size_t sz = roughsize(m) * 2 + 16384;
  Buf a(sz, g.below(256)), b(sz + g.below(4000), g.below(256));
  build_by_history(g, a, m, pool, 0);
  check_is(a, m, "first buffer");
  build_by_history(g, b, m, pool, 0);
  check_is(b, m, "second buffer");
  long ca = Fchksum32(a), cb = Fchksum32(b);
  PBT_ASSERT(ca == cb, "equal contents, checksums %lx and %lx", ca, cb);
  // copies by other means
  Buf c(sz, 0x3c);
  switch (g.below(4)) {
    case 0:
      PBT_ASSERT(Fcpy32(c, a) != -1, "Fcpy32");
      break;
    case 1:
      PBT_ASSERT(Fconcat32(c, a) != -1, "Fconcat32");
      break;
    case 2:
      PBT_ASSERT(Fupdate32(c, a) != -1, "Fupdate32");
      break;
    default: {
      FILE *f = tmpfile();
      int w = Fwrite32(a, f);
      rewind(f);
      int r = Fread32(c, f);
      fclose(f);
      PBT_ASSERT(w != -1 && r != -1, "write and read");
    }
  }
  PBT_EQ(Fchksum32(c), ca, "checksum of a copy");
  PBT_EQ(Fchksum32(a), ca, "checksum taken again");
  g.nontrivial(m.count() >= 2);
  if (has_type(m, FLD_FML32)) g.label("nested");
}

static void differ(G &g) {
  auto pool = gen_pool(g, 6);
  GenOpt o;
  o.maxlen = 60;
  M m = gen(g, pool, 1 + g.below(10), o);
  M d = m;
  const char *what;
  auto pickpos = [&](const M &x, FLDID32 &id, size_t &oc) {
    size_t k = g.below(x.count());
    for (auto &e : x.f) {
      if (k < e.second.size()) {
        id = e.first;
        oc = k;
        return;
      }
      k -= e.second.size();
    }
  };
  FLDID32 id;
  size_t oc;
  switch (g.below(5)) {
    case 0:
      what = "value changed";
      pickpos(m, id, oc);
      d.f[id][oc] = gen_val(g, id, o, pool);
      break;
    case 1: {
      what = "one bit changed";
      pickpos(m, id, oc);
      auto &v = d.f[id][oc];
      size_t n = v.b.size() - (idtype(id) == FLD_STRING ? 1 : 0);
      if (v.nest || n == 0) {
        d.erase(id, oc);
        break;
      }
      size_t p = g.below(n);
      char c = v.b[p] ^ (1 << g.below(8));
      if (idtype(id) == FLD_STRING && c == 0) c = 'q';
      v.b[p] = c;
      break;
    }
    case 2:
      what = "value removed";
      pickpos(m, id, oc);
      d.erase(id, oc);
      break;
    case 3:
      what = "value added";
      id = g.pick(pool);
      d.f[id].push_back(g.flip() ? defval(idtype(id)) : gen_val(g, id, o, pool));
      break;
    default: {
      what = "value moved to another field";
      pickpos(m, id, oc);
      V v = d.f[id][oc];
      d.erase(id, oc);
      FLDID32 other = id ^ (1u << g.below(12)) ^ 0x1000;
      if ((other & 0xffffff) == 0) other++;
      d.f[other].push_back(v);
    }
  }
  if (same(m, d)) return;
  g.log("%s: %s and %s", what, mstr(m).c_str(), mstr(d).c_str());
  Built a(m), b(d);
  long ca = Fchksum32(a), cb = Fchksum32(b);
  PBT_ASSERT(ca != cb, "different contents (%s), same checksum %lx", what, ca);
  g.label(what);
  g.nontrivial();
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F07";
  c.rule =
      "equal: the same random contents built twice by unrelated histories of adds, overwrites, gap fills and deletions in memory "
      "filled with different garbage; differ: contents with one small change. Non-trivial: at least 2 values; contents really differ.";
  c.subs = {
      {"equal", [](G &g) { equal(g, 14, 60); }, 120000, 1500000},
      {"equal-big", [](G &g) { equal(g, 40, 1500); }, 6000, 100000},
      {"equal-huge", [](G &g) { equal(g, 8, 150000); }, 400, 8000},
      {"differ", differ, 100000, 1000000},
  };
  c.assumptions = {"with a correct 32-bit CRC a random collision in one run has a probability below 1e-4; the cases are fixed by the seed"};
  return pbt::main(argc, argv, c);
}
