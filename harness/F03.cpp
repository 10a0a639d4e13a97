// F03: whole-buffer operations against their set definitions.
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

static std::string liststr(const std::vector<FLDID32> &l) {
  std::string s;
  for (auto x : l) s += idstr(x) + " ";
  return s;
}

struct List {  // exactly sized, BADFLDID terminated
  FLDID32 *p;
  explicit List(const std::vector<FLDID32> &l) {
    p = (FLDID32 *)malloc(sizeof(FLDID32) * (l.size() + 1));
    std::copy(l.begin(), l.end(), p);
    p[l.size()] = BADFLDID;
  }
  ~List() { free(p); }
};

static std::vector<FLDID32> gen_list(G &g, const std::vector<FLDID32> &pool) {
  std::vector<FLDID32> l;
  size_t n = g.below(pool.size() * 2 + 1);
  for (size_t i = 0; i < n; i++) {
    FLDID32 id = g.pick(pool);
    if (g.chance(1, 8)) id = id - 1 + g.below(3);  // a neighbour, probably absent
    if (id != BADFLDID) l.push_back(id);
  }
  return l;
}

static void run(G &g, size_t nmax, size_t maxlen, size_t poolmax, size_t room = 1 << 19) {
  auto pool = gen_pool(g, poolmax);
  GenOpt o;
  o.maxlen = maxlen;
  M d = gen_model(g, pool, g.below(nmax), o);
  Built dest(d, room);
  long size = Fsizeof32(dest);
  size_t ops = 1 + g.below(4);
  size_t both = 0, changed = 0;
  g.log("dest %s", mstr(d).c_str());
  for (size_t k = 0; k < ops; k++) {
    M s;
    if (g.chance(1, 2)) {
      // related contents: drop, repeat and alter some values of the destination
      for (auto &x : d.f)
        for (auto &v : x.second)
          if (!g.chance(1, 3)) s.f[x.first].push_back(g.flip() ? v : gen_val(g, x.first, o, pool));
      if (g.flip()) {
        M more = gen_model(g, pool, g.below(4), o);
        for (auto &x : more.f)
          for (auto &v : x.second) s.f[x.first].push_back(v);
      }
    } else {
      s = gen_model(g, pool, g.below(nmax), o);
    }
    Built src(s, g.below(64));
    std::string image((char *)(FBFR32 *)src, Fused32(src));
    M e;
    const char *what;
    int rc;
    auto common = [&](bool keep) {  // entries in both take the value of the source
      for (auto &x : d.f) {
        auto &sv = s.at(x.first);
        for (size_t i = 0; i < x.second.size(); i++) {
          if (i < sv.size()) {
            e.f[x.first].push_back(sv[i]);
            both++;
          } else if (keep)
            e.f[x.first].push_back(x.second[i]);
        }
      }
    };
    bool uses_src = true;
    switch (g.below(8)) {
      case 0:
        what = "Fcpy32";
        e = s;
        g.log("%s %s", what, mstr(s).c_str());
        rc = Fcpy32(dest, src);
        break;
      case 1:
        what = "Fconcat32";
        e = d;
        for (auto &x : s.f)
          for (auto &v : x.second) e.f[x.first].push_back(v);
        g.log("%s %s", what, mstr(s).c_str());
        rc = Fconcat32(dest, src);
        break;
      case 2:
        what = "Fupdate32";
        e = d;
        for (auto &x : s.f) {
          auto &dv = e.f[x.first];
          for (size_t i = 0; i < x.second.size(); i++)
            if (i < dv.size())
              dv[i] = x.second[i], both++;
            else
              dv.push_back(x.second[i]);
        }
        g.log("%s %s", what, mstr(s).c_str());
        rc = Fupdate32(dest, src);
        break;
      case 3:
        what = "Fjoin32";
        common(false);
        g.log("%s %s", what, mstr(s).c_str());
        rc = Fjoin32(dest, src);
        break;
      case 4:
        what = "Fojoin32";
        common(true);
        g.log("%s %s", what, mstr(s).c_str());
        rc = Fojoin32(dest, src);
        break;
      case 5: {
        what = "Fproj32";
        auto l = gen_list(g, pool);
        for (auto &x : d.f)
          if (std::find(l.begin(), l.end(), x.first) != l.end()) e.f.insert(x), both++;
        List list(l);
        g.log("%s %s", what, liststr(l).c_str());
        rc = Fproj32(dest, list.p);
        uses_src = false;
        break;
      }
      case 6: {
        what = "Fprojcpy32";
        auto l = gen_list(g, pool);
        for (auto &x : s.f)
          if (std::find(l.begin(), l.end(), x.first) != l.end()) e.f.insert(x), both++;
        List list(l);
        g.log("%s %s of %s", what, liststr(l).c_str(), mstr(s).c_str());
        rc = Fprojcpy32(dest, src, list.p);
        break;
      }
      default: {
        what = "Fdelete32";
        auto l = gen_list(g, pool);
        for (auto &x : d.f)
          if (std::find(l.begin(), l.end(), x.first) == l.end())
            e.f.insert(x);
          else
            both++;
        List list(l);
        g.log("%s %s", what, liststr(l).c_str());
        rc = Fdelete32(dest, list.p);
        uses_src = false;
      }
    }
    PBT_ASSERT(rc != -1, "%s failed with %d", what, Ferror32);
    check_is(dest, e, what);
    PBT_EQ(Fsizeof32(dest), size, std::string(what) + ": size of the destination");
    check_is(src, s, "source afterwards");
    PBT_ASSERT(image == std::string((char *)(FBFR32 *)src, image.size()), "%s modified its source", what);
    if (!same(d, e)) changed++;
    g.label(std::string(what) + (same(d, e) ? " (no change)" : ""));
    d = e;
    // the result is a fully working buffer
    FLDID32 id = g.pick(pool);
    V v = gen_val(g, id, o, pool);
    PBT_ASSERT(add(dest, id, v) != -1, "Fadd32 after %s failed with %d", what, Ferror32);
    d.f[id].push_back(v);
    check_is(dest, d, "add afterwards");
  }
  g.nontrivial(changed && both);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F03";
  c.rule =
      "Random pairs of buffers, half of them related to each other, and random field lists; each whole-buffer operation is "
      "compared with its set definition. Non-trivial: some operation changed the destination and some entry was matched "
      "between the two buffers or a field list.";
  c.subs = {
      {"small", [](G &g) { run(g, 12, 20, 4); }, 60000, 1000000},
      {"repeated-fields", [](G &g) { run(g, 40, 10, 2); }, 16000, 300000},
      {"huge", [](G &g) { run(g, 8, 150000, 3, 8 << 20); }, 600, 10000},
      {"big", [](G &g) { run(g, 60, 600, 8); }, 4000, 100000},
  };
  c.hang_s = 20;
  c.assumptions = {"source and destination are different buffers", "the destination has room for the result"};
  return pbt::main(argc, argv, c);
}
