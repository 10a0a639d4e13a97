// F01: model-based testing of FML32 buffers against an ordered multimap.
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

static const char *FN[] = {"short", "long"};

static void read_checks(G &g, FBFR32 *b, const M &m, const std::vector<FLDID32> &pool) {
  FLDID32 id = g.pick(pool);
  auto &occs = m.at(id);
  FLDOCC32 n = occs.size();
  FLDOCC32 oc = g.below(n + 2);
  bool present = oc < n;
  int type = idtype(id);
  switch (g.weighted({4, 2, 4, 2, 2, 2, 2, 3, 3})) {
    case 0: {  // Ffind32
      FLDLEN32 len = 4242;
      bool wantlen = g.flip();
      char *p = Ffind32(b, id, oc, wantlen ? &len : nullptr);
      g.log("Ffind32(%s,%d)", idstr(id).c_str(), oc);
      if (!present) {
        PBT_ASSERT(p == nullptr && Ferror32 == FNOTPRES, "Ffind32 of absent %s[%d]: %p error %d", idstr(id).c_str(), oc, p, Ferror32);
      } else {
        PBT_ASSERT(p != nullptr, "Ffind32 of present %s[%d] failed with %d", idstr(id).c_str(), oc, Ferror32);
        if (type == FLD_FML32) {
          check_is((FBFR32 *)p, *occs[oc].nest, "Ffind32 nested");
          if (wantlen) PBT_EQ((long)len, Fused32((FBFR32 *)p), "Ffind32 nested length");
        } else {
          if (wantlen) PBT_EQ(len, (FLDLEN32)occs[oc].b.size(), "Ffind32 length");
          PBT_EQ(std::string(p, occs[oc].b.size()), occs[oc].b, "Ffind32 value");
        }
      }
      break;
    }
    case 1: {  // Ffindlast32
      FLDLEN32 len = 4242;
      FLDOCC32 last = -77;
      g.log("Ffindlast32(%s)", idstr(id).c_str());
      char *p = Ffindlast32(b, id, &last, &len);
      if (n == 0) {
        PBT_ASSERT(p == nullptr && Ferror32 == FNOTPRES, "Ffindlast32 of absent field: %p, error %d", p, Ferror32);
      } else {
        PBT_ASSERT(p != nullptr, "Ffindlast32 failed with %d", Ferror32);
        PBT_EQ(last, n - 1, "Ffindlast32 occurrence");
        if (type == FLD_FML32)
          check_is((FBFR32 *)p, *occs[n - 1].nest, "Ffindlast32 nested");
        else
          PBT_EQ(std::string(p, len), occs[n - 1].b, "Ffindlast32 value");
      }
      break;
    }
    case 2: {  // Fget32
      if (type == FLD_FML32) {
        size_t need = present ? roughsize(*occs[oc].nest) + 200 : 200;
        Buf loc(need);
        FLDLEN32 len = need;
        long before = Fsizeof32(loc);
        g.log("Fget32(%s,%d) nested", idstr(id).c_str(), oc);
        int rc = Fget32(b, id, oc, loc.p, g.flip() ? &len : nullptr);
        if (present) {
          PBT_ASSERT(rc != -1, "Fget32 nested failed with %d", Ferror32);
          PBT_EQ(Fsizeof32(loc), before, "size of the receiving buffer after Fget32");
          check_is(loc, *occs[oc].nest, "Fget32 nested");
        } else
          PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "Fget32 of absent nested: %d error %d", rc, Ferror32);
        break;
      }
      size_t real = present ? occs[oc].b.size() : 8;
      size_t room = g.weighted({3, 3, 1, 1}) == 0 ? real : (size_t)std::max<long>(0, (long)real + g.range(-3, 5));
      char *loc = (char *)malloc(room + 1);
      memset(loc, 0x5a, room + 1);
      FLDLEN32 len = room;
      g.log("Fget32(%s,%d,room %zu)", idstr(id).c_str(), oc, room);
      int mode = room >= real ? g.below(3) : 0;
      int rc = Fget32(b, id, oc, mode == 2 ? nullptr : loc, mode == 1 ? nullptr : &len);
      if (!present) {
        bool ok = rc == -1 && Ferror32 == FNOTPRES && loc[0] == 0x5a;
        free(loc);
        PBT_ASSERT(ok, "Fget32 of absent %s[%d] returned %d, error %d", idstr(id).c_str(), oc, rc, Ferror32);
      } else if (room < real) {
        bool ok = rc == -1 && Ferror32 == FNOSPACE && len == real;
        bool touched = room && loc[0] != 0x5a;
        free(loc);
        PBT_ASSERT(ok, "Fget32 into %zu bytes of a value of %zu: %d error %d length %u", room, real, rc, Ferror32, len);
        PBT_ASSERT(!touched, "Fget32 wrote into a too small area");
      } else {
        std::string got(loc, mode == 2 ? 0 : real);
        bool guard = mode == 2 ? true : loc[room] == 0x5a && (room == real || loc[real] == 0x5a);
        free(loc);
        PBT_ASSERT(rc != -1, "Fget32 of %s[%d] into %zu bytes failed with %d", idstr(id).c_str(), oc, room, Ferror32);
        if (mode != 1) PBT_EQ(len, (FLDLEN32)real, "Fget32 length");
        if (mode != 2) PBT_EQ(got, occs[oc].b, "Fget32 value");
        PBT_ASSERT(guard, "Fget32 wrote beyond the value");
      }
      break;
    }
    case 3: {  // Fgetalloc32
      FLDLEN32 extra = g.below(20), extra0 = extra;
      bool we = g.flip();
      g.log("Fgetalloc32(%s,%d,%u)", idstr(id).c_str(), oc, extra);
      char *p = Fgetalloc32(b, id, oc, we ? &extra : nullptr);
      if (!present) {
        PBT_ASSERT(p == nullptr && Ferror32 == FNOTPRES, "Fgetalloc32 of absent field: error %d", Ferror32);
      } else {
        PBT_ASSERT(p != nullptr, "Fgetalloc32 failed with %d", Ferror32);
        if (type == FLD_FML32) {
          check_is((FBFR32 *)p, *occs[oc].nest, "Fgetalloc32 nested");
        } else {
          std::string got(p, occs[oc].b.size());
          PBT_EQ(got, occs[oc].b, "Fgetalloc32 value");
          if (we) {
            PBT_EQ(extra, (FLDLEN32)occs[oc].b.size(), "Fgetalloc32 length");
            memset(p + extra, 1, extra0);  // the extra space must be usable
          }
        }
        free(p);
      }
      break;
    }
    case 4: {  // Flen32
      g.log("Flen32(%s,%d)", idstr(id).c_str(), oc);
      long l = Flen32(b, id, oc);
      if (!present)
        PBT_ASSERT(l == -1 && Ferror32 == FNOTPRES, "Flen32 of absent field: %ld error %d", l, Ferror32);
      else if (type != FLD_FML32)
        PBT_EQ(l, (long)occs[oc].b.size(), "Flen32");
      break;
    }
    case 5:
      g.log("Fpres32(%s,%d)", idstr(id).c_str(), oc);
      PBT_EQ(Fpres32(b, id, oc), (int)present, "Fpres32 " + idstr(id));
      break;
    case 6:
      g.log("Foccur32(%s)", idstr(id).c_str());
      PBT_EQ(Foccur32(b, id), n, "Foccur32 " + idstr(id));
      break;
    case 7: {  // Ffindocc32
      if (type == FLD_FML32) break;
      GenOpt o;
      o.maxlen = 6;
      V v = present ? occs[oc] : gen_val(g, id, o, pool);
      if (present && !v.b.empty() && g.chance(1, 2) && type != FLD_FLOAT && type != FLD_DOUBLE) {
        // almost the same value; differs behind a NUL byte if there is one
        size_t z = type == FLD_CARRAY ? v.b.find('\0') : std::string::npos, end = v.b.size() - (type == FLD_STRING);
        if (type == FLD_CARRAY && g.chance(1, 4)) {
          if (g.flip())
            v.b.pop_back();
          else
            v.b.push_back((char)g.below(256));
        } else if (end > 0) {
          size_t at = z != std::string::npos && z + 1 < end ? z + 1 + g.below(end - z - 1) : g.flip() ? end - 1 : g.below(end);
          v.b[at] = (char)(v.b[at] == 1 ? 2 : v.b[at] ^ 1);
        }
      }
      long expect = -1;
      bool regex = false;
      if (type == FLD_STRING && g.flip()) {
        // search for a literal made of letters and digits as a pattern
        regex = true;
        std::string s;
        for (char c : v.b)
          if (isalnum((unsigned char)c) && s.size() < 3) s += c;
        if (s.empty()) s = "x";
        v.b = s + std::string(1, 0);
      }
      for (size_t i = 0; i < occs.size() && expect < 0; i++) {
        const std::string &a = occs[i].b, &w = v.b;
        bool eq;
        if (type == FLD_FLOAT)
          eq = as<float>(a) == as<float>(w);
        else if (type == FLD_DOUBLE)
          eq = as<double>(a) == as<double>(w);
        else if (regex)
          eq = strstr(a.c_str(), w.c_str()) != nullptr;
        else
          eq = a == w;
        if (eq) expect = i;
      }
      Arg a(v);
      g.log("Ffindocc32(%s,%s,%s)", idstr(id).c_str(), vstr(id, v).c_str(), regex ? "regex" : "exact");
      FLDOCC32 r = Ffindocc32(b, id, a.get(), type == FLD_CARRAY ? v.b.size() : regex ? 1 : 0);
      PBT_EQ((long)r, expect, "Ffindocc32");
      if (expect == -1) PBT_EQ(Ferror32, FNOTPRES, "Ffindocc32 error");
      break;
    }
    default: {  // Fnext32 from a present position
      if (m.f.empty()) break;
      std::vector<std::pair<FLDID32, FLDOCC32>> all;
      for (auto &x : m.f)
        for (size_t i = 0; i < x.second.size(); i++) all.push_back({x.first, (FLDOCC32)i});
      size_t start = g.below(all.size() + 1);
      FLDID32 fid = BADFLDID;
      FLDOCC32 foc = g.below(3);
      if (start) fid = all[start - 1].first, foc = all[start - 1].second;
      g.log("Fnext32 after %s[%d]", idstr(fid).c_str(), foc);
      size_t room = 5000;
      for (auto &x : m.f)
        for (auto &v : x.second) room = std::max(room, v.b.size() + 1);
      std::vector<char> loc(room);
      FLDLEN32 len = loc.size();
      int rc = Fnext32(b, &fid, &foc, g.flip() ? loc.data() : nullptr, g.flip() ? &len : nullptr);
      if (start == all.size()) {
        PBT_EQ(rc, 0, "Fnext32 at the end");
      } else {
        auto &e = all[start];
        const V &v = m.at(e.first)[e.second];
        if (v.nest && rc == -1) break;  // may exceed the area
        PBT_EQ(rc, 1, "Fnext32");
        PBT_ASSERT(fid == e.first && foc == e.second, "Fnext32 went to %s[%d], expected %s[%d]", idstr(fid).c_str(), foc,
                   idstr(e.first).c_str(), e.second);
        // again with value and length
        if (!v.nest) {
          fid = BADFLDID, foc = 0;
          if (start) fid = all[start - 1].first, foc = all[start - 1].second;
          FLDLEN32 room = g.chance(1, 4) && v.b.size() ? v.b.size() - 1 : v.b.size() + g.below(3);
          std::string area(room + 1, 'Z');
          len = room;
          rc = Fnext32(b, &fid, &foc, &area[0], &len);
          if (room < v.b.size()) {
            PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "Fnext32 with too small area: %d error %d", rc, Ferror32);
            PBT_ASSERT(area == std::string(room + 1, 'Z'), "Fnext32 wrote into too small area");
          } else {
            PBT_EQ(rc, 1, "Fnext32 with value");
            PBT_EQ(len, (FLDLEN32)v.b.size(), "Fnext32 length");
            PBT_EQ(area.substr(0, len), v.b, "Fnext32 value");
          }
        }
      }
    }
  }
}

static void run(G &g, size_t maxops, size_t maxlen, size_t poolmax, size_t cap = 1 << 20) {
  auto pool = gen_pool(g, poolmax);
  GenOpt o;
  o.maxlen = maxlen;
  M m;
  bool typed = g.chance(1, 4);
  char *tp = nullptr;
  std::unique_ptr<Buf> own;
  FBFR32 *b;
  if (typed) {
    tp = tpalloc((char *)"FML32", nullptr, cap);
    b = (FBFR32 *)tp;
  } else {
    own.reset(new Buf(cap));
    b = own->get();
  }
  size_t ops = 1 + g.below(maxops);
  size_t modified = 0;
  bool multi = false, inner = false;
  for (size_t i = 0; i < ops; i++) {
    FLDID32 id = g.pick(pool);
    auto cur = m.f.count(id) ? m.f[id].size() : 0;
    switch (g.weighted({6, 6, 3, 1, 1, 6, 1})) {
      case 0: {
        V v = gen_val(g, id, o, pool);
        g.log("Fadd32(%s,%s)", idstr(id).c_str(), vstr(id, v).c_str());
        int rc = g.flip() ? add(b, id, v) : put(b, id, -1, v);
        PBT_ASSERT(rc != -1, "adding to a buffer with space failed with %d", Ferror32);
        m.f[id].push_back(v);
        modified++;
        break;
      }
      case 1: {
        V v = gen_val(g, id, o, pool);
        FLDOCC32 oc = g.chance(1, 4) ? cur + g.below(4) : g.below(cur + 1);
        g.log("Fchg32(%s,%d,%s)", idstr(id).c_str(), oc, vstr(id, v).c_str());
        int rc = put(b, id, oc, v);
        PBT_ASSERT(rc != -1, "Fchg32 in a buffer with space failed with %d", Ferror32);
        auto &vec = m.f[id];
        if ((size_t)oc > vec.size()) g.label("gap filled");
        if ((size_t)oc < vec.size() && (size_t)oc + 1 < m.count()) inner = true, g.label("inner overwrite");
        while (vec.size() < (size_t)oc) vec.push_back(defval(idtype(id)));
        if (vec.size() == (size_t)oc)
          vec.push_back(v);
        else
          vec[oc] = v;
        modified++;
        break;
      }
      case 2: {
        FLDOCC32 oc = g.below(cur + 2);
        bool viachg = g.chance(1, 3);
        g.log("Fdel32(%s,%d)", idstr(id).c_str(), oc);
        int rc = viachg ? Fchg32(b, id, oc, nullptr, 0) : Fdel32(b, id, oc);
        if ((size_t)oc < cur) {
          PBT_ASSERT(rc != -1, "Fdel32 of present field failed with %d", Ferror32);
          m.erase(id, oc);
          modified++;
          g.label("delete");
        } else
          PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "Fdel32 of absent field: %d error %d", rc, Ferror32);
        break;
      }
      case 3: {
        g.log("Fdelall32(%s)", idstr(id).c_str());
        int rc = Fdelall32(b, id);
        if (cur) {
          PBT_ASSERT(rc != -1, "Fdelall32 failed with %d", Ferror32);
          m.f.erase(id);
          modified++;
          g.label("delall");
        } else
          PBT_ASSERT(rc == -1 && Ferror32 == FNOTPRES, "Fdelall32 of absent field: %d error %d", rc, Ferror32);
        break;
      }
      case 4: {
        g.log("copy through Fcpy32");
        Buf c(cap);
        PBT_ASSERT(Fcpy32(c, b) != -1, "Fcpy32 failed with %d", Ferror32);
        check_is(c, m, "copy");
        PBT_ASSERT(Finit32(b, Fsizeof32(b)) != -1, "Finit32 failed");
        check_is(b, M(), "after Finit32");
        PBT_ASSERT(Fcpy32(b, c) != -1, "Fcpy32 failed with %d", Ferror32);
        // indexes make a difference in time only
        long used = Fused32(b), free = Funused32(b);
        PBT_ASSERT(Findex32(b, g.below(5)) != -1 && Fidxused32(b) != -1, "Findex32 failed with %d", Ferror32);
        PBT_ASSERT(Funindex32(b) != -1 && Frstrindex32(b, g.below(5)) != -1, "Funindex32 or Frstrindex32 failed with %d", Ferror32);
        PBT_ASSERT(Fused32(b) == used && Funused32(b) == free, "size after indexing");
        break;
      }
      case 5:
        read_checks(g, b, m, pool);
        break;
      default: {
        if (!tp) break;
        cap += 1 + g.below(100000);
        g.log("tprealloc(%zu)", cap);
        tp = tprealloc(tp, cap);
        PBT_ASSERT(tp != nullptr, "tprealloc failed");
        b = (FBFR32 *)tp;
        PBT_EQ(Fsizeof32(b), (long)cap, "size after tprealloc");
      }
    }
    check_is(b, m, "after operation");
    for (auto &x : m.f)
      if (x.second.size() > 1) multi = true;
  }
  // every read of every field at the end
  for (auto id : pool) {
    PBT_EQ(Foccur32(b, id), (FLDOCC32)m.at(id).size(), "final Foccur32");
    for (size_t k = 0; k < 4; k++) read_checks(g, b, m, pool);
  }
  std::set<int> types;
  for (auto &x : m.f) types.insert(idtype(x.first));
  for (auto t : types) g.label(std::string("final type ") + tname(t));
  if (m.f.size() > 3) g.label("more than 3 fields");
  if (m.count() > 10) g.label("more than 10 values");
  g.nontrivial(modified >= 3 && multi && m.f.size() >= 2);
  if (tp) tpfree(tp);
}

// numbers of occurrences and of fields around the limits of narrow types
static void counts(G &g) {
  static const int around[] = {128, 256, 512, 1000, 4096};
  int n = around[g.weighted({8, 16, 8, 4, 1})] + g.range(-3, 3);
  static const int types[] = {FLD_SHORT, FLD_CHAR, FLD_LONG, FLD_STRING, FLD_CARRAY};
  bool fields = n < 1500 && g.chance(1, 3);
  int type = g.pick(types);
  FLDID32 lo = Fmkfldid32(FLD_CHAR, 5), hi = Fmkfldid32(FLD_FML32, 5), base = Fmkfldid32(type, 100);
  Buf b((size_t)n * 40 + 4096);
  auto val = [&](int i) {
    V v;
    std::string t = std::to_string(i);
    if (type == FLD_SHORT) v = {raw<short>(i)};
    if (type == FLD_CHAR) v = {raw<char>(i)};
    if (type == FLD_LONG) v = {raw<long>(i * 1000003l)};
    if (type == FLD_STRING) v = {t + std::string(1, 0)};
    if (type == FLD_CARRAY) v = {t};
    return v;
  };
  M m;
  auto next = [&](const M &m) {
    M r;
    for (auto &x : m.f)
      if (!x.second.empty()) r.f.insert(x);
    return r;
  };
  for (FLDID32 id : {lo, hi})
    if (g.flip()) {
      V v = gen_val(g, id, GenOpt(), {lo});
      PBT_ASSERT(add(b, id, v) != -1, "adding failed with %d", Ferror32);
      m.f[id].push_back(v);
    }
  // one by one, or all at once by changing the last one
  bool large = n > 1500;  // everything is linear in the position, too slow to compare all
  bool gap = !fields && (large || g.chance(1, 3));
  if (gap) {
    V v = val(n - 1);
    PBT_ASSERT(put(b, base, n - 1, v) != -1, "Fchg32 of occurrence %d failed with %d", n - 1, Ferror32);
    m.f[base].assign(n - 1, defval(type));
    m.f[base].push_back(v);
  } else
    for (int i = 0; i < n; i++) {
      FLDID32 id = fields ? base + i : base;
      V v = val(i);
      PBT_ASSERT(add(b, id, v) != -1, "adding value %d failed with %d", i, Ferror32);
      m.f[id].push_back(v);
    }
  g.log("%d %s of type %s%s", n, fields ? "fields" : "occurrences", tname(type), gap ? ", by one change" : "");
  if (!large) check_is(b, m, "after adding");
  for (int k = 0; k < 6; k++) {
    int i = g.chance(1, 3) ? n - 1 - (int)g.below(3) : (int)g.below(n);
    FLDID32 id = fields ? base + i : base;
    FLDOCC32 oc = fields ? 0 : i;
    int op = g.below(3);
    if (!m.f.count(id)) continue;
    auto &vec = m.f[id];
    if ((size_t)oc >= vec.size()) continue;
    if (op == 0) {
      FLDLEN32 len = 0;
      char *p = Ffind32(b, id, oc, &len);
      PBT_ASSERT(p && std::string(p, len) == vec[oc].b, "Ffind32 of occurrence %d finds another value", oc);
      PBT_EQ(Foccur32(b, id), (FLDOCC32)vec.size(), "Foccur32");
      PBT_ASSERT(Fpres32(b, id, vec.size() - 1) && !Fpres32(b, id, vec.size()), "Fpres32 around the last of %zu occurrences", vec.size());
      FLDOCC32 last = 0;
      p = Ffindlast32(b, id, &last, &len);
      PBT_ASSERT(p && std::string(p, len) == vec.back().b && last == (FLDOCC32)vec.size() - 1, "Ffindlast32 finds occurrence %d of %zu", last, vec.size());
    } else if (op == 1) {
      V v = val(i + 7);
      PBT_ASSERT(put(b, id, oc, v) != -1, "Fchg32 failed with %d", Ferror32);
      vec[oc] = v;
    } else {
      PBT_ASSERT(Fdel32(b, id, oc) != -1, "Fdel32 failed with %d", Ferror32);
      vec.erase(vec.begin() + oc);
      m = next(m);
    }
  }
  if (!large) check_is(b, m, "at the end");
  if (large) g.label("more than 1500 values");
  g.label(fields ? "many fields" : "many occurrences");
  g.nontrivial(n > 250);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F01";
  c.rule =
      "Random sequences of add/change/delete/delete-all/copy/resize and reads over a pool of up to 8 fields of all types; "
      "after every operation the whole buffer is enumerated and compared with the model. Non-trivial: at least 3 "
      "modifications took effect, some field had several occurrences and at least 2 fields were present.";
  c.subs = {
      {"short-sequences", [](G &g) { run(g, 16, 40, 5); }, 24000, 400000},
      {"long-sequences", [](G &g) { run(g, 60, 40, 8); }, 5000, 100000},
      {"big-values", [](G &g) { run(g, 20, 3000, 8); }, 2400, 40000},
      {"huge-values", [](G &g) { run(g, 14, 150000, 4, 4 << 20); }, 600, 10000},
      {"counts", counts, 400, 8000},
      {"many-occurrences", [](G &g) { run(g, 300, 12, 3); }, 400, 8000},
  };
  c.assumptions = {"values passed to the library do not point into the buffer being modified",
                   "occurrence numbers below -1 are outside the domain"};
  return pbt::main(argc, argv, c);
}
