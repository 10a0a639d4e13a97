// F05: Ffprint32 / Fextread32.
#include <math.h>
#include <algorithm>
#include "fmlnames.hpp"
using namespace fm;

static long used_of(const M &m) {
  Built f(m, 64);
  return Fused32(f);
}

// the value a printed value denotes
static V printed(FLDID32 id, const V &v);
static M printed(const M &m) {
  M r;
  for (auto &x : m.f)
    for (auto &v : x.second) r.f[x.first].push_back(printed(x.first, v));
  return r;
}
static V printed(FLDID32 id, const V &v) {
  if (v.nest) {
    V r;
    r.nest = std::make_shared<M>(printed(*v.nest));
    return r;
  }
  if (idtype(id) == FLD_FLOAT) return {raw<float>((float)atof(fmt("%f", (double)as<float>(v.b)).c_str()))};
  if (idtype(id) == FLD_DOUBLE) return {raw<double>(atof(fmt("%f", as<double>(v.b)).c_str()))};
  return v;
}

static std::string print(FBFR32 *b) {
  char *p = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  int rc = Ffprint32(b, f);
  int e = Ferror32;
  fclose(f);
  std::string s(p, n);
  free(p);
  if (rc == -1) pbt::fail("Ffprint32 failed with %d", e);
  return s;
}
struct Text {
  FILE *f;
  std::string keep;
  explicit Text(const std::string &s) : keep(s) {
    if (s.empty())
      f = fopen("/dev/null", "r");
    else
      f = fmemopen(&keep[0], keep.size(), "r");
    if (!f) pbt::fail("fmemopen");
  }
  ~Text() { fclose(f); }
};

static void roundtrip(G &g, size_t nmax, size_t maxlen, int depth) {
  auto pool = named_pool(g, 8);
  GenOpt o;
  o.maxlen = maxlen;
  o.depth = depth;
  size_t n = 1 + g.below(3);
  std::vector<M> ms;
  std::string all;
  for (size_t i = 0; i < n; i++) {
    M m = gen_model(g, pool, g.below(nmax), o);
    Built b(m);
    std::string t = print(b);
    check_is(b, m, "printed buffer");
    g.log("printed %s", pbt::show(t, 3000).c_str());
    for (unsigned char c : t)
      if (c != '\n' && c != '\t' && (c < 32 || c > 126)) pbt::fail("byte %02x in the printed text", c);
    all += t;
    ms.push_back(m);
  }
  Text in(all);
  for (size_t i = 0; i < n; i++) {
    M want = printed(ms[i]);
    long need = used_of(want);
    Buf r(need + (g.flip() ? 0 : g.below(100)));
    M junk = gen_model(g, pool, g.below(3), o);
    for (auto &x : junk.f)
      for (auto &v : x.second) add(r, x.first, v);
    PBT_ASSERT(Fextread32(r, in.f) != -1, "reading printed buffer %zu back failed: %d", i, Ferror32);
    check_is(r, want, "buffer read back");
    std::string again = print(r);
    Built w(want);
    PBT_EQ(again, print(w), "text printed once more");
  }
  char c;
  PBT_EQ(fread(&c, 1, 1, in.f), (size_t)0, "text left after the last buffer");
  size_t total = 0;
  bool nest = false, bytes = false;
  for (auto &m : ms) {
    total += m.count();
    if (has_type(m, FLD_FML32)) nest = true;
    for (auto &x : m.f)
      if (idtype(x.first) == FLD_CARRAY || idtype(x.first) == FLD_STRING)
        for (auto &v : x.second)
          for (unsigned char c : v.b)
            if (c < 32 || c > 126 || c == '\\') bytes = true;
  }
  if (nest) g.label("nested");
  if (n > 1) g.label("several buffers in one text");
  if (bytes) g.label("bytes that need escaping");
  g.nontrivial(total >= 2);
}

// ---- reference reader
struct Bad {};
struct Unspecified {};
struct Reader {
  const std::string &t;
  size_t p = 0;
  bool line(M &m, int indent) {
    auto at = [&](size_t i) { return i < t.size() ? (unsigned char)t[i] : -1; };
    if (at(p) == '\n') {
      p++;
      return false;
    }
    for (int i = 0; i < indent; i++)
      if (at(p++) != '\t') throw Bad();
    if (at(p) == '+' || at(p) == '-' || at(p) == '=' || at(p) == 0) throw Unspecified();
    std::string name, val;
    auto alpha = [&](int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    if (!alpha(at(p))) throw Bad();
    while (alpha(at(p)) || (at(p) >= '0' && at(p) <= '9') || at(p) == '_') name += at(p++);
    if (at(p++) != '\t') throw Bad();
    while (at(p) != '\n') {
      if (at(p) == -1) throw Bad();
      if (at(p) == '\\') {
        auto hx = [&](int c) { return c == -1 ? -1 : c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
        if (hx(at(p + 1)) < 0) throw Unspecified();
        if (hx(at(p + 2)) < 0) throw Bad();
        val += char(hx(at(p + 1)) << 4 | hx(at(p + 2)));
        p += 3;
      } else
        val += at(p++);
    }
    p++;
    FLDID32 id = 0;
    for (auto &n : named())
      if (n.name == name) id = n.id;
    V v;
    const char *s = val.c_str();
    switch (id ? idtype(id) : -1) {
      case FLD_SHORT: v.b = raw<short>((short)atol(s)); break;
      case FLD_LONG: v.b = raw<long>(atol(s)); break;
      case FLD_CHAR: v.b = raw<char>(s[0]); break;
      case FLD_FLOAT: v.b = raw<float>((float)atof(s)); break;
      case FLD_DOUBLE: v.b = raw<double>(atof(s)); break;
      case FLD_STRING: v.b = std::string(s) + std::string(1, 0); break;
      case FLD_CARRAY: v.b = val; break;
      case FLD_FML32:
        v.nest = std::make_shared<M>();
        while (line(*v.nest, indent + 1))
          ;
        break;
      default: throw Bad();
    }
    m.f[id].push_back(v);
    return true;
  }
};
static bool has_nan(const M &m) {
  for (auto &x : m.f)
    for (auto &v : x.second) {
      if (v.nest && has_nan(*v.nest)) return true;
      if (idtype(x.first) == FLD_FLOAT && isnan(as<float>(v.b))) return true;
      if (idtype(x.first) == FLD_DOUBLE && isnan(as<double>(v.b))) return true;
    }
  return false;
}

static void text(G &g) {
  auto pool = named_pool(g, 6);
  GenOpt o;
  o.maxlen = 20;
  M m = gen_model(g, pool, g.below(7), o);
  std::string t;
  {
    Built b(m);
    t = print(b);
  }
  bool prefix = g.chance(1, 4);
  if (prefix) {
    t.resize(g.below(t.size()));
  } else {
    size_t edits = g.below(4);
    static const std::string bits[] = {"\t", "\n", "\\", "\\0a", "\\4", "\\g1", "A", "0", "-", "_", " ", "XSHORT", "XFML32\t\n", "XLONG\t7\n", "NOSUCH\t1\n", "\xff", std::string(1, 0), "\n\n", "XCARRAY\tab\\00c\n", "\t\t"};
    for (size_t i = 0; i < edits; i++) {
      size_t p = g.below(t.size() + 1);
      switch (g.below(4)) {
        case 0: t.insert(p, g.pick(bits)); break;
        case 1: t.erase(p, 1 + g.below(3)); break;
        case 2:
          if (p < t.size()) t[p] = (char)g.below(256);
          break;
        default: {  // duplicate or drop a whole line
          size_t a = t.rfind('\n', p ? p - 1 : 0);
          a = a == std::string::npos ? 0 : a + 1;
          size_t e = t.find('\n', a);
          if (e == std::string::npos) break;
          std::string l = t.substr(a, e - a + 1);
          if (g.flip())
            t.insert(a, l);
          else
            t.erase(a, l.size());
        }
      }
    }
    if (g.chance(1, 20)) t = g.text(g.below(60), false);
  }
  g.log("text %s", pbt::show(t, 2000).c_str());
  M want;
  int expect = 1;  // 0 refuse, 1 accept, 2 open
  try {
    Reader r{t};
    while (r.line(want, 0))
      ;
  } catch (Bad &) {
    expect = 0;
  } catch (Unspecified &) {
    expect = 2;
  }
  long cap = 4096 + roughsize(want);
  bool small = expect == 1 && g.chance(1, 4), tight = small;
  if (small) cap = used_of(M()) + g.below(std::max<long>(1, used_of(want) - used_of(M())));
  if (small && used_of(want) <= cap) small = false;
  Buf r(cap);
  M pre;
  for (int i = 0; i < 2; i++) {
    FLDID32 id = g.pick(pool);
    V v = gen_val(g, id, o, pool);
    if (add(r, id, v) != -1) pre.f[id].push_back(v);
  }
  Text in(t);
  int rc = Fextread32(r, in.f);
  if (expect == 2) {
    M got = extract(r);
    if (rc == -1) check_is(r, pre, "receiver after refused text");
    g.label("open");
  } else if (expect == 0) {
    PBT_ASSERT(rc == -1, "text that is not in the format was accepted");
    check_is(r, pre, "receiver after refused text");
    g.label(prefix ? "truncated text refused" : "damaged text refused");
    g.nontrivial();
  } else if (small) {
    PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "reading into a too small buffer: %d error %d", rc, Ferror32);
    check_is(r, pre, "receiver that is too small");
    g.label("too small");
  } else {
    PBT_ASSERT(rc != -1, "text was refused with %d", Ferror32);
    if (!has_nan(want)) check_is(r, want, "buffer read from text");
    g.label("accepted");
    g.nontrivial(want.count() > 0);
  }
  // it goes on working
  V v = defval(FLD_SHORT);
  if (!tight) PBT_ASSERT(add(r, mkid(FLD_SHORT, 99), v) != -1, "Fadd32 afterwards failed with %d", Ferror32);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F05";
  c.fds = true;
  c.rule =
      "round-trip: up to 3 random buffers of named fields printed into one text and read back; text: printed buffers that are cut "
      "or edited, judged by an independent reader of the format. Non-trivial: at least 2 values printed; text that is refused, or "
      "accepted with at least one value.";
  c.subs = {
      {"round-trip", [](G &g) { roundtrip(g, 12, 60, 2); }, 40000, 600000},
      {"round-trip-deep", [](G &g) { roundtrip(g, 5, 10, 6); }, 10000, 200000},
      {"round-trip-big", [](G &g) { roundtrip(g, 40, 3000, 2); }, 2000, 40000},
      {"round-trip-huge", [](G &g) { roundtrip(g, 6, 150000, 2); }, 300, 6000},
      {"text", text, 200000, 3000000},
  };
  c.setup = [](int) { use_names(pbt::g_scratch); };
  c.assumptions = {"leading +, - or = and a backslash not followed by a hexadecimal digit are not judged, only required to be handled safely"};
  return pbt::main(argc, argv, c);
}
