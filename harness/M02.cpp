// M02: exported buffers import unchanged, in binary and in text form.
#include <atmi.h>
#include <misc.h>
#include "fmlnames.hpp"
using namespace fm;

struct B {
  std::string type;
  char *p = nullptr;
  std::string data;
  M m;
};
static B make(G &g, const std::vector<FLDID32> &pool) {
  B b;
  static const char *types[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
  b.type = g.pick(types);
  size_t n = g.size(g.chance(1, 10) ? 20000 : 400);
  char t[16];
  strcpy(t, b.type.c_str());
  if (b.type == "FML32") {
    GenOpt o;
    o.maxlen = 100;
    b.m = gen_model(g, pool, g.below(8), o);
    b.p = tpalloc(t, (char *)"*", roughsize(b.m) + g.below(100));
    PBT_ASSERT(b.p, "tpalloc failed with %d", tperrno);
    build((FBFR32 *)b.p, b.m);
  } else {
    if (b.type == "STRING") {
      b.data = g.text(n, g.flip()) + std::string(1, 0);
      b.p = tpalloc(t, nullptr, b.data.size());
    } else if (b.type == "TPINIT") {
      b.data = g.bytes(TPINITNEED(n % 100));
      b.p = tpalloc(t, nullptr, b.data.size());
    } else {
      b.data = g.bytes(n);
      b.p = tpalloc(t, (char *)"*", b.data.size());
    }
    PBT_ASSERT(b.p, "tpalloc failed with %d", tperrno);
    memcpy(b.p, b.data.data(), b.data.size());
  }
  return b;
}
static void is(char *p, const B &b, const char *what) {
  char type[9] = {}, sub[17] = {};
  PBT_ASSERT(tptypes(p, type, sub) != -1, "%s: tptypes failed with %d", what, tperrno);
  PBT_EQ(std::string(type), b.type, std::string(what) + ": type");
  if (b.type == "FML32")
    check_is((FBFR32 *)p, b.m, what);
  else
    PBT_ASSERT(memcmp(p, b.data.data(), b.data.size()) == 0, "%s: contents of %zu bytes differ", what, b.data.size());
}
struct Exp {
  std::string enc;
};
static std::string do_export(G &g, B &b, long flags) {
  long ilen = b.type == "CARRAY" || b.type == "TPINIT" ? (long)b.data.size() : (long)g.below(3);
  // too small: refused with the size needed, nothing written
  long have = 0, olen = 0;
  char c = 0x55;
  PBT_ASSERT(tpexport(b.p, ilen, &c, &olen, flags) == -1 && tperrno == TPELIMIT, "export into 0 bytes: error %d", tperrno);
  long need = olen;
  PBT_ASSERT(c == 0x55, "refused export wrote to the output");
  PBT_ASSERT(need > 0, "required size %ld", need);
  long less = g.below(need);
  char *small = (char *)malloc(less ? less : 1);
  memset(small, 0x55, less ? less : 1);
  olen = less;
  PBT_ASSERT(tpexport(b.p, ilen, small, &olen, flags) == -1 && tperrno == TPELIMIT, "export into %ld of %ld bytes: error %d", less, need, tperrno);
  PBT_EQ(olen, need, "required size for a different output");
  free(small);
  olen = need + (g.flip() ? 0 : g.below(50));
  have = olen;
  char *o = (char *)malloc(have);
  memset(o, 0x55, have);
  PBT_ASSERT(tpexport(b.p, ilen, o, &olen, flags) != -1, "export into %ld bytes failed with %d", have, tperrno);
  PBT_EQ(olen, need, "length reported");
  for (long i = olen; i < have; i++) PBT_ASSERT(o[i] == 0x55, "byte %ld past the reported length was written", i - olen);
  std::string e(o, olen);
  free(o);
  if (flags & TPEX_STRING) {
    PBT_EQ(strlen(e.c_str()) + 1, (size_t)olen, "text form length");
    e.resize(olen - 1);
    size_t pad = 0;
    for (size_t i = 0; i < e.size(); i++) {
      unsigned char ch = e[i];
      if (ch == '=' && i + 2 >= e.size()) {
        pad++;
        continue;
      }
      PBT_ASSERT(!pad && (isalnum(ch) || ch == '+' || ch == '/'), "byte %02x at %zu of %zu in the text form", ch, i, e.size());
    }
    PBT_ASSERT(e.size() % 4 == 0, "text form has %zu characters", e.size());
  }
  is(b.p, b, "source after export");
  return e;
}
static void roundtrip(G &g) {
  auto pool = gen_pool(g, 5);
  B b = make(g, pool), r = make(g, pool);
  bool text = g.flip();
  std::string e = do_export(g, b, text ? TPEX_STRING : 0);
  size_t times = 1 + g.below(2);
  for (size_t i = 0; i < times; i++) {
    long olen = 4711;
    char *in = (char *)malloc(e.size() + 1);
    memcpy(in, e.c_str(), e.size() + 1);
    long ilen = text ? (g.flip() ? 0 : (long)e.size()) : (long)e.size();
    long fl = text ? (ilen == 0 && g.flip() ? 0 : TPEX_STRING) : 0;
    g.log("%s %s of %zu bytes into %s, ilen %ld flags %ld", text ? "text" : "binary", b.type.c_str(),
          b.type == "FML32" ? b.m.count() : b.data.size(), r.type.c_str(), ilen, fl);
    char *src = in;
    if (!text) {  // exactly sized for the sanitizer
      src = (char *)malloc(e.size());
      memcpy(src, e.data(), e.size());
    }
    int rc = tpimport(src, ilen, &r.p, g.flip() ? &olen : nullptr, fl);
    PBT_ASSERT(rc != -1, "tpimport failed with %d", tperrno);
    if (src != in) free(src);
    free(in);
    is(r.p, b, "imported buffer");
    // and it is a working buffer
    if (b.type == "FML32") {
      FBFR32 *f = (FBFR32 *)r.p;
      std::string big(100, 'x');
      if (Funused32(f) < 200) {
        r.p = tprealloc(r.p, Fused32(f) + 300);
        PBT_ASSERT(r.p, "tprealloc failed");
        f = (FBFR32 *)r.p;
      }
      FLDID32 id = mkid(FLD_STRING, 777);
      PBT_ASSERT(Fadd32(f, id, &big[0], 0) != -1, "adding to the imported buffer failed with %d", Ferror32);
      PBT_ASSERT(Fdel32(f, id, 0) != -1, "Fdel32");
      is(r.p, b, "imported buffer after use");
    }
    r.type = b.type;
  }
  // a second generation is the same
  B b2 = b;
  b2.p = r.p;
  std::string e2 = do_export(g, b2, text ? TPEX_STRING : 0);
  if (b.type != "TPINIT") PBT_ASSERT(e2.size() == e.size(), "exporting the imported buffer gives %zu bytes, not %zu", e2.size(), e.size());
  tpfree(b.p);
  tpfree(r.p);
  g.label(std::string(text ? "text " : "binary ") + b.type);
  g.label(pbt::fmt("size mod 3 = %zu", e2.size() % 3));
  g.nontrivial(b.data.size() > 1 || b.m.count() > 0);
}
static const char ALPHA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void refused(G &g) {
  auto pool = gen_pool(g, 4);
  B b = make(g, pool), r = make(g, pool);
  std::string e = do_export(g, b, TPEX_STRING);
  std::string bad = e;
  int kind = g.below(5);
  switch (kind) {
    case 0: {  // a character outside of the alphabet
      size_t at = g.below(bad.size());
      char c;
      do c = (char)(1 + g.below(255));
      while (c == '=' || strchr(ALPHA, c));
      bad[at] = c;
      break;
    }
    case 1: bad.resize(1 + g.below(bad.size() - 1)); if (bad.size() % 4 == 0) bad.resize(bad.size() - 1); break;
    case 2: {  // padding in the middle
      size_t at = g.below(bad.size() - 4);
      bad[at] = '=';
      break;
    }
    case 3: bad = bad.substr(0, bad.size() - 4) + "A" + (g.flip() ? "=" : "A") + "=A"; break;
    default: bad = bad.substr(0, bad.size() - 4) + (g.flip() ? "====" : "A==="); break;
  }
  g.log("kind %d %s", kind, pbt::show(bad, 200).c_str());
  PBT_ASSERT(tpimport(&bad[0], g.flip() ? 0 : (long)bad.size(), &r.p, nullptr, TPEX_STRING) == -1, "invalid text was accepted");
  PBT_ASSERT(tperrno != 0, "no error reported");
  is(r.p, r, "receiver of refused text");
  long l = 10;
  char c[10];
  PBT_ASSERT(tpexport(nullptr, 0, c, &l, 0) == -1 && tperrno == TPEINVAL, "export of NULL: error %d", tperrno);
  PBT_ASSERT(tpexport(b.p, 0, nullptr, &l, 0) == -1 && tperrno == TPEINVAL, "export into NULL: error %d", tperrno);
  PBT_ASSERT(tpexport(b.p, 0, c, nullptr, 0) == -1 && tperrno == TPEINVAL, "export without length: error %d", tperrno);
  PBT_ASSERT(tpimport(nullptr, 0, &r.p, &l, 0) == -1 && tperrno == TPEINVAL, "import of NULL: error %d", tperrno);
  PBT_ASSERT(tpimport(&e[0], 0, nullptr, &l, 0) == -1 && tperrno == TPEINVAL, "import into NULL: error %d", tperrno);
  char *nul = nullptr;
  PBT_ASSERT(tpimport(&e[0], 0, &nul, &l, 0) == -1 && tperrno == TPEINVAL, "import into NULL buffer: error %d", tperrno);
  is(r.p, r, "receiver of refused calls");
  // the receiver still works
  PBT_ASSERT(tpimport(&e[0], 0, &r.p, nullptr, TPEX_STRING) != -1, "import after a refused one failed with %d", tperrno);
  is(r.p, b, "imported buffer");
  tpfree(b.p);
  tpfree(r.p);
  g.label(pbt::fmt("kind %d", kind));
  g.nontrivial();
}

// the codec itself against an independent one
static std::string ref64(const std::string &s) {
  std::string o;
  size_t bits = 0;
  uint32_t acc = 0;
  for (unsigned char c : s) {
    acc = acc << 8 | c;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      o += ALPHA[acc >> bits & 63];
    }
    acc &= (1u << bits) - 1;
  }
  if (bits) o += ALPHA[acc << (6 - bits) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
static void codec(G &g) {
  std::string s = g.bytes(g.size(g.chance(1, 20) ? 5000 : 300));
  std::string want = ref64(s);
  g.log("%s", pbt::show(s, 200).c_str());
  PBT_EQ(base64chars(s.size()), want.size(), "base64chars");
  char *o = (char *)malloc(want.size() ? want.size() : 1);
  size_t n = base64encode(s.data(), s.size(), o, want.size());
  std::string got(o, n);
  free(o);
  PBT_EQ(got, want, "encoding");
  size_t room = want.size() / 4 * 3;
  char *d = (char *)malloc(room ? room : 1);
  n = base64decode(want.data(), want.size(), d, room);
  got.assign(d, n);
  PBT_EQ(got, s, "decoding");
  free(d);
  if (want.size() > 4) {
    bool thrown = false;
    std::string small(want.size() - 1, 0);
    try {
      base64encode(s.data(), s.size(), &small[0], g.below(want.size()));
    } catch (std::exception &) {
      thrown = true;
    }
    PBT_ASSERT(thrown, "encoding into too little space");
  }
  g.label(pbt::fmt("size mod 3 = %zu", s.size() % 3));
  g.nontrivial(s.size() > 1);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "M02";
  c.fds = true;
  c.rule =
      "roundtrip: random buffers of every type exported in both forms (with too small outputs first) and imported into random other "
      "buffers; refused: damaged text and bad arguments leave the receiver as it was; codec: base64 against an independent encoder. "
      "Non-trivial: at least 2 bytes or one field.";
  c.subs = {
      {"roundtrip", roundtrip, 120000, 1500000},
      {"refused", refused, 60000, 800000},
      {"codec", codec, 120000, 1500000},
  };
  c.assumptions = {"binary images that were not produced by export are not imported"};
  return pbt::main(argc, argv, c);
}
