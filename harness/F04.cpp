// F04: Fwrite32 / Fread32.
#include <algorithm>
#include "fmlmodel.hpp"
using namespace fm;

struct File {
  FILE *f;
  File() : f(tmpfile()) {
    if (!f) pbt::fail("tmpfile failed");
  }
  ~File() { fclose(f); }
};

static long used_of(const M &m) {
  Built f(m, 64);
  return Fused32(f);
}

// a valid buffer that can go on being used
static void usable(G &g, FBFR32 *b, long cap, const std::vector<FLDID32> &pool) {
  PBT_EQ(Fsizeof32(b), cap, "size of the receiver");
  M m = extract(b);
  check_is(b, m, "receiver");
  GenOpt o;
  o.maxlen = 10;
  for (int i = 0; i < 6; i++) {
    FLDID32 id = g.pick(pool);
    V v = gen_val(g, id, o, pool);
    M m2 = m;
    m2.f[id].push_back(v);
    long need = used_of(m2);
    int rc = add(b, id, v);
    if (need <= cap) {
      PBT_ASSERT(rc != -1, "add to the receiver failed with %d", Ferror32);
      m = m2;
    } else {
      PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "add beyond the size of the receiver");
    }
    check_is(b, m, "receiver after add");
    if (g.flip() && m.at(id).size()) {
      PBT_ASSERT(Fdel32(b, id, 0) != -1, "Fdel32 on the receiver failed with %d", Ferror32);
      m.erase(id, 0);
      check_is(b, m, "receiver after delete");
    }
  }
}

static void prefill(G &g, FBFR32 *b, long cap, const std::vector<FLDID32> &pool, M &m) {
  GenOpt o;
  o.maxlen = 20;
  size_t n = g.below(5);
  for (size_t i = 0; i < n; i++) {
    FLDID32 id = g.pick(pool);
    V v = gen_val(g, id, o, pool);
    if (add(b, id, v) != -1) m.f[id].push_back(v);
  }
}

static void roundtrip(G &g, size_t nmax, size_t maxlen) {
  auto pool = gen_pool(g, 8);
  GenOpt o;
  o.maxlen = maxlen;
  File f;
  size_t n = 1 + g.below(5);
  std::vector<M> ms;
  for (size_t i = 0; i < n; i++) {
    M m = gen_model(g, pool, g.below(nmax), o);
    Built b(m, g.below(200), g.flip() ? 0x77 : 0x11);
    // some history, so that deleted data may linger behind the used part
    if (g.chance(1, 3)) {
      FLDID32 id = g.pick(pool);
      V v = gen_val(g, id, o, pool);
      if (add(b, id, v) != -1) Fdel32(b, id, m.at(id).size());
    }
    g.log("write %s", mstr(m).c_str());
    PBT_ASSERT(Fwrite32(b, f.f) != -1, "Fwrite32 failed with %d", Ferror32);
    check_is(b, m, "written buffer");
    ms.push_back(m);
  }
  fputs("TRAILER", f.f);
  rewind(f.f);
  for (size_t i = 0; i < n; i++) {
    long need = used_of(ms[i]);
    long cap = need + (g.flip() ? 0 : g.below(300));
    Buf r(cap);
    M pre;
    prefill(g, r, cap, pool, pre);
    PBT_ASSERT(Fread32(r, f.f) != -1, "Fread32 of buffer %zu into %ld bytes (%ld needed) failed with %d", i, cap, need, Ferror32);
    check_is(r, ms[i], "read buffer");
    Built orig(ms[i]);
    PBT_EQ(Fchksum32(r), Fchksum32(orig), "checksum of the read buffer");
    usable(g, r, cap, pool);
  }
  char t[16] = {};
  PBT_EQ(fread(t, 1, 15, f.f), (size_t)7, "bytes after the last buffer");
  PBT_EQ(std::string(t), std::string("TRAILER"), "text after the last buffer");
  size_t total = 0;
  for (auto &m : ms) total += m.count();
  g.nontrivial(total >= 3);
  if (n > 1) g.label("several buffers");
}

static void damaged(G &g) {
  auto pool = gen_pool(g, 6);
  GenOpt o;
  o.maxlen = 200;
  M m = gen_model(g, pool, g.below(12), o);
  Built b(m);
  File f;
  PBT_ASSERT(Fwrite32(b, f.f) != -1, "Fwrite32 failed with %d", Ferror32);
  fflush(f.f);
  long len = ftell(f.f);
  long need = Fused32(b);
  long empty = used_of(M());
  bool small = need > empty && g.flip();
  long cap = small ? empty + g.below(need - empty) : need + g.below(100);
  long cut = small ? len : (long)g.below(len);
  if (g.chance(1, 4) && !small) cut = std::min(len - 1, (long)g.below(48));
  g.log("%s: stream of %ld cut at %ld, receiver %ld, needed %ld", mstr(m).c_str(), len, cut, cap, need);
  if (ftruncate(fileno(f.f), cut) != 0) pbt::fail("ftruncate");
  rewind(f.f);
  Buf r(cap);
  M pre;
  prefill(g, r, cap, pool, pre);
  int rc = Fread32(r, f.f);
  PBT_ASSERT(rc == -1, "Fread32 succeeded (%s)", small ? "receiver too small" : "truncated stream");
  if (small) {
    PBT_EQ(Ferror32, FNOSPACE, "error when the receiver is too small");
    check_is(r, pre, "receiver after refusal");
    g.label("receiver too small");
  } else {
    PBT_EQ(Ferror32, FEUNIX, "error for a truncated stream");
    g.label(cut < 4 ? "cut in the length" : cut < 40 ? "cut in the header" : "cut in the data");
  }
  usable(g, r, cap, pool);
  // and it can receive the intact stream afterwards
  File f2;
  Fwrite32(b, f2.f);
  rewind(f2.f);
  rc = Fread32(r, f2.f);
  if (small) {
    PBT_ASSERT(rc == -1 && Ferror32 == FNOSPACE, "second read into a too small receiver");
  } else {
    PBT_ASSERT(rc != -1, "reading the intact stream failed with %d", Ferror32);
    check_is(r, m, "intact stream after a truncated one");
  }
  PBT_ASSERT(Fwrite32(nullptr, f2.f) == -1 && Ferror32 == FNOTFLD, "Fwrite32 without a buffer");
  // a stream that cannot be written
  if (g.chance(1, 5)) {
    FILE *ro = fopen("/dev/full", "w");
    if (ro) {
      setvbuf(ro, nullptr, _IONBF, 0);
      rc = Fwrite32(b, ro);
      int e = Ferror32;
      fclose(ro);
      PBT_ASSERT(rc == -1 && e == FEUNIX, "writing to a full device: %d error %d", rc, e);
      check_is(b, m, "buffer after failed write");
      g.label("device full");
    }
  }
  g.nontrivial(m.count() >= 1);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F04";
  c.fds = true;
  c.rule =
      "Random sequences of up to 5 buffers written to one stream and read back into receivers of exact or larger size holding "
      "other data; streams cut at every kind of position and receivers that are too small. Non-trivial: at least 3 values "
      "written (round trips), at least one value (damage).";
  c.subs = {
      {"round-trip", [](G &g) { roundtrip(g, 12, 200); }, 40000, 600000},
      {"round-trip-big", [](G &g) { roundtrip(g, 60, 3000); }, 3000, 60000},
      {"round-trip-huge", [](G &g) { roundtrip(g, 8, 150000); }, 600, 10000},
      {"damage", damaged, 80000, 1200000},
  };
  c.assumptions = {"streams are written by Fwrite32 of the same build and are truncated, not forged"};
  return pbt::main(argc, argv, c);
}
