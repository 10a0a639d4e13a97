// Generated buffers for services.
#pragma once
#include "e2e.hpp"
namespace e2e {
// contents cheap in choices: a block repeated and marked
inline std::string contents(G &g, size_t n, bool text) {
  std::string s(n, 'a');
  switch (g.below(4)) {
    case 0: break;
    case 1: {
      uint64_t x = g.u64() | 1;
      for (size_t i = 0; i < n; i++) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        s[i] = (char)(x >> 24);
      }
      break;
    }
    case 2:
      for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + i / 251);
      break;
    default: {
      std::string b = g.bytes(1 + g.below(16));
      for (size_t i = 0; i < n; i++) s[i] = b[i % b.size()];
    }
  }
  if (text)
    for (auto &c : s)
      if (!c) c = 'z';
  return s;
}
inline size_t length(G &g) {
  switch (g.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: return g.below(100);
    case 5: return g.below(600);
    case 6: return g.range(480, 540);
    case 7: return g.range(3500, 4300);  // where messages move to files
    case 8: return g.range(4300, 20000);
    case 9: return g.range(60000, 70000);
    case 10: return g.chance(1, 4) ? g.range(500000, 3000000) : g.range(8000, 9000);
    default: return g.below(3000);
  }
}
inline Val value(G &g, int depth = 0) {
  Val v;
  switch (depth ? 3 : g.below(8)) {
    case 0: return v;
    case 1: case 2: case 3:
      if (!depth) {
        v.type = "STRING";
        v.bytes = contents(g, length(g), true);
        return v;
      }
      break;
    case 4: case 5:
      v.type = "CARRAY";
      v.bytes = contents(g, length(g), false);
      return v;
  }
  v.type = "FML32";
  size_t n = depth ? g.below(4) : g.chance(1, 10) ? g.below(200) : g.below(8);
  size_t budget = 0;
  static const int types[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};
  std::vector<Val::F> f;
  for (size_t i = 0; i < n; i++) {
    Val::F x;
    int t = g.pick(types);
    if (t == FLD_FML32 && depth >= 2) t = FLD_STRING;
    x.id = Fmkfldid32(t, 1 + g.below(5));
    size_t fixed[] = {sizeof(short), sizeof(long), 1, sizeof(float), sizeof(double)};
    if (t == FLD_FML32)
      x.v = value(g, depth + 1).pack();
    else if (t == FLD_STRING || t == FLD_CARRAY) {
      size_t l = n > 20 || depth ? g.below(60) : length(g);
      if (budget + l > 1500000) l = 3;
      budget += l;
      x.v = contents(g, l, t == FLD_STRING);
      if (t == FLD_STRING) x.v += '\0';
    } else if (t == FLD_FLOAT) {
      float d = g.range(-1000, 1000) / 8.0f;
      x.v.assign((char *)&d, sizeof(d));
    } else if (t == FLD_DOUBLE) {
      double d = g.range(-100000, 100000) / 16.0;
      x.v.assign((char *)&d, sizeof(d));
    } else {
      uint64_t r = g.u64();
      x.v.assign((char *)&r, fixed[t == FLD_SHORT ? 0 : t == FLD_LONG ? 1 : 2]);
    }
    f.push_back(x);
  }
  // as the fields are ordered in a buffer
  std::stable_sort(f.begin(), f.end(), [](const Val::F &a, const Val::F &b) { return a.id < b.id; });
  v.f = f;
  return v;
}
// the buffer that the caller passes for the reply
inline Val receiver(G &g) {
  Val v;
  switch (g.below(6)) {
    case 0: v.type = "STRING"; break;
    case 1: v.type = "CARRAY"; break;
    case 2: v.type = "FML32"; break;
    case 3: v.type = "STRING", v.bytes = contents(g, length(g), true); break;
    case 4: v.type = "CARRAY", v.bytes = contents(g, length(g), false); break;
    default: {
      do v = value(g);
      while (v.type.empty() && g.flip());
      if (v.type.empty()) v.type = "STRING";
    }
  }
  return v;
}

}  // namespace e2e
