// Named fields: a fixed field table with six fields of every type.
#pragma once
#include "fmlmodel.hpp"
namespace fm {
struct Named {
  std::string name;
  FLDID32 id;
};
inline const std::vector<Named> &named() {
  static std::vector<Named> v;
  if (v.empty())
    for (int t : TYPES)
      for (int i = 1; i <= 6; i++) {
        std::string n = std::string("X") + tname(t);
        for (auto &c : n) c = toupper(c);
        static const char *suffix[] = {"", "1", "_2", "_B_", "x9y", "LONGER_NAME_OF_A_FIELD"};
        v.push_back({n + suffix[i - 1], mkid(t, i == 6 ? 70000 : i)});
      }
  return v;
}
inline void use_names(const std::string &dir) {
  std::string path = dir + "/names.fld." + std::to_string(getpid());
  FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "# fields of all types\n");
  for (auto &n : named()) fprintf(f, "%s\t%ld\t%s\t-\tcomment\n", n.name.c_str(), (long)(n.id & 0xffffff), tname(idtype(n.id)));
  fclose(f);
  setenv("FLDTBLDIR32", dir.c_str(), 1);
  setenv("FIELDTBLS32", path.substr(path.rfind('/') + 1).c_str(), 1);
  // load now, the file is not needed afterwards
  if (Fldid32((char *)"XSHORT") == BADFLDID || !Fname32(mkid(FLD_SHORT, 1))) pbt::fail("field table was not loaded");
  unlink(path.c_str());
}
inline const std::string *name_of(FLDID32 id) {
  for (auto &n : named())
    if (n.id == id) return &n.name;
  return nullptr;
}
inline std::vector<FLDID32> named_pool(G &g, size_t max = 8, bool nested = true) {
  std::vector<FLDID32> p;
  size_t n = 1 + g.below(max);
  for (size_t i = 0; i < n; i++) {
    FLDID32 id = g.pick(named()).id;
    if (!nested && idtype(id) == FLD_FML32) id = mkid(FLD_STRING, 1);
    p.push_back(id);
  }
  return p;
}
}  // namespace fm
