// F09: field identifiers and field tables.
#include <algorithm>
#include <atomic>
#include <thread>
#include "fmlmodel.hpp"
#include "proc.hpp"
using namespace fm;

static void ids(G &g) {
  for (int i = 0; i < 20; i++) {
    int type = g.chance(2, 3) ? g.pick(TYPES) : (int)g.range(-3, 300);
    static const uint32_t b[] = {0, 1, 2, 0xffff, 0x10000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x2000000, 0x7fffffff, 0x80000001, 0xffffffff};
    uint32_t num = g.chance(1, 3) ? g.pick(b) : g.chance(1, 8) ? (uint32_t)g.below(1ull << 32) : 1 + g.below(0xffffff);
    bool tok = false;
    for (int t : TYPES) tok = tok || t == type;
    FLDID32 id = Fmkfldid32(type, num);
    if (!tok) {
      PBT_ASSERT(id == (FLDID32)-1 && Ferror32 == FTYPERR, "Fmkfldid32(%d,%u) = %u error %d", type, num, id, Ferror32);
    } else if (num < 1 || num > 0xffffff) {
      PBT_ASSERT(id == (FLDID32)-1 && Ferror32 == FBADFLD, "Fmkfldid32(%d,%u) = %u error %d", type, num, id, Ferror32);
    } else {
      PBT_ASSERT(id != (FLDID32)-1 && id != BADFLDID, "Fmkfldid32(%d,%u) failed", type, num);
      PBT_EQ(Fldtype32(id), type, "Fldtype32");
      PBT_EQ(Fldno32(id), (long)num, "Fldno32");
      if (num > 0xffff) g.label("number above 65535");
    }
  }
  g.nontrivial();
}

struct Def {
  std::string name;
  int type;
  long num;
};
struct Table {
  std::string text;
  std::vector<Def> defs;
  std::vector<std::string> raw;
};

static std::string blank(G &g) {
  static const char *s[] = {"\t", " ", "\t\t", "   ", " \t"};
  return g.pick(s);
}

// Tables with names and identifiers that are unique over all tables.
static Table gen_table(G &g, std::set<std::string> &names, std::set<FLDID32> &used, size_t maxn) {
  Table t;
  long base = 0;
  size_t n = g.below(maxn + 1);
  for (size_t i = 0; i < n; i++) {
    switch (g.weighted({8, 2, 2, 2, 1})) {
      case 0: {
        Def d;
        static const char first[] = "ABCXYZabz";
        static const char rest[] = "ABZabz019_";
        d.name = std::string(1, first[g.below(9)]);
        size_t l = g.size(30);
        for (size_t k = 0; k < l; k++) d.name += rest[g.below(10)];
        if (!names.insert(d.name).second) break;
        d.type = g.pick(TYPES);
        long rel = g.chance(1, 5) ? g.below(0xffffff - base) : g.below(200);
        d.num = base + rel;
        if (d.num < 1 || d.num > 0xffffff || !used.insert(mkid(d.type, d.num)).second) break;
        t.text += d.name + blank(g) + std::to_string(rel) + blank(g) + tname(d.type);
        switch (g.below(4)) {
          case 0: break;
          case 1: t.text += blank(g) + "-"; break;
          case 2: t.text += blank(g) + "-" + blank(g) + "# " + g.text(g.below(20), true) + "."; break;
          default: t.text += blank(g) + "-" + blank(g) + "some words"; break;
        }
        t.text += "\n";
        t.defs.push_back(d);
        break;
      }
      case 1:
        t.text += "#" + g.text(g.below(30), true) + ".\n";
        break;
      case 2: {
        std::string r = "#define RAW_" + std::to_string(g.below(1000)) + " 1";
        t.text += "$" + r + "\n";
        t.raw.push_back(r);
        break;
      }
      case 3:
        base = g.chance(1, 4) ? g.below(0xfff000) : g.below(5000);
        t.text += "*base" + blank(g) + std::to_string(base) + (g.chance(1, 4) ? blank(g) + "# from here" : "") + "\n";
        break;
      default:
        t.text += "\n";
    }
  }
  if (!t.text.empty() && g.chance(1, 6)) t.text.pop_back();  // no newline at the end
  return t;
}

static std::string casedir() {
  static int n = 0;
  std::string d = pbt::g_scratch + fmt("/case.%d.%d", getpid(), n++);
  mkdir(d.c_str(), 0755);
  return d;
}

static void tables(G &g) {
  std::string dir = casedir();
  std::set<std::string> names;
  std::set<FLDID32> used;
  size_t nd = 1 + g.below(3), nf = 1 + g.below(3);
  std::vector<std::string> dirs, files;
  for (size_t i = 0; i < nd; i++) {
    dirs.push_back(dir + fmt("/d%zu", i));
    mkdir(dirs.back().c_str(), 0755);
  }
  std::vector<Def> all;
  for (size_t i = 0; i < nf; i++) {
    std::string fn = fmt("f%zu.fld", i);
    Table t = gen_table(g, names, used, 14);
    size_t where = g.below(nd);
    proc::write_file(dirs[where] + "/" + fn, t.text);
    g.log("%s in directory %zu of %zu:\n%s", fn.c_str(), where, nd, t.text.c_str());
    all.insert(all.end(), t.defs.begin(), t.defs.end());
    // directories are searched in order: a later file of the same name is ignored
    if (where + 1 < nd && g.flip()) {
      proc::write_file(dirs[where + 1] + "/" + fn, "HIDDEN_NAME\t4242\tlong\t-\n");
      g.label("hidden file");
    }
    files.push_back(fn);
  }
  if (g.chance(1, 4)) files.insert(files.begin() + g.below(files.size() + 1), "missing.fld");
  std::string fs, ds;
  for (auto &f : files) fs += (fs.empty() ? "" : ",") + f;
  for (auto &d : dirs) ds += (ds.empty() ? "" : ":") + d;
  Fidnm_unload32();
  Fnmid_unload32();
  setenv("FIELDTBLS32", fs.c_str(), 1);
  setenv("FLDTBLDIR32", ds.c_str(), 1);
  auto checkall = [&](const char *when) {
    bool rev = g.flip();
    for (size_t k = 0; k < all.size() * 2; k++) {
      bool byname = (k < all.size()) != rev;
      auto &d = all[k % all.size()];
      FLDID32 id = mkid(d.type, d.num);
      if (byname) {
        FLDID32 got = Fldid32((char *)d.name.c_str());
        PBT_ASSERT(got == id, "%s: Fldid32(%s) = %u, expected %u", when, d.name.c_str(), got, id);
      } else {
        char *n = Fname32(id);
        PBT_ASSERT(n && d.name == n, "%s: Fname32(%u) = %s, expected %s", when, id, n ? n : "NULL", d.name.c_str());
      }
    }
    for (const char *u : {"NO_SUCH_FIELD", "HIDDEN_NAME", ""})
      if (!names.count(u)) PBT_ASSERT(Fldid32((char *)u) == BADFLDID && Ferror32 == FBADNAME, "%s: Fldid32(%s): error %d", when, u, Ferror32);
    if (!all.empty()) {
      std::string half = all[0].name.substr(0, all[0].name.size() - 1);
      if (!names.count(half)) PBT_ASSERT(Fldid32((char *)half.c_str()) == BADFLDID, "prefix of a name is known");
    }
    for (int k = 0; k < 3; k++) {
      FLDID32 id = mkid(g.pick(TYPES), 1 + g.below(300));
      if (!used.count(id)) PBT_ASSERT(Fname32(id) == nullptr && Ferror32 == FBADFLD, "%s: Fname32 of unknown field, error %d", when, Ferror32);
    }
    PBT_ASSERT(Fname32(BADFLDID) == nullptr, "name of BADFLDID");
  };
  checkall("first load");
  for (int i = g.below(4); i > 0; i--) {
    int how = g.below(3);
    std::vector<char *> kept;
    if (how == 1)
      for (auto &d : all) kept.push_back(Fname32(mkid(d.type, d.num)));
    if (how != 1) Fidnm_unload32();
    if (how != 0) Fnmid_unload32();
    if (how == 1 && !all.empty()) {
      // the other mapping has not been unloaded
      (void)Fldid32((char *)g.pick(all).name.c_str());
      for (size_t k = 0; k < all.size(); k++) PBT_ASSERT(kept[k] && all[k].name == kept[k], "a name has changed although names were not unloaded");
    }
    checkall(how == 0 ? "after Fidnm_unload32" : how == 1 ? "after Fnmid_unload32" : "after unloading both");
    g.label("unload");
  }
  proc::rmtree(dir);
  if (g.chance(1, 6)) {  // mappings stay loaded without their files
    if (!all.empty()) {
      checkall("files gone");
    }
  }
  g.nontrivial(all.size() >= 2);
}

// several threads need the tables for the first time
static void concurrent(G &g) {
  std::string dir = casedir();
  std::set<std::string> names;
  std::set<FLDID32> used;
  std::vector<Def> all;
  std::string fs;
  for (size_t i = 0, nf = 1 + g.below(3); i < nf; i++) {
    Table t = gen_table(g, names, used, 40);
    std::string fn = fmt("c%zu.fld", i);
    proc::write_file(dir + "/" + fn, t.text);
    all.insert(all.end(), t.defs.begin(), t.defs.end());
    fs += (fs.empty() ? "" : ",") + fn;
  }
  if (all.empty()) return;
  setenv("FIELDTBLS32", fs.c_str(), 1);
  setenv("FLDTBLDIR32", dir.c_str(), 1);
  size_t nt = 2 + g.below(5);
  std::vector<int> kind(nt);
  std::vector<size_t> first(nt);
  for (size_t t = 0; t < nt; t++) kind[t] = g.below(3), first[t] = g.below(all.size());
  g.log("%zu fields in %s, %zu threads", all.size(), fs.c_str(), nt);
  for (int round = 0, rounds = 1 + g.below(6); round < rounds; round++) {
    int how = round == 0 ? 2 : g.below(3);
    if (how != 1) Fidnm_unload32();
    if (how != 0) Fnmid_unload32();
    std::atomic<size_t> ready(0);
    std::vector<std::string> bad(nt);
    std::vector<std::vector<char *>> kept(nt, std::vector<char *>(all.size()));
    std::vector<std::thread> threads;
    for (size_t t = 0; t < nt; t++)
      threads.emplace_back([&, t] {
        ready++;
        while (ready < nt)
          ;
        for (size_t k = 0; k < all.size(); k++) {
          size_t i = (first[t] + k) % all.size();
          auto &d = all[i];
          if (kind[t] != 1 && Fldid32((char *)d.name.c_str()) != mkid(d.type, d.num)) bad[t] = "identifier of " + d.name;
          if (kind[t] != 0) {
            kept[t][i] = Fname32(mkid(d.type, d.num));
            if (!kept[t][i]) bad[t] = "name of " + d.name;
          }
        }
      });
    for (auto &t : threads) t.join();
    for (size_t t = 0; t < nt; t++) {
      PBT_ASSERT(bad[t].empty(), "thread %zu: wrong %s", t, bad[t].c_str());
      if (kind[t] != 0)
        for (size_t i = 0; i < all.size(); i++) PBT_ASSERT(all[i].name == kept[t][i], "thread %zu: name returned earlier has changed", t);
    }
  }
  proc::rmtree(dir);
  g.nontrivial(all.size() >= 2);
}

static void headers(G &g) {
  std::string dir = casedir(), tux = getenv("TUXDIR");
  std::set<std::string> names;
  std::set<FLDID32> used;
  size_t nf = 1 + g.below(2);
  std::vector<std::string> argv{tux + "/bin/mkfldhdr32"};
  std::string out = dir + "/out";
  mkdir(out.c_str(), 0755);
  bool sub = g.flip();
  argv.push_back("-d");
  argv.push_back(sub ? out : ".");
  std::string cwd = sub ? dir : out;
  std::vector<Def> all;
  std::vector<std::string> raw;
  std::string src = "#include <stdio.h>\n#include <fml32.h>\n";
  bool bad = g.chance(1, 5);
  for (size_t i = 0; i < nf; i++) {
    Table t = gen_table(g, names, used, 20);
    if (bad && i + 1 == nf) {
      static const char *junk[] = {"NAME\t12\tinteger\t-\n", "NAME\tabc\tlong\t-\n", "NAME\n", "*bass 100\n", "*base\n", "!what\n", "NAME\t12\n", "1NAME\t12\tlong\n"};
      if (!t.text.empty() && t.text.back() != '\n') t.text += "\n";
      t.text += g.pick(junk);
    }
    std::string fn = fmt("tab%zu", i);
    proc::write_file(dir + "/" + fn, t.text);
    g.log("%s:\n%s", fn.c_str(), t.text.c_str());
    argv.push_back(g.flip() ? dir + "/" + fn : (sub ? fn : "../" + fn));
    all.insert(all.end(), t.defs.begin(), t.defs.end());
    raw.insert(raw.end(), t.raw.begin(), t.raw.end());
    src += "#include \"" + fn + ".h\"\n";
  }
  auto r = proc::run(argv, "", 30, {}, cwd);
  if (g.chance(1, 12)) {
    // not what it expects to be called with
    auto a = argv;
    switch (g.below(3)) {
      case 0: a.resize(1); break;
      case 1: a.insert(a.begin() + 1, "-Z"); break;
      default: a.push_back(dir + "/none");
    }
    auto x = proc::run(a, "", 30, {}, cwd);
    PBT_ASSERT(proc::refused(x), "mkfldhdr32 with %zu arguments of which not all are valid exits with %d", a.size() - 1, x.status);
    PBT_ASSERT(!x.err.empty(), "no message about invalid arguments");
    PBT_ASSERT(!proc::exists(out + "/none.h"), "mkfldhdr32 of a missing table left a header");
    g.label("invalid arguments");
  }
  if (bad) {
    PBT_ASSERT(proc::refused(r), "mkfldhdr32 of an invalid table exits with %d", r.status);
    PBT_ASSERT(!proc::exists(out + fmt("/tab%zu.h", nf - 1)), "mkfldhdr32 of an invalid table left a header");
    PBT_ASSERT(!r.err.empty(), "no message about an invalid table");
    proc::rmtree(dir);
    g.label("invalid table refused");
    g.nontrivial();
    return;
  }
  PBT_ASSERT(r.status == 0, "mkfldhdr32 exits with %d: %s", r.status, r.err.c_str());
  for (auto &x : raw) {
    auto name = x.substr(8, x.find(' ', 8) - 8);
    src += "#ifndef " + name + "\n#error pass-through line is missing\n#endif\n";
  }
  src += "int main() {\n";
  for (auto &d : all) src += " printf(\"%lu\\n\", (unsigned long)" + d.name + ");\n";
  src += " return 0; }\n";
  proc::write_file(out + "/t.c", src);
  auto c = proc::run({"gcc", "-w", "-O0", "-I" + std::string(getenv("VERIF_REPO")) + "/include", "-I" + out, out + "/t.c", "-o", out + "/t"}, "", 60);
  PBT_ASSERT(c.status == 0, "generated header does not compile: %s", c.err.substr(0, 800).c_str());
  auto x = proc::run({out + "/t"});
  std::istringstream is(x.out);
  for (auto &d : all) {
    unsigned long v = 0;
    is >> v;
    PBT_EQ(v, (unsigned long)mkid(d.type, d.num), "definition of " + d.name);
  }
  proc::rmtree(dir);
  if (!raw.empty()) g.label("pass-through lines");
  g.nontrivial(all.size() >= 2);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "F09";
  c.fds = true;
  c.rule =
      "ids: random types and numbers, legal, at the limits and illegal; tables: random field tables in several files and "
      "directories loaded by the library; headers: random tables through the generator, compiled and executed; concurrent: 2-6 threads translate right after (un)loading. Non-trivial: at "
      "least 2 fields defined, or a table that must be refused.";
  c.subs = {
      {"ids", ids, 40000, 400000},
      {"tables", tables, 40000, 300000},
      {"headers", headers, 1500, 16000},
      {"concurrent", concurrent, 6000, 60000},
  };
  c.repro_n = 8;
  c.repro_need = 1;
  c.assumptions = {"names and identifiers are unique over all tables", "comments do not end in a backslash"};
  return pbt::main(argc, argv, c);
}
