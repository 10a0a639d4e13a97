// viewc32: headers that match their view files
#include "proc.hpp"
using namespace pbt;

static std::string tux() { return getenv("TUXDIR"); }
struct Field {
  std::string type, name, fb;
  long count = 1, size = 0;
  bool l = false, c = false;
  bool sized() const { return type == "string" || type == "carray"; }
};
struct View {
  std::string name;
  std::vector<Field> f;
};
struct File {
  std::string text;
  std::vector<std::string> lines;
  std::vector<View> views;
  std::vector<std::string> raw;
};
static const char *types[] = {"short", "int", "long", "float", "double", "char", "string", "carray"};

static std::string ident(G &g, size_t max) {
  std::string s(1, "abcxyzABCXYZ"[g.below(12)]);
  size_t n = g.below(max);
  for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[g.below(63)];
  return s;
}
static std::string delim(G &g) { return g.chance(1, 4) ? g.pick(std::vector<std::string>{"\t", "  ", " \t ", "\t\t"}) : " "; }
static std::string field_line(G &g, const Field &f) {
  std::string s = f.type + delim(g) + f.name + delim(g) + f.fb + delim(g) + std::to_string(f.count) + delim(g);
  std::string fl = f.l && f.c ? (g.flip() ? "LC" : "CL") : f.l ? "L" : f.c ? "C" : "-";
  s += fl + delim(g) + (f.size ? std::to_string(f.size) : "-") + delim(g);
  return s + g.pick(std::vector<std::string>{"-", "0", "'\\0'", "\"a b\"", "\"#\" - $", "-1.5", "NULL", "\"END\" "});
}
static void noise(G &g, File &f, int &serial) {
  while (g.chance(1, 6)) switch (g.below(4)) {
      case 0: f.lines.push_back("#" + g.pick(std::vector<std::string>{"", " comment", "END", " VIEW x", "$", " a \"b\" \\"})); break;
      case 1: f.lines.push_back(""); break;
      case 2: f.lines.push_back(g.flip() ? " " : "\t"); break;
      default: {
        std::string r = g.pick(std::vector<std::string>{"/* raw %d */", "#define RAW_%d 1", " /* VIEW # END $ %d */", "\t// last %d", "/* */ /* %d */ "});
        r = fmt(r.c_str(), serial++);
        f.raw.push_back(r);
        f.lines.push_back("$" + r);
      }
    }
}
static File gen(G &g, std::set<std::string> &tags) {
  static const std::set<std::string> reserved = {"auto", "asm", "int", "char", "do", "if", "END", "VIEW", "bool", "case", "break", "const", "cat", "xor", "and", "or", "not"};
  File f;
  int serial = 0;
  int nv = 1 + (g.chance(1, 3) ? g.below(4) : 0);
  for (int v = 0; v < nv; v++) {
    noise(g, f, serial);
    View w;
    w.name = ident(g, 20);
    if (reserved.count(w.name) || !tags.insert(w.name).second) w.name += fmt("_%zu", tags.size()), tags.insert(w.name);
    f.lines.push_back("VIEW" + delim(g) + w.name);
    std::set<std::string> used;
    int n = g.chance(1, 6) ? 10 + g.below(40) : 1 + g.below(8);
    for (int i = 0; i < n; i++) {
      noise(g, f, serial);
      Field x;
      x.type = types[g.below(8)];
      x.name = ident(g, 12);
      if (reserved.count(x.name)) x.name += "_";
      if (g.chance(1, 10)) x.name = g.pick(std::vector<std::string>{"VIEWX", "ENDED", "END_", "a_", "C_", "L_", "x0"});
      x.l = g.chance(1, 3);
      x.c = g.chance(1, 3);
      while (used.count(x.name) || used.count("L_" + x.name) || used.count("C_" + x.name)) x.name += fmt("%d", i);
      used.insert({x.name, "L_" + x.name, "C_" + x.name});
      x.count = g.chance(1, 3) ? 2 + g.below(300) : 1;
      if (x.sized() && g.chance(9, 10)) x.size = g.chance(1, 5) ? 1 : 1 + g.below(2000);
      x.fb = g.flip() ? "-" : ident(g, 10);
      w.f.push_back(x);
      f.lines.push_back(field_line(g, x));
    }
    noise(g, f, serial);
    f.lines.push_back("END");
    f.views.push_back(w);
  }
  noise(g, f, serial);
  for (auto &l : f.lines) f.text += l + "\n";
  if (g.chance(1, 8) && f.lines.back() == "END") f.text.pop_back();
  return f;
}
static std::string member_type(const Field &x) { return x.sized() ? "char" : x.type; }
static std::string dims(const Field &x) {
  std::string s;
  if (x.count > 1) s += fmt("[%ld]", x.count);
  if (x.size) s += fmt("[%ld]", x.size);
  return s;
}
// what a program that relies on the view needs
static std::string expectations(const View &v) {
  std::string s = "struct EXPECTED_" + v.name + " {\n", a;
  auto member = [&](const std::string &type, const std::string &name, const std::string &dim) {
    s += "  " + type + " " + name + dim + ";\n";
    a += fmt("_Static_assert(__builtin_types_compatible_p(__typeof__(((struct %s *)0)->%s), %s%s), \"type of %s.%s\");\n", v.name.c_str(), name.c_str(), type.c_str(), dim.c_str(),
             v.name.c_str(), name.c_str());
    a += fmt("_Static_assert(__builtin_offsetof(struct %s, %s) == __builtin_offsetof(struct EXPECTED_%s, %s), \"place of %s.%s\");\n", v.name.c_str(), name.c_str(),
             v.name.c_str(), name.c_str(), v.name.c_str(), name.c_str());
  };
  for (auto &x : v.f) {
    if (x.l) member("unsigned int", "L_" + x.name, x.count > 1 ? fmt("[%ld]", x.count) : "");
    if (x.c) member("int", "C_" + x.name, "");
    member(member_type(x), x.name, dims(x));
  }
  s += "};\n" + a;
  s += fmt("_Static_assert(sizeof(struct %s) == sizeof(struct EXPECTED_%s), \"size of %s\");\n", v.name.c_str(), v.name.c_str(), v.name.c_str());
  return s;
}
struct Case {
  std::string d;
  Case() {
    static int n = 0;
    d = g_scratch + fmt("/v%d.%d", getpid(), n++);
    proc::mkdirs(d + "/sub.dir/in");
    proc::mkdirs(d + "/out.d");
    proc::mkdirs(d + "/cwd");
  }
  ~Case() { proc::rmtree(d); }
  std::map<std::string, std::string> snap(const std::string &sub = "") {
    std::map<std::string, std::string> r;
    for (auto &n : proc::list(d + sub)) {
      struct stat st;
      if (stat((d + sub + "/" + n).c_str(), &st) != 0) continue;
      if (S_ISDIR(st.st_mode))
        for (auto &x : snap(sub + "/" + n)) r.insert(x);
      else
        r[sub + "/" + n] = proc::read_file(d + sub + "/" + n);
    }
    return r;
  }
};
// a place for the input and the name of the header made of it
struct Place {
  std::string arg, path, header;
};
static Place place(G &g, const std::string &d, std::set<std::string> &bases) {
  std::string base = g.pick(std::vector<std::string>{"app", "a.b", "valid-1", "x_y", "Q"});
  while (!bases.insert(base).second) base += "2";
  std::string ext = g.pick(std::vector<std::string>{".v", ".v32", ".view", ".h.v"});
  if (base.find('.') == std::string::npos && g.chance(1, 6)) ext = "";
  std::string file = base + ext;
  Place p;
  switch (g.below(4)) {
    case 0: p.path = d + "/cwd/" + file, p.arg = file; break;
    case 1: p.path = d + "/cwd/" + file, p.arg = "./" + file; break;
    case 2: p.path = d + "/sub.dir/in/" + file, p.arg = "../sub.dir/in/" + file; break;
    default: p.path = d + "/sub.dir/" + file, p.arg = p.path;
  }
  auto dot = file.find_last_of('.');
  p.header = file.substr(0, dot) + ".h";
  return p;
}
static void valid(G &g) {
  Case k;
  std::set<std::string> tags, bases;
  int n = g.chance(1, 4) ? 2 + g.below(2) : 1;
  std::vector<File> files;
  std::vector<Place> places;
  std::vector<std::string> argv = {tux() + "/bin/viewc32"};
  if (g.flip()) argv.push_back("-n");
  std::string out = k.d + "/cwd";
  switch (g.below(3)) {
    case 0: argv.insert(argv.end(), {"-d", "../out.d"}); out = k.d + "/out.d"; break;
    case 1: argv.insert(argv.end(), {"-d", k.d + "/out.d"}); out = k.d + "/out.d"; break;
  }
  for (int i = 0; i < n; i++) {
    files.push_back(gen(g, tags));
    places.push_back(place(g, k.d, bases));
    proc::write_file(places[i].path, files[i].text);
    argv.push_back(places[i].arg);
    g.log("%s:\n%s", places[i].arg.c_str(), show(files[i].text, 1500).c_str());
    if (g.chance(1, 4)) proc::write_file(out + "/" + places[i].header, "an older and longer header\n" + std::string(20000, '#'));
  }
  auto before = k.snap();
  auto r = proc::run(argv, "", 30, {}, k.d + "/cwd");
  PBT_ASSERT(r.status == 0, "viewc32 ended with status %d: %s", r.status, show(r.err, 200).c_str());
  auto after = k.snap();
  std::string c;
  std::map<std::string, int> made;
  for (int i = 0; i < n; i++) {
    std::string h = out.substr(k.d.size()) + "/" + places[i].header;
    PBT_ASSERT(after.count(h), "%s was not written", h.c_str());
    made[h] = 1;
    c += "#include \"" + k.d + h + "\"\n";
    for (auto &v : files[i].views) c += expectations(v);
    // raw lines as they are, in order
    size_t at = 0;
    for (auto &raw : files[i].raw) {
      size_t p = ("\n" + after[h]).find("\n" + raw + "\n", at);
      PBT_ASSERT(p != std::string::npos, "the line %s is not in the header, or not in order", show(raw).c_str());
      at = p + 1;
    }
    if (files[i].views.size() > 1) g.label("several views");
  }
  if (n > 1) g.label("several files");
  for (auto &a : after) PBT_ASSERT(made.count(a.first) || (before.count(a.first) && before[a.first] == a.second), "%s was written", a.first.c_str());
  proc::write_file(k.d + "/check.c", c + "int main(void) { return 0; }\n");
  auto cc = proc::run({"gcc", "-std=gnu11", "-fsyntax-only", k.d + "/check.c"}, "", 60);
  PBT_ASSERT(cc.status == 0, "a program cannot use the header: %s", show(cc.err, 600).c_str());
  size_t interesting = 0;
  for (auto &f : files)
    for (auto &v : f.views)
      for (auto &x : v.f) interesting += (x.l || x.c) + (x.count > 1) + (x.size > 0);
  g.nontrivial(interesting > 1);
}
static void invalid(G &g) {
  Case k;
  std::set<std::string> tags, bases;
  File f = gen(g, tags);
  // where the fields are
  std::vector<size_t> fl, vl, el;
  for (size_t i = 0; i < f.lines.size(); i++) {
    auto &l = f.lines[i];
    if (l.empty() || l[0] == '#' || l[0] == '$' || isspace((unsigned char)l[0])) continue;
    if (l == "END")
      el.push_back(i);
    else if (l.compare(0, 4, "VIEW") == 0 && isspace((unsigned char)l[4]))
      vl.push_back(i);
    else
      fl.push_back(i);
  }
  size_t li = fl[g.below(fl.size())];
  std::vector<std::string> w;
  std::istringstream is(f.lines[li]);
  for (std::string s; w.size() < 6 && is >> s;) w.push_back(s);
  auto put = [&] {
    std::string s;
    for (auto &x : w) s += x + " ";
    f.lines[li] = s + "-";
  };
  std::string what;
  int kind = g.below(16);
  switch (kind) {
    case 0: what = "no end", f.lines.resize(el.back()); break;
    case 1: what = "no view line", f.lines.erase(f.lines.begin() + vl[g.below(vl.size())]); break;
    case 2: what = "a view inside of a view", f.lines.insert(f.lines.begin() + li, "VIEW other"); break;
    case 3: {
      w.resize(1 + g.below(5));
      std::string s;
      for (auto &x : w) s += (s.empty() ? "" : " ") + x;
      f.lines[li] = s, what = fmt("%zu columns", w.size());
      break;
    }
    case 4: w[3] = g.pick(std::vector<std::string>{"x", "-", "-1", "", "CL", "'1'"}), what = "count " + w[3], put(); if (w[3].empty()) f.lines[li] = w[0] + " " + w[1] + " " + w[2]; break;
    case 5: w[4] = g.pick(std::vector<std::string>{"X", "CX", "c", "CLP", "NO"}), what = "flag " + w[4], put(); break;
    case 6: w[5] = g.pick(std::vector<std::string>{"x", "-1", "+3", "A5"}), w[0] = "string", what = "size " + w[5], put(); break;
    case 7: w[0] = types[g.below(6)], w[5] = "10", what = "size of " + w[0], put(); break;
    case 8: w[1] = g.pick(std::vector<std::string>{"1a", "-", "_x", "\"a\"", "*p"}), what = "name " + w[1], put(); break;
    case 9: w[2] = g.pick(std::vector<std::string>{"1a", "--", "_x", "\"a\""}), what = "fielded name " + w[2], put(); break;
    case 10: f.lines[vl[0]] = g.pick(std::vector<std::string>{"VIEW", "VIEW ", "VIEW 1a", "VIEW -", "VIEW a b", "VIEW a;"}), what = f.lines[vl[0]]; break;
    case 11: f.lines.insert(f.lines.begin() + li, g.pick(std::vector<std::string>{"*", "}", "1", "-", "\"", ";", "END x", "\x01"})), what = "a line that is none"; break;
    case 12: w[0] = g.pick(std::vector<std::string>{"foo", "string2", "SHORT", "struct", "unsigned", "strings"}), what = "type " + w[0], put(); break;
    case 13: w[3] = g.pick(std::vector<std::string>{"0", "00", "1.5", "2.", "99999999999999999999"}), what = "count " + w[3], put(); break;
    case 14: w[0] = "carray", w[5] = g.pick(std::vector<std::string>{"0", "1.5", "000", "99999999999999999999999"}), what = "size " + w[5], put(); break;
    default:
      what = "only comments";
      f.lines = {"# VIEW a", "$/* VIEW a */", "#END"};
      f.lines.resize(g.below(4));
  }
  f.text.clear();
  for (auto &l : f.lines) f.text += l + "\n";
  g.log("%s:\n%s", what.c_str(), show(f.text, 1500).c_str());
  Place p = place(g, k.d, bases);
  std::string out = k.d + "/out.d/" + p.header;
  std::string file = p.arg;
  proc::write_file(p.path, f.text);
  bool had = g.flip();
  if (had) proc::write_file(out, "an older header\n");
  std::vector<std::string> argv = {tux() + "/bin/viewc32", "-n", "-d", "../out.d", p.arg};
  auto before = k.snap();
  auto r = proc::run(argv, "", 30, {}, k.d + "/cwd");
  PBT_ASSERT(proc::refused(r), "%s: viewc32 ended with status %d", what.c_str(), r.status);
  PBT_ASSERT(!r.err.empty(), "%s: failed without a message", what.c_str());
  PBT_ASSERT(k.snap() == before, "%s: refused, but files have changed", what.c_str());
  g.nontrivial(had || kind > 3);
  g.label(fmt("kind %d", kind));
}
// damaged text: refused without a trace, or accepted
static void random_damage(G &g) {
  Case k;
  std::set<std::string> tags;
  std::string t = gen(g, tags).text;
  int n = 1 + g.below(4);
  for (int i = 0; i < n && !t.empty(); i++) {
    size_t p = g.below(t.size());
    switch (g.below(4)) {
      case 0: t.erase(p, 1 + g.below(10)); break;
      case 1: t.insert(p, g.bytes(1 + g.below(4))); break;
      case 2: t[p] = (char)g.below(256); break;
      default: t.resize(p);
    }
  }
  g.log("%s", show(t, 1500).c_str());
  proc::write_file(k.d + "/cwd/a.v", t);
  if (g.flip()) proc::write_file(k.d + "/cwd/a.h", "an older header\n");
  auto before = k.snap();
  auto r = proc::run({tux() + "/bin/viewc32", "a.v"}, "", 30, {}, k.d + "/cwd");
  if (r.status == 0) {
    auto after = k.snap();
    PBT_ASSERT(after.count("/cwd/a.h"), "accepted, but there is no header");
    PBT_ASSERT(after["/cwd/a.h"].find("struct ") != std::string::npos, "accepted, but the header has no structure");
    g.label("accepted");
  } else {
    PBT_ASSERT(proc::refused(r), "viewc32 ended with status %d", r.status);
    PBT_ASSERT(!r.err.empty(), "failed without a message");
    PBT_ASSERT(k.snap() == before, "refused, but files have changed");
    g.label("refused");
  }
  g.nontrivial();
}
int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "V01";
  c.rule =
      "valid: files with 1-4 views of all types, counts, sizes and flags, with comments and raw lines; the header is compiled with static assertions on every "
      "member. invalid: the same broken in one of 16 ways; random: random damage. Non-trivial: several members with counts, sizes or flags; something had been there.";
  c.subs = {{"valid", valid, 2400, 40000}, {"invalid", invalid, 1600, 20000}, {"random", random_damage, 1600, 20000}};
  return pbt::main(argc, argv, c);
}
