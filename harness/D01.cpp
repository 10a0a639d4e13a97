// D01: ud32 sends exactly the request its input describes.
#include "e2egen.hpp"
using namespace e2e;

static const FLDID32 SRV = (FLDID32)FLD_STRING << 24 | 90001;  // a number of its own: the name counts
struct Named {
  std::string name;
  FLDID32 id;
};
static std::vector<Named> g_names;
static const char *tnames[] = {"short", "long", "char", "float", "double", "string", "carray", "fml32"};
static const int ttypes[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, FLD_FML32};
static void prepare() {
  server_services = {{"UDA", plan<0>}, {"ud_service_b", plan<1>}, {"A.B-C", plan<2>}};
}
static void setup(int w) {
  enter(w, {"vsa"});
  std::string u = ubb_head(w, "BLOCKTIME 40\n") + "*GROUPS\nG1 GRPNO=1\n*SERVERS\nvsa SRVGRP=G1 SRVID=1\n";
  std::string home = getenv("HOME"), t = "SRVCNM 90001 string -\n";
  g_names.clear();
  for (int i = 0; i < 8; i++)
    for (int k = 1; k <= 4; k++) {
      std::string n = tnames[i];
      for (auto &c : n) c = toupper(c);
      n = (k == 3 ? "x" : "F") + n + (k == 2 ? "_2" : k == 4 ? "LONGNAME_OF_FIELD" : "");
      int num = k == 4 ? 60000 : 100 + k;
      g_names.push_back({n, (FLDID32)ttypes[i] << 24 | num});
      t += fmt("%s\t%d\t%s\t-\n", n.c_str(), num, tnames[i]);
    }
  proc::write_file(home + "/ud.fld", t);
  setenv("FLDTBLDIR32", home.c_str(), 1);
  setenv("FIELDTBLS32", "ud.fld", 1);
  load(u);
  boot();
}
static std::string name_of(FLDID32 id) {
  if (id == SRV) return "SRVCNM";
  for (auto &n : g_names)
    if (n.id == id) return n.name;
  abort();
}
static std::string data(G &g, int t) {
  std::string s;
  if (t == FLD_SHORT) {
    short v = g.chance(1, 5) ? g.pick(std::vector<int>{-32768, 32767, 0, -1}) : (int)g.range(-1000, 1000);
    s.assign((char *)&v, sizeof v);
  } else if (t == FLD_LONG) {
    long v = g.chance(1, 3) ? (long)g.u64() : (long)g.range(-100000, 100000);
    s.assign((char *)&v, sizeof v);
  } else if (t == FLD_CHAR)
    s = std::string(1, (char)g.below(256));
  else if (t == FLD_FLOAT) {
    float v = g.range(-8000, 8000) / 8.0f;
    s.assign((char *)&v, sizeof v);
  } else if (t == FLD_DOUBLE) {
    double v = g.range(-1600000, 1600000) / 16.0;
    s.assign((char *)&v, sizeof v);
  } else {
    size_t n = g.chance(1, 12) ? length(g) : g.below(30);
    if (n > 100000) n = 100000;
    s = n < 60 ? g.bytes(n) : contents(g, n, false);
    if (t == FLD_STRING) {
      for (auto &c : s)
        if (!c) c = '0';
      s += '\0';
    }
  }
  return s;
}
static std::vector<Val::F> fields(G &g, int depth, size_t n) {
  std::vector<Val::F> r;
  for (size_t i = 0; i < n; i++) {
    Val::F f;
    f.id = g.pick(g_names).id;
    if (Fldtype32(f.id) == FLD_FML32 && depth > 2) f.id = g_names[20].id;
    if (Fldtype32(f.id) == FLD_FML32) {
      Val v;
      v.type = "FML32";
      v.f = fields(g, depth + 1, g.below(4));
      f.v = v.pack();
    } else
      f.v = data(g, Fldtype32(f.id));
    r.push_back(f);
  }
  return r;
}
static void order(std::vector<Val::F> &f) {
  for (auto &x : f)
    if (Fldtype32(x.id) == FLD_FML32) {
      Val v = Val::unpack(x.v.data());
      order(v.f);
      x.v = v.pack();
    }
  std::stable_sort(f.begin(), f.end(), [](const Val::F &a, const Val::F &b) { return a.id < b.id; });
}
static Val buffer(std::vector<Val::F> f) {
  order(f);
  Val v;
  v.type = "FML32";
  v.f = f;
  return v;
}
// the input format, written by the check itself
static std::string escaped(G &g, const std::string &s, bool all_hex) {
  std::string o;
  for (unsigned char c : s)
    if (c == '\\' || c == '\n' || c == 0 || all_hex)
      o += fmt(all_hex ? "\\%02X" : "\\%02x", c);
    else
      o += c;
  return o;
}
static std::string text(G &g, const std::vector<Val::F> &f, int indent = 0) {
  std::string o;
  for (auto &x : f) {
    o += std::string(indent, '\t') + name_of(x.id) + "\t";
    switch (Fldtype32(x.id)) {
      case FLD_SHORT: o += fmt("%d", *(short *)x.v.data()); break;
      case FLD_LONG: o += fmt("%ld", *(long *)x.v.data()); break;
      case FLD_FLOAT: o += fmt("%.3f", *(float *)x.v.data()); break;
      case FLD_DOUBLE: o += fmt("%.6f", *(double *)x.v.data()); break;
      case FLD_CHAR:
      case FLD_CARRAY: o += escaped(g, x.v, g.chance(1, 6)); break;
      case FLD_STRING: o += escaped(g, x.v.substr(0, x.v.size() - 1), g.chance(1, 6)); break;
      default: o += "\n" + text(g, Val::unpack(x.v.data()).f, indent + 1);
    }
    if (Fldtype32(x.id) != FLD_FML32) o += "\n";
  }
  return o + "\n";
}
static std::vector<Val> printed(const std::string &out) {
  std::vector<Val> r;
  if (out.empty()) return r;
  FILE *f = fmemopen((void *)out.data(), out.size(), "r");
  std::vector<char> b(4 << 20);
  while (true) {
    int c = fgetc(f);
    if (c == EOF) break;
    ungetc(c, f);
    Finit32((FBFR32 *)b.data(), b.size());
    if (Fextread32((FBFR32 *)b.data(), f) == -1) {
      fclose(f);
      pbt::fail("what it printed does not describe buffers (%s): %s", Fstrerror32(Ferror32), pbt::show(out, 300).c_str());
    }
    Val v;
    v.type = "FML32";
    v.f = fields_of((FBFR32 *)b.data());
    r.push_back(v);
  }
  fclose(f);
  return r;
}

static proc::Result ud(const std::vector<std::string> &opts, const std::string &in) {
  std::vector<std::string> av = {"ud32"};
  av.insert(av.end(), opts.begin(), opts.end());
  return tool(av, 60, in);
}
static void put_plan(const Val &out, int rval, long rcode) {
  sh->nnodes = 1;
  Node &n = sh->nodes[0];
  n.end = RETURN;
  n.rval = rval;
  n.rcode = rcode;
  n.out = put(out);
}
static void requests(G &g) {
  reset();
  std::vector<Val::F> f = fields(g, 0, g.chance(1, 8) ? g.below(80) : g.below(9));
  std::string svc = g.pick(std::vector<std::string>{"UDA", "ud_service_b", "A.B-C"});
  bool unknown = g.chance(1, 10);
  if (unknown) svc = g.pick(std::vector<std::string>{"UD", "UDAA", "nothing", " UDA", "UDA ", "uda"});
  f.insert(f.begin() + g.below(f.size() + 1), {SRV, svc + std::string(1, '\0')});
  // only the first name counts
  if (g.chance(1, 8)) f.push_back({SRV, std::string("nobody") + std::string(1, '\0')});
  std::string in = text(g, f);
  if (g.chance(1, 6)) in += g.pick(std::vector<std::string>{"\n", "SRVCNM\tUDA\n\n", "garbage", "\n\n\n"});
  std::vector<std::string> opts;
  bool quiet = g.chance(1, 4), noreply = g.chance(1, 5), client = g.chance(1, 8);
  if (quiet) opts.push_back("-p");
  if (client) opts.insert(opts.end(), {"-U", "user", "-C", "client"});
  if (noreply) opts.push_back("-r");
  Val reply;
  switch (g.below(8)) {
    case 0: reply.type = "STRING", reply.bytes = contents(g, length(g), true); break;
    case 1: break;
    case 2: reply.type = "CARRAY", reply.bytes = contents(g, length(g), false); break;
    default: {
      size_t n = g.chance(1, 6) ? g.below(60) : g.below(6);
      reply = buffer(fields(g, 0, n));
    }
  }
  int rval = g.chance(1, 4) ? TPFAIL : TPSUCCESS;
  put_plan(reply, rval, g.below(100));
  Val want = buffer(f);
  std::string os;
  for (auto &o : opts) os += " " + o;
  g.log("ud32%s of %s; the reply is %s%s", os.c_str(), pbt::show(in, 1200).c_str(), rval == TPFAIL ? "a failure with " : "", reply.str().c_str());
  auto r = ud(opts, in);
  PBT_ASSERT(r.status >= 0 && r.status < 128 || proc::refused(r), "ud32 ended with status %d: %s", r.status, pbt::show(r.err, 200).c_str());
  Node &n = sh->nodes[0];
  if (unknown) {
    PBT_EQ((uint32_t)sh->next, 0u, "requests sent to services, without one of that name");
    PBT_ASSERT(!r.err.empty(), "failed without a message");
    g.label("unknown service");
  } else {
    PBT_ASSERT(r.status == 0, "ud32 ended with status %d: %s", r.status, pbt::show(r.err, 200).c_str());
    for (int i = 0; i < 4000 && !(sh->next >= 1 && n.got.off); i++) usleep(1000);
    PBT_EQ((uint32_t)sh->next, 1u, "requests received");
    PBT_EQ(std::string(n.svc), svc, "service");
    PBT_ASSERT(get(n.got) == want, "the service received %s instead of %s", get(n.got).str().c_str(), want.str().c_str());
    PBT_ASSERT(!(n.flags & TPTRAN), "sent in a transaction");
    if (rval == TPFAIL && !noreply) PBT_ASSERT(!r.err.empty(), "the failure was not reported");
    if ((rval != TPFAIL && reply.type == "FML32") || noreply) PBT_ASSERT(r.err.empty(), "message after success: %s", pbt::show(r.err, 200).c_str());
  }
  if (quiet)
    PBT_ASSERT(r.out.empty(), "printed with -p: %s", pbt::show(r.out, 200).c_str());
  else {
    auto p = printed(r.out);
    PBT_ASSERT(p.size() >= 1 && p[0] == want, "the request was printed as %s instead of %s", p.empty() ? "nothing" : p[0].str().c_str(), want.str().c_str());
    if (!unknown && !noreply && reply.type == "FML32") {
      PBT_EQ(p.size(), (size_t)2, "buffers printed");
      PBT_ASSERT(p[1] == reply, "the reply was printed as %s instead of %s", p[1].str().c_str(), reply.str().c_str());
      g.label("reply printed");
    } else {
      // no fields to print: the request may be there once more
      PBT_ASSERT(p.size() == 1 || (p.size() == 2 && p[1] == want), "%zu buffers printed", p.size());
    }
  }
  bool nested = false;
  for (auto &x : f) nested |= Fldtype32(x.id) == FLD_FML32;
  if (nested) g.label("nested");
  if (noreply) g.label("no reply");
  g.nontrivial(f.size() > 2);
}
static void malformed(G &g) {
  reset();
  std::vector<Val::F> f = fields(g, 0, 1 + g.below(5));
  f.insert(f.begin() + g.below(f.size() + 1), {SRV, std::string("UDA") + std::string(1, '\0')});
  std::string in = text(g, f);
  std::vector<size_t> top;  // where lines of the outer buffer begin
  for (size_t p = 0; p + 1 < in.size(); p = in.find('\n', p) + 1)
    if (in[p] != '\t' && in[p] != '\n') top.push_back(p);
  size_t at = g.pick(top);
  int kind = g.below(11);
  std::vector<std::string> opts;
  switch (kind) {
    case 0: in = text(g, {f.begin(), f.begin() + g.below(1)}); break;  // no fields at all
    case 1: in = g.flip() ? "" : "\n"; break;
    case 2: {  // no service
      for (size_t i = 0; i < f.size();)
        if (f[i].id == SRV)
          f.erase(f.begin() + i);
        else
          i++;
      in = text(g, f);
      break;
    }
    case 3: in.pop_back(); break;                                         // not terminated
    case 4: in.resize(in.size() - 2); break;                              // nor is the last line
    case 5: in.insert(at, g.pick(std::vector<std::string>{"UNKNOWN_FIELD\t1\n", "x\ty\n", "SRVCNM2\tUDA\n"})); break;
    case 6: in.insert(at, g.pick(std::vector<std::string>{"FLONG 1\n", "FLONG\n", "FSTRING: x\n"})); break;  // no tab
    case 7: in.insert(at, g.pick(std::vector<std::string>{"1FIELD\t1\n", "_x\t1\n", "\tFLONG\t1\n", " FLONG\t1\n", "*\n"})); break;
    case 8: in.insert(at, "FSTRING\t\\" + g.pick(std::vector<std::string>{"1", "ag", "0 ", "f"}) + "\n"); break;
    case 9: in.insert(at, g.pick(std::vector<std::string>{"FFML32\t\nFLONG\t1\n\n", "FFML32\t\n\tFFML32\t\n\tFLONG\t1\n\n\n"})); break;  // not indented
    case 10: opts = {g.pick(std::vector<std::string>{"-x", "--nothing", "-tx"})}; break;
  }
  if (kind != 10 && g.chance(1, 4)) opts = {"-p"};
  Val reply;
  put_plan(reply, TPSUCCESS, 0);
  g.log("kind %d: ud32 of %s", kind, pbt::show(in, 1200).c_str());
  auto r = ud(opts, in);
  PBT_ASSERT(proc::refused(r), "ud32 ended with status %d", r.status);
  PBT_ASSERT(!r.err.empty(), "failed without a message");
  usleep(kind % 2 ? 0 : 1000);
  PBT_EQ((uint32_t)sh->next, 0u, "requests sent");
  g.label(fmt("kind %d", kind));
  g.nontrivial(f.size() > 2);
}
// it cannot be done inside of a transaction: not done at all
static void transactions(G &g) {
  reset();
  std::vector<Val::F> f = fields(g, 0, g.below(4));
  f.insert(f.begin() + g.below(f.size() + 1), {SRV, std::string("UDA") + std::string(1, '\0')});
  Val reply;
  put_plan(reply, TPSUCCESS, 0);
  std::string in = text(g, f);
  std::vector<std::string> opts = {"-t", fmt("%d", 1 + (int)g.below(60))};
  if (g.flip()) opts.push_back("-p");
  g.log("ud32 %s %s of %s", opts[0].c_str(), opts[1].c_str(), pbt::show(in, 600).c_str());
  auto r = ud(opts, in);
  if (sh->next) {
    Node &n = sh->nodes[0];
    PBT_EQ((uint32_t)sh->next, 1u, "requests received");
    PBT_ASSERT(n.flags & TPTRAN, "the request was not sent in a transaction");
  } else {
    PBT_ASSERT(proc::refused(r), "ud32 sent nothing and ended with status %d", r.status);
    PBT_ASSERT(!r.err.empty(), "failed without a message");
  }
  g.nontrivial(f.size() > 1);
}
int main(int argc, char **argv) {
  if (is_server(argv[0])) return server_main(argc, argv, prepare);
  pbt::Check c;
  c.id = "D01";
  c.rule =
      "requests: generated buffers, written down by the check, given to ud32 in a real domain with a recording service that replies as planned; malformed: input "
      "broken in one of 11 ways; transactions: with -t. Non-trivial: more than two fields.";
  c.subs = {{"requests", requests, 4000, 80000, 250}, {"malformed", malformed, 1600, 30000, 200}, {"transactions", transactions, 300, 4000, 100}};
  c.setup = setup;
  common(c, 64480);
  return pbt::main(argc, argv, c);
}
