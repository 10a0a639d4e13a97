// userlog: every call appends one complete line
#include <sys/resource.h>
#include <sys/utsname.h>
#include <time.h>
#include <userlog.h>
#include <thread>
#include <sys/time.h>
#include <atomic>
#include "proc.hpp"
using namespace pbt;

static std::string node() {
  struct utsname u;
  uname(&u);
  return u.nodename;
}
// seconds of the day, local time
static std::string suffix(time_t t) {
  struct tm tm;
  localtime_r(&t, &tm);
  char b[32];
  strftime(b, sizeof b, ".%m%d%y", &tm);
  return b;
}
static int secs(time_t t) {
  struct tm tm;
  localtime_r(&t, &tm);
  return tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec;
}
struct Head {
  int time = -1, ms = -1;
  std::string node, prog;
  long pid = -1;
  size_t len = 0;
};
// HHMMSS[.mmm].node:prog.pid: -- the program name is known, so that the header is read without guessing
static bool parse(const std::string &l, size_t at, const std::string &prog, bool millisec, Head &h) {
  auto dig = [&](size_t p, size_t n) {
    for (size_t i = p; i < p + n; i++)
      if (i >= l.size() || !isdigit((unsigned char)l[i])) return false;
    return true;
  };
  size_t p = at;
  if (!dig(p, 6)) return false;
  int hh = atoi(l.substr(p, 2).c_str()), mm = atoi(l.substr(p + 2, 2).c_str()), ss = atoi(l.substr(p + 4, 2).c_str());
  if (hh > 23 || mm > 59 || ss > 60) return false;
  h.time = hh * 3600 + mm * 60 + ss;
  p += 6;
  if (millisec) {
    if (p >= l.size() || l[p] != '.' || !dig(p + 1, 3)) return false;
    h.ms = atoi(l.substr(p + 1, 3).c_str());
    p += 4;
  }
  std::string want = "." + node() + ":" + prog + ".";
  if (l.compare(p, want.size(), want) != 0) return false;
  p += want.size();
  size_t q = p;
  while (q < l.size() && isdigit((unsigned char)l[q])) q++;
  if (q == p || q - p > 9) return false;
  h.pid = atol(l.substr(p, q - p).c_str());
  if (l.compare(q, 2, ": ") != 0) return false;
  h.len = q + 2 - at;
  return true;
}

// a format with the arguments in registers and on the stack: all integers and pointers first, then doubles
struct Format {
  std::string fmt, want;
  long l[10] = {};
  double d[4] = {};
  int nl = 0, nd = 0;
  std::vector<std::unique_ptr<std::string>> keep;
};
static std::string text(G &g, size_t max, bool nl) {
  size_t n = g.size(max);
  if (g.chance(1, 12)) n = g.pick(std::vector<size_t>{8191, 8192, 8193, 4095, 4096, 16384, 65536, 200000, 1 << 20}) + g.below(3);
  if (n > 3000) {
    // long ones are cheap to describe
    std::string u = g.bytes(1 + g.below(9)), s;
    for (auto &c : u)
      if (!c || (!nl && c == '\n')) c = 'x';
    while (s.size() < n) s += u;
    s.resize(n);
    return s;
  }
  std::string s = g.flip() ? g.bytes(n) : std::string(n, 'a' + g.below(26));
  for (auto &c : s)
    if (!c || (!nl && c == '\n')) c = '.';
  return s;
}
static void gen(G &g, Format &f, bool nl) {
  int parts = g.below(7);
  char b[700];
  std::string flags[] = {"", "-", "0", "+", " ", "#"};
  if (g.chance(1, 30)) return;  // an empty message
  for (int i = 0; i <= parts; i++) {
    switch (g.below(8)) {
      case 0: {
        auto s = text(g, 60, nl);
        f.want += s;
        for (char c : s) f.fmt += c == '%' ? std::string("%%") : std::string(1, c);
        break;
      }
      case 1: {
        if (f.nl == 10) break;
        std::string sp = "%" + g.pick(std::vector<std::string>{"", "-", "0", "+", " "}) + (g.flip() ? std::to_string(1 + g.below(40)) : "") + "d";
        int v = (int)g.u64();
        snprintf(b, sizeof b, sp.c_str(), v);
        f.fmt += sp, f.want += b, f.l[f.nl++] = v;
        break;
      }
      case 2: {
        if (f.nl == 10) break;
        std::string sp = g.pick(std::vector<std::string>{"%ld", "%lx", "%#lo", "%lu", "%20ld", "%-25lu", "%.12ld"});
        long v = (long)g.u64();
        snprintf(b, sizeof b, sp.c_str(), v);
        f.fmt += sp, f.want += b, f.l[f.nl++] = v;
        break;
      }
      case 3:
      case 4: {
        if (f.nl == 10) break;
        f.keep.push_back(std::make_unique<std::string>(text(g, 3000, nl)));
        auto &s = *f.keep.back();
        f.l[f.nl++] = (long)s.c_str();
        if (g.flip())
          f.fmt += "%s", f.want += s;
        else if (g.flip()) {
          size_t w = 1 + g.below(300);
          f.fmt += pbt::fmt("%%%zus", w), f.want += (s.size() < w ? std::string(w - s.size(), ' ') : "") + s;
        } else {
          size_t w = g.below(300);
          f.fmt += pbt::fmt("%%.%zus", w), f.want += s.substr(0, w);
        }
        break;
      }
      case 5: {
        if (f.nl == 10) break;
        char c = 1 + g.below(255);
        if (c == '\n' && !nl) c = 'n';
        f.fmt += "%c", f.want += c, f.l[f.nl++] = c;
        break;
      }
      case 6:
        f.fmt += "%%", f.want += "%";
        break;
      default: {
        if (f.nd == 4) break;
        std::string sp = g.pick(std::vector<std::string>{"%f", "%.3f", "%g", "%e", "%20.5f"});
        double v = (double)g.range(-1000000, 1000000) / 64;
        snprintf(b, sizeof b, sp.c_str(), v);
        f.fmt += sp, f.want += b, f.d[f.nd++] = v;
      }
    }
  }
}
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat"
static int call(const Format &f) {
  auto &l = f.l;
  auto &d = f.d;
  return userlog(f.fmt.c_str(), l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], d[0], d[1], d[2], d[3]);
}
static int open_fds() {
  int n = 0;
  for (int i = 0; i < 200; i++) n += fcntl(i, F_GETFD) != -1;
  return n;
}
struct Case {
  std::string d;
  Case() {
    static int n = 0;
    d = g_scratch + fmt("/u%d.%d", getpid(), n++);
    mkdir(d.c_str(), 0700);
  }
  ~Case() {
    chdir(g_scratch.c_str());
    proc::rmtree(d);
  }
  std::map<std::string, std::string> snap(const std::string &sub = "") {
    std::map<std::string, std::string> r;
    for (auto &n : proc::list(d + sub)) {
      struct stat st;
      if (stat((d + sub + "/" + n).c_str(), &st) != 0) continue;
      if (S_ISDIR(st.st_mode)) {
        r[sub + "/" + n + "/"] = "";
        for (auto &x : snap(sub + "/" + n)) r.insert(x);
      } else
        r[sub + "/" + n] = proc::read_file(d + sub + "/" + n);
    }
    return r;
  }
};

// one process and thread: any message, any selected file
static void lines(G &g) {
  Case k;
  if (chdir(k.d.c_str()) != 0) fail("cannot enter %s", k.d.c_str());
  mkdir((k.d + "/logs").c_str(), 0700);
  std::vector<std::unique_ptr<std::string>> names;
  char *saved = proc_name;
  struct Restore {
    char *p;
    ~Restore() {
      proc_name = p;
      unsetenv("ULOGPFX");
      unsetenv("ULOGMILLISEC");
    }
  } restore{saved};
  // something is there already
  if (g.flip()) proc::write_file(k.d + "/ULOG" + suffix(time(nullptr)), g.flip() ? text(g, 200, true) : "earlier line\n");
  if (g.chance(1, 4)) proc::write_file(k.d + "/logs/app" + suffix(time(nullptr)), text(g, 200, true));
  int n = 1 + g.below(8);
  bool big = false;
  for (int i = 0; i < n; i++) {
    auto before = k.snap();
    std::string pfx = g.pick(std::vector<std::string>{"", "ULOG", "logs/app", k.d + "/logs/app", k.d + "/abs", "logs/a b", "other", "logs/%s%n", "logs/app.1"});
    if (pfx.empty())
      unsetenv("ULOGPFX");
    else
      setenv("ULOGPFX", pfx.c_str(), 1);
    if (pfx.empty()) pfx = "ULOG";
    bool ms = g.flip();
    if (ms)
      setenv("ULOGMILLISEC", "y", 1);
    else if (g.flip())
      setenv("ULOGMILLISEC", "n", 1);
    else
      unsetenv("ULOGMILLISEC");
    if (g.chance(1, 4)) {
      names.push_back(std::make_unique<std::string>(g.pick(std::vector<std::string>{"prog", "a.b", "x y", "p%d%s", "-", std::string(200, 'p')})));
      proc_name = (char *)names.back()->c_str();
    }
    std::string prog = proc_name;
    Format f;
    gen(g, f, true);
    g.log("userlog to %s%s, program %s: %s, %zu bytes", pfx.c_str(), ms ? " with milliseconds" : "", show(prog, 20).c_str(), show(f.fmt, 60).c_str(), f.want.size());
    int fds = open_fds();
    bool child = g.chance(1, 8);
    long pid = getpid();
    struct timeval t0, t1;
    gettimeofday(&t0, nullptr);
    if (child) {
      pid_t p = fork();
      if (p == 0) _exit(call(f) == 0 ? 0 : 1);
      int st;
      pid = p;
      waitpid(p, &st, 0);
      PBT_ASSERT(WIFEXITED(st) && WEXITSTATUS(st) == 0, "in a child process: status %x", st);
      g.label("forked");
    } else {
      PBT_EQ(call(f), 0, "userlog");
    }
    gettimeofday(&t1, nullptr);
    PBT_EQ(open_fds(), fds, "descriptors open after the call");
    auto after = k.snap();
    std::string full = pfx[0] == '/' ? pfx.substr(k.d.size()) : "/" + pfx;
    std::string file = full + suffix(t0.tv_sec);
    if (suffix(t1.tv_sec) != suffix(t0.tv_sec) && !after.count(file)) file = full + suffix(t1.tv_sec);
    for (auto &b : before)
      if (b.first != file) PBT_ASSERT(after.count(b.first) && after[b.first] == b.second, "%s was changed", b.first.c_str());
    for (auto &a : after) PBT_ASSERT(a.first == file || before.count(a.first), "%s was created", a.first.c_str());
    PBT_ASSERT(after.count(file), "%s was not created", file.c_str());
    std::string &old = before[file], &now = after[file];
    PBT_ASSERT(now.compare(0, old.size(), old) == 0, "what was in the log has changed");
    Head h;
    PBT_ASSERT(parse(now, old.size(), prog, ms, h), "not a header: %s", show(now.substr(old.size()), 120).c_str());
    PBT_EQ(h.pid, pid, "process in the header");
    int a = secs(t0.tv_sec), b = secs(t1.tv_sec);
    PBT_ASSERT(a <= b ? h.time >= a && h.time <= b : h.time >= a || h.time <= b, "time %d in the header, called between %d and %d", h.time, a, b);
    if (ms && t0.tv_sec == t1.tv_sec) PBT_ASSERT(h.ms >= t0.tv_usec / 1000 && h.ms <= t1.tv_usec / 1000, "%d milliseconds, called between %ld and %ld", h.ms, (long)t0.tv_usec, (long)t1.tv_usec);
    std::string got = now.substr(old.size() + h.len);
    PBT_ASSERT(got == f.want + "\n", "%zu bytes logged as %zu: %s", f.want.size() + 1, got.size(), show(got, 100).c_str());
    if (f.want.size() > 8000) g.label("longer than a buffer");
    big = true;
  }
  if (n > 1 && big) g.nontrivial();
}

// it cannot be written: an error, and nothing else
static void refused(G &g) {
  Case k;
  if (chdir(k.d.c_str()) != 0) fail("cannot enter %s", k.d.c_str());
  std::string sfx = suffix(time(nullptr));
  int kind = g.below(4);
  std::string pfx, old = "before\n";
  if (kind == 0) pfx = k.d + "/nowhere/ULOG";
  if (kind == 1) {
    pfx = k.d + "/dir";
    mkdir((pfx + sfx).c_str(), 0700);
  }
  if (kind == 2) pfx = k.d + "/" + std::string(256 + g.below(6000), 'x') + "ULOG";
  if (kind == 3) {
    pfx = k.d + "/full";
    proc::write_file(pfx + sfx, old);
  }
  auto before = k.snap();
  Format f;
  gen(g, f, true);
  int fds = open_fds();
  int n = 1 + g.below(3);
  for (int i = 0; i < n; i++) {
    g.log("userlog to %s: %zu bytes", show(pfx, 60).c_str(), f.want.size());
    pid_t p = fork();
    if (p == 0) {
      setenv("ULOGPFX", pfx.c_str(), 1);
      if (kind == 3) {
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit r = {old.size(), old.size()};
        setrlimit(RLIMIT_FSIZE, &r);
      }
      int rc = call(f);
      _exit(rc == -1 ? (open_fds() == fds ? 0 : 2) : 3);
    }
    int st;
    waitpid(p, &st, 0);
    PBT_ASSERT(WIFEXITED(st), "ended by signal %d", WTERMSIG(st));
    PBT_ASSERT(WEXITSTATUS(st) != 2, "a descriptor stays open after a failure");
    PBT_ASSERT(WEXITSTATUS(st) == 0, "userlog did not fail (%d)", WEXITSTATUS(st));
    auto after = k.snap();
    if (suffix(time(nullptr)) == sfx) PBT_ASSERT(before == after, "files have changed");
  }
  g.nontrivial();
  g.label(fmt("kind %d", kind));
}

// processes and threads at the same time, in one or two files
static void concurrent(G &g) {
  Case k;
  if (chdir(k.d.c_str()) != 0) fail("cannot enter %s", k.d.c_str());
  int np = 1 + g.below(4), nt = 1 + g.below(4), n = 2 + g.below(25);
  std::vector<std::string> pfx = {k.d + "/one", k.d + "/two"};
  std::vector<int> where(np);
  std::vector<size_t> len(np * nt);
  std::vector<bool> ms(np);
  for (int p = 0; p < np; p++) where[p] = g.chance(1, 4), ms[p] = g.flip();
  for (auto &l : len) l = g.size(300) + (g.chance(1, 4) ? 4000 + g.below(20000) : 0);
  bool existing = g.flip();
  std::string old = existing ? "earlier\n" : "";
  std::string sfx = suffix(time(nullptr));
  if (existing) proc::write_file(pfx[0] + sfx, old);
  g.log("%d processes with %d threads, %d messages each", np, nt, n);
  for (int p = 0; p < np; p++) g.log("process %d writes to %s%s", p, where[p] ? "two" : "one", ms[p] ? ", milliseconds" : "");
  int gate[2];
  if (pipe(gate) != 0) fail("pipe");
  std::vector<pid_t> pids;
  auto msg = [&](int p, int t, int i) {
    size_t m = (len[p * nt + t] * (i % 3 + 1)) / 3;
    std::string s;
    while (s.size() < m) s += fmt("<%d/%d/%d>", p, t, i);
    s.resize(m);
    return fmt("%d %d %d ", p, t, i) + s;
  };
  for (int p = 0; p < np; p++) {
    pid_t c = fork();
    if (c == 0) {
      setenv("ULOGPFX", pfx[where[p]].c_str(), 1);
      setenv("ULOGMILLISEC", ms[p] ? "y" : "n", 1);
      char ch;
      close(gate[1]);
      read(gate[0], &ch, 1);
      std::atomic<int> ready{0};
      std::atomic<int> bad{0};
      std::vector<std::thread> v;
      for (int t = 0; t < nt; t++)
        v.emplace_back([&, t] {
          std::vector<std::string> m;
          for (int i = 0; i < n; i++) m.push_back(msg(p, t, i));
          ready++;
          while (ready < nt) std::this_thread::yield();
          for (auto &s : m)
            if (userlog("%s", s.c_str()) != 0) bad++;
        });
      for (auto &t : v) t.join();
      _exit(bad ? 1 : 0);
    }
    pids.push_back(c);
  }
  close(gate[0]);
  close(gate[1]);
  std::string why;
  for (int p = 0; p < np; p++) {
    int st;
    waitpid(pids[p], &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) why = fmt("process %d ended with status %x", p, st);
  }
  PBT_ASSERT(why.empty(), "%s", why.c_str());
  std::map<std::vector<int>, int> seen;
  std::vector<std::vector<int>> next(np, std::vector<int>(nt, 0));
  std::string prog = proc_name;
  for (int w = 0; w < 2; w++) {
    std::string all;
    for (auto &f : proc::list(k.d))
      if (f.compare(0, 3, w ? "two" : "one") == 0) all += proc::read_file(k.d + "/" + f);
    if (!w) {
      PBT_ASSERT(all.compare(0, old.size(), old) == 0, "what was in the log has changed");
      all.erase(0, old.size());
    }
    for (size_t at = 0; at < all.size();) {
      size_t e = all.find('\n', at);
      PBT_ASSERT(e != std::string::npos, "the last line is not complete");
      std::string l = all.substr(at, e - at);
      at = e + 1;
      Head h;
      bool is_ms = l.size() > 6 && l[6] == '.' && parse(l, 0, prog, true, h);
      PBT_ASSERT(is_ms || parse(l, 0, prog, false, h), "not a line: %s", show(l, 120).c_str());
      int p = -1, t = -1, i = -1;
      std::string m = l.substr(h.len);
      PBT_ASSERT(sscanf(m.c_str(), "%d %d %d ", &p, &t, &i) == 3 && p >= 0 && p < np && t >= 0 && t < nt, "not a message: %s", show(m, 100).c_str());
      PBT_EQ(h.pid, (long)pids[p], "process in the header");
      PBT_EQ(where[p], w, "file");
      PBT_EQ((bool)ms[p], is_ms, "milliseconds");
      PBT_EQ(i, next[p][t], fmt("message of process %d thread %d", p, t));
      next[p][t]++;
      PBT_ASSERT(m == msg(p, t, i), "message %d of process %d thread %d is broken: %s", i, p, t, show(m, 200).c_str());
    }
  }
  for (int p = 0; p < np; p++)
    for (int t = 0; t < nt; t++) PBT_EQ(next[p][t], n, fmt("messages of process %d thread %d", p, t));
  if (np * nt > 1) g.nontrivial();
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "U01";
  c.rule =
      "lines: formats, lengths, files and program names in one process or a child of it; refused: files that cannot be opened or written; concurrent: processes "
      "and threads writing to shared files at once. Non-trivial: several messages, a refused call, more than one writer.";
  c.subs = {{"lines", lines, 6000, 45000}, {"refused", refused, 1500, 9000}, {"concurrent", concurrent, 1500, 11000}};
  c.repro_n = 4;
  c.repro_need = 1;
  return pbt::main(argc, argv, c);
}
