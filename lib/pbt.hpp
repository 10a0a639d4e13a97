// Small property-based testing engine: choice-sequence generators, forked
// workers (crash and hang containment), integrated shrinking, replay files.
//
// A case is a pure function of its choice sequence.  During generation the
// choices come from a PRNG seeded by (VERIF_SEED, sub-check, case number); in
// replay and shrinking they come from a list.  Smaller choices mean simpler
// cases, a list that is too short continues with zeros.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char *p = nullptr;
  int n = vasprintf(&p, f, ap);
  va_end(ap);
  std::string s(p, n < 0 ? 0 : n);
  free(p);
  return s;
}

inline std::string show(const std::string &s, size_t max = 60) {
  std::string out = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\')
      out += std::string("\\") + char(c);
    else if (c >= 32 && c < 127)
      out += char(c);
    else
      out += fmt("\\x%02x", c);
  }
  out += "\"";
  if (s.size() > max) out += fmt("...(%zu bytes)", s.size());
  return out;
}

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ull) {
  return hash64(s.data(), s.size(), h);
}

static const size_t MAXCHOICES = 1 << 17;

struct Slot {  // shared memory, one per worker
  volatile double started;
  volatile uint64_t index;
  volatile uint32_t n;
  volatile uint32_t running;
  volatile uint32_t tn;
  char t[16384];  // the case so far, for when the process dies
  uint64_t c[MAXCHOICES];
};

struct Fail {
  std::string msg;
};
struct Discard {};

class G {
 public:
  G(uint64_t seed, Slot *slot) : rng_(seed), slot_(slot), replay_(nullptr) {
    if (slot_) slot_->n = 0, slot_->tn = 0;
  }
  G(const std::vector<uint64_t> *r, Slot *slot) : rng_(0), slot_(slot), replay_(r) {
    if (slot_) slot_->n = 0, slot_->tn = 0;
  }

  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v >= n) v = n - 1;
    } else if (pos_ >= MAXCHOICES) {
      v = 0;
    } else {
      // rejection-free scaling; bias is irrelevant here
      v = (uint64_t)(((unsigned __int128)splitmix(rng_) * n) >> 64);
    }
    pos_++;
    if (slot_ && slot_->n < MAXCHOICES) {
      slot_->c[slot_->n] = v;
      slot_->n = slot_->n + 1;
    }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  uint64_t u64() {
    uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
    return hi << 32 | lo;
  }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool flip() { return below(2); }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <class T, size_t N>
  const T &pick(const T (&v)[N]) {
    return v[below(N)];
  }
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for (auto x : w) total += x;
    uint64_t r = below(total);
    size_t i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
  // sizes: mostly small, sometimes up to max, with emphasis on boundaries
  size_t size(size_t max) {
    switch (weighted({6, 3, 1})) {
      case 0: return below(std::min<size_t>(max, 8) + 1);
      case 1: return below(std::min<size_t>(max, 64) + 1);
      default: return below(max + 1);
    }
  }
  std::string bytes(size_t n) {
    std::string s(n, 0);
    // long data: one seed choice, expanded deterministically
    if (n > 64) {
      uint64_t x = below(1ull << 32);
      for (auto &c : s) c = (char)(splitmix(x) & 0xff);
    } else {
      for (auto &c : s) c = (char)below(256);
    }
    return s;
  }
  // text without NUL over the whole byte range / printable only
  std::string text(size_t n, bool printable) {
    std::string s = bytes(n);
    for (auto &c : s) {
      unsigned char u = c;
      if (printable)
        c = (char)(32 + u % 95);
      else if (u == 0)
        c = 'a';
    }
    return s;
  }

  void log(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    if (trace.size() > 20000) return;
    va_list ap;
    va_start(ap, f);
    char *p = nullptr;
    int n = vasprintf(&p, f, ap);
    va_end(ap);
    if (n > 0) trace.append(p, n);
    trace += '\n';
    if (slot_ && n > 0 && slot_->tn + n + 1 < sizeof(slot_->t)) {
      memcpy(slot_->t + slot_->tn, p, n);
      slot_->t[slot_->tn + n] = '\n';
      slot_->tn = slot_->tn + n + 1;
    }
    free(p);
    if (echo) fprintf(stderr, "| %s\n", trace.c_str() + trace.rfind('\n', trace.size() - 2) + 1);
  }
  void label(const std::string &l) { labels.insert(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }

  std::string trace;
  std::set<std::string> labels;
  bool nontriv = false;
  bool echo = false;
  uint64_t pos_ = 0;
  int worker = 0;

 private:
  uint64_t rng_;
  Slot *slot_;
  const std::vector<uint64_t> *replay_;
};

[[noreturn]] inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char *p = nullptr;
  int n = vasprintf(&p, f, ap);
  va_end(ap);
  std::string s(p, n < 0 ? 0 : n);
  free(p);
  throw Fail{s};
}
#define PBT_ASSERT(cond, ...)                       \
  do {                                              \
    if (!(cond)) pbt::fail("" __VA_ARGS__);         \
  } while (0)
#define PBT_EQ(a, b, what)                                                                  \
  do {                                                                                      \
    auto _va = (a);                                                                         \
    auto _vb = (b);                                                                         \
    if (!(_va == _vb))                                                                      \
      pbt::fail("%s: got %s, expected %s", std::string(what).c_str(),                       \
                pbt::str(_va).c_str(), pbt::str(_vb).c_str());                              \
  } while (0)
inline std::string str(const std::string &s) { return show(s); }
inline std::string str(const char *s) { return s ? show(s) : "NULL"; }
template <class T>
std::string str(const T &v) {
  std::ostringstream o;
  o << v;
  return o.str();
}

struct Sub {
  std::string name;
  std::function<void(G &)> fn;
  uint64_t quick, thorough;
  int batch = 0;  // cases per forked process (0: automatic)
};

struct Finding {  // genuine defect recorded instead of repaired
  std::string key;
  std::string what;
  std::function<void(G &)> fn;  // fails while the defect is present
};

struct Check {
  std::string id;
  std::string rule;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
  std::vector<Finding> findings;
  std::function<void(int worker)> setup;     // in each forked batch process
  std::function<void(int worker)> teardown;
  std::function<void(int worker, bool)> cleanup;  // in the coordinator after a batch process died
  std::function<void()> global_setup, global_teardown;
  std::function<void(std::ostream &)> extra;  // more coverage fields (", \"k\": v")
  double hang_s = 30;
  double budget_quick = 240, budget_thorough = 2400;  // safety cap on wall time
  int workers = 8;
  int repro_n = 3, repro_need = 3;
  double shrink_s = 45;
  size_t stack_mb = 0;
  bool fds = false;  // a case must not leave files open
};

struct Outcome {
  int status = 0;  // 0 ok, 1 fail, 2 discard
  std::string msg, trace;
  std::vector<uint64_t> choices;
};

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o + "\"";
}

class Runner {
 public:
  Runner(Check &c) : chk(c) {}
  Check &chk;
  uint64_t seed = 1;
  bool thorough = false;
  std::string scratch, outdir, evidence, known;
  std::vector<Slot *> slots;

  // statistics
  uint64_t evaluations = 0, discards = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels, per_sub;
  std::vector<std::string> samples;

  static void wr(FILE *f, const std::string &s) {
    uint64_t n = s.size();
    fwrite(&n, 8, 1, f);
    fwrite(s.data(), 1, n, f);
  }
  static bool rd(FILE *f, std::string &s) {
    uint64_t n;
    if (fread(&n, 8, 1, f) != 1) return false;
    s.resize(n);
    return n == 0 || fread(&s[0], 1, n, f) == n;
  }
  static void wi(FILE *f, uint64_t v) { fwrite(&v, 8, 1, f); }
  static bool ri(FILE *f, uint64_t &v) { return fread(&v, 8, 1, f) == 1; }

  static int open_fds() {
    int n = 0;
    struct stat st;
    for (int i = 0; i < 256; i++) n += fstat(i, &st) == 0;
    return n;
  }
  Outcome exec(const Sub &sub, G &g) {
    Outcome o;
    int fds = chk.fds ? open_fds() : 0;
    try {
      sub.fn(g);
      if (chk.fds && open_fds() > fds) throw Fail{fmt("%d files were left open", open_fds() - fds)};
    } catch (Fail &e) {
      o.status = 1;
      o.msg = e.msg;
    } catch (Discard &) {
      o.status = 2;
    } catch (std::exception &e) {
      o.status = 1;
      o.msg = std::string("exception escaped: ") + e.what();
    }
    o.trace = g.trace;
    return o;
  }

  uint64_t case_seed(const Sub &sub, uint64_t i) {
    uint64_t x = hash64(sub.name, hash64(chk.id)) ^ (seed * 0x9e3779b97f4a7c15ull);
    splitmix(x);
    x += i * 0xd1342543de82ef95ull;
    return splitmix(x);
  }

  void child_io(const std::string &log) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    close(nul);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
  }

  // ---- batches
  struct Job {
    pid_t pid;
    int sub;
    uint64_t from, to;
    int w;
  };
  struct Found {
    int sub;
    uint64_t from, index;
    Outcome o;
    bool crash = false;
  };

  std::string rpath(int w) { return scratch + "/res." + std::to_string(w); }
  std::string lpath(int w) { return scratch + "/log." + std::to_string(w); }

  pid_t spawn(int si, uint64_t from, uint64_t to, int w) {
    Slot *slot = slots[w];
    slot->running = 0;
    slot->started = now();
    unlink(rpath(w).c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid != 0) return pid;
    child_io(lpath(w));
    int rc = 0;
    const Sub &sub = chk.subs[si];
    if (chk.setup) {
      try {
        chk.setup(w);
      } catch (Fail &e) {
        FILE *f = fopen((rpath(w) + ".setup").c_str(), "w");
        if (f) {
          fwrite(e.msg.data(), 1, e.msg.size(), f);
          fclose(f);
        }
        _exit(77);
      }
    }
    FILE *f = fopen(rpath(w).c_str(), "w");
    for (uint64_t i = from; i < to; i++) {
      slot->index = i;
      slot->started = now();
      slot->running = 1;
      G g(case_seed(sub, i), slot);
      g.worker = w;
      Outcome o = exec(sub, g);
      slot->running = 0;
      slot->started = now();
      wi(f, i);
      wi(f, o.status);
      wi(f, g.nontriv);
      uint64_t h = hash64(slot->c, 8 * slot->n, hash64(sub.name));
      wi(f, h);
      wi(f, g.labels.size());
      for (auto &l : g.labels) wr(f, l);
      bool sample = (i < 2 && g.trace.size() < 4000) || o.status == 1;
      wr(f, sample ? g.trace : std::string());
      wr(f, o.msg);
      if (o.status == 1) {
        wi(f, slot->n);
        fwrite(slot->c, 8, slot->n, f);
        break;
      }
    }
    fclose(f);
    if (chk.teardown) chk.teardown(w);
    fflush(nullptr);
    _exit(rc);
  }

  static std::string tail(const std::string &path, size_t n) {
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    auto p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error");
    if (p != std::string::npos) return s.substr(p, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
  }

  static std::string crashmsg(int st) {
    if (WIFSIGNALED(st)) return fmt("process terminated by signal %d", WTERMSIG(st));
    return fmt("process exited with status %d inside the case", WEXITSTATUS(st));
  }

  // returns true if the batch produced a failure
  bool collect(const Job &j, int st, bool hang, Found &fnd) {
    const Sub &sub = chk.subs[j.sub];
    FILE *f = fopen(rpath(j.w).c_str(), "r");
    bool failed = false;
    uint64_t i, status, nt, h, nl;
    if (f) {
      while (ri(f, i)) {
        if (!ri(f, status) || !ri(f, nt) || !ri(f, h) || !ri(f, nl)) break;
        std::vector<std::string> ls(nl);
        for (auto &l : ls)
          if (!rd(f, l)) break;
        std::string trace, msg;
        if (!rd(f, trace) || !rd(f, msg)) break;
        evaluations++;
        per_sub[sub.name]++;
        if (status == 2) discards++;
        if (status != 2 && nt) {
          nontrivial++;
          distinct.insert(h);
        }
        for (auto &l : ls) labels[sub.name + ": " + l]++;
        if (status == 0 && nt && !trace.empty() && samples.size() < 12)
          samples.push_back("[" + sub.name + " #" + std::to_string(i) + "] " + trace.substr(0, 1500));
        if (status == 1) {
          uint64_t n;
          ri(f, n);
          fnd.o.choices.resize(n);
          if (n && fread(fnd.o.choices.data(), 8, n, f) != n) {
          }
          fnd.sub = j.sub;
          fnd.from = j.from;
          fnd.index = i;
          fnd.o.status = 1;
          fnd.o.msg = msg;
          fnd.o.trace = trace;
          failed = true;
          break;
        }
      }
      fclose(f);
    }
    if (failed) return true;
    if (hang || WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
      Slot *s = slots[j.w];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && !hang) {
        std::ifstream e(rpath(j.w) + ".setup");
        std::string m((std::istreambuf_iterator<char>(e)), {});
        fnd.o.msg = "setup failed: " + m;
        fnd.o.choices.clear();
      } else if (!s->running && !hang) {
        fnd.o.msg = crashmsg(st) + " outside a case\n" + tail(lpath(j.w), 3000);
        fnd.o.choices.assign(s->c, s->c + s->n);
      } else {
        fnd.o.msg = hang ? fmt("no progress for %.0f s (hang)", chk.hang_s)
                         : crashmsg(st) + "\n" + tail(lpath(j.w), 3000);
        fnd.o.choices.assign(s->c, s->c + s->n);
      }
      fnd.crash = true;
      fnd.sub = j.sub;
      fnd.from = j.from;
      fnd.index = s->index;
      fnd.o.status = 1;
      return true;
    }
    return false;
  }

  void killjob(pid_t pid) {
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
  }

  bool search(std::vector<Found> &out) {
    double t0 = now(), budget = thorough ? chk.budget_thorough : chk.budget_quick;
    std::vector<Job> jobs;
    std::vector<int> freew;
    for (int w = chk.workers - 1; w >= 0; w--) freew.push_back(w);
    // interleave the subs: round robin over batches
    std::vector<uint64_t> next(chk.subs.size(), 0);
    std::vector<uint64_t> total, bsz;
    for (auto &s : chk.subs) {
      uint64_t n = thorough ? s.thorough : s.quick;
      const char *mul = getenv("PBT_MULT");
      if (mul) n = (uint64_t)(n * atof(mul));
      const char *only = getenv("PBT_SUB");
      if (only && s.name != only) n = 0;
      total.push_back(n);
      bsz.push_back(s.batch > 0 ? s.batch : std::max<uint64_t>(1, std::min<uint64_t>(200, n / (4 * chk.workers) + 1)));
    }
    size_t rr = 0;
    bool stop = false;
    while (true) {
      while (!stop && !freew.empty()) {
        size_t tries = 0;
        while (tries < chk.subs.size() && next[rr % chk.subs.size()] >= total[rr % chk.subs.size()]) rr++, tries++;
        if (tries == chk.subs.size()) break;
        int si = rr++ % chk.subs.size();
        uint64_t a = next[si], b = std::min(total[si], a + bsz[si]);
        next[si] = b;
        int w = freew.back();
        freew.pop_back();
        jobs.push_back({spawn(si, a, b, w), si, a, b, w});
      }
      if (jobs.empty()) break;
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      bool hang = false;
      if (p <= 0) {
        for (auto &j : jobs)
          if (now() - slots[j.w]->started > chk.hang_s) {
            killjob(j.pid);
            waitpid(j.pid, &st, 0);
            p = j.pid;
            hang = true;
            break;
          }
        if (p <= 0) {
          usleep(2000);
          if (now() - t0 > budget) stop = true, capped = true;
          continue;
        }
      }
      for (size_t k = 0; k < jobs.size(); k++)
        if (jobs[k].pid == p) {
          Job j = jobs[k];
          jobs.erase(jobs.begin() + k);
          kill(-p, SIGKILL);  // whatever the batch left running
          Found f;
          bool bad = collect(j, st, hang, f);
          if (chk.cleanup) chk.cleanup(j.w, bad);
          if (bad) {
            out.push_back(f);
            stop = true;
          }
          freew.push_back(j.w);
          break;
        }
    }
    std::sort(out.begin(), out.end(), [](const Found &a, const Found &b) {
      return std::make_tuple(a.crash, a.o.choices.size()) < std::make_tuple(b.crash, b.o.choices.size());
    });
    return !out.empty();
  }
  bool capped = false;

  // ---- one case in its own process
  Outcome run_one(const Sub &sub, const std::vector<uint64_t> &ch, double hang_s, int w = 0) {
    Slot *slot = slots[w];
    slot->started = now();
    slot->running = 0;
    slot->n = 0;
    unlink(rpath(w).c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_io(lpath(w));
      if (chk.setup) {
        try {
          chk.setup(w);
        } catch (Fail &e) {
          FILE *f = fopen(rpath(w).c_str(), "w");
          wi(f, 1);
          wr(f, "setup failed: " + e.msg);
          wr(f, "");
          fclose(f);
          _exit(0);
        }
      }
      slot->started = now();
      slot->running = 1;
      G g(&ch, slot);
      g.worker = w;
      g.echo = getenv("PBT_ECHO") != nullptr;
      Outcome o = exec(sub, g);
      slot->running = 0;
      slot->started = now();
      FILE *f = fopen(rpath(w).c_str(), "w");
      wi(f, o.status);
      wr(f, o.msg);
      wr(f, o.trace);
      fclose(f);
      if (chk.teardown) chk.teardown(w);
      fflush(nullptr);
      _exit(0);
    }
    int st = 0;
    bool hang = false;
    useconds_t nap = 200;
    while (true) {
      pid_t p = waitpid(pid, &st, WNOHANG);
      if (p == pid) break;
      if (now() - slot->started > hang_s) {
        hang = true;
        killjob(pid);
        waitpid(pid, &st, 0);
        break;
      }
      usleep(nap);
      if (nap < 5000) nap *= 2;
    }
    kill(-pid, SIGKILL);
    Outcome o;
    o.choices.assign(slot->c, slot->c + slot->n);
    if (hang) {
      o.status = 1;
      o.msg = fmt("no progress for %.0f s (hang)", hang_s);
      o.trace.assign(slot->t, slot->tn);
    } else if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
      o.status = 1;
      o.msg = crashmsg(st) + "\n" + tail(lpath(w), 3000);
      o.trace.assign(slot->t, slot->tn);
    } else {
      FILE *f = fopen(rpath(w).c_str(), "r");
      uint64_t s = 1;
      if (f) {
        ri(f, s);
        rd(f, o.msg);
        rd(f, o.trace);
        fclose(f);
      }
      o.status = (int)s;
    }
    if (chk.cleanup) chk.cleanup(w, o.status == 1);
    return o;
  }

  std::vector<uint64_t> shrink(const Sub &sub, std::vector<uint64_t> best, double deadline, double hang_s) {
    auto bad = [&](const std::vector<uint64_t> &c, std::vector<uint64_t> &used) {
      if (now() > deadline) return false;
      Outcome o = run_one(sub, c, hang_s);
      if (o.status != 1) return false;
      used = o.choices.size() < c.size() ? o.choices : c;
      return true;
    };
    bool improved = true;
    std::vector<uint64_t> used;
    while (improved && now() < deadline) {
      improved = false;
      // delete blocks
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (size_t i = 0; i + len <= best.size() && now() < deadline;) {
          std::vector<uint64_t> c(best);
          c.erase(c.begin() + i, c.begin() + i + len);
          if (bad(c, used)) {
            best = used;
            improved = true;
          } else
            i += len;
        }
        if (len == 1) break;
      }
      // zero blocks
      for (size_t len : {8, 4, 2})
        for (size_t i = 0; i + len <= best.size() && now() < deadline; i += len) {
          if (std::all_of(best.begin() + i, best.begin() + i + len, [](uint64_t v) { return v == 0; })) continue;
          std::vector<uint64_t> c(best);
          std::fill(c.begin() + i, c.begin() + i + len, 0);
          if (bad(c, used)) best = used, improved = true;
        }
      // minimise single values
      for (size_t i = 0; i < best.size() && now() < deadline; i++) {
        if (best[i] == 0) continue;
        std::vector<uint64_t> c(best);
        c[i] = 0;
        if (bad(c, used)) {
          best = used;
          improved = true;
          continue;
        }
        uint64_t lo = 0;
        while (i < best.size() && best[i] - lo > 1 && now() < deadline) {
          uint64_t mid = lo + (best[i] - lo) / 2;
          c = best;
          c[i] = mid;
          if (bad(c, used)) {
            best = used;
            improved = true;
          } else
            lo = mid;
        }
      }
    }
    return best;
  }

  std::string write_replay(const Sub &sub, const std::vector<uint64_t> &ch, const Outcome &o, const std::string &extra) {
    mkdir(outdir.c_str(), 0700);
    uint64_t h = hash64(ch.data(), ch.size() * 8, hash64(sub.name));
    std::string path = outdir + "/" + chk.id + "-" + fmt("%016llx", (unsigned long long)h) + ".replay";
    std::ofstream f(path);
    f << "property " << chk.id << "\nsub " << sub.name << "\nseed " << seed << "\n" << extra << "choices";
    for (auto c : ch) f << " " << c;
    f << "\n--- message\n" << o.msg << "\n--- case\n" << o.trace << "\n";
    return path;
  }

  void write_evidence(double wall, int violations) {
    if (evidence.empty()) return;
    std::ofstream f(evidence + ".tmp");
    f << "{\n \"property\": " << jstr(chk.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "
      << evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"nontrivial\": " << nontrivial
      << ",\n  \"discarded\": " << discards << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false")
      << ",\n  \"rule\": " << jstr(chk.rule) << ",\n  \"per_sub\": {";
    bool first = true;
    for (auto &l : per_sub) f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second, first = false;
    f << "},\n  \"classes\": {";
    first = true;
    for (auto &l : labels) f << (first ? "" : ", ") << jstr(l.first) << ": " << l.second, first = false;
    f << "}";
    if (chk.extra) chk.extra(f);
    f << ",\n  \"samples\": [";
    first = true;
    for (auto &s : samples) f << (first ? "" : ",\n   ") << jstr(s), first = false;
    f << "]\n },\n \"assumptions\": [";
    first = true;
    for (auto &s : chk.assumptions) f << (first ? "" : ", ") << jstr(s), first = false;
    f << "],\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": " << violations << "\n}\n";
    f.close();
    rename((evidence + ".tmp").c_str(), evidence.c_str());
  }

  std::set<std::string> known_keys() {
    std::set<std::string> k;
    std::ifstream f(known);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string a, b, c;
      is >> a >> b >> c;
      if (a == "KNOWN-FINDING" && b == "property=" + chk.id && c.rfind("key=", 0) == 0) k.insert(c.substr(4));
    }
    return k;
  }

  int replay(const std::string &path) {
    std::ifstream f(path);
    std::string line, subn;
    std::vector<uint64_t> ch;
    int64_t bfrom = -1, bto = -1;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string a;
      is >> a;
      if (a == "sub")
        subn = line.substr(4);
      else if (a == "seed")
        is >> seed;
      else if (a == "batch")
        is >> bfrom >> bto;
      else if (a == "choices") {
        uint64_t v;
        while (is >> v) ch.push_back(v);
        break;
      }
    }
    for (size_t si = 0; si < chk.subs.size(); si++) {
      auto &s = chk.subs[si];
      if (s.name != subn) continue;
      bool bad;
      std::string msg, trace;
      if (bfrom >= 0) {
        bad = run_batch(si, bfrom, bto, msg);
      } else {
        Outcome o = run_one(s, ch, chk.hang_s);
        bad = o.status == 1;
        msg = o.msg;
        trace = o.trace;
      }
      printf("%s\n%s\n", trace.c_str(), msg.c_str());
      if (bad) {
        printf("VIOLATION property=%s replay=%s\n", chk.id.c_str(), path.c_str());
        return 1;
      }
      printf("replay passed\n");
      return 0;
    }
    fprintf(stderr, "no such sub-check: %s\n", subn.c_str());
    return 2;
  }

  bool run_batch(int si, uint64_t from, uint64_t to, std::string &msg) {
    pid_t pid = spawn(si, from, to, 0);
    int st = 0;
    bool hang = false;
    while (waitpid(pid, &st, WNOHANG) == 0) {
      if (now() - slots[0]->started > chk.hang_s) {
        killjob(pid);
        waitpid(pid, &st, 0);
        hang = true;
        break;
      }
      usleep(1000);
    }
    kill(-pid, SIGKILL);
    Found f;
    bool bad = collect({pid, si, from, to, 0}, st, hang, f);
    if (chk.cleanup) chk.cleanup(0, bad);
    msg = f.o.msg;
    return bad;
  }

  int run() {
    double t0 = now();
    int violations = 0;
    std::string first_path;
    auto keys = known_keys();
    for (auto &fi : chk.findings) {
      Sub s{fi.key, fi.fn, 0, 0, 0};
      Outcome o = run_one(s, {}, chk.hang_s);
      if (o.status != 1) continue;
      if (keys.count(fi.key)) {
        printf("KNOWN-FINDING: property=%s %s\n", chk.id.c_str(), fi.what.c_str());
      } else {
        std::string path = write_replay(s, {}, o, "");
        printf("%s\nVIOLATION property=%s replay=%s\n", o.msg.c_str(), chk.id.c_str(), path.c_str());
        violations++;
      }
    }
    int rounds = 0, flaky = 0;
    std::vector<Found> fs;
    while (violations == 0 && search(fs)) {
      rounds++;
      for (auto &f : fs) {
        auto &sub = chk.subs[f.sub];
        fprintf(stderr, "[%s] failure in %s #%llu: %s\n", chk.id.c_str(), sub.name.c_str(),
                (unsigned long long)f.index, f.o.msg.substr(0, 600).c_str());
        // reproduce the original first
        auto reproduces = [&](const std::vector<uint64_t> &c, Outcome &last) {
          int ok = 0;
          for (int k = 0; k < chk.repro_n; k++) {
            Outcome o = run_one(sub, c, chk.hang_s);
            if (o.status == 1) {
              ok++;
              last = o;
            }
            if (ok >= chk.repro_need) break;
            if (ok + (chk.repro_n - k - 1) < chk.repro_need) break;
          }
          return ok >= chk.repro_need;
        };
        Outcome last;
        bool was_hang = f.o.msg.rfind("no progress", 0) == 0;
        if (reproduces(f.o.choices, last)) {
          double dl = now() + (getenv("PBT_NOSHRINK") ? 0 : was_hang ? chk.shrink_s * 2 : chk.shrink_s);
          auto small = shrink(sub, f.o.choices, dl, was_hang ? std::max(3.0, chk.hang_s / 8) : chk.hang_s);
          Outcome l2;
          if (small != f.o.choices && reproduces(small, l2)) {
            f.o.choices = small;
            last = l2;
          }
          std::string path = write_replay(sub, f.o.choices, last, "");
          printf("--- %s / %s\n%s\n%s\n", chk.id.c_str(), sub.name.c_str(), last.trace.substr(0, 4000).c_str(),
                 last.msg.c_str());
          printf("VIOLATION property=%s replay=%s\n", chk.id.c_str(), path.c_str());
          violations++;
          break;
        }
        // depends on earlier cases of the same process?
        int ok = 0;
        std::string msg;
        for (int k = 0; k < chk.repro_n; k++) ok += run_batch(f.sub, f.from, f.index + 1, msg);
        if (ok >= chk.repro_need) {
          Outcome o;
          o.msg = msg;
          std::string path =
              write_replay(sub, {}, o, fmt("batch %llu %llu\n", (unsigned long long)f.from, (unsigned long long)f.index + 1));
          printf("%s\nVIOLATION property=%s replay=%s\n", msg.c_str(), chk.id.c_str(), path.c_str());
          violations++;
          break;
        }
        flaky++;
        fprintf(stderr, "[%s] not reproducible, not reported: %s\n", chk.id.c_str(), f.o.msg.substr(0, 300).c_str());
      }
      if (violations || rounds >= 3) break;
      fs.clear();
      seed_bump++;
      seed += 1000003;  // continue the search on other cases
    }
    seed -= 1000003ull * seed_bump;
    if (flaky) labels["(engine) unreproducible failures"] = flaky;
    write_evidence(now() - t0, violations);
    printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s%s\n", chk.id.c_str(),
           (unsigned long long)evaluations, distinct.size(), (unsigned long long)discards, now() - t0,
           capped ? " (time cap)" : "");
    if (getenv("PBT_LABELS"))
      for (auto &l : labels) printf("  %8llu  %s\n", (unsigned long long)l.second, l.first.c_str());
    return violations ? 1 : 0;
  }
  uint64_t seed_bump = 0;
};

inline std::string g_scratch;  // set before anything runs

inline int main(int argc, char **argv, Check &chk) {
  if (chk.stack_mb) {
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rlim_t want = (rlim_t)chk.stack_mb << 20;
    if (rl.rlim_cur < want && !getenv("PBT_STACK")) {
      rl.rlim_cur = want;
      setenv("PBT_STACK", "1", 1);
      if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv);
    }
  }
  Runner r(chk);
  std::string rep;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--tier")
      r.thorough = nx() == "thorough";
    else if (a == "--seed")
      r.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--scratch")
      r.scratch = nx();
    else if (a == "--out")
      r.outdir = nx();
    else if (a == "--evidence")
      r.evidence = nx();
    else if (a == "--known")
      r.known = nx();
    else if (a == "--replay")
      rep = nx();
    else if (a == "--workers")
      chk.workers = atoi(nx().c_str());
  }
  g_scratch = r.scratch;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int w = 0; w < chk.workers; w++) {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    r.slots.push_back((Slot *)p);
  }
  if (chk.global_setup) chk.global_setup();
  int rc = rep.empty() ? r.run() : r.replay(rep);
  if (chk.global_teardown) chk.global_teardown();
  return rc;
}
}  // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=190";
}
#endif
