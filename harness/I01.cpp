// I01: messages of every size arrive intact, once and in order.
#include <dirent.h>
#include <sys/fsuid.h>
#include <deque>
#include <mutex>
#include <thread>
#include <atmi.h>
#include <ipc.h>
#include "pbt.hpp"
using namespace fux::ipc;
using pbt::G;
using pbt::fmt;

// Files created by this worker are told apart by their owner.
static uid_t owner(int w) { return 64100 + w; }
struct AsOwner {
  explicit AsOwner(int w) {
    setfsuid(owner(w));
    if ((uid_t)setfsuid(-1) != owner(w)) pbt::fail("setfsuid is not possible here");
  }
  ~AsOwner() { setfsuid(0); }
};
static std::set<std::string> files(int w) {
  std::set<std::string> s;
  const char *t = getenv("TMPDIR");
  for (std::string d : {std::string("/tmp"), std::string(t ? t : "/tmp"), std::string("/var/tmp"), std::string("/dev/shm")}) {
    DIR *dir = opendir(d.c_str());
    if (!dir) continue;
    while (auto *e = readdir(dir)) {
      struct stat st;
      std::string p = d + "/" + e->d_name;
      if (lstat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_uid == owner(w)) s.insert(p);
    }
    closedir(dir);
  }
  return s;
}
static void wipe(int w) {
  for (auto &f : files(w)) unlink(f.c_str());
}

struct Q {
  int id = -1;
  Q() : id(qcreate()) {}
  ~Q() { qdelete(id); }
};
static const size_t H = sizeof(msgmem);

static size_t gen_size(G &g) {
  switch (g.weighted({3, 3, 4, 2, 1})) {
    case 0: return g.below(64);
    case 1: return g.below(3000);
    case 2: return 4000 - H - 12 + g.below(24);  // around the change of transport
    case 3: return 4000 - H - 80 + g.below(200);
    default: return g.below(g.chance(1, 8) ? 2000000 : 60000);
  }
}
static void gen_msg(G &g, msg &m, long type, size_t size) {
  m.resize_data(size);
  std::string b = g.bytes(32), d = g.bytes(size);
  m->mtype = type;
  m->cat = (category)g.below(3);
  m->ttype = (transport)g.below(2);
  memset(m->servicename, 0, sizeof(m->servicename));
  snprintf(m->servicename, sizeof(m->servicename), "SVC%d", (int)g.below(1000000));
  uint64_t x = g.below(1ull << 32);
  auto bytes = [&](void *p, size_t n) {
    for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)pbt::splitmix(x);
  };
  bytes(&m->gttid, sizeof(m->gttid));
  bytes(&m->flags, sizeof(m->flags));
  bytes(&m->cd, sizeof(m->cd));
  bytes(&m->replyq, sizeof(m->replyq));
  bytes(&m->rval, sizeof(m->rval));
  bytes(&m->rcode, sizeof(m->rcode));
  memcpy(m->data, d.data(), size);
}
// how the transport is chosen is not part of the message
static std::string image(msg &m) {
  std::string s;
  auto put = [&](const void *p, size_t n) { s.append((const char *)p, n); };
  put(&m->mtype, sizeof(m->mtype));
  put(&m->cat, sizeof(m->cat));
  put(m->servicename, sizeof(m->servicename));
  put(&m->gttid, sizeof(m->gttid));
  put(&m->flags, sizeof(m->flags));
  put(&m->cd, sizeof(m->cd));
  put(&m->replyq, sizeof(m->replyq));
  put(&m->rval, sizeof(m->rval));
  put(&m->rcode, sizeof(m->rcode));
  put(m->data, m.size_data());
  return s;
}
static std::string diff(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return fmt("sizes %zu and %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++)
    if (a[i] != b[i]) return fmt("first difference at byte %zu of %zu", i, a.size());
  return "same";
}

struct M {
  long type;
  std::string img;
};
static int expected(const std::deque<M> &q, long want) {
  int best = -1;
  for (size_t i = 0; i < q.size(); i++) {
    if (want == 0) return i;
    if (want > 0 && q[i].type == want) return i;
    if (want < 0 && q[i].type <= -want && (best < 0 || q[i].type < q[best].type)) best = i;
  }
  return best;
}

static void histories(G &g) {
  AsOwner ow(g.worker);
  wipe(g.worker);
  Q q;
  std::deque<M> model;
  msg rq, rs;  // reused, as servers do
  size_t ops = 2 + g.below(24), viafile = 0, got = 0;
  auto recv = [&](long want) {
    int i = expected(model, want);
    bool none = false;
    try {
      qrecv(q.id, rs, want, IPC_NOWAIT);
    } catch (std::system_error &e) {
      PBT_ASSERT(e.code().value() == ENOMSG, "receiving failed: %s", e.what());
      none = true;
    }
    g.log("receive type %ld: %s", want, none ? "none" : "one");
    if (i < 0) {
      PBT_ASSERT(none, "received a message of type %ld, none was expected", rs->mtype);
      return;
    }
    PBT_ASSERT(!none, "no message received for type %ld, one of type %ld is on the queue", want, model[i].type);
    std::string img = image(rs);
    PBT_ASSERT(img == model[i].img, "received message of type %ld differs: %s", want, diff(img, model[i].img).c_str());
    model.erase(model.begin() + i);
    got++;
  };
  for (size_t k = 0; k < ops; k++) {
    if (g.weighted({3, 2}) == 0) {
      long type = 1 + g.below(4);
      size_t size = gen_size(g);
      if (g.chance(1, 4)) rq = msg();
      gen_msg(g, rq, type, size);
      std::string img = image(rq);
      fux::ipc::flags f = g.chance(1, 5) && model.size() < 3 ? notime : g.chance(1, 10) && model.size() < 3 ? noflags : noblock;
      bool ok = qsend(q.id, rq, 0, f);
      g.log("send type %ld, %zu bytes, cat %d: %s", type, size, (int)rq->cat, ok ? "sent" : "queue full");
      PBT_ASSERT(image(rq) == img, "sending changed the message: %s", diff(image(rq), img).c_str());
      if (ok) {
        model.push_back({type, img});
        if (size + H > 3990) viafile++;
      } else {
        PBT_ASSERT(model.size() >= 3, "queue with %zu messages refused another one", model.size());
        g.label("queue full");
      }
    } else {
      recv(g.range(-5, 5));
    }
    if (g.chance(1, 8)) PBT_ASSERT(files(g.worker).size() <= model.size(), "%zu temporary files for %zu messages", files(g.worker).size(), model.size());
  }
  while (!model.empty()) recv(g.chance(1, 2) ? 0 : -4);
  recv(0);
  auto left = files(g.worker);
  PBT_ASSERT(left.empty(), "temporary file %s remains after all messages were received", left.begin()->c_str());
  g.label(viafile ? "with large messages" : "small messages only");
  g.nontrivial(got >= 2);
}

static void failures(G &g) {
  AsOwner ow(g.worker);
  wipe(g.worker);
  msg rq, rs;
  int id;
  {
    Q q;
    id = q.id;
  }
  gen_msg(g, rq, 1, gen_size(g));
  fux::ipc::flags f = g.flip() ? noblock : g.flip() ? notime : noflags;
  g.log("send %zu bytes to a removed queue", rq.size_data());
  bool thrown = false;
  try {
    qsend(id, rq, 0, f);
  } catch (std::system_error &) {
    thrown = true;
  }
  PBT_ASSERT(thrown, "sending to a removed queue succeeded");
  thrown = false;
  try {
    qrecv(id, rs, 0, IPC_NOWAIT);
  } catch (std::system_error &) {
    thrown = true;
  }
  PBT_ASSERT(thrown, "receiving from a removed queue succeeded");
  PBT_ASSERT(files(g.worker).empty(), "temporary file %s remains after a failed send", files(g.worker).begin()->c_str());
  // a queue that fills up
  Q q;
  size_t size = gen_size(g) % 8000, n = 0;
  gen_msg(g, rq, 1, size);
  while (qsend(q.id, rq, 0, noblock)) PBT_ASSERT(++n < 200000, "queue never fills up");
  g.log("queue full after %zu messages of %zu bytes", n, size);
  bool viafile = !files(g.worker).empty();
  PBT_ASSERT(!viafile || files(g.worker).size() == n, "%zu temporary files for %zu messages", files(g.worker).size(), n);
  std::string img = image(rq);
  for (size_t i = 0; i < n; i++) {
    qrecv(q.id, rs, 0, IPC_NOWAIT);
    PBT_ASSERT(image(rs) == img, "message %zu differs: %s", i, diff(image(rs), img).c_str());
  }
  thrown = false;
  try {
    qrecv(q.id, rs, 0, IPC_NOWAIT);
  } catch (std::system_error &) {
    thrown = true;
  }
  PBT_ASSERT(thrown, "more messages received than sent");
  PBT_ASSERT(files(g.worker).empty(), "temporary file %s remains", files(g.worker).begin()->c_str());
  g.label(viafile ? "with files" : "in the queue");
  g.nontrivial(n >= 2);
}

static void threads(G &g) {
  wipe(g.worker);
  Q q;
  size_t ns = 1 + g.below(4), nr = 1 + g.below(3), n = 2 + g.below(20), types = 1 + g.below(3);
  g.log("%zu senders of %zu messages, %zu receivers, %zu types", ns, n, nr, types);
  struct Plan {
    long type;
    msg m;
    std::string img;
  };
  std::vector<std::vector<Plan>> plan(ns);
  size_t bytes = 0;
  for (size_t s = 0; s < ns; s++)
    for (size_t i = 0; i < n; i++) {
      Plan p;
      p.type = 1 + g.below(types);
      size_t size = gen_size(g) % 20000;
      gen_msg(g, p.m, p.type, size);
      p.m->cd = s;
      p.m->rcode = i;
      p.img = image(p.m);
      bytes += size;
      plan[s].push_back(std::move(p));
    }
  std::mutex mx;
  struct Got {
    size_t s, i, r;
    long type;
    std::string img;
  };
  std::vector<Got> got;
  std::vector<std::string> errors;
  std::vector<std::thread> th, rt;
  for (size_t r = 0; r < nr; r++)
    rt.emplace_back([&, r] {
      setfsuid(owner(g.worker));
      msg rs;
      try {
        while (true) {
          qrecv(q.id, rs, -100, 0);
          if (rs->mtype == 99) break;
          std::lock_guard<std::mutex> l(mx);
          got.push_back({(size_t)rs->cd, (size_t)rs->rcode, r, rs->mtype, image(rs)});
        }
      } catch (std::exception &e) {
        std::lock_guard<std::mutex> l(mx);
        errors.push_back(e.what());
      }
    });
  for (size_t s = 0; s < ns; s++)
    th.emplace_back([&, s] {
      setfsuid(owner(g.worker));
      try {
        for (auto &p : plan[s])
          if (!qsend(q.id, p.m, 20000, s == 1 && n < 4 ? noflags : notime)) throw std::runtime_error("not sent");
      } catch (std::exception &e) {
        std::lock_guard<std::mutex> l(mx);
        errors.push_back(e.what());
      }
    });
  for (auto &t : th) t.join();
  msg end;
  end->mtype = 99;
  for (size_t r = 0; r < nr; r++) qsend(q.id, end, 0, notime);
  for (auto &t : rt) t.join();
  PBT_ASSERT(errors.empty(), "%s", errors[0].c_str());
  PBT_EQ(got.size(), ns * n, "messages received");
  std::set<std::pair<size_t, size_t>> seen;
  std::map<std::tuple<size_t, size_t, long>, size_t> last;
  for (auto &x : got) {
    PBT_ASSERT(x.s < ns && x.i < n, "unknown message");
    PBT_ASSERT(seen.insert({x.s, x.i}).second, "message %zu of sender %zu received twice", x.i, x.s);
    PBT_ASSERT(x.img == plan[x.s][x.i].img, "message %zu of sender %zu differs: %s", x.i, x.s, diff(x.img, plan[x.s][x.i].img).c_str());
    // order as seen by each receiver
    auto key = std::make_tuple(x.r, x.s, x.type);
    if (last.count(key)) PBT_ASSERT(last[key] < x.i, "messages of type %ld from sender %zu received out of order", x.type, x.s);
    last[key] = x.i;
  }
  auto left = files(g.worker);
  PBT_ASSERT(left.empty(), "temporary file %s remains", left.begin()->c_str());
  g.nontrivial(ns * n >= 4);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "I01";
  c.fds = true;
  c.rule =
      "histories: random sends (sizes concentrated around the change of transport) and receives by type against a model of the queue; "
      "failures: removed and full queues; threads: concurrent senders and receivers. Temporary files are counted by owner. "
      "Non-trivial: at least 2 (4) messages received.";
  c.subs = {
      {"histories", histories, 30000, 400000},
      {"failures", failures, 300, 4000},
      {"threads", threads, 4000, 50000},
  };
  c.cleanup = [](int w, bool) { wipe(w); };
  c.assumptions = {"requires the right to use another file-system user id", "kernel queue limits as configured here"};
  return pbt::main(argc, argv, c);
}
