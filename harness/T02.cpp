// T02: transaction identifiers are unique, portable and tracked faithfully.
#include <map>
#include <memory>
#include <thread>
#include <atmi.h>
#include <tx.h>
#include <mib.h>
#include <trx.h>
#include "pbt.hpp"
using pbt::G;
using pbt::fmt;

static XID gen_xid(G &g) {
  XID x;
  memset(&x, g.below(256), sizeof(x));
  switch (g.below(4)) {
    case 0: x.formatID = g.below(3); break;
    case 1: x.formatID = g.range(0, 2147483647l); break;
    case 2: x.formatID = (long)(g.u64() >> 1); break;
    default: x.formatID = 1; break;
  }
  auto len = [&] { return g.chance(1, 5) ? 64 : g.chance(1, 3) ? 8 : 1 + (int)g.below(64); };
  x.gtrid_length = len();
  x.bqual_length = g.chance(1, 4) ? 0 : len();
  std::string b = g.bytes(x.gtrid_length + x.bqual_length);
  memcpy(x.data, b.data(), b.size());
  return x;
}
static bool same(const XID &a, const XID &b) {
  return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length &&
         memcmp(a.data, b.data, a.gtrid_length + a.bqual_length) == 0;
}
// small changes an identifier must be told apart from
static XID mutate(G &g, const XID &a) {
  XID x = a;
  switch (g.below(5)) {
    case 0: x.formatID ^= 1; break;
    case 1:
      if (x.gtrid_length > 1) x.gtrid_length--, x.bqual_length++;  // the same bytes, split elsewhere
      if (x.bqual_length > 64) x = a, x.data[0] ^= 1;
      break;
    case 2: x.data[g.below(x.gtrid_length)] ^= 1 << g.below(8); break;
    case 3:
      if (x.bqual_length > 0)
        x.data[x.gtrid_length + x.bqual_length - 1] ^= 1 << g.below(8);
      else
        x.bqual_length = 1;
      break;
    default: x.data[x.gtrid_length + x.bqual_length - 1] ^= 0x80;
  }
  return x;
}

static void text(G &g) {
  XID a = gen_xid(g), copy = a;
  std::string s = fux::to_string(&a);
  g.log("%s", s.c_str());
  PBT_ASSERT(memcmp(&a, &copy, sizeof(a)) == 0, "conversion to text changed the identifier");
  PBT_ASSERT(s.find_first_not_of("0123456789abcdefABCDEF.-") == std::string::npos, "text form %s has other characters", s.c_str());
  XID b = fux::to_xid(s);
  PBT_ASSERT(same(a, b), "%s came back as %s", s.c_str(), fux::to_string(&b).c_str());
  PBT_EQ(fux::to_string(&b), s, "text of the identifier that came back");
  XID c = mutate(g, a);
  if (!same(a, c)) PBT_ASSERT(fux::to_string(&c) != s, "different identifiers have the same text %s", s.c_str());
  if (g.chance(1, 3)) {
    // text that is not an identifier
    std::string t = s;
    switch (g.below(5)) {
      case 0: t = g.text(g.below(40), true); break;
      case 1: t.insert(g.below(t.size() + 1), std::string(1 + g.below(300), g.flip() ? '0' : '.')); break;
      case 2: t.erase(g.below(t.size())); break;
      case 3: t[g.below(t.size())] = "gz .-\xff"[g.below(6)]; break;
      default: t += g.flip() ? t : t.substr(2); break;
    }
    try {
      XID d = fux::to_xid(t);
      PBT_ASSERT(d.gtrid_length >= 0 && d.gtrid_length <= 64 && d.bqual_length >= 0 && d.bqual_length <= 64, "%s accepted as identifier with lengths %ld, %ld",
                 pbt::show(t).c_str(), d.gtrid_length, d.bqual_length);
      XID e = fux::to_xid(fux::to_string(&d));
      PBT_ASSERT(same(d, e), "identifier read from %s does not convert without loss", pbt::show(t).c_str());
      // nothing but the notation may be dropped
      size_t first = t.find('.'), digits = 0;
      for (size_t i = first; i != std::string::npos && i < t.size(); i++) digits += t[i] != '.';
      PBT_EQ((size_t)(2 * (d.gtrid_length + d.bqual_length)), digits, "characters used of the text");
      g.label("other text accepted");
    } catch (std::logic_error &) {
      g.label("other text refused");
    }
  }
  g.nontrivial(a.gtrid_length + a.bqual_length >= 2);
}

struct Entry {
  XID xid;
  std::vector<int> groups;  // state of each, 0 when it did not join
};
static void table(G &g) {
  size_t size = 1 + g.below(8), ngroups = 1 + g.below(g.chance(1, 4) ? 200 : 9);
  size_t bytes = transaction_table::needed(size, ngroups);
  void *mem = malloc(bytes);  // exactly what it asks for
  memset(mem, 0, bytes);
  std::unique_ptr<void, void (*)(void *)> hold(mem, free);
  auto &t = *(transaction_table *)mem;
  t.init(size, ngroups);
  g.log("%zu transactions, %zu groups", size, ngroups);
  std::map<size_t, Entry> model;
  size_t maxused = 0, ops = 3 + g.below(40), refused = 0;
  for (size_t k = 0; k < ops; k++) {
    auto pick = [&] {
      auto it = model.begin();
      std::advance(it, g.below(model.size()));
      return it;
    };
    switch (g.weighted({5, 8, 3, 4, 3})) {
      case 0: {
        XID x = !model.empty() && g.flip() ? mutate(g, pick()->second.xid) : gen_xid(g);
        bool dup = false;
        for (auto &e : model) dup |= same(e.second.xid, x);
        if (dup) break;
        size_t gr = g.below(ngroups);
        bool full = model.size() >= size, thrown = false;
        size_t id = 0;
        try {
          id = t.start(x, gr);
        } catch (std::out_of_range &) {
          thrown = true;
        }
        g.log("start in group %zu: %s", gr, thrown ? "refused" : fmt("#%zu", id).c_str());
        PBT_ASSERT(thrown == full, "with %zu of %zu transactions running, a new one was %s", model.size(), size, thrown ? "refused" : "accepted");
        if (thrown) {
          refused++;
          break;
        }
        PBT_ASSERT(id < size && !model.count(id), "new transaction got the place %zu of another one", id);
        Entry e{x, std::vector<int>(ngroups)};
        e.groups[gr] = 1;
        model[id] = e;
        PBT_ASSERT((int)t[id].state == (int)transaction::active && t[id].started == 0 && t[id].timeout == 0, "new transaction is not fresh");
        break;
      }
      case 1: {
        if (model.empty()) break;
        auto it = pick();
        size_t gr = g.below(ngroups + 2);
        bool thrown = false;
        try {
          auto &r = t.join(it->first, gr);
          PBT_ASSERT(same(r.xid, it->second.xid), "join gives another transaction");
        } catch (std::out_of_range &) {
          thrown = true;
        }
        g.log("group %zu joins #%zu%s", gr, it->first, thrown ? ": refused" : "");
        PBT_EQ(thrown, gr >= ngroups, "joining refused");
        if (!thrown && !it->second.groups[gr]) it->second.groups[gr] = 1;
        break;
      }
      case 2: {
        if (model.empty()) break;
        auto it = pick();
        g.log("end of #%zu", it->first);
        t.end(it->first);
        XID x = it->second.xid;
        model.erase(it);
        bool thrown = false;
        try {
          t.find(x);
        } catch (std::out_of_range &) {
          thrown = true;
        }
        PBT_ASSERT(thrown, "ended transaction is still found");
        break;
      }
      case 3: {
        if (model.empty()) break;
        auto it = pick();
        auto &e = t.at(it->first);
        e.state = (decltype(e.state))g.below(5);
        e.timeout = e.started = 7;
        PBT_ASSERT(same(e.xid, it->second.xid), "transaction found at another place");
        e.state = transaction::active;
        e.timeout = e.started = 0;
        break;
      }
      default: {
        XID x = !model.empty() && g.flip() ? mutate(g, pick()->second.xid) : gen_xid(g);
        bool have = false;
        for (auto &e : model) have |= same(e.second.xid, x);
        if (have) break;
        bool thrown = false;
        size_t at = 0;
        try {
          at = t.find(x);
        } catch (std::out_of_range &) {
          thrown = true;
        }
        PBT_ASSERT(thrown, "unknown transaction found as #%zu", at);
        for (size_t i : {size, size + 1, size + 100}) {
          thrown = false;
          try {
            t.at(i);
          } catch (std::out_of_range &) {
            thrown = true;
          }
          PBT_ASSERT(thrown, "transaction %zu of %zu is accessible", i, size);
        }
      }
    }
    maxused = std::max(maxused, model.size());
    for (auto &m : model) {
      PBT_EQ((size_t)t.find(m.second.xid), m.first, "transaction found by identifier");
      PBT_ASSERT(same(t.at(m.first).xid, m.second.xid), "transaction #%zu has another identifier", m.first);
      for (size_t i = 0; i < ngroups; i++) PBT_ASSERT(t.has_joined(m.first, i) == (m.second.groups[i] > 0), "group %zu %s transaction #%zu", i,
                                                      m.second.groups[i] ? "is missing in" : "appears in", m.first);
    }
    PBT_ASSERT(t.len <= size && t.size == size && t.max_groups == ngroups, "the table's own data changed");
  }
  if (refused) g.label("full table");
  g.nontrivial(maxused >= 2);
}

static void unique(G &g) {
  tuxconfig c;
  memset(&c, 0, sizeof(c));
  c.maxservers = c.maxservices = c.maxqueues = c.maxgroups = c.maxaccessers = 1;
  mib m(c, fux::mib::in_heap());
  std::unique_ptr<void, void (*)(void *)> hold(m.operator->(), free);
  size_t nt = 1 + g.below(6), n = g.chance(1, 10) ? 200000 : 100 + g.below(20000);
  g.log("%zu threads, %zu identifiers each", nt, n);
  m->counter = g.chance(1, 2) ? g.below(1u << 24) : (uint32_t)g.u64();
  m->host = g.below(2) ? 0 : g.below(1024);
  std::vector<std::vector<uint64_t>> got(nt);
  std::atomic<int> go{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      got[t].reserve(n);
      go++;
      while (go < (int)nt) std::this_thread::yield();
      for (size_t i = 0; i < n; i++) got[t].push_back(m.genuid());
    });
  for (auto &t : th) t.join();
  std::vector<uint64_t> all;
  for (auto &v : got) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end());
  for (size_t i = 0; i < all.size(); i++) {
    PBT_ASSERT(all[i] != 0, "0 given out as identifier");
    PBT_ASSERT(i == 0 || all[i] != all[i - 1], "identifier %016lx given out twice", (unsigned long)all[i]);
    PBT_EQ((int)(all[i] >> 54), (int)m->host, "machine part of the identifier");
  }
  g.nontrivial(nt >= 2);
}

int main(int argc, char **argv) {
  pbt::Check c;
  c.id = "T02";
  c.rule =
      "text: random identifiers (lengths 1..64, 0..64) to text and back, neighbouring identifiers, damaged text; table: random histories of start, "
      "join, end and lookups against a model in exactly the memory the table asks for (AddressSanitizer); unique: identifiers generated by several "
      "threads. Non-trivial: at least 2 bytes; at least 2 transactions at once; at least 2 threads.";
  c.subs = {
      {"text", text, 150000, 3000000},
      {"table", table, 60000, 1000000},
      {"unique", unique, 300, 4000},
  };
  return pbt::main(argc, argv, c);
}
