// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/sid_set.h>
using namespace mon;
using namespace gnss;
RULE("case = a history of 20..400 add/remove/re-add/query operations over a random subset of all valid signals (all codes, all satellites incl. first and last of each "
     "constellation), compared after every step with std::set models of signals and (constellation, satellite) pairs. Non-trivial: at least one signal present at some point.");
NEED(adds, 100000);
NEED(removes_present, 30000);
NEED(removes_absent, 5000);
NEED(duplicate_adds, 20000);
NEED(count_checks, 200000);
NEED(full_sets, 20);

struct Model {
  std::set<std::pair<int, int>> sig;
  u32 sats() const {
    std::set<std::pair<int, int>> s;
    for (auto &p : sig) s.insert({static_cast<int>(plan_of(static_cast<code_t>(p.first))->cons), p.second});
    return static_cast<u32>(s.size());
  }
};
static void counts(const gnss_sid_set_t *s, const Model &m, const char *after) {
  u32 ns = sid_set_get_sig_count(s), nt = sid_set_get_sat_count(s);
  CHECK(ns == m.sig.size(), "sig_count", "signal count %u, %zu signals are in the set (after %s)", ns, m.sig.size(), after);
  CHECK(nt == m.sats(), "sat_count", "satellite count %u, %u satellites are in the set (after %s)", nt, m.sats(), after);
  ev("count_checks");
}

SECTION(history, 3000, 150000) {
  Buf<gnss_sid_set_t> s(1);
  c.r.bytes(s.p, sizeof(gnss_sid_set_t)); /* whatever was there before init */
  sid_set_init(s);
  Model m;
  const auto &all = all_sids();
  std::vector<gnss_signal_t> pool;
  size_t np = static_cast<size_t>(c.r.range(1, 60));
  int one_cons = c.r.coin(0.3) ? static_cast<int>(c.r.range(0, 5)) : -1;
  unsigned one_sat = static_cast<unsigned>(c.r.range(0, 63));
  bool same_sat = c.r.coin(0.3);
  for (size_t i = 0; pool.size() < np && i < 20000; i++) {
    gnss_signal_t x = c.r.pick(all);
    const ConsPlan &k = cons_of(plan_of(x.code)->cons);
    if (one_cons >= 0 && k.cons != one_cons) continue;
    if (same_sat) x.sat = static_cast<u16>(k.first + one_sat % k.count);
    else if (c.r.coin(0.3)) x.sat = static_cast<u16>(c.r.coin() ? k.first : k.first + k.count - 1);
    pool.push_back(x);
  }
  counts(s, m, "init");
  int64_t n = c.r.range(20, 400);
  double padd = c.r.uniform(0.3, 0.9);
  uint64_t h = 0;
  for (int64_t i = 0; i < n; i++) {
    gnss_signal_t x = c.r.pick(pool);
    std::pair<int, int> key{x.code, x.sat};
    bool had = m.sig.count(key);
    CHECK(sid_set_contains(s, x) == had, "contains", "membership of %s reported %d, expected %d", str(x).c_str(), !had, had);
    bool add = c.r.coin(padd);
    if (add) {
      sid_set_add(s, x);
      m.sig.insert(key);
      ev(had ? "duplicate_adds" : "adds");
    } else {
      sid_set_remove(s, x);
      m.sig.erase(key);
      ev(had ? "removes_present" : "removes_absent");
    }
    h = hcombine(h, static_cast<uint64_t>(x.code) << 20 | static_cast<uint64_t>(x.sat) << 1 | add);
    CHECK(sid_set_contains(s, x) == add, "contains_after", "%s of %s not reflected by the membership query", add ? "addition" : "removal", str(x).c_str());
    counts(s, m, add ? "add" : "remove");
  }
  for (auto &x : pool) {
    CHECK(sid_set_contains(s, x) == (m.sig.count({x.code, x.sat}) != 0), "contains_final", "%s: membership differs from the history", str(x).c_str());
  }
  if (!m.sig.empty()) c.nt(h);
}

SECTION(full, 24, 2000) {
  Buf<gnss_sid_set_t> s(1);
  sid_set_init(s);
  Model m;
  std::vector<gnss_signal_t> v = all_sids();
  c.r.shuffle(v);
  for (size_t i = 0; i < v.size(); i++) {
    sid_set_add(s, v[i]);
    m.sig.insert({v[i].code, v[i].sat});
    if (i % 97 == 0) counts(s, m, "add");
  }
  counts(s, m, "adding every signal");
  for (auto &x : v) CHECK(sid_set_contains(s, x), "contains", "%s missing from the full set", str(x).c_str());
  c.r.shuffle(v);
  for (size_t i = 0; i < v.size(); i++) {
    sid_set_remove(s, v[i]);
    m.sig.erase({v[i].code, v[i].sat});
    CHECK(!sid_set_contains(s, v[i]), "contains", "%s still there after removal", str(v[i]).c_str());
    if (i % 97 == 0) counts(s, m, "remove");
  }
  counts(s, m, "removing every signal");
  c.nt(static_cast<uint64_t>(c.idx));
  ev("full_sets");
}
