// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/nav_meas.h>
#include <algorithm>
using namespace mon;
using namespace gnss;
RULE("case = one valid signal against every other valid signal (exhaustive pairs in the thorough tier, a random tenth per signal in the quick tier), random triples, random arrays "
     "sorted with the library's comparison, or one signal rendered to text in an exact-size buffer. Non-trivial: operands differ; identity = the operands.");
NEED(pairs, 500000);
NEED(triples, 100000);
NEED(sorted_arrays, 1000);
NEED(labels, 3000);

static int sgn(int v) { return (v > 0) - (v < 0); }

SECTION(pairs, 2100, 2100) {
  const auto &v = all_sids();
  gnss_signal_t a = v[static_cast<size_t>(c.idx) % v.size()];
  c.nt(static_cast<uint64_t>(c.idx));
  for (auto &b0 : v) {
    if (!c.thorough && !c.r.coin(0.15) && b0.sat != a.sat && b0.code != a.code) continue;
    gnss_signal_t b = b0;
    bool eq = a.code == b.code && a.sat == b.sat;
    int r = sid_compare(a, b), q = sid_compare(b, a);
    CHECK((r == 0) == eq, "compare_eq", "%s vs %s: comparison %d", str(a).c_str(), str(b).c_str(), r);
    CHECK(sgn(r) == -sgn(q), "antisymmetry", "%s vs %s: %d and %d", str(a).c_str(), str(b).c_str(), r, q);
    CHECK(sid_is_equal(a, b) == eq, "is_equal", "%s vs %s: equality", str(a).c_str(), str(b).c_str());
    CHECK((sid_hash(a) == sid_hash(b)) == eq, "hash", "%s vs %s: hashes %x %x", str(a).c_str(), str(b).c_str(), sid_hash(a), sid_hash(b));
    CHECK(sgn(cmp_sid_sid(&a, &b)) == sgn(r), "untyped", "%s vs %s: untyped comparison differs", str(a).c_str(), str(b).c_str());
    CHECK((a == b) == eq && (a != b) == !eq && (a < b) == (r < 0) && (a > b) == (r > 0) && (a <= b) == (r <= 0) && (a >= b) == (r >= 0), "operators", "%s vs %s: operators disagree with the comparison",
          str(a).c_str(), str(b).c_str());
    navigation_measurement_t m, n;
    c.r.bytes(&m, 64); /* other contents must not matter */
    c.r.bytes(&n, 64);
    m.sid = a;
    n.sid = b;
    CHECK(sgn(nav_meas_cmp(&m, &n)) == sgn(r), "nav_meas_cmp", "%s vs %s: measurement order %d", str(a).c_str(), str(b).c_str(), nav_meas_cmp(&m, &n));
    ev("pairs");
  }
}

SECTION(any_sat, 20000, 500000) { /* satellites outside the tables, valid codes */
  gnss_signal_t a = sid(c.r.pick(plan()).code, static_cast<unsigned>(c.r.edgy(0, 65535)));
  gnss_signal_t b = c.r.coin(0.3) ? sid(a.code, static_cast<unsigned>(c.r.edgy(0, 65535))) : sid(c.r.pick(plan()).code, c.r.coin() ? a.sat : static_cast<unsigned>(c.r.edgy(0, 65535)));
  bool eq = a.code == b.code && a.sat == b.sat;
  CHECK((sid_hash(a) == sid_hash(b)) == eq, "hash", "%s vs %s: hashes %x %x", str(a).c_str(), str(b).c_str(), sid_hash(a), sid_hash(b));
  CHECK((sid_compare(a, b) == 0) == eq && sid_is_equal(a, b) == eq, "compare_eq", "%s vs %s", str(a).c_str(), str(b).c_str());
  CHECK(sgn(sid_compare(a, b)) == -sgn(sid_compare(b, a)), "antisymmetry", "%s vs %s", str(a).c_str(), str(b).c_str());
  gnss_signal_t u = SID_UNKNOWN;
  CHECK(!sid_is_equal(a, u) && sid_compare(u, u) == 0 && sgn(sid_compare(a, u)) == -sgn(sid_compare(u, a)) && sid_compare(a, u) != 0, "unknown", "%s vs the unknown signal", str(a).c_str());
  c.nt(sid_hash(a) ^ mix(sid_hash(b)));
}

SECTION(triples, 150000, 5000000) {
  const auto &v = all_sids();
  gnss_signal_t a = c.r.pick(v), b = c.r.pick(v), d = c.r.pick(v);
  if (c.r.coin()) b.sat = a.sat;
  if (c.r.coin(0.3)) d.code = a.code;
  int ab = sid_compare(a, b), bd = sid_compare(b, d), ad = sid_compare(a, d);
  if (ab < 0 && bd < 0) CHECK(ad < 0, "transitivity", "%s < %s < %s but not first < last", str(a).c_str(), str(b).c_str(), str(d).c_str());
  if (ab > 0 && bd > 0) CHECK(ad > 0, "transitivity", "%s > %s > %s but not first > last", str(a).c_str(), str(b).c_str(), str(d).c_str());
  c.nt(hcombine(sid_hash(a), hcombine(sid_hash(b), sid_hash(d))));
  ev("triples");
}

SECTION(sorting, 1500, 50000) {
  std::vector<gnss_signal_t> v;
  int64_t n = c.r.range(2, 120);
  for (int64_t i = 0; i < n; i++) v.push_back(c.r.pick(all_sids()));
  std::vector<navigation_measurement_t> m(v.size());
  for (size_t i = 0; i < v.size(); i++) {
    memset(&m[i], 0, sizeof m[i]);
    m[i].sid = v[i];
    m[i].cn0 = static_cast<double>(i);
  }
  std::vector<gnss_signal_t> w = v;
  qsort(w.data(), w.size(), sizeof(w[0]), cmp_sid_sid);
  qsort(m.data(), m.size(), sizeof(m[0]), nav_meas_cmp);
  std::multiset<std::pair<int, int>> before, after;
  for (auto &x : v) before.insert({x.code, x.sat});
  for (auto &x : w) after.insert({x.code, x.sat});
  CHECK(before == after, "sort_permutation", "sorting lost or invented signals");
  std::set<int> done;
  int cur = -2;
  for (size_t i = 0; i < w.size(); i++) {
    CHECK(m[i].sid.code == w[i].code && m[i].sid.sat == w[i].sat, "sort_meas", "measurements sort differently from their signals");
    int k = plan_of(w[i].code)->cons;
    if (k != cur) {
      CHECK(!done.count(k), "contiguous", "constellation %d appears in two separate runs of the sorted list", k);
      done.insert(k);
      cur = k;
    }
    gnss_signal_t *f = static_cast<gnss_signal_t *>(bsearch(&v[i], w.data(), w.size(), sizeof(w[0]), cmp_sid_sid));
    CHECK(f && f->code == v[i].code && f->sat == v[i].sat, "search", "%s not found in the sorted list", str(v[i]).c_str());
  }
  c.nt(hbytes(w.data(), w.size() * sizeof(w[0])));
  ev("sorted_arrays");
}

SECTION(labels, 5000, 100000) {
  gnss_signal_t a;
  bool known = true;
  if (c.idx < static_cast<int64_t>(all_sids().size())) {
    a = all_sids()[static_cast<size_t>(c.idx)];
  } else {
    known = false;
    a = sid(c.r.coin(0.8) ? c.r.pick(plan()).code : static_cast<code_t>(c.r.pick<int>({-1, 64, 65, 100, -7})), static_cast<unsigned>(c.r.edgy(0, 65535)));
  }
  const SigPlan *p = plan_of(a.code);
  std::string want = std::string(p ? p->label : "?") + " " + std::to_string(a.sat);
  if (want.size() >= SID_STR_LEN_MAX) return; /* cannot be represented; refused by assertion */
  size_t n = SID_STR_LEN_MAX + (c.r.coin(0.2) ? static_cast<size_t>(c.r.range(0, 20)) : 0);
  Buf<char> b(n);
  memset(b.p, 0x7f, n);
  int r = sid_to_string(b, static_cast<int>(n), a);
  CHECK(memchr(b.p, 0, n) != nullptr, "terminated", "%s: no terminator within the buffer", str(a).c_str());
  CHECK(r == static_cast<int>(want.size()) && want == b.p, "text", "%s rendered '%s' (%d), expected '%s'", str(a).c_str(), b.p, r, want.c_str());
  char sfx[5];
  size_t sl = static_cast<size_t>(c.r.range(0, 4));
  for (size_t i = 0; i < 5; i++) sfx[i] = static_cast<char>(c.r.range('a', 'z'));
  std::string w2 = std::string(p ? p->label : "?") + std::string(sfx, sl) + std::to_string(a.sat);
  if (w2.size() < SID_STR_LEN_MAX) {
    Buf<char> d(w2.size() + 1);
    Buf<char> s(sl ? sl : 1);
    memcpy(s.p, sfx, sl);
    r = sat_code_to_string(d, sl, s, a.sat, a.code);
    CHECK(r == static_cast<int>(w2.size()) && w2 == d.p, "text_suffix", "%s rendered '%s' (%d), expected '%s'", str(a).c_str(), d.p, r, w2.c_str());
  }
  (void)known;
  ev("labels");
  c.nt(sid_hash(a));
}
