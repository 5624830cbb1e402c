// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/set.h>
#include <algorithm>
using namespace mon;
RULE("case = two random sorted duplicate-free arrays (0..40 elements, occasionally up to 70000, element sizes 4..40 and occasionally 255..1000 bytes with payload, sparse/dense/nested/disjoint/boundary keys) in exact-size heap "
     "blocks; every operation is compared with std::set algebra. Non-trivial: at least one array non-empty; identity = (contents, operands).");
NEED(intersections, 10000);
NEED(common_elements, 50000);
NEED(insertions, 8000);
NEED(removals, 3000);
NEED(removals_past_end, 500);
NEED(predicate_false, 3000);
NEED(large_arrays, 20);

struct Arr {
  size_t n, sz;
  Buf<u8> b;
  Arr(size_t n_, size_t sz_) : n(n_), sz(sz_), b(std::max<size_t>(n_ * sz_, 1)) {}
  u8 *at(size_t i) { return b.p + i * sz; }
  s32 key(size_t i) {
    s32 k;
    memcpy(&k, at(i), 4);
    return k;
  }
};
static std::vector<s32> keys(Ctx &c, size_t n, int span) {
  std::set<s32> s;
  s32 base = c.r.coin(0.2) ? INT32_MIN : c.r.coin(0.2) ? INT32_MAX - std::abs(span) - 1 : static_cast<s32>(c.r.range(-50, 50));
  while (s.size() < n) s.insert(static_cast<s32>(base + c.r.range(0, span)));
  return {s.begin(), s.end()};
}
static void fill(Ctx &c, Arr &a, const std::vector<s32> &k) {
  c.r.bytes(a.b.p, a.n * a.sz);
  for (size_t i = 0; i < a.n; i++) memcpy(a.at(i), &k[i], 4);
}
static size_t elem_size(Ctx &c) { return static_cast<size_t>(c.r.coin(0.1) ? c.r.pick<int>({255, 256, 257, 260, 512, 1000}) : c.r.pick<int>({4, 4, 6, 8, 12, 17, 40})); }

/* comparison that tolerates unaligned elements */
static int cmp_key(const void *a, const void *b) {
  s32 x, y;
  memcpy(&x, a, 4);
  memcpy(&y, b, 4);
  return (x > y) - (x < y);
}

struct MapCtx {
  std::vector<std::pair<const u8 *, const u8 *>> hits;
  bool bad_n = false;
};
static void on_common(void *ctx, u32 n, const void *a, const void *b) {
  MapCtx *m = static_cast<MapCtx *>(ctx);
  if (n != m->hits.size()) m->bad_n = true;
  m->hits.push_back({static_cast<const u8 *>(a), static_cast<const u8 *>(b)});
}

SECTION(intersection, 15000, 600000) {
  size_t na = static_cast<size_t>(c.r.range(0, 40)), nb = static_cast<size_t>(c.r.range(0, 40));
  if (c.r.coin(0.01)) na = static_cast<size_t>(c.r.range(250, 700));
  Arr a(na, elem_size(c)), b(nb, elem_size(c));
  int span = static_cast<int>(c.r.range(static_cast<int64_t>(std::max(na, nb)), c.r.coin() ? 60 : 3000)) + 700 * (na > 100);
  std::vector<s32> ka = keys(c, na, span), kb = keys(c, nb, span);
  if (c.r.coin(0.5)) { /* draw b from a's neighbourhood */
    std::set<s32> s;
    for (s32 k : ka)
      if (c.r.coin(0.6)) s.insert(k);
    while (s.size() < nb && s.size() < 40) s.insert(static_cast<s32>(c.r.range(-60, 3000)));
    kb.assign(s.begin(), s.end());
  }
  Arr b2(kb.size(), b.sz);
  fill(c, a, ka);
  fill(c, b2, kb);
  nb = kb.size();
  std::vector<u8> ca(a.b.p, a.b.p + a.b.n), cb(b2.b.p, b2.b.p + b2.b.n);
  std::vector<s32> common;
  std::set_intersection(ka.begin(), ka.end(), kb.begin(), kb.end(), std::back_inserter(common));
  size_t m = common.size();
  c.describe("|A|=%zu (elem %zu) |B|=%zu (elem %zu) common %zu", na, a.sz, nb, b2.sz, m);
  bool wa = c.r.coin(0.85), wb = c.r.coin(0.85);
  Arr oa(m, a.sz), ob(m, b2.sz);
  bool plain = a.sz % 4 == 0 && b2.sz % 4 == 0 && c.r.coin();
  s32 r = intersection(static_cast<u32>(na), a.sz, a.b.p, wa ? oa.b.p : nullptr, static_cast<u32>(nb), b2.sz, b2.b.p, wb ? ob.b.p : nullptr, plain ? cmp_s32_s32 : cmp_key);
  ev("intersections");
  ev("common_elements", static_cast<int64_t>(m));
  CHECK(r == static_cast<s32>(m), "intersection-count", "|A|=%zu |B|=%zu: %d common reported, %zu actual", na, nb, r, m);
  MapCtx mc;
  s32 r2 = intersection_map(static_cast<u32>(na), a.sz, a.b.p, static_cast<u32>(nb), b2.sz, b2.b.p, cmp_key, &mc, on_common);
  CHECK(r2 == static_cast<s32>(m) && mc.hits.size() == m && !mc.bad_n, "intersection-map-calls", "%d returned, %zu callbacks, %zu actual", r2, mc.hits.size(), m);
  for (size_t i = 0; i < m; i++) {
    size_t ia = static_cast<size_t>(std::lower_bound(ka.begin(), ka.end(), common[i]) - ka.begin());
    size_t ib = static_cast<size_t>(std::lower_bound(kb.begin(), kb.end(), common[i]) - kb.begin());
    if (wa) CHECK(memcmp(oa.at(i), a.at(ia), a.sz) == 0, "intersection-element-a", "common element %zu", i);
    if (wb) CHECK(memcmp(ob.at(i), b2.at(ib), b2.sz) == 0, "intersection-element-b", "common element %zu", i);
    CHECK(mc.hits[i].first == a.at(ia) && mc.hits[i].second == b2.at(ib), "intersection-map-args", "common element %zu", i);
  }
  CHECK(memcmp(ca.data(), a.b.p, ca.size()) == 0 && memcmp(cb.data(), b2.b.p, cb.size()) == 0, "input-modified", "intersection");
  if (na + nb) c.nt(hcombine(hbytes(ca.data(), ca.size()), hbytes(cb.data(), cb.size())));
}

SECTION(insert_remove, 20000, 600000) {
  size_t n = static_cast<size_t>(c.r.range(0, 40));
  if (c.r.coin(0.01)) n = static_cast<size_t>(c.r.range(250, 600));
  Arr a(n, elem_size(c));
  std::vector<s32> k = keys(c, n, static_cast<int>(n) + 1 + static_cast<int>(c.r.range(0, 100)));
  fill(c, a, k);
  std::vector<u8> ca(a.b.p, a.b.p + a.b.n);
  Buf<u8> el(a.sz);
  c.r.bytes(el.p, a.sz);
  s32 key;
  switch (n ? c.r.range(0, 3) : 0) {
    case 1: key = k[static_cast<size_t>(c.r.range(0, static_cast<int64_t>(n) - 1))]; break;
    case 2: key = static_cast<s32>(std::min<int64_t>(INT32_MAX, static_cast<int64_t>(k.back()) + c.r.range(0, 3))); break;
    case 3: key = static_cast<s32>(std::max<int64_t>(INT32_MIN, static_cast<int64_t>(k.front()) - c.r.range(0, 3))); break;
    default: key = static_cast<s32>(c.r.range(-60, 160));
  }
  memcpy(el.p, &key, 4);
  size_t pos = static_cast<size_t>(std::lower_bound(k.begin(), k.end(), key) - k.begin());
  bool present = pos < n && k[pos] == key;
  c.describe("n=%zu elem %zu key %d at %zu present %d", n, a.sz, key, pos, present);
  u32 ii = insertion_index(static_cast<u32>(n), a.sz, a.b.p, el.p, cmp_key);
  CHECK(ii == pos, "insertion-index", "%u, expected %zu of %zu", ii, pos, n);
  if (!present) {
    Arr o(n + 1, a.sz);
    u32 r = insert_element(static_cast<u32>(n), a.sz, a.b.p, o.b.p, el.p, cmp_key);
    ev("insertions");
    CHECK(r == pos, "insert-position", "%u, expected %zu of %zu", r, pos, n);
    for (size_t i = 0; i <= n; i++) {
      const u8 *want = i < pos ? a.at(i) : i == pos ? el.p : a.at(i - 1);
      CHECK(memcmp(o.at(i), want, a.sz) == 0, "insert-contents", "element %zu of %zu, inserted at %zu", i, n + 1, pos);
    }
    CHECK(is_set(static_cast<u8>(std::min<size_t>(n + 1, 255)), a.sz, o.b.p, cmp_key), "insert-not-a-set", "n %zu", n);
  }
  {
    size_t outn = n ? n - 1 : 0;
    Arr o(outn, a.sz);
    size_t gone = n == 0 ? 0 : std::min(pos, n - 1);
    u32 r = remove_element(static_cast<u32>(n), a.sz, a.b.p, o.b.p, el.p, cmp_key);
    ev("removals");
    if (pos == n) ev("removals_past_end");
    CHECK(r == gone, "remove-position", "%u, expected %zu of %zu", r, gone, n);
    for (size_t i = 0; i < outn; i++) CHECK(memcmp(o.at(i), a.at(i < gone ? i : i + 1), a.sz) == 0, "remove-contents", "element %zu of %zu, removed %zu", i, outn, gone);
  }
  CHECK(memcmp(ca.data(), a.b.p, ca.size()) == 0, "input-modified", "insert/remove");
  CHECK(memcmp(el.p, &key, 4) == 0, "input-modified", "element");
  c.nt(hcombine(hbytes(ca.data(), ca.size()), static_cast<u64>(key)));
}

SECTION(predicate, 15000, 400000) {
  size_t n = static_cast<size_t>(c.r.coin(0.05) ? c.r.range(200, 255) : c.r.range(0, 20));
  Arr a(n, elem_size(c));
  std::vector<s32> k = keys(c, n, static_cast<int>(n) + static_cast<int>(c.r.range(0, 50)));
  if (n >= 2 && c.r.coin(0.6)) {
    size_t i = c.r.coin(0.3) ? (c.r.coin() ? 0 : n - 2) : static_cast<size_t>(c.r.range(0, static_cast<int64_t>(n) - 2));
    if (c.r.coin()) k[i + 1] = k[i];
    else std::swap(k[i], k[i + 1]);
  }
  fill(c, a, k);
  bool want = true;
  for (size_t i = 1; i < n; i++) want &= k[i - 1] < k[i];
  bool got = is_set(static_cast<u8>(n), a.sz, a.b.p, cmp_key);
  ev(want ? "predicate_true" : "predicate_false");
  c.describe("n=%zu strictly increasing %d", n, want);
  CHECK(got == want, "is-set", "n %zu: %d, expected %d", n, got, want);
  if (n) c.nt(hbytes(a.b.p, n * a.sz));
}

static gnss_signal_t rnd_sid(Ctx &c) {
  gnss_signal_t s;
  memset(&s, 0, sizeof s);
  for (;;) {
    s.code = static_cast<code_t>(c.r.range(0, CODE_COUNT - 1));
    s.sat = static_cast<u16>(c.r.range(1, 140));
    if (sid_valid(s)) return s;
  }
}
SECTION(sids, 8000, 200000) {
  size_t n = static_cast<size_t>(c.r.range(0, 12));
  std::vector<gnss_signal_t> v;
  for (size_t i = 0; i < n; i++) v.push_back(rnd_sid(c));
  std::sort(v.begin(), v.end(), [](const gnss_signal_t &a, const gnss_signal_t &b) { return sid_compare(a, b) < 0; });
  if (c.r.coin(0.7)) v.erase(std::unique(v.begin(), v.end(), [](const gnss_signal_t &a, const gnss_signal_t &b) { return a.code == b.code && a.sat == b.sat; }), v.end());
  if (v.size() >= 2 && c.r.coin(0.3)) std::swap(v[0], v[v.size() - 1]);
  bool want = true;
  for (size_t i = 1; i < v.size(); i++) want &= sid_compare(v[i - 1], v[i]) < 0;
  Buf<gnss_signal_t> b(std::max<size_t>(v.size(), 1));
  for (size_t i = 0; i < v.size(); i++) b[i] = v[i];
  CHECK(is_sid_set(static_cast<u8>(v.size()), b) == want, "is-sid-set", "n %zu expected %d", v.size(), want);
  ev(want ? "predicate_true" : "predicate_false");
  if (v.size()) c.nt(hbytes(b.p, v.size() * sizeof(gnss_signal_t)));
}

/* arrays of more than 65535 elements; one operation each, the expected result computed directly */
SECTION(large, 24, 1500) {
  size_t n = static_cast<size_t>(c.r.coin() ? c.r.range(65530, 65545) : c.r.range(65536, 70000)), sz = static_cast<size_t>(c.r.pick<int>({4, 8, 5}));
  Arr a(n, sz);
  std::vector<s32> k(n);
  s32 x = static_cast<s32>(c.r.range(-100000, 0));
  for (auto &v : k) v = x += static_cast<s32>(c.r.range(1, 3));
  fill(c, a, k);
  std::vector<u8> el(sz);
  c.r.bytes(el.data(), sz);
  size_t pos = static_cast<size_t>(c.r.coin(0.4) ? static_cast<int64_t>(n) - c.r.range(1, 8) : c.r.coin() ? c.r.range(0, 20) : c.r.range(0, static_cast<int64_t>(n) - 1));
  bool present = c.r.coin();
  s32 key = k[pos];
  if (!present) {
    while (pos < n && k[pos] == key) key++, pos++;
    if (pos < n && k[pos] == key) present = true;
  }
  memcpy(el.data(), &key, 4);
  c.describe("n=%zu elem %zu key %d at %zu present %d", n, sz, key, pos, present);
  CHECK(insertion_index(static_cast<u32>(n), sz, a.b.p, el.data(), cmp_key) == pos, "large-insertion-index", "expected %zu", pos);
  if (!present) {
    Arr o(n + 1, sz);
    u32 r = insert_element(static_cast<u32>(n), sz, a.b.p, o.b.p, el.data(), cmp_key);
    CHECK(r == pos && !memcmp(o.b.p, a.b.p, pos * sz) && !memcmp(o.at(pos), el.data(), sz) && !memcmp(o.at(pos) + sz, a.at(pos), (n - pos) * sz), "large-insert", "at %u, expected %zu", r, pos);
  }
  size_t gone = std::min(pos, n - 1);
  Arr o(n - 1, sz);
  u32 r = remove_element(static_cast<u32>(n), sz, a.b.p, o.b.p, el.data(), cmp_key);
  CHECK(r == gone && !memcmp(o.b.p, a.b.p, gone * sz) && !memcmp(o.b.p + gone * sz, a.at(gone) + sz, (n - gone - 1) * sz), "large-remove", "at %u, expected %zu", r, gone);
  /* intersection with a thinned copy */
  std::vector<size_t> pick;
  for (size_t i = 0; i < n; i++)
    if (!c.r.coin(0.02) || i == n - 1) pick.push_back(i);
  size_t m = pick.size();
  Arr b(m, 4), oa(m, sz), ob(m, 4);
  for (size_t i = 0; i < m; i++) memcpy(b.at(i), &k[pick[i]], 4);
  s32 got = c.r.coin() ? intersection(static_cast<u32>(n), sz, a.b.p, oa.b.p, static_cast<u32>(m), 4, b.b.p, ob.b.p, cmp_key) : intersection(static_cast<u32>(m), 4, b.b.p, ob.b.p, static_cast<u32>(n), sz, a.b.p, oa.b.p, cmp_key);
  CHECK(got == static_cast<s32>(m), "large-intersection", "%d common, expected %zu", got, m);
  CHECK(!memcmp(ob.b.p, b.b.p, m * 4), "large-intersection", "elements of the second array");
  for (size_t i = 0; i < m; i++) CHECK(!memcmp(oa.at(i), a.at(pick[i]), sz), "large-intersection", "element %zu", i);
  ev("large_arrays");
  c.nt(hcombine(hcombine(n, m), static_cast<u64>(key)));
}
