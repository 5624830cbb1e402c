// @run variant=asan shards=8
// @run variant=tsan shards=3 cpu=120
#include "gnss.h"
#include <pthread.h>
#include <swiftnav/glo_map.h>
#include <atomic>
#include <thread>
using namespace mon;
using namespace gnss;
RULE("case = a history of 50..500 set/clear/clear-all/valid/get/reverse queries over slots 0..40 and channels 0..30 against a map model, with every call's lock/unlock trace checked "
     "(balanced, never nested, lock taken by every call that uses the map, no lock left held), or 3 threads of set/clear/read or of whole-map operations under a real mutex and under ThreadSanitizer. Non-trivial: at least one "
     "slot mapped; identity = hash of the history.");
NEED(operations, 300000);
NEED(lock_pairs, 200000);
NEED(reverse_two, 5000);
NEED(reverse_one, 5000);
NEED(reverse_none, 5000);
NEED(concurrent_reads, 20000);
NEED(concurrent_bulk, 5000);
NEED(filled, 100);
NEED(reverse_not_a_channel, 5000);

static int depth, locks, unlocks, bad;
static void on_lock() {
  if (depth != 0) bad++;
  depth++;
  locks++;
}
static void on_unlock() {
  depth--;
  if (depth != 0) bad++;
  unlocks++;
}
/* run f and check its lock trace */
template <class F>
static void traced(const char *what, bool must_lock, F f) {
  depth = locks = unlocks = bad = 0;
  f();
  CHECK(bad == 0 && depth == 0, "lock_balance", "%s: %d locks, %d unlocks, %d nesting errors, depth %d on return", what, locks, unlocks, bad, depth);
  CHECK(!must_lock || locks > 0, "lock_missing", "%s used the map without taking the registered lock", what);
  ev("lock_pairs", locks);
  ev("operations");
}

SECTION(history, 1500, 60000) {
  glo_map_init(on_lock, on_unlock);
  std::map<int, int> m;
  traced("clear_all", true, [] { glo_map_clear_all(); });
  int64_t n = c.r.range(50, 500);
  uint64_t h = 0;
  bool any = false;
  int nch = static_cast<int>(c.r.range(1, 14)); /* few channels -> shared ones */
  for (int64_t i = 0; i < n; i++) {
    int slot = static_cast<int>(c.r.range(1, 28));
    int fcn = static_cast<int>(c.r.range(1, nch));
    code_t code = c.r.pick<code_t>({CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P});
    int64_t op = c.r.range(0, 99);
    h = hcombine(h, static_cast<uint64_t>(op / 10 * 10000 + slot * 100 + fcn));
    if (op < 35) {
      traced("set", true, [&] { glo_map_set_slot_id(static_cast<u16>(fcn), static_cast<u16>(slot)); });
      m[slot] = fcn;
      any = true;
    } else if (op < 42) { /* out-of-range arguments are ignored */
      int s = c.r.coin() ? slot : static_cast<int>(c.r.pick<int>({0, 29, 30, 40, 255, 257, 65535}));
      int f = s == slot || c.r.coin() ? static_cast<int>(c.r.pick<int>({0, 15, 16, 30, 255, 256, 257, 65535})) : fcn;
      traced("set(out of range)", false, [&] { glo_map_set_slot_id(static_cast<u16>(f), static_cast<u16>(s)); });
    } else if (op < 52) {
      traced("clear", true, [&] { glo_map_clear_slot_id(static_cast<u16>(slot)); });
      m.erase(slot);
    } else if (op == 52 && c.r.coin(0.3)) { /* documented as a test aid: every slot mapped, to nothing in particular */
      traced("fill", true, [] { glo_map_fill_dummy_data(); });
      for (int s = 1; s <= 28; s++) m[s] = -1;
      ev("filled");
    } else if (op < 53) {
      traced("clear_all", true, [] { glo_map_clear_all(); });
      m.clear();
    } else if (op < 70) {
      bool v = false;
      traced("valid", true, [&] { v = glo_map_valid(sid(code, static_cast<unsigned>(slot))); });
      CHECK(v == (m.count(slot) != 0), "valid", "slot %d reported %s", slot, v ? "mapped" : "unmapped");
      if (v) {
        u16 f = 0;
        traced("get", true, [&] { f = glo_map_get_fcn(sid(code, static_cast<unsigned>(slot))); });
        CHECK(f == m[slot] || m[slot] < 0, "get", "slot %d: channel %u, last assigned %d", slot, f, m[slot]);
      }
    } else {
      int f = c.r.coin(0.2) ? static_cast<int>(c.r.range(1, 14)) : fcn;
      u16 a = 99, b = 99;
      int cnt = -1;
      traced("get_slot_id", true, [&] { cnt = glo_map_get_slot_id(static_cast<u16>(f), &a, &b); });
      bool dummy = false;
      for (auto &kv : m) dummy |= kv.second < 0;
      if (c.r.coin(0.3)) { /* a number that is no channel has no satellites, whatever channel it looks like in fewer bits */
        int w = static_cast<int>(c.r.coin() ? 256 * c.r.range(1, 255) + f : c.r.pick<int>({15, 16, 17, 255, 256, 512 + f, 32768 + f, 65535}));
        u16 wa = 99, wb = 99;
        int wn = -1;
        traced("get_slot_id(no channel)", false, [&] { wn = glo_map_get_slot_id(static_cast<u16>(w), &wa, &wb); });
        if (!dummy) CHECK(wn == 0, "reverse_not_a_channel", "%d slots reported for channel number %d", wn, w);
        ev("reverse_not_a_channel");
      }
      if (dummy) {
        CHECK(cnt >= 0 && cnt <= 2, "reverse_count", "%d slots reported", cnt);
        continue;
      }
      std::vector<int> on;
      for (auto &kv : m)
        if (kv.second == f) on.push_back(kv.first);
      /* a channel is shared by at most two (antipodal) satellites; more are reported as two */
      int want = std::min<int>(2, static_cast<int>(on.size()));
      CHECK(cnt == want, "reverse_count", "channel %d: %d slots reported, %zu mapped", f, cnt, on.size());
      CHECK(cnt < 1 ? a == 0 : (m.count(a) && m[a] == f), "reverse_slot", "channel %d: first slot %u is not on it", f, a);
      CHECK(cnt < 2 ? b == 0 : (m.count(b) && m[b] == f && a != b), "reverse_slot", "channel %d: second slot %u is not on it (first %u)", f, b, a);
      ev(cnt == 0 ? "reverse_none" : cnt == 1 ? "reverse_one" : "reverse_two");
    }
  }
  for (int s = 1; s <= 28; s++) {
    CHECK(glo_map_valid(sid(CODE_GLO_L1OF, static_cast<unsigned>(s))) == (m.count(s) != 0), "valid_final", "slot %d at the end of the history", s);
    if (m.count(s) && m[s] >= 0) CHECK(glo_map_get_fcn(sid(CODE_GLO_L2OF, static_cast<unsigned>(s))) == m[s], "get_final", "slot %d at the end of the history", s);
  }
  /* without callbacks the map still works, and the old callbacks are no longer called */
  glo_map_init(nullptr, nullptr);
  locks = unlocks = 0;
  glo_map_set_slot_id(3, 4);
  CHECK(glo_map_get_fcn(sid(CODE_GLO_L1OF, 4)) == 3, "no_callbacks", "assignment lost without callbacks");
  CHECK(locks == 0 && unlocks == 0, "stale_callbacks", "replaced callbacks still called");
  glo_map_clear_all();
  if (any) c.nt(h);
}

static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static void mlock() { pthread_mutex_lock(&mtx); }
static void munlock() { pthread_mutex_unlock(&mtx); }

SECTION(concurrent, 24, 600) {
  glo_map_init(mlock, munlock);
  glo_map_clear_all();
  for (unsigned s = 1; s <= 14; s++) glo_map_set_slot_id(1, static_cast<u16>(s)); /* 1..14 stay mapped, channel changes */
  std::atomic<bool> bad{false};
  std::atomic<int64_t> reads{0};
  uint64_t s1 = c.r.u64(), s2 = c.r.u64(), s3 = c.r.u64();
  auto writer = [&](uint64_t seed) {
    Rng r(seed);
    for (int i = 0; i < 1500; i++) {
      if (r.coin(0.7)) glo_map_set_slot_id(static_cast<u16>(r.range(1, 14)), static_cast<u16>(r.range(1, 14)));
      else if (r.coin()) glo_map_set_slot_id(static_cast<u16>(r.range(1, 14)), static_cast<u16>(r.range(15, 28)));
      else glo_map_clear_slot_id(static_cast<u16>(r.range(15, 28)));
    }
  };
  auto reader = [&] {
    Rng r(s3);
    for (int i = 0; i < 1500; i++) {
      gnss_signal_t x = sid(r.coin() ? CODE_GLO_L1OF : CODE_GLO_L2OF, static_cast<unsigned>(r.range(1, 14)));
      if (!glo_map_valid(x)) bad = true;
      u16 f = glo_map_get_fcn(x);
      if (f < 1 || f > 14) bad = true;
      double hz = sid_to_carr_freq(x);
      if (!(hz > 1.2e9 && hz < 1.61e9)) bad = true;
      u16 a, b;
      if (glo_map_get_slot_id(f, &a, &b) > 2) bad = true;
      reads++;
    }
  };
  std::thread a(writer, s1), b(writer, s2), d(reader);
  a.join();
  b.join();
  d.join();
  glo_map_init(nullptr, nullptr);
  glo_map_clear_all();
  CHECK(!bad, "concurrent_value", "a reader observed a value no writer assigned");
  ev("concurrent_reads", reads);
  c.nt(c.r.u64());
}

/* whole-map operations against single-slot ones: judged by the race detector and by what a query may return */
SECTION(bulk, 24, 400) {
  glo_map_init(mlock, munlock);
  glo_map_clear_all();
  std::atomic<bool> bad{false};
  std::atomic<int64_t> ops{0};
  bool fill = c.r.coin(0.4);
  uint64_t seeds[3] = {c.r.u64(), c.r.u64(), c.r.u64()};
  auto body = [&](int k) {
    Rng r(seeds[k]);
    for (int i = 0; i < 250; i++) {
      u16 slot = static_cast<u16>(r.range(1, 28)), f = static_cast<u16>(r.range(1, 14)), a = 0, b = 0;
      switch (r.range(0, 5)) {
        case 0:
          glo_map_clear_all();
          break;
        case 1:
          if (fill) glo_map_fill_dummy_data();
          break;
        case 2:
          glo_map_set_slot_id(f, slot);
          break;
        case 3:
          glo_map_clear_slot_id(slot);
          break;
        case 4:
          (void)glo_map_valid(sid(CODE_GLO_L1OF, slot));
          break;
        default: {
          u8 n = glo_map_get_slot_id(f, &a, &b);
          if (n > 2 || (n == 0 && a) || (n < 2 && b) || (n >= 1 && (a < 1 || a > 28)) || (n == 2 && (b <= 0 || b > 28 || a == b))) bad = true;
        }
      }
      ops++;
    }
  };
  std::thread a(body, 0), b(body, 1), d(body, 2);
  a.join();
  b.join();
  d.join();
  CHECK(!bad, "bulk_value", "a reverse query answered inconsistently");
  glo_map_clear_all();
  for (unsigned s = 1; s <= 28; s++) CHECK(!glo_map_valid(sid(CODE_GLO_L1OF, s)), "bulk_clear", "slot %u mapped after everything was cleared", s);
  glo_map_init(nullptr, nullptr);
  ev("concurrent_bulk", ops);
  c.nt(c.r.u64());
}
