// @run variant=asan shards=8
#include "mon.h"
#include "timeref.h"
using namespace mon;
using namespace tref;
RULE("cycle: for one reference week, every raw 10-bit (8-bit) week, plus already-full weeks -> the unique congruent week in [ref, ref+1023] ([ref, ref+255]). match: time without week against a reference -> "
     "the week putting it within half a week, refusal exactly when that week is negative or the time invalid. Non-trivial: every case; identity = reference / inputs.");
NEED(resolved_1024, 500000);
NEED(resolved_256, 200000);
NEED(already_full, 50000);
NEED(matched_same, 10000);
NEED(matched_previous, 5000);
NEED(matched_next, 5000);
NEED(match_refused, 1000);
NEED(match_ref_unknown, 2000);

/* quick: 3000 references spread over the whole range; thorough: all of them */
SECTION(cycle, 3000, 64512) {
  unsigned ref = c.thorough ? static_cast<unsigned>(c.idx) : c.idx < 1000 ? static_cast<unsigned>(1400 + c.idx) : static_cast<unsigned>(c.r.edgy(0, 64511));
  c.describe("reference week %u", ref);
  c.nt(ref);
  for (unsigned raw = 0; raw < 1024; raw++) {
    unsigned g = gps_adjust_week_cycle(static_cast<u16>(raw), static_cast<u16>(ref));
    CHECK(g % 1024 == raw, "low_bits", "raw %u ref %u -> %u", raw, ref, g);
    /* weeks already at or after the reference are unchanged */
    CHECK(g >= ref && (raw >= ref ? g == raw : g <= ref + 1023), "window", "raw %u ref %u -> %u", raw, ref, g);
  }
  ev("resolved_1024", 1024);
  for (unsigned raw = 0; raw < 256; raw++) {
    unsigned g = gps_adjust_week_cycle256(static_cast<u16>(raw), static_cast<u16>(ref));
    CHECK(g % 256 == raw, "low_bits256", "raw %u ref %u -> %u", raw, ref, g);
    CHECK(g >= ref && (raw >= ref ? g == raw : g <= ref + 255), "window256", "raw %u ref %u -> %u", raw, ref, g);
  }
  ev("resolved_256", 256);
  for (int i = 0; i < 32; i++) {
    unsigned full = static_cast<unsigned>(c.r.coin() ? c.r.range(ref, 65535) : std::min<int64_t>(65535, ref + c.r.range(0, 1500)));
    CHECK(gps_adjust_week_cycle(static_cast<u16>(full), static_cast<u16>(ref)) == full, "full", "week %u not before ref %u changed", full, ref);
    CHECK(gps_adjust_week_cycle256(static_cast<u16>(full), static_cast<u16>(ref)) == full, "full256", "week %u not before ref %u changed", full, ref);
    ev("already_full");
  }
}

SECTION(match, 100000, 3000000) {
  gps_time_t ref = mk(static_cast<int>(c.r.coin(0.1) ? WN_UNKNOWN : c.r.coin(0.2) ? c.r.pick<int64_t>({0, 1, 32766}) : c.r.range(0, 32766)), gen_tow(c.r));
  gps_time_t t = mk(c.r.coin(0.7) ? WN_UNKNOWN : static_cast<int>(c.r.edgy(0, 32767)), gen_tow(c.r)), was = t;
  if (c.r.coin(0.2)) t.tow = was.tow = fmod(ref.tow + 302400 + c.r.pick<double>({-1, -1e-3, 0, 1e-3, 1}), W);
  if (t.tow < 0) t.tow = was.tow = 0;
  c.describe("match tow %.17g to (%d, %.17g)", t.tow, ref.wn, ref.tow);
  c.nt(hcombine(hcombine(hd(t.tow), hd(ref.tow)), static_cast<uint64_t>(ref.wn)));
  bool ok = gps_time_match_weeks_safe(&t, &ref);
  if (ref.wn == WN_UNKNOWN) {
    CHECK(ok && t.wn == was.wn && t.tow == was.tow, "ref_unknown", "time changed although the reference has no week");
    ev("match_ref_unknown");
    return;
  }
  ld d = static_cast<ld>(t.tow) - ref.tow;
  if (fabsl(fabsl(d) - W / 2) < 1e-9L) return; /* either neighbour is half a week away */
  int k = d > W / 2 ? -1 : d < -W / 2 ? 1 : 0;
  CHECK(t.tow == was.tow, "tow", "time of week changed");
  if (ref.wn + k < 0) {
    CHECK(!ok, "negative", "accepted a week before 0: ref (%d, %.17g) tow %.17g", ref.wn, ref.tow, t.tow);
    ev("match_refused");
    return;
  }
  CHECK(ok, "refused", "refused ref (%d, %.17g) tow %.17g", ref.wn, ref.tow, t.tow);
  ld off = static_cast<ld>(secs(t) - secs(ref));
  CHECK(fabsl(off) <= W / 2 + 1e-9L, "half_week", "ref (%d, %.17g) tow %.17g -> week %d", ref.wn, ref.tow, t.tow, t.wn);
  ev(k == 0 ? "matched_same" : k < 0 ? "matched_previous" : "matched_next");
  gps_time_t a = was;
  gps_time_match_weeks(&a, &ref);
  CHECK(a.wn == t.wn && a.tow == t.tow, "asserting", "the asserting form gives week %d, the other %d", a.wn, t.wn);
  /* an invalid time of week is refused */
  gps_time_t bad = mk(WN_UNKNOWN, c.r.pick<double>({-0.5, 604800, 700000, NAN, INFINITY, -1e9}));
  CHECK(!gps_time_match_weeks_safe(&bad, &ref), "bad_tow", "accepted tow %g", bad.tow);
}
