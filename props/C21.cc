// @run variant=asan shards=8
#include "mon.h"
#include "timeref.h"
using namespace mon;
using namespace tref;
RULE("case = time (week boundaries, exact epochs and their neighbours, mid-points, random) x solution rate that divides the week; both roundings. Non-trivial: every case; identity = time and rate.");
NEED(rounded_up, 10000);
NEED(rounded_down, 10000);
NEED(week_rollovers, 1000);
NEED(exact_epochs, 5000);
NEED(unknown_weeks, 1000);

SECTION(epoch, 150000, 5000000) {
  double f = c.r.pick<double>({1, 2, 4, 5, 8, 10, 20, 25, 50, 100, 200, 1000, 4000, 0.5, 0.2, 0.1, 1.0 / 60});
  gps_time_t t = mk(static_cast<int>(c.r.coin(0.05) ? WN_UNKNOWN : c.r.range(1, 32000)), gen_tow(c.r));
  if (c.r.coin(0.4)) {
    double k = static_cast<double>(c.r.range(0, static_cast<int64_t>(W * f) - 1));
    t.tow = (k + c.r.pick<double>({0, 0.5, 0.25, 0.75, 1e-6, 0.999999})) / f;
    if (c.r.coin(0.2)) t.tow = nextafter(t.tow, c.r.coin() ? -1 : 1e9);
    if (c.r.coin(0.1)) t.tow = W - c.r.uniform(0, 1) / f;
    if (t.tow < 0 || t.tow >= W) t.tow = 0;
  }
  c.describe("(%d, %.17g) at %g Hz", t.wn, t.tow, f);
  c.nt(hcombine(hcombine(hd(t.tow), hd(f)), static_cast<uint64_t>(t.wn)));
  ld P = 1 / static_cast<ld>(f), guard = 1e-9L;
  for (int fl = 0; fl < 2; fl++) {
    const char *who = fl ? "floor" : "round";
    gps_time_t e = fl ? floor_to_epoch(&t, f) : round_to_epoch(&t, f);
    CHECK(e.tow >= 0 && e.tow < W, "canonical", "%s -> (%d, %.17g)", who, e.wn, e.tow);
    ld d; /* exact shift applied */
    if (t.wn == WN_UNKNOWN) {
      CHECK(e.wn == WN_UNKNOWN, "unknown", "%s -> week %d", who, e.wn);
      d = static_cast<ld>(e.tow) - t.tow;
      if (d < -W / 2) d += W;
      ev("unknown_weeks");
    } else {
      d = static_cast<ld>(secs(e) - secs(t));
      if (e.wn != t.wn) ev("week_rollovers");
    }
    ld k = static_cast<ld>(e.tow) * f;
    CHECK(fabsl(k - roundl(k)) <= 1e-9L * f, "multiple", "%s -> tow %.17g is not an epoch", who, e.tow);
    if (fl) CHECK(d <= guard && d > -P - guard, "floor", "floor -> (%d, %.17g), %Lg s away", e.wn, e.tow, d);
    else CHECK(fabsl(d) <= P / 2 + guard, "round", "round -> (%d, %.17g), %Lg s away", e.wn, e.tow, d);
    if (fl) {
      /* the next epoch is really later than the input */
      ld kk = static_cast<ld>(t.tow) * f;
      if (fabsl(kk - roundl(kk)) > 1e-6L) CHECK(fabsl(d + (kk - floorl(kk)) * P) <= guard, "latest", "floor -> (%d, %.17g)", e.wn, e.tow);
      else ev("exact_epochs");
    } else {
      ev(d > 0 ? "rounded_up" : "rounded_down");
    }
    bool exact = f == 1 || f == 2 || f == 4 || f == 5 || f == 8 || f == 10 || f == 20;
    if (!fl || exact) {
      gps_time_t again = fl ? floor_to_epoch(&e, f) : round_to_epoch(&e, f);
      CHECK(again.wn == e.wn && fabs(again.tow - e.tow) <= 1e-9, "idempotent", "%s -> (%d, %.17g) -> (%d, %.17g)", who, e.wn, e.tow, again.wn, again.tow);
    }
  }
}
