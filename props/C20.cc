// @run variant=asan shards=8
#include "mon.h"
#include "timeref.h"
using namespace mon;
using namespace tref;
RULE("day: every day number of every four-year interval 1..26 (1996-2099), several times of day each: GLONASS -> GPS -> GLONASS. instant: random GPS instants from the GLONASS epoch on (biased to Moscow midnights, "
     "year ends, leap seconds) -> GLONASS -> GPS, with and without broadcast UTC parameters. invalid: out-of-range interval and day numbers are refused. Non-trivial: every case; identity = day / instant.");
NEED(days, 37986);
NEED(conversions, 150000);
NEED(leap_second_times, 1000);
NEED(with_params, 10000);
NEED(refused, 2000);
NEED(day_rollovers, 2000);

static std::string S(const glo_time_t &g) {
  char b[96];
  snprintf(b, sizeof b, "{n4 %u nt %u %u:%u:%.12g}", g.n4, g.nt, g.h, g.m, g.s);
  return b;
}
/* GPS day number of the Moscow date */
static int glo_day(const glo_time_t &g) { return day_of(1996 + 4 * (g.n4 - 1), 1, 1) + g.nt - 1; }
/* linear Moscow seconds since the GPS epoch */
static q128 moscow(const glo_time_t &g) { return static_cast<q128>(glo_day(g)) * D + g.h * 3600 + g.m * 60 + static_cast<q128>(g.s); }
static void valid(const glo_time_t &g) {
  CHECK(g.n4 >= 1 && g.n4 <= 31 && g.nt >= 1 && g.nt <= 1461 && g.h <= 23 && g.m <= 59 && g.s >= 0 && (g.s < 60 || (g.s < 61 && g.h == 2 && g.m == 59)), "invalid", "produced %s", S(g).c_str());
}
static glo_time_t mkglo(unsigned n4, unsigned nt, unsigned h, unsigned m, double s) {
  glo_time_t g;
  memset(&g, 0, sizeof g);
  g.n4 = static_cast<u8>(n4);
  g.nt = static_cast<u16>(nt);
  g.h = static_cast<u8>(h);
  g.m = static_cast<u8>(m);
  g.s = s;
  return g;
}
static ld leap_dist_utc(q128 utc) { /* distance of a linear UTC label to a midnight with insertion */
  ld best = 1e18L;
  for (size_t i = 0; i < leap_days().size(); i++) best = fminl(best, fabsl(static_cast<ld>(utc - static_cast<q128>(leap_start(i)) + static_cast<int>(i))));
  return best;
}

SECTION(day, 37986, 37986) {
  unsigned n4 = static_cast<unsigned>(c.idx / 1461) + 1, nt = static_cast<unsigned>(c.idx % 1461) + 1;
  c.nt(static_cast<uint64_t>(c.idx));
  ev("days");
  for (int k = 0; k < (c.thorough ? 40 : 4); k++) {
    double s = c.r.coin(0.3) ? 0 : c.r.coin(0.3) ? static_cast<double>(c.r.range(0, 59)) : c.r.uniform(0, 59.999999);
    glo_time_t g = k == 0 ? mkglo(n4, nt, 0, 0, 0) : k == 1 ? mkglo(n4, nt, 23, 59, c.r.coin() ? 59 : 59.999999) : mkglo(n4, nt, static_cast<unsigned>(c.r.coin() ? c.r.range(0, 4) : c.r.range(0, 23)), static_cast<unsigned>(c.r.range(0, 59)), s);
    c.describe("%s", S(g).c_str());
    q128 utc = moscow(g) - 3 * 3600;
    if (leap_dist_utc(utc) < 1e-6L && leap_dist_utc(utc) != 0) continue;
    /* offset in effect at that UTC label (labels from midnight on carry the new one) */
    int off = 0;
    for (size_t i = 0; i < leap_days().size(); i++)
      if (utc >= static_cast<q128>(leap_start(i)) - static_cast<int>(i)) off = static_cast<int>(i) + 1;
    gps_time_t t = glo2gps(&g, nullptr);
    CHECK(gps_time_valid(&t), "valid", "-> (%d, %.17g)", t.wn, t.tow);
    CHECK(fabsl(secs(t) - (utc + off)) <= 1e-9L, "glo2gps", "-> (%d, %.17g), off by %g s", t.wn, t.tow, static_cast<double>(secs(t) - (utc + off)));
    glo_time_t b;
    memset(&b, 0, sizeof b);
    b = gps2glo(&t, nullptr);
    valid(b);
    CHECK(fabsl(moscow(b) - moscow(g)) <= 1e-9L, "back", "-> (%d, %.17g) -> %s", t.wn, t.tow, S(b).c_str());
    if (fmod(g.s, 1) == 0) CHECK(b.n4 == g.n4 && b.nt == g.nt && b.h == g.h && b.m == g.m && b.s == g.s, "fields", "-> (%d, %.17g) -> %s", t.wn, t.tow, S(b).c_str());
    ev("conversions");
  }
}

SECTION(instant, 60000, 2000000) {
  gps_time_t t = mk(static_cast<int>(c.r.coin() ? c.r.range(835, 2600) : c.r.range(835, 6200)), gen_tow(c.r));
  if (c.r.coin(0.15)) {
    q128 s = static_cast<q128>(leap_start(static_cast<size_t>(c.r.range(11, 17)))) + (c.r.coin() ? c.r.uniform(0, 1) : c.r.pick<double>({0, 0.5, 1, -1, 2, 0.25, 1.5, -0.5}));
    int wn = static_cast<int>(floorl(static_cast<ld>(s / W)));
    t = mk(wn, static_cast<double>(s - static_cast<q128>(wn) * W));
  } else if (c.r.coin(0.25)) {
    /* around Moscow midnight of a year or month end */
    q128 s = static_cast<q128>(day_of(static_cast<int>(c.r.range(1997, 2099)), static_cast<int>(c.r.coin() ? 1 : c.r.range(1, 12)), 1)) * D - 3 * 3600 + 18 + c.r.pick<double>({0, -1, 1, -0.5, 0.5, 1e-3, -1e-3});
    int wn = static_cast<int>(floorl(static_cast<ld>(s / W)));
    t = mk(wn, static_cast<double>(s - static_cast<q128>(wn) * W));
    ev("day_rollovers");
  }
  ld near = leap_dist(static_cast<ld>(secs(t)));
  if (near != 0 && near < 1e-6L) return;
  c.describe("GPS (%d, %.17g)", t.wn, t.tow);
  c.nt(hcombine(static_cast<uint64_t>(t.wn), hd(t.tow)));
  Utc ref = utc_of(static_cast<ld>(secs(t)));
  glo_time_t g;
  memset(&g, 0, sizeof g);
  g = gps2glo(&t, nullptr);
  valid(g);
  q128 want = secs(t) - ref.offset + 3 * 3600;
  CHECK(fabsl(moscow(g) - want) <= 2e-9L, "gps2glo", "-> %s, off by %g s", S(g).c_str(), static_cast<double>(moscow(g) - want));
  CHECK((g.s >= 60) == ref.ls, "leap60", "-> %s, leap second %d", S(g).c_str(), ref.ls);
  if (ref.ls) ev("leap_second_times");
  gps_time_t b = glo2gps(&g, nullptr);
  CHECK(gps_time_valid(&b) && fabsl(secs(b) - secs(t)) <= 2e-9L, "back", "-> %s -> (%d, %.17g)", S(g).c_str(), b.wn, b.tow);
  ev("conversions");
  /* with broadcast parameters: small polynomial, event somewhere around */
  utc_params_t p;
  memset(&p, 0, sizeof p);
  p.dt_ls = static_cast<s8>(c.r.range(11, 30));
  p.dt_lsf = static_cast<s8>(p.dt_ls + c.r.range(0, 1));
  p.a0 = ldexp(static_cast<double>(c.r.range(-200, 200)), -30);
  p.a1 = ldexp(static_cast<double>(c.r.range(-50, 50)), -50);
  p.tot = mk(t.wn, 4096.0 * static_cast<double>(c.r.range(0, 147)));
  q128 mid = (static_cast<q128>(t.wn) * 7 + c.r.range(-8, 15)) * D;
  q128 lse = mid + p.dt_ls + p.a0 + p.a1 * (mid - secs(p.tot));
  int wn = static_cast<int>(floorl(static_cast<ld>(lse / W)));
  p.t_lse = mk(wn, static_cast<double>(lse - static_cast<q128>(wn) * W));
  gps_time_t x = t;
  if (c.r.coin(0.3)) {
    x = p.t_lse;
    add_secs(&x, c.r.coin() ? c.r.uniform(1e-3, 0.999) : c.r.uniform(-3, 4));
  }
  if (secs(x) < static_cast<q128>(835) * W) return; /* before the first GLONASS day */
  q128 since = secs(x) - secs(p.t_lse);
  if (fabsl(since) < 1e-5L || fabsl(since - 1) < 1e-5L) return;
  bool in = p.dt_lsf > p.dt_ls && since > 0 && since < 1;
  int off = since >= 1 ? p.dt_lsf : p.dt_ls;
  c.describe("GPS (%d, %.17g) a0 %g a1 %g t_lse (%d, %.17g) ls %d lsf %d", x.wn, x.tow, p.a0, p.a1, p.t_lse.wn, p.t_lse.tow, p.dt_ls, p.dt_lsf);
  g = gps2glo(&x, &p);
  valid(g);
  want = secs(x) - off + 3 * 3600;
  CHECK(fabsl(moscow(g) - want) <= 1e-6L, "gps2glo_params", "-> %s, off by %g s", S(g).c_str(), static_cast<double>(moscow(g) - want));
  CHECK((g.s >= 60) == in, "leap60_params", "-> %s, leap second %d", S(g).c_str(), in);
  if (in) ev("leap_second_times");
  b = glo2gps(&g, &p);
  CHECK(gps_time_valid(&b) && fabsl(secs(b) - secs(x)) <= 2e-6L, "back_params", "-> %s -> (%d, %.17g)", S(g).c_str(), b.wn, b.tow);
  ev("with_params");
}

SECTION(invalid, 5000, 100000) {
  glo_time_t g = mkglo(static_cast<unsigned>(c.r.range(1, 26)), static_cast<unsigned>(c.r.range(1, 1461)), static_cast<unsigned>(c.r.range(0, 23)), static_cast<unsigned>(c.r.range(0, 59)), c.r.uniform(0, 59));
  switch (c.r.range(0, 3)) {
    case 0: g.n4 = 0; break;
    case 1: g.n4 = static_cast<u8>(c.r.edgy(32, 255)); break;
    case 2: g.nt = 0; break;
    default: g.nt = static_cast<u16>(c.r.edgy(1462, 65535));
  }
  c.describe("%s", S(g).c_str());
  c.nt(hcombine(g.n4, g.nt));
  gps_time_t t = glo2gps(&g, nullptr);
  CHECK(t.wn == WN_UNKNOWN && t.tow == TOW_UNKNOWN, "invalid_accepted", "-> (%d, %.17g)", t.wn, t.tow);
  ev("refused");
}
