// @run variant=asan shards=8
#include "mon.h"
#include "timeref.h"
#include <time.h>
using namespace mon;
using namespace tref;
RULE("week: all days of every GPS week 0..32766: calendar fields, MJD, day of year, weekday against day counting. instant: random and boundary-biased instants through gps2utc/utc2gps, gps2mjd/mjd2gps, gps2date/date2gps, "
     "gps2time/time2gps_t, utc2mjd/mjd2utc, mjd2date/date2mjd there and back; leap seconds themselves are judged by C19 and excluded here (+-2 s). old: dates from MJD 0 (1858-11-17). months: all years x months. "
     "sidereal: IAU 1982 mean sidereal time. Non-trivial: every case; identity = instant.");
NEED(days_checked, 200000);
NEED(utc_instants, 30000);
NEED(roundtrips, 200000);
NEED(unix_instants, 30000);
NEED(old_days, 20000);
NEED(sidereal, 10000);
NEED(months, 60000);

static const int MJD0 = 44244;
static q128 label(const utc_tm &u) {
  return static_cast<q128>(day_of(u.year, u.month, u.month_day)) * D + u.hour * 3600 + u.minute * 60 + u.second_int + static_cast<q128>(u.second_frac);
}
static std::string S(const utc_tm &u) {
  char b[128];
  snprintf(b, sizeof b, "%u-%u-%u %u:%u:%u +%.12g doy %u wd %u", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac, u.year_day, u.week_day);
  return b;
}
/* every produced date is a real date */
static void valid(const utc_tm &u, unsigned maxsec, const char *who) {
  bool ok = u.year >= 1980 && u.year < 2640 && u.month >= 1 && u.month <= 12 && u.month_day >= 1 && u.month_day <= mdays(u.year, u.month) && u.hour <= 23 && u.minute <= 59 && u.second_int <= maxsec &&
            u.second_frac >= 0 && u.second_frac < 1;
  CHECK(ok, "invalid_date", "%s produced %s", who, S(u).c_str());
  Date d = date_of(day_of(u.year, u.month, u.month_day));
  CHECK(d.doy == u.year_day && d.wd == u.week_day, "inconsistent_date", "%s produced %s, expected day of year %d weekday %d", who, S(u).c_str(), d.doy, d.wd);
}
static ld mjd_tol(double m) { return 3.0L * (nextafter(m, 1e9) - m) * D + 1e-9L; }

SECTION(week, 32766, 32766) {
  int wn = static_cast<int>(c.idx);
  c.describe("GPS week %d", wn);
  c.nt(static_cast<uint64_t>(wn));
  for (int k = 0; k < 7; k++) {
    int day = wn * 7 + k;
    Date d = date_of(day);
    double sod = c.r.coin(0.4) ? 0 : c.r.coin(0.4) ? nextafter(static_cast<double>((k + 1) * D), 0) - k * D : c.r.uniform(0, D);
    gps_time_t t = mk(wn, k * D + sod);
    utc_tm u;
    memset(&u, 0xa5, sizeof u);
    make_utc_tm(&t, &u);
    valid(u, 59, "make_utc_tm");
    CHECK(u.year == d.y && u.month == d.m && u.month_day == d.d, "date", "week %d tow %.17g -> %s, expected %d-%d-%d", wn, t.tow, S(u).c_str(), d.y, d.m, d.d);
    CHECK(fabsl(label(u) - secs(t)) <= 1e-9L, "time_of_day", "week %d tow %.17g -> %s", wn, t.tow, S(u).c_str());
    /* whole days are exact */
    double m = date2mjd(d.y, d.m, d.d, 0, 0, 0);
    CHECK(m == MJD0 + day, "date2mjd", "%d-%d-%d -> %.17g, expected %d", d.y, d.m, d.d, m, MJD0 + day);
    s32 y, mo, dd, h, mi;
    double s;
    mjd2date(MJD0 + day, &y, &mo, &dd, &h, &mi, &s);
    CHECK(y == d.y && mo == d.m && dd == d.d && h == 0 && mi == 0 && s == 0, "mjd2date", "%d -> %d-%d-%d %d:%d:%g", MJD0 + day, y, mo, dd, h, mi, s);
    utc_tm v = mjd2utc(MJD0 + day);
    valid(v, 59, "mjd2utc");
    CHECK(label(v) == static_cast<q128>(day) * D, "mjd2utc", "%d -> %s", MJD0 + day, S(v).c_str());
    v = date2utc(d.y, d.m, d.d, 0, 0, 0);
    valid(v, 59, "date2utc");
    CHECK(label(v) == static_cast<q128>(day) * D, "date2utc", "%d-%d-%d -> %s", d.y, d.m, d.d, S(v).c_str());
    ev("days_checked");
  }
}

SECTION(instant, 60000, 3000000) {
  gps_time_t t = mk(static_cast<int>(c.r.coin() ? c.r.range(0, 3200) : c.r.range(0, 32760)), gen_tow(c.r));
  if (c.r.coin(0.25)) {
    /* around a UTC midnight, year end or February end */
    int y = static_cast<int>(c.r.range(1981, 2600));
    int d = c.r.coin() ? day_of(y, 1, 1) : c.r.coin() ? day_of(y, 3, 1) : day_of(y, static_cast<int>(c.r.range(1, 12)), 1);
    ld s = static_cast<ld>(d) * D + static_cast<ld>(c.r.range(0, 20)) + c.r.pick<double>({0, 0, -1e-9, 1e-6, -1e-6, 0.5});
    t = mk(static_cast<int>(s / W), static_cast<double>(s - floorl(s / W) * W));
  }
  ld total = static_cast<ld>(secs(t));
  if (t.tow < 0 || t.tow >= W || leap_dist(total) < 2) return;
  c.describe("GPS week %d tow %.17g", t.wn, t.tow);
  c.nt(hcombine(static_cast<uint64_t>(t.wn), hd(t.tow)));
  Utc ref = utc_of(total);
  q128 want = secs(t) - ref.offset;
  utc_tm u;
  memset(&u, 0xa5, sizeof u);
  gps2utc(&t, &u, nullptr);
  valid(u, 59, "gps2utc");
  CHECK(fabsl(label(u) - want) <= 1e-9L, "gps2utc", "-> %s, off by %g s", S(u).c_str(), static_cast<double>(label(u) - want));
  CHECK(gps2doy(&t) == u.year_day - 1, "doy", "gps2doy %u, date %s", gps2doy(&t), S(u).c_str());
  ev("utc_instants");
  double m = gps2mjd(&t);
  ld tol = mjd_tol(m);
  CHECK(fabsl((static_cast<q128>(m) - MJD0) * D - want) <= tol, "gps2mjd", "-> %.17g (%s)", m, S(u).c_str());
  CHECK(fabsl((static_cast<q128>(utc2mjd(&u)) - MJD0) * D - want) <= tol, "utc2mjd", "%s -> %.17g", S(u).c_str(), utc2mjd(&u));
  gps_time_t g = mjd2gps(m);
  CHECK(fabsl(secs(g) - secs(t)) <= 2 * tol && gps_time_valid(&g), "mjd2gps", "mjd %.17g -> (%d, %.17g)", m, g.wn, g.tow);
  memset(&g, 0, sizeof g);
  utc2gps(&u, &g, nullptr);
  CHECK(fabsl(secs(g) - secs(t)) <= 2 * tol && gps_time_valid(&g), "utc2gps", "%s -> (%d, %.17g)", S(u).c_str(), g.wn, g.tow);
  utc_tm v = mjd2utc(m);
  valid(v, 59, "mjd2utc");
  CHECK(fabsl(label(v) - want) <= 2 * tol, "mjd2utc", "%.17g -> %s, expected %s", m, S(v).c_str(), S(u).c_str());
  s32 y, mo, d, h, mi;
  double s;
  gps2date(&t, &y, &mo, &d, &h, &mi, &s);
  CHECK(y == u.year && mo == u.month && d == u.month_day && h == u.hour && mi == u.minute && s == u.second_int + u.second_frac, "gps2date", "%d-%d-%d %d:%d:%.12g vs %s", y, mo, d, h, mi, s, S(u).c_str());
  g = date2gps(y, mo, d, h, mi, s);
  CHECK(fabsl(secs(g) - secs(t)) <= 2 * tol, "date2gps", "%d-%d-%d %d:%d:%.12g -> (%d, %.17g)", y, mo, d, h, mi, s, g.wn, g.tow);
  double m2 = date2mjd(y, mo, d, h, mi, s);
  CHECK(fabsl((static_cast<q128>(m2) - MJD0) * D - want) <= tol, "date2mjd", "%d-%d-%d %d:%d:%.12g -> %.17g", y, mo, d, h, mi, s, m2);
  v = date2utc(y, mo, d, h, mi, s);
  valid(v, 59, "date2utc");
  CHECK(fabsl(label(v) - want) <= 2 * tol, "date2utc", "%d-%d-%d %d:%d:%.12g -> %s", y, mo, d, h, mi, s, S(v).c_str());
  utc2date(&u, &y, &mo, &d, &h, &mi, &s);
  CHECK(y == u.year && mo == u.month && d == u.month_day && h == u.hour && mi == u.minute && s == u.second_int + u.second_frac, "utc2date", "%d-%d-%d %d:%d:%.12g vs %s", y, mo, d, h, mi, s, S(u).c_str());
  mjd2date(m, &y, &mo, &d, &h, &mi, &s);
  CHECK(mo >= 1 && mo <= 12 && d >= 1 && d <= mdays(y, mo) && h >= 0 && h <= 23 && mi >= 0 && mi <= 59 && s >= 0 && s < 60, "mjd2date_invalid", "%.17g -> %d-%d-%d %d:%d:%.17g", m, y, mo, d, h, mi, s);
  q128 l2 = static_cast<q128>(day_of(y, mo, d)) * D + h * 3600 + mi * 60 + static_cast<q128>(s);
  CHECK(fabsl(l2 - want) <= 2 * tol, "mjd2date", "%.17g -> %d-%d-%d %d:%d:%.12g", m, y, mo, d, h, mi, s);
  ev("roundtrips", 8);
  /* Unix time: whole seconds of UTC */
  time_t x = gps2time(&t);
  q128 whole = floorl(static_cast<ld>(t.tow)) + static_cast<q128>(t.wn) * W - ref.offset + 315964800;
  CHECK(static_cast<q128>(x) == whole, "gps2time", "-> %lld", static_cast<long long>(x));
  struct tm b;
  gmtime_r(&x, &b);
  if (fabsl(label(u) - (static_cast<q128>(x) - 315964800)) < 1)
    CHECK((b.tm_year + 1900 == u.year && b.tm_mon + 1 == u.month && b.tm_mday == u.month_day && b.tm_hour == u.hour && b.tm_min == u.minute && b.tm_sec == u.second_int && b.tm_yday + 1 == u.year_day &&
           (b.tm_wday + 6) % 7 + 1 == u.week_day) ||
              u.second_frac > 1 - 1e-9 || u.second_frac < 1e-9,
          "libc", "gmtime(%lld) disagrees with %s", static_cast<long long>(x), S(u).c_str());
  ev("unix_instants");
  time_t z = static_cast<time_t>(c.r.range(1877, 32766)) * W + 315964800 + static_cast<time_t>(c.r.coin() ? c.r.edgy(0, W - 1) : c.r.range(0, W - 1));
  g = time2gps_t(z);
  CHECK(gps_time_valid(&g) && secs(g) == static_cast<q128>(z - 315964800), "time2gps", "%lld -> (%d, %.17g)", static_cast<long long>(z), g.wn, g.tow);
}

SECTION(old, 400, 2000) {
  /* the civil date functions are documented from 1858-11-17 on: walk 200 days */
  static std::vector<Date> days;
  if (days.empty()) {
    Date d = {1858, 11, 17, 0, 0};
    for (int i = 0; i < 44600; i++) {
      days.push_back(d);
      if (++d.d > mdays(d.y, d.m)) {
        d.d = 1;
        if (++d.m > 12) d.m = 1, d.y++;
      }
    }
  }
  int start = static_cast<int>(c.idx < 223 ? c.idx * 200 : c.r.range(0, 44390));
  c.describe("MJD %d..", start);
  c.nt(static_cast<uint64_t>(start));
  for (int i = start; i < start + 200; i++) {
    const Date &d = days[static_cast<size_t>(i)];
    CHECK(date2mjd(d.y, d.m, d.d, 0, 0, 0) == i, "old_date2mjd", "%d-%d-%d -> %.17g, expected %d", d.y, d.m, d.d, date2mjd(d.y, d.m, d.d, 0, 0, 0), i);
    s32 y, mo, dd, h, mi;
    double s;
    mjd2date(i, &y, &mo, &dd, &h, &mi, &s);
    CHECK(y == d.y && mo == d.m && dd == d.d && h == 0 && mi == 0 && s == 0, "old_mjd2date", "%d -> %d-%d-%d %d:%d:%g", i, y, mo, dd, h, mi, s);
    ev("old_days");
  }
}

SECTION(months, 65, 65) {
  for (int y = static_cast<int>(c.idx) * 1000; y < static_cast<int>(c.idx + 1) * 1000; y++) {
    CHECK(is_leap_year(y) == leap(y), "leap_year", "%d", y);
    for (int m = 1; m <= 12; m++) {
      CHECK(days_in_month(static_cast<u16>(y), static_cast<u8>(m)) == mdays(y, m), "days_in_month", "%d-%d: %u", y, m, days_in_month(static_cast<u16>(y), static_cast<u8>(m)));
      ev("months");
    }
  }
  c.nt(static_cast<uint64_t>(c.idx));
}

SECTION(sidereal, 20000, 500000) {
  double m = MJD0 + c.r.uniform(1, 60000);
  if (c.r.coin(0.2)) m = floor(m);
  utc_tm u = mjd2utc(m);
  double dut = c.r.coin(0.3) ? 0 : c.r.uniform(-0.9, 0.9);
  double g = utc2gmst(u, dut);
  c.describe("mjd %.17g ut1-utc %.6g", m, dut);
  c.nt(hcombine(hd(m), hd(dut)));
  /* seconds of UT1 since 2000-01-01 12:00 */
  ld ut1 = static_cast<ld>(label(u)) + dut, days = floorl(ut1 / D), sod = ut1 - days * D;
  ld T = (days + MJD0 - 51544.5L) / 36525;
  ld st = 24110.54841L + 8640184.812866L * T + 0.093104L * T * T - 6.2e-6L * T * T * T + 1.002737909350795L * sod;
  ld want = st / 43200 * 3.14159265358979323846L;
  ld d = fmodl(want - g, 6.28318530717958647692L);
  if (d > 3.2L) d -= 6.28318530717958647692L;
  if (d < -3.2L) d += 6.28318530717958647692L;
  /* a representation step near midnight may select the neighbouring day: same value */
  CHECK(fabsl(d) < 2e-9L, "gmst", "%.15g, expected %.15Lg (mod 2 pi), off %.3Lg rad", g, want, d);
  if (u.year >= 2001) CHECK(g >= 0 && g < 6.2831853071795872, "gmst_range", "%.17g", g);
  ev("sidereal");
}
