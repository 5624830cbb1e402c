/* Independent reference time arithmetic: exact instants, Gregorian calendar by
 * day counting, the published leap-second insertions. */
#ifndef VERIF_TIMEREF_H
#define VERIF_TIMEREF_H
#include "mon.h"
#include <swiftnav/gnss_time.h>
namespace tref {
typedef long double ld;
typedef __float128 q128;
inline q128 fabsl(q128 x) { return x < 0 ? -x : x; }
using ::fabsl;
static const int W = 604800, D = 86400;
/* exact */
inline q128 secs(const gps_time_t &t) { return static_cast<q128>(t.wn) * W + static_cast<q128>(t.tow); }
inline gps_time_t mk(int wn, double tow) {
  gps_time_t t;
  memset(&t, 0, sizeof t);
  t.wn = static_cast<s16>(wn);
  t.tow = tow;
  return t;
}
/* days since 1970-01-01 of a proleptic Gregorian date, by counting */
inline bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline int mdays(int y, int m) {
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return d[m - 1] + (m == 2 && leap(y));
}
struct Date {
  int y, m, d, doy, wd; /* doy 1.., wd 1 = Monday */
};
/* table of the first day of each year, in days since 1980-01-06 (GPS day 0) */
inline const std::vector<int> &year_start() {
  static std::vector<int> v;
  if (v.empty()) {
    int day = -5; /* 1980-01-01 */
    for (int y = 1980; y < 2700; y++) {
      v.push_back(day);
      day += leap(y) ? 366 : 365;
    }
  }
  return v;
}
inline int day_of(int y, int m, int d) { /* GPS day number */
  int n = year_start()[static_cast<size_t>(y - 1980)];
  for (int i = 1; i < m; i++) n += mdays(y, i);
  return n + d - 1;
}
inline Date date_of(int gpsday) {
  const auto &v = year_start();
  size_t lo = 0, hi = v.size() - 1;
  while (lo < hi) {
    size_t mid = (lo + hi + 1) / 2;
    if (v[mid] <= gpsday) lo = mid;
    else hi = mid - 1;
  }
  Date r;
  r.y = 1980 + static_cast<int>(lo);
  int n = gpsday - v[lo];
  r.doy = n + 1;
  r.m = 1;
  while (n >= mdays(r.y, r.m)) n -= mdays(r.y, r.m++);
  r.d = n + 1;
  r.wd = ((gpsday + 6) % 7 + 7) % 7 + 1; /* day 0 was a Sunday */
  return r;
}
/* last day (UTC) that carried an inserted second, since 1980 (IERS Bulletin C) */
struct LeapDay {
  int y, m, d;
};
inline const std::vector<LeapDay> &leap_days() {
  static const std::vector<LeapDay> v = {{1981, 6, 30},  {1982, 6, 30}, {1983, 6, 30},  {1985, 6, 30},  {1987, 12, 31}, {1989, 12, 31},
                                         {1990, 12, 31}, {1992, 6, 30}, {1993, 6, 30},  {1994, 6, 30},  {1995, 12, 31}, {1997, 6, 30},
                                         {1998, 12, 31}, {2005, 12, 31}, {2008, 12, 31}, {2012, 6, 30}, {2015, 6, 30},  {2016, 12, 31}};
  return v;
}
/* GPS second (since the GPS epoch) at which the inserted second number i (0..) begins */
inline int64_t leap_start(size_t i) {
  const LeapDay &l = leap_days()[i];
  return static_cast<int64_t>(day_of(l.y, l.m, l.d) + 1) * D + static_cast<int64_t>(i);
}
struct Utc {
  int offset;  /* GPS-UTC in effect */
  bool ls;     /* within an inserted second */
  int day;     /* GPS day number of the UTC date */
  ld sod;      /* second of the UTC day, up to 86401 */
};
/* t: exact GPS seconds */
inline Utc utc_of(ld t) {
  Utc u;
  u.offset = 0;
  u.ls = false;
  for (size_t i = 0; i < leap_days().size(); i++) {
    ld s = static_cast<ld>(leap_start(i));
    if (t >= s + 1) u.offset = static_cast<int>(i) + 1;
    else if (t >= s) u.ls = true;
  }
  ld v = t - u.offset - (u.ls ? 1 : 0);
  u.day = static_cast<int>(floorl(v / D));
  u.sod = v - static_cast<ld>(u.day) * D + (u.ls ? 1 : 0);
  return u;
}
/* distance to the nearest leap-second boundary (begin or end), seconds */
inline ld leap_dist(ld t) {
  ld best = 1e18L;
  for (size_t i = 0; i < leap_days().size(); i++) {
    ld s = static_cast<ld>(leap_start(i));
    best = fminl(best, fminl(fabsl(t - s), fabsl(t - s - 1)));
  }
  return best;
}
/* time of week generator biased to boundaries */
inline double gen_tow(mon::Rng &r) {
  switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: return nextafter(604800.0, 0);
    case 2: return static_cast<double>(r.range(0, 6)) * 86400;
    case 3: return nextafter(static_cast<double>(r.range(1, 7)) * 86400, 0);
    case 4: return static_cast<double>(r.range(0, W - 1));
    case 5: return r.pick<double>({302400, nextafter(302400, 0), nextafter(302400, 1e9), 5e-324, 1e-12, 604799.9999999, 604799, 1});
    case 6: return static_cast<double>(r.range(0, W - 1)) + r.pick<double>({0.1, 0.5, 0.25, 0.999999999, 1e-9});
    default: return r.uniform(0, W);
  }
}
}  // namespace tref
#endif
