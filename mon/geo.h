/* Independent geodesy (long double). */
#ifndef VERIF_GEO_H
#define VERIF_GEO_H
#include "mon.h"
namespace geo {
typedef long double ld;
static const ld A = 6378137.0L, F = 1 / 298.257223563L, PI = 3.14159265358979323846264338327950288L;
inline void to_ecef(const double l[3], ld x[3]) {
  ld e2 = F * (2 - F), s = sinl(l[0]), co = cosl(l[0]), n = A / sqrtl(1 - e2 * s * s), h = l[2];
  x[0] = (n + h) * co * cosl(l[1]);
  x[1] = (n + h) * co * sinl(l[1]);
  x[2] = (n * (1 - e2) + h) * s;
}
/* rows: north, east, down */
inline void ned(const double l[3], ld M[3][3]) {
  ld sp = sinl(l[0]), cp = cosl(l[0]), sl = sinl(l[1]), cl = cosl(l[1]);
  ld up[3] = {cp * cl, cp * sl, sp}, east[3] = {-sl, cl, 0};
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    M[0][i] = up[j] * east[k] - up[k] * east[j]; /* north = up x east */
    M[1][i] = east[i];
    M[2][i] = -up[i];
  }
}
inline double gen_lat(mon::Rng &r) {
  const double h = 1.5707963267948966;
  switch (r.range(0, 7)) {
    case 0: return r.pick<double>({0.0, -0.0, h, -h, nextafter(h, 0), -nextafter(h, 0), 1e-300});
    case 1: return (r.coin() ? 1 : -1) * (h - exp(r.uniform(log(1e-16), log(1e-2))));
    case 2: return (r.coin() ? 1 : -1) * exp(r.uniform(log(1e-18), log(1e-2)));
    case 3: return asin(r.uniform(-1, 1));
    default: return r.uniform(-h, h);
  }
}
inline double gen_lon(mon::Rng &r) {
  const double p = 3.141592653589793;
  switch (r.range(0, 5)) {
    case 0: return r.pick<double>({0.0, -0.0, p, -p, p / 2, -p / 2, nextafter(p, 0), -nextafter(p, 0)});
    case 1: return (r.coin() ? 1 : -1) * (p - exp(r.uniform(log(1e-16), log(1e-2))));
    case 2: return (r.coin() ? 1 : -1) * exp(r.uniform(log(1e-18), log(1e-2)));
    default: return r.uniform(-p, p);
  }
}
inline double gen_h(mon::Rng &r) { return r.coin(0.2) ? r.pick<double>({0, -1000, 9000, 500e3, 20200e3}) : r.coin() ? r.uniform(-500, 10000) : r.uniform(-5e5, 4e7); }
inline ld dot(const ld a[3], const ld b[3]) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline ld norm(const ld a[3]) { return sqrtl(dot(a, a)); }
}  // namespace geo
#endif
