// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
using namespace mon;
typedef long double ld;
RULE("case = latitude (any, incl. poles, near-poles down to subnormal offsets, equator), longitude (any, incl. +-pi and beyond one turn) and height from -6000 km to 1e9 m; conversion to ECEF against long-double ellipsoid formula and back; "
     "or an ECEF point given directly, incl. on the polar axis and in the equatorial plane with signed zeros. Non-trivial: every case; identity = input coordinates.");
NEED(round_trip, 50000);
NEED(near_pole, 3000);
NEED(at_equator, 3000);
NEED(date_line, 3000);
NEED(deep, 3000);
NEED(beyond_orbits, 3000);
NEED(on_axis, 1000);
NEED(direct, 10000);

static const ld A = 6378137.0L, F = 1 / 298.257223563L, PI = 3.14159265358979323846264338327950288L;
static void to_ecef(const double l[3], ld x[3]) {
  ld e2 = F * (2 - F), s = sinl(l[0]), co = cosl(l[0]), n = A / sqrtl(1 - e2 * s * s), h = l[2];
  x[0] = (n + h) * co * cosl(l[1]);
  x[1] = (n + h) * co * sinl(l[1]);
  x[2] = (n * (1 - e2) + h) * s;
}
static double gen_h(Rng &r) {
  switch (r.range(0, 8)) {
    case 0: return 0;
    case 1: return r.uniform(-500, 9000);
    case 2: return r.uniform(-6.0e6, -1e5);
    case 3: return r.uniform(-12000, 1e5);
    case 4: return r.uniform(1.9e7, 4.3e7);
    case 5: return exp(r.uniform(log(1e5), log(1e9)));
    case 6: return r.pick<double>({-6.0e6, 1e-9, -1e-9, 1, -1, 20200e3, 36000e3, 1e8});
    default: return r.uniform(-500, 20000);
  }
}
static double gen_lat(Rng &r) {
  const double h = M_PI / 2;
  switch (r.range(0, 7)) {
    case 0: return r.pick<double>({0.0, -0.0, h, -h, nextafter(h, 0), -nextafter(h, 0), 5e-324, 1e-300});
    case 1: return (r.coin() ? 1 : -1) * (h - exp(r.uniform(log(1e-18), log(1e-2))));
    case 2: return (r.coin() ? 1 : -1) * exp(r.uniform(log(1e-18), log(1e-2)));
    case 3: return asin(r.uniform(-1, 1));
    default: return r.uniform(-h, h);
  }
}
static double gen_lon(Rng &r) {
  switch (r.range(0, 5)) {
    case 0: return r.pick<double>({0.0, -0.0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, nextafter(M_PI, 0), -nextafter(M_PI, 0)});
    case 1: return (r.coin() ? 1 : -1) * (M_PI - exp(r.uniform(log(1e-16), log(1e-2))));
    case 2: return (r.coin() ? 1 : -1) * exp(r.uniform(log(1e-18), log(1e-2)));
    default: return r.uniform(-M_PI, M_PI);
  }
}
static double size(const ld x[3]) { return static_cast<double>(sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])); }
static void check_back(const double ecef[3], const ld *want_h, const char *what) {
  double out[3] = {7, 7, 7}, in[3];
  memcpy(in, ecef, sizeof in);
  wgsecef2llh(in, out);
  CHECK(!memcmp(in, ecef, sizeof in), "input_modified", "the input was modified");
  CHECK(out[0] >= -M_PI / 2 && out[0] <= M_PI / 2, "lat_range", "%s: latitude %.17g", what, out[0]);
  CHECK(out[1] >= -M_PI && out[1] <= M_PI, "lon_range", "%s: longitude %.17g", what, out[1]);
  ld x[3], d = 0, sz = 0;
  to_ecef(out, x);
  for (int i = 0; i < 3; i++) d += (x[i] - static_cast<ld>(ecef[i])) * (x[i] - static_cast<ld>(ecef[i])), sz += static_cast<ld>(ecef[i]) * static_cast<ld>(ecef[i]);
  d = sqrtl(d);
  sz = sqrtl(sz);
  ld tol = 2e-8L + sz * 2e-15L;
  CHECK(d <= tol, "back", "%s: latitude %.17g longitude %.17g height %.17g is %.6Lg m away", what, out[0], out[1], out[2], d);
  if (want_h) CHECK(fabsl(static_cast<ld>(out[2]) - *want_h) <= tol, "height", "%s: height %.17g, expected %.17Lg", what, out[2], *want_h);
}

SECTION(round_trip, 120000, 8000000) {
  Rng &r = c.r;
  double l[3] = {gen_lat(r), gen_lon(r), gen_h(r)}, e[3];
  c.describe("latitude %.17g longitude %.17g height %.17g", l[0], l[1], l[2]);
  c.nt(hbytes(l, sizeof l));
  wgsllh2ecef(l, e);
  ld x[3];
  to_ecef(l, x);
  double tol = 4e-9 + size(x) * 1e-15;
  for (int i = 0; i < 3; i++) CHECK(fabsl(static_cast<ld>(e[i]) - x[i]) <= tol, "to_ecef", "axis %d: %.9f, expected %.9Lf", i, e[i], x[i]);
  if (e[1] == 0 && r.coin()) e[1] = 0.0; /* longitude sign at the date line follows the sign of zero */
  ld h = l[2];
  check_back(e, &h, "round trip");
  ev("round_trip");
  if (fabs(l[0]) > 1.5706) ev("near_pole");
  if (fabs(l[0]) < 1e-3) ev("at_equator");
  if (fabs(l[1]) > 3.14) ev("date_line");
  if (l[2] < -1e5) ev("deep");
  if (l[2] > 5e7) ev("beyond_orbits");
}
SECTION(direct_ecef, 40000, 2000000) {
  Rng &r = c.r;
  double e[3], s = exp(r.uniform(log(4e5), log(1e9)));
  int k = static_cast<int>(r.range(0, 5));
  for (double &v : e) v = r.normal();
  if (k == 0) e[0] = r.pick<double>({0.0, -0.0}), e[1] = r.pick<double>({0.0, -0.0}), ev("on_axis");
  if (k == 1) e[0] = r.logmag(1e-30, 1e-3), e[1] = r.logmag(1e-30, 1e-3);
  if (k == 2) e[2] = r.pick<double>({0.0, -0.0});
  if (k == 3) e[r.range(0, 1)] = r.pick<double>({0.0, -0.0});
  double n = sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
  if (n == 0) return;
  for (double &v : e) v *= s / n;
  c.describe("ecef %.17g %.17g %.17g", e[0], e[1], e[2]);
  c.nt(hbytes(e, sizeof e));
  check_back(e, nullptr, "direct");
  ev("direct");
}
SECTION(degrees, 20000, 500000) {
  Rng &r = c.r;
  double l[3] = {gen_lat(r), gen_lon(r), gen_h(r)}, d[3], b[3];
  c.describe("latitude %.17g longitude %.17g height %.17g", l[0], l[1], l[2]);
  c.nt(hbytes(l, sizeof l));
  llhrad2deg(l, d);
  for (int i = 0; i < 2; i++) CHECK(fabsl(static_cast<ld>(d[i]) - static_cast<ld>(l[i]) * 180 / PI) <= fabsl(static_cast<ld>(d[i])) * 1e-15L + 1e-300L, "rad2deg", "%.17g rad is %.17g deg", l[i], d[i]);
  CHECK(d[2] == l[2], "deg_height", "height changed");
  llhdeg2rad(d, b);
  for (int i = 0; i < 2; i++) CHECK(fabs(b[i] - l[i]) <= fabs(l[i]) * 1e-15 + 1e-300, "deg2rad", "%.17g deg is %.17g rad", d[i], b[i]);
  CHECK(b[2] == l[2], "deg_height", "height changed");
}
