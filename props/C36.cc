// @run variant=asan shards=8
#include "atmo.h"
#include <swiftnav/troposphere.h>
using namespace mon;
RULE("model: any day of year, latitude (table edges, poles, both hemispheres), height (below sea level to above the model's ceiling) and elevation (below the horizon to zenith), against an independent UNB3m implementation in long double and against physical bounds. "
     "relations: the same station with raised elevation, raised height, mirrored hemisphere half a year apart, next year. Non-trivial: every case; identity = inputs.");
NEED(compared, 60000);
NEED(above_ceiling, 1500);
NEED(below_sea, 3000);
NEED(low_elevation, 5000);
NEED(zenith_sea, 1500);
NEED(south, 30000);
NEED(raised_elevation, 20000);
NEED(raised_height, 20000);
NEED(mirrored, 20000);

using atmo::ld;
using atmo::unb3m;
static double gen_lat(Rng &r) {
  const double d = M_PI / 180;
  if (r.coin(0.2)) return r.pick<double>({0, 15 * d, -15 * d, 30 * d, -30 * d, 45 * d, -45 * d, 60 * d, -60 * d, 75 * d, -75 * d, M_PI / 2, -M_PI / 2});
  return r.uniform(-M_PI / 2, M_PI / 2);
}

SECTION(model, 90000, 6000000) {
  Rng &r = c.r;
  double doy = r.coin(0.1) ? r.pick<double>({1, 28, 210.625, 365.25, 366}) : r.uniform(0, 367), lat = gen_lat(r);
  double h = r.coin(0.15) ? r.pick<double>({0, -1, -100, -430, 11e3, 11000.001, 1e5, 2e7}) : r.coin(0.1) ? r.uniform(-1000, 0) : r.coin(0.1) ? r.uniform(0, 60000) : r.uniform(0, 11000);
  double el = r.coin(0.15) ? r.pick<double>({0, M_PI / 2, 0.1 * M_PI / 180}) : r.coin(0.1) ? r.uniform(-M_PI / 2, 0) : r.coin(0.15) ? r.uniform(0, 0.1) : r.uniform(0, M_PI / 2);
  c.describe("doy %.17g lat %.17g h %.17g el %.17g", doy, lat, h, el);
  c.nt(hcombine(hcombine(hd(doy), hd(lat)), hcombine(hd(h), hd(el))));
  double g = calc_troposphere(doy, lat, h, el);
  CHECK(std::isfinite(g) && g >= 0, "range", "delay %g m", g);
  ld want = unb3m(doy, lat, h, el);
  CHECK(fabsl(static_cast<ld>(g) - want) <= 1e-6L * want + 3e-8L, "model", "delay %.12g m, model %.12Lg m", g, want);
  ev("compared");
  if (h > 11e3) {
    CHECK(g == 0, "ceiling", "delay %g m above the model's ceiling", g);
    ev("above_ceiling");
  }
  if (lat < 0) ev("south");
  if (el < 0.05) ev("low_elevation");
  if (h < 0) {
    CHECK(fabs(g - calc_troposphere(doy, lat, 0, el)) <= 1e-9, "below_sea", "below sea level %.12g m", g);
    ev("below_sea");
  }
  if (h <= 0 || r.coin(0.05)) {
    double z = calc_troposphere(doy, lat, 0, M_PI / 2);
    CHECK(z > 2.25 && z < 2.75, "zenith", "zenith delay at sea level %.6g m", z);
    ev("zenith_sea");
  }
}

SECTION(relations, 40000, 3000000) {
  Rng &r = c.r;
  double doy = r.uniform(0, 367), lat = gen_lat(r), h = r.coin(0.1) ? 0 : r.uniform(0, 11000), el = r.uniform(0.1 * M_PI / 180, M_PI / 2);
  c.describe("doy %.17g lat %.17g h %.17g el %.17g", doy, lat, h, el);
  c.nt(hcombine(hcombine(hd(doy), hd(lat)), hcombine(hd(h), hd(el))));
  double g = calc_troposphere(doy, lat, h, el);
  double e2 = el + exp(r.uniform(log(1e-6), log(1)));
  if (e2 <= M_PI / 2) {
    double q = calc_troposphere(doy, lat, h, e2);
    CHECK(q <= g + 1e-9, "elevation", "rises from %.17g to %.17g m when the elevation rises to %.17g", g, q, e2);
    ev("raised_elevation");
  }
  double h2 = h + exp(r.uniform(log(0.1), log(5000)));
  if (h2 <= 11000 && el > 5 * M_PI / 180) {
    double q = calc_troposphere(doy, lat, h2, el);
    CHECK(q <= g + 2e-6 * g, "height", "rises from %.17g to %.17g m when the height rises to %.17g", g, q, h2);
    ev("raised_height");
  }
  double m = calc_troposphere(doy + (doy < 183 ? 182.625 : -182.625), -lat, h, el);
  CHECK(fabs(m - g) <= 2e-6 * g, "mirrored", "%.17g m, mirrored hemisphere half a year apart %.17g m", g, m);
  ev("mirrored");
  double y = calc_troposphere(doy + 365.25, lat, h, el);
  CHECK(fabs(y - g) <= 2e-6 * g, "next_year", "%.17g m, a year later %.17g m", g, y);
}
