// @run variant=asan shards=8
#include "geo.h"
#include "orbit.h"
#include <swiftnav/almanac.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/glo_map.h>
using namespace mon;
RULE("case = receiver at any latitude/longitude/height (poles, date line, zenith, horizon, antipode), moving or not, and a target point, or a satellite given by an ephemeris of any constellation or an almanac; "
     "azimuth, elevation and Doppler against vector geometry in long double. Non-trivial: every case; identity = receiver and target.");
NEED(azel, 40000);
NEED(zenith, 2000);
NEED(azimuth_wrap, 500);
NEED(below_horizon, 5000);
NEED(sat_azel, 5000);
NEED(sat_refused, 300);
NEED(bad_flags, 1000);
NEED(doppler_moving, 3000);
NEED(doppler_static, 1000);
NEED(doppler_glo, 300);
NEED(doppler_almanac, 1000);

typedef long double ld;
static double gen_ref(Rng &r, double l[3], double ref[3]) {
  l[0] = geo::gen_lat(r);
  l[1] = geo::gen_lon(r);
  l[2] = geo::gen_h(r);
  ld x[3];
  geo::to_ecef(l, x);
  for (int i = 0; i < 3; i++) ref[i] = static_cast<double>(x[i]);
  return sqrt(ref[0] * ref[0] + ref[1] * ref[1]);
}
/* p: distance of the receiver from the axis, which limits how well its meridian is known */
static void check_azel(const double sat[3], const double ref[3], const double l[3], double p, double az, double el, const char *what) {
  ld N[3][3], d[3], e[3];
  geo::ned(l, N);
  for (int i = 0; i < 3; i++) d[i] = static_cast<ld>(sat[i]) - static_cast<ld>(ref[i]);
  for (int i = 0; i < 3; i++) e[i] = geo::dot(N[i], d);
  ld dist = geo::norm(d), hor = sqrtl(e[0] * e[0] + e[1] * e[1]), rs = geo::norm(d) + 7e6L;
  CHECK(az >= 0 && az <= 2 * M_PI, "az_range", "%s: azimuth %.17g", what, az);
  CHECK(el >= -M_PI / 2 && el <= M_PI / 2, "el_range", "%s: elevation %.17g", what, el);
  ld wel = atan2l(-e[2], hor), waz = atan2l(e[1], e[0]);
  ld dirtol = 1e-13L + rs * 1e-15L / dist; /* direction error from rounding positions */
  /* asin loses half the digits at the zenith */
  ld eltol = dirtol / fmaxl(hor / dist, 1e-30L);
  CHECK(fabsl(static_cast<ld>(el) - wel) <= fminl(eltol, 2 * sqrtl(dirtol)) + dirtol, "elevation", "%s: elevation %.17g, expected %.17Lg", what, el, wel);
  ld aztol = (dirtol * 4) * dist / fmaxl(hor, 1e-30L) + 1e-13L + 8e-8L * (1 + static_cast<ld>(fabs(l[2])) / 6e6L) / fmaxl(static_cast<ld>(p), 1e-30L);
  ld da = remainderl(static_cast<ld>(az) - waz, 2 * geo::PI);
  if (aztol < 1) CHECK(fabsl(da) <= aztol, "azimuth", "%s: azimuth %.17g, expected %.17Lg (tolerance %.3Lg)", what, az, waz, aztol);
  if (fabsl(waz) < 1e-6L) ev("azimuth_wrap");
  if (wel < 0) ev("below_horizon");
}

SECTION(azel, 90000, 5000000) {
  Rng &r = c.r;
  double l[3], ref[3], sat[3], az = 7, el = 7;
  double p = gen_ref(r, l, ref);
  ld N[3][3];
  geo::ned(l, N);
  double D = exp(r.uniform(log(10), log(1e9))), a, e;
  switch (r.range(0, 4)) {
    case 0: e = M_PI / 2 - (r.coin(0.3) ? 0 : exp(r.uniform(log(1e-15), log(1e-3)))), ev("zenith"); break;
    case 1: e = (r.coin() ? 1 : -1) * (r.coin(0.3) ? 0 : exp(r.uniform(log(1e-15), log(1e-3)))); break;
    case 2: e = -M_PI / 2 + (r.coin(0.3) ? 0 : exp(r.uniform(log(1e-15), log(1e-3)))); break;
    default: e = r.uniform(-M_PI / 2, M_PI / 2); break;
  }
  a = r.coin(0.3) ? r.pick<double>({0, M_PI, M_PI / 2, 1.5 * M_PI, 1e-9, -1e-9, 1e-16, -1e-16, -1e-7}) : r.uniform(0, 2 * M_PI);
  for (int i = 0; i < 3; i++) sat[i] = static_cast<double>(static_cast<ld>(ref[i]) + D * (cosl(e) * cosl(a) * N[0][i] + cosl(e) * sinl(a) * N[1][i] - sinl(e) * N[2][i]));
  c.describe("receiver %.17g %.17g %.17g ecef (%.17g %.17g %.17g) target (%.17g %.17g %.17g)", l[0], l[1], l[2], ref[0], ref[1], ref[2], sat[0], sat[1], sat[2]);
  c.nt(hcombine(hbytes(l, sizeof l), hbytes(sat, sizeof sat)));
  wgsecef2azel(sat, ref, &az, &el);
  check_azel(sat, ref, l, p, az, el, "point");
  ev("azel");
}

SECTION(satellites, 30000, 1500000) {
  Rng &r = c.r;
  for (u16 i = 1; i <= 28; i++) glo_map_set_slot_id(static_cast<u16>((i + 4) % 14 + 1), i);
  constellation_t cons = r.pick<constellation_t>({CONSTELLATION_GPS, CONSTELLATION_QZS, CONSTELLATION_BDS, CONSTELLATION_GAL, CONSTELLATION_GLO, CONSTELLATION_SBAS});
  orbit::Gen g = cons == CONSTELLATION_GLO ? orbit::gen_glo(r) : cons == CONSTELLATION_SBAS ? orbit::gen_sbas(r) : orbit::gen_kepler(r, cons);
  ephemeris_t &e = orbit::in_place(g.e);
  if (cons == CONSTELLATION_GLO) e.sid.code = r.coin() ? CODE_GLO_L1OF : CODE_GLO_L2OF;
  /* without the validity check the flags of the ephemeris do not matter */
  if (r.coin(0.05)) {
    switch (r.range(0, 3)) {
      case 0: e.valid = 0; break;
      case 1: e.health_bits = 0x3f; break;
      case 2: e.ura = -1; break;
      default: e.data.kepler.iodc = static_cast<u16>(cons == CONSTELLATION_GLO || cons == CONSTELLATION_SBAS ? e.data.kepler.iodc : 5000); break;
    }
    ev("bad_flags");
  }
  double l[3], ref[3];
  double p = gen_ref(r, l, ref);
  bool fwd = cons == CONSTELLATION_BDS || cons == CONSTELLATION_GAL;
  double span = e.fit_interval;
  gps_time_t t = orbit::at(e.toe, r.coin(0.15) ? r.uniform(-3 * span, 3 * span) : fwd ? r.uniform(0, span) : r.uniform(-span / 2, span / 2));
  double rv[3];
  bool moving = r.coin(0.75);
  double sp = moving ? exp(r.uniform(log(0.1), log(8000))) : 0;
  for (double &v : rv) v = r.normal() * sp;
  c.describe("%s t (%d,%.17g) receiver %.17g %.17g %.17g velocity %.9g %.9g %.9g", cons == CONSTELLATION_GLO ? orbit::str_glo(e).c_str() : cons == CONSTELLATION_SBAS ? orbit::str_xyz(e).c_str() : orbit::str(e).c_str(), t.wn, t.tow, l[0], l[1], l[2], rv[0], rv[1], rv[2]);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hcombine(hbytes(l, sizeof l), hbytes(rv, sizeof rv))));
  double pos[3], vel[3], acc[3], clk, rate, az = 7, el = 7, dop = 7;
  CHECK(calc_sat_state_n(&e, &t, g.type, pos, vel, acc, &clk, &rate) == 0, "refused", "state refused");
  bool usable = ephemeris_valid(&e, &t) != 0;
  bool chk = r.coin(0.7);
  s8 ret = calc_sat_az_el(&e, &t, ref, g.type, &az, &el, chk);
  CHECK((ret == 0) == (usable || !chk), "azel_ret", "calc_sat_az_el(check %d) returned %d for a%s usable ephemeris", chk, ret, usable ? "" : "n un");
  if (ret == 0) {
    check_azel(pos, ref, l, p, az, el, "satellite");
    ev("sat_azel");
  }
  ret = calc_sat_doppler(&e, &t, ref, rv, g.type, &dop);
  CHECK((ret == 0) == usable, "doppler_ret", "calc_sat_doppler returned %d for a%s usable ephemeris", ret, usable ? "" : "n un");
  if (ret != 0) {
    ev("sat_refused");
    return;
  }
  const gnss::SigPlan *pl = gnss::plan_of(e.sid.code);
  ld f = cons != CONSTELLATION_GLO ? static_cast<ld>(pl->f0_mult) * 1.023e6L : 0;
  if (cons == CONSTELLATION_GLO) {
    int fcn = (e.sid.sat + 4) % 14 + 1 - 8;
    f = e.sid.code == CODE_GLO_L1OF ? 1602e6L + fcn * 562500.0L : 1246e6L + fcn * 437500.0L;
    ev("doppler_glo");
  }
  ld los[3], rel[3];
  for (int i = 0; i < 3; i++) los[i] = static_cast<ld>(pos[i]) - static_cast<ld>(ref[i]), rel[i] = static_cast<ld>(vel[i]) - static_cast<ld>(rv[i]);
  ld want = geo::dot(los, rel) / geo::norm(los) * f / 299792458.0L;
  CHECK(fabsl(static_cast<ld>(dop) - want) <= 1e-6L, "doppler", "Doppler %.12g Hz, range rate scaled by the carrier is %.12Lg Hz", dop, want);
  ev(moving ? "doppler_moving" : "doppler_static");
}

SECTION(almanac, 8000, 400000) {
  Rng &r = c.r;
  bool sbas = r.coin(0.3);
  orbit::Gen g = sbas ? orbit::gen_sbas(r) : orbit::gen_kepler(r, CONSTELLATION_GPS);
  almanac_t a;
  memset(&a, 0, sizeof a);
  a.sid = g.e.sid;
  a.toa = g.e.toe;
  a.fit_interval = 4 * 86400;
  a.valid = r.coin(0.95);
  if (sbas) memcpy(&a.data.xyz, &g.e.data.xyz, sizeof a.data.xyz);
  else {
    const ephemeris_kepler_t &k = g.e.data.kepler;
    a.data.kepler = {k.m0, k.ecc, k.sqrta, k.omega0, k.omegadot, k.w, k.inc, k.af0, k.af1};
  }
  double l[3], ref[3];
  double p = gen_ref(r, l, ref);
  gps_time_t t = orbit::at(a.toa, sbas ? r.uniform(-600, 600) : r.uniform(-150000, 150000));
  c.describe("almanac of %s t (%d,%.17g) receiver %.17g %.17g %.17g", sbas ? orbit::str_xyz(g.e).c_str() : orbit::str(g.e).c_str(), t.wn, t.tow, l[0], l[1], l[2]);
  c.nt(hcombine(hbytes(&a.data, sizeof a.data), hbytes(l, sizeof l)));
  double pos[3], vel[3], acc[3], clk, rate, az = 7, el = 7, dop = 7;
  s8 s = calc_sat_state_almanac(&a, &t, pos, vel, acc, &clk, &rate);
  CHECK((s == 0) == (a.valid != 0), "alm_state", "returned %d, valid flag %u", s, a.valid);
  CHECK(calc_sat_az_el_almanac(&a, &t, ref, &az, &el) == s && calc_sat_doppler_almanac(&a, &t, ref, &dop) == s, "alm_ret", "az/el or Doppler disagree with the state on usability");
  if (s != 0) return;
  check_azel(pos, ref, l, p, az, el, "almanac");
  ld los[3], v[3] = {vel[0], vel[1], vel[2]};
  for (int i = 0; i < 3; i++) los[i] = static_cast<ld>(pos[i]) - static_cast<ld>(ref[i]);
  ld want = geo::dot(los, v) / geo::norm(los) * static_cast<ld>(gnss::plan_of(a.sid.code)->f0_mult) * 1.023e6L / 299792458.0L;
  CHECK(fabsl(static_cast<ld>(dop) - want) <= 1e-6L, "alm_doppler", "Doppler %.12g Hz, expected %.12Lg Hz", dop, want);
  ev("doppler_almanac");
}
