// @run variant=asan shards=8
#include <functional>
#include "orbit.h"
#include <swiftnav/almanac.h>
using namespace mon;
using namespace orbit;
RULE("case = ephemeris (GPS/QZSS/BeiDou incl. GEO/Galileo/GLONASS/SBAS) or almanac (GPS/SBAS) and a time; the returned velocity, acceleration and clock drift are compared with fourth-order finite differences of the returned "
     "position, velocity and clock offset at neighbouring times, also across week rollovers and the reference time. Non-trivial: every case; identity = orbit and time.");
NEED(fd_kepler, 15000);
NEED(fd_geo, 2000);
NEED(fd_glo, 5000);
NEED(fd_sbas, 2000);
NEED(fd_almanac, 4000);
NEED(straddles_week, 500);
NEED(straddles_toe, 500);

struct S {
  double p[3], v[3], a[3], clk, rate;
};
typedef std::function<void(double, S &)> Ask;
static void fd(const Ask &ask, const Ask &rel, double off, double h, double tv, double ta, double tc, const char *what) {
  S s0, s[4];
  const double o[4] = {h, -h, 2 * h, -2 * h};
  ask(off, s0);
  for (int i = 0; i < 4; i++) ask(off + o[i], s[i]);
  for (int i = 0; i < 3; i++) {
    double fv = (8 * (s[0].p[i] - s[1].p[i]) - (s[2].p[i] - s[3].p[i])) / (12 * h);
    double fa = (8 * (s[0].v[i] - s[1].v[i]) - (s[2].v[i] - s[3].v[i])) / (12 * h);
    if (!(fabs(fv - s0.v[i]) <= tv)) fail("velocity", "%s: velocity[%d] %.12g but position changes at %.12g m/s", what, i, s0.v[i], fv);
    if (!(fabs(fa - s0.a[i]) <= ta)) fail("acceleration", "%s: acceleration[%d] %.12g but velocity changes at %.12g m/s^2", what, i, s0.a[i], fa);
  }
  double fc = (8 * (s[0].clk - s[1].clk) - (s[2].clk - s[3].clk)) / (12 * h);
  if (fabs(fc - s0.rate) <= tc) return; /* the whole offset */
  if (!rel) fail("drift", "%s: clock drift %.15g but clock offset changes at %.15g s/s", what, s0.rate, fc);
  /* or the offset without its periodic relativistic part, which is what the same orbit gives with an ideal clock */
  S z;
  double cz[4];
  for (int i = 0; i < 4; i++) {
    rel(off + o[i], z);
    cz[i] = z.clk;
  }
  double fr = (8 * (cz[0] - cz[1]) - (cz[2] - cz[3])) / (12 * h);
  CHECK(fabs(fc - fr - s0.rate) <= tc, "drift", "%s: clock drift %.15g but clock offset changes at %.15g s/s, %.15g of it relativistic", what, s0.rate, fc, fr);
  ev("drift_without_relativity");
}
static double gen_off(Rng &r, double span, const gps_time_t &toe) {
  double o;
  switch (r.range(0, 4)) {
    case 0: o = r.uniform(-1, 1); break;
    case 1: o = r.pick<double>({0, -1, 1, span, -span, 30, -30, 60}); break;
    case 2:
      o = 604800 - toe.tow;
      if (o > span) o = -toe.tow;
      if (fabs(o) > span) o = r.uniform(-span, span);
      break;
    default: o = r.uniform(-span, span); break;
  }
  return floor(o * 8) / 8;
}

SECTION(kepler_eph, 40000, 2000000) {
  Rng &r = c.r;
  constellation_t cons = r.pick<constellation_t>({CONSTELLATION_GPS, CONSTELLATION_QZS, CONSTELLATION_BDS, CONSTELLATION_GAL});
  Gen g = gen_kepler(r, cons, false);
  ephemeris_t &e = orbit::in_place(g.e);
  double off = gen_off(r, 14400, e.toe);
  c.describe("%s type %d offset %.17g", str(e).c_str(), g.type, off);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hd(off)));
  auto ask = [&](double o, S &s) {
    gps_time_t t = at(e.toe, o);
    CHECK(calc_sat_state_n(&e, &t, g.type, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  /* the argument is satellite time: orbit time runs (1 - clock drift) as fast */
  double dr = fabs(e.data.kepler.af1) + 1e-10;
  ephemeris_t ideal = e;
  ideal.data.kepler.af0 = ideal.data.kepler.af1 = ideal.data.kepler.af2 = 0;
  memset(&ideal.data.kepler.tgd, 0, sizeof ideal.data.kepler.tgd);
  auto rel = [&](double o, S &s) {
    gps_time_t t = at(e.toe, o);
    CHECK(calc_sat_state_n(&ideal, &t, g.type, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  fd(ask, rel, off, 1, 2e-6 + dr * 5000, 2e-8 + dr, 2e-15, g.type == GEO ? "BeiDou GEO" : "Kepler");
  if (at(e.toe, off - 2).wn != at(e.toe, off + 2).wn) ev("straddles_week");
  if (fabs(off) < 2) ev("straddles_toe");
  ev(g.type == GEO ? "fd_geo" : "fd_kepler");
}
SECTION(glo, 12000, 400000) {
  Rng &r = c.r;
  Gen g = gen_glo(r);
  ephemeris_t &e = orbit::in_place(g.e);
  double off = gen_off(r, 1800, e.toe);
  c.describe("%s offset %.17g", str_glo(e).c_str(), off);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hd(off)));
  auto ask = [&](double o, S &s) {
    gps_time_t t = at(e.toe, o);
    CHECK(calc_sat_state_n(&e, &t, MEO, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  fd(ask, nullptr, off, 1, 1e-5 + fabs(e.data.glo.gamma) * 6000, 5e-8, 2e-16, "GLONASS");
  if (at(e.toe, off - 2).wn != at(e.toe, off + 2).wn) ev("straddles_week");
  if (fabs(off) < 2) ev("straddles_toe");
  ev("fd_glo");
}
SECTION(sbas, 6000, 200000) {
  Rng &r = c.r;
  Gen g = gen_sbas(r);
  ephemeris_t &e = orbit::in_place(g.e);
  double off = gen_off(r, 720, e.toe);
  c.describe("%s offset %.17g", str_xyz(e).c_str(), off);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hd(off)));
  auto ask = [&](double o, S &s) {
    gps_time_t t = at(e.toe, o);
    CHECK(calc_sat_state_n(&e, &t, g.type, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  fd(ask, nullptr, off, 1, 2e-7, 1e-9, 2e-16, "SBAS");
  if (at(e.toe, off - 2).wn != at(e.toe, off + 2).wn) ev("straddles_week");
  ev("fd_sbas");
}
SECTION(almanac, 12000, 400000) {
  Rng &r = c.r;
  bool sbas = r.coin(0.3);
  Gen g = sbas ? gen_sbas(r) : gen_kepler(r, CONSTELLATION_GPS);
  const ephemeris_t &e = orbit::in_place(g.e);
  almanac_t a;
  memset(&a, 0, sizeof a);
  a.sid = e.sid;
  a.toa = e.toe;
  a.ura = 5;
  a.fit_interval = sbas ? 2 * 86400 : 6 * 86400;
  a.valid = 1;
  if (sbas) {
    memcpy(a.data.xyz.pos, e.data.xyz.pos, 24);
    memcpy(a.data.xyz.vel, e.data.xyz.vel, 24);
    memcpy(a.data.xyz.acc, e.data.xyz.acc, 24);
  } else {
    const ephemeris_kepler_t &k = e.data.kepler;
    a.data.kepler.m0 = k.m0;
    a.data.kepler.ecc = k.ecc;
    a.data.kepler.sqrta = k.sqrta;
    a.data.kepler.omega0 = k.omega0;
    a.data.kepler.omegadot = k.omegadot;
    a.data.kepler.w = k.w;
    a.data.kepler.inc = k.inc;
    a.data.kepler.af0 = k.af0;
    a.data.kepler.af1 = k.af1;
  }
  double off = gen_off(r, sbas ? 720 : 3 * 86400 - 16, a.toa);
  c.describe("almanac of %s offset %.17g", sbas ? str_xyz(e).c_str() : str(e).c_str(), off);
  c.nt(hcombine(hbytes(&a.data, sizeof a.data), hd(off)));
  auto ask = [&](double o, S &s) {
    gps_time_t t = at(a.toa, o);
    CHECK(calc_sat_state_almanac(&a, &t, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  double dr = sbas ? 0 : fabs(a.data.kepler.af1) + 1e-10;
  almanac_t ideal = a;
  if (!sbas) ideal.data.kepler.af0 = ideal.data.kepler.af1 = 0;
  auto rel = [&](double o, S &s) {
    gps_time_t t = at(a.toa, o);
    CHECK(calc_sat_state_almanac(&ideal, &t, s.p, s.v, s.a, &s.clk, &s.rate) == 0, "refused", "state refused");
  };
  fd(ask, rel, off, 1, 2e-6 + dr * 5000, 2e-8 + dr, 2e-15, sbas ? "SBAS almanac" : "GPS almanac");
  ev("fd_almanac");
}
