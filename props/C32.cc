// @run variant=asan shards=8
#include "orbit.h"
using namespace mon;
using namespace orbit;
RULE("case = plausible GLONASS broadcast state and a time up to +-30 minutes from it (forwards and backwards, exact and fractional, across weeks), compared with a fine-step long-double integration of the interface document's equations of motion; "
     "or an SBAS broadcast state against its quadratic. Non-trivial: every case; identity = broadcast state and time.");
NEED(glo_forward, 1000);
NEED(glo_backward, 1000);
NEED(glo_at_toe, 400);
NEED(glo_far, 500);
NEED(glo_usable, 1500);
NEED(glo_refused, 200);
NEED(step_boundary, 300);
NEED(sbas, 10000);
NEED(other_week, 200);

SECTION(glonass, 8000, 400000) {
  Rng &r = c.r;
  Gen g = gen_glo(r);
  ephemeris_t &e = orbit::in_place(g.e);
  const ephemeris_glo_t &k = e.data.glo;
  double off;
  bool at_toe = false, step = false;
  switch (r.range(0, 5)) {
    case 0: off = 0, at_toe = true; break;
    case 1: off = static_cast<double>(r.range(-60, 60)) * 30, step = true; break;
    case 2: off = r.uniform(-2400, 2400); break;
    default: off = r.uniform(-1200, 1200); break;
  }
  gps_time_t t = at(e.toe, off);
  c.describe("%s t (%d,%.17g)", str_glo(e).c_str(), t.wn, t.tow);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hd(off)));
  double p[3], v[3], a[3], clk, rate;
  CHECK(calc_sat_state_n(&e, &t, MEO, p, v, a, &clk, &rate) == 0, "refused", "state refused");
  ld dt = since(t, e.toe);
  ld wclk = -static_cast<ld>(k.tau) + static_cast<ld>(k.gamma) * dt - group_delay(e, e.sid);
  CHECK(fabsl(static_cast<ld>(clk) - wclk) < 1e-15L, "clock", "clock offset %.17g, expected %.17Lg", clk, wclk);
  CHECK(fabsl(static_cast<ld>(rate) - static_cast<ld>(k.gamma)) < 1e-17L, "drift", "clock drift %.17g", rate);
  ld y[6];
  for (int i = 0; i < 3; i++) y[i] = k.pos[i], y[3 + i] = k.vel[i];
  glo_integrate(y, k.acc, dt - wclk);
  ld d[6];
  glo_deriv(y, k.acc, d);
  ld ep = 0, evl = 0, ea = 0;
  for (int i = 0; i < 3; i++) {
    ep = fmaxl(ep, fabsl(static_cast<ld>(p[i]) - y[i]));
    evl = fmaxl(evl, fabsl(static_cast<ld>(v[i]) - y[3 + i]));
    ea = fmaxl(ea, fabsl(static_cast<ld>(a[i]) - d[3 + i]));
  }
  /* 30 s steps up to 15 minutes, longer ones beyond */
  ld tol = 2e-4L * powl(fmaxl(1, fabsl(dt) / 900), 5);
  CHECK(ep < tol, "position", "off by %.6Lg m after %.3Lf s", ep, dt);
  CHECK(evl < tol * 1e-3L, "velocity", "off by %.6Lg m/s after %.3Lf s", evl, dt);
  CHECK(ea < 1e-8L, "acceleration", "off by %.6Lg m/s^2 after %.3Lf s", ea, dt);
  ev(dt < 0 ? "glo_backward" : "glo_forward");
  if (at_toe) {
    ev("glo_at_toe");
    /* the reference state itself, up to the clock correction of the time */
    for (int i = 0; i < 3; i++) CHECK(fabs(p[i] - k.pos[i]) <= fabs(k.vel[i] * clk) + 1e-3, "at_reference", "position at the reference time is not the broadcast one");
  }
  if (step) ev("step_boundary");
  if (fabs(off) > 900) ev("glo_far");
  if (t.wn != e.toe.wn) ev("other_week");

  double p2[3], v2[3], a2[3], c2, r2;
  s8 ret = calc_sat_state(&e, &t, p2, v2, a2, &c2, &r2);
  bool usable = ephemeris_valid(&e, &t) != 0;
  CHECK((ret == 0) == usable, "checked_ret", "calc_sat_state returned %d for a%s usable ephemeris", ret, usable ? "" : "n un");
  if (usable) {
    CHECK(!memcmp(p, p2, 24) && !memcmp(v, v2, 24) && !memcmp(a, a2, 24) && clk == c2 && rate == r2, "checked_state", "calc_sat_state gives another state");
    ev("glo_usable");
  } else ev("glo_refused");
}

SECTION(sbas, 20000, 1000000) {
  Rng &r = c.r;
  Gen g = gen_sbas(r);
  ephemeris_t &e = orbit::in_place(g.e);
  const ephemeris_xyz_t &k = e.data.xyz;
  double off = r.coin(0.1) ? 0 : r.coin() ? r.uniform(-360, 360) : r.uniform(-3600, 3600);
  gps_time_t t = at(e.toe, off);
  c.describe("%s t (%d,%.17g)", str_xyz(e).c_str(), t.wn, t.tow);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hd(off)));
  double p[3], v[3], a[3], clk, rate;
  CHECK(calc_sat_state_n(&e, &t, GEO, p, v, a, &clk, &rate) == 0, "refused", "state refused");
  ld dt = since(t, e.toe);
  ld wclk = static_cast<ld>(k.a_gf0) + static_cast<ld>(k.a_gf1) * dt;
  CHECK(fabsl(static_cast<ld>(clk) - wclk) < 1e-17L, "sbas_clock", "clock offset %.17g, expected %.17Lg", clk, wclk);
  CHECK(rate == k.a_gf1, "sbas_drift", "clock drift %.17g", rate);
  dt -= wclk;
  for (int i = 0; i < 3; i++) {
    ld wp = static_cast<ld>(k.pos[i]) + static_cast<ld>(k.vel[i]) * dt + static_cast<ld>(k.acc[i]) * dt * dt / 2, wv = static_cast<ld>(k.vel[i]) + static_cast<ld>(k.acc[i]) * dt;
    CHECK(fabsl(static_cast<ld>(p[i]) - wp) < 1e-6L, "sbas_position", "position[%d] %.9f, expected %.9Lf", i, p[i], wp);
    CHECK(fabsl(static_cast<ld>(v[i]) - wv) < 1e-9L, "sbas_velocity", "velocity[%d] %.12g, expected %.12Lg", i, v[i], wv);
    CHECK(a[i] == k.acc[i], "sbas_acceleration", "acceleration[%d] %.12g", i, a[i]);
  }
  ev("sbas");
}
