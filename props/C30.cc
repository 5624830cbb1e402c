// @run variant=asan shards=8
#include "orbit.h"
using namespace mon;
using namespace orbit;
RULE("case = plausible (or deliberately extreme) Keplerian ephemeris of GPS/QZSS/BeiDou (MEO, IGSO, GEO)/Galileo on any of its signals and a time inside or outside the fit interval, incl. week rollovers; "
     "position and clock against a long-double implementation of the published algorithm; group delay of every signal. Non-trivial: every case; identity = constellation, orbit type, signal, orbit and time.");
NEED(st_gps, 3000);
NEED(st_qzs, 3000);
NEED(st_gal, 3000);
NEED(st_bds_meo, 3000);
NEED(st_bds_geo, 3000);
NEED(week_rollover, 300);
NEED(refused_invalid, 1000);
NEED(wild_orbit, 3000);
NEED(high_ecc, 500);
NEED(tgd_checked, 10000);
NEED(bdt_wrap, 30);

SECTION(state, 120000, 6000000) {
  Rng &r = c.r;
  constellation_t cons = r.pick<constellation_t>({CONSTELLATION_GPS, CONSTELLATION_QZS, CONSTELLATION_BDS, CONSTELLATION_GAL});
  bool wild = r.coin(0.2);
  Gen g = gen_kepler(r, cons, wild);
  ephemeris_t &e = orbit::in_place(g.e);
  double off;
  switch (r.range(0, 3)) {
    case 0: off = r.uniform(-7200, 7200); break;
    case 1: off = r.pick<double>({0, 7200, -7200, 3600, 0.5, -1}); break;
    case 2: off = r.uniform(0, 14400); break;
    default: off = r.uniform(-90000, 90000); break;
  }
  gps_time_t t = at(e.toe, off);
  c.describe("%s %s t (%d,%.17g)", str(e).c_str(), g.type == GEO ? "GEO" : g.type == IGSO ? "IGSO" : "MEO", t.wn, t.tow);
  c.nt(hcombine(hbytes(&e.data, sizeof e.data), hcombine(hd(t.tow), static_cast<uint64_t>(e.sid.code) * 4 + g.type)));
  double pos[3], vel[3], acc[3], clk, rate;
  s8 ret = calc_sat_state_n(&e, &t, g.type, pos, vel, acc, &clk, &rate);
  CHECK(ret == 0, "refused", "calc_sat_state_n returned %d", ret);
  State s = kepler(e, since(t, e.toe), since(t, e.data.kepler.toc), g.type == GEO);
  double d = 0;
  for (int i = 0; i < 3; i++) d = fmax(d, static_cast<double>(fabsl(static_cast<ld>(pos[i]) - s.pos[i])));
  /* the periodic relativistic term may or may not be part of the time argument */
  double tol = 5e-4 + static_cast<double>(fabsl(s.einstein)) * 12000;
  CHECK(d <= tol, "position", "off by %.6g m: (%.6f %.6f %.6f), expected (%.6Lf %.6Lf %.6Lf)", d, pos[0], pos[1], pos[2], s.pos[0], s.pos[1], s.pos[2]);
  /* the document gives the relativistic term as F e sqrtA sinE or as -2 r.v/c^2, which differ by the harmonic perturbations */
  ld ste = since(t, e.toe), stc = since(t, e.data.kepler.toc), rp = kepler(e, ste + 0.5L, stc + 0.5L, false).r, rm = kepler(e, ste - 0.5L, stc - 0.5L, false).r;
  ld rv = -(rp * rp - rm * rm) / (C0 * C0);
  ld cd = fminl(fabsl(static_cast<ld>(clk) - (s.clk + s.einstein)), fabsl(static_cast<ld>(clk) - (s.clk + rv)));
  CHECK(cd <= 2e-13L + fabsl(rv) * 1e-6L, "clock", "clock offset %.17g, expected %.17Lg (relativistic part %.6Lg), off by %.3Lg", clk, s.clk + s.einstein, s.einstein, cd);
  ld toc = since(t, e.data.kepler.toc);
  ld poly = static_cast<ld>(e.data.kepler.af1) + 2 * toc * static_cast<ld>(e.data.kepler.af2);
  ld rel = kepler(e, ste + 0.5L, stc + 0.5L, false).einstein - kepler(e, ste - 0.5L, stc - 0.5L, false).einstein;
  ld dd = fminl(fabsl(static_cast<ld>(rate) - poly), fabsl(static_cast<ld>(rate) - (poly + rel)) * 1e-3L);
  CHECK(dd <= 1e-15L, "drift", "clock drift %.17g, the clock model changes at %.17Lg s/s", rate, poly);
  if (wild) ev("wild_orbit");
  if (e.data.kepler.ecc > 0.3) ev("high_ecc");
  if (t.wn != e.toe.wn) ev("week_rollover");
  if (cons == CONSTELLATION_BDS && e.toe.tow < 14) ev("bdt_wrap");
  ev(cons == CONSTELLATION_GPS ? "st_gps" : cons == CONSTELLATION_QZS ? "st_qzs" : cons == CONSTELLATION_GAL ? "st_gal" : g.type == GEO ? "st_bds_geo" : "st_bds_meo");

  /* the checked forms give the same state, exactly when the ephemeris is usable */
  if (r.coin(0.2)) {
    int m = static_cast<int>(r.range(0, 4));
    if (m == 1) e.valid = 0;
    if (m == 2) e.health_bits = 0x3f;
    if (m == 3) e.fit_interval = 0;
  }
  bool usable = ephemeris_valid(&e, &t) != 0;
  double p2[3], v2[3], a2[3], c2, r2;
  ret = calc_sat_state_orbit_type(&e, &t, g.type, p2, v2, a2, &c2, &r2);
  CHECK((ret == 0) == usable && (ret == 0 || ret == -1), "checked_ret", "orbit-type form returned %d for a%s usable ephemeris", ret, usable ? "" : "n un");
  if (!usable) ev("refused_invalid");
  else {
    CHECK(!memcmp(p2, pos, sizeof pos) && !memcmp(v2, vel, sizeof vel) && !memcmp(a2, acc, sizeof acc) && clk == c2 && rate == r2, "checked_state", "orbit-type form gives another state");
  }
  if (g.type == MEO) {
    s8 rr = calc_sat_state(&e, &t, p2, v2, a2, &c2, &r2);
    CHECK(rr == ret, "plain_ret", "calc_sat_state returned %d", rr);
    if (rr == 0) CHECK(!memcmp(p2, pos, sizeof pos) && !memcmp(v2, vel, sizeof vel) && !memcmp(a2, acc, sizeof acc) && clk == c2 && rate == r2, "plain_state", "calc_sat_state gives another state");
  }
}

SECTION(group_delay, 40000, 500000) {
  Rng &r = c.r;
  const gnss_signal_t &s = r.pick(gnss::all_sids());
  constellation_t cons = gnss::plan_of(s.code)->cons;
  if (cons == CONSTELLATION_SBAS) return;
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid = s;
  if (r.coin()) e.sid.code = gnss::cons_of(cons).l1;
  if (cons == CONSTELLATION_GLO) e.data.glo.d_tau = r.uniform(-2e-8, 2e-8);
  else for (float &x : e.data.kepler.tgd.gps_s) x = r.coin(0.1) ? 0 : static_cast<float>(r.uniform(-6e-8, 6e-8));
  c.describe("%s of ephemeris %s tgd %.9g %.9g d_tau %.9g", gnss::str(s).c_str(), gnss::str(e.sid).c_str(), static_cast<double>(e.data.kepler.tgd.gps_s[0]), static_cast<double>(e.data.kepler.tgd.gps_s[1]), e.data.glo.d_tau);
  c.nt(hcombine(hbytes(&e.data, 24), static_cast<uint64_t>(s.code)));
  if (s.code == CODE_BDS3_B1CQ || s.code == CODE_BDS3_B1CX || s.code == CODE_AUX_BDS) return; /* no delay is published for these here */
  float got = 7;
  s8 ret = get_tgd_correction(&e, &s, &got);
  CHECK(ret == 0, "tgd_refused", "returned %d", ret);
  ld want = group_delay(e, s);
  CHECK(fabsl(static_cast<ld>(got) - want) <= fabsl(want) * 1e-6L, "tgd", "group delay %.9g, expected %.9Lg", static_cast<double>(got), want);
  ev("tgd_checked");
}
