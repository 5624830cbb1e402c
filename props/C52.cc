// @run variant=asan shards=8
#include "atmo.h"
#include "bcast.h"
#include "pvt.h"
#include <swiftnav/coord_system.h>
#include <swiftnav/troposphere.h>
using namespace mon;
typedef long double ld;
RULE("case = a receiver anywhere near the Earth at any second of GPS weeks 1931..3000 (18 leap seconds), satellites of one to five constellations drawn as message integers and chosen above its horizon; their messages are built bit by bit and decoded by the library, "
     "pseudoranges and Dopplers come from an independent long-double simulation of satellite motion, clocks, Earth rotation, ionosphere and troposphere; the library's states, angles, corrections and solver then have to return the receiver's true position, velocity, clock and time. "
     "Some satellites are unhealthy or have outdated data and must be refused. Non-trivial: judged fixes; identity = the measurements.");
NEED(fixes, 2500);
NEED(fix_gps, 1200);
NEED(fix_glo, 800);
NEED(fix_gal, 800);
NEED(fix_bds, 800);
NEED(fix_qzs, 800);
NEED(bds_geo, 1200);
NEED(with_iono, 800);
NEED(with_tropo, 800);
NEED(refused_unhealthy, 1200);
NEED(refused_old, 1000);
NEED(fast_clock, 10000);
NEED(other_week, 1500);
NEED(second_frequency, 6000);

static const ld C = pvt::C, WE = pvt::WE;

struct World {
  gps_time_t t0; /* true time of reception */
  pvt::Truth tr;
  ionosphere_t ion;
  bool iono, tropo;
  int doy;
};
/* elevation and azimuth of a point seen from the receiver */
static void look(const World &w, const ld rx[3], const ld p[3], ld *az, ld *el) {
  ld M[3][3], d[3], n[3];
  (void)w;
  double llh[3] = {w.tr.llh[0], w.tr.llh[1], w.tr.llh[2]};
  geo::ned(llh, M);
  for (int i = 0; i < 3; i++) d[i] = p[i] - rx[i];
  for (int i = 0; i < 3; i++) n[i] = M[i][0] * d[0] + M[i][1] * d[1] + M[i][2] * d[2];
  *az = atan2l(n[1], n[0]);
  *el = atan2l(-n[2], hypotl(n[0], n[1]));
}
/* geometry of the reception dt seconds after t0: satellite time of transmission, range, unit vector, angles */
struct Rx {
  ld tsv, range, u[3], az, el;
};
static Rx receive(const World &w, bcast::Sat &s, ld dt) {
  Rx o;
  ld rx[3], p[3], clk = 0, tau = 0.08L, q[3];
  for (int i = 0; i < 3; i++) rx[i] = w.tr.pos[i] + w.tr.vel[i] * dt;
  s.at(dt - tau, p, &clk);
  for (int it = 0; it < 5; it++) {
    o.tsv = dt - tau + clk;
    s.at(o.tsv, p, &clk);
    ld a = WE * tau, cs = cosl(a), sn = sinl(a);
    q[0] = cs * p[0] + sn * p[1], q[1] = -sn * p[0] + cs * p[1], q[2] = p[2];
    for (int i = 0; i < 3; i++) o.u[i] = q[i] - rx[i];
    o.range = geo::norm(o.u);
    tau = o.range / C;
  }
  o.tsv = dt - tau + clk;
  for (int i = 0; i < 3; i++) o.u[i] /= o.range;
  look(w, rx, q, &o.az, &o.el);
  return o;
}
/* pseudorange of the reception dt seconds after t0 */
static ld pseudorange(const World &w, bcast::Sat &s, ld dt, ld atmosphere) {
  Rx o = receive(w, s, dt);
  return C * (dt - o.tsv) + w.tr.clk.at(s.cons) + w.tr.drift * dt + atmosphere;
}
static double q30(Rng &r, double lo, double hi, int e) { return floor(ldexp(r.uniform(lo, hi), -e)); }

SECTION(fix, 6000, 400000) {
  Rng &r = c.r;
  World w;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r), o.hmin = -100, o.hmax = 9000, o.vmax = 250, o.clk = 2.5e5;
  pvt::Sim sim;
  pvt::gen_truth(r, o, sim);
  w.tr = sim.t;
  w.tr.drift = r.uniform(-200, 200);
  for (auto &k : w.tr.clk) k.second = w.tr.clk.at(CONSTELLATION_GPS) + (k.first == CONSTELLATION_GPS ? 0 : r.uniform(-300, 300));
  w.t0 = tref::mk(static_cast<int>(r.range(1931, 3000)), r.coin(0.1) ? r.pick<double>({0, 604799, 604790.5, 30, 100.25}) : r.coin() ? static_cast<double>(r.range(0, 604799)) : r.uniform(0, 604800));
  pvt::map_glo();

  /* broadcast ionosphere model, announced by a GPS page */
  int64_t a[4] = {static_cast<int64_t>(q30(r, 3e-9, 3e-8, -30)), r.range(-3, 3), r.range(-1, 1), r.range(-1, 1)}, b[4] = {r.range(40, 70), r.range(-5, 5), r.range(-3, 3), r.range(-5, 5)};
  memset(&w.ion, 0, sizeof w.ion);
  Buf<u32> page(8);
  for (size_t k = 0; k < 8; k++) page[k] = static_cast<u32>(r.range(0, 0x3fffffff));
  nav::put30(&page[0], 1, 2, 1), nav::put30(&page[0], 3, 6, 56);
  auto u = [](int64_t v) { return static_cast<uint64_t>(v); };
  nav::put30(&page[0], 9, 8, u(a[0])), nav::put30(&page[0], 17, 8, u(a[1])), nav::put30(&page[1], 1, 8, u(a[2])), nav::put30(&page[1], 9, 8, u(a[3]));
  nav::put30(&page[1], 17, 8, u(b[0])), nav::put30(&page[2], 1, 8, u(b[1])), nav::put30(&page[2], 9, 8, u(b[2])), nav::put30(&page[2], 17, 8, u(b[3]));
  w.ion.a0 = ldexp(static_cast<double>(a[0]), -30), w.ion.a1 = ldexp(static_cast<double>(a[1]), -27), w.ion.a2 = ldexp(static_cast<double>(a[2]), -24), w.ion.a3 = ldexp(static_cast<double>(a[3]), -24);
  w.ion.b0 = ldexp(static_cast<double>(b[0]), 11), w.ion.b1 = ldexp(static_cast<double>(b[1]), 14), w.ion.b2 = ldexp(static_cast<double>(b[2]), 16), w.ion.b3 = ldexp(static_cast<double>(b[3]), 16);
  /* same page: leap seconds, long in effect */
  int wls = static_cast<int>(w.t0.wn) - static_cast<int>(r.range(1, 100));
  nav::put30(&page[3], 1, 24, 0), nav::put30(&page[4], 1, 24, 0), nav::put30(&page[5], 1, 8, 0), nav::put30(&page[5], 9, 8, 100), nav::put30(&page[5], 17, 8, u((w.t0.wn - 1) % 256));
  nav::put30(&page[6], 1, 8, 18), nav::put30(&page[6], 9, 8, u(wls % 256)), nav::put30(&page[6], 17, 8, 7), nav::put30(&page[7], 1, 8, 18);
  w.iono = r.coin() && fabs(w.tr.llh[0]) < 1.55 /* azimuth and longitude mean little at the poles */, w.tropo = r.coin();
  ionosphere_t ion;
  utc_params_t utc;
  memset(&ion, 0xa5, sizeof ion), memset(&utc, 0xa5, sizeof utc);
  CHECK(decode_iono_parameters(page.p, &ion), "iono_page", "ionosphere page refused");
  CHECK(decode_utc_parameters_with_wn_ref(page.p, &utc, static_cast<u16>(w.t0.wn - 120)), "utc_page", "leap-second page refused");
  bool params = r.coin();
  ld gps_s = static_cast<ld>(w.t0.wn) * 604800 + static_cast<ld>(w.t0.tow);
  w.doy = tref::date_of(static_cast<int>(floorl((gps_s - 18) / 86400))).doy;
  /* the library's day of the year, counted in GPS time or UTC: not a matter of centimetres */
  double ldoy = gps2doy(&w.t0);
  CHECK(fabs(ldoy - w.doy) <= 1 || fabs(ldoy - w.doy) >= 364, "doy", "day %g, expected %d", ldoy, w.doy);

  struct Obs {
    bcast::Sat s;
    ld atm;
    Rx rx;
  };
  std::vector<Obs> obs;
  std::vector<pvt::Sig> sig;
  std::string text;
  for (auto k : o.cons) {
    int want = static_cast<int>(o.cons.size() == 1 ? r.range(5, 11) : r.range(2, 6));
    std::set<unsigned> used;
    const gnss::ConsPlan &cp = gnss::cons_of(k);
    for (int tries = 0; tries < 60 && want > 0; tries++) {
      unsigned sat = cp.first + static_cast<unsigned>(r.range(0, cp.count - 1));
      if (k == CONSTELLATION_GLO && sat > 24) continue;
      if (used.count(sat)) continue;
      code_t code = r.coin(0.75) ? cp.l1 : r.pick(pvt::codes(k));
      bcast::Sat s = bcast::draw(r, k, sat, code, w.t0);
      Rx x = receive(w, s, 0);
      if (x.el < 10 * geo::PI / 180) continue;
      used.insert(sat);
      s.cached = false;
      /* one in twelve is unusable: unhealthy, or its data are hours old */
      int bad = r.coin(0.08) ? static_cast<int>(r.range(1, 2)) : 0;
      if (bad == 1) s.healthy = false;
      gps_time_t t0 = w.t0;
      if (bad == 2) { /* the same message, but of 6 hours ago */
        if (k == CONSTELLATION_GLO) continue;
        t0 = orbit::at(w.t0, -6 * 3600);
        s = bcast::draw(r, k, sat, code, t0);
        s.toe_off -= 6 * 3600, s.toc_off -= 6 * 3600;
      }
      bool ok = bcast::broadcast(r, s, t0, r.coin(0.8) ? r.uniform(1, 40) : r.uniform(1, 1200), params ? &utc : nullptr);
      if (bad != 1) CHECK(ok, "decode", "%s: decoder refused a sound message (toe %lld)", gnss::str(s.tr.sid).c_str(), static_cast<long long>(s.toe));
      Obs q = {s, 0, x};
      if (bad) q.rx = receive(w, q.s, 0);
      pvt::Sig g;
      memset(&g.m, 0, sizeof g.m);
      g.cons = k, g.m.sid = s.tr.sid;
      ld f = pvt::freq_of(g.m.sid), sc = 1575.42e6L / f;
      if (w.iono) {
        atmo::K m = atmo::klobuchar(w.t0.tow, w.tr.llh[0], w.tr.llh[1], q.rx.az, q.rx.el, w.ion);
        if (m.margin < 1e-3L) continue; /* the model jumps here */
        q.atm += m.d * sc * sc;
      }
      if (w.tropo) q.atm += atmo::unb3m(w.doy, w.tr.llh[0], w.tr.llh[2], q.rx.el);
      g.m.raw_pseudorange = static_cast<double>(pseudorange(w, q.s, 0, q.atm));
      const ld h = 0.05L;
      ld rate = (pseudorange(w, q.s, h, 0) - pseudorange(w, q.s, -h, 0)) / (2 * h);
      g.m.raw_measured_doppler = static_cast<double>(-rate * f / C);
      for (int i = 0; i < 3; i++) g.u[i] = q.rx.u[i];
      g.m.cn0 = r.uniform(35, 50), g.m.lock_time = r.uniform(10, 5000);
      g.m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID | NAV_MEAS_FLAG_PHASE_VALID;
      /* time of transmission, by the receiver's clock */
      gps_time_t tor = orbit::at(w.t0, static_cast<double>(w.tr.clk.at(o.cons[0]) / C));
      g.m.tot = orbit::at(tor, -g.m.raw_pseudorange / static_cast<double>(C));
      double acc[3];
      s8 ret = calc_sat_state_orbit_type(&s.dec, &g.m.tot, s.type, g.m.sat_pos, g.m.sat_vel, acc, &g.m.sat_clock_err, &g.m.sat_clock_err_rate);
      if (bad) {
        CHECK(ret == -1, bad == 1 ? "unhealthy_used" : "old_used", "%s: %s satellite's state returned %d", gnss::str(s.tr.sid).c_str(), bad == 1 ? "unhealthy" : "outdated", ret);
        ev(bad == 1 ? "refused_unhealthy" : "refused_old");
        continue;
      }
      CHECK(ret == 0, "state", "%s: no state %.0Lf s after its reference time", gnss::str(s.tr.sid).c_str(), -s.toe_off);
      ld p[3], clk;
      q.s.at(q.rx.tsv, p, &clk);
      for (int i = 0; i < 3; i++)
        CHECK(fabsl(p[i] - g.m.sat_pos[i]) < 0.02L, "satellite", "%s: position[%d] %.4f m, true %.4Lf m, %.0Lf s after its reference time", gnss::str(s.tr.sid).c_str(), i, g.m.sat_pos[i], p[i], -s.toe_off);
      CHECK(fabsl(clk - g.m.sat_clock_err) < 2e-10L, "satellite_clock", "%s: clock %.15g s, true %.15Lg s", gnss::str(s.tr.sid).c_str(), g.m.sat_clock_err, clk);
      double az, el;
      double ref[3] = {static_cast<double>(w.tr.pos[0]), static_cast<double>(w.tr.pos[1]), static_cast<double>(w.tr.pos[2])};
      CHECK(calc_sat_az_el(&s.dec, &g.m.tot, ref, s.type, &az, &el, true) == 0, "azel_refused", "%s: no angles", gnss::str(s.tr.sid).c_str());
      CHECK(fabsl(el - q.rx.el) < 3e-5L, "elevation", "%s: elevation %.9g, true %.9Lg", gnss::str(s.tr.sid).c_str(), el, q.rx.el);
      g.m.elevation = el * 180 / M_PI;
      obs.push_back(q), sig.push_back(g);
      if (s.type == GEO) ev("bds_geo");
      if (fabs(g.m.sat_clock_err_rate) > 3e-10) ev("fast_clock");
      if (s.dec.toe.wn != w.t0.wn) ev("other_week");
      if (code != cp.l1) ev("second_frequency");
      text += gnss::str(s.tr.sid);
      want--;
    }
  }
  c.describe("t0 (%d,%.9f) receiver %.9f %.9f %.1f iono %d tropo %d sats %s", w.t0.wn, w.t0.tow, w.tr.llh[0], w.tr.llh[1], w.tr.llh[2], w.iono, w.tropo, text.c_str());
  std::vector<const pvt::Sig *> v;
  for (auto &g : sig) v.push_back(&g);
  std::vector<constellation_t> ck = pvt::clocks(v);
  if (v.size() < 4 || v.size() < 3 + ck.size() + 1) return;
  pvt::Cov H = pvt::cov(v, {});
  if (!H.ok) return;
  ld G = 0;
  for (size_t i = 0; i < ck.size(); i++) G = fmaxl(G, pvt::gdop(H, i));
  if (G > (v.size() > 4 + ck.size() ? 12 : 6)) return; /* weak geometry, or a second root of the range equations */

  gps_time_t tor = orbit::at(w.t0, static_cast<double>(w.tr.clk.at(o.cons[0]) / C));
  std::vector<double> raw;
  for (auto &g : sig) raw.push_back(g.m.raw_pseudorange);
  pvt::Res res;
  int rounds = w.iono || w.tropo ? 4 : 1;
  for (int k = 0; k < rounds; k++) {
    if (k > 0)
      for (size_t i = 0; i < sig.size(); i++) {
        double az, el, d = 0, f = sid_to_carr_freq(sig[i].m.sid), sc = 1575.42e6 / f;
        wgsecef2azel(sig[i].m.sat_pos, res.soln.pos_ecef, &az, &el);
        if (w.iono) d += calc_ionosphere(&res.soln.time, res.soln.pos_llh[0], res.soln.pos_llh[1], az, el, &ion) * sc * sc;
        if (w.tropo) d += calc_troposphere(ldoy, res.soln.pos_llh[0], res.soln.pos_llh[2], el);
        sig[i].m.raw_pseudorange = raw[i] - d;
      }
    bool last = k == rounds - 1;
    res = pvt::solve(v, tor, !last, false, pvt::no_mask(), ALL_CONSTELLATIONS);
    CHECK(res.ret >= 0 && res.soln.valid, "unsolved", "returned %d in round %d with GDOP %.2Lf", res.ret, k, G);
  }
  ld tol = 0.06L * G + (w.tropo ? 0.02L * G : 0) + (w.iono ? 0.05L * G : 0), e = 0;
  for (int i = 0; i < 3; i++) e = fmaxl(e, fabsl(res.soln.pos_ecef[i] - w.tr.pos[i]));
  CHECK(e <= tol, "position", "off by %.4Lg m (GDOP %.2Lf, %zu signals)", e, G, v.size());
  bool clk = false;
  for (auto k : ck) clk |= fabsl(res.soln.clock_offset * C - w.tr.clk.at(k)) <= tol;
  CHECK(clk, "clock", "offset %.12g s is no constellation's clock", res.soln.clock_offset);
  CHECK(res.soln.velocity_valid, "velocity_missing", "velocity not valid");
  ld vt = 0.15L * G, ve = 0;
  for (int i = 0; i < 3; i++) ve = fmaxl(ve, fabsl(res.soln.vel_ecef[i] - w.tr.vel[i]));
  CHECK(ve <= vt, "velocity", "off by %.4Lg m/s (GDOP %.2Lf)", ve, G);
  CHECK(fabsl(res.soln.clock_drift * C - w.tr.drift) <= vt, "drift", "%.9g m/s, true %.9Lg m/s", res.soln.clock_drift * static_cast<double>(C), w.tr.drift);
  ld dt = bcast::secs_from(w.t0, res.soln.time), isb = 0;
  for (auto k : ck) isb = fmaxl(isb, fabsl(w.tr.clk.at(k) - w.tr.clk.at(o.cons[0])) / C);
  CHECK(fabsl(dt) <= isb + tol / C + 1e-9L, "time", "time of the fix off by %.4Lg s", dt);
  CHECK(res.ret != PVT_CONVERGED_RAIM_REPAIR, "excluded", "%u signals of a fault-free set excluded", sid_set_get_sig_count(&res.removed));
  c.nt(pvt::hash(sim) ^ hd(raw[0]));
  ev("fixes");
  for (auto k : ck) ev(k == CONSTELLATION_GPS ? "fix_gps" : k == CONSTELLATION_GLO ? "fix_glo" : k == CONSTELLATION_GAL ? "fix_gal" : k == CONSTELLATION_BDS ? "fix_bds" : "fix_qzs");
  if (w.iono) ev("with_iono");
  if (w.tropo) ev("with_tropo");
}
