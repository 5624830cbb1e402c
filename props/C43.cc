// @run variant=asan shards=8
#include "pvt.h"
#include "timeref.h"
#include <swiftnav/gnss_time.h>
using namespace mon;
typedef long double ld;
RULE("truth: simulated receivers anywhere on and above the Earth, 4..20 satellites of one to five constellations with one or two signals each, random clocks, drifts, velocities, signal quality, with and without velocity and integrity checking; "
     "covariance: weights learned per signal from homogeneous sets, then the reported covariance compared with the weighted geometry; extreme: very large clock offsets and heights. Judged when the geometry's GDOP is below 12 (6 with at most one spare satellite). Non-trivial: solved cases; identity = the measurements.");
NEED(many_signals, 800);
NEED(symmetric_sky, 500);
NEED(solved, 30000);
NEED(mixed, 10000);
NEED(many_clocks, 1500);
NEED(velocity, 20000);
NEED(no_velocity, 5000);
NEED(minimal, 1000);
NEED(second_signal, 10000);
NEED(weak_geometry, 100);
NEED(covariance, 5000);
NEED(weights_learned, 30000);
NEED(noise_order, 8000);
NEED(doppler_units, 1000);
NEED(extreme, 5000);
NEED(drift_stated, 20000);

static const ld C = pvt::C;
static void judge(Ctx &c, const pvt::Sim &s, const std::vector<const pvt::Sig *> &v, const pvt::Res &r, const pvt::Cov &H, bool vel) {
  std::vector<constellation_t> ck = pvt::clocks(v);
  ld g = 0;
  for (size_t i = 0; i < ck.size(); i++) g = fmaxl(g, pvt::gdop(H, i));
  (void)c;
  CHECK(r.ret >= 0 && r.soln.valid, "unsolved", "returned %d for consistent measurements with GDOP %.2Lf", r.ret, g);
  ld tol = 0.03L * g, e = 0;
  for (int i = 0; i < 3; i++) e = fmaxl(e, fabsl(r.soln.pos_ecef[i] - s.t.pos[i]));
  CHECK(e <= tol, "position", "off by %.3Lg m (GDOP %.2Lf)", e, g);
  /* which constellation's clock is reported is not specified */
  int idx = -1;
  for (size_t i = 0; i < ck.size() && idx < 0; i++)
    if (fabsl(r.soln.clock_offset * C - s.t.clk.at(ck[i])) <= tol && fabsl(r.dops.tdop - sqrtl(H(3 + i, 3 + i))) <= 1e-6L * r.dops.tdop) idx = static_cast<int>(i);
  CHECK(idx >= 0, "clock_or_tdop", "offset %.12g s and TDOP %.6g fit no clock (first clock %.12Lg s, %.6Lg)", r.soln.clock_offset, r.dops.tdop, s.t.clk.at(ck[0]) / C, sqrtl(H(3, 3)));
  size_t k = static_cast<size_t>(idx);
  /* derived forms of the same position */
  ld l[3];
  double pl[3] = {r.soln.pos_llh[0], r.soln.pos_llh[1], r.soln.pos_llh[2]};
  geo::to_ecef(pl, l);
  for (int i = 0; i < 3; i++) CHECK(fabsl(l[i] - r.soln.pos_ecef[i]) < 1e-3L, "llh", "latitude/longitude/height give %.4Lf, position is %.4f (axis %d)", l[i], r.soln.pos_ecef[i], i);
  /* time of solution */
  ld want = s.tor.tow - r.soln.clock_offset, got = (r.soln.time.wn - s.tor.wn) * 604800.0L + r.soln.time.tow;
  CHECK(fabsl(want - got) < 1e-8L && r.soln.time.tow >= 0 && r.soln.time.tow < 604800, "time", "time %d %.9f, expected reception %d %.9f less %.12g s", r.soln.time.wn, r.soln.time.tow, s.tor.wn, s.tor.tow, r.soln.clock_offset);
  /* dilutions */
  ld P = pvt::pdop(H), G = pvt::gdop(H, k), M[3][3], v2 = 0;
  geo::ned(s.t.llh, M);
  for (size_t i = 0; i < 3; i++)
    for (size_t j = 0; j < 3; j++) v2 += M[2][i] * M[2][j] * H(i, j);
  auto dop = [&](const char *key, double x, ld y) { CHECK(fabsl(x - y) <= 2e-6L * G, key, "%.9g, geometry gives %.9Lg", x, y); };
  dop("pdop", r.dops.pdop, P), dop("gdop", r.dops.gdop, G), dop("vdop", r.dops.vdop, sqrtl(v2)), dop("hdop", r.dops.hdop, sqrtl(fmaxl(0, P * P - v2)));
  CHECK(r.soln.err_cov[6] == r.dops.gdop, "err_cov_gdop", "%.9g, GDOP %.9g", r.soln.err_cov[6], r.dops.gdop);
  if (vel) {
    CHECK(r.soln.velocity_valid == 1, "velocity_missing", "velocity not valid");
    ld vt = 0.15L * g, ve = 0, ned[3];
    for (int i = 0; i < 3; i++) ve = fmaxl(ve, fabsl(r.soln.vel_ecef[i] - s.t.vel[i]));
    CHECK(ve <= vt, "velocity", "off by %.3Lg m/s (GDOP %.2Lf)", ve, g);
    CHECK(fabsl(r.soln.clock_drift * C - s.t.drift) <= vt, "drift", "%.12g s/s, true %.12Lg s/s", r.soln.clock_drift, s.t.drift / C);
    if (fabsl(s.t.drift) > 20 * vt) ev("drift_stated");
    ld F[3][3];
    geo::ned(pl, F); /* the frame at the reported position */
    for (int i = 0; i < 3; i++) ned[i] = F[i][0] * r.soln.vel_ecef[0] + F[i][1] * r.soln.vel_ecef[1] + F[i][2] * r.soln.vel_ecef[2];
    for (int i = 0; i < 3; i++) CHECK(fabsl(ned[i] - r.soln.vel_ned[i]) <= 1e-5L * (1 + fabsl(ned[0]) + fabsl(ned[1]) + fabsl(ned[2])), "vel_ned", "axis %d is %.9g, rotating the velocity gives %.9Lg", i, r.soln.vel_ned[i], ned[i]);
    CHECK(r.soln.vel_cov[6] == r.dops.gdop, "vel_cov_gdop", "%.9g, GDOP %.9g", r.soln.vel_cov[6], r.dops.gdop);
    ev("velocity");
  } else {
    ev("no_velocity");
  }
  ev("solved");
  if (ck.size() > 1) ev("mixed");
  if (ck.size() > 3) ev("many_clocks");
  if (v.size() == 3 + ck.size()) ev("minimal");
  if (g > 6) ev("weak_geometry");
}
SECTION(truth, 60000, 3000000) {
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(c.r);
  o.n = static_cast<int>(c.r.coin(0.15) ? static_cast<int>(o.cons.size()) + 3 : c.r.range(static_cast<int>(o.cons.size()) + 3, 20));
  o.dual = c.r.pick<double>({0, 0, 0.3, 1});
  if (c.r.coin(0.04)) o.n = static_cast<int>(c.r.range(30, 63)), o.dual = o.n < 40 ? 0.4 : 0; /* as many as a receiver has channels */
  if (c.r.coin(0.1)) o.hmax = 9e5;
  if (c.r.coin(0.03)) { /* perfectly symmetric sky: some corrections are zero from the start */
    o.cons = {c.r.pick<constellation_t>({CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_GLO})}, o.dual = 0;
    o.rings = static_cast<int>(c.r.range(2, 3)), o.n = o.rings * static_cast<int>(c.r.range(3, 5));
  }
  pvt::gen_truth(c.r, o, s);
  pvt::gen_sats(c.r, o, s);
  bool vel = c.r.coin(0.75), raim = c.r.coin(0.6);
  auto v = pvt::all(s);
  auto H = pvt::cov(v, {});
  if (!H.ok || s.s.size() > 63) return;
  auto ck = pvt::clocks(v);
  for (size_t i = 0; i < ck.size(); i++)
    if (!(pvt::gdop(H, i) < 12)) return;
  /* with no (one) satellite to spare there is another exact (nearby) solution, and from orbit or
   * in weak geometry it may be found */
  std::set<std::pair<int, int>> sats;
  for (auto *p : v) sats.insert({p->cons, p->m.sid.sat});
  if (sats.size() <= 4 + ck.size()) {
    if (s.t.llh[2] > 10000) return;
    for (size_t i = 0; i < ck.size(); i++)
      if (!(pvt::gdop(H, i) < 6)) return;
  }
  c.describe("%s%s %s", raim ? "" : "integrity off ", vel ? "" : "velocity off ", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, !raim, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  if (static_cast<int>(v.size()) > o.n) ev("second_signal");
  if (v.size() > 32) ev("many_signals");
  if (o.rings) ev("symmetric_sky");
  judge(c, s, v, res, H, vel);
}
SECTION(extreme, 12000, 600000) {
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.n = static_cast<int>(c.r.range(6, 14));
  o.clk = c.r.pick<double>({1e6, 3e7, 2.9e8});
  o.hmin = -900, o.hmax = c.r.coin() ? 9.9e5 : 10000;
  o.vmax = 505;
  if (c.r.coin()) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  pvt::gen_truth(c.r, o, s);
  pvt::gen_sats(c.r, o, s);
  auto v = pvt::all(s);
  auto H = pvt::cov(v, {});
  if (!H.ok || !(pvt::gdop(H, 0) < 10) || !(pvt::gdop(H, pvt::clocks(v).size() - 1) < 10)) return;
  c.describe("%s", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  judge(c, s, v, pvt::solve(v, s.tor, c.r.coin(), false, pvt::no_mask(), ALL_CONSTELLATIONS), H, true);
  ev("extreme");
}
/* satellites in one part of the sky only, receivers up to orbit height: slower convergence */
SECTION(partial_sky, 12000, 600000) {
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.hmin = -900, o.hmax = c.r.coin(0.3) ? 9.9e5 : 10000;
  o.clk = c.r.pick<double>({3e5, 2.9e8});
  if (c.r.coin(0.3)) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  pvt::gen_truth(c.r, o, s);
  int n = static_cast<int>(c.r.range(8, 16));
  double a0 = c.r.uniform(0, 6.28), width = c.r.uniform(0.8, 3.5), lo = c.r.uniform(5, 60), hi = c.r.uniform(lo + 15, 90);
  for (int i = 0; i < n; i++) {
    constellation_t k = o.cons[static_cast<size_t>(i) % o.cons.size()];
    const gnss::ConsPlan &cp = gnss::cons_of(k);
    s.s.push_back(pvt::make_sig(c.r, s.t, gnss::sid(cp.l1, cp.first + static_cast<unsigned>(i)), c.r.uniform(lo, hi), a0 + c.r.uniform(0, width), o, nullptr));
  }
  auto v = pvt::all(s);
  auto H = pvt::cov(v, {});
  ld g = 0;
  if (!H.ok) return;
  for (size_t i = 0; i < o.cons.size(); i++) g = fmaxl(g, pvt::gdop(H, i));
  if (!(g < 18)) return;
  c.describe("%s", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  judge(c, s, v, pvt::solve(v, s.tor, c.r.coin(), false, pvt::no_mask(), ALL_CONSTELLATIONS), H, true);
  ev("partial_sky");
  if (g > 12) ev("partial_sky_weak");
}
/* variance the solver gives a signal of this code and quality: solve a set in
 * which every signal has exactly these, and divide out the geometry */
struct Var {
  double range, rate;
};
static Var learn(Rng &r, const pvt::Sim &base, const pvt::Sig &like) {
  pvt::Sim s;
  s.t = base.t, s.tor = base.tor;
  pvt::Opt o;
  const gnss::ConsPlan &cp = gnss::cons_of(like.cons);
  u16 fcn = like.cons == CONSTELLATION_GLO ? glo_map_get_fcn(like.m.sid) : 0;
  for (int i = 0; i < 6; i++) {
    gnss_signal_t sid = gnss::sid(like.m.sid.code, cp.first + static_cast<unsigned>(i));
    if (fcn) glo_map_set_slot_id(fcn, sid.sat);
    s.s.push_back(pvt::make_sig(r, s.t, sid, i == 5 ? 80 : 15 + 3 * i, 1.2566 * i, o, nullptr));
    pvt::Sig &g = s.s.back();
    g.m.cn0 = like.m.cn0, g.m.lock_time = like.m.lock_time, g.m.elevation = like.m.elevation, g.m.flags = like.m.flags;
  }
  auto v = pvt::all(s);
  auto H = pvt::cov(v, {});
  auto res = pvt::solve(v, s.tor, true, false, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == 2, "learn", "homogeneous set refused with %d", res.ret);
  Var x = {static_cast<double>(res.soln.err_cov[0] / H(0, 0)), static_cast<double>(res.soln.vel_cov[0] / H(0, 0))};
  /* one common variance explains every element */
  static const int I[] = {0, 0, 0, 1, 1, 2}, J[] = {0, 1, 2, 1, 2, 2};
  for (int k = 0; k < 6; k++) {
    ld h = H(static_cast<size_t>(I[k]), static_cast<size_t>(J[k])), sc = H(0, 0) + H(1, 1) + H(2, 2);
    CHECK(fabsl(res.soln.err_cov[k] - x.range * h) <= 1e-6L * sc * x.range, "uniform_covariance", "element %d is %.9g, %.9g times the geometry is %.9Lg", k, res.soln.err_cov[k], x.range, x.range * h);
    CHECK(fabsl(res.soln.vel_cov[k] - x.rate * h) <= 1e-6L * sc * x.rate, "uniform_velocity_covariance", "element %d is %.9g, %.9g times the geometry is %.9Lg", k, res.soln.vel_cov[k], x.rate, x.rate * h);
  }
  CHECK(fabsl(res.soln.clock_offset_var * C * C - x.range * H(3, 3)) <= 1e-6L * x.range * H(3, 3), "clock_variance", "%.9g s^2, expected %.9Lg", res.soln.clock_offset_var, x.range * H(3, 3) / C / C);
  CHECK(fabsl(res.soln.clock_drift_var * C * C - x.rate * H(3, 3)) <= 1e-6L * x.rate * H(3, 3), "drift_variance", "%.9g, expected %.9Lg", res.soln.clock_drift_var, x.rate * H(3, 3) / C / C);
  CHECK(x.range > 1e-3 && x.range < 1e8 && x.rate > 1e-8 && x.rate < 1e6, "variance_range", "range variance %.3g m^2, rate variance %.3g (m/s)^2", x.range, x.rate);
  pvt::map_glo();
  ev("weights_learned");
  return x;
}
SECTION(covariance, 12000, 500000) {
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(c.r);
  if (o.cons.size() > 3) o.cons.resize(3);
  o.n = static_cast<int>(c.r.range(static_cast<int>(o.cons.size()) + 3, 10));
  o.dual = c.r.pick<double>({0, 0.2});
  if (c.r.coin(0.02)) o.n = static_cast<int>(c.r.range(34, 60)), o.dual = 0;
  pvt::gen_truth(c.r, o, s);
  pvt::gen_sats(c.r, o, s);
  auto v = pvt::all(s);
  auto H = pvt::cov(v, {});
  auto ck = pvt::clocks(v);
  if (!H.ok) return;
  for (size_t i = 0; i < ck.size(); i++)
    if (!(pvt::gdop(H, i) < 8)) return;
  c.describe("%s", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  std::vector<ld> w, wd;
  for (auto *p : v) {
    Var x = learn(c.r, s, *p);
    w.push_back(1 / x.range), wd.push_back(1 / x.rate);
  }
  auto res = pvt::solve(v, s.tor, true, false, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == 2, "unsolved", "returned %d", res.ret);
  pvt::Cov V = pvt::cov(v, w), D = pvt::cov(v, wd);
  if (!V.ok || !D.ok) return;
  static const size_t I[] = {0, 0, 0, 1, 1, 2}, J[] = {0, 1, 2, 1, 2, 2};
  ld sc = V(0, 0) + V(1, 1) + V(2, 2), sd = D(0, 0) + D(1, 1) + D(2, 2);
  for (size_t k = 0; k < 6; k++) {
    CHECK(fabsl(res.soln.err_cov[k] - V(I[k], J[k])) <= 1e-5L * sc, "covariance", "element %zu is %.9g, the weighted geometry gives %.9Lg", k, res.soln.err_cov[k], V(I[k], J[k]));
    CHECK(fabsl(res.soln.vel_cov[k] - D(I[k], J[k])) <= 1e-5L * sd, "velocity_covariance", "element %zu is %.9g, the weighted geometry gives %.9Lg", k, res.soln.vel_cov[k], D(I[k], J[k]));
  }
  bool okc = false;
  for (size_t i = 0; i < ck.size(); i++)
    okc |= fabsl(res.soln.clock_offset_var * C * C - V(3 + i, 3 + i)) <= 1e-5L * V(3 + i, 3 + i) && fabsl(res.soln.clock_drift_var * C * C - D(3 + i, 3 + i)) <= 1e-5L * D(3 + i, 3 + i);
  CHECK(okc, "clock_variances", "offset %.9g drift %.9g fit no clock (first %.9Lg %.9Lg)", res.soln.clock_offset_var, res.soln.clock_drift_var, V(3, 3) / C / C, D(3, 3) / C / C);
  ev("covariance");
  /* a worse signal never gets more weight */
  pvt::Sig a = *c.r.pick(v), b = a;
  /* Doppler noise depends on quality alone, so in metres per second it goes with the wavelength */
  if (v.size() > 1) {
    pvt::Sig p = *c.r.pick(v), q = *c.r.pick(v);
    q.m.cn0 = p.m.cn0, q.m.lock_time = p.m.lock_time, q.m.elevation = p.m.elevation, q.m.flags = p.m.flags;
    if (p.m.sid.code != q.m.sid.code) {
      Var x = learn(c.r, s, p), y = learn(c.r, s, q);
      double fp = static_cast<double>(pvt::freq_of(p.m.sid)), fq = static_cast<double>(pvt::freq_of(q.m.sid));
      CHECK(fabs(x.rate * fp * fp - y.rate * fq * fq) <= 1e-4 * x.rate * fp * fp, "doppler_units", "same quality: Doppler variance is %.9g Hz^2 on %s and %.9g Hz^2 on %s", x.rate * fp * fp / static_cast<double>(C * C), gnss::str(p.m.sid).c_str(), y.rate * fq * fq / static_cast<double>(C * C), gnss::str(q.m.sid).c_str());
      ev("doppler_units");
    }
  }
  int k = static_cast<int>(c.r.range(0, 3));
  a.m.flags |= NAV_MEAS_FLAG_PHASE_VALID, b.m.flags |= NAV_MEAS_FLAG_PHASE_VALID;
  if (k == 0) b.m.cn0 = a.m.cn0 - c.r.uniform(1, 10);
  if (k == 1) b.m.elevation = a.m.elevation / c.r.uniform(1.2, 3);
  if (k == 2) b.m.flags = static_cast<nav_meas_flags_t>(b.m.flags & ~NAV_MEAS_FLAG_PHASE_VALID);
  if (k == 3) b.m.lock_time = a.m.lock_time * c.r.unit();
  Var x = learn(c.r, s, a), y = learn(c.r, s, b);
  CHECK(y.range >= x.range * (1 - 1e-9) && y.rate >= x.rate * (1 - 1e-9), "noise_order", "worsening quality %d lowered the variance from %.9g/%.9g to %.9g/%.9g", k, x.range, x.rate, y.range, y.rate);
  if (k < 3) CHECK(y.range > x.range, "noise_order_range", "worsening quality %d left the range variance at %.9g", k, x.range);
  ev("noise_order");
}
