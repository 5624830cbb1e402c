/* Simulated receivers, satellites and measurements (long double), written from
 * the measurement definitions in nav_meas.h. */
#ifndef VERIF_PVT_H
#define VERIF_PVT_H
#include "geo.h"
#include "gnss.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/single_epoch_solver.h>
namespace pvt {
using mon::Rng;
typedef long double ld;
static const ld C = 299792458.0L, WE = 7.2921151467e-5L;
/* signals the solver's noise model knows */
inline const std::vector<code_t> &codes(constellation_t k) {
  static const std::map<constellation_t, std::vector<code_t>> m = {
      {CONSTELLATION_GPS, {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2CL, CODE_GPS_L2CX, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GPS_L5I, CODE_GPS_L5Q, CODE_GPS_L5X}},
      {CONSTELLATION_GLO, {CODE_GLO_L1OF, CODE_GLO_L2OF}},
      {CONSTELLATION_BDS, {CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B1CI, CODE_BDS3_B1CQ, CODE_BDS3_B1CX, CODE_BDS3_B5I, CODE_BDS3_B5Q, CODE_BDS3_B5X, CODE_BDS3_B7I, CODE_BDS3_B7Q, CODE_BDS3_B7X, CODE_BDS3_B3I, CODE_BDS3_B3Q, CODE_BDS3_B3X}},
      {CONSTELLATION_GAL, {CODE_GAL_E1B, CODE_GAL_E1C, CODE_GAL_E1X, CODE_GAL_E7I, CODE_GAL_E7Q, CODE_GAL_E7X, CODE_GAL_E5I, CODE_GAL_E5Q, CODE_GAL_E5X}},
      {CONSTELLATION_QZS, {CODE_QZS_L1CA, CODE_QZS_L2CM, CODE_QZS_L2CL, CODE_QZS_L2CX, CODE_QZS_L5I, CODE_QZS_L5Q, CODE_QZS_L5X}},
  };
  return m.at(k);
}
struct Truth {
  double llh[3];
  ld pos[3], vel[3], drift; /* m, m/s, m/s */
  std::map<constellation_t, ld> clk; /* m */
};
struct Sig {
  navigation_measurement_t m;
  ld u[3]; /* unit vector receiver to (rotated) satellite */
  constellation_t cons;
};
struct Sim {
  Truth t;
  gps_time_t tor;
  std::vector<Sig> s;
};
inline ld freq_of(gnss_signal_t sid) {
  const gnss::SigPlan *p = gnss::plan_of(sid.code);
  if (p->f0_mult != 0) return p->f0_mult * 1.023e6L;
  int k = static_cast<int>(glo_map_get_fcn(sid)) - 8;
  return sid.code == CODE_GLO_L2OF ? 1246e6L + k * 437500.0L : 1602e6L + k * 562500.0L;
}
/* fill pseudorange and Doppler of a signal whose satellite fields are set */
inline void measure(const Truth &t, Sig &g) {
  navigation_measurement_t &m = g.m;
  ld tau = 0.07L, r[3], v[3];
  for (int it = 0; it < 12; it++) {
    ld a = WE * tau, cs = cosl(a), sn = sinl(a);
    r[0] = cs * m.sat_pos[0] + sn * m.sat_pos[1] - t.pos[0];
    r[1] = -sn * m.sat_pos[0] + cs * m.sat_pos[1] - t.pos[1];
    r[2] = m.sat_pos[2] - t.pos[2];
    v[0] = cs * m.sat_vel[0] + sn * m.sat_vel[1] - t.vel[0];
    v[1] = -sn * m.sat_vel[0] + cs * m.sat_vel[1] - t.vel[1];
    v[2] = m.sat_vel[2] - t.vel[2];
    tau = geo::norm(r) / C;
  }
  ld d = geo::norm(r);
  for (int i = 0; i < 3; i++) g.u[i] = r[i] / d;
  m.raw_pseudorange = static_cast<double>(d + t.clk.at(g.cons) - C * m.sat_clock_err);
  ld f = freq_of(m.sid), rate = geo::dot(g.u, v) + t.drift;
  /* Doppler is positive when the range shrinks */
  m.raw_measured_doppler = static_cast<double>(-rate * f / C + f * m.sat_clock_err_rate);
}
struct Opt {
  std::vector<constellation_t> cons = {CONSTELLATION_GPS};
  int n = 8;           /* satellites */
  double dual = 0;     /* chance of a second signal per satellite */
  double min_el = 10;  /* deg */
  double hmin = -400, hmax = 9000, vmax = 300, clk = 3e5;
  bool quality = true; /* vary cn0, lock time, flags */
  bool l1 = false;     /* legacy L1 codes only */
  int rings = 0;       /* receiver on an axis of the Earth, n satellites evenly spaced around it in this many rings */
};
inline void gen_truth(Rng &r, const Opt &o, Sim &s) {
  Truth &t = s.t;
  t.llh[0] = geo::gen_lat(r), t.llh[1] = geo::gen_lon(r), t.llh[2] = r.uniform(o.hmin, o.hmax);
  if (o.rings) t.llh[0] = r.coin(0.8) ? (r.coin() ? geo::PI / 2 : -geo::PI / 2) : 0, t.llh[1] = static_cast<double>(r.range(-1, 2)) * static_cast<double>(geo::PI) / 2;
  geo::to_ecef(t.llh, t.pos);
  ld d[3] = {r.normal(), r.normal(), r.normal()}, n = geo::norm(d), sp = r.coin(0.2) ? 0 : r.uniform(0, o.vmax);
  for (int i = 0; i < 3; i++) t.vel[i] = d[i] / (n > 0 ? n : 1) * sp;
  t.drift = r.coin(0.1) ? 0 : r.uniform(-1500, 1500);
  ld base = r.coin(0.1) ? 0 : r.uniform(-o.clk, o.clk);
  for (auto k : {CONSTELLATION_GPS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_GAL, CONSTELLATION_QZS})
    t.clk[k] = base + (k == CONSTELLATION_GPS ? 0 : r.coin(0.2) ? r.uniform(-3e4, 3e4) : r.uniform(-300, 300));
  memset(&s.tor, 0, sizeof s.tor);
  s.tor.wn = static_cast<s16>(r.range(1000, 3000));
  s.tor.tow = r.coin(0.1) ? r.pick<double>({0, 604799.999, 1e-3}) : r.uniform(0, 604800);
}
inline Sig make_sig(Rng &r, const Truth &t, gnss_signal_t sid, double el_deg, double az, const Opt &o, const Sig *same) {
  Sig g;
  memset(&g.m, 0, sizeof g.m);
  g.cons = gnss::plan_of(sid.code)->cons;
  g.m.sid = sid;
  if (same) {
    memcpy(g.m.sat_pos, same->m.sat_pos, 24), memcpy(g.m.sat_vel, same->m.sat_vel, 24);
    g.m.sat_clock_err = same->m.sat_clock_err, g.m.sat_clock_err_rate = same->m.sat_clock_err_rate, g.m.elevation = same->m.elevation;
  } else {
    ld M[3][3], e = el_deg * geo::PI / 180, l[3] = {cosl(e) * cosl(az), cosl(e) * sinl(az), -sinl(e)}, dir[3];
    geo::ned(t.llh, M);
    for (int i = 0; i < 3; i++) dir[i] = M[0][i] * l[0] + M[1][i] * l[1] + M[2][i] * l[2];
    /* distance to a sphere of the constellation's radius */
    ld R = g.cons == CONSTELLATION_GLO ? 25.5e6L : g.cons == CONSTELLATION_GAL ? 29.6e6L : g.cons == CONSTELLATION_QZS ? 42.2e6L : g.cons == CONSTELLATION_BDS && r.coin(0.3) ? 42.2e6L : g.cons == CONSTELLATION_BDS ? 27.9e6L : 26.56e6L;
    ld b = geo::dot(t.pos, dir), k = -b + sqrtl(b * b + R * R - geo::dot(t.pos, t.pos));
    for (int i = 0; i < 3; i++) g.m.sat_pos[i] = static_cast<double>(t.pos[i] + k * dir[i]);
    double w[3] = {r.normal(), r.normal(), r.normal()}, sp = r.uniform(500, 3900) / sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + 1e-9);
    for (int i = 0; i < 3; i++) g.m.sat_vel[i] = w[i] * sp;
    g.m.sat_clock_err = r.coin(0.1) ? 0 : r.uniform(-1e-3, 1e-3);
    g.m.sat_clock_err_rate = r.coin(0.1) ? 0 : r.uniform(-2e-11, 2e-11) * (r.coin(0.3) ? 100 : 1);
    g.m.elevation = el_deg;
  }
  g.m.cn0 = o.quality ? r.uniform(28, 52) : 45;
  g.m.lock_time = o.quality && r.coin(0.2) ? r.uniform(0, 5) : r.uniform(5, 5000);
  g.m.raw_carrier_phase = r.normal() * 1e6;
  g.m.raw_computed_doppler = r.normal() * 1e3;
  g.m.eph_key = static_cast<u16>(r.u64());
  g.m.tot.wn = 2000;
  g.m.tot.tow = r.uniform(0, 604800);
  g.m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID;
  if (!o.quality || r.coin(0.85)) g.m.flags |= NAV_MEAS_FLAG_PHASE_VALID;
  if (r.coin()) g.m.flags |= NAV_MEAS_FLAG_HALF_CYCLE_KNOWN;
  if (r.coin()) g.m.flags |= NAV_MEAS_FLAG_COMP_DOPPLER_VALID;
  measure(t, g);
  return g;
}
inline void map_glo() {
  glo_map_clear_all();
  for (u16 i = 1; i <= 28; i++) glo_map_set_slot_id(static_cast<u16>((i * 5) % 14 + 1), i);
}
inline void gen_sats(Rng &r, const Opt &o, Sim &s) {
  s.s.clear();
  std::set<std::pair<int, int>> used;
  double az0 = r.uniform(0, 6.28);
  for (int i = 0; i < o.n; i++) {
    constellation_t k = i < static_cast<int>(o.cons.size()) ? o.cons[static_cast<size_t>(i)] : r.pick(o.cons);
    const gnss::ConsPlan &cp = gnss::cons_of(k);
    unsigned sat = 0;
    bool fresh = false;
    for (int tries = 0; tries < 200 && !fresh; tries++) {
      sat = cp.first + static_cast<unsigned>(r.range(0, cp.count - 1));
      fresh = used.insert({k, static_cast<int>(sat)}).second;
    }
    if (!fresh) break; /* constellation exhausted */
    double el = o.min_el + (89 - o.min_el) * (r.coin(0.6) ? r.unit() * r.unit() : r.unit()), az = r.coin(0.7) ? az0 + 6.2832 * (i + r.uniform(-0.3, 0.3)) / o.n * (r.coin() ? 1 : 2) : r.uniform(0, 6.2832);
    if (o.rings) el = 80.0 - 55.0 * (i % o.rings) / o.rings, az = az0 + 6.283185307179586 * (i / o.rings) / (o.n / o.rings) + 0.3 * (i % o.rings);
    code_t c1 = o.l1 ? gnss::cons_of(k).l1 : r.coin(0.6) ? gnss::cons_of(k).l1 : r.pick(codes(k));
    s.s.push_back(make_sig(r, s.t, gnss::sid(c1, sat), el, az, o, nullptr));
    if (r.coin(o.dual)) {
      code_t c2;
      do c2 = r.pick(codes(k));
      while (c2 == c1);
      Sig first = s.s.back();
      s.s.push_back(make_sig(r, s.t, gnss::sid(c2, sat), el, az, o, &first));
    }
  }
}
/* order of clock states: first appearance */
inline std::vector<constellation_t> clocks(const std::vector<const Sig *> &v) {
  std::vector<constellation_t> o;
  for (auto *p : v) {
    bool seen = false;
    for (auto k : o) seen |= k == p->cons;
    if (!seen) o.push_back(p->cons);
  }
  return o;
}
inline std::vector<const Sig *> all(const Sim &s) {
  std::vector<const Sig *> v;
  for (auto &g : s.s) v.push_back(&g);
  return v;
}
struct Cov {
  bool ok = false;
  size_t n = 0;
  std::vector<ld> q; /* n x n */
  ld operator()(size_t i, size_t j) const { return q[i * n + j]; }
};
/* (G' W G)^-1 by Gauss-Jordan with pivoting; w may be empty */
inline Cov cov(const std::vector<const Sig *> &v, const std::vector<ld> &w) {
  std::vector<constellation_t> ck = clocks(v);
  size_t n = 3 + ck.size();
  std::vector<ld> a(n * 2 * n, 0);
  for (size_t k = 0; k < v.size(); k++) {
    std::vector<ld> g(n, 0);
    for (size_t i = 0; i < 3; i++) g[i] = -v[k]->u[i];
    for (size_t i = 0; i < ck.size(); i++)
      if (ck[i] == v[k]->cons) g[3 + i] = 1;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) a[i * 2 * n + j] += g[i] * g[j] * (w.empty() ? 1 : w[k]);
  }
  for (size_t i = 0; i < n; i++) a[i * 2 * n + n + i] = 1;
  Cov r;
  r.n = n;
  for (size_t i = 0; i < n; i++) {
    size_t p = i;
    for (size_t j = i; j < n; j++)
      if (fabsl(a[j * 2 * n + i]) > fabsl(a[p * 2 * n + i])) p = j;
    if (fabsl(a[p * 2 * n + i]) < 1e-12L) return r;
    for (size_t j = 0; j < 2 * n; j++) std::swap(a[i * 2 * n + j], a[p * 2 * n + j]);
    ld d = a[i * 2 * n + i];
    for (size_t j = 0; j < 2 * n; j++) a[i * 2 * n + j] /= d;
    for (size_t k = 0; k < n; k++)
      if (k != i) {
        ld f = a[k * 2 * n + i];
        for (size_t j = 0; j < 2 * n; j++) a[k * 2 * n + j] -= f * a[i * 2 * n + j];
      }
  }
  r.q.resize(n * n);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) r.q[i * n + j] = a[i * 2 * n + n + j];
  r.ok = true;
  return r;
}
inline ld pdop(const Cov &c) { return sqrtl(c(0, 0) + c(1, 1) + c(2, 2)); }
/* worst clock included */
inline ld gdop(const Cov &c, size_t clk) { return sqrtl(c(0, 0) + c(1, 1) + c(2, 2) + c(3 + clk, 3 + clk)); }
inline std::vector<const Sig *> without(const std::vector<const Sig *> &v, size_t i, size_t j = SIZE_MAX) {
  std::vector<const Sig *> o;
  for (size_t k = 0; k < v.size(); k++)
    if (k != i && k != j) o.push_back(v[k]);
  return o;
}
/* part of a unit fault on signal f of set v that stays in the residuals (unweighted) */
inline ld visible(const std::vector<const Sig *> &v, const Sig *f) {
  auto H = cov(v, {});
  if (!H.ok || !(pdop(H) < 30)) return 0;
  auto ck = clocks(v);
  std::vector<ld> g(H.n, 0);
  for (size_t i = 0; i < 3; i++) g[i] = -f->u[i];
  for (size_t i = 0; i < ck.size(); i++)
    if (ck[i] == f->cons) g[3 + i] = 1;
  ld lev = 0;
  for (size_t i = 0; i < H.n; i++)
    for (size_t j = 0; j < H.n; j++) lev += g[i] * g[j] * H(i, j);
  return lev < 1 ? sqrtl(1 - lev) : 0;
}
struct Res {
  s8 ret;
  gnss_solution soln;
  dops_t dops;
  gnss_sid_set_t removed;
};
inline Res solve(const std::vector<const Sig *> &v, const gps_time_t &tor, bool no_raim, bool no_vel, obs_mask_config_t mask, enum processing_strategy_t st, int fill = 0x5a) {
  mon::Buf<navigation_measurement_t> m(v.size());
  for (size_t i = 0; i < v.size(); i++) m[i] = v[i]->m;
  Res r;
  static thread_local obs_mask_config_t cfg; /* the same configuration object for every fix */
  cfg = mask;
  memset(&r.soln, fill, sizeof r.soln), memset(&r.dops, fill, sizeof r.dops), memset(&r.removed, fill, sizeof r.removed);
  r.ret = calc_PVT(static_cast<u8>(v.size()), m.p, &tor, no_raim, no_vel, &cfg, st, &r.soln, &r.dops, &r.removed);
  for (size_t i = 0; i < v.size(); i++) CHECK(!memcmp(&m[i], &v[i]->m, sizeof m[i]), "input_modified", "measurement %zu was modified", i);
  if (!v.empty() && (mon::hd(v[0]->m.raw_pseudorange) & 7) == 0) { /* the list of excluded signals need not be asked for */
    gnss_solution b;
    dops_t d;
    memset(&b, fill, sizeof b), memset(&d, fill, sizeof d);
    s8 ret = calc_PVT(static_cast<u8>(v.size()), m.p, &tor, no_raim, no_vel, &cfg, st, &b, &d, nullptr);
    CHECK(ret == r.ret && !memcmp(&b, &r.soln, sizeof b) && !memcmp(&d, &r.dops, sizeof d), "without_list", "another result (%d) than %d when no list of excluded signals is asked for", ret, r.ret);
    mon::ev("without_list");
  }
  return r;
}
inline obs_mask_config_t no_mask() {
  obs_mask_config_t o;
  memset(&o, 0, sizeof o);
  return o;
}
inline std::string show(const Sim &s) {
  char b[200];
  snprintf(b, sizeof b, "receiver %.9f %.9f %.1f clk %.3Lf drift %.3Lf v %.2Lf %.2Lf %.2Lf;", s.t.llh[0], s.t.llh[1], s.t.llh[2], s.t.clk.begin()->second, s.t.drift, s.t.vel[0], s.t.vel[1], s.t.vel[2]);
  std::string o = b;
  for (auto &g : s.s) {
    snprintf(b, sizeof b, " c%d/%u el%.0f cn%.0f", static_cast<int>(g.m.sid.code), g.m.sid.sat, g.m.elevation, g.m.cn0);
    o += b;
  }
  return o;
}
inline uint64_t hash(const Sim &s) {
  uint64_t h = mon::hbytes(s.t.llh, 24);
  for (auto &g : s.s) h = mon::hcombine(h, mon::hd(g.m.raw_pseudorange));
  return h;
}
inline std::vector<constellation_t> gen_cons(Rng &r) {
  std::vector<constellation_t> all = {CONSTELLATION_GPS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_GAL, CONSTELLATION_QZS};
  if (r.coin(0.35)) return {CONSTELLATION_GPS};
  r.shuffle(all);
  all.resize(static_cast<size_t>(r.range(1, 5)));
  return all;
}
}  // namespace pvt
#endif
