/* Independent orbit models (published user algorithms, long double) and
 * generators of plausible ephemerides. */
#ifndef VERIF_ORBIT_H
#define VERIF_ORBIT_H
#include "gnss.h"
#include "timeref.h"
#include <swiftnav/ephemeris.h>
namespace orbit {
using tref::ld;
using tref::q128;
static const ld C0 = 299792458.0L;
struct Sys {
  ld gm, we;
};
inline Sys sys_of(constellation_t c) {
  switch (c) {
    case CONSTELLATION_BDS: return {3.986004418e14L, 7.2921150e-5L};
    case CONSTELLATION_GAL: return {3.986004418e14L, 7.2921151467e-5L};
    case CONSTELLATION_GLO: return {3.986004418e14L, 7.292115e-5L};
    default: return {3.986005e14L, 7.2921151467e-5L};
  }
}
/* group delay of a signal; NAN when there is none (call refused) */
inline ld group_delay(const ephemeris_t &e, const gnss_signal_t &s) {
  const gnss::SigPlan *p = gnss::plan_of(s.code);
  switch (p->cons) {
    case CONSTELLATION_GPS: case CONSTELLATION_QZS: {
      ld k = 1540.0L / static_cast<ld>(p->f0_mult);
      return k * k * static_cast<ld>(e.data.kepler.tgd.gps_s[p->f0_mult == 1150 ? 1 : 0]);
    }
    case CONSTELLATION_GAL: {
      ld k = 1540.0L / static_cast<ld>(p->f0_mult);
      return k * k * static_cast<ld>(e.data.kepler.tgd.gal_s[p->f0_mult == 1150 ? 0 : 1]);
    }
    case CONSTELLATION_BDS:
      if (p->f0_mult == 1240) return 0;
      if (s.code == CODE_BDS2_B1 || s.code == CODE_BDS3_B1CI) return e.data.kepler.tgd.bds_s[0];
      return e.data.kepler.tgd.bds_s[1];
    case CONSTELLATION_GLO:
      if (s.code == CODE_GLO_L2OF || s.code == CODE_GLO_L2P) return static_cast<ld>(static_cast<float>(e.data.glo.d_tau));
      return 0;
    default: return 0;
  }
}
struct State {
  ld pos[3];
  ld clk;      /* polynomial minus group delay */
  ld einstein; /* periodic relativistic term */
  ld r;
};
/* t: exact GPS seconds (satellite time) */
inline State kepler(const ephemeris_t &e, ld since_toe, ld since_toc, bool geo) {
  const ephemeris_kepler_t &k = e.data.kepler;
  Sys sy = sys_of(gnss::plan_of(e.sid.code)->cons);
  bool bds = gnss::plan_of(e.sid.code)->cons == CONSTELLATION_BDS;
  State s;
  s.clk = static_cast<ld>(k.af0) + since_toc * (static_cast<ld>(k.af1) + since_toc * static_cast<ld>(k.af2)) - group_delay(e, e.sid);
  ld tk = since_toe - s.clk;
  ld A = static_cast<ld>(k.sqrta) * static_cast<ld>(k.sqrta);
  ld n = sqrtl(sy.gm / (A * A * A)) + static_cast<ld>(k.dn);
  ld M = static_cast<ld>(k.m0) + n * tk, ec = k.ecc;
  /* bisection then Newton on E - e sin E = M */
  ld lo = M - ec - 1e-15L, hi = M + ec + 1e-15L;
  for (int i = 0; i < 20; i++) {
    ld m = (lo + hi) / 2;
    if (m - ec * sinl(m) < M) lo = m;
    else hi = m;
  }
  ld E = (lo + hi) / 2;
  for (int i = 0; i < 6; i++) E -= (E - ec * sinl(E) - M) / (1 - ec * cosl(E));
  ld nu = 2 * atan2l(sqrtl(1 + ec) * sinl(E / 2), sqrtl(1 - ec) * cosl(E / 2));
  ld phi = nu + static_cast<ld>(k.w);
  ld s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  ld u = phi + static_cast<ld>(k.cus) * s2 + static_cast<ld>(k.cuc) * c2;
  ld r = A * (1 - ec * cosl(E)) + static_cast<ld>(k.crs) * s2 + static_cast<ld>(k.crc) * c2;
  ld inc = static_cast<ld>(k.inc) + static_cast<ld>(k.inc_dot) * tk + static_cast<ld>(k.cis) * s2 + static_cast<ld>(k.cic) * c2;
  s.r = r;
  ld sow = e.toe.tow; /* reference time in the system's own week */
  if (bds) {
    sow -= 14;
    if (sow < 0) sow += 604800;
  }
  ld om = static_cast<ld>(k.omega0) + static_cast<ld>(k.omegadot) * tk - sy.we * sow - (geo ? 0 : sy.we * tk);
  ld x = r * cosl(u), y = r * sinl(u);
  s.pos[0] = x * cosl(om) - y * cosl(inc) * sinl(om);
  s.pos[1] = x * sinl(om) + y * cosl(inc) * cosl(om);
  s.pos[2] = y * sinl(inc);
  if (geo) { /* Rz(we tk) Rx(-5 deg) */
    ld a = -5 * acosl(-1.0L) / 180, b = sy.we * tk;
    ld X = s.pos[0], Y = s.pos[1] * cosl(a) + s.pos[2] * sinl(a), Z = -s.pos[1] * sinl(a) + s.pos[2] * cosl(a);
    s.pos[0] = X * cosl(b) + Y * sinl(b);
    s.pos[1] = -X * sinl(b) + Y * cosl(b);
    s.pos[2] = Z;
  }
  /* F e sqrt(A) sin E, with F = -2 sqrt(GM)/c^2 */
  s.einstein = -2 * sqrtl(sy.gm) / (C0 * C0) * ec * static_cast<ld>(k.sqrta) * sinl(E);
  return s;
}
/* ---- generators ---- */
struct Gen {
  ephemeris_t e;
  satellite_orbit_type_t type;
};
/* the message at the address where every earlier one of the process lay, as in a receiver's table */
inline ephemeris_t &in_place(const ephemeris_t &e) {
  static ephemeris_t slot;
  slot = e;
  return slot;
}
inline double any_angle(mon::Rng &r) {
  const double pi = 3.14159265358979;
  return r.coin(0.1) ? r.pick<double>({0, pi, -pi, pi / 2, -pi / 2}) : r.uniform(-pi, pi);
}
inline Gen gen_kepler(mon::Rng &r, constellation_t cons, bool wild = false) {
  Gen g;
  memset(&g, 0, sizeof g);
  std::vector<code_t> codes;
  for (auto &p : gnss::plan())
    if (p.cons == cons) codes.push_back(p.code);
  const gnss::ConsPlan &cp = gnss::cons_of(cons);
  ephemeris_t &e = g.e;
  e.sid = gnss::sid(r.pick(codes), cp.first + static_cast<unsigned>(r.range(0, cp.count - 1)));
  e.valid = 1;
  e.ura = 2;
  e.fit_interval = cons == CONSTELLATION_BDS ? 10800 : cons == CONSTELLATION_QZS ? 7200 : 14400;
  int step = cons == CONSTELLATION_GPS || cons == CONSTELLATION_QZS ? 16 : cons == CONSTELLATION_GAL ? 60 : 8;
  e.toe = tref::mk(static_cast<int>(r.range(10, 4000)), static_cast<double>((r.coin(0.2) ? r.pick<int64_t>({0, 604799 / step, 1}) : r.range(0, 604799 / step)) * step));
  if (cons == CONSTELLATION_BDS) { /* BDT = GPST - 14 s */
    e.toe.tow += 14;
    if (r.coin(0.02)) e.toe.tow = r.pick<double>({13, 13.5, 13.9375, 14.5, 0.25, 604799.5}); /* around the start of the BeiDou week */
    if (e.toe.tow >= 604800) e.toe.tow -= 604800, e.toe.wn++;
  }
  ephemeris_kepler_t &k = e.data.kepler;
  k.toc = e.toe;
  if (r.coin(0.3)) {
    k.toc.tow += (cons == CONSTELLATION_GPS || cons == CONSTELLATION_QZS) ? r.pick<double>({-3600, 3600, 16}) : r.pick<double>({3600, 720, 1800});
    if (k.toc.tow >= 604800) k.toc.tow -= 604800, k.toc.wn++;
    if (k.toc.tow < 0) k.toc.tow += 604800, k.toc.wn--;
  }
  g.type = MEO;
  double sq = cons == CONSTELLATION_GAL ? 5440.6 : cons == CONSTELLATION_BDS ? 5282.6 : 5153.7;
  if (cons == CONSTELLATION_QZS) sq = 6493.4, g.type = MEO;
  if (cons == CONSTELLATION_BDS && r.coin(0.55)) {
    sq = 6493.4;
    g.type = r.coin(0.7) ? GEO : IGSO;
  }
  k.sqrta = wild ? r.uniform(3000, 8000) : sq + r.uniform(-2, 2);
  k.ecc = wild ? r.uniform(0, 0.5) : cons == CONSTELLATION_QZS ? r.uniform(0, 0.1) : r.coin(0.1) ? 0 : r.uniform(0, 0.03);
  k.inc = wild ? any_angle(r) : g.type == GEO ? r.uniform(0, 0.2) : r.uniform(0.6, 1.2);
  double h = wild ? 2 : r.coin(0.1) ? 0 : 1;
  k.crc = r.uniform(-400, 400) * h;
  k.crs = r.uniform(-400, 400) * h;
  k.cuc = r.uniform(-2e-5, 2e-5) * h;
  k.cus = r.uniform(-2e-5, 2e-5) * h;
  k.cic = r.uniform(-1e-6, 1e-6) * h * (wild ? 20 : 1);
  k.cis = r.uniform(-1e-6, 1e-6) * h * (wild ? 20 : 1);
  k.dn = r.uniform(-6e-9, 6e-9);
  k.m0 = any_angle(r);
  k.omega0 = any_angle(r);
  k.w = any_angle(r);
  k.omegadot = r.uniform(-1.2e-8, 1.2e-9);
  k.inc_dot = r.uniform(-1.5e-9, 1.5e-9);
  k.af0 = r.uniform(-1e-3, 1e-3);
  k.af1 = r.coin(0.2) ? r.uniform(-3e-9, 3e-9) : r.uniform(-3e-11, 3e-11);
  k.af2 = r.coin(0.5) ? 0 : r.uniform(-1e-15, 1e-15);
  for (float &x : k.tgd.gps_s) x = static_cast<float>(r.uniform(-6e-8, 6e-8));
  if (cons == CONSTELLATION_GAL) k.iode = k.iodc = static_cast<u16>(r.range(0, 1023));
  else k.iode = k.iodc = static_cast<u16>(r.range(0, 240));
  return g;
}
inline std::string str(const ephemeris_t &e) {
  const ephemeris_kepler_t &k = e.data.kepler;
  char b[900];
  snprintf(b, sizeof b, "%s toe (%d,%.9g) toc (%d,%.9g) sqrta %.17g ecc %.17g inc %.17g inc_dot %.17g m0 %.17g dn %.17g omega0 %.17g omegadot %.17g w %.17g c{rc %.9g rs %.9g uc %.9g us %.9g ic %.9g is %.9g} af %.9g %.9g %.9g tgd %.9g %.9g",
           gnss::str(e.sid).c_str(), e.toe.wn, e.toe.tow, k.toc.wn, k.toc.tow, k.sqrta, k.ecc, k.inc, k.inc_dot, k.m0, k.dn, k.omega0, k.omegadot, k.w, k.crc, k.crs, k.cuc, k.cus, k.cic, k.cis, k.af0, k.af1, k.af2,
           static_cast<double>(k.tgd.gps_s[0]), static_cast<double>(k.tgd.gps_s[1]));
  return b;
}
inline Gen gen_glo(mon::Rng &r) {
  Gen g;
  memset(&g, 0, sizeof g);
  ephemeris_t &e = g.e;
  e.sid = gnss::sid(r.pick<code_t>({CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GLO_L1P, CODE_GLO_L2P}), static_cast<unsigned>(r.range(1, 28)));
  e.valid = 1;
  e.ura = 5;
  e.fit_interval = 2400;
  e.toe = tref::mk(static_cast<int>(r.range(900, 4000)), static_cast<double>(r.coin(0.2) ? r.pick<int64_t>({0, 604799, 1}) : r.range(0, 604799)));
  ephemeris_glo_t &k = e.data.glo;
  double a = 25508e3 + r.uniform(-60e3, 60e3), inc = r.uniform(1.09, 1.17), u = r.uniform(-3.15, 3.15), om = r.uniform(-3.15, 3.15);
  double v = sqrt(3.986004418e14 / a) * r.uniform(0.997, 1.003), vr = r.uniform(-10, 10), w = 7.292115e-5;
  double cu = cos(u), su = sin(u), ci = cos(inc), si = sin(inc), co = cos(om), so = sin(om);
  double R[3] = {cu * co - su * ci * so, cu * so + su * ci * co, su * si}, T[3] = {-su * co - cu * ci * so, -su * so + cu * ci * co, cu * si};
  for (int i = 0; i < 3; i++) {
    k.pos[i] = a * R[i];
    k.vel[i] = v * T[i] + vr * R[i];
    k.acc[i] = r.coin(0.1) ? 0 : static_cast<double>(r.range(-6, 6)) * 9.5367431640625e-7;
  }
  k.vel[0] += w * k.pos[1];
  k.vel[1] -= w * k.pos[0];
  k.gamma = r.uniform(-1e-11, 1e-11);
  if (r.coin(0.2)) k.gamma = r.uniform(-9e-10, 9e-10);
  k.tau = r.uniform(-1e-3, 1e-3);
  k.d_tau = r.uniform(-1.4e-8, 1.4e-8);
  k.fcn = static_cast<u16>(r.range(1, 14));
  k.iod = static_cast<u8>(r.range(0, 127));
  g.type = MEO;
  return g;
}
inline Gen gen_sbas(mon::Rng &r) {
  Gen g;
  memset(&g, 0, sizeof g);
  ephemeris_t &e = g.e;
  e.sid = gnss::sid(CODE_SBAS_L1CA, static_cast<unsigned>(r.range(120, 138)));
  e.valid = 1;
  e.ura = 5;
  e.fit_interval = 360;
  e.toe = tref::mk(static_cast<int>(r.range(900, 4000)), static_cast<double>(r.coin(0.2) ? r.pick<int64_t>({0, 604784, 16}) : r.range(0, 37799) * 16));
  ephemeris_xyz_t &k = e.data.xyz;
  double lon = r.uniform(-3.15, 3.15);
  double p[3] = {42164e3 * cos(lon), 42164e3 * sin(lon), r.uniform(-1e5, 1e5)};
  for (int i = 0; i < 3; i++) {
    k.pos[i] = p[i];
    k.vel[i] = r.uniform(-40, 40);
    k.acc[i] = r.uniform(-6e-3, 6e-3);
  }
  k.a_gf0 = r.uniform(-1e-6, 1e-6);
  k.a_gf1 = r.uniform(-1.2e-10, 1.2e-10);
  g.type = GEO;
  return g;
}
inline std::string str_glo(const ephemeris_t &e) {
  const ephemeris_glo_t &k = e.data.glo;
  char b[600];
  snprintf(b, sizeof b, "%s toe (%d,%.9g) pos (%.17g %.17g %.17g) vel (%.17g %.17g %.17g) acc (%.9g %.9g %.9g) gamma %.9g tau %.9g d_tau %.9g", gnss::str(e.sid).c_str(), e.toe.wn, e.toe.tow, k.pos[0], k.pos[1], k.pos[2], k.vel[0], k.vel[1],
           k.vel[2], k.acc[0], k.acc[1], k.acc[2], k.gamma, k.tau, k.d_tau);
  return b;
}
inline std::string str_xyz(const ephemeris_t &e) {
  const ephemeris_xyz_t &k = e.data.xyz;
  char b[600];
  snprintf(b, sizeof b, "%s toe (%d,%.9g) pos (%.17g %.17g %.17g) vel (%.17g %.17g %.17g) acc (%.9g %.9g %.9g) clock %.9g %.9g", gnss::str(e.sid).c_str(), e.toe.wn, e.toe.tow, k.pos[0], k.pos[1], k.pos[2], k.vel[0], k.vel[1], k.vel[2],
           k.acc[0], k.acc[1], k.acc[2], k.a_gf0, k.a_gf1);
  return b;
}
/* a time `off` seconds from t, normalised */
inline gps_time_t at(const gps_time_t &t, double off) {
  gps_time_t x = t;
  x.tow += off;
  while (x.tow < 0) x.tow += 604800, x.wn--;
  while (x.tow >= 604800) x.tow -= 604800, x.wn++;
  return x;
}
inline ld since(const gps_time_t &t, const gps_time_t &t0) { return static_cast<ld>(tref::secs(t) - tref::secs(t0)); }
/* GLONASS interface document: equations of motion, fine-step integration */
inline void glo_deriv(const ld y[6], const double acc[3], ld d[6]) {
  const ld mu = 3.986004418e14L, ae = 6378136.0L, j2 = 1.08262575e-3L, w = 7.292115e-5L;
  ld r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], r = sqrtl(r2), g = mu / (r2 * r), q = 1.5L * j2 * mu * ae * ae / (r2 * r2 * r), z = 5 * y[2] * y[2] / r2;
  d[0] = y[3];
  d[1] = y[4];
  d[2] = y[5];
  d[3] = -g * y[0] - q * y[0] * (1 - z) + w * w * y[0] + 2 * w * y[4] + static_cast<ld>(acc[0]);
  d[4] = -g * y[1] - q * y[1] * (1 - z) + w * w * y[1] - 2 * w * y[3] + static_cast<ld>(acc[1]);
  d[5] = -g * y[2] - q * y[2] * (3 - z) + static_cast<ld>(acc[2]);
}
inline void glo_integrate(ld y[6], const double acc[3], ld T) {
  int n = static_cast<int>(ceill(fabsl(T) / 2)) + 1;
  ld h = T / n;
  for (int s = 0; s < n; s++) {
    ld k[4][6], x[6];
    glo_deriv(y, acc, k[0]);
    for (int i = 0; i < 6; i++) x[i] = y[i] + h / 2 * k[0][i];
    glo_deriv(x, acc, k[1]);
    for (int i = 0; i < 6; i++) x[i] = y[i] + h / 2 * k[1][i];
    glo_deriv(x, acc, k[2]);
    for (int i = 0; i < 6; i++) x[i] = y[i] + h * k[2][i];
    glo_deriv(x, acc, k[3]);
    for (int i = 0; i < 6; i++) y[i] += h / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
  }
}
}  // namespace orbit
#endif
