/* Deterministic units of work over the library: every unit draws its input
 * from an Rng, calls the library through its public interface the way a
 * receiver does, and returns a hash of everything the library produced.  C51
 * feeds them hostile broadcast data under the sanitizers; C50 runs them
 * concurrently and compares the hashes with a sequential run. */
#ifndef VERIF_WORK_H
#define VERIF_WORK_H
#include "geo.h"
#include "nav.h"
#include "orbit.h"
#include "pvt.h"
#include <swiftnav/almanac.h>
#include <swiftnav/bits.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/edc.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/set.h>
#include <swiftnav/shm.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/troposphere.h>
namespace work {
using mon::Rng;
/* what happened in one unit */
struct Out {
  uint64_t h = 1;
  const double *rx = nullptr; /* fixed receiver position */
  int decoded = 0, refused = 0, valid = 0, state = 0, state_nonfinite = 0, doppler = 0, azel = 0, utc = 0, pvt = 0, pvt_ok = 0, alm = 0, iono = 0;
  void add(uint64_t x) { h = mon::hcombine(h, x); }
  void d(double x) { add(std::isnan(x) ? 0x7777 : mon::hd(x)); }
  void f(float x) { d(static_cast<double>(x)); }
  void v3(const double *p) {
    for (int i = 0; i < 3; i++) d(p[i]);
  }
  void t(const gps_time_t &x) {
    d(x.tow);
    add(static_cast<uint64_t>(x.wn));
  }
  void str(const char *s) {
    if (s) add(mon::hbytes(s, strlen(s)));
  }
};
/* message words: mostly bits nobody chose, some degenerate patterns */
inline uint32_t word(Rng &r, int style) {
  switch (style) {
    case 0: return 0;
    case 1: return 0xffffffffu;
    case 2: return r.coin() ? 0xaaaaaaaau : 0x55555555u;
    case 3: return 1u << r.range(0, 31);
    case 4: return ~(1u << r.range(0, 31));
    case 5: return r.pick<uint32_t>({0, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x3fffffffu, 0x20000000u, 0x1fffffffu, 0x00ffffffu});
    default: return r.u32();
  }
}
inline int style(Rng &r) { return r.coin(0.65) ? 9 : static_cast<int>(r.range(0, 5)); }
template <class T>
inline void fill(Rng &r, T *p, size_t bytes) {
  int s = style(r);
  for (size_t i = 0; i < bytes; i += 4) {
    uint32_t w = word(r, s);
    memcpy(reinterpret_cast<unsigned char *>(p) + i, &w, bytes - i < 4 ? bytes - i : 4);
  }
}
inline gps_time_t any_time(Rng &r) {
  return tref::mk(static_cast<int>(r.coin(0.1) ? r.pick<int>({3, 32000, 1023, 1024, 2048}) : r.range(3, 4000)), r.coin(0.2) ? r.pick<double>({0, 604799, 604799.9999, 1e-9, 302400}) : r.uniform(0, 604800));
}
/* a valid time near the reference time of decoded data, if that is a time */
inline gps_time_t eval_time(Rng &r, const gps_time_t &ref) {
  gps_time_t x = any_time(r);
  if (r.coin(0.75) && ref.wn >= 1 && ref.wn < 32000 && ref.tow >= 0 && ref.tow < 604800)
    x = orbit::at(ref, r.coin(0.15) ? r.pick<double>({0, -7200, 7200, 14400, -14400, 302400, -302400}) : r.uniform(-9000, 15000));
  if (x.wn < 2) x.wn = 2;
  return x;
}
inline void receiver(Rng &r, double ecef[3], double llh[3]) {
  llh[0] = geo::gen_lat(r), llh[1] = geo::gen_lon(r), llh[2] = r.uniform(-500, 9000);
  geo::ld x[3];
  geo::to_ecef(llh, x);
  for (int i = 0; i < 3; i++) ecef[i] = static_cast<double>(x[i]);
}
/* everything a receiver asks about an ephemeris */
inline void use_ephemeris(Rng &r, const ephemeris_t &e, Out &o, std::vector<navigation_measurement_t> *meas = nullptr) {
  gps_time_t t = eval_time(r, e.toe);
  o.add(static_cast<uint64_t>(get_ephemeris_status_t(&e)));
  u8 ok = ephemeris_valid(&e, &t);
  o.add(ok);
  o.add(static_cast<uint64_t>(ephemeris_valid_detailed(&e, &t)));
  o.valid += ok != 0;
  o.add(ephemeris_equal(&e, &e));
  o.add(ephemeris_healthy(&e, e.sid.code));
  float tgd = 0;
  constellation_t k = sid_to_constellation(e.sid);
  if (k != CONSTELLATION_SBAS) o.add(static_cast<uint64_t>(get_tgd_correction(&e, &e.sid, &tgd)));
  o.f(tgd);
  if (k == CONSTELLATION_BDS) o.add(get_bds2_iod_crc(&e));
  double ref[3], llh[3], vel[3] = {r.uniform(-300, 300), r.uniform(-300, 300), r.uniform(-300, 300)};
  receiver(r, ref, llh);
  if (o.rx) memcpy(ref, o.rx, 24), wgsecef2llh(ref, llh);
  satellite_orbit_type_t ty = r.pick<satellite_orbit_type_t>({GEO, IGSO, MEO});
  if (k != CONSTELLATION_BDS) ty = MEO;
  for (int i = 0; i < 3; i++) {
    double p[3] = {0, 0, 0}, v[3] = {0, 0, 0}, a[3] = {0, 0, 0}, ce = 0, cr = 0;
    s8 ret = i == 0 ? calc_sat_state(&e, &t, p, v, a, &ce, &cr) : i == 1 ? calc_sat_state_orbit_type(&e, &t, ty, p, v, a, &ce, &cr) : calc_sat_state_n(&e, &t, ty, p, v, a, &ce, &cr);
    o.add(static_cast<uint64_t>(ret));
    if (ret == 0) {
      o.state++;
      bool fin = std::isfinite(p[0] + p[1] + p[2] + v[0] + v[1] + v[2] + a[0] + a[1] + a[2] + ce + cr);
      o.state_nonfinite += !fin;
      o.v3(p), o.v3(v), o.v3(a), o.d(ce), o.d(cr);
      double az = 0, el = 0, l2[3], ned[3];
      wgsecef2azel(p, ref, &az, &el);
      wgsecef2llh(p, l2);
      wgsecef2ned_d(p, ref, ned);
      o.d(az), o.d(el), o.v3(l2), o.v3(ned);
      /* corrections for the line of sight the message leads to */
      o.d(calc_troposphere(gps2doy(&t), llh[0], llh[2], el));
      if (i == 2 && meas && sid_valid(e.sid) && (el > 0 || r.coin(0.05))) {
        navigation_measurement_t m;
        memset(&m, 0, sizeof m);
        m.sid = e.sid;
        memcpy(m.sat_pos, p, 24), memcpy(m.sat_vel, v, 24), memcpy(m.sat_acc, a, 24);
        m.sat_clock_err = ce, m.sat_clock_err_rate = cr;
        m.tot = t;
        double rng = sqrt((p[0] - ref[0]) * (p[0] - ref[0]) + (p[1] - ref[1]) * (p[1] - ref[1]) + (p[2] - ref[2]) * (p[2] - ref[2]));
        m.raw_pseudorange = rng - 299792458.0 * ce + r.normal(3);
        m.raw_measured_doppler = r.uniform(-4000, 4000);
        m.raw_carrier_phase = r.normal() * 1e6;
        m.cn0 = r.uniform(20, 55), m.lock_time = r.uniform(0, 1000), m.elevation = el * 57.29577951308232;
        m.flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID | NAV_MEAS_FLAG_PHASE_VALID;
        meas->push_back(m);
      }
    }
  }
  double az = 0, el = 0, dop = 0;
  for (bool chk : {true, false}) {
    s8 q = calc_sat_az_el(&e, &t, ref, ty, &az, &el, chk);
    o.add(static_cast<uint64_t>(q));
    if (q == 0) o.d(az), o.d(el), o.azel++;
  }
  s8 q = calc_sat_doppler(&e, &t, ref, vel, ty, &dop);
  o.add(static_cast<uint64_t>(q));
  if (q == 0) o.d(dop), o.doppler++;
}
inline void use_params(Rng &r, const utc_params_t *u, Out &o) {
  gps_time_t t = any_time(r);
  if (u && r.coin(0.7) && u->t_lse.wn > 0 && u->t_lse.wn < 32000 && u->t_lse.tow >= 0 && u->t_lse.tow < 604800) t = orbit::at(u->t_lse, r.pick<double>({-1, 0, 1, 0.5, -0.5, 1.5, 2, 18, 19, -86400, 86400}) + (r.coin() ? 0 : r.uniform(-1e-6, 1e-6)));
  if (t.wn < 0 || !gps_time_valid(&t)) return;
  o.d(get_gps_utc_offset(&t, u));
  o.d(get_utc_gps_offset(&t, u));
  o.add(is_leap_second_event(&t, u));
  utc_tm m;
  memset(&m, 0, sizeof m);
  gps2utc(&t, &m, u);
  o.add(m.year), o.add(m.year_day), o.add(m.month), o.add(m.month_day), o.add(m.week_day), o.add(m.hour), o.add(m.minute), o.add(m.second_int), o.d(m.second_frac);
  o.d(gps2mjd_params(&t, u));
  if (t.wn > 900 && t.wn < 6000) {
    glo_time_t g = gps2glo(&t, u);
    o.add(g.nt), o.add(g.n4), o.add(g.h), o.add(g.m), o.d(g.s);
    o.t(glo2gps(&g, u));
  }
  o.utc++;
}
/* ---- broadcast messages ---- */
inline void gps(Rng &r, Out &o, std::vector<navigation_measurement_t> *meas) {
  mon::Buf<u32> w(24);
  fill(r, w.p, 96);
  if (r.coin(0.6)) { /* healthy, consistent issue numbers, plausible orbit: the evaluators must be reached */
    auto z = [&](int sf, int idx, int first, int n, uint64_t v) { nav::put30(&w[static_cast<size_t>(sf * 8 + idx)], first, n, v); };
    z(0, 0, 17, 6, 0);
    if (r.coin()) z(0, 0, 13, 4, static_cast<uint64_t>(r.range(0, 14)));
    uint64_t iod = static_cast<uint64_t>(r.range(0, 255));
    z(0, 5, 1, 8, iod), z(1, 0, 1, 8, iod), z(2, 7, 1, 8, iod);
    uint64_t toe = static_cast<uint64_t>(r.range(0, 37799));
    if (r.coin(0.8)) z(0, 5, 9, 16, toe), z(1, 7, 1, 16, toe);
    if (r.coin()) z(1, 5, 17, 8, 0xa1), z(1, 3, 17, 8, r.coin() ? 0 : 1); /* sqrtA near 5153, small eccentricity */
  }
  mon::Buf<ephemeris_t> e(1);
  memset(e.p, r.pick<int>({0, 0xff, 0x5a}), sizeof(ephemeris_t));
  bool qz = r.coin(0.3);
  e.p->sid = qz ? gnss::sid(CODE_QZS_L1CA, static_cast<unsigned>(r.range(193, 202))) : gnss::sid(r.pick<code_t>({CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L5I}), static_cast<unsigned>(r.range(1, 32)));
  double tot = r.coin(0.2) ? r.pick<double>({0, 604799, 604800, 302400, 6}) : static_cast<double>(r.range(0, 100799)) * 6;
  const u32(*fw)[8] = reinterpret_cast<const u32(*)[8]>(w.p);
  if (r.coin()) decode_ephemeris(fw, e.p, tot);
  else decode_ephemeris_with_wn_ref(fw, e.p, tot, static_cast<u16>(r.coin(0.2) ? r.pick<int>({1, 1023, 1024, 2048, 31000}) : r.range(1000, 4000)));
  o.add(e.p->valid);
  (e.p->valid ? o.decoded : o.refused)++;
  o.t(e.p->toe);
  use_ephemeris(r, *e.p, o, meas);
}
inline void gal(Rng &r, Out &o, std::vector<navigation_measurement_t> *meas) {
  mon::Buf<u8> p(5 * GAL_INAV_CONTENT_BYTE);
  fill(r, p.p, 5 * GAL_INAV_CONTENT_BYTE);
  if (r.coin(0.6)) {
    u8 *q = p.p + 4 * GAL_INAV_CONTENT_BYTE;
    nav::putb(q, 67, 4, 0);
    uint64_t tow = static_cast<uint64_t>(r.range(0, 604799));
    nav::putb(q, 85, 20, tow);
    nav::putb(p.p, 16, 14, tow / 60), nav::putb(p.p + 3 * GAL_INAV_CONTENT_BYTE, 54, 14, tow / 60);
    if (r.coin()) nav::putb(p.p, 62, 6, 0), nav::putb(p.p, 94, 4, 0xa);
    if (r.coin(0.8)) nav::putb(p.p + 3 * GAL_INAV_CONTENT_BYTE, 16, 6, static_cast<uint64_t>(r.range(1, 36)));
    nav::putb(p.p + 2 * GAL_INAV_CONTENT_BYTE, 120, 8, static_cast<uint64_t>(r.range(0, 125)));
  }
  mon::Buf<ephemeris_t> e(1);
  memset(e.p, r.pick<int>({0, 0xff, 0x5a}), sizeof(ephemeris_t));
  e.p->sid = gnss::sid(r.pick<code_t>({CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5I}), static_cast<unsigned>(r.range(1, 36)));
  e.p->health_bits = 0;
  bool ok = decode_gal_ephemeris_safe(reinterpret_cast<const u8(*)[GAL_INAV_CONTENT_BYTE]>(p.p), e.p);
  o.add(ok);
  (ok ? o.decoded : o.refused)++;
  if (!ok) return; /* nothing may be used */
  o.t(e.p->toe);
  use_ephemeris(r, *e.p, o, meas);
}
inline void bds(Rng &r, Out &o, std::vector<navigation_measurement_t> *meas) {
  mon::Buf<u32> w(30);
  fill(r, w.p, 120);
  mon::Buf<ephemeris_t> e(1);
  memset(e.p, 0, sizeof(ephemeris_t));
  gnss_signal_t s = gnss::sid(r.pick<code_t>({CODE_BDS2_B1, CODE_BDS2_B2}), static_cast<unsigned>(r.range(1, 64)));
  const u32(*fw)[10] = reinterpret_cast<const u32(*)[10]>(w.p);
  decode_bds_d1_ephemeris(fw, s, e.p);
  o.decoded++;
  /* what the decoder leaves to its caller */
  e.p->valid = 1;
  e.p->fit_interval = BDS_FIT_INTERVAL_SECONDS;
  e.p->source = EPH_SOURCE_BDS_D1_D2_NAV;
  for (gps_time_t *t : {&e.p->toe, &e.p->data.kepler.toc})
    if (r.coin(0.8)) { /* BDT to GPS time */
      t->tow += 14;
      normalize_gps_time(t);
    }
  if (r.coin(0.6)) {
    e.p->health_bits = 0;
    if (r.coin()) e.p->data.kepler.ecc = r.uniform(0, 0.02), e.p->data.kepler.sqrta = r.uniform(5000, 6600);
  }
  o.t(e.p->toe);
  use_ephemeris(r, *e.p, o, meas);
  ionosphere_t io;
  memset(&io, 0, sizeof io);
  decode_bds_d1_iono(w.p, &io);
  o.d(io.a0), o.d(io.a3), o.d(io.b0), o.d(io.b3);
  gps_time_t t = any_time(r);
  o.d(calc_ionosphere(&t, geo::gen_lat(r), geo::gen_lon(r), r.uniform(0, 6.28318), r.uniform(0, 1.57), &io));
  o.iono++;
}
inline bool utc_page(Rng &r, utc_params_t *u) {
  mon::Buf<u32> w(8);
  fill(r, w.p, 32);
  if (r.coin(0.8)) nav::put30(&w[0], 1, 8, 0x78); /* data id 1, page 18 */
  if (r.coin(0.7)) { /* plausible: leap seconds within range */
    nav::put30(&w[6], 1, 8, static_cast<uint64_t>(r.range(10, 40)));
  }
  memset(u, 0, sizeof *u);
  return r.coin() ? decode_utc_parameters(w.p, u) : decode_utc_parameters_with_wn_ref(w.p, u, static_cast<u16>(r.range(1000, 4000)));
}
inline void glo(Rng &r, Out &o, std::vector<navigation_measurement_t> *meas) {
  mon::Buf<glo_string_t> s(5);
  bool raw = r.coin(0.15), tame = r.coin(0.7);
  gnss_signal_t sid = gnss::sid(r.coin() ? CODE_GLO_L1OF : CODE_GLO_L2OF, static_cast<unsigned>(r.range(1, 28)));
  if (raw) fill(r, s.p, 5 * sizeof(glo_string_t));
  else
    for (int i = 0; i < 5; i++) {
      nav::GloBits b;
      int st = style(r);
      for (int k = 9; k <= 84; k++) b.b[k] = (word(r, st) >> (k % 32)) & 1;
      b.put(81, 4, static_cast<uint64_t>(r.coin(0.97) ? i + 1 : r.range(0, 15)));
      if (tame) { /* inside the limits of the interface document */
        if (i < 3) b.sm(9, 26, r.range(-25000000, 25000000) * 2), b.sm(36, 4, r.range(-6, 6)), b.sm(41, 23, r.range(-4500000, 4500000));
        if (i == 0) b.put(72, 5, static_cast<uint64_t>(r.range(0, 23))), b.put(66, 6, static_cast<uint64_t>(r.range(0, 59)));
        if (i == 1) b.put(70, 7, static_cast<uint64_t>(r.range(1, 95))), b.put(80, 1, 0), b.put(78, 3, 0);
        if (i == 2) b.put(65, 1, 0);
        if (i == 3) b.put(11, 5, static_cast<uint64_t>(r.range(1, 28))), b.put(16, 11, static_cast<uint64_t>(r.range(0, 1461)));
        if (i == 4) b.put(32, 5, static_cast<uint64_t>(r.range(1, 31))), b.sm(10, 21, r.range(-2040109, 2040109));
      }
      b.seal();
      b.words(s[static_cast<size_t>(i)].word);
    }
  for (int i = 0; i < 5; i++) {
    o.add(static_cast<uint64_t>(error_detection_glo(&s[static_cast<size_t>(i)])));
    u8 n = static_cast<u8>(r.range(1, 32));
    u16 bit = static_cast<u16>(r.range(1, 85 - n + 1));
    o.add(extract_word_glo(&s[static_cast<size_t>(i)], bit, n));
  }
  mon::Buf<ephemeris_t> e(1);
  memset(e.p, r.pick<int>({0, 0xff, 0x5a}), sizeof(ephemeris_t));
  e.p->fit_interval = r.pick<u32>({0, 2400});
  e.p->data.glo.fcn = 5;
  e.p->ura = 1;
  utc_params_t u;
  bool have = r.coin(0.3) && utc_page(r, &u);
  decode_glo_ephemeris(s.p, sid, have ? &u : nullptr, e.p);
  o.add(e.p->valid);
  (e.p->valid ? o.decoded : o.refused)++;
  if (!e.p->valid) return;
  o.t(e.p->toe);
  use_ephemeris(r, *e.p, o, meas);
  double t0[3] = {r.uniform(-1, 1), 0, 0};
  o.d(t0[0]);
}
inline void pages(Rng &r, Out &o, std::vector<navigation_measurement_t> *) {
  mon::Buf<u32> w(8);
  fill(r, w.p, 32);
  if (r.coin(0.8)) /* data id 1 and any page number */
    nav::put30(&w[0], 1, 8, static_cast<uint64_t>(0x40 | r.pick<int>({51, 63, 56, static_cast<int>(r.range(0, 63)), static_cast<int>(r.range(1, 32)), static_cast<int>(r.range(1, 32))})));
  mon::Buf<almanac_t> a(1);
  almanac_ref_week_t wk = {0, 0};
  almanac_health_t hl;
  memset(&hl, 0, sizeof hl);
  bool ok = r.coin() ? almanac_decode_week(w.p, &wk) : almanac_decode_week_with_wn_ref(w.p, &wk, static_cast<u16>(r.range(0, 4000)));
  o.add(ok), o.add(static_cast<uint64_t>(wk.wna)), o.add(static_cast<uint64_t>(wk.toa));
  ok = almanac_decode_health(w.p, &hl);
  o.add(ok);
  if (ok) o.add(mon::hbytes(&hl, sizeof hl));
  ok = almanac_decode(w.p, a.p);
  o.add(ok);
  (ok ? o.decoded : o.refused)++;
  if (ok) {
    o.alm++;
    /* what the page leaves to its caller */
    if (r.coin(0.9)) a.p->toa.wn = static_cast<s16>(r.range(1, 4000));
    if (r.coin(0.7)) a.p->health_bits = 0;
    gps_time_t t = eval_time(r, a.p->toa);
    double p[3] = {0, 0, 0}, v[3] = {0, 0, 0}, acc[3] = {0, 0, 0}, ce = 0, cr = 0, az = 0, el = 0, dop = 0, ref[3], llh[3];
    receiver(r, ref, llh);
    o.add(almanac_valid(a.p, &t)), o.add(almanac_healthy(a.p)), o.add(almanac_equal(a.p, a.p));
    s8 q = calc_sat_state_almanac(a.p, &t, p, v, acc, &ce, &cr);
    o.add(static_cast<uint64_t>(q));
    if (!q) o.v3(p), o.v3(v), o.d(ce), o.d(cr), o.state++, o.state_nonfinite += !std::isfinite(p[0] + p[1] + p[2] + v[0] + v[1] + v[2]);
    q = calc_sat_az_el_almanac(a.p, &t, ref, &az, &el);
    o.add(static_cast<uint64_t>(q));
    if (!q) o.d(az), o.d(el), o.azel++;
    q = calc_sat_doppler_almanac(a.p, &t, ref, &dop);
    o.add(static_cast<uint64_t>(q));
    if (!q) o.d(dop), o.doppler++;
  }
  ionosphere_t io;
  memset(&io, 0, sizeof io);
  ok = decode_iono_parameters(w.p, &io);
  o.add(ok);
  if (ok) {
    gps_time_t t = any_time(r);
    for (int i = 0; i < 4; i++) o.d(calc_ionosphere(&t, geo::gen_lat(r), geo::gen_lon(r), r.uniform(-6.3, 6.3), r.coin(0.2) ? r.pick<double>({0, 1.5707963267948966, -0.05}) : r.uniform(0, 1.57), &io));
    o.iono++;
  }
  utc_params_t u;
  memset(&u, 0, sizeof u);
  ok = r.coin() ? decode_utc_parameters(w.p, &u) : decode_utc_parameters_with_wn_ref(w.p, &u, static_cast<u16>(r.range(1000, 4000)));
  o.add(ok);
  if (ok)
    for (int i = 0; i < 4; i++) use_params(r, &u, o);
  use_params(r, nullptr, o);
  u8 shi = 0;
  shm_gps_decode_shi_ephemeris(w[0], &shi);
  o.add(shi);
  for (int i = 0; i < 4; i++) {
    code_t c = r.pick(gnss::plan()).code;
    u8 b = static_cast<u8>(r.u64());
    if (is_gps(c)) o.add(check_8bit_health_word(b, c)), o.add(check_6bit_health_word(b & 63, c));
    o.add(check_nav_dhi(b, static_cast<u8>(r.u64())));
  }
}
/* several satellites' messages, then a position from whatever came out */
inline void fix(Rng &r, Out &o, std::vector<navigation_measurement_t> *) {
  std::vector<navigation_measurement_t> m;
  int n = static_cast<int>(r.range(4, 14));
  int mix = static_cast<int>(r.range(0, 4));
  Out sub;
  double rx[3], l0[3];
  receiver(r, rx, l0);
  sub.rx = rx;
  for (int i = 0; i < 90 && static_cast<int>(m.size()) < n; i++) switch (mix < 4 ? mix : static_cast<int>(r.range(0, 3))) {
      case 0: gps(r, sub, &m); break;
      case 1: gal(r, sub, &m); break;
      case 2: bds(r, sub, &m); break;
      default: glo(r, sub, &m); break;
    }
  /* a receiver tracks each signal once: the set of measurements names no signal twice */
  for (size_t i = 0; i < m.size(); i++)
    for (size_t j = m.size(); j-- > i + 1;)
      if (m[i].sid.sat == m[j].sid.sat && m[i].sid.code == m[j].sid.code) m.erase(m.begin() + static_cast<long>(j));
  o.add(sub.h);
  o.state += sub.state, o.decoded += sub.decoded, o.refused += sub.refused, o.state_nonfinite += sub.state_nonfinite;
  if (m.empty()) return;
  gps_time_t tor = any_time(r);
  gnss_solution soln;
  dops_t dops;
  gnss_sid_set_t rm;
  memset(&soln, 0, sizeof soln), memset(&dops, 0, sizeof dops), memset(&rm, 0, sizeof rm);
  obs_mask_config_t mask;
  memset(&mask, 0, sizeof mask);
  mon::Buf<navigation_measurement_t> b(m.size());
  for (size_t i = 0; i < m.size(); i++) b[i] = m[i];
  s8 q = calc_PVT(static_cast<u8>(m.size()), b.p, &tor, r.coin(0.3), r.coin(0.3), &mask, r.pick<enum processing_strategy_t>({ALL_CONSTELLATIONS, GPS_ONLY, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY}), &soln, &dops, &rm);
  o.add(static_cast<uint64_t>(q));
  o.pvt++;
  if (q >= 0) {
    o.pvt_ok++;
    o.v3(soln.pos_ecef), o.v3(soln.pos_llh), o.v3(soln.vel_ecef), o.d(soln.clock_offset), o.d(dops.gdop);
    o.t(soln.time);
    double az, el;
    wgsecef2azel(m[0].sat_pos, soln.pos_ecef, &az, &el);
    o.d(az), o.d(el);
    if (std::isfinite(soln.pos_llh[0]) && std::isfinite(soln.pos_llh[1])) o.f(get_geoid_offset(soln.pos_llh[0], soln.pos_llh[1]));
    o.d(calc_troposphere(gps2doy(&tor), soln.pos_llh[0], soln.pos_llh[2], el));
  }
}
}  // namespace work
#endif
