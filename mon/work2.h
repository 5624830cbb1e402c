/* More units of work (see work.h): the parts of the library that broadcast data does not reach. */
#ifndef VERIF_WORK2_H
#define VERIF_WORK2_H
#include "work.h"
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/memcpy_s.h>
namespace work {
typedef std::vector<navigation_measurement_t> Meas;
inline void times(Rng &r, Out &o, Meas *) {
  gps_time_t t = any_time(r), u = any_time(r);
  o.d(gpsdifftime(&t, &u));
  add_secs(&t, r.uniform(-1e6, 1e6));
  if (t.wn < 3) t.wn = 3;
  o.t(t);
  o.add(gps_time_valid(&t)), o.add(gps_current_time_valid(&t)), o.add(gps_current_time_valid_with_wn_ref(&t, 2000));
  time_t x = gps2time(&t);
  o.add(static_cast<uint64_t>(x));
  if (unix_time_valid(&x)) o.t(time2gps_t(x));
  o.add(unix_time_valid(&x));
  o.add(gps2doy(&t));
  utc_tm m;
  memset(&m, 0, sizeof m);
  make_utc_tm(&t, &m);
  o.add(m.year), o.add(m.year_day), o.add(m.month), o.add(m.month_day), o.add(m.hour), o.add(m.minute), o.add(m.second_int), o.d(m.second_frac);
  gps2utc(&t, &m, nullptr);
  o.d(utc2mjd(&m));
  o.d(utc2gmst(m, r.uniform(-0.9, 0.9)));
  gps_time_t back;
  utc2gps(&m, &back, nullptr);
  o.t(back);
  double mjd = gps2mjd(&t);
  o.d(mjd);
  o.t(mjd2gps(mjd));
  s32 y, mo, d, h, mi;
  double s;
  mjd2date(mjd, &y, &mo, &d, &h, &mi, &s);
  o.add(static_cast<uint64_t>(y)), o.add(static_cast<uint64_t>(mo)), o.add(static_cast<uint64_t>(d)), o.add(static_cast<uint64_t>(h)), o.add(static_cast<uint64_t>(mi)), o.d(s);
  o.d(date2mjd(y, mo, d, h, mi, s));
  o.t(date2gps(y, mo, d, h, mi, s));
  gps2date(&t, &y, &mo, &d, &h, &mi, &s);
  o.add(static_cast<uint64_t>(d)), o.d(s);
  o.t(round_to_epoch(&t, 10)), o.t(floor_to_epoch(&t, 5));
  o.d(get_gps_utc_offset(&t, nullptr)), o.d(get_utc_gps_offset(&t, nullptr)), o.add(is_leap_second_event(&t, nullptr));
  gps_time_t w = {t.tow, WN_UNKNOWN};
  o.add(gps_time_match_weeks_safe(&w, &u)), o.t(w);
  o.add(gps_adjust_week_cycle(static_cast<u16>(r.range(0, 1023)), 2100)), o.add(gps_adjust_week_cycle256(static_cast<u16>(r.range(0, 255)), 2100));
  gps_time_duration_t dt;
  o.add(gpsdifftime_week_second(&t, &u, &dt)), o.d(dt.seconds), o.add(static_cast<uint64_t>(dt.weeks));
  o.add(days_in_month(static_cast<u16>(r.range(1980, 2100)), static_cast<u8>(r.range(1, 12))));
  glo_time_t g = gps2glo(&t.wn > &u.wn || t.wn < 900 ? &(u = tref::mk(2000, 5)) : &t, nullptr);
  o.add(g.nt), o.add(g.n4), o.d(g.s);
  o.t(glo2gps(&g, nullptr));
}
inline void signals(Rng &r, Out &o, Meas *) {
  for (int i = 0; i < 12; i++) {
    const gnss::SigPlan &p = r.pick(gnss::plan());
    const gnss::ConsPlan &k = gnss::cons_of(p.cons);
    gnss_signal_t s = construct_sid(p.code, static_cast<u16>(k.first + static_cast<unsigned>(r.range(0, k.count - 1))));
    char b[SID_STR_LEN_MAX + 1] = {0};
    o.add(static_cast<uint64_t>(sid_to_string(b, sizeof b, s)));
    o.str(b);
    memset(b, 0, sizeof b);
    o.add(static_cast<uint64_t>(sat_code_to_string(b, 2, "ab", s.sat, s.code)));
    o.str(b);
    o.add(sid_valid(s)), o.add(sid_to_code_index(s)), o.add(static_cast<uint64_t>(sid_to_constellation(s))), o.add(sid_hash(s));
    o.d(sid_to_carr_freq(s)), o.d(sid_to_lambda(s));
    o.str(code_to_string(s.code));
    o.add(static_cast<uint64_t>(code_string_to_enum(code_to_string(s.code))));
    o.add(code_to_chip_count(CODE_GPS_L1CA)), o.f(code_to_sv_doppler_max(s.code)), o.f(code_to_sv_doppler_min(s.code)), o.add(code_requires_decoder(s.code)), o.add(code_requires_direct_acq(s.code));
    o.f(code_to_phase_alignment(s.code)), o.add(code_to_sig_count(s.code)), o.add(code_to_prn_period_ms(p.period_ms ? s.code : CODE_GPS_L1CA));
    o.str(constellation_to_string(p.cons));
    o.add(static_cast<uint64_t>(constellation_string_to_enum(constellation_to_string(p.cons))));
    if (p.cons == CONSTELLATION_SBAS) {
      sbas_system_t y = get_sbas_system(s);
      o.add(static_cast<uint64_t>(y));
      if (y != SBAS_NONE) o.add(get_sbas_prn_list(y)[0]);
    }
    if (p.cons == CONSTELLATION_GLO) {
      u16 a = 0, c = 0;
      o.add(glo_map_valid(s)), o.add(glo_map_get_fcn(s)), o.add(glo_map_get_slot_id(glo_map_get_fcn(s), &a, &c)), o.add(a), o.add(c);
      glo_biases_t gb;
      memset(&gb, 0, sizeof gb);
      gb.mask = 15, gb.l1of_bias_m = r.uniform(-10, 10), gb.l2of_bias_m = r.uniform(-10, 10);
      o.d(get_glonass_bias(s.code, gb)), o.add(glonass_biases_are_equal(gb, gb));
    }
  }
  gnss_sid_set_t st;
  sid_set_init(&st);
  for (int i = 0; i < 40; i++) {
    const gnss::SigPlan &p = r.pick(gnss::plan());
    const gnss::ConsPlan &k = gnss::cons_of(p.cons);
    gnss_signal_t s = gnss::sid(p.code, k.first + static_cast<unsigned>(r.range(0, k.count - 1)));
    if (r.coin(0.7)) sid_set_add(&st, s);
    else sid_set_remove(&st, s);
    o.add(sid_set_contains(&st, s));
  }
  o.add(sid_set_get_sat_count(&st)), o.add(sid_set_get_sig_count(&st));
}
inline void algebra(Rng &r, Out &o, Meas *) {
  u32 n = static_cast<u32>(r.range(3, 8)), m = n + static_cast<u32>(r.range(0, 4));
  std::vector<double> a(m * n), b(m * n), sq(n * n), inv(n * n), x(n), y(m), out(m * m), w(m), cov(n * n);
  for (double &q : a) q = r.normal();
  for (double &q : y) q = r.normal();
  for (double &q : w) q = r.uniform(0.5, 2);
  for (double &q : sq) q = r.normal();
  auto all = [&](int ret, const std::vector<double> &v) {
    o.add(static_cast<uint64_t>(ret));
    if (ret != 0) return;
    for (double q : v) o.d(q);
  };
  matrix_transpose(m, n, a.data(), b.data());
  all(0, b);
  matrix_multiply(m, n, m, a.data(), b.data(), out.data());
  all(0, out);
  all(matrix_inverse(n, sq.data(), inv.data()), inv);
  int ret = matrix_wlsq_solve(m, n, a.data(), y.data(), w.data(), x.data(), cov.data());
  all(ret, x), all(ret, cov);
  std::vector<double> pi(n * m);
  all(matrix_pseudoinverse(m, n, a.data(), pi.data()), pi);
  all(matrix_pseudoinverse(n, m, a.data(), pi.data()), pi);
  all(matrix_atwaiat(m, n, a.data(), w.data(), pi.data()), pi);
  all(qrsolve(sq.data(), n, n, y.data(), x.data()), x);
  std::vector<double> spd(n * n), U(n * n), D(n);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      spd[i * n + j] = i == j ? 1 : 0;
      for (u32 k = 0; k < n; k++) spd[i * n + j] += sq[i * n + k] * sq[j * n + k];
    }
  matrix_udu(n, spd.data(), U.data(), D.data());
  all(0, D);
  o.d(vector_dot(m, y.data(), w.data())), o.d(vector_norm(m, y.data())), o.d(vector_mean(m, y.data()));
  double c3[3];
  vector_cross(&a[0], &y[0], c3);
  o.v3(c3);
}
inline void geodesy(Rng &r, Out &o, Meas *) {
  for (int i = 0; i < 6; i++) {
    double e[3], l[3], e2[3], l2[3], nd[3], M[3][3], az, el;
    receiver(r, e, l);
    wgsllh2ecef(l, e2), wgsecef2llh(e2, l2);
    o.v3(e2), o.v3(l2);
    double p[3] = {e[0] + r.normal() * 1e7, e[1] + r.normal() * 1e7, e[2] + r.normal() * 1e7};
    wgsecef2azel(p, e, &az, &el);
    o.d(az), o.d(el);
    wgsecef2ned(p, e, nd);
    o.v3(nd);
    wgsned2ecef_d(nd, e, e2);
    o.v3(e2);
    ecef2ned_matrix(e, M);
    o.v3(M[0]), o.v3(M[1]), o.v3(M[2]);
    o.f(get_geoid_offset(l[0], l[1]));
    o.d(calc_troposphere(r.uniform(1, 366), l[0], l[2], el));
    ionosphere_t io;
    memset(&io, 0, sizeof io);
    io.a0 = r.uniform(0, 3e-8), io.a1 = r.uniform(-1e-8, 1e-8), io.b0 = r.uniform(7e4, 1.4e5), io.b1 = r.uniform(-1e5, 1e5);
    gps_time_t t = any_time(r);
    o.d(calc_ionosphere(&t, l[0], l[1], az, el, &io));
  }
}
inline void bytes(Rng &r, Out &o, Meas *) {
  mon::Buf<u8> b(64);
  r.bytes(b.p, 64);
  o.add(crc24q(b.p, 64, 0)), o.add(crc24q_bits(0, b.p, static_cast<u32>(r.range(1, 512)), r.coin()));
  for (int i = 0; i < 20; i++) {
    u8 n = static_cast<u8>(r.range(1, 32));
    u32 pos = static_cast<u32>(r.range(0, 512 - n));
    o.add(getbitu(b.p, pos, n)), o.add(static_cast<uint64_t>(getbits(b.p, pos, n)));
    setbitu(b.p, pos, n, r.u32() >> (32 - n));
    o.add(parity(r.u32())), o.add(count_bits_u64(r.u64(), 1));
  }
  bitshl(b.p, 64, static_cast<u32>(r.range(0, 200)));
  mon::Buf<u8> d(64);
  bitcopy(d.p, static_cast<u32>(r.range(0, 100)), b.p, static_cast<u32>(r.range(0, 100)), static_cast<u32>(r.range(0, 300)));
  o.add(mon::hbytes(d.p, 64));
  o.add(encode_lock_time(r.uniform(0, 1e6))), o.d(decode_lock_time(static_cast<u8>(r.range(0, 15)))), o.add(encode_ura(static_cast<float>(r.uniform(0, 7000)))), o.f(decode_ura_index(static_cast<u8>(r.range(0, 15))));
  std::vector<s32> v(20), w(20), x(20);
  s32 k = 0;
  for (s32 &q : v) q = k += static_cast<s32>(r.range(1, 4));
  k = 0;
  for (s32 &q : w) q = k += static_cast<s32>(r.range(1, 4));
  o.add(is_set(20, sizeof(s32), v.data(), cmp_s32_s32));
  s32 cnt = intersection(20, sizeof(s32), v.data(), x.data(), 20, sizeof(s32), w.data(), nullptr, cmp_s32_s32);
  o.add(static_cast<uint64_t>(cnt));
  for (s32 i = 0; i < cnt; i++) o.add(static_cast<uint64_t>(x[static_cast<size_t>(i)]));
  o.add(insertion_index(20, sizeof(s32), v.data(), &w[3], cmp_s32_s32));
}
inline void states(Rng &r, Out &o, Meas *) {
  for (auto k : {CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_BDS, CONSTELLATION_QZS}) {
    orbit::Gen g = orbit::gen_kepler(r, k);
    use_ephemeris(r, g.e, o);
  }
  use_ephemeris(r, orbit::gen_glo(r).e, o);
  use_ephemeris(r, orbit::gen_sbas(r).e, o);
}
inline void solver(Rng &r, Out &o, Meas *) {
  pvt::Opt q;
  q.cons = pvt::gen_cons(r);
  q.n = static_cast<int>(r.range(5, 14));
  q.dual = r.unit();
  pvt::Sim s;
  pvt::gen_truth(r, q, s);
  pvt::gen_sats(r, q, s);
  std::vector<navigation_measurement_t> m;
  for (auto &g : s.s) m.push_back(g.m);
  if (r.coin(0.4)) r.pick(m), m[static_cast<size_t>(r.range(0, static_cast<int64_t>(m.size()) - 1))].raw_pseudorange += r.uniform(100, 5000);
  gnss_solution so;
  dops_t d;
  gnss_sid_set_t rm;
  memset(&so, 0, sizeof so), memset(&d, 0, sizeof d), memset(&rm, 0, sizeof rm);
  obs_mask_config_t mask = pvt::no_mask();
  s8 ret = calc_PVT(static_cast<u8>(m.size()), m.data(), &s.tor, r.coin(0.2), r.coin(0.2), &mask, r.pick<enum processing_strategy_t>({ALL_CONSTELLATIONS, GPS_ONLY, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY}), &so, &d, &rm);
  o.add(static_cast<uint64_t>(ret));
  o.pvt++;
  o.add(so.valid), o.v3(so.pos_ecef), o.v3(so.vel_ecef), o.d(so.clock_offset), o.d(d.gdop), o.d(d.pdop), o.add(sid_set_get_sig_count(&rm)), o.add(so.n_sigs_used);
  o.pvt_ok += ret >= 0;
  if (m.size() > 1) o.add(static_cast<uint64_t>(nav_meas_cmp(&m[0], &m[1]))), o.add(nav_meas_equal(&m[0], &m[1])), o.add(pseudorange_valid(&m[0])), o.d(nav_meas_cor_sat_clk_on_pseudorange(&m[0]));
}
}  // namespace work
#endif
