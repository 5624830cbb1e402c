/* Still more units of work (see work.h, work2.h): every other public function that takes its state from its arguments. */
#ifndef VERIF_WORK3_H
#define VERIF_WORK3_H
#include "work2.h"
#include <swiftnav/array_tools.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/swift_strnlen.h>
namespace work {
inline void tm_out(Out &o, const utc_tm &m) { o.add(m.year), o.add(m.year_day), o.add(m.month), o.add(m.month_day), o.add(m.week_day), o.add(m.hour), o.add(m.minute), o.add(m.second_int), o.d(m.second_frac); }
inline void calendar(Rng &r, Out &o, Meas *) {
  for (int i = 0; i < 4; i++) {
    double mjd = r.uniform(44300, 120000);
    tm_out(o, mjd2utc(mjd));
    s32 y = static_cast<s32>(r.range(1981, 2160)), mo = static_cast<s32>(r.range(1, 12)), d = static_cast<s32>(r.range(1, 28)), h = static_cast<s32>(r.range(0, 23)), mi = static_cast<s32>(r.range(0, 59));
    utc_tm u = date2utc(y, mo, d, h, mi, r.uniform(0, 59.9));
    tm_out(o, u);
    double s;
    utc2date(&u, &y, &mo, &d, &h, &mi, &s);
    o.add(static_cast<uint64_t>(y)), o.add(static_cast<uint64_t>(d)), o.d(s);
    utc_params_t p;
    memset(&p, 0, sizeof p);
    p.tot = tref::mk(static_cast<int>(r.range(2000, 2400)), 0), p.t_lse = tref::mk(static_cast<int>(r.range(2000, 2400)), 86400.0 * static_cast<double>(r.range(1, 6)));
    p.dt_ls = static_cast<s8>(r.range(15, 20)), p.dt_lsf = static_cast<s8>(p.dt_ls + r.range(0, 1));
    p.a0 = r.uniform(-1e-8, 1e-8), p.a1 = r.uniform(-1e-14, 1e-14);
    const utc_params_t *q = r.coin() ? &p : nullptr;
    o.t(mjd2gps_params(mjd, q)), o.t(date2gps_params(y, mo, d, h, mi, s, q));
    gps_time_t t = tref::mk(static_cast<int>(r.range(1900, 2500)), r.uniform(0, 604800));
    gps2date_params(&t, &y, &mo, &d, &h, &mi, &s, q);
    o.add(static_cast<uint64_t>(y)), o.add(static_cast<uint64_t>(d)), o.d(s), o.d(gps2mjd_params(&t, q));
    o.add(is_leap_year(y));
    gps_time_t a = t, b = t, k = {t.tow + r.uniform(-2e6, 2e6), t.wn};
    add_secs(&a, r.uniform(-9e5, 9e5)), add_secs(&b, r.uniform(-9e5, 9e5));
    o.add(gpstime_in_range(&a, &b, &t));
    gps_time_t k2 = k, k3 = k;
    normalize_gps_time(&k), unsafe_normalize_gps_time(&k2), o.add(normalize_gps_time_safe(&k3));
    o.t(k), o.t(k2), o.t(k3);
    gps_time_duration_t du = {r.uniform(-2e6, 2e6), static_cast<s16>(r.range(-5, 5))};
    normalize_gps_time_duration(&du);
    o.d(du.seconds), o.add(static_cast<uint64_t>(du.weeks));
    gps_time_t w = {r.uniform(0, 604799), WN_UNKNOWN};
    gps_time_match_weeks(&w, &t);
    o.t(w);
    time_t ut = static_cast<time_t>(r.range(0, 4000000000));
    o.add(unix_time_valid_with_wn_ref(&ut, static_cast<u16>(r.range(0, 3000))));
    o.add(ephemeris_params_valid(&a, &b, &k, &t));
    o.add(decode_fit_interval(static_cast<u8>(r.range(0, 1)), static_cast<u16>(r.range(0, 1023))));
    o.f(decode_sisa_index(static_cast<u8>(r.range(0, 255)))), o.f(decode_bds_ura_index(static_cast<u8>(r.range(0, 15))));
  }
}
inline void identity(Rng &r, Out &o, Meas *) {
  std::vector<gnss_signal_t> v;
  for (int i = 0; i < 12; i++) {
    const gnss::SigPlan &p = r.pick(gnss::plan());
    const gnss::ConsPlan &k = gnss::cons_of(p.cons);
    u16 idx = static_cast<u16>(r.range(0, k.count - 1));
    gnss_signal_t s = sid_from_code_index(p.code, idx);
    v.push_back(s);
    o.add(s.sat), o.add(static_cast<uint64_t>(s.code)), o.add(sid_to_code_index(s));
    if (p.chips) o.d(code_to_chip_rate(p.code));
    o.add(static_cast<uint64_t>(code_to_constellation(p.code))), o.add(constellation_valid(p.cons)), o.add(constellation_to_sat_count(p.cons)), o.add(code_valid(p.code));
    o.add(static_cast<uint64_t>(char_to_constellation(constellation_to_char(p.cons)))), o.add(static_cast<uint64_t>(constellation_to_l1_code(p.cons))), o.add(static_cast<uint64_t>(constellation_to_l5_code(p.cons)));
    o.add(static_cast<uint64_t>(sid_to_l1_code(s))), o.add(static_cast<uint64_t>(sid_to_l5_code(s)));
    o.add(is_gps(p.code)), o.add(is_sbas(p.code)), o.add(is_glo(p.code)), o.add(is_bds2(p.code)), o.add(is_gal(p.code)), o.add(is_qzss(p.code));
    sub_constellation_t sc = static_cast<sub_constellation_t>(r.range(0, SUB_CONSTELLATION_COUNT - 1));
    o.str(sub_constellation_to_string(sc)), o.add(static_cast<uint64_t>(sub_constellation_string_to_enum(sub_constellation_to_string(sc)))), o.add(static_cast<uint64_t>(sub_constellation_to_constellation(sc)));
    o.add(check_alma_page25_health_word(static_cast<u8>(r.range(0, 63)), CODE_GPS_L1CA));
    o.add(glo_fcn_is_valid(static_cast<u16>(r.range(0, 20)))), o.add(glo_slot_id_is_valid(static_cast<u16>(r.range(0, 40)))), o.add(is_bias_mask_flag_set(static_cast<u8>(r.range(0, 15)), static_cast<u8>(1 << r.range(0, 3))));
  }
  for (size_t i = 1; i < v.size(); i++) o.add(static_cast<uint64_t>(sid_compare(v[i - 1], v[i]))), o.add(static_cast<uint64_t>(cmp_sid_sid(&v[i - 1], &v[i]))), o.add(sid_is_equal(v[i - 1], v[i]));
  o.add(is_sid_set(static_cast<u8>(v.size()), v.data()));
  o.add(get_max_channels()), o.add(static_cast<uint64_t>(get_geoid_model()));
  navigation_measurement_t m;
  memset(&m, 0, sizeof m);
  m.sid = v[0], m.sat_clock_err = r.uniform(-1e-3, 1e-3), m.sat_clock_err_rate = r.uniform(-1e-9, 1e-9), m.raw_carrier_phase = r.normal() * 1e8, m.raw_measured_doppler = r.normal() * 1e3, m.flags = static_cast<u16>(r.range(0, 127));
  o.d(nav_meas_cor_sat_clk_on_carrier_phase(&m)), o.d(nav_meas_cor_sat_clk_on_measured_doppler(&m)), o.add(nav_meas_flags_valid(m.flags)), o.add(not_l2p_sid(m));
  measurement_std_t a;
  memset(&a, 0, sizeof a);
  a.sid = v[0], a.iono_std = r.unit(), a.tropo_std = r.unit(), a.range_std = r.unit();
  measurement_std_t b = a;
  if (r.coin()) b.iono_std += 1;
  o.add(measurement_std_equal(&a, &b));
  u8 arr[20];
  u16 arw[20];
  for (int i = 0; i < 20; i++) arr[i] = static_cast<u8>(r.range(0, 60)), arw[i] = static_cast<u16>(r.range(0, 60));
  o.add(is_value_in_array(arr, 20, 7)), o.add(is_value_in_array_u16(arw, 20, 7)), o.add(swift_strnlen("abcdef", static_cast<size_t>(r.range(0, 9))));
  double x = r.normal();
  o.add(double_equal(x, x + r.normal() * 1e-12)), o.add(float_equal(1.0f, 1.0f + static_cast<float>(r.coin() ? 0 : 1e-5))), o.add(double_approx_eq(x, x + r.normal() * 1e-10)), o.add(double_within(x, x + r.normal(), 0.5));
}
inline void matrices(Rng &r, Out &o, Meas *) {
  u32 n = static_cast<u32>(r.range(2, 6)), m = n + static_cast<u32>(r.range(0, 3));
  std::vector<double> a(m * m), b(m * m), c(m * m), w(m), x(m);
  std::vector<s32> ai(m * m), bi(m * m), ci(m * m);
  std::vector<s64> al(m * m), bl(m * m), cl(m * m);
  for (double &q : a) q = r.normal();
  for (double &q : b) q = r.normal();
  for (double &q : w) q = r.uniform(0.5, 2);
  for (size_t i = 0; i < m * m; i++) ai[i] = static_cast<s32>(r.range(-1000, 1000)), bi[i] = static_cast<s32>(r.range(-1000, 1000)), al[i] = r.range(-100000, 100000), bl[i] = r.range(-100000, 100000);
  auto all = [&](int ret, const std::vector<double> &v, size_t k) {
    o.add(static_cast<uint64_t>(ret));
    if (ret != 0) return;
    for (size_t i = 0; i < k; i++) o.d(v[i]);
  };
  matrix_add_sc(n, m, a.data(), b.data(), 0.7, c.data()), all(0, c, n * m);
  matrix_copy(n, m, a.data(), c.data()), all(0, c, n * m);
  matrix_eye(n, c.data()), all(0, c, n * n);
  matrix_copy(n, n, a.data(), c.data()), matrix_triu(n, c.data()), all(0, c, n * n);
  matrix_copy(n, m, a.data(), c.data()), matrix_multiply_diag_right(n, m, c.data(), w.data()), all(0, c, n * m);
  matrix_multiply_i(n, m, n, ai.data(), bi.data(), ci.data());
  for (size_t i = 0; i < n * n; i++) o.add(static_cast<uint64_t>(ci[i]));
  matrix_multiply_s64(n, m, n, al.data(), bl.data(), cl.data());
  for (size_t i = 0; i < n * n; i++) o.add(static_cast<uint64_t>(cl[i]));
  std::vector<u32> rows, cols;
  for (u32 i = 0; i < n; i++) rows.push_back(static_cast<u32>(r.range(0, m - 1))), cols.push_back(static_cast<u32>(r.range(0, m - 1)));
  submatrix(n, n, m, a.data(), rows.data(), cols.data(), c.data()), all(0, c, n * n);
  submatrix_ul(n, n, m, a.data(), c.data()), all(0, c, n * n);
  all(matrix_ataiat(m, n, a.data(), c.data()), c, n * m);
  all(matrix_ataati(n, m, a.data(), c.data()), c, n * m);
  all(matrix_atawati(n, m, a.data(), w.data(), c.data()), c, n * m);
  std::vector<double> qt(n * n), rr(n * n);
  s32 q = qrdecomp_square(a.data(), n, qt.data(), rr.data());
  all(q, qt, n * n), all(q, rr, n * n);
  if (q == 0) qtmult(qt.data(), n, w.data(), x.data()), all(0, x, n), rsolve(rr.data(), n, n, x.data(), c.data()), all(0, c, n);
  std::vector<double> U(n * n), D(n), M(n * n);
  matrix_eye(n, U.data());
  for (u32 i = 0; i < n; i++)
    for (u32 j = i + 1; j < n; j++) U[i * n + j] = r.normal();
  for (double &d : D) d = r.uniform(0.1, 3);
  matrix_reconstruct_udu(n, U.data(), D.data(), M.data()), all(0, M, n * n);
  vector_add_sc(m, a.data(), b.data(), -2.5, x.data()), all(0, x, m);
  vector_add(m, a.data(), b.data(), x.data()), all(0, x, m);
  vector_subtract(m, a.data(), b.data(), x.data()), all(0, x, m);
  vector_normalize(m, x.data()), all(0, x, m);
  o.d(vector_distance(m, a.data(), b.data()));
  double l[3] = {r.uniform(-1.5, 1.5), r.uniform(-3, 3), r.uniform(0, 1000)}, dg[3], rd[3], M3[3][3], e[3], out[3];
  llhrad2deg(l, dg), llhdeg2rad(dg, rd);
  o.v3(dg), o.v3(rd);
  wgs_ecef2ned_matrix(l, M3);
  for (auto &row : M3) o.v3(row);
  wgsllh2ecef(l, e);
  double nd[3] = {r.normal(), r.normal(), r.normal()};
  wgsned2ecef(nd, e, out);
  o.v3(out);
}
inline void streams(Rng &r, Out &o, Meas *) {
  mon::Buf<u8> b(48), d(48);
  r.bytes(b.p, 48);
  memset(d.p, 0, 48);
  for (int i = 0; i < 12; i++) {
    u8 n = static_cast<u8>(r.range(1, 64));
    u32 pos = static_cast<u32>(r.range(0, 384 - n));
    o.add(getbitul(b.p, pos, n)), o.add(static_cast<uint64_t>(getbitsl(b.p, pos, n)));
    setbitul(d.p, pos, n, r.u64() >> (64 - n)), setbitsl(d.p, pos, n, n == 1 ? 0 : r.range(0, 1));
    u8 k = static_cast<u8>(r.range(1, 32));
    setbits(d.p, static_cast<u32>(r.range(0, 384 - k)), k, 0);
  }
  swiftnav_bytestream_t s;
  memset(&s, 0, sizeof s);
  swiftnav_bytestream_init(&s, b.p, 48);
  s.endianess = r.coin() ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
  for (int i = 0; i < 20; i++) {
    u8 a1 = 0;
    s8 a2 = 0;
    u16 a3 = 0;
    s16 a4 = 0;
    u32 a5 = 0;
    s32 a6 = 0;
    u64 a7 = 0;
    s64 a8 = 0;
    switch (r.range(0, 8)) {
      case 0: o.add(swiftnav_bytestream_decode_u8(&s, &a1)); break;
      case 1: o.add(swiftnav_bytestream_decode_s8(&s, &a2)); break;
      case 2: o.add(swiftnav_bytestream_decode_u16(&s, &a3)); break;
      case 3: o.add(swiftnav_bytestream_decode_s16(&s, &a4)); break;
      case 4: o.add(swiftnav_bytestream_decode_u32(&s, &a5)); break;
      case 5: o.add(swiftnav_bytestream_decode_s32(&s, &a6)); break;
      case 6: o.add(swiftnav_bytestream_decode_u64(&s, &a7)); break;
      case 7: o.add(swiftnav_bytestream_decode_s64(&s, &a8)); break;
      default: swiftnav_bytestream_remove(&s, static_cast<u32>(r.range(0, 3)));
    }
    o.add(a1), o.add(static_cast<uint64_t>(a2)), o.add(a3), o.add(static_cast<uint64_t>(a4)), o.add(a5), o.add(static_cast<uint64_t>(a6)), o.add(a7), o.add(static_cast<uint64_t>(a8));
    o.add(swiftnav_bytestream_remaining(&s)), o.add(swiftnav_bytestream_would_overflow(&s, 0, 4));
  }
  swiftnav_in_bitstream_t in;
  swiftnav_out_bitstream_t out;
  swiftnav_in_bitstream_init(&in, b.p, 384);
  swiftnav_out_bitstream_init(&out, d.p, 384);
  for (int i = 0; i < 20; i++) {
    u32 n = static_cast<u32>(r.range(1, 32)), pos = static_cast<u32>(r.range(0, 12)), u = 0;
    s32 v = 0;
    u64 ul = 0;
    s64 vl = 0;
    o.add(swiftnav_in_bitstream_getbitu(&in, &u, pos, n)), o.add(swiftnav_in_bitstream_getbits(&in, &v, pos, n)), o.add(swiftnav_in_bitstream_getbitul(&in, &ul, pos, n + 20)), o.add(swiftnav_in_bitstream_getbitsl(&in, &vl, pos, n + 20));
    o.add(u), o.add(static_cast<uint64_t>(v)), o.add(ul), o.add(static_cast<uint64_t>(vl));
    o.add(swiftnav_in_bitstream_would_overflow(&in, pos, n)), o.add(swiftnav_out_bitstream_would_overflow(&out, pos, n));
    switch (r.range(0, 3)) {
      case 0: o.add(swiftnav_out_bitstream_setbitu(&out, &u, pos, n)); break;
      case 1: o.add(swiftnav_out_bitstream_setbits(&out, &v, pos, n)); break;
      case 2: o.add(swiftnav_out_bitstream_setbitul(&out, &ul, pos, n + 20)); break;
      default: o.add(swiftnav_out_bitstream_setbitsl(&out, &vl, pos, n + 20));
    }
    swiftnav_in_bitstream_remove(&in, n), swiftnav_out_bitstream_remove(&out, n);
    o.add(swiftnav_in_bitstream_remaining(&in)), o.add(swiftnav_out_bitstream_remaining(&out));
  }
  o.add(mon::hbytes(d.p, 48));
  u64 q = r.u64();
  o.add(htobe_16(static_cast<u16>(q))), o.add(htole_16(static_cast<u16>(q))), o.add(htobe_32(static_cast<u32>(q))), o.add(htole_32(static_cast<u32>(q))), o.add(htobe_64(q)), o.add(htole_64(q)), o.add(betoh_64(q)), o.add(byte_swap_64(q));
  o.add(bytes_interleave(static_cast<u8>(q), static_cast<u8>(q >> 8))), o.add(count_bits_u8(static_cast<u8>(q), 1)), o.add(count_bits_u16(static_cast<u16>(q), 0)), o.add(count_bits_u32(static_cast<u32>(q), 1));
  mon::Buf<u8> fb(64);
  fifo_t f;
  fifo_init(&f, fb.p, 64);
  u8 tmp[64];
  for (int i = 0; i < 20; i++) {
    memset(tmp, 0, sizeof tmp);
    fifo_size_t k = static_cast<fifo_size_t>(r.range(0, 40));
    if (r.coin()) o.add(fifo_write(&f, b.p, k));
    else if (r.coin()) o.add(fifo_read(&f, tmp, k));
    else if (r.coin()) o.add(fifo_peek(&f, tmp, k));
    else o.add(fifo_remove(&f, k));
    o.add(mon::hbytes(tmp, 64)), o.add(fifo_length(&f)), o.add(fifo_space(&f));
  }
  std::vector<s32> v(20), w(20), x(21);
  s32 k = 0;
  for (s32 &e : v) e = k += static_cast<s32>(r.range(1, 4));
  k = 0;
  for (s32 &e : w) e = k += static_cast<s32>(r.range(1, 4));
  u32 cnt = insert_element(20, sizeof(s32), v.data(), x.data(), &w[5], cmp_s32_s32);
  o.add(cnt);
  for (u32 i = 0; i < cnt; i++) o.add(static_cast<uint64_t>(x[i]));
  cnt = remove_element(20, sizeof(s32), v.data(), x.data(), &w[9], cmp_s32_s32);
  o.add(cnt);
  for (u32 i = 0; i < cnt; i++) o.add(static_cast<uint64_t>(x[i]));
  u64 acc = 0;
  o.add(static_cast<uint64_t>(intersection_map(20, sizeof(s32), v.data(), 20, sizeof(s32), w.data(), cmp_s32_s32, &acc, [](void *ctx, u32 i, const void *p, const void *) {
    u64 *h = static_cast<u64 *>(ctx);
    *h = *h * 31 + i + static_cast<u64>(*static_cast<const s32 *>(p));
  })));
  o.add(acc);
  char path[64];
  snprintf(path, sizeof path, "/a/b/c%d/src/file.c", static_cast<int>(r.range(0, 99)));
  (void)path;
}
inline bool even_or_few(gnss_signal_t s, gnss_sid_set_t used, u8 ns) { return s.sat % 2 == 0 || sid_set_get_sat_count(&used) < ns + 5u; }
inline void selective(Rng &r, Out &o, Meas *) {
  pvt::Opt q;
  q.cons = pvt::gen_cons(r);
  q.n = static_cast<int>(r.range(6, 14));
  pvt::Sim s;
  pvt::gen_truth(r, q, s);
  pvt::gen_sats(r, q, s);
  std::vector<navigation_measurement_t> m;
  for (auto &g : s.s) m.push_back(g.m);
  gnss_solution so;
  dops_t d;
  gnss_sid_set_t rm;
  memset(&so, 0, sizeof so), memset(&d, 0, sizeof d), memset(&rm, 0, sizeof rm);
  obs_mask_config_t mask = pvt::no_mask();
  if (r.coin()) mask.cn0_mask.enable = true, mask.cn0_mask.threshold_dbhz = 30;
  s8 ret = calc_PVT_pred(static_cast<u8>(m.size()), m.data(), &s.tor, r.coin(), r.coin(), &mask, even_or_few, &so, &d, &rm);
  o.add(static_cast<uint64_t>(ret)), o.v3(so.pos_ecef), o.v3(so.vel_ecef), o.d(d.gdop), o.add(so.n_sigs_used);
}
/* GLONASS strings one at a time, partly filled ephemerides */
inline void strings(Rng &r, Out &o, Meas *) {
  mon::Buf<ephemeris_t> e(1);
  memset(e.p, 0, sizeof(ephemeris_t));
  e.p->sid = gnss::sid(CODE_GLO_L1OF, static_cast<unsigned>(r.range(1, 28)));
  glo_time_t tk, toe;
  memset(&tk, 0, sizeof tk), memset(&toe, 0, sizeof toe);
  for (int i = 0; i < 5; i++) {
    nav::GloBits b;
    for (int k = 9; k <= 84; k++) b.b[k] = r.coin();
    b.put(81, 4, static_cast<uint64_t>(i + 1));
    b.seal();
    glo_string_t s;
    b.words(s.word);
    u8 age = 0;
    float tau = 0;
    bool ok = i == 0 ? decode_glo_string_1(&s, e.p, &tk) : i == 1 ? decode_glo_string_2(&s, e.p, &toe) : i == 2 ? decode_glo_string_3(&s, e.p, &toe) : i == 3 ? decode_glo_string_4(&s, e.p, &tk, &toe, &age) : decode_glo_string_5(&s, e.p, &tk, &toe, &tau);
    o.add(ok), o.add(age), o.f(tau), o.add(toe.h), o.add(toe.m), o.add(tk.h), o.add(tk.m);
    o.v3(e.p->data.glo.pos), o.v3(e.p->data.glo.vel), o.v3(e.p->data.glo.acc), o.d(e.p->data.glo.gamma), o.d(e.p->data.glo.tau), o.add(e.p->health_bits);
  }
}
}  // namespace work
#endif
