/* Simulated broadcast: realistic orbits drawn as the integers of the navigation messages, their exact motion
 * (independent models), and the messages themselves built bit by bit. */
#ifndef VERIF_BCAST_H
#define VERIF_BCAST_H
#include "nav.h"
#include "orbit.h"
namespace bcast {
using mon::Rng;
using orbit::ld;
enum F { SQA, ECC, INC, OM0, W_, M0, DN, OMD, IDOT, CUC, CUS, CRC, CRS, CIC, CIS, AF0, AF1, AF2, NF };
struct Scale {
  int n;
  bool sgn;
  int exp;
  bool pi;
};
inline const Scale *scales(constellation_t c) {
  static const Scale gps[NF] = {{32, false, -19, false}, {32, false, -33, false}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {16, true, -43, true}, {24, true, -43, true}, {14, true, -43, true},
                                {16, true, -29, false}, {16, true, -29, false}, {16, true, -5, false}, {16, true, -5, false}, {16, true, -29, false}, {16, true, -29, false}, {22, true, -31, false}, {16, true, -43, false}, {8, true, -55, false}};
  static const Scale gal[NF] = {{32, false, -19, false}, {32, false, -33, false}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {16, true, -43, true}, {24, true, -43, true}, {14, true, -43, true},
                                {16, true, -29, false}, {16, true, -29, false}, {16, true, -5, false}, {16, true, -5, false}, {16, true, -29, false}, {16, true, -29, false}, {31, true, -34, false}, {21, true, -46, false}, {6, true, -59, false}};
  static const Scale bds[NF] = {{32, false, -19, false}, {32, false, -33, false}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {32, true, -31, true}, {16, true, -43, true}, {24, true, -43, true}, {14, true, -43, true},
                                {18, true, -31, false}, {18, true, -31, false}, {18, true, -6, false}, {18, true, -6, false}, {18, true, -31, false}, {18, true, -31, false}, {24, true, -33, false}, {22, true, -50, false}, {11, true, -66, false}};
  return c == CONSTELLATION_BDS ? bds : c == CONSTELLATION_GAL ? gal : gps;
}
/* seconds from t0 to t, both week/tow */
inline ld secs_from(const gps_time_t &t0, const gps_time_t &t) { return (static_cast<ld>(t.wn) - t0.wn) * 604800 + (static_cast<ld>(t.tow) - t0.tow); }

struct Sat {
  constellation_t cons;
  satellite_orbit_type_t type;
  ephemeris_t tr;  /* the intended meaning of the message, from the encoded integers */
  ephemeris_t dec; /* what the library decoded */
  int64_t x[NF], tgd[2], toe, toc, iod; /* toe, toc in message units, system time */
  ld toe_off, toc_off;             /* seconds after t0 */
  int64_t gpos[3], gvel[3], gacc[3], gam, tau, dtau, tb;
  int glo_nt, glo_n4;
  bool healthy = true;
  ld y[6], y_at; /* GLONASS state cached at this satellite-clock-corrected time after t0 */
  bool cached = false;

  ld glo_clk(ld t) const {
    return -static_cast<ld>(tr.data.glo.tau) + static_cast<ld>(tr.data.glo.gamma) * (t - toe_off) - orbit::group_delay(tr, tr.sid);
  }
  /* position and total clock offset when the satellite's clock shows t0 + t */
  void at(ld t, ld pos[3], ld *clk) {
    if (cons == CONSTELLATION_GLO) {
      *clk = glo_clk(t);
      ld tt = t - *clk;
      if (!cached) {
        for (int i = 0; i < 3; i++) y[i] = tr.data.glo.pos[i], y[3 + i] = tr.data.glo.vel[i];
        orbit::glo_integrate(y, tr.data.glo.acc, tt - toe_off);
        y_at = tt, cached = true;
      }
      ld z[6];
      for (int i = 0; i < 6; i++) z[i] = y[i];
      if (tt != y_at) orbit::glo_integrate(z, tr.data.glo.acc, tt - y_at);
      for (int i = 0; i < 3; i++) pos[i] = z[i];
      return;
    }
    orbit::State s = orbit::kepler(tr, t - toe_off, t - toc_off, type == GEO);
    for (int i = 0; i < 3; i++) pos[i] = s.pos[i];
    *clk = s.clk + s.einstein;
  }
};
inline int64_t quant(const Scale &s, double v) {
  ld u = v / nav::scaled(1, s.exp, s.pi);
  ld hi = s.sgn ? ldexpl(1, s.n - 1) - 1 : ldexpl(1, s.n) - 1, lo = s.sgn ? -ldexpl(1, s.n - 1) : 0;
  u = fminl(hi, fmaxl(lo, roundl(u)));
  return static_cast<int64_t>(u);
}
/* draw an orbit whose reference time suits reception at t0 */
inline Sat draw(Rng &r, constellation_t cons, unsigned sat, code_t code, const gps_time_t &t0) {
  Sat s;
  memset(static_cast<void *>(&s), 0, sizeof s);
  s.cons = cons, s.type = MEO, s.healthy = true;
  s.tr.sid = gnss::sid(code, sat);
  s.tr.valid = 1;
  auto wrap = [](int64_t v, int64_t m) { return ((v % m) + m) % m; };
  if (cons == CONSTELLATION_GLO) {
    orbit::Gen g = orbit::gen_glo(r);
    for (int i = 0; i < 3; i++) {
      s.gpos[i] = llround(g.e.data.glo.pos[i] / 1000 * 2048), s.gvel[i] = llround(g.e.data.glo.vel[i] / 1000 * 1048576), s.gacc[i] = llround(g.e.data.glo.acc[i] / 1000 * 1073741824.0);
      s.tr.data.glo.pos[i] = static_cast<double>(ldexpl(s.gpos[i] * 1000, -11)), s.tr.data.glo.vel[i] = static_cast<double>(ldexpl(s.gvel[i] * 1000, -20)), s.tr.data.glo.acc[i] = static_cast<double>(ldexpl(s.gacc[i] * 1000, -30));
    }
    s.gam = r.coin(0.3) ? r.range(-1000, 1000) : r.range(-12, 12), s.tau = r.range(-1000000, 1000000), s.dtau = r.range(-15, 15);
    s.tr.data.glo.gamma = static_cast<double>(ldexpl(s.gam, -40)), s.tr.data.glo.tau = static_cast<double>(ldexpl(s.tau, -30)), s.tr.data.glo.d_tau = static_cast<double>(ldexpl(s.dtau, -30));
    /* quarter-hour instants of the Moscow day (UTC + 3 h, 18 s behind GPS), the nearest or the one before */
    int64_t utc = static_cast<int64_t>(t0.wn) * 604800 + static_cast<int64_t>(t0.tow) - 18, msk = utc + 10800;
    int64_t q = (msk + 450) / 900;
    if (r.coin(0.5)) q = (msk + (r.coin() ? 1050 : -150)) / 900; /* up to 17.5 minutes away */
    if (q % 96 == 0) q += msk > q * 900 ? 1 : -1; /* no instant is numbered 0 */
    s.tb = q % 96;
    int day = static_cast<int>(q / 96);
    tref::Date d = tref::date_of(day);
    s.glo_n4 = (d.y - 1996) / 4 + 1;
    s.glo_nt = day - tref::day_of(1996 + 4 * (s.glo_n4 - 1), 1, 1) + 1;
    s.toe_off = static_cast<ld>(q * 900 - 10800 + 18 - static_cast<int64_t>(t0.wn) * 604800) - static_cast<ld>(t0.tow);
    return s;
  }
  bool bds = cons == CONSTELLATION_BDS, gal = cons == CONSTELLATION_GAL, qzs = cons == CONSTELLATION_QZS;
  orbit::Gen g = orbit::gen_kepler(r, cons);
  const ephemeris_kepler_t &k = g.e.data.kepler;
  s.type = g.type;
  double v[NF] = {k.sqrta, qzs ? r.uniform(0.05, 0.09) : k.ecc, k.inc, k.omega0, k.w, k.m0, k.dn, k.omegadot, k.inc_dot, k.cuc, k.cus, k.crc, k.crs, k.cic, k.cis, k.af0 * 0.9, r.coin(0.3) ? r.uniform(-1.8e-9, 1.8e-9) : k.af1, k.af2};
  const Scale *sc = scales(cons);
  ephemeris_kepler_t &q = s.tr.data.kepler;
  double *out[NF] = {&q.sqrta, &q.ecc, &q.inc, &q.omega0, &q.w, &q.m0, &q.dn, &q.omegadot, &q.inc_dot, &q.cuc, &q.cus, &q.crc, &q.crs, &q.cic, &q.cis, &q.af0, &q.af1, &q.af2};
  for (int f = 0; f < NF; f++) {
    s.x[f] = quant(sc[f], v[f]);
    *out[f] = static_cast<double>(nav::scaled(s.x[f], sc[f].exp, sc[f].pi));
  }
  int unit = bds ? 8 : gal ? 60 : 16;
  /* now, in the system's time of week */
  int64_t now = static_cast<int64_t>(floor(t0.tow)) - (bds ? 14 : 0), lead;
  if (bds) lead = r.coin(0.7) ? -r.range(60, 3600) : -r.range(30, 10000);
  else if (gal) lead = r.coin(0.7) ? -r.range(600, 5400) : -r.range(60, 14000);
  else lead = r.coin(0.7) ? r.range(-3600, 5400) : r.range(-7000, 7000);
  int64_t toe = (now + lead) / unit; /* may be negative or beyond the week: unit divides the week */
  if (now + lead < 0) toe = -((-(now + lead) + unit - 1) / unit);
  int64_t per = 604800 / unit;
  s.toe = wrap(toe, per);
  s.toc = s.toe;
  int64_t toc = toe;
  if (r.coin(0.2)) {
    int64_t d = r.range(1, 3000 / unit);
    if (!bds && !gal && r.coin()) d = -d;
    if (s.toe + d >= 0 && s.toe + d < per) s.toc = s.toe + d, toc = toe + d; /* same week */
  }
  s.toe_off = static_cast<ld>(toe * unit + (bds ? 14 : 0)) - static_cast<ld>(t0.tow);
  s.toc_off = static_cast<ld>(toc * unit + (bds ? 14 : 0)) - static_cast<ld>(t0.tow);
  s.tr.toe = tref::mk(t0.wn, 0);
  int64_t gt = toe * unit + (bds ? 14 : 0);
  s.tr.toe = orbit::at(s.tr.toe, static_cast<double>(gt));
  for (int i = 0; i < 2; i++) s.tgd[i] = bds ? r.range(-300, 300) : gal ? r.range(-250, 250) : r.range(-120, 120);
  if (bds) q.tgd.bds_s[0] = static_cast<float>(s.tgd[0]) * 1e-10f, q.tgd.bds_s[1] = static_cast<float>(s.tgd[1]) * 1e-10f;
  else if (gal) q.tgd.gal_s[0] = static_cast<float>(ldexpl(s.tgd[0], -32)), q.tgd.gal_s[1] = static_cast<float>(ldexpl(s.tgd[1], -32));
  else q.tgd.gps_s[0] = static_cast<float>(ldexpl(s.tgd[0], -31)), q.tgd.gps_s[1] = 0;
  s.iod = gal ? r.range(0, 1023) : r.range(0, 255);
  return s;
}
inline void place(u32 *w, size_t stride, std::initializer_list<nav::Piece> ps, int64_t v) {
  int total = 0;
  for (auto &p : ps) total += p.n;
  for (auto &p : ps) {
    total -= p.n;
    nav::put30(w + static_cast<size_t>(p.row - 1) * stride + (p.word - 1), p.first, p.n, static_cast<uint64_t>(v) >> total);
  }
}
/* the message, sent `age` seconds before t0, decoded by the library into s.dec.  Returns what the decoder says. */
inline bool broadcast(Rng &r, Sat &s, const gps_time_t &t0, double age, const utc_params_t *up) {
  memset(static_cast<void *>(&s.dec), r.pick<int>({0, 0xff, 0xa5}), sizeof s.dec);
  gps_time_t sent = orbit::at(t0, -age);
  const int64_t *x = s.x;
  switch (s.cons) {
    case CONSTELLATION_GPS: case CONSTELLATION_QZS: {
      u32 w[3][8];
      r.bytes(w, sizeof w);
      auto put = [&](int sf, int word, int first, int n, int64_t v) { nav::put30(&w[sf - 1][word - 3], first, n, static_cast<uint64_t>(v)); };
      int64_t iodc = s.iod | (r.range(0, 3) << 8);
      put(1, 3, 1, 10, sent.wn % 1024); put(1, 3, 13, 4, 0); put(1, 3, 17, 6, s.healthy ? 0 : r.pick<int64_t>({60, 63})); put(1, 3, 23, 2, iodc >> 8); put(1, 7, 17, 8, s.tgd[0]); put(1, 8, 1, 8, iodc & 255);
      put(1, 8, 9, 16, s.toc); put(1, 9, 1, 8, x[AF2]); put(1, 9, 9, 16, x[AF1]); put(1, 10, 1, 22, x[AF0]);
      put(2, 3, 1, 8, s.iod); put(2, 3, 9, 16, x[CRS]); put(2, 4, 1, 16, x[DN]); put(2, 4, 17, 8, x[M0] >> 24); put(2, 5, 1, 24, x[M0]); put(2, 6, 1, 16, x[CUC]); put(2, 6, 17, 8, x[ECC] >> 24); put(2, 7, 1, 24, x[ECC]);
      put(2, 8, 1, 16, x[CUS]); put(2, 8, 17, 8, x[SQA] >> 24); put(2, 9, 1, 24, x[SQA]); put(2, 10, 1, 16, s.toe); put(2, 10, 17, 1, 0);
      put(3, 3, 1, 16, x[CIC]); put(3, 3, 17, 8, x[OM0] >> 24); put(3, 4, 1, 24, x[OM0]); put(3, 5, 1, 16, x[CIS]); put(3, 5, 17, 8, x[INC] >> 24); put(3, 6, 1, 24, x[INC]); put(3, 7, 1, 16, x[CRC]);
      put(3, 7, 17, 8, x[W_] >> 24); put(3, 8, 1, 24, x[W_]); put(3, 9, 1, 24, x[OMD]); put(3, 10, 1, 8, s.iod); put(3, 10, 9, 14, x[IDOT]);
      s.dec.sid = s.tr.sid;
      decode_ephemeris_with_wn_ref(w, &s.dec, sent.tow, static_cast<u16>(sent.wn - r.range(0, 1000)));
      return s.dec.valid != 0;
    }
    case CONSTELLATION_GAL: {
      u8 p[5][GAL_INAV_CONTENT_BYTE];
      r.bytes(p, sizeof p);
      auto g = [&](int page, int off, int n, int64_t v) { nav::putb(p[page], off, n, static_cast<uint64_t>(v)); };
      for (int i = 0; i < 4; i++) g(i, 6, 10, s.iod);
      g(0, 16, 14, s.toe); g(0, 30, 32, x[M0]); g(0, 62, 32, x[ECC]); g(0, 94, 32, x[SQA]);
      g(1, 16, 32, x[OM0]); g(1, 48, 32, x[INC]); g(1, 80, 32, x[W_]); g(1, 112, 14, x[IDOT]);
      g(2, 16, 24, x[OMD]); g(2, 40, 16, x[DN]); g(2, 56, 16, x[CUC]); g(2, 72, 16, x[CUS]); g(2, 88, 16, x[CRC]); g(2, 104, 16, x[CRS]); g(2, 120, 8, 107);
      g(3, 16, 6, s.tr.sid.sat); g(3, 22, 16, x[CIC]); g(3, 38, 16, x[CIS]); g(3, 54, 14, s.toc); g(3, 68, 31, x[AF0]); g(3, 99, 21, x[AF1]); g(3, 120, 6, x[AF2]);
      g(4, 47, 10, s.tgd[0]); g(4, 57, 10, s.tgd[1]); g(4, 67, 2, s.healthy ? 0 : 1); g(4, 69, 2, s.healthy ? 0 : 3);
      g(4, 73, 12, sent.wn - 1024); g(4, 85, 20, static_cast<int64_t>(floor(sent.tow)));
      s.dec.health_bits = 0; /* the caller's, like the signal: the decoder judges health through valid */
      bool ok = decode_gal_ephemeris_safe(p, &s.dec);
      s.dec.sid.code = s.tr.sid.code; /* evaluated for the tracked signal */
      return ok;
    }
    case CONSTELLATION_BDS: {
      u32 w[3][10];
      r.bytes(w, sizeof w);
      auto put = [&](std::initializer_list<nav::Piece> ps, int64_t v) { place(&w[0][0], 10, ps, v); };
      put({{2, 2, 13, 10}, {2, 3, 1, 6}}, x[DN]); put({{2, 3, 7, 16}, {2, 4, 1, 2}}, x[CUC]); put({{2, 4, 3, 20}, {2, 5, 1, 12}}, x[M0]); put({{2, 5, 13, 10}, {2, 6, 1, 22}}, x[ECC]); put({{2, 7, 1, 18}}, x[CUS]);
      put({{2, 7, 19, 4}, {2, 8, 1, 14}}, x[CRC]); put({{2, 8, 15, 8}, {2, 9, 1, 10}}, x[CRS]); put({{2, 9, 11, 12}, {2, 10, 1, 20}}, x[SQA]); put({{3, 3, 6, 17}, {3, 4, 1, 15}}, x[INC]);
      put({{3, 4, 16, 7}, {3, 5, 1, 11}}, x[CIC]); put({{3, 5, 12, 11}, {3, 6, 1, 13}}, x[OMD]); put({{3, 6, 14, 9}, {3, 7, 1, 9}}, x[CIS]); put({{3, 7, 10, 13}, {3, 8, 1, 1}}, x[IDOT]);
      put({{3, 8, 2, 21}, {3, 9, 1, 11}}, x[OM0]); put({{3, 9, 12, 11}, {3, 10, 1, 21}}, x[W_]); put({{1, 8, 5, 11}}, x[AF2]); put({{1, 8, 16, 7}, {1, 9, 1, 17}}, x[AF0]); put({{1, 9, 18, 5}, {1, 10, 1, 17}}, x[AF1]);
      put({{1, 2, 13, 1}}, s.healthy ? 0 : 1); put({{1, 2, 19, 4}}, 0);
      gps_time_t bdt = orbit::at(sent, -14);
      put({{1, 3, 1, 13}}, bdt.wn - 1356); put({{1, 3, 14, 9}, {1, 4, 1, 8}}, s.toc); put({{1, 4, 9, 10}}, s.tgd[0]); put({{1, 4, 19, 4}, {1, 5, 1, 6}}, s.tgd[1]); put({{2, 10, 21, 2}, {3, 2, 13, 10}, {3, 3, 1, 5}}, s.toe);
      decode_bds_d1_ephemeris(w, s.tr.sid, &s.dec);
      /* left to the caller: the reference week of a message sent in another week than its toe, and BDT -> GPS time */
      auto near = [&](gps_time_t &t) {
        double d = t.tow - bdt.tow;
        if (d > 302400) t.wn--;
        if (d < -302400) t.wn++;
        t.tow += BDS_SECOND_TO_GPS_SECOND;
        if (t.tow >= 604800) t.tow -= 604800, t.wn++;
      };
      near(s.dec.toe), near(s.dec.data.kepler.toc);
      s.dec.valid = 1;
      s.dec.fit_interval = 4 * 3600;
      return true;
    }
    default: {
      nav::GloBits b[5];
      for (int i = 0; i < 5; i++) {
        for (int k = 9; k <= 80; k++) b[i].b[k] = r.coin();
        b[i].put(81, 4, static_cast<uint64_t>(i + 1));
        b[i].b[85] = 0;
      }
      for (int i = 0; i < 3; i++) b[i].sm(9, 26, s.gpos[i]), b[i].sm(36, 4, s.gacc[i]), b[i].sm(41, 23, s.gvel[i]);
      auto u = [](int64_t v) { return static_cast<uint64_t>(v); };
      b[0].put(77, 2, 1), b[0].put(72, 5, u(r.range(0, 23))), b[0].put(66, 6, u(r.range(0, 59))), b[0].put(65, 1, 0);
      b[1].put(80, 1, s.healthy ? 0 : 1), b[1].put(78, 2, 0), b[1].put(70, 7, u(s.tb));
      b[2].sm(69, 10, s.gam), b[2].put(65, 1, 0);
      b[3].sm(59, 21, s.tau), b[3].sm(54, 4, s.dtau), b[3].put(49, 5, 0), b[3].put(30, 4, 2), b[3].put(16, 11, u(s.glo_nt)), b[3].put(11, 5, s.tr.sid.sat), b[3].put(9, 2, 1);
      b[4].put(32, 5, u(s.glo_n4)), b[4].sm(10, 21, 0);
      glo_string_t g[5];
      for (int i = 0; i < 5; i++) b[i].seal(), b[i].words(g[i].word);
      s.dec.fit_interval = 0;
      decode_glo_ephemeris(g, s.tr.sid, up, &s.dec);
      return s.dec.valid != 0;
    }
  }
}
}  // namespace bcast
#endif
