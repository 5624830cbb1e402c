// @run variant=asan shards=8
#include "gnss.h"
#include "nav.h"
#include "timeref.h"
#include <swiftnav/decode_glo.h>
#include <swiftnav/ephemeris.h>
using namespace mon;
using namespace nav;
using namespace tref;
RULE("frame: strings 1-5 built bit by bit (sign-magnitude fields incl. negative zero, check bits sealed) with every field over its full range or within limits, optional single defect (wrong string number, damaged check bits, one field beyond the interface document's limit), "
     "arbitrary previous output contents, broadcast UTC parameters or none: each string decoder and the whole-ephemeris decoder are judged. Non-trivial: every case; identity = the strings.");
NEED(valid_ephemerides, 20000);
NEED(refused_strings, 10000);
NEED(over_limit, 8000);
NEED(wrong_number, 3000);
NEED(damaged, 3000);
NEED(p1_zero, 5000);
NEED(unhealthy, 5000);

struct Frame {
  GloBits s[5];
  int64_t pos[3], vel[3], acc[3], p1, h, m, half, bmsb, bl, tb, gamma, l, tau, dtau, en, n, ft, nt, mm, n4, tgps;
};

SECTION(frame, 120000, 5000000) {
  Frame f;
  Rng &r = c.r;
  auto smag = [&](int64_t lim) {
    int64_t v = r.coin(0.3) ? r.edgy(0, lim) : r.range(0, lim);
    return r.coin() ? v : -v;
  };
  /* limits of the interface document in field units */
  const int64_t POS = 55296000, VEL = 4508876, ACC = 6, TGPS = 2040109;
  for (int i = 0; i < 3; i++) f.pos[i] = smag(POS), f.vel[i] = smag(VEL), f.acc[i] = smag(ACC);
  f.p1 = r.range(0, 3), f.h = r.range(0, 23), f.m = r.range(0, 59), f.half = r.range(0, 1), f.bmsb = r.coin(0.3), f.l = r.coin(0.3), f.bl = r.range(0, 3), f.tb = r.coin(0.3) ? r.pick<int64_t>({1, 95, 11, 12, 13}) : r.range(1, 95);
  f.gamma = smag(1023), f.tau = smag(2097151), f.dtau = smag(15), f.en = r.range(0, 31), f.n = r.range(1, 28), f.ft = r.range(0, 15), f.nt = r.coin(0.3) ? r.pick<int64_t>({1, 366, 367, 731, 732, 1096, 1097, 1461, 59, 60, 61}) : r.range(1, 1461);
  f.mm = r.range(0, 1), f.n4 = r.range(1, 26), f.tgps = smag(TGPS);
  /* one defect in a third of the cases */
  int defect = r.coin(0.35) ? static_cast<int>(r.range(1, 15)) : 0, axis = static_cast<int>(r.range(0, 2)), bad = -1;
  auto over = [&](int64_t lim, int64_t max) {
    int64_t v = r.coin(0.4) ? lim + 1 : r.range(lim + 1, max);
    return r.coin() ? v : -v;
  };
  bool numbers = false, checksum = false;
  switch (defect) {
    case 1: f.pos[axis] = over(POS, 67108863), bad = axis; break;
    case 2: f.vel[axis] = over(VEL, 8388607), bad = axis; break;
    case 3: f.acc[axis] = over(ACC, 15), bad = axis; break;
    case 4: f.h = r.range(24, 31), bad = 0; break;
    case 5: f.m = r.range(60, 63), bad = 0; break;
    case 6: f.tb = r.pick<int64_t>({0, 96, 97, 127}), bad = 1; break;
    case 7: f.n = r.pick<int64_t>({0, 29, 30, 31}), bad = 3; break;
    case 8: f.nt = r.range(1462, 2047), bad = 3; break;
    case 9: f.n4 = 0, bad = 4; break;
    case 10: f.tgps = over(TGPS, 2097151), bad = 4; break;
    case 11: case 12: bad = static_cast<int>(r.range(0, 4)), numbers = true; break;
    case 13: case 14: bad = static_cast<int>(r.range(0, 4)), checksum = true; break;
    case 15: f.nt = 0; break; /* decodes, but is not a day: no valid reference time */
  }
  for (int i = 0; i < 5; i++) {
    for (int b = 9; b <= 80; b++) f.s[i].b[b] = r.coin(); /* reserved bits are arbitrary */
    f.s[i].put(81, 4, static_cast<uint64_t>(i + 1));
    f.s[i].b[85] = 0;
  }
  bool nz = r.coin();
  for (int i = 0; i < 3; i++) f.s[i].sm(9, 26, f.pos[i], nz), f.s[i].sm(36, 4, f.acc[i], nz), f.s[i].sm(41, 23, f.vel[i], nz);
  f.s[0].put(77, 2, static_cast<uint64_t>(f.p1)), f.s[0].put(72, 5, static_cast<uint64_t>(f.h)), f.s[0].put(66, 6, static_cast<uint64_t>(f.m)), f.s[0].put(65, 1, static_cast<uint64_t>(f.half));
  f.s[1].put(80, 1, static_cast<uint64_t>(f.bmsb)), f.s[1].put(78, 2, static_cast<uint64_t>(f.bl)), f.s[1].put(70, 7, static_cast<uint64_t>(f.tb));
  f.s[2].sm(69, 10, f.gamma, nz), f.s[2].put(65, 1, static_cast<uint64_t>(f.l));
  f.s[3].sm(59, 21, f.tau, nz), f.s[3].sm(54, 4, f.dtau, nz), f.s[3].put(49, 5, static_cast<uint64_t>(f.en)), f.s[3].put(30, 4, static_cast<uint64_t>(f.ft)), f.s[3].put(16, 11, static_cast<uint64_t>(f.nt)),
      f.s[3].put(11, 5, static_cast<uint64_t>(f.n)), f.s[3].put(9, 2, static_cast<uint64_t>(f.mm));
  f.s[4].put(32, 5, static_cast<uint64_t>(f.n4)), f.s[4].sm(10, 21, f.tgps, nz);
  if (numbers) {
    int64_t k;
    do k = r.range(0, 15);
    while (k == bad + 1);
    f.s[bad].put(81, 4, static_cast<uint64_t>(k));
  }
  for (auto &s : f.s) s.seal();
  if (checksum) {
    /* one damaged data bit, or two damaged bits */
    int b = static_cast<int>(r.range(9, 85));
    f.s[bad].b[b] ^= 1;
    if (r.coin()) {
      int b2;
      do b2 = static_cast<int>(r.range(1, 85));
      while (b2 == b);
      f.s[bad].b[b2] ^= 1;
    }
  }
  Buf<glo_string_t> w(5);
  for (int i = 0; i < 5; i++) f.s[i].words(w[static_cast<size_t>(i)].word);
  c.describe("strings %s, defect %d in string %d", hex(w.p, sizeof(glo_string_t) * 5).c_str(), defect, bad + 1);
  c.nt(hbytes(w.p, sizeof(glo_string_t) * 5));
  if (bad >= 0) ev(numbers ? "wrong_number" : checksum ? "damaged" : "over_limit");
  if (f.bmsb || f.l) ev("unhealthy");

  static const float acc_m[16] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
  u32 prev_fit = r.pick<u32>({0, 2400, 3300, 4200});
  static const u32 fits[4] = {0, 2400, 3300, 4200};
  u32 fit = f.p1 ? fits[f.p1] : prev_fit ? prev_fit : 4200;
  if (!f.p1) ev("p1_zero");
  auto fresh = [&](ephemeris_t *e) {
    memset(e, r.pick<int>({0, 0xff, 0xa5}), sizeof *e);
    e->sid = gnss::sid(CODE_GLO_L1OF, 3);
    e->fit_interval = prev_fit;
    e->health_bits = 0;
  };
  auto kinematics = [&](const ephemeris_t &e, int i) {
    same("position", e.data.glo.pos[i], f.pos[i] * 125, -11 + 3, false);
    same("velocity", e.data.glo.vel[i], f.vel[i] * 125, -20 + 3, false);
    same("acceleration", e.data.glo.acc[i], f.acc[i] * 125, -30 + 3, false);
  };
  ephemeris_t e;
  fresh(&e);
  glo_time_t tk, toe;
  memset(&tk, 0, sizeof tk);
  memset(&toe, 0, sizeof toe);
  u8 age = 77;
  float tg = 77;
  bool all = true;
  for (int i = 0; i < 5; i++) {
    bool ok = i == 0   ? decode_glo_string_1(&w[0], &e, &tk)
              : i == 1 ? decode_glo_string_2(&w[1], &e, &toe)
              : i == 2 ? decode_glo_string_3(&w[2], &e, &toe)
              : i == 3 ? decode_glo_string_4(&w[3], &e, &tk, &toe, &age)
                       : decode_glo_string_5(&w[4], &e, &tk, &toe, &tg);
    CHECK(ok == (i != bad), ok ? "bad_string_accepted" : "string_refused", "string %d returned %d", i + 1, ok);
    if (!ok) {
      ev("refused_strings");
      all = false;
      continue;
    }
    if (i < 3) kinematics(e, i);
    if (i == 0) {
      CHECK(tk.h == f.h && tk.m == f.m && tk.s == (f.half ? 30 : 0), "tk", "%u:%u:%g", tk.h, tk.m, tk.s);
      CHECK(e.fit_interval == fit, "fit_interval", "P1 %lld after %u -> %u, expected %u", static_cast<long long>(f.p1), prev_fit, e.fit_interval, fit);
    }
    if (i == 1) {
      CHECK(toe.h * 3600 + toe.m * 60 + toe.s == static_cast<double>(f.tb * 900) && toe.h < 24 && toe.m < 60 && toe.s < 60, "tb", "%u:%u:%g for %lld s", toe.h, toe.m, toe.s, static_cast<long long>(f.tb * 900));
      CHECK(e.data.glo.iod == ((f.tb * 900) & 0x7f), "iod", "%u for tb %lld", e.data.glo.iod, static_cast<long long>(f.tb));
    }
    if (i == 2) same("gamma", e.data.glo.gamma, f.gamma, -40, false);
    if (i == 3) {
      same("tau", e.data.glo.tau, f.tau, -30, false);
      same("d_tau", e.data.glo.d_tau, f.dtau, -30, false);
      CHECK(e.sid.sat == f.n && e.sid.code == CODE_GLO_L1OF, "slot", "satellite %u, encoded %lld", e.sid.sat, static_cast<long long>(f.n));
      CHECK(age == f.en, "age", "%u, encoded %lld", age, static_cast<long long>(f.en));
      CHECK(tk.nt == f.nt && toe.nt == f.nt, "nt", "%u %u, encoded %lld", tk.nt, toe.nt, static_cast<long long>(f.nt));
      CHECK(e.ura == acc_m[f.ft], "accuracy", "%g for index %lld", static_cast<double>(e.ura), static_cast<long long>(f.ft));
    }
    if (i == 4) {
      CHECK(tk.n4 == f.n4 && toe.n4 == f.n4, "n4", "%u %u, encoded %lld", tk.n4, toe.n4, static_cast<long long>(f.n4));
      same("tau_gps", static_cast<double>(tg), f.tgps, -30, false, 1e-7);
    }
  }
  if (all) CHECK(e.health_bits == (f.bmsb | f.l), "health", "%u, encoded B %lld l %lld", e.health_bits, static_cast<long long>(f.bmsb), static_cast<long long>(f.l));

  /* the whole ephemeris, into a structure holding anything */
  ephemeris_t x;
  fresh(&x);
  x.health_bits = static_cast<u8>(r.range(0, 255));
  x.valid = static_cast<u8>(r.range(0, 255));
  gnss_signal_t s = gnss::sid(r.coin() ? CODE_GLO_L1OF : CODE_GLO_L2OF, static_cast<unsigned>(all ? f.n : r.range(1, 28)));
  utc_params_t up;
  memset(&up, 0, sizeof up);
  bool params = r.coin(0.3);
  int off = static_cast<int>(r.range(0, 40));
  up.dt_ls = up.dt_lsf = static_cast<s8>(off);
  up.tot = mk(static_cast<int>(r.range(900, 3000)), 0);
  up.t_lse = mk(static_cast<int>(r.range(400, 800)), 518400);
  decode_glo_ephemeris(w.p, s, params ? &up : nullptr, &x);
  bool ok = all && f.nt >= 1;
  CHECK((x.valid != 0) == ok, ok ? "ephemeris_refused" : "bad_ephemeris_valid", "valid %u", x.valid);
  if (!ok) return;
  ev("valid_ephemerides");
  for (int i = 0; i < 3; i++) kinematics(x, i);
  same("gamma", x.data.glo.gamma, f.gamma, -40, false);
  same("tau", x.data.glo.tau, f.tau, -30, false);
  same("d_tau", x.data.glo.d_tau, f.dtau, -30, false);
  CHECK(x.sid.sat == f.n && x.sid.code == s.code, "slot", "signal %s, encoded %lld", gnss::str(x.sid).c_str(), static_cast<long long>(f.n));
  CHECK(x.ura == acc_m[f.ft], "accuracy", "%g for index %lld", static_cast<double>(x.ura), static_cast<long long>(f.ft));
  CHECK(x.health_bits == (f.bmsb | f.l), "health", "%u, encoded B %lld l %lld", x.health_bits, static_cast<long long>(f.bmsb), static_cast<long long>(f.l));
  CHECK(x.fit_interval == fit, "fit_interval", "P1 %lld after %u -> %u, expected %u", static_cast<long long>(f.p1), prev_fit, x.fit_interval, fit);
  CHECK(x.data.glo.iod == ((f.tb * 900) & 0x7f), "iod", "%u for tb %lld", x.data.glo.iod, static_cast<long long>(f.tb));
  CHECK(x.source == EPH_SOURCE_GLO_FDMA, "source", "%u", x.source);
  /* Moscow date and time -> UTC -> GPS */
  int day = day_of(1996 + 4 * static_cast<int>(f.n4 - 1), 1, 1) + static_cast<int>(f.nt) - 1;
  int64_t utc = static_cast<int64_t>(day) * D + f.tb * 900 - 3 * 3600, want = utc;
  if (params) want += off;
  else
    for (size_t i = 0; i < leap_days().size(); i++)
      if (utc >= leap_start(i) - static_cast<int64_t>(i)) want = utc + static_cast<int64_t>(i) + 1;
  CHECK(gps_time_valid(&x.toe) && fabsl(secs(x.toe) - want) <= 1e-9L, "toe", "(%d, %.17g), expected (%lld, %lld)%s", x.toe.wn, x.toe.tow, static_cast<long long>(want / W), static_cast<long long>(want % W), params ? " with parameters" : "");
}
