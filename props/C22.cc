// @run variant=asan shards=8
#include "gnss.h"
#include "nav.h"
#include "timeref.h"
#include <swiftnav/ephemeris.h>
using namespace mon;
using namespace nav;
RULE("case = subframes 1-3 built bit by bit from IS-GPS-200 with every field drawn over its range (edge values favoured), random parity/reserved/two upper bits, GPS and QZSS satellites, transmission times "
     "around toe incl. week rollovers, matched or mismatched issue-of-data and out-of-range toe/toc; output structure pre-filled with different patterns. Non-trivial: every case; identity = the words.");
NEED(valid_sets, 20000);
NEED(iod_mismatch, 10000);
NEED(bad_reference_time, 3000);
NEED(rollover_next, 1000);
NEED(rollover_prev, 1000);
NEED(fit_intervals, 2048);

static uint32_t fit_hours(int flag, int iodc) {
  if (!flag) return 4;
  if (iodc >= 240 && iodc <= 247) return 8;
  if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  return 6;
}

SECTION(fit, 8, 8) {
  for (int i = static_cast<int>(c.idx) * 128; i < static_cast<int>(c.idx + 1) * 128; i++)
    for (int f = 0; f < 2; f++) {
      uint32_t g = decode_fit_interval(static_cast<u8>(f), static_cast<u16>(i));
      CHECK(g == fit_hours(f, i) * 3600, "fit_table", "flag %d iodc %d -> %u s, expected %u h", f, i, g, fit_hours(f, i));
      ev("fit_intervals");
    }
  c.nt(static_cast<uint64_t>(c.idx));
}

SECTION(decode, 200000, 8000000) {
  u32 w[3][8];
  c.r.bytes(w, sizeof w); /* reserved and parity bits, and the two bits above each word, are arbitrary */
  auto put = [&](int sf, int word, int first, int n, int64_t v) { put30(&w[sf - 1][word - 3], first, n, static_cast<uint64_t>(v)); };
  int fault = static_cast<int>(c.r.range(0, 9)); /* 0..5 none, 6 iode sf2, 7 iode sf3, 8 iodc, 9 toe/toc */
  int64_t iode = gen(c.r, 8, false), iode2 = iode, iode3 = iode, iodc = iode | (c.r.range(0, 3) << 8);
  auto flip = [&](int64_t v) { return v ^ (c.r.coin() ? int64_t{1} << c.r.range(0, 7) : c.r.range(1, 255)); };
  if (fault == 6) iode2 = flip(iode2);
  if (fault == 7) iode3 = flip(iode3);
  if (fault == 8) iodc = flip(iodc);
  int64_t toe = c.r.coin(0.3) ? c.r.pick<int64_t>({0, 1, 37799, 37798, 18900, 18899, 18901}) : c.r.range(0, 37799);
  int64_t toc = c.r.coin(0.5) ? toe : c.r.range(0, 37799);
  if (fault == 9) {
    int64_t bad = c.r.coin() ? c.r.pick<int64_t>({37800, 37801, 65535}) : c.r.range(37800, 65535);
    (c.r.coin() ? toe : toc) = bad;
  }
  int64_t wn = c.r.coin(0.2) ? c.r.pick<int64_t>({0, 1, 1023, 512}) : c.r.range(0, 1023), ura = c.r.range(0, 15), health = gen(c.r, 6, false), tgd = gen(c.r, 8, true);
  int64_t af2 = gen(c.r, 8, true), af1 = gen(c.r, 16, true), af0 = gen(c.r, 22, true), crs = gen(c.r, 16, true), dn = gen(c.r, 16, true), m0 = gen(c.r, 32, true), cuc = gen(c.r, 16, true);
  int64_t ecc = gen(c.r, 32, false), cus = gen(c.r, 16, true), sqrta = gen(c.r, 32, false), fit = c.r.range(0, 1), cic = gen(c.r, 16, true), om0 = gen(c.r, 32, true), cis = gen(c.r, 16, true);
  int64_t inc = gen(c.r, 32, true), crc = gen(c.r, 16, true), om = gen(c.r, 32, true), omd = gen(c.r, 24, true), idot = gen(c.r, 14, true);
  if (fit && c.r.coin(0.4)) {
    iodc = c.r.pick<int64_t>({239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023});
    if (fault < 6) iode2 = iode3 = iodc & 255;
  }
  put(1, 3, 1, 10, wn); put(1, 3, 13, 4, ura); put(1, 3, 17, 6, health); put(1, 3, 23, 2, iodc >> 8); put(1, 7, 17, 8, tgd); put(1, 8, 1, 8, iodc & 255); put(1, 8, 9, 16, toc);
  put(1, 9, 1, 8, af2); put(1, 9, 9, 16, af1); put(1, 10, 1, 22, af0);
  put(2, 3, 1, 8, iode2); put(2, 3, 9, 16, crs); put(2, 4, 1, 16, dn); put(2, 4, 17, 8, m0 >> 24); put(2, 5, 1, 24, m0); put(2, 6, 1, 16, cuc); put(2, 6, 17, 8, ecc >> 24); put(2, 7, 1, 24, ecc);
  put(2, 8, 1, 16, cus); put(2, 8, 17, 8, sqrta >> 24); put(2, 9, 1, 24, sqrta); put(2, 10, 1, 16, toe); put(2, 10, 17, 1, fit);
  put(3, 3, 1, 16, cic); put(3, 3, 17, 8, om0 >> 24); put(3, 4, 1, 24, om0); put(3, 5, 1, 16, cis); put(3, 5, 17, 8, inc >> 24); put(3, 6, 1, 24, inc); put(3, 7, 1, 16, crc);
  put(3, 7, 17, 8, om >> 24); put(3, 8, 1, 24, om); put(3, 9, 1, 24, omd); put(3, 10, 1, 8, iode3); put(3, 10, 9, 14, idot);

  ephemeris_t e;
  memset(&e, static_cast<int>(c.r.pick<int>({0, 0xff, 0xa5, 1})), sizeof e);
  gnss_signal_t s = c.r.coin(0.7) ? gnss::sid(CODE_GPS_L1CA, static_cast<unsigned>(c.r.range(1, 32))) : gnss::sid(CODE_QZS_L1CA, static_cast<unsigned>(c.r.range(193, 202)));
  e.sid = s;
  /* the message is received within a few hours of toe, or anywhere in the week */
  double tot = c.r.coin() ? static_cast<double>(toe) * 16 + c.r.uniform(-8000, 8000) : c.r.coin(0.8) ? c.r.uniform(0, 604800) : static_cast<double>(toe) * 16 + 302400 + c.r.range(-40, 40) * 0.1;
  if (tot < 0) tot += 604800;
  if (tot >= 604800) tot -= 604800;
  bool dflt = c.r.coin(0.3);
  int ref = dflt ? GPS_WEEK_REFERENCE : static_cast<int>(c.r.coin(0.3) ? c.r.pick<int64_t>({1, 2, 1023, 1024, 1025, 2047, 2048, 2049}) : c.r.range(1, 8000));
  c.describe("sid %s wn_ref %d tot %.6f sf1 %s sf2 %s sf3 %s", gnss::str(s).c_str(), ref, tot, hex(w[0], 32).c_str(), hex(w[1], 32).c_str(), hex(w[2], 32).c_str());
  c.nt(hbytes(w, sizeof w));
  u32 copy[3][8];
  memcpy(copy, w, sizeof w);
  if (dflt) decode_ephemeris(w, &e, tot);
  else decode_ephemeris_with_wn_ref(w, &e, tot, static_cast<u16>(ref));
  CHECK(memcmp(copy, w, sizeof w) == 0, "input_modified", "the words were modified");

  const ephemeris_kepler_t *k = &e.data.kepler;
  bool ok = iode2 == iode3 && iode3 == (iodc & 255) && toe < 37800 && toc < 37800;
  CHECK((e.valid != 0) == ok, ok ? "valid_set_refused" : "bad_set_accepted", "valid = %u with iode %lld/%lld iodc %lld toe %lld toc %lld", e.valid, static_cast<long long>(iode2), static_cast<long long>(iode3),
        static_cast<long long>(iodc), static_cast<long long>(toe * 16), static_cast<long long>(toc * 16));
  if (iode2 != iode3 || iode3 != (iodc & 255)) ev("iod_mismatch");
  if (toe >= 37800 || toc >= 37800) ev("bad_reference_time");
  if (!ok) return;
  ev("valid_sets");
  /* week: latest cycle not before the reference, then toe closest to the transmission time */
  int wk = static_cast<int>(wn);
  while (wk < ref) wk += 1024;
  double diff = static_cast<double>(toe) * 16 - tot;
  int twk = wk;
  if (diff > 302400) twk = wk - 1, ev("rollover_prev");
  if (diff < -302400) twk = wk + 1, ev("rollover_next");
  CHECK(e.sid.code == s.code && e.sid.sat == s.sat, "sid", "signal changed to %s", gnss::str(e.sid).c_str());
  CHECK(e.toe.tow == static_cast<double>(toe) * 16 && (e.toe.wn == twk || fabs(fabs(diff) - 302400) < 1e-6), "toe", "(%d, %.17g), expected (%d, %lld)", e.toe.wn, e.toe.tow, twk, static_cast<long long>(toe * 16));
  CHECK(k->toc.tow == static_cast<double>(toc) * 16 && k->toc.wn == e.toe.wn, "toc", "(%d, %.17g), expected (%d, %lld)", k->toc.wn, k->toc.tow, twk, static_cast<long long>(toc * 16));
  static const float uras[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
  CHECK(e.ura == uras[ura], "ura", "index %lld -> %g", static_cast<long long>(ura), static_cast<double>(e.ura));
  CHECK(e.health_bits == health, "health", "%u, encoded %lld", e.health_bits, static_cast<long long>(health));
  CHECK(k->iodc == iodc && k->iode == iode3, "iod", "iodc %u iode %u, encoded %lld %lld", k->iodc, k->iode, static_cast<long long>(iodc), static_cast<long long>(iode3));
  CHECK(e.fit_interval == fit_hours(static_cast<int>(fit), static_cast<int>(iodc)) * 3600, "fit_interval", "flag %lld iodc %lld -> %u", static_cast<long long>(fit), static_cast<long long>(iodc), e.fit_interval);
  CHECK(e.source == EPH_SOURCE_GPS_LNAV, "source", "%u", e.source);
  same("tgd", static_cast<double>(k->tgd.gps_s[0]), tgd, -31, false);
  CHECK(k->tgd.gps_s[1] == 0, "tgd_l5", "%g", static_cast<double>(k->tgd.gps_s[1]));
  same("af0", k->af0, af0, -31, false);
  same("af1", k->af1, af1, -43, false);
  same("af2", k->af2, af2, -55, false);
  same("crs", k->crs, crs, -5, false);
  same("crc", k->crc, crc, -5, false);
  same("cuc", k->cuc, cuc, -29, false);
  same("cus", k->cus, cus, -29, false);
  same("cic", k->cic, cic, -29, false);
  same("cis", k->cis, cis, -29, false);
  same("dn", k->dn, dn, -43, true);
  same("m0", k->m0, m0, -31, true);
  same("ecc", k->ecc, ecc, -33, false);
  same("sqrta", k->sqrta, sqrta, -19, false);
  same("omega0", k->omega0, om0, -31, true);
  same("inc", k->inc, inc, -31, true);
  same("w", k->w, om, -31, true);
  same("omegadot", k->omegadot, omd, -43, true);
  same("inc_dot", k->inc_dot, idot, -43, true);
}
