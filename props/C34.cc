// @run variant=asan shards=8
#include "nav.h"
#include "orbit.h"
#include <swiftnav/almanac.h>
#include <swiftnav/shm.h>
using namespace mon;
using namespace nav;
typedef long double ld;
RULE("pages: subframe words 3-10 with arbitrary parity/reserved bits, every data and page identity, each field over its full range, arbitrary previous output contents. propagate: plausible almanacs at times around the reference time, across the week, "
     "against an independent almanac algorithm. valid: flag, week, interval, 8-bit health word and age around every limit. Non-trivial: every case; identity = the words, or the almanac and time.");
NEED(late_toa, 2000);
NEED(decoded, 40000);
NEED(refused, 15000);
NEED(health_4, 3000);
NEED(health_5, 3000);
NEED(week, 3000);
NEED(propagated, 8000);
NEED(unusable, 500);
NEED(is_valid, 5000);
NEED(not_valid, 10000);
NEED(at_limit, 2000);

static void rnd_words(Rng &r, uint32_t w[8]) {
  for (int i = 0; i < 8; i++) w[i] = static_cast<uint32_t>(r.range(0, 0xffffffffLL)) & (r.coin(0.8) ? 0x3fffffffu : 0xffffffffu);
}
SECTION(pages, 120000, 8000000) {
  Rng &r = c.r;
  uint32_t w[8];
  rnd_words(r, w);
  int id = r.coin(0.85) ? 1 : static_cast<int>(r.range(0, 3));
  int sv = static_cast<int>(r.coin(0.6) ? r.range(1, 32) : r.coin(0.6) ? r.pick<int64_t>({0, 33, 51, 63, 56, 52, 62}) : r.range(0, 63));
  put30(&w[0], 1, 2, static_cast<uint64_t>(id));
  put30(&w[0], 3, 6, static_cast<uint64_t>(sv));
  int64_t ecc = gen(r, 16, false), toa = r.coin(0.3) ? r.edgy(0, 147) : r.coin(0.1) ? r.range(147, 255) : r.range(0, 147), inc = gen(r, 16, true), od = gen(r, 16, true), sq = gen(r, 24, false), o0 = gen(r, 24, true), ww = gen(r, 24, true), m0 = gen(r, 24, true), a0 = gen(r, 11, true), a1 = gen(r, 11, true);
  unsigned hb = static_cast<unsigned>(r.range(0, 255));
  uint64_t six[33];
  for (uint64_t &x : six) x = static_cast<uint64_t>(r.range(0, 63));
  unsigned wna = static_cast<unsigned>(r.range(0, 255)), ref = static_cast<unsigned>(r.coin(0.5) ? r.range(0, 4000) : r.range(2000, 2600));
  if (sv == 51) {
    put30(&w[0], 9, 8, static_cast<uint64_t>(toa)), put30(&w[0], 17, 8, wna);
    for (int k = 0; k < 24; k++) put30(&w[1 + k / 4], 1 + 6 * (k % 4), 6, six[k + 1]);
  } else if (sv == 63) {
    put30(&w[5], 19, 6, six[25]);
    for (int k = 0; k < 4; k++) put30(&w[6], 1 + 6 * k, 6, six[26 + k]);
    for (int k = 0; k < 3; k++) put30(&w[7], 1 + 6 * k, 6, six[30 + k]);
  } else {
    put30(&w[0], 9, 16, static_cast<uint64_t>(ecc)), put30(&w[1], 1, 8, static_cast<uint64_t>(toa)), put30(&w[1], 9, 16, static_cast<uint64_t>(inc)), put30(&w[2], 1, 16, static_cast<uint64_t>(od)), put30(&w[2], 17, 8, hb);
    put30(&w[3], 1, 24, static_cast<uint64_t>(sq)), put30(&w[4], 1, 24, static_cast<uint64_t>(o0)), put30(&w[5], 1, 24, static_cast<uint64_t>(ww)), put30(&w[6], 1, 24, static_cast<uint64_t>(m0));
    put30(&w[7], 1, 8, static_cast<uint64_t>(a0 >> 3)), put30(&w[7], 20, 3, static_cast<uint64_t>(a0)), put30(&w[7], 9, 11, static_cast<uint64_t>(a1));
  }
  Buf<u32> in(8);
  for (int i = 0; i < 8; i++) in[i] = w[i];
  c.describe("words %s data id %d page %d reference week %u", hex(in.p, 32).c_str(), id, sv, ref);
  c.nt(hbytes(w, sizeof w));
  Buf<almanac_t> a(1);
  Buf<almanac_health_t> h(1);
  Buf<almanac_ref_week_t> k(1);
  int fill = static_cast<int>(r.range(0, 255));
  memset(static_cast<void *>(a.p), fill, sizeof(almanac_t)), memset(static_cast<void *>(h.p), fill, sizeof(almanac_health_t)), memset(static_cast<void *>(k.p), fill, sizeof(almanac_ref_week_t));
  bool ok = almanac_decode(in.p, a.p), hok = almanac_decode_health(in.p, h.p), kok = almanac_decode_week_with_wn_ref(in.p, k.p, static_cast<u16>(ref));
  CHECK(ok == (id == 1 && sv >= 1 && sv <= 32), "kind", "almanac_decode returned %d", ok);
  CHECK(hok == (id == 1 && (sv == 51 || sv == 63)), "kind_health", "almanac_decode_health returned %d", hok);
  CHECK(kok == (id == 1 && sv == 51), "kind_week", "almanac_decode_week_with_wn_ref returned %d", kok);
  for (int i = 0; i < 8; i++) CHECK(in[i] == w[i], "input", "input words changed");
  if (!ok) {
    CHECK(!a.p->valid, "refused_valid", "a refused page leaves a valid almanac");
    ev("refused");
  } else {
    CHECK((a.p->valid != 0) == (toa <= 147), "late_toa", "almanac with reference time code %lld: valid %u (codes above 147 are no time of week)", static_cast<long long>(toa), a.p->valid);
    if (toa > 147) ev("late_toa");
    CHECK(a.p->sid.sat == sv && a.p->sid.code == CODE_GPS_L1CA, "sid", "valid %u sat %u code %d", a.p->valid, a.p->sid.sat, a.p->sid.code);
    CHECK(a.p->fit_interval >= 140 * 3600 && a.p->fit_interval <= 144 * 3600, "interval", "fit interval %u s, almanacs serve 140 to 144 hours", a.p->fit_interval);
    CHECK(a.p->ura > 0, "ura", "accuracy %g", static_cast<double>(a.p->ura));
    CHECK(a.p->toa.tow == static_cast<double>(toa * 4096), "toa", "reference time of week %.17g, encoded %lld", a.p->toa.tow, static_cast<long long>(toa * 4096));
    CHECK(a.p->toa.wn == WN_UNKNOWN, "toa_week", "week %d although the page does not carry it", a.p->toa.wn);
    CHECK(a.p->health_bits == hb, "health", "health %02x, encoded %02x", a.p->health_bits, hb);
    const almanac_kepler_t &e = a.p->data.kepler;
    same("ecc", e.ecc, ecc, -21, false), same("omegadot", e.omegadot, od, -38, true), same("sqrta", e.sqrta, sq, -11, false), same("omega0", e.omega0, o0, -23, true), same("w", e.w, ww, -23, true), same("m0", e.m0, m0, -23, true);
    same("af0", e.af0, a0, -20, false), same("af1", e.af1, a1, -38, false);
    ld want = (0.30L + ldexpl(static_cast<ld>(inc), -19)) * PI_ICD;
    CHECK(fabsl(static_cast<ld>(e.inc) - want) <= 1e-15L, "inc", "inclination %.17g, encoded %.17Lg", e.inc, want);
    ev("decoded");
  }
  if (hok) {
    u32 mask = sv == 51 ? 0xffffffu : 0xff000000u;
    CHECK(h.p->health_bits_valid == mask, "mask", "validity mask %08x", h.p->health_bits_valid);
    for (int i = 0; i < 32; i++)
      if ((mask >> i) & 1) CHECK(h.p->health_bits[i] == six[i + 1], "six", "satellite %d: health %02x, encoded %02x", i + 1, h.p->health_bits[i], static_cast<unsigned>(six[i + 1]));
    ev(sv == 51 ? "health_5" : "health_4");
  } else CHECK(h.p->health_bits_valid == 0, "refused_mask", "a refused page leaves satellites marked (%08x)", h.p->health_bits_valid);
  if (kok) {
    CHECK(k.p->toa == toa * 4096, "week_toa", "reference time %d, encoded %lld", k.p->toa, static_cast<long long>(toa * 4096));
    unsigned g = static_cast<unsigned>(k.p->wna);
    /* the raw value itself when not before the reference, otherwise the first congruent week */
    unsigned want = wna;
    while (want < ref) want += 256;
    CHECK(g == want, "week", "week %u, the week congruent to %u from reference %u on is %u", g, wna, ref, want);
    almanac_ref_week_t k2;
    CHECK(almanac_decode_week(in.p, &k2) && k2.toa == k.p->toa && (k2.wna & 255) == static_cast<int>(wna) && k2.wna >= 0, "week_default", "default reference: week %d", k2.wna);
    ev("week");
  }
}

static std::string stra(const almanac_t &a) {
  char b[500];
  const almanac_kepler_t &k = a.data.kepler;
  snprintf(b, sizeof b, "%s toa (%d,%.9g) valid %u fit %u health %02x sqrta %.17g ecc %.17g inc %.17g m0 %.17g omega0 %.17g omegadot %.17g w %.17g af %.9g %.9g", gnss::str(a.sid).c_str(), a.toa.wn, a.toa.tow, a.valid, a.fit_interval, a.health_bits, k.sqrta, k.ecc,
           k.inc, k.m0, k.omega0, k.omegadot, k.w, k.af0, k.af1);
  return b;
}

SECTION(propagate, 20000, 1000000) {
  Rng &r = c.r;
  /* the broadcast page, stamped with a week, then used */
  uint32_t w[8];
  rnd_words(r, w);
  put30(&w[0], 1, 2, 1), put30(&w[0], 3, 6, static_cast<uint64_t>(r.range(1, 32)));
  put30(&w[0], 9, 16, static_cast<uint64_t>(r.coin(0.9) ? r.range(0, 62914) : r.range(0, 65535)));
  put30(&w[1], 1, 8, static_cast<uint64_t>(r.coin(0.3) ? r.pick<int64_t>({0, 147}) : r.range(0, 147)));
  put30(&w[1], 9, 16, static_cast<uint64_t>(r.range(-10000, 10000)));
  put30(&w[2], 17, 8, 0);
  put30(&w[3], 1, 24, static_cast<uint64_t>(r.range(10548000, 10561000)));
  Buf<u32> in(8);
  for (int i = 0; i < 8; i++) in[i] = w[i];
  almanac_t a;
  CHECK(almanac_decode(in.p, &a), "decode", "page refused");
  a.toa.wn = static_cast<s16>(r.range(10, 4000));
  double off = r.coin(0.1) ? r.pick<double>({0, 251999, -251999}) : r.coin(0.15) ? (r.coin() ? 1 : -1) * r.uniform(252002, 302000) : r.uniform(-252000, 252000);
  gps_time_t t = orbit::at(a.toa, off);
  c.describe("%s t (%d,%.17g) words %s", stra(a).c_str(), t.wn, t.tow, hex(in.p, 32).c_str());
  c.nt(hcombine(hbytes(w, sizeof w), hd(off)));
  double pos[3], vel[3], acc[3], clk, rate;
  bool usable = fabs(off) < 252001;
  CHECK(static_cast<bool>(almanac_valid(&a, &t)) == usable, "decoded_valid", "almanac %.9g s from its reference time reported %s", off, usable ? "not valid" : "valid");
  s8 ret = calc_sat_state_almanac(&a, &t, pos, vel, acc, &clk, &rate);
  CHECK(ret == (usable ? 0 : -1), "propagate_ret", "calc_sat_state_almanac returned %d, %.9g s from the reference time", ret, off);
  if (!usable) {
    ev("unusable");
    return;
  }
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  const almanac_kepler_t &q = a.data.kepler;
  e.sid = a.sid, e.toe = a.toa, e.data.kepler.toc = a.toa;
  ephemeris_kepler_t &k = e.data.kepler;
  k.sqrta = q.sqrta, k.ecc = q.ecc, k.inc = q.inc, k.m0 = q.m0, k.omega0 = q.omega0, k.omegadot = q.omegadot, k.w = q.w, k.af0 = q.af0, k.af1 = q.af1;
  ld since = orbit::since(t, a.toa);
  orbit::State s = orbit::kepler(e, since, since, false);
  ld d = 0;
  for (int i = 0; i < 3; i++) d += (static_cast<ld>(pos[i]) - s.pos[i]) * (static_cast<ld>(pos[i]) - s.pos[i]);
  d = sqrtl(d);
  CHECK(d <= 0.02L, "position", "off by %.6Lg m: (%.4f %.4f %.4f), expected (%.4Lf %.4Lf %.4Lf)", d, pos[0], pos[1], pos[2], s.pos[0], s.pos[1], s.pos[2]);
  CHECK(fabsl(static_cast<ld>(clk) - s.clk - s.einstein) <= 1e-11L || fabsl(static_cast<ld>(clk) - s.clk) <= 1e-11L, "clock", "clock offset %.17g, polynomial %.17Lg", clk, s.clk);
  CHECK(fabsl(static_cast<ld>(rate) - static_cast<ld>(q.af1)) < 5e-10L, "drift", "clock drift %.9g, af1 %.9g", rate, q.af1);
  ev("propagated");
}

SECTION(validity, 60000, 3000000) {
  Rng &r = c.r;
  almanac_t a;
  memset(&a, 0, sizeof a);
  static const code_t codes[] = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2P, CODE_SBAS_L1CA};
  bool sbas = r.coin(0.2);
  a.sid = sbas ? gnss::sid(CODE_SBAS_L1CA, static_cast<unsigned>(r.range(120, 138))) : gnss::sid(codes[r.range(0, 2)], static_cast<unsigned>(r.range(1, 32)));
  a.valid = r.coin(0.9);
  a.fit_interval = r.coin(0.1) ? 0 : r.coin(0.5) ? 504000u : static_cast<u32>(r.range(1, 600000));
  a.toa = tref::mk(r.coin(0.05) ? 0 : static_cast<int>(r.range(10, 4000)), static_cast<double>(r.range(0, 147) * 4096));
  a.health_bits = static_cast<u8>(r.coin(0.5) ? 0 : r.coin(0.3) ? r.range(0, 7) << 5 : r.range(0, 255));
  a.ura = 900;
  double half = a.fit_interval / 2.0, off;
  bool sign = r.coin();
  switch (r.range(0, 3)) {
    case 0: off = half + r.pick<double>({-1.5, -1e-3, 1e-3, 0.75, 1.5, 2}) ; break;
    case 1: off = r.uniform(0, half); break;
    case 2: off = r.uniform(half, half * 1.5 + 10); break;
    default: off = r.uniform(0, 1e7); break;
  }
  /* an odd interval halves to a whole number of seconds: leave half a second undecided */
  bool limit = off > half - 0.5 && off <= half && (a.fit_interval & 1);
  if (sign) off = -off;
  gps_time_t t = orbit::at(a.toa, off);
  if (t.wn < 0) t = orbit::at(a.toa, -off), off = -off;
  c.describe("%s t (%d,%.17g)", stra(a).c_str(), t.wn, t.tow);
  c.nt(hcombine(hbytes(&a, offsetof(almanac_t, data)), hd(off)));
  int dhi = a.health_bits >> 5;
  /* errors in the hand-over word, the Z-count or subframes 1-3 leave the almanac usable */
  bool healthy = (dhi == 0 || dhi == 2 || dhi == 3 || dhi == 4) && check_6bit_health_word(a.health_bits & 0x1f, a.sid.code);
  u8 h = almanac_healthy(&a);
  CHECK(static_cast<bool>(h) == healthy, "healthy", "health word %02x reported %s", a.health_bits, h ? "healthy" : "unhealthy");
  u8 v = almanac_valid(&a, &t);
  bool want = a.valid && healthy && a.fit_interval > 0 && a.toa.wn != 0 && fabs(off) <= half;
  if (limit) return;
  CHECK(static_cast<bool>(v) == want, "valid", "reported %s, %.9g s from the reference time with an interval of %u s", v ? "valid" : "not valid", off, a.fit_interval);
  ev(v ? "is_valid" : "not_valid");
  if (fabs(fabs(off) - half) < 2) ev("at_limit");
  /* a flag that is not set makes the satellite state unavailable too */
  double pos[3], vel[3], acc[3], clk, rate;
  if (!a.valid || a.toa.wn == 0 || a.fit_interval == 0) {
    a.data.kepler.sqrta = 5153.7;
    CHECK(calc_sat_state_almanac(&a, &t, pos, vel, acc, &clk, &rate) == -1, "state_unusable", "state computed from an almanac that is not usable");
  }
}
