// @run variant=asan shards=8
#include "gnss.h"
#include "nav.h"
#include "timeref.h"
#include <swiftnav/ephemeris.h>
using namespace mon;
using namespace nav;
RULE("case = Galileo I/NAV word types 1-5 built bit by bit with every field over its range (edge values favoured), arbitrary reserved bits and previous output contents, system times around toe/toc incl. week rollovers, "
     "all health states, in- and out-of-range reference times. Non-trivial: every case; identity = the pages.");
NEED(accepted, 30000);
NEED(refused, 5000);
NEED(healthy, 10000);
NEED(unhealthy, 10000);
NEED(toe_week_shift, 2000);
NEED(toc_week_shift, 2000);

SECTION(decode, 150000, 6000000) {
  Buf<u8> raw(5 * GAL_INAV_CONTENT_BYTE);
  u8(*p)[GAL_INAV_CONTENT_BYTE] = reinterpret_cast<u8(*)[GAL_INAV_CONTENT_BYTE]>(raw.p);
  c.r.bytes(raw.p, raw.n);
  auto f = [&](int page, int off, int n, bool sgn) {
    int64_t v = gen(c.r, n, sgn);
    putb(p[page], off, n, static_cast<uint64_t>(v));
    return v;
  };
  auto g = [&](int page, int off, int n, int64_t v) { putb(p[page], off, n, static_cast<uint64_t>(v)); };
  int64_t iod = f(0, 6, 10, false), toe = c.r.range(0, 10079), m0 = f(0, 30, 32, true), ecc = f(0, 62, 32, false), sqa = f(0, 94, 32, false);
  for (int i = 1; i < 4; i++) g(i, 6, 10, iod); /* one data set */
  int64_t om0 = f(1, 16, 32, true), inc = f(1, 48, 32, true), w = f(1, 80, 32, true), idot = f(1, 112, 14, true);
  int64_t omd = f(2, 16, 24, true), dn = f(2, 40, 16, true), cuc = f(2, 56, 16, true), cus = f(2, 72, 16, true), crc = f(2, 88, 16, true), crs = f(2, 104, 16, true), sisa = f(2, 120, 8, false);
  int64_t sat = c.r.range(1, 36), cic = f(3, 22, 16, true), cis = f(3, 38, 16, true), toc = c.r.coin() ? toe : c.r.range(0, 10079), af0 = f(3, 68, 31, true), af1 = f(3, 99, 21, true), af2 = f(3, 120, 6, true);
  g(3, 16, 6, sat);
  int64_t bgda = f(4, 47, 10, true), bgdb = f(4, 57, 10, true), hb = c.r.range(0, 3), h1 = c.r.range(0, 3), wn = c.r.coin(0.3) ? c.r.pick<int64_t>({1, 2, 4095, 4094}) : c.r.range(1, 4095);
  if (c.r.coin(0.3)) hb = h1 = 0;
  bool bad = c.r.coin(0.1);
  if (bad) {
    int64_t b = c.r.coin() ? c.r.pick<int64_t>({10080, 10081, 16383}) : c.r.range(10080, 16383);
    (c.r.coin() ? toe : toc) = b;
  }
  int64_t tow = c.r.coin(0.5) ? toe * 60 + c.r.range(-15000, 15000) : c.r.range(0, 604799);
  if (c.r.coin(0.1)) tow = toe * 60 + 302400 + c.r.range(-3, 3);
  if (tow < 0) tow += 604800;
  tow %= 604800;
  g(0, 16, 14, toe);
  g(3, 54, 14, toc);
  g(4, 67, 2, hb);
  g(4, 69, 2, h1);
  g(4, 73, 12, wn);
  g(4, 85, 20, tow);
  ephemeris_t e;
  memset(&e, c.r.pick<int>({0, 0xff, 0xa5, 1}), sizeof e);
  e.sid = gnss::sid(CODE_GAL_E1B, static_cast<unsigned>(c.r.range(0, 40)));
  e.health_bits = 0;
  c.describe("pages %s", hex(raw.p, raw.n).c_str());
  c.nt(hbytes(raw.p, raw.n));
  std::string before(reinterpret_cast<char *>(raw.p), raw.n);
  bool ok = decode_gal_ephemeris_safe(p, &e);
  CHECK(memcmp(before.data(), raw.p, raw.n) == 0, "input_modified", "the pages were modified");
  CHECK(ok == !bad, ok ? "bad_time_accepted" : "refused", "returned %d with toe %lld toc %lld", ok, static_cast<long long>(toe * 60), static_cast<long long>(toc * 60));
  ev(ok ? "accepted" : "refused");
  if (!ok) return;
  if (c.r.coin(0.3)) {
    /* the asserting form decodes the same */
    ephemeris_t e2;
    memset(&e2, 0x3c, sizeof e2);
    e2.sid = gnss::sid(CODE_GAL_E1B, 5);
    decode_gal_ephemeris(p, &e2);
    e2.health_bits = 0;
    CHECK(ephemeris_equal(&e, &e2) && e.ura == e2.ura && e.fit_interval == e2.fit_interval, "depends_on_previous_contents", "decoding again into another structure differs");
  }
  const ephemeris_kepler_t *k = &e.data.kepler;
  CHECK(e.sid.code == CODE_GAL_E1B && e.sid.sat == sat, "sid", "signal %s, encoded satellite %lld", gnss::str(e.sid).c_str(), static_cast<long long>(sat));
  bool usable = (hb == 0 || hb == 2) && (h1 == 0 || h1 == 2);
  CHECK((e.valid != 0) == usable, "valid", "valid %u with health E5b %lld E1B %lld", e.valid, static_cast<long long>(hb), static_cast<long long>(h1));
  ev(usable ? "healthy" : "unhealthy");
  for (int i = 0; i < 2; i++) {
    int64_t t = (i ? toc : toe) * 60;
    int64_t d = t - tow;
    int64_t wk = 1024 + wn + (d > 302400 ? -1 : d < -302400 ? 1 : 0);
    const gps_time_t &x = i ? k->toc : e.toe;
    if (wk != 1024 + wn) ev(i ? "toc_week_shift" : "toe_week_shift");
    CHECK(x.tow == static_cast<double>(t) && (x.wn == wk || llabs(d) == 302400), i ? "toc" : "toe", "(%d, %.17g), expected (%lld, %lld)", x.wn, x.tow, static_cast<long long>(wk), static_cast<long long>(t));
  }
  CHECK(k->iode == iod && k->iodc == iod, "iod", "%u %u, encoded %lld", k->iode, k->iodc, static_cast<long long>(iod));
  CHECK(e.fit_interval == 4 * 3600, "fit_interval", "%u", e.fit_interval);
  CHECK(e.source == EPH_SOURCE_GAL_INAV, "source", "%u", e.source);
  ld ura = sisa < 50 ? sisa * 0.01L : sisa < 75 ? 0.5L + (sisa - 50) * 0.02L : sisa < 100 ? 1 + (sisa - 75) * 0.04L : sisa < 126 ? 2 + (sisa - 100) * 0.16L : sisa < 255 ? 6 : -1;
  CHECK(fabsl(e.ura - ura) < 1e-5L, "sisa", "index %lld -> %g", static_cast<long long>(sisa), static_cast<double>(e.ura));
  same("bgd_e5a", static_cast<double>(k->tgd.gal_s[0]), bgda, -32, false);
  same("bgd_e5b", static_cast<double>(k->tgd.gal_s[1]), bgdb, -32, false);
  same("m0", k->m0, m0, -31, true);
  same("ecc", k->ecc, ecc, -33, false);
  same("sqrta", k->sqrta, sqa, -19, false);
  same("omega0", k->omega0, om0, -31, true);
  same("inc", k->inc, inc, -31, true);
  same("w", k->w, w, -31, true);
  same("inc_dot", k->inc_dot, idot, -43, true);
  same("omegadot", k->omegadot, omd, -43, true);
  same("dn", k->dn, dn, -43, true);
  same("cuc", k->cuc, cuc, -29, false);
  same("cus", k->cus, cus, -29, false);
  same("crc", k->crc, crc, -5, false);
  same("crs", k->crs, crs, -5, false);
  same("cic", k->cic, cic, -29, false);
  same("cis", k->cis, cis, -29, false);
  same("af0", k->af0, af0, -34, false);
  same("af1", k->af1, af1, -46, false);
  same("af2", k->af2, af2, -59, false);
}
