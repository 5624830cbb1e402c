// @run variant=asan shards=8
#include "atmo.h"
#include "nav.h"
#include <swiftnav/ionosphere.h>
using namespace mon;
using namespace nav;
RULE("klobuchar: coefficient sets over their full broadcast ranges, arbitrary or physical, any time of week, location and direction (poles, date line, horizon, zenith, clipping latitude, night/day limits), against an independent implementation in long double. "
     "pages: GPS subframe 4 and BeiDou subframe 1 words with arbitrary surrounding bits, every page and data identity. Non-trivial: every case; identity = inputs.");
NEED(day, 20000);
NEED(night, 20000);
NEED(amp_clipped, 3000);
NEED(per_clipped, 10000);
NEED(lat_clipped, 5000);
NEED(wrapped, 20000);
NEED(gps_decoded, 15000);
NEED(gps_refused, 10000);
NEED(bds_decoded, 15000);

using namespace atmo;
SECTION(klobuchar, 200000, 10000000) {
  Rng &r = c.r;
  static ionosphere_t i; /* replaced in place */
  memset(&i, 0, sizeof i);
  if (r.coin(0.5)) { /* plausible */
    i.a0 = static_cast<double>(r.range(4, 30)) * 0x1p-30, i.a1 = static_cast<double>(r.range(-4, 4)) * 0x1p-27, i.a2 = static_cast<double>(r.range(-4, 4)) * 0x1p-24, i.a3 = static_cast<double>(r.range(-4, 4)) * 0x1p-24;
    i.b0 = static_cast<double>(r.range(35, 70)) * 0x1p11, i.b1 = static_cast<double>(r.range(-8, 8)) * 0x1p14, i.b2 = static_cast<double>(r.range(-6, 6)) * 0x1p16, i.b3 = static_cast<double>(r.range(-8, 8)) * 0x1p16;
  } else {
    i.a0 = static_cast<double>(r.range(-128, 127)) * 0x1p-30, i.a1 = static_cast<double>(r.range(-128, 127)) * 0x1p-27, i.a2 = static_cast<double>(r.range(-128, 127)) * 0x1p-24, i.a3 = static_cast<double>(r.range(-128, 127)) * 0x1p-24;
    i.b0 = static_cast<double>(r.range(-128, 127)) * 0x1p11, i.b1 = static_cast<double>(r.range(-128, 127)) * 0x1p14, i.b2 = static_cast<double>(r.range(-128, 127)) * 0x1p16, i.b3 = static_cast<double>(r.range(-128, 127)) * 0x1p16;
  }
  double lat = r.coin(0.15) ? r.pick<double>({0, M_PI / 2, -M_PI / 2, 0.416 * M_PI, -0.416 * M_PI}) : r.uniform(-M_PI / 2, M_PI / 2);
  double lon = r.coin(0.15) ? r.pick<double>({0, M_PI, -M_PI, 1.617 * M_PI}) : r.coin(0.2) ? r.uniform(0, 2 * M_PI) : r.uniform(-M_PI, M_PI);
  double az = r.coin(0.15) ? r.pick<double>({0, M_PI / 2, M_PI, 1.5 * M_PI, 2 * M_PI}) : r.uniform(0, 2 * M_PI);
  double el = r.coin(0.15) ? r.pick<double>({0, M_PI / 2}) : r.coin(0.1) ? r.uniform(-0.1, 0) : r.uniform(0, M_PI / 2);
  gps_time_t t = {r.coin(0.2) ? r.pick<double>({0, 86400, 50400, 604799.999}) : r.coin(0.3) ? static_cast<double>(r.range(0, 604799)) : r.uniform(0, 604800), static_cast<s16>(r.range(0, 3000))};
  c.describe("tow %.17g lat %.17g lon %.17g az %.17g el %.17g a %.9g %.9g %.9g %.9g b %.9g %.9g %.9g %.9g", t.tow, lat, lon, az, el, i.a0, i.a1, i.a2, i.a3, i.b0, i.b1, i.b2, i.b3);
  c.nt(hcombine(hbytes(&i.a0, 8 * sizeof(double)), hcombine(hcombine(hd(t.tow), hd(lat)), hcombine(hd(lon), hcombine(hd(az), hd(el))))));
  double g = calc_ionosphere(&t, lat, lon, az, el, &i);
  K k = klobuchar(t.tow, lat, lon, az, el, i);
  CHECK(std::isfinite(g), "finite", "delay %g", g);
  CHECK(static_cast<ld>(g) >= k.floor * (1 - 1e-12L), "floor", "delay %.17g m below the night-time delay %.17Lg m", g, k.floor);
  if (k.margin < 1e-9L) return; /* on a switch of the model: rounding decides */
  ld tol = 1e-9L + 1e-10L * fabsl(k.d);
  CHECK(fabsl(static_cast<ld>(g) - k.d) <= tol, "delay", "delay %.17g m, model %.17Lg m (phase %.6Lg amplitude %.6Lg period %.6Lg local time %.6Lg)", g, k.d, k.x, k.amp, k.per, k.t);
  ev(fabsl(k.x) < 1.57L ? "day" : "night");
  if (k.amp_clip) ev("amp_clipped");
  if (k.per_clip) ev("per_clipped");
  if (k.lat_clip) ev("lat_clipped");
  ld lt = 4.32e4L * lon / geo::PI + t.tow;
  if (lt < 0 || lt >= 86400) ev("wrapped");
  /* a day later, or the longitude a turn further, nothing changes */
  gps_time_t t2 = t;
  t2.tow += t.tow < 518400 ? 86400 : -86400;
  double g2 = calc_ionosphere(&t2, lat, lon, az, el, &i), g3 = calc_ionosphere(&t, lat, lon + (lon < 0 ? 2 : -2) * M_PI, az, el, &i);
  CHECK(fabsl(static_cast<ld>(g2) - k.d) <= tol, "day_period", "a day later %.17g m instead of %.17g m", g2, g);
  CHECK(fabsl(static_cast<ld>(g3) - k.d) <= tol, "lon_period", "with the longitude a turn further %.17g m instead of %.17g m", g3, g);
}

SECTION(pages, 80000, 4000000) {
  Rng &r = c.r;
  int64_t a[4], b[4];
  for (int k = 0; k < 4; k++) a[k] = gen(r, 8, true), b[k] = gen(r, 8, true);
  bool bds = r.coin(0.4);
  Buf<ionosphere_t> o(1);
  memset(static_cast<void *>(o.p), static_cast<int>(r.range(0, 255)), sizeof(ionosphere_t));
  Buf<u32> w(bds ? 10 : 8);
  for (size_t k = 0; k < (bds ? 10 : 8); k++) w[k] = static_cast<u32>(r.range(0, 0x3fffffff));
  if (!bds) {
    int id = r.coin(0.85) ? 1 : static_cast<int>(r.range(0, 3)), sv = static_cast<int>(r.coin(0.6) ? 56 : r.range(0, 63));
    put30(&w[0], 1, 2, static_cast<uint64_t>(id)), put30(&w[0], 3, 6, static_cast<uint64_t>(sv));
    put30(&w[0], 9, 8, static_cast<uint64_t>(a[0])), put30(&w[0], 17, 8, static_cast<uint64_t>(a[1])), put30(&w[1], 1, 8, static_cast<uint64_t>(a[2])), put30(&w[1], 9, 8, static_cast<uint64_t>(a[3]));
    put30(&w[1], 17, 8, static_cast<uint64_t>(b[0])), put30(&w[2], 1, 8, static_cast<uint64_t>(b[1])), put30(&w[2], 9, 8, static_cast<uint64_t>(b[2])), put30(&w[2], 17, 8, static_cast<uint64_t>(b[3]));
    c.describe("GPS words %s data id %d page %d", hex(w.p, 32).c_str(), id, sv);
    c.nt(hbytes(w.p, 32));
    bool ok = decode_iono_parameters(w.p, o.p);
    CHECK(ok == (id == 1 && sv == 56), "kind", "decode_iono_parameters returned %d", ok);
    ev(ok ? "gps_decoded" : "gps_refused");
    if (!ok) return;
  } else {
    unsigned wn = static_cast<unsigned>(r.range(0, 8191));
    put30(&w[2], 1, 13, wn);
    put30(&w[4], 7, 8, static_cast<uint64_t>(a[0])), put30(&w[4], 15, 8, static_cast<uint64_t>(a[1])), put30(&w[5], 1, 8, static_cast<uint64_t>(a[2])), put30(&w[5], 9, 8, static_cast<uint64_t>(a[3]));
    put30(&w[5], 17, 6, static_cast<uint64_t>(b[0] >> 2)), put30(&w[6], 1, 2, static_cast<uint64_t>(b[0])), put30(&w[6], 3, 8, static_cast<uint64_t>(b[1])), put30(&w[6], 11, 8, static_cast<uint64_t>(b[2]));
    put30(&w[6], 19, 4, static_cast<uint64_t>(b[3] >> 4)), put30(&w[7], 1, 4, static_cast<uint64_t>(b[3]));
    c.describe("BeiDou words %s", hex(w.p, 40).c_str());
    c.nt(hbytes(w.p, 40));
    decode_bds_d1_iono(w.p, o.p);
    CHECK(o.p->toa.wn == static_cast<int>(wn) + 1356, "bds_week", "week %d, broadcast %u", o.p->toa.wn, wn);
    ev("bds_decoded");
  }
  static const int ea[4] = {-30, -27, -24, -24}, eb[4] = {11, 14, 16, 16};
  double ga[4] = {o.p->a0, o.p->a1, o.p->a2, o.p->a3}, gb[4] = {o.p->b0, o.p->b1, o.p->b2, o.p->b3};
  static const char *na[4] = {"a0", "a1", "a2", "a3"}, *nb[4] = {"b0", "b1", "b2", "b3"};
  for (int k = 0; k < 4; k++) same(na[k], ga[k], a[k], ea[k], false), same(nb[k], gb[k], b[k], eb[k], false);
}
