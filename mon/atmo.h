/* Independent atmosphere models in long double: Klobuchar (IS-GPS-200 figure 20-4) and UNB3m with Niell mapping. */
#ifndef VERIF_ATMO_H
#define VERIF_ATMO_H
#include "geo.h"
#include <swiftnav/ionosphere.h>
namespace atmo {
typedef long double ld;
struct K {
  ld d, floor, x, amp, per, t;
  bool lat_clip, amp_clip, per_clip;
  ld margin; /* distance to the nearest switch of the model, relative */
};
/* IS-GPS-200 figure 20-4 */
inline K klobuchar(ld tow, ld lat, ld lon, ld az, ld el, const ionosphere_t &i) {
  K k;
  ld E = el / geo::PI, fu = lat / geo::PI, lu = lon / geo::PI;
  ld F = 1.0L + 16.0L * powl(0.53L - E, 3);
  ld psi = 0.0137L / (E + 0.11L) - 0.022L;
  ld fi = fu + psi * cosl(az);
  k.lat_clip = fabsl(fi) > 0.416L;
  if (fi > 0.416L) fi = 0.416L;
  if (fi < -0.416L) fi = -0.416L;
  ld li = lu + psi * sinl(az) / cosl(fi * geo::PI);
  ld fm = fi + 0.064L * cosl((li - 1.617L) * geo::PI);
  ld t = 4.32e4L * li + tow;
  t -= 86400.0L * floorl(t / 86400.0L);
  ld a[4] = {i.a0, i.a1, i.a2, i.a3}, b[4] = {i.b0, i.b1, i.b2, i.b3};
  k.amp = k.per = 0;
  ld p = 1;
  for (int n = 0; n < 4; n++) k.amp += a[n] * p, k.per += b[n] * p, p *= fm;
  k.amp_clip = k.amp < 0, k.per_clip = k.per < 72000;
  if (k.amp < 0) k.amp = 0;
  if (k.per < 72000) k.per = 72000;
  k.x = 2 * geo::PI * (t - 50400) / k.per;
  k.t = t;
  k.floor = F * 5e-9L * 299792458.0L;
  ld T = 5e-9L;
  if (fabsl(k.x) < 1.57L) T += k.amp * (1 - k.x * k.x / 2 + powl(k.x, 4) / 24);
  k.d = F * T * 299792458.0L;
  k.margin = fminl(fabsl(fabsl(k.x) - 1.57L), fminl(t, 86400 - t) / 86400);
  return k;
}

static const ld PI = 3.14159265358979323846264338327950288L;
/* rows 15, 30, 45, 60, 75 degrees: Leandro, Santos, Langley (UNB3m) and Niell (mapping functions) */
struct Row {
  ld P, T, RH, B, L, ha, hb, hc, wa, wb, wc;
};
static const Row AVG[5] = {{1013.25L, 299.65L, 75.0L, 6.30L, 2.77L, 1.2769934e-3L, 2.9153695e-3L, 62.610505e-3L, 5.8021897e-4L, 1.4275268e-3L, 4.3472961e-2L},
                           {1017.25L, 294.15L, 80.0L, 6.05L, 3.15L, 1.2683230e-3L, 2.9152299e-3L, 62.837393e-3L, 5.6794847e-4L, 1.5138625e-3L, 4.6729510e-2L},
                           {1015.75L, 283.15L, 76.0L, 5.58L, 2.57L, 1.2465397e-3L, 2.9288445e-3L, 63.721774e-3L, 5.8118019e-4L, 1.4572752e-3L, 4.3908931e-2L},
                           {1011.75L, 272.15L, 77.5L, 5.39L, 1.81L, 1.2196049e-3L, 2.9022565e-3L, 63.824265e-3L, 5.9727542e-4L, 1.5007428e-3L, 4.4626982e-2L},
                           {1013.00L, 263.65L, 82.5L, 4.53L, 1.55L, 1.2045996e-3L, 2.9024912e-3L, 64.258455e-3L, 6.1641693e-4L, 1.7599082e-3L, 5.4736038e-2L}};
static const Row AMP[5] = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
                           {-3.75L, 7.0L, 0, 0.25L, 0.33L, 1.2709626e-5L, 2.1414979e-5L, 9.0128400e-5L, 0, 0, 0},
                           {-2.25L, 11.0L, -1.0L, 0.32L, 0.46L, 2.6523662e-5L, 3.0160779e-5L, 4.3497037e-5L, 0, 0, 0},
                           {-1.75L, 15.0L, -2.5L, 0.81L, 0.74L, 3.4000452e-5L, 7.2562722e-5L, 84.795348e-5L, 0, 0, 0},
                           {-0.50L, 14.5L, 2.5L, 0.62L, 0.30L, 4.1202191e-5L, 11.723375e-5L, 170.37206e-5L, 0, 0, 0}};
inline ld frac(ld a, ld b, ld c, ld s) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
inline ld unb3m(ld doy, ld lat, ld h, ld el) {
  if (h > 11000) return 0;
  if (h < 0) h = 0;
  ld e = el * 180 / PI < 0.1L ? 0.1L * PI / 180 : el;
  ld ld_ = fabsl(lat) * 180 / PI;
  if (ld_ < 15) ld_ = 15;
  if (ld_ > 75) ld_ = 75;
  ld season = cosl(2 * PI * (doy - 28 + (lat < 0 ? 365.25L / 2 : 0)) / 365.25L);
  auto at = [&](ld Row::*m) {
    int k = ld_ >= 75 ? 3 : static_cast<int>((ld_ - 15) / 15);
    ld f = (ld_ - 15 - 15 * k) / 15;
    ld av = AVG[k].*m * (1 - f) + AVG[k + 1].*m * f, am = AMP[k].*m * (1 - f) + AMP[k + 1].*m * f;
    return av - am * season;
  };
  ld P0 = at(&Row::P), T0 = at(&Row::T), RH = at(&Row::RH), B = at(&Row::B) / 1000, L = at(&Row::L) + 1;
  ld es = 0.01L * expl(1.2378847e-5L * T0 * T0 - 1.9121316e-2L * T0 + 33.93711047L - 6343.1645L / T0);
  ld tc = T0 - 273.15L, fw = 1.00062L + 3.14e-6L * P0 + 5.6e-7L * tc * tc;
  ld e0 = RH / 100 * es * fw, Rd = 8314.34L / 28.9644L, k2 = 64.79L - 77.604L * 18.0152L / 28.9644L;
  ld T = T0 - B * h, g = 9.80665L / (287.054L * B), P = P0 * powl(T / T0, g), ev_ = e0 * powl(T / T0, g * L);
  ld psi = atanl((1 - 6.6943799901413e-3L) * tanl(lat)), gr = 1 - 2.66e-3L * cosl(2 * psi) - 2.8e-7L * h, gm = 9.784L * gr;
  ld Tm = T * (1 - B * Rd / (gm * L));
  ld zhd = 2.2768e-3L / gr * P, zwd = 1e-6L * (k2 + 377600 / Tm) * Rd * ev_ / (gm * L);
  ld s = sinl(e), mh = frac(at(&Row::ha), at(&Row::hb), at(&Row::hc), s) + (1 / s - frac(2.53e-5L, 5.49e-3L, 1.14e-3L, s)) * h / 1000, mw = frac(at(&Row::wa), at(&Row::wb), at(&Row::wc), s);
  return mh * zhd + mw * zwd;
}
}  // namespace atmo
#endif
