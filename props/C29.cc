// @run variant=asan shards=8
#include "gnss.h"
#include "timeref.h"
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/ionosphere.h>
using namespace mon;
using namespace tref;
RULE("case = ephemeris or almanac of a supported constellation with plausible parameters, assembled twice field by field over different memory fills: the two compare equal (reflexive, symmetric); then every single field is changed "
     "in turn by an amount above the documented comparison tolerance and must make them unequal; fields documented as ignored must not. Non-trivial: every case; identity = contents.");
NEED(eph_mutations, 300000);
NEED(alm_mutations, 100000);
NEED(equal_pairs, 20000);
NEED(ignored_fields, 20000);
NEED(iono_mutations, 30000);

struct Fld {
  const char *name;
  size_t off;
  char type; /* d double, f float, h u16, b u8, s s16, u u32 */
  double scale;
};
#define KF(x, s) {#x, offsetof(ephemeris_t, data.kepler.x), 'd', s}
static const std::vector<Fld> &kepler() {
  static const std::vector<Fld> v = {KF(crc, 300), KF(crs, 100), KF(cuc, 1e-5), KF(cus, 1e-5), KF(cic, 1e-6), KF(cis, 1e-6), KF(dn, 5e-9), KF(m0, 3), KF(ecc, 0.02), KF(sqrta, 5153), KF(omega0, 3), KF(omegadot, 8e-9), KF(w, 3), KF(inc, 1),
                                     KF(inc_dot, 5e-10), KF(af0, 1e-4), KF(af1, 1e-10), KF(af2, 1e-11), {"toc.tow", offsetof(ephemeris_t, data.kepler.toc.tow), 'd', 6e5}, {"toc.wn", offsetof(ephemeris_t, data.kepler.toc.wn), 's', 2000},
                                     {"iodc", offsetof(ephemeris_t, data.kepler.iodc), 'h', 1023}, {"iode", offsetof(ephemeris_t, data.kepler.iode), 'h', 255}, {"tgd0", offsetof(ephemeris_t, data.kepler.tgd.gps_s[0]), 'f', 1e-8},
                                     {"tgd1", offsetof(ephemeris_t, data.kepler.tgd.gps_s[1]), 'f', 1e-8}};
  return v;
}
static const std::vector<Fld> &xyz() {
  static std::vector<Fld> v;
  if (v.empty()) {
    for (size_t i = 0; i < 3; i++) v.push_back({"pos", offsetof(ephemeris_t, data.xyz.pos) + 8 * i, 'd', 4e7}), v.push_back({"vel", offsetof(ephemeris_t, data.xyz.vel) + 8 * i, 'd', 30}), v.push_back({"acc", offsetof(ephemeris_t, data.xyz.acc) + 8 * i, 'd', 1e-4});
    v.push_back({"a_gf0", offsetof(ephemeris_t, data.xyz.a_gf0), 'd', 1e-6});
    v.push_back({"a_gf1", offsetof(ephemeris_t, data.xyz.a_gf1), 'd', 1e-9});
  }
  return v;
}
static const std::vector<Fld> &glo() {
  static std::vector<Fld> v;
  if (v.empty()) {
    for (size_t i = 0; i < 3; i++) v.push_back({"pos", offsetof(ephemeris_t, data.glo.pos) + 8 * i, 'd', 2.5e7}), v.push_back({"vel", offsetof(ephemeris_t, data.glo.vel) + 8 * i, 'd', 3e3}), v.push_back({"acc", offsetof(ephemeris_t, data.glo.acc) + 8 * i, 'd', 5e-6});
    v.push_back({"gamma", offsetof(ephemeris_t, data.glo.gamma), 'd', 1e-9});
    v.push_back({"tau", offsetof(ephemeris_t, data.glo.tau), 'd', 1e-3});
    v.push_back({"d_tau", offsetof(ephemeris_t, data.glo.d_tau), 'd', 1e-8});
    v.push_back({"fcn", offsetof(ephemeris_t, data.glo.fcn), 'h', 14});
    v.push_back({"iod", offsetof(ephemeris_t, data.glo.iod), 'b', 127});
  }
  return v;
}
#define AK(x, s) {#x, offsetof(almanac_t, data.kepler.x), 'd', s}
#define AG(x, s) {#x, offsetof(almanac_t, data.glo.x), 'd', s}
static const std::vector<Fld> &akepler() {
  static const std::vector<Fld> v = {AK(m0, 3), AK(ecc, 0.02), AK(sqrta, 5153), AK(omega0, 3), AK(omegadot, 8e-9), AK(w, 3), AK(inc, 1), AK(af0, 1e-4), AK(af1, 1e-10)};
  return v;
}
static const std::vector<Fld> &aglo() {
  static const std::vector<Fld> v = {AG(lambda, 1), AG(t_lambda, 4e4), AG(i, 0.4), AG(t, 4e4), AG(t_dot, 1e-3), AG(epsilon, 0.01), AG(omega, 1)};
  return v;
}
static const std::vector<Fld> &axyz() {
  static std::vector<Fld> v;
  if (v.empty())
    for (size_t i = 0; i < 3; i++) v.push_back({"pos", offsetof(almanac_t, data.xyz.pos) + 8 * i, 'd', 4e7}), v.push_back({"vel", offsetof(almanac_t, data.xyz.vel) + 8 * i, 'd', 30}), v.push_back({"acc", offsetof(almanac_t, data.xyz.acc) + 8 * i, 'd', 1e-4});
  return v;
}
static void set(char *p, const Fld &f, Rng &r) {
  switch (f.type) {
    case 'd': *reinterpret_cast<double *>(p + f.off) = r.coin(0.1) ? 0 : r.uniform(-f.scale, f.scale); break;
    case 'f': *reinterpret_cast<float *>(p + f.off) = static_cast<float>(r.uniform(-f.scale, f.scale)); break;
    case 'h': *reinterpret_cast<u16 *>(p + f.off) = static_cast<u16>(r.range(0, static_cast<int>(f.scale))); break;
    case 's': *reinterpret_cast<s16 *>(p + f.off) = static_cast<s16>(r.range(1, static_cast<int>(f.scale))); break;
    case 'b': *reinterpret_cast<u8 *>(p + f.off) = static_cast<u8>(r.range(0, static_cast<int>(f.scale))); break;
    case 'u': *reinterpret_cast<u32 *>(p + f.off) = static_cast<u32>(r.range(0, static_cast<int>(f.scale))); break;
  }
}
/* change by more than the tolerance of 1e-12 (and more than rounding) */
static void change(char *p, const Fld &f, Rng &r) {
  double m = r.coin() ? fmax(3e-12, f.scale * 1e-9) : fmax(3e-12, f.scale * r.uniform(1e-6, 1));
  if (r.coin()) m = -m;
  switch (f.type) {
    case 'd': *reinterpret_cast<double *>(p + f.off) += m; break;
    case 'f': *reinterpret_cast<float *>(p + f.off) += static_cast<float>(r.coin() ? 1e-10 : -4e-9); break;
    case 'h': *reinterpret_cast<u16 *>(p + f.off) ^= static_cast<u16>(1u << r.range(0, 15)); break;
    case 's': *reinterpret_cast<s16 *>(p + f.off) = static_cast<s16>(*reinterpret_cast<s16 *>(p + f.off) + (r.coin() ? 1 : -1)); break;
    case 'b': *reinterpret_cast<u8 *>(p + f.off) ^= static_cast<u8>(1u << r.range(0, 7)); break;
    case 'u': *reinterpret_cast<u32 *>(p + f.off) ^= 1u << r.range(0, 20); break;
  }
}
static void copyf(char *d, const char *s, const Fld &f) { memcpy(d + f.off, s + f.off, f.type == 'd' ? 8 : f.type == 'f' || f.type == 'u' ? 4 : f.type == 'b' ? 1 : 2); }

template <class T>
static void run(mon::Ctx &c, const std::vector<Fld> &fields, const std::vector<Fld> &ignored, gnss_signal_t s, code_t other, bool (*eq)(const T *, const T *), const char *evn) {
  Buf<T> A(1), B(1);
  char *a = reinterpret_cast<char *>(A.p), *b = reinterpret_cast<char *>(B.p);
  c.r.bytes(a, sizeof(T));
  c.r.bytes(b, sizeof(T));
  A[0].sid.code = B[0].sid.code = s.code;
  A[0].sid.sat = B[0].sid.sat = s.sat;
  for (auto &f : ignored) set(a, f, c.r), copyf(b, a, f);
  for (auto &f : fields) set(a, f, c.r), copyf(b, a, f);
  c.nt(hbytes(a, sizeof(T)));
  CHECK(eq(A.p, A.p), "reflexive", "not equal to itself");
  CHECK(eq(A.p, B.p) && eq(B.p, A.p), "equal", "same contents in different memory compare unequal");
  ev("equal_pairs");
  for (auto &f : fields) {
    T keep = B[0];
    char before[8];
    memcpy(before, b + f.off, 1);
    change(b, f, c.r);
    CHECK(!eq(A.p, B.p) && !eq(B.p, A.p), "unequal", "a change of %s (offset %zu) is not noticed: %s", f.name, f.off, f.type == 'd' ? (std::to_string(*reinterpret_cast<double *>(a + f.off))).c_str() : "integer/float field");
    B[0] = keep;
    ev(evn);
  }
  for (auto &f : ignored) {
    T keep = B[0];
    change(b, f, c.r);
    CHECK(eq(A.p, B.p) && eq(B.p, A.p), "ignored", "a change of the ignored field %s makes them unequal", f.name);
    B[0] = keep;
    ev("ignored_fields");
  }
  T keep = B[0];
  B[0].sid.sat = static_cast<u16>(B[0].sid.sat + (c.r.coin() ? 1 : -1));
  CHECK(!eq(A.p, B.p) && !eq(B.p, A.p), "sid", "a change of the satellite is not noticed");
  B[0] = keep;
  B[0].sid.code = other;
  CHECK(!eq(A.p, B.p), "sid", "a change of the code is not noticed");
  ev(evn, 2);
}

SECTION(ephemeris, 12000, 400000) {
  static const std::vector<Fld> common = {{"valid", offsetof(ephemeris_t, valid), 'b', 1}, {"health_bits", offsetof(ephemeris_t, health_bits), 'b', 255}, {"toe.wn", offsetof(ephemeris_t, toe.wn), 's', 3000}, {"toe.tow", offsetof(ephemeris_t, toe.tow), 'd', 6e5}};
  static const std::vector<Fld> ign = {{"ura", offsetof(ephemeris_t, ura), 'f', 10}, {"fit_interval", offsetof(ephemeris_t, fit_interval), 'u', 20000}};
  struct K {
    code_t code, other;
    const std::vector<Fld> &f;
  };
  static const std::vector<K> kinds = {{CODE_GPS_L1CA, CODE_GPS_L2CM, kepler()}, {CODE_QZS_L1CA, CODE_GPS_L1CA, kepler()}, {CODE_GAL_E1B, CODE_GAL_E7I, kepler()}, {CODE_BDS2_B1, CODE_BDS2_B2, kepler()},
                                       {CODE_BDS3_B1CI, CODE_BDS2_B1, kepler()}, {CODE_SBAS_L1CA, CODE_AUX_SBAS, xyz()},      {CODE_GLO_L1OF, CODE_GLO_L2OF, glo()}};
  const K &k = c.r.pick(kinds);
  const auto &cp = gnss::cons_of(gnss::plan_of(k.code)->cons);
  std::vector<Fld> f = k.f;
  f.insert(f.end(), common.begin(), common.end());
  c.describe("ephemeris of code %d", k.code);
  run<ephemeris_t>(c, f, ign, gnss::sid(k.code, cp.first + 1 + static_cast<unsigned>(c.r.range(0, cp.count - 3))), k.other, ephemeris_equal, "eph_mutations");
}
SECTION(almanac, 8000, 300000) {
  static const std::vector<Fld> common = {{"valid", offsetof(almanac_t, valid), 'b', 1}, {"health_bits", offsetof(almanac_t, health_bits), 'b', 255}, {"toa.wn", offsetof(almanac_t, toa.wn), 's', 3000}, {"toa.tow", offsetof(almanac_t, toa.tow), 'd', 6e5},
                                          {"ura", offsetof(almanac_t, ura), 'f', 1e-8}, {"fit_interval", offsetof(almanac_t, fit_interval), 'u', 20000}};
  struct K {
    code_t code, other;
    const std::vector<Fld> &f;
  };
  static const std::vector<K> kinds = {{CODE_GPS_L1CA, CODE_GPS_L2CM, akepler()}, {CODE_SBAS_L1CA, CODE_AUX_SBAS, axyz()}, {CODE_GLO_L1OF, CODE_GLO_L2OF, aglo()}};
  const K &k = c.r.pick(kinds);
  const auto &cp = gnss::cons_of(gnss::plan_of(k.code)->cons);
  std::vector<Fld> f = k.f;
  f.insert(f.end(), common.begin(), common.end());
  c.describe("almanac of code %d", k.code);
  run<almanac_t>(c, f, {}, gnss::sid(k.code, cp.first + 1 + static_cast<unsigned>(c.r.range(0, cp.count - 3))), k.other, almanac_equal, "alm_mutations");
}
/* coefficients of the ionosphere model (C++ operator) */
SECTION(ionosphere, 5000, 100000) {
  Rng &r = c.r;
  ionosphere_t q[2];
  memset(&q[0], 0x5a, sizeof q[0]), memset(&q[1], 0xa5, sizeof q[1]);
  double v[8];
  for (int i = 0; i < 8; i++) v[i] = r.coin(0.1) ? 0 : i < 4 ? r.uniform(-2e-7, 2e-7) : r.uniform(-1e6, 1e6);
  gps_time_t toa = mk(static_cast<int>(r.range(10, 4000)), floor(r.uniform(0, 604800)));
  for (auto &x : q) x.toa = toa, x.a0 = v[0], x.a1 = v[1], x.a2 = v[2], x.a3 = v[3], x.b0 = v[4], x.b1 = v[5], x.b2 = v[6], x.b3 = v[7];
  CHECK(q[0] == q[1] && q[1] == q[0] && q[0] == q[0], "iono_equal", "equal coefficients compare unequal");
  double *f[] = {&q[1].a0, &q[1].a1, &q[1].a2, &q[1].a3, &q[1].b0, &q[1].b1, &q[1].b2, &q[1].b3, &q[1].toa.tow};
  static const char *const n[] = {"a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "toa.tow"};
  for (int i = 0; i < 9; i++) {
    double keep = *f[i], d = fabs(r.logmag(1e-10, 1)) * (i < 4 ? 1e-3 : i < 8 ? 1e5 : 1e3);
    d = i < 4 ? (d < 2e-11 ? 2e-11 : d) : d < 1e-6 ? 1e-6 : d;
    *f[i] = r.coin() && (i < 8 || keep > d) ? keep - d : keep + d;
    if (i == 8 && *f[i] >= 604800) *f[i] = keep - d;
    CHECK(!(q[0] == q[1]) && !(q[1] == q[0]), "iono_unequal", "a change of %s from %.17g to %.17g is not noticed", n[i], keep, *f[i]);
    *f[i] = keep;
    ev("iono_mutations");
  }
  q[1].toa.wn = static_cast<s16>(q[1].toa.wn + (r.coin() ? 1 : -1));
  CHECK(!(q[0] == q[1]) && !(q[1] == q[0]), "iono_unequal", "a change of toa.wn is not noticed");
  c.describe("ionosphere a0 %.9g b0 %.9g toa %d %.0f", v[0], v[4], toa.wn, toa.tow);
  c.nt(hcombine(hd(v[0]), hcombine(hd(v[4]), hd(toa.tow))));
}
