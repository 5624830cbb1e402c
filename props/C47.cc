// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/glo_map.h>
#include <swiftnav/nav_meas.h>
using namespace mon;
typedef long double ld;
RULE("lock: lock times over all magnitudes, every millisecond class and its borders, non-finite excluded, every encoded byte; corrections: every signal (GLONASS FDMA with every frequency slot) and clock states over all magnitudes; "
     "equality: random measurements, identical copies and copies with exactly one field changed by more than the documented resolution; flags: all 65536 flag words; sorting: shuffled signal lists. Non-trivial: every case; identity = the input.");
NEED(lock, 60000);
NEED(lock_border, 10000);
NEED(lock_long, 5000);
NEED(lock_pairs, 60000);
NEED(decode, 256);
NEED(correction, 60000);
NEED(correction_glo, 5000);
NEED(equal, 20000);
NEED(differs, 40000);
NEED(std_equal, 5000);
NEED(std_differs, 10000);
NEED(nonfinite, 3000);
NEED(flag_words, 65536);
NEED(sorted, 2000);

/* DF402: 0 below 32 ms, then doubling classes, the last one open */
static int cls(ld ms) {
  int k = 0;
  for (ld lim = 32; k < 15 && ms >= lim; lim *= 2) k++;
  return k;
}
static double gen_lock(Rng &r, bool &border) {
  border = false;
  switch (r.range(0, 9)) {
    case 0: return r.pick<double>({0.0, 4294967.0, 4294967.295, 4294967.296, 4294968, 4294967295.0, 4294967296.0, 1e12, 1e300, 1.7976931348623157e308, 5e-324});
    case 1: return exp(r.uniform(log(4e6), log(1e10)));
    case 2:
    case 3: {
      border = true;
      double b = 0.032 * static_cast<double>(1 << r.range(0, 15));
      return r.coin(0.4) ? b : r.coin() ? b * (1 + r.logmag(1e-12, 1e-2)) : b + 1e-3 * static_cast<double>(r.range(-2, 2));
    }
    case 4: return 1e-3 * static_cast<double>(r.range(0, 600000));
    default: return exp(r.uniform(log(1e-4), log(1e4)));
  }
}
SECTION(lock, 150000, 6000000) {
  bool border, b2;
  double t = gen_lock(c.r, border), u = gen_lock(c.r, b2);
  c.describe("lock times %.17g and %.17g s", t, u);
  c.nt(hcombine(hd(t), hd(u)));
  u8 e = encode_lock_time(t), f = encode_lock_time(u);
  ev("lock"), ev("lock_pairs");
  if (border) ev("lock_border");
  if (t > 4294967) ev("lock_long");
  ld ms = static_cast<ld>(t) * 1000;
  /* either side of a border is allowed only within rounding of the conversion to milliseconds */
  int lo = cls(ms * (1 - 1e-15L)), hi = cls(ms * (1 + 1e-15L));
  CHECK(e == lo || e == hi, "encode", "encoded as %d, class is %d", e, lo);
  CHECK(t <= u ? e <= f : f <= e, "monotonic", "%.17g encodes to %d but %.17g to %d", t, e, u, f);
  double d = decode_lock_time(e);
  CHECK(d <= t * (1 + 1e-15), "overstated", "decodes to %.17g s", d);
  CHECK(e == 15 || t < (e == 0 ? 0.032 : 2 * d) * (1 + 1e-15), "understated", "decodes to %.17g s", d);
}
SECTION(decode, 256, 256) {
  u8 v = static_cast<u8>(c.idx);
  c.describe("byte %u", v);
  c.nt(v);
  ev("decode");
  double want = (v & 15) ? 0.001 * ldexp(1, (v & 15) + 4) : 0, got = decode_lock_time(v);
  CHECK(rclose(got, want, 1e-15), "decode", "%.17g s, expected %.17g s", got, want);
  CHECK(encode_lock_time(got) == (v & 15), "roundtrip", "%.17g s encodes to %d", got, encode_lock_time(got));
}
static void gen_nm(Rng &r, navigation_measurement_t *m) {
  r.bytes(m, sizeof *m); /* padding must not matter */
  auto mag = [&](double hi) { return r.coin(0.1) ? 0.0 : r.coin() ? r.uniform(-hi, hi) : r.logmag(hi * 1e-9, hi); };
  m->raw_pseudorange = 2e7 + mag(2e7);
  m->raw_carrier_phase = mag(1e8);
  m->raw_measured_doppler = mag(6000);
  m->raw_computed_doppler = mag(6000);
  for (int i = 0; i < 3; i++) m->sat_pos[i] = mag(4e7), m->sat_vel[i] = mag(4000), m->sat_acc[i] = mag(1);
  m->eph_key = static_cast<u16>(r.u64());
  m->sat_clock_err = mag(1e-2);
  m->sat_clock_err_rate = mag(1e-8);
  m->cn0 = r.uniform(0, 64);
  m->lock_time = r.uniform(0, 1e4);
  m->elevation = r.uniform(-90, 90);
  m->tot.wn = static_cast<s16>(r.range(1, 4000));
  m->tot.tow = r.uniform(0, 604800);
  m->sid = r.pick(gnss::all_sids());
  m->flags = static_cast<nav_meas_flags_t>(r.u64());
}
SECTION(corrections, 150000, 4000000) {
  navigation_measurement_t m;
  gen_nm(c.r, &m);
  const gnss::SigPlan *p = nullptr;
  ld freq = 0;
  glo_map_clear_all();
  do {
    m.sid = c.r.pick(gnss::all_sids());
    if (c.r.coin(0.1)) m.sid = gnss::sid(c.r.coin() ? CODE_GLO_L1OF : CODE_GLO_L2OF, static_cast<unsigned>(c.r.range(1, 28)));
    p = gnss::plan_of(m.sid.code);
    freq = p->f0_mult * 1.023e6L;
  } while (p->f0_mult == 0 && m.sid.code != CODE_GLO_L1OF && m.sid.code != CODE_GLO_L2OF);
  int fcn = 0;
  if (p->f0_mult == 0) {
    fcn = static_cast<int>(c.r.range(1, 14));
    glo_map_set_slot_id(static_cast<u16>(fcn), m.sid.sat);
    freq = m.sid.code == CODE_GLO_L1OF ? 1602e6L + (fcn - 8) * 562500.0L : 1246e6L + (fcn - 8) * 437500.0L;
    ev("correction_glo");
  }
  if (c.r.coin(0.2)) m.raw_pseudorange = 0, m.raw_carrier_phase = 0, m.raw_measured_doppler = 0;
  c.describe("%s fcn %d pr %.17g cp %.17g dop %.17g clk %.17g rate %.17g", gnss::str(m.sid).c_str(), fcn, m.raw_pseudorange, m.raw_carrier_phase, m.raw_measured_doppler, m.sat_clock_err, m.sat_clock_err_rate);
  c.nt(hcombine(hcombine(static_cast<u64>(m.sid.code), static_cast<u64>(fcn)), hd(m.sat_clock_err)));
  ev("correction");
  std::string before(reinterpret_cast<char *>(&m), sizeof m);
  auto chk = [&](const char *key, double got, ld raw, ld shift) {
    CHECK(fabsl(got - (raw + shift)) <= 1e-15L * (fabsl(raw) + fabsl(shift)) * 4, key, "%.17g, expected %.17Lg", got, raw + shift);
  };
  chk("pseudorange", nav_meas_cor_sat_clk_on_pseudorange(&m), m.raw_pseudorange, 299792458.0L * m.sat_clock_err);
  chk("doppler", nav_meas_cor_sat_clk_on_measured_doppler(&m), m.raw_measured_doppler, -freq * m.sat_clock_err_rate);
  chk("carrier_phase", nav_meas_cor_sat_clk_on_carrier_phase(&m), m.raw_carrier_phase, freq * m.sat_clock_err);
  CHECK(!memcmp(before.data(), &m, sizeof m), "input_modified", "the measurement was modified");
  glo_map_clear_all();
}
/* change x by an amount the comparison has to see */
static bool bump(Rng &r, double &x) {
  double d = r.coin(0.3) ? r.logmag(2e-12, 1e-9) : r.coin() ? r.logmag(1e-9, 1e3) : (x != 0 ? x * r.logmag(1e-9, 2) : 1), y = x + d;
  if (fabs(y - x) < 1.5e-12) return false;
  x = y;
  return true;
}
SECTION(equality, 120000, 4000000) {
  navigation_measurement_t a, b;
  gen_nm(c.r, &a);
  c.r.bytes(&b, sizeof b);
#define CP(F) b.F = a.F
  CP(raw_pseudorange), CP(raw_carrier_phase), CP(raw_measured_doppler), CP(raw_computed_doppler), CP(eph_key), CP(sat_clock_err), CP(sat_clock_err_rate), CP(cn0), CP(lock_time), CP(elevation), CP(flags);
  b.tot.wn = a.tot.wn, b.tot.tow = a.tot.tow, b.sid.sat = a.sid.sat, b.sid.code = a.sid.code;
  memcpy(b.sat_pos, a.sat_pos, 24), memcpy(b.sat_vel, a.sat_vel, 24), memcpy(b.sat_acc, a.sat_acc, 24);
  c.nt(hcombine(hd(a.raw_pseudorange), hd(a.raw_carrier_phase)));
  c.describe("copies of a measurement of %s", gnss::str(a.sid).c_str());
  CHECK(nav_meas_equal(&a, &b) && nav_meas_equal(&b, &a), "equal", "identical fields but not equal");
  ev("equal");
  static const char *names[] = {"raw_pseudorange", "raw_carrier_phase", "raw_measured_doppler", "raw_computed_doppler", "sat_pos[0]", "sat_pos[1]", "sat_pos[2]", "sat_vel[0]", "sat_vel[1]", "sat_vel[2]", "sat_acc[0]", "sat_acc[1]", "sat_acc[2]",
                                "sat_clock_err", "sat_clock_err_rate", "cn0", "lock_time", "elevation", "tot.tow", "tot.wn", "eph_key", "sid.sat", "sid.code", "flags"};
  int k = static_cast<int>(c.r.range(0, 23));
  double *f[] = {&b.raw_pseudorange, &b.raw_carrier_phase, &b.raw_measured_doppler, &b.raw_computed_doppler, &b.sat_pos[0], &b.sat_pos[1], &b.sat_pos[2], &b.sat_vel[0], &b.sat_vel[1], &b.sat_vel[2],
                 &b.sat_acc[0], &b.sat_acc[1], &b.sat_acc[2], &b.sat_clock_err, &b.sat_clock_err_rate, &b.cn0, &b.lock_time, &b.elevation};
  if (k < 18 && c.r.coin(0.1)) { /* one side is not a number, or infinite */
    *f[k] = c.r.pick<double>({NAN, HUGE_VAL, -HUGE_VAL});
    ev("nonfinite");
  } else if (k < 18) {
    if (!bump(c.r, *f[k])) return;
  } else if (k == 18) {
    b.tot.tow = c.r.coin() ? c.r.uniform(0, 604800) : a.tot.tow + c.r.logmag(1e-6, 10);
    if (fabs(b.tot.tow - a.tot.tow) < 1e-7) return;
  } else if (k == 19) {
    b.tot.wn = static_cast<s16>(a.tot.wn + (c.r.coin() ? 1 : -1));
  } else if (k == 20) {
    b.eph_key = static_cast<u16>(a.eph_key ^ (1u << c.r.range(0, 15)));
  } else if (k == 21) {
    b.sid.sat = static_cast<u16>(a.sid.sat + (c.r.coin() ? 1 : -1));
  } else if (k == 22) {
    do b.sid.code = c.r.pick(gnss::all_sids()).code;
    while (b.sid.code == a.sid.code);
  } else {
    b.flags = static_cast<nav_meas_flags_t>(a.flags ^ (1u << c.r.range(0, 15)));
  }
  c.describe("%s changed: pr %.17g/%.17g clk %.17g/%.17g tow %.17g/%.17g", names[k], a.raw_pseudorange, b.raw_pseudorange, a.sat_clock_err, b.sat_clock_err, a.tot.tow, b.tot.tow);
  CHECK(!nav_meas_equal(&a, &b) && !nav_meas_equal(&b, &a), "differs", "%s differs but compared equal", names[k]);
  ev("differs");
}
SECTION(std_equality, 30000, 1000000) {
  measurement_std_t a, b;
  c.r.bytes(&a, sizeof a), c.r.bytes(&b, sizeof b);
  a.sid = c.r.pick(gnss::all_sids());
  a.iono_std = c.r.uniform(0, 50), a.tropo_std = c.r.uniform(0, 10), a.range_std = c.r.uniform(0, 100), a.flags = static_cast<u8>(c.r.range(0, 31));
  b.sid.sat = a.sid.sat, b.sid.code = a.sid.code, b.iono_std = a.iono_std, b.tropo_std = a.tropo_std, b.range_std = a.range_std, b.flags = a.flags;
  c.nt(hcombine(hd(a.iono_std), hd(a.range_std)));
  c.describe("copies of %s", gnss::str(a.sid).c_str());
  CHECK(measurement_std_equal(&a, &b), "std_equal", "identical fields but not equal");
  ev("std_equal");
  int k = static_cast<int>(c.r.range(0, 5));
  if (k < 3 && c.r.coin(0.1)) (k == 0 ? b.iono_std : k == 1 ? b.tropo_std : b.range_std) = c.r.pick<double>({NAN, HUGE_VAL, -HUGE_VAL});
  else if (k < 3 && !bump(c.r, k == 0 ? b.iono_std : k == 1 ? b.tropo_std : b.range_std)) return;
  if (k == 3) b.flags = static_cast<u8>(a.flags ^ (1 << c.r.range(0, 7)));
  if (k == 4) b.sid.sat = static_cast<u16>(a.sid.sat + 1);
  if (k == 5) {
    do b.sid.code = c.r.pick(gnss::all_sids()).code;
    while (b.sid.code == a.sid.code);
  }
  c.describe("field %d of %s changed", k, gnss::str(a.sid).c_str());
  CHECK(!measurement_std_equal(&a, &b) && !measurement_std_equal(&b, &a), "std_differs", "field %d differs but compared equal", k);
  ev("std_differs");
}
SECTION(flags, 65536, 65536) {
  unsigned w = static_cast<unsigned>(c.idx);
  c.describe("flags 0x%04x", w);
  c.nt(w);
  ev("flag_words");
  navigation_measurement_t m;
  gen_nm(c.r, &m);
  m.flags = static_cast<nav_meas_flags_t>(w);
  bool want = (w & 1) && !(w & 64);
  CHECK(pseudorange_valid(&m) == want, "pseudorange_valid", "%d", pseudorange_valid(&m));
  /* documented mask: any combination of the six tracking flags; the empty word and the exclusion flag are not judged */
  if (w != 0 && !(w & 64)) CHECK(nav_meas_flags_valid(m.flags) == !(w & ~0x3fu), "flags_valid", "%d", nav_meas_flags_valid(m.flags));
  CHECK(not_l2p_sid(m) == (m.sid.code != CODE_GPS_L2P), "not_l2p", "%s", gnss::str(m.sid).c_str());
}
SECTION(sorting, 6000, 200000) {
  size_t n = static_cast<size_t>(c.r.range(0, 63));
  Buf<navigation_measurement_t> v(n);
  for (size_t i = 0; i < n; i++) {
    gen_nm(c.r, &v[i]);
    if (c.r.coin()) v[i].sid = gnss::sid(c.r.pick<code_t>({CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GAL_E1B}), static_cast<unsigned>(c.r.range(1, 32)));
  }
  c.describe("%zu measurements", n);
  if (n) c.nt(hbytes(v.p, n * sizeof *v.p));
  std::multiset<u32> before, after;
  for (size_t i = 0; i < n; i++) before.insert(static_cast<u32>(v[i].sid.code) << 16 | v[i].sid.sat);
  for (size_t i = 0; i + 1 < n; i++) {
    int x = nav_meas_cmp(&v[i], &v[i + 1]), y = nav_meas_cmp(&v[i + 1], &v[i]);
    bool same = v[i].sid.code == v[i + 1].sid.code && v[i].sid.sat == v[i + 1].sid.sat;
    CHECK((x == 0) == same && (x > 0) == (y < 0) && nav_meas_cmp(&v[i], &v[i]) == 0, "cmp", "%s vs %s: %d and %d", gnss::str(v[i].sid).c_str(), gnss::str(v[i + 1].sid).c_str(), x, y);
  }
  if (n) qsort(v.p, n, sizeof *v.p, nav_meas_cmp);
  for (size_t i = 0; i < n; i++) {
    after.insert(static_cast<u32>(v[i].sid.code) << 16 | v[i].sid.sat);
    for (size_t j = i + 1; j < n; j++) {
      CHECK(nav_meas_cmp(&v[i], &v[j]) <= 0, "sort", "%s after %s", gnss::str(v[i].sid).c_str(), gnss::str(v[j].sid).c_str());
      if (v[i].sid.code == v[j].sid.code) CHECK(v[i].sid.sat <= v[j].sid.sat, "sort_sat", "%s after %s", gnss::str(v[i].sid).c_str(), gnss::str(v[j].sid).c_str());
    }
  }
  CHECK(before == after, "sort_content", "sorting changed the signals");
  ev("sorted");
}
