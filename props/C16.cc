// @run variant=asan shards=8
#include "mon.h"
#include "timeref.h"
using namespace mon;
using namespace tref;
RULE("normalize: (week, seconds) incl. boundaries, negatives, thousands of weeks, non-finite, unknown and invalid weeks -> canonical form, same instant in 64-bit-mantissa arithmetic, refusal exactly when "
     "no valid week remains. add_diff: add then subtract, antisymmetry, comparison operators, durations. range: gpstime_in_range and the validity predicates. Non-trivial: every case; identity = inputs.");
NEED(normalized, 50000);
NEED(refused, 5000);
NEED(unknown_week, 5000);
NEED(nonfinite, 2000);
NEED(added, 50000);
NEED(durations, 50000);
NEED(in_range_true, 5000);
NEED(in_range_false, 5000);
NEED(valid_predicates, 50000);

static double gen_secs(Rng &r) {
  switch (r.range(0, 11)) {
    case 0: return 0;
    case 1: return r.logmag(1e-320, 1e-9);
    case 2: return r.logmag(1e-12, 1);
    case 3: return static_cast<double>(r.range(-10, 10)) * W;
    case 4: {
      double b = static_cast<double>(r.range(-10, 10)) * W;
      return nextafter(b, r.coin() ? 1e30 : -1e30);
    }
    case 5: return static_cast<double>(r.range(-3 * W, 3 * W));
    case 6: return r.uniform(-2.0 * W, 2.0 * W);
    case 7: return r.uniform(-1.9e10, 1.9e10);
    case 8: return static_cast<double>(r.range(-32000, 32000)) * W;
    case 9: return -nextafter(604800.0, 0);
    default: return r.uniform(-W, W);
  }
}
static q128 tol(q128 x) { return (fabsl(x) > W ? fabsl(x) : q128(W)) * 1e-15L; }
static std::string S(const gps_time_t &t) {
  char b[64];
  snprintf(b, sizeof b, "(wn %d tow %.17g)", t.wn, t.tow);
  return b;
}

SECTION(normalize, 120000, 4000000) {
  gps_time_t t = mk(static_cast<int>(c.r.edgy(0, 32767)), gen_secs(c.r) + (c.r.coin(0.3) ? gen_tow(c.r) : 0));
  int kind = static_cast<int>(c.r.range(0, 19));
  if (kind <= 1) t.wn = WN_UNKNOWN;
  if (kind == 2) t.wn = static_cast<s16>(c.r.edgy(-32768, -2));
  if (kind == 3) t.tow = c.r.pick<double>({NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e16, -1e16, 1.7e308, 2e10, -2e10, 32767.0 * W, -32767.0 * W});
  gps_time_t n = t;
  c.describe("normalize %s", S(t).c_str());
  bool ok = normalize_gps_time_safe(&n);
  c.nt(hcombine(hd(t.tow), static_cast<uint64_t>(t.wn)));
  bool finite = std::isfinite(t.tow);
  bool canon = std::isfinite(n.tow) && n.tow >= 0 && n.tow < W;
  if (!finite || fabs(t.tow) > 32768.0 * W) {
    ev(finite ? "huge" : "nonfinite");
    CHECK(!ok, "accepted", "a time that cannot be normalised was accepted: %s -> %s", S(t).c_str(), S(n).c_str());
    /* the non-refusing form must come back as well */
    n = t;
    unsafe_normalize_gps_time(&n);
    ev("nonfinite");
    return;
  }
  if (t.wn == WN_UNKNOWN) {
    ev("unknown_week");
    if (fabs(t.tow) >= 32766.0 * W) return;
    CHECK(ok && canon && n.wn == WN_UNKNOWN, "unknown", "%s -> %s (returned %d)", S(t).c_str(), S(n).c_str(), ok);
    ld d = static_cast<ld>((static_cast<q128>(t.tow) - n.tow) / W);
    CHECK(q128(fabsl(d - roundl(d)) * W) <= tol(t.tow), "unknown_instant", "%s -> %s is not the same second of the week", S(t).c_str(), S(n).c_str());
    return;
  }
  if (t.wn < WN_UNKNOWN) {
    CHECK(!ok, "badweek", "accepted negative week %s", S(t).c_str());
    ev("refused");
    return;
  }
  q128 total = secs(t);
  if (ok) {
    CHECK(canon && n.wn >= 0, "canonical", "%s -> %s accepted", S(t).c_str(), S(n).c_str());
    CHECK(fabsl(secs(n) - total) <= tol(t.tow), "instant", "%s -> %s moved by %g s", S(t).c_str(), S(n).c_str(), static_cast<double>(secs(n) - total));
    ev("normalized");
  } else {
    CHECK(total <= 1e-6L || total >= 32768.0L * W - 1e-4L || fabs(t.tow) >= 32766.0 * W, "refusal", "%s can be represented but was refused", S(t).c_str());
    ev("refused");
  }
  /* the unsafe form agrees wherever the safe one succeeds */
  if (ok) {
    gps_time_t u = t, a = t;
    unsafe_normalize_gps_time(&u);
    CHECK(u.wn == n.wn && u.tow == n.tow, "unsafe", "safe %s unsafe %s", S(n).c_str(), S(u).c_str());
    normalize_gps_time(&a);
    CHECK(a.wn == n.wn && a.tow == n.tow, "asserting", "safe %s asserting %s", S(n).c_str(), S(a).c_str());
    gps_time_t again = n;
    CHECK(normalize_gps_time_safe(&again) && again.wn == n.wn && again.tow == n.tow, "idempotent", "%s -> %s", S(n).c_str(), S(again).c_str());
  }
}

SECTION(add_diff, 120000, 4000000) {
  gps_time_t a = mk(static_cast<int>(c.r.edgy(0, 32766)), gen_tow(c.r));
  double s = gen_secs(c.r);
  q128 total = secs(a) + static_cast<q128>(s);
  if (total < 1 || total >= 32767.0L * W) s = c.r.uniform(0, 0.9) * (a.wn > 16000 ? -a.tow : W - a.tow), total = secs(a) + static_cast<q128>(s);
  c.describe("add %.17g to %s", s, S(a).c_str());
  c.nt(hcombine(hcombine(hd(a.tow), static_cast<uint64_t>(a.wn)), hd(s)));
  gps_time_t b = a;
  add_secs(&b, s);
  ev("added");
  CHECK(b.tow >= 0 && b.tow < W, "add_canonical", "%s + %.17g = %s", S(a).c_str(), s, S(b).c_str());
  CHECK(fabsl(secs(b) - total) <= tol(s), "add_instant", "%s + %.17g = %s, off by %g s", S(a).c_str(), s, S(b).c_str(), static_cast<double>(secs(b) - total));
  gps_time_t b2 = a + s, b3 = s + a, b4 = a, b5 = a - (-s), b6 = a;
  b4 += s;
  b6 -= -s;
  for (const gps_time_t &x : {b2, b3, b4, b5, b6}) CHECK(x.wn == b.wn && x.tow == b.tow, "operators", "%s vs %s", S(x).c_str(), S(b).c_str());
  double d = gpsdifftime(&b, &a), e = gpsdifftime(&a, &b);
  CHECK(fabsl(static_cast<q128>(d) - (secs(b) - secs(a))) <= tol(d), "diff", "%s - %s = %.17g", S(b).c_str(), S(a).c_str(), d);
  CHECK(fabsl(static_cast<q128>(d) - s) <= 2 * tol(s), "addsub", "adding %.17g to %s then differencing gives %.17g", s, S(a).c_str(), d);
  CHECK(d == -e, "antisymmetric", "%s,%s: %.17g vs %.17g", S(a).c_str(), S(b).c_str(), d, e);
  CHECK((b - a) == d, "minus", "operator- %.17g", b - a);
  CHECK(gpsdifftime(&a, &a) == 0, "self", "%s - itself = %.17g", S(a).c_str(), gpsdifftime(&a, &a));
  /* comparisons follow the sign of the difference */
  CHECK((b < a) == (d < 0) && (b > a) == (d > 0) && (b == a) == (fabs(d) < FLOAT_EQUALITY_EPS), "compare", "%s %s diff %.17g: < %d > %d == %d", S(b).c_str(), S(a).c_str(), d, b < a, b > a, b == a);
  CHECK((b <= a) == (b < a || b == a) && (b >= a) == (b > a || b == a), "compare_eq", "%s %s", S(b).c_str(), S(a).c_str());
  /* a known week never equals an unknown one, whatever the difference to the nearest */
  gps_time_t unk = mk(WN_UNKNOWN, c.r.coin(0.8) ? a.tow : b.tow);
  CHECK(!(a == unk) && !(unk == a) && unk == unk, "compare_unknown", "%s == %s: %d", S(a).c_str(), S(unk).c_str(), a == unk);
  /* any second pair */
  gps_time_t q = mk(static_cast<int>(c.r.coin() ? c.r.edgy(0, 32767) : std::min<int64_t>(32767, std::max<int64_t>(0, a.wn + c.r.range(-2, 2)))), gen_tow(c.r));
  q128 ex = secs(q) - secs(a);
  double dq = gpsdifftime(&q, &a);
  CHECK(fabsl(dq - ex) <= tol(ex), "diff", "%s - %s = %.17g, exact %.12g", S(q).c_str(), S(a).c_str(), dq, static_cast<double>(ex));
  CHECK(dq == -gpsdifftime(&a, &q), "antisymmetric", "%s %s", S(q).c_str(), S(a).c_str());
  gps_time_duration_t dur;
  memset(&dur, 0xa5, sizeof dur);
  CHECK(gpsdifftime_week_second(&q, &a, &dur), "duration_ret", "refused %s - %s", S(q).c_str(), S(a).c_str());
  ev("durations");
  CHECK(fabs(dur.seconds) < W, "duration_range", "%s - %s = %d weeks %.17g s", S(q).c_str(), S(a).c_str(), dur.weeks, dur.seconds);
  CHECK(!(dur.weeks > 0 && dur.seconds < 0) && !(dur.weeks < 0 && dur.seconds > 0), "duration_sign", "%s - %s = %d weeks %.17g s", S(q).c_str(), S(a).c_str(), dur.weeks, dur.seconds);
  CHECK(fabsl(static_cast<q128>(dur.weeks) * W + dur.seconds - ex) <= 1e-9L, "duration_value", "%s - %s = %d weeks %.17g s, exact %.12g", S(q).c_str(), S(a).c_str(), dur.weeks, dur.seconds, static_cast<double>(ex));
  /* an unknown or invalid end point has no duration */
  gps_time_t bad = c.r.coin() ? mk(WN_UNKNOWN, a.tow) : mk(a.wn, c.r.pick<double>({-1, W, NAN, INFINITY, -1e-9}));
  memset(&dur, 0xa5, sizeof dur);
  bool r1 = c.r.coin() ? gpsdifftime_week_second(&bad, &a, &dur) : gpsdifftime_week_second(&a, &bad, &dur);
  CHECK(!r1, "duration_invalid", "accepted %s", S(bad).c_str());
  /* arbitrary durations */
  gps_time_duration_t x;
  memset(&x, 0, sizeof x);
  x.weeks = static_cast<s16>(c.r.range(-16000, 16000));
  if (c.r.coin(0.3)) x.weeks = static_cast<s16>(c.r.range(-2, 2));
  x.seconds = gen_secs(c.r);
  if (fabs(x.seconds) > 1e10) x.seconds /= 3;
  gps_time_duration_t y = x;
  normalize_gps_time_duration(&y);
  q128 was = static_cast<q128>(x.weeks) * W + x.seconds, is = static_cast<q128>(y.weeks) * W + y.seconds;
  CHECK(fabs(y.seconds) < W && !(y.weeks > 0 && y.seconds < 0) && !(y.weeks < 0 && y.seconds > 0), "duration_canonical", "(%d w, %.17g s) -> (%d w, %.17g s)", x.weeks, x.seconds, y.weeks, y.seconds);
  CHECK(fabsl(was - is) <= tol(x.seconds), "duration_norm", "(%d w, %.17g s) -> (%d w, %.17g s)", x.weeks, x.seconds, y.weeks, y.seconds);
}

SECTION(unknown, 60000, 1000000) {
  /* with an unknown week the result is the nearest choice of weeks */
  gps_time_t a = mk(WN_UNKNOWN, gen_tow(c.r)), b = mk(c.r.coin() ? WN_UNKNOWN : static_cast<int>(c.r.range(0, 32767)), gen_tow(c.r));
  if (c.r.coin()) std::swap(a, b);
  double d = gpsdifftime(&a, &b);
  c.describe("%s - %s", S(a).c_str(), S(b).c_str());
  c.nt(hcombine(hd(a.tow), hd(b.tow)));
  ev("unknown_week");
  ld raw = static_cast<ld>(a.tow) - b.tow, k = (d - raw) / W;
  CHECK(fabs(d) <= W / 2, "nearest", "%s - %s = %.17g", S(a).c_str(), S(b).c_str(), d);
  CHECK(fabsl(k - roundl(k)) * W <= tol(0), "congruent", "%s - %s = %.17g", S(a).c_str(), S(b).c_str(), d);
  if (fabsl(fabsl(raw) - W / 2) > 1e-6L) CHECK(d == -gpsdifftime(&b, &a), "antisymmetric", "%s %s", S(a).c_str(), S(b).c_str());
}

SECTION(range, 100000, 3000000) {
  gps_time_t t = mk(static_cast<int>(c.r.range(3, 32000)), gen_tow(c.r));
  gps_time_t bg = t, en = t;
  double w1 = c.r.coin(0.15) ? 0 : c.r.coin(0.2) ? c.r.logmag(1e-7, 1) : c.r.uniform(-1.5 * W, 1.5 * W), w2 = c.r.coin(0.15) ? 0 : c.r.coin(0.2) ? c.r.logmag(1e-7, 1) : c.r.uniform(-1.5 * W, 1.5 * W);
  add_secs(&bg, w1);
  add_secs(&en, w2);
  q128 sb = secs(t) - secs(bg), se = secs(en) - secs(t);
  c.describe("%s in [%s, %s]", S(t).c_str(), S(bg).c_str(), S(en).c_str());
  c.nt(hcombine(hcombine(hd(t.tow), hd(w1)), hd(w2)));
  bool in = gpstime_in_range(&bg, &en, &t);
  if ((sb == 0 || fabsl(sb) > 1e-8L) && (se == 0 || fabsl(se) > 1e-8L)) {
    CHECK(in == (sb >= 0 && se >= 0), "in_range", "%s in [%s, %s] reported %d", S(t).c_str(), S(bg).c_str(), S(en).c_str(), in);
    ev(in ? "in_range_true" : "in_range_false");
  }
  /* validity */
  gps_time_t v = mk(static_cast<int>(c.r.coin(0.3) ? c.r.edgy(-32768, 32767) : c.r.range(0, 4000)), c.r.coin(0.5) ? gen_tow(c.r) : c.r.pick<double>({-1, -1e-300, W, 604800.0001, NAN, INFINITY, -INFINITY, 1e300, -1e300, -0.0, 1e39}));
  bool want = std::isfinite(v.tow) && v.tow >= 0 && v.tow < W && v.wn >= 0;
  ev("valid_predicates");
  CHECK(gps_time_valid(&v) == want, "valid", "%s reported %d", S(v).c_str(), gps_time_valid(&v));
  u16 ref = static_cast<u16>(c.r.coin() ? c.r.range(0, 4000) : c.r.edgy(0, 64512));
  if (c.r.coin() && v.wn >= 0) ref = static_cast<u16>(std::max<int64_t>(0, v.wn - c.r.pick<int64_t>({-1, 0, 1, 1021, 1022, 1023, 1024})));
  bool cur = want && v.wn >= ref && v.wn < ref + 1023;
  CHECK(gps_current_time_valid_with_wn_ref(&v, ref) == cur, "current", "%s ref %u reported %d", S(v).c_str(), ref, !cur);
  CHECK(gps_current_time_valid(&v) == gps_current_time_valid_with_wn_ref(&v, GPS_WEEK_REFERENCE), "current_default", "%s", S(v).c_str());
  time_t lim = static_cast<time_t>(ref) * W + 315964800;
  time_t u = c.r.coin() ? lim + c.r.range(-2, 2) : c.r.coin() ? static_cast<time_t>(c.r.edgy(-2000000000, 40000000000)) : static_cast<time_t>(c.r.edgy(INT64_MIN, INT64_MAX));
  CHECK(unix_time_valid_with_wn_ref(&u, ref) == (u >= 0 && u > lim), "unix_valid", "%lld against week %u reported %d", static_cast<long long>(u), ref, unix_time_valid_with_wn_ref(&u, ref));
  CHECK(unix_time_valid(&u) == unix_time_valid_with_wn_ref(&u, GPS_WEEK_REFERENCE), "unix_default", "%lld", static_cast<long long>(u));
}

/* durations as such */
SECTION(duration, 40000, 2000000) {
  gps_time_duration_t d, b;
  memset(&d, 0, sizeof d);
  d.weeks = static_cast<s16>(c.r.coin(0.3) ? c.r.range(-3, 3) : c.r.range(-20000, 20000));
  d.seconds = c.r.coin(0.3) ? static_cast<double>(c.r.range(-3, 3)) * W : c.r.coin(0.5) ? c.r.uniform(-1, 1) * W : c.r.logmag(1e-9, 1000 * W);
  if (c.r.coin(0.3)) d.seconds = nextafter(d.seconds, c.r.coin() ? INFINITY : -INFINITY);
  if (c.r.coin(0.05)) d.seconds = c.r.pick<double>({NAN, INFINITY, -INFINITY, 1e15, -1e15, 1e300});
  b = d;
  c.describe("%d weeks %.17g s", d.weeks, d.seconds);
  c.nt(hcombine(static_cast<uint64_t>(d.weeks), hd(d.seconds)));
  normalize_gps_time_duration(&b);
  if (!std::isfinite(d.seconds) || fabs(d.seconds) > 1e12) {
    CHECK(b.weeks == d.weeks && hd(b.seconds) == hd(d.seconds), "duration_unrepresentable", "became %d weeks %.17g s", b.weeks, b.seconds);
    ev("unrepresentable");
    return;
  }
  q128 before = static_cast<q128>(d.weeks) * W + d.seconds, after = static_cast<q128>(b.weeks) * W + b.seconds;
  CHECK(fabs(b.seconds) < W, "duration_range", "became %d weeks %.17g s", b.weeks, b.seconds);
  CHECK(!(b.weeks > 0 && b.seconds < -FLOAT_EQUALITY_EPS) && !(b.weeks < 0 && b.seconds > FLOAT_EQUALITY_EPS), "duration_sign", "became %d weeks %.17g s", b.weeks, b.seconds);
  CHECK(fabsl(after - before) <= 1e-9L + 1e-15L * fabsl(static_cast<q128>(d.seconds)), "duration_value", "became %d weeks %.17g s", b.weeks, b.seconds);
  ev("normalised_durations");
}
NEED(normalised_durations, 30000);
NEED(unrepresentable, 1000);
