// @run variant=asan shards=8
#include "mon.h"
#include <tuple>
#include "timeref.h"
using namespace mon;
using namespace tref;
RULE("table: instants around each of the 18 published insertions (offsets from 1 ns to 3 s, exact boundaries) and anywhere in GPS weeks 0..32000, without parameters. params: broadcast parameter sets, encoded into "
     "subframe words and decoded (or built directly with a quadratic term), then used at instants around the announced event and elsewhere. order: pairs of instants across an event give increasing UTC labels. "
     "Decisions within 1 us of an event boundary are not judged except for validity. Non-trivial: every case; identity = instant/parameters.");
NEED(table_instants, 50000);
NEED(in_leap_second, 3000);
NEED(exact_boundaries, 800);
NEED(utc_roundtrips, 30000);
NEED(params_decoded, 10000);
NEED(params_refused, 1000);
NEED(params_instants, 20000);
NEED(params_in_leap_second, 1000);
NEED(params_ignored, 1000);
NEED(ordered_pairs, 20000);
NEED(params_near_removal, 300);

static q128 label(const utc_tm &u) {
  return static_cast<q128>(day_of(u.year, u.month, u.month_day)) * D + u.hour * 3600 + u.minute * 60 + u.second_int + static_cast<q128>(u.second_frac);
}
static std::string S(const utc_tm &u) {
  char b[128];
  snprintf(b, sizeof b, "%u-%02u-%02u %02u:%02u:%02u +%.12g", u.year, u.month, u.month_day, u.hour, u.minute, u.second_int, u.second_frac);
  return b;
}
static void valid(const utc_tm &u) {
  bool ok = u.month >= 1 && u.month <= 12 && u.month_day >= 1 && u.month_day <= mdays(u.year, u.month) && u.hour <= 23 && u.minute <= 59 && u.second_int <= 60 && u.second_frac >= 0 && u.second_frac < 1;
  CHECK(ok && (u.second_int < 60 || (u.hour == 23 && u.minute == 59)), "invalid", "produced %s", S(u).c_str());
}
static gps_time_t at(q128 s) {
  int wn = static_cast<int>(floorl(static_cast<ld>(s / W)));
  double tow = static_cast<double>(s - static_cast<q128>(wn) * W);
  if (tow >= W) tow -= W, wn++;
  if (tow < 0) tow += W, wn--;
  return mk(wn, tow);
}
static double step(Rng &r) {
  switch (r.range(0, 5)) {
    case 0: return r.pick<double>({0, 0.25, 0.5, 0.75, 1, -1, 2, -2, 1.5});
    case 1: return r.pick<double>({0, 1}) + r.logmag(1e-9, 1e-4);
    case 2: return r.uniform(0, 1);
    case 3: return r.uniform(-3, 4);
    case 4: return r.uniform(-20, 20);
    default: return r.uniform(-90000, 90000);
  }
}
static ld round_tol() { return 2 * (3.0L * 1.5e-11L * D + 1e-9L); }

SECTION(table, 60000, 2000000) {
  gps_time_t t = c.r.coin(0.75) ? at(static_cast<q128>(leap_start(static_cast<size_t>(c.r.range(0, 17)))) + step(c.r)) : mk(static_cast<int>(c.r.range(0, 32000)), gen_tow(c.r));
  q128 s = secs(t);
  ld near = leap_dist(static_cast<ld>(s));
  c.describe("GPS week %d tow %.17g", t.wn, t.tow);
  c.nt(hcombine(static_cast<uint64_t>(t.wn), hd(t.tow)));
  Utc ref = utc_of(static_cast<ld>(s));
  ev("table_instants");
  bool judged = near == 0 || near > 2e-9L;
  if (near == 0) ev("exact_boundaries");
  utc_tm u;
  memset(&u, 0xa5, sizeof u);
  gps2utc(&t, &u, nullptr);
  valid(u);
  double off = get_gps_utc_offset(&t, nullptr);
  if (judged) {
    CHECK(off == ref.offset, "offset", "GPS-UTC reported %g, published %d", off, ref.offset);
    CHECK(is_leap_second_event(&t, nullptr) == ref.ls, "event", "leap second %d reported %d", ref.ls, !ref.ls);
    CHECK((u.second_int == 60) == ref.ls, "label60", "%s, leap second %d", S(u).c_str(), ref.ls);
    q128 want = static_cast<q128>(ref.day) * D;
    want += s - ref.offset - want; /* linear label; inside the event it runs on to 86401 */
    CHECK(fabsl(label(u) - want) <= 2e-9L, "label", "%s, off by %g s", S(u).c_str(), static_cast<double>(label(u) - want));
    if (ref.ls) ev("in_leap_second");
  }
  /* UTC to GPS offset, by the linear UTC count: new offset from midnight on */
  if (!ref.ls && near > 1e-8L) {
    gps_time_t v = at(s - ref.offset);
    double o = get_utc_gps_offset(&v, nullptr);
    CHECK(o == -ref.offset, "utc_offset", "UTC-GPS at UTC (%d, %.17g) reported %g, published -%d", v.wn, v.tow, o, ref.offset);
  }
  if (t.wn < 12000 && near > 5e-6L) {
    gps_time_t g = mk(0, 0);
    utc2gps(&u, &g, nullptr);
    CHECK(fabsl(secs(g) - s) <= round_tol(), "utc2gps", "%s -> (%d, %.17g), off by %g s", S(u).c_str(), g.wn, g.tow, static_cast<double>(secs(g) - s));
    ev("utc_roundtrips");
  }
}

struct Par {
  utc_params_t p;
  bool from_words;
};
static u32 rnd30(Rng &r) { return static_cast<u32>(r.u64()) & 0x3fffffffu; }
static void put(u32 &w, unsigned first, unsigned len, u32 v) { /* bits first.. of a 30-bit word */
  unsigned sh = 30 - (first - 1) - len;
  u32 m = ((1u << len) - 1) << sh;
  w = (w & ~m) | ((v << sh) & m);
}
static unsigned resolve256(unsigned raw, unsigned ref) {
  if (raw >= ref) return raw;
  unsigned x = ref;
  while (x % 256 != raw) x++;
  return x;
}
SECTION(decode, 20000, 500000) {
  Buf<u32> w(8);
  for (int i = 0; i < 8; i++) w[static_cast<size_t>(i)] = rnd30(c.r) | (c.r.coin() ? 0xc0000000u : 0);
  unsigned id = 1, sv = 56;
  if (c.r.coin(0.1)) {
    if (c.r.coin()) id = static_cast<unsigned>(c.r.pick<int64_t>({0, 2, 3}));
    else sv = static_cast<unsigned>(c.r.coin() ? c.r.pick<int64_t>({51, 57, 63, 24, 0, 55, 40}) : c.r.range(0, 55));
  }
  put(w[0], 1, 2, id);
  put(w[0], 3, 6, sv);
  s32 a1 = static_cast<s32>(c.r.edgy(-(1 << 23), (1 << 23) - 1));
  s32 a0 = static_cast<s32>(c.r.edgy(INT32_MIN, INT32_MAX));
  unsigned tot = static_cast<unsigned>(c.r.edgy(0, 147)), wnt = static_cast<unsigned>(c.r.edgy(0, 255)), wl = static_cast<unsigned>(c.r.edgy(0, 255)), dn = static_cast<unsigned>(c.r.range(1, 7));
  s8 ls = static_cast<s8>(c.r.edgy(-128, 127)), lf = static_cast<s8>(c.r.edgy(-128, 127));
  if (c.r.coin(0.05)) dn = static_cast<unsigned>(c.r.pick<int64_t>({0, 8, 255, 128, 9, 15}));
  unsigned ref = static_cast<unsigned>(c.r.coin() ? c.r.range(1, 30000) : c.r.range(1, 3000));
  put(w[3], 1, 24, static_cast<u32>(a1));
  put(w[4], 1, 24, static_cast<u32>(a0) >> 8);
  put(w[5], 1, 8, static_cast<u32>(a0) & 0xff);
  put(w[5], 9, 8, tot);
  put(w[5], 17, 8, wnt);
  put(w[6], 1, 8, static_cast<u8>(ls));
  put(w[6], 9, 8, wl);
  put(w[6], 17, 8, dn);
  put(w[7], 1, 8, static_cast<u8>(lf));
  c.describe("data id %u sv id %u a0 %d a1 %d tot %u wnt %u ls %d wlsf %u dn %u lsf %d ref %u", id, sv, a0, a1, tot, wnt, ls, wl, dn, lf, ref);
  c.nt(hbytes(w.p, 32));
  utc_params_t p;
  memset(&p, 0xa5, sizeof p);
  bool def = c.r.coin(0.2);
  if (def) ref = GPS_WEEK_REFERENCE;
  bool ok = def ? decode_utc_parameters(w.p, &p) : decode_utc_parameters_with_wn_ref(w.p, &p, static_cast<u16>(ref));
  bool want = id == 1 && sv == 56 && dn >= 1 && dn <= 7;
  CHECK(ok == want, "accept", "returned %d", ok);
  if (!want) {
    ev("params_refused");
    return;
  }
  ev("params_decoded");
  double A0 = ldexp(a0, -30), A1 = ldexp(a1, -50);
  CHECK(p.a0 == A0 && p.a1 == A1 && p.a2 == 0, "poly", "decoded a0 %.17g a1 %.17g a2 %.17g, sent %.17g %.17g", p.a0, p.a1, p.a2, A0, A1);
  CHECK(p.tot.tow == tot * 4096.0 && p.tot.wn == static_cast<int>(resolve256(wnt, ref)), "tot", "decoded (%d, %g), sent (%u, %g)", p.tot.wn, p.tot.tow, resolve256(wnt, ref), tot * 4096.0);
  CHECK(p.dt_ls == ls && p.dt_lsf == lf, "counts", "decoded %d/%d, sent %d/%d", p.dt_ls, p.dt_lsf, ls, lf);
  q128 mid = static_cast<q128>(resolve256(wl, ref)) * W + dn * D, lse = mid + ls + A0 + A1 * (mid - secs(p.tot));
  CHECK(gps_time_valid(&p.t_lse) && fabsl(secs(p.t_lse) - lse) <= 1e-8L, "t_lse", "decoded (%d, %.17g), expected (.., %.17g)", p.t_lse.wn, p.t_lse.tow, static_cast<double>(lse - floorl(static_cast<ld>(lse / W)) * W));
}

/* a plausible parameter set */
static utc_params_t gen_params(Rng &r) {
  utc_params_t p;
  memset(&p, 0, sizeof p);
  p.dt_ls = static_cast<s8>(r.coin(0.7) ? 18 : r.range(0, 60));
  p.dt_lsf = static_cast<s8>(p.dt_ls + (r.coin(0.75) ? 1 : r.coin(0.3) ? -1 : 0));
  int wl = static_cast<int>(r.range(5, 3500)), dn = static_cast<int>(r.range(1, 7));
  int wt = wl + static_cast<int>(r.range(-2, 2));
  p.tot = mk(wt, 4096.0 * static_cast<double>(r.range(0, 147)));
  p.a0 = ldexp(static_cast<double>(r.coin(0.7) ? r.range(-200, 200) : r.range(-900000000, 900000000)), -30);
  p.a1 = ldexp(static_cast<double>(r.coin(0.7) ? r.range(-200, 200) : r.range(-(1 << 23), (1 << 23) - 1)), -50);
  p.a2 = r.coin(0.7) ? 0 : ldexp(static_cast<double>(r.range(-64, 63)), -68);
  q128 mid = static_cast<q128>(wl) * W + dn * D, dt = mid - secs(p.tot);
  gps_time_t l = at(mid + p.dt_ls + p.a0 + p.a1 * dt);
  p.t_lse = l;
  return p;
}
static std::string S(const utc_params_t &p) {
  char b[200];
  snprintf(b, sizeof b, "{a0 %.10g a1 %.6g a2 %.3g tot %d/%.9g t_lse %d/%.17g ls %d lsf %d}", p.a0, p.a1, p.a2, p.tot.wn, p.tot.tow, p.t_lse.wn, p.t_lse.tow, p.dt_ls, p.dt_lsf);
  return b;
}
SECTION(params, 40000, 1500000) {
  utc_params_t p = gen_params(c.r);
  gps_time_t t = c.r.coin(0.8) ? at(secs(p.t_lse) + step(c.r)) : at(secs(p.tot) + c.r.uniform(-1, 1) * 400000);
  q128 s = secs(t), since = s - secs(p.t_lse);
  c.describe("GPS (%d, %.17g) %s", t.wn, t.tow, S(p).c_str());
  c.nt(hcombine(hbytes(&p.a0, 24), hd(t.tow)));
  ev("params_instants");
  /* drift of the polynomial between midnight and the event, and its rounding */
  q128 dt = s - secs(p.tot), poly = p.a0 + p.a1 * dt + p.a2 * dt * dt;
  ld slack = 1e-8L + fabs(p.a1) * 130 + fabs(p.a2) * 1e9;
  bool near = fabsl(since) < 1e-6L || fabsl(since - 1) < 1e-6L;
  utc_tm u;
  memset(&u, 0xa5, sizeof u);
  gps2utc(&t, &u, &p);
  valid(u);
  if (near) return;
  bool after = since >= 1, in = since >= 0 && since < 1 && p.dt_lsf == p.dt_ls + 1;
  q128 off = poly + (after ? p.dt_lsf : p.dt_ls);
  double o = get_gps_utc_offset(&t, &p);
  if (p.dt_lsf < p.dt_ls && fabsl(since) < 3) {
    /* a leap second that would be taken out: around it only that nothing is inserted */
    CHECK(!is_leap_second_event(&t, &p) && u.second_int < 60, "params_no_event", "%s near the removal of a second", S(u).c_str());
    ev("params_near_removal");
    return;
  }
  CHECK(fabsl(o - off) <= 1e-10L, "params_offset", "GPS-UTC reported %.12g, broadcast %.12g", o, static_cast<double>(off));
  CHECK(is_leap_second_event(&t, &p) == in, "params_event", "leap second %d reported %d (%g s after its start)", in, !in, static_cast<double>(since));
  CHECK((u.second_int == 60) == in, "params_label60", "%s, leap second %d", S(u).c_str(), in);
  CHECK(fabsl(label(u) - (s - off)) <= slack, "params_label", "%s, off by %g s", S(u).c_str(), static_cast<double>(label(u) - (s - off)));
  if (in) ev("params_in_leap_second");
  if (!in) {
    gps_time_t v = at(s - off);
    double b = get_utc_gps_offset(&v, &p);
    /* the polynomial is meant at this instant; only its own effect on the argument may be neglected */
    ld near_off = 1e-9L + (fabs(p.a1) + 2 * fabs(p.a2) * fabsl(static_cast<ld>(dt))) * (2 + fabsl(static_cast<ld>(poly)));
    CHECK(fabsl(b + off) <= near_off, "params_utc_offset", "UTC-GPS at UTC (%d, %.17g) reported %.12g, broadcast %.12g", v.wn, v.tow, b, static_cast<double>(-off));
    double m = gps2mjd_params(&t, &p);
    CHECK(fabsl((static_cast<q128>(m) - 44244) * D - (s - off)) <= slack + round_tol(), "params_mjd", "mjd %.17g for %s", m, S(u).c_str());
    s32 y, mo, d, h, mi;
    double sec;
    gps2date_params(&t, &y, &mo, &d, &h, &mi, &sec, &p);
    CHECK(y == u.year && mo == u.month && d == u.month_day && h == u.hour && mi == u.minute && sec == u.second_int + u.second_frac, "params_date", "%d-%d-%d %d:%d:%.12g vs %s", y, mo, d, h, mi, sec, S(u).c_str());
    if (fabsl(since) > 1e-5L && fabsl(since - 1) > 1e-5L) {
      gps_time_t g = date2gps_params(y, mo, d, h, mi, sec, &p);
      CHECK(fabsl(secs(g) - s) <= slack + round_tol(), "params_date2gps", "%s -> (%d, %.17g)", S(u).c_str(), g.wn, g.tow);
      g = mjd2gps_params(m, &p);
      CHECK(fabsl(secs(g) - s) <= slack + 2 * round_tol(), "params_mjd2gps", "%s -> (%d, %.17g)", S(u).c_str(), g.wn, g.tow);
    }
  }
  if (fabsl(since) > 1e-5L && fabsl(since - 1) > 1e-5L) {
    gps_time_t g = mk(0, 0);
    utc2gps(&u, &g, &p);
    CHECK(fabsl(secs(g) - s) <= slack + round_tol(), "params_utc2gps", "%s -> (%d, %.17g), off by %g s", S(u).c_str(), g.wn, g.tow, static_cast<double>(secs(g) - s));
    ev("utc_roundtrips");
  }
  /* a set without an event time is not used */
  if (c.r.coin(0.2)) {
    utc_params_t q = p;
    q.t_lse.wn = static_cast<s16>(c.r.coin() ? 0 : WN_UNKNOWN);
    utc_tm a, b;
    memset(&a, 0, sizeof a);
    memset(&b, 0, sizeof b);
    gps2utc(&t, &a, &q);
    gps2utc(&t, &b, nullptr);
    CHECK(label(a) == label(b) && get_gps_utc_offset(&t, &q) == get_gps_utc_offset(&t, nullptr) && get_utc_gps_offset(&t, &q) == get_utc_gps_offset(&t, nullptr) &&
              is_leap_second_event(&t, &q) == is_leap_second_event(&t, nullptr),
          "params_unset", "unset parameters change the result: %s vs %s", S(a).c_str(), S(b).c_str());
    ev("params_ignored");
  }
}

SECTION(order, 30000, 1000000) {
  bool with = c.r.coin();
  utc_params_t p = gen_params(c.r);
  q128 lse = with ? secs(p.t_lse) : static_cast<q128>(leap_start(static_cast<size_t>(c.r.range(0, 17))));
  double d1 = step(c.r), d2 = step(c.r);
  if (d1 > d2) std::swap(d1, d2);
  for (double d : {d1, d2})
    if (fabs(d) < 2e-6 || fabs(d - 1) < 2e-6) return;
  gps_time_t a = at(lse + d1), b = at(lse + d2);
  if (secs(b) - secs(a) < 2e-6L) return;
  c.describe("%g s and %g s after the start of a leap second %s", d1, d2, with ? S(p).c_str() : "(table)");
  c.nt(hcombine(hd(d1), hd(d2)));
  utc_tm u, v;
  gps2utc(&a, &u, with ? &p : nullptr);
  gps2utc(&b, &v, with ? &p : nullptr);
  auto key = [](const utc_tm &x) { return std::make_tuple(x.year, x.month, x.month_day, x.hour, x.minute, x.second_int, x.second_frac); };
  CHECK(key(u) < key(v), "order", "%s is not before %s", S(u).c_str(), S(v).c_str());
  ev("ordered_pairs");
}
