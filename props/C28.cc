// @run variant=asan shards=8
#include "gnss.h"
#include "timeref.h"
#include <swiftnav/ephemeris.h>
#include <swiftnav/shm.h>
using namespace mon;
using namespace tref;
RULE("case = ephemeris of any constellation and signal with valid flag, week, fit interval, accuracy, health word, issue-of-data fields, clock reference time and evaluation time drawn around every decision boundary "
     "(interval ends exactly, +-1 ulp, week rollovers, unknown weeks); status, short and detailed verdicts and the lean interval form against a rule table. Non-trivial: every case; identity = all inputs.");
NEED(st_valid, 20000);
NEED(st_null, 100);
NEED(st_invalid, 5000);
NEED(st_wn0, 2000);
NEED(st_fit0, 2000);
NEED(st_unhealthy, 10000);
NEED(st_bad_iod, 5000);
NEED(st_bad_sid, 1000);
NEED(st_too_old, 20000);
NEED(at_boundary, 2000);
NEED(toc_outside, 3000);
NEED(unknown_week, 3000);
NEED(healthy_unset, 3000);
NEED(healthy_other_code, 50000);
NEED(no_week_known, 1000);

static int gps_ura_ok(float u) { return u >= 0 && u <= 6144; }
static ld nearest(ld d) { /* difference modulo a week, nearest to zero */
  d = fmodl(d, W);
  if (d > W / 2) d -= W;
  if (d < -W / 2) d += W;
  return d;
}
static ld diff(const gps_time_t &a, const gps_time_t &b) {
  if (a.wn == WN_UNKNOWN || b.wn == WN_UNKNOWN) return nearest(static_cast<ld>(a.tow) - b.tow);
  return static_cast<ld>(secs(a) - secs(b));
}
static gps_time_t shifted(const gps_time_t &t, ld s) {
  q128 x = static_cast<q128>(t.tow) + s;
  int w = t.wn;
  while (x < 0) x += W, w--;
  while (x >= W) x -= W, w++;
  double tow = static_cast<double>(x);
  if (tow >= W) tow = 0, w++;
  return mk(w, tow);
}

SECTION(verdict, 300000, 10000000) {
  Rng &r = c.r;
  const gnss::SigPlan &pl = r.pick(gnss::plan());
  const gnss::ConsPlan &cp = gnss::cons_of(pl.cons);
  static ephemeris_t e; /* replaced in place, as in a receiver's table */
  memset(&e, r.pick<int>({0, 0xff}), sizeof e);
  e.sid = gnss::sid(pl.code, cp.first + static_cast<unsigned>(r.range(0, cp.count - 1)));
  bool bad_sid = r.coin(0.02);
  if (bad_sid) e.sid.code = r.pick<code_t>({CODE_INVALID, CODE_COUNT, static_cast<code_t>(-128), static_cast<code_t>(127)});
  e.valid = r.coin(0.06) ? 0 : static_cast<u8>(r.pick<int>({1, 1, 1, 2, 255}));
  e.toe = mk(static_cast<int>(r.range(3, 4000)), r.coin(0.3) ? r.pick<double>({0, 16, 604784, 604799.5, 302400}) : r.coin() ? static_cast<double>(r.range(0, 37799)) * 16 : r.uniform(0, 604799.9));
  if (r.coin(0.02)) e.toe.wn = 0;
  e.fit_interval = r.coin(0.02) ? 0 : r.coin(0.3) ? static_cast<u32>(r.range(1, 98 * 1800)) * 2 : r.pick<u32>({14400, 10800, 7200, 2400, 3300, 4200, 6 * 3600, 8 * 3600, 98 * 3600});
  e.ura = r.coin(0.05) ? r.pick<float>({-1.0f, 6144.5f, 1e9f, -1e-3f}) : r.coin(0.1) ? 6144.0f : static_cast<float>(r.uniform(0, 100));
  e.health_bits = static_cast<u8>(r.coin(0.75) ? 0 : r.coin() ? r.range(0, 63) : r.range(0, 255));
  e.source = static_cast<u8>(r.range(0, 2));
  bool kepler = pl.cons != CONSTELLATION_GLO && pl.cons != CONSTELLATION_SBAS;
  auto near = [&](const gps_time_t &t0, bool centred) {
    ld f = e.fit_interval, half = f / 2;
    ld lo = centred ? -half : 0, hi = centred ? half : f;
    ld at;
    switch (r.range(0, 5)) {
      case 0: at = lo; break;
      case 1: at = hi; break;
      case 2: at = (r.coin() ? lo : hi) + r.pick<double>({1e-6, -1e-6, 1, -1, 0.5, -0.5}); break;
      case 3: at = r.uniform(static_cast<double>(lo - f), static_cast<double>(hi + f)); break;
      case 4: at = r.pick<double>({-604800, 604800, 302400, -302400, 1209600, 0}); break;
      default: at = r.uniform(static_cast<double>(lo), static_cast<double>(hi)); break;
    }
    return shifted(t0, at);
  };
  bool centred = pl.cons == CONSTELLATION_GPS || pl.cons == CONSTELLATION_QZS || pl.cons == CONSTELLATION_GLO;
  if (kepler) {
    ephemeris_kepler_t *k = &e.data.kepler;
    k->toc = r.coin(0.7) ? e.toe : near(e.toe, centred);
    if (r.coin(0.02)) k->toc.wn = 0;
    int m = r.coin(0.85) ? 0 : static_cast<int>(r.range(1, 3));
    k->iode = static_cast<u16>(pl.cons == CONSTELLATION_GAL ? r.range(0, 1023) : r.range(0, 255));
    k->iodc = static_cast<u16>(pl.cons == CONSTELLATION_GAL ? k->iode : k->iode | (r.range(0, 3) << 8));
    if (pl.cons == CONSTELLATION_BDS && e.source == EPH_SOURCE_BDS_D1_D2_NAV) k->iodc = static_cast<u16>(r.range(0, 240)), k->iode = static_cast<u16>(r.range(0, 240));
    if (m == 1) k->iodc = static_cast<u16>(k->iodc ^ (1u << r.range(0, 11)));
    if (m == 2) k->iode = static_cast<u16>(k->iode ^ (1u << r.range(0, 11)));
    if (m == 3) k->iode = k->iodc = static_cast<u16>(r.pick<int>({239, 240, 241, 255, 256, 1023, 1024, 65535}));
  } else if (pl.cons == CONSTELLATION_GLO) {
    e.data.glo.iod = static_cast<u8>(r.coin(0.9) ? r.range(0, 127) : r.pick<int>({127, 128, 255}));
  }
  gps_time_t t = e.toe.wn > 0 ? near(e.toe, centred) : mk(2000, r.uniform(0, 604799));
  if (t.wn < 1) t.wn = 1;
  if (r.coin(0.06)) {
    /* unknown weeks */
    int which = static_cast<int>(r.range(0, 3));
    if (which == 3) {
      /* no week known at all: everything is taken modulo a week */
      t.wn = e.toe.wn = WN_UNKNOWN;
      if (kepler) e.data.kepler.toc.wn = WN_UNKNOWN;
      ev("no_week_known");
    }
    if (which == 0) t.wn = WN_UNKNOWN;
    else if (which == 1) e.toe.wn = WN_UNKNOWN, t.wn = t.wn < 3 ? 3 : t.wn;
    else if (which == 2 && kepler) e.data.kepler.toc.wn = WN_UNKNOWN;
    ev("unknown_week");
  }
  c.describe("%s valid %u toe (%d, %.17g) fit %u ura %g health 0x%02x source %u toc (%d, %.17g) iodc %u iode %u/%u t (%d, %.17g)", gnss::str(e.sid).c_str(), e.valid, e.toe.wn, e.toe.tow, e.fit_interval,
             static_cast<double>(e.ura), e.health_bits, e.source, kepler ? e.data.kepler.toc.wn : 0, kepler ? e.data.kepler.toc.tow : 0, kepler ? e.data.kepler.iodc : 0, kepler ? e.data.kepler.iode : 0, e.data.glo.iod, t.wn, t.tow);
  c.nt(hbytes(c.note.data(), c.note.size()));

  /* accuracy and health, by constellation */
  bool healthy;
  switch (pl.cons) {
    case CONSTELLATION_GPS: healthy = gps_ura_ok(e.ura) && check_6bit_health_word(e.health_bits, pl.code); break;
    case CONSTELLATION_GLO: case CONSTELLATION_BDS: case CONSTELLATION_GAL: healthy = e.ura >= 0 && e.health_bits == 0; break;
    default: healthy = e.health_bits == 0; break;
  }
  if (!bad_sid) {
    bool h = ephemeris_healthy(&e, e.sid.code);
    if (!e.valid) {
      CHECK(h, "healthy_unset", "an ephemeris that is not valid is reported unhealthy");
      ev("healthy_unset");
    } else CHECK(h == healthy, "healthy", "ephemeris_healthy %d, expected %d", h, healthy);
    /* an ephemeris received on one signal serves the other signals of the satellite; the health word is read for the signal asked about */
    const gnss::SigPlan &po = r.pick(gnss::plan());
    if (po.cons == pl.cons) {
      bool ho = !e.valid || (pl.cons == CONSTELLATION_GPS ? gps_ura_ok(e.ura) && check_6bit_health_word(e.health_bits, po.code) : healthy), g = ephemeris_healthy(&e, po.code);
      CHECK(g == ho, "healthy_other", "ephemeris_healthy for code %d %d, expected %d", po.code, g, ho);
      ev("healthy_other_code");
    }
  }
  bool iod = true;
  const ephemeris_kepler_t *k = &e.data.kepler;
  switch (pl.cons) {
    case CONSTELLATION_GPS: case CONSTELLATION_QZS: iod = k->iodc <= 1023 && k->iode <= 255 && (k->iodc & 255) == k->iode; break;
    case CONSTELLATION_BDS:
      iod = e.source == EPH_SOURCE_BDS_D1_D2_NAV ? k->iodc <= 240 && k->iode <= 240 : k->iodc <= 1023 && k->iode <= 255 && (k->iodc & 255) == k->iode;
      break;
    case CONSTELLATION_GAL: iod = k->iodc <= 1023 && k->iode <= 1023 && k->iodc == k->iode; break;
    case CONSTELLATION_GLO: iod = e.data.glo.iod <= 127; break;
    default: break;
  }
  ephemeris_status_t want = !e.valid ? EPH_INVALID : e.toe.wn == 0 ? EPH_WN_EQ_0 : e.fit_interval == 0 ? EPH_FIT_INTERVAL_EQ_0 : bad_sid ? EPH_INVALID_SID : !healthy ? EPH_UNHEALTHY : !iod ? EPH_INVALID_IOD : EPH_VALID;
  ephemeris_status_t got = get_ephemeris_status_t(&e);
  CHECK(got == want, "status", "status %d, expected %d", got, want);
  ephemeris_status_t full = want;
  bool sharp = true;
  if (want == EPH_VALID && pl.cons != CONSTELLATION_SBAS) {
    ld f = static_cast<ld>(e.fit_interval), lo = centred ? -f / 2 : 0, hi = centred ? f / 2 : f;
    ld d = diff(t, e.toe);
    bool in = d >= lo && d <= hi;
    if (fabsl(d - lo) < 1e-9L || fabsl(d - hi) < 1e-9L) {
      ev("at_boundary");
      /* exactly representable boundaries are inside; others may round */
      if (fmod(e.toe.tow, 1) != 0 || fmod(t.tow, 1) != 0) sharp = false;
    }
    if (t.wn == WN_UNKNOWN || e.toe.wn == WN_UNKNOWN)
      if (fabsl(fabsl(d) - W / 2) < 1) sharp = false;
    if (in && kepler) {
      /* with an unknown reference week the interval is the one around t */
      ld dc = e.toe.wn == WN_UNKNOWN && k->toc.wn != WN_UNKNOWN && t.wn != WN_UNKNOWN ? diff(k->toc, t) + d : diff(k->toc, e.toe);
      if (k->toc.wn == 0) in = false;
      else if (k->toc.wn == WN_UNKNOWN) {
        if (fabsl(fabsl(dc) - W / 2) < 4 * 3600 || f > W / 2) sharp = false; /* each difference picks its own nearest week */
        in = dc >= lo && dc <= hi;
      } else in = dc >= lo && dc <= hi;
      /* an unknown toe/t week leaves the year of the interval open: a known toc decides only modulo that */
      if ((t.wn == WN_UNKNOWN && e.toe.wn == WN_UNKNOWN) != (e.toe.wn == WN_UNKNOWN && k->toc.wn == WN_UNKNOWN)) sharp = false;
      if (fabsl(dc - lo) < 1e-9L || fabsl(dc - hi) < 1e-9L)
        if (fmod(e.toe.tow, 1) != 0 || fmod(k->toc.tow, 1) != 0 || (e.toe.wn == WN_UNKNOWN && fmod(t.tow, 1) != 0)) sharp = false;
      if (!in) ev("toc_outside");
    }
    full = in ? EPH_VALID : EPH_TOO_OLD;
  }
  ephemeris_status_t det = ephemeris_valid_detailed(&e, &t);
  u8 shortv = ephemeris_valid(&e, &t);
  CHECK((det == EPH_VALID) == (shortv != 0), "disagree", "detailed %d, short %u", det, shortv);
  if (sharp) CHECK(det == full, "verdict", "verdict %d, expected %d", det, full);
  if (full == EPH_VALID && sharp) ev("st_valid");
  switch (full) {
    case EPH_INVALID: ev("st_invalid"); break;
    case EPH_WN_EQ_0: ev("st_wn0"); break;
    case EPH_FIT_INTERVAL_EQ_0: ev("st_fit0"); break;
    case EPH_UNHEALTHY: ev("st_unhealthy"); break;
    case EPH_INVALID_IOD: ev("st_bad_iod"); break;
    case EPH_INVALID_SID: ev("st_bad_sid"); break;
    case EPH_TOO_OLD: ev("st_too_old"); break;
    default: break;
  }
  if (c.idx % 256 == 0) {
    CHECK(get_ephemeris_status_t(nullptr) == EPH_NULL && ephemeris_valid_detailed(nullptr, &t) == EPH_NULL && ephemeris_valid(nullptr, &t) == 0 && ephemeris_valid(&e, nullptr) == 0, "null", "null arguments");
    ev("st_null");
  }
}

SECTION(interval, 60000, 2000000) {
  Rng &r = c.r;
  gps_time_t b = mk(static_cast<int>(r.range(2, 4000)), r.coin(0.3) ? 0 : static_cast<double>(r.range(0, 604799)));
  int64_t len = r.coin(0.1) ? 0 : r.range(1, 400000);
  gps_time_t e = shifted(b, len);
  auto at = [&]() {
    switch (r.range(0, 4)) {
      case 0: return b;
      case 1: return e;
      case 2: return shifted(r.coin() ? b : e, r.pick<int>({-1, 1}));
      case 3: return shifted(b, r.range(-len - 10, 2 * len + 10));
      default: return shifted(b, r.range(0, len));
    }
  };
  gps_time_t t = at(), toc = at();
  if (r.coin(0.05)) toc.wn = 0;
  bool with = r.coin();
  c.describe("[(%d,%.17g),(%d,%.17g)] toc %s(%d,%.17g) t (%d,%.17g)", b.wn, b.tow, e.wn, e.tow, with ? "" : "absent ", toc.wn, toc.tow, t.wn, t.tow);
  c.nt(hbytes(c.note.data(), c.note.size()));
  auto in = [&](const gps_time_t &x) { return secs(x) >= secs(b) && secs(x) <= secs(e); };
  bool want = in(t) && (!with || (toc.wn != 0 && in(toc)));
  u8 got = ephemeris_params_valid(&b, &e, with ? &toc : nullptr, &t);
  CHECK((got != 0) == want, "interval", "%u, expected %d", got, want);
}
