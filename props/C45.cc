// @run variant=asan shards=8
#include <algorithm>
#include "pvt.h"
#include "timeref.h"
using namespace mon;
typedef long double ld;
RULE("few: every balance of satellites and constellations around the minimum; limits: receivers below, at usual heights, in orbit and above the altitude limit, at speeds around the limit, satellites crowded into a cone; velocity: measurements with and without Doppler; "
     "select: strategies, carrier-to-noise masks and custom predicates against solving the pre-filtered set; hostile: one to all fields of a simulated set replaced by zero, huge, tiny, infinite and not-a-number values, repeated signals, up to the maximum number of channels. "
     "Outputs always start with stale valid-looking contents. Non-trivial: every case; identity = measurements and configuration.");
NEED(refused_few, 10000);
NEED(enough, 8000);
NEED(empty, 50);
NEED(full_channels, 300);
NEED(too_low, 1500);
NEED(too_high, 700);
NEED(high_but_allowed, 700);
NEED(too_fast, 2000);
NEED(fast_but_allowed, 2000);
NEED(crowded, 2000);
NEED(spread, 3000);
NEED(no_doppler, 4000);
NEED(strategy_gps, 1000);
NEED(strategy_l1, 1000);
NEED(strategy_l1ca, 1000);
NEED(l1ca_topped_up, 300);
NEED(masked, 3000);
NEED(at_mask, 5000);
NEED(predicate, 2000);
NEED(hostile_refused, 8000);
NEED(hostile_accepted, 8000);
NEED(hostile_repaired, 1500);
NEED(absurd_clock, 3000);
NEED(mixed_faults, 3000);
NEED(hopeless, 15000);
NEED(error_1, 500);
NEED(error_2, 500);
NEED(error_3, 500);
NEED(error_4, 300);
NEED(error_5, 300);
NEED(error_6, 300);
NEED(error_7, 500);

static const ld C = pvt::C;
typedef std::vector<const pvt::Sig *> Set;
static size_t sats(const Set &v) {
  std::set<std::pair<int, unsigned>> u;
  for (auto *p : v) u.insert({p->cons, p->m.sid.sat});
  return u.size();
}
static bool untouched(const gnss_sid_set_t &s) { /* prefilled bytes or an empty set */
  gnss_sid_set_t f;
  memset(&f, 0x5a, sizeof f);
  return !memcmp(&s, &f, sizeof f) || sid_set_get_sig_count(&s) == 0;
}
/* consistency of everything the solver returned for the signals it selected */
static void story(const Set &v, const gps_time_t &tor, const pvt::Res &r, bool no_raim, bool no_vel, bool finite) {
  size_t clocks = pvt::clocks(v).size();
  CHECK(r.ret >= -7 && r.ret <= 2, "code", "returned %d", r.ret);
  if (r.ret < 0) {
    CHECK(r.soln.valid == 0, "error_valid", "returned %d with a valid solution", r.ret);
    CHECK(r.soln.velocity_valid == 0, "error_velocity_valid", "returned %d with a valid velocity", r.ret);
    CHECK(untouched(r.removed), "error_excluded", "returned %d naming %u excluded signals", r.ret, sid_set_get_sig_count(&r.removed));
    static const char *name[8] = {"", "error_1", "error_2", "error_3", "error_4", "error_5", "error_6", "error_7"};
    ev(name[-r.ret]);
    return;
  }
  CHECK(r.soln.valid == 1, "invalid", "returned %d without a valid solution", r.ret);
  bool dop = true;
  for (auto *p : v) dop &= (p->m.flags & NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) != 0;
  CHECK(r.soln.velocity_valid == (no_vel || !dop ? 0 : 1), "velocity_valid", "velocity valid %u, %s, %s", r.soln.velocity_valid, no_vel ? "disabled" : "enabled", dop ? "all Dopplers measured" : "Doppler missing");
  if (!r.soln.velocity_valid)
    for (int i = 0; i < 3; i++) CHECK(r.soln.vel_ecef[i] == 0 && r.soln.vel_ned[i] == 0, "no_velocity", "velocity %g %g without a velocity solution", r.soln.vel_ecef[i], r.soln.vel_ned[i]);
  /* counts and exclusions */
  Set used;
  if (r.ret == 1) {
    CHECK(!untouched(r.removed), "nothing_excluded", "repair reported but nothing excluded");
    std::set<std::pair<int, unsigned>> in;
    for (auto *p : v) {
      if (!sid_set_contains(&r.removed, p->m.sid)) used.push_back(p);
      in.insert({p->m.sid.code, p->m.sid.sat});
    }
    size_t hit = 0;
    for (auto &k : in) hit += sid_set_contains(&r.removed, gnss::sid(static_cast<code_t>(k.first), k.second));
    CHECK(hit == sid_set_get_sig_count(&r.removed), "excluded_unknown", "%u signals excluded, %zu of them were given", sid_set_get_sig_count(&r.removed), hit);
    CHECK(used.size() >= pvt::clocks(used).size() + 4, "repair_unverifiable", "repaired down to %zu signals", used.size());
  } else {
    CHECK(untouched(r.removed), "excluded", "returned %d with %u excluded signals", r.ret, sid_set_get_sig_count(&r.removed));
    used = v;
  }
  CHECK(r.soln.n_sigs_used == used.size(), "signals", "%u signals used, expected %zu of %zu (returned %d)", r.soln.n_sigs_used, used.size(), v.size(), r.ret);
  CHECK(r.soln.n_sats_used == sats(used), "satellites", "%u satellites used, expected %zu", r.soln.n_sats_used, sats(used));
  if (r.ret == 2)
    CHECK(no_raim || v.size() <= 3 + clocks, "unchecked", "integrity unchecked with %zu signals for %zu unknowns", v.size(), 3 + clocks);
  else
    CHECK(!no_raim && v.size() > 3 + clocks, "checked", "returned %d with integrity checking %s and %zu signals", r.ret, no_raim ? "off" : "on", v.size());
  CHECK(sats(used) >= 4, "satellite_minimum", "solution from %zu satellites", sats(used));
  /* values */
  ld x[3], q = 0;
  for (int i = 0; i < 3; i++) CHECK(std::isfinite(r.soln.pos_ecef[i]) && std::isfinite(r.soln.pos_llh[i]), "position_not_finite", "%g", r.soln.pos_ecef[i]);
  geo::to_ecef(r.soln.pos_llh, x);
  for (int i = 0; i < 3; i++) q = fmaxl(q, fabsl(x[i] - r.soln.pos_ecef[i]));
  CHECK(q < 1e-3L, "llh", "position forms differ by %.3Lg m", q);
  CHECK(r.soln.pos_llh[2] >= -1000 && r.soln.pos_llh[2] <= 1e6, "altitude", "altitude %.3f accepted", r.soln.pos_llh[2]);
  const dops_t &d = r.dops;
  CHECK(d.gdop <= 20 && d.gdop > 0 && d.pdop > 0 && d.tdop > 0 && d.vdop > 0 && d.hdop > 0, "dop_limit", "accepted with GDOP %g (%g %g %g %g)", d.gdop, d.pdop, d.tdop, d.hdop, d.vdop);
  CHECK(rclose(d.gdop * d.gdop, d.pdop * d.pdop + d.tdop * d.tdop, 1e-9), "gdop_sum", "GDOP %.12g, PDOP %.12g TDOP %.12g", d.gdop, d.pdop, d.tdop);
  CHECK(rclose(d.pdop * d.pdop, d.hdop * d.hdop + d.vdop * d.vdop, 1e-9), "pdop_sum", "PDOP %.12g, HDOP %.12g VDOP %.12g", d.pdop, d.hdop, d.vdop);
  CHECK(r.soln.err_cov[6] == d.gdop, "err_cov_gdop", "%.9g, GDOP %.9g", r.soln.err_cov[6], d.gdop);
  if (r.soln.velocity_valid && finite) {
    ld v2 = 0;
    for (int i = 0; i < 3; i++) v2 += static_cast<ld>(r.soln.vel_ecef[i]) * r.soln.vel_ecef[i];
    CHECK(sqrtl(v2) < 514.45L, "speed", "speed %.3Lf accepted", sqrtl(v2));
  }
  if (fabs(r.soln.clock_offset) < 1e6) {
    ld want = tor.tow - static_cast<ld>(r.soln.clock_offset), got = (r.soln.time.wn - tor.wn) * 604800.0L + r.soln.time.tow;
    CHECK(fabsl(want - got) < 1e-7L && r.soln.time.tow >= 0 && r.soln.time.tow < 604800, "time", "%d %.9f for reception %d %.9f less %.12g s", r.soln.time.wn, r.soln.time.tow, tor.wn, tor.tow, r.soln.clock_offset);
  }
}
static ld gdop_range(const Set &v, ld *lo) {
  auto H = pvt::cov(v, {});
  ld hi = 0;
  *lo = 1e9L;
  if (!H.ok) return 1e9L;
  for (size_t i = 0; i + 3 < H.n; i++) hi = fmaxl(hi, pvt::gdop(H, i)), *lo = fminl(*lo, pvt::gdop(H, i));
  return hi;
}
SECTION(few, 40000, 850000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.coin(0.1) ? r.range(20, 63) : r.range(0, 10));
  o.dual = r.pick<double>({0, 0.5, 1});
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  if (r.coin(0.3)) r.shuffle(s.s);
  while (s.s.size() > 63) s.s.pop_back();
  Set v = pvt::all(s);
  bool no_raim = r.coin(0.3), no_vel = r.coin(0.3);
  c.describe("%zu signals of %zu satellites and %zu constellations, %s", v.size(), sats(v), pvt::clocks(v).size(), pvt::show(s).c_str());
  c.nt(hcombine(pvt::hash(s), v.size()));
  auto res = pvt::solve(v, s.tor, no_raim, no_vel, pvt::no_mask(), ALL_CONSTELLATIONS, r.coin() ? 0x5a : 0x01);
  if (v.size() == 63) ev("full_channels");
  if (v.empty()) ev("empty");
  if (sats(v) < 3 + pvt::clocks(v).size() || v.empty()) {
    CHECK(res.ret == -7, "few_accepted", "returned %d for %zu satellites of %zu constellations", res.ret, sats(v), pvt::clocks(v).size());
    CHECK(!res.soln.valid && !res.soln.velocity_valid, "few_valid", "valid %u velocity valid %u with too few satellites", res.soln.valid, res.soln.velocity_valid);
    ev("refused_few");
    return;
  }
  CHECK(res.ret != -7, "enough_refused", "%zu satellites of %zu constellations refused as too few", sats(v), pvt::clocks(v).size());
  ev("enough");
  if (res.ret != 1) memset(&res.removed, 0, sizeof res.removed);
  story(v, s.tor, res, no_raim, no_vel, true);
}
/* strong geometry: at least four more satellites than unknowns */
static bool strong(Rng &r, pvt::Sim &s, pvt::Opt o, double height, double speed, ld *g) {
  o.quality = false;
  o.n = static_cast<int>(r.range(9 + static_cast<int>(o.cons.size()), 16));
  o.min_el = 5;
  pvt::gen_truth(r, o, s);
  s.t.llh[2] = height;
  geo::to_ecef(s.t.llh, s.t.pos);
  double d[3] = {r.normal(), r.normal(), r.normal()}, n = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
  for (int i = 0; i < 3; i++) s.t.vel[i] = n > 0 ? d[i] / n * speed : 0;
  pvt::gen_sats(r, o, s);
  ld lo;
  *g = gdop_range(pvt::all(s), &lo);
  return *g < 6;
}
SECTION(altitude, 12000, 238000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  if (r.coin(0.3)) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  int kind = static_cast<int>(r.range(0, 3));
  double h = kind == 0 ? (r.coin() ? -1001 - r.uniform(0, 5) : -1001 - r.uniform(0, 30000)) : kind == 1 ? (r.coin() ? 1000001 + r.uniform(0, 20) : 1000001 + r.uniform(0, 1e6)) : kind == 2 ? (r.coin() ? 999999 - r.uniform(0, 20) : r.uniform(100e3, 999999)) : (r.coin() ? -999 + r.uniform(0, 5) : r.uniform(-999, 20000));
  ld g;
  bool ok = strong(r, s, o, h, r.uniform(0, 400), &g);
  if (!ok) return;
  bool no_raim = r.coin(0.3), no_vel = r.coin(0.3);
  Set v = pvt::all(s);
  c.describe("height %.3f, GDOP %.2Lf, %s", h, g, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, no_raim, no_vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  story(v, s.tor, res, no_raim, no_vel, true);
  if (kind < 2) {
    CHECK(res.ret < 0, "altitude_accepted", "receiver at %.3f m accepted", h);
    if (kind == 0 || !no_raim) CHECK(res.ret == -2 || (kind == 1 && res.ret <= -4), "altitude_code", "receiver at %.3f m: returned %d", h, res.ret);
    if (res.ret == -2) ev(kind == 0 ? "too_low" : "too_high");
  } else if (kind == 3) {
    CHECK(res.ret >= 0, "altitude_refused", "receiver at %.3f m refused with %d", h, res.ret);
  } else {
    /* from orbit the iteration may end elsewhere, but then the residuals of the redundant satellites show it */
    CHECK(no_raim || res.ret != -2, "altitude_refused", "receiver at %.3f m refused with %d", h, res.ret);
    if (res.ret >= 0) ev("high_but_allowed");
  }
}
SECTION(speed, 12000, 238000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  if (r.coin(0.3)) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  bool fast = r.coin();
  double sp = fast ? (r.coin() ? r.uniform(515.4, 518) : r.logmag(516, 8000)) : r.coin() ? r.uniform(510, 513.4) : r.uniform(300, 513.4);
  ld g;
  if (!strong(r, s, o, r.uniform(-300, 15000), fabs(sp), &g)) return;
  bool no_raim = r.coin(0.3), no_vel = r.coin(0.2);
  Set v = pvt::all(s);
  c.describe("speed %.3f, GDOP %.2Lf, %s", sp, g, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, no_raim, no_vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  story(v, s.tor, res, no_raim, no_vel, true);
  if (no_vel || !fast) {
    CHECK(res.ret >= 0, "speed_refused", "speed %.3f%s refused with %d", sp, no_vel ? " (velocity off)" : "", res.ret);
    ev("fast_but_allowed");
  } else {
    CHECK(res.ret == -3, "speed_accepted", "speed %.3f: returned %d", sp, res.ret);
    ev("too_fast");
  }
}
SECTION(dop, 16000, 297500) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  if (r.coin(0.3)) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  int n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 4, 14));
  pvt::gen_truth(r, o, s);
  double az = r.uniform(0, 6.28), el = r.uniform(35, 60), w = r.coin(0.8) ? r.uniform(15, 60) : r.uniform(5, 15);
  for (int i = 0; i < n; i++) {
    constellation_t k = o.cons[static_cast<size_t>(i) % o.cons.size()];
    s.s.push_back(pvt::make_sig(r, s.t, gnss::sid(gnss::cons_of(k).l1, gnss::cons_of(k).first + static_cast<unsigned>(i)), el + r.uniform(-1, 1) * w / 2, az + r.uniform(-1, 1) * w / 57.3, o, nullptr));
  }
  Set v = pvt::all(s);
  ld lo, hi = gdop_range(v, &lo);
  if (!(lo > 20.5L || hi < 19.5L) || hi > 200) return;
  enum processing_strategy_t st = o.cons.size() > 1 ? ALL_CONSTELLATIONS : r.pick<enum processing_strategy_t>({GPS_ONLY, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY});
  bool no_raim = r.coin(0.3), no_vel = r.coin(0.3);
  c.describe("GDOP %.3Lf..%.3Lf, strategy %d, %s", lo, hi, st, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, no_raim, no_vel, pvt::no_mask(), st);
  story(v, s.tor, res, no_raim, no_vel, true);
  if (lo > 20) {
    CHECK(res.ret < 0, "dop_accepted", "GDOP %.3Lf accepted", lo);
    if (res.ret == -1) ev("crowded");
  } else {
    CHECK(res.ret != -1, "dop_refused", "GDOP %.3Lf refused as too high", hi);
    ev("spread");
  }
}
SECTION(velocity, 10000, 238000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 4, 16));
  o.dual = r.pick<double>({0, 0.4});
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  Set v = pvt::all(s);
  bool no_raim = r.coin(0.3);
  int hit = static_cast<int>(r.coin(0.5) ? 1 : r.range(1, static_cast<int64_t>(v.size())));
  for (int i = 0; i < hit; i++) {
    auto &m = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
    m.flags = static_cast<nav_meas_flags_t>(m.flags & ~NAV_MEAS_FLAG_MEAS_DOPPLER_VALID);
    if (r.coin()) m.raw_measured_doppler = r.pick<double>({0, NAN, 1e9, -3333});
  }
  c.describe("%d Dopplers missing, %s", hit, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, no_raim, false, pvt::no_mask(), ALL_CONSTELLATIONS), off = pvt::solve(v, s.tor, no_raim, true, pvt::no_mask(), ALL_CONSTELLATIONS);
  story(v, s.tor, res, no_raim, false, true);
  CHECK(res.ret == off.ret && !memcmp(&res.soln, &off.soln, sizeof off.soln), "no_doppler_differs", "returned %d without Dopplers, %d with velocity disabled", res.ret, off.ret);
  if (res.ret >= 0) ev("no_doppler");
}
/* predicate sections: what the callback is shown, and what it decides */
static std::vector<const pvt::Sig *> g_seen_in;
struct Pred {
  Set v;
  std::vector<char> take;
  size_t i;
  std::vector<std::pair<int, unsigned>> taken;
  std::set<int> cons;
  float cn0;
  bool masked;
};
static Pred *g_pred;
static bool custom(gnss_signal_t sid, gnss_sid_set_t used, u8 n_states) {
  Pred &p = *g_pred;
  if (p.i >= p.v.size()) return true; /* fallback after a bad geometry offers the accepted signals again */
  const pvt::Sig *q = p.v[p.i];
  if (q->m.sid.sat != sid.sat || q->m.sid.code != sid.code) note_fail("predicate_order", "signal %zu offered is %u/%d, expected %u/%d", p.i, sid.sat, sid.code, q->m.sid.sat, q->m.sid.code);
  if (sid_set_get_sig_count(&used) != p.taken.size()) note_fail("predicate_used", "%u signals shown as used, %zu were accepted", sid_set_get_sig_count(&used), p.taken.size());
  for (auto &t : p.taken)
    if (!sid_set_contains(&used, gnss::sid(static_cast<code_t>(t.first), t.second))) note_fail("predicate_used", "accepted signal not shown as used");
  if (n_states != 3 + p.cons.size()) note_fail("predicate_states", "%u unknowns shown, expected %zu", n_states, 3 + p.cons.size());
  bool t = p.take[p.i];
  if (t && !(p.masked && !(q->m.cn0 > static_cast<double>(p.cn0)))) p.taken.push_back({sid.code, sid.sat}), p.cons.insert(q->cons);
  p.i++;
  return t;
}
SECTION(select, 24000, 476000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  if (r.coin(0.8) && std::find(o.cons.begin(), o.cons.end(), CONSTELLATION_GPS) == o.cons.end()) o.cons.push_back(CONSTELLATION_GPS);
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 4, 24));
  o.dual = r.pick<double>({0, 0.4, 0.8});
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  while (s.s.size() > 63) s.s.pop_back();
  bool no_raim = r.coin(0.3), no_vel = r.coin(0.3);
  if (r.coin(0.2)) s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m.raw_pseudorange += 1e4;
  obs_mask_config_t mask = pvt::no_mask();
  mask.cn0_mask.threshold_dbhz = static_cast<float>(r.uniform(27, 45));
  mask.cn0_mask.enable = r.coin();
  if (r.coin(0.3)) { /* a signal exactly at the mask does not exceed it */
    for (auto &g : s.s)
      if (r.coin(0.15)) g.m.cn0 = static_cast<double>(mask.cn0_mask.threshold_dbhz), ev("at_mask");
  }
  bool l1ca_first = r.coin();
  if (l1ca_first) std::stable_partition(s.s.begin(), s.s.end(), [](const pvt::Sig &g) { return g.m.sid.code == CODE_GPS_L1CA; });
  Set v = pvt::all(s), f, masked;
  for (auto *p : v)
    if (!mask.cn0_mask.enable || p->m.cn0 > static_cast<double>(mask.cn0_mask.threshold_dbhz)) masked.push_back(p);
  if (mask.cn0_mask.enable && masked.size() < v.size()) ev("masked");
  int kind = static_cast<int>(r.range(0, 4));
  c.describe("selection %d, mask %s %.2f, %s", kind, mask.cn0_mask.enable ? "on" : "off", static_cast<double>(mask.cn0_mask.threshold_dbhz), pvt::show(s).c_str());
  c.nt(hcombine(pvt::hash(s), static_cast<uint64_t>(kind)));
  pvt::Res res;
  if (kind < 4) res = pvt::solve(v, s.tor, no_raim, no_vel, mask, r.pick<enum processing_strategy_t>({kind == 0 ? GPS_ONLY : kind == 1 ? L1_ONLY : kind == 2 ? GPS_L1CA_WHEN_POSSIBLE : ALL_CONSTELLATIONS}));
  if (kind == 0)
    for (auto *p : masked)
      if (p->cons == CONSTELLATION_GPS) f.push_back(p);
  if (kind == 1)
    for (auto *p : masked)
      if (p->m.sid.code == CODE_GPS_L1CA || p->m.sid.code == CODE_GAL_E1B) f.push_back(p);
  if (kind == 3) f = masked;
  if (kind == 2) {
    /* all L1 C/A; other signals only for satellites not used yet, when there are few */
    if (res.ret != 1 && res.ret >= 0) {
      size_t l1 = 0, best = 0;
      std::set<std::pair<int, unsigned>> l1sats;
      for (auto *p : masked)
        if (p->m.sid.code == CODE_GPS_L1CA) l1++, l1sats.insert({p->cons, p->m.sid.sat});
      best = sats(masked);
      CHECK(res.soln.n_sats_used >= l1, "l1ca_unused", "%u satellites used, %zu with L1CA", res.soln.n_sats_used, l1);
      if (l1ca_first) CHECK(res.soln.n_sigs_used == res.soln.n_sats_used, "l1ca_twice", "%u signals of %u satellites", res.soln.n_sigs_used, res.soln.n_sats_used);
      if (l1ca_first && l1 >= 9) CHECK(res.soln.n_sigs_used == l1, "l1ca_only", "%u signals used, %zu L1CA", res.soln.n_sigs_used, l1);
      CHECK(res.soln.n_sats_used >= std::min<size_t>(best, 6), "topped_up", "%u satellites used of %zu", res.soln.n_sats_used, best);
      if (l1ca_first && l1 < 6 && res.soln.n_sats_used > l1) ev("l1ca_topped_up");
      if (l1ca_first && l1 >= 9) { /* exactly the L1 C/A signals */
        for (auto *p : masked)
          if (p->m.sid.code == CODE_GPS_L1CA) f.push_back(p);
      }
      ev("strategy_l1ca");
    }
    if (f.empty()) return;
  }
  if (kind == 4) {
    Pred p;
    p.v = v, p.i = 0, p.cn0 = mask.cn0_mask.threshold_dbhz, p.masked = mask.cn0_mask.enable;
    for (size_t i = 0; i < v.size(); i++) p.take.push_back(r.coin(0.8));
    for (size_t i = 0; i < v.size(); i++)
      if (p.take[i] && std::find(masked.begin(), masked.end(), v[i]) != masked.end()) f.push_back(v[i]);
    g_pred = &p;
    Buf<navigation_measurement_t> m(v.size());
    for (size_t i = 0; i < v.size(); i++) m[i] = v[i]->m;
    memset(&res.soln, 0x5a, sizeof res.soln), memset(&res.dops, 0x5a, sizeof res.dops), memset(&res.removed, 0x5a, sizeof res.removed);
    res.ret = calc_PVT_pred(static_cast<u8>(v.size()), m.p, &s.tor, no_raim, no_vel, &mask, custom, &res.soln, &res.dops, &res.removed);
    CHECK(p.i == v.size(), "predicate_calls", "predicate asked about %zu of %zu signals", p.i, v.size());
    ev("predicate");
  }
  story(f, s.tor, res, no_raim, no_vel, true);
  auto want = pvt::solve(f, s.tor, no_raim, no_vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == want.ret, "selection", "returned %d, solving the selected signals alone returns %d", res.ret, want.ret);
  CHECK(!memcmp(&res.soln, &want.soln, sizeof res.soln), "selection", "solution differs from solving the %zu selected signals alone (%u used)", f.size(), res.soln.n_sigs_used);
  if (res.ret >= 0) CHECK(!memcmp(&res.dops, &want.dops, sizeof res.dops) && !memcmp(&res.removed, &want.removed, sizeof res.removed), "selection", "dilutions or exclusions differ from solving the selected signals alone");
  ev(kind == 0 ? "strategy_gps" : kind == 1 ? "strategy_l1" : "selected");
}
SECTION(hostile, 60000, 1445000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.coin(0.1) ? r.range(20, 40) : r.range(static_cast<int>(o.cons.size()) + 3, 14));
  o.dual = r.pick<double>({0, 0.4});
  if (r.coin(0.2)) o.hmax = 3e7;
  if (r.coin(0.2)) o.min_el = -80;
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  while (s.s.size() > 63) s.s.pop_back();
  bool no_raim = r.coin(0.4), no_vel = r.coin(0.4), finite = true;
  int hits = static_cast<int>(r.coin(0.6) ? 1 : r.coin(0.5) ? r.range(1, 4) : r.range(1, 60));
  std::string what;
  auto odd = [&](double scale) {
    double x;
    switch (r.range(0, 6)) {
      case 0: x = 0; break;
      case 1: x = r.pick<double>({NAN, INFINITY, -INFINITY}); break;
      case 2: x = r.logmag(1e-300, 1e300); break;
      case 3: x = r.pick<double>({1.7976931348623157e308, -1.7976931348623157e308, 5e-324}); break;
      default: x = r.logmag(1e-6, 1e6) * scale;
    }
    finite &= fabs(x) < 1e30; /* larger values overflow in the velocity equations */
    return x;
  };
  /* several faults of which some stop the iteration and others only spoil the residuals */
  if (r.coin(0.15) && s.s.size() > 2) {
    no_raim = no_vel = false;
    for (int k = static_cast<int>(r.range(1, 4)); k > 0; k--) s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m.raw_measured_doppler = NAN;
    for (int k = static_cast<int>(r.range(1, 3)); k > 0; k--) s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m.raw_pseudorange += r.logmag(1e6, 1e9);
    what += " mixed-faults", finite = false;
    ev("mixed_faults");
    hits = 0;
  }
  for (int i = 0; i < hits && !s.s.empty(); i++) {
    navigation_measurement_t &m = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
    int k = static_cast<int>(r.range(0, 12));
    what += " " + std::to_string(k);
    switch (k) {
      case 0: m.raw_pseudorange = odd(2e7); break;
      case 1: m.raw_pseudorange += r.logmag(1, 1e8); break;
      case 2: m.raw_measured_doppler = odd(1e3); break;
      case 3: m.sat_pos[r.range(0, 2)] = odd(2e7); break;
      case 4: memset(m.sat_pos, 0, 24); break;
      case 5: m.sat_vel[r.range(0, 2)] = odd(1e3); break;
      case 6: m.sat_clock_err = odd(1e-3); break;
      case 7: m.sat_clock_err_rate = odd(1e-9); break;
      case 8: m.cn0 = r.coin() ? odd(10) : r.uniform(-50, 100); break;
      case 9: m.lock_time = odd(1); break;
      case 10: m.elevation = r.coin() ? odd(10) : r.uniform(-90, 90); break;
      case 11: { /* same satellite position, or the same signal, twice */
        navigation_measurement_t &q = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
        memcpy(m.sat_pos, q.sat_pos, 24);
        if (r.coin()) m.raw_pseudorange = q.raw_pseudorange;
        break;
      }
      case 12: { /* a consistent but absurd clock offset of one constellation */
        double big = r.logmag(1e6, 1e20);
        for (auto &g : s.s)
          if (g.cons == s.s[0].cons) g.m.raw_pseudorange += big;
        ev("absurd_clock");
      }
    }
  }
  Set v = pvt::all(s);
  c.describe("%zu signals, fields%s%s%s", v.size(), what.c_str(), no_raim ? " integrity off" : "", no_vel ? " velocity off" : "");
  c.nt(hcombine(pvt::hash(s), hbytes(what.data(), what.size())));
  auto res = pvt::solve(v, s.tor, no_raim, no_vel, pvt::no_mask(), ALL_CONSTELLATIONS, r.coin() ? 0x5a : 0x01);
  if (res.ret != 1 && sid_set_get_sig_count(&res.removed) != 0) {
    gnss_sid_set_t f;
    memset(&f, 0x01, sizeof f);
    if (!memcmp(&f, &res.removed, sizeof f)) memset(&res.removed, 0, sizeof f);
  }
  ev(res.ret < 0 ? "hostile_refused" : "hostile_accepted");
  if (res.ret == 1) ev("hostile_repaired");
  story(v, s.tor, res, no_raim, no_vel, finite);
}
/* hopeless sets: several not-a-number rates, some ranges far off */
SECTION(hopeless, 30000, 476000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_BDS};
  o.cons.resize(static_cast<size_t>(r.range(1, 3)));
  o.n = static_cast<int>(3 + o.cons.size()) + static_cast<int>(r.range(2, 7));
  o.dual = r.pick<double>({0, 0.3});
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  auto any = [&]() -> navigation_measurement_t & { return s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m; };
  for (int k = static_cast<int>(r.range(2, 4)); k > 0; k--) any().raw_measured_doppler = r.coin(0.8) ? NAN : INFINITY;
  for (int k = static_cast<int>(r.range(1, 5)); k > 0; k--) any().raw_pseudorange += r.logmag(1e6, 1e8);
  Set v = pvt::all(s);
  c.describe("%s", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, false, pvt::no_mask(), ALL_CONSTELLATIONS);
  story(v, s.tor, res, false, false, false);
  ev("hopeless");
}
