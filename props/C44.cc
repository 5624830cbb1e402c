// @run variant=asan shards=8
#include "pvt.h"
using namespace mon;
typedef long double ld;
RULE("fault-injection on simulated measurement sets (5..20 satellites, one to three constellations, one or two signals per satellite, noise up to 0.3 m): single range or Doppler faults of 60 m to 1e8 m (20 to 5000 m/s) on an identifiable signal, no fault, "
     "faults on the only satellite of a constellation, faults without enough redundancy, several simultaneous faults. Non-trivial: every case; identity = the measurements.");
NEED(fault_beyond_32, 40);
NEED(few_satellites, 100);
NEED(single_repaired, 8000);
NEED(single_range, 5000);
NEED(single_doppler, 2000);
NEED(single_huge, 500);
NEED(single_mixed, 2000);
NEED(small_repaired, 2000);
NEED(fault_free, 8000);
NEED(lonely, 1000);
NEED(weak_repaired, 4000);
NEED(weak_rate, 500);
NEED(weak_fault_free, 1000);
NEED(weak_large, 1000);
NEED(impossible, 1500);
NEED(multi_accepted, 1500);
NEED(multi_refused, 2000);
NEED(double_repaired, 500);
NEED(fault_with_integrity_off, 1000);

static const ld C = pvt::C;
typedef std::vector<const pvt::Sig *> Set;
using pvt::visible;
using pvt::without;
static ld worst_gdop(const Set &v) {
  auto H = pvt::cov(v, {});
  if (!H.ok) return 1e9L;
  ld g = 0;
  for (size_t i = 0; i + 3 < H.n; i++) g = fmaxl(g, pvt::gdop(H, i));
  return g;
}
static void add_noise(Rng &r, pvt::Sim &s, double sig) {
  for (auto &g : s.s) {
    g.m.raw_pseudorange += r.normal(sig);
    g.m.raw_measured_doppler += r.normal(sig) * 0.1;
  }
}
static void range_fault(pvt::Sig &g, double m) { g.m.raw_pseudorange += m; }
static void rate_fault(pvt::Sig &g, double ms) { g.m.raw_measured_doppler -= static_cast<double>(ms * pvt::freq_of(g.m.sid) / C); }
static bool untouched(const gnss_sid_set_t &s) { /* prefilled bytes or an empty set */
  gnss_sid_set_t f;
  memset(&f, 0x5a, sizeof f);
  return !memcmp(&s, &f, sizeof f) || sid_set_get_sig_count(&s) == 0;
}
static void near_truth(const pvt::Sim &s, const pvt::Res &r, ld g, double noise, bool vel, const char *key) {
  ld e = 0, ve = 0;
  for (int i = 0; i < 3; i++) e = fmaxl(e, fabsl(r.soln.pos_ecef[i] - s.t.pos[i])), ve = fmaxl(ve, fabsl(r.soln.vel_ecef[i] - s.t.vel[i]));
  CHECK(e <= (0.05L + 8 * noise) * g, key, "position off by %.3Lg m (GDOP %.2Lf, noise %.2g m)", e, g, noise);
  if (vel) CHECK(ve <= (0.2L + 2 * noise) * g, key, "velocity off by %.3Lg m/s (GDOP %.2Lf)", ve, g);
}
static void single(Ctx &c, bool small) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  if (!small && r.coin(0.6)) {
    o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_GLO, CONSTELLATION_BDS};
    r.shuffle(o.cons);
    o.cons.resize(static_cast<size_t>(r.range(1, 3)));
  }
  o.l1 = small || r.coin();
  if (small) o.min_el = 20;
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 5, 16));
  o.dual = small ? 0 : r.pick<double>({0, 0, 0.4});
  if (!small && r.coin(0.02)) o.n = static_cast<int>(r.range(30, 60)), o.dual = 0.1;
  bool few = !small && r.coin(0.1); /* no satellite to spare, but three signals of each */
  if (few) {
    o.cons = r.coin(0.6) ? std::vector<constellation_t>{CONSTELLATION_GPS} : std::vector<constellation_t>{CONSTELLATION_GAL, CONSTELLATION_BDS};
    o.n = static_cast<int>(o.cons.size()) + 3 + static_cast<int>(r.coin(0.3)), o.dual = 1, o.min_el = 15;
  }
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  if (few) {
    size_t n = s.s.size() / 2;
    for (size_t i = 0; i < n; i++) {
      pvt::Sig first = s.s[2 * i];
      code_t third;
      do third = r.pick(pvt::codes(first.cons));
      while (third == first.m.sid.code || third == s.s[2 * i + 1].m.sid.code);
      s.s.push_back(pvt::make_sig(r, s.t, gnss::sid(third, first.m.sid.sat), 0, 0, o, &first));
    }
  }
  if (s.s.size() > 63) s.s.erase(s.s.begin() + 63, s.s.end());
  double noise = r.coin(0.3) ? 0 : r.uniform(0, 0.3);
  add_noise(r, s, noise);
  bool vel = r.coin(0.7), rate = vel && r.coin(0.35);
  Set v = pvt::all(s);
  size_t f = static_cast<size_t>(r.range(0, static_cast<int64_t>(v.size()) - 1));
  ld g = worst_gdop(without(v, f));
  if (!(g < (few ? 6 : 8))) return;
  /* the fault must stand out in the full set and in every set without another signal */
  ld vis = visible(v, v[f]);
  for (size_t j = 0; j < v.size(); j++)
    if (j != f) vis = fminl(vis, visible(without(v, j), v[f]));
  if (!(vis > (small ? 0.5L : 0.2L))) return;
  double size = rate ? (small ? r.logmag(30, 200) : r.logmag(400, 5000)) : small ? r.logmag(80, 500) : r.coin(0.1) ? r.logmag(1e6, 1e8) : r.logmag(1500, 1e6);
  if (rate)
    rate_fault(s.s[f], size);
  else
    range_fault(s.s[f], size);
  gnss_signal_t bad = s.s[f].m.sid;
  c.describe("%s fault %.1f on %s%s noise %.2f, visibility %.2Lf, %s", rate ? "rate" : "range", size, gnss::str(bad).c_str(), vel ? "" : " velocity off", noise, vis, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == 1, "not_repaired", "returned %d", res.ret);
  CHECK(res.soln.valid == 1, "repaired_invalid", "solution not valid");
  CHECK(sid_set_contains(&res.removed, bad) && sid_set_get_sig_count(&res.removed) == 1, "excluded", "the faulty signal is %sin the excluded set of %u", sid_set_contains(&res.removed, bad) ? "" : "not ", sid_set_get_sig_count(&res.removed));
  CHECK(res.soln.n_sigs_used == v.size() - 1, "count", "%u of %zu signals used", res.soln.n_sigs_used, v.size());
  near_truth(s, res, g, noise, vel, "repaired_accuracy");
  ev(small ? "small_repaired" : "single_repaired");
  ev(rate ? "single_doppler" : "single_range");
  if (few) ev("few_satellites");
  if (f >= 32) ev("fault_beyond_32");
  if (!rate && fabs(size) >= 1e6) ev("single_huge");
  if (o.cons.size() > 1) ev("single_mixed");
  /* switched off, the same set is solved without exclusions and says so */
  if (r.coin(0.3)) {
    auto off = pvt::solve(v, s.tor, true, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
    CHECK(off.ret == 2 || off.ret < 0, "off_code", "integrity checking off: returned %d", off.ret);
    CHECK(untouched(off.removed), "off_excluded", "integrity checking off: %u signals excluded", sid_set_get_sig_count(&off.removed));
    ev("fault_with_integrity_off");
  }
}
SECTION(single, 30000, 1000000) { single(c, false); }
SECTION(small, 8000, 340000) { single(c, true); }
SECTION(fault_free, 20000, 680000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 4, 20));
  o.dual = r.pick<double>({0, 0.4});
  if (r.coin(0.04)) o.n = static_cast<int>(r.range(30, 60)), o.dual = 0;
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  double noise = r.coin(0.3) ? 0 : r.uniform(0, 0.3);
  add_noise(r, s, noise);
  Set v = pvt::all(s);
  ld g = worst_gdop(v);
  if (!(g < 6) || s.s.size() > 63) return;
  bool vel = r.coin(0.7);
  c.describe("no fault, noise %.2f%s %s", noise, vel ? "" : " velocity off", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == 0 || (res.ret == 2 && v.size() == 3 + pvt::clocks(v).size()), "false_alarm", "returned %d", res.ret);
  CHECK(untouched(res.removed), "false_exclusion", "%u signals excluded", sid_set_get_sig_count(&res.removed));
  CHECK(res.soln.n_sigs_used == v.size(), "count", "%u of %zu signals used", res.soln.n_sigs_used, v.size());
  near_truth(s, res, g, noise, vel, "accuracy");
  ev("fault_free");
}
/* weak signals: errors within their own expected noise are not faults, and do not hide one */
static ld sigma2(const pvt::Sig &g, bool range) {
  ld t = expl(-static_cast<ld>(g.m.cn0) / 6.5L), s = sinl(g.m.elevation * geo::PI / 180), v = range ? 0.4L + 780 * t + 0.1L / (s * s) : 0.1L + 700 * t;
  if (!(g.m.flags & NAV_MEAS_FLAG_PHASE_VALID)) v *= 16;
  if (g.m.lock_time < 4) v *= 4 - 3 * static_cast<ld>(g.m.lock_time) / 4;
  return v;
}
SECTION(weak, 16000, 510000) {
  Rng &r = c.r;
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  o.l1 = true;
  o.min_el = 15;
  if (r.coin(0.4)) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 7, 16));
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  bool vel = r.coin(), faulty = r.coin(0.8), rate = false;
  size_t nw = static_cast<size_t>(r.range(1, 3)), n = s.s.size();
  std::set<size_t> weak;
  while (weak.size() < nw) weak.insert(static_cast<size_t>(r.range(0, static_cast<int64_t>(n) - 1)));
  ld worst = 0;
  std::string what;
  Set strong;
  for (auto k : weak) {
    pvt::Sig &g = s.s[k];
    if (r.coin(0.8)) g.m.cn0 = r.uniform(12, 30);
    if (r.coin(0.8)) g.m.flags &= static_cast<nav_meas_flags_t>(~NAV_MEAS_FLAG_PHASE_VALID);
    if (r.coin(0.8)) g.m.lock_time = r.coin() ? 0 : r.uniform(0, 4);
    double e = static_cast<double>(sqrtl(sigma2(g, true))) * r.uniform(0.3, 2.5) * (r.coin() ? 1 : -1);
    range_fault(g, e);
    double d = static_cast<double>(sqrtl(sigma2(g, false))) * r.uniform(-2, 2);
    g.m.raw_measured_doppler += d;
    worst = fmaxl(worst, fabs(e));
    what += " " + std::to_string(k) + ":" + std::to_string(e);
  }
  size_t f = 0;
  do f = static_cast<size_t>(r.range(0, static_cast<int64_t>(n) - 1));
  while (weak.count(f));
  Set v = pvt::all(s), rest;
  for (size_t k = 0; k < n; k++)
    if (!weak.count(k)) strong.push_back(v[k]);
  for (auto *p : strong)
    if (!faulty || p != v[f]) rest.push_back(p);
  /* everything is decided by the strong signals alone */
  ld g = rest.size() >= 3 + pvt::clocks(v).size() && pvt::clocks(rest).size() == pvt::clocks(v).size() ? worst_gdop(rest) : 1e9L;
  if (!(g < 8)) return;
  if (faulty) {
    ld vis = visible(strong, v[f]);
    for (size_t j = 0; j < strong.size(); j++)
      if (strong[j] != v[f]) vis = fminl(vis, visible(without(strong, j), v[f]));
    if (!(vis > 0.3L)) return;
    rate = vel && r.coin(0.3);
    if (rate)
      rate_fault(s.s[f], r.logmag(1500, 5000));
    else
      range_fault(s.s[f], r.logmag(20000, 1e6));
  }
  c.describe("weak signals%s, %s %zu%s, %s", what.c_str(), faulty ? rate ? "rate fault on" : "range fault on" : "no fault", f, vel ? "" : " velocity off", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  if (faulty) {
    CHECK(res.ret == 1, "weak_not_repaired", "returned %d", res.ret);
    CHECK(sid_set_contains(&res.removed, s.s[f].m.sid) && sid_set_get_sig_count(&res.removed) == 1, "weak_excluded", "the faulty signal is %sin the excluded set of %u", sid_set_contains(&res.removed, s.s[f].m.sid) ? "" : "not ", sid_set_get_sig_count(&res.removed));
    CHECK(res.soln.n_sigs_used == v.size() - 1, "weak_count", "%u of %zu signals used", res.soln.n_sigs_used, v.size());
    ev("weak_repaired");
    if (rate) ev("weak_rate");
  } else {
    CHECK(res.ret == 0 && untouched(res.removed) && res.soln.n_sigs_used == v.size(), "weak_false_alarm", "returned %d, %u of %zu signals used", res.ret, res.soln.n_sigs_used, v.size());
    ev("weak_fault_free");
  }
  if (worst > 60) ev("weak_large");
  near_truth(s, res, g, 1.0, vel, "weak_accuracy");
}
/* the only signal of a constellation: its error goes into that constellation's clock */
SECTION(lonely, 6000, 200000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  o.n = static_cast<int>(r.range(7, 14));
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  constellation_t k = r.pick<constellation_t>({CONSTELLATION_GAL, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_QZS});
  pvt::Sig lone = pvt::make_sig(r, s.t, gnss::sid(gnss::cons_of(k).l1, gnss::cons_of(k).first + static_cast<unsigned>(r.range(0, 9))), r.uniform(10, 85), r.uniform(0, 6.28), o, nullptr);
  double size = r.logmag(100, 1e6);
  range_fault(lone, size);
  s.s.insert(s.s.begin() + r.range(0, static_cast<int64_t>(s.s.size())), lone);
  Set v = pvt::all(s);
  ld g = worst_gdop(v);
  if (!(g < 8)) return;
  c.describe("fault %.1f on the only signal of constellation %d, %s", size, k, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, false, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret == 0 && res.soln.n_sigs_used == v.size(), "lonely", "returned %d with %u of %zu signals", res.ret, res.soln.n_sigs_used, v.size());
  near_truth(s, res, g, 0, true, "lonely_accuracy");
  ev("lonely");
}
/* one more measurement than unknowns: a fault can be seen but not located */
SECTION(impossible, 20000, 420000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  if (r.coin()) o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL};
  o.n = static_cast<int>(4 + o.cons.size());
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  Set v = pvt::all(s);
  size_t f = static_cast<size_t>(r.range(0, static_cast<int64_t>(v.size()) - 1));
  if (!(worst_gdop(v) < 8) || !(visible(v, v[f]) > 0.1L)) return;
  bool vel = r.coin(0.7), rate = vel && r.coin(0.3);
  double size = rate ? r.logmag(800, 5000) : r.logmag(3000, 1e6);
  if (rate)
    rate_fault(s.s[f], size);
  else
    range_fault(s.s[f], size);
  c.describe("%s fault %.1f on signal %zu with one redundant measurement, %s", rate ? "rate" : "range", size, f, pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  CHECK(res.ret < 0 && !res.soln.valid && !res.soln.velocity_valid, "hidden_fault", "returned %d valid %u", res.ret, res.soln.valid);
  ev("impossible");
}
/* any number of faults: whatever is accepted fits the measurements it says it used */
SECTION(multi, 25000, 850000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.quality = false;
  o.cons = {CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_GLO};
  o.cons.resize(static_cast<size_t>(r.range(1, 3)));
  if (r.coin(0.3)) r.shuffle(o.cons);
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 4, 18));
  o.dual = r.pick<double>({0, 0, 0.5});
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  bool vel = r.coin(0.7);
  int nf = static_cast<int>(r.coin(0.5) ? 2 : r.range(2, 6));
  std::string what;
  std::set<size_t> hit;
  double common = r.logmag(100, 1e5);
  for (int k = 0; k < nf; k++) {
    size_t f = static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1));
    hit.insert(f);
    bool rate = vel && r.coin(0.25);
    double size = rate ? r.logmag(100, 3000) : r.coin(0.3) ? common : r.logmag(100, 1e6);
    if (rate)
      rate_fault(s.s[f], size);
    else
      range_fault(s.s[f], size);
    what += (rate ? " rate " : " range ") + std::to_string(size) + " on " + std::to_string(f);
  }
  Set v = pvt::all(s);
  c.describe("faults%s%s, %s", what.c_str(), vel ? "" : " velocity off", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto res = pvt::solve(v, s.tor, false, !vel, pvt::no_mask(), ALL_CONSTELLATIONS);
  if (res.ret < 0) {
    CHECK(!res.soln.valid, "refused_valid", "returned %d but valid", res.ret);
    ev("multi_refused");
    return;
  }
  if (res.ret == 2) {
    CHECK(v.size() <= 3 + pvt::clocks(v).size(), "unchecked", "returned 2 with %zu signals", v.size());
    return;
  }
  Set used;
  for (auto *p : v)
    if (res.ret == 0 || !sid_set_contains(&res.removed, p->m.sid)) used.push_back(p);
  CHECK(used.size() == res.soln.n_sigs_used, "used", "%u signals used, %zu not excluded", res.soln.n_sigs_used, used.size());
  if (res.ret == 1) CHECK(used.size() < v.size() && sid_set_get_sig_count(&res.removed) == v.size() - used.size(), "excluded_set", "%u excluded of %zu, %zu left", sid_set_get_sig_count(&res.removed), v.size(), used.size());
  ev("multi_accepted");
  /* residuals at the reported state, each constellation's clock fitted by the mean */
  pvt::Truth t = s.t;
  for (int i = 0; i < 3; i++) t.pos[i] = res.soln.pos_ecef[i], t.vel[i] = res.soln.vel_ecef[i];
  t.drift = res.soln.clock_drift * C;
  for (auto &k : t.clk) k.second = 0;
  std::map<constellation_t, std::pair<ld, int>> mean;
  std::vector<ld> pr, dr;
  for (auto *p : used) {
    pvt::Sig q = *p;
    pvt::measure(t, q);
    pr.push_back(static_cast<ld>(p->m.raw_pseudorange) - q.m.raw_pseudorange);
    dr.push_back((static_cast<ld>(p->m.raw_measured_doppler) - q.m.raw_measured_doppler) * C / pvt::freq_of(p->m.sid));
    mean[p->cons].first += pr.back(), mean[p->cons].second++;
  }
  ld s2 = 0, d2 = 0;
  for (size_t i = 0; i < used.size(); i++) {
    ld x = pr[i] - mean[used[i]->cons].first / mean[used[i]->cons].second;
    s2 += x * x, d2 += dr[i] * dr[i];
  }
  ld n = static_cast<ld>(used.size());
  CHECK(sqrtl(s2 / n) < 40, "inconsistent_ranges", "returned %d; range residuals of the used signals have rms %.1Lf m", res.ret, sqrtl(s2 / n));
  if (vel) CHECK(sqrtl(d2 / n) < 12, "inconsistent_rates", "returned %d; rate residuals of the used signals have rms %.1Lf m/s", res.ret, sqrtl(d2 / n));
  if (hit.size() == 2 && res.ret == 1 && used.size() == v.size() - 2) ev("double_repaired");
}
