// @run variant=plain shards=8
// @shared initzero initpat
#include <algorithm>
#include <dlfcn.h>
#include "pvt.h"
#include <swiftnav/logging.h>
using namespace mon;
typedef long double ld;
RULE("memory: each measurement set (clean, faulty, too few, crowded, hostile fields) solved by two builds of the library that differ only in what uninitialised automatic variables contain, with outputs prefilled differently; "
     "history: the same set solved again in one process after other solutions, failures and unrelated calls; order: permutations of well-conditioned clean and single-fault sets. Non-trivial: every case; identity = the measurements.");
NEED(compared, 30000);
NEED(code_2, 3000);
NEED(code_1, 2000);
NEED(code_0, 3000);
NEED(code_m1, 200);
NEED(code_m4, 500);
NEED(code_m5, 1000);
NEED(code_m6, 500);
NEED(code_m7, 1000);
NEED(velocity_off, 8000);
NEED(doppler_missing, 1500);
NEED(history, 8000);
NEED(after_failure, 3000);
NEED(permuted, 8000);
NEED(permuted_fault, 1500);
NEED(permuted_mixed, 2500);
NEED(reversed, 1000);

typedef std::vector<const pvt::Sig *> Set;
struct Lib {
  decltype(&calc_PVT) solve;
  decltype(&glo_map_set_slot_id) map_set;
  decltype(&glo_map_clear_all) map_clear;
  decltype(&logging_set_implementation) log;
};
static void quiet(int, const char *, ...) {}
static void quiet_detailed(int, const char *, const int, const char *, ...) {}
static Lib load(const char *var) {
  const char *p = getenv(var);
  void *h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
  if (!h) {
    fprintf(stderr, "cannot load %s: %s\n", var, p ? dlerror() : "not set");
    exit(3);
  }
  Lib l;
  auto sym = [&](const char *n) {
    void *s = dlsym(h, n);
    if (!s) fprintf(stderr, "no symbol %s\n", n), exit(3);
    return s;
  };
  l.solve = reinterpret_cast<decltype(l.solve)>(sym("calc_PVT"));
  l.map_set = reinterpret_cast<decltype(l.map_set)>(sym("glo_map_set_slot_id"));
  l.map_clear = reinterpret_cast<decltype(l.map_clear)>(sym("glo_map_clear_all"));
  l.log = reinterpret_cast<decltype(l.log)>(sym("logging_set_implementation"));
  l.log(quiet, quiet_detailed);
  l.map_clear();
  for (u16 i = 1; i <= 28; i++) l.map_set(static_cast<u16>((i * 5) % 14 + 1), i);
  return l;
}
static Lib &lib(int i) {
  static Lib l[2] = {load("SN_SO_initzero"), load("SN_SO_initpat")};
  return l[i];
}
static void __attribute__((noinline)) dirty_stack(uint64_t v) {
  volatile uint64_t a[24000];
  for (auto &x : a) x = v;
}
struct Cfg {
  bool no_raim, no_vel;
  obs_mask_config_t mask;
  enum processing_strategy_t st;
};
static pvt::Res run(Lib &l, const Set &v, const gps_time_t &tor, const Cfg &g, int fill, uint64_t dirt) {
  Buf<navigation_measurement_t> m(v.size() + 1);
  for (size_t i = 0; i < v.size(); i++) m[i] = v[i]->m;
  pvt::Res r;
  memset(&r.soln, fill, sizeof r.soln), memset(&r.dops, fill, sizeof r.dops), memset(&r.removed, fill, sizeof r.removed);
  dirty_stack(dirt);
  r.ret = l.solve(static_cast<u8>(v.size()), m.p, &tor, g.no_raim, g.no_vel, &g.mask, g.st, &r.soln, &r.dops, &r.removed);
  return r;
}
/* bitwise, any not-a-number equal to any other */
static bool same(const double *a, const double *b, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (memcmp(a + i, b + i, 8) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
#define D(f) do { \
    CHECK(same(reinterpret_cast<const double *>(&a.soln.f), reinterpret_cast<const double *>(&b.soln.f), sizeof a.soln.f / 8), key, #f " differs: %.17g and %.17g (returned %d)", *reinterpret_cast<const double *>(&a.soln.f), *reinterpret_cast<const double *>(&b.soln.f), a.ret); \
  } while (0)
static void equal(const pvt::Res &a, const pvt::Res &b, const char *key) {
  CHECK(a.ret == b.ret, key, "returned %d and %d", a.ret, b.ret);
  CHECK(a.soln.valid == b.soln.valid && a.soln.velocity_valid == b.soln.velocity_valid && a.soln.n_sats_used == b.soln.n_sats_used && a.soln.n_sigs_used == b.soln.n_sigs_used, key, "flags or counts differ (returned %d): valid %u %u velocity %u %u satellites %u %u signals %u %u", a.ret, a.soln.valid,
        b.soln.valid, a.soln.velocity_valid, b.soln.velocity_valid, a.soln.n_sats_used, b.soln.n_sats_used, a.soln.n_sigs_used, b.soln.n_sigs_used);
  D(pos_llh); D(pos_ecef); D(vel_ned); D(vel_ecef); D(err_cov); D(vel_cov); D(clock_offset); D(clock_offset_var); D(clock_drift); D(clock_drift_var); D(time.tow);
  CHECK(a.soln.time.wn == b.soln.time.wn, key, "week %d and %d", a.soln.time.wn, b.soln.time.wn);
  if (a.ret >= 0) {
    CHECK(same(&a.dops.pdop, &b.dops.pdop, 5), key, "dilutions differ (returned %d): %g %g", a.ret, a.dops.gdop, b.dops.gdop);
    if (a.ret == 1) CHECK(!memcmp(&a.removed, &b.removed, sizeof a.removed), key, "excluded signals differ");
  }
  static const std::map<int, const char *> n = {{2, "code_2"}, {1, "code_1"}, {0, "code_0"}, {-1, "code_m1"}, {-2, "code_m2"}, {-3, "code_m3"}, {-4, "code_m4"}, {-5, "code_m5"}, {-6, "code_m6"}, {-7, "code_m7"}};
  ev(n.count(a.ret) ? n.at(a.ret) : "code_other");
}
static void gen(Rng &r, pvt::Sim &s, Cfg &g) {
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.coin(0.1) ? r.range(16, 40) : r.range(static_cast<int>(o.cons.size()) + 2, 14));
  o.dual = r.pick<double>({0, 0.4});
  if (r.coin(0.1)) o.hmax = 1.5e6;
  if (r.coin(0.1)) o.vmax = 1500;
  pvt::gen_truth(r, o, s);
  int kind = static_cast<int>(r.range(0, 9));
  if (kind == 0) { /* crowded */
    s.s.clear();
    double az = r.uniform(0, 6.28), w = r.uniform(3, 40);
    for (int i = 0; i < o.n && i < 28; i++) {
      constellation_t k = o.cons[static_cast<size_t>(i) % o.cons.size()];
      if (k == CONSTELLATION_QZS && i > 8) continue;
      s.s.push_back(pvt::make_sig(r, s.t, gnss::sid(gnss::cons_of(k).l1, gnss::cons_of(k).first + static_cast<unsigned>(i)), 50 + r.uniform(-1, 1) * w / 2, az + r.uniform(-1, 1) * w / 57.3, o, nullptr));
    }
  } else {
    pvt::gen_sats(r, o, s);
  }
  while (s.s.size() > 63) s.s.pop_back();
  for (auto &q : s.s) q.m.raw_pseudorange += r.normal(0.2);
  if (r.coin(0.5) && !s.s.empty())
    for (int k = static_cast<int>(r.range(1, 3)); k > 0; k--) {
      navigation_measurement_t &m = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
      if (r.coin(0.7))
        m.raw_pseudorange += r.logmag(100, 1e7);
      else
        m.raw_measured_doppler += r.logmag(100, 1e5);
    }
  if (kind == 1 && !s.s.empty())
    for (int k = static_cast<int>(r.range(1, 6)); k > 0; k--) {
      navigation_measurement_t &m = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
      double odd = r.pick<double>({0, NAN, INFINITY, -INFINITY, 1e300, 1e12, -1e9, 1e-300});
      switch (r.range(0, 7)) {
        case 0: m.raw_pseudorange = odd; break;
        case 1: m.raw_measured_doppler = odd; break;
        case 2: m.sat_pos[r.range(0, 2)] = odd; break;
        case 3: m.sat_vel[r.range(0, 2)] = odd; break;
        case 4: m.sat_clock_err = odd; break;
        case 5: m.cn0 = odd; break;
        case 6: m.lock_time = odd; break;
        case 7: m.elevation = odd; break;
      }
    }
  if (r.coin(0.15) && !s.s.empty()) {
    auto &m = s.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1))].m;
    m.flags = static_cast<nav_meas_flags_t>(m.flags & ~NAV_MEAS_FLAG_MEAS_DOPPLER_VALID);
    ev("doppler_missing");
  }
  g.no_raim = r.coin(0.3), g.no_vel = r.coin(0.35);
  if (g.no_vel) ev("velocity_off");
  g.mask = pvt::no_mask();
  g.mask.cn0_mask.enable = r.coin(0.2), g.mask.cn0_mask.threshold_dbhz = 33;
  g.st = r.pick<enum processing_strategy_t>({ALL_CONSTELLATIONS, ALL_CONSTELLATIONS, ALL_CONSTELLATIONS, GPS_ONLY, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY});
}
SECTION(memory, 60000, 3000000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  Cfg g;
  gen(r, s, g);
  Set v = pvt::all(s);
  c.describe("strategy %d%s%s %s", g.st, g.no_raim ? " integrity off" : "", g.no_vel ? " velocity off" : "", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  auto a = run(lib(0), v, s.tor, g, 0x00, 0), b = run(lib(1), v, s.tor, g, r.coin() ? 0xff : 0x3f, r.coin() ? 0x7ff8dead00000001ULL : 0x40f86a0000000000ULL);
  equal(a, b, "memory_contents");
  ev("compared");
}
SECTION(history, 16000, 800000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  Cfg g;
  gen(r, s, g);
  Set v = pvt::all(s);
  c.describe("strategy %d%s%s %s", g.st, g.no_raim ? " integrity off" : "", g.no_vel ? " velocity off" : "", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  int which = static_cast<int>(r.range(0, 1));
  auto a = run(lib(which), v, s.tor, g, 0x00, 0);
  pvt::Res last = a;
  for (int k = static_cast<int>(r.range(0, 3)); k > 0; k--) {
    pvt::Sim o;
    Cfg h;
    gen(r, o, h);
    if (r.coin(0.3)) o.s = s.s, h = g, o.tor = s.tor; /* nearly the same problem */
    if (!o.s.empty() && r.coin(0.5)) o.s[static_cast<size_t>(r.range(0, static_cast<int64_t>(o.s.size()) - 1))].m.raw_pseudorange += r.logmag(1, 1e6);
    if (r.coin(0.3)) h.st = g.st, h.no_vel = !g.no_vel;
    last = run(lib(which), pvt::all(o), o.tor, h, r.coin() ? 0x01 : 0xff, r.u64());
    if (last.ret < 0) ev("after_failure");
  }
  /* solve into the previous call's output */
  pvt::Res b = last;
  Buf<navigation_measurement_t> m(v.size() + 1);
  for (size_t i = 0; i < v.size(); i++) m[i] = v[i]->m;
  b.ret = lib(which).solve(static_cast<u8>(v.size()), m.p, &s.tor, g.no_raim, g.no_vel, &g.mask, g.st, &b.soln, &b.dops, &b.removed);
  equal(a, b, "history");
  ev("history");
}
SECTION(order, 30000, 1000000) {
  Rng &r = c.r;
  pvt::map_glo();
  pvt::Sim s;
  pvt::Opt o;
  o.cons = pvt::gen_cons(r);
  o.n = static_cast<int>(r.range(static_cast<int>(o.cons.size()) + 6, 20));
  o.dual = r.pick<double>({0, 0.4});
  bool fault = r.coin(0.4);
  o.quality = !fault;
  pvt::gen_truth(r, o, s);
  pvt::gen_sats(r, o, s);
  double noise = r.uniform(0, 0.3);
  for (auto &q : s.s) q.m.raw_pseudorange += r.normal(noise);
  while (s.s.size() > 63) s.s.pop_back();
  Set v = pvt::all(s);
  /* every unknown observed by many signals, so that a fault is visible and identifiable in any order */
  auto H = pvt::cov(v, {});
  if (!H.ok) return;
  ld worst = 0;
  for (size_t i = 0; i + 3 < H.n; i++) worst = fmaxl(worst, pvt::gdop(H, i));
  if (!(worst < 5)) return;
  Cfg g{};
  g.no_raim = !fault && r.coin(0.3), g.no_vel = r.coin(0.3), g.st = r.pick<enum processing_strategy_t>({ALL_CONSTELLATIONS, ALL_CONSTELLATIONS, GPS_ONLY});
  if (g.st == GPS_ONLY) {
    Set k;
    for (auto *p : v)
      if (p->cons == CONSTELLATION_GPS) k.push_back(p);
    auto K = pvt::cov(k, {});
    if (k.empty() || !K.ok || !(pvt::gdop(K, 0) < 5)) g.st = ALL_CONSTELLATIONS;
  }
  if (fault) {
    size_t f = static_cast<size_t>(r.range(0, static_cast<int64_t>(s.s.size()) - 1));
    Set u; /* the signals the solver will see */
    for (auto *p : v)
      if (g.st != GPS_ONLY || p->cons == CONSTELLATION_GPS) u.push_back(p);
    size_t at = static_cast<size_t>(std::find(u.begin(), u.end(), &s.s[f]) - u.begin());
    if (at == u.size()) return;
    ld vis = pvt::visible(u, u[at]);
    for (size_t j = 0; j < u.size(); j++)
      if (j != at) vis = fminl(vis, pvt::visible(pvt::without(u, j), u[at]));
    if (!(vis > 0.2L)) return;
    s.s[f].m.raw_pseudorange += r.logmag(3000, 1e6);
  }
  c.describe("strategy %d%s%s%s %s", g.st, fault ? " fault" : "", g.no_raim ? " integrity off" : "", g.no_vel ? " velocity off" : "", pvt::show(s).c_str());
  c.nt(pvt::hash(s));
  Set p = v;
  if (r.coin(0.15))
    std::reverse(p.begin(), p.end()), ev("reversed");
  else
    r.shuffle(p);
  auto a = run(lib(0), v, s.tor, g, 0x00, 0), b = run(lib(0), p, s.tor, g, 0x00, 0);
  CHECK(a.ret == b.ret, "order_code", "returned %d, and %d in another order", a.ret, b.ret);
  CHECK(a.soln.valid == b.soln.valid && a.soln.velocity_valid == b.soln.velocity_valid && a.soln.n_sats_used == b.soln.n_sats_used && a.soln.n_sigs_used == b.soln.n_sigs_used, "order_counts", "flags or counts differ: %u %u satellites, %u %u signals", a.soln.n_sats_used, b.soln.n_sats_used, a.soln.n_sigs_used, b.soln.n_sigs_used);
  if (a.ret < 0) return;
  if (a.ret == 1) {
    CHECK(!memcmp(&a.removed, &b.removed, sizeof a.removed), "order_excluded", "excluded signals differ");
    ev("permuted_fault");
  }
  auto near = [&](const char *key, const double *x, const double *y, size_t n, double tol) {
    for (size_t i = 0; i < n; i++) CHECK(fabs(x[i] - y[i]) <= tol, key, "component %zu is %.12g, and %.12g in another order (returned %d)", i, x[i], y[i], a.ret);
  };
  near("order_position", a.soln.pos_ecef, b.soln.pos_ecef, 3, 1e-4);
  near("order_velocity", a.soln.vel_ecef, b.soln.vel_ecef, 3, 1e-4);
  near("order_llh", a.soln.pos_llh + 2, b.soln.pos_llh + 2, 1, 1e-4);
  if (hypot(a.soln.pos_ecef[0], a.soln.pos_ecef[1]) > 1e4) near("order_ned", a.soln.vel_ned, b.soln.vel_ned, 3, 1e-4);
  near("order_dop", &a.dops.pdop, &b.dops.pdop, 1, 1e-6);
  near("order_dop", &a.dops.hdop, &b.dops.hdop, 2, 1e-6);
  for (int i = 0; i < 6; i++) CHECK(rclose(a.soln.err_cov[i], b.soln.err_cov[i], 1e-6, 1e-6 * fabs(a.soln.err_cov[0])), "order_cov", "covariance %d is %.12g, and %.12g in another order", i, a.soln.err_cov[i], b.soln.err_cov[i]);
  if (!g.no_vel)
    for (int i = 0; i < 6; i++) CHECK(rclose(a.soln.vel_cov[i], b.soln.vel_cov[i], 1e-6, 1e-6 * fabs(a.soln.vel_cov[0])), "order_cov", "velocity covariance %d is %.12g, and %.12g in another order", i, a.soln.vel_cov[i], b.soln.vel_cov[i]);
  if (pvt::clocks(v)[0] == pvt::clocks(p)[0]) {
    near("order_clock", &a.soln.clock_offset, &b.soln.clock_offset, 1, 1e-12);
    near("order_clock", &a.soln.clock_drift, &b.soln.clock_drift, 1, 1e-12);
    near("order_dop", &a.dops.tdop, &b.dops.tdop, 1, 1e-6);
  }
  ev("permuted");
  if (pvt::clocks(v).size() > 1) ev("permuted_mixed");
}
