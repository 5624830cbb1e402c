// @run variant=plain shards=8
// @shared initzero
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include <unordered_map>
#include "geo.h"
#include "nav.h"
#include "orbit.h"
#include "pvt.h"
#include <swiftnav/almanac.h>
#include <swiftnav/bits.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/decode_glo.h>
#include <swiftnav/edc.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/ionosphere.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/logging.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/shm.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/troposphere.h>
using namespace mon;
RULE("case = one part of the library and a walk of 12 calls whose arguments lie in the same memory and change by one step at a time (one field, one bit, an earlier value again, the same values in other memory, the slot map, nothing at all); "
     "every call is made in an instance of the library that has seen the whole history of the process and in an instance loaded for this one call; all outputs must be bit-identical. Non-trivial: every walk; identity = hash of the results.");

/* ---- two instances of the same shared object */
static void quiet(int, const char *, ...) {}
static void quiet_detailed(int, const char *, const int, const char *, ...) {}
struct Lib {
  void *h = nullptr;
  uint16_t map[29] = {};
  std::unordered_map<const char *, void *> cache;
  bool keep = false;
  void *sym(const char *n) {
    if (keep) {
      auto it = cache.find(n);
      if (it != cache.end()) return it->second;
    }
    void *s = dlsym(h, n);
    if (!s) fprintf(stderr, "no symbol %s\n", n), exit(3);
    if (keep) cache[n] = s;
    return s;
  }
  void open(const char *p) {
    h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!h) fprintf(stderr, "cannot load %s: %s\n", p, dlerror()), exit(3);
    memset(map, 0, sizeof map);
    cache.clear();
    reinterpret_cast<decltype(&logging_set_implementation)>(sym("logging_set_implementation"))(quiet, quiet_detailed);
    reinterpret_cast<decltype(&glo_map_clear_all)>(sym("glo_map_clear_all"))();
  }
  void set_map(const uint16_t *m) {
    for (uint16_t i = 1; i <= 28; i++)
      if (m[i] != map[i]) {
        if (m[i]) reinterpret_cast<decltype(&glo_map_set_slot_id)>(sym("glo_map_set_slot_id"))(m[i], i);
        else reinterpret_cast<decltype(&glo_map_clear_slot_id)>(sym("glo_map_clear_slot_id"))(i);
        map[i] = m[i];
      }
  }
};
#define F(f) (reinterpret_cast<decltype(&f)>(l.sym(#f)))
static Lib &old_lib() {
  static Lib l;
  if (!l.h) {
    const char *p = getenv("SN_SO_initzero");
    if (!p) fprintf(stderr, "SN_SO_initzero not set\n"), exit(3);
    l.keep = true;
    l.open(p);
  }
  return l;
}
static const char *fresh_path() {
  static char path[64];
  if (!path[0]) {
    int fd = memfd_create("libsn_fresh.so", 0);
    FILE *f = fopen(getenv("SN_SO_initzero") ? getenv("SN_SO_initzero") : "", "rb");
    if (fd < 0 || !f) fprintf(stderr, "cannot copy the library\n"), exit(3);
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      if (write(fd, b, n) != static_cast<ssize_t>(n)) fprintf(stderr, "cannot copy the library\n"), exit(3);
    fclose(f);
    snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
  }
  return path;
}
struct Out {
  uint64_t h = 1;
  void add(uint64_t x) { h = hcombine(h, x); }
  void d(double x) { add(std::isnan(x) ? 0x7777 : hd(x)); }
  void v(const double *p, size_t n) {
    for (size_t i = 0; i < n; i++) d(p[i]);
  }
  void t(const gps_time_t &x) { d(x.tow), add(static_cast<uint64_t>(x.wn)); }
  void str(const char *s) { add(s ? hbytes(s, strlen(s)) : 0); }
  void raw(const void *p, size_t n) { add(hbytes(p, n)); }
};
/* ---- changing one number */
static void nudge(Rng &r, double &x, double lo, double hi) {
  double y = x;
  switch (r.range(0, 6)) {
    case 0: y = nextafter(x, r.coin() ? INFINITY : -INFINITY); break;
    case 1: y = x * (1 + r.pick<double>({1e-12, -1e-9, 1e-6, -1e-4})); break;
    case 2: y = x + r.pick<double>({1e-9, -1e-6, 1e-3, -0.1, 1, -10}); break;
    case 3: y = -x; break;
    case 4: y = floor(x); break;
    default: y = r.uniform(lo, hi); break;
  }
  x = y < lo ? lo : y > hi ? hi : y;
}
static void nudge_time(Rng &r, gps_time_t &t) {
  if (r.coin(0.3)) {
    t.wn = static_cast<s16>(r.coin() ? t.wn + r.pick<int>({1, -1, 256, -256, 1024}) : r.range(10, 4000));
    if (t.wn < 10 || t.wn > 5000) t.wn = 2000;
  } else
    nudge(r, t.tow, 0, 604799.9);
}
static void flip(Rng &r, void *p, size_t bytes) { static_cast<unsigned char *>(p)[r.range(0, static_cast<int64_t>(bytes) - 1)] ^= static_cast<unsigned char>(1u << r.range(0, 7)); }
static gps_time_t any_time(Rng &r) { return tref::mk(static_cast<int>(r.range(10, 4000)), r.coin(0.2) ? r.pick<double>({0, 604799, 302400}) : r.uniform(0, 604799)); }
static void gen_map(Rng &r, uint16_t *m) {
  for (int i = 1; i <= 28; i++) m[i] = static_cast<uint16_t>(r.range(1, 14));
}
static utc_params_t gen_utc(Rng &r, const gps_time_t &near) {
  utc_params_t u;
  memset(&u, 0, sizeof u);
  u.a0 = r.uniform(-1e-7, 1e-7), u.a1 = r.uniform(-1e-13, 1e-13);
  u.tot = near, u.t_lse = tref::mk(near.wn, static_cast<double>(r.range(1, 7)) * 86400 - 1);
  u.dt_ls = static_cast<s8>(r.range(0, 40)), u.dt_lsf = static_cast<s8>(u.dt_ls + r.range(0, 1));
  u.t_lse.tow += u.dt_ls;
  if (u.t_lse.tow >= 604800) u.t_lse.tow -= 604800, u.t_lse.wn++;
  return u;
}
static void nudge_utc(Rng &r, utc_params_t &u) {
  switch (r.range(0, 5)) {
    case 0: nudge(r, u.a0, -1e-7, 1e-7); break;
    case 1: nudge(r, u.a1, -1e-13, 1e-13); break;
    case 2: u.tot.tow = r.uniform(0, 604799); break;
    case 3: u.dt_lsf = static_cast<s8>(u.dt_ls + r.range(0, 1)); break;
    case 4: u.dt_ls = static_cast<s8>(r.range(0, 40)), u.dt_lsf = static_cast<s8>(u.dt_ls + r.range(0, 1)); break;
    default: u.t_lse.wn = static_cast<s16>(u.t_lse.wn + r.range(-2, 2)); break;
  }
}
/* a state to a result, changed in steps; S is plain memory */
struct Walk {
  const char *name;
  size_t size;
  void (*init)(Rng &, void *);
  void (*tweak)(Rng &, void *);
  void (*call)(Lib &, const void *, Out &);
};
template <class S>
static Walk walk(const char *n) {
  static_assert(std::is_trivially_copyable<S>::value, "plain");
  return {n, sizeof(S), [](Rng &r, void *p) { static_cast<S *>(p)->init(r); }, [](Rng &r, void *p) { static_cast<S *>(p)->tweak(r); }, [](Lib &l, const void *p, Out &o) { static_cast<const S *>(p)->call(l, o); }};
}

struct Coords {
  double a[3], ref[3], llh[3];
  int fn;
  void init(Rng &r) {
    fn = static_cast<int>(r.range(0, 9));
    llh[0] = geo::gen_lat(r), llh[1] = geo::gen_lon(r), llh[2] = geo::gen_h(r);
    geo::ld x[3];
    geo::to_ecef(llh, x);
    for (int i = 0; i < 3; i++) ref[i] = static_cast<double>(x[i]), a[i] = ref[i] + r.normal() * r.pick<double>({1, 1e3, 2e7});
  }
  void tweak(Rng &r) {
    int i = static_cast<int>(r.range(0, 2));
    double *v = r.pick<double *>({a, ref, llh});
    if (v == llh) nudge(r, v[i], i == 0 ? -1.57 : i == 1 ? -3.14 : -5000, i == 0 ? 1.57 : i == 1 ? 3.14 : 1e7);
    else if (r.coin(0.2)) std::swap(v[i], v[(i + 1) % 3]);
    else nudge(r, v[i], -3e7, 3e7);
  }
  void call(Lib &l, Out &o) const {
    double u[9] = {0}, w = 0, az = 0;
    switch (fn) {
      case 0: F(wgsecef2llh)(a, u); break;
      case 1: F(wgsllh2ecef)(llh, u); break;
      case 2: F(wgsecef2ned)(a, ref, u); break;
      case 3: F(wgsecef2ned_d)(a, ref, u); break;
      case 4: F(wgsned2ecef)(a, ref, u); break;
      case 5: F(wgsned2ecef_d)(a, ref, u); break;
      case 6: F(wgsecef2azel)(a, ref, &az, &w); break;
      case 7: F(wgs_ecef2ned_matrix)(llh, reinterpret_cast<double(*)[3]>(u)); break;
      case 8: F(ecef2ned_matrix)(ref, reinterpret_cast<double(*)[3]>(u)); break;
      default: F(llhrad2deg)(llh, u), F(llhdeg2rad)(llh, u + 3); break;
    }
    o.v(u, 9), o.d(w), o.d(az);
  }
};
struct Atmosphere {
  double doy, lat, lon, h, az, el;
  gps_time_t t;
  ionosphere_t io;
  int fn;
  void init(Rng &r) {
    memset(&io, 0, sizeof io);
    fn = static_cast<int>(r.range(0, 2));
    doy = r.uniform(1, 366), lat = geo::gen_lat(r), lon = geo::gen_lon(r), h = r.uniform(-500, 10000), az = r.uniform(0, 6.28), el = r.uniform(0.05, 1.57), t = any_time(r);
    io.a0 = r.uniform(0, 6e-8), io.a1 = r.uniform(-1e-8, 1e-8), io.a2 = r.uniform(-1e-7, 1e-7), io.a3 = r.uniform(-1e-7, 1e-7);
    io.b0 = r.uniform(7e4, 2e5), io.b1 = r.uniform(-1e5, 1e5), io.b2 = r.uniform(-1e5, 1e5), io.b3 = r.uniform(-5e5, 5e5);
  }
  void tweak(Rng &r) {
    switch (r.range(0, fn == 0 ? 3 : fn == 1 ? 13 : 4)) {
      case 0: nudge(r, lat, -1.57, 1.57); break;
      case 1: fn == 2 ? nudge(r, lon, -3.14, 3.14) : nudge(r, el, 0.05, 1.57); break;
      case 2: fn == 0 ? nudge(r, h, -500, 10999) : nudge(r, lon, -3.14, 3.14); break;
      case 3: fn == 0 ? nudge(r, doy, 1, 366) : nudge(r, az, 0, 6.28); break;
      case 4: nudge_time(r, t); break;
      case 5: nudge(r, io.a0, 0, 6e-8); break;
      case 6: nudge(r, io.a1, -1e-7, 1e-7); break;
      case 7: nudge(r, io.a2, -1e-7, 1e-7); break;
      case 8: nudge(r, io.a3, -1e-7, 1e-7); break;
      case 9: nudge(r, io.b0, 0, 2e5); break;
      case 10: nudge(r, io.b1, -1e5, 1e5); break;
      case 11: nudge(r, io.b2, -1e5, 1e5); break;
      case 12: nudge(r, io.b3, -5e5, 5e5); break;
      default: nudge(r, t.tow, 0, 604799); break;
    }
  }
  void call(Lib &l, Out &o) const {
    if (fn == 0) o.d(F(calc_troposphere)(doy, lat, h, el));
    else if (fn == 1) o.d(F(calc_ionosphere)(&t, lat, lon, az, el, &io));
    else o.d(static_cast<double>(F(get_geoid_offset)(lat, lon)));
  }
};
struct Orbits {
  ephemeris_t e[3];
  satellite_orbit_type_t ty[3];
  gps_time_t t;
  double ref[3], vel[3];
  int i, fn;
  uint16_t map[29];
  void one(Rng &r, int k) {
    constellation_t cons = r.pick<constellation_t>({CONSTELLATION_GPS, CONSTELLATION_GPS, CONSTELLATION_GAL, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GLO, CONSTELLATION_GLO, CONSTELLATION_SBAS});
    orbit::Gen g = cons == CONSTELLATION_GLO ? orbit::gen_glo(r) : cons == CONSTELLATION_SBAS ? orbit::gen_sbas(r) : orbit::gen_kepler(r, cons);
    e[k] = g.e, ty[k] = g.type;
  }
  void init(Rng &r) {
    for (int k = 0; k < 3; k++) one(r, k);
    i = 0, fn = static_cast<int>(r.range(0, 6));
    if (r.coin()) /* the same satellite with another message */
      for (int k = 1; k < 3; k++) {
        gnss_signal_t s = e[0].sid;
        gps_time_t toe = e[0].toe;
        e[k] = e[0], ty[k] = ty[0], e[k].sid = s, e[k].toe = toe;
        change(r, e[k]), change(r, e[k]), change(r, e[k]);
      }
    t = orbit::at(e[0].toe, r.uniform(-1500, 1500));
    double llh[3] = {geo::gen_lat(r), geo::gen_lon(r), 100};
    geo::ld x[3];
    geo::to_ecef(llh, x);
    for (int k = 0; k < 3; k++) ref[k] = static_cast<double>(x[k]), vel[k] = r.normal(10);
    gen_map(r, map);
  }
  static void change(Rng &r, ephemeris_t &q) {
    auto rel = [&](double &x, double s) { x = r.coin() ? x * (1 + r.uniform(-1, 1) * s) : x + s * r.pick<double>({1e-6, 1e-3, -1e-9}); };
    constellation_t c = q.sid.code == CODE_GLO_L1OF || q.sid.code == CODE_GLO_L2OF ? CONSTELLATION_GLO : q.sid.code == CODE_SBAS_L1CA ? CONSTELLATION_SBAS : CONSTELLATION_GPS;
    if (r.coin(0.15)) {
      switch (r.range(0, 4)) {
        case 0: q.valid = !q.valid; break;
        case 1: q.health_bits = static_cast<u8>(r.coin() ? 0 : r.range(0, 63)); break;
        case 2: q.ura = static_cast<float>(r.pick<double>({2, 4, 2048, -1})); break;
        case 3: q.fit_interval = r.pick<u32>({0, 7200, 14400, 2400}); break;
        default: q.toe.tow = fmod(q.toe.tow + r.pick<double>({16, 720, 7200}), 604800); break;
      }
      return;
    }
    if (c == CONSTELLATION_GLO) {
      ephemeris_glo_t &g = q.data.glo;
      switch (r.range(0, 6)) {
        case 0: g.pos[r.range(0, 2)] += r.uniform(-1000, 1000); break;
        case 1: g.vel[r.range(0, 2)] += r.uniform(-1, 1); break;
        case 2: g.acc[r.range(0, 2)] *= r.uniform(0.5, 1.5); break;
        case 3: rel(g.gamma, 0.5); break;
        case 4: rel(g.tau, 0.5); break;
        case 5: g.d_tau = r.uniform(-1e-8, 1e-8); break;
        default: g.iod = static_cast<u8>((g.iod + 1) & 127); break;
      }
    } else if (c == CONSTELLATION_SBAS) {
      ephemeris_xyz_t &g = q.data.xyz;
      switch (r.range(0, 4)) {
        case 0: g.pos[r.range(0, 2)] += r.uniform(-1000, 1000); break;
        case 1: g.vel[r.range(0, 2)] += r.uniform(-1, 1); break;
        case 2: g.acc[r.range(0, 2)] += r.uniform(-1e-5, 1e-5); break;
        case 3: g.a_gf0 += r.uniform(-1e-8, 1e-8); break;
        default: g.a_gf1 += r.uniform(-1e-12, 1e-12); break;
      }
    } else {
      ephemeris_kepler_t &k = q.data.kepler;
      double *f[] = {&k.crc, &k.crs, &k.cuc, &k.cus, &k.cic, &k.cis, &k.dn, &k.m0, &k.ecc, &k.omega0, &k.omegadot, &k.w, &k.inc, &k.inc_dot, &k.af0, &k.af1, &k.af2};
      switch (r.range(0, 9)) {
        case 0: k.sqrta *= 1 + r.uniform(-1, 1) * 1e-4; break;
        case 1: k.tgd.gps_s[r.range(0, 1)] += static_cast<float>(r.uniform(-1e-8, 1e-8)); break;
        case 2: k.toc.tow = fmod(k.toc.tow + 16, 604800); break;
        case 3: k.iode = static_cast<u16>(k.iode ^ 1), k.iodc = static_cast<u16>(k.iodc ^ 1); break;
        default: {
          double &x = *f[r.range(0, 16)];
          x *= 1 + r.uniform(-1, 1) * r.pick<double>({1e-9, 1e-4, 0.1});
          break;
        }
      }
    }
  }
  void tweak(Rng &r) {
    switch (r.range(0, 9)) {
      case 0: i = static_cast<int>(r.range(0, 2)); break;
      case 1: {
        int k = static_cast<int>(r.range(0, 2));
        std::swap(e[i], e[k]), std::swap(ty[i], ty[k]);
        break;
      }
      case 2: nudge(r, ref[r.range(0, 2)], -6.4e6, 6.4e6); break;
      case 3: nudge(r, vel[r.range(0, 2)], -300, 300); break;
      case 4: case 5: t = orbit::at(t, r.pick<double>({1e-3, -1e-3, 0.1, 1, -1, 30, -30, 600})); break;
      case 6: {
        uint16_t &m = map[e[i].sid.sat % 28 + 1];
        if (e[i].sid.code == CODE_GLO_L1OF || e[i].sid.code == CODE_GLO_L2OF) map[e[i].sid.sat] = static_cast<uint16_t>(r.range(1, 14));
        else m = static_cast<uint16_t>(r.range(1, 14));
        break;
      }
      default: change(r, e[i]); break;
    }
    if (t.wn < 5) t.wn = 5;
  }
  void call(Lib &l, Out &o) const {
    double p[3] = {0}, v[3] = {0}, a[3] = {0}, ce = 0, cr = 0, az = 0, el = 0;
    const ephemeris_t *q = &e[i];
    l.set_map(map);
    s8 ret = 0;
    float tgd = 0;
    switch (fn) {
      case 0: ret = F(calc_sat_state)(q, &t, p, v, a, &ce, &cr); break;
      case 1: ret = F(calc_sat_state_orbit_type)(q, &t, ty[i], p, v, a, &ce, &cr); break;
      case 2: ret = F(calc_sat_state_n)(q, &t, ty[i], p, v, a, &ce, &cr); break;
      case 3: ret = F(calc_sat_az_el)(q, &t, ref, ty[i], &az, &el, true); break;
      case 4: ret = F(calc_sat_az_el)(q, &t, ref, ty[i], &az, &el, false); break;
      case 5: ret = F(calc_sat_doppler)(q, &t, ref, vel, ty[i], &ce); break;
      default:
        o.add(F(ephemeris_valid)(q, &t)), o.add(static_cast<uint64_t>(F(ephemeris_valid_detailed)(q, &t))), o.add(static_cast<uint64_t>(F(get_ephemeris_status_t)(q))), o.add(F(ephemeris_healthy)(q, q->sid.code));
        o.add(F(ephemeris_equal)(q, &e[(i + 1) % 3]));
        if (q->sid.code != CODE_SBAS_L1CA) o.add(static_cast<uint64_t>(F(get_tgd_correction)(q, &q->sid, &tgd))), o.d(static_cast<double>(tgd));
        break;
    }
    o.add(static_cast<uint64_t>(ret));
    if (ret == 0) o.v(p, 3), o.v(v, 3), o.v(a, 3), o.d(ce), o.d(cr), o.d(az), o.d(el);
  }
};
struct Almanacs {
  almanac_t a[2];
  gps_time_t t;
  double ref[3];
  int i, fn;
  void init(Rng &r) {
    memset(a, 0, sizeof a);
    for (int k = 0; k < 2; k++) {
      a[k].sid = gnss::sid(CODE_GPS_L1CA, static_cast<unsigned>(r.range(1, 32)));
      a[k].toa = tref::mk(2000, 4096.0 * static_cast<double>(r.range(0, 147))), a[k].ura = 900, a[k].fit_interval = 518400, a[k].valid = 1;
      almanac_kepler_t &q = a[k].data.kepler;
      q.m0 = r.uniform(-3, 3), q.ecc = r.uniform(0, 0.02), q.sqrta = 5153.6 + r.uniform(-1, 1), q.omega0 = r.uniform(-3, 3), q.omegadot = -8e-9, q.w = r.uniform(-3, 3), q.inc = 0.96, q.af0 = r.uniform(-1e-4, 1e-4), q.af1 = r.uniform(-1e-11, 1e-11);
    }
    t = orbit::at(a[0].toa, r.uniform(-200000, 200000));
    i = 0, fn = static_cast<int>(r.range(0, 3));
    for (double &x : ref) x = r.uniform(-4e6, 4e6);
  }
  void tweak(Rng &r) {
    almanac_kepler_t &q = a[i].data.kepler;
    double *f[] = {&q.m0, &q.ecc, &q.sqrta, &q.omega0, &q.omegadot, &q.w, &q.inc, &q.af0, &q.af1};
    switch (r.range(0, 6)) {
      case 0: i = !i; break;
      case 1: std::swap(a[0], a[1]); break;
      case 2: t = orbit::at(t, r.pick<double>({1e-3, 1, -1, 600, -604800})); break;
      case 3: ref[r.range(0, 2)] += r.pick<double>({1, 1000, 1e6}); break;
      case 4:
        if (r.coin()) a[i].valid = !a[i].valid;
        else a[i].health_bits = static_cast<u8>(r.coin() ? 0 : r.range(0, 255));
        break;
      default: *f[r.range(0, 8)] *= 1 + r.uniform(-1, 1) * r.pick<double>({1e-9, 1e-4}); break;
    }
    if (t.wn < 5) t.wn = 5;
  }
  void call(Lib &l, Out &o) const {
    double p[3] = {0}, v[3] = {0}, c[3] = {0}, ce = 0, cr = 0;
    s8 ret = 0;
    switch (fn) {
      case 0: ret = F(calc_sat_state_almanac)(&a[i], &t, p, v, c, &ce, &cr); break;
      case 1: ret = F(calc_sat_az_el_almanac)(&a[i], &t, ref, &ce, &cr); break;
      case 2: ret = F(calc_sat_doppler_almanac)(&a[i], &t, ref, &ce); break;
      default: o.add(F(almanac_valid)(&a[i], &t)), o.add(F(almanac_healthy)(&a[i])), o.add(F(almanac_equal)(&a[0], &a[1])); break;
    }
    o.add(static_cast<uint64_t>(ret));
    if (ret == 0) o.v(p, 3), o.v(v, 3), o.v(c, 3), o.d(ce), o.d(cr);
  }
};
struct Messages {
  u32 w[3][10];
  u8 page[5][GAL_INAV_CONTENT_BYTE];
  glo_string_t s[5];
  gnss_signal_t sid;
  double tow;
  u16 ref;
  int fn;
  utc_params_t u;
  bool have_u;
  void init(Rng &r) {
    memset(this, 0, sizeof *this);
    fn = static_cast<int>(r.range(0, 8));
    for (auto &x : w)
      for (auto &y : x) y = r.u32() & 0x3fffffff;
    r.bytes(page, sizeof page);
    int iod = static_cast<int>(r.range(0, 1023));
    for (int i = 0; i < 4; i++) nav::putb(page[i], 6, 10, static_cast<uint64_t>(iod));
    nav::putb(page[0], 16, 14, static_cast<uint64_t>(r.range(0, 10079))), nav::putb(page[3], 54, 14, static_cast<uint64_t>(r.range(0, 10079))), nav::putb(page[3], 16, 6, static_cast<uint64_t>(r.range(1, 36)));
    nav::putb(page[4], 73, 12, static_cast<uint64_t>(r.range(100, 2000))), nav::putb(page[4], 85, 20, static_cast<uint64_t>(r.range(0, 604799)));
    for (int i = 0; i < 5; i++) {
      nav::GloBits b;
      for (int k = 9; k <= 84; k++) b.b[k] = r.coin();
      b.put(81, 4, static_cast<uint64_t>(i + 1));
      if (i < 3) b.sm(9, 26, r.range(-25000000, 25000000) * 2), b.sm(36, 4, r.range(-6, 6)), b.sm(41, 23, r.range(-4500000, 4500000));
      if (i == 0) b.put(72, 5, static_cast<uint64_t>(r.range(0, 23))), b.put(66, 6, static_cast<uint64_t>(r.range(0, 59)));
      if (i == 1) b.put(70, 7, static_cast<uint64_t>(r.range(1, 95))), b.put(80, 1, 0), b.put(78, 3, 0);
      if (i == 3) b.put(11, 5, static_cast<uint64_t>(r.range(1, 28))), b.put(16, 11, static_cast<uint64_t>(r.range(1, 1461)));
      if (i == 4) b.put(32, 5, static_cast<uint64_t>(r.range(1, 26)));
      b.seal(), b.words(s[i].word);
    }
    sid = fn == 1 ? gnss::sid(CODE_BDS2_B1, static_cast<unsigned>(r.range(6, 14))) : gnss::sid(CODE_GPS_L1CA, static_cast<unsigned>(r.range(1, 32)));
    if (fn == 4) w[0][0] = (w[0][0] & 0x003fffff) | (1u << 28) | (56u << 22);
    if (fn == 5) w[0][0] = (w[0][0] & 0x003fffff) | (1u << 28) | (static_cast<u32>(r.range(1, 32)) << 22);
    if (fn == 6) w[0][0] = (w[0][0] & 0x003fffff) | (1u << 28) | (r.pick<u32>({51, 63}) << 22);
    tow = static_cast<double>(r.range(0, 100799)) * 6, ref = static_cast<u16>(r.range(100, 4000));
    u = gen_utc(r, any_time(r)), have_u = r.coin();
  }
  void tweak(Rng &r) {
    if (r.coin(0.15)) tow = static_cast<double>(r.range(0, 100799)) * 6;
    else if (r.coin(0.15)) ref = static_cast<u16>(r.range(100, 4000));
    else if (r.coin(0.1)) sid = sid.code == CODE_BDS2_B1 ? gnss::sid(CODE_BDS2_B1, static_cast<unsigned>(r.range(6, 14))) : gnss::sid(CODE_GPS_L1CA, static_cast<unsigned>(r.range(1, 32)));
    else
      switch (fn) {
        case 2: flip(r, page, sizeof page); break;
        case 3: case 7: {
          if (r.coin(0.2)) {
            have_u = !have_u;
            break;
          }
          /* a data bit and the check bits that go with it */
          int i = static_cast<int>(r.range(0, 4));
          if (r.coin(0.2)) {
            flip(r, s[i].word, 8);
            break;
          }
          nav::GloBits b;
          for (int k = 1; k <= 85; k++) b.b[k] = (s[i].word[(k - 1) / 32] >> ((k - 1) % 32)) & 1;
          b.b[r.range(9, 80)] ^= 1;
          b.seal(), b.words(s[i].word);
          break;
        }
        default: {
          u32 &x = w[r.range(0, 2)][r.range(0, 9)];
          x ^= 1u << r.range(0, fn >= 4 && fn <= 6 && &x == &w[0][0] ? 21 : 29);
          break;
        }
      }
  }
  void call(Lib &l, Out &o) const {
    ephemeris_t e;
    memset(&e, 0, sizeof e);
    u32 v[3][8];
    for (int i = 0; i < 3; i++) memcpy(v[i], w[i], 32);
    auto eph = [&] {
      o.add(e.valid), o.t(e.toe), o.d(static_cast<double>(e.ura)), o.add(e.fit_interval), o.add(e.health_bits), o.add(e.sid.sat), o.add(static_cast<uint64_t>(e.sid.code));
      o.raw(&e.data, sizeof e.data);
    };
    switch (fn) {
      case 0:
        e.sid = sid;
        F(decode_ephemeris_with_wn_ref)(v, &e, tow, ref);
        eph();
        break;
      case 1:
        F(decode_bds_d1_ephemeris)(w, sid, &e);
        eph();
        o.add(F(get_bds2_iod_crc)(&e));
        break;
      case 2: {
        bool ok = F(decode_gal_ephemeris_safe)(page, &e);
        o.add(ok);
        if (ok) eph();
        break;
      }
      case 3:
        e.data.glo.fcn = 5;
        F(decode_glo_ephemeris)(s, gnss::sid(CODE_GLO_L1OF, 3), have_u ? &u : nullptr, &e);
        o.add(e.valid);
        if (e.valid) eph();
        break;
      case 4: {
        ionosphere_t i;
        memset(&i, 0, sizeof i);
        o.add(F(decode_iono_parameters)(w[0], &i));
        o.raw(&i.a0, 64);
        F(decode_bds_d1_iono)(w[1], &i);
        o.raw(&i.a0, 64);
        break;
      }
      case 5: {
        almanac_t a;
        memset(&a, 0, sizeof a);
        o.add(F(almanac_decode)(w[0], &a));
        o.add(a.sid.sat), o.t(a.toa), o.raw(&a.data.kepler, sizeof a.data.kepler);
        utc_params_t q;
        memset(&q, 0, sizeof q);
        o.add(F(decode_utc_parameters_with_wn_ref)(w[1], &q, ref));
        o.d(q.a0), o.d(q.a1), o.t(q.tot), o.t(q.t_lse), o.add(static_cast<uint64_t>(q.dt_ls)), o.add(static_cast<uint64_t>(q.dt_lsf));
        break;
      }
      case 6: {
        almanac_ref_week_t k;
        almanac_health_t hl;
        memset(&k, 0, sizeof k), memset(&hl, 0, sizeof hl);
        o.add(F(almanac_decode_week_with_wn_ref)(w[0], &k, ref)), o.raw(&k, sizeof k);
        o.add(F(almanac_decode_health)(w[0], &hl)), o.raw(&hl, sizeof hl);
        break;
      }
      case 7:
        for (auto &x : s) o.add(static_cast<uint64_t>(F(error_detection_glo)(&x))), o.add(F(extract_word_glo)(&x, static_cast<u16>(9 + sid.sat), 20));
        break;
      default: {
        u8 shi = 0;
        F(shm_gps_decode_shi_ephemeris)(w[0][0], &shi);
        o.add(shi);
        u8 b = static_cast<u8>(w[0][1]);
        o.add(F(check_8bit_health_word)(b, CODE_GPS_L1CA)), o.add(F(check_6bit_health_word)(b & 63, CODE_GPS_L2CM)), o.add(F(check_nav_dhi)(b, static_cast<u8>(w[0][2])));
        o.d(static_cast<double>(F(decode_ura_index)(b & 15))), o.d(static_cast<double>(F(decode_sisa_index)(b))), o.d(static_cast<double>(F(decode_bds_ura_index)(b & 15))), o.add(F(encode_ura)(static_cast<float>(b) * 3));
        o.add(F(decode_fit_interval)(b & 1, static_cast<u16>(w[0][2] & 1023)));
        break;
      }
    }
  }
};
struct Times {
  gps_time_t t, t2;
  utc_params_t u;
  bool have;
  double rate, mjd, ut1;
  int y, mo, d, hh, mi;
  double s;
  glo_time_t g;
  int fn;
  void init(Rng &r) {
    memset(this, 0, sizeof *this);
    fn = static_cast<int>(r.range(0, 9));
    t = any_time(r), t2 = any_time(r), u = gen_utc(r, t), have = r.coin(0.7);
    if (r.coin(0.3)) t = orbit::at(u.t_lse, r.uniform(-3, 3));
    if (t.wn < 640) t.wn = static_cast<s16>(t.wn + 700), u.tot.wn = static_cast<s16>(u.tot.wn + 700), u.t_lse.wn = static_cast<s16>(u.t_lse.wn + 700);
    rate = r.pick<double>({1, 2, 5, 10, 20}), mjd = r.uniform(45000, 70000), ut1 = r.uniform(-0.9, 0.9);
    y = static_cast<int>(r.range(1981, 2090)), mo = static_cast<int>(r.range(1, 12)), d = static_cast<int>(r.range(1, 28)), hh = static_cast<int>(r.range(0, 23)), mi = static_cast<int>(r.range(0, 59)), s = r.uniform(0, 59.9);
    g.nt = static_cast<u16>(r.range(1, 1461)), g.n4 = static_cast<u8>(r.range(1, 20)), g.h = static_cast<u8>(r.range(0, 23)), g.m = static_cast<u8>(r.range(0, 59)), g.s = r.uniform(0, 59.9);
  }
  void tweak(Rng &r) {
    switch (r.range(0, 10)) {
      case 0: case 1: t = orbit::at(t, r.pick<double>({1, -1, 0.5, 1e-3, 60, 86400, -86400, 604800})); break;
      case 2: nudge_time(r, t2); break;
      case 3: nudge_utc(r, u); break;
      case 4: have = !have; break;
      case 5: rate = r.pick<double>({1, 2, 5, 10, 20}); break;
      case 6: nudge(r, mjd, 45000, 70000); break;
      case 7: r.coin() ? nudge(r, ut1, -0.9, 0.9) : nudge(r, s, 0, 59.9); break;
      case 8: (r.coin() ? y = static_cast<int>(r.range(1981, 2090)) : r.coin() ? mo = static_cast<int>(r.range(1, 12)) : r.coin() ? d = static_cast<int>(r.range(1, 28)) : r.coin() ? hh = static_cast<int>(r.range(0, 23)) : mi = static_cast<int>(r.range(0, 59))); break;
      case 9: (r.coin() ? g.nt = static_cast<u16>(r.range(1, 1461)) : r.coin() ? g.n4 = static_cast<u8>(r.range(1, 20)) : g.h = static_cast<u8>(r.range(0, 23))); break;
      default: nudge(r, g.s, 0, 59.9); break;
    }
    if (t.wn < 640) t.wn = 700;
  }
  void call(Lib &l, Out &o) const {
    const utc_params_t *p = have ? &u : nullptr;
    auto utc = [&](const utc_tm &m) { o.add(m.year), o.add(m.year_day), o.add(m.month), o.add(m.month_day), o.add(m.week_day), o.add(m.hour), o.add(m.minute), o.add(m.second_int), o.d(m.second_frac); };
    utc_tm m;
    memset(&m, 0, sizeof m);
    s32 Y = 0, M = 0, D = 0, H = 0, I = 0;
    double S = 0;
    gps_time_t q = t2;
    switch (fn) {
      case 0: F(gps2utc)(&t, &m, p), utc(m); break;
      case 1: o.d(F(get_gps_utc_offset)(&t, p)), o.d(F(get_utc_gps_offset)(&t, p)), o.add(F(is_leap_second_event)(&t, p)); break;
      case 2: o.t(F(date2gps_params)(y, mo, d, hh, mi, s, p)); break;
      case 3: F(gps2date_params)(&t, &Y, &M, &D, &H, &I, &S, p), o.add(static_cast<uint64_t>(Y * 400 + M * 31 + D)), o.add(static_cast<uint64_t>(H * 60 + I)), o.d(S); break;
      case 4: o.d(F(gps2mjd_params)(&t, p)), o.t(F(mjd2gps_params)(mjd, p)), utc(F(mjd2utc)(mjd)); break;
      case 5: o.d(F(utc2gmst)(F(date2utc)(y, mo, d, hh, mi, s), ut1)), o.d(F(date2mjd)(y, mo, d, hh, mi, s)); break;
      case 6: o.add(F(gps2doy)(&t)), o.add(static_cast<uint64_t>(F(gps2time)(&t))), F(make_utc_tm)(&t, &m), utc(m); break;
      case 7: {
        gps_time_t z = F(glo2gps)(&g, p);
        o.t(z);
        gps_time_t late = t;
        if (late.wn < 1000) late.wn = 1000;
        glo_time_t k = F(gps2glo)(&late, p);
        o.add(k.nt), o.add(k.n4), o.add(k.h), o.add(k.m), o.d(k.s);
        break;
      }
      case 8: o.t(F(round_to_epoch)(&t, rate)), o.t(F(floor_to_epoch)(&t, rate)), o.d(F(gpsdifftime)(&t, &t2)); break;
      default:
        o.add(F(gps_time_match_weeks_safe)(&q, &t)), o.t(q), o.add(F(gps_adjust_week_cycle)(static_cast<u16>(t2.wn % 1024), static_cast<u16>(t.wn))), o.add(F(gps_adjust_week_cycle256)(static_cast<u16>(t2.wn % 256), static_cast<u16>(t.wn)));
        o.add(F(gps_current_time_valid)(&t2)), o.add(F(days_in_month)(static_cast<u16>(y), static_cast<u8>(mo)));
        break;
    }
  }
};
struct Bytes {
  u8 b[64];
  u32 n, crc, off, w;
  bool inv;
  int fn;
  double lock;
  glo_biases_t gb;
  code_t code;
  void init(Rng &r) {
    memset(this, 0, sizeof *this);
    fn = static_cast<int>(r.range(0, 3));
    r.bytes(b, sizeof b);
    n = static_cast<u32>(r.range(0, 60)), crc = r.u32() & 0xffffff, off = static_cast<u32>(r.range(0, 400)), w = static_cast<u32>(r.range(1, 32)), inv = r.coin(), lock = r.uniform(0, 2000);
    gb.mask = 15, gb.l1of_bias_m = 1.5, gb.l1p_bias_m = -2, gb.l2of_bias_m = 3, gb.l2p_bias_m = -4, code = CODE_GLO_L1OF;
  }
  void tweak(Rng &r) {
    switch (r.range(0, 7)) {
      case 0: n = static_cast<u32>(r.range(0, 60)); break;
      case 1: crc = r.u32() & 0xffffff; break;
      case 2: off = static_cast<u32>(r.range(0, 400)); break;
      case 3: w = static_cast<u32>(r.range(1, 32)); break;
      case 4: inv = !inv; break;
      case 5: nudge(r, lock, 0, 2000), gb.mask = static_cast<u8>(r.range(0, 15)); break;
      case 6: code = r.pick<code_t>({CODE_GLO_L1OF, CODE_GLO_L2OF}), gb.l1of_bias_m = r.normal(); break;
      default: flip(r, b, sizeof b); break;
    }
  }
  void call(Lib &l, Out &o) const {
    switch (fn) {
      case 0: o.add(F(crc24q)(b, n, crc)); break;
      case 1: o.add(F(crc24q_bits)(crc, b, n * 8 + off % 8, inv)); break;
      case 2: {
        u8 c[64];
        memcpy(c, b, 64);
        o.add(F(getbitu)(b, off, static_cast<u8>(w))), o.add(static_cast<uint64_t>(F(getbits)(b, off, static_cast<u8>(w)))), F(setbitu)(c, off, w, crc), F(bitcopy)(c, off, b, n, w);
        F(bitshl)(c, 40, n);
        o.raw(c, 64);
        break;
      }
      default:
        o.add(F(encode_lock_time)(lock)), o.d(F(decode_lock_time)(b[0] & 15)), o.d(F(get_glonass_bias)(code, gb)), o.add(F(count_bits_u64)((static_cast<u64>(crc) << 32) | w, 1)), o.add(F(parity)(crc));
        break;
    }
  }
};
struct Signals {
  gnss_signal_t s[4];
  int i, n;
  gnss_sid_set_t set;
  uint16_t map[29];
  navigation_measurement_t m;
  u16 fcn;
  void init(Rng &r) {
    memset(this, 0, sizeof *this);
    for (auto &x : s) x = r.coin() ? gnss::sid(r.pick<code_t>({CODE_GLO_L1OF, CODE_GLO_L2OF}), static_cast<unsigned>(r.range(1, 28))) : r.pick(gnss::all_sids());
    gen_map(r, map);
    n = static_cast<int>(r.range(16, 32)), fcn = static_cast<u16>(r.range(1, 14));
    m.raw_pseudorange = r.uniform(2e7, 2.6e7), m.raw_carrier_phase = r.uniform(-1e8, 1e8), m.raw_measured_doppler = r.uniform(-5000, 5000), m.sat_clock_err = r.uniform(-1e-3, 1e-3), m.sat_clock_err_rate = r.uniform(-1e-10, 1e-10);
  }
  void tweak(Rng &r) {
    gnss_signal_t x = s[i];
    bool glo = x.code == CODE_GLO_L1OF || x.code == CODE_GLO_L2OF;
    switch (r.range(0, 9)) {
      case 0: case 1: i = static_cast<int>(r.range(0, 3)); break;
      case 2: case 3: map[glo ? x.sat : r.range(1, 28)] = static_cast<uint16_t>(r.range(1, 14)); break;
      case 4: s[i] = r.pick(gnss::all_sids()); break;
      case 5: glo ? s[i].code = x.code == CODE_GLO_L1OF ? CODE_GLO_L2OF : CODE_GLO_L1OF : s[i].code; break;
      case 6: n = static_cast<int>(r.range(16, 32)), fcn = static_cast<u16>(r.range(1, 14)); break;
      case 7: set.sats[x.code] ^= 1ull << r.range(0, 25); break;
      case 8: nudge(r, m.sat_clock_err, -1e-3, 1e-3); break;
      default: nudge(r, m.sat_clock_err_rate, -1e-10, 1e-10); break;
    }
  }
  void call(Lib &l, Out &o) const {
    l.set_map(map);
    gnss_signal_t x = s[i];
    o.d(F(sid_to_carr_freq)(x)), o.d(F(sid_to_lambda)(x)), o.add(F(sid_to_code_index)(x)), o.add(static_cast<uint64_t>(F(sid_to_constellation)(x))), o.add(F(sid_valid)(x));
    char b[32];
    memset(b, 0, sizeof b);
    o.add(static_cast<uint64_t>(F(sid_to_string)(b, n, x))), o.str(b), o.str(F(code_to_string)(x.code));
    memset(b, 0, sizeof b);
    o.add(static_cast<uint64_t>(F(sat_code_to_string)(b, 1, "-", x.sat, x.code))), o.str(b);
    o.add(F(sid_set_get_sat_count)(&set)), o.add(F(sid_set_get_sig_count)(&set)), o.add(F(sid_set_contains)(&set, x));
    if (x.code == CODE_SBAS_L1CA) o.add(static_cast<uint64_t>(F(get_sbas_system)(x)));
    u16 a = 0, c = 0;
    o.add(F(glo_map_get_slot_id)(fcn, &a, &c)), o.add(a), o.add(c);
    navigation_measurement_t q = m;
    q.sid = x;
    o.d(F(nav_meas_cor_sat_clk_on_pseudorange)(&q)), o.d(F(nav_meas_cor_sat_clk_on_measured_doppler)(&q)), o.d(F(nav_meas_cor_sat_clk_on_carrier_phase)(&q));
  }
};
struct Algebra {
  double a[64], b[64], w[8];
  u32 n, m;
  int fn;
  void init(Rng &r) {
    fn = static_cast<int>(r.range(0, 8));
    n = static_cast<u32>(r.range(1, 6)), m = n + static_cast<u32>(r.range(0, 2));
    for (double &x : a) x = r.normal();
    for (double &x : b) x = r.normal();
    for (double &x : w) x = r.uniform(0.5, 2);
  }
  void tweak(Rng &r) {
    size_t k = static_cast<size_t>(r.range(0, static_cast<int64_t>(n * m) - 1));
    switch (r.range(0, 7)) {
      case 0: n = static_cast<u32>(r.range(1, 6)), m = n + static_cast<u32>(r.range(0, 2)); break;
      case 1: m = n + static_cast<u32>(r.range(0, 2)); break;
      case 2: nudge(r, b[k % 8], -3, 3); break;
      case 3: w[k % 8] = r.uniform(0.5, 2); break;
      case 4: std::swap(a[k], a[0]); break;
      default: nudge(r, a[k], -3, 3); break;
    }
  }
  void call(Lib &l, Out &o) const {
    double x[64] = {0}, y[64] = {0};
    int ret = 0;
    switch (fn) {
      case 0: ret = F(matrix_inverse)(n, a, x); break;
      case 1: ret = F(qrsolve)(a, n, n, b, x); break;
      case 2: ret = F(matrix_wlsq_solve)(m, n, a, b, w, x, y); break;
      case 3: ret = F(matrix_pseudoinverse)(m, n, a, x); break;
      case 4: ret = F(matrix_atwaiat)(m, n, a, w, x); break;
      case 5: ret = F(matrix_ataati)(n, m, a, x); break;
      case 6: F(matrix_multiply)(n, m, n, a, b, x); break;
      case 7: {
        double spd[64];
        for (u32 i = 0; i < n; i++)
          for (u32 j = 0; j < n; j++) {
            spd[i * n + j] = i == j ? 1 : 0;
            for (u32 k = 0; k < n; k++) spd[i * n + j] += a[i * n + k] * a[j * n + k];
          }
        F(matrix_udu)(n, spd, x, y);
        break;
      }
      default: o.d(F(vector_dot)(n, a, b)), o.d(F(vector_norm)(n, a)), o.d(F(vector_mean)(n, a)), o.d(F(vector_distance)(n, a, b)), F(vector_cross)(a, b, x); break;
    }
    o.add(static_cast<uint64_t>(ret));
    if (ret == 0) o.v(x, 64), o.v(y, 64);
  }
};
struct Fix {
  navigation_measurement_t m[12];
  int n, all;
  gps_time_t tor;
  bool no_raim, no_vel;
  obs_mask_config_t mask;
  enum processing_strategy_t st;
  uint16_t map[29];
  void init(Rng &r) {
    memset(this, 0, sizeof *this);
    pvt::map_glo();
    for (uint16_t i = 1; i <= 28; i++) map[i] = glo_map_get_fcn(gnss::sid(CODE_GLO_L1OF, i));
    pvt::Opt o;
    pvt::Sim s;
    o.cons = pvt::gen_cons(r);
    o.n = static_cast<int>(r.range(5, 12)), o.dual = r.pick<double>({0, 0.3});
    s.tor = any_time(r);
    pvt::gen_truth(r, o, s), pvt::gen_sats(r, o, s);
    all = n = static_cast<int>(s.s.size() < 12 ? s.s.size() : 12);
    for (int i = 0; i < n; i++) m[i] = s.s[static_cast<size_t>(i)].m;
    tor = s.tor;
    no_raim = r.coin(0.2), no_vel = r.coin(0.2), st = r.pick<enum processing_strategy_t>({GPS_ONLY, ALL_CONSTELLATIONS, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY});
    mask.cn0_mask.threshold_dbhz = r.uniform(20, 40);
  }
  void tweak(Rng &r) {
    int k = static_cast<int>(r.range(0, n - 1));
    switch (r.range(0, 13)) {
      case 0: m[k].raw_pseudorange += r.pick<double>({1e-3, 1, 300, 1e4}); break;
      case 1: m[k].raw_measured_doppler += r.pick<double>({1e-3, 1, 300}); break;
      case 2: m[k].cn0 = r.uniform(20, 55); break;
      case 3: n = n > 1 && r.coin() ? n - 1 : all; break;
      case 4: no_raim = !no_raim; break;
      case 5: no_vel = !no_vel; break;
      case 6: mask.cn0_mask.enable = !mask.cn0_mask.enable; break;
      case 7: mask.cn0_mask.threshold_dbhz = r.uniform(20, 45); break;
      case 8: st = r.pick<enum processing_strategy_t>({GPS_ONLY, ALL_CONSTELLATIONS, GPS_L1CA_WHEN_POSSIBLE, L1_ONLY}); break;
      case 9: std::swap(m[k], m[0]); break;
      case 10: m[k].sat_pos[r.range(0, 2)] += r.pick<double>({0.1, 10, -1000}); break;
      case 11: tor = orbit::at(tor, r.pick<double>({1, 0.1, 604800})); break;
      case 12: map[r.range(1, 28)] = static_cast<uint16_t>(r.range(1, 14)); break;
      default: m[k].flags ^= NAV_MEAS_FLAG_MEAS_DOPPLER_VALID; break;
    }
  }
  void call(Lib &l, Out &o) const {
    l.set_map(map);
    gnss_solution q;
    dops_t d;
    gnss_sid_set_t x;
    memset(&q, 0, sizeof q), memset(&d, 0, sizeof d), memset(&x, 0, sizeof x);
    s8 ret = F(calc_PVT)(static_cast<u8>(n), m, &tor, no_raim, no_vel, &mask, st, &q, &d, &x);
    o.add(static_cast<uint64_t>(ret)), o.add(q.valid), o.add(q.velocity_valid), o.add(q.n_sats_used), o.add(q.n_sigs_used), o.t(q.time);
    o.v(q.pos_llh, 3), o.v(q.pos_ecef, 3), o.v(q.vel_ned, 3), o.v(q.vel_ecef, 3), o.v(q.err_cov, 7), o.d(q.clock_offset), o.d(q.clock_drift);
    if (ret >= 0) o.d(d.pdop), o.d(d.gdop), o.d(d.tdop), o.d(d.hdop), o.d(d.vdop);
    if (ret == 1) o.raw(&x, sizeof x);
  }
};

static const Walk walks[] = {walk<Coords>("coordinates"), walk<Atmosphere>("atmosphere"), walk<Orbits>("orbits"), walk<Almanacs>("almanacs"), walk<Messages>("messages"),
                             walk<Times>("times"),        walk<Bytes>("bytes"),           walk<Signals>("signals"), walk<Algebra>("algebra"),   walk<Fix>("fix")};
static void run_walk(mon::Ctx &c, const Walk &w, const char *event) {
  Rng &r = c.r;
  alignas(16) static unsigned char mem[2][16384]; /* the same addresses in every walk */
  static std::vector<std::vector<unsigned char>> past;
  if (w.size > sizeof mem[0]) fprintf(stderr, "state too large\n"), exit(3);
  int at = 0;
  memset(mem, 0, sizeof mem);
  past.clear();
  w.init(r, mem[0]);
  uint64_t h = 0, last = 0;
  std::string steps;
  for (int step = 0; step < 12; step++) {
    if (step) {
      int k = static_cast<int>(r.range(0, 19));
      if (k < 3 && past.size() > 1) memcpy(mem[at], past[static_cast<size_t>(r.range(0, static_cast<int64_t>(past.size()) - 1))].data(), w.size), steps += 'b', ev("back");
      else if (k == 3) memcpy(mem[!at], mem[at], w.size), at = !at, steps += 'm', ev("moved");
      else if (k == 4) steps += 's', ev("same");
      else if (k == 5) w.init(r, mem[at]), steps += 'n', ev("anew");
      else {
        w.tweak(r, mem[at]), steps += 't', ev("step");
        if (r.coin(0.2)) w.tweak(r, mem[at]);
      }
    }
    past.emplace_back(mem[at], mem[at] + w.size);
    Out a, b;
    w.call(old_lib(), mem[at], a);
    {
      Lib l;
      l.open(fresh_path());
      w.call(l, mem[at], b);
      dlclose(l.h);
      if (void *p = dlopen(fresh_path(), RTLD_NOW | RTLD_NOLOAD)) dlclose(p), fprintf(stderr, "the fresh instance was not unloaded\n"), exit(3);
    }
    c.describe("%s, step %d (%s)", w.name, step, steps.c_str());
    CHECK(a.h == b.h, w.name, "%s: result %016llx after the calls before it (%s), %016llx in an instance that saw no other call", w.name, static_cast<unsigned long long>(a.h), steps.c_str(), static_cast<unsigned long long>(b.h));
    if (step && a.h != last) ev("result_changed");
    last = a.h;
    h = hcombine(h, a.h);
    ev(event);
  }
  c.nt(h);
}
SECTION(coordinates, 7500, 180000) { run_walk(c, walks[0], "coordinates"); }
SECTION(atmosphere, 15000, 300000) { run_walk(c, walks[1], "atmosphere"); }
SECTION(orbits, 30000, 600000) { run_walk(c, walks[2], "orbits"); }
SECTION(almanacs, 7500, 150000) { run_walk(c, walks[3], "almanacs"); }
SECTION(messages, 20000, 360000) { run_walk(c, walks[4], "messages"); }
SECTION(times, 20000, 360000) { run_walk(c, walks[5], "times"); }
SECTION(bytes, 7500, 120000) { run_walk(c, walks[6], "bytes"); }
SECTION(signals, 10000, 180000) { run_walk(c, walks[7], "signals"); }
SECTION(algebra, 10000, 180000) { run_walk(c, walks[8], "algebra"); }
SECTION(fix, 20000, 360000) { run_walk(c, walks[9], "fix"); }
NEED(result_changed, 600000);
NEED(back, 120000);
NEED(moved, 40000);
NEED(same, 40000);
NEED(step, 800000);
