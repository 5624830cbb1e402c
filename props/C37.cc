// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/geoid_model.h>
using namespace mon;
RULE("nodes: every node of the one-degree grid (exhaustive), reached through positive and negative longitudes, against a recorded copy of the grid. points: any latitude and longitude (cell edges, Greenwich, date line, pole rows), against an independent interpolation "
     "of that copy. near: pairs of neighbouring points, also across cell edges, the date line, Greenwich and the pole rows. Non-trivial: every case; identity = the coordinates.");
NEED(nodes, 60000);
NEED(points, 100000);
NEED(polar, 10000);
NEED(west, 40000);
NEED(outside, 2000);
NEED(pairs, 60000);
NEED(pairs_across, 20000);
NEED(pairs_meridian, 3000);

static int32_t G[361][181]; /* tenths of millimetres, column = degrees east, row = degrees north of the south pole */
static void load() {
  static bool done;
  if (done) return;
  std::string p = __FILE__;
  p = p.substr(0, p.rfind('/')) + "/../data/geoid_1deg.bin";
  FILE *f = fopen(p.c_str(), "rb");
  if (!f || fread(G, sizeof G, 1, f) != 1) abort();
  fclose(f);
  done = true;
}
static double node(int x, int y) { return G[((x % 360) + 360) % 360][y] * 1e-4; }
static const double D = M_PI / 180;

/* lat in [-90, 90], lon any: Catmull-Rom in both directions, linear in the two polar rows */
static double reference(double lat, double lon) {
  lon -= 360 * floor(lon / 360);
  int x = static_cast<int>(floor(lon)), y = static_cast<int>(floor(lat + 90));
  if (y > 179) y = 179;
  double u = lon - x, v = lat + 90 - y;
  if (y == 0 || y == 179) return (node(x, y) * (1 - u) + node(x + 1, y) * u) * (1 - v) + (node(x, y + 1) * (1 - u) + node(x + 1, y + 1) * u) * v;
  auto w = [](double t, double o[4]) { /* kernel weights */
    o[0] = ((2 - t) * t - 1) * t / 2;
    o[1] = (t * t * (3 * t - 5) + 2) / 2;
    o[2] = t * ((4 - 3 * t) * t + 1) / 2;
    o[3] = (t - 1) * t * t / 2;
  };
  double wx[4], wy[4], s = 0;
  w(u, wx), w(v, wy);
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) s += wx[i] * wy[j] * node(x - 1 + i, y - 1 + j);
  return s;
}
/* largest height difference around a point [m] */
static double rough(double lat, double lon) {
  int x = static_cast<int>(floor(lon)), y = static_cast<int>(floor(lat + 90));
  double lo = 1e9, hi = -1e9;
  for (int i = x - 2; i <= x + 3; i++)
    for (int j = y - 2; j <= y + 3; j++)
      if (j >= 0 && j <= 180) lo = fmin(lo, node(i, j)), hi = fmax(hi, node(i, j));
  return hi - lo;
}
static double call(double lat, double lon) { return static_cast<double>(get_geoid_offset(lat * D, lon * D)); }

SECTION(nodes, 361, 361) {
  load();
  int x = static_cast<int>(c.idx);
  c.describe("column %d", x);
  c.nt(c.idx);
  for (int y = 0; y <= 180; y++) {
    double want = node(x, y), lat = y - 90;
    if (x < 360) CHECK(fabs(call(lat, x) - want) <= 0.003, "node", "%.0f N %d E: %.6f m, grid value %.6f m", lat, x, call(lat, x), want);
    if (x > 0) CHECK(fabs(call(lat, x - 360) - want) <= 0.003, "node_west", "%.0f N %d E: %.6f m, grid value %.6f m", lat, x - 360, call(lat, x - 360), want);
    ev("nodes");
  }
  CHECK(get_geoid_model() == GEOID_MODEL_EGM2008, "model", "model %d", get_geoid_model());
}
static void gen(Rng &r, double &lat, double &lon) {
  lat = r.coin(0.1) ? (r.coin() ? 1 : -1) * r.uniform(88, 90) : r.coin(0.15) ? static_cast<double>(r.range(-90, 90)) + r.normal() * 1e-5 : r.coin(0.3) ? asin(r.uniform(-1, 1)) / D : r.uniform(-90, 90);
  lon = r.coin(0.15) ? r.pick<double>({0, 180, -180, 359.9999, -359.9999}) + r.normal() * 1e-5 : r.coin(0.15) ? static_cast<double>(r.range(-359, 359)) + r.normal() * 1e-5 : r.coin() ? r.uniform(-180, 180) : r.uniform(-360, 360);
  if (lat > 90) lat = 180 - lat;
  if (lat < -90) lat = -180 - lat;
  if (fabs(lon) > 359.99999) lon = 359.99999 * (lon > 0 ? 1 : -1);
}
SECTION(points, 150000, 20000000) {
  load();
  Rng &r = c.r;
  double lat, lon;
  gen(r, lat, lon);
  c.describe("%.12g N %.12g E", lat, lon);
  c.nt(hcombine(hd(lat), hd(lon)));
  double g = call(lat, lon);
  CHECK(std::isfinite(g) && g >= -107 && g <= 86, "range", "%.6f m", g);
  /* the coordinates are held in single precision */
  double tol = 0.003 + rough(lat, lon) * 1e-4;
  double want = reference(lat, lon);
  CHECK(fabs(g - want) <= tol, "interpolation", "%.6f m, interpolated grid %.6f m (tolerance %.6f)", g, want, tol);
  double o = lon > 0 ? lon - 360 : lon + 360;
  if (fabs(o) < 359.99999) {
    double h = call(lat, o);
    CHECK(fabs(g - h) <= tol, "periodic", "%.6f m, but %.6f m with the longitude a turn away", g, h);
  }
  ev("points");
  if (fabs(lat) > 88) ev("polar");
  if (lon < 0) ev("west");
  if (r.coin(0.02)) { /* outside the globe there is no value */
    double bl = (r.coin() ? 1 : -1) * r.uniform(90.001, 1000);
    CHECK(call(bl, lon) == 0, "outside_lat", "latitude %.9g: %.6f m", bl, call(bl, lon));
    double bo = r.coin() ? r.uniform(360.001, 2000) : -r.uniform(360.001, 2000);
    CHECK(call(lat, bo) == 0, "outside_lon", "longitude %.9g: %.6f m", bo, call(lat, bo));
    ev("outside");
  }
}
SECTION(near, 80000, 10000000) {
  load();
  Rng &r = c.r;
  double lat, lon, d = exp(r.uniform(log(1e-6), log(0.02)));
  gen(r, lat, lon);
  double dl = r.uniform(-d, d), dn = r.uniform(-d, d);
  if (r.coin(0.4)) lat = round(lat) - dl / 2;
  if (r.coin(0.4)) lon = round(lon) - dn / 2;
  if (r.coin(0.1)) lon = r.pick<double>({0, 180}) - dn / 2;
  if (fabs(lat) > 90) lat = lat > 0 ? 90 : -90;
  double lat2 = lat + dl, lon2 = lon + dn;
  if (fabs(lat2) > 90 || fabs(lon) > 359.9 || fabs(lon2) > 359.9) return;
  if (lon2 > 180 && lon <= 180 && r.coin()) lon2 -= 360; /* the other side of the date line */
  c.describe("%.12g N %.12g E and %.12g N %.12g E", lat, lon, lat2, lon2);
  c.nt(hcombine(hcombine(hd(lat), hd(lon)), hcombine(hd(lat2), hd(lon2))));
  double a = call(lat, lon), b = call(lat2, lon2);
  double tol = 0.006 + rough(lat, lon) * (1e-4 + 2 * (fabs(dl) + fabs(dn)));
  CHECK(fabs(a - b) <= tol, "continuity", "%.6f and %.6f m at points %.3g degrees apart", a, b, hypot(dl, dn));
  ev("pairs");
  if (floor(lat) != floor(lat2) || floor(lon) != floor(lon2)) ev("pairs_across");
  if ((lon < 0) != (lon2 < 0)) ev("pairs_meridian");
}
