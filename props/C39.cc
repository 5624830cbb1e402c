// @run variant=asan shards=8
#include "geo.h"
#include <swiftnav/coord_system.h>
using namespace mon;
using namespace geo;
RULE("case = reference point (any latitude/longitude/height incl. poles, equator, date line) and a vector or point at any scale; frame matrices from coordinates and from ECEF, vector and point conversions there and back. "
     "Non-trivial: every case; identity = reference point and vector.");
NEED(frame, 40000);
NEED(polar_ref, 2000);
NEED(point_round_trip, 40000);
NEED(north_checked, 20000);

static void rotation(const double M[3][3], const char *what) {
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      ld d = 0;
      for (int k = 0; k < 3; k++) d += static_cast<ld>(M[i][k]) * static_cast<ld>(M[j][k]);
      CHECK(fabsl(d - (i == j)) < 1e-14L, "orthonormal", "%s: rows %d and %d have product %.17Lg", what, i, j, d);
    }
  ld det = 0;
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    det += static_cast<ld>(M[0][i]) * (static_cast<ld>(M[1][j]) * static_cast<ld>(M[2][k]) - static_cast<ld>(M[1][k]) * static_cast<ld>(M[2][j]));
  }
  CHECK(fabsl(det - 1) < 1e-14L, "handed", "%s: determinant %.17Lg", what, det);
}

SECTION(frames, 100000, 6000000) {
  Rng &r = c.r;
  double l[3] = {gen_lat(r), gen_lon(r), gen_h(r)}, ref[3];
  ld x[3], N[3][3];
  to_ecef(l, x);
  for (int i = 0; i < 3; i++) ref[i] = static_cast<double>(x[i]);
  if (fabs(l[0]) > 1.5707963 && r.coin(0.3)) { /* exactly on the axis */
    ref[0] = ref[1] = r.coin() ? 0.0 : -0.0;
    l[0] = copysign(1.5707963267948966, l[0]);
  }
  double scale = exp(r.uniform(log(1e-3), log(5e7)));
  double v[3], w[3];
  for (int i = 0; i < 3; i++) v[i] = r.normal() * scale * (r.coin(0.1) ? 0 : 1), w[i] = r.normal() * scale;
  c.describe("reference %.17g %.17g %.17g vector %.17g %.17g %.17g", l[0], l[1], l[2], v[0], v[1], v[2]);
  c.nt(hcombine(hbytes(l, sizeof l), hbytes(v, sizeof v)));
  ned(l, N);
  double p = sqrt(ref[0] * ref[0] + ref[1] * ref[1]), rs = sqrt(p * p + ref[2] * ref[2]);
  if (p < 1) ev("polar_ref");

  Buf<double> mb(9);
  double(*M)[3] = reinterpret_cast<double(*)[3]>(mb.p);
  wgs_ecef2ned_matrix(l, M);
  rotation(M, "from coordinates");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) CHECK(fabsl(static_cast<ld>(M[i][j]) - N[i][j]) < 1e-14L, "axes", "from coordinates: element %d,%d is %.17g, expected %.17Lg", i, j, M[i][j], N[i][j]);

  memset(mb.p, 0, 72);
  ecef2ned_matrix(ref, M);
  rotation(M, "from ECEF");
  /* rounding of the reference point moves the meridian near the poles */
  ld tn = 1e-13L, te = 1e-13L + 4e-8L / fmaxl(static_cast<ld>(p), 1e-30L) * (rs / 6.4e6);
  for (int j = 0; j < 3; j++) CHECK(fabsl(static_cast<ld>(M[2][j]) - N[2][j]) < tn, "down", "down axis[%d] %.17g, expected %.17Lg", j, M[2][j], N[2][j]);
  if (te < 1e-3L)
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < 3; j++) CHECK(fabsl(static_cast<ld>(M[i][j]) - N[i][j]) < te, "axes_ecef", "from ECEF: element %d,%d is %.17g, expected %.17Lg", i, j, M[i][j], N[i][j]);
  ev("frame");
  /* moving north raises latitude, moving east raises longitude */
  if (p > 1e5) {
    double q[3], ll[3], l0[3];
    wgsecef2llh(ref, l0);
    for (int a = 0; a < 3; a++) {
      double d[3] = {0, 0, 0};
      d[a] = 10;
      wgsned2ecef_d(d, ref, q);
      wgsecef2llh(q, ll);
      double dl[3] = {ll[0] - l0[0], remainder(ll[1] - l0[1], 2 * 3.141592653589793), l0[2] - ll[2]};
      CHECK(dl[a] > 0, "sense", "a step of 10 m along axis %d changes (lat, lon, depth) by (%.3g, %.3g, %.3g)", a, dl[0], dl[1], dl[2]);
    }
    ev("north_checked");
  }

  /* vectors: same length and angles, and back */
  double nv[3], nw[3], b[3], q[3];
  wgsecef2ned(v, ref, nv);
  wgsecef2ned(w, ref, nw);
  ld L[3] = {v[0], v[1], v[2]}, K[3] = {w[0], w[1], w[2]}, LN[3] = {nv[0], nv[1], nv[2]}, KN[3] = {nw[0], nw[1], nw[2]};
  ld vl = norm(L), wl = norm(K);
  CHECK(fabsl(norm(LN) - vl) <= vl * 1e-14L, "length", "length %.17Lg became %.17Lg", vl, norm(LN));
  CHECK(fabsl(dot(LN, KN) - dot(L, K)) <= vl * wl * 1e-14L, "angle", "inner product %.17Lg became %.17Lg", dot(L, K), dot(LN, KN));
  for (int i = 0; i < 3; i++) {
    ld want = static_cast<ld>(M[i][0]) * L[0] + static_cast<ld>(M[i][1]) * L[1] + static_cast<ld>(M[i][2]) * L[2];
    CHECK(fabsl(static_cast<ld>(nv[i]) - want) <= vl * 1e-14L, "vector", "component %d is %.17g, expected %.17Lg", i, nv[i], want);
  }
  wgsned2ecef(nv, ref, b);
  for (int i = 0; i < 3; i++) CHECK(fabs(b[i] - v[i]) <= static_cast<double>(vl) * 1e-14, "vector_back", "component %d is %.17g, was %.17g", i, b[i], v[i]);
  wgsned2ecef(v, ref, b);
  wgsecef2ned(b, ref, q);
  for (int i = 0; i < 3; i++) CHECK(fabs(q[i] - v[i]) <= static_cast<double>(vl) * 1e-14, "ned_back", "component %d is %.17g, was %.17g", i, q[i], v[i]);
  /* points */
  double pt[3], np[3];
  for (int i = 0; i < 3; i++) pt[i] = ref[i] + v[i];
  wgsecef2ned_d(pt, ref, np);
  double tol = static_cast<double>(vl) * 1e-14 + rs * 4e-16 + 1e-12;
  for (int i = 0; i < 3; i++) CHECK(fabs(np[i] - nv[i]) <= tol, "point", "component %d is %.17g, expected %.17g", i, np[i], nv[i]);
  wgsned2ecef_d(np, ref, b);
  for (int i = 0; i < 3; i++) CHECK(fabs(b[i] - pt[i]) <= tol, "point_back", "component %d is %.17g, was %.17g", i, b[i], pt[i]);
  ev("point_round_trip");
}
