// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/linear_algebra.h>
using namespace mon;
typedef long double ld;
typedef std::vector<double> V;
RULE("matrix: every primitive on every combination of dimensions 1..8 (and up to 40) with finite contents of mixed magnitude, zeros and signed zeros; integer products within range; inputs and outputs in exact-size heap blocks, outputs pre-filled with garbage. "
     "vector: lengths 1..40; long_dimensions: one dimension up to 65600, vectors up to 140000. Non-trivial: every case; identity = dimensions and contents.");
NEED(products, 20000);
NEED(nonsquare, 10000);
NEED(int_products, 20000);
NEED(submatrices, 10000);
NEED(vectors, 20000);
NEED(long_dimensions, 50);

static double num(Rng &r) {
  switch (r.range(0, 5)) {
    case 0: return static_cast<double>(r.range(-9, 9));
    case 1: return r.coin() ? 0.0 : -0.0;
    case 2: return (r.coin() ? 1 : -1) * exp(r.uniform(-60, 60));
    default: return r.normal();
  }
}
static u32 dim(Rng &r) { return static_cast<u32>(r.coin(0.85) ? r.range(1, 8) : r.range(1, 40)); }
static void fill(Rng &r, Buf<double> &b, size_t n) {
  for (size_t i = 0; i < n; i++) b[i] = num(r);
}
static V keep(const Buf<double> &b, size_t n) { return V(b.p, b.p + n); }
static void unchanged(const char *what, const Buf<double> &b, const V &k) { CHECK(memcmp(b.p, k.data(), k.size() * sizeof(double)) == 0, "input", "%s: an input changed", what); }
static bool eq(double a, double b) { return a == b; } /* signed zeros are the same number */

SECTION(matrix, 60000, 4000000) {
  Rng &r = c.r;
  u32 n = dim(r), m = dim(r), p = dim(r);
  c.describe("n %u m %u p %u", n, m, p);
  Buf<double> a(n * m), b(m * p), o(n * p);
  fill(r, a, n * m), fill(r, b, m * p), fill(r, o, n * p);
  V ka = keep(a, n * m), kb = keep(b, m * p);
  c.nt(hcombine(hcombine(n * 64 + m, p), hcombine(hbytes(ka.data(), ka.size() * 8), hbytes(kb.data(), kb.size() * 8))));
  matrix_multiply(n, m, p, a.p, b.p, o.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < p; j++) {
      ld s = 0, mag = 0;
      for (u32 k = 0; k < m; k++) {
        ld t = static_cast<ld>(ka[i * m + k]) * static_cast<ld>(kb[k * p + j]);
        s += t, mag += fabsl(t);
      }
      CHECK(fabsl(static_cast<ld>(o[i * p + j]) - s) <= mag * (m + 2) * 1.2e-16L, "multiply", "element %u,%u of the product: %.17g, expected %.17Lg", i, j, o[i * p + j], s);
    }
  unchanged("multiply", a, ka), unchanged("multiply", b, kb);
  ev("products");
  if (n != m) ev("nonsquare");

  Buf<double> t(n * m);
  fill(r, t, n * m);
  matrix_transpose(n, m, a.p, t.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < m; j++) CHECK(eq(t[j * n + i], ka[i * m + j]), "transpose", "element %u,%u", j, i);
  fill(r, t, n * m);
  matrix_copy(n, m, a.p, t.p);
  CHECK(memcmp(t.p, ka.data(), n * m * 8) == 0, "copy", "copy differs");

  Buf<double> e(n * m), s(n * m);
  fill(r, e, n * m), fill(r, s, n * m);
  V ke = keep(e, n * m);
  double g = r.coin(0.3) ? r.pick<double>({0, 1, -1}) : num(r);
  matrix_add_sc(n, m, a.p, e.p, g, s.p);
  for (u32 i = 0; i < n * m; i++) {
    ld w = static_cast<ld>(ka[i]) + static_cast<ld>(g) * static_cast<ld>(ke[i]), mag = fabsl(static_cast<ld>(ka[i])) + fabsl(static_cast<ld>(g) * static_cast<ld>(ke[i]));
    CHECK(fabsl(static_cast<ld>(s[i]) - w) <= mag * 3e-16L, "add_sc", "element %u: %.17g, expected %.17Lg (factor %.17g)", i, s[i], w, g);
  }
  unchanged("add_sc", a, ka), unchanged("add_sc", e, ke);

  Buf<double> d(m), ad(n * m);
  fill(r, d, m);
  V kd = keep(d, m);
  memcpy(ad.p, ka.data(), n * m * 8);
  matrix_multiply_diag_right(n, m, ad.p, d.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < m; j++) CHECK(eq(ad[i * m + j], ka[i * m + j] * kd[j]), "diag_right", "element %u,%u: %.17g, expected %.17g", i, j, ad[i * m + j], ka[i * m + j] * kd[j]);
  unchanged("diag_right", d, kd);

  u32 q = dim(r);
  Buf<double> sq(q * q);
  fill(r, sq, q * q);
  V ks = keep(sq, q * q);
  matrix_triu(q, sq.p);
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) CHECK(eq(sq[i * q + j], j < i ? 0 : ks[i * q + j]), "triu", "%u x %u: element %u,%u is %.17g", q, q, i, j, sq[i * q + j]);
  matrix_eye(q, sq.p);
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) CHECK(eq(sq[i * q + j], i == j), "eye", "%u x %u: element %u,%u is %.17g", q, q, i, j, sq[i * q + j]);

  u32 nr = dim(r), nc = dim(r);
  Buf<u32> ri(nr), ci(nc);
  for (u32 i = 0; i < nr; i++) ri[i] = static_cast<u32>(r.range(0, n - 1));
  for (u32 i = 0; i < nc; i++) ci[i] = static_cast<u32>(r.range(0, m - 1));
  Buf<double> sub(nr * nc);
  fill(r, sub, nr * nc);
  submatrix(nr, nc, m, a.p, ri.p, ci.p, sub.p);
  for (u32 i = 0; i < nr; i++)
    for (u32 j = 0; j < nc; j++) CHECK(eq(sub[i * nc + j], ka[ri[i] * m + ci[j]]), "submatrix", "element %u,%u is not the one at %u,%u", i, j, ri[i], ci[j]);
  u32 ur = static_cast<u32>(r.range(1, n)), uc = static_cast<u32>(r.range(1, m));
  Buf<double> ul(ur * uc);
  fill(r, ul, ur * uc);
  submatrix_ul(ur, uc, m, a.p, ul.p);
  for (u32 i = 0; i < ur; i++)
    for (u32 j = 0; j < uc; j++) CHECK(eq(ul[i * uc + j], ka[i * m + j]), "submatrix_ul", "element %u,%u", i, j);
  unchanged("submatrix", a, ka);
  ev("submatrices");
}

SECTION(integers, 40000, 3000000) {
  Rng &r = c.r;
  u32 n = dim(r), m = dim(r), p = dim(r);
  Buf<s32> a(n * m), b(m * p), o(n * p);
  Buf<s64> A(n * m), B(m * p), O(n * p);
  /* no overflow anywhere: products stay within the type */
  s64 l32 = static_cast<s64>(sqrt(2147483647.0 / m)) - 1, l64 = static_cast<s64>(sqrt(9.2e18 / m)) - 1;
  auto v = [&](s64 l) { return r.coin(0.3) ? r.edgy(-l, l) : r.coin(0.3) ? r.range(-9, 9) : r.range(-l, l); };
  for (u32 i = 0; i < n * m; i++) a[i] = static_cast<s32>(v(l32)), A[i] = v(l64);
  for (u32 i = 0; i < m * p; i++) b[i] = static_cast<s32>(v(l32)), B[i] = v(l64);
  for (u32 i = 0; i < n * p; i++) o[i] = static_cast<s32>(r.range(-1000, 1000)), O[i] = r.range(-1000, 1000);
  c.describe("n %u m %u p %u", n, m, p);
  c.nt(hcombine(hcombine(n * 64 + m, p), hcombine(hbytes(A.p, n * m * 8), hbytes(b.p, m * p * 4))));
  std::vector<s32> ka(a.p, a.p + n * m), kb(b.p, b.p + m * p);
  std::vector<s64> kA(A.p, A.p + n * m), kB(B.p, B.p + m * p);
  matrix_multiply_i(n, m, p, a.p, b.p, o.p);
  matrix_multiply_s64(n, m, p, A.p, B.p, O.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < p; j++) {
      s64 s = 0, S = 0;
      for (u32 k = 0; k < m; k++) s += static_cast<s64>(ka[i * m + k]) * kb[k * p + j], S += kA[i * m + k] * kB[k * p + j];
      CHECK(o[i * p + j] == s, "multiply_i", "element %u,%u: %d, expected %lld", i, j, o[i * p + j], static_cast<long long>(s));
      CHECK(O[i * p + j] == S, "multiply_s64", "element %u,%u: %lld, expected %lld", i, j, static_cast<long long>(O[i * p + j]), static_cast<long long>(S));
    }
  CHECK(!memcmp(a.p, ka.data(), ka.size() * 4) && !memcmp(b.p, kb.data(), kb.size() * 4) && !memcmp(A.p, kA.data(), kA.size() * 8) && !memcmp(B.p, kB.data(), kB.size() * 8), "int_input", "an input changed");
  ev("int_products");
}

SECTION(vectors, 60000, 4000000) {
  Rng &r = c.r;
  u32 n = dim(r);
  Buf<double> a(n), b(n), o(n);
  fill(r, a, n), fill(r, b, n), fill(r, o, n);
  V ka = keep(a, n), kb = keep(b, n);
  c.describe("length %u a[0] %.17g b[0] %.17g", n, a[0], b[0]);
  c.nt(hcombine(n, hcombine(hbytes(ka.data(), n * 8), hbytes(kb.data(), n * 8))));
  ld dot = 0, mag = 0, sq = 0, sum = 0, amag = 0, d2 = 0, dm = 0;
  for (u32 i = 0; i < n; i++) {
    ld x = ka[i], y = kb[i];
    dot += x * y, mag += fabsl(x * y), sq += x * x, sum += x, amag += fabsl(x), d2 += (x - y) * (x - y), dm += x * x + y * y;
  }
  const ld eps = (n + 4) * 1.2e-16L;
  CHECK(fabsl(static_cast<ld>(vector_dot(n, a.p, b.p)) - dot) <= mag * eps, "dot", "%.17g, expected %.17Lg", vector_dot(n, a.p, b.p), dot);
  CHECK(fabsl(static_cast<ld>(vector_norm(n, a.p)) - sqrtl(sq)) <= sqrtl(sq) * eps, "norm", "%.17g, expected %.17Lg", vector_norm(n, a.p), sqrtl(sq));
  CHECK(fabsl(static_cast<ld>(vector_mean(n, a.p)) - sum / n) <= amag / n * eps, "mean", "%.17g, expected %.17Lg", vector_mean(n, a.p), sum / n);
  double dist = vector_distance(n, a.p, b.p);
  CHECK(fabsl(static_cast<ld>(dist) - sqrtl(d2)) <= sqrtl(d2) * eps + sqrtl(dm) * 2.3e-16L, "distance", "%.17g, expected %.17Lg", dist, sqrtl(d2));
  double g = r.coin(0.3) ? r.pick<double>({0, 1, -1}) : num(r);
  vector_add_sc(n, a.p, b.p, g, o.p);
  for (u32 i = 0; i < n; i++) {
    ld w = static_cast<ld>(ka[i]) + static_cast<ld>(g) * static_cast<ld>(kb[i]), m2 = fabsl(static_cast<ld>(ka[i])) + fabsl(static_cast<ld>(g) * static_cast<ld>(kb[i]));
    CHECK(fabsl(static_cast<ld>(o[i]) - w) <= m2 * 3e-16L, "add_sc", "element %u: %.17g, expected %.17Lg (factor %.17g)", i, o[i], w, g);
  }
  fill(r, o, n);
  vector_add(n, a.p, b.p, o.p);
  for (u32 i = 0; i < n; i++) CHECK(eq(o[i], ka[i] + kb[i]), "add", "element %u: %.17g", i, o[i]);
  fill(r, o, n);
  vector_subtract(n, a.p, b.p, o.p);
  for (u32 i = 0; i < n; i++) CHECK(eq(o[i], ka[i] - kb[i]), "subtract", "element %u: %.17g", i, o[i]);
  unchanged("vector", a, ka), unchanged("vector", b, kb);
  if (sq > 0) {
    memcpy(o.p, ka.data(), n * 8);
    vector_normalize(n, o.p);
    for (u32 i = 0; i < n; i++) CHECK(fabsl(static_cast<ld>(o[i]) - static_cast<ld>(ka[i]) / sqrtl(sq)) <= fabsl(static_cast<ld>(ka[i]) / sqrtl(sq)) * eps + 1e-300L, "normalize", "element %u: %.17g", i, o[i]);
  }
  Buf<double> x(3), y(3), z(3);
  fill(r, x, 3), fill(r, y, 3), fill(r, z, 3);
  V kx = keep(x, 3), ky = keep(y, 3);
  vector_cross(x.p, y.p, z.p);
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3, k = (i + 2) % 3;
    ld u = static_cast<ld>(kx[j]) * static_cast<ld>(ky[k]), v = static_cast<ld>(kx[k]) * static_cast<ld>(ky[j]);
    CHECK(fabsl(static_cast<ld>(z[i]) - (u - v)) <= (fabsl(u) + fabsl(v)) * 4e-16L, "cross", "element %d: %.17g, expected %.17Lg", i, z[i], u - v);
  }
  unchanged("cross", x, kx), unchanged("cross", y, ky);
  double p = r.normal(), q = p + r.normal() * 1e-6, tol = fabs(r.normal()) * 1e-6;
  CHECK(double_within(p, q, tol) == (fabs(p - q) < tol), "within", "%.17g and %.17g within %.17g", p, q, tol);
  ev("vectors");
}

/* one dimension (or a vector length) beyond what 8 or 16 bits can count; integer-valued contents, so the expected results are exact */
SECTION(long_dimensions, 60, 4000) {
  Rng &r = c.r;
  auto small = [&](Buf<double> &b) {
    for (size_t i = 0; i < b.n; i++) b[i] = static_cast<double>(r.range(-99, 99));
  };
  {
    u32 n = static_cast<u32>(r.coin(0.5) ? r.range(250, 700) : r.coin() ? r.range(65530, 65545) : r.range(65536, 140000));
    Buf<double> a(n), b(n), o(n);
    small(a), small(b);
    c.describe("vectors of length %u", n);
    s64 dot = 0, sq = 0, sum = 0, d2 = 0;
    for (u32 i = 0; i < n; i++) {
      s64 x = static_cast<s64>(a[i]), y = static_cast<s64>(b[i]);
      dot += x * y, sq += x * x, sum += x, d2 += (x - y) * (x - y);
    }
    auto D = [](s64 v) { return static_cast<double>(v); };
    CHECK(eq(vector_dot(n, a.p, b.p), D(dot)), "long_dot", "%.17g, expected %.17g", vector_dot(n, a.p, b.p), D(dot));
    CHECK(rclose(vector_norm(n, a.p), sqrt(D(sq)), 1e-15), "long_norm", "%.17g, expected %.17g", vector_norm(n, a.p), sqrt(D(sq)));
    CHECK(rclose(vector_mean(n, a.p), D(sum) / n, 1e-15), "long_mean", "%.17g, expected %.17g", vector_mean(n, a.p), D(sum) / n);
    CHECK(rclose(vector_distance(n, a.p, b.p), sqrt(D(d2)), 1e-15), "long_distance", "%.17g, expected %.17g", vector_distance(n, a.p, b.p), sqrt(D(d2)));
    memset(o.p, 0x55, n * 8);
    vector_add(n, a.p, b.p, o.p);
    for (u32 i = 0; i < n; i++) CHECK(eq(o[i], a[i] + b[i]), "long_add", "element %u", i);
    memset(o.p, 0x55, n * 8);
    vector_subtract(n, a.p, b.p, o.p);
    for (u32 i = 0; i < n; i++) CHECK(eq(o[i], a[i] - b[i]), "long_subtract", "element %u", i);
    memset(o.p, 0x55, n * 8);
    vector_add_sc(n, a.p, b.p, 3, o.p);
    for (u32 i = 0; i < n; i++) CHECK(eq(o[i], a[i] + 3 * b[i]), "long_add_sc", "element %u", i);
    memcpy(o.p, a.p, n * 8);
    vector_normalize(n, o.p);
    for (u32 i = 0; i < n; i++) CHECK(rclose(o[i], a[i] / sqrt(D(sq)), 4e-15), "long_normalize", "element %u", i);
  }
  u32 n = static_cast<u32>(r.range(1, 6)), m = static_cast<u32>(r.range(1, 6)), p = static_cast<u32>(r.range(1, 6));
  u32 big = static_cast<u32>(r.coin(0.7) ? r.range(254, 600) : r.range(65534, 65600));
  switch (r.range(0, 3)) {
    case 0: n = big; break;
    case 1: m = big; break;
    case 2: p = big; break;
    default: n = static_cast<u32>(r.range(255, 300)), m = static_cast<u32>(r.range(1, 3)), p = static_cast<u32>(r.range(255, 300));
  }
  c.describe("n %u m %u p %u", n, m, p);
  c.nt(hcombine(hcombine(n, m), hcombine(p, r.u64())));
  ev("long_dimensions");
  Buf<double> a(n * m), b(m * p), o(n * p), t(n * m);
  small(a), small(b);
  memset(o.p, 0x55, o.n * 8);
  matrix_multiply(n, m, p, a.p, b.p, o.p);
  Buf<s32> ai(n * m), bi(m * p), oi(n * p);
  Buf<s64> al(n * m), bl(m * p), ol(n * p);
  for (u32 i = 0; i < n * m; i++) ai[i] = static_cast<s32>(a[i]), al[i] = ai[i] * (INT64_C(1) << 33);
  for (u32 i = 0; i < m * p; i++) bi[i] = static_cast<s32>(b[i]), bl[i] = bi[i];
  matrix_multiply_i(n, m, p, ai.p, bi.p, oi.p);
  matrix_multiply_s64(n, m, p, al.p, bl.p, ol.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < p; j++) {
      s64 s = 0;
      for (u32 k = 0; k < m; k++) s += static_cast<s64>(ai[i * m + k]) * bi[k * p + j];
      CHECK(eq(o[i * p + j], static_cast<double>(s)), "long_multiply", "element %u,%u", i, j);
      CHECK(oi[i * p + j] == s, "long_multiply_i", "element %u,%u", i, j);
      CHECK(ol[i * p + j] == s * (INT64_C(1) << 33), "long_multiply_s64", "element %u,%u", i, j);
    }
  memset(t.p, 0x55, t.n * 8);
  matrix_transpose(n, m, a.p, t.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < m; j++) CHECK(eq(t[j * n + i], a[i * m + j]), "long_transpose", "element %u,%u", j, i);
  memset(t.p, 0x55, t.n * 8);
  matrix_copy(n, m, a.p, t.p);
  CHECK(!memcmp(t.p, a.p, t.n * 8), "long_copy", "copy differs");
  Buf<double> s(n * m), d(m);
  memset(s.p, 0x55, s.n * 8);
  matrix_add_sc(n, m, a.p, t.p, 2, s.p);
  for (u32 i = 0; i < n * m; i++) CHECK(eq(s[i], 3 * a[i]), "long_matrix_add_sc", "element %u", i);
  small(d);
  matrix_multiply_diag_right(n, m, t.p, d.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < m; j++) CHECK(eq(t[i * m + j], a[i * m + j] * d[j]), "long_diag_right", "element %u,%u", i, j);
  u32 nr = static_cast<u32>(r.range(1, 300)), nc = static_cast<u32>(r.range(1, 300));
  if (r.coin()) nr = 1 + nr % 4;
  Buf<u32> ri(nr), ci(nc);
  for (u32 i = 0; i < nr; i++) ri[i] = static_cast<u32>(r.coin(0.3) ? n - 1 : r.range(0, n - 1));
  for (u32 i = 0; i < nc; i++) ci[i] = static_cast<u32>(r.coin(0.3) ? m - 1 : r.range(0, m - 1));
  Buf<double> sub(nr * nc);
  memset(sub.p, 0x55, sub.n * 8);
  submatrix(nr, nc, m, a.p, ri.p, ci.p, sub.p);
  for (u32 i = 0; i < nr; i++)
    for (u32 j = 0; j < nc; j++) CHECK(eq(sub[i * nc + j], a[ri[i] * m + ci[j]]), "long_submatrix", "element %u,%u", i, j);
  u32 ur = static_cast<u32>(r.range(std::max<u32>(1, n / 2), n)), uc = static_cast<u32>(r.range(std::max<u32>(1, m / 2), m));
  Buf<double> ul(ur * uc);
  memset(ul.p, 0x55, ul.n * 8);
  submatrix_ul(ur, uc, m, a.p, ul.p);
  for (u32 i = 0; i < ur; i++)
    for (u32 j = 0; j < uc; j++) CHECK(eq(ul[i * uc + j], a[i * m + j]), "long_submatrix_ul", "element %u,%u", i, j);
  u32 q = static_cast<u32>(r.range(255, 320));
  Buf<double> sq(q * q);
  small(sq);
  V ks = keep(sq, q * q);
  matrix_triu(q, sq.p);
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) CHECK(eq(sq[i * q + j], j < i ? 0 : ks[i * q + j]), "long_triu", "%u: element %u,%u", q, i, j);
  memset(sq.p, 0x55, sq.n * 8);
  matrix_eye(q, sq.p);
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) CHECK(eq(sq[i * q + j], i == j), "long_eye", "%u: element %u,%u", q, i, j);
}
