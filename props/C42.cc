// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/linear_algebra.h>
using namespace mon;
typedef long double ld;
typedef std::vector<double> V;
RULE("wlsq: full-rank systems of 1..20 rows and 1..8 columns (tall and square), condition up to 1e3, weights over six decades or none, with and without solution and covariance outputs. "
     "pinv: tall, square and wide full-rank matrices, unit and general weights, against the defining equations in long double; refused shapes. deficient: rank-deficient tall, square and wide matrices (zero or repeated integer columns/rows, all zero), every function reports -1 and writes no solution. Non-trivial: every case; identity = the matrix.");
NEED(wlsq, 30000);
NEED(wlsq_square, 2000);
NEED(wlsq_unweighted, 5000);
NEED(wlsq_partial, 5000);
NEED(wlsq_under, 1000);
NEED(tall, 8000);
NEED(square, 2000);
NEED(wide, 8000);
NEED(weighted, 10000);
NEED(weighted_wide, 3000);
NEED(refused, 5000);
NEED(ataiat, 6000);
NEED(atwaiat, 5000);
NEED(ataati, 6000);
NEED(atawati, 5000);
NEED(deficient_tall, 3000);
NEED(deficient_wide, 3000);
NEED(deficient_square, 500);
NEED(deficient_wlsq, 3000);
NEED(large, 30);

/* n x m with orthonormal-ish columns scaled by singular values */
static V gen(Rng &r, u32 n, u32 m, double &cond) {
  u32 q = n < m ? n : m;
  cond = r.coin(0.3) ? 1 : exp(r.uniform(0, log(r.coin(0.7) ? 20 : 1e3)));
  double scale = exp(r.uniform(log(1e-2), log(1e2)));
  V a(n * m, 0);
  for (u32 i = 0; i < q; i++) a[i * m + i] = scale * (q == 1 ? 1 : pow(cond, -static_cast<double>(i) / (q - 1)));
  auto rot = [&](bool cols, u32 sz, u32 len) {
    for (u32 k = 0; k < 4 * sz; k++) {
      u32 i = static_cast<u32>(r.range(0, sz - 1)), j = static_cast<u32>(r.range(0, sz - 1));
      if (i == j) continue;
      double t = r.uniform(-3.2, 3.2), cs = cos(t), sn = sin(t);
      for (u32 p = 0; p < len; p++) {
        double &x = cols ? a[p * m + i] : a[i * m + p], &y = cols ? a[p * m + j] : a[j * m + p];
        double u = cs * x - sn * y, v = sn * x + cs * y;
        x = u, y = v;
      }
    }
  };
  rot(false, n, m), rot(true, m, n);
  return a;
}
static std::string show(const V &a, u32 n, u32 m) {
  std::string s;
  char b[40];
  for (u32 i = 0; i < n && i < 6; i++) {
    for (u32 j = 0; j < m && j < 6; j++) snprintf(b, sizeof b, "%.17g ", a[i * m + j]), s += b;
    s += "; ";
  }
  return s;
}

SECTION(wlsq, 50000, 3000000) {
  Rng &r = c.r;
  u32 m = static_cast<u32>(r.range(1, 8)), n = m + static_cast<u32>(r.coin(0.15) ? 0 : r.range(0, 12));
  if (c.idx % (c.thorough ? 20000 : 2500) == 0) n = static_cast<u32>(r.range(250, 270)), m = static_cast<u32>(r.coin() ? m : r.range(250, n)), ev("large");
  double cond;
  V k = gen(r, n, m, cond), kb(n), kw(n);
  bool weighted = r.coin(0.75);
  double wr = 1, spread = r.coin(0.7) ? log(3) : log(1e3);
  for (u32 i = 0; i < n; i++) {
    kb[i] = r.normal() * 10;
    kw[i] = weighted ? exp(r.uniform(-spread, spread)) : 1;
  }
  if (weighted) wr = exp(2 * spread);
  Buf<double> A(n * m), b(n), w(n), x(m), Vc(m * m);
  memcpy(A.p, k.data(), n * m * 8), memcpy(b.p, kb.data(), n * 8), memcpy(w.p, kw.data(), n * 8);
  for (u32 i = 0; i < m; i++) x[i] = r.normal() * 1e5;
  for (u32 i = 0; i < m * m; i++) Vc[i] = r.normal() * 1e5;
  bool wantx = r.coin(0.85), wantv = r.coin(0.85);
  c.describe("%u rows %u columns condition %.3g %s%s%s [%s]", n, m, cond, weighted ? "weighted" : "unweighted", wantx ? "" : " no solution", wantv ? "" : " no covariance", show(k, n, m).c_str());
  c.nt(hcombine(hcombine(n, m), hcombine(hbytes(k.data(), k.size() * 8), hbytes(kw.data(), n * 8))));
  int ret = matrix_wlsq_solve(n, m, A.p, b.p, weighted ? w.p : nullptr, wantx ? x.p : nullptr, wantv ? Vc.p : nullptr);
  CHECK(ret == 0, "refused", "returned %d", ret);
  CHECK(!memcmp(A.p, k.data(), n * m * 8) && !memcmp(b.p, kb.data(), n * 8) && !memcmp(w.p, kw.data(), n * 8), "input", "an input changed");
  /* normal matrix and right side */
  std::vector<ld> N(m * m, 0), h(m, 0);
  ld nmax = 0;
  for (u32 i = 0; i < m; i++) {
    for (u32 j = 0; j < m; j++) {
      for (u32 q = 0; q < n; q++) N[i * m + j] += static_cast<ld>(k[q * m + i]) * static_cast<ld>(kw[q]) * static_cast<ld>(k[q * m + j]);
      nmax = fmaxl(nmax, fabsl(N[i * m + j]));
    }
    for (u32 q = 0; q < n; q++) h[i] += static_cast<ld>(k[q * m + i]) * static_cast<ld>(kw[q]) * static_cast<ld>(kb[q]);
  }
  double nc = cond * cond * wr; /* conditioning of the normal matrix, at most */
  double tol = 1e-13 * m * m * nc * (m <= 4 ? nc : 30);
  if (tol > 1e-3) return; /* too ill-conditioned to judge the cofactor formulas */
  if (wantv) {
    for (u32 i = 0; i < m; i++)
      for (u32 j = 0; j < m; j++) {
        ld s = 0, mag = 0;
        for (u32 q = 0; q < m; q++) s += N[i * m + q] * static_cast<ld>(Vc[q * m + j]), mag += fabsl(N[i * m + q] * static_cast<ld>(Vc[q * m + j]));
        CHECK(fabsl(s - (i == j)) <= static_cast<ld>(tol) + mag * 1e-13L, "covariance", "element %u,%u of normal matrix times covariance is %.9Lg", i, j, s);
        CHECK(fabs(Vc[i * m + j] - Vc[j * m + i]) <= tol * sqrt(Vc[i * m + i] * Vc[j * m + j]) + 1e-13 * fabs(Vc[i * m + j]), "symmetric", "covariance %u,%u %.17g and %.17g", i, j, Vc[i * m + j], Vc[j * m + i]);
      }
  } else
    for (u32 i = 0; i < m * m; i++) (void)Vc[i];
  if (wantx) {
    ld xm = 0, hm = 0;
    for (u32 i = 0; i < m; i++) xm = fmaxl(xm, fabsl(static_cast<ld>(x[i])));
    for (u32 q = 0; q < n; q++)
      for (u32 i = 0; i < m; i++) hm = fmaxl(hm, fabsl(static_cast<ld>(k[q * m + i]) * static_cast<ld>(kw[q]) * static_cast<ld>(kb[q])));
    for (u32 i = 0; i < m; i++) {
      ld s = 0;
      for (u32 q = 0; q < m; q++) s += N[i * m + q] * static_cast<ld>(x[q]);
      CHECK(fabsl(s - h[i]) <= static_cast<ld>(tol) * (nmax * xm * m + hm * n), "normal_equations", "row %u: %.15Lg, right side %.15Lg", i, s, h[i]);
    }
  }
  ev("wlsq");
  if (n == m) ev("wlsq_square");
  if (!weighted) ev("wlsq_unweighted");
  if (!wantx || !wantv) ev("wlsq_partial");
  if (r.coin(0.1) && m > 1) { /* fewer rows than columns */
    u32 q = static_cast<u32>(r.range(1, m - 1));
    CHECK(matrix_wlsq_solve(q, m, A.p, b.p, weighted ? w.p : nullptr, x.p, Vc.p) == -1, "under", "%u rows for %u unknowns accepted", q, m);
    ev("wlsq_under");
  }
}

/* is B (m x n) equal to (A'WA)^-1 A' (tall) or A'(AWA')^-1 (wide)? */
static void check_block(const char *key, const V &k, const V &w, u32 n, u32 m, const double *B, double nc) {
  bool tall = n > m;
  u32 q = tall ? m : n, o = tall ? n : m;
  double tol = 1e-13 * q * q * nc * (q <= 4 ? nc : 30);
  if (tol > 1e-2) return;
  ev(key);
  /* tall: (A'WA) B = A' ; wide: B (AWA') = A' */
  std::vector<ld> N(q * q, 0);
  ld nm = 0, bm = 0;
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) {
      for (u32 p = 0; p < o; p++) N[i * q + j] += tall ? static_cast<ld>(k[p * m + i]) * static_cast<ld>(w[p]) * static_cast<ld>(k[p * m + j]) : static_cast<ld>(k[i * m + p]) * static_cast<ld>(w[p]) * static_cast<ld>(k[j * m + p]);
      nm = fmaxl(nm, fabsl(N[i * q + j]));
    }
  for (u32 i = 0; i < n * m; i++) bm = fmaxl(bm, fabsl(static_cast<ld>(B[i])));
  for (u32 i = 0; i < m; i++)
    for (u32 j = 0; j < n; j++) {
      ld s = 0;
      for (u32 p = 0; p < q; p++) s += tall ? N[i * q + p] * static_cast<ld>(B[p * n + j]) : static_cast<ld>(B[i * n + p]) * N[p * q + j];
      CHECK(fabsl(s - static_cast<ld>(k[j * m + i])) <= static_cast<ld>(tol) * nm * bm * q, key, "element %u,%u of the defining equation is %.12Lg, expected %.12g", i, j, s, k[j * m + i]);
    }
}

SECTION(pinv, 40000, 3000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.range(1, 9)), m = static_cast<u32>(r.coin(0.15) ? n : r.range(1, 9));
  if (c.idx % (c.thorough ? 20000 : 2500) == 0) (r.coin() ? n : m) = static_cast<u32>(r.range(250, 300)), ev("large");
  double cond;
  V k = gen(r, n, m, cond), one(n > m ? n : m, 1.0), w(n > m ? n : m);
  double wr = r.coin(0.7) ? 10 : 1e4;
  for (double &v : w) v = exp(r.uniform(-0.5, 0.5) * log(wr));
  Buf<double> A(n * m), B(n * m), W(w.size());
  memcpy(A.p, k.data(), n * m * 8), memcpy(W.p, w.data(), w.size() * 8);
  auto junk = [&] {
    for (u32 i = 0; i < n * m; i++) B[i] = r.normal() * 1e4;
  };
  junk();
  c.describe("%u rows %u columns condition %.3g [%s]", n, m, cond, show(k, n, m).c_str());
  c.nt(hcombine(hcombine(n, m), hcombine(hbytes(k.data(), k.size() * 8), hbytes(w.data(), w.size() * 8))));
  int ret = matrix_pseudoinverse(n, m, A.p, B.p);
  CHECK(ret == 0, "pinv_refused", "matrix_pseudoinverse of a %u x %u matrix returned %d", n, m, ret);
  CHECK(!memcmp(A.p, k.data(), n * m * 8), "pinv_input", "the input matrix changed");
  double tol = fmin(0.5, 1e-13 * n * m * cond * cond * (n <= 4 || m <= 4 ? cond * cond : 30));
  /* left inverse (tall, square) or right inverse (wide), and both products symmetric */
  u32 q = n >= m ? m : n, o = n >= m ? n : m;
  for (u32 i = 0; i < q; i++)
    for (u32 j = 0; j < q; j++) {
      ld s = 0;
      for (u32 p = 0; p < o; p++) s += n >= m ? static_cast<ld>(B[i * n + p]) * static_cast<ld>(k[p * m + j]) : static_cast<ld>(k[i * m + p]) * static_cast<ld>(B[p * n + j]);
      CHECK(fabsl(s - (i == j)) <= static_cast<ld>(tol), "pinv_inverse", "element %u,%u of the product with the pseudo-inverse is %.12Lg", i, j, s);
    }
  for (u32 i = 0; i < o; i++)
    for (u32 j = 0; j < i; j++) {
      ld s = 0, t = 0;
      for (u32 p = 0; p < q; p++) {
        if (n >= m) s += static_cast<ld>(k[i * m + p]) * static_cast<ld>(B[p * n + j]), t += static_cast<ld>(k[j * m + p]) * static_cast<ld>(B[p * n + i]);
        else s += static_cast<ld>(B[i * n + p]) * static_cast<ld>(k[p * m + j]), t += static_cast<ld>(B[j * n + p]) * static_cast<ld>(k[p * m + i]);
      }
      CHECK(fabsl(s - t) <= static_cast<ld>(tol), "pinv_projection", "the projection is not symmetric at %u,%u: %.12Lg and %.12Lg", i, j, s, t);
    }
  ev(n == m ? "square" : n > m ? "tall" : "wide");
  if (n > m) {
    junk();
    CHECK(matrix_ataiat(n, m, A.p, B.p) == 0, "ataiat_refused", "refused");
    check_block("ataiat", k, one, n, m, B.p, cond * cond);
    junk();
    CHECK(matrix_atwaiat(n, m, A.p, W.p, B.p) == 0, "atwaiat_refused", "refused");
    check_block("atwaiat", k, w, n, m, B.p, cond * cond * wr);
    ev("weighted");
  } else {
    CHECK(matrix_ataiat(n, m, A.p, B.p) == -1 || n == m, "ataiat_shape", "%u x %u accepted", n, m);
    CHECK(matrix_atwaiat(n, m, A.p, W.p, B.p) == -1, "atwaiat_shape", "%u x %u accepted", n, m);
    ev("refused");
  }
  if (n < m) {
    junk();
    CHECK(matrix_ataati(n, m, A.p, B.p) == 0, "ataati_refused", "refused");
    check_block("ataati", k, one, n, m, B.p, cond * cond);
    junk();
    CHECK(matrix_atawati(n, m, A.p, W.p, B.p) == 0, "atawati_refused", "refused");
    check_block("atawati", k, w, n, m, B.p, cond * cond * wr);
    ev("weighted_wide");
  } else {
    CHECK(matrix_ataati(n, m, A.p, B.p) == -1, "ataati_shape", "%u x %u accepted", n, m);
    CHECK(matrix_atawati(n, m, A.p, W.p, B.p) == -1, "atawati_shape", "%u x %u accepted", n, m);
    ev("refused");
  }
}

/* rank-deficient by construction, so that the normal matrix is singular exactly, not just nearly */
SECTION(deficient, 15000, 1000000) {
  Rng &r = c.r;
  u32 q = static_cast<u32>(r.range(1, 8)), o = q + static_cast<u32>(r.coin(0.15) ? 0 : r.range(1, 6));
  bool tall = r.coin();
  u32 n = tall ? o : q, m = tall ? q : o;
  unsigned kind = static_cast<unsigned>(r.range(0, q > 1 ? 2 : 1));
  u32 z = static_cast<u32>(r.range(0, q - 1)), y = q > 1 ? (z + static_cast<u32>(r.range(1, q - 1))) % q : 0;
  if (o == q && kind == 2 && q > 4) tall = false; /* equal rows stay equal exactly through the elimination, equal columns do not */
  V v(q * o); /* v[i*o+p]: vector i of q, of length o */
  for (double &e : v) e = kind == 2 ? static_cast<double>(r.range(-6, 6)) : r.normal() * 3;
  if (kind == 0)
    for (u32 p = 0; p < o; p++) v[z * o + p] = 0;
  if (kind == 1)
    for (double &e : v) e = 0;
  if (kind == 2)
    for (u32 p = 0; p < o; p++) v[z * o + p] = v[y * o + p];
  Buf<double> A(n * m), B(n * m), W(o), b(n), w(n), x(m), Vc(m * m);
  for (u32 i = 0; i < q; i++)
    for (u32 p = 0; p < o; p++) (tall ? A[p * m + i] : A[i * m + p]) = v[i * o + p];
  for (u32 i = 0; i < o; i++) W[i] = kind == 2 ? static_cast<double>(r.range(1, 4)) : exp(r.uniform(-2, 2));
  V k(A.p, A.p + n * m);
  c.describe("%u rows %u columns, %s [%s]", n, m, kind == 0 ? "one vector zero" : kind == 1 ? "all zero" : "one vector repeated", show(k, n, m).c_str());
  c.nt(hcombine(hcombine(n, m), hbytes(k.data(), k.size() * 8)));
  for (u32 i = 0; i < n * m; i++) B[i] = r.normal();
  int ret = matrix_pseudoinverse(n, m, A.p, B.p);
  CHECK(ret == -1, "deficient", "matrix_pseudoinverse of a rank-deficient %u x %u matrix returned %d", n, m, ret);
  if (n > m) {
    ret = matrix_ataiat(n, m, A.p, B.p);
    CHECK(ret == -1, "deficient_ataiat", "returned %d", ret);
    ret = matrix_atwaiat(n, m, A.p, W.p, B.p);
    CHECK(ret == -1, "deficient_atwaiat", "returned %d", ret);
    ev("deficient_tall");
  } else if (n < m) {
    ret = matrix_ataati(n, m, A.p, B.p);
    CHECK(ret == -1, "deficient_ataati", "returned %d", ret);
    ret = matrix_atawati(n, m, A.p, W.p, B.p);
    CHECK(ret == -1, "deficient_atawati", "returned %d", ret);
    ev("deficient_wide");
  } else
    ev("deficient_square");
  if (n > m || (n == m && tall)) { /* dependent columns: a zero or repeated row of the normal matrix, exactly */
    for (u32 i = 0; i < n; i++) b[i] = r.normal(), w[i] = W[i];
    for (u32 i = 0; i < m; i++) x[i] = 12345.5 + i;
    bool weighted = r.coin(), wantv = r.coin();
    ret = matrix_wlsq_solve(n, m, A.p, b.p, weighted ? w.p : nullptr, x.p, wantv ? Vc.p : nullptr);
    CHECK(ret == -1, "deficient_wlsq", "matrix_wlsq_solve of a rank-deficient %u x %u system returned %d", n, m, ret);
    for (u32 i = 0; i < m; i++) CHECK(x[i] == 12345.5 + i, "deficient_solution", "refused, but solution element %u was written: %g", i, x[i]);
    ev("deficient_wlsq");
  }
}
