// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/linear_algebra.h>
using namespace mon;
typedef long double ld;
typedef std::vector<double> V;
RULE("inverse/solve: matrices of size 1..20 (a few of 120..280) built with a chosen condition number (up to 1e6) from random rotations, permuted, triangular, with zero diagonals (pivoting needed), integer, nearly diagonal; residuals measured in long double against the conditioning. "
     "singular: zero row, zero column, repeated row, power-of-two multiple, zero matrix, integer matrices of determinant zero. udu: positive-definite matrices. Non-trivial: every case; identity = the matrix.");
NEED(inverses_2, 3000);
NEED(inverses_3, 3000);
NEED(inverses_4, 3000);
NEED(inverses_n, 10000);
NEED(pivoting, 3000);
NEED(solves, 20000);
NEED(singular, 10000);
NEED(singular_solve, 2000);
NEED(udu, 15000);
NEED(large, 20);

/* random orthogonal transforms of a diagonal: rotations in planes */
static void rotate(Rng &r, V &a, u32 n, bool right) {
  for (u32 k = 0; k < 3 * n; k++) {
    u32 i = static_cast<u32>(r.range(0, n - 1)), j = static_cast<u32>(r.range(0, n - 1));
    if (i == j) continue;
    double t = r.uniform(-3.2, 3.2), cs = cos(t), sn = sin(t);
    for (u32 q = 0; q < n; q++) {
      double &x = right ? a[q * n + i] : a[i * n + q], &y = right ? a[q * n + j] : a[j * n + q];
      double u = cs * x - sn * y, v = sn * x + cs * y;
      x = u, y = v;
    }
  }
}
static V gen(Rng &r, u32 n, double &cond) {
  double scale = r.coin(0.5) ? 1 : exp(r.uniform(log(1e-4), log(1e4)));
  cond = r.coin(0.3) ? 1 : exp(r.uniform(0, log(1e6)));
  V a(n * n, 0);
  switch (r.range(0, 3)) {
    case 0: { /* permuted, scaled identity plus a little: zero or tiny diagonal */
      std::vector<u32> p(n);
      for (u32 i = 0; i < n; i++) p[i] = (i + 1) % n;
      if (r.coin()) r.shuffle(p);
      for (u32 i = 0; i < n; i++) a[i * n + p[i]] = (r.coin() ? 1 : -1) * r.uniform(1, 2) * scale;
      cond = 2;
      if (r.coin()) {
        for (double &x : a) x += r.uniform(-0.2, 0.2) * scale / n;
        cond = 4;
      }
      ev("pivoting");
      return a;
    }
    case 1: /* triangular */
      for (u32 i = 0; i < n; i++)
        for (u32 j = 0; j < n; j++) a[i * n + j] = i == j ? (r.coin() ? 1 : -1) * r.uniform(1, 2) * scale : (r.coin() ? j > i : 0) ? r.uniform(-0.5, 0.5) * scale / n : 0;
      cond = 8;
      return a;
    default:
      for (u32 i = 0; i < n; i++) a[i * n + i] = scale * (n == 1 ? 1 : pow(cond, -static_cast<double>(i) / (n - 1)));
      rotate(r, a, n, false), rotate(r, a, n, true);
      return a;
  }
}
static double norminf(const double *a, u32 n) {
  double m = 0;
  for (u32 i = 0; i < n; i++) {
    double s = 0;
    for (u32 j = 0; j < n; j++) s += fabs(a[i * n + j]);
    m = fmax(m, s);
  }
  return m;
}
static std::string show(const V &a, u32 n) {
  std::string s;
  char b[40];
  for (u32 i = 0; i < n && i < 5; i++) {
    for (u32 j = 0; j < n && j < 5; j++) snprintf(b, sizeof b, "%.17g ", a[i * n + j]), s += b;
    s += "; ";
  }
  return s;
}

SECTION(inverse, 40000, 3000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.coin(0.6) ? r.range(1, 5) : r.coin(0.9) ? r.range(1, 10) : r.range(1, 20));
  if (c.idx % (c.thorough ? 30000 : 4000) == 0) n = static_cast<u32>(r.coin(0.4) ? r.range(120, 200) : r.range(257, 280)), ev("large");
  double cond;
  V k = gen(r, n, cond);
  Buf<double> a(n * n), b(n * n);
  memcpy(a.p, k.data(), n * n * 8);
  for (u32 i = 0; i < n * n; i++) b[i] = r.normal() * 1e3;
  c.describe("n %u condition %.3g [%s]", n, cond, show(k, n).c_str());
  c.nt(hcombine(n, hbytes(k.data(), k.size() * 8)));
  int ret = matrix_inverse(n, a.p, b.p);
  CHECK(ret == 0, "refused", "returned %d", ret);
  CHECK(!memcmp(a.p, k.data(), n * n * 8), "input", "the input matrix changed");
  /* cofactor formulas of the small sizes lose up to the square of the conditioning */
  double tol = 1e-14 * n * n * fmax(1, cond * (n <= 4 ? cond : 1)) * 30;
  for (int side = 0; side < 2; side++)
    for (u32 i = 0; i < n; i++)
      for (u32 j = 0; j < n; j++) {
        ld s = 0;
        for (u32 q = 0; q < n; q++) s += side ? static_cast<ld>(b[i * n + q]) * static_cast<ld>(k[q * n + j]) : static_cast<ld>(k[i * n + q]) * static_cast<ld>(b[q * n + j]);
        CHECK(fabsl(s - (i == j)) <= static_cast<ld>(fmin(tol, 0.5)), "inverse", "element %u,%u of the product with the inverse is %.12Lg", i, j, s);
      }
  ev(n == 2 ? "inverses_2" : n == 3 ? "inverses_3" : n == 4 ? "inverses_4" : "inverses_n");
}

SECTION(solve, 30000, 2000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.coin(0.8) ? r.range(1, 8) : r.range(1, 20));
  if (c.idx % (c.thorough ? 30000 : 4000) == 0) n = static_cast<u32>(r.coin(0.4) ? r.range(120, 200) : r.range(257, 280)), ev("large");
  double cond;
  V k = gen(r, n, cond);
  Buf<double> a(n * n), b(n), x(n), qt(n * n), R(n * n), y(n);
  memcpy(a.p, k.data(), n * n * 8);
  V kb(n);
  for (double &v : kb) v = r.coin(0.1) ? 0 : r.normal() * norminf(k.data(), n);
  memcpy(b.p, kb.data(), n * 8);
  for (u32 i = 0; i < n; i++) x[i] = y[i] = r.normal() * 1e3;
  for (u32 i = 0; i < n * n; i++) qt[i] = R[i] = r.normal() * 1e3;
  c.describe("n %u condition %.3g [%s]", n, cond, show(k, n).c_str());
  c.nt(hcombine(n, hbytes(k.data(), k.size() * 8)));
  double an = norminf(k.data(), n);
  s32 ret = qrdecomp_square(a.p, n, qt.p, R.p);
  CHECK(ret == 0, "qr_refused", "qrdecomp_square returned %d", ret);
  double tol = 1e-14 * n * n;
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      ld o = 0, s = 0;
      for (u32 q = 0; q < n; q++) o += static_cast<ld>(qt[i * n + q]) * static_cast<ld>(qt[j * n + q]), s += static_cast<ld>(qt[q * n + i]) * static_cast<ld>(R[q * n + j]);
      CHECK(fabsl(o - (i == j)) <= static_cast<ld>(tol), "orthogonal", "rows %u and %u of Q' have product %.12Lg", i, j, o);
      CHECK(fabsl(s - static_cast<ld>(k[i * n + j])) <= static_cast<ld>(tol * an), "qr", "element %u,%u of QR is %.17Lg, of the matrix %.17g", i, j, s, k[i * n + j]);
      if (j < i) CHECK(R[i * n + j] == 0, "upper", "element %u,%u of R is %.17g", i, j, R[i * n + j]);
    }
  ret = qrsolve(a.p, n, n, b.p, x.p);
  CHECK(ret == 0, "solve_refused", "qrsolve returned %d", ret);
  CHECK(!memcmp(a.p, k.data(), n * n * 8) && !memcmp(b.p, kb.data(), n * 8), "solve_input", "an input changed");
  double xm = 0;
  for (u32 i = 0; i < n; i++) xm = fmax(xm, fabs(x[i]));
  for (u32 i = 0; i < n; i++) {
    ld s = 0;
    for (u32 q = 0; q < n; q++) s += static_cast<ld>(k[i * n + q]) * static_cast<ld>(x[q]);
    CHECK(fabsl(s - static_cast<ld>(kb[i])) <= static_cast<ld>(tol * 4 * (an * xm + fabs(kb[i]))), "solution", "row %u of Ax is %.17Lg, right side %.17g", i, s, kb[i]);
  }
  qtmult(qt.p, n, b.p, y.p);
  rsolve(R.p, n, n, y.p, y.p); /* documented to work in place */
  for (u32 i = 0; i < n; i++) CHECK(fabs(y[i] - x[i]) <= 1e-13 * n * n * cond * (xm + 1e-300), "in_place", "back-substitution in place gives %.17g, solver %.17g", y[i], x[i]);
  ev("solves");
}

SECTION(singular, 25000, 1000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.coin(0.6) ? r.range(1, 5) : r.range(1, 12));
  bool ints = n <= 4;
  V k(n * n);
  for (double &v : k) v = ints ? static_cast<double>(r.range(-9, 9)) : r.normal();
  int kind = static_cast<int>(r.range(0, 4));
  u32 i = static_cast<u32>(r.range(0, n - 1)), j = static_cast<u32>(r.range(0, n - 1));
  if (i == j) j = (i + 1) % n;
  if (n == 1) kind = 0;
  double f = r.pick<double>({1, -1, 2, 0.5, -4});
  switch (kind) {
    case 0: for (u32 q = 0; q < n; q++) k[i * n + q] = 0; break;
    case 1: for (u32 q = 0; q < n; q++) k[q * n + i] = 0; break;
    case 2: for (u32 q = 0; q < n; q++) k[i * n + q] = f * k[j * n + q]; break;
    case 3: k.assign(n * n, 0); break;
    case 4: /* exact in small integers: a column is a combination of others */
      if (!ints) { for (u32 q = 0; q < n; q++) k[i * n + q] = k[j * n + q]; break; }
      for (u32 q = 0; q < n; q++) k[q * n + i] = f * k[q * n + j];
      break;
  }
  Buf<double> a(n * n), b(n * n), x(n), rhs(n);
  memcpy(a.p, k.data(), n * n * 8);
  for (u32 q = 0; q < n; q++) rhs[q] = r.normal();
  c.describe("n %u kind %d [%s]", n, kind, show(k, n).c_str());
  c.nt(hcombine(n, hbytes(k.data(), k.size() * 8)));
  int ret = matrix_inverse(n, a.p, b.p);
  CHECK(ret == -1, "singular", "returned %d for a singular matrix", ret);
  ev("singular");
  if (kind == 1 || kind == 3 || n == 1) { /* a zero column survives the orthogonal reduction exactly */
    ret = qrsolve(a.p, n, n, rhs.p, x.p);
    CHECK(ret != 0, "singular_solve", "qrsolve returned %d for a matrix with a zero column", ret);
    ev("singular_solve");
  }
}

SECTION(udu, 30000, 2000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.coin(0.8) ? r.range(1, 8) : r.range(1, 20));
  if (c.idx % (c.thorough ? 30000 : 4000) == 0) n = static_cast<u32>(r.coin(0.4) ? r.range(120, 200) : r.range(257, 280)), ev("large");
  double cond = exp(r.uniform(0, log(1e6))), scale = exp(r.uniform(log(1e-3), log(1e3)));
  V f(n * n, 0), k(n * n, 0);
  for (u32 i = 0; i < n; i++) f[i * n + i] = sqrt(scale * pow(cond, -static_cast<double>(i) / fmax(1, n - 1.0)));
  rotate(r, f, n, false);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j <= i; j++) {
      double s = 0;
      for (u32 q = 0; q < n; q++) s += f[i * n + q] * f[j * n + q];
      k[i * n + j] = k[j * n + i] = s;
    }
  Buf<double> M(n * n), U(n * n), D(n), R(n * n);
  memcpy(M.p, k.data(), n * n * 8);
  for (u32 i = 0; i < n * n; i++) U[i] = R[i] = r.normal();
  for (u32 i = 0; i < n; i++) D[i] = r.normal();
  c.describe("n %u condition %.3g [%s]", n, cond, show(k, n).c_str());
  c.nt(hcombine(n, hbytes(k.data(), k.size() * 8)));
  matrix_udu(n, M.p, U.p, D.p);
  double an = norminf(k.data(), n), tol = 1e-14 * n * n * an;
  for (u32 i = 0; i < n; i++) {
    CHECK(D[i] > 0, "positive", "factor %u is %.17g", i, D[i]);
    for (u32 j = 0; j <= i; j++) CHECK(U[i * n + j] == (i == j), "unit_upper", "element %u,%u of U is %.17g", i, j, U[i * n + j]);
  }
  matrix_reconstruct_udu(n, U.p, D.p, R.p);
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++) {
      ld s = 0;
      for (u32 q = 0; q < n; q++) s += static_cast<ld>(U[i * n + q]) * static_cast<ld>(D[q]) * static_cast<ld>(U[j * n + q]);
      CHECK(fabsl(s - static_cast<ld>(k[i * n + j])) <= static_cast<ld>(tol), "factors", "element %u,%u of UDU' is %.17Lg, of the matrix %.17g", i, j, s, k[i * n + j]);
      CHECK(fabsl(s - static_cast<ld>(R[i * n + j])) <= static_cast<ld>(tol), "reconstruct", "element %u,%u reconstructed as %.17g, UDU' is %.17Lg", i, j, R[i * n + j], s);
    }
  ev("udu");
}
/* semidefinite matrices with exact factors: small integers, powers of two and zeros on the diagonal */
SECTION(semidefinite, 20000, 1000000) {
  Rng &r = c.r;
  u32 n = static_cast<u32>(r.range(1, 8));
  V u(n * n, 0), d(n), k(n * n, 0);
  bool zero = false;
  for (u32 i = 0; i < n; i++) {
    u[i * n + i] = 1;
    d[i] = r.coin(0.4) ? 0 : r.pick<double>({1, 2, 4, 0.5, 8});
    zero = zero || d[i] == 0;
    for (u32 j = i + 1; j < n; j++) u[i * n + j] = static_cast<double>(r.range(-4, 4));
  }
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++)
      for (u32 q = 0; q < n; q++) k[i * n + j] += u[i * n + q] * d[q] * u[j * n + q];
  Buf<double> M(n * n), U(n * n), D(n), R(n * n);
  memcpy(M.p, k.data(), n * n * 8);
  for (u32 i = 0; i < n * n; i++) U[i] = R[i] = r.normal();
  c.describe("n %u [%s]", n, show(k, n).c_str());
  c.nt(hcombine(n, hbytes(k.data(), k.size() * 8)));
  matrix_udu(n, M.p, U.p, D.p);
  matrix_reconstruct_udu(n, U.p, D.p, R.p);
  for (u32 i = 0; i < n; i++) {
    CHECK(D[i] == d[i], "semi_diagonal", "factor %u is %.17g, not %.17g", i, D[i], d[i]);
    for (u32 j = 0; j < n; j++) {
      if (j <= i || d[j] > 0) CHECK(U[i * n + j] == u[i * n + j], "semi_upper", "element %u,%u of U is %.17g", i, j, U[i * n + j]);
      CHECK(R[i * n + j] == k[i * n + j], "semi_reconstruct", "element %u,%u reconstructed as %.17g, not %.17g", i, j, R[i * n + j], k[i * n + j]);
    }
  }
  ev(zero ? "semidefinite" : "definite");
}
NEED(semidefinite, 10000);
