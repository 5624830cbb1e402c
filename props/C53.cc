// @run variant=asan shards=8
#include "mon.h"
#include "gnss.h"
#include <swiftnav/array_tools.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/common.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/single_epoch_solver.h>
#include <swiftnav/swift_strnlen.h>
using namespace mon;
RULE("strings and arrays in heap blocks of exactly the announced (or terminated) size, every announced length; numbers on both sides of the documented tolerance; every 16-bit slot and channel number; stream requests up to and across 2^32. Expected values are the definitions. Non-trivial: every case; identity = arguments.");
NEED(terminated, 3000);
NEED(unterminated, 1500);
NEED(member, 3000);
NEED(not_member, 3000);
NEED(near, 5000);
NEED(apart, 5000);
NEED(not_a_number, 300);
NEED(slots, 65536);
NEED(fits, 1000);
NEED(overflow, 5000);

SECTION(strnlen, 8000, 400000) {
  Rng &r = c.r;
  size_t max = static_cast<size_t>(r.coin(0.3) ? r.range(0, 3) : r.coin() ? r.range(0, 40) : r.coin(0.99) ? r.range(0, 600) : r.coin() ? r.range(65530, 65540) : r.range(4000, 200000));
  bool term = r.coin(0.6);
  /* the block ends at the terminator, or at the announced size when there is none */
  size_t len = term ? static_cast<size_t>(r.range(0, static_cast<int64_t>(max) + (r.coin(0.2) ? 20 : 0))) : max;
  size_t block = term ? len + 1 : max;
  size_t want = len < max ? len : max;
  Buf<char> b(block);
  for (size_t i = 0; i < block; i++) b[i] = static_cast<char>(r.range(1, 255));
  if (term) b[len] = 0;
  c.describe("length %zu %s announced %zu", len, term ? "terminated" : "unterminated", max);
  size_t got = swift_strnlen(b.p, max);
  CHECK(got == want, "strnlen", "returned %zu, expected %zu", got, want);
  ev(term ? "terminated" : "unterminated");
  if (term && max < 0x7fffffff && r.coin(0.3)) {
    size_t g2 = swift_strnlen(b.p, static_cast<size_t>(-1)); /* terminated: any limit will do */
    CHECK(g2 == len, "strnlen", "returned %zu without limit, expected %zu", g2, len);
  }
  c.nt(hcombine(hcombine(len, max), static_cast<u64>(term)));
}

template <class T> static void members(Ctx &c, bool (*f)(const T *, u8, T), int64_t top) {
  Rng &r = c.r;
  size_t n = static_cast<size_t>(c.idx & 255);
  int64_t spread = r.pick<int64_t>({2, 20, 300, top});
  if (spread > top) spread = top;
  Buf<T> a(n);
  for (size_t i = 0; i < n; i++) a[i] = static_cast<T>(r.range(0, spread));
  T v = static_cast<T>(r.range(0, top));
  if (n && r.coin()) {
    size_t at = r.coin(0.3) ? n - 1 : r.coin(0.3) ? 0 : static_cast<size_t>(r.range(0, static_cast<int64_t>(n) - 1));
    v = a[at];
    if (r.coin()) /* once only */
      for (size_t i = 0; i < n; i++)
        if (i != at && a[i] == v) a[i] = static_cast<T>(v ^ 1);
  } else if (n && r.coin(0.5)) v = static_cast<T>(a[0] ^ (1u << r.range(0, static_cast<int64_t>(sizeof(T)) * 8 - 1))); /* one bit away */
  bool want = false;
  for (size_t i = 0; i < n; i++) want |= a[i] == v;
  std::vector<T> keep(a.p, a.p + n);
  c.describe("%zu values of %zu bytes, looking for %u", n, sizeof(T), static_cast<unsigned>(v));
  bool got = f(a.p, static_cast<u8>(n), v);
  CHECK(got == want, "member", "returned %d, expected %d", got, want);
  ev(want ? "member" : "not_member");
  c.nt(hcombine(hcombine(n, v), static_cast<u64>(c.idx)));
}
SECTION(members8, 256 * 24, 256 * 1500) { members<u8>(c, is_value_in_array, 255); }
SECTION(members16, 256 * 24, 256 * 1500) { members<u16>(c, is_value_in_array_u16, 65535); }

SECTION(tolerance, 20000, 1000000) {
  Rng &r = c.r;
  /* keep the difference representable: magnitudes up to 100 for the built-in tolerance of 1e-12 */
  double a = r.coin(0.1) ? r.pick<double>({0.0, -0.0, 1.0, -1.0}) : r.coin() ? r.uniform(-1, 1) * r.logmag(1e-9, 1e2) : r.uniform(-1, 1) * 1e-12;
  double tol = r.coin() ? 1e-12 : r.logmag(1e-6, 1e6);
  double mag = r.coin(0.3) ? r.uniform(0, 0.9) : r.coin() ? r.uniform(1.1, 3) : r.logmag(1e-3, 1e12);
  if (mag > 0.9 && mag < 1.1) mag = 1.1;
  double b = r.coin(0.15) ? a : a + (r.coin() ? tol : -tol) * mag;
  int special = r.coin(0.05) ? static_cast<int>(r.range(1, 4)) : 0;
  if (special == 1) a = NAN;
  if (special == 2) b = NAN;
  if (special == 3) a = HUGE_VAL;
  if (special == 4) b = -HUGE_VAL;
  c.describe("%.17g and %.17g, tolerance %g", a, b, tol);
  c.nt(hcombine(hd(a), hcombine(hd(b), hd(tol))));
  auto judge = [&](const char *what, bool got, bool sym, double x, double y, double t) {
    long double d = fabsl(static_cast<long double>(x) - y);
    CHECK(got == sym, "symmetry", "%s depends on the order of its arguments", what);
    if (!std::isfinite(x) || !std::isfinite(y)) {
      CHECK(!got, "nonfinite", "%s holds for a non-finite difference", what);
      ev("not_a_number");
      return;
    }
    if (d > 0.95L * t && d < 1.05L * t) return;
    CHECK(got == (d < t), "tolerance", "%s is %d for a difference of %.5Lg", what, got, d);
    ev(got ? "near" : "apart");
  };
  judge("double_within", double_within(a, b, tol), double_within(b, a, tol), a, b, tol);
  judge("double_approx_eq", double_approx_eq(a, b), double_approx_eq(b, a), a, b, 1e-12);
  judge("double_equal", double_equal(a, b), double_equal(b, a), a, b, 1e-12);
  float fa = static_cast<float>(a), fb = static_cast<float>(b);
  judge("float_equal", float_equal(fa, fb), float_equal(fb, fa), static_cast<double>(fa), static_cast<double>(fb), 1e-12);
}

SECTION(slots, 65536, 65536) {
  u16 v = static_cast<u16>(c.idx);
  c.describe("number %u", v);
  /* frequency channels -7..6 are stored as 1..14; slots 1..28 */
  CHECK(glo_fcn_is_valid(v) == (v >= 1 && v <= 14), "channel", "stored channel %u: %d", v, glo_fcn_is_valid(v));
  CHECK(glo_slot_id_is_valid(v) == (v >= 1 && v <= 28), "slot", "slot %u: %d", v, glo_slot_id_is_valid(v));
  ev("slots");
  c.nt(v);
}

SECTION(streams, 20000, 1000000) {
  Rng &r = c.r;
  auto any = [&] { return static_cast<u32>(r.coin(0.4) ? r.range(0, 64) : r.coin() ? static_cast<int64_t>(UINT32_MAX) - r.range(0, 64) : r.range(0, UINT32_MAX)); };
  u32 len = any(), off = any(), pos = any(), n = any();
  if (r.coin(0.3)) { /* at the very end */
    u64 left = len > off ? len - off : 0;
    pos = static_cast<u32>(r.range(0, static_cast<int64_t>(left)));
    n = static_cast<u32>(static_cast<int64_t>(left - pos) + r.range(left > pos ? -1 : 0, 1));
  }
  static const u8 none = 0;
  u8 some = 0;
  bool want = static_cast<u64>(off) + pos + n > len;
  c.describe("size %u, offset %u, request %u at %u", len, off, n, pos);
  c.nt(hcombine(hcombine(len, off), hcombine(pos, n)));
  swiftnav_bytestream_t y;
  swiftnav_bytestream_init(&y, &none, len);
  CHECK(y.data == &none && y.len == len && y.offset == 0 && swiftnav_bytestream_remaining(&y) == len, "init", "byte stream starts with %u of %u bytes", swiftnav_bytestream_remaining(&y), len);
  y.offset = off;
  swiftnav_in_bitstream_t i;
  swiftnav_in_bitstream_init(&i, &none, len);
  CHECK(i.data == &none && i.len == len && i.offset == 0 && swiftnav_in_bitstream_remaining(&i) == len, "init", "input bit stream starts with %u of %u bits", swiftnav_in_bitstream_remaining(&i), len);
  i.offset = off;
  swiftnav_out_bitstream_t o;
  swiftnav_out_bitstream_init(&o, &some, len);
  CHECK(o.data == &some && o.len == len && o.offset == 0 && swiftnav_out_bitstream_remaining(&o) == len, "init", "output bit stream starts with %u of %u bits", swiftnav_out_bitstream_remaining(&o), len);
  o.offset = off;
  CHECK(swiftnav_bytestream_would_overflow(&y, pos, n) == want, "bytes", "byte stream: %d", !want);
  CHECK(swiftnav_in_bitstream_would_overflow(&i, pos, n) == want, "bits_in", "input bit stream: %d", !want);
  CHECK(swiftnav_out_bitstream_would_overflow(&o, pos, n) == want, "bits_out", "output bit stream: %d", !want);
  ev(want ? "overflow" : "fits");
}

/* zero-initialised arrays, macros of common.h */
SECTION(arith, 20000, 500000) {
  Rng &r = c.r;
  int64_t a = r.coin() ? r.range(-5, 5) : r.edgy(INT32_MIN, INT32_MAX), b = r.coin() ? r.range(-5, 5) : r.edgy(INT32_MIN, INT32_MAX);
  double x = r.coin(0.2) ? 0.0 : r.uniform(-1, 1) * r.logmag(1e-6, 1e6), y = r.coin(0.2) ? x : r.uniform(-1, 1) * r.logmag(1e-6, 1e6);
  size_t n = static_cast<size_t>(r.range(1, 300));
  c.describe("%lld %lld %.17g %.17g %zu", static_cast<long long>(a), static_cast<long long>(b), x, y, n);
  CHECK(ABS(a) == (a < 0 ? -a : a) && ABS(x) == fabs(x), "abs", "ABS(%lld) = %lld", static_cast<long long>(a), static_cast<long long>(ABS(a)));
  CHECK(MIN(a, b) == std::min(a, b) && MIN(x, y) == std::min(x, y), "min", "MIN");
  CHECK(MAX(a, b) == std::max(a, b) && MAX(x, y) == std::max(x, y), "max", "MAX");
  CHECK(CLAMP_DIFF(a, b) == (a > b ? a - b : 0), "clamp_diff", "CLAMP_DIFF(%lld, %lld) = %lld", static_cast<long long>(a), static_cast<long long>(b), static_cast<long long>(CLAMP_DIFF(a, b)));
  CHECK(SIGN(a) == (a < 0 ? -1 : 1) && SIGN(x) == (x < 0 ? -1 : 1), "sign", "SIGN(%lld) = %d", static_cast<long long>(a), SIGN(a));
  bool zero = true;
  {
    LSN_NEW_ARRAY(v, n, double);
    for (size_t k = 0; k < n; k++) zero &= v[k] == 0;
    for (size_t k = 0; k < n; k++) v[k] = 1;
    LSN_FREE_ARRAY(v);
  }
  CHECK(zero, "array", "new array of %zu is not zero", n);
  u16 one = 1;
  u8 low;
  memcpy(&low, &one, 1);
  CHECK(get_endianess() == (low ? SWIFT_LITTLE_ENDIAN : SWIFT_BIG_ENDIAN), "endianness", "get_endianess() = %d", get_endianess());
  CHECK(get_max_channels() >= 4, "channels", "%u channels", get_max_channels());
  c.nt(hcombine(hcombine(static_cast<u64>(a), static_cast<u64>(b)), hd(x)));
}
