// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/glonass_phase_biases.h>
using namespace mon;
RULE("every mask byte x every code with random finite biases and arbitrary padding; equality of identical copies and of copies with one field changed. Non-trivial: every case; identity = mask, code and biases.");
NEED(own_bias, 5000);
NEED(fallback, 5000);
NEED(absent, 5000);
NEED(other_code, 100000);
NEED(equal, 10000);
NEED(differs, 20000);
NEED(flags, 65536);

static glo_biases_t gen(Rng &r, u8 mask) {
  glo_biases_t b;
  r.bytes(&b, sizeof b);
  auto g = [&] { return r.coin(0.1) ? 0.0 : r.coin() ? r.uniform(-655, 655) : r.logmag(1e-3, 1e4); };
  b.mask = mask;
  b.l1of_bias_m = g(), b.l1p_bias_m = g(), b.l2of_bias_m = g(), b.l2p_bias_m = g();
  return b;
}
/* RTCM 1230 mask: bit 0 L2P, 1 L2OF, 2 L1P, 3 L1OF */
SECTION(biases, 256 * 80 * 10, 256 * 80 * 200) {
  u8 mask = static_cast<u8>(c.idx & 255);
  int code = static_cast<int>(c.idx >> 8) % (CODE_COUNT + 1) - 1;
  glo_biases_t b = gen(c.r, mask);
  c.describe("mask 0x%02x code %d biases L1OF %.17g L1P %.17g L2OF %.17g L2P %.17g", mask, code, b.l1of_bias_m, b.l1p_bias_m, b.l2of_bias_m, b.l2p_bias_m);
  c.nt(hcombine(hcombine(mask, static_cast<u64>(code + 1)), hd(b.l1of_bias_m)));
  double got = get_glonass_bias(static_cast<code_t>(code), b), want = 0;
  bool own = false, fall = false;
  /* the reference receiver's own bias is zero, so the correction is minus the broadcast bias */
  if (code == CODE_GLO_L1OF) {
    own = mask & 8, fall = !own && (mask & 4);
    want = own ? -b.l1of_bias_m : fall ? -b.l1p_bias_m : 0;
  } else if (code == CODE_GLO_L2OF) {
    own = mask & 2, fall = !own && (mask & 1);
    want = own ? -b.l2of_bias_m : fall ? -b.l2p_bias_m : 0;
  } else if (code == CODE_GLO_L1P || code == CODE_GLO_L2P) {
    return; /* the documentation describes the open-code signals only */
  } else {
    ev("other_code");
  }
  CHECK(got == want, "bias", "%.17g m, expected %.17g m", got, want);
  if (code == CODE_GLO_L1OF || code == CODE_GLO_L2OF) ev(own ? "own_bias" : fall ? "fallback" : "absent");
}
SECTION(glonass, 60000, 2000000) {
  u8 mask = static_cast<u8>(c.r.range(0, 15) | (c.r.coin() ? 0 : c.r.range(0, 15) << 4));
  glo_biases_t b = gen(c.r, mask);
  bool l1 = c.r.coin();
  c.describe("mask 0x%02x %s biases L1OF %.17g L1P %.17g L2OF %.17g L2P %.17g", mask, l1 ? "L1" : "L2", b.l1of_bias_m, b.l1p_bias_m, b.l2of_bias_m, b.l2p_bias_m);
  c.nt(hcombine(hcombine(mask, l1), hcombine(hd(b.l1of_bias_m), hd(b.l2p_bias_m))));
  bool own = mask & (l1 ? 8 : 2), fall = !own && (mask & (l1 ? 4 : 1));
  double want = l1 ? (own ? -b.l1of_bias_m : fall ? -b.l1p_bias_m : 0) : (own ? -b.l2of_bias_m : fall ? -b.l2p_bias_m : 0);
  double got = get_glonass_bias(l1 ? CODE_GLO_L1OF : CODE_GLO_L2OF, b);
  CHECK(got == want, "bias", "%.17g m, expected %.17g m", got, want);
  ev(own ? "own_bias" : fall ? "fallback" : "absent");
}
SECTION(flags, 65536, 65536) {
  u8 m = static_cast<u8>(c.idx & 255), f = static_cast<u8>(c.idx >> 8);
  c.describe("mask 0x%02x flag 0x%02x", m, f);
  c.nt(static_cast<u64>(c.idx));
  ev("flags");
  CHECK(is_bias_mask_flag_set(m, f) == ((m | f) == m), "flag", "%d", is_bias_mask_flag_set(m, f));
}
SECTION(equality, 60000, 2000000) {
  glo_biases_t a = gen(c.r, static_cast<u8>(c.r.range(0, 255))), b;
  c.r.bytes(&b, sizeof b);
  b.mask = a.mask, b.l1of_bias_m = a.l1of_bias_m, b.l1p_bias_m = a.l1p_bias_m, b.l2of_bias_m = a.l2of_bias_m, b.l2p_bias_m = a.l2p_bias_m;
  c.describe("copies with mask 0x%02x", a.mask);
  c.nt(hcombine(a.mask, hcombine(hd(a.l1of_bias_m), hd(a.l2of_bias_m))));
  CHECK(glonass_biases_are_equal(a, b), "equal", "identical fields but not equal");
  ev("equal");
  int k = static_cast<int>(c.r.range(0, 4));
  double *f[] = {&b.l1of_bias_m, &b.l1p_bias_m, &b.l2of_bias_m, &b.l2p_bias_m};
  if (k == 4)
    b.mask = static_cast<u8>(a.mask ^ (1 << c.r.range(0, 7)));
  else {
    double y = *f[k] + c.r.logmag(1e-11, 100);
    if (fabs(y - *f[k]) < 2e-12) return;
    *f[k] = y;
  }
  c.describe("field %d changed", k);
  CHECK(!glonass_biases_are_equal(a, b) && !glonass_biases_are_equal(b, a), "differs", "field %d differs but compared equal", k);
  ev("differs");
}
