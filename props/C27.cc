// @run variant=asan shards=4
#include "mon.h"
#include <swiftnav/ephemeris.h>
using namespace mon;
RULE("index: all 256 values of each index kind against the interface-document tables. encode: accuracies around every table bound (both neighbours), zero, random magnitudes, negative, infinite. Non-trivial: every case; identity = value.");
NEED(indices, 768);
NEED(encoded, 20000);
NEED(not_encodable, 1000);

static const float GPS[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
SECTION(index, 256, 256) {
  int i = static_cast<int>(c.idx);
  c.describe("index %d", i);
  c.nt(static_cast<uint64_t>(i));
  float g = decode_ura_index(static_cast<u8>(i)), b = decode_bds_ura_index(static_cast<u8>(i)), s = decode_sisa_index(static_cast<u8>(i));
  CHECK(g == (i < 16 ? GPS[i] : -1), "gps", "%g", static_cast<double>(g));
  CHECK(b == (i < 15 ? GPS[i] : -1), "bds", "%g", static_cast<double>(b));
  double w = i < 50 ? i * 0.01 : i < 75 ? 0.5 + (i - 50) * 0.02 : i < 100 ? 1 + (i - 75) * 0.04 : i < 126 ? 2 + (i - 100) * 0.16 : i < 255 ? 6 : -1;
  CHECK(fabs(static_cast<double>(s) - w) < 1e-5, "sisa", "%g, expected %g", static_cast<double>(s), w);
  CHECK((i == 255) == !URA_VALID(s), "sisa_invalid", "%g", static_cast<double>(s));
  ev("indices", 3);
  if (i < 16) CHECK(encode_ura(g) == i, "reencode", "%g -> %u", static_cast<double>(g), encode_ura(g));
}
SECTION(encode, 40000, 2000000) {
  float a;
  switch (c.r.range(0, 4)) {
    case 0: a = GPS[c.r.range(0, 15)]; break;
    case 1: a = nextafterf(GPS[c.r.range(0, 15)], c.r.coin() ? 0 : 1e9f); break;
    case 2: a = c.r.pick<float>({0.0f, -0.0f, 1e-30f, -1e-30f, -1.0f, 6144.5f, 1e30f, INFINITY, -INFINITY, 1.0f}); break;
    case 3: a = static_cast<float>(c.r.logmag(1e-3, 1e5)); break;
    default: a = static_cast<float>(c.r.uniform(0, 7000)); break;
  }
  c.describe("accuracy %.9g m", static_cast<double>(a));
  c.nt(hd(static_cast<double>(a)));
  int want = 255;
  if (a >= 0)
    for (int i = 15; i >= 0; i--)
      if (GPS[i] >= a) want = i;
  u8 got = encode_ura(a);
  CHECK(got == want, "encode", "-> %u, expected %d", got, want);
  if (want == 255) ev("not_encodable");
  else CHECK(decode_ura_index(got) >= a, "understates", "-> %u -> %g", got, static_cast<double>(decode_ura_index(got)));
  ev("encoded");
}
