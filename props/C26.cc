// @run variant=asan shards=8
#include "mon.h"
#include "nav.h"
#include <swiftnav/decode_glo.h>
using namespace mon;
using namespace nav;
RULE("case = random 77 data bits sealed with the eight check bits of the interface document (independent Hamming construction); the sealed string, all 85 single-bit errors and all 3570 double-bit errors are judged, plus random "
     "multi-bit errors and random strings against the document's decision rule. extract: bit-field extraction at all positions and widths. Non-trivial: every case; identity = the string.");
NEED(valid_strings, 500);
NEED(single_errors, 40000);
NEED(double_errors, 1500000);
NEED(multi_errors, 50000);
NEED(fields, 20000);

static int judge(const GloBits &g) {
  glo_string_t s;
  g.words(s.word);
  return error_detection_glo(&s);
}
/* decision rule of GLONASS ICD 4.7 */
static int rule(const GloBits &g) {
  int s = g.syndrome(), o = g.odd(), n = __builtin_popcount(static_cast<unsigned>(s));
  if ((n == 0 && !o) || (n == 1 && o)) return 0;
  if (n > 1 && o) {
    for (int i = 9; i <= 85; i++)
      if (GloBits::pos(i) == s) return i;
    return -1;
  }
  return -1;
}
SECTION(errors, 1000, 20000) {
  GloBits g;
  double d = c.r.pick<double>({0.5, 0.5, 0.5, 0.02, 0.98, 0, 1});
  for (int i = 9; i <= 85; i++) g.b[i] = c.r.coin(d);
  if (c.r.coin(0.1)) {
    memset(g.b, 0, sizeof g.b);
    g.b[c.r.range(9, 85)] = 1;
  }
  g.seal();
  c.describe("data bits %s", hex(g.b, 86).c_str());
  c.nt(hbytes(g.b, 86));
  CHECK(judge(g) == 0, "valid_refused", "an error-free string is judged %d", judge(g));
  ev("valid_strings");
  for (int i = 1; i <= 85; i++) {
    g.b[i] ^= 1;
    int v = judge(g);
    if (i >= 9) CHECK(v == i, "single", "error in bit %d is judged %d", i, v);
    else CHECK(v == 0 || v == -1, "check_bit", "error in check bit %d is judged %d", i, v);
    CHECK(v == rule(g), "rule", "error in bit %d is judged %d, rule says %d", i, v, rule(g));
    ev("single_errors");
    for (int j = i + 1; j <= 85; j++) {
      g.b[j] ^= 1;
      int u = judge(g);
      g.b[j] ^= 1;
      CHECK(u == -1, "double", "errors in bits %d and %d are judged %d", i, j, u);
    }
    ev("double_errors", 85 - i);
    g.b[i] ^= 1;
  }
  for (int k = 0; k < 100; k++) {
    GloBits h = g;
    int n = static_cast<int>(c.r.range(3, 8));
    for (int j = 0; j < n; j++) h.b[c.r.range(1, 85)] ^= 1;
    if (k % 10 == 0)
      for (int i = 1; i <= 85; i++) h.b[i] = c.r.coin();
    CHECK(judge(h) == rule(h), "rule", "string %s is judged %d, rule says %d", hex(h.b, 86).c_str(), judge(h), rule(h));
    ev("multi_errors");
  }
}
SECTION(extract, 3000, 100000) {
  Buf<glo_string_t> s(1);
  c.r.bytes(s.p, sizeof(glo_string_t));
  c.nt(hbytes(s.p, sizeof(glo_string_t)));
  for (int k = 0; k < 20; k++) {
    int n = static_cast<int>(c.r.range(1, 32)), lo = static_cast<int>(c.r.coin(0.2) ? 86 - (n > 85 ? 85 : n) : c.r.range(1, 86 - n));
    uint64_t want = 0;
    for (int i = 0; i < n; i++) want |= static_cast<uint64_t>((s[0].word[(lo - 1 + i) / 32] >> ((lo - 1 + i) % 32)) & 1) << i;
    u32 got = extract_word_glo(s.p, static_cast<u16>(lo), static_cast<u8>(n));
    CHECK(got == want, "extract", "bits %d..%d of %s -> 0x%x, expected 0x%llx", lo, lo + n - 1, hex(s.p, 12).c_str(), got, static_cast<unsigned long long>(want));
    ev("fields");
  }
}
