// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/shm.h>
using namespace mon;
using namespace gnss;
RULE("case = one health word (all 256 values) against every code and every disabled-error mask, or one 32-bit subframe word. Verdicts are compared with tables written from IS-GPS-200 "
     "20.3.3.3.1.4 and Table 20-VIII. All cases non-trivial.");
NEED(verdicts_healthy, 2000);
NEED(verdicts_unhealthy, 1500);
NEED(dhi_checks, 65536);
NEED(fields, 10000);

/* IS-GPS-200 Table 20-VIII: which components each 5-bit code declares weak, dead or without data.
 * bit 0: L1 P, 1: L2 P, 2: L1 C/A, 3: L2 C, 4: the whole vehicle */
static int affected(int b) {
  if (b == 0) return 0;
  if (b <= 3) return 16;         /* all signals */
  if (b <= 6) return 1;          /* L1 P */
  if (b <= 9) return 2;          /* L2 P */
  if (b <= 12) return 4;         /* L1 C */
  if (b <= 15) return 8;         /* L2 C */
  if (b <= 18) return 1 | 2;     /* L1 & L2 P */
  if (b <= 21) return 4 | 8;     /* L1 & L2 C */
  if (b <= 24) return 1 | 4;     /* L1 */
  if (b <= 27) return 2 | 8;     /* L2 */
  return 16;                     /* SV out, will be out, only URA/spare, several problems */
}
static int component(code_t c) {
  switch (static_cast<int>(c)) {
    case CODE_GPS_L1P: return 1;
    case CODE_GPS_L2P: return 2;
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_QZS_L1CA: case CODE_AUX_QZS: return 4;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX: return 8;
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X: return 0; /* not covered by the word */
    default: return -1;
  }
}
SECTION(words, 256, 256) {
  u8 w = static_cast<u8>(c.idx);
  c.nt(static_cast<uint64_t>(w));
  for (auto &p : plan()) {
    if (p.cons != CONSTELLATION_GPS && p.cons != CONSTELLATION_QZS) continue;
    int comp = component(p.code);
    int aff = affected(w & 31);
    bool nav_bad = (w >> 5) & 1; /* some or all NAV data are bad */
    bool uses_nav = p.code == CODE_GPS_L1CA || p.code == CODE_AUX_GPS || p.code == CODE_GPS_L1P;
    bool bad = (aff & 16) || (comp > 0 && (aff & comp)) || (uses_nav && nav_bad);
    /* codes the word says nothing about are only judged by the whole-vehicle indications */
    bool g6 = check_6bit_health_word(w, p.code), g25 = check_alma_page25_health_word(w, p.code), g8 = check_8bit_health_word(w, p.code);
    if (p.cons == CONSTELLATION_QZS && nav_bad) {
      /* IS-GPS-200 does not define the LNAV summary bit for these; only agreement is required */
      CHECK(g6 == g25, "qzs_agree", "word %02x code %d: 6-bit and page-25 verdicts differ", w, p.code);
      continue;
    }
    CHECK(g6 == !bad, "6bit", "word %02x, %s: reported %s", w, p.label, g6 ? "healthy" : "unhealthy");
    CHECK(g25 == !bad, "page25", "word %02x, %s: reported %s by the almanac page check", w, p.label, g25 ? "healthy" : "unhealthy");
    bool want8 = !bad && (w >> 5) == 0;
    CHECK(g8 == want8, "8bit", "word %02x, %s: reported %s by the 8-bit check", w, p.label, g8 ? "healthy" : "unhealthy");
    ev(g6 ? "verdicts_healthy" : "verdicts_unhealthy");
  }
  for (int d = 0; d < 256; d++) {
    bool want = (w >> 5) == 0 || ((d >> (w >> 5)) & 1);
    CHECK(check_nav_dhi(w, static_cast<u8>(d)) == want, "nav_dhi", "word %02x, disabled errors %02x", w, d);
    ev("dhi_checks");
  }
}
SECTION(subframe, 20000, 1000000) {
  u32 w = c.r.u32();
  if (c.r.coin(0.3)) w = 1u << c.r.range(0, 31);
  if (c.r.coin(0.1)) w = ~w;
  Buf<u8> out(1);
  out[0] = static_cast<u8>(c.r.u32());
  shm_gps_decode_shi_ephemeris(w, out);
  /* subframe 1 word 3, bits 17..22 of a 30-bit word held right-aligned (bit 30 = lsb) */
  u8 want = 0;
  for (int bit = 17; bit <= 22; bit++) want = static_cast<u8>(want << 1 | ((w >> (30 - bit)) & 1));
  CHECK(out[0] == want, "field", "word %08x: health %02x, bits 17..22 are %02x", w, out[0], want);
  c.nt(w);
  ev("fields");
}
