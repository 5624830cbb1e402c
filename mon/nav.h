/* Helpers to build navigation messages bit by bit, written independently of the library. */
#ifndef VERIF_NAV_H
#define VERIF_NAV_H
#include "mon.h"
namespace nav {
typedef long double ld;
static const ld PI_ICD = 3.1415926535898L;
/* Broadcast parameter: where its bits are and how the integer is scaled */
struct Piece {
  int row, word, first, n; /* 1-based bit of a 24/30-bit word, most significant first */
};
/* write the n low bits of v at 1-based bit `first` of a 30-bit word (bit 1 is the most significant) */
inline void put30(uint32_t *w, int first, int n, uint64_t v) {
  for (int i = 0; i < n; i++) {
    int bit = 30 - (first + i); /* shift */
    uint32_t m = 1u << bit;
    if ((v >> (n - 1 - i)) & 1) *w |= m;
    else *w &= ~m;
  }
}
/* bit string (MSB first) in bytes, 0-based offset */
inline void putb(uint8_t *p, int off, int n, uint64_t v) {
  for (int i = 0; i < n; i++) {
    int b = off + i;
    uint8_t m = static_cast<uint8_t>(0x80 >> (b & 7));
    if ((v >> (n - 1 - i)) & 1) p[b >> 3] = static_cast<uint8_t>(p[b >> 3] | m);
    else p[b >> 3] = static_cast<uint8_t>(p[b >> 3] & ~m);
  }
}
/* integer of an n-bit field, edge values favoured */
inline int64_t gen(mon::Rng &r, int n, bool sgn) {
  int64_t lo = sgn ? -(int64_t{1} << (n - 1)) : 0, hi = sgn ? (int64_t{1} << (n - 1)) - 1 : (int64_t{1} << n) - 1;
  return r.coin(0.3) ? r.edgy(lo, hi) : r.range(lo, hi);
}
inline ld scaled(int64_t v, int exp2, bool pi) { return ldexpl(static_cast<ld>(v), exp2) * (pi ? PI_ICD : 1); }
/* double-precision evaluation of the scaled integer: a few roundings at most */
inline void same(const char *name, double got, int64_t v, int exp2, bool pi, double rel = 1e-15) {
  ld want = scaled(v, exp2, pi);
  CHECK(fabsl(got - want) <= static_cast<ld>(rel) * fabsl(want), name, "%s decoded as %.17g, encoded %lld = %.17Lg", name, got, static_cast<long long>(v), want);
}
/* ------------------------------------------------ GLONASS strings (85 bits) */
struct GloBits {
  uint8_t b[86]; /* b[1]..b[85] */
  GloBits() { memset(b, 0, sizeof b); }
  /* field whose least significant bit is bit `lo` */
  void put(int lo, int n, uint64_t v) {
    for (int i = 0; i < n; i++) b[lo + i] = (v >> i) & 1;
  }
  /* sign-magnitude: n magnitude bits and the sign above them */
  void sm(int lo, int n, int64_t v, bool negzero = false) {
    put(lo, n, static_cast<uint64_t>(v < 0 ? -v : v));
    b[lo + n] = v < 0 || (v == 0 && negzero);
  }
  /* position of data bit i (9..85) in the Hamming code word: the i-8th number that is no power of two */
  static int pos(int i) {
    static int t[86];
    if (!t[85]) {
      int p = 1;
      for (int k = 9; k <= 85; k++) {
        do p++;
        while ((p & (p - 1)) == 0);
        t[k] = p;
      }
    }
    return t[i];
  }
  int syndrome() const {
    int s = 0;
    for (int i = 9; i <= 85; i++)
      if (b[i]) s ^= pos(i);
    for (int k = 0; k < 7; k++)
      if (b[k + 1]) s ^= 1 << k;
    return s;
  }
  int odd() const {
    int s = 0;
    for (int i = 1; i <= 85; i++) s ^= b[i];
    return s;
  }
  /* set the check bits 1..8 */
  void seal() {
    for (int k = 1; k <= 8; k++) b[k] = 0;
    int s = syndrome();
    for (int k = 0; k < 7; k++) b[k + 1] = (s >> k) & 1;
    b[8] = static_cast<uint8_t>(odd());
  }
  void words(uint32_t w[3]) const {
    w[0] = w[1] = w[2] = 0;
    for (int i = 1; i <= 85; i++)
      if (b[i]) w[(i - 1) / 32] |= 1u << ((i - 1) % 32);
  }
};
} /* namespace nav */
#endif
