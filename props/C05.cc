// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/edc.h>
using namespace mon;
RULE("case = random message of 0..300 bytes (exact-size heap block), initial value, split point, bit length and inversion; results are compared with a bit-serial "
     "polynomial division; error patterns of the guaranteed classes are injected. Non-trivial: message non-empty; identity = (message, operands).");
NEED(byte_crcs, 20000);
NEED(bit_crcs, 20000);
NEED(errors_injected, 50000);
NEED(whole_byte_bit_messages, 1000);

/* x^24+x^23+x^18+x^17+x^14+x^11+x^10+x^7+x^6+x^5+x^4+x^3+x+1 */
static const int kTaps[] = {23, 18, 17, 14, 11, 10, 7, 6, 5, 4, 3, 1, 0};
static u32 poly() {
  u32 p = 0;
  for (int t : kTaps) p |= 1u << t;
  return p;
}
static u32 push_bit(u32 crc, int bit) {
  int top = ((crc >> 23) & 1) ^ bit;
  crc = (crc << 1) & 0xffffff;
  return top ? crc ^ poly() : crc;
}
static u32 ref_bytes(const u8 *b, size_t n, u32 crc) {
  for (size_t i = 0; i < n; i++)
    for (int k = 7; k >= 0; k--) crc = push_bit(crc, (b[i] >> k) & 1);
  return crc;
}
/* left-padded with zeros to whole bytes */
static u32 ref_bits(const u8 *b, u32 nbits, bool inv, u32 crc, u32 pad) {
  for (u32 i = 0; i < pad; i++) crc = push_bit(crc, 0);
  for (u32 i = 0; i < nbits; i++) crc = push_bit(crc, ((b[i / 8] >> (7 - i % 8)) & 1) ^ (inv ? 1 : 0));
  return crc;
}

SECTION(bytes, 20000, 500000) {
  size_t n = static_cast<size_t>(c.r.coin(0.1) ? c.r.range(0, 2) : c.r.range(0, 300));
  if (c.r.coin(0.002)) n = 70000;
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  u32 init = c.r.coin() ? 0 : c.r.u32() & 0xffffff;
  u32 want = ref_bytes(b, n, init);
  u32 got = crc24q(b, static_cast<u32>(n), init);
  ev("byte_crcs");
  c.describe("%zu bytes %s init %06x -> %06x", n, hex(b.p, std::min<size_t>(n, 12)).c_str(), init, want);
  CHECK(got == want, "crc-value", "%zu bytes init %06x got %06x want %06x", n, init, got, want);
  size_t k = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(n)));
  u32 two = crc24q(b.p + k, static_cast<u32>(n - k), crc24q(b, static_cast<u32>(k), init));
  CHECK(two == want, "crc-split", "split at %zu of %zu", k, n);
  Buf<u8> m(n + 3);
  if (n) memcpy(m.p, b.p, n);
  m[n] = static_cast<u8>(want >> 16);
  m[n + 1] = static_cast<u8>(want >> 8);
  m[n + 2] = static_cast<u8>(want);
  CHECK(crc24q(m, static_cast<u32>(n + 3), init) == 0, "crc-residue", "message followed by its CRC");
  /* inject errors of the detectable classes */
  u32 nb = static_cast<u32>((n + 3) * 8);
  for (int e = 0; e < 6 && n < 400; e++) {
    Buf<u8> x(n + 3);
    memcpy(x.p, m.p, n + 3);
    int kind = static_cast<int>(c.r.range(0, 2));
    u32 p1 = static_cast<u32>(c.r.range(0, nb - 1));
    if (kind == 0) {
      x[p1 / 8] ^= static_cast<u8>(0x80 >> (p1 % 8));
    } else if (kind == 1) {
      u32 p2 = static_cast<u32>(c.r.range(0, nb - 1));
      if (p2 == p1) p2 = (p1 + 1) % nb;
      x[p1 / 8] ^= static_cast<u8>(0x80 >> (p1 % 8));
      x[p2 / 8] ^= static_cast<u8>(0x80 >> (p2 % 8));
    } else {
      u32 len = static_cast<u32>(c.r.range(1, 24));
      if (len > nb) len = nb;
      if (p1 + len > nb) p1 = nb - len;
      u32 pat = (c.r.u32() & ((1u << len) - 1)) | 1u | (1u << (len - 1));
      for (u32 q = 0; q < len; q++)
        if ((pat >> q) & 1) x[(p1 + q) / 8] ^= static_cast<u8>(0x80 >> ((p1 + q) % 8));
    }
    ev("errors_injected");
    CHECK(crc24q(x, static_cast<u32>(n + 3), init) != 0, "crc-undetected-error", "kind %d at bit %u of %u", kind, p1, nb);
  }
  if (n) c.nt(hcombine(hbytes(b.p, n), init));
}

/* each table entry: every single-byte message */
SECTION(table, 256, 256) {
  Buf<u8> b(1);
  b[0] = static_cast<u8>(c.idx);
  for (u32 init : {0u, 0xffffffu, 0x800000u, 0x123456u, 1u}) {
    CHECK(crc24q(b, 1, init) == ref_bytes(b, 1, init), "crc-value", "byte %02x init %06x", b[0], init);
    ev("byte_crcs");
  }
  c.nt(static_cast<u64>(c.idx));
}

SECTION(bits, 30000, 1000000) {
  u32 nbits = static_cast<u32>(c.r.coin(0.2) ? c.r.range(1, 20) : c.r.range(1, 700));
  if (c.r.coin(0.2)) nbits = static_cast<u32>(c.r.pick<int>({8, 16, 24, 64, 256, 226, 250, 276, 300}));
  if (c.r.coin(0.002)) nbits = static_cast<u32>(c.r.range(64000, 70000));
  if (c.r.coin(0.0005)) nbits = static_cast<u32>(c.r.range(524200, 540000));
  size_t n = (nbits + 7) / 8;
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  bool inv = c.r.coin();
  u32 pad = (8 - nbits % 8) % 8;
  u32 init = (c.r.coin(0.7) || pad == 0) ? 0 : c.r.u32() & 0xffffff;
  u32 want = ref_bits(b, nbits, inv, init, pad);
  u32 got = crc24q_bits(init, b, nbits, inv);
  ev("bit_crcs");
  if (pad == 0) ev("whole_byte_bit_messages");
  c.describe("%u bits inv=%d init %06x %s", nbits, inv, init, hex(b.p, std::min<size_t>(n, 12)).c_str());
  CHECK(got == want, "crc-bits-value", "%u bits inv %d init %06x got %06x want %06x", nbits, inv, init, got, want);
  c.nt(hcombine(hbytes(b.p, n), hcombine(nbits, inv)));
}
