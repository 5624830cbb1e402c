// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
using namespace mon;
RULE("case = a random history of get/set/skip/remaining operations on a bit or byte stream over an exact-size heap buffer, compared step by step with a cursor "
     "model in 64-bit arithmetic; positions, widths and skips include values near 2^32, and fitting accesses at positions up to 2^32 bits (2^32 bytes) go to a sparse region. Non-trivial: history reached or passed the end, or used an extreme "
     "operand; identity = hash of the history.");
NEED(operations, 200000);
NEED(accepted, 30000);
NEED(refused, 30000);
NEED(refused_only_by_wide_arithmetic, 2000);
NEED(far_accesses, 6000);

static u64 model_u(const u8 *b, u64 pos, u64 len) {
  u64 v = 0;
  for (u64 i = 0; i < len; i++) v = v * 2 + ((b[(pos + i) / 8] >> (7 - (pos + i) % 8)) & 1u);
  return v;
}
static s64 sext(u64 v, u64 len) { return static_cast<s64>(v << (64 - len)) >> (64 - len); }
static u32 operand(Ctx &c, u64 remaining, u32 hi) {
  switch (c.r.range(0, 7)) {
    case 7: return static_cast<u32>(c.r.range(0, static_cast<int64_t>(std::min<u64>(remaining, UINT32_MAX))));
    case 0: return static_cast<u32>(UINT32_MAX - static_cast<u32>(c.r.range(0, 300)));
    case 1: return static_cast<u32>(std::min<u64>(remaining, UINT32_MAX));
    case 2: return static_cast<u32>(std::min<u64>(remaining + 1, UINT32_MAX));
    case 3: return 0x80000000u + static_cast<u32>(c.r.range(-64, 64));
    default: return static_cast<u32>(c.r.range(0, hi));
  }
}

SECTION(bitstream_in, 20000, 1000000) {
  size_t n = static_cast<size_t>(c.r.coin(0.01) ? c.r.range(8180, 9000) : c.r.range(1, 40));
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  u32 nbits = static_cast<u32>(c.r.range(0, static_cast<int64_t>(n) * 8));
  if (c.r.coin(0.5)) nbits = static_cast<u32>(n * 8);
  swiftnav_in_bitstream_t s;
  swiftnav_in_bitstream_init(&s, b, nbits);
  u64 off = 0, h = nbits;
  bool past = false;
  for (int k = 0; k < 25; k++) {
    u64 rem = off > nbits ? 0 : nbits - off;
    ev("operations");
    int op = static_cast<int>(c.r.range(0, 5));
    if (op == 4) {
      u32 len = c.r.coin(0.85) ? static_cast<u32>(c.r.range(0, 12)) : operand(c, rem, 40);
      h = hcombine(h, len);
      swiftnav_in_bitstream_remove(&s, len);
      off += len;
      past |= off >= nbits;
    } else if (op < 4) {
      u32 pos = c.r.coin(0.6) ? static_cast<u32>(c.r.range(0, 16)) : operand(c, rem, 64);
      bool fits_any = off + pos <= nbits;
      u32 maxw = (op < 2) ? 32 : 64;
      u64 left = fits_any ? nbits - off - pos : 0;
      u32 len = static_cast<u32>(c.r.range(1, maxw));
      if (c.r.coin(0.3)) len = static_cast<u32>(std::max<u64>(1, std::min<u64>(left, maxw)));
      if (c.r.coin(0.2)) {
        u32 e = operand(c, rem, 64);
        if (e > left && e > 0) len = e; /* unreasonable widths only where they cannot fit */
      }
      u64 end = off + pos + len;
      bool ok = end <= nbits;
      h = hcombine(h, hcombine(pos, len));
      u64 guard = c.r.u64();
      bool got;
      u32 u = static_cast<u32>(guard);
      s32 i = static_cast<s32>(guard);
      u64 ul = guard;
      s64 il = static_cast<s64>(guard);
      u32 o0 = s.offset;
      if (c.note.size() < 300) c.describe("op%d pos=%u len=%u off=%" PRIu64 "/%u", op, pos, len, off, nbits);
      switch (op) {
        case 0: got = swiftnav_in_bitstream_getbitu(&s, &u, pos, len); break;
        case 1: got = swiftnav_in_bitstream_getbits(&s, &i, pos, len); break;
        case 2: got = swiftnav_in_bitstream_getbitul(&s, &ul, pos, len); break;
        default: got = swiftnav_in_bitstream_getbitsl(&s, &il, pos, len); break;
      }
      CHECK(got == ok, "in-bitstream-accept", "op %d offset %" PRIu64 " pos %u len %u of %u bits: got %d want %d", op, off, pos, len, nbits, got, ok);
      CHECK(swiftnav_in_bitstream_would_overflow(&s, pos, len) == !ok, "in-bitstream-would-overflow", "offset %" PRIu64 " pos %u len %u", off, pos, len);
      CHECK(s.offset == o0, "in-bitstream-cursor", "a read moved the cursor");
      if (ok) {
        ev("accepted");
        u64 m = model_u(b, off + pos, len);
        bool same = op == 0 ? u == static_cast<u32>(m) : op == 1 ? i == sext(m, len) : op == 2 ? ul == m : il == sext(m, len);
        CHECK(same, "in-bitstream-value", "op %d offset %" PRIu64 " pos %u len %u", op, off, pos, len);
      } else {
        ev("refused");
        past = true;
        if (static_cast<u32>(end) <= nbits) ev("refused_only_by_wide_arithmetic");
        bool same = u == static_cast<u32>(guard) && i == static_cast<s32>(guard) && ul == guard && il == static_cast<s64>(guard);
        CHECK(same, "in-bitstream-output-on-refusal", "op %d", op);
      }
    }
    u32 r = swiftnav_in_bitstream_remaining(&s);
    u64 want = off > nbits ? 0 : nbits - off;
    CHECK(r == want, "in-bitstream-remaining", "consumed %" PRIu64 " of %u: remaining %u", off, nbits, r);
  }
  if (past) c.nt(h);
}

SECTION(bitstream_out, 20000, 1000000) {
  size_t n = static_cast<size_t>(c.r.coin(0.01) ? c.r.range(8180, 9000) : c.r.range(1, 40));
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  std::vector<u8> m(b.p, b.p + n);
  u32 nbits = static_cast<u32>(c.r.coin() ? static_cast<int64_t>(n) * 8 : c.r.range(0, static_cast<int64_t>(n) * 8));
  swiftnav_out_bitstream_t s;
  swiftnav_out_bitstream_init(&s, b, nbits);
  u64 off = 0, h = nbits;
  bool past = false;
  for (int k = 0; k < 25; k++) {
    u64 rem = off > nbits ? 0 : nbits - off;
    ev("operations");
    int op = static_cast<int>(c.r.range(0, 5));
    if (op == 4) {
      u32 len = c.r.coin(0.85) ? static_cast<u32>(c.r.range(0, 12)) : operand(c, rem, 40);
      swiftnav_out_bitstream_remove(&s, len);
      off += len;
      h = hcombine(h, len);
      past |= off >= nbits;
    } else if (op < 4) {
      u32 pos = c.r.coin(0.6) ? static_cast<u32>(c.r.range(0, 16)) : operand(c, rem, 64);
      u64 left = off + pos <= nbits ? nbits - off - pos : 0;
      u32 maxw = (op < 2) ? 32 : 64;
      u32 len = static_cast<u32>(c.r.range(1, maxw));
      if (c.r.coin(0.3)) len = static_cast<u32>(std::max<u64>(1, std::min<u64>(left, maxw)));
      if (c.r.coin(0.2)) {
        u32 e = operand(c, rem, 64);
        if (e > left && e > 0) len = e;
      }
      u64 end = off + pos + len;
      bool ok = end <= nbits;
      h = hcombine(h, hcombine(pos, len));
      u64 v = c.r.u64();
      u32 u = static_cast<u32>(v);
      s32 i = static_cast<s32>(v);
      s64 il = static_cast<s64>(v);
      u32 o0 = s.offset;
      bool got;
      if (c.note.size() < 300) c.describe("op%d pos=%u len=%u off=%" PRIu64 "/%u", op, pos, len, off, nbits);
      switch (op) {
        case 0: got = swiftnav_out_bitstream_setbitu(&s, &u, pos, len); break;
        case 1: got = swiftnav_out_bitstream_setbits(&s, &i, pos, len); break;
        case 2: got = swiftnav_out_bitstream_setbitul(&s, &v, pos, len); break;
        default: got = swiftnav_out_bitstream_setbitsl(&s, &il, pos, len); break;
      }
      CHECK(got == ok, "out-bitstream-accept", "op %d offset %" PRIu64 " pos %u len %u of %u bits: got %d want %d", op, off, pos, len, nbits, got, ok);
      CHECK(swiftnav_out_bitstream_would_overflow(&s, pos, len) == !ok, "out-bitstream-would-overflow", "offset %" PRIu64 " pos %u len %u", off, pos, len);
      CHECK(s.offset == o0, "out-bitstream-cursor", "a write moved the cursor");
      if (ok) {
        ev("accepted");
        for (u64 q = 0; q < len; q++) {
          u64 bi = off + pos + q;
          u8 mask = static_cast<u8>(0x80 >> (bi % 8));
          if ((v >> (len - 1 - q)) & 1) m[bi / 8] = static_cast<u8>(m[bi / 8] | mask);
          else m[bi / 8] = static_cast<u8>(m[bi / 8] & ~mask);
        }
      } else {
        ev("refused");
        past = true;
        if (static_cast<u32>(end) <= nbits) ev("refused_only_by_wide_arithmetic");
      }
      CHECK(memcmp(m.data(), b.p, n) == 0, "out-bitstream-contents", "op %d offset %" PRIu64 " pos %u len %u accepted %d", op, off, pos, len, ok);
    }
    u64 want = off > nbits ? 0 : nbits - off;
    u32 r = swiftnav_out_bitstream_remaining(&s);
    CHECK(r == want, "out-bitstream-remaining", "consumed %" PRIu64 " of %u: remaining %u", off, nbits, r);
  }
  if (past) c.nt(h);
}

template <class T>
static T model_int(const u8 *p, bool be) {
  u64 v = 0;
  for (size_t i = 0; i < sizeof(T); i++) v |= static_cast<u64>(p[i]) << (8 * (be ? sizeof(T) - 1 - i : i));
  return static_cast<T>(v);
}
template <class T, class F>
static void decode(Ctx &c, swiftnav_bytestream_t *s, F f, const u8 *b, u32 n, u64 &off, bool be, const char *name) {
  T guard = static_cast<T>(c.r.u64()), v = guard;
  bool ok = off + sizeof(T) <= n;
  bool got = f(s, &v);
  CHECK(got == ok, "bytestream-accept", "%s at %" PRIu64 " of %u: %d", name, off, n, got);
  if (ok) {
    ev("accepted");
    T m = model_int<T>(b + off, be);
    CHECK(v == m, "bytestream-value", "%s at %" PRIu64 " be=%d", name, off, be);
    off += sizeof(T);
  } else {
    ev("refused");
    CHECK(v == guard, "bytestream-output-on-refusal", "%s", name);
  }
}

SECTION(bytestream, 25000, 1000000) {
  size_t n = static_cast<size_t>(c.r.coin(0.01) ? c.r.range(65520, 70000) : c.r.range(1, 80));
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  u32 len = static_cast<u32>(c.r.coin(0.6) ? static_cast<int64_t>(n) : c.r.range(0, static_cast<int64_t>(n)));
  swiftnav_bytestream_t s;
  memset(&s, 0, sizeof s);
  swiftnav_bytestream_init(&s, b, len);
  bool be = c.r.coin();
  s.endianess = be ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
  u64 off = 0, h = hcombine(len, be);
  bool past = false;
  for (int k = 0; k < 25; k++) {
    u64 rem = off > len ? 0 : len - off;
    ev("operations");
    int op = static_cast<int>(c.r.range(0, 10));
    h = hcombine(h, static_cast<u64>(op));
    switch (op) {
      case 0: decode<u8>(c, &s, swiftnav_bytestream_decode_u8, b, len, off, be, "u8"); break;
      case 1: decode<s8>(c, &s, swiftnav_bytestream_decode_s8, b, len, off, be, "s8"); break;
      case 2: decode<u16>(c, &s, swiftnav_bytestream_decode_u16, b, len, off, be, "u16"); break;
      case 3: decode<s16>(c, &s, swiftnav_bytestream_decode_s16, b, len, off, be, "s16"); break;
      case 4: decode<u32>(c, &s, swiftnav_bytestream_decode_u32, b, len, off, be, "u32"); break;
      case 5: decode<s32>(c, &s, swiftnav_bytestream_decode_s32, b, len, off, be, "s32"); break;
      case 6: decode<u64>(c, &s, swiftnav_bytestream_decode_u64, b, len, off, be, "u64"); break;
      case 7: decode<s64>(c, &s, swiftnav_bytestream_decode_s64, b, len, off, be, "s64"); break;
      case 8: {
        u32 l = c.r.coin(0.8) ? static_cast<u32>(c.r.range(0, 5)) : operand(c, rem, 20);
        swiftnav_bytestream_remove(&s, l);
        off += l;
        h = hcombine(h, l);
        break;
      }
      default: {
        u32 idx = c.r.coin(0.6) ? static_cast<u32>(c.r.range(0, 8)) : operand(c, rem, 40);
        u32 l = c.r.coin(0.7) ? static_cast<u32>(c.r.range(0, 16)) : operand(c, rem, 40);
        u64 end = off + idx + l;
        bool ok = end <= len;
        h = hcombine(h, hcombine(idx, l));
        Buf<u8> dst(ok ? std::max<u32>(l, 1) : 16);
        memset(dst.p, 0x5a, dst.n);
        if (c.note.size() < 300) c.describe("get_bytes(%u,%u) off=%" PRIu64 "/%u", idx, l, off, len);
        bool got = swiftnav_bytestream_get_bytes(&s, idx, l, dst);
        CHECK(got == ok, "bytestream-accept", "get_bytes offset %" PRIu64 " index %u len %u of %u: got %d", off, idx, l, len, got);
        if (ok) {
          ev("accepted");
          CHECK(memcmp(dst.p, b.p + off + idx, l) == 0, "bytestream-value", "get_bytes");
        } else {
          ev("refused");
          past = true;
          if (static_cast<u32>(end) <= len) ev("refused_only_by_wide_arithmetic");
          for (size_t q = 0; q < dst.n; q++) CHECK(dst[q] == 0x5a, "bytestream-output-on-refusal", "get_bytes");
        }
      }
    }
    u64 want = off > len ? 0 : len - off;
    u32 r = swiftnav_bytestream_remaining(&s);
    CHECK(r == want, "bytestream-remaining", "consumed %" PRIu64 " of %u: remaining %u", off, len, r);
    past |= off >= len;
  }
  if (past) c.nt(h);
}

/* accesses that fit, far into a large buffer */
SECTION(far, 3000, 60000) {
  Sparse m;
  for (int k = 0; k < 3; k++) {
    u32 len = static_cast<u32>(c.r.range(1, 64)), at = Sparse::far_bit(c.r, len);
    u32 total = at + len + static_cast<u32>(c.r.coin() ? 0 : c.r.range(0, std::min<int64_t>(200, static_cast<int64_t>(UINT32_MAX) - at - len)));
    u32 skip = c.r.coin(0.3) ? at : static_cast<u32>(c.r.range(0, at)), pos = at - skip;
    size_t lo = at / 8 >= 8 ? at / 8 - 8 : 0, hi = std::min<size_t>((static_cast<u64>(at) + len) / 8 + 8, Sparse::N);
    c.r.bytes(m.p + lo, hi - lo);
    c.describe("bit %u (skipped %u) width %u of %u", at, skip, len, total);
    swiftnav_in_bitstream_t s;
    swiftnav_in_bitstream_init(&s, m.p, total);
    swiftnav_in_bitstream_remove(&s, skip);
    u64 want = model_u(m.p, at, len), u = ~want;
    s64 i = 0;
    u32 u32v = 0;
    s32 i32v = 0;
    CHECK(swiftnav_in_bitstream_getbitul(&s, &u, pos, len) && u == want, "far-in", "getbitul");
    CHECK(swiftnav_in_bitstream_getbitsl(&s, &i, pos, len) && i == sext(want, len), "far-in", "getbitsl");
    if (len <= 32) {
      CHECK(swiftnav_in_bitstream_getbitu(&s, &u32v, pos, len) && u32v == want, "far-in", "getbitu");
      CHECK(swiftnav_in_bitstream_getbits(&s, &i32v, pos, len) && i32v == sext(want, len), "far-in", "getbits");
    }
    CHECK(swiftnav_in_bitstream_remaining(&s) == total - skip, "far-remaining", "%u", swiftnav_in_bitstream_remaining(&s));
    swiftnav_out_bitstream_t o;
    swiftnav_out_bitstream_init(&o, m.p, total);
    swiftnav_out_bitstream_remove(&o, skip);
    std::vector<u8> w(m.p + lo, m.p + hi);
    u64 v = c.r.u64();
    for (u64 q = 0; q < len; q++) {
      u64 bi = at + q - lo * 8;
      u8 mask = static_cast<u8>(0x80 >> (bi % 8));
      if ((v >> (len - 1 - q)) & 1) w[bi / 8] = static_cast<u8>(w[bi / 8] | mask);
      else w[bi / 8] = static_cast<u8>(w[bi / 8] & ~mask);
    }
    u32 v32 = static_cast<u32>(v);
    s32 vi32 = static_cast<s32>(v32);
    s64 vi = static_cast<s64>(v);
    bool ok;
    switch (c.r.range(len <= 32 ? 0 : 2, 3)) {
      case 0: ok = swiftnav_out_bitstream_setbitu(&o, &v32, pos, len); break;
      case 1: ok = swiftnav_out_bitstream_setbits(&o, &vi32, pos, len); break;
      case 2: ok = swiftnav_out_bitstream_setbitul(&o, &v, pos, len); break;
      default: ok = swiftnav_out_bitstream_setbitsl(&o, &vi, pos, len); break;
    }
    CHECK(ok && memcmp(w.data(), m.p + lo, w.size()) == 0, "far-out", "accepted %d", ok);
    CHECK(swiftnav_out_bitstream_remaining(&o) == total - skip, "far-remaining", "%u", swiftnav_out_bitstream_remaining(&o));
    /* byte stream over the same memory */
    u32 B = UINT32_MAX, nl = static_cast<u32>(c.r.range(1, 40)), bat = std::min<u32>(c.r.coin() ? at : at / 8, B - nl - 16), bskip = std::min(c.r.coin(0.3) ? bat : static_cast<u32>(c.r.range(0, bat)), bat);
    c.r.bytes(m.p + bat, nl + 8);
    swiftnav_bytestream_t y;
    memset(&y, 0, sizeof y);
    swiftnav_bytestream_init(&y, m.p, B);
    bool be = c.r.coin();
    y.endianess = be ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
    swiftnav_bytestream_remove(&y, bskip);
    Buf<u8> dst(nl);
    CHECK(swiftnav_bytestream_get_bytes(&y, bat - bskip, nl, dst) && !memcmp(dst.p, m.p + bat, nl), "far-bytes", "get_bytes %u at %u", nl, bat);
    swiftnav_bytestream_remove(&y, bat - bskip);
    u64 off = bat;
    decode<u32>(c, &y, swiftnav_bytestream_decode_u32, m.p, B, off, be, "u32");
    decode<u16>(c, &y, swiftnav_bytestream_decode_u16, m.p, B, off, be, "u16");
    decode<s16>(c, &y, swiftnav_bytestream_decode_s16, m.p, B, off, be, "s16");
    CHECK(swiftnav_bytestream_remaining(&y) == B - off, "far-remaining", "%u", swiftnav_bytestream_remaining(&y));
    ev("far_accesses");
    c.nt(hcombine(want, hcombine(at, skip)));
  }
}
