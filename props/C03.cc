// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/bits.h>
using namespace mon;
RULE("8- and 16-bit argument spaces exhaustively, wider arguments random with single-bit, all-ones and boundary patterns; each result is compared "
     "with its bit-by-bit definition. Non-trivial: all; identity = argument.");
NEED(words_checked, 300000);

static u64 word(Ctx &c) {
  switch (c.r.range(0, 5)) {
    case 0: return 1ull << c.r.range(0, 63);
    case 1: return ~(1ull << c.r.range(0, 63));
    case 2: return c.r.coin() ? 0 : ~0ull;
    case 3: return (1ull << c.r.range(0, 63)) - 1;
    default: return c.r.u64();
  }
}
static unsigned pop(u64 v) {
  unsigned n = 0;
  for (int i = 0; i < 64; i++) n += (v >> i) & 1;
  return n;
}
static void check_word(u64 v) {
  ev("words_checked");
  u32 w = static_cast<u32>(v);
  CHECK(parity(w) == pop(w) % 2, "parity", "%08x", w);
  for (u8 bv = 0; bv < 2; bv++) {
    unsigned n64 = pop(v), n32 = pop(w), n16 = pop(w & 0xffff), n8 = pop(w & 0xff);
    CHECK(count_bits_u64(v, bv) == (bv ? n64 : 64 - n64), "count64", "%" PRIx64 " %d", v, bv);
    CHECK(count_bits_u32(w, bv) == (bv ? n32 : 32 - n32), "count32", "%x %d", w, bv);
    CHECK(count_bits_u16(static_cast<u16>(w), bv) == (bv ? n16 : 16 - n16), "count16", "%x %d", w & 0xffff, bv);
    CHECK(count_bits_u8(static_cast<u8>(w), bv) == (bv ? n8 : 8 - n8), "count8", "%x %d", w & 0xff, bv);
  }
}
template <class T>
static T rev(T v) {
  T r = 0;
  for (size_t i = 0; i < sizeof(T); i++) r = static_cast<T>(r | (static_cast<T>((v >> (8 * i)) & 0xff) << (8 * (sizeof(T) - 1 - i))));
  return r;
}
template <class T>
static void layout(T be, T le, T v) {
  u8 b[sizeof(T)], l[sizeof(T)];
  memcpy(b, &be, sizeof(T));
  memcpy(l, &le, sizeof(T));
  for (size_t i = 0; i < sizeof(T); i++) {
    CHECK(b[i] == static_cast<u8>(v >> (8 * (sizeof(T) - 1 - i))), "big-endian-layout", "%zu-byte %" PRIx64, sizeof(T), static_cast<u64>(v));
    CHECK(l[i] == static_cast<u8>(v >> (8 * i)), "little-endian-layout", "%zu-byte %" PRIx64, sizeof(T), static_cast<u64>(v));
  }
}
static void check_swap(u64 v) {
  u16 h = static_cast<u16>(v);
  u32 w = static_cast<u32>(v);
  CHECK(byte_swap_16(h) == rev(h), "swap16", "%x", h);
  CHECK(byte_swap_32(w) == rev(w), "swap32", "%x", w);
  CHECK(byte_swap_64(v) == rev(v), "swap64", "%" PRIx64, v);
  layout(htobe_16(h), htole_16(h), h);
  layout(htobe_32(w), htole_32(w), w);
  layout(htobe_64(v), htole_64(v), v);
  CHECK(betoh_16(htobe_16(h)) == h && letoh_16(htole_16(h)) == h, "involution16", "%x", h);
  CHECK(betoh_32(htobe_32(w)) == w && letoh_32(htole_32(w)) == w, "involution32", "%x", w);
  CHECK(betoh_64(htobe_64(v)) == v && letoh_64(htole_64(v)) == v, "involution64", "%" PRIx64, v);
}

SECTION(exhaustive16, 256, 256) {
  for (u32 lo = 0; lo < 256; lo++) {
    u32 v = static_cast<u32>(c.idx) * 256 + lo;
    check_word(v);
    check_word(static_cast<u64>(v) << 16 | static_cast<u64>(v) << 48);
    check_swap(v);
    u8 x = static_cast<u8>(lo), y = static_cast<u8>(c.idx);
    u16 m = 0;
    for (int i = 0; i < 8; i++) m = static_cast<u16>(m | ((x >> i) & 1) << (2 * i) | ((y >> i) & 1) << (2 * i + 1));
    CHECK(bytes_interleave(x, y) == m, "interleave", "x %02x y %02x", x, y);
    c.nt(v);
  }
  c.describe("all words %04x00..%04xff", static_cast<unsigned>(c.idx), static_cast<unsigned>(c.idx));
}
SECTION(random64, 20000, 2000000) {
  for (int k = 0; k < 10; k++) {
    u64 v = word(c);
    if (k == 0) c.describe("word %016" PRIx64, v);
    check_word(v);
    check_swap(v);
    c.nt(v);
  }
}
