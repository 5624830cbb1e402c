// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/bits.h>
using namespace mon;
RULE("case = random or patterned buffer of 1..200 bytes (occasionally 9..40 KiB) in an exact-size heap block, "
     "or a sparse region for offsets up to 2^32, random/edge bit offset and width; every read form is compared with a naive bit array. Non-trivial: at least one "
     "field was read and compared; identity = (buffer hash, offset, width).");
NEED(reads, 200000);
NEED(reads_ending_at_last_bit, 2000);
NEED(negative_values, 2000);
NEED(far_reads, 8000);

/* naive model: one element per bit */
static int bit_at(const u8 *b, u64 i) { return (b[i / 8] & (0x80 >> (i % 8))) != 0; }
static u64 model_u(const u8 *b, u64 pos, unsigned len) {
  u64 v = 0;
  for (unsigned i = 0; i < len; i++) v = v * 2 + static_cast<u64>(bit_at(b, pos + i));
  return v;
}
static s64 model_s(const u8 *b, u64 pos, unsigned len) {
  /* value = -b0*2^(len-1) + sum b_i 2^(len-1-i) */
  __int128 v = 0;
  for (unsigned i = 0; i < len; i++) {
    __int128 w = static_cast<__int128>(1) << (len - 1 - i);
    if (bit_at(b, pos + i)) v += (i == 0) ? -w : w;
  }
  return static_cast<s64>(v);
}

static void one(Ctx &c, Buf<u8> &b, const std::vector<u8> &copy, u32 pos, unsigned len) {
  u32 nbits = static_cast<u32>(b.n * 8);
  u64 mu = model_u(copy.data(), pos, len);
  ev("reads");
  if (pos + len == nbits) ev("reads_ending_at_last_bit");
  if (len <= 32) {
    u32 g = getbitu(b, pos, static_cast<u8>(len));
    CHECK(g == mu, "getbitu-value", "pos %u len %u got %x want %" PRIx64, pos, len, g, mu);
    if (len > 0) {
      s32 s = getbits(b, pos, static_cast<u8>(len));
      s64 ms = model_s(copy.data(), pos, len);
      CHECK(s == ms, "getbits-value", "pos %u len %u got %d want %" PRId64, pos, len, s, ms);
      if (ms < 0) ev("negative_values");
    }
  }
  u64 gl = getbitul(b, pos, static_cast<u8>(len));
  CHECK(gl == mu, "getbitul-value", "pos %u len %u got %" PRIx64 " want %" PRIx64, pos, len, gl, mu);
  if (len > 0) {
    s64 sl = getbitsl(b, pos, static_cast<u8>(len));
    s64 ms = model_s(copy.data(), pos, len);
    CHECK(sl == ms, "getbitsl-value", "pos %u len %u got %" PRId64 " want %" PRId64, pos, len, sl, ms);
  }
  CHECK(memcmp(b.p, copy.data(), b.n) == 0, "read-modified-buffer", "pos %u len %u", pos, len);
}

static void fill(Ctx &c, Buf<u8> &b) {
  switch (c.r.range(0, 4)) {
    case 0: memset(b.p, 0, b.n); break;
    case 1: memset(b.p, 0xff, b.n); break;
    case 2: memset(b.p, c.r.coin() ? 0xaa : 0x55, b.n); break;
    default: c.r.bytes(b.p, b.n);
  }
}

/* random offsets and widths */
SECTION(random_fields, 40000, 2000000) {
  size_t n = c.r.coin(0.01) ? static_cast<size_t>(c.r.range(8192, 40000)) : static_cast<size_t>(c.r.range(1, 200));
  Buf<u8> b(n);
  fill(c, b);
  std::vector<u8> copy(b.p, b.p + n);
  u32 nbits = static_cast<u32>(n * 8);
  for (int k = 0; k < 8; k++) {
    unsigned len = static_cast<unsigned>(c.r.coin() ? c.r.range(0, 64) : c.r.pick<unsigned>({1, 7, 8, 9, 31, 32, 33, 63, 64, 16, 24}));
    if (len > nbits) len = nbits;
    u32 pos = c.r.coin(0.3) ? nbits - len : static_cast<u32>(c.r.range(0, nbits - len));
    if (k == 0) c.describe("buf[%zu]=%s pos=%u len=%u", n, hex(b.p, std::min<size_t>(n, 24)).c_str(), pos, len);
    one(c, b, copy, pos, len);
    c.nt(hcombine(hbytes(b.p, n), pos * 128ull + len));
  }
}

/* every offset 0..71 and every width 0..64 in a buffer that ends with the field */
SECTION(all_offsets_widths, 72 * 4, 72 * 400) {
  u32 pos = static_cast<u32>(c.idx % 72);
  for (unsigned len = 0; len <= 64; len++) {
    size_t n = (pos + len + 7) / 8;
    if (n == 0) n = 1;
    Buf<u8> b(n);
    fill(c, b);
    std::vector<u8> copy(b.p, b.p + n);
    one(c, b, copy, pos, len);
    c.nt(hcombine(hbytes(b.p, n), pos * 128ull + len));
  }
  c.describe("pos=%u widths 0..64, buffer ends with the field", pos);
}

/* fields far into a large buffer: everything but the bytes around the field is zero */
SECTION(far_fields, 3000, 60000) {
  Sparse m;
  for (int k = 0; k < 4; k++) {
    unsigned len = static_cast<unsigned>(c.r.range(1, 64));
    u32 pos = Sparse::far_bit(c.r, len);
    size_t lo = pos / 8 >= 8 ? pos / 8 - 8 : 0, hi = std::min<size_t>((static_cast<u64>(pos) + len) / 8 + 8, Sparse::N);
    c.r.bytes(m.p + lo, hi - lo);
    c.describe("pos=%u len=%u of 2^32 bits", pos, len);
    u64 mu = model_u(m.p, pos, len);
    s64 ms = model_s(m.p, pos, len);
    u64 gl = getbitul(m.p, pos, static_cast<u8>(len));
    CHECK(gl == mu, "getbitul-far", "pos %u len %u got %" PRIx64 " want %" PRIx64, pos, len, gl, mu);
    s64 sl = getbitsl(m.p, pos, static_cast<u8>(len));
    CHECK(sl == ms, "getbitsl-far", "pos %u len %u got %" PRId64 " want %" PRId64, pos, len, sl, ms);
    if (len <= 32) {
      u32 g = getbitu(m.p, pos, static_cast<u8>(len));
      CHECK(g == mu, "getbitu-far", "pos %u len %u got %x want %" PRIx64, pos, len, g, mu);
      s32 s = getbits(m.p, pos, static_cast<u8>(len));
      CHECK(s == ms, "getbits-far", "pos %u len %u got %d want %" PRId64, pos, len, s, ms);
    }
    ev("far_reads");
    c.nt(hcombine(mu, pos * 128ull + len));
  }
}
