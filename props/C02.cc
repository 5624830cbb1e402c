// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/bits.h>
using namespace mon;
RULE("case = random buffers in exact-size heap blocks; writes, copies and shifts are mirrored on a vector<bool> and the whole buffer "
     "is compared after each operation; field writes and copies also far into a sparse region, copies and shifts of up to 300 kB. Non-trivial: an operation changed or could change at least one bit; identity = (contents, operands).");
NEED(field_writes, 100000);
NEED(bit_copies, 20000);
NEED(shifts, 20000);
NEED(writes_ending_at_last_bit, 1000);
NEED(far_writes, 2000);
NEED(far_copies, 500);
NEED(long_operations, 150);

typedef std::vector<bool> Bits;
static Bits to_bits(const u8 *b, size_t n) {
  Bits v(n * 8);
  for (size_t i = 0; i < n * 8; i++) v[i] = (b[i / 8] >> (7 - i % 8)) & 1;
  return v;
}
static void same(const Bits &m, const u8 *b, size_t n, const char *key, const char *what) {
  for (size_t i = 0; i < n * 8; i++) {
    bool g = (b[i / 8] >> (7 - i % 8)) & 1;
    if (g != m[i]) mon::fail(key, "%s: bit %zu is %d, expected %d", what, i, g, static_cast<int>(m[i]));
  }
}
static void model_write(Bits &m, u32 pos, u32 len, u64 v) {
  for (u32 i = 0; i < len; i++) m[pos + i] = (v >> (len - 1 - i)) & 1;
}

static void write_one(Ctx &c, Buf<u8> &b, u32 pos, u32 len) {
  u64 v = c.r.coin(0.2) ? (c.r.coin() ? ~0ull : 0ull) : c.r.u64();
  Bits m = to_bits(b, b.n);
  char what[200];
  int form = static_cast<int>(len <= 32 ? c.r.range(0, 3) : c.r.range(2, 3));
  snprintf(what, sizeof what, "form %d pos %u len %u value %" PRIx64, form, pos, len, v);
  if (c.note.empty()) c.describe("buf[%zu]=%s %s", b.n, hex(b.p, std::min<size_t>(b.n, 20)).c_str(), what);
  model_write(m, pos, len, v);
  static const char *const keys[] = {"setbitu", "setbits", "setbitul", "setbitsl"};
  switch (form) {
    case 0: setbitu(b, pos, len, static_cast<u32>(v)); break;
    case 1: setbits(b, pos, len, static_cast<s32>(static_cast<u32>(v))); break;
    case 2: setbitul(b, pos, len, v); break;
    default: setbitsl(b, pos, len, static_cast<s64>(v)); break;
  }
  ev("field_writes");
  if (pos + len == b.n * 8) ev("writes_ending_at_last_bit");
  same(m, b, b.n, keys[form], what);
  /* read back through the library */
  if (len >= 1) {
    u64 mask = len == 64 ? ~0ull : (1ull << len) - 1;
    CHECK(getbitul(b, pos, static_cast<u8>(len)) == (v & mask), "readback", "%s", what);
    s64 sv = static_cast<s64>(v << (64 - len)) >> (64 - len);
    CHECK(getbitsl(b, pos, static_cast<u8>(len)) == sv, "readback-signed", "%s", what);
    if (len <= 32) {
      CHECK(getbitu(b, pos, static_cast<u8>(len)) == (v & mask), "readback", "%s", what);
      CHECK(getbits(b, pos, static_cast<u8>(len)) == sv, "readback-signed", "%s", what);
    }
  }
}

SECTION(field_writes, 25000, 1500000) {
  size_t n = c.r.coin(0.01) ? static_cast<size_t>(c.r.range(8192, 20000)) : static_cast<size_t>(c.r.range(1, 60));
  Buf<u8> b(n);
  if (c.r.coin(0.7)) c.r.bytes(b.p, n);
  else memset(b.p, c.r.coin() ? 0xff : 0, n);
  u32 nbits = static_cast<u32>(n * 8);
  for (int k = 0; k < 6; k++) {
    u32 len = static_cast<u32>(c.r.coin() ? c.r.range(0, 64) : c.r.pick<int>({1, 7, 8, 9, 31, 32, 33, 63, 64}));
    if (len > nbits) len = nbits;
    u32 pos = c.r.coin(0.3) ? nbits - len : static_cast<u32>(c.r.range(0, nbits - len));
    c.nt(hcombine(hbytes(b.p, n), pos * 128ull + len));
    write_one(c, b, pos, len);
  }
}

/* every alignment and width, buffer ending with the field */
SECTION(all_offsets_widths, 40 * 4, 40 * 400) {
  u32 pos = static_cast<u32>(c.idx % 40);
  for (u32 len = 1; len <= 64; len++) {
    Buf<u8> b((pos + len + 7) / 8);
    c.r.bytes(b.p, b.n);
    c.nt(hcombine(hbytes(b.p, b.n), pos * 128ull + len));
    write_one(c, b, pos, len);
  }
}

/* widths the interface refuses leave the buffer alone */
SECTION(refused_widths, 2000, 50000) {
  Buf<u8> b(static_cast<size_t>(c.r.range(1, 40)));
  c.r.bytes(b.p, b.n);
  Bits m = to_bits(b, b.n);
  u32 pos = static_cast<u32>(c.r.range(0, static_cast<int64_t>(b.n) * 8 - 1));
  u32 len = c.r.coin(0.3) ? 0 : static_cast<u32>(c.r.coin() ? c.r.range(65, 300) : c.r.range(65, UINT32_MAX));
  u64 v = c.r.u64();
  setbitul(b, pos, len, v);
  setbitsl(b, pos, len, static_cast<s64>(v));
  setbitu(b, pos, len, static_cast<u32>(v));
  setbits(b, pos, len, static_cast<s32>(v));
  if (len == 0 || len > 32) {
    u32 l32 = len == 0 ? static_cast<u32>(c.r.range(33, 64)) : len;
    setbitu(b, pos, l32, static_cast<u32>(v));
  }
  same(m, b, b.n, "refused-width-wrote", "width out of range");
  c.nt(hcombine(hbytes(b.p, b.n), hcombine(pos, len)));
}

SECTION(bitcopy, 25000, 1500000) {
  bool big = c.r.coin(0.005);
  size_t ns = static_cast<size_t>(big ? c.r.range(8190, 9000) : c.r.range(1, 70)), nd = static_cast<size_t>(big ? c.r.range(8190, 9000) : c.r.range(1, 70));
  Buf<u8> s(ns), d(nd);
  c.r.bytes(s.p, ns);
  c.r.bytes(d.p, nd);
  u32 cnt = static_cast<u32>(c.r.range(0, static_cast<int64_t>(std::min(ns, nd)) * 8));
  u32 si = c.r.coin(0.3) ? static_cast<u32>(ns * 8 - cnt) : static_cast<u32>(c.r.range(0, static_cast<int64_t>(ns * 8 - cnt)));
  u32 di = c.r.coin(0.3) ? static_cast<u32>(nd * 8 - cnt) : static_cast<u32>(c.r.range(0, static_cast<int64_t>(nd * 8 - cnt)));
  Bits ms = to_bits(s, ns), md = to_bits(d, nd);
  for (u32 i = 0; i < cnt; i++) md[di + i] = ms[si + i];
  c.describe("copy %u bits src %u/%zu dst %u/%zu", cnt, si, ns * 8, di, nd * 8);
  bitcopy(d, di, s, si, cnt);
  ev("bit_copies");
  same(md, d, nd, "bitcopy-dst", "bitcopy");
  same(ms, s, ns, "bitcopy-src", "bitcopy source");
  c.nt(hcombine(hcombine(si, di), hcombine(cnt, hbytes(d.p, nd))));
}

SECTION(bitshl, 25000, 1500000) {
  size_t n = static_cast<size_t>(c.r.coin(0.005) ? c.r.range(8190, 9000) : c.r.range(1, 70));
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  u32 nb = static_cast<u32>(n * 8);
  u32 sh = c.r.coin(0.1) ? static_cast<u32>(c.r.edgy(nb, UINT32_MAX)) : static_cast<u32>(c.r.range(0, nb + 3));
  Bits m = to_bits(b, n), e(nb);
  for (u32 i = 0; i < nb; i++) e[i] = (static_cast<u64>(i) + sh < nb) ? static_cast<bool>(m[i + sh]) : false;
  c.describe("shift %zu bytes left by %u", n, sh);
  bitshl(b, static_cast<u32>(n), sh);
  ev("shifts");
  same(e, b, n, "bitshl", "shift");
  c.nt(hcombine(sh, hbytes(b.p, n)));
}

/* the same far into a large buffer */
SECTION(far_writes, 3000, 60000) {
  Sparse m;
  u32 len = static_cast<u32>(c.r.range(1, 64)), pos = Sparse::far_bit(c.r, len);
  size_t lo = pos / 8 >= 8 ? pos / 8 - 8 : 0, hi = std::min<size_t>((static_cast<u64>(pos) + len) / 8 + 8, Sparse::N), n = hi - lo;
  c.r.bytes(m.p + lo, n);
  Bits want = to_bits(m.p + lo, n);
  u64 v = c.r.u64();
  int form = static_cast<int>(len <= 32 ? c.r.range(0, 3) : c.r.range(2, 3));
  model_write(want, static_cast<u32>(pos - lo * 8), len, v);
  c.describe("form %d pos %u len %u value %" PRIx64, form, pos, len, v);
  switch (form) {
    case 0: setbitu(m.p, pos, len, static_cast<u32>(v)); break;
    case 1: setbits(m.p, pos, len, static_cast<s32>(static_cast<u32>(v))); break;
    case 2: setbitul(m.p, pos, len, v); break;
    default: setbitsl(m.p, pos, len, static_cast<s64>(v)); break;
  }
  same(want, m.p + lo, n, "far-write", "field far into the buffer");
  CHECK(getbitul(m.p, pos, static_cast<u8>(len)) == (len == 64 ? v : v & ((1ull << len) - 1)), "far-readback", "pos %u len %u", pos, len);
  ev("far_writes");
  c.nt(hcombine(v, pos * 128ull + len));
}
SECTION(far_copies, 2000, 40000) {
  Sparse m;
  u32 cnt = static_cast<u32>(c.r.range(1, 300)), si = Sparse::far_bit(c.r, cnt), di = Sparse::far_bit(c.r, cnt);
  if (c.r.coin(0.3)) si = static_cast<u32>(c.r.range(0, 100));
  u32 slo = si / 8, dlo = di / 8;
  if (slo < dlo ? dlo - slo < 120 : slo - dlo < 120) return;
  size_t sn = std::min<size_t>(60, Sparse::N - slo), dn = std::min<size_t>(60, Sparse::N - dlo);
  c.r.bytes(m.p + slo, sn);
  c.r.bytes(m.p + dlo, dn);
  Bits ms = to_bits(m.p + slo, sn), md = to_bits(m.p + dlo, dn);
  for (u32 i = 0; i < cnt; i++) md[di % 8 + i] = ms[si % 8 + i];
  c.describe("copy %u bits from %u to %u", cnt, si, di);
  bitcopy(m.p, di, m.p, si, cnt);
  same(md, m.p + dlo, dn, "far-copy-dst", "bitcopy far into the buffer");
  same(ms, m.p + slo, sn, "far-copy-src", "bitcopy source");
  ev("far_copies");
  c.nt(hcombine(hcombine(si, di), cnt));
}

/* long copies and shifts, whole buffer compared */
SECTION(long_copies, 120, 6000) {
  size_t nb = static_cast<size_t>(c.r.coin(0.2) ? c.r.range(260000, 300000) : c.r.range(500, 10000));
  u32 cnt = static_cast<u32>(nb * 8 - static_cast<size_t>(c.r.range(0, 200)));
  u32 si = c.r.coin() ? 0 : static_cast<u32>(c.r.range(0, 40)), di = c.r.coin() ? si % 8 : static_cast<u32>(c.r.range(0, 40));
  if (c.r.coin(0.3)) si = 8 * static_cast<u32>(c.r.range(0, 5)), di = 8 * static_cast<u32>(c.r.range(0, 5));
  size_t sn = (si + cnt + 7) / 8, dn = (di + cnt + 7) / 8;
  Buf<u8> s(sn), d(dn);
  c.r.bytes(s.p, sn);
  c.r.bytes(d.p, dn);
  Bits ms = to_bits(s, sn), md = to_bits(d, dn);
  for (u32 i = 0; i < cnt; i++) md[di + i] = ms[si + i];
  c.describe("copy %u bits src %u dst %u", cnt, si, di);
  bitcopy(d, di, s, si, cnt);
  same(md, d, dn, "long-copy-dst", "bitcopy");
  same(ms, s, sn, "long-copy-src", "bitcopy source");
  ev("long_operations");
  c.nt(hcombine(hcombine(si, di), cnt));
}
SECTION(long_shifts, 80, 4000) {
  size_t n = static_cast<size_t>(c.r.coin(0.3) ? c.r.range(65530, 70000) : c.r.coin(0.3) ? c.r.range(131060, 140000) : c.r.range(500, 10000));
  Buf<u8> b(n);
  c.r.bytes(b.p, n);
  u32 nb = static_cast<u32>(n * 8), sh = static_cast<u32>(c.r.coin() ? c.r.range(0, 80) : c.r.coin(0.3) ? nb - c.r.range(0, 80) : c.r.range(0, nb));
  Bits m = to_bits(b, n), e(nb);
  for (u32 i = 0; i < nb; i++) e[i] = (static_cast<u64>(i) + sh < nb) ? static_cast<bool>(m[i + sh]) : false;
  c.describe("shift %zu bytes left by %u", n, sh);
  bitshl(b, static_cast<u32>(n), sh);
  same(e, b, n, "long-shift", "shift");
  ev("long_operations");
  c.nt(hcombine(sh, n));
}
