// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/memcpy_s.h>
using namespace mon;
RULE("case = one (destination size, count, placement of the two regions, null pointers) in one exact-size heap block: all placements with sizes up to 6 exhaustively, larger ones at random, up to 400 kB of memory and announced sizes beyond 2^32. "
     "Result and the whole block are compared with a model. Non-trivial: all; identity = parameters.");
NEED(copies, 10000);
NEED(overlap_refused, 5000);
NEED(size_refused, 5000);
NEED(null_refused, 500);
NEED(huge, 200);
NEED(wide, 1000);

static void one(Ctx &c, size_t block, size_t d, size_t ds, size_t s, size_t n, bool dnull, bool snull) {
  /* regions [d,d+ds) and [s,s+n) of one block; oversized requests may point past it, they must not be touched */
  Buf<u8> b(std::max<size_t>(block, 1));
  c.r.bytes(b.p, block);
  std::vector<u8> want(b.p, b.p + block);
  c.describe("block %zu dest@%zu size %zu src@%zu count %zu%s%s", block, d, ds, s, n, dnull ? " dest=NULL" : "", snull ? " src=NULL" : "");
  memcpy_s_t r = memcpy_s(dnull ? nullptr : b.p + d, ds, snull ? nullptr : b.p + s, n);
  bool overlap = (s > d && s < d + ds) || (d > s && d < s + n);
  if (dnull) CHECK(r == MEMCPY_S_DEST_NULL, "dest_null", "returned %d", r);
  else if (snull) CHECK(r == MEMCPY_S_SRC_NULL, "src_null", "returned %d", r);
  else if (ds == 0) CHECK(r == MEMCPY_S_DEST_SIZE_ZERO, "dest_zero", "returned %d", r);
  else if (n == 0) CHECK(r == MEMCPY_S_SRC_SIZE_ZERO, "src_zero", "returned %d", r);
  else if (n > ds) CHECK(r == MEMCPY_S_OVERSIZED, "oversized", "returned %d", r);
  else if (overlap) CHECK(r == MEMCPY_S_OVERLAP, "overlap", "returned %d", r);
  else if (s != d) {
    CHECK(r == MEMCPY_S_OK, "refused", "valid copy refused with %d", r);
    for (size_t i = 0; i < n; i++) want[d + i] = want[s + i];
  }
  CHECK(memcmp(b.p, want.data(), block) == 0, "content", "memory after the call differs from the specification (result %d): %s, expected %s", r, hex(b.p, block).c_str(),
        hex(want.data(), block).c_str());
  ev(dnull || snull ? "null_refused" : ds == 0 || n == 0 || n > ds ? "size_refused" : overlap ? "overlap_refused" : "copies");
  c.nt(hcombine(hcombine(d, ds), hcombine(hcombine(s, n), block * 4 + dnull * 2 + snull)));
}

SECTION(small, 7, 7) { /* destination size = idx, everything else exhaustive */
  size_t ds = static_cast<size_t>(c.idx);
  const size_t block = 14;
  for (size_t d = 0; d + ds <= block; d++)
    for (size_t s = 0; s <= block; s++)
      for (size_t n = 0; n <= 8; n++) {
        if (s + n > block && n <= ds) continue;
        one(c, block, d, ds, s, n, false, false);
      }
}
SECTION(nulls, 1000, 20000) {
  size_t ds = static_cast<size_t>(c.r.range(0, 9)), n = static_cast<size_t>(c.r.range(0, 9));
  bool dn = c.r.coin();
  one(c, 20, 0, ds, 10, n, dn, !dn || c.r.coin());
}
SECTION(large, 20000, 1000000) {
  size_t block = static_cast<size_t>(c.r.range(1, 600));
  size_t d = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(block)));
  size_t ds = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(block - d)));
  size_t n, s;
  if (c.r.coin(0.2)) { /* oversized */
    n = ds + static_cast<size_t>(c.r.coin() ? 1 : c.r.edgy(1, INT64_MAX / 2));
    s = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(block)));
  } else {
    n = static_cast<size_t>(c.r.coin(0.3) ? static_cast<int64_t>(ds) : c.r.range(0, static_cast<int64_t>(ds)));
    s = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(block - n)));
    if (c.r.coin(0.3)) { /* touching regions */
      if (c.r.coin() && d + ds + n <= block) s = d + ds;
      else if (d >= n) s = d - n;
    }
  }
  one(c, block, d, ds, s, n, false, false);
}

/* sizes that do not fit in 16 bits, and announced sizes that do not fit in 32 */
SECTION(huge, 300, 6000) {
  size_t n = static_cast<size_t>(c.r.coin(0.3) ? 65536 * c.r.range(1, 3) + c.r.range(-2, 2) : c.r.range(1000, 200000));
  size_t gap = static_cast<size_t>(c.r.range(0, 70000));
  if (c.r.coin(0.3)) gap = 0;
  bool up = c.r.coin();
  /* destination and source in one block, announced size up to the space there is */
  size_t ds = n + (up ? 0 : static_cast<size_t>(c.r.range(0, static_cast<int64_t>(gap))));
  size_t d = up ? n + gap : 0, s = up ? 0 : n + gap, block = 2 * n + gap;
  if (c.r.coin(0.15)) n = ds + static_cast<size_t>(c.r.pick<int64_t>({1, 65536, 65537, INT64_C(1) << 32, (INT64_C(1) << 32) + 5}));
  else if (c.r.coin(0.3)) s = d > s ? d - std::min<size_t>(d, static_cast<size_t>(c.r.range(1, static_cast<int64_t>(n)))) : d + static_cast<size_t>(c.r.range(1, static_cast<int64_t>(ds) - 1));
  one(c, block, d, ds, s, n, false, false);
  ev("huge");
}
SECTION(wide, 2000, 60000) {
  /* the destination is announced larger than 4 GiB and the source lies below it, so nothing overlaps */
  size_t n = static_cast<size_t>(c.r.range(1, 200)), ds = (static_cast<size_t>(c.r.range(1, 1000)) << 32) + static_cast<size_t>(c.r.coin() ? 0 : c.r.range(0, 40));
  if (c.r.coin()) one(c, 2 * n, n, ds, 0, n, false, false);
  else { /* or above, inside what was announced */
    size_t s = static_cast<size_t>(c.r.range(1, static_cast<int64_t>(n)));
    one(c, 2 * n, 0, ds, s, n, false, false);
  }
  ev("wide");
}
