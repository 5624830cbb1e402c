// @run variant=asan shards=8
#include "mon.h"
#include <swiftnav/fifo_byte.h>
#include <deque>
using namespace mon;
RULE("case = a random history of write/read/peek/remove/length/space on a FIFO whose buffer is an exact-size heap block, compared with a bounded-queue model; "
     "counters start at 0 or near their wrap-around. Non-trivial: the history both filled and drained; identity = hash of the operations and results.");
NEED(operations, 300000);
NEED(wrapped_transfers, 3000);
NEED(rejected_bytes, 3000);
NEED(counter_wraps, 300);
NEED(natural_counter_wraps, 1);

static void history(Ctx &c, uint32_t size, uint32_t start, int steps) {
  Buf<uint8_t> store(size);
  fifo_t f;
  fifo_init(&f, store, size);
  if (start) {
    f.read_index = start;
    f.write_index = start;
  }
  std::deque<uint8_t> q;
  uint8_t next = static_cast<uint8_t>(c.r.u32());
  bool filled = false, drained = false;
  uint64_t h = hcombine(size, start);
  uint32_t consumed = 0, produced = 0;
  c.describe("size %u counters start %u, %d steps", size, start, steps);
  for (int k = 0; k < steps; k++) {
    ev("operations");
    uint32_t len = static_cast<uint32_t>(c.r.coin(0.8) ? c.r.range(0, size + 2) : c.r.range(0, 3));
    if (c.r.coin(0.05)) len = static_cast<uint32_t>(c.r.range(0, 3 * static_cast<int64_t>(size) + 5));
    int op = static_cast<int>(c.r.range(0, 4));
    h = hcombine(h, hcombine(static_cast<uint64_t>(op), len));
    if (op <= 1) {
      Buf<uint8_t> in(len);
      for (uint32_t i = 0; i < len; i++) in[i] = static_cast<uint8_t>(next + i);
      uint32_t want = std::min<uint32_t>(len, size - static_cast<uint32_t>(q.size()));
      uint32_t got = fifo_write(&f, in, len);
      CHECK(got == want, "write-count", "size %u held %zu write %u: accepted %u want %u", size, q.size(), len, got, want);
      for (uint32_t i = 0; i < want; i++) q.push_back(in[i]);
      next = static_cast<uint8_t>(next + want);
      if (want && (produced + start) / size != (produced + start + want - 1) / size) ev("wrapped_transfers");
      uint32_t np = produced + want;
      if (static_cast<uint64_t>(start) + produced < (1ull << 32) && static_cast<uint64_t>(start) + np >= (1ull << 32)) ev("counter_wraps");
      produced = np;
      if (len > want) ev("rejected_bytes");
      filled |= q.size() == size;
    } else {
      uint32_t want = std::min<uint32_t>(len, static_cast<uint32_t>(q.size()));
      Buf<uint8_t> out(std::max<uint32_t>(want, 1));
      out[0] = 0x77;
      uint32_t got;
      if (op == 2) {
        got = fifo_read(&f, out, len);
      } else if (op == 3) {
        got = fifo_peek(&f, out, len);
      } else {
        got = fifo_remove(&f, len);
      }
      CHECK(got == want, op == 2 ? "read-count" : op == 3 ? "peek-count" : "remove-count", "size %u held %zu ask %u: got %u want %u", size, q.size(), len, got, want);
      if (op != 4)
        for (uint32_t i = 0; i < want; i++) CHECK(out[i] == q[i], op == 2 ? "read-data" : "peek-data", "byte %u of %u is %02x, expected %02x", i, want, out[i], q[i]);
      if (op != 3) {
        q.erase(q.begin(), q.begin() + want);
        consumed += want;
        if (q.empty() && want) drained = true;
      }
      h = hcombine(h, got);
    }
    CHECK(fifo_length(&f) == q.size(), "length", "length %u, expected %zu", fifo_length(&f), q.size());
    CHECK(fifo_space(&f) == size - q.size(), "space", "space %u, expected %zu", fifo_space(&f), size - q.size());
  }
  if (filled && drained) c.nt(h);
}

SECTION(histories, 20000, 600000) {
  uint32_t size = 1u << c.r.range(0, 8);
  history(c, size, 0, 40);
}
SECTION(counter_wrap, 10000, 300000) {
  uint32_t size = 1u << c.r.range(0, 8);
  uint32_t start = UINT32_MAX - static_cast<uint32_t>(c.r.range(0, 4 * static_cast<int64_t>(size)));
  history(c, size, start, 40);
}
SECTION(mid_counters, 5000, 100000) {
  uint32_t size = 1u << c.r.range(0, 10);
  history(c, size, 0x80000000u - static_cast<uint32_t>(c.r.range(0, 4 * static_cast<int64_t>(size))), 40);
}

SECTION(large, 60, 2000) {
  uint32_t size = 1u << c.r.range(15, 18);
  history(c, size, c.r.coin() ? 0 : UINT32_MAX - static_cast<uint32_t>(c.r.range(0, 4 * static_cast<int64_t>(size))), 12);
}
/* drive the counters through 2^32 with real traffic */
SECTION(natural_wrap, 1, 2) {
  const uint32_t size = 1u << (c.idx == 0 ? 20 : 16);
  Buf<uint8_t> store(size);
  fifo_t f;
  fifo_init(&f, store, size);
  std::vector<uint8_t> pat(2 * size), out(size);
  for (size_t i = 0; i < pat.size(); i++) pat[i] = static_cast<uint8_t>(mix(i % size));
  uint64_t total = 0;
  while (total < (1ull << 32) + 5ull * size) {
    uint32_t len = size - static_cast<uint32_t>(c.r.range(0, 3));
    /* byte k of the stream is pat[k % size] */
    uint32_t w = fifo_write(&f, pat.data() + total % size, len);
    CHECK(w == len, "write-count", "after %" PRIu64 " bytes wrote %u of %u", total, w, len);
    CHECK(fifo_length(&f) == len, "length", "after %" PRIu64, total);
    uint32_t r = fifo_read(&f, out.data(), size);
    CHECK(r == len && memcmp(out.data(), pat.data() + total % size, len) == 0, "read-data", "after %" PRIu64 " bytes", total);
    total += len;
    ev("operations", 2);
  }
  ev("natural_counter_wraps");
  c.describe("%" PRIu64 " bytes through a %u-byte FIFO", total, size);
  c.nt(total);
}

/* a FIFO can be initialised again over the same storage */
SECTION(reinit, 500, 5000) {
  uint32_t size = 1u << c.r.range(0, 6);
  Buf<uint8_t> store(size), junk(size), out(size);
  fifo_t f;
  memset(&f, 0xa5, sizeof f);
  fifo_init(&f, store, size);
  CHECK(fifo_length(&f) == 0 && fifo_space(&f) == size, "init-empty", "size %u", size);
  c.r.bytes(junk.p, size);
  fifo_write(&f, junk, static_cast<uint32_t>(c.r.range(0, size)));
  fifo_init(&f, store, size);
  CHECK(fifo_length(&f) == 0 && fifo_space(&f) == size, "init-empty", "size %u", size);
  CHECK(fifo_read(&f, out, size) == 0, "init-empty", "size %u", size);
  c.nt(hcombine(size, c.r.u64()));
}
