// @run variant=tsan shards=3 cpu=120
// @run variant=plain shards=3 cpu=120
#include "mon.h"
#include <sched.h>
#include <swiftnav/fifo_byte.h>
#include <atomic>
#include <thread>
using namespace mon;
RULE("case = one producer and one consumer thread moving a numbered byte stream through one FIFO (random size, chunk lengths, pauses, peeks, removals), under "
     "ThreadSanitizer and again uninstrumented; the consumer checks that byte k of the stream is byte k written. Non-trivial: both threads blocked on the other at least "
     "once; identity = hash of the observed transfer sizes, i.e. of the interleaving.");
NEED(bytes_checked, 400000);
NEED(producer_found_full, 100);
NEED(consumer_found_empty, 100);
NEED(partial_transfers, 100);

static uint8_t byte_at(uint64_t seed, uint64_t k) { return static_cast<uint8_t>(mix(seed + k)); }

static void spsc(Ctx &c, uint32_t size, uint64_t total, uint32_t start) {
  Buf<uint8_t> store(size);
  fifo_t f;
  fifo_init(&f, store, size);
  f.read_index = start;
  f.write_index = start;
  const uint64_t seed = c.r.u64();
  const uint64_t ps = c.r.u64(), cs = c.r.u64();
  std::atomic<bool> stop{false}, go{false};
  uint64_t full = 0, empty = 0, partial = 0, hp = 0, hc = 0;
  char err[200] = "";
  const char *perr = nullptr;
  std::thread prod([&] {
    Rng r(ps);
    std::vector<uint8_t> b(size + 4);
    uint64_t k = 0;
    while (!go) {
    }
    while (k < total && !stop) {
      uint32_t len = static_cast<uint32_t>(std::min<uint64_t>(static_cast<uint64_t>(r.range(1, size + 3)), total - k));
      bool promised = false;
      if (r.coin(0.3)) {
        uint32_t sp = fifo_space(&f);
        if (sp > size) perr = "space exceeds the capacity";
        if (sp > 0 && sp <= total - k && sp <= size) {
          len = sp;
          promised = true;
        }
      }
      for (uint32_t i = 0; i < len; i++) b[i] = byte_at(seed, k + i);
      uint32_t w = fifo_write(&f, b.data(), len);
      if (promised && w != len) perr = "space seen by the producer was not available to it";
      if (w > len) perr = "accepted more than offered";
      if (w == 0) {
        full++;
        sched_yield();
      } else if (w < len) {
        partial++;
      }
      hp = hcombine(hp, w);
      k += w;
      if (perr) break;
      if (r.coin(0.02)) sched_yield();
    }
    if (perr) stop = true;
  });
  std::thread cons([&] {
    Rng r(cs);
    std::vector<uint8_t> b(size + 4);
    uint64_t k = 0;
    while (!go) {
    }
    while (k < total && !stop) {
      uint32_t len = static_cast<uint32_t>(r.range(1, size + 3));
      uint32_t got;
      uint32_t avail = 0;
      if (r.coin(0.3)) {
        avail = fifo_length(&f);
        if (avail > size) {
          snprintf(err, sizeof err, "length %u exceeds the capacity %u", avail, size);
          break;
        }
      }
      bool removed = false;
      if (r.coin(0.4)) {
        got = fifo_peek(&f, b.data(), len);
        if (got) {
          uint32_t rm = fifo_remove(&f, got);
          if (rm != got) {
            snprintf(err, sizeof err, "peeked %u bytes but removed %u", got, rm);
            break;
          }
        }
        removed = true;
      } else {
        got = fifo_read(&f, b.data(), len);
      }
      (void)removed;
      if (got > len || got < std::min(avail, len)) {
        snprintf(err, sizeof err, "length said %u, asked %u, got %u", avail, len, got);
        break;
      }
      bool bad = false;
      for (uint32_t i = 0; i < got; i++) {
        if (b[i] != byte_at(seed, k + i)) {
          snprintf(err, sizeof err, "byte %llu of the stream is %02x, expected %02x", static_cast<unsigned long long>(k + i), b[i], byte_at(seed, k + i));
          bad = true;
          break;
        }
      }
      if (bad) break;
      if (got == 0) {
        empty++;
        sched_yield();
      }
      hc = hcombine(hc, got);
      k += got;
      if (r.coin(0.02)) sched_yield();
    }
    if (err[0]) stop = true;
  });
  go = true;
  prod.join();
  cons.join();
  c.describe("size %u, %llu bytes, producer found it full %llu times, consumer empty %llu times", size, static_cast<unsigned long long>(total),
             static_cast<unsigned long long>(full), static_cast<unsigned long long>(empty));
  CHECK(!perr, "producer-view", "%s", perr);
  CHECK(!err[0], "stream-order", "%s", err);
  CHECK(fifo_length(&f) == 0, "conservation", "%u bytes left after everything was delivered", fifo_length(&f));
  ev("bytes_checked", static_cast<int64_t>(total));
  ev("producer_found_full", static_cast<int64_t>(full));
  ev("consumer_found_empty", static_cast<int64_t>(empty));
  ev("partial_transfers", static_cast<int64_t>(partial));
  if (full && empty) c.nt(hcombine(hp, hc));
}

SECTION(spsc, 120, 4000) {
  uint32_t size = 1u << c.r.range(0, 9);
  spsc(c, size, size < 8 ? 2000 : 12000, c.r.coin(0.5) ? 0 : UINT32_MAX - static_cast<uint32_t>(c.r.range(0, 4000)));
}
