// @run variant=tsan shards=8 cpu=120
// @run variant=plain shards=4 cpu=120
#include "work3.h"
#include <sched.h>
#include <atomic>
#include <thread>
using namespace mon;
RULE("case = 40 units of work over every part of the library that takes its state from arguments (decoders, satellite states, validity, time, signal tables and strings, sets, linear algebra, geodesy, atmosphere, bits, solver), "
     "each executed once alone and then by 2..8 threads that all execute all units, each thread in its own order with injected delays, under ThreadSanitizer and uninstrumented at full speed; every result (hash of all outputs) "
     "must equal the one computed alone, and ThreadSanitizer must see no race. The first case of each process makes the first calls into the library from several threads at once. Non-trivial: every case; identity = hash of the sequential results and the thread orders.");
NEED(concurrent_units, 20000);
NEED(overlapped, 5000);
NEED(same_unit_at_once, 500);
typedef void (*unit_fn)(Rng &, work::Out &, work::Meas *);
static const struct {
  const char *name;
  unit_fn f;
  int weight;
} units[] = {{"gps", work::gps, 3}, {"gal", work::gal, 3}, {"bds", work::bds, 3}, {"glo", work::glo, 3}, {"pages", work::pages, 3}, {"fix", work::fix, 1}, {"times", work::times, 4},
             {"signals", work::signals, 3}, {"algebra", work::algebra, 3}, {"geodesy", work::geodesy, 3}, {"bytes", work::bytes, 3}, {"states", work::states, 3}, {"solver", work::solver, 4},
             {"calendar", work::calendar, 3}, {"identity", work::identity, 3}, {"matrices", work::matrices, 3}, {"streams", work::streams, 3}, {"selective", work::selective, 2}, {"strings", work::strings, 2}};
static const int NU = sizeof units / sizeof units[0];

/* before anything else has run in the process: nothing is set up behind the caller's back on the first call
   (only the first case of each process starts cold) */
SECTION(cold, 64, 128) {
  pvt::map_glo();
  nav::GloBits::pos(85);
  gnss::all_sids();
  static bool warm;
  if (!warm) ev("cold_start");
  warm = true;
  const int nt = static_cast<int>(c.r.range(3, 8)), N = NU * 3;
  std::vector<uint64_t> seeds;
  std::vector<int> ord;
  for (int i = 0; i < N; i++) seeds.push_back(c.r.u64()), ord.push_back(i);
  c.r.shuffle(ord);
  bool sync = c.r.coin(0.7);
  uint64_t os = c.r.u64();
  std::vector<std::vector<uint64_t>> got(static_cast<size_t>(nt), std::vector<uint64_t>(static_cast<size_t>(N)));
  std::atomic<int> ready{0};
  auto body = [&](int t) {
    Rng o(os + static_cast<uint64_t>(t));
    std::vector<int> mine = ord;
    if (!sync) o.shuffle(mine);
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
    for (int i : mine) {
      Rng q(seeds[static_cast<size_t>(i)]);
      work::Out out;
      units[i % NU].f(q, out, nullptr);
      got[static_cast<size_t>(t)][static_cast<size_t>(i)] = out.h;
    }
  };
  c.describe("first calls of the process, made by %d threads in %s order", nt, sync ? "the same" : "different");
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back(body, t);
  for (auto &t : th) t.join();
  uint64_t h = 0;
  for (int i = 0; i < N; i++) {
    Rng q(seeds[static_cast<size_t>(i)]);
    work::Out out;
    units[i % NU].f(q, out, nullptr);
    h = hcombine(h, out.h);
    for (int t = 0; t < nt; t++) {
      uint64_t g = got[static_cast<size_t>(t)][static_cast<size_t>(i)];
      CHECK(g == out.h, "cold", "unit %s: result %016llx at the first calls of the process, %016llx when run alone afterwards", units[i % NU].name, static_cast<unsigned long long>(g), static_cast<unsigned long long>(out.h));
      ev("cold_units");
    }
  }
  c.nt(h);
}
NEED(cold_start, 8);
NEED(cold_units, 5000);
SECTION(concurrent, 160, 30000) {
  pvt::map_glo();
  nav::GloBits::pos(85);
  gnss::all_sids();
  struct Job {
    int u;
    uint64_t seed, want;
  };
  std::vector<int> bag;
  for (int i = 0; i < NU; i++)
    for (int k = 0; k < units[i].weight; k++) bag.push_back(i);
  std::vector<Job> jobs;
  int focus = c.r.coin(0.5) ? c.r.pick(bag) : -1; /* half the cases concentrate on one kind of unit */
  for (int i = 0; i < 40; i++) jobs.push_back({focus >= 0 && c.r.coin(0.8) ? focus : i < NU ? i : c.r.pick(bag), c.r.u64(), 0});
  uint64_t h = 0;
  for (auto &j : jobs) {
    Rng r(j.seed);
    work::Out o;
    units[j.u].f(r, o, nullptr);
    j.want = o.h;
    h = hcombine(h, o.h);
  }
  int nt = static_cast<int>(c.r.range(2, 8));
  std::atomic<int> ready{0}, active{0}, bad{-1};
  std::atomic<int64_t> done{0}, over{0}, same{0};
  std::atomic<uint64_t> badh{0};
  std::vector<std::atomic<int>> busy(static_cast<size_t>(NU));
  for (auto &b : busy) b = 0;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nt; t++) seeds.push_back(c.r.u64()), h = hcombine(h, seeds.back());
  bool sync = c.r.coin(); /* all threads in the same order: the same function at the same time */
  auto body = [&](int t) {
    Rng r(sync ? seeds[0] : seeds[static_cast<size_t>(t)]), delay(seeds[static_cast<size_t>(t)] ^ 77);
    std::vector<int> ord;
    for (int i = 0; i < 40; i++) ord.push_back(i);
    r.shuffle(ord);
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
    for (int i : ord) {
      const Job &j = jobs[static_cast<size_t>(i)];
      /* relaxed: the monitor's own counters must not order the threads */
      if (active.fetch_add(1, std::memory_order_relaxed) > 0) over.fetch_add(1, std::memory_order_relaxed);
      if (busy[static_cast<size_t>(j.u)].fetch_add(1, std::memory_order_relaxed) > 0) same.fetch_add(1, std::memory_order_relaxed);
      Rng q(j.seed);
      work::Out o;
      units[j.u].f(q, o, nullptr);
      busy[static_cast<size_t>(j.u)].fetch_sub(1, std::memory_order_relaxed);
      active.fetch_sub(1, std::memory_order_relaxed);
      if (o.h != j.want) bad.store(i, std::memory_order_relaxed), badh.store(o.h, std::memory_order_relaxed);
      done.fetch_add(1, std::memory_order_relaxed);
      if (delay.coin(0.3)) sched_yield();
      else if (delay.coin(0.2))
        for (volatile int k = 0; k < 2000; k = k + 1) {
        }
    }
  };
  c.describe("%d threads, %s order, unit in focus %s", nt, sync ? "same" : "different", focus >= 0 ? units[focus].name : "none");
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back(body, t);
  for (auto &t : th) t.join();
  int b = bad;
  CHECK(b < 0, "result", "unit %s (number %d): result %016llx when run concurrently, %016llx when run alone", units[jobs[static_cast<size_t>(b)].u].name, b, static_cast<unsigned long long>(badh.load()),
        static_cast<unsigned long long>(jobs[static_cast<size_t>(b)].want));
  /* and once more alone: the concurrent phase left nothing behind */
  for (int i = 0; i < 10; i++) {
    Job &j = jobs[static_cast<size_t>(c.r.range(0, 39))];
    Rng r(j.seed);
    work::Out o;
    units[j.u].f(r, o, nullptr);
    CHECK(o.h == j.want, "left_over", "unit %s: result %016llx after the concurrent phase, %016llx before", units[j.u].name, static_cast<unsigned long long>(o.h), static_cast<unsigned long long>(j.want));
  }
  ev("concurrent_units", done), ev("overlapped", over), ev("same_unit_at_once", same);
  c.nt(h);
}

/* alone: the result of a unit does not depend on which units ran before it */
SECTION(history, 300, 60000) {
  pvt::map_glo();
  std::vector<std::pair<int, uint64_t>> jobs;
  for (int i = 0; i < 20; i++) jobs.push_back({static_cast<int>(c.r.range(0, NU - 1)), c.r.u64()});
  std::vector<uint64_t> want;
  uint64_t h = 0;
  auto run = [&](size_t i) {
    Rng r(jobs[i].second);
    work::Out o;
    units[jobs[i].first].f(r, o, nullptr);
    return o.h;
  };
  for (size_t i = 0; i < jobs.size(); i++) want.push_back(run(i)), h = hcombine(h, want.back());
  std::vector<int> ord;
  for (int i = 0; i < 40; i++) ord.push_back(static_cast<int>(c.r.range(0, 19)));
  for (int i : ord) {
    uint64_t g = run(static_cast<size_t>(i));
    CHECK(g == want[static_cast<size_t>(i)], "history", "unit %s: result %016llx, %016llx at its first execution", units[jobs[static_cast<size_t>(i)].first].name, static_cast<unsigned long long>(g), static_cast<unsigned long long>(want[static_cast<size_t>(i)]));
    ev("repeated_units");
  }
  c.nt(h);
}
NEED(repeated_units, 10000);
