// @run variant=asan shards=8
#include "mon.h"
#include <algorithm>
#include <swiftnav/subsystem_status_report.h>
using namespace mon;
RULE("case = a history of 20..200 register (also again, also with NULL), deregister (also of unregistered nodes), reset and send operations over up to 8 exact-size heap nodes; the delivery log of "
     "every send is compared with the registered set, in registration order; receivers that deregister themselves or others, or send another report, during a delivery. Non-trivial: at least one report delivered; identity = history.");
NEED(reports_sent, 100000);
NEED(deliveries, 150000);
NEED(sends_to_none, 2000);
NEED(deregistered_first, 2000);
NEED(deregistered_middle, 2000);
NEED(deregistered_last, 2000);
NEED(reregistered, 5000);
NEED(null_registered, 1000);
NEED(inside_deregistered_self, 2000);
NEED(inside_deregistered_earlier, 2000);
NEED(inside_deregistered_later, 2000);
NEED(deliveries_to_more_than_255, 200);
NEED(inside_sent, 1000);

typedef swiftnav_subsystem_status_report_callback_node_t Node;
struct Del {
  int which;
  void *ctx;
  unsigned comp, gen, spec;
};
static std::vector<Del> got;
static void record(Del d) {
  got.push_back(d);
  if (got.size() > 1000) {
    fprintf(stderr, "one report was delivered more than 1000 times\n");
    abort();
  }
}
static void cb0(uint16_t a, uint8_t b, uint8_t d, void *x) { record({0, x, a, b, d}); }
static void cb1(uint16_t a, uint8_t b, uint8_t d, void *x) { record({1, x, a, b, d}); }
static void cb2(uint16_t a, uint8_t b, uint8_t d, void *x) { record({2, x, a, b, d}); }
static const pfn_subsystem_status_report cbs[3] = {cb0, cb1, cb2};

SECTION(history, 3000, 150000) {
  swiftnav_subsystem_status_report_callback_reset();
  size_t nn = static_cast<size_t>(c.r.coin(0.98) ? c.r.range(1, 8) : c.r.range(100, 700));
  std::vector<std::unique_ptr<Buf<Node>>> nodes;
  for (size_t i = 0; i < nn; i++) {
    nodes.emplace_back(new Buf<Node>(1));
    c.r.bytes(nodes[i]->p, sizeof(Node));
  }
  struct Reg {
    size_t node;
    int cb;
    void *ctx;
  };
  std::vector<Reg> reg;
  auto find = [&](size_t k) {
    for (size_t i = 0; i < reg.size(); i++)
      if (reg[i].node == k) return static_cast<int>(i);
    return -1;
  };
  uint64_t h = 0;
  bool delivered = false;
  int64_t n = nn > 8 ? c.r.range(600, 2500) : c.r.range(20, 200);
  for (int64_t i = 0; i < n; i++) {
    size_t k = static_cast<size_t>(c.r.range(0, static_cast<int64_t>(nn) - 1));
    int64_t op = c.r.range(0, 99);
    if (nn > 8) op = c.r.coin(0.85) ? c.r.range(0, 29) : c.r.coin(0.02) ? c.r.range(50, 51) : c.r.coin(0.6) ? 99 : c.r.range(30, 49); /* let the list grow */
    h = hcombine(h, static_cast<uint64_t>(op) * 16 + k);
    int at = find(k);
    if (op < 30) {
      int w = static_cast<int>(c.r.range(0, 2));
      void *x = c.r.coin(0.2) ? nullptr : reinterpret_cast<void *>(static_cast<uintptr_t>(c.r.u64()));
      swiftnav_subsystem_status_report_callback_register(nodes[k]->p, cbs[w], x);
      if (at >= 0) {
        reg.erase(reg.begin() + at);
        ev("reregistered");
      }
      reg.push_back({k, w, x});
    } else if (op < 33) {
      swiftnav_subsystem_status_report_callback_register(nodes[k]->p, nullptr, nullptr);
      if (at >= 0) reg.erase(reg.begin() + at);
      ev("null_registered");
    } else if (op < 50) {
      swiftnav_subsystem_status_report_callback_deregister(nodes[k]->p);
      if (at >= 0) {
        ev(at == 0 ? "deregistered_first" : at + 1 == static_cast<int>(reg.size()) ? "deregistered_last" : "deregistered_middle");
        reg.erase(reg.begin() + at);
        /* the caller may now reuse the node's memory */
        if (c.r.coin()) {
          nodes[k].reset(new Buf<Node>(1));
          c.r.bytes(nodes[k]->p, sizeof(Node));
        }
      }
    } else if (op < 52) {
      swiftnav_subsystem_status_report_callback_reset();
      reg.clear();
    } else {
      unsigned a = static_cast<unsigned>(c.r.edgy(0, 65535)), b = static_cast<unsigned>(c.r.edgy(0, 255)), d = static_cast<unsigned>(c.r.edgy(0, 255));
      got.clear();
      swiftnav_send_subsystem_status_report(static_cast<uint16_t>(a), static_cast<uint8_t>(b), static_cast<uint8_t>(d));
      ev("reports_sent");
      CHECK(got.size() == reg.size(), "count", "report delivered %zu times, %zu callbacks registered", got.size(), reg.size());
      std::vector<bool> used(reg.size());
      for (auto &g : got) {
        CHECK(g.comp == a && g.gen == b && g.spec == d, "content", "sent (%u,%u,%u), delivered (%u,%u,%u)", a, b, d, g.comp, g.gen, g.spec);
        bool ok = false;
        for (size_t j = 0; j < reg.size() && !ok; j++)
          if (!used[j] && reg[j].cb == g.which && reg[j].ctx == g.ctx) used[j] = ok = true;
        CHECK(ok, "recipient", "delivered to a callback/context pair that is not registered (or twice)");
      }
      if (got.size() > 255) ev("deliveries_to_more_than_255");
      ev("deliveries", static_cast<int64_t>(got.size()));
      if (got.empty()) ev("sends_to_none");
      else delivered = true;
    }
  }
  swiftnav_subsystem_status_report_callback_reset();
  if (delivered) c.nt(h);
}
/* receivers that deregister themselves or others, or send, while a report is delivered */
struct Inside {
  std::vector<std::unique_ptr<Buf<Node>>> node;
  std::vector<bool> in;
  struct Act {
    int kind; /* 0 nothing, 1 deregister, 2 send */
    size_t target;
    bool free_it;
  };
  std::vector<Act> act;
  struct Got {
    size_t node;
    unsigned comp;
    bool was_in;
  };
  std::vector<Got> log;
  int depth = 0;
  void drop(size_t k, bool reuse) {
    swiftnav_subsystem_status_report_callback_deregister(node[k]->p);
    in[k] = false;
    if (reuse) node[k].reset(); /* ASan watches for later uses */
  }
};
static Inside *in_;
static void cb_inside(uint16_t a, uint8_t b, uint8_t d, void *x) {
  size_t k = static_cast<size_t>(reinterpret_cast<uintptr_t>(x));
  in_->log.push_back({k, a, in_->in[k]});
  if (in_->log.size() > 1000) {
    fprintf(stderr, "one report was delivered more than 1000 times\n");
    abort();
  }
  auto &t = in_->act[k];
  int kind = t.kind;
  t.kind = 0;
  if (kind == 1 && in_->in[t.target]) {
    ev(t.target == k ? "inside_deregistered_self" : t.target < k ? "inside_deregistered_earlier" : "inside_deregistered_later");
    in_->drop(t.target, t.free_it && t.target != k);
  } else if (kind == 2 && in_->depth < 2) {
    in_->depth++;
    swiftnav_send_subsystem_status_report(static_cast<uint16_t>(a + 1), b, d);
    in_->depth--;
    ev("inside_sent");
  }
}
SECTION(inside, 4000, 200000) {
  swiftnav_subsystem_status_report_callback_reset();
  Inside w;
  in_ = &w;
  size_t nn = static_cast<size_t>(c.r.range(1, 8));
  w.in.assign(nn, true), w.act.resize(nn);
  uint64_t h = nn;
  for (size_t i = 0; i < nn; i++) {
    w.node.emplace_back(new Buf<Node>(1));
    c.r.bytes(w.node[i]->p, sizeof(Node));
    swiftnav_subsystem_status_report_callback_register(w.node[i]->p, cb_inside, reinterpret_cast<void *>(static_cast<uintptr_t>(i)));
  }
  bool nested = false;
  for (int round = 0; round < 4; round++) {
    bool deregs = c.r.coin(0.8);
    std::string plan;
    for (size_t i = 0; i < nn; i++) {
      /* nested sends only in rounds without deregistration: the order of both is not defined */
      w.act[i] = {c.r.coin(0.5) ? 0 : deregs ? 1 : 2, static_cast<size_t>(c.r.range(0, static_cast<int64_t>(nn) - 1)), c.r.coin()};
      h = hcombine(h, static_cast<uint64_t>(w.act[i].kind) * 64 + w.act[i].target * 2 + w.act[i].free_it);
      plan += " " + std::to_string(w.act[i].kind) + "/" + std::to_string(w.act[i].target);
    }
    std::vector<bool> before = w.in;
    unsigned comp = static_cast<unsigned>(c.r.range(0, 60000));
    w.log.clear();
    c.describe("%zu receivers, actions (1 deregister, 2 send):%s, round %d", nn, plan.c_str(), round);
    swiftnav_send_subsystem_status_report(static_cast<uint16_t>(comp), 1, 2);
    std::map<std::pair<size_t, unsigned>, int> cnt;
    for (auto &g : w.log) {
      CHECK(g.was_in, "deregistered_got_it", "receiver %zu got a report after it was deregistered", g.node);
      cnt[{g.node, g.comp}]++;
      nested |= g.comp != comp;
    }
    for (size_t i = 0; i < nn; i++) {
      int k = cnt[{i, comp}];
      if (before[i] && w.in[i]) CHECK(k == 1, "inside_count", "receiver %zu, registered throughout, got the report %d times", i, k);
      else CHECK(k <= 1, "inside_twice", "receiver %zu got the report %d times", i, k);
      if (!deregs && before[i] && nested) {
        long long deliveries = 0, sends = 0;
        for (auto &g : w.log) deliveries += g.node == i;
        for (auto &g : w.log) sends += g.node == (static_cast<size_t>(std::find(before.begin(), before.end(), true) - before.begin()));
        CHECK(deliveries == sends, "inside_nested", "receiver %zu got %lld reports, the first one %lld", i, deliveries, sends);
      }
    }
    if (!w.log.empty()) c.nt(h);
  }
  swiftnav_subsystem_status_report_callback_reset();
  in_ = nullptr;
}
