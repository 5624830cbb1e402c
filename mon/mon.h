/* Runtime-monitoring framework for the libswiftnav checks.
 *
 * A check is a set of SECTIONs.  A section is a numbered family of cases; case
 * (section, idx) is generated deterministically from (VERIF_SEED, section,
 * idx), drives the real library through its public interface, and its oracle
 * calls mon::fail() when what it observed contradicts the property.
 * The process records the (section, idx) being executed in a mapped file so
 * that a sanitizer report, assertion failure or hang is attributed to a case.
 */
#ifndef VERIF_MON_H
#define VERIF_MON_H

#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace mon {

/* ---------------------------------------------------------------- hashing */
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hcombine(uint64_t a, uint64_t b) { return mix(a ^ (mix(b) + 0x9e37)); }
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h = (h ^ c[i]) * 1099511628211ULL;
  }
  return mix(h);
}
inline uint64_t hd(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return mix(u);
}

/* -------------------------------------------------------------------- rng */
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) {
    for (auto &x : s) {
      seed = mix(seed);
      x = seed;
    }
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t u64() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  uint32_t u32() { return static_cast<uint32_t>(u64() >> 32); }
  /* uniform integer in [lo, hi] */
  int64_t range(int64_t lo, int64_t hi) {
    uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + (span ? u64() % span : u64()));
  }
  double unit() { return static_cast<double>(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  bool coin(double p = 0.5) { return unit() < p; }
  double normal(double sigma = 1.0) {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return sigma * sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
  }
  /* signed log-uniform magnitude */
  double logmag(double lo, double hi) {
    double m = exp(uniform(log(lo), log(hi)));
    return coin() ? m : -m;
  }
  /* integer in [lo,hi], biased to both ends, zero and powers of two */
  int64_t edgy(int64_t lo, int64_t hi) {
    switch (range(0, 7)) {
      case 0: return lo;
      case 1: return hi;
      case 2: return (lo <= 0 && hi >= 0) ? 0 : lo;
      case 3: {
        int64_t p = int64_t{1} << range(0, 62);
        p += range(-1, 1);
        if (coin()) p = -p;
        if (p >= lo && p <= hi) return p;
        return range(lo, hi);
      }
      case 4: return (hi > lo) ? lo + 1 : lo;
      case 5: return (hi > lo) ? hi - 1 : hi;
      default: return range(lo, hi);
    }
  }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[static_cast<size_t>(range(0, static_cast<int64_t>(v.size()) - 1))];
  }
  void bytes(void *p, size_t n) {
    unsigned char *c = static_cast<unsigned char *>(p);
    for (size_t i = 0; i < n; i++) c[i] = static_cast<unsigned char>(u64() >> 32);
  }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--) {
      std::swap(v[i - 1], v[static_cast<size_t>(range(0, static_cast<int64_t>(i) - 1))]);
    }
  }
};

/* ------------------------------------------------------------------- case */
struct CaseFailed {};

struct Ctx {
  Rng r;
  int64_t idx = 0;
  bool thorough = false;
  const char *section = "";
  std::string note; /* human-readable input description for samples/replays */

  /* mark the running case as non-trivial; h identifies what was exercised */
  void nt(uint64_t h);
  void describe(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*body_fn)(Ctx &);
struct Section {
  const char *name;
  int64_t quick_n, thorough_n;
  body_fn fn;
};
std::vector<Section> &sections();
struct Reg {
  Reg(const char *n, int64_t q, int64_t t, body_fn f) { sections().push_back({n, q, t, f}); }
};
#define SECTION(NAME, QUICK, THOROUGH)                                  \
  static void sec_##NAME(mon::Ctx &c);                                  \
  static mon::Reg reg_##NAME(#NAME, (QUICK), (THOROUGH), sec_##NAME);   \
  static void sec_##NAME(mon::Ctx &c)

/* vacuity guard: the run is inconclusive when fewer than `min` events `name`
 * were observed over all shards */
struct Need {
  Need(const char *name, int64_t min);
};
#define NEED(EV, MIN) static mon::Need need_##EV(#EV, (MIN))
#define RULE(TEXT) static mon::RuleText rule_text(TEXT)
struct RuleText {
  explicit RuleText(const char *t);
};

/* count an observed event */
void ev(const char *name, int64_t n = 1);

/* record a violation and abandon the case */
[[noreturn]] void fail(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
/* record a violation without unwinding (for use in callbacks) */
void note_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

#define CHECK(COND, KEY, ...)              \
  do {                                     \
    if (!(COND)) mon::fail(KEY, __VA_ARGS__); \
  } while (0)

/* absolute/relative closeness; false on NaN */
inline bool close(double a, double b, double tol) { return fabs(a - b) <= tol; }
inline bool rclose(double a, double b, double rel, double abs_tol = 0) {
  return fabs(a - b) <= abs_tol + rel * fmax(fabs(a), fabs(b));
}

/* exact-size heap buffer: the sanitizer sees any access outside it */
template <class T>
struct Buf {
  T *p;
  size_t n;
  explicit Buf(size_t n_) : p(static_cast<T *>(malloc(n_ * sizeof(T)))), n(n_) {
    if (n_) memset(static_cast<void *>(p), 0, n_ * sizeof(T));
  }
  Buf(const Buf &) = delete;
  Buf &operator=(const Buf &) = delete;
  ~Buf() { free(p); }
  T &operator[](size_t i) { return p[i]; }
  operator T *() { return p; }
};

/* 4 GiB of zero pages that cost memory only where touched, for accesses at huge offsets; the region is emptied again when the
 * object goes out of scope */
struct Sparse {
  static constexpr size_t N = size_t{1} << 32;
  unsigned char *p;
  Sparse();
  ~Sparse();
  Sparse(const Sparse &) = delete;
  Sparse &operator=(const Sparse &) = delete;
  /* a bit position near a power of two (or anywhere), with pos + len <= 2^32 - 1 */
  static uint32_t far_bit(Rng &r, uint32_t len) {
    int64_t top = static_cast<int64_t>(UINT32_MAX) - len, v;
    if (r.coin(0.7)) v = (int64_t{1} << r.range(11, 32)) + r.range(-80, 80);
    else v = r.range(0, top);
    return static_cast<uint32_t>(v < 0 ? 0 : v > top ? top - r.range(0, 40) : v);
  }
};

std::string hex(const void *p, size_t n);
uint64_t log_lines(); /* number of messages the library logged so far */

} /* namespace mon */

#endif
