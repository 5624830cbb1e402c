// @run variant=asan shards=8
#include "gnss.h"
#include "nav.h"
#include "timeref.h"
#include <swiftnav/bits.h>
#include <swiftnav/ephemeris.h>
using namespace mon;
using namespace nav;
RULE("decode: subframes 1-3 of BeiDou D1 built bit by bit with every field over its range (edge values favoured), arbitrary reserved/parity/upper bits and previous output contents. crc: the issue-of-data CRC of each decoded "
     "ephemeris against a bit string rebuilt from the encoded integers and a bit-serial CRC-24Q; single-field changes must change it. Non-trivial: every case; identity = the words.");
NEED(decoded, 60000);
NEED(crcs, 60000);
NEED(crc_changes, 30000);

static uint32_t crc24(const std::vector<int> &bits) {
  uint32_t c = 0;
  for (int b : bits) {
    c ^= static_cast<uint32_t>(b) << 23;
    c = (c & 0x800000) ? ((c << 1) ^ 0x864cfb) & 0xffffff : (c << 1) & 0xffffff;
  }
  return c;
}
enum F { DN, CUC, M0, ECC, CUS, CRC, CRS, SQA, INC, CIC, OMD, CIS, IDOT, OM0, W_, AF0, AF1, AF2, NF };
static const struct {
  const char *name;
  int n;
  bool sgn;
  int exp;
  bool pi;
} FD[NF] = {{"dn", 16, true, -43, true},   {"cuc", 18, true, -31, false}, {"m0", 32, true, -31, true},  {"ecc", 32, false, -33, false}, {"cus", 18, true, -31, false},     {"crc", 18, true, -6, false},
            {"crs", 18, true, -6, false},  {"sqrta", 32, false, -19, false}, {"inc", 32, true, -31, true}, {"cic", 18, true, -31, false},  {"omegadot", 24, true, -43, true}, {"cis", 18, true, -31, false},
            {"inc_dot", 14, true, -43, true}, {"omega0", 32, true, -31, true}, {"w", 32, true, -31, true},  {"af0", 24, true, -33, false},  {"af1", 22, true, -50, false},     {"af2", 11, true, -66, false}};
static double val(const ephemeris_kepler_t *k, int f) {
  switch (f) {
    case DN: return k->dn;
    case CUC: return k->cuc;
    case M0: return k->m0;
    case ECC: return k->ecc;
    case CUS: return k->cus;
    case CRC: return k->crc;
    case CRS: return k->crs;
    case SQA: return k->sqrta;
    case INC: return k->inc;
    case CIC: return k->cic;
    case OMD: return k->omegadot;
    case CIS: return k->cis;
    case IDOT: return k->inc_dot;
    case OM0: return k->omega0;
    case W_: return k->w;
    case AF0: return k->af0;
    case AF1: return k->af1;
    default: return k->af2;
  }
}
/* place a value into consecutive pieces (row, word, first, n), most significant piece first */
static void place(u32 w[3][10], std::initializer_list<Piece> ps, int64_t v) {
  int total = 0;
  for (auto &p : ps) total += p.n;
  for (auto &p : ps) {
    total -= p.n;
    put30(&w[p.row - 1][p.word - 1], p.first, p.n, static_cast<uint64_t>(v) >> total);
  }
}
static void encode(u32 w[3][10], const int64_t *x) {
  place(w, {{2, 2, 13, 10}, {2, 3, 1, 6}}, x[DN]);
  place(w, {{2, 3, 7, 16}, {2, 4, 1, 2}}, x[CUC]);
  place(w, {{2, 4, 3, 20}, {2, 5, 1, 12}}, x[M0]);
  place(w, {{2, 5, 13, 10}, {2, 6, 1, 22}}, x[ECC]);
  place(w, {{2, 7, 1, 18}}, x[CUS]);
  place(w, {{2, 7, 19, 4}, {2, 8, 1, 14}}, x[CRC]);
  place(w, {{2, 8, 15, 8}, {2, 9, 1, 10}}, x[CRS]);
  place(w, {{2, 9, 11, 12}, {2, 10, 1, 20}}, x[SQA]);
  place(w, {{3, 3, 6, 17}, {3, 4, 1, 15}}, x[INC]);
  place(w, {{3, 4, 16, 7}, {3, 5, 1, 11}}, x[CIC]);
  place(w, {{3, 5, 12, 11}, {3, 6, 1, 13}}, x[OMD]);
  place(w, {{3, 6, 14, 9}, {3, 7, 1, 9}}, x[CIS]);
  place(w, {{3, 7, 10, 13}, {3, 8, 1, 1}}, x[IDOT]);
  place(w, {{3, 8, 2, 21}, {3, 9, 1, 11}}, x[OM0]);
  place(w, {{3, 9, 12, 11}, {3, 10, 1, 21}}, x[W_]);
  place(w, {{1, 8, 5, 11}}, x[AF2]);
  place(w, {{1, 8, 16, 7}, {1, 9, 1, 17}}, x[AF0]);
  place(w, {{1, 9, 18, 5}, {1, 10, 1, 17}}, x[AF1]);
}

SECTION(decode, 120000, 6000000) {
  u32 w[3][10];
  c.r.bytes(w, sizeof w);
  int64_t x[NF];
  for (int f = 0; f < NF; f++) x[f] = gen(c.r, FD[f].n, FD[f].sgn);
  int64_t health = c.r.range(0, 1), urai = c.r.range(0, 15), week = gen(c.r, 13, false), toc = c.r.coin(0.2) ? gen(c.r, 17, false) : c.r.range(0, 75599), toe = c.r.coin(0.2) ? gen(c.r, 17, false) : c.r.range(0, 75599);
  if (c.r.coin(0.3)) toc = c.r.range(0, 839) * 90 + c.r.range(-1, 1) + (c.r.coin() ? 1 : 0);
  if (c.r.coin(0.3)) toe = c.r.range(0, 839) * 90 + c.r.range(-1, 1) + (c.r.coin() ? 1 : 0);
  if (toc < 0) toc = 0;
  if (toe < 0) toe = 0;
  int64_t tgd1 = gen(c.r, 10, true), tgd2 = gen(c.r, 10, true);
  encode(w, x);
  place(w, {{1, 2, 13, 1}}, health);
  place(w, {{1, 2, 19, 4}}, urai);
  place(w, {{1, 3, 1, 13}}, week);
  place(w, {{1, 3, 14, 9}, {1, 4, 1, 8}}, toc);
  place(w, {{1, 4, 9, 10}}, tgd1);
  place(w, {{1, 4, 19, 4}, {1, 5, 1, 6}}, tgd2);
  place(w, {{2, 10, 21, 2}, {3, 2, 13, 10}, {3, 3, 1, 5}}, toe);
  ephemeris_t e;
  memset(&e, c.r.pick<int>({0, 0xff, 0xa5, 1}), sizeof e);
  gnss_signal_t s = gnss::sid(c.r.coin() ? CODE_BDS2_B1 : CODE_BDS2_B2, static_cast<unsigned>(c.r.range(1, 63)));
  c.describe("sid %s sf1 %s sf2 %s sf3 %s", gnss::str(s).c_str(), hex(w[0], 40).c_str(), hex(w[1], 40).c_str(), hex(w[2], 40).c_str());
  c.nt(hbytes(w, sizeof w));
  u32 copy[3][10];
  memcpy(copy, w, sizeof w);
  /* not in the message: the caller's to set, before or after */
  e.valid = c.r.coin();
  e.fit_interval = c.r.pick<u32>({0, 3600, 4 * 3600, 6 * 3600});
  auto valid0 = e.valid;
  auto fit0 = e.fit_interval;
  decode_bds_d1_ephemeris(w, s, &e);
  CHECK(e.valid == valid0 && e.fit_interval == fit0, "not_in_message", "valid %d -> %d, fit interval %u -> %u", valid0, e.valid, fit0, e.fit_interval);
  CHECK(memcmp(copy, w, sizeof w) == 0, "input_modified", "the words were modified");
  const ephemeris_kepler_t *k = &e.data.kepler;
  ev("decoded");
  CHECK(e.sid.code == s.code && e.sid.sat == s.sat, "sid", "signal %s", gnss::str(e.sid).c_str());
  CHECK(e.health_bits == health, "health", "%u, encoded %lld", e.health_bits, static_cast<long long>(health));
  static const float uras[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, -1};
  CHECK(e.ura == uras[urai], "ura", "index %lld -> %g", static_cast<long long>(urai), static_cast<double>(e.ura));
  CHECK(e.toe.wn == 1356 + week && k->toc.wn == e.toe.wn, "week", "toe week %d toc week %d, encoded %lld", e.toe.wn, k->toc.wn, static_cast<long long>(week));
  CHECK(e.toe.tow == static_cast<double>(toe * 8), "toe", "%.17g, encoded %lld", e.toe.tow, static_cast<long long>(toe * 8));
  CHECK(k->toc.tow == static_cast<double>(toc * 8), "toc", "%.17g, encoded %lld", k->toc.tow, static_cast<long long>(toc * 8));
  CHECK(k->iodc == (toc * 8 / 720) % 240 && k->iode == (toe * 8 / 720) % 240, "iod", "iodc %u iode %u for toc %lld toe %lld", k->iodc, k->iode, static_cast<long long>(toc * 8), static_cast<long long>(toe * 8));
  CHECK(e.source == EPH_SOURCE_BDS_D1_D2_NAV, "source", "%u", e.source);
  for (int i = 0; i < 2; i++) {
    int64_t n = i ? tgd2 : tgd1;
    CHECK(fabsl(k->tgd.bds_s[i] - static_cast<ld>(n) * 1e-10L) <= 3e-7L * fabsl(static_cast<ld>(n)) * 1e-10L, "tgd", "tgd%d %.9g, encoded %lld", i + 1, static_cast<double>(k->tgd.bds_s[i]), static_cast<long long>(n));
  }
  for (int f = 0; f < NF; f++) same(FD[f].name, val(k, f), x[f], FD[f].exp, FD[f].pi);

  /* issue-of-data CRC over the encoded integers, in the published order */
  static const int order[] = {IDOT, AF2, AF1, AF0, CRS, DN, M0, CUC, ECC, CUS, SQA, CIC, OM0, CIS, INC, CRC, W_, OMD};
  std::vector<int> bits;
  for (int f : order)
    for (int i = FD[f].n - 1; i >= 0; i--) bits.push_back(static_cast<int>((x[f] >> i) & 1));
  for (int i = 0; i < 5; i++) bits.push_back(0);
  bits.resize(bits.size() / 8 * 8); /* whole bytes */
  uint32_t want = crc24(bits), got = get_bds2_iod_crc(&e);
  CHECK(got == want, "iod_crc", "0x%06x, expected 0x%06x", got, want);
  ev("crcs");
  if (c.r.coin()) {
    /* a change of any one parameter changes the CRC */
    int f = static_cast<int>(c.r.range(0, NF - 1)), b = static_cast<int>(c.r.range(0, FD[f].n - 1));
    x[f] = x[f] ^ (int64_t{1} << b);
    if (FD[f].sgn) x[f] = static_cast<int64_t>(static_cast<uint64_t>(x[f]) << (64 - FD[f].n)) >> (64 - FD[f].n);
    encode(w, x);
    decode_bds_d1_ephemeris(w, s, &e);
    CHECK(get_bds2_iod_crc(&e) != got, "crc_insensitive", "bit %d of %s changed, CRC still 0x%06x", b, FD[f].name, got);
    ev("crc_changes");
  }
}
