// @run variant=asan shards=8
#include "gnss.h"
#include <swiftnav/glo_map.h>
using namespace mon;
using namespace gnss;
RULE("case = one code x every satellite number 0..2000 and 65535 (exhaustive over codes -3..70), one GLONASS slot/frequency pair (exhaustive 28x14 for both bands), one "
     "constellation or sub-constellation, or one text label (every table label, its mutations, random strings). Compared with an independently written signal plan. All cases are non-trivial.");
NEED(codes_checked, 64);
NEED(sids_checked, 60000);
NEED(glo_frequencies, 700);
NEED(labels_unknown, 2000);
NEED(labels_known, 500);
NEED(totals, 1);

SECTION(codes, 74, 74) {
  code_t code = static_cast<code_t>(c.idx - 3);
  const SigPlan *p = plan_of(code);
  CHECK(code_valid(code) == (p != nullptr), "code_valid", "code %d: validity", code);
  c.nt(static_cast<uint64_t>(c.idx));
  std::vector<unsigned> sats;
  for (unsigned s = 0; s <= 2000; s++) sats.push_back(s);
  sats.push_back(32768);
  sats.push_back(65535);
  if (!p) {
    for (unsigned s : sats) CHECK(!sid_valid(sid(code, s)), "sid_valid", "sid with code %d sat %u reported valid", code, s);
    CHECK(!is_gps(code) && !is_sbas(code) && !is_glo(code) && !is_bds2(code) && !is_gal(code) && !is_qzss(code), "invalid_code_cons", "code %d claims a constellation", code);
    CHECK(sid_to_constellation(sid(code, 5)) == CONSTELLATION_INVALID, "invalid_code_cons", "code %d maps to a constellation", code);
    CHECK(sid_to_l1_code(sid(code, 5)) == CODE_INVALID && sid_to_l5_code(sid(code, 5)) == CODE_INVALID, "invalid_code_l1", "code %d has an L1/L5 code", code);
    const char *t = code_to_string(code);
    CHECK(t && code_string_to_enum(t) == CODE_INVALID, "invalid_code_label", "label of invalid code %d parses as a code", code);
    return;
  }
  const ConsPlan &k = cons_of(p->cons);
  for (unsigned s : sats) {
    bool ok = s >= k.first && s < k.first + k.count;
    gnss_signal_t x = sid(code, s);
    gnss_signal_t y = construct_sid(code, static_cast<u16>(s));
    CHECK(y.code == code && y.sat == s, "construct", "construct_sid(%d,%u)", code, s);
    CHECK(sid_valid(x) == ok, "sid_valid", "%s: validity reported %d", str(x).c_str(), !ok);
    CHECK(sid_to_constellation(x) == p->cons, "sid_cons", "%s: constellation %d", str(x).c_str(), sid_to_constellation(x));
    CHECK(sid_to_l1_code(x) == k.l1 && sid_to_l5_code(x) == k.l5, "sid_l1", "%s: L1/L5 code", str(x).c_str());
    if (ok) {
      u16 i = sid_to_code_index(x);
      CHECK(i == s - k.first, "code_index", "%s: index %u", str(x).c_str(), i);
      gnss_signal_t z = sid_from_code_index(code, i);
      CHECK(z.code == code && z.sat == s, "code_index_inverse", "%s: index %u maps back to %s", str(x).c_str(), i, str(z).c_str());
      ev("sids_checked");
      if (p->f0_mult > 0) {
        double f = p->f0_mult * 1.023e6;
        CHECK(rclose(sid_to_carr_freq(x), f, 1e-14), "carr_freq", "%s: carrier %.3f Hz, plan %.3f", str(x).c_str(), sid_to_carr_freq(x), f);
        CHECK(rclose(sid_to_lambda(x), 299792458.0 / f, 1e-14), "lambda", "%s: wavelength %.12g", str(x).c_str(), sid_to_lambda(x));
      }
    }
    ev("sids_checked");
  }
  CHECK(code_to_constellation(code) == p->cons, "code_cons", "code %d: constellation %d", code, code_to_constellation(code));
  bool q[6] = {is_gps(code), is_sbas(code), is_glo(code), is_bds2(code), is_qzss(code), is_gal(code)};
  for (int i = 0; i < 6; i++) CHECK(q[i] == (i == p->cons), "is_cons", "code %d: constellation predicate %d is %d", code, i, q[i]);
  gnss_signal_t x = sid(code, k.first);
  CHECK(IS_GPS(x) == q[0] && IS_SBAS(x) == q[1] && IS_GLO(x) == q[2] && IS_BDS2(x) == q[3] && IS_QZSS(x) == q[4] && IS_GAL(x) == q[5], "is_cons_macro", "code %d", code);
  CHECK(strcmp(code_to_string(code), p->label) == 0, "label", "code %d: label '%s', expected '%s'", code, code_to_string(code), p->label);
  CHECK(code_string_to_enum(p->label) == code, "label_parse", "label '%s' parses as %d", p->label, code_string_to_enum(p->label));
  CHECK(code_to_chip_count(code) == p->chips, "chip_count", "code %d: %u chips, plan %u", code, code_to_chip_count(code), p->chips);
  CHECK(rclose(code_to_chip_rate(code), p->rate_mhz * 1.023e6, 1e-12), "chip_rate", "code %d: rate %.3f", code, code_to_chip_rate(code));
  CHECK(code_to_prn_period_ms(code) == p->period_ms, "prn_period", "code %d: period %u ms", code, code_to_prn_period_ms(code));
  CHECK(rclose(code_to_chip_rate(code) * code_to_prn_period_ms(code) * 1e-3, code_to_chip_count(code), 1e-9), "chip_identity", "code %d: rate x period != chips", code);
  /* Doppler limit scales with the carrier of the same constellation */
  double f = p->f0_mult > 0 ? p->f0_mult * 1.023e6 : (code == CODE_GLO_L1OF || code == CODE_GLO_L1P) ? 1602e6 : 1246e6;
  double d = k.dop_max * f / k.dop_carrier;
  if (code == CODE_BDS3_B1CI || code == CODE_BDS3_B1CQ || code == CODE_BDS3_B1CX) d = 4200; /* B1C is documented with B1I's limit */
  CHECK(rclose(code_to_sv_doppler_max(code), d, 1e-6), "doppler_max", "code %d: limit %.4f Hz, expected %.4f", code, static_cast<double>(code_to_sv_doppler_max(code)), d);
  CHECK(code_to_sv_doppler_min(code) == -code_to_sv_doppler_max(code), "doppler_min", "code %d: limits not symmetric", code);
  CHECK(code_requires_direct_acq(code) == (code == k.l1), "direct_acq", "code %d: direct acquisition %d", code, code_requires_direct_acq(code));
  CHECK(code_requires_decoder(code) == p->decoder, "decoder", "code %d: decoder %d", code, code_requires_decoder(code));
  if (p->phase < 5) CHECK(close(code_to_phase_alignment(code), p->phase, 1e-9), "phase", "code %d: phase alignment %f", code, static_cast<double>(code_to_phase_alignment(code)));
  unsigned nsig = p->cons == CONSTELLATION_GLO ? 14 : k.count; /* GLONASS signals are told apart by their 14 frequencies */
  CHECK(code_to_sig_count(code) == nsig, "sig_count", "code %d: %u signals", code, code_to_sig_count(code));
  ev("codes_checked");
}

SECTION(glonass, 392, 3920) {
  unsigned slot = static_cast<unsigned>(c.idx % 28) + 1, fcn = static_cast<unsigned>(c.idx / 28 % 14) + 1;
  glo_map_clear_all();
  /* other slots on other channels must not matter */
  for (unsigned s = 1; s <= 28; s++)
    if (s != slot && c.r.coin()) glo_map_set_slot_id(static_cast<u16>(c.r.range(1, 14)), static_cast<u16>(s));
  glo_map_set_slot_id(static_cast<u16>(c.r.range(1, 14)), static_cast<u16>(slot));
  glo_map_set_slot_id(static_cast<u16>(fcn), static_cast<u16>(slot));
  int ch = static_cast<int>(fcn) - 8;
  double f1 = 1602e6 + ch * 562.5e3, f2 = 1246e6 + ch * 437.5e3;
  double g1 = sid_to_carr_freq(sid(CODE_GLO_L1OF, slot)), g2 = sid_to_carr_freq(sid(CODE_GLO_L2OF, slot));
  CHECK(close(g1, f1, 1e-5) && close(g2, f2, 1e-5), "glo_freq", "slot %u channel %d: %.1f / %.1f Hz", slot, ch, g1, g2);
  CHECK(rclose(sid_to_lambda(sid(CODE_GLO_L1OF, slot)), 299792458.0 / f1, 1e-14) && rclose(sid_to_lambda(sid(CODE_GLO_L2OF, slot)), 299792458.0 / f2, 1e-14), "glo_lambda",
        "slot %u channel %d: wavelength", slot, ch);
  ev("glo_frequencies", 2);
  c.nt(slot * 100 + fcn);
  glo_map_clear_all();
}

SECTION(constellations, 13, 13) {
  int v = static_cast<int>(c.idx) - 5;
  c.nt(static_cast<uint64_t>(c.idx));
  constellation_t cons = static_cast<constellation_t>(v);
  bool ok = v >= 0 && v < 6;
  CHECK(constellation_valid(cons) == ok, "cons_valid", "constellation %d validity", v);
  const char *n = constellation_to_string(cons);
  if (!ok) {
    CHECK(constellation_string_to_enum(n) == CONSTELLATION_INVALID, "cons_label", "label of invalid constellation %d parses", v);
    CHECK(char_to_constellation(constellation_to_char(cons)) == CONSTELLATION_INVALID, "cons_char", "letter of invalid constellation %d", v);
    CHECK(constellation_to_l1_code(cons) == CODE_INVALID && constellation_to_l5_code(cons) == CODE_INVALID, "cons_l1", "invalid constellation %d has codes", v);
  } else {
    const ConsPlan &k = cons_of(cons);
    CHECK(strcmp(n, k.name) == 0 && constellation_string_to_enum(k.name) == cons, "cons_label", "constellation %d: label '%s'", v, n);
    CHECK(constellation_to_char(cons) == k.letter && char_to_constellation(k.letter) == cons, "cons_char", "constellation %d: letter", v);
    CHECK(constellation_to_l1_code(cons) == k.l1 && constellation_to_l5_code(cons) == k.l5, "cons_l1", "constellation %d: L1/L5 code", v);
    CHECK(constellation_to_sat_count(cons) == k.count, "cons_count", "constellation %d: %u satellites", v, constellation_to_sat_count(cons));
  }
  static const char *const subs[7] = {"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL"};
  static const int sub_cons[7] = {CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL};
  sub_constellation_t sc = static_cast<sub_constellation_t>(v);
  const char *sn = sub_constellation_to_string(sc);
  if (v >= 0 && v < 7) {
    CHECK(strcmp(sn, subs[v]) == 0 && sub_constellation_string_to_enum(subs[v]) == sc, "subcons_label", "sub-constellation %d: label '%s'", v, sn);
    CHECK(sub_constellation_to_constellation(sc) == sub_cons[v], "subcons_cons", "sub-constellation %d", v);
  } else {
    CHECK(sub_constellation_string_to_enum(sn) == SUB_CONSTELLATION_INVALID, "subcons_label", "label of invalid sub-constellation %d parses", v);
  }
  /* all characters */
  for (int ch = -128; ch < 256; ch++) {
    constellation_t want = CONSTELLATION_INVALID;
    for (auto &k : cons_plan())
      if (k.letter == static_cast<char>(ch)) want = k.cons;
    CHECK(char_to_constellation(static_cast<char>(ch)) == want, "cons_char", "letter %d", ch);
  }
  /* SBAS systems: every PRN belongs to at most the system listing it */
  static const std::set<unsigned> sys[4] = {{131, 133, 138}, {123, 126, 136}, {127, 128}, {129, 137}};
  for (unsigned s = 120; s <= 138; s++) {
    int want = SBAS_NONE;
    for (int i = 0; i < 4; i++)
      if (sys[i].count(s)) want = i;
    CHECK(get_sbas_system(sid(CODE_SBAS_L1CA, s)) == want, "sbas_system", "SBAS PRN %u: system %d", s, get_sbas_system(sid(CODE_SBAS_L1CA, s)));
  }
  for (int i = 0; i < 4; i++) {
    const u8 *l = get_sbas_prn_list(static_cast<sbas_system_t>(i));
    std::set<unsigned> got;
    for (int j = 0; j < MAX_SBAS_SATS_PER_SYSTEM; j++)
      if (l[j]) got.insert(l[j]);
    CHECK(got == sys[i], "sbas_list", "SBAS system %d: PRN list", i);
  }
}

SECTION(labels, 6000, 200000) {
  std::string t;
  const SigPlan &p = c.r.pick(plan());
  t = p.label;
  switch (c.r.range(0, 6)) {
    case 0: break;
    case 1: t[static_cast<size_t>(c.r.range(0, static_cast<int64_t>(t.size()) - 1))] ^= static_cast<char>(1 << c.r.range(0, 6)); break;
    case 2: t.pop_back(); break;
    case 3: t += static_cast<char>(c.r.range(32, 126)); break;
    case 4: t = ""; break;
    case 5: t = std::string(static_cast<size_t>(c.r.range(1, 30)), static_cast<char>(c.r.range(32, 126))); break;
    default: t = cons_plan()[static_cast<size_t>(c.r.range(0, 5))].name; break;
  }
  t = t.c_str();
  int want = CODE_INVALID;
  for (auto &q : plan())
    if (t == q.label) want = q.code;
  Buf<char> b(t.size() + 1);
  memcpy(b.p, t.c_str(), t.size() + 1);
  CHECK(code_string_to_enum(b) == want, "label_parse", "'%s' parses as %d, expected %d", t.c_str(), code_string_to_enum(b), want);
  int wc = CONSTELLATION_INVALID;
  for (auto &k : cons_plan())
    if (t == k.name) wc = k.cons;
  CHECK(constellation_string_to_enum(b) == wc, "cons_parse", "'%s' parses as constellation %d", t.c_str(), constellation_string_to_enum(b));
  ev(want == CODE_INVALID ? "labels_unknown" : "labels_known");
  c.nt(hbytes(t.data(), t.size()));
}

/* the published totals that callers size their tables with */
SECTION(totals, 1, 1) {
  unsigned codes = 0, sats = 0, sigs = 0, most = 0;
  std::map<int, unsigned> nc;
  for (int k = -3; k <= 70; k++)
    if (code_valid(static_cast<code_t>(k))) {
      constellation_t q = code_to_constellation(static_cast<code_t>(k));
      codes++, nc[q]++, sigs += constellation_to_sat_count(q);
    }
  for (int q = 0; q < CONSTELLATION_COUNT; q++) {
    unsigned n = constellation_to_sat_count(static_cast<constellation_t>(q));
    sats += n, most = std::max(most, n);
  }
  c.nt(1);
  CHECK(codes == NUM_CODES && CODE_COUNT == NUM_CODES, "total_codes", "%u valid codes, NUM_CODES %d, CODE_COUNT %d", codes, NUM_CODES, CODE_COUNT);
  CHECK(sats == NUM_SATS && most == MAX_NUM_SATS, "total_sats", "%u satellites (at most %u), NUM_SATS %d, MAX_NUM_SATS %d", sats, most, NUM_SATS, MAX_NUM_SATS);
  CHECK(sigs == NUM_SIGNALS, "total_signals", "%u signals, NUM_SIGNALS %d", sigs, NUM_SIGNALS);
  struct {
    constellation_t q;
    unsigned codes, sats, sigs;
  } t[] = {{CONSTELLATION_GPS, NUM_CODES_GPS, NUM_SATS_GPS, NUM_SIGNALS_GPS}, {CONSTELLATION_SBAS, NUM_CODES_SBAS, NUM_SATS_SBAS, NUM_SIGNALS_SBAS}, {CONSTELLATION_GLO, NUM_CODES_GLO, NUM_SATS_GLO, NUM_SIGNALS_GLO},
           {CONSTELLATION_BDS, NUM_CODES_BDS, NUM_SATS_BDS, NUM_SIGNALS_BDS}, {CONSTELLATION_QZS, NUM_CODES_QZS, NUM_SATS_QZS, NUM_SIGNALS_QZS}, {CONSTELLATION_GAL, NUM_CODES_GAL, NUM_SATS_GAL, NUM_SIGNALS_GAL}};
  for (auto &e : t) {
    unsigned n = constellation_to_sat_count(e.q);
    CHECK(e.codes == nc[e.q] && e.sats == n && e.sigs == n * nc[e.q], "total_constellation", "constellation %d: %u codes (%u), %u satellites (%u), %u signals", e.q, nc[e.q], e.codes, n, e.sats, e.sigs);
  }
  ev("totals");
}
