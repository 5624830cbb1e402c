/* Shared, independently written GNSS reference data and generators. */
#ifndef VERIF_GNSS_H
#define VERIF_GNSS_H
#include "mon.h"
#include <swiftnav/signal.h>

namespace gnss {
struct SigPlan {
  code_t code;
  const char *label;
  constellation_t cons;
  double f0_mult;   /* carrier in units of 1.023 MHz (0: GLONASS FDMA) */
  uint32_t chips;   /* 0: not tabulated */
  double rate_mhz;  /* chipping rate in units of 1.023 MHz */
  unsigned period_ms;
  double phase;     /* RINEX alignment in cycles; 9 = not checked */
  bool decoder;
};
/* carriers in units of f0 = 1.023 MHz: L1 1540, L2 1200, L5 1150, B1I 1526, B2/E5b 1180, E5 1165, E6 1250, B3 1240 */
inline const std::vector<SigPlan> &plan() {
  static const std::vector<SigPlan> p = {
      {CODE_GPS_L1CA, "GPS L1CA", CONSTELLATION_GPS, 1540, 1023, 1, 1, 0, true},
      {CODE_GPS_L2CM, "GPS L2CM", CONSTELLATION_GPS, 1200, 20460, 1, 20, -0.25, true},
      {CODE_SBAS_L1CA, "SBAS L1", CONSTELLATION_SBAS, 1540, 1023, 1, 1, 0, true},
      {CODE_GLO_L1OF, "GLO L1OF", CONSTELLATION_GLO, 0, 511, 511.0 / 1023, 1, 0, true},
      {CODE_GLO_L2OF, "GLO L2OF", CONSTELLATION_GLO, 0, 511, 511.0 / 1023, 1, 0, true},
      {CODE_GPS_L1P, "GPS L1P", CONSTELLATION_GPS, 1540, 0, 0, 0, 0.25, false},
      {CODE_GPS_L2P, "GPS L2P", CONSTELLATION_GPS, 1200, 0, 0, 0, 0, false},
      {CODE_GPS_L2CL, "GPS L2CL", CONSTELLATION_GPS, 1200, 1534500, 1, 1500, -0.25, false},
      {CODE_GPS_L2CX, "GPS L2C", CONSTELLATION_GPS, 1200, 0, 0, 0, -0.25, false},
      {CODE_GPS_L5I, "GPS L5I", CONSTELLATION_GPS, 1150, 10230, 10, 1, 0, false},
      {CODE_GPS_L5Q, "GPS L5Q", CONSTELLATION_GPS, 1150, 0, 0, 0, -0.25, false},
      {CODE_GPS_L5X, "GPS L5", CONSTELLATION_GPS, 1150, 0, 0, 0, 0, false},
      {CODE_BDS2_B1, "BDS B1", CONSTELLATION_BDS, 1526, 2046, 2, 1, 0, true},
      {CODE_BDS2_B2, "BDS B2", CONSTELLATION_BDS, 1180, 2046, 2, 1, 0, true},
      {CODE_GAL_E1B, "GAL E1B", CONSTELLATION_GAL, 1540, 4092, 1, 4, 0, true},
      {CODE_GAL_E1C, "GAL E1C", CONSTELLATION_GAL, 1540, 0, 0, 0, 0.5, false},
      {CODE_GAL_E1X, "GAL E1", CONSTELLATION_GAL, 1540, 0, 0, 0, 0, false},
      {CODE_GAL_E6B, "GAL E6B", CONSTELLATION_GAL, 1250, 5115, 5, 1, 0, true},
      {CODE_GAL_E6C, "GAL E6C", CONSTELLATION_GAL, 1250, 0, 0, 0, -0.5, false},
      {CODE_GAL_E6X, "GAL E6", CONSTELLATION_GAL, 1250, 0, 0, 0, 0, false},
      {CODE_GAL_E7I, "GAL E5bI", CONSTELLATION_GAL, 1180, 10230, 10, 1, 0, true},
      {CODE_GAL_E7Q, "GAL E5bQ", CONSTELLATION_GAL, 1180, 0, 0, 0, -0.25, false},
      {CODE_GAL_E7X, "GAL E5b", CONSTELLATION_GAL, 1180, 0, 0, 0, 0, false},
      {CODE_GAL_E8I, "GAL E8I", CONSTELLATION_GAL, 1165, 0, 0, 0, 0, false},
      {CODE_GAL_E8Q, "GAL E8Q", CONSTELLATION_GAL, 1165, 0, 0, 0, -0.25, false},
      {CODE_GAL_E8X, "GAL E8", CONSTELLATION_GAL, 1165, 0, 0, 0, 0, false},
      {CODE_GAL_E5I, "GAL E5aI", CONSTELLATION_GAL, 1150, 10230, 10, 1, 0, true},
      {CODE_GAL_E5Q, "GAL E5aQ", CONSTELLATION_GAL, 1150, 0, 0, 0, -0.25, false},
      {CODE_GAL_E5X, "GAL E5a", CONSTELLATION_GAL, 1150, 0, 0, 0, 0, false},
      {CODE_GLO_L1P, "GLO L1P", CONSTELLATION_GLO, 0, 0, 0, 0, 0.25, false},
      {CODE_GLO_L2P, "GLO L2P", CONSTELLATION_GLO, 0, 0, 0, 0, 0.25, false},
      {CODE_QZS_L1CA, "QZS L1CA", CONSTELLATION_QZS, 1540, 1023, 1, 1, 0, true},
      {CODE_QZS_L1CI, "QZS L1CI", CONSTELLATION_QZS, 1540, 10230, 1, 10, 9, false},
      {CODE_QZS_L1CQ, "QZS L1CQ", CONSTELLATION_QZS, 1540, 0, 0, 0, 0.25, false},
      {CODE_QZS_L1CX, "QZS L1CX", CONSTELLATION_QZS, 1540, 0, 0, 0, 0.25, false},
      {CODE_QZS_L2CM, "QZS L2CM", CONSTELLATION_QZS, 1200, 20460, 1, 20, 0, false},
      {CODE_QZS_L2CL, "QZS L2CL", CONSTELLATION_QZS, 1200, 1534500, 1, 1500, 0, false},
      {CODE_QZS_L2CX, "QZS L2C", CONSTELLATION_QZS, 1200, 0, 0, 0, 0, false},
      {CODE_QZS_L5I, "QZS L5I", CONSTELLATION_QZS, 1150, 10230, 10, 1, 0, false},
      {CODE_QZS_L5Q, "QZS L5Q", CONSTELLATION_QZS, 1150, 0, 0, 0, -0.25, false},
      {CODE_QZS_L5X, "QZS L5", CONSTELLATION_QZS, 1150, 0, 0, 0, 0, false},
      {CODE_SBAS_L5I, "SBAS L5I", CONSTELLATION_SBAS, 1150, 10230, 10, 1, 0, true},
      {CODE_SBAS_L5Q, "SBAS L5Q", CONSTELLATION_SBAS, 1150, 10230, 10, 1, -0.25, false},
      {CODE_SBAS_L5X, "SBAS L5", CONSTELLATION_SBAS, 1150, 10230, 10, 1, 0, false},
      {CODE_BDS3_B1CI, "BDS3 B1CI", CONSTELLATION_BDS, 1540, 10230, 1, 10, 0, false},
      {CODE_BDS3_B1CQ, "BDS3 B1CQ", CONSTELLATION_BDS, 1540, 0, 0, 0, 0, false},
      {CODE_BDS3_B1CX, "BDS3 B1C", CONSTELLATION_BDS, 1540, 0, 0, 0, 0, false},
      {CODE_BDS3_B5I, "BDS3 B5I", CONSTELLATION_BDS, 1150, 10230, 10, 1, 0, false},
      {CODE_BDS3_B5Q, "BDS3 B5Q", CONSTELLATION_BDS, 1150, 0, 0, 0, 0, false},
      {CODE_BDS3_B5X, "BDS3 B5", CONSTELLATION_BDS, 1150, 0, 0, 0, 0, false},
      {CODE_BDS3_B7I, "BDS3 B7I", CONSTELLATION_BDS, 1180, 10230, 10, 1, 0, false},
      {CODE_BDS3_B7Q, "BDS3 B7Q", CONSTELLATION_BDS, 1180, 0, 0, 0, -0.25, false},
      {CODE_BDS3_B7X, "BDS3 B7", CONSTELLATION_BDS, 1180, 10230, 10, 1, 0, false},
      {CODE_BDS3_B3I, "BDS3 B3I", CONSTELLATION_BDS, 1240, 10230, 10, 1, 0, false},
      {CODE_BDS3_B3Q, "BDS3 B3Q", CONSTELLATION_BDS, 1240, 0, 0, 0, -0.25, false},
      {CODE_BDS3_B3X, "BDS3 B3", CONSTELLATION_BDS, 1240, 0, 0, 0, 0, false},
      {CODE_GPS_L1CI, "GPS L1CI", CONSTELLATION_GPS, 1540, 10230, 1, 10, 0.25, false},
      {CODE_GPS_L1CQ, "GPS L1CQ", CONSTELLATION_GPS, 1540, 0, 0, 0, 0.25, false},
      {CODE_GPS_L1CX, "GPS L1C", CONSTELLATION_GPS, 1540, 0, 0, 0, 0.25, false},
      {CODE_AUX_GPS, "GPS AUX", CONSTELLATION_GPS, 1540, 1023, 1, 1, 0, false},
      {CODE_AUX_SBAS, "SBAS AUX", CONSTELLATION_SBAS, 1540, 1023, 1, 1, 0, false},
      {CODE_AUX_GAL, "GAL AUX", CONSTELLATION_GAL, 1540, 4092, 1, 4, 0, false},
      {CODE_AUX_QZS, "QZS AUX", CONSTELLATION_QZS, 1540, 1023, 1, 1, 0, false},
      {CODE_AUX_BDS, "BDS AUX", CONSTELLATION_BDS, 1526, 2046, 2, 1, 0, false},
  };
  return p;
}
struct ConsPlan {
  constellation_t cons;
  unsigned first, count;
  const char *name;
  char letter;
  code_t l1, l5;
  double dop_max, dop_carrier; /* Hz, and the carrier it refers to */
};
inline const std::vector<ConsPlan> &cons_plan() {
  static const std::vector<ConsPlan> p = {
      {CONSTELLATION_GPS, 1, 32, "GPS", 'G', CODE_GPS_L1CA, CODE_GPS_L5I, 4200, 1575.42e6},
      {CONSTELLATION_SBAS, 120, 19, "SBAS", 'S', CODE_SBAS_L1CA, CODE_INVALID, 210, 1575.42e6},
      {CONSTELLATION_GLO, 1, 28, "GLO", 'R', CODE_GLO_L1OF, CODE_INVALID, 4820, 1602e6},
      {CONSTELLATION_BDS, 1, 64, "BDS", 'C', CODE_BDS2_B1, CODE_BDS3_B5I, 4200, 1561.098e6},
      {CONSTELLATION_QZS, 193, 10, "QZS", 'J', CODE_QZS_L1CA, CODE_QZS_L5I, 1200, 1575.42e6},
      {CONSTELLATION_GAL, 1, 36, "GAL", 'E', CODE_GAL_E1B, CODE_GAL_E5I, 4000, 1575.42e6},
  };
  return p;
}
inline const ConsPlan &cons_of(constellation_t c) {
  for (auto &p : cons_plan())
    if (p.cons == c) return p;
  abort();
}
inline const SigPlan *plan_of(code_t c) {
  for (auto &p : plan())
    if (p.code == c) return &p;
  return nullptr;
}
inline gnss_signal_t sid(code_t code, unsigned sat) {
  gnss_signal_t s;
  memset(&s, 0, sizeof(s));
  s.code = code;
  s.sat = static_cast<u16>(sat);
  return s;
}
/* every valid signal by the reference plan */
inline const std::vector<gnss_signal_t> &all_sids() {
  static std::vector<gnss_signal_t> v;
  if (v.empty()) {
    for (auto &p : plan()) {
      const ConsPlan &k = cons_of(p.cons);
      for (unsigned i = 0; i < k.count; i++) v.push_back(sid(p.code, k.first + i));
    }
  }
  return v;
}
inline std::string str(const gnss_signal_t &s) {
  char b[48];
  snprintf(b, sizeof b, "(code %d sat %u)", static_cast<int>(s.code), s.sat);
  return b;
}
} /* namespace gnss */
#endif
