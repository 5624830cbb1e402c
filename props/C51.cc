// @run variant=asan shards=8 cpu=2
#include "work.h"
using namespace mon;
RULE("case = the message words of one satellite (random, degenerate patterns, single bits, or hostile bits around a healthy consistent core so that the evaluators are reached) decoded by the GPS/QZSS, Galileo, BeiDou, "
     "GLONASS, almanac, UTC or ionosphere decoder into exact-size buffers, followed by every use a receiver makes of the result (status, validity, state, angles, Doppler, group delay, issue checksum, UTC/GLONASS/MJD "
     "conversions, atmosphere, position fix); the oracle is the sanitizers, assertions and the CPU watchdog. Non-trivial: every case; identity = hash of all outputs.");
NEED(decoded, 100000);
NEED(refused, 20000);
NEED(ephemeris_valid, 20000);
NEED(states, 100000);
NEED(nonfinite_states, 10000);
NEED(angles, 50000);
NEED(dopplers, 50000);
NEED(utc_uses, 20000);
NEED(almanacs, 5000);
NEED(iono_uses, 10000);
NEED(fixes_attempted, 3000);
NEED(fixes_accepted, 1000);
static void done(Ctx &c, const work::Out &o) {
  ev("decoded", o.decoded), ev("refused", o.refused), ev("ephemeris_valid", o.valid), ev("states", o.state), ev("nonfinite_states", o.state_nonfinite), ev("angles", o.azel), ev("dopplers", o.doppler), ev("utc_uses", o.utc),
      ev("almanacs", o.alm), ev("iono_uses", o.iono), ev("fixes_attempted", o.pvt), ev("fixes_accepted", o.pvt_ok);
  c.nt(o.h);
}
#define RUN(NAME, Q, T)             \
  SECTION(NAME, Q, T) {             \
    pvt::map_glo();                 \
    work::Out o;                    \
    work::NAME(c.r, o, nullptr);    \
    done(c, o);                     \
  }
RUN(gps, 150000, 9000000)
RUN(gal, 100000, 6000000)
RUN(bds, 100000, 6000000)
RUN(glo, 150000, 9000000)
RUN(pages, 150000, 9000000)
RUN(fix, 20000, 900000)
