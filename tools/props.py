#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, qtext, why, files, mech, over=("inputs",), note="", tech="", obs=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), qtext=qtext, why=why,
                  files=files.split(), mech=mech, over=list(over), note=note, tech=tech, obs=obs))

S, H = "src/", "include/swiftnav/"

p("C01", "Bit-field reads return exactly the addressed bits",
  """Reading an unsigned or two's-complement signed field of any width up to 32 bits (64 bits for the long forms) at any bit
  offset of a buffer returns exactly the value of those bits, most significant bit first. No byte outside the bytes that hold
  the field is read, and the buffer is not modified.""",
  "every buffer content, bit offset and width, including fields that end at the last bit of the buffer",
  "tests read a few fixed fields of fixed buffers; widths x offsets x contents is unbounded and over-reads are invisible to them",
  S+"bits.c "+H+"bits.h", ["getbitu/getbits@src/bits.c", "getbitul/getbitsl@src/bits.c"],
  tech="differential monitor against a naive bit-array model under ASan+UBSan, exact-size heap buffers")
p("C02", "Bit-field writes change exactly the addressed bits",
  """Writing an unsigned or signed field of any width at any bit offset stores the low bits of the value most significant bit
  first, so that reading the field returns it, and leaves every other bit of the buffer unchanged. Copying a bit range between
  buffers and shifting a buffer left likewise change exactly the destination bits (shifted-in bits are zero), and no byte outside the
  buffers is touched.""",
  "every buffer content, offsets, widths and values; every source/destination alignment of a bit copy; every shift",
  "tests write a few fixed fields and copy two ranges; neighbours of the field and buffer ends are not observed",
  S+"bits.c", ["setbitu/setbits/setbitul/setbitsl@src/bits.c", "bitcopy/bitshl@src/bits.c"],
  tech="differential monitor against a naive bit-array model under ASan+UBSan")
p("C03", "Bit arithmetic: parity, population count, interleave, byte order",
  """Parity, the counting of ones or zeros in 8/16/32/64-bit words, the interleaving of two bytes and the byte-swapping and
  endian conversions return the mathematically defined result for every argument. Endian conversions are involutions and agree
  with the big- or little-endian byte layout in memory.""",
  "all argument values (8- and 16-bit arguments exhaustively)", "tests try a handful of words",
  S+"bits.c "+H+"bits.h", ["parity/count_bits_*/bytes_interleave@src/bits.c", "byte_swap_*/htobe_*@include/swiftnav/bits.h"],
  tech="exhaustive and random differential monitor under UBSan")
p("C04", "Bit and byte stream cursors never pass the end of the data",
  """A sequence of reads (or writes) and skips on a bit or byte stream yields exactly the corresponding fields of the underlying data at
  the cursor, and the remaining count always equals the stream length minus what was consumed, clamped at zero. An access that does not fit in
  what remains is refused, touches nothing outside the buffer and leaves cursor and output unchanged, for every length, position and count including
  the largest representable ones.""",
  "every history of get/set/skip/remaining operations on streams of every length, including extreme counts",
  "tests read a few in-range fields; histories that reach and pass the end and arithmetic at the type limits are not driven",
  H+"bitstream.h "+H+"bytestream.h", ["would_overflow guards@include/swiftnav/bitstream.h", "would_overflow guard@include/swiftnav/bytestream.h"],
  over=("histories", "inputs"), tech="model-based history monitor (cursor model) under ASan+UBSan")
p("C05", "CRC-24Q equals the polynomial remainder for bytes and bit strings",
  """The CRC over a byte buffer equals the remainder of the CRC-24Q polynomial division started from the given initial value, so computing it in pieces
  gives the same result as computing it at once, and a message followed by its CRC has CRC zero. The bit-string variant equals the CRC of the (optionally inverted) message
  left-padded with zero bits to whole bytes, for every bit length, and neither form reads outside the message's bytes; every 1- or 2-bit error and every burst up to 24 bits changes the CRC.""",
  "every message content and length, initial value, split point, inversion flag and error pattern of the stated classes",
  "tests compare a few constants; the table has 256 entries and the bit variant has eight alignments",
  S+"edc.c", ["crc24q table@src/edc.c", "crc24q_bits padding@src/edc.c"],
  tech="differential monitor against a bit-serial polynomial division under ASan")
p("C06", "Byte FIFO delivers bytes exactly once, in order, within capacity",
  """For every history of writes, reads, peeks and removals the FIFO behaves as a bounded queue of its buffer's capacity: each accepted byte is delivered
  exactly once and in order, a peek does not consume, length plus space equals the capacity, and each operation moves exactly the smaller of the requested
  amount and what is available. Memory outside the FIFO's buffer and the caller's stated lengths is never touched, also when the internal counters wrap around.""",
  "every history of operations with any lengths, power-of-two buffer sizes, any starting counter values",
  "no test exercises the FIFO at all", S+"fifo_byte.c", ["index masking and INDEX arithmetic@src/fifo_byte.c"], over=("histories",),
  tech="model-based history monitor (bounded queue) under ASan+UBSan with counter-wrap injection")
p("C07", "Byte FIFO is safe with one producer and one consumer thread",
  """With one thread writing and another reading the same FIFO without any lock, the bytes read are exactly the bytes written, in order, without loss or
  duplication, and there is no data race between the two threads.""",
  "every interleaving of one writer and one reader", "no test exercises the FIFO, single- or multi-threaded",
  S+"fifo_byte.c", ["index publication after the data copy@src/fifo_byte.c"], over=("schedules", "histories"),
  tech="ThreadSanitizer plus sequence-number order checker over two-thread stress")
p("C08", "Sorted-array set operations compute mathematical sets",
  """On sorted duplicate-free arrays with any element size and consistent comparison, intersection (also in callback form) yields exactly the common elements in order, each once, taken from both arrays;
  insertion places an absent element at its sorted position, and removal drops the first element not less than the given one (the last one when all are less, nothing from an empty array), each returning that position.
  The set predicate holds exactly for strictly increasing arrays, inputs are not modified, and no memory outside the inputs and the elements output is accessed.""",
  "every pair of arrays, sizes (including empty), element sizes and elements", "tests use a few fixed arrays; removal and insertion at the extremes and on empty arrays are not covered",
  S+"set.c", ["intersection_map/intersection@src/set.c", "insertion_index/remove_element/insert_element@src/set.c", "is_set@src/set.c"],
  tech="differential monitor against std::set under ASan")
p("C09", "Signal-set bookkeeping counts distinct signals and satellites",
  """For every history of additions and removals, a signal set contains exactly the signals added and not since removed; its signal count is the number of distinct signals in it and its satellite
  count the number of distinct (constellation, satellite) pairs among them.""",
  "every history of add/remove/query over all valid signals", "tests add a few signals",
  S+"sid_set.c", ["per-constellation satellite masks@src/sid_set.c"], over=("histories",),
  tech="model-based history monitor under ASan+UBSan")
p("C10", "Signal, code and constellation tables are mutually consistent",
  """For every code and satellite, validity, the mapping to constellation, the dense per-code index and its inverse, the satellite and signal counts, the text labels and their parsing, and
  carrier frequency, wavelength, chip rate, chip count, code period and Doppler limits (and phase alignment, acquisition and decoder attributes) agree with each other and with the published signal plans; GLONASS frequencies follow the mapped frequency slot.""",
  "all codes x all satellite numbers x all GLONASS slots (exhaustive), arbitrary label strings", "tests check a few codes and labels",
  S+"signal.c "+H+"signal.h", ["code_table/constellation_table@src/signal.c", "sid_to_code_index/sid_from_code_index@src/signal.c", "sid_to_carr_freq@src/signal.c"],
  over=("inputs", "configurations"), tech="exhaustive table monitor against an independently written signal plan under ASan+UBSan")
p("C11", "Signal ordering and identity are a consistent total order; labels are bounded",
  """Comparison of signals is a strict total order on valid signals consistent with equality, so sorting and searching by it are well defined, signals of one constellation are contiguous, and
  distinct signals of valid codes never share a hash. Text rendering of a signal writes at most the given size, is always terminated, and distinguishes distinct signals; measurements are ordered by their signal alone.""",
  "all pairs and triples of signals; all buffer sizes", "tests compare a few pairs",
  S+"signal.c "+H+"signal.h "+S+"nav_meas.c", ["sid_hash/sid_compare@include/swiftnav/signal.h", "sid_to_string@src/signal.c", "nav_meas_cmp@src/nav_meas.c"],
  tech="order-axiom monitor over exhaustive pairs and sampled triples under ASan")
p("C12", "GLONASS slot map reflects the last assignments, under the caller's lock",
  """For every history of assignments, clears and queries, the frequency returned for a slot is the one last assigned to it and not cleared, a slot is reported mapped exactly in that case, and the reverse
  query returns the number and identities of the slots currently on that frequency. Every access to the shared map happens between one call of the registered lock callback and the matching unlock,
  so concurrent users never race.""",
  "every history over all slots and frequencies; concurrent histories", "tests set and get a few entries from one thread",
  S+"glo_map.c", ["lock/unlock callbacks@src/glo_map.c", "slot table@src/glo_map.c"], over=("histories", "schedules"),
  tech="model-based history monitor + lock-bracketing trace checker + ThreadSanitizer stress")
p("C13", "Checked memory copy never overruns and reports every misuse",
  """A checked copy succeeds exactly when pointers are valid, the count fits the destination and the regions do not overlap, and then the destination's first bytes equal the source and all other bytes are unchanged.
  Otherwise it returns the documented error, the destination is either untouched or zeroed within its stated size as documented, and nothing beyond it is touched.""",
  "every destination size, count, relative placement of the two regions and null arguments", "tests try one placement per outcome",
  S+"memcpy_s.c", ["size and overlap checks@src/memcpy_s.c"], tech="differential monitor over all small placements under ASan")
p("C14", "Status-report callbacks receive each report exactly once while registered",
  """Each report sent is delivered exactly once to every currently registered callback with its own context and unchanged contents, and to no deregistered one, for every order of register, deregister,
  reset and send operations, deregistration from inside a callback included.""",
  "every history of register/deregister/reset/send over several callbacks", "tests register at most a few callbacks in one order",
  S+"subsystem_status_report.c", ["callback list@src/subsystem_status_report.c"], over=("histories",),
  tech="model-based history monitor (delivery log vs registered set) under ASan")
p("C15", "Satellite health words decode to the published healthy/unhealthy verdict",
  """For every health word value and code, the 8-bit, 6-bit and almanac-page health checks report a signal healthy exactly when the GPS interface document says that signal is usable, and the subframe health field
  is extracted unchanged. A data-health indication is accepted exactly when it reports no error or an error the caller has disabled.""",
  "all health words x all GPS codes (exhaustive)", "tests sample some words",
  S+"shm.c", ["check_8bit_health_word/check_6bit_health_word@src/shm.c", "check_nav_dhi@src/shm.c"],
  tech="exhaustive differential monitor against tables transcribed from the interface document")
p("C16", "GPS time arithmetic stays normalised and is exact to rounding",
  """Normalising a time or duration, adding seconds, and differencing two times preserve the instant to double rounding; results always have a time of week in [0, 604800), adding then differencing returns what was added, and
  differencing is antisymmetric. Range, validity and comparison predicates agree with the signed difference, unknown weeks are resolved to the nearest, and normalisation of a time that cannot be represented is refused rather than looping or overflowing.""",
  "every week and second value incl. boundaries, negatives, tiny and huge offsets, unknown weeks", "tests sample a few offsets around one boundary",
  S+"gnss_time.c "+H+"gnss_time.h", ["normalize_gps_time*/add_secs/gpsdifftime@src/gnss_time.c", "gpstime_in_range@src/gnss_time.c"],
  tech="differential monitor against extended-precision time arithmetic under UBSan float-cast checks")
p("C17", "Truncated week numbers resolve to the documented full week",
  """Resolving a 10-bit or 8-bit broadcast week against a reference returns the unique week with the same low bits that lies within the documented window of the reference.
  Matching a time without a week to a reference yields the week that puts it within half a week of the reference.""",
  "all 16-bit raw weeks and references (dense), all seconds", "tests check a few references",
  S+"gnss_time.c", ["gps_adjust_week_cycle*@src/gnss_time.c", "gps_time_match_weeks@src/gnss_time.c"],
  tech="exhaustive/dense differential monitor under UBSan")
p("C18", "Calendar, Julian-date and GPS time conversions agree and round-trip",
  """Conversions between calendar date, modified Julian date, UTC structure, Unix time and GPS time agree with the proleptic Gregorian calendar for every supported instant, every produced date is a valid
  date (month, day, hour, minute, second, weekday and day of year in range and mutually consistent), and converting there and back returns the same instant to the precision of the representation.
  Greenwich sidereal time follows the IAU 1982 expression modulo a turn.""",
  "every instant from the GPS epoch through the supported era, all calendar boundaries, sub-second fractions", "tests sample a few dates and a coarse sweep",
  S+"gnss_time.c", ["mjd2date/date2mjd/utc2date@src/gnss_time.c", "gps2utc/utc2gps/make_utc_tm@src/gnss_time.c", "gps2time/time2gps_t@src/gnss_time.c"],
  tech="differential monitor against integer day-count arithmetic and libc gmtime under UBSan")
p("C19", "Leap seconds are applied once, at the published instants",
  """Without broadcast parameters the GPS-UTC offset equals the published number of leap seconds at each instant, changing only at the published insertions where the second is labelled 60; with broadcast parameters it equals the broadcast
  polynomial plus the current or future leap count around the announced event. UTC time produced is monotonic across events, converting back recovers the GPS time, and a leap second is reported exactly during that one second.
  Broadcast parameters decode from their message words to exactly the encoded values and event time.""",
  "every instant near and away from every leap second; every broadcast parameter set with valid ranges", "tests sample some leap seconds and one or two parameter sets",
  S+"gnss_time.c "+H+"leap_seconds.h", ["get_gps_utc_offset/get_utc_gps_offset/is_leap_second_event@src/gnss_time.c", "leap second table@include/swiftnav/leap_seconds.h"],
  tech="differential and monotonicity monitor against an independent leap-second list under UBSan")
p("C20", "GLONASS time converts to GPS time and back",
  """Converting GLONASS four-year-interval, day-number and time-of-day to GPS time yields the instant three hours behind Moscow time plus leap seconds, for every valid interval, day and second including leap days and year ends, and converting back
  returns the same fields.""",
  "all days of all four-year intervals in the supported era, all seconds of day, with and without broadcast UTC parameters", "tests sample a few dates",
  S+"gnss_time.c", ["glo2gps/gps2glo@src/gnss_time.c"], tech="dense differential monitor against integer calendar arithmetic")
p("C21", "Epoch rounding picks the nearest (or preceding) epoch of the solution rate",
  """Rounding a time to a solution frequency returns an epoch multiple of the solution period within half a period of the input, flooring returns the latest epoch not after it (to a stated guard), both normalised; rounding an already rounded time changes nothing.""",
  "all times of week incl. week boundaries, solution frequencies used in practice", "tests sample a few times",
  S+"gnss_time.c", ["round_to_epoch/floor_to_epoch@src/gnss_time.c"], tech="property monitor with extended precision")
p("C22", "GPS LNAV ephemeris decoding reproduces the broadcast values",
  """For every combination of broadcast field values, decoding subframes 1-3 yields each orbit, clock, group-delay, accuracy, health, fit-interval and issue-of-data value exactly as encoded per the interface document, with week numbers resolved
  against the reference, and marks the ephemeris valid exactly when its issue-of-data fields agree and its times are in range. It reads only the given words, and equal input gives equal output.""",
  "every subframe content", "tests decode one or two captured subframes",
  S+"ephemeris.c", ["decode_ephemeris_with_wn_ref@src/ephemeris.c", "decode_fit_interval@src/ephemeris.c"],
  tech="encode-decode round-trip monitor with an independent LNAV encoder under ASan+UBSan")
p("C23", "BeiDou D1 ephemeris decoding reproduces the broadcast values",
  """For every combination of broadcast field values, decoding BeiDou D1 subframes 1-3 yields each orbit, clock, group-delay, accuracy and health value exactly as encoded per the interface document, leaves
  the valid flag and fit interval, which the message does not carry, as the caller set them, and the issue-of-data checksum depends on exactly the orbit and clock content.""",
  "every subframe content", "tests decode one captured set", S+"ephemeris.c", ["decode_bds_d1_ephemeris@src/ephemeris.c", "get_bds2_iod_crc@src/ephemeris.c"],
  tech="encode-decode round-trip monitor with an independent D1 encoder under ASan+UBSan")
p("C24", "Galileo I/NAV ephemeris decoding reproduces the broadcast values",
  """For every combination of broadcast field values, decoding I/NAV word types 1-5 yields each orbit, clock, group-delay, accuracy, health and time value exactly as encoded per the interface document. Page content with an
  out-of-range reference time is refused by the checked form rather than decoded.""",
  "every page content", "tests decode one captured set", S+"ephemeris.c", ["decode_gal_ephemeris/decode_gal_ephemeris_safe@src/ephemeris.c"],
  tech="encode-decode round-trip monitor with an independent I/NAV encoder under ASan+UBSan")
p("C25", "GLONASS string decoding reproduces the broadcast values",
  """For every combination of broadcast field values, decoding strings 1-5 yields positions, velocities, accelerations, clock terms, health, accuracy, fit interval and reference time exactly as encoded per the interface
  document (sign-magnitude fields included), and a string of the wrong number, with failed check bits or with out-of-limit values is refused; without a valid reference time the result is not marked valid.""",
  "every string content", "tests decode a few captured strings", S+"decode_glo.c "+S+"ephemeris.c", ["decode_glo_string_1..5@src/decode_glo.c", "decode_glo_ephemeris@src/ephemeris.c"],
  tech="encode-decode round-trip monitor with an independent string encoder under ASan+UBSan")
p("C26", "GLONASS string error check accepts valid strings and flags errors",
  """The string check accepts every correctly encoded string, locates every single-bit data error, and never accepts a string whose data bits carry one or two bit errors as correct.""",
  "every string content, every single-bit and double-bit error pattern", "tests flip bits of a few captured strings",
  S+"decode_glo.c", ["error_detection_glo@src/decode_glo.c"], tech="exhaustive error-injection monitor with an independent encoder")
p("C27", "Accuracy indices encode and decode per the interface tables",
  """Decoding a GPS, BeiDou or Galileo accuracy index gives the published bound for every index and the invalid marker otherwise; encoding an accuracy gives the smallest index whose bound covers it, so decoding an encoded accuracy
  never understates it.""",
  "all 256 index values (exhaustive), all accuracies", "tests sample some indices", S+"ephemeris.c", ["encode_ura/decode_ura_index/decode_sisa_index/decode_bds_ura_index@src/ephemeris.c"],
  tech="exhaustive monitor against interface-document tables under ASan+UBSan")
p("C28", "Ephemeris validity verdict follows flags, accuracy, health and age",
  """An ephemeris is reported usable at a time exactly when its time of ephemeris is set, it is flagged valid, its accuracy and fit interval are usable, its health bits are good for the signal, its issue-of-data fields are consistent, and both the time and the clock reference time lie within its fit interval (centred on the time of ephemeris for GPS, QZSS and GLONASS, starting there for BeiDou and Galileo; SBAS has no age limit);
  otherwise the first failing reason is reported. An ephemeris not flagged valid is presumed healthy by the separate health query. The short and detailed verdicts always agree.""",
  "every combination of flag, accuracy, fit interval, health word, constellation and time offset incl. boundaries", "tests sample a few combinations",
  S+"ephemeris.c", ["ephemeris_valid_detailed/get_ephemeris_status_t@src/ephemeris.c", "ephemeris_healthy@src/ephemeris.c"], tech="differential monitor against a rule table")
p("C29", "Ephemeris and almanac equality holds exactly for equal contents",
  """Two ephemerides (or almanacs, or sets of ionosphere coefficients) compare equal exactly when every broadcast parameter relevant to their constellation is equal; a difference in any single parameter by more than the comparison tolerance (1e-12) makes them unequal, and equality is reflexive and symmetric.""",
  "every constellation, every single-field perturbation", "tests perturb a few fields", S+"ephemeris.c "+S+"almanac.c", ["ephemeris_equal@src/ephemeris.c", "almanac_equal@src/almanac.c"],
  tech="single-field mutation monitor")
p("C30", "Satellite position and clock from ephemeris follow the published model",
  """For every valid Keplerian ephemeris and time, the computed satellite position and clock offset equal the published user algorithm (including harmonic corrections, Earth rotation, the relativistic clock term, the group-delay correction of the ephemeris's signal, BeiDou geostationary
  rotation and per-system constants) to sub-millimetre and picosecond-level rounding. The group-delay correction of each signal follows its constellation's interface document, and the eccentric anomaly solved for satisfies Kepler's equation.""",
  "every constellation, eccentricity, inclination, time offset incl. week rollover", "tests compare one or two ephemerides at a few times",
  S+"ephemeris.c", ["calc_sat_state_kepler/calc_sat_state_n@src/ephemeris.c"], tech="differential monitor against an independent long-double implementation under UBSan")
p("C31", "Satellite velocity, acceleration and clock drift are the time derivatives",
  """For every satellite state computed from an ephemeris or almanac, velocity is the time derivative of position, acceleration the derivative of velocity and clock drift the derivative of clock offset (to within 1e-10, so that the periodic relativistic term may be left out of the drift), and states are continuous in time.""",
  "every ephemeris type and time", "tests compare stored values at isolated times", S+"ephemeris.c "+S+"almanac.c", ["calc_sat_state_kepler@src/ephemeris.c", "calc_sat_state_glo@src/ephemeris.c", "calc_sat_state_xyz@src/ephemeris.c"],
  tech="finite-difference consistency monitor over trajectories")
p("C32", "GLONASS and SBAS orbit propagation satisfy the broadcast force model",
  """The GLONASS satellite state at any time within validity agrees with an accurate numerical integration of the interface document's equations of motion from the broadcast state, in both time directions and independent of step splitting, and equals the broadcast state at the reference time;
  SBAS states follow the broadcast quadratic exactly.""",
  "every plausible broadcast state and time offset in validity", "tests compare one ephemeris", S+"ephemeris.c", ["calc_sat_state_glo Runge-Kutta@src/ephemeris.c", "calc_sat_state_xyz@src/ephemeris.c"],
  tech="differential monitor against fine-step long-double integration")
p("C33", "Azimuth, elevation and Doppler describe the true geometry",
  """Azimuth and elevation of a satellite equal the angles of the line of sight in the receiver's local frame, with azimuth in [0, 2pi] and elevation in [-pi/2, pi/2]; the predicted Doppler equals the projection of satellite relative velocity on the line of sight scaled by the signal's wavelength,
  including for a moving receiver.""",
  "every receiver and satellite position and velocity incl. poles, zenith and date line", "tests sample a few geometries; moving-receiver Doppler has none",
  S+"coord_system.c "+S+"ephemeris.c "+S+"almanac.c", ["wgsecef2azel@src/coord_system.c", "calc_sat_az_el/calc_sat_doppler@src/ephemeris.c", "calc_sat_doppler_almanac@src/almanac.c"],
  tech="differential monitor with independent vector geometry")
p("C34", "GPS almanac decoding, health, validity and propagation follow the document",
  """Almanac pages decode to exactly the encoded orbit, clock, reference-time and health values, pages of other kinds are refused, satellite states computed from an almanac follow the published algorithm and are refused when the almanac is not usable, and validity holds exactly for a flagged, healthy, dated almanac no further than half its fit interval from its reference time; a page whose reference time lies beyond the end of the week does not yield a valid almanac.""",
  "every page content; every plausible almanac and time", "tests decode a captured set of pages", S+"almanac.c", ["almanac_decode*@src/almanac.c", "calc_sat_state_almanac@src/almanac.c", "almanac_valid@src/almanac.c"],
  tech="encode-decode round-trip and differential monitor under ASan+UBSan")
p("C35", "Ionospheric parameters decode and the Klobuchar delay follows the model",
  """Decoded GPS and BeiDou ionospheric coefficients equal the encoded ones and other pages are refused; the delay equals the published Klobuchar model for every time, location and direction, is never below the night-time floor, is periodic by day and finite.""",
  "every coefficient set, time, location and direction incl. the horizon, zenith and poles", "tests compare three evaluations", S+"ionosphere.c", ["calc_ionosphere@src/ionosphere.c", "decode_iono_parameters/decode_bds_d1_iono@src/ionosphere.c"],
  tech="differential monitor against an independent Klobuchar implementation + encode-decode round trip under UBSan")
p("C36", "Tropospheric delay is physical: bounded, monotonic, hemisphere-symmetric",
  """The tropospheric delay is finite, non-negative, zero where the model does not apply, decreases with elevation and with height, lies within the physically known range at zenith for sea-level stations, and for mirrored hemispheres is equal half a year apart.""",
  "every day of year, latitude, height and elevation", "tests compare a few values", S+"troposphere.c", ["UNB3 tables and mapping@src/troposphere.c"], tech="metamorphic and differential monitor (independent UNB3) under UBSan")
p("C37", "Geoid undulation is continuous, bounded and periodic over the globe",
  """The geoid offset is defined everywhere on the globe, is continuous (neighbouring points differ by little, also across grid cells, the date line, Greenwich and near the poles), is 360-degree periodic in longitude, stays within the model's known range, equals the grid value at grid nodes and its bicubic interpolation (bilinear next to the poles) between them.""",
  "every latitude and longitude", "the 15-minute model is not shipped and its tests are disabled, so nothing tests the geoid here",
  S+"geoid_model.c", ["bilinear interpolation@src/geoid_model.c", "GEOID grid@src/geoid_model_1_degree.inc"], tech="continuity/periodicity monitor under ASan+UBSan with independent grid reader")
p("C38", "Geodetic and Earth-centred coordinates convert consistently",
  """Converting latitude, longitude and height to Earth-centred coordinates follows the WGS84 ellipsoid formula, and converting back recovers the point to sub-millimetre for every location and height from deep inside the Earth's crust to far beyond GNSS orbits, with latitude in [-pi/2, pi/2] and longitude in [-pi, pi];
  degree/radian conversions are inverse.""",
  "every location incl. poles, equator, date line; heights from -6000 km to beyond 60000 km where unique", "tests sample tens of points",
  S+"coord_system.c", ["wgsecef2llh iteration@src/coord_system.c", "wgsllh2ecef@src/coord_system.c"], tech="round-trip and differential monitor (long double)")
p("C39", "Local north-east-down frames are right-handed rotations and invert",
  """The local frame at any point is an orthonormal right-handed rotation whose down axis is the ellipsoid normal, north points to increasing latitude and east to increasing longitude; converting vectors or points into the frame and back returns them, preserving lengths and angles.""",
  "every reference point and vector", "tests sample tens of points", S+"coord_system.c", ["ecef2ned_matrix@src/coord_system.c", "wgsecef2ned/wgsned2ecef*@src/coord_system.c"], tech="algebraic property monitor against finite differences of the ellipsoid")
p("C40", "Matrix and vector primitives compute the mathematical result",
  """Products, sums, transposes, copies, sub-matrices, identity, triangular truncation, diagonal scaling, and vector dot, cross, norm, mean, distance and normalisation equal their definitions for every dimension, integer variants exactly, and write only their output.""",
  "every dimension (incl. non-square, 1xN) and finite contents", "tests use small fixed or few random matrices, mostly square",
  S+"linear_algebra.c", ["matrix_*/vector_*/submatrix*@src/linear_algebra.c"], tech="differential monitor against naive long-double definitions under ASan, exact-size heap outputs")
p("C41", "Matrix inversion and linear solving are correct or report singularity",
  """For every well-conditioned square matrix of any size the inverse times the matrix is the identity to rounding and the solver's solution satisfies the system; systems that are singular by construction (zero or repeated rows, zero columns, exact small-integer determinants) are reported as failures rather than returned as solutions; U-D factorisation reconstructs every positive-definite matrix with unit-triangular and positive factors (semidefinite ones with zero factors).""",
  "every size and well-conditioned matrix, including ones that need pivoting; exactly singular ones", "tests use fixed small or a few random matrices and no active test covers the QR routines",
  S+"linear_algebra.c", ["matrix_inverse 2/3/4/N paths@src/linear_algebra.c", "qrsolve/qrdecomp_square/rsolve/qtmult@src/linear_algebra.c", "matrix_udu/matrix_reconstruct_udu@src/linear_algebra.c"], tech="residual monitor (A*inv(A), A*x-b, U*D*U') under ASan+UBSan")
p("C42", "Weighted least squares and pseudo-inverses satisfy the normal equations",
  """The weighted least-squares solution and covariance satisfy the normal equations for every full-rank system, and the pseudo-inverse of a full-rank tall, square or wide matrix is its left (right) inverse and satisfies the Penrose conditions, with the (weighted) building blocks equal to their algebraic definitions; an exactly rank-deficient system is refused with -1 and no solution is written.""",
  "every tall, square and wide system, full-rank or exactly rank-deficient, and positive weights", "no active test covers the pseudo-inverse or its building blocks; least squares is tested on few systems",
  S+"linear_algebra.c", ["matrix_wlsq_solve@src/linear_algebra.c", "matrix_pseudoinverse/matrix_atwaiat/matrix_atawati@src/linear_algebra.c"], tech="normal-equation residual monitor under ASan")
p("C43", "Position, velocity and time solution recovers the truth",
  """Given consistent measurements from enough satellites in good geometry, the solver converges to the receiver's true position, velocity, clock offset and clock drift, for any receiver location, clock bias and mix of constellations; dilution-of-precision values and covariances equal those of the geometry, weighted by noise that depends on signal quality only and that the wavelength converts for Dopplers.""",
  "every receiver location, satellite geometry, constellation mix, clock state and initial time error", "tests solve a few fixed measurement sets",
  S+"single_epoch_solver.c", ["pvt_solve iteration@src/single_epoch_solver.c", "vel_solve@src/single_epoch_solver.c", "compute_dops@src/single_epoch_solver.c"], tech="simulation monitor: synthesised truth vs solution under ASan+UBSan with uninitialised-variable poisoning")
p("C44", "Integrity monitoring removes a faulty satellite and never hides a bad fix",
  """When one satellite's pseudorange is grossly wrong among enough redundant ones, the solution with integrity checking is still close to the truth, the faulty signal is named as excluded and the outcome reports the repair; fault-free input (weak signals whose errors stay within their own expected noise included) excludes nothing, and when repair is impossible or fails the solution is not marked valid.""",
  "every choice of faulty satellite, fault size, geometry and constellation mix", "tests inject a fault into one fixed set", S+"single_epoch_solver.c", ["pvt_solve_raim/pvt_repair@src/single_epoch_solver.c"], over=("inputs", "fault_sequences"), tech="fault-injection monitor on simulated geometry")
p("C45", "Solver return code, validity flags and counts tell one consistent story",
  """For every input the solver's return code, solution validity, velocity validity, satellite and signal counts, excluded set and dilution values are mutually consistent: an error code never leaves a valid solution, counts equal the satellites and signals really used, disabled or unavailable velocity is not reported valid,
  altitude and velocity limits are enforced, too few satellites are refused, and only signals of the chosen strategy whose carrier-to-noise ratio exceeds the configured mask take part.""",
  "every number of measurements from none to the maximum, flags, duplicates, geometry quality", "tests check return codes of a few fixed sets", S+"single_epoch_solver.c", ["calc_PVT/calc_PVT_pred/filter_solution@src/single_epoch_solver.c"], tech="contract monitor over hostile and realistic measurement sets under ASan+UBSan")
p("C46", "Solver output depends only on its input, not on order or memory contents",
  """Solving the same measurements again gives bit-identical results whatever ran before, results do not depend on the contents of uninitialised memory or previous output contents, and permuting the measurements changes the solution only by rounding.""",
  "every measurement set and permutation; histories of calls", "tests run each set once", S+"single_epoch_solver.c "+S+"linear_algebra.c", ["local state initialisation@src/single_epoch_solver.c"], over=("inputs", "histories"), tech="differential execution of zero- and pattern-initialised builds, permutation metamorphic monitor")
p("C47", "Measurement helpers: lock time coding, corrections, equality and flags",
  """Lock-time encoding is monotonic, never overstates the lock time and decoding an encoded time gives the start of its class; satellite clock corrections add the satellite clock offset to pseudorange and carrier phase and take the drift off the measured Doppler (which is minus a range rate), each in its own units; equality holds exactly for equal measurements; flag and pseudorange validity follow their definition.""",
  "all lock times and codes, all clock states and signals, every single-field perturbation, all flag words", "tests sample some lock times only", S+"nav_meas.c", ["encode_lock_time/decode_lock_time@src/nav_meas.c", "nav_meas_cor_sat_clk_*@src/nav_meas.c", "nav_meas_equal@src/nav_meas.c"], tech="exhaustive/dense and mutation monitors under UBSan")
p("C48", "GLONASS inter-frequency bias messages are interpreted per signal",
  """For the GLONASS L1OF and L2OF signals the bias returned is the reference receiver's own (zero) minus the one carried for that signal when its presence flag is set, else minus the one carried for the P-code signal of the same band when that flag is set, else zero, in metres; other signals get zero; a presence flag counts as set only when all its bits are; two bias messages are equal exactly when masks and all biases are equal.""",
  "all masks x codes (exhaustive), bias values", "no test covers this file", S+"glonass_phase_biases.c", ["get_glonass_bias@src/glonass_phase_biases.c"], tech="exhaustive differential monitor")
p("C49", "Log messages reach the installed sink once; paths are truncated safely",
  """After a sink is installed, every log statement at an enabled level calls it exactly once with its level, format and arguments; disabled levels call nothing; the file path passed along is the trailing base-name part of the original and stays within its buffer.""",
  "all levels, sinks, paths", "tests check one or two calls", S+"logging.c "+S+"logging_common.c "+H+"logging.h", ["log_/detailed_log_ dispatch@include/swiftnav/logging.h", "truncate_path_@src/logging_common.c"], over=("inputs", "configurations"), tech="trace monitor on installed sinks under ASan")
p("C50", "Pure computations are re-entrant",
  """Functions that take all their state from arguments give the same results when called concurrently from many threads as when called alone, with no data race.""",
  "every interleaving of concurrent calls", "tests are single-threaded", "src include/swiftnav", ["absence of hidden static state@src/"], over=("schedules",), tech="ThreadSanitizer plus result comparison against a sequential run")
p("C54", "Results depend on the arguments alone, not on earlier calls",
  """Apart from the documented global state (the GLONASS slot map and the logging callbacks), every function's result and outputs depend on the current contents of its arguments alone: not on earlier calls, on values the same memory held before, on where the arguments lie, or on how long the process has been running.""",
  "every history of calls, with arguments reused, changed in place, moved and returned to earlier values", "unit tests call each function with a handful of unrelated arguments", "src include/swiftnav", ["absence of hidden caches and static state@src/"], over=("inputs", "histories"), tech="differential monitor: long-lived instance of the library against an instance loaded for the one call, bit-identical outputs")
p("C51", "Hostile broadcast data and arguments never corrupt memory or hang",
  """Whatever bits arrive in navigation messages (any constellation) and whatever decoded values they lead to, decoding them and then evaluating satellite state, angles, Doppler, validity, time conversions, atmospheric corrections and position fixes terminates promptly (milliseconds of processor time per message, never seconds) and without out-of-bounds access, undefined behaviour or assertion failure.""",
  "every message content followed by every use of the decoded data", "tests use well-formed captured messages only", S+"ephemeris.c "+S+"almanac.c "+S+"decode_glo.c "+S+"gnss_time.c "+S+"ionosphere.c", ["range checks in decoders and evaluators@src/ephemeris.c"], over=("inputs", "histories"), tech="hostile-input workload under ASan+UBSan(+float-cast) with CPU watchdog")
p("C52", "Broadcast messages lead to the true position, end to end",
  """For fault-free GPS, QZSS, Galileo, BeiDou and GLONASS navigation messages and the measurements they imply, decoding the messages, evaluating the satellites' states, applying the broadcast ionosphere and the troposphere corrections and computing the fix yields the receiver's true position, velocity, clock and time, to the accuracy the geometry allows; satellites announced unhealthy or with outdated data are refused.""",
  "every message content, receiver place, epoch (week ends included) and mix of constellations", "tests check each stage against captured values, never the chain against physical truth", S+"ephemeris.c "+S+"decode_glo.c "+S+"ionosphere.c "+S+"troposphere.c "+S+"single_epoch_solver.c", ["message scaling@src/ephemeris.c", "navigation solution@src/single_epoch_solver.c"], over=("inputs", "configurations"), tech="end-to-end oracle: independent long-double simulation of satellites, clocks, signal travel and atmosphere, under ASan+UBSan")
p("C53", "Small helpers mean what they say",
  """Bounded string length never reads past the limit or the terminator and returns the smaller of both; array membership is true exactly for members; tolerance comparisons are symmetric, true exactly for differences below the tolerance and false for non-finite ones; GLONASS slot and channel predicates accept exactly 1..28 and 1..14; stream overflow predicates are exact up to 2^32; the arithmetic macros and zeroed arrays follow their definitions.""",
  "every argument, including sizes up to the limits", "tests cover none or a handful of values", "include/swiftnav "+S+"linear_algebra.c", ["bounded scan@include/swiftnav/swift_strnlen.h", "overflow predicates@include/swiftnav/bytestream.h"], tech="definition oracle on exact-size buffers under ASan+UBSan")

TRUST = ("Held on every execution of this run, nothing more: cases are generated from VERIF_SEED, the oracle is independent code in "
         "/verif/props/%s.cc, and clang's address and undefined-behaviour sanitizers (or ThreadSanitizer) watch the library rebuilt from "
         "/repo's working tree. Trusts the oracle's reading of the interface documents, the compiler and the sanitizer runtimes.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            mech = []
            for m in q["mech"]:
                n, w = m.split("@")
                mech.append({"name": n, "where": w})
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["qtext"]},
                                "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"], "mechanism": mech}}) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, "props", q["id"] + ".cc")):
            checks.append({"property": q["id"], "quick_cmd": "bin/check %s quick" % q["id"],
                           "thorough_cmd": "bin/check %s thorough" % q["id"],
                           "technique": q["tech"], "level": "exploration",
                           "level_note": TRUST % q["id"] + ((" " + q["note"]) if q["note"] else "")})
        else:
            na.append({"property": q["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bin/check --build-all", "checks": checks, "not_applicable": na,
         "notes": "No hooks were added to /repo; monitors observe the public interface of the rebuilt library."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
