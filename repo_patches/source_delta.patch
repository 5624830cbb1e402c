From 33fb4ea948ae43e94d17f677ea27b385d3b6cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:51 +0000
Subject: [PATCH 01/39] fix: setbitu shifted a signed 1 into the sign bit for
 31-bit fields

---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 3853567..56016c3 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -179,7 +179,7 @@ void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
   shift = count - shift;
 
   /* mask of bits to take from 'data' */
-  u32 data_mask = (len == 32 ? ~0 : ((1 << len) - 1));
+  u32 data_mask = (len == 32 ? ~0u : ((1u << len) - 1));
   /* in case 'data' has more bits than specified in 'len' */
   data &= data_mask;
 
-- 
2.43.0


From 0d069c3956bb958d37b0455a4b4600c700050ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:51 +0000
Subject: [PATCH 02/39] fix: crc24q_bits read one byte past messages of whole
 bytes

---
 src/edc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..71a7f57 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,11 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  acc <<= 8;
+  if (n_bits % 8 > 0) {
+    /* only look at the next byte when it holds message bits */
+    acc |= *buf;
+  }
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From ec23c9c6a9394f152453629e5732c266b7a0dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:12 +0000
Subject: [PATCH 03/39] fix: bit and byte stream bounds checks wrapped around
 for large positions

---
 include/swiftnav/bitstream.h  | 10 ++++++----
 include/swiftnav/bytestream.h |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..757ea28 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -75,7 +75,8 @@ static inline bool swiftnav_in_bitstream_getbitsl(
 
 static inline void swiftnav_in_bitstream_remove(swiftnav_in_bitstream_t *buf,
                                                 u32 len) {
-  buf->offset += len;
+  /* saturate, so that skipping past the end never wraps to the start */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_in_bitstream_remaining(
@@ -88,7 +89,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
@@ -139,7 +140,8 @@ static inline bool swiftnav_out_bitstream_setbitsl(
 
 static inline void swiftnav_out_bitstream_remove(swiftnav_out_bitstream_t *buf,
                                                  u32 len) {
-  buf->offset += len;
+  /* saturate, so that skipping past the end never wraps to the start */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 static inline u32 swiftnav_out_bitstream_remaining(
     swiftnav_out_bitstream_t *buf) {
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..433416f 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
@@ -42,7 +42,8 @@ static inline bool swiftnav_bytestream_get_bytes(
 
 static inline void swiftnav_bytestream_remove(swiftnav_bytestream_t *buf,
                                               u32 len) {
-  buf->offset += len;
+  /* saturate, so that skipping past the end never wraps to the start */
+  buf->offset = (len > UINT32_MAX - buf->offset) ? UINT32_MAX : buf->offset + len;
 }
 
 static inline u32 swiftnav_bytestream_remaining(swiftnav_bytestream_t *buf) {
-- 
2.43.0


From 2eddeeba5bf733c59a54838837e9a25b4720e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:05 +0000
Subject: [PATCH 04/39] fix: byte FIFO indices were shared between producer and
 consumer without atomics

---
 src/fifo_byte.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fifo_byte.c b/src/fifo_byte.c
index de01156..1e404fd 100644
--- a/src/fifo_byte.c
+++ b/src/fifo_byte.c
@@ -15,9 +15,23 @@
 #include <string.h>
 #include <swiftnav/fifo_byte.h>
 
+/* The producer and the consumer communicate through the two indices only: an
+ * index is published after the data it covers has been copied, and read before
+ * that data is accessed. */
+#if defined(__GNUC__) || defined(__clang__)
+#define INDEX_LOAD(p_index) __atomic_load_n((p_index), __ATOMIC_ACQUIRE)
+#define INDEX_STORE(p_index, value) \
+  __atomic_store_n((p_index), (value), __ATOMIC_RELEASE)
+#else
+#define INDEX_LOAD(p_index) (*(volatile const fifo_size_t *)(p_index))
+#define INDEX_STORE(p_index, value) \
+  (*(volatile fifo_size_t *)(p_index) = (value))
+#endif
+
 #define INDEX_MASK(p_fifo) ((p_fifo)->buffer_size - 1)
-#define LENGTH(p_fifo) \
-  ((fifo_size_t)((p_fifo)->write_index - (p_fifo)->read_index))
+#define LENGTH(p_fifo)                                   \
+  ((fifo_size_t)(INDEX_LOAD(&(p_fifo)->write_index) -    \
+                 INDEX_LOAD(&(p_fifo)->read_index)))
 #define SPACE(p_fifo) ((fifo_size_t)((p_fifo)->buffer_size - LENGTH(p_fifo)))
 #define MIN(x, y) (((x) < (y)) ? (x) : (y))
 
@@ -132,7 +146,7 @@ fifo_size_t fifo_remove(fifo_t *fifo, fifo_size_t length) {
   fifo_size_t read_length = MIN(length, fifo_length);
   if (read_length > 0) {
     /* Atomic write of read_index */
-    fifo->read_index += read_length;
+    INDEX_STORE(&fifo->read_index, fifo->read_index + read_length);
   }
 
   return read_length;
@@ -168,7 +182,7 @@ fifo_size_t fifo_write(fifo_t *fifo,
     }
 
     /* Atomic write of write_index */
-    fifo->write_index += write_length;
+    INDEX_STORE(&fifo->write_index, fifo->write_index + write_length);
   }
 
   return write_length;
-- 
2.43.0


From 9e0f0e8a396102b8d425120413dd7c4be02d2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 05/39] fix: remove_element overran its arrays when no element
 was at or above b

---
 src/set.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..9b821da 100644
--- a/src/set.c
+++ b/src/set.c
@@ -227,6 +227,14 @@ u32 remove_element(
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
 
+  if (na == 0) {
+    /* nothing to remove */
+    return 0;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
+
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
          (const char *)as + (index + 1) * sa,
-- 
2.43.0


From 6f2eb8fa063e07838c56e06690b56bf342ede06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 06/39] fix: signal table lookups read out of bounds for
 CODE_INVALID and other unknown codes

---
 src/signal.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..e00a165 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -900,6 +900,15 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                     false},
 };
 
+/** Look up a code, CODE_INVALID and other unknown codes give the
+ * "Invalid code" entry */
+static const code_table_element_t *get_code_entry(code_t code) {
+  return &code_table[code_valid(code) ? code : CODE_COUNT];
+}
+
+/** String representation used for unknown values. */
+static const char *unknown_str = "?";
+
 static const char *constellation_table[CONSTELLATION_COUNT] = {
     [CONSTELLATION_GPS] = "GPS",
     [CONSTELLATION_SBAS] = "SBAS",
@@ -918,7 +927,7 @@ static const char *sub_constellation_table[SUB_CONSTELLATION_COUNT] = {
     [SUB_CONSTELLATION_GAL] = "GAL"};
 
 const char *constellation_to_string(const constellation_t cons) {
-  return constellation_table[cons];
+  return constellation_valid(cons) ? constellation_table[cons] : unknown_str;
 }
 
 constellation_t constellation_string_to_enum(const char *constellation_string) {
@@ -931,7 +940,9 @@ constellation_t constellation_string_to_enum(const char *constellation_string) {
 }
 
 const char *sub_constellation_to_string(const sub_constellation_t sub_cons) {
-  return sub_constellation_table[sub_cons];
+  return ((sub_cons >= 0) && (sub_cons < SUB_CONSTELLATION_COUNT))
+             ? sub_constellation_table[sub_cons]
+             : unknown_str;
 }
 
 sub_constellation_t sub_constellation_string_to_enum(
@@ -1002,9 +1013,6 @@ static const sbas_prn_table_t sbas_prn_table[SBAS_COUNT] = {
     [SBAS_MSAS] = {{129, 137}},
 };
 
-/** String representation used for unknown code values. */
-static const char *unknown_str = "?";
-
 /** Construct a gnss_signal_t.
  *
  * \note This function does not check the validity of the resulting signal.
@@ -1149,7 +1157,7 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  * \return Constellation to which sid belongs.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
-  return code_table[sid.code].constellation;
+  return get_code_entry(sid.code)->constellation;
 }
 
 /** Get the constellation to which a code belongs.
@@ -1288,7 +1296,9 @@ bool code_requires_decoder(code_t code) {
   return code_table[code].requires_data_decoder;
 }
 
-const char *code_to_string(const code_t code) { return code_table[code].str; }
+const char *code_to_string(const code_t code) {
+  return get_code_entry(code)->str;
+}
 
 /**
  * Returns number of SV belongs to a constellation
@@ -1333,7 +1343,7 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return (CONSTELLATION_GPS == get_code_entry(code)->constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1352,7 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return (CONSTELLATION_SBAS == get_code_entry(code)->constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1361,7 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return (CONSTELLATION_GLO == get_code_entry(code)->constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1370,7 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return (CONSTELLATION_BDS == get_code_entry(code)->constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1379,7 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return (CONSTELLATION_GAL == get_code_entry(code)->constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1388,7 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return (CONSTELLATION_QZS == get_code_entry(code)->constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From 25a91d8b0f96af0ec2b28a241334d3b686ff7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 07/39] fix: GLONASS slot map was read without the registered
 lock

---
 src/glo_map.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glo_map.c b/src/glo_map.c
index 3a98e6e..3a2974d 100644
--- a/src/glo_map.c
+++ b/src/glo_map.c
@@ -56,7 +56,9 @@ bool glo_map_valid(const gnss_signal_t sid) {
   assert(IS_GLO(sid));
   assert(glo_slot_id_is_valid(sid.sat));
 
+  glo_map_lock();
   u16 fcn = (u16)glo_sv_id_fcn_map[sid.sat];
+  glo_map_unlock();
   bool valid = (fcn != GLO_FCN_UNKNOWN);
 
   return valid;
@@ -90,7 +92,9 @@ u16 glo_map_get_fcn(gnss_signal_t sid) {
   assert(IS_GLO(sid));
   assert(glo_slot_id_is_valid(sid.sat));
 
+  glo_map_lock();
   u16 fcn = (u16)glo_sv_id_fcn_map[sid.sat];
+  glo_map_unlock();
 
   assert(fcn != GLO_FCN_UNKNOWN);
 
@@ -120,9 +124,11 @@ void glo_map_clear_all(void) {
  * GLONASS observations (but don't rely on actual wavelength values) can run.
  */
 void glo_map_fill_dummy_data(void) {
+  glo_map_lock();
   for (u16 i = 1; i < NUM_GLO_MAP_INDICES; ++i) {
     glo_sv_id_fcn_map[i] = -1;
   }
+  glo_map_unlock();
 }
 
 /**
@@ -141,6 +147,7 @@ u8 glo_map_get_slot_id(const u16 fcn, u16 *slot_id1, u16 *slot_id2) {
   u8 si_num = 0;
   *slot_id1 = 0;
   *slot_id2 = 0;
+  glo_map_lock();
   for (u8 i = GLO_FIRST_PRN; i < NUM_GLO_MAP_INDICES; i++) {
     if (fcn == glo_sv_id_fcn_map[i]) {
       /* the fcn mapped, so write to output */
@@ -156,5 +163,6 @@ u8 glo_map_get_slot_id(const u16 fcn, u16 *slot_id1, u16 *slot_id2) {
       }
     }
   }
+  glo_map_unlock();
   return si_num;
 }
-- 
2.43.0


From e8a59f7eb72ef4c2ad0a13ffcc3502016744150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 08/39] fix: QZSS L1C Doppler limit disagreed with the other
 QZSS L1 signals

---
 src/signal.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index e00a165..6df0cb6 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -778,7 +778,7 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                        GPS_CA_CHIPPING_RATE,
                        false,
                        GPS_L1C_PRN_PERIOD_MS,
-                       GPS_L1_DOPPLER_MAX_HZ,
+                       QZS_L1_DOPPLER_MAX_HZ,
                        0.f, /* see L1S in [1] */
                        false},
     [CODE_QZS_L1CQ] = {CONSTELLATION_QZS,
@@ -791,7 +791,7 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                        0,
                        false,
                        0,
-                       GPS_L1_DOPPLER_MAX_HZ,
+                       QZS_L1_DOPPLER_MAX_HZ,
                        0.25f, /* see L1L in [1] */
                        false},
     [CODE_QZS_L1CX] = {CONSTELLATION_QZS,
@@ -804,7 +804,7 @@ static const code_table_element_t code_table[CODE_COUNT + 1] = {
                        0,
                        false,
                        0,
-                       GPS_L1_DOPPLER_MAX_HZ,
+                       QZS_L1_DOPPLER_MAX_HZ,
                        0.25f, /* see L1X in [1] */
                        false},
     [CODE_QZS_L2CM] = {CONSTELLATION_QZS,
-- 
2.43.0


From 317cb2a451f5ae89f0816c44a10130387c95fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:28 +0000
Subject: [PATCH 09/39] fix: status report registration ignored NULL callbacks
 and linked a node to itself when registered twice

---
 src/subsystem_status_report.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..c52fb8c 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,6 +20,13 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
+  /* a node is in the list at most once, registering it again replaces its
+   * previous registration */
+  swiftnav_subsystem_status_report_callback_deregister(callback_node);
+  if (callback == NULL) {
+    return;
+  }
+
   callback_node->callback = callback;
   callback_node->context = context;
   callback_node->next = NULL;
-- 
2.43.0


From 85d1c0b7b369dd5c88cac87c5237d1569e5696ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 10/39] fix: normalizing a non-finite or unrepresentable time
 of week never returned

---
 src/gnss_time.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..ce2306f 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -74,6 +74,16 @@ bool gps_current_time_valid_with_wn_ref(const gps_time_t *t, u16 wn_ref) {
   return gps_time_valid(t) && t->wn >= wn_ref && t->wn < (wn_ref + 1023);
 }
 
+/** Tell whether a number of seconds fits in the range of the week numbers, so
+ * that it can be wrapped into the time of week.
+ *
+ * \param secs seconds
+ * \return true if the seconds are finite and span less than INT16_MAX weeks
+ */
+static bool tow_can_be_normalized(double secs) {
+  return fabs(secs) < (double)INT16_MAX * WEEK_SECS;
+}
+
 /** Normalize a `gps_time_t` GPS time struct in place.
  * Ensures that the time of week is greater than zero and less than one week by
  * wrapping and adjusting the week number accordingly.
@@ -82,7 +92,7 @@ bool gps_current_time_valid_with_wn_ref(const gps_time_t *t, u16 wn_ref) {
  * \return true on success, false otherwise
  */
 bool normalize_gps_time_safe(gps_time_t *t) {
-  if (t->wn < WN_UNKNOWN) {
+  if (t->wn < WN_UNKNOWN || !tow_can_be_normalized(t->tow)) {
     return false;
   }
 
@@ -119,11 +129,16 @@ void normalize_gps_time(gps_time_t *t) {
  * Ensures that the time of week is greater than zero and less than one week by
  * wrapping and adjusting the week number accordingly. Doesn't check for
  * positive week number (since some applications pass in times before the
- * start of GPS time in 1980)
+ * start of GPS time in 1980). Leaves the time unchanged if no week number can
+ * represent it.
  *
  * \param t GPS time struct.
  */
 void unsafe_normalize_gps_time(gps_time_t *t) {
+  if (!tow_can_be_normalized(t->tow)) {
+    return;
+  }
+
   while (t->tow < 0) {
     t->tow += WEEK_SECS;
     t->wn -= 1;
-- 
2.43.0


From 4147c0bc8ba80f513f6eb7f92de1bd91f6574950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:33 +0000
Subject: [PATCH 11/39] fix: normalized durations could hold a full week of
 seconds or never return

---
 src/gnss_time.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index ce2306f..55c9861 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -174,6 +174,9 @@ static double sign(double value) {
  * \param dt Time duration struct.
  */
 void normalize_gps_time_duration(gps_time_duration_t *dt) {
+  if (!tow_can_be_normalized(dt->seconds)) {
+    return;
+  }
   /* For negative durations */
   while (dt->seconds <= -WEEK_SECS) {
     dt->seconds += WEEK_SECS;
@@ -193,6 +196,11 @@ void normalize_gps_time_duration(gps_time_duration_t *dt) {
   if (sign_weeks * sign_seconds < -FLOAT_EQUALITY_EPS) {
     dt->weeks -= (s16)sign_weeks;
     dt->seconds += sign_weeks * WEEK_SECS;
+    /* the sum may have rounded to a full week */
+    if (fabs(dt->seconds) >= WEEK_SECS) {
+      dt->seconds = 0;
+      dt->weeks += (s16)sign_weeks;
+    }
   }
 }
 
-- 
2.43.0


From 7813a2154b33ace4fabe89e306772b9bbce6fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 12/39] fix: Unix time conversions overflowed int from GPS week
 3551 on

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 55c9861..1420c18 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((time_t)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -333,7 +333,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -349,7 +349,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From 27ad9ea60f55977958c41110186674397014c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 13/39] fix: a leap second was reported at t_lse when none was
 announced

---
 src/gnss_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 1420c18..e7b1538 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1103,7 +1103,8 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    /* no leap second is inserted unless the offset increases */
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From c5bff514a29e8b1feb7faf741fe92c4f74ddcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 14/39] fix: gps2utc aborted near the ends of a leap second
 announced by broadcast parameters

---
 src/gnss_time.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index e7b1538..7feca06 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -227,6 +227,10 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
      * subtract one second from time for now to make the conversion
      * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
     tow_utc = tow_utc - 1;
+    /* the offset is rounded and drifts slightly between midnight and the
+     * event, so make sure we stay within the last second of the day */
+    double midnight = round(tow_utc / DAY_SECS) * DAY_SECS;
+    tow_utc = fmin(fmax(tow_utc, midnight - 1), midnight - 1e-9);
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
-- 
2.43.0


From 2b8828e0dd1b78a6f3721bea88475d0ff8b1eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 15/39] fix: decode_ura_index read one element past the table
 for index 16

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..ac1f884 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1168,7 +1168,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 897120c9a9923ee63b5b02c54a5d0dc9c6013c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 16/39] fix: decode_glo_ephemeris kept the health bits of the
 previous ephemeris

---
 src/ephemeris.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index ac1f884..cab4836 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1723,6 +1723,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->toe = GPS_TIME_UNKNOWN;
   eph->sid = sid;
   eph->valid = 0;
+  /* the health flags of the strings are accumulated */
+  eph->health_bits = 0;
 
   glo_time_t tk;
   glo_time_t toe;
-- 
2.43.0


From 726e8df132fed537d38f7b544820cf6dd99ffee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 17/39] fix: GLONASS ephemeris with day number 0 was marked
 valid with an unknown reference time

---
 src/ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index cab4836..fb2f6e4 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1739,7 +1739,8 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
 
   if (ret) {
     eph->toe = glo2gps(&toe, utc_params);
-    eph->valid = 1;
+    /* the broadcast day number may not be a date */
+    eph->valid = gps_time_valid(&eph->toe);
   }
 
   eph->source = EPH_SOURCE_GLO_FDMA;
-- 
2.43.0


From 36f6629cd6f9f4b1ad5a0de62b7064e0d4d2cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 18/39] fix: ephemeris status aborted for an invalid signal
 instead of reporting it

---
 src/ephemeris.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index fb2f6e4..0393b74 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -886,6 +886,9 @@ ephemeris_status_t get_ephemeris_status_t(const ephemeris_t *e) {
   if (0 == e->fit_interval) {
     return EPH_FIT_INTERVAL_EQ_0;
   }
+  if (CONSTELLATION_INVALID == sid_to_constellation(e->sid)) {
+    return EPH_INVALID_SID;
+  }
   if (!ephemeris_healthy(e, e->sid.code)) {
     return EPH_UNHEALTHY;
   }
-- 
2.43.0


From faab8b07eb4d58fc5d760dbb6f4bd0b1fcdb994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 19/39] fix: GPS ephemeris with a clock reference time beyond
 the week was marked valid

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 0393b74..cafda23 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1441,7 +1441,7 @@ void decode_ephemeris_with_wn_ref(const u32 frame_words[3][8],
                  " Invalidating ephemeris.");
   }
 
-  e->valid = iode_valid && toe_valid;
+  e->valid = iode_valid && toe_valid && gps_time_valid(&k->toc);
   e->source = EPH_SOURCE_GPS_LNAV;
 }
 
-- 
2.43.0


From 5a7d96c435e508ca3e558c50ae938651b0ede132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 20/39] fix: power-of-two scale factors were not exact, so the
 BeiDou issue-of-data CRC was computed from truncated parameters

---
 include/swiftnav/constants.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/swiftnav/constants.h b/include/swiftnav/constants.h
index 72b200f..36c2c09 100644
--- a/include/swiftnav/constants.h
+++ b/include/swiftnav/constants.h
@@ -89,11 +89,11 @@ extern "C" {
 /** 2^-31 */
 #define C_1_2P31 4.656612873077393e-10
 /** 2^-32 */
-#define C_1_2P32 2.328306436538696e-10
+#define C_1_2P32 2.3283064365386963e-10
 /** 2^-33 */
 #define C_1_2P33 1.1641532182693481e-10
 /** 2^-34 */
-#define C_1_2P34 5.82076609134674e-011
+#define C_1_2P34 5.820766091346741e-11
 /** 2^-35 */
 #define C_1_2P35 2.9103830456733704e-11
 /** 2^-38 */
@@ -101,11 +101,11 @@ extern "C" {
 /** 2^-39 */
 #define C_1_2P39 1.8189894035458565e-12
 /** 2^-40 */
-#define C_1_2P40 9.09494701772928e-013
+#define C_1_2P40 9.094947017729282e-13
 /** 2^-43 */
 #define C_1_2P43 1.1368683772161603e-13
 /** 2^-46 */
-#define C_1_2P46 1.4210854715202e-014
+#define C_1_2P46 1.4210854715202004e-14
 /** 2^-50 */
 #define C_1_2P50 8.881784197001252e-16
 /** 2^-51 */
@@ -113,9 +113,9 @@ extern "C" {
 /** 2^-55 */
 #define C_1_2P55 2.7755575615628914e-17
 /** 2^-59 */
-#define C_1_2P59 1.73472347597681e-018
+#define C_1_2P59 1.734723475976807e-18
 /** 2^-66 */
-#define C_1_2P66 1.35525271560688e-020
+#define C_1_2P66 1.3552527156068805e-20
 /** 2^-68 */
 #define C_1_2P68 3.3881317890172014e-21
 
-- 
2.43.0


From 3aac92223340d59e0419223b896cc371c51f3393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 21/39] fix: use the BDT second of week for BeiDou orbits with
 toe in the first 14 s of the GPS week

The longitude of the ascending node needs Toe as seconds of the BDT week.
For a GPS-time toe.tow below 14 s the subtraction gave a negative value
instead of one in the preceding BDT week, rotating the orbit by 6.9 deg.
---
 src/ephemeris.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index cafda23..3d9a016 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -511,6 +511,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Corrected longitude of ascenting node. */
   double om_dot;
   double om;
+  double toe_bdt_tow;
   switch (sid_to_constellation(e->sid)) {
     case CONSTELLATION_GPS:
     case CONSTELLATION_QZS:
@@ -524,8 +525,13 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
       } else {
         om_dot = k->omegadot - BDS2_OMEGAE_DOT;
       }
-      om = k->omega0 + dt * om_dot -
-           BDS2_OMEGAE_DOT * (e->toe.tow - BDS_SECOND_TO_GPS_SECOND);
+      /* Toe is needed as seconds of the BDT week, which starts 14 s after the
+       * GPS week */
+      toe_bdt_tow = e->toe.tow - BDS_SECOND_TO_GPS_SECOND;
+      if (toe_bdt_tow < 0) {
+        toe_bdt_tow += WEEK_SECS;
+      }
+      om = k->omega0 + dt * om_dot - BDS2_OMEGAE_DOT * toe_bdt_tow;
       break;
     case CONSTELLATION_SBAS:
     case CONSTELLATION_GLO:
-- 
2.43.0


From 59698b199e6cdef4ec5c55f84b96a3e0be90984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 22/39] fix: sign of the eccentric anomaly and radius terms in
 Kepler accelerations

d2E/dt2 is -E'^2 e sin(E)/(1 - e cos(E)) and the radius correction's
second derivative has the same -4 factor as the other two harmonic
corrections. The returned acceleration was not the derivative of the
returned velocity.
---
 src/ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 3d9a016..bdacae4 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From a9c0a736db3ac4e5f1c178e11956a06eac3ec013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 23/39] fix: velocity and acceleration of BeiDou GEO satellites

Only the position was rotated from the user-defined inertial system to
BDCS; velocity and acceleration mixed rotated and unrotated terms and were
off by kilometres per second.
---
 src/ephemeris.c | 55 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index bdacae4..666ae6c 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -340,6 +340,40 @@ static s8 calc_sat_state_glo(const ephemeris_t *e,
   return 0;
 }
 
+/** Rotate a BeiDou GEO state from its user-defined inertial system to BDCS:
+ *  pos_bdcs = Rz(omega_e * dt) * Rx(-5 deg) * pos, and its time derivatives.
+ *
+ * \param dt Time since the ephemeris reference epoch [s]
+ * \param pos Position, transformed in place [m]
+ * \param vel Velocity, transformed in place [m/s]
+ * \param acc Acceleration, transformed in place [m/s^2]
+ */
+static void bds_geo_to_ecef(double dt,
+                            double pos[3],
+                            double vel[3],
+                            double acc[3]) {
+  const double w = BDS2_OMEGAE_DOT;
+  double sin_ome = sin(w * dt);
+  double cos_ome = cos(w * dt);
+  double *state[3] = {pos, vel, acc};
+  for (u8 i = 0; i < 3; i++) {
+    double *v = state[i];
+    double rot[3];
+    rot[0] =
+        v[0] * cos_ome + v[1] * sin_ome * COS_5 + v[2] * sin_ome * (-SIN_5);
+    rot[1] =
+        -v[0] * sin_ome + v[1] * cos_ome * COS_5 + v[2] * cos_ome * (-SIN_5);
+    rot[2] = -v[1] * (-SIN_5) + v[2] * COS_5;
+    memcpy(v, rot, sizeof(rot));
+  }
+
+  /* terms due to the rotation of the Earth during dt */
+  acc[0] += 2.0 * w * vel[1] - w * w * pos[0];
+  acc[1] += -2.0 * w * vel[0] - w * w * pos[1];
+  vel[0] += w * pos[1];
+  vel[1] -= w * pos[0];
+}
+
 /** Calculate satellite position, velocity and clock offset from GPS ephemeris.
  *
  * References:
@@ -549,23 +583,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -587,6 +604,10 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  if (orbit_type == GEO) {
+    bds_geo_to_ecef(dt, pos, vel, acc);
+  }
+
   return 0;
 }
 
-- 
2.43.0


From d48db51a6c4dd8afefd8b3a82620a57531e7f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 24/39] fix: use e^2 in the second-order term of the ECEF to
 geodetic iteration

Fukushima's B_n has the squared eccentricity. With the eccentricity itself
the iteration converged slowly and was up to metres off, at its iteration
limit, for points deep inside the Earth.
---
 src/coord_system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coord_system.c b/src/coord_system.c
index 7b2159a..64a3e7d 100644
--- a/src/coord_system.c
+++ b/src/coord_system.c
@@ -168,7 +168,8 @@ void wgsecef2llh(const double ecef[3], double llh[3]) {
     A_n = sqrt(S * S + C * C);
     D_n = Z * A_n * A_n * A_n + WGS84_E * WGS84_E * S * S * S;
     F_n = P * A_n * A_n * A_n - WGS84_E * WGS84_E * C * C * C;
-    B_n = 1.5 * WGS84_E * S * C * C * (A_n * (P * S - Z * C) - WGS84_E * S * C);
+    B_n = 1.5 * WGS84_E * WGS84_E * S * C * C *
+          (A_n * (P * S - Z * C) - WGS84_E * WGS84_E * S * C);
 
     /* Update step. */
     S = D_n * F_n - B_n * S;
-- 
2.43.0


From d14f7dc6438701040c25659782d8196fdacab601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 25/39] fix: calc_sat_doppler added the receiver velocity
 instead of subtracting it

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 666ae6c..405f475 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -835,7 +835,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From dd8c2dfa099350d3fd39e5ba379d3fd2ac692eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 26/39] fix: sum the off-diagonal terms and index the inverse
 correctly in matrix_atwaiat

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From 27ef36b091aeac75ca8659bf29bd5431b0c704e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 27/39] fix: compute A^T (A W A^T)^-1 for wide matrices in
 matrix_atawati

---
 src/linear_algebra.c | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..dcbf93f 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -758,7 +758,7 @@ inline int matrix_atwaiat(
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From 327fe857d76f498357f5f6cc28638557f99bdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 28/39] fix: nav_meas_flags_valid accepts exactly the
 documented flags

The mask was built with '&' and so was always zero, and the result was
not negated: any nonzero word, including undefined bits, was valid.
---
 src/nav_meas.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..9b2e9b3 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -123,10 +123,10 @@ int nav_meas_cmp(const void *a, const void *b) {
 
 bool nav_meas_flags_valid(nav_meas_flags_t flags) {
   const nav_meas_flags_t all_valid =
-      NAV_MEAS_FLAG_CODE_VALID & NAV_MEAS_FLAG_PHASE_VALID &
-      NAV_MEAS_FLAG_MEAS_DOPPLER_VALID & NAV_MEAS_FLAG_COMP_DOPPLER_VALID &
-      NAV_MEAS_FLAG_HALF_CYCLE_KNOWN & NAV_MEAS_FLAG_CN0_VALID;
-  return ~all_valid & flags;
+      NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID |
+      NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_COMP_DOPPLER_VALID |
+      NAV_MEAS_FLAG_HALF_CYCLE_KNOWN | NAV_MEAS_FLAG_CN0_VALID;
+  return 0 == (flags & ~all_valid);
 }
 
 bool pseudorange_valid(const navigation_measurement_t *meas) {
-- 
2.43.0


From 66346200da146e2fd4259cbc0abf080bc2d6d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 29/39] fix: encode_lock_time: saturate before converting to
 milliseconds

Lock times between UINT32_MAX milliseconds and UINT32_MAX seconds
overflowed the conversion, which is undefined and could encode a very
long lock time as a short one.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 9b2e9b3..4a9df28 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From 5d1d54b8ee7edc9d5afe1e2ded962e360e2c1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 30/39] fix: encode_lock_time: class boundaries belong to the
 longer class

DF402 class n starts at 2^(n+4) ms, as decode_lock_time says, but a lock
time exactly on a boundary was encoded as the class below it, so that
encoding a decoded value lost one class.
---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 4a9df28..9690b80 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From 14c5162e7062f097a707dfbb9f2cb2bff15bd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 31/39] fix: calc_PVT: clear the output when there is no
 solution

With too few satellites the solution was not touched at all, so that a
solution structure in use kept the valid flag and the position of an
earlier epoch next to an error code. The other error paths kept the
velocity validity and counts. Clear the structure up front, as the DOP,
altitude and velocity error paths already do.
---
 src/single_epoch_solver.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..5e0433a 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1407,11 +1407,9 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   sid_set_init(&removed_sids);
   lsq_data_t lsq_data;
 
-  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
+  memset(soln, 0, sizeof(*soln));
 
+  if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From 862f9406add14bf3cbc5694d6dd8bb8fab7a435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 32/39] fix: calc_PVT: no velocity without measured Doppler

When a signal had no measured Doppler the velocity solver gave up, but
the result was still flagged as a valid (zero) velocity with an
uninitialised covariance, and RAIM tested uninitialised Doppler
residuals. Treat such a set as having velocity disabled.
---
 src/single_epoch_solver.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 5e0433a..3c6ef3e 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1335,7 +1335,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                  const navigation_measurement_t **nav_meas,
                                  const gps_time_t *tor,
                                  const bool disable_raim,
-                                 const bool disable_velocity,
+                                 bool disable_velocity,
                                  const obs_mask_config_t *obs_mask_config,
                                  sat_sel_predicate pred,
                                  gnss_solution *soln,
@@ -1386,14 +1386,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
           "SPP attempted on measurements that did not have valid pseudorange");
     }
 
-    /* if velocity output is requested, every signal must have valid Doppler */
-    if (!disable_velocity &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID) &&
-        !(processed_nav_meas_ptrs[i]->flags &
-          NAV_MEAS_FLAG_COMP_DOPPLER_VALID)) {
-      assert(
-          "SPP velocity requested but not all measurements have valid Doppler");
+    /* velocity can be computed only if every signal has a valid measured
+     * Doppler */
+    if (!(processed_nav_meas_ptrs[i]->flags &
+          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) {
+      disable_velocity = true;
     }
   }
 
-- 
2.43.0


From f477d09e1322bd55d1878283711fc4e516b9bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 33/39] fix: calc_PVT: clock drift variance with velocity
 disabled

It was copied from a velocity covariance that nothing had written.
---
 src/single_epoch_solver.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 3c6ef3e..1df9495 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -564,6 +564,7 @@ static s8 pvt_solve(const u8 n_used,
     /* No velocity solution */
     memset(&(lsq_data->rx_state[n_states]), 0, n_states * sizeof(double));
     memset(lsq_data->omp_doppler, 0, sizeof(lsq_data->omp_doppler));
+    memset(lsq_data->V_vel, 0, sizeof(lsq_data->V_vel));
   } else {
     /* Perform the velocity solution. */
     vel_solve(n_used, n_states, nav_meas, G, lsq_data);
-- 
2.43.0


From ddb08c7681d9db9aa92894dacc5fcdf3f215b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 34/39] fix: calc_PVT: a correction that is not a number has
 not converged

One non-finite measurement made the correction NaN, which compared as
converged; with RAIM disabled a NaN position was returned as valid.
---
 src/single_epoch_solver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 1df9495..c398fe0 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -551,7 +551,7 @@ static s8 pvt_solve(const u8 n_used,
   /* Look at the magnitude of the correction to see if
    * the solution has converged yet.
    */
-  if (vector_norm(3, correction) > PVT_CONVERGENCE_THRESHOLD) {
+  if (!(vector_norm(3, correction) <= PVT_CONVERGENCE_THRESHOLD)) {
     /* The solution has not converged, return 0 to
      * indicate that we should continue iterating.
      */
-- 
2.43.0


From 33c07b6a871ce02c0c463db87663f2851878a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 35/39] fix: calc_PVT: refuse an empty measurement set

It created variable length arrays of size zero, which is undefined.
---
 src/single_epoch_solver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index c398fe0..c36aeb0 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1565,6 +1565,10 @@ s8 calc_PVT_pred(const u8 n_meas,
                  gnss_solution *soln,
                  dops_t *dops,
                  gnss_sid_set_t *raim_removed_sids) {
+  if (n_meas == 0) {
+    memset(soln, 0, sizeof(*soln));
+    return PVT_INSUFFICENT_MEAS;
+  }
   LSN_NEW_ARRAY(nav_meas_ptrs, n_meas, const navigation_measurement_t *);
   for (u8 i = 0; i < n_meas; i++) {
     nav_meas_ptrs[i] = nav_meas + i;
-- 
2.43.0


From 4f01bc8cf403f98832d04e733d3e65faca1d6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:57 +0000
Subject: [PATCH 36/39] fix: calc_PVT: a clock offset beyond representable time
 aborted

---
 src/single_epoch_solver.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index c36aeb0..6256786 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1491,7 +1491,12 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   /* Correct the time of reception with the solved bias to get solution time */
   soln->time = *tor;
   soln->time.tow -= lsq_data.rx_state[3] / GPS_C;
-  normalize_gps_time(&soln->time);
+  if (!normalize_gps_time_safe(&soln->time)) {
+    /* The clock bias leads to a time that cannot be represented */
+    memset(soln, 0, sizeof(*soln));
+    LSN_FREE_ARRAY(processed_nav_meas_ptrs);
+    return PVT_UNCONVERGED;
+  }
 
   /* filter out solutions with bad DOP, unlikely altitude, or ITAR violation */
   s8 ret = filter_solution(soln, dops);
-- 
2.43.0


From 81b8a6d174400faf296e502c7797404cfb79e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 37/39] fix: pvt_repair: endless loop when no exclusion of a
 later round gives a metric

---
 src/single_epoch_solver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 6256786..b18e93a 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1013,7 +1013,6 @@ static s8 pvt_repair(const u8 n_used,
   /* Compute the residuals and metric for the original set of measurements */
 
   LSN_NEW_ARRAY(metric, n_used, double);
-  s8 bad_sat = -1;
 
   double original_metric = INFINITY;
   residual_test(
@@ -1027,6 +1026,7 @@ static s8 pvt_repair(const u8 n_used,
   while (n_removed < RAIM_MAX_EXCLUSIONS &&
          (n_used - n_removed - 1) > n_states) {
     successful_exclusion_found = false;
+    s8 bad_sat = -1;
     double best_metric = INFINITY;
     double residual = 0.0;
     double vel_residual = 0.0;
-- 
2.43.0


From 5a91313422aa11bd04e5d9fada162c6363030813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 38/39] fix: almanac_decode: reject reference times beyond the
 end of the week

A broadcast t_oa code above 147 is no time of week; the almanac was marked
valid and evaluating it aborted on an assertion (or used a bogus time).
---
 src/almanac.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/almanac.c b/src/almanac.c
index df28a36..e2ee3ee 100644
--- a/src/almanac.c
+++ b/src/almanac.c
@@ -565,6 +565,10 @@ bool almanac_decode(const u32 words[8], almanac_t *a) {
     /* Word 4 bits 1-8: t_oa */
     u8 toa = words[4 - 3] >> (30 - 8) & 0xFF;
     a->toa.tow = toa * GPS_LNAV_ALM_SF_TOA;
+    /* a reference time beyond the end of the week is not a time */
+    if (a->toa.tow > GPS_LNAV_ALM_MAX_TOA) {
+      a->valid = false;
+    }
 
     /* Word 5 bits 17-24: SV health */
     a->health_bits = words[5 - 3] >> (30 - 24) & 0xFF;
-- 
2.43.0


From f0033ffdd1da38d42fc2f91a15f8d368afff0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 39/39] fix: satellite clock drift was added to the measured
 Doppler instead of subtracted

With the convention of calc_PVT (Doppler is minus the pseudorange rate in
cycles), a satellite clock running fast raises the received frequency: the
corrected Doppler is raw - rate * f, consistent with the pseudorange
correction raw + clock * c.  The wrong sign doubled the effect of the drift on
the receiver velocity instead of removing it.
---
 src/nav_meas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 9690b80..bf31454 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -198,7 +198,8 @@ double nav_meas_cor_sat_clk_on_pseudorange(
 double nav_meas_cor_sat_clk_on_measured_doppler(
     const navigation_measurement_t *nav_meas) {
   double carrier_freq = sid_to_carr_freq(nav_meas->sid);
-  return (nav_meas->raw_measured_doppler +
+  /* Doppler has the opposite sign of the pseudorange rate */
+  return (nav_meas->raw_measured_doppler -
           nav_meas->sat_clock_err_rate * carrier_freq);
 }
 
-- 
2.43.0

