From 695b5612c975ac4278c985ab29e79889a12a1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 01/39] fix: compare nanoseconds in UTCTime >= and <= when the
 seconds are equal

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From 938ab476d7b6d75a33d06c008887aeff07814726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 02/39] fix: keep the milliseconds of a GPS/GLONASS time of
 week and do not overflow on large weeks

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..50d0d35 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From 6fcf81e0c04a8060e48d2de967012a326ccb5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 03/39] fix: normalise the nanoseconds of a UTCTime constructed
 from negative values

---
 common/utctime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utctime.h b/common/utctime.h
index 0f239ae..6425606 100644
--- a/common/utctime.h
+++ b/common/utctime.h
@@ -49,11 +49,11 @@ class UTCTime
     static constexpr int BD_UTC_OFFSET = GPS_UTC_OFFSET + GPS_BEIDOU_OFFSET;
 
     constexpr UTCTime(const int64_t _sec, const int64_t _nsec)
-        : sec(_sec + _nsec / E9), nsec(_nsec % E9)
+        : sec(_sec + _nsec / E9 - (_nsec % E9 < 0)), nsec(_nsec % E9 + (_nsec % E9 < 0 ? E9 : 0))
     {
     }
 
-    constexpr UTCTime(const double _sec) : sec((int64_t)_sec), nsec((int64_t)(_sec * E9) % E9) {}
+    constexpr UTCTime(const double _sec) : UTCTime((int64_t)_sec, (int64_t)(_sec * E9) % E9) {}
 
     UTCTime();
 
-- 
2.43.0


From 34c03809e2ab2d71462bf6d0219d2004f771c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 04/39] fix: floor the week and day computations so that times
 before an epoch are right

---
 common/utctime.cxx | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 50d0d35..7625638 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -151,19 +151,26 @@ UTCTime UTCTime::Random()
 {
     UTCTime out;
     out.sec = rand();
-    out.nsec = rand();
+    out.nsec = rand() % E9;
     return out;
 }
 
+// integer division rounding towards negative infinity, so that times before an epoch belong to the
+// negative weeks that contain them
+static int64_t floorDiv(int64_t num, int64_t den)
+{
+    return num / den - (num % den < 0);
+}
+
 int UTCTime::week() const
 {
-    return std::floor(sec / SEC_IN_WEEK);
+    return floorDiv(sec, SEC_IN_WEEK);
 }
 
 int UTCTime::GpsWeek() const
 {
     int64_t gps_sec = sec - GPS_UTC_OFFSET;
-    return std::floor(gps_sec / SEC_IN_WEEK);
+    return floorDiv(gps_sec, SEC_IN_WEEK);
 }
 
 // int UTCTime::BeidouWeek()
@@ -175,14 +182,14 @@ int UTCTime::GpsWeek() const
 int UTCTime::GlonassWeek() const
 {
     int64_t glonass_sec = sec - GLO_UTC_OFFSET;
-    return std::floor(glonass_sec / SEC_IN_WEEK);
+    return floorDiv(glonass_sec, SEC_IN_WEEK);
 }
 
 int UTCTime::GlonassDayOfWeek() const
 {
     int64_t glonass_sec = sec - GLO_UTC_OFFSET;
-    int32_t sec_of_week = glonass_sec % SEC_IN_WEEK;
-    int32_t day_of_week = std::floor(sec_of_week / SEC_IN_DAY);
+    int32_t sec_of_week = glonass_sec - floorDiv(glonass_sec, SEC_IN_WEEK) * SEC_IN_WEEK;
+    int32_t day_of_week = sec_of_week / SEC_IN_DAY;
     return day_of_week;
 }
 
@@ -207,8 +214,8 @@ UTCTime UTCTime::fromGPS(int week, int tow_ms)
 
 UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
 {
-    uint32_t glonass_week = ref.GlonassWeek();
-    uint32_t glonass_day = ref.GlonassDayOfWeek();
+    int glonass_week = ref.GlonassWeek();
+    int glonass_day = ref.GlonassDayOfWeek();
 
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
-- 
2.43.0


From 355e6be9c923e7083d37d3a32ae28d29ff245772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 05/39] fix: fromGlonassTimeOfDay returns the time closest to
 the reference across midnight

---
 common/utctime.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 7625638..1465454 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -220,6 +220,17 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // the time of day closest to ref may belong to the previous or to the next day
+    const UTCTime half_day(int64_t(SEC_IN_DAY / 2), int64_t(0));
+    if (out - ref > half_day)
+    {
+        out -= SEC_IN_DAY;
+    }
+    else if (ref - out > half_day)
+    {
+        out += SEC_IN_DAY;
+    }
     return out;
 }
 
-- 
2.43.0


From 8020176266a5dac3fedb2bb2afcbb215702523b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 06/39] fix: check the issue of data decoded from GPS subframe
 3

---
 common/ephemeris/gps.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..9efa648 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -178,7 +178,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From 30f21ed278b8a2e84b389efb192ddb995c76bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 07/39] fix: collect all three GPS subframes again after an
 ephemeris is complete

---
 common/ephemeris/gps.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 9efa648..f0f6681 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
-- 
2.43.0


From e92b939474ccbc1066522df71840e5da80d21239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 08/39] fix: read the Galileo data validity flags from their
 own bits

---
 common/ephemeris/galileo.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..235b752 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -277,8 +277,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From f7f1c8beaf78569e002303d14892d8badc7ee8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 09/39] fix: reject Galileo pages that are too short

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 235b752..4dc362a 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Not enough bytes in Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From 8a002520b64fffc6a9f2690b8d1c76acc70ba100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 10/39] fix: do not correct the Galileo week again when a word
 is repeated

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 4dc362a..0a0aeef 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -178,6 +178,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // Start collecting the next ephemeris, the week must not be corrected twice
+    collected_subframes = 0x00;
+
     return true;
 }
 
-- 
2.43.0


From 99766fa5134b48bd0ab14e32ef1c303db9f3517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 11/39] fix: do not let another satellite's Galileo word 4
 overwrite the ephemeris

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 0a0aeef..2a45a7f 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -255,8 +255,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -269,11 +274,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 48dd2d254347366056f87304416cfe6fd5141de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 12/39] fix: do not overflow when converting GLONASS four-year
 intervals

---
 common/ephemeris/glonass.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..1ebe798 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -199,8 +199,8 @@ bool GlonassEphemeris::convertTime()
         return false;
 
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
-    UTCTime start_of_year =
-        Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
+    const int64_t four_years = 3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR;
+    UTCTime start_of_year = Jan1_1996 + UTCTime((N4_ - 1) * four_years, int64_t(0)) - (3 * 3600);
     UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
-- 
2.43.0


From dc0d7c8a87a43ff54bc74f0f327b4677a1779c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 13/39] fix: date a GLONASS ephemeris by the current day, not
 by the almanac's

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 1ebe798..44159bc 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     const int64_t four_years = 3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR;
     UTCTime start_of_year = Jan1_1996 + UTCTime((N4_ - 1) * four_years, int64_t(0)) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From 6f0b1d5075b31d7c7ee0229c105666660e844950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 14/39] fix: CircularBuffer::pop_back destroys the last element
 and not the one past it

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..5c61d6c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
-- 
2.43.0


From 9ed97cb051b7d77368283af6673db13442efbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 15/39] fix: CircularBuffer constructs pushed elements instead
 of assigning to raw memory

---
 common/circular_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5c61d6c..109100d 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -71,7 +71,7 @@ class CircularBuffer
     {
         if (full())
             pop_front();
-        *tail_ = obj;
+        new (&*tail_) T(obj);  // there is no object to assign to
         ++tail_;
     }
 
@@ -90,7 +90,7 @@ class CircularBuffer
             pop_back();
 
         --head_;
-        *head_ = obj;
+        new (&*head_) T(obj);  // there is no object to assign to
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From 1df063533104c7e407625c3e062cf82c3f048ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 16/39] fix: copying a CircularBuffer copies its elements and
 not its pointers

---
 common/circular_buffer.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 109100d..e780873 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -17,6 +17,22 @@ class CircularBuffer
 
     CircularBuffer() = default;
 
+    CircularBuffer(const CircularBuffer& other)
+    {
+        for (const T& obj : other)
+            push_back(obj);
+    }
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            for (const T& obj : other)
+                push_back(obj);
+        }
+        return *this;
+    }
+
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
     const_iterator end() const { return tail_; }
-- 
2.43.0


From f6ab4fdab6254eeb43b676c1df1e71d601e63702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 17/39] fix: align the storage of CircularBuffer for its
 elements

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index e780873..13ed2bc 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -113,7 +113,7 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From bb712ed511a9c82f8e51eeceb7e3e3c4b234907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 18/39] fix: CircularBuffer pushes may be given one of its own
 elements when full

---
 common/circular_buffer.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 13ed2bc..1eb3e53 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -77,36 +77,40 @@ class CircularBuffer
     template <typename... Args>
     void emplace_back(Args&&... args)
     {
-        if (full())
-            pop_front();
+        // construct first (one slot is always free), the arguments may refer to the front
+        const bool drop = full();
         new (&*tail_) T(args...);
+        if (drop)
+            pop_front();
         ++tail_;
     }
 
     void push_back(const T& obj)
     {
-        if (full())
-            pop_front();
+        const bool drop = full();
         new (&*tail_) T(obj);  // there is no object to assign to
+        if (drop)
+            pop_front();
         ++tail_;
     }
 
     template <typename... Args>
     void emplace_front(Args&&... args)
     {
-        if (full())
+        const bool drop = full();
+        new (&*(head_ - 1)) T(args...);
+        if (drop)
             pop_back();
         --head_;
-        new (&*head_) T(args...);
     }
 
     void push_front(const T& obj)
     {
-        if (full())
+        const bool drop = full();
+        new (&*(head_ - 1)) T(obj);  // there is no object to assign to
+        if (drop)
             pop_back();
-
         --head_;
-        new (&*head_) T(obj);  // there is no object to assign to
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From 1ecbdcb11ec90cc98c52c5a171acc2c2dc8ac3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 19/39] fix: make the conversion of a rotation matrix to a
 quaternion compile

---
 common/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..6e07ce8 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -38,7 +38,7 @@ class Quat
 
     Quat(const T* data) : arr_(const_cast<T*>(data)) {}
 
-    Quat(const SO3<T>& rot) { this = Quat<T>::from_R(rot); }
+    Quat(const SO3<T>& rot) : arr_(buf_) { arr_ = Quat<T>::from_R(rot.matrix()).arr_; }
 
     Quat(const T& roll, const T& pitch, const T& yaw) : arr_(buf_)
     {
-- 
2.43.0


From fc0adacb4d591fe2a8ad9c69fd871a964492556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 20/39] fix: Quat::invert returns the quaternion

---
 common/math/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 6e07ce8..bbfbc3a 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -488,7 +488,11 @@ class Quat
         return v + w() * t + t.colwise().cross(arr_.template segment<3>(1));
     }
 
-    Quat& invert() { arr_.template block<3, 1>(1, 0) *= (T)-1.0; }
+    Quat& invert()
+    {
+        arr_.template block<3, 1>(1, 0) *= (T)-1.0;
+        return *this;
+    }
 
     Quat inverse() const
     {
-- 
2.43.0


From fed74ba2840b1871148d045d63c2f7c8f1f45aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 21/39] fix: rotation between equal or opposite unit vectors

---
 common/math/quat.h |  8 ++++++--
 common/math/so3.h  | 12 ++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index bbfbc3a..c85dcc8 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -357,8 +357,12 @@ class Quat
     static Quat from_two_unit_vectors(const Vec3& u, const Vec3& v)
     {
         const T cos_theta = u.dot(v);
-        const Vec3 axis = u.cross(v).normalized();
-        return from_axis_angle(axis, -acos(cos_theta));
+        const Vec3 normal = u.cross(v);
+        const T sin_theta = normal.norm();
+        // Opposite vectors have no unique axis: any one orthogonal to them will do
+        const bool parallel = !(sin_theta > (T)0.0);
+        const Vec3 axis = parallel ? Vec3(u.unitOrthogonal()) : Vec3(normal / sin_theta);
+        return from_axis_angle(axis, -atan2(sin_theta, cos_theta));
     }
 
     static Quat Identity()
diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..369f221 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -250,10 +250,14 @@ class SO3
         const Vec3 u1 = _u1.normalized();
         const Vec3 u2 = _u2.normalized();
 
-        const Vec3 axis = u1.cross(u2);
-        const T c = u1.dot(u2);  // cosine of angle
-
-        return exp(axis.normalized() * acos(c));
+        const Vec3 normal = u1.cross(u2);
+        const T s = normal.norm();  // sine of angle
+        const T c = u1.dot(u2);     // cosine of angle
+
+        // Opposite vectors have no unique axis: any one orthogonal to them will do
+        const bool parallel = !(s > (T)0.0);
+        const Vec3 axis = parallel ? Vec3(u1.unitOrthogonal()) : Vec3(normal / s);
+        return exp(axis * std::atan2(s, c));
     }
 
     // SO3 is self-adjoint
-- 
2.43.0


From de8534726096a98190b06250d4e182193cbff609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 22/39] fix: SO3::log near half a turn has the sign of the
 rotation

---
 common/math/so3.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 369f221..06ba97b 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,7 +162,8 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // The quaternion log is that of the inverse rotation
+            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
         }
     }
 
@@ -203,8 +204,7 @@ class SO3
         else  // theta close to Pi
         {
             // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
+            // The quaternion log is that of the inverse rotation
             Quat<T> q = Quat<T>::from_R(rot_);
             w = -q.log();
             const T th2 = w.squaredNorm();
@@ -212,13 +212,6 @@ class SO3
             a = sin(th) / th;
             b = (1 - cos(th)) / th2;
             c = (1 - a) / th2;
-
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
-            const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
-
-            return w;
         }
 
         const T e = (b - 2 * c) / (2 * a);
-- 
2.43.0


From a5f7c2db4524b6128a497d1fd1f5d810dee8e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/39] fix: real and dual part of a dual quaternion made from
 eight numbers

---
 common/math/dquat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..141e320 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
@@ -118,7 +119,7 @@ class DQuat
     }
 
     template <typename Derived>
-    Quat<T>& operator=(Eigen::MatrixBase<Derived> const& in)
+    DQuat& operator=(Eigen::MatrixBase<Derived> const& in)
     {
         arr_ = in;
         return *this;
-- 
2.43.0


From 3b4d5d5cb8504470eb666956c9f8a56e491cdda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 24/39] fix: series of DQuat::log near the identity

---
 common/math/dquat.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 141e320..150a456 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -297,10 +297,9 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            // a = atan2(th, r0)/th (the branch near zero), c = (r0 - a)/th2
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * th2;
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -350,10 +349,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * s2;
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From d99de2be80bedfbcb6db7b7851ecf1a6114f2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 25/39] fix: satellite velocity is finite at perigee and apogee

---
 common/satellite/satellite_state.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..c2fb050 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -41,11 +41,9 @@ Error eph2Sat(const UTCTime& t,
     const double sek = sin(ek);
     const double cek = cos(ek);
 
-    const double ekdot = mkdot / (1.0 - eph.ecc * cek);
-
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+    const double takdot = mkdot * sqrt(1.0 - eph.ecc * eph.ecc) /
+                          ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 19b63e579b5504fa1d95e0849d7854bd55920fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 26/39] fix: the satellite clock counts from the clock
 reference time

---
 common/satellite/satellite_state.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index c2fb050..dd95f4e 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -91,13 +91,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;                              // satellite clock bias (sec)
+    sat_state->clk(1) = eph.af1 + 2.0 * eph.af2 * clk_dt;  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 30c46a3d60e4e6a15c8358971f7d333b1370152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 27/39] fix: weight every Jacobian of the pseudorange model by
 the full square-root information

---
 models/prange_model.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..7400779 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -132,17 +132,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_T_r2n
@@ -162,17 +164,17 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac = sqrt_inv_cov_ *
+                  Vec3(est_prange - obs_.pseudorange, est_doppler - obs_.doppler, -1.0);
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
     }
 
-- 
2.43.0


From 83172e56740c44573b81a52e9e17529f3b4a0119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 28/39] fix: the pose Jacobians of the IMU factor hold at any
 pose, not only at the identity

---
 models/imu_model.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..c7d90ec 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -191,9 +191,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -206,9 +206,11 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            const Mat3 R_end_to_start =
+                (start_pose.rotation().inverse() * end_pose.rotation()).R().matrix().transpose();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * R_end_to_start;
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = R_end_to_start;
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From 63fb142d76f19bcac61c7e915db8c10804748f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 29/39] fix: the IMU factor corrects for the change of the
 bias, not for all of it

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index c7d90ec..80537d0 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -165,7 +165,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From 1f5983be8765bc5869943a56da5aa589eaf72601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:14 +0000
Subject: [PATCH 30/39] fix: a copied IMU error state refers to its own
 elements

---
 models/imu_state.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/imu_state.h b/models/imu_state.h
index 2a1d9f5..da5fea7 100644
--- a/models/imu_state.h
+++ b/models/imu_state.h
@@ -11,6 +11,18 @@ struct ImuErrorState : public Vec9
 {
     ImuErrorState();
 
+    // The parts refer to this object, not to the one copied
+    ImuErrorState(const ImuErrorState& other)
+        : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
+    {
+    }
+
+    ImuErrorState& operator=(const ImuErrorState& other)
+    {
+        Vec9::operator=(other);
+        return *this;
+    }
+
     template <typename Derived>
     ImuErrorState(const Eigen::MatrixBase<Derived>& other)
         : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
-- 
2.43.0


From 86545b6fef0a2383452e78e8aad83f0c661db395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 31/39] fix: the error of the position in RTK filter dynamics
 rotates with the body

---
 core/ekf/rtk_ekf_impl.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..1ab12af 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -17,12 +17,14 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
         dVeldRot = -skew(acc);
@@ -63,7 +65,8 @@ ErrorState errorStateDynamics(const ErrorState& dx,
 {
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
+    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
+                         (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
     out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
     return out;
 }
-- 
2.43.0


From 99c336fef1d36dabb8eea92d1dd53ea7d8664c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 32/39] fix: the velocity of the RTK filter depends on the
 attitude through gravity

---
 core/ekf/rtk_ekf_impl.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 1ab12af..043fb18 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -27,7 +27,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(x.pose.rota(gravity));
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
     }
@@ -63,11 +63,13 @@ ErrorState errorStateDynamics(const ErrorState& dx,
                               const Input& u,
                               const Input& eta)
 {
+    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+
     ErrorState out = ErrorState::Zero();
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
                          (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rota(gravity).cross(dx.pose.head<3>());
     return out;
 }
 
-- 
2.43.0


From d6587a9481a2b6b08f43746cff6bec57f43dd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:53 +0000
Subject: [PATCH 33/39] fix: the clock drifts move the clock biases in the RTK
 filter's Jacobian

---
 core/ekf/rtk_ekf_impl.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 043fb18..b4c00cc 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -30,6 +30,10 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dVeldRot = skew(x.pose.rota(gravity));
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -70,6 +74,9 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
                          (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
     out.vel = (-dx.acc_bias + eta.accel) + x.pose.rota(gravity).cross(dx.pose.head<3>());
+    out.gps_clk(0) = dx.gps_clk(1);
+    out.gal_clk(0) = dx.gal_clk(1);
+    out.glo_clk(0) = dx.glo_clk(1);
     return out;
 }
 
-- 
2.43.0


From ba67b8d57afed586d5948dde77b4de916ceb07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:02 +0000
Subject: [PATCH 34/39] fix: the velocity of the RTK filter is a body velocity
 and turns with the body

---
 core/ekf/rtk_ekf.yaml     | 2 +-
 core/ekf/rtk_ekf_impl.cxx | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ekf/rtk_ekf.yaml b/core/ekf/rtk_ekf.yaml
index 550cca3..bcd5a22 100644
--- a/core/ekf/rtk_ekf.yaml
+++ b/core/ekf/rtk_ekf.yaml
@@ -61,7 +61,7 @@ input:
 dynamics:
   #  pose, vel, acc_bias, gyro_bias, gps_clk, gal_clk, glo_clk, p_b2g, T_I2e, sd,
   pose: [[pose, vel, gyro_bias], [gyro]]
-  vel: [[pose, acc_bias], [accel]]
+  vel: [[pose, vel, acc_bias, gyro_bias], [accel, gyro]]
   acc_bias: [[], []]
   gyro_bias: [[], []]
   gps_clk: [[gps_clk], []]
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index b4c00cc..aef016c 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -29,6 +29,8 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dRotdBg = -Mat3::Identity();
         dVeldRot = skew(x.pose.rota(gravity));
 
+        dxdx->dVel_dVel = -skew(omega);
+        dxdx->dVel_dGyroBias = -skew(x.vel);
         dxdx->dVel_dAccBias = -Mat3::Identity();
 
         dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
@@ -41,12 +43,13 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->setZero();
         dxdu->dPose_dGyro.topRows<3>().setIdentity();
         dxdu->dVel_dAccel.setIdentity();
+        dxdu->dVel_dGyro = skew(x.vel);
     }
 
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    xdot.vel = x.pose.rota(gravity) + acc - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -73,7 +76,8 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
                          (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
-    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rota(gravity).cross(dx.pose.head<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rota(gravity).cross(dx.pose.head<3>()) -
+              (u.gyro - x.gyro_bias).cross(dx.vel) - x.vel.cross(dx.gyro_bias - eta.gyro);
     out.gps_clk(0) = dx.gps_clk(1);
     out.gal_clk(0) = dx.gal_clk(1);
     out.glo_clk(0) = dx.glo_clk(1);
-- 
2.43.0


From d09ea353065f3dc2a4d1f22356d380b3363ae7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:09 +0000
Subject: [PATCH 35/39] fix: gravity is rotated from the inertial to the body
 frame in the RTK filter

---
 core/ekf/rtk_ekf_impl.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index aef016c..c21f4bc 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -27,7 +27,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = skew(x.pose.rota(gravity));
+        dVeldRot = skew(x.pose.rotp(gravity));
 
         dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dGyroBias = -skew(x.vel);
@@ -49,7 +49,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc - omega.cross(x.vel);
+    xdot.vel = x.pose.rotp(gravity) + acc - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -76,7 +76,7 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>()) -
                          (u.gyro - x.gyro_bias).cross(dx.pose.tail<3>());
-    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rota(gravity).cross(dx.pose.head<3>()) -
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
               (u.gyro - x.gyro_bias).cross(dx.vel) - x.vel.cross(dx.gyro_bias - eta.gyro);
     out.gps_clk(0) = dx.gps_clk(1);
     out.gal_clk(0) = dx.gal_clk(1);
-- 
2.43.0


From 8ea917e036b6fcabb98dbf43bd1135770bc801fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 36/39] fix: copying the state of a generated filter copies its
 time

---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..985aebb 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
-- 
2.43.0


From 3854530b2b1c879af0af1cd3936b566b964e570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 37/39] fix: the RTK filter passes the system of each
 observation to its measurement model

---
 core/ekf/rtk_ekf_estimator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..2ed0f4e 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,8 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back(
+            {Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num), o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From 7dd168cc517be03f361247c58d568eda03963ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:54 +0000
Subject: [PATCH 38/39] fix: the check for an initialised filter compares times
 without overflow

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..67ca337 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -622,7 +622,7 @@ Error predict(const Snapshot& snap,
     const auto& cov = snap.cov;
     auto& x_out = out->x;
     auto& cov_out = out->cov;
-    check(x.t != INVALID_TIME, "tried to run ekf without initializing");
+    check(x.t.UTCTime::operator!=(INVALID_TIME), "tried to run ekf without initializing");
     check(t_new > x.t, "Cannot propagate backwards");
     check(isFinite(x), "Numerical issues in state vector");
     check(isFinite(cov), "Numerical issues in covariance matrix");
-- 
2.43.0


From fc50495929cba35ddc1dad5886a7fdd40d1f4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:53 +0000
Subject: [PATCH 39/39] fix: a measurement update of a generated filter moves
 the state towards the measurement

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 67ca337..6aa741f 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -588,7 +588,10 @@ ErrorResult<typename Meas::Residual> update(Out<Snapshot> snap,
     check(isFinite(dzdx), "numerical issues in measurement jacobian");
     check(isFinite(res), "numerical issues in measurement residual");
 
-    const Error err = doUpdate<Meas>(snap, z, dzdx, R, res);
+    // The Jacobian of a measurement model is that of its residual (z - h(x)), so it is the negative
+    // of the H that the gain is made of, and the correction follows the negative of the residual
+    const typename Meas::Residual neg_res = -res;
+    const Error err = doUpdate<Meas>(snap, z, dzdx, R, neg_res);
     if (!err.ok())
     {{
         return err;
-- 
2.43.0

