// C03: conversions between calendar, GPS, Galileo and GLONASS time are exact to the millisecond and invert each other.
#include "time_util.h"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
using namespace mc;
//@ stub: ^timegm$ => vcs_timegm
//@ assume: timegm returns the number of seconds from the epoch to the given calendar date and time (C library)

// Independent constants: GPS epoch 1980-01-06 is day 3657 of the Unix era; 18 leap seconds; GLONASS is UTC+3h.
static const int64_t GPS_EPOCH = 3657LL * 86400 + 18, GLO_EPOCH = -3LL * 3600, WEEK = 604800, DAY = 86400;

CONTRACT(from_gps, "mode=int") {
  int w = vc::any<int>("w"), ms = vc::any<int>("ms");
  UTCTime t = UTCTime::fromGPS(w, ms);
  ENSURES(canonical(t), "GPS time is canonical");
  ENSURES(total_ns(t) == ((__int128)GPS_EPOCH + (__int128)w * WEEK) * 1000000000 + (__int128)ms * 1000000, "GPS week and time of week are exact");
}
CONTRACT(from_galileo, "mode=int") {
  int w = vc::any<int>("w"), ms = vc::any<int>("ms");
  UTCTime t = UTCTime::fromGalileo(w, ms);
  ENSURES(canonical(t), "Galileo time is canonical");
  ENSURES(total_ns(t) == ((__int128)GPS_EPOCH + (__int128)w * WEEK) * 1000000000 + (__int128)ms * 1000000, "Galileo week and time of week are exact");
}
CONTRACT(from_glonass, "mode=int") {
  int w = vc::any<int>("w"), ms = vc::any<int>("ms");
  UTCTime t = UTCTime::fromGlonass(w, ms);
  ENSURES(canonical(t), "GLONASS time is canonical");
  ENSURES(total_ns(t) == ((__int128)GLO_EPOCH + (__int128)w * WEEK) * 1000000000 + (__int128)ms * 1000000, "GLONASS week and time of week are exact");
}
CONTRACT(weeks, "mode=int") {
  UTCTime t = any_time("s", "n", 100000000000000LL);
  ENSURES(t.week() == fdiv(t.sec, WEEK), "week number of the Unix era");
  ENSURES(t.GpsWeek() == fdiv(t.sec - GPS_EPOCH, WEEK), "GPS week contains the time");
  ENSURES(t.GlonassWeek() == fdiv(t.sec - GLO_EPOCH, WEEK), "GLONASS week contains the time");
  ENSURES(t.GlonassDayOfWeek() == fdiv(fmod_(t.sec - GLO_EPOCH, WEEK), DAY), "GLONASS day of the week contains the time");
}
CONTRACT(gps_tow, "mode=int") {
  UTCTime t = any_time("s", "n", 100000000000LL);
  double tow = t.GpsTow();
  int64_t exact = fmod_(t.sec - GPS_EPOCH, WEEK);
  ENSURES_REAL(tow, (double)exact + (double)t.nsec / 1e9, "GPS time of week");
  ENSURES(tow >= 0 && tow < 604800, "GPS time of week lies inside a week");
}
CONTRACT(gps_round_trip, "mode=int") {
  int w = vc::in32("w", -100000, 100000), ms = vc::in32("ms", 0, 604799999);
  UTCTime t = UTCTime::fromGPS(w, ms);
  ENSURES(t.GpsWeek() == w, "a GPS time lies in the week it was made from");
  ENSURES_REAL(t.GpsTow(), (double)ms / 1000.0, "a GPS time has the time of week it was made from");
}
CONTRACT(glonass_round_trip, "mode=int") {
  int w = vc::in32("w", -100000, 100000), d = vc::in32("d", 0, 6), ms = vc::in32("ms", 0, 86399999);
  UTCTime t = UTCTime::fromGlonass(w, d * 86400000 + ms);
  ENSURES(t.GlonassWeek() == w, "a GLONASS time lies in the week it was made from");
  ENSURES(t.GlonassDayOfWeek() == d, "a GLONASS time lies in the day it was made from");
}
CONTRACT(glonass_tod, "mode=int") {
  UTCTime ref = any_time("s", "n", 50000000000LL);
  int ms = vc::in32("ms", 0, 86400000);
  UTCTime t = UTCTime::fromGlonassTimeOfDay(ref, ms);
  ENSURES(canonical(t), "time from a time of day is canonical");
  __int128 tod = total_ns(t) - (__int128)GLO_EPOCH * 1000000000 - (__int128)ms * 1000000;
  __int128 day = (__int128)DAY * 1000000000;
  ENSURES(tod % day == 0, "time from a time of day has that time of day");
  __int128 d = total_ns(t) - total_ns(ref);
  ENSURES(2 * d <= day && -2 * d <= day, "time from a time of day is the closest to the reference");
}
static int g_y, g_mo, g_d, g_h, g_mi, g_s; static int64_t g_epoch;
extern "C" __attribute__((used)) int64_t vcs_timegm(struct tm* g) {
  vc_assert(g->tm_year == g_y - 1900 && g->tm_mon == g_mo - 1 && g->tm_mday == g_d && g->tm_hour == g_h && g->tm_min == g_mi && g->tm_sec == g_s,
            "calendar fields are passed on");
  return g_epoch;
}
CONTRACT(from_calendar, "mode=int") {
  g_y = vc::in32("y", 1900, 9999); g_mo = vc::in32("mo", 1, 12); g_d = vc::in32("d", 1, 31); g_h = vc::in32("h", 0, 23); g_mi = vc::in32("mi", 0, 59);
  double s = vc::any<double>("s");
  REQUIRES(s >= 0 && s < 61);
  g_s = (int)s;
  g_epoch = vc::in("epoch", -3000000000LL, 260000000000LL);
#ifdef VC_NATIVE
  struct tm g = {}; g.tm_year = g_y - 1900; g.tm_mon = g_mo - 1; g.tm_mday = g_d; g.tm_hour = g_h; g.tm_min = g_mi; g.tm_sec = g_s; g_epoch = timegm(&g);
#endif
  UTCTime t = UTCTime::fromCalendar(g_y, g_mo, g_d, g_h, g_mi, s);
  ENSURES(canonical(t), "calendar time is canonical");
  int64_t ns = (int64_t)(1e9 * (s - (double)g_s) + 0.5);
  ENSURES(total_ns(t) == (__int128)g_epoch * 1000000000 + ns, "calendar time is the date plus the fraction of a second");
}
