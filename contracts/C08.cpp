// C08: a GLONASS ephemeris is decoded bit-exactly as the interface document lays the strings out, dated by the
// fields that name its day, and completed only from five strings of one frame.
//@ native_sources: $REPO/common/print.cxx $REPO/common/check.cxx
#include "eph_util.h"
//@ stub: ^timegm$ => vcs_timegm
//@ stub: ^mc::utils::gloTest\( => vcs_glo_test
//@ assume: timegm returns the number of seconds from the epoch to the given calendar date and time (C library)
//@ assume: the string check is verified on its own (C05); here it accepts or rejects arbitrarily
#include <ctime>
#include "common/ephemeris/glonass.cxx"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
#ifdef VC_NATIVE
#include "utils/crc.cxx"
#endif
using namespace mc; using namespace mc::ephemeris;
static bool g_ok;
static uint8_t S[64], M[64];
extern "C" __attribute__((used)) int64_t vcs_timegm(struct tm* g) {
  vc_assert(g->tm_year == 96 && g->tm_mon == 0 && g->tm_mday == 1 && g->tm_hour == 0 && g->tm_min == 0 && g->tm_sec == 0, "four-year intervals are counted from 1996");
  return 820454400;
}
#define GLO_FIELDS(X) X(gnssID) X(sat) X(toe) X(iode) X(slot) X(svh) X(sva) X(age) X(tof) X(taun) X(gamn) X(dtaun) X(frame_flags_) X(time_mark_) X(tk_h_) X(tk_m_) X(tk_s_) X(tb_) X(NT_) X(N4_) X(NA_)
inline bool same(uint8_t a, uint8_t b) { return a == b; }
static GlonassEphemeris any_eph() {
  GlonassEphemeris e; GLO_FIELDS(F_ANY)
  e.N4_ = vc::in32("N4", 0, 31); e.NT_ = vc::in32("NT", 0, 2047); e.tb_ = vc::in32("tb", 0, 127);
  e.tk_h_ = vc::in32("tk_h", 0, 31); e.tk_m_ = vc::in32("tk_m", 0, 63); e.tk_s_ = vc::in32("tk_s", 0, 30);
  for (int i = 0; i < 3; ++i) { e.pos[i] = vc::any<double>("pos"); e.vel[i] = vc::any<double>("vel"); e.acc[i] = vc::any<double>("acc"); }
  return e;
}
static void alike(const GlonassEphemeris& a, const GlonassEphemeris& b) {
  GLO_FIELDS(F_SAME)
  for (int i = 0; i < 3; ++i) ENSURES(same(a.pos[i], b.pos[i]) && same(a.vel[i], b.vel[i]) && same(a.acc[i], b.acc[i]), "the rest of the ephemeris is untouched: pos, vel, acc");
}
// sign and magnitude numbers
static double glo(int p, int n, double scale) { double m = (double)(int64_t)ubits(S, p + 1, n - 1) * scale; return ubits(S, p, 1) ? -m : m; }
#define P(n) (1.0 / (double)(1ull << (n)))
// the times named by the date and time-of-day fields: GLONASS time is UTC + 3 h, four-year intervals since 1996
static int64_t day_start(const GlonassEphemeris& e) { return 820454400 + (int64_t)(e.N4_ - 1) * 1461 * 86400 - 10800 + (int64_t)(e.NT_ - 1) * 86400; }
static void dated(GlonassEphemeris& d) {
  if ((d.frame_flags_ & 0x18) != 0x18) return;
  if (d.frame_flags_ & 1) { d.tof.sec = day_start(d) + d.tk_h_ * 3600 + d.tk_m_ * 60 + d.tk_s_; d.tof.nsec = 0; }
  if (d.frame_flags_ & 2) { d.toe.sec = day_start(d) + d.tb_ * 900; d.toe.nsec = 0; }
}
static void axis(GlonassEphemeris& e, GlonassEphemeris& d, int i) {
  ENSURES_REAL(e.vel[i], glo(21, 24, P(20)) * 1000, "velocity");
  ENSURES_REAL(e.acc[i], glo(45, 5, P(30)) * 1000, "acceleration");
  ENSURES_REAL(e.pos[i], glo(50, 27, P(11)) * 1000, "position");
  d.pos[i] = e.pos[i]; d.vel[i] = e.vel[i]; d.acc[i] = e.acc[i];
}
CONTRACT(string_1, "rel=1e-9") {
  vc_any_bytes(S, 16, "str");
  GlonassEphemeris e = any_eph(), d = e;
  e.frame1(S);
  axis(e, d, 0);
  d.tk_h_ = (int)ubits(S, 9, 5); d.tk_m_ = (int)ubits(S, 14, 6); d.tk_s_ = (int)ubits(S, 20, 1) * 30;
  d.frame_flags_ |= 1; d.convertTime();
  alike(e, d);
}
CONTRACT(string_2, "rel=1e-9") {
  vc_any_bytes(S, 16, "str");
  GlonassEphemeris e = any_eph(), d = e;
  e.frame2(S);
  axis(e, d, 1);
  d.svh = (int)ubits(S, 5, 3); d.tb_ = (int)ubits(S, 9, 7); d.iode = d.tb_;
  d.frame_flags_ |= 2; d.convertTime();
  alike(e, d);
}
CONTRACT(string_3, "rel=1e-9") {
  vc_any_bytes(S, 16, "str");
  GlonassEphemeris e = any_eph(), d = e;
  e.frame3(S);
  axis(e, d, 2);
  ENSURES_REAL(e.gamn, glo(6, 11, P(40)), "relative frequency deviation");
  d.gamn = e.gamn; d.frame_flags_ |= 4;
  e.tof = d.tof; e.toe = d.toe;      // when dated is left to the string that completes the date
  alike(e, d);
}
CONTRACT(string_4, "rel=1e-9") {
  vc_any_bytes(S, 16, "str");
  GlonassEphemeris e = any_eph(), d = e;
  e.frame4(S);
  ENSURES_REAL(e.taun, glo(5, 22, P(30)), "clock bias");
  ENSURES_REAL(e.dtaun, glo(27, 5, P(30)), "delay between L1 and L2");
  d.taun = e.taun; d.dtaun = e.dtaun;
  d.age = (int)ubits(S, 32, 5); d.sva = (int)ubits(S, 52, 4); d.NT_ = (int)ubits(S, 59, 11); d.slot = (int)ubits(S, 70, 5);
  d.frame_flags_ |= 8;
  e.tof = d.tof; e.toe = d.toe;
  alike(e, d);
}
CONTRACT(string_5, "rel=1e-9") {
  vc_any_bytes(S, 16, "str");
  GlonassEphemeris e = any_eph(), d = e;
  e.frame5(S);
  d.NA_ = (int)ubits(S, 5, 11); d.N4_ = (int)ubits(S, 49, 5);
  d.frame_flags_ |= 16; d.convertTime();
  alike(e, d);
}
CONTRACT(dates, "mode=int") {
  GlonassEphemeris e = any_eph(), d = e;
  e.convertTime(); dated(d);
  ENSURES(same(e.tof, d.tof), "time of frame");
  ENSURES(same(e.toe, d.toe), "time of ephemeris");
  if ((e.frame_flags_ & 0x1a) == 0x1a) {
    COVER("dated");
    __int128 lo = (__int128)day_start(e) * 1000000000, t = (__int128)e.toe.sec * 1000000000 + e.toe.nsec;
    ENSURES(t - lo >= 0 && (e.tb_ >= 96 || t - lo < (__int128)86400 * 1000000000), "the time of ephemeris lies in the day named by the date");
  }
}
// the check of a string is abstract here
extern "C" __attribute__((used)) bool vcs_glo_test(const uint8_t* b) {
  for (int i = 0; i < 16; ++i) ENSURES(b[i] == S[i], "the check is made on the bytes in transmission order");
  return g_ok;
}
CONTRACT(parse, "rel=1e-9") {
  vc_any_bytes(M, 16, "msg");
  size_t size = vc::any<uint64_t>("size");
  g_ok = vc::any<bool>("checks");
  for (int i = 0; i < 16; ++i) S[i] = M[(i / 4) * 4 + 3 - i % 4];
#ifdef VC_NATIVE
  g_ok = mc::utils::gloTest(S);
#endif
  GlonassEphemeris e = any_eph(), d = e;
  bool done = e.parse(M, size);
  unsigned id = (unsigned)ubits(S, 1, 4);
  bool taken = size >= 16 && g_ok && id >= 1 && id <= 5;
  if (taken) {
    COVER("taken");
    int mark = (int)ubits(S, 96, 16);
    if (mark != d.time_mark_) d.frame_flags_ = 0;
    d.time_mark_ = mark;
    if (id == 1) d.frame1(S); else if (id == 2) d.frame2(S); else if (id == 3) d.frame3(S); else if (id == 4) d.frame4(S); else d.frame5(S);
  }
  bool complete = taken && id == 5 && d.frame_flags_ == 31;
  ENSURES(done == complete, "an ephemeris is complete iff all five strings of one frame were received, the fifth last");
  if (complete) COVER("complete");
  alike(e, d);
}
