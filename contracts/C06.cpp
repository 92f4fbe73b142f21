// C06: a GPS ephemeris is decoded bit-exactly as the interface specification (IS-GPS-200) lays the subframes out,
// from subframes that belong together, and subframes that are rejected leave it alone.
//@ native_sources: $REPO/common/print.cxx $REPO/common/check.cxx
#include "eph_util.h"
//@ stub: ^timegm$ => havoc
#include "common/ephemeris/gps.cxx"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
using namespace mc; using namespace mc::ephemeris;
#define GPS_FIELDS(X) KEPLER_FIELDS(X) X(gnssID) X(sat) X(health) X(alert_flag) X(anti_spoof) X(code_on_L2) X(ura) X(L2_P_data_flag) X(fit_interval_flag) X(age_of_data_offset) X(tgd) X(iode1) X(iode2) X(iode3) X(collected_subframes)
static GPSEphemeris any_eph() { GPSEphemeris e; GPS_FIELDS(F_ANY) return e; }
static void alike(const GPSEphemeris& a, const GPSEphemeris& b) { GPS_FIELDS(F_SAME) }
static uint8_t S[30], M[64];
static const double SC = 3.1415926535897932;      // semicircles to radians, as in IS-GPS-200
static double sf(int p, int n, double scale) { return (double)sbits(S, p, n) * scale; }
static double uf(int p, int n, double scale) { return (double)(int64_t)ubits(S, p, n) * scale; }
#define P(n) (1.0 / (double)(1ull << (n)))
CONTRACT(subframe_1, "rel=1e-9") {
  vc_any_bytes(S, 30, "sub");
  GPSEphemeris e = any_eph(), d = e;
  bool ok = e.frame1(S);
  ENSURES(ok == (S[0] == 0x8B), "a subframe is taken iff it starts with the preamble");
  if (!ok) { alike(e, d); return; }
  COVER("taken");
  ENSURES(e.week == ubits(S, 48, 10) + 2048, "week number (third epoch)");
  ENSURES(e.code_on_L2 == ubits(S, 58, 2), "codes on L2");
  ENSURES(e.ura == ubits(S, 60, 4), "user range accuracy");
  ENSURES(e.health == ubits(S, 64, 6), "health");
  ENSURES(e.iodc == ((ubits(S, 70, 2) << 8) | ubits(S, 168, 8)), "issue of data, clock");
  ENSURES(e.iode == ubits(S, 168, 8) && e.iode1 == ubits(S, 168, 8), "issue of data of the clock subframe");
  ENSURES(e.L2_P_data_flag == ubits(S, 72, 1), "L2 P data flag");
  ENSURES(e.tocs == ubits(S, 176, 16) * 16, "clock reference time");
  ENSURES_REAL(e.tgd, (sbits(S, 160, 8) == -128 ? 0.0 : sf(160, 8, P(31))), "group delay");
  ENSURES_REAL(e.af2, sf(192, 8, P(55)), "clock drift rate");
  ENSURES_REAL(e.af1, sf(200, 16, P(43)), "clock drift");
  ENSURES_REAL(e.af0, sf(216, 22, P(31)), "clock bias");
  ENSURES(e.collected_subframes == (d.collected_subframes | 1), "subframe 1 is noted");
  d.week = e.week; d.code_on_L2 = e.code_on_L2; d.ura = e.ura; d.health = e.health; d.iodc = e.iodc; d.iode = e.iode; d.iode1 = e.iode1; d.L2_P_data_flag = e.L2_P_data_flag;
  d.tocs = e.tocs; d.tgd = e.tgd; d.af2 = e.af2; d.af1 = e.af1; d.af0 = e.af0; d.collected_subframes = e.collected_subframes; d.alert_flag = e.alert_flag;
  alike(e, d);
}
CONTRACT(subframe_2, "rel=1e-9") {
  vc_any_bytes(S, 30, "sub");
  GPSEphemeris e = any_eph(), d = e;
  bool ok = e.frame2(S);
  ENSURES(ok == (S[0] == 0x8B), "a subframe is taken iff it starts with the preamble");
  if (!ok) { alike(e, d); return; }
  COVER("taken");
  ENSURES(e.iode == ubits(S, 48, 8) && e.iode2 == ubits(S, 48, 8), "issue of data of subframe 2");
  ENSURES_REAL(e.crs, sf(56, 16, P(5)), "crs");
  ENSURES_REAL(e.delta_n, sf(72, 16, P(43)) * SC, "mean motion difference");
  ENSURES_REAL(e.m0, sf(88, 32, P(31)) * SC, "mean anomaly");
  ENSURES_REAL(e.cuc, sf(120, 16, P(29)), "cuc");
  ENSURES_REAL(e.ecc, uf(136, 32, P(33)), "eccentricity");
  ENSURES_REAL(e.cus, sf(168, 16, P(29)), "cus");
  ENSURES_REAL(e.sqrta, uf(184, 32, P(19)), "root of the semi-major axis");
  ENSURES(e.toes == ubits(S, 216, 16) * 16, "ephemeris reference time");
  ENSURES(e.collected_subframes == (d.collected_subframes | 2), "subframe 2 is noted");
  d.iode = e.iode; d.iode2 = e.iode2; d.crs = e.crs; d.delta_n = e.delta_n; d.m0 = e.m0; d.cuc = e.cuc; d.ecc = e.ecc; d.cus = e.cus; d.sqrta = e.sqrta; d.toes = e.toes;
  d.fit_interval_flag = e.fit_interval_flag; d.collected_subframes = e.collected_subframes;
  alike(e, d);
}
CONTRACT(subframe_3, "rel=1e-9") {
  vc_any_bytes(S, 30, "sub");
  GPSEphemeris e = any_eph(), d = e;
  bool ok = e.frame3(S);
  ENSURES(ok == (S[0] == 0x8B), "a subframe is taken iff it starts with the preamble");
  if (!ok) { alike(e, d); return; }
  COVER("taken");
  ENSURES_REAL(e.cic, sf(48, 16, P(29)), "cic");
  ENSURES_REAL(e.omega0, sf(64, 32, P(31)) * SC, "longitude of the ascending node");
  ENSURES_REAL(e.cis, sf(96, 16, P(29)), "cis");
  ENSURES_REAL(e.i0, sf(112, 32, P(31)) * SC, "inclination");
  ENSURES_REAL(e.crc, sf(144, 16, P(5)), "crc");
  ENSURES_REAL(e.w, sf(160, 32, P(31)) * SC, "argument of perigee");
  ENSURES_REAL(e.omegadot, sf(192, 24, P(43)) * SC, "rate of right ascension");
  ENSURES_REAL(e.idot, sf(224, 14, P(43)) * SC, "rate of inclination");
  ENSURES(e.iode3 == ubits(S, 216, 8), "issue of data of subframe 3");
  ENSURES(e.collected_subframes == (d.collected_subframes | 4), "subframe 3 is noted");
  d.cic = e.cic; d.omega0 = e.omega0; d.cis = e.cis; d.i0 = e.i0; d.crc = e.crc; d.w = e.w; d.omegadot = e.omegadot; d.idot = e.idot; d.iode3 = e.iode3; d.collected_subframes = e.collected_subframes;
  alike(e, d);
}
// between messages: an ephemeris is never left complete
static bool together(const GPSEphemeris& e) { return e.collected_subframes == 7 && e.iode1 == e.iode2 && e.iode1 == e.iode3 && e.iode == (e.iodc & 0xff); }
CONTRACT(parse, "rel=1e-9") {
  vc_any_bytes(M, 40, "msg");
  size_t size = vc::any<uint64_t>("size");
  GPSEphemeris e = any_eph(), d = e;
  REQUIRES(!together(e));
  bool done = e.parse(M, size);
  // 24 data bits of each of the ten words, as received in little-endian words with six parity bits
  for (int i = 0; i < 10; ++i) {
    uint32_t w = (uint32_t)M[4 * i] | (uint32_t)M[4 * i + 1] << 8 | (uint32_t)M[4 * i + 2] << 16 | (uint32_t)M[4 * i + 3] << 24;
    S[3 * i] = (uint8_t)(w >> 22); S[3 * i + 1] = (uint8_t)(w >> 14); S[3 * i + 2] = (uint8_t)(w >> 6);
  }
  unsigned id = (unsigned)ubits(S, 43, 3);
  bool known = size >= 40 && id >= 1 && id <= 3;
  if (known) { if (id == 1) d.frame1(S); else if (id == 2) d.frame2(S); else d.frame3(S); }
  bool complete = known && together(d);
  ENSURES(done == complete, "an ephemeris is complete iff all three subframes carry one issue of data");
  if (complete) {
    COVER("complete");
    ENSURES(same(e.toe, UTCTime::fromGPS(d.week, (int)(d.toes * 1000))), "time of ephemeris");
    ENSURES(same(e.toc, UTCTime::fromGPS(d.week, (int)(d.tocs * 1000))), "time of clock");
    ENSURES(e.collected_subframes == 0, "the next ephemeris needs all three subframes again");
    d.toe = e.toe; d.toc = e.toc; d.iode1 = e.iode1; d.iode2 = e.iode2; d.iode3 = e.iode3; d.collected_subframes = 0;
  }
  ENSURES(!together(e), "nothing complete is left behind");
  alike(e, d);
}
