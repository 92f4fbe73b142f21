// C07: a Galileo ephemeris is decoded bit-exactly as the Galileo OS SIS ICD lays the I/NAV words out, from words that
// belong together, and pages that are rejected leave it alone.
//@ native_sources: $REPO/common/print.cxx $REPO/common/check.cxx
#include "eph_util.h"
//@ stub: ^timegm$ => havoc
#include "utils/crc.cxx"
#include "common/ephemeris/galileo.cxx"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
using namespace mc; using namespace mc::ephemeris;
#define GAL_FIELDS(X) KEPLER_FIELDS(X) X(gnssID) X(sat) X(ai0) X(ai1) X(ai2) X(bgd_e1_e5a) X(bgd_e1_e5b) X(e5b_hs) X(e1b_hs) X(e5b_dvs) X(e1b_dvs) X(collected_subframes) X(time_f) X(iod[0]) X(iod[1]) X(iod[2]) X(iod[3])
static GalileoEphemeris any_eph() {
  GalileoEphemeris e; GAL_FIELDS(F_ANY)
  // what the words can put into these fields
  e.tow = (uint32_t)vc::in32("tow_", 0, (1 << 20) - 1); e.toes = (uint32_t)vc::in32("toes_", 0, 16383 * 60); e.tocs = (uint32_t)vc::in32("tocs_", 0, 16383 * 60);
  return e;
}
static void alike(const GalileoEphemeris& a, const GalileoEphemeris& b) { GAL_FIELDS(F_SAME) }
static uint8_t S[16], M[64], B[32];
static const double SC = 3.1415926535897932;
static double sf(int p, int n, double scale) { return (double)sbits(S, p, n) * scale; }
static double uf(int p, int n, double scale) { return (double)(int64_t)ubits(S, p, n) * scale; }
#define P(n) (1.0 / (double)(1ull << (n)))
#define WORD(k) vc_any_bytes(S, 16, "word"); GalileoEphemeris e = any_eph(), d = e; REQUIRES(ubits(S, 0, 6) == k); bool ok = e.frame##k(S); (void)ok; COVER("decoded");
#define TAKEN(k) ENSURES(e.collected_subframes == (d.collected_subframes | (1 << k)), "the word is noted"); d.collected_subframes = e.collected_subframes;
#define KEEP(f) d.f = e.f;
CONTRACT(word_0, "rel=1e-9") {
  WORD(0)
  ENSURES(e.time_f == (int)ubits(S, 6, 2), "time flag");
  ENSURES(e.week == ubits(S, 96, 12), "week number");
  ENSURES(e.tow == ubits(S, 108, 20), "time of week");
  TAKEN(0) KEEP(time_f) KEEP(week) KEEP(tow)
  alike(e, d);
}
CONTRACT(word_1, "rel=1e-9") {
  WORD(1)
  ENSURES(e.iod[0] == (int)ubits(S, 6, 10), "issue of data");
  ENSURES(e.toes == ubits(S, 16, 14) * 60, "ephemeris reference time");
  ENSURES_REAL(e.m0, sf(30, 32, P(31)) * SC, "mean anomaly");
  ENSURES_REAL(e.ecc, uf(62, 32, P(33)), "eccentricity");
  ENSURES_REAL(e.sqrta, uf(94, 32, P(19)), "root of the semi-major axis");
  TAKEN(1) KEEP(iod[0]) KEEP(toes) KEEP(m0) KEEP(ecc) KEEP(sqrta)
  alike(e, d);
}
CONTRACT(word_2, "rel=1e-9") {
  WORD(2)
  ENSURES(e.iod[1] == (int)ubits(S, 6, 10), "issue of data");
  ENSURES_REAL(e.omega0, sf(16, 32, P(31)) * SC, "longitude of the ascending node");
  ENSURES_REAL(e.i0, sf(48, 32, P(31)) * SC, "inclination");
  ENSURES_REAL(e.w, sf(80, 32, P(31)) * SC, "argument of perigee");
  ENSURES_REAL(e.idot, sf(112, 14, P(43)) * SC, "rate of inclination");
  TAKEN(2) KEEP(iod[1]) KEEP(omega0) KEEP(i0) KEEP(w) KEEP(idot)
  alike(e, d);
}
CONTRACT(word_3, "rel=1e-9") {
  WORD(3)
  ENSURES(e.iod[2] == (int)ubits(S, 6, 10), "issue of data");
  ENSURES_REAL(e.omegadot, sf(16, 24, P(43)) * SC, "rate of right ascension");
  ENSURES_REAL(e.delta_n, sf(40, 16, P(43)) * SC, "mean motion difference");
  ENSURES_REAL(e.cuc, sf(56, 16, P(29)), "cuc");
  ENSURES_REAL(e.cus, sf(72, 16, P(29)), "cus");
  ENSURES_REAL(e.crc, sf(88, 16, P(5)), "crc");
  ENSURES_REAL(e.crs, sf(104, 16, P(5)), "crs");
  TAKEN(3) KEEP(iod[2]) KEEP(omegadot) KEEP(delta_n) KEEP(cuc) KEEP(cus) KEEP(crc) KEEP(crs)
  alike(e, d);
}
CONTRACT(word_4, "rel=1e-9") {
  WORD(4)
  if (ubits(S, 16, 6) != e.sat) { COVER("another satellite"); alike(e, d); return; }
  COVER("this satellite");
  ENSURES(e.iod[3] == (int)ubits(S, 6, 10), "issue of data");
  ENSURES_REAL(e.cic, sf(22, 16, P(29)), "cic");
  ENSURES_REAL(e.cis, sf(38, 16, P(29)), "cis");
  ENSURES(e.tocs == ubits(S, 54, 14) * 60, "clock reference time");
  ENSURES_REAL(e.af0, sf(68, 31, P(34)), "clock bias");
  ENSURES_REAL(e.af1, sf(99, 21, P(46)), "clock drift");
  ENSURES_REAL(e.af2, sf(120, 6, P(59)), "clock drift rate");
  TAKEN(4) KEEP(iod[3]) KEEP(cic) KEEP(cis) KEEP(tocs) KEEP(af0) KEEP(af1) KEEP(af2)
  alike(e, d);
}
CONTRACT(word_5, "rel=1e-9") {
  WORD(5)
  ENSURES_REAL(e.bgd_e1_e5a, sf(47, 10, P(32)), "E1-E5a group delay");
  ENSURES_REAL(e.bgd_e1_e5b, sf(57, 10, P(32)), "E1-E5b group delay");
  ENSURES(e.e5b_hs == ubits(S, 67, 2) && e.e1b_hs == ubits(S, 69, 2), "signal health");
  ENSURES(e.e5b_dvs == ubits(S, 71, 1) && e.e1b_dvs == ubits(S, 72, 1), "data validity");
  TAKEN(5) KEEP(bgd_e1_e5a) KEEP(bgd_e1_e5b) KEEP(e5b_hs) KEEP(e1b_hs) KEEP(e5b_dvs) KEEP(e1b_dvs)
  alike(e, d);
}
static uint32_t divide_bit(uint32_t crc, unsigned bit) {
  uint32_t top = ((crc >> 23) ^ bit) & 1;
  return ((crc << 1) & 0xffffff) ^ ((0u - top) & 0x864cfbu);
}
static unsigned pbit(int k) { return (B[k / 8] >> (7 - k % 8)) & 1; }
static bool together(const GalileoEphemeris& e) { return e.collected_subframes == 63 && e.iod[0] == e.iod[1] && e.iod[0] == e.iod[2] && e.iod[0] == e.iod[3]; }
// what the words put into these fields
static bool sane(const GalileoEphemeris& e) { return e.tow < (1u << 20) && e.toes <= 16383 * 60 && e.tocs <= 16383 * 60 && e.collected_subframes < 64 && e.iod[0] >= 0 && e.iod[0] < 1024; }
// the message of a page pair: even page in bits 0..127, odd page in bits 128..255 of big-endian words received as little-endian
static bool acceptable(size_t size, unsigned type) {
  for (int i = 0; i < 32; ++i) B[i] = M[(i & ~3) + 3 - (i & 3)];
  uint32_t crc = 0;
  for (int i = 0; i < 4; ++i) crc = divide_bit(crc, 0);
  for (int i = 0; i < 114; ++i) crc = divide_bit(crc, pbit(i));
  for (int i = 0; i < 82; ++i) crc = divide_bit(crc, pbit(128 + i));
  return size >= 32 && !pbit(0) && !pbit(1) && pbit(128) && !pbit(129) && crc == ubits(B, 128 + 82, 24) && ubits(B, 2, 6) == type;
}
static void parse_type(unsigned type) {
  vc_any_bytes(M, 36, "msg");
  size_t size = vc::any<uint64_t>("size");
  GalileoEphemeris e = any_eph(), d = e;
  REQUIRES(!together(e) && sane(e));
  bool acc = acceptable(size, type);
  REQUIRES(acc);
  COVER("acceptable page");
  bool done = e.parse(M, size);
  for (int i = 0; i < 16; ++i) S[i] = 0;
  for (int k = 0; k < 128; ++k) { unsigned b = k < 112 ? pbit(2 + k) : pbit(130 + k - 112); S[k / 8] |= (uint8_t)(b << (7 - k % 8)); }
  if (type == 2) d.collected_subframes = 0;
  switch (type) { case 0: d.frame0(S); break; case 1: d.frame1(S); break; case 2: d.frame2(S); break; case 3: d.frame3(S); break; case 4: d.frame4(S); break; case 5: d.frame5(S); break; }
  ENSURES(done == together(d), "an ephemeris is complete iff all six words since the last word 2 were seen and carry one issue of data");
  ENSURES(sane(e) && !together(e), "nothing complete is left behind");
  // the last 16 bits of a word
  if (type == 0) { ENSURES(e.tow >> 16 == d.tow >> 16, "upper bits of the time of week of the page"); ENSURES(e.tow == d.tow, "time of week of the page"); d.tow = e.tow; }
  if (type == 1) { ENSURES(same(e.sqrta, d.sqrta), "root of the semi-major axis of the page"); d.sqrta = e.sqrta; }
  if (type == 2) { ENSURES(same(e.idot, d.idot), "rate of inclination of the page"); d.idot = e.idot; }
  if (type == 3) { ENSURES(same(e.crs, d.crs), "crs of the page"); d.crs = e.crs; }
  if (type == 4) { ENSURES(same(e.af1, d.af1), "clock drift of the page"); d.af1 = e.af1; ENSURES(same(e.af2, d.af2), "clock drift rate of the page"); d.af2 = e.af2; }
  if (done) {
    COVER("complete");
    int dt = (int)d.toes - (int)d.tow;
    uint16_t week = (uint16_t)(d.week + 1024 + (dt > 302400 ? -1 : dt < -302400 ? 1 : 0));
    ENSURES(e.week == week, "the week is the one nearest the time of ephemeris, counted from the GPS epoch");
    ENSURES(same(e.toe, UTCTime::fromGalileo(e.week, (int)(d.toes * 1000))), "time of ephemeris");
    ENSURES(same(e.toc, UTCTime::fromGalileo(e.week, (int)(d.tocs * 1000))), "time of clock");
    ENSURES(e.iode == (uint8_t)d.iod[0] && e.iodc == (uint16_t)d.iod[0], "issue of data");
    ENSURES(e.collected_subframes == 0, "the next ephemeris needs all words again");
    d.week = e.week; d.toe = e.toe; d.toc = e.toc; d.iode = e.iode; d.iodc = e.iodc; d.collected_subframes = 0;
  }
  alike(e, d);
}
CONTRACT(parse_0, "rel=1e-9") { parse_type(0); }
CONTRACT(parse_1, "rel=1e-9") { parse_type(1); }
CONTRACT(parse_2, "rel=1e-9") { parse_type(2); }
CONTRACT(parse_3, "rel=1e-9") { parse_type(3); }
CONTRACT(parse_4, "rel=1e-9") { parse_type(4); }
CONTRACT(parse_5, "rel=1e-9") { parse_type(5); }
CONTRACT(rejected, "rel=1e-9") {
  vc_any_bytes(M, 36, "msg");
  size_t size = vc::any<uint64_t>("size");
  GalileoEphemeris e = any_eph(), d = e;
  REQUIRES(!together(e) && sane(e));
  unsigned type = (unsigned)vc::in32("type", 6, 63);
  bool bad = true;
  for (int t = 0; t < 6; ++t) if (acceptable(size, (unsigned)t)) bad = false;
  (void)type;
  REQUIRES(bad);
  bool done = e.parse(M, size);
  ENSURES(!done, "nothing is completed by a page that is damaged, an alert, or of another kind");
  // a page of another kind carries no word
  alike(e, d);
}
