// C15: the almanac of a satellite, the collection of satellites, and the time a signal was sent.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^mc::(dbg|fatal|warn|info)\( => nop
//@ stub: ^.*fmt::v[0-9]*::.*arg => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator<char>|^std::__new_allocator<char> => nop
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx $REPO/common/satellite/satellite.cxx
//@ sources: $REPO/common/ephemeris/gps.cxx $REPO/common/ephemeris/galileo.cxx $REPO/common/ephemeris/glonass.cxx $REPO/utils/crc.cxx
//@ native_sources: $REPO/common/satellite/satellite_state.cxx
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#define private public
#define protected public
#include "any_util.h"
#include "time_util.h"
#include "common/satellite/satellite.h"
#include "core/sat_manager.cxx"
using namespace mc; using satellite::Satellite;
static bool g_record = false, g_ok = true;
extern "C" __attribute__((used)) void vcs_check(bool c) { if (g_record) g_ok = g_ok && c; else vc_assume(c); }
// an ephemeris with nothing but a time and a name
struct Eph {
  int gnssID, sat, id; UTCTime toe;
  Eph() : gnssID(0), sat(0), id(0) {} Eph(const Eph& o) { *this = o; }
  Eph& operator=(const Eph& o) { gnssID = o.gnssID; sat = o.sat; id = o.id; toe.sec = o.toe.sec; toe.nsec = o.toe.nsec; return *this; }
  const char* Type() const { return "E"; } double getWavelength(int f) const { return id + 2.0 * f; }
};
static int g_used; static UTCTime g_at;
Error eph2Sat(const UTCTime& t, const Eph& e, Out<satellite::SatelliteState>) { g_used = e.id; g_at = t; return Error::none(); }
namespace mc { namespace satellite {
template <> Satellite<Eph>::Satellite(uint8_t g, uint8_t s) : SatelliteBase(g, s) {}
} }
static UTCTime any_t(const char* a, const char* b) { UTCTime t; t.sec = vc::in(a, -4000000000, 4000000000); t.nsec = vc::in(b, 0, 999999999); return t; }
static bool before(const UTCTime& a, const UTCTime& b) { return a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec); }
static bool same(const UTCTime& a, const UTCTime& b) { return a.sec == b.sec && a.nsec == b.nsec; }
// any almanac of N ephemerides in order
template <int N> static void fill(Satellite<Eph>& s, Eph* e) {
  for (int i = 0; i < N; ++i) {
    e[i].gnssID = 0; e[i].sat = 7; e[i].id = i; e[i].toe = any_t("s", "n"); if (i) REQUIRES(before(e[i - 1].toe, e[i].toe)); if (i && !vc_is_ir()) REQUIRES(e[i].toe.sec > e[i - 1].toe.sec + 1);
    s.almanac_.push_back(e[i]);
  }
}
// a new one that comes before entry AT of N (DUP: at the time of entry AT)
template <int N, int AT, bool DUP> static void add() {
  Satellite<Eph> s(0, 7); Eph e[N + 1]; fill<N>(s, e);
  Eph x; x.gnssID = 0; x.sat = 7; x.id = 100; x.toe = any_t("xs", "xn");
  if (DUP) REQUIRES(same(x.toe, e[AT].toe)); else { if (AT < N) REQUIRES(before(x.toe, e[AT].toe)); if (AT > 0) REQUIRES(before(e[AT > 0 ? AT - 1 : 0].toe, x.toe)); }
  g_record = true; g_ok = true; bool ok = s.addEph(x).ok(); g_record = false;
  ENSURES(ok && g_ok, "an ephemeris of the satellite is taken");
  const int n = DUP ? N : N + 1; ENSURES((int)s.almanac_.size() == n && s.almanacSize() == n, "one entry per time of ephemeris");
  for (int i = 0; i < n; ++i) {
    int want = i < AT ? i : i == AT ? 100 : DUP ? i : i - 1; const Eph& g = s.almanac_[i];
    ENSURES(g.id == want, "the almanac stays in order: the new one in its place, the newer of two of one time, all others kept");
    ENSURES(same(g.toe, want == 100 ? x.toe : e[want].toe) && g.sat == 7 && g.gnssID == 0, "ephemerides are kept as they came");
  }
}
#define ADD(N, A) CONTRACT(add_##N##_##A, "mode=int,weight=1") { add<N, A, false>(); }
#define PUT(N, A) CONTRACT(put_##N##_##A, "mode=int") { add<N, A, true>(); }
ADD(0, 0) ADD(1, 0) ADD(1, 1) ADD(2, 0) ADD(2, 1) ADD(2, 2) ADD(3, 0) ADD(3, 1) ADD(3, 2) ADD(3, 3) CONTRACT(add_4_0, "mode=int") { add<4, 0, false>(); } CONTRACT(add_4_1, "mode=int,tier=thorough") { add<4, 1, false>(); } CONTRACT(add_4_2, "mode=int,tier=thorough") { add<4, 2, false>(); } CONTRACT(add_4_3, "mode=int,tier=thorough") { add<4, 3, false>(); } CONTRACT(add_4_4, "mode=int,tier=thorough") { add<4, 4, false>(); }
PUT(1, 0) PUT(2, 0) PUT(2, 1) PUT(3, 0) PUT(3, 1) PUT(3, 2) CONTRACT(put_4_0, "mode=int") { add<4, 0, true>(); } CONTRACT(put_4_1, "mode=int,tier=thorough") { add<4, 1, true>(); } CONTRACT(put_4_2, "mode=int,tier=thorough") { add<4, 2, true>(); } CONTRACT(put_4_3, "mode=int,tier=thorough") { add<4, 3, true>(); }
CONTRACT(foreign, "mode=int") {
  Satellite<Eph> s(vc::in32("g0", 0, 10), vc::in32("n0", 0, 255)); Eph x; x.id = 1; x.gnssID = vc::in32("g1", 0, 10); x.sat = vc::in32("n1", 0, 255); x.toe = any_t("xs", "xn");
  g_record = true; g_ok = true; s.addEph(x); ENSURES(g_ok == (x.gnssID == (int)s.gnssId() && x.sat == (int)s.sat_num()), "an ephemeris of another satellite or system is refused");
}
template <int N> static void closest() {
  Satellite<Eph> s(0, 7); Eph e[N]; fill<N>(s, e); UTCTime t = any_t("ts", "tn"); satellite::SatelliteState st;
  const Eph& c = s.findClosestEphemeris(t);
  auto dist = [&](const Eph& x) { int64_t d = (t.sec - x.toe.sec) * 1000000000 + (t.nsec - x.toe.nsec); return d < 0 ? -d : d; };
  for (int i = 0; i < N; ++i) ENSURES(dist(c) <= dist(e[i]) + (vc_is_ir() ? 0 : 4000), "no ephemeris is closer to the time asked for");
  ENSURES(c.id >= 0 && c.id < N, "it is one of the almanac");
  int id = c.id; ENSURES(s.getState(t, make_out(st)).ok() && g_used == id && same(g_at, t), "the state is that of the closest ephemeris at that time");
}
CONTRACT(closest1, "mode=int") { closest<1>(); }
CONTRACT(closest2, "mode=int") { closest<2>(); }
CONTRACT(closest3, "mode=int") { closest<3>(); }
CONTRACT(closest4, "mode=int") { closest<4>(); }

// ---- the satellites of one system: a ring of them, searched by number
template <int H> static void ring(CircularBuffer<Satellite<Eph>, 4>& r) { for (int i = 0; i < H; ++i) { r.emplace_back(0, 0); r.pop_front(); } }
static Eph known(int sat, int id) { Eph x; x.gnssID = 0; x.sat = sat; x.id = id; x.toe.sec = 5; x.toe.nsec = 0; return x; }
// N satellites of any different numbers known; an ephemeris of the satellite AT arrives (AT == N: of an unknown one)
template <int H, int N, int AT> static void arrive() {
  CircularBuffer<Satellite<Eph>, 4> r; ring<H>(r); uint8_t num[N + 1]; auto cnt = [](int i) { return 1 + (i + 1 + H) % 3; };      // (satellites with one to three ephemerides)
  for (int i = 0; i < N; ++i) {
    num[i] = vc::any<uint8_t>("num"); for (int j = 0; j < i; ++j) REQUIRES(num[j] != num[i]);
    r.emplace_back(0, num[i]); for (int j = 0; j < cnt(i); ++j) { r.back().almanac_.push_back(known(num[i], 10 * i + j)); r.back().almanac_.back().toe.sec = j; }
  }
  Eph x = known(0, 100); x.toe.sec = 7; if (AT < N) num[N] = num[AT < N ? AT : 0]; else num[N] = vc::any<uint8_t>("new"); for (int i = 0; i < N; ++i) if (AT == N) REQUIRES(num[i] != num[N]);
  x.sat = num[N]; g_record = true; g_ok = true; addEph(x, r); g_record = false; ENSURES(g_ok, "an ephemeris only goes to its satellite");
  const bool fresh = AT == N, full = N == 3; const int drop = fresh && full ? 1 : 0, n = N - drop + (fresh ? 1 : 0);
  ENSURES((int)r.size() == n, "one entry per satellite, the oldest dropped when there is no room");
  int k = 0; for (auto& s : r) {
    int was = k + drop; bool isnew = fresh && k == n - 1; if (isnew) was = N;
    ENSURES(s.sat_num() == num[was] && s.gnssId() == 0, "satellites keep their number");
    int want = isnew ? 1 : was == AT ? cnt(was) + 1 : cnt(was); ENSURES(s.almanacSize() == want, "the ephemeris goes to its satellite and no other");
    if (s.almanacSize() == want) for (int j = 0; j < want; ++j) ENSURES(s.almanac_[j].id == (isnew || (was == AT && j == want - 1) ? 100 : 10 * was + j), "ephemerides are kept as they came");
    ++k;
  }
  ENSURES(k == n, "all are visited");
  for (int i = drop; i <= N; ++i) { const Satellite<Eph>* f = find(num[i], (const CircularBuffer<Satellite<Eph>, 4>&)r); ENSURES(f != nullptr && f->sat_num() == num[i], "every satellite known is found"); }
  int other = vc::in32("other", 0, 255); bool is = false; for (int i = drop; i <= N; ++i) is = is || num[i] == other;
  ENSURES((find(other, (const CircularBuffer<Satellite<Eph>, 4>&)r) != nullptr) == is, "and no other");
}
#define ARRIVE(H, N, A) CONTRACT(arrive_##H##_##N##_##A, "mode=int") { arrive<H, N, A>(); }
ARRIVE(0, 0, 0) ARRIVE(0, 1, 0) ARRIVE(0, 1, 1) ARRIVE(0, 2, 0) ARRIVE(0, 2, 1) ARRIVE(0, 2, 2) ARRIVE(0, 3, 0) ARRIVE(0, 3, 2) ARRIVE(0, 3, 3) ARRIVE(2, 3, 1) ARRIVE(2, 3, 3) ARRIVE(3, 2, 2)
// every system has its own satellites
CONTRACT(systems, "mode=int") {
  SatelliteManager m; int g = vc::in32("g", -1, 10), s = vc::in32("s", 0, 255);
  int a = vc::in32("a", 0, 255), b = vc::in32("b", 0, 255), c = vc::in32("c", 0, 255);
  m.gps_.emplace_back(GnssID::GPS, a); m.glo_.emplace_back(GnssID::Glonass, b); m.gal_.emplace_back(GnssID::Galileo, c);
  const satellite::SatelliteBase* r = nullptr; bool ok = m.getSat(g, s, Out<const satellite::SatelliteBase*>(r)).ok();
  bool is = (g == GnssID::GPS && s == a) || (g == GnssID::Glonass && s == b) || (g == GnssID::Galileo && s == c);
  ENSURES(ok == is, "a satellite is found if its ephemeris was received, of its own system");
  if (ok) ENSURES(r == (g == GnssID::GPS ? (const satellite::SatelliteBase*)&m.gps_.front() : g == GnssID::Glonass ? (const satellite::SatelliteBase*)&m.glo_.front() : (const satellite::SatelliteBase*)&m.gal_.front()), "and it is that one");
}
template <typename E> static void received(int g) {
  SatelliteManager m; E e(vc::in32("sat", 1, 40)); e.toe.sec = 9; e.toe.nsec = 0; e.gnssID = g; m.ephCb(e);
  ENSURES((int)m.gps_.size() == (g == GnssID::GPS) && (int)m.glo_.size() == (g == GnssID::Glonass) && (int)m.gal_.size() == (g == GnssID::Galileo), "an ephemeris makes its satellite known, in its system");
  const satellite::SatelliteBase* r = nullptr; bool ok = m.getSat(g, e.sat, Out<const satellite::SatelliteBase*>(r)).ok(); ENSURES(ok, "and it is found"); if (ok) ENSURES(r->gnssId() == g && r->sat_num() == e.sat && r->almanacSize() == 1, "with its ephemeris");
}
CONTRACT(received_gps, "mode=int") { received<ephemeris::GPSEphemeris>(GnssID::GPS); }
CONTRACT(received_glonass, "mode=int") { received<ephemeris::GlonassEphemeris>(GnssID::Glonass); }
CONTRACT(received_galileo, "mode=int") { received<ephemeris::GalileoEphemeris>(GnssID::Galileo); }
// the wavelength of a signal is the speed of light over its frequency
static double lambda(double hz) { return 299792458.0 / hz; }
CONTRACT(wavelength, "tol=1e-12") {
  using P = ephemeris::GPSEphemeris; using G = ephemeris::GalileoEphemeris; using R = ephemeris::GlonassEphemeris; P p(1); G g(1); R r(1); r.slot = vc::in32("slot", -7, 30);
  ENSURES_REAL(p.getWavelength(P::L1), lambda(1575.42e6), "GPS L1"); ENSURES_REAL(p.getWavelength(P::L2), lambda(1227.60e6), "GPS L2"); ENSURES_REAL(p.getWavelength(P::L5), lambda(1176.45e6), "GPS L5");
  ENSURES_REAL(g.getWavelength(G::E1), lambda(1575.42e6), "Galileo E1"); ENSURES_REAL(g.getWavelength(G::E5a), lambda(1176.45e6), "Galileo E5a"); ENSURES_REAL(g.getWavelength(G::E5b), lambda(1207.14e6), "Galileo E5b"); ENSURES_REAL(g.getWavelength(G::E5ab), lambda(1191.795e6), "Galileo E5"); ENSURES_REAL(g.getWavelength(G::E6), lambda(1278.75e6), "Galileo E6");
  double k = r.slot; ENSURES_REAL(r.getWavelength(R::L1), lambda(1602.0e6 + 562.5e3 * k), "GLONASS G1 of its channel"); ENSURES_REAL(r.getWavelength(R::L2), lambda(1246.0e6 + 437.5e3 * k), "GLONASS G2 of its channel"); ENSURES_REAL(r.getWavelength(R::L3), lambda(1202.025e6), "GLONASS G3");
}
CONTRACT(carrier, "mode=int") {
  Satellite<Eph> s(1, 1); int f = vc::in32("f", 0, 4), id = vc::in32("id", 0, 1000); Eph e; e.gnssID = 1; e.sat = 1; e.id = id; e.toe.sec = 9; e.toe.nsec = 0; s.addEph(e);
  ENSURES(s.carrierWavelength(f) == id + 2.0 * f, "the wavelength of a satellite is that of its ephemeris");
}
