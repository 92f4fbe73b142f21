// C16: the satellite state used for an observation is the one at the time its signal was sent.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ assume: differences of times are exact (C01)
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator|^std::__new_allocator => nop
//@ stub: ^mc::UTCTime::operator-\(double\) const => vcs_minus
//@ stub: ^mc::UTCTime::operator-\(mc::UTCTime const&\) const => vcs_between
//@ stub: ^mc::UTCTime::toSec\(\) const => vcs_tosec
//@ stub: ^mc::UTCTime::operator!= => vcs_valid
//@ stub: ^mc::satellite::computeAtmCorrection => vcs_atm
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx
//@ native_sources: $REPO/common/satellite/atm_correction.cxx $REPO/common/satellite/azel.cxx $REPO/utils/wgs84.cxx
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#define private public
#define protected public
#include "any_util.h"
#include "common/satellite/satellite_cache.cxx"
#include "models/prange_model.cxx"
#undef T
#define PoseJacobian PoseJacobian2
#include "models/relative_carrier_phase_model.cxx"
#undef T
using namespace mc; using satellite::SatelliteState;
extern "C" __attribute__((used)) void vcs_check(bool c) { vc_assume(c); }
// a time is an index into this table of real numbers (when proving; natively the library's own arithmetic runs)
static double g_time[16]; static int g_times;
static UTCTime index_of(double x) { UTCTime t; t.sec = g_times; t.nsec = 0; g_time[g_times++] = x; return t; }
extern "C" __attribute__((used)) UTCTime vcs_minus(const UTCTime* a, double s) { return index_of(g_time[a->sec] - s); }
extern "C" __attribute__((used)) UTCTime vcs_between(const UTCTime* a, const UTCTime* b) { return index_of(g_time[a->sec] - g_time[b->sec]); }
extern "C" __attribute__((used)) double vcs_tosec(const UTCTime* a) { return g_time[a->sec]; }
extern "C" __attribute__((used)) bool vcs_valid(const UTCTime*, const UTCTime*) { return true; }
static UTCTime g_atm_t; static Vec3 g_atm_rec, g_atm_sat; static int g_atm;
extern "C" __attribute__((used)) const void* vcs_atm(const UTCTime* t, const Vec3* rec, const SatelliteState* s, satellite::AtmosphericCorrection**) { ++g_atm; g_atm_t = *t; g_atm_rec = *rec; g_atm_sat = s->pos; return nullptr; }
static const UTCTime T0 = UTCTime(1600000000, 0);
static UTCTime at(double x) { return vc_is_ir() ? index_of(x) : T0 + x; }
static double since(const UTCTime& t, const UTCTime& o) { return (t - o).toSec(); }
// a satellite that gives any states and records the times asked for
struct Spy final : satellite::SatelliteBase {
  mutable int n = 0; mutable UTCTime asked[3]; Vec3 pos[3], vel[3]; double freq = 0.25; mutable int f = -1;
  Spy() : SatelliteBase(0, 1) {}
  Error getState(const UTCTime& t, Out<SatelliteState> s) const override {
    if (n < 3) { asked[n] = t; s->t = t; s->pos = pos[n]; s->vel = vel[n]; s->clk = Vec2(n, 2 * n); } else s->vel = Vec3(0, 0, 0);
    ++n; return Error::none();
  }
  double carrierWavelength(int x) const override { f = x; return freq; }
  int almanacSize() const override { return 1; }
};
static const char* const PN[9] = {"px0", "py0", "pz0", "px1", "py1", "pz1", "px2", "py2", "pz2"};
static double coord(const char* n) { double x = vc::any<double>(n); return vc_is_ir() ? x : 1.5e7 + 1e6 * x; }
static Vec3 any_rec() { double x = vc::any<double>("rx"), y = vc::any<double>("ry"), z = vc::any<double>("rz"); return Vec3(x * 1e5 + 10, y * 1e5, z * 1e5); }
static void any_spy(Spy& s) {
  for (int i = 0; i < 3; ++i) { double x = coord(PN[3 * i]), y = coord(PN[3 * i + 1]), z = coord(PN[3 * i + 2]); s.pos[i] = Vec3(x, y, z); }
  s.vel[2] = Vec3(0, 0, 0);
}
static double sagnac(const Vec3& s, const Vec3& r) { return 7.2921151467e-5 * (s.x() * r.y() - s.y() * r.x()) / 299792458.0; }
static double travel(const Vec3& s, const Vec3& r) { return (std::sqrt((s.x() - r.x()) * (s.x() - r.x()) + (s.y() - r.y()) * (s.y() - r.y()) + (s.z() - r.z()) * (s.z() - r.z())) + sagnac(s, r)) / 299792458.0; }
struct Cache { satellite::SatelliteCache c; void run(const UTCTime& t, const Vec3& rec, const Spy& s) { c.update(t, rec, s); } const SatelliteState& state() { return c.state; } double sag() { return c.sagnac; } };
struct Range {
  double buf[sizeof(models::PseudorangeModel) / 8 + 1];
  models::PseudorangeModel* f; meas::GnssObservation o; math::DQuat<double> T;
  void run(const UTCTime& t, const Vec3& rec, const Spy& s) { o.setZero(); o.t = t; f = new (buf) models::PseudorangeModel(o, s, rec, Mat3::Identity(), T); }
  const SatelliteState& state() { return f->sat_state_; } double sag() { return f->sagnac_; }
};
template <typename U> static void kept(U& u, Spy& s, const UTCTime& t, const Vec3& rec, int n, bool has_sagnac, bool atm) {
  ENSURES(s.n == n, "no state is asked for beyond that");
  ENSURES_REAL(since(t, s.asked[0]), 0.0, "the search starts at the time of reception");
  ENSURES_REAL(since(t, u.state().t), since(t, s.asked[n - 1]), "the state kept is that of the last time");
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(u.state().pos[i], s.pos[n - 1][i], "its position"); ENSURES_REAL(u.state().vel[i], s.vel[n - 1][i], "its velocity"); }
  ENSURES_REAL(u.state().clk[0], n - 1.0, "its clock"); ENSURES_REAL(u.state().clk[1], 2.0 * (n - 1), "its clock rate");
  if (has_sagnac) ENSURES_REAL(u.sag(), sagnac(s.pos[n - 1], rec), "the Sagnac correction kept is that of the position");
  if (atm && vc_is_ir()) {
    ENSURES(g_atm == 1, "one atmospheric correction"); ENSURES_REAL(since(t, g_atm_t), 0.0, "at the time of reception");
    for (int i = 0; i < 3; ++i) { ENSURES_REAL(g_atm_rec[i], rec[i], "at the receiver"); ENSURES_REAL(g_atm_sat[i], s.pos[n - 1][i], "towards the satellite"); }
  }
}
// whatever state the satellite gives, the next time asked for is that of the signal as seen from that state
template <typename U> static void sent(bool has_sagnac, bool atm) {
  Spy s; any_spy(s); Vec3 rec = any_rec(); U u; double t0 = vc_is_ir() ? vc::any<double>("t") : 0; UTCTime t = at(t0);
  s.vel[0] = Vec3(3000, 4000, 0); s.vel[1] = Vec3(0, 0, 0); s.pos[1] = s.pos[0]; REQUIRES(rec.norm() > 1.0);
  u.run(t, rec, s);
  kept(u, s, t, rec, 2, has_sagnac, atm);
  ENSURES_REAL(since(t, s.asked[1]), travel(s.pos[0], rec), "sent before reception by the travel time: distance and Sagnac correction over the speed of light");
}
// a satellite that moves is asked again
template <typename U> static void again(bool has_sagnac, bool atm) {
  Spy s; any_spy(s); Vec3 rec(6.0e6, 1e6, 2e6); U u; UTCTime t = at(0);
  s.pos[0] = Vec3(1.5e7, 1.3e7, 2.2e7); s.pos[2] = s.pos[1]; s.vel[0] = s.vel[1] = Vec3(3000, 0, 0);
  u.run(t, rec, s);
  kept(u, s, t, rec, 3, has_sagnac, atm);
  ENSURES_REAL(since(t, s.asked[2]), travel(s.pos[1], rec), "the travel time from the state of the first improvement");
}
// until a millimetre of motion is left
template <typename U> static void until() {
  Spy s; any_spy(s); Vec3 rec(6.0e6, 1e6, 2e6); U u; UTCTime t = at(0);
  s.pos[0] = Vec3(1.5e7, 1.3e7, 2.2e7); s.vel[0] = Vec3(3000, 0, 0); double v = anyd("v", 0.0, 10000.0); s.vel[1] = Vec3(v, 0, 0); s.pos[2] = s.pos[1] = s.pos[0];
  u.run(t, rec, s);
  ENSURES(s.n >= 2, "the time is improved at least once"); ENSURES(s.n > 2 || std::fabs(since(s.asked[0], s.asked[1])) * s.vel[1].norm() <= 1e-3, "no more than a millimetre of satellite motion is left");
}
CONTRACT(cache, "tol=1e-7,real=1") { sent<Cache>(true, true); }
CONTRACT(prange, "tol=1e-7,real=1") { sent<Range>(true, true); }
CONTRACT(cache_again, "tol=1e-7,real=1") { again<Cache>(true, true); }
CONTRACT(prange_again, "tol=1e-7,real=1") { again<Range>(true, true); }
CONTRACT(cache_until, "tol=1e-7,real=1") { until<Cache>(); }
CONTRACT(prange_until, "tol=1e-7,real=1") { until<Range>(); }
struct Phase {
  double buf[sizeof(models::RelativeCarrierPhase) / 8 + 1]; SatelliteState st; math::DQuat<double> T;
  void run(const UTCTime& t, const Vec3& rec, const Spy& s) {
    models::RelativeCarrierPhase* f = (models::RelativeCarrierPhase*)buf; meas::GnssObservation o; o.setZero(); o.t = t; f->computeSatState(o, rec, s, Out<SatelliteState>(st));
  }
  const SatelliteState& state() { return st; } double sag() { return 0; }
};
CONTRACT(phase, "tol=1e-7,real=1") { sent<Phase>(false, false); }
CONTRACT(phase_again, "tol=1e-7,real=1") { again<Phase>(false, false); }
CONTRACT(phase_until, "tol=1e-7,real=1") { until<Phase>(); }
// the two states of a carrier phase difference are those of its two observations
struct Still final : satellite::SatelliteBase {
  int g, k; mutable int f = -1; mutable UTCTime first[2]; mutable int n = 0; Vec3 p;
  Still(int g_, int k_) : SatelliteBase(g_, k_), g(g_), k(k_) {}
  Error getState(const UTCTime& t, Out<SatelliteState> s) const override { if (n % 2 == 0 && n < 4) first[n / 2] = t; s->t = t; s->pos = p; s->vel = n % 2 ? Vec3(0, 0, 0) : Vec3(2, 0, 0); s->clk = Vec2(n, 0); ++n; return Error::none(); }
  double carrierWavelength(int x) const override { f = x; return 0.25; }
  int almanacSize() const override { return 1; }
};
CONTRACT(difference, "tol=1e-7,real=1") {
  Still s(0, 1); s.p = Vec3(1.5e7, 0, 0); Vec3 rec = any_rec(); math::DQuat<double> T; meas::GnssObservation a, b; a.setZero(); b.setZero();
  double ta = vc::any<double>("ta"), tb = vc::any<double>("tb"); a.t = at(vc_is_ir() ? ta : 0); b.t = at(vc_is_ir() ? tb : 1);
  a.gnss_id = b.gnss_id = 0; a.sat_num = b.sat_num = 1; a.freq = b.freq = vc::in32("freq", 0, 5); a.carrier_phase = vc::any<double>("pa"); b.carrier_phase = vc::any<double>("pb"); double xi = vc::any<double>("xi");
  models::RelativeCarrierPhase f(a, b, s, rec, T, xi);
  ENSURES(s.n == 4, "two states"); ENSURES_REAL(since(a.t, s.first[0]), 0.0, "the first at the first observation"); ENSURES_REAL(since(b.t, s.first[1]), 0.0, "the second at the second observation");
  ENSURES_REAL(f.sat1_.clk(0), 1.0, "kept as the first"); ENSURES_REAL(f.sat2_.clk(0), 3.0, "kept as the second");
  ENSURES_REAL(f.dPhi_, b.carrier_phase - a.carrier_phase, "the change of the carrier phase"); ENSURES_REAL(f.lambda_, 0.25, "wavelength of the satellite"); ENSURES(s.f == a.freq, "at the frequency observed"); ENSURES_REAL(f.Xi_, xi, "the weight given");
}
