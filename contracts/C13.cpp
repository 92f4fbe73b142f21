// C13: position, velocity and clock of a satellite are those its broadcast ephemeris defines.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ assume: the iteration for the eccentric anomaly ends by convergence (the bounded contract samples that)
//@ abstract_loops: common/satellite/satellite_state.cxx
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::math::RK4<.*Eigen::Matrix<double, 3, 1 => vcs_rk4
//@ stub: ^atan2$ => vcs_atan2
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator|^std::__new_allocator => nop
//@ stub: ^mc::UTCTime::str => nop
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx $REPO/common/ephemeris/glonass.cxx $REPO/utils/crc.cxx
#include "any_util.h"
#include "time_util.h"
#include "common/satellite/satellite_state.cxx"
using namespace mc;
using satellite::SatelliteState;
static bool g_record = false, g_ok = true;
extern "C" __attribute__((used)) void vcs_check(bool c) { if (g_record) g_ok = g_ok && c; else vc_assume(c); }
struct Orbit { ephemeris::KeplerianEphemeris eph; UTCTime t; double dt, dc, E, M, n, A; SatelliteState s; };
static void any_eph(Orbit& o) {
  auto& e = o.eph;
  int64_t age = vc::in("age", -7199, 7199);
  e.toe.sec = vc::in("toe", 1500000000, 1600000000); e.toe.nsec = 0; e.toc.sec = e.toe.sec + vc::in("toc", -100000, 100000); e.toc.nsec = 0;
  o.t.sec = e.toe.sec + age; o.t.nsec = vc::in("tn", 0, 999999999);
  e.sqrta = anyd("sqrta", 5000, 6000); e.ecc = anyd("ecc", 0.0, 0.1); e.m0 = anyd("m0", -4, 4); e.delta_n = anyd("delta_n", -1e-8, 1e-8);
  e.w = anyd("w", -4, 4); e.i0 = anyd("i0", -2, 2); e.idot = anyd("idot", -1e-8, 1e-8); e.omega0 = anyd("omega0", -4, 4); e.omegadot = anyd("omegadot", -1e-7, 1e-7);
  e.cus = anyd("cus", -6.11e-5, 6.11e-5); e.cuc = anyd("cuc", -6.11e-5, 6.11e-5); e.crs = anyd("crs", -1024, 1024); e.crc = anyd("crc", -1024, 1024); e.cis = anyd("cis", -6.11e-5, 6.11e-5); e.cic = anyd("cic", -6.11e-5, 6.11e-5);
  e.toes = anyd("toes", 0, 604800); e.af0 = anyd("af0", -1e-2, 1e-2); e.af1 = anyd("af1", -1e-7, 1e-7); e.af2 = anyd("af2", -1e-12, 1e-12);
  double out = vc::any<double>("loop.out0");
  o.dt = (double)age + o.t.nsec * 1e-9; o.dc = (double)(o.t.sec - e.toc.sec) + o.t.nsec * 1e-9;
  o.A = e.sqrta * e.sqrta; o.n = sqrt(3.986005e14 / (o.A * o.A * o.A)) + e.delta_n; o.M = e.m0 + o.n * o.dt;
  if (vc_is_ir()) { REQUIRES(fabs(o.M) < 100.0); o.E = out; }
  else { o.E = o.M; for (int i = 0; i < 100; ++i) o.E = o.E - (o.E - e.ecc * sin(o.E) - o.M) / (1 - e.ecc * cos(o.E)); }
  eph2Sat(o.t, e, make_out(o.s));
}
// IS-GPS-200 table 20-IV, Galileo OS SIS ICD table 62
static Vec3 user_algorithm(const Orbit& o) {
  const auto& e = o.eph; const double OE = 7.2921151467e-5;
  double nu = atan2(sqrt(1.0 - e.ecc * e.ecc) * sin(o.E), cos(o.E) - e.ecc), ph = nu + e.w, s = sin(2.0 * ph), c = cos(2.0 * ph);
  double u = ph + e.cus * s + e.cuc * c, r = o.A * (1.0 - e.ecc * cos(o.E)) + e.crs * s + e.crc * c, i = e.i0 + e.idot * o.dt + e.cis * s + e.cic * c;
  double x = r * cos(u), y = r * sin(u), W = e.omega0 + (e.omegadot - OE) * o.dt - OE * e.toes;
  return Vec3(x * cos(W) - y * cos(i) * sin(W), x * sin(W) + y * cos(i) * cos(W), y * sin(i));
}
CONTRACT(position, "tol=1e-9") {
  Orbit o; any_eph(o);
  Vec3 p = user_algorithm(o);
  for (int k = 0; k < 3; ++k) ENSURES_REAL(o.s.pos(k) / o.A, p(k) / o.A, "position by the user algorithm of the interface specification");
  ENSURES(o.s.t == o.t, "the state carries its time");
}
// in this contract the true anomaly is a variable of its own, its rate is the one proved next
static double g_nu; static bool g_cut = false;
extern "C" __attribute__((used)) double vcs_atan2(double y, double x) {
  if (!g_cut) return vc_atan2(y, x);
  double r = sqrt(x * x + y * y);
  REQUIRES(cos(g_nu) * r == x && sin(g_nu) * r == y); return g_nu;
}
CONTRACT(anomaly, "tol=1e-6") {
  double E = anyd("E", -3.1, 3.1), e = anyd("ecc", 0.0, 0.1), r = 1.0 - e * cos(E), b = sqrt(1.0 - e * e);
  double nu = atan2(b * sin(E), cos(E) - e);
  ENSURES_REAL(vc_deriv(nu, "E"), b / r, "rate of the true anomaly");
}
CONTRACT(velocity, "tol=2e-8") {     // (the rates of the harmonic corrections are taken at the corrected argument: a second order error)
  g_nu = vc::any<double>("nu"); g_cut = vc_is_ir();
  Orbit o; any_eph(o);
  double Ed = o.n / (1.0 - o.eph.ecc * cos(o.E)), nud = vc_is_ir() ? sqrt(1.0 - o.eph.ecc * o.eph.ecc) / (1.0 - o.eph.ecc * cos(o.E)) * Ed : 0.0;       // by Kepler's equation
  for (int k = 0; k < 3; ++k) ENSURES_NEAR(o.s.vel(k) / 4e3, (vc_deriv(o.s.pos(k), "age") + vc_deriv(o.s.pos(k), "loop.out0") * Ed + vc_deriv(o.s.pos(k), "nu") * nud) / 4e3, 2.5e-6, "velocity is the rate of change of the position to a centimetre per second");
}
CONTRACT(kepler, "mode=int,tol=1e-9") {     // the iteration ends: the value it leaves solves Kepler's equation
  int k = vc::in32("loop.k0", 0, 28); (void)k;          // (it converges before the 29th step)
  g_cut = vc_is_ir();
  Orbit o; any_eph(o);
  if (vc_is_ir()) ENSURES(fabs(o.E - o.eph.ecc * sin(o.E) - o.M) <= 1e-12, "the eccentric anomaly solves Kepler's equation");
  else { Vec3 p = user_algorithm(o); for (int j = 0; j < 3; ++j) ENSURES_REAL(o.s.pos(j) / o.A, p(j) / o.A, "the eccentric anomaly solves Kepler's equation"); }
}
CONTRACT(clock, "tol=1e-9") {
  Orbit o; any_eph(o); const auto& e = o.eph;
  double poly = e.af0 + e.af1 * o.dc + e.af2 * o.dc * o.dc, rel = 2.0 * sqrt(3.986005e14 * o.A) * e.ecc * sin(o.E) / (299792458.0 * 299792458.0);
  ENSURES_REAL(o.s.clk(0) * 1e5, (poly - rel) * 1e5, "clock by the user algorithm of the interface specification");
  ENSURES_REAL(o.s.clk(1) * 1e8, (e.af1 + 2.0 * e.af2 * o.dc) * 1e8, "clock rate is that of the clock polynomial");
}
CONTRACT(stale, "mode=int") {
  g_record = true; g_ok = true;
  Orbit o; auto& e = o.eph;
  e.toe.sec = vc::in("toe", 0, 2000000000); e.toe.nsec = vc::in("toen", 0, 999999999); o.t.sec = vc::in("t", 0, 2000000000); o.t.nsec = vc::in("tn", 0, 999999999); e.toc = e.toe;
  e.sqrta = 5153.5; e.ecc = 0.0; e.m0 = e.delta_n = e.w = e.i0 = e.idot = e.omega0 = e.omegadot = e.cus = e.cuc = e.crs = e.crc = e.cis = e.cic = e.toes = e.af0 = e.af1 = e.af2 = 0;
  bool ok = true;
  try { eph2Sat(o.t, e, make_out(o.s)); ok = g_ok; } catch (...) { ok = false; }
  int64_t d = (o.t.sec - e.toe.sec) * 1000000000 + o.t.nsec - e.toe.nsec;
  ENSURES(ok == (d <= 7200000000000 && d >= -7200000000000), "an ephemeris more than two hours from its reference time is refused, any other used");
}
// ---- GLONASS
static double g_h[64]; static int g_n = 0; static bool g_chain = true; static Vec6 g_x; static const Vec3* g_acc;
// in the contract below the integration step is replaced by a recorder (its own contract is rk4)
typedef Vec6 Orb(const Vec6&, const Vec3&);
extern "C" __attribute__((used)) void vcs_rk4(Vec6* out, Orb* f, double h, const Vec6& x, const Vec3& acc) {
  g_chain = g_chain && f == &satellite::glonassOrbit && &acc == g_acc;
  for (int i = 0; i < 6; ++i) g_chain = g_chain && x(i) == g_x(i);
  g_h[g_n++] = h;
  for (int i = 0; i < 6; ++i) g_x(i) = x(i) + (i == 0 ? h : 1.0 + i);
  *out = g_x;
}
static void glo(bool seeded) {
  ephemeris::GlonassEphemeris e; UTCTime t, t0; SatelliteState s;
  int64_t age = vc::in("age", -900, 900), tn = vc::in("tn", 0, 999999999), tn0 = vc::in("tn0", 0, 999999999);
  t0.sec = vc::in("t0", 1500000000, 1600000000); t0.nsec = tn0; t.sec = t0.sec + age; t.nsec = tn;
  double dt = (double)age + (double)(tn - tn0) * 1e-9, de = dt;
  static const char* const N[6] = {"x", "y", "z", "vx", "vy", "vz"};
  Vec6 x; for (int i = 0; i < 6; ++i) x(i) = anyd(N[i], i < 3 ? -1e7 : -4e3, i < 3 ? 1e7 : 4e3) + (vc_is_ir() ? 0.0 : i == 2 ? 2.5e7 : 0.0);
  for (int i = 0; i < 3; ++i) { e.pos(i) = 1.0; e.vel(i) = 2.0; e.acc(i) = 1e-6 * i; s.pos(i) = 3.0; s.vel(i) = 4.0; }
  if (seeded) { for (int i = 0; i < 3; ++i) { s.pos(i) = x(i); s.vel(i) = x(i + 3); } s.t = t0; e.toe = t0; int64_t back = vc::in("back", 0, 1800); e.toe.sec -= back; de += (double)back; }
  else { for (int i = 0; i < 3; ++i) { e.pos(i) = x(i); e.vel(i) = x(i + 3); } e.toe = t0; }
  e.taun = anyd("taun", -1e-2, 1e-2); e.gamn = anyd("gamn", -1e-8, 1e-8);
  g_x = x; g_acc = &e.acc;
  eph2Sat(t, e, make_out(s));
  if (vc_is_ir()) {
    double sum = 0; bool small = true;
    for (int i = 0; i < g_n; ++i) { sum += g_h[i]; small = small && g_h[i] <= 60.0 && g_h[i] >= -60.0; }
    ENSURES(sum - dt <= 1e-9 && dt - sum <= 1e-9, "the steps span the time from the known state to the time asked for");
    ENSURES(small, "no step is longer than a minute"); ENSURES(g_chain, "every step continues the one before with the luni-solar acceleration of the ephemeris");
    for (int i = 0; i < 3; ++i) { ENSURES(s.pos(i) == g_x(i), "the position is the last one"); ENSURES(s.vel(i) == g_x(i + 3), "the velocity is the last one"); }
  } else {
    Vec6 y = x; double d = dt; while (fabs(d) > 1e-9) { double h = fabs(d) < 10 ? d : d < 0 ? -10 : 10; y = math::RK4(satellite::glonassOrbit, h, y, e.acc); d -= h; }
    for (int i = 0; i < 3; ++i) { ENSURES_REAL(s.pos(i) / 1e3, y(i) / 1e3, "the position is the last one"); ENSURES_REAL(s.vel(i), y(i + 3), "the velocity is the last one"); }
  }
  ENSURES(s.t == t, "the state carries its time");
  ENSURES(fabs(s.clk(0) - (-e.taun + e.gamn * de)) < 1e-15, "clock by the interface document"); ENSURES(s.clk(1) == e.gamn, "clock rate by the interface document");
}
CONTRACT(glonass, "mode=int,tol=1e-5") { glo(false); }
CONTRACT(glonass_continued, "mode=int,tol=1e-5") { glo(true); }
CONTRACT(glonass_orbit, "tol=1e-9") {        // GLONASS ICD A.3.1.2
  Vec6 x; Vec3 a; static const char* const N[6] = {"x", "y", "z", "vx", "vy", "vz"}; static const char* const M[3] = {"ax", "ay", "az"};
  for (int i = 0; i < 6; ++i) x(i) = anyd(N[i], i < 3 ? -3e7 : -4e3, i < 3 ? 3e7 : 4e3);
  for (int i = 0; i < 3; ++i) a(i) = anyd(M[i], -1e-5, 1e-5);
  double r2 = x(0) * x(0) + x(1) * x(1) + x(2) * x(2); REQUIRES(r2 > 4e13);
  double r = sqrt(r2), mu = 398600.44e9, J = 1.5 * 1082625.7e-9 * mu * 6378136.0 * 6378136.0 / (r2 * r2 * r), w = 7.292115e-5, q = 5.0 * x(2) * x(2) / r2;
  Vec6 d = satellite::glonassOrbit(x, a);
  for (int i = 0; i < 3; ++i) ENSURES_REAL(d(i), x(i + 3), "rate of the position");
  double g = -mu / (r2 * r);
  ENSURES_REAL(d(3), g * x(0) - J * x(0) * (1.0 - q) + w * w * x(0) + 2.0 * w * x(4) + a(0), "acceleration");
  ENSURES_REAL(d(4), g * x(1) - J * x(1) * (1.0 - q) + w * w * x(1) - 2.0 * w * x(3) + a(1), "acceleration");
  ENSURES_REAL(d(5), g * x(2) - J * x(2) * (3.0 - q) + a(2), "acceleration");
}
// Runge-Kutta: exact to the fourth power of the step
struct Poly { double x, a, b, c, d; double operator()(const double& y) const { double z = y - x; return a + z * (b + z * (c + z * d)); } };
CONTRACT(rk4, "tol=1e-9") {
  double x = anyd("x", -1, 1), h = anyd("h", -1e-2, 1e-2), a = anyd("a", -1, 1), b = anyd("b", -1, 1), c = anyd("c", -1, 1), d = anyd("d", -1, 1);
  Poly f{x, a, b, c, d};
  double f2 = 2 * c, f3 = 6 * d;
  double y = x + h * a + h * h / 2.0 * b * a + h * h * h / 6.0 * (f2 * a * a + b * b * a) + h * h * h * h / 24.0 * (f3 * a * a * a + 4.0 * f2 * b * a * a + b * b * b * a);
  double z = math::RK4(f, h, x);
  ENSURES_NEAR(z, y, 1e-9, "one step agrees with the solution to the fourth power of the step");
}
