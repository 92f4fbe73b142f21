// C17: geodetic coordinates, the local frame, the direction of a satellite and the delays of the atmosphere.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ abstract_loops: !utils/wgs84.cxx
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator|^std::__new_allocator => nop
//@ stub: ^atan$ => vcs_atan
//@ stub: ^mc::UTCTime::GpsTow\(\) const => vcs_tow
//@ stub: ^mc::utils::WGS84::ecef2lla\(Eigen::Matrix<double, 3, 1, 0, 3, 1> const&\)$ => vcs_lla
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#define private public
#include "any_util.h"
#include "utils/wgs84.cxx"
#include "common/satellite/azel.cxx"
#include "common/satellite/atm_correction.cxx"
using namespace mc; using utils::WGS84; using namespace mc::satellite; using math::Quat; using math::DQuat;
extern "C" __attribute__((used)) void vcs_check(bool c) { vc_assume(c); }
static const double A = 6378137.0, B = 6356752.314245, F = (A - B) / A, E2 = F * (2 - F);
static double prime(double s) { return A / std::sqrt(1.0 - E2 * s * s); }      // radius of curvature in the prime vertical
// the latitude is an angle whose tangent is the argument of atan, cosine positive
static double g_r, g_z, g_rho, g_lat; static bool g_cut;
extern "C" __attribute__((used)) double vcs_atan(double x) {
  if (!g_cut) { double a = vc::any<double>("atan"); REQUIRES(cos(a) > 0.0 && sin(a) == x * cos(a)); return a; }
  ENSURES_REAL(x * g_r, g_z, "tangent of the latitude"); REQUIRES(cos(g_lat) * g_rho == g_r && sin(g_lat) * g_rho - g_z == 0.0); return g_lat;
}
static double g_tow; extern "C" __attribute__((used)) double vcs_tow(const UTCTime*) { return g_tow; }
static Vec3 g_lla; static Vec3 g_lla_of; static bool g_any_lla;
extern "C" __attribute__((used)) void vcs_lla(Vec3* out, const Vec3* ecef) { if (g_any_lla) { g_lla_of = *ecef; *out = g_lla; } else *out = WGS84::ecef2lla(*ecef); }
CONTRACT(lla2ecef, "tol=1e-9") {
  double lat = anyd("lat", -1.57, 1.57), lon = anyd("lon", -3.14, 3.14), h = anyd("h", -10000, 1e7); Vec3 p = WGS84::lla2ecef(Vec3(lat, lon, h));
  double v = prime(sin(lat));
  ENSURES_REAL(p.x() / A, (v + h) * cos(lat) * cos(lon) / A, "x"); ENSURES_REAL(p.y() / A, (v + h) * cos(lat) * sin(lon) / A, "y"); ENSURES_REAL(p.z() / A, (v * (1.0 - E2) + h) * sin(lat) / A, "z");
}
// where the iteration has come to rest the geodetic coordinates are those of the point
CONTRACT(ellipsoid, "") {
  ENSURES(WGS84::A == A && WGS84::B == B && std::abs(WGS84::E2 - (A * A - B * B) / (A * A)) < 1e-12 && std::abs(WGS84::F - F) < 1e-12, "axes and eccentricity of the ellipsoid");
}
CONTRACT(ecef2lla, "tol=1e-9") {
  if (!vc_is_ir()) {
    double lat = anyd("lat", -1.57, 1.57), lon = anyd("lon", -3.14, 3.14), h = anyd("h", -10000, 1e7); Vec3 p = WGS84::lla2ecef(Vec3(lat, lon, h)), l = WGS84::ecef2lla(p), q = WGS84::lla2ecef(l);
    for (int i = 0; i < 3; ++i) ENSURES_NEAR(q[i], p[i], 1e-5, "the geodetic coordinates are those of the point");
    double d = (1.58 - std::fabs(lat)) * (lat > 0 ? 1e-8 : 3e-6), n = (lon > 0 ? M_PI / 2.0 : -M_PI / 2.0) * (1.0 - d); p = WGS84::lla2ecef(Vec3(n, lon, h)); l = WGS84::ecef2lla(p); q = WGS84::lla2ecef(l);      // (close to a pole)
    for (int i = 0; i < 3; ++i) ENSURES_NEAR(q[i], p[i], 1e-5, "the geodetic coordinates are those of the point"); return;
  }
  double x = vc::any<double>("x"), y = vc::any<double>("y"), Z = vc::any<double>("z"), z, v; double o0 = vc::any<double>("loop.out0"), o1 = vc::any<double>("loop.out1");
  z = o1; v = o0; double r2 = x * x + y * y; REQUIRES(r2 > 1e-12); double r = std::sqrt(r2), rho = std::sqrt(r2 + z * z), s = z / rho; g_r = r; g_z = z; g_rho = rho; g_lat = vc::any<double>("lat"); g_cut = true;
  Vec3 l; WGS84::ecef2lla(Vec3(x, y, Z), &l);
  REQUIRES(Z == z - v * WGS84::E2 * sin(g_lat));                        // (at rest: see "iterate")
  double e = l.z() + v;
  ENSURES_REAL(e, rho, "height over the ellipsoid"); 
  ENSURES_REAL(e * cos(l.x()) * cos(l.y()), x, "x of the point"); ENSURES_REAL(e * cos(l.x()) * sin(l.y()), y, "y of the point"); ENSURES_REAL((v - v * WGS84::E2 + l.z()) * sin(l.x()), Z, "z of the point");
}
CONTRACT(iterate, "tol=1e-9,loopeq=1") {
  double in = vc::any<double>("loop.in0"), v = vc::any<double>("loop.out0"), z = vc::any<double>("loop.out1"); if (!vc_is_ir()) return;
  double x = vc::any<double>("x"), y = vc::any<double>("y"), Z = vc::any<double>("z"); double r2 = x * x + y * y; g_lat = vc::any<double>("lat");
  Vec3 l; WGS84::ecef2lla(Vec3(x, y, Z), &l); double s = in / std::sqrt(r2 + in * in);
  ENSURES_REAL(v, A / std::sqrt(1.0 - WGS84::E2 * s * s), "radius of curvature at the latitude before"); ENSURES_REAL(z, Z + WGS84::E2 * A / std::sqrt(1.0 - WGS84::E2 * s * s) * s, "improved by the radius of curvature");
  double step = std::abs(z - in); ENSURES_REAL(std::min(step, 1e-4), step, "it ends when a tenth of a millimetre is left");
}
CONTRACT(pole, "tol=1e-6") {
  if (!vc_is_ir()) {
    double h = anyd("h", -10000, 1e7); bool south = vc::any<bool>("south"); Vec3 l = WGS84::ecef2lla(Vec3(0, 0, south ? -B - h : B + h));
    ENSURES_NEAR(l.x(), south ? -M_PI / 2 : M_PI / 2, 1e-9, "latitude of a pole"); ENSURES_NEAR(l.z(), h, 1e-3, "height over a pole"); return;
  }
  double x = vc::any<double>("x"), y = vc::any<double>("y"), Z = vc::any<double>("z"), v = vc::any<double>("loop.out0"), z = vc::any<double>("loop.out1"); double r2 = x * x + y * y; REQUIRES(r2 <= 1e-12);
  Vec3 l; WGS84::ecef2lla(Vec3(x, y, Z), &l); ENSURES_REAL(l.x(), Z > 0.0 ? M_PI / 2 : -M_PI / 2, "latitude of a pole"); ENSURES_REAL(l.y(), 0.0, "longitude of a pole"); ENSURES_REAL(l.z(), std::sqrt(r2 + z * z) - v, "height over a pole");
}
// axes of the local frame: north, east, down
static void axes(double lat, double lon, Vec3* n, Vec3* e, Vec3* d) {
  double sp = sin(lat), cp = cos(lat), sl = sin(lon), cl = cos(lon); *n = Vec3(-sp * cl, -sp * sl, cp); *e = Vec3(-sl, cl, 0.0); *d = Vec3(-cp * cl, -cp * sl, -sp);
}
CONTRACT(local, "tol=1e-9") {
  double lat = anyd("lat", -1.57, 1.57), lon = anyd("lon", -3.14, 3.14); Vec3 n, e, d; axes(lat, lon, &n, &e, &d); Quat<double> q = WGS84::q_e2n(Vec3(lat, lon, anyd("h", -10000, 1e7)));
  double x = anyd("vx", -10, 10), y = anyd("vy", -10, 10), z = anyd("vz", -10, 10); Vec3 u(x, y, z), w = q.rotp(u);
  ENSURES_REAL(w.x(), n.dot(u), "north"); ENSURES_REAL(w.y(), e.dot(u), "east"); ENSURES_REAL(w.z(), d.dot(u), "down");
}
static Vec3 anyv(const char* a, const char* b, const char* c, double f) { double x = small(a, f), y = small(b, f), z = small(c, f); return Vec3(x, y, z); }
static Vec3 any_lla() { double lat = anyd("lat", -1.57, 1.57), lon = anyd("lon", -3.14, 3.14), h = anyd("h", -1000, 1e4); return Vec3(lat, lon, h); }
// the frame at a point: its origin there, its axes those at the geodetic coordinates of the point
CONTRACT(frame, "tol=1e-6") {
  g_lla = any_lla(); g_any_lla = vc_is_ir(); Vec3 p = vc_is_ir() ? anyv("px", "py", "pz", 1.0) : WGS84::lla2ecef(g_lla); Vec3 n, e, d; axes(g_lla(0), g_lla(1), &n, &e, &d);
  DQuat<double> T = WGS84::dq_ecef2ned(p), T2; WGS84::dq_ecef2ned(p, &T2); Vec3 u = anyv("ux", "uy", "uz", 10.0), w = T.real().rotp(u), o = T.translation();
  if (vc_is_ir()) for (int i = 0; i < 3; ++i) ENSURES_REAL(g_lla_of[i], p[i], "coordinates of the point");
  for (int i = 0; i < 3; ++i) ENSURES_REAL(o[i] / 1e6, p[i] / 1e6, "origin at the point");
  ENSURES_REAL(w.x(), n.dot(u), "north"); ENSURES_REAL(w.y(), e.dot(u), "east"); ENSURES_REAL(w.z(), d.dot(u), "down");
  for (int i = 0; i < 8; ++i) ENSURES_REAL(T.arr_(i) / 1e6, T2.arr_(i) / 1e6, "both ways to ask");
}
// coordinates in a frame and back
CONTRACT(points, "tol=1e-6") {
  Vec3 l = any_lla(), p = anyv("px", "py", "pz", 100.0), o = anyv("ox", "oy", "oz", 100.0); Vec3 n, e, d; axes(l(0), l(1), &n, &e, &d); DQuat<double> T(WGS84::q_e2n(l), o);
  Vec3 a = WGS84::ecef2ned(T, p), a2; WGS84::ecef2ned(T, p, &a2); Vec3 u = p - o;
  ENSURES_REAL(a.x(), n.dot(u), "north of the origin"); ENSURES_REAL(a.y(), e.dot(u), "east of it"); ENSURES_REAL(a.z(), d.dot(u), "below it");
  Vec3 b = WGS84::ned2ecef(T, u), b2; WGS84::ned2ecef(T, u, &b2); Vec3 w = n * u.x() + e * u.y() + d * u.z() + o;
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(b[i], w[i], "the point of local coordinates"); ENSURES_REAL(a[i], a2[i], "both ways to ask"); ENSURES_REAL(b[i], b2[i], "both ways to ask"); }
}
CONTRACT(lla2ned, "tol=1e-6,budget=300") {
  Vec3 l0 = any_lla(); double lat = anyd("lat1", -1.57, 1.57), lon = anyd("lon1", -3.14, 3.14), h = anyd("h1", -1000, 1e4); Vec3 l1(lat, lon, h), n, e, d; axes(l0(0), l0(1), &n, &e, &d);
  Vec3 u = WGS84::lla2ecef(l1) - WGS84::lla2ecef(l0), a = WGS84::lla2ned(l0, l1), a2; WGS84::lla2ned(l0, l1, &a2);
  ENSURES_REAL(a.x() / A, n.dot(u) / A, "north of the reference"); ENSURES_REAL(a.y() / A, e.dot(u) / A, "east of it"); ENSURES_REAL(a.z() / A, d.dot(u) / A, "below it"); for (int i = 0; i < 3; ++i) ENSURES_REAL(a[i] / A, a2[i] / A, "both ways to ask");
}
// (the iteration itself: see "iterate"; here that it is done for the point of the local coordinates)
CONTRACT(ned2lla, "tol=1e-6,loopeq=1,budget=300") {
  if (!vc_is_ir()) {
    Vec3 l0 = any_lla(), u = anyv("ux", "uy", "uz", 1e5), l = WGS84::ned2lla(l0, u), l2; WGS84::ned2lla(l0, u, &l2); Vec3 v = WGS84::lla2ned(l0, l); for (int i = 0; i < 3; ++i) { ENSURES_NEAR(v[i], u[i], 1e-3, "the point of local coordinates"); ENSURES_REAL(l[i], l2[i], "both ways to ask"); } return;
  }
  Vec3 l0 = any_lla(), u = anyv("ux", "uy", "uz", 1e5); double in = vc::any<double>("loop.in0"), v = vc::any<double>("loop.out0"), z = vc::any<double>("loop.out1");
  Vec3 n, e, d; axes(l0(0), l0(1), &n, &e, &d); Vec3 p = n * u.x() + e * u.y() + d * u.z() + WGS84::lla2ecef(l0); double r2 = p.x() * p.x() + p.y() * p.y(), s = in / std::sqrt(r2 + in * in); REQUIRES(r2 > 1e-12);
  Vec3 l = WGS84::ned2lla(l0, u);
  ENSURES_REAL(v / A, 1.0 / std::sqrt(1.0 - WGS84::E2 * s * s), "radius of curvature"); ENSURES_REAL(z / A, p.z() / A + WGS84::E2 / std::sqrt(1.0 - WGS84::E2 * s * s) * s, "height of the point over the equator");
  double r = std::sqrt(r2); ENSURES_REAL(cos(l.y()) * r / A, p.x() / A, "longitude of the point"); ENSURES_REAL(sin(l.y()) * r / A, p.y() / A, "longitude of the point"); ENSURES_REAL((l.z() + v) / A, std::sqrt(r2 + z * z) / A, "height of the point");
}
CONTRACT(ecef2lla_value, "tol=1e-6") {
  double x = vc::any<double>("x"), y = vc::any<double>("y"), Z = vc::any<double>("z"), v = vc::any<double>("loop.out0"), z = vc::any<double>("loop.out1"); Vec3 p(x, y, Z); double r2 = x * x + y * y;
  if (!vc_is_ir()) { p = WGS84::lla2ecef(any_lla()); Vec3 a = WGS84::ecef2lla(p), b; WGS84::ecef2lla(p, &b); for (int i = 0; i < 3; ++i) ENSURES_REAL(a[i], b[i], "both ways to ask"); return; }
  REQUIRES(r2 > 1e-12); Vec3 l = WGS84::ecef2lla(p); ENSURES_REAL(cos(l.y()) * std::sqrt(r2), x, "longitude"); ENSURES_REAL(sin(l.y()) * std::sqrt(r2), y, "longitude"); ENSURES_REAL(l.z(), std::sqrt(r2 + z * z) - v, "height"); ENSURES_REAL(sin(l.x()) * std::sqrt(r2), z * cos(l.x()), "latitude");
}
// direction of a satellite
CONTRACT(direction, "tol=1e-6") {
  g_lla = any_lla(); g_any_lla = vc_is_ir(); Vec3 p = vc_is_ir() ? anyv("px", "py", "pz", 1.0) : WGS84::lla2ecef(g_lla); Vec3 n, e, d; axes(g_lla(0), g_lla(1), &n, &e, &d);
  double N = small("north", 1e7), E = small("east", 1e7), D = small("down", 1e7), hor2 = N * N + E * E, len2 = hor2 + D * D; if (vc_is_ir()) REQUIRES(hor2 > 0.0); else REQUIRES(hor2 > 1e6);
  SatelliteState s; Vec3 los = n * N + e * E + d * D; s.pos = p + los;            // (every line of sight is of this form)
  AzimuthElevation ae = getAzEl(p, s), ae2 = los2AzEl(p, los); double hor = std::sqrt(hor2), len = std::sqrt(len2);
  ENSURES_REAL(sin(ae.el) * len / 1e7, -D / 1e7, "elevation above the horizon"); ENSURES_REAL(cos(ae.el) * len / 1e7, hor / 1e7, "elevation between nadir and zenith"); ENSURES_REAL(sin(ae.az) * hor / 1e7, E / 1e7, "azimuth: east"); ENSURES_REAL(cos(ae.az) * hor / 1e7, N / 1e7, "azimuth: north");
  ENSURES_REAL(sin(ae.az - ae2.az), 0.0, "both ways to ask"); ENSURES_REAL(ae.el, ae2.el, "both ways to ask");
}
// troposphere: Saastamoinen's model of the standard atmosphere
CONTRACT(troposphere, "tol=1e-9") {
  Vec3 l = any_lla(); l(2) = anyd("height", -2000, 20000); AzimuthElevation ae; ae.az = anyd("az", -3.14, 3.14); ae.el = anyd("el", -1.5, 1.57); double t = computeTroposphericDelay(UTCTime(5, 0), l, ae);
  if (l.z() < -100.0 || l.z() > 1e4 || ae.el <= 0.0) { ENSURES_REAL(t, 0.0, "no delay out of the model's range"); return; }
  double h = l.z() > 0.0 ? l.z() : 0.0, P = 1013.25 * pow(1.0 - 2.2557E-5 * h, 5.2568), K = 15.0 - 6.5E-3 * h + 273.16, e = 6.108 * 0.7 * exp((17.15 * K - 4684.0) / (K - 38.45)), cz = cos(M_PI / 2.0 - ae.el);
  ENSURES_REAL(t * cz, 0.0022768 * P / (1.0 - 0.00266 * cos(2.0 * l.x()) - 0.00028 * h / 1E3) + 0.002277 * (1255.0 / K + 0.05) * e, "zenith delay of dry and wet air over the cosine of the zenith angle");
}
// an intermediate value of the model, given a name
static double cut(const char* name, double e) { double v = vc::any<double>(name); if (!vc_is_ir()) return e; REQUIRES(v == e); return v; }
// ionosphere: Klobuchar's model (IS-GPS-200 figure 20-4), angles in half turns
CONTRACT(ionosphere, "tol=1e-9,budget=300") {
  Vec3 l = any_lla(); AzimuthElevation ae; ae.az = anyd("az", -3.14, 3.14); ae.el = anyd("el", 0.0, 1.57); UTCTime u(1600000000 + vc::in32("t", 0, 604799), 0); g_tow = vc_is_ir() ? anyd("tow", 0.0, 604800.0) : u.GpsTow();
  double d = computeIonosphericDelay(u, l, ae);
  const double a[] = {0.1118E-07, -0.7451E-08, -0.5961E-07, 0.1192E-06}, b[] = {0.1167E+06, -0.2294E+06, -0.1311E+06, 0.1049E+07};
  double E = ae.el / M_PI, psi = 0.0137 / (E + 0.11) - 0.022, phi = l(0) / M_PI + psi * cos(ae.az); phi = cut("cut.phi", phi > 0.416 ? 0.416 : phi < -0.416 ? -0.416 : phi);
  double lam = cut("cut.lam", l(1) / M_PI + psi * sin(ae.az) / cos(phi * M_PI)), mag = cut("cut.mag", phi + 0.064 * cos((lam - 1.617) * M_PI));
  double t = 43200 * lam + g_tow + 18; t = cut("cut.t", t - floor(t / 86400.0) * 86400.0);
  double amp = a[0] + a[1] * mag + a[2] * mag * mag + a[3] * mag * mag * mag, per = b[0] + b[1] * mag + b[2] * mag * mag + b[3] * mag * mag * mag; amp = amp < 0.0 ? 0.0 : amp; per = cut("cut.per", per < 72000.0 ? 72000.0 : per);
  double x = cut("cut.x", 2.0 * M_PI * (t - 50400.0) / per), f = 1.0 + 16.0 * (0.53 - E) * (0.53 - E) * (0.53 - E);
  double day = 5e-9 + amp * (1.0 - x * x / 2.0 + x * x * x * x / 24.0), T = x <= 1.57 && x >= -1.57 ? day : 5e-9;
  ENSURES_REAL(d / 299792458.0 * 1e9, f * T * 1e9, "slant factor times night delay and half cosine of the day");
}
// both delays are those of the receiver and the direction of the satellite
CONTRACT(correction, "tol=1e-6") {
  g_any_lla = vc_is_ir(); g_lla = any_lla(); Vec3 p = vc_is_ir() ? anyv("px", "py", "pz", 1.0) : WGS84::lla2ecef(g_lla); SatelliteState s; s.pos = anyv("sx", "sy", "sz", 1e7); Vec3 los = s.pos - p; REQUIRES(los.dot(los) > 1e12);
  UTCTime u(1600000000 + vc::in32("t", 0, 604799), 0); g_tow = vc_is_ir() ? anyd("tow", 0.0, 604800.0) : u.GpsTow(); AtmosphericCorrection c; computeAtmCorrection(u, p, s, Out<AtmosphericCorrection>(c)); AzimuthElevation ae = getAzEl(p, s); Vec3 l = WGS84::ecef2lla(p);
  ENSURES_REAL(c.ionospheric_delay_m, computeIonosphericDelay(u, l, ae), "ionosphere over the receiver in the direction of the satellite"); ENSURES_REAL(c.tropospheric_delay_m, computeTroposphericDelay(u, l, ae), "troposphere over the receiver in the direction of the satellite");
}
