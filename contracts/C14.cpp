// C14: the residual of a factor is the weighted error of its measurement model, its Jacobians are the derivatives.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator|^std::__new_allocator => nop
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx
//@ stub: ^mc::satellite::computeAtmCorrection => nop
//@ native_sources: $REPO/common/satellite/atm_correction.cxx $REPO/common/satellite/azel.cxx $REPO/utils/wgs84.cxx
//@ stub: ^.*Eigen::internal::stable_norm_impl< => vcs_norm
//@ stub: ^.*Eigen::internal::compute_inverse<.*>::run => vcs_inverse
//@ assume: Eigen's inverse of a 3 by 3 matrix is its inverse
//@ assume: Eigen's stableNorm is the norm
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#define private public
#include "any_util.h"
#include "abs_rot.h"
#include "models/prange_model.cxx"
#undef T
#define VecJacobian VecJacobian2
#include "models/gnss_dynamics_model.cxx"
#undef VecJacobian
#define PoseJacobian PoseJacobian2
#include "models/relative_carrier_phase_model.cxx"
#undef T
#include "models/pose_error_model.cxx"
using namespace mc; using namespace mc::models; using math::DQuat;
static Vec3 anyv(const char* a, const char* b, const char* c) { double x = vc::any<double>(a), y = vc::any<double>(b), z = vc::any<double>(c); return Vec3(x, y, z); }
extern "C" __attribute__((used)) double vcs_norm(const double* v, void*) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
extern "C" __attribute__((used)) void vcs_check(bool c) { vc_assume(c); }
static Vec3 smallv(const char* a, const char* b, const char* c, double f) { double x = small(a, f), y = small(b, f), z = small(c, f); return Vec3(x, y, z); }
CONTRACT(gnss_dynamics, "") {
  Vec3 Xi = smallv("xi0", "xi1", "xi2", 2.0); UTCTime t0, t1; t0.sec = vc::in("s0", 0, 2000000000); t0.nsec = vc::in("n0", 0, 999999999); t1.sec = vc::in("s1", 0, 2000000000); t1.nsec = vc::in("n1", 0, 999999999); if (!vc_is_ir()) t1.sec = t0.sec + t1.sec % 100;
  static const char* const N[6] = {"b1", "r1", "b2", "r2", "w1", "w2"};
  double x[6]; for (int i = 0; i < 6; ++i) x[i] = small(N[i], 2.0);
  const double* p[4] = {x, x + 2, x + 4, x + 5}; double r[3], r2[3], j0[6], j1[6], j2[3], j3[3]; double* J[4] = {j0, j1, j2, j3};
  GnssDynamics f(t0, t1, Xi); f.Evaluate(p, r2, nullptr); f.Evaluate(p, r, J);
  double dt = (t1 - t0).toSec();
  ENSURES_REAL(r[0], Xi[0] * (x[2] - x[0] - dt * (x[1] + x[3]) / 2.0), "clock bias error"); ENSURES_REAL(r[1], Xi[1] * (x[3] - x[1]), "clock rate error"); ENSURES_REAL(r[2], Xi[2] * (x[5] - x[4]), "switch error");
  for (int i = 0; i < 3; ++i) {
    ENSURES_REAL(r2[i], r[i], "the same residual without Jacobians");
    for (int k = 0; k < 2; ++k) { ENSURES_REAL(vc_deriv(r[i], N[k]), j0[2 * i + k], "Jacobian by the first clock"); ENSURES_REAL(vc_deriv(r[i], N[2 + k]), j1[2 * i + k], "Jacobian by the second clock"); }
    ENSURES_REAL(vc_deriv(r[i], "w1"), j2[i], "Jacobian by the first switch"); ENSURES_REAL(vc_deriv(r[i], "w2"), j3[i], "Jacobian by the second switch");
  }
}

// ---- pseudorange and Doppler of one satellite
struct NoSat final : satellite::SatelliteBase {
  NoSat() : SatelliteBase(0, 1) {}
  Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override { s->t = t; s->pos = Vec3(2, 0, 0); s->vel = Vec3(0, 0, 0); s->clk = Vec2(0, 0); return Error::none(); }
  double carrierWavelength(int) const override { return 0.2; }
  int almanacSize() const override { return 1; }
};
static const char* const S1[] = {"sx", "sy", "sz", "svx", "svy", "svz", "sc0", "sc1"};
static const char* const S2[] = {"ux", "uy", "uz", "uvx", "uvy", "uvz", "uc0", "uc1"};
static satellite::SatelliteState any_state(const char* const* n) {
  satellite::SatelliteState s; s.pos = smallv(n[0], n[1], n[2], 50.0); s.vel = smallv(n[3], n[4], n[5], 5.0); s.clk = Vec2(small(n[6], 1e-8), small(n[7], 1e-8)); return s;
}
static const char* const SN[9] = {"S00", "S01", "S02", "S10", "S11", "S12", "S20", "S21", "S22"};
static const char* const VN[3] = {"v0", "v1", "v2"}; static const char* const LN[3] = {"l0", "l1", "l2"}; static const char* const CN[2] = {"c0", "c1"};
struct Prange {
  Motion a, r, g; Vec3 vel, lever; Vec2 clk; double sw, pr, dop, sagnac, iono, tropo; satellite::SatelliteState sat;
  double res[3], j0[24], j1[9], j2[6], j3[24], j4[3], j5[9];
  Vec3 pos, los, vel_e; double norm;
};
static void any_prange(Prange& p) {
  any_motion(p.a, 0, MA, 3.0); any_motion(p.r, 1, MR, 3.0); any_motion(p.g, 2, ME, 5.0);
  p.vel = smallv("v0", "v1", "v2", 10); p.lever = smallv("l0", "l1", "l2", 1); p.clk = Vec2(small("c0", 5.0), small("c1", 5.0)); p.sw = small("sw", 1.0);
  p.pr = small("pr", 20.0); p.dop = small("dop", 20.0); p.sagnac = small("sagnac", 2.0); p.iono = small("iono", 10.0); p.tropo = small("tropo", 10.0); p.sat = any_state(S1);
}
static void evaluate(Prange& p, const Mat3& S, bool jac) {
  DQuat<double> T = p.g.T(); meas::GnssObservation o; o.setZero(); NoSat sat;
  PseudorangeModel f(o, sat, Vec3(1, 0, 0), Mat3::Identity(), T);
  f.sat_state_ = p.sat; f.atm_.ionospheric_delay_m = p.iono; f.atm_.tropospheric_delay_m = p.tropo; f.sagnac_ = p.sagnac; f.obs_.pseudorange = p.pr; f.obs_.doppler = p.dop; f.sqrt_inv_cov_ = S;
  const double* x[6] = {p.a.p, p.vel.data(), p.clk.data(), p.r.p, &p.sw, p.lever.data()}; double* J[6] = {p.j0, p.j1, p.j2, p.j3, p.j4, p.j5};
  f.Evaluate(x, p.res, jac ? J : nullptr);
  // the geometry, once more
  Vec3 pn = p.a.P.transpose() * p.lever; pn = pn + p.a.t; Vec3 pr = p.r.P.transpose() * pn; pr = pr + p.r.t; p.pos = p.g.P.transpose() * pr; p.pos = p.pos + p.g.t;
  Vec3 vn = p.a.P.transpose() * p.vel, vr = p.r.P.transpose() * vn; p.vel_e = p.g.P.transpose() * vr;
  p.los = p.sat.pos - p.pos; p.norm = p.los.norm();
}
static const double CL = 299792458.0, OE = 7.2921151467e-5;
CONTRACT(prange_residual, "tol=1e-7") {
  Prange p; any_prange(p); evaluate(p, Mat3::Identity(), false); REQUIRES(p.norm > 10.0); REQUIRES(p.norm + p.sagnac > 5.0);
  double range = p.norm + p.sagnac, prange = range + p.iono + p.tropo + CL * (p.clk(0) * 1e-9 - p.sat.clk(0));
  ENSURES_REAL(p.res[0], p.sw * (prange - p.pr), "range error: geometry, Sagnac, atmosphere and clocks");
  Vec3 dv = p.sat.vel - p.vel_e; double along = dv.dot(p.los) / range;
  double sagnac_rate = OE / CL * (p.sat.vel.y() * p.pos.x() + p.sat.pos.y() * p.vel_e.x() - p.sat.vel.x() * p.pos.y() - p.sat.pos.x() * p.vel_e.y());
  ENSURES_REAL(p.res[1], p.sw * (along + sagnac_rate + CL * (p.clk(1) * 1e-9 - p.sat.clk(1)) - p.dop), "Doppler error: relative velocity along the line of sight, Sagnac and clock rates");
  ENSURES_REAL(p.res[2], 1.0 - p.sw, "the switch is held at one");
}
CONTRACT(prange_jacobian, "tol=1e-5") {
  Prange p; any_prange(p); evaluate(p, Mat3::Identity(), true); REQUIRES(p.norm > 10.0); REQUIRES(p.norm + p.sagnac > 5.0);
  double d[6], j[6], jd[6], js[6];
  by_motion(p.res[0], p.a, d); in_chart(p.j0, p.a, j); in_chart(p.j0 + 8, p.a, jd); in_chart(p.j0 + 16, p.a, js);
  for (int k = 0; k < 6; ++k) { ENSURES_REAL(j[k], d[k], "range by the pose of the body"); ENSURES_REAL(js[k], 0.0, "the switch does not depend on the pose"); }
  by_motion(p.res[0], p.r, d); in_chart(p.j3, p.r, j); in_chart(p.j3 + 16, p.r, js);
  for (int k = 0; k < 6; ++k) { ENSURES_REAL(j[k], d[k], "range by the pose of the navigation frame"); ENSURES_REAL(js[k], 0.0, "the switch does not depend on the pose"); }
  for (int k = 0; k < 3; ++k) { ENSURES_REAL(p.j5[k], vc_deriv(p.res[0], LN[k]), "range by the lever arm"); ENSURES_REAL(p.j1[k], vc_deriv(p.res[0], VN[k]), "range by the velocity"); ENSURES_REAL(p.j1[6 + k], 0.0, "switch by the velocity"); ENSURES_REAL(p.j5[6 + k], 0.0, "switch by the lever arm"); }
  for (int i = 0; i < 3; ++i) {
    for (int k = 0; k < 2; ++k) ENSURES_REAL(p.j2[2 * i + k], vc_deriv(p.res[i], CN[k]), "by the clock of the receiver");
    ENSURES_REAL(p.j4[i], vc_deriv(p.res[i], "sw"), "by the switch");
  }
}
// Doppler by the velocity: along the line of sight (the Sagnac terms, some 1e-5 of it, are left out)
CONTRACT(doppler_velocity, "tol=1e-5") {
  Prange p; any_prange(p); p.sagnac = 0; evaluate(p, Mat3::Identity(), true); REQUIRES(p.norm > 10.0);
  for (int k = 0; k < 3; ++k) {
    Vec3 c = p.a.P.row(k), d = p.r.P.transpose() * c, e = p.g.P.transpose() * d;
    ENSURES_REAL(p.j1[3 + k], vc_deriv(p.res[1], VN[k]) - (OE / CL) * p.sw * (p.sat.pos.y() * e(0) - p.sat.pos.x() * e(1)), "Doppler by the velocity");
  }
}
// the weight: residual and Jacobians are those of unit weight times the square root of the information
CONTRACT(prange_weights, "tol=1e-7") {
  Prange p; any_prange(p); Mat3 S; for (int i = 0; i < 9; ++i) S(i / 3, i % 3) = small(SN[i], 1.0);
  evaluate(p, Mat3::Identity(), true); REQUIRES(p.norm > 10.0); REQUIRES(p.norm + p.sagnac > 5.0);
  Prange q = p; evaluate(q, S, true);
  for (int i = 0; i < 3; ++i) {
    auto row = [&](const double* a, const double* b, int n, int w = 0) { if (!w) w = n; for (int k = 0; k < w; ++k) ENSURES_REAL(b[n * i + k], S(i, 0) * a[k] + S(i, 1) * a[n + k] + S(i, 2) * a[2 * n + k], "residual and Jacobians are weighted by the square root of the information"); };
    row(p.res, q.res, 1); row(p.j0, q.j0, 8, vc_is_ir() ? 6 : 8); row(p.j1, q.j1, 3); row(p.j2, q.j2, 2); row(p.j3, q.j3, 8, vc_is_ir() ? 6 : 8); row(p.j4, q.j4, 1); row(p.j5, q.j5, 3);
  }
  Prange u = p; evaluate(u, S, false); for (int i = 0; i < 3; ++i) ENSURES_REAL(u.res[i], q.res[i], "the same residual without Jacobians");
}
static Mat3 g_W;
extern "C" __attribute__((used)) void vcs_inverse(const double*, double* r) { for (int i = 0; i < 9; ++i) r[i] = g_W(i / 3, i % 3); }
CONTRACT(prange_information, "tol=1e-7") {
  static const char* const KN[6] = {"k00", "k01", "k02", "k11", "k12", "k22"}; double k[6]; for (int i = 0; i < 6; ++i) k[i] = small(KN[i], 1.0);
  Mat3 K; K << k[0], k[1], k[2], k[1], k[3], k[4], k[2], k[4], k[5];
  if (vc_is_ir()) { Mat3 L; L << k[0], 0, 0, k[1], k[3], 0, k[2], k[4], k[5]; REQUIRES(k[0] > 0.0); REQUIRES(k[3] > 0.0); REQUIRES(k[5] > 0.0); g_W = L * L.transpose(); }   // any positive definite inverse
  else REQUIRES(K.determinant() > 0.05 && k[0] > 0.0 && k[0] * k[3] - k[1] * k[1] > 0.05);
  Mat3 W = K.inverse();
  DQuat<double> T = DQuat<double>(); meas::GnssObservation o; o.setZero(); NoSat sat;
  PseudorangeModel f(o, sat, Vec3(1, 0, 0), K, T);
  Mat3 M = f.sqrt_inv_cov_.transpose() * f.sqrt_inv_cov_;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ENSURES_REAL(M(i, j), W(i, j), "the weight squared is the inverse of the covariance");
}

// ---- carrier phase between two epochs
struct Phase {
  Motion a, b, r, g; Vec3 lever; Vec2 c1, c2; double w1, w2, xi, lambda, dphi; satellite::SatelliteState s1, s2;
  double res, j0[8], j1[8], j2[2], j3[2], j4, j5, j6[8], j7[3], est1, est2, geo1, geo2;
};
static double phase_range(const Phase& p, const Motion& m, const satellite::SatelliteState& s, const Vec2& clk, double* geo) {
  Vec3 n = m.P.transpose() * p.lever; n = n + m.t; Vec3 r = p.r.P.transpose() * n; r = r + p.r.t; Vec3 e = p.g.P.transpose() * r; e = e + p.g.t;
  Vec3 los = s.pos - e; double d = los.norm(); REQUIRES(d > 10.0);
  if (geo) *geo = d;
  return d + OE * (s.pos.x() * e.y() - s.pos.y() * e.x()) / CL + CL * (clk(0) / 1e9 - s.clk(0));
}
static void any_phase(Phase& p) {
  any_motion(p.a, 0, MA, 3.0); any_motion(p.b, 3, MB, 3.0); any_motion(p.r, 1, MR, 3.0); any_motion(p.g, 2, ME, 5.0);
  p.lever = smallv("l0", "l1", "l2", 1); p.c1 = Vec2(small("c0", 5.0), small("c1", 5.0)); p.c2 = Vec2(small("d0", 5.0), small("d1", 5.0)); p.w1 = small("w1", 1.0); p.w2 = small("w2", 1.0);
  p.xi = small("xi", 1.0); p.lambda = small("lambda", 0.2); p.dphi = small("dphi", 10.0); p.s1 = any_state(S1); p.s2 = any_state(S2);
}
static void evaluate(Phase& p, bool jac) {
  DQuat<double> T = p.g.T(); meas::GnssObservation o; o.setZero(); o.sat_num = 1; NoSat sat;
  RelativeCarrierPhase f(o, o, sat, Vec3(1, 0, 0), T, p.xi);
  f.sat1_ = p.s1; f.sat2_ = p.s2; const_cast<double&>(f.lambda_) = p.lambda; const_cast<double&>(f.dPhi_) = p.dphi;
  const double* x[8] = {p.a.p, p.b.p, p.c1.data(), p.c2.data(), &p.w1, &p.w2, p.r.p, p.lever.data()}; double* J[8] = {p.j0, p.j1, p.j2, p.j3, &p.j4, &p.j5, p.j6, p.j7};
  f.Evaluate(x, &p.res, jac ? J : nullptr);
  p.est1 = phase_range(p, p.a, p.s1, p.c1, &p.geo1); p.est2 = phase_range(p, p.b, p.s2, p.c2, &p.geo2);
}
CONTRACT(phase_residual, "tol=1e-7") {
  Phase p; any_phase(p); p.lambda = 1.0; evaluate(p, false);
  ENSURES_REAL(p.res, p.xi * p.w1 * p.w2 * (p.dphi - (p.est2 - p.est1)), "change of the carrier phase: geometry, Sagnac and clocks, weighted by both switches");
}
CONTRACT(phase_jacobian, "tol=1e-5") {
  Phase p; any_phase(p); evaluate(p, true); double d[6], j[6];
  // the Sagnac terms (some 1e-6 of the range) are left out of the Jacobians by the poses and the lever arm
  double y = p.xi * p.w1 * p.w2 * p.lambda * (p.geo1 - p.geo2);
  by_motion(y, p.a, d); in_chart(p.j0, p.a, j); for (int k = 0; k < 6; ++k) ENSURES_REAL(j[k], d[k], "phase by the first pose");
  by_motion(y, p.b, d); in_chart(p.j1, p.b, j); for (int k = 0; k < 6; ++k) ENSURES_REAL(j[k], d[k], "phase by the second pose");
  for (int k = 0; k < 2; ++k) { static const char* const D[2] = {"d0", "d1"}; ENSURES_REAL(p.j2[k], vc_deriv(p.res, CN[k]), "phase by the first clock"); ENSURES_REAL(p.j3[k], vc_deriv(p.res, D[k]), "phase by the second clock"); }
  ENSURES_REAL(p.j4, vc_deriv(p.res, "w1"), "phase by the first switch"); ENSURES_REAL(p.j5, vc_deriv(p.res, "w2"), "phase by the second switch");
  by_motion(y, p.r, d); in_chart(p.j6, p.r, j); for (int k = 0; k < 6; ++k) ENSURES_REAL(j[k], d[k], "phase by the pose of the navigation frame");
  for (int k = 0; k < 3; ++k) ENSURES_REAL(p.j7[k], vc_deriv(y, LN[k]), "phase by the lever arm");
}
// between two identical epochs nothing changes; the constructor takes the difference of the phases
CONTRACT(phase_difference, "") {
  meas::GnssObservation o, u; o.setZero(); o.sat_num = 1; u = o; o.carrier_phase = vc::any<double>("ph1"); u.carrier_phase = vc::any<double>("ph2"); NoSat sat; DQuat<double> T = DQuat<double>();
  RelativeCarrierPhase f(o, u, sat, Vec3(1, 0, 0), T, 1.0);
  ENSURES_REAL(f.dPhi_, u.carrier_phase - o.carrier_phase, "the measurement is the change of the phase");
}

// (known: the phase is multiplied by the wavelength where it should be divided)
CONTRACT(phase_cycles, "tol=1e-7") {
  Phase p; any_phase(p); REQUIRES(p.lambda > 0.1); evaluate(p, false);
  ENSURES_REAL(p.res, p.xi * p.w1 * p.w2 * (p.dphi - (p.est2 - p.est1) / p.lambda), "change of the carrier phase in cycles: metres over the wavelength");
}
// ---- pose prior
static const char* const XN[6] = {"xi0", "xi1", "xi2", "xi3", "xi4", "xi5"};
CONTRACT(pose_error, "tol=1e-5") {
  Motion a, m; any_motion(a, 0, MA, 3.0); any_motion(m, 1, MB, 3.0); Vec6 xi; for (int i = 0; i < 6; ++i) xi(i) = small(XN[i], 2.0);
#ifndef VC_NATIVE
  static const char* const GN[6] = {"g0", "g1", "g2", "g3", "g4", "g5"}; for (int i = 0; i < 6; ++i) DQuat<double>::g_log(i) = vc::any<double>(GN[i]);
  static const char* const HN[36] = {"h00", "h01", "h02", "h03", "h04", "h05", "h10", "h11", "h12", "h13", "h14", "h15", "h20", "h21", "h22", "h23", "h24", "h25", "h30", "h31", "h32", "h33", "h34", "h35", "h40", "h41", "h42", "h43", "h44", "h45", "h50", "h51", "h52", "h53", "h54", "h55"};
  for (int i = 0; i < 36; ++i) DQuat<double>::g_dlog(i / 6, i % 6) = vc::any<double>(HN[i]);
#endif
  double r[6], r2[6], J[48]; const double* x[1] = {m.p}; double* j[1] = {J};
  PoseError f(a.T(), xi); f.Evaluate(x, r, nullptr);
#ifndef VC_NATIVE
  Mat3 P = m.P * a.P.transpose(); Vec3 d = m.t - a.t, t = a.P * d;
  for (int k = 0; k < 2; ++k) {
    for (int i = 0; i < 3; ++i) { ENSURES_REAL(DQuat<double>::g_t(i), t(i), "the error is the logarithm of anchor inverse times pose"); for (int c = 0; c < 3; ++c) ENSURES_REAL(DQuat<double>::g_P(i, c), P(i, c), "the error is the logarithm of anchor inverse times pose"); }
    DQuat<double>::g_P.setZero(); DQuat<double>::g_t.setZero(); f.Evaluate(x, r2, j);
  }
  for (int i = 0; i < 6; ++i) { ENSURES_REAL(r[i], xi(i) * DQuat<double>::g_log(i), "the error is weighted"); for (int k = 0; k < 6; ++k) ENSURES_REAL(J[8 * i + k], xi(i) * DQuat<double>::g_dlog(i, k), "Jacobian by the pose"); }
#else
  f.Evaluate(x, r2, j); DQuat<double> D = a.T().inverse() * m.T(); Vec6 e = D.log(); REQUIRES(D.real().w() > 0.01);
  for (int i = 0; i < 6; ++i) { ENSURES_REAL(r[i], xi(i) * e(i), "the error is weighted"); double d[6], c[6]; by_motion(r[i], m, d); in_chart(J + 8 * i, m, c); for (int k = 0; k < 6; ++k) ENSURES_REAL(c[k], d[k], "Jacobian by the pose"); }
#endif
  double* none[1] = {nullptr}; double r3[6]; f.Evaluate(x, r3, none);
  for (int i = 0; i < 6; ++i) { ENSURES_REAL(r2[i], r[i], "the same residual with Jacobians"); ENSURES_REAL(r3[i], r[i], "the same residual with Jacobians"); }
}
