// C18: the pre-integrated inertial measurements: state algebra, dynamics, one step of integration, prediction, residual and Jacobians.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ flags: -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=100
//@ assume: a product of matrices of Eigen is the product (its kernel in blocks is replaced by the one by coefficients)
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^mc::(dbg|fatal|warn|info)\( => nop
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^.*fmt::v[0-9]*::.*arg => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator<char>|^std::__new_allocator<char> => nop
//@ stub: ^mc::models::ImuModel::dynamics\( => vcs_dynamics
//@ stub: ^.*mc::math::Quat<double>::log<.*\(Eigen::Matrix<double, 3, 3 => vcs_log
//@ stub: ^.*mc::math::Quat<double>::exp<.*Eigen::Matrix<double, 3, 3.*\* ?\) => vcs_exp
//@ stub: ^mc::UTCTime::quantized => vcs_quantized
//@ stub: ^(bool )?mc::isFinite< => vcs_finite
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp
//@ sources: $REPO/common/utctime.cxx $REPO/common/quantized_time.cxx
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#include <Eigen/Dense>
#define private public
#define protected public
#include "any_util.h"
#include "rot_util.h"
#include "models/imu_state.cxx"
#include "models/imu_model.cxx"
using namespace mc; using models::ImuModel; using models::ImuState; using models::ImuErrorState; using meas::ImuSample;
static bool g_record = false, g_ok = true;
extern "C" __attribute__((used)) void vcs_check(bool c) { if (g_record) g_ok = g_ok && c; else vc_assume(c); }
extern "C" __attribute__((used)) bool vcs_finite(const void*) { return true; }      // (numbers are real numbers here)
static const double G = 9.80665;
// the logarithm with its Jacobian is known by its contract (C12): the rotation asked for is kept, value and Jacobian are named
static bool g_cutlog = false; static Q g_arg; static Vec3 g_log; static Mat3 g_dlog;
extern "C" __attribute__((used)) void vcs_log(Vec3* r, const Q* q, Mat3* J) {
  if (!g_cutlog) { *r = q->log(J); return; }
  g_arg = *q; *r = g_log; *J = g_dlog;
}
static bool g_cutdyn = false; static Mat9 g_A; static Mat96 g_B; static Vec9 g_dot; static ImuSample g_u; static ImuState g_x;
extern "C" __attribute__((used)) void vcs_dynamics(const ImuModel* m, const ImuState* x, const ImuSample* u, Out<ImuErrorState> d, Out<Mat9> A, Out<Mat96> B) {
  if (!g_cutdyn) { m->dynamics(*x, *u, d, A, B); return; }
  g_u = *u; g_x = *x; *d = g_dot; *A = g_A; *B = g_B;
}
static Vec3 anyn(const char* const* n) { double x = vc::any<double>(n[0]), y = vc::any<double>(n[1]), z = vc::any<double>(n[2]); return Vec3(x, y, z); }
#define NAMES3(a) {a "0", a "1", a "2"}
static const char *const N_AL[] = NAMES3("al"), *const N_BE[] = NAMES3("be"), *const N_DA[] = NAMES3("da"), *const N_DB[] = NAMES3("db"), *const N_DG[] = NAMES3("dg"), *const N_ACC[] = NAMES3("acc"), *const N_GYR[] = NAMES3("gyr"), *const N_BA[] = NAMES3("ba"), *const N_BG[] = NAMES3("bg"), *const N_NA[] = NAMES3("na"), *const N_NG[] = NAMES3("ng"), *const N_X[] = NAMES3("x"), *const N_Y[] = NAMES3("y"), *const N_Z[] = NAMES3("z");
static ImuState any_state() { ImuState s; s.alpha = anyn(N_AL); s.beta = anyn(N_BE); V4 q = any4(QN); unit(q); s.gamma = Q(q.w, q.x, q.y, q.z); return s; }
static Q qq(const V4& p) { return Q(p.w, p.x, p.y, p.z); }
CONTRACT(plus, "tol=1e-6") {
  ImuState s = any_state(); ImuErrorState d; d.alpha = anyn(N_DA); d.beta = anyn(N_DB); d.gamma = anyn(N_DG);
  double n = d.gamma.norm(); REQUIRES(n > 1e-5 && n < 3.14159265);
  ImuState t = s + d, u = s; u += d; Vec3 a = s.alpha + d.alpha, b = s.beta + d.beta, g = d.gamma; Q e = Q::exp(g), q = s.gamma * e;
  SAME3(t.alpha, a, "sum"); SAME3(t.beta, b, "sum"); SAME4(t.gamma, q, "sum: a rotation on the right");
  SAME3(u.alpha, a, "sum in place"); SAME3(u.beta, b, "sum in place"); SAME4(u.gamma, q, "sum in place");
  ImuState c(t), v; v = t; SAME3(c.alpha, a, "copy"); SAME3(c.beta, b, "copy"); SAME4(c.gamma, q, "copy"); SAME3(v.alpha, a, "assignment"); SAME3(v.beta, b, "assignment"); SAME4(v.gamma, q, "assignment");
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(t(i), a(i), "element"); ENSURES_REAL(t(3 + i), b(i), "element"); }
  for (int i = 0; i < 4; ++i) ENSURES_REAL(t(6 + i), q[i], "element");
  ImuState z; z.setIdentity(); for (int i = 0; i < 10; ++i) ENSURES_REAL(z(i), i == 6 ? 1.0 : 0.0, "identity");
}
CONTRACT(minus, "tol=1e-6") {           // s + (t - s) = t
  ImuState s = any_state(), t; t.alpha = anyn(N_DA); t.beta = anyn(N_DB); Vec3 g = anyn(N_DG); double n = g.norm();
  REQUIRES(n > 1e-3 && n < 3.1414 && sin(n / 2.0) > 1e-4);
  Q e = Q::exp(g); t.gamma = s.gamma * e;
  ImuErrorState d = t - s; Vec3 a = t.alpha - s.alpha, b = t.beta - s.beta;
  SAME3(d.alpha, a, "difference"); SAME3(d.beta, b, "difference"); SAME3(d.gamma, g, "difference: the rotation that leads from the second to the first");
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(d(i), a(i), "layout"); ENSURES_REAL(d(3 + i), b(i), "layout"); ENSURES_REAL(d(6 + i), g(i), "layout"); }
}
CONTRACT(error_state, "tol=1e-9") {      // arithmetic of error states; a copy is a copy
  ImuErrorState d; d.alpha = anyn(N_DA); d.beta = anyn(N_DB); d.gamma = anyn(N_DG); double k = vc::any<double>("k");
  ImuErrorState e = d * k; ImuErrorState c(d), f; f = d;
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(e.alpha(i), k * d.alpha(i), "multiple"); ENSURES_REAL(e.beta(i), k * d.beta(i), "multiple"); ENSURES_REAL(e.gamma(i), k * d.gamma(i), "multiple"); }
  Vec3 a = d.alpha, b = d.beta, g = d.gamma; d.setZero();
  SAME3(c.alpha, a, "a copy is independent of the original"); SAME3(c.beta, b, "a copy is independent of the original"); SAME3(c.gamma, g, "a copy is independent of the original");
  SAME3(f.alpha, a, "a copy is independent of the original"); SAME3(f.beta, b, "a copy is independent of the original"); SAME3(f.gamma, g, "a copy is independent of the original");
}
static Vec6 any_bias() { Vec6 b; b.head<3>() = anyn(N_BA); b.tail<3>() = anyn(N_BG); return b; }
static ImuSample sample(int64_t s, int64_t ns, const Vec3& a, const Vec3& g) { ImuSample z; z.t.sec = s; z.t.nsec = ns; z.accel = a; z.gyro = g; return z; }
CONTRACT(dynamics, "tol=1e-9") {
  ImuState x = any_state(); Vec6 bias = any_bias(), R = Vec6::Ones(); ImuSample u = sample(0, 0, anyn(N_ACC), anyn(N_GYR));
  ImuModel m(u, bias, R); ImuErrorState dot; Mat9 A; Mat96 B;
  m.dynamics(x, u, Out(dot), Out(A), Out(B));
  Vec3 f = u.accel - bias.head<3>(), w = u.gyro - bias.tail<3>(), rf = x.gamma.rota(f);
  SAME3(dot.alpha, x.beta, "position changes by the velocity"); SAME3(dot.beta, rf, "velocity changes by the specific force without its bias, in the starting frame"); SAME3(dot.gamma, w, "attitude turns by the rate without its bias");
  // the true system: a state x + d and inputs with noise, to first order; attitude error e in q * (1, e/2)
  Vec9 d; Vec6 n; const char* const ND[] = {"da0", "da1", "da2", "db0", "db1", "db2", "dg0", "dg1", "dg2"}; const char* const NN[] = {"na0", "na1", "na2", "ng0", "ng1", "ng2"};
  for (int i = 0; i < 9; ++i) d(i) = vc_param(ND[i], 0.0);
  for (int i = 0; i < 6; ++i) n(i) = vc_param(NN[i], 0.0);
  Vec3 tf = f - n.head<3>(), tw = w - n.tail<3>(), ed; Q e(1.0, d(6) / 2.0, d(7) / 2.0, d(8) / 2.0), tq = x.gamma * e;
  Q a = e * Q(0.0, tw(0) / 2.0, tw(1) / 2.0, tw(2) / 2.0), b = Q(0.0, w(0) / 2.0, w(1) / 2.0, w(2) / 2.0) * e;
  Vec9 out; out.head<3>() = x.beta + d.segment<3>(3) - dot.alpha; out.segment<3>(3) = tq.rota(tf) - dot.beta; out(6) = 2.0 * (a.x() - b.x()); out(7) = 2.0 * (a.y() - b.y()); out(8) = 2.0 * (a.z() - b.z());
  for (int i = 0; i < 9; ++i) {
    for (int j = 0; j < 9; ++j) ENSURES_REAL(A(i, j), vc_deriv(out(i), ND[j]), "how an error in the state grows");
    for (int j = 0; j < 6; ++j) ENSURES_REAL(B(i, j), vc_deriv(out(i), NN[j]), "how noise of the sensors enters");
  }
  ImuErrorState es, ed2; for (int i = 0; i < 9; ++i) es(i) = vc_param(ND[i], 0.0);
  m.errorStateDynamics(x, es, u, n, Out(ed2));
  for (int i = 0; i < 9; ++i) {
    for (int j = 0; j < 9; ++j) ENSURES_REAL(A(i, j), vc_deriv(ed2(i), ND[j]), "the linear error dynamics are the same");
    for (int j = 0; j < 6; ++j) ENSURES_REAL(B(i, j), vc_deriv(ed2(i), NN[j]), "the linear error dynamics are the same");
  }
}
static double cut(const char* n, double v) { if (!vc_is_ir()) return v; double x = vc::any<double>(n); REQUIRES(x == v); return x; }
static void any_cov(Mat9& C) { for (int i = 0; i < 9; ++i) for (int j = 0; j <= i; ++j) { char b[8] = "C00"; b[1] = '0' + j; b[2] = '0' + i; C(i, j) = C(j, i) = vc::any<double>(b); } }
static void any_gain(Mat96& D, char c) { for (int i = 0; i < 9; ++i) for (int j = 0; j < 6; ++j) { char b[8] = "D00"; b[0] = c; b[1] = '0' + i; b[2] = '0' + j; D(i, j) = vc::any<double>(b); } }
static Mat3 any33(const char* p) { Mat3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { char b[8]; b[0] = p[0]; b[1] = '0' + i; b[2] = '0' + j; b[3] = 0; m(i, j) = vc::any<double>(b); } return m; }
// one step from any pre-integrated state, covariance and bias Jacobian; the dynamics are known by their contract
static void step(ImuModel& m, ImuSample& u, ImuState& x, Mat9& C, Mat96& D, double& dt) {
  x = any_state(); any_cov(C); any_gain(D, 'D');
  m.state() = x; m.covariance() = C; m.dStatedBias() = D;
  int64_t s = vc::in("s", 0, 100), ns = vc::in("ns", 0, 999999999); REQUIRES(s * 1000000000 + ns >= 100000);
  u = sample(1000 + s, ns, anyn(N_X), anyn(N_Y)); dt = cut("cut.dt", (double)s + ns * 1e-9);
  Mat3 X = any33("X"), W = any33("W"), Y = any33("Y"), Z = any33("Z");
  g_A.setZero(); g_A.block<3, 3>(0, 3).setIdentity(); g_A.block<3, 3>(3, 6) = X; g_A.block<3, 3>(6, 6) = W;
  g_B.setZero(); g_B.block<3, 3>(3, 0) = Y; g_B.block<3, 3>(6, 3) = Z;
  g_dot.head<3>() = anyn(N_DA); g_dot.segment<3>(3) = anyn(N_DB); g_dot.tail<3>() = anyn(N_DG);
  if (!vc_is_ir()) {                   // (natively: the real ones)
    g_u.accel = (m.history_.back().z.accel + u.accel) / 2.0; g_u.gyro = (m.history_.back().z.gyro + u.gyro) / 2.0; g_x = x; ImuErrorState d; m.dynamics(x, g_u, Out(d), Out(g_A), Out(g_B)); g_dot = d;
  }
}
CONTRACT(integrate, "tol=1e-6") {
  Vec6 R; for (int i = 0; i < 6; ++i) { char b[4] = "R0"; b[1] = '0' + i; R(i) = vc::any<double>(b); }
  Vec6 bias = any_bias(); ImuSample z0 = sample(1000, 0, anyn(N_ACC), anyn(N_GYR)), u; ImuModel m(z0, bias, R);
  ENSURES(m.numUpdates() == 0 && m.t0() == z0.t && m.tf() == z0.t, "nothing integrated yet");
  for (int i = 0; i < 10; ++i) ENSURES_REAL(m.state()(i), i == 6 ? 1.0 : 0.0, "integration starts at the identity");
  for (int i = 0; i < 9; ++i) { for (int j = 0; j < 9; ++j) ENSURES_REAL(m.covariance()(i, j), 0.0, "integration starts without uncertainty"); for (int j = 0; j < 6; ++j) ENSURES_REAL(m.dStatedBias()(i, j), 0.0, "integration starts without effect of the bias"); }
  ImuState x; Mat9 C; Mat96 D; double dt; step(m, u, x, C, D, dt);
  g_cutdyn = true; Error e = m.integrate(u); g_cutdyn = false;
  ENSURES(e.ok(), "the sample is taken"); ENSURES(m.numUpdates() == 1 && m.tf() == u.t && m.t0() == z0.t, "one more sample");
  ENSURES_REAL(m.delta_t(), dt, "integrated time");
  Vec3 a = (z0.accel + u.accel) / 2.0, g = (z0.gyro + u.gyro) / 2.0; SAME3(g_u.accel, a, "the mean of the samples at both ends drives the step"); SAME3(g_u.gyro, g, "the mean of the samples at both ends drives the step");
  for (int i = 0; i < 10; ++i) ENSURES_REAL(g_x(i), x(i), "the step starts at the last state");
  Mat9 A; for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) { double s = 0; for (int k = 0; k < 9; ++k) s += g_A(i, k) * g_A(k, j); A(i, j) = (i == j ? 1.0 : 0.0) + g_A(i, j) * dt + 0.5 * s * dt * dt; }
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(m.state().alpha(i), x.alpha(i) + g_dot(i) * dt, "state after the step"); ENSURES_REAL(m.state().beta(i), x.beta(i) + g_dot(3 + i) * dt, "state after the step"); }
  for (int i = 0; i < 9; ++i) {
    for (int j = 0; j < 9; ++j) {
      double s = 0; for (int k = 0; k < 6; ++k) s += g_B(i, k) * g_B(j, k) * dt * dt * R(k);
      for (int k = 0; k < 9; ++k) for (int l = 0; l < 9; ++l) s += A(i, k) * C(k, l) * A(j, l);
      ENSURES_REAL(m.covariance()(i, j), s, "covariance after the step");
    }
    for (int j = 0; j < 6; ++j) { double s = g_B(i, j) * dt; for (int k = 0; k < 9; ++k) s += A(i, k) * D(k, j); ENSURES_REAL(m.dStatedBias()(i, j), s, "derivative by the bias after the step"); }
  }
}
CONTRACT(order, "mode=int") {          // samples must come in order
  Vec6 R = Vec6::Ones(), bias = Vec6::Zero(); ImuModel m(sample(1000, 0, Vec3::Zero(), Vec3::Zero()), bias, R);
  int64_t s = vc::in("s", -100, 0), ns = vc::in("ns", 0, 999999999); REQUIRES(s * 1000000000 + ns < 90000);
  g_record = true; g_ok = true; m.integrate(sample(1000 + s, ns, Vec3::Ones(), Vec3::Ones())); g_record = false;
  ENSURES(!g_ok, "a sample not after the last one is refused");
  ImuModel l(sample(1000, 0, Vec3::Zero(), Vec3::Zero()), bias, R); int64_t t = vc::in("t", 0, 100), nt = vc::in("nt", 0, 999999999); REQUIRES(t * 1000000000 + nt > 110000);
  g_record = true; g_ok = true; Error e = l.integrate(sample(1000 + t, nt, Vec3::Zero(), Vec3::Zero())); g_record = false;
  ENSURES(g_ok && e.ok(), "a later sample is taken");
}
// a model after some integration, from any state; start and end of the interval DT apart
struct Run { Vec6 R, bias; ImuModel m; double dt; ImuState x; V4 r; Vec3 p, v;
  Run() : R(Vec6::Ones()), bias(any_bias()), m(sample(1000, 0, Vec3::Zero(), Vec3::Zero()), bias, R) {
    int64_t s = vc::in("s", 0, 100), ns = vc::in("ns", 0, 999999999); REQUIRES(s * 1000000000 + ns > 0); dt = cut("cut.dt", (double)s + ns * 1e-9);
    m.history_.push_back(m.history_.back()); m.history_.back().z.t.sec = 1000 + s; m.history_.back().z.t.nsec = ns;
    x = any_state(); m.state() = x; m.dStatedBias().setZero();
    r = any4(RN); unit(r); p = anyn(N_X); v = anyn(N_Y);
  }
};
CONTRACT(predict, "tol=1e-6") {
  Run w; DQ start(qq(w.r), w.p), end; Vec3 ve, g(0, 0, G); Q rs = qq(w.r);
  Error e = w.m.computeEndState(start, w.v, Out(end), Out(ve));
  Vec3 d = w.v * w.dt + w.x.alpha, rd = rs.rota(d), p = w.p + rd + 0.5 * w.dt * w.dt * g, t = end.translation(); Q q = rs * w.x.gamma, r = end.rotation();
  ENSURES(e.ok(), "the state at the end is predicted"); SAME4(r, q, "attitude at the end"); SAME3(t, p, "position at the end");
  Vec3 gb = rs.rotp(g), u = w.v + gb * w.dt + w.x.beta, vb = w.x.gamma.rotp(u); SAME3(ve, vb, "velocity at the end, in its body frame");
}
CONTRACT(predict_none, "tol=1e-9") {         // nothing integrated
  Vec6 R = Vec6::Ones(), bias = any_bias(); ImuModel m(sample(1000, 0, Vec3::Zero(), Vec3::Zero()), bias, R); V4 r = any4(RN); unit(r); Vec3 p = anyn(N_X), v = anyn(N_Y), ve;
  DQ start(qq(r), p), end; Error e = m.computeEndState(start, v, Out(end), Out(ve)); ENSURES(!e.ok(), "an empty interval is reported"); SAME8(end, start, "pose unchanged"); SAME3(ve, v, "velocity unchanged");
}
CONTRACT(consistent, "tol=1e-6") {           // the prediction has residual zero
  Run w; DQ start(qq(w.r), w.p), end; Vec3 ve; w.m.computeEndState(start, w.v, Out(end), Out(ve));
  any_gain(w.m.dStatedBias(), 'D');
  double a[8], b[8]; for (int i = 0; i < 8; ++i) { a[i] = start[i]; b[i] = end[i]; }
  const double* par[5] = {a, b, w.v.data(), ve.data(), w.bias.data()}; Vec9 res; g_cutlog = true; g_log = Vec3::Zero(); g_dlog = Mat3::Identity(); w.m.Evaluate(par, res.data(), nullptr); g_cutlog = false;
  for (int i = 0; i < 6; ++i) ENSURES_REAL(res(i), 0.0, "the predicted state fits");
  if (vc_is_ir()) { Q one = Q::Identity(); SAME4(g_arg, one, "the predicted attitude fits"); } else for (int i = 6; i < 9; ++i) ENSURES_REAL(res(i), 0.0, "the predicted attitude fits");
}
// residual and Jacobians at any poses, velocities and (BIAS) any change of the bias; the poses moved by small motions on the right
static const char* const E0[] = {"e0", "e1", "e2", "e3", "e4", "e5"}; static const char* const E1[] = {"f0", "f1", "f2", "f3", "f4", "f5"};
static DQ moved(const V4& r, const Vec3& t, const char* const* n) {
  Q h(1.0, vc_param(n[0], 0.0) / 2.0, vc_param(n[1], 0.0) / 2.0, vc_param(n[2], 0.0) / 2.0), q = qq(r); Vec3 d(vc_param(n[3], 0.0), vc_param(n[4], 0.0), vc_param(n[5], 0.0)), s = t + q.rota(d);
  return DQ(q * h, s);
}
CONTRACT(residual, "tol=1e-6") {
  Run w; V4 q = any4(PN); unit(q); Vec3 p = anyn(N_Z), ve = anyn(N_NA), g(0, 0, G); DQ a(qq(w.r), w.p), b(qq(q), p); Mat96 D; D.setZero();
  Vec9 adj; adj.head<3>() = anyn(N_DA); adj.segment<3>(3) = anyn(N_DB); adj.tail<3>().setZero();
  D.col(0) = adj; w.m.dStatedBias() = D; Vec6 bn = w.bias; double k = vc::any<double>("k"); bn(0) += k;
  const double* par[5] = {a.data(), b.data(), w.v.data(), ve.data(), bn.data()}; Vec9 res; g_cutlog = true; g_log = anyn(N_NG); g_dlog = any33("L"); w.m.Evaluate(par, res.data(), nullptr); g_cutlog = false;
  Q rs = qq(w.r), re = qq(q); Vec3 dp = p - w.p - 0.5 * w.dt * w.dt * g, r1 = rs.rotp(dp), r2 = w.x.gamma.rota(ve), gb = rs.rotp(g);
  for (int i = 0; i < 3; ++i) ENSURES_REAL(res(i), r1(i) - w.v(i) * w.dt - w.x.alpha(i) - k * adj(i), "position part");
  for (int i = 0; i < 3; ++i) ENSURES_REAL(res(3 + i), r2(i) - w.v(i) - gb(i) * w.dt - w.x.beta(i) - k * adj(3 + i), "velocity part");
  Q e = w.x.gamma.inverse() * (rs.inverse() * re); if (!vc_is_ir()) { g_arg = e; g_log = e.log(); }
  SAME4(g_arg, e, "attitude that is left over"); for (int i = 0; i < 3; ++i) ENSURES_REAL(res(6 + i), g_log(i), "attitude part");
}
static void dq_of(double* out, const DQ& q) { for (int i = 0; i < 8; ++i) out[i] = q[i]; }
CONTRACT(jacobian_motion, "tol=1e-5") {
  Run w; V4 q = any4(PN); unit(q); Vec3 p = anyn(N_Z), ve = anyn(N_NA); double a[8], b[8]; { Q e = w.x.gamma.inverse() * (qq(w.r).inverse() * qq(q)); REQUIRES(vc_is_ir() || (e.w() > 0.1 && e.w() < 0.99)); }
  DQ A = moved(w.r, w.p, E0), B = moved(q, p, E1); dq_of(a, A); dq_of(b, B);
  const double* par[5] = {a, b, w.v.data(), ve.data(), w.bias.data()}; Vec9 res; double Ja[72], Jb[72], Jv[27], Jw[27]; double* J[5] = {Ja, Jb, Jv, Jw, nullptr};
  g_cutlog = vc_is_ir(); g_log = Vec3::Zero(); g_dlog = any33("L"); w.m.Evaluate(par, res.data(), J); g_cutlog = false;
  Eigen::Matrix<double, 8, 6> Ga = A.dParamDGen(), Gb = B.dParamDGen();
  auto d3 = [&](int i, const char* n) {    // derivative of the residual; that of the logarithm is its Jacobian applied to the motion on the left
    if (i < 6 || !vc_is_ir()) return vc_deriv(res(i), n);
    Q dq(vc_deriv(g_arg.w(), n), vc_deriv(g_arg.x(), n), vc_deriv(g_arg.y(), n), vc_deriv(g_arg.z(), n)), l = dq * g_arg.inverse(); return 2.0 * (g_dlog(i - 6, 0) * l.x() + g_dlog(i - 6, 1) * l.y() + g_dlog(i - 6, 2) * l.z());
  };
  for (int i = 0; i < 9; ++i) {
    for (int k = 0; k < 6; ++k) {
      double x = 0, y = 0; for (int j = 0; j < 8; ++j) { x += Ja[8 * i + j] * Ga(j, k); y += Jb[8 * i + j] * Gb(j, k); }
      ENSURES_REAL(x, d3(i, E0[k]), "Jacobian by the pose at the start"); ENSURES_REAL(y, d3(i, E1[k]), "Jacobian by the pose at the end");
    }
    for (int k = 0; k < 3; ++k) { ENSURES_REAL(Jv[3 * i + k], d3(i, N_Y[k]), "Jacobian by the velocity at the start"); ENSURES_REAL(Jw[3 * i + k], d3(i, N_NA[k]), "Jacobian by the velocity at the end"); }
  }
}
// by the bias: first the motion of the attitude that is left over when the bias changes, then the Jacobian composed of it.  M, the
// Jacobian of the exponential, is known by its contract (C12)
static const char* const NB[] = {"b0", "b1", "b2", "b3", "b4", "b5"}; static const char* const NE[] = {"e0", "e1", "e2", "e3", "e4", "e5"};
static bool g_cutexp = false; static Vec3 g_w; static Mat3 g_M;
extern "C" __attribute__((used)) void vcs_exp(Q* q, const Vec3* w, Mat3* J) {
  if (!g_cutexp) { new (q) Q(Q::exp(*w, J)); return; }
  g_w = *w; *J = g_M; new (q) Q(Q::Identity());
}
struct Biased { Run w; Mat96 D; Vec6 bn, bm; Vec3 db, p, ve; V4 T; Q rs, adj;
  Biased() {
    any_gain(D, 'D'); w.m.dStatedBias() = D; for (int i = 0; i < 6; ++i) { bn(i) = vc::any<double>(NB[i]); bm(i) = bn(i) + vc_param(NE[i], 0.0); }
    db = D.block<3, 6>(6, 0) * (bn - w.bias); const char* const CN[] = {"cut.d0", "cut.d1", "cut.d2"}; for (int i = 0; i < 3; ++i) db(i) = cut(CN[i], db(i));
    double n = db.norm(); REQUIRES(n > 1e-3 && n < 3.0);
    T = any4(PN); unit(T); p = anyn(N_Z); ve = anyn(N_NA); rs = qq(w.r); adj = w.x.gamma * Q::exp(db);
  }
  void run(double* Jb, Vec9& res) {
    Q en = rs * qq(T); DQ A(rs, w.p), B(en, p); const double* par[5] = {A.data(), B.data(), w.v.data(), ve.data(), bm.data()}; double* J[5] = {nullptr, nullptr, nullptr, nullptr, Jb};
    g_cutlog = vc_is_ir(); w.m.Evaluate(par, res.data(), J); g_cutlog = false;
  }
};
CONTRACT(bias_motion, "tol=1e-5") {
  Biased c; Vec9 res; double Jb[54]; g_log = Vec3::Zero(); g_dlog = any33("L"); { Q e = c.adj.inverse() * qq(c.T); REQUIRES(vc_is_ir() || (e.w() > 0.1 && e.w() < 0.99)); }
  c.run(Jb, res); Mat3 M; Q::exp(c.db, &M);
  for (int k = 0; k < 6; ++k) {
    for (int i = 0; i < 6; ++i) ENSURES_REAL(Jb[6 * i + k], vc_deriv(res(i), NE[k]), "Jacobian by the bias");
    if (vc_is_ir()) {
      Q dq(vc_deriv(g_arg.w(), NE[k]), vc_deriv(g_arg.x(), NE[k]), vc_deriv(g_arg.y(), NE[k]), vc_deriv(g_arg.z(), NE[k])), l = dq * g_arg.inverse(); Vec3 lv(2.0 * l.x(), 2.0 * l.y(), 2.0 * l.z());
      for (int i = 0; i < 3; ++i) ENSURES_REAL(lv(i), -(M(0, i) * c.D(6, k) + M(1, i) * c.D(7, k) + M(2, i) * c.D(8, k)), "motion of the attitude left over with the bias");
    } else for (int i = 6; i < 9; ++i) ENSURES_REAL(Jb[6 * i + k], vc_deriv(res(i), NE[k]), "Jacobian by the bias");
  }
}
CONTRACT(bias_chain, "tol=1e-5") {
  if (!vc_is_ir()) { vc_c_bias_motion(); return; }
  Biased c; Vec9 res; double Jb[54]; V4 e; { Q q = c.adj.inverse() * qq(c.T); e.w = cut("cut.ew", q.w()); e.x = cut("cut.ex", q.x()); e.y = cut("cut.ey", q.y()); e.z = cut("cut.ez", q.z()); } unit(e); REQUIRES(e.w > -1.0 && e.w < 1.0);
  // Jacobian of the logarithm of the rotation by 2 h about n
  double s = sqrt(e.x * e.x + e.y * e.y + e.z * e.z), h = vc::any<double>("h"); Vec3 n(e.x / s, e.y / s, e.z / s); Mat3 L;
  double k = h * e.w / s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) L(i, j) = (i == j ? k : 0.0) + (1.0 - k) * n(i) * n(j);
  L(0, 1) += h * n(2); L(1, 0) -= h * n(2); L(0, 2) -= h * n(1); L(2, 0) += h * n(1); L(1, 2) += h * n(0); L(2, 1) -= h * n(0);
  g_log = Vec3::Zero(); g_dlog = L; g_M = any33("M"); g_cutexp = true; c.run(Jb, res); g_cutexp = false;
  SAME3(g_w, c.db, "Jacobian of the exponential at the correction");
  for (int k = 0; k < 6; ++k) for (int i = 0; i < 3; ++i) {
    double x = 0; for (int j = 0; j < 3; ++j) x -= L(i, j) * (g_M(0, j) * c.D(6, k) + g_M(1, j) * c.D(7, k) + g_M(2, j) * c.D(8, k));
    ENSURES_REAL(Jb[6 * (6 + i) + k], x, "Jacobian by the bias: that of the logarithm applied to the motion");
  }
}

// splitting three samples' worth of integration at any time on the grid (C02): inside the interval that ends at sample AT, or (ON) at the sample before it
struct Pair { int64_t sec, nsec; };
extern "C" __attribute__((used)) Pair vcs_quantized(const UTCTime* t) { return Pair{t->sec, t->nsec}; }
template <int AT, bool ON> static void split() {
  Vec6 R = Vec6::Ones(), bias = any_bias(); const char* const N[3][6] = {{"a0", "a1", "a2", "g0", "g1", "g2"}, {"b0", "b1", "b2", "h0", "h1", "h2"}, {"c0", "c1", "c2", "i0", "i1", "i2"}}; const char* const TS[3] = {"s0", "s1", "s2"};
  ImuSample z[3]; for (int i = 0; i < 3; ++i) { z[i].accel = anyn(N[i]); z[i].gyro = anyn(N[i] + 3); z[i].t.sec = i ? z[i - 1].t.sec + vc::in(TS[i], 1, 10) : 1000; z[i].t.nsec = 0; }
  ImuModel m(z[0], bias, R); for (int i = 1; i < 3; ++i) { m.history_.push_back(m.history_.back()); m.history_.back().z = z[i]; }
  UTCTime t; t.sec = z[AT - 1].t.sec; t.nsec = 0; if (!ON) { t.sec += vc::in("s", 0, 10); t.nsec = vc::in("ns", 1, 9999) * 100000; REQUIRES(t.sec < z[AT].t.sec); }
  g_A.setZero(); g_B.setZero(); g_dot.setZero(); g_cutdyn = vc_is_ir();
  ImuModel l = m.split(t); g_cutdyn = false;
  ENSURES(m.t0() == z[0].t && m.tf() == t && l.t0() == t && l.tf() == z[2].t, "the two intervals meet at the time of the split");
  const int n = ON ? AT : AT + 1, k = 4 - AT;
  ENSURES((int)m.history_.size() == n && (int)l.history_.size() == k, "each keeps the samples of its interval");
  for (int i = 0; i < n && i < (int)m.history_.size(); ++i) if (i < AT) { SAME3(m.history_[i].z.accel, z[i].accel, "samples before the split"); SAME3(m.history_[i].z.gyro, z[i].gyro, "samples before the split"); ENSURES(m.history_[i].z.t == z[i].t, "samples before the split"); }
  for (int i = 1; i < k && i < (int)l.history_.size(); ++i) { const ImuSample& x = z[AT + i - 1]; SAME3(l.history_[i].z.accel, x.accel, "samples after the split"); SAME3(l.history_[i].z.gyro, x.gyro, "samples after the split"); ENSURES(l.history_[i].z.t == x.t, "samples after the split"); }
  double len = (double)(z[AT].t.sec - z[AT - 1].t.sec), f = ON ? 0.0 : ((double)(t.sec - z[AT - 1].t.sec) + t.nsec * 1e-9) / len;
  Vec3 a = f * z[AT].accel + (1.0 - f) * z[AT - 1].accel, g = f * z[AT].gyro + (1.0 - f) * z[AT - 1].gyro;
  SAME3(l.history_.front().z.accel, a, "the sample at the split is interpolated"); SAME3(l.history_.front().z.gyro, g, "the sample at the split is interpolated");
  SAME3(m.history_.back().z.accel, a, "the sample at the split is interpolated"); SAME3(m.history_.back().z.gyro, g, "the sample at the split is interpolated");
  for (int i = 0; i < 6; ++i) ENSURES_REAL(l.bias_(i), bias(i), "the same bias"); ENSURES(&l.R_ == &R, "the same noise");
}
CONTRACT(split_first, "mode=int,feas_from=0,feas_exit=1,tol=1e-6") { split<1, false>(); }
CONTRACT(split_second, "mode=int,feas_from=0,feas_exit=1,tol=1e-6") { split<2, false>(); }
CONTRACT(split_at_sample, "mode=int,feas_from=0,feas_exit=1,tol=1e-6") { split<2, true>(); }
