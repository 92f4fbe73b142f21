// C12: the Jacobians returned with exp and log are the derivatives of exp and log.
//@ assume: floating-point arithmetic is read as exact real arithmetic
#include "rot_util.h"
static const char* const WN[] = {"wx", "wy", "wz", "vx", "vy", "vz"};
using mc::JacobianSide;
// a unit quaternion's derivative is half the tangent vector times the quaternion, on the side named
template <JacobianSide SIDE> static void quat_exp() {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 1e-5 && n < 3.14159265);
  Mat3 J; Q q = Q::exp<SIDE>(w, &J), p = Q::exp(w);
  SAME4(q, p, "the same exponential");
  for (int k = 0; k < 3; ++k) {
    Q h(0.0, J(0, k) / 2.0, J(1, k) / 2.0, J(2, k) / 2.0), d = SIDE == JacobianSide::LEFT ? h * p : p * h;
    for (int i = 0; i < 4; ++i) ENSURES_REAL(vc_deriv(p[i], WN[k]), d[i], "Jacobian of the exponential");
  }
}
CONTRACT(quat_exp_left, "tol=1e-5") { quat_exp<JacobianSide::LEFT>(); }
CONTRACT(quat_exp_right, "tol=1e-5") { quat_exp<JacobianSide::RIGHT>(); }
template <JacobianSide SIDE> static void quat_log() {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.1414 && sin(n / 2.0) > 0.001 && sin(n) > 1e-6);    // (the sines: facts of trigonometry)
  Mat3 J, L; Q q = Q::exp<SIDE>(w, &J);
  Vec3 l = q.log<SIDE>(&L);
  SAME3(l, w, "the same logarithm");
  Mat3 I = L * J;
  SAME33(I, Mat3::Identity(), "the Jacobian of the logarithm is the inverse of the exponential's");
}
CONTRACT(quat_log_left, "tol=1e-5") { quat_log<JacobianSide::LEFT>(); }
CONTRACT(quat_log_right, "tol=1e-5") { quat_log<JacobianSide::RIGHT>(); }
// near the identity the exact Jacobian's series
static Mat3 sk(const Vec3& w) { Mat3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
// (sign -1: the right Jacobian)
static void exact_jac(const Vec3& w, double sgn, Mat3& J) {
  double t2 = w.squaredNorm(), t = sqrt(t2), a = sin(t) / t, b = (1.0 - cos(t)) / t2, c = (1.0 - a) / t2;
  J = a * Mat3::Identity() + sgn * b * sk(w) + c * (w * w.transpose());
}
#define NEAR33(A, B, e, l) do { for (int i_ = 0; i_ < 3; ++i_) for (int j_ = 0; j_ < 3; ++j_) ENSURES_NEAR((A)(i_, j_), (B)(i_, j_), e, l); } while (0)
static Vec3 smallv() { Vec3 w = anyv("wx", "wy", "wz"); double t = w.squaredNorm(); REQUIRES(t < 4e-6 && t > (vc_is_ir() ? 0.0 : 1e-8)); return w; }
CONTRACT(exact, "tol=1e-5") {         // the closed form used below is the derivative of the rotation matrix
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 0.0021);
  Mat3 J, K; exact_jac(w, 1, J);
  R3 R = R3::exp(w), P = R3::exp(w, &K);
  SAME33(R.matrix(), P.matrix(), "the same exponential");
  SAME33(J, K, "Jacobian of the exponential of a rotation matrix");
  for (int k = 0; k < 3; ++k) {
    Vec3 c(J(0, k), J(1, k), J(2, k)); Mat3 D = sk(c) * R.matrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ENSURES_REAL(vc_deriv(R.matrix()(i, j), WN[k]), D(i, j), "derivative of the rotation matrix");
  }
}
CONTRACT(small, "tol=1e-5") {
  Vec3 w = smallv(); Mat3 L, R, J, K;
  exact_jac(w, 1, L); exact_jac(w, -1, R);
  R3::exp(w, &J); NEAR33(J, L, 1e-11, "Jacobian of SO3::exp near zero");
  Q::exp<JacobianSide::LEFT>(w, &J); NEAR33(J, L, 1e-11, "Jacobian of Quat::exp near zero");
  Q::exp<JacobianSide::RIGHT>(w, &K); NEAR33(K, R, 1e-11, "Jacobian of Quat::exp near zero");
}
CONTRACT(log_small, "tol=1e-5") {
  double w = vc::any<double>("w"); Vec3 v = anyv("x", "y", "z");
  double n2 = v.squaredNorm();
  REQUIRES(n2 < 1.5e-11 && n2 > (vc_is_ir() ? 0.0 : 1e-16) && w > 0.999 && w < 1.001);    // (unit to within a thousandth)
  Q q(w, v(0), v(1), v(2)); Mat3 L, R;
  Vec3 l = q.log<JacobianSide::LEFT>(&L), r = q.log<JacobianSide::RIGHT>(&R), m = q.log();
  Mat3 K = Mat3::Identity() - sk(v) / w;
  for (int i = 0; i < 3; ++i) { ENSURES_NEAR(l(i), 2.0 * v(i) / w, 1e-14, "logarithm near zero"); ENSURES_NEAR(r(i), 2.0 * v(i) / w, 1e-14, "logarithm near zero"); ENSURES_NEAR(m(i), 2.0 * v(i) / w, 1e-14, "logarithm near zero"); }
  NEAR33(L, K, 1e-9, "Jacobian of the logarithm near zero");
  NEAR33(R, K.transpose(), 1e-9, "Jacobian of the logarithm near zero");
}
CONTRACT(quat_chart, "tol=1e-5") {     // parameters of a unit quaternion against a rotation on the right: q * exp(w)
  V4 p = any4(QN); Q q(p.w, p.x, p.y, p.z);
  Eigen::Matrix<double, 4, 3> G = q.dParamDGen(); Eigen::Matrix<double, 3, 4> D = q.dGenDParam();
  for (int k = 0; k < 3; ++k) {
    Q h(0.0, k == 0 ? 0.5 : 0.0, k == 1 ? 0.5 : 0.0, k == 2 ? 0.5 : 0.0), d = q * h;
    ENSURES_REAL(G(0, k), d.w(), "parameters by generators"); ENSURES_REAL(G(1, k), d.x(), "parameters by generators");
    ENSURES_REAL(G(2, k), d.y(), "parameters by generators"); ENSURES_REAL(G(3, k), d.z(), "parameters by generators");
  }
  unit(p); Q u(p.w, p.x, p.y, p.z);
  Mat3 I = u.dGenDParam() * u.dParamDGen();
  SAME33(I, Mat3::Identity(), "generators by parameters is the inverse on unit quaternions");
  for (int k = 0; k < 4; ++k) {         // change of the generator when the parameter k changes: twice the vector part of conj(u) e_k
    Q e(k == 0, k == 1, k == 2, k == 3), g = u.inverse() * e;
    ENSURES_REAL(u.dGenDParam()(0, k), 2.0 * g.x(), "generators by parameters"); ENSURES_REAL(u.dGenDParam()(1, k), 2.0 * g.y(), "generators by parameters"); ENSURES_REAL(u.dGenDParam()(2, k), 2.0 * g.z(), "generators by parameters");
  }
}
typedef Eigen::Matrix<double, 6, 6> M6; typedef Eigen::Matrix<double, 6, 1> W6;
static W6 any6() { W6 x; for (int i = 0; i < 6; ++i) x(i) = vc::any<double>(WN[i]); return x; }
static DQ half(const W6& x) { return DQ(Q(0.0, x(0) / 2.0, x(1) / 2.0, x(2) / 2.0), Q(0.0, x(3) / 2.0, x(4) / 2.0, x(5) / 2.0)); }
template <JacobianSide SIDE> static void dq_exp() {
  W6 x = any6();
  REQUIRES(x.head<3>().norm() > 0.0021);
  M6 J; DQ q = DQ::exp<SIDE>(x, &J), p = DQ::exp(x);
  SAME8(q, p, "the same exponential");
  for (int k = 0; k < 6; ++k) {
    W6 c = J.col(k); DQ h = half(c), d = SIDE == JacobianSide::LEFT ? h * p : p * h;
    for (int i = 0; i < 8; ++i) ENSURES_REAL(vc_deriv(p[i], WN[k]), d[i], "Jacobian of the exponential");
  }
}
CONTRACT(dquat_exp_left, "tol=1e-5") { dq_exp<JacobianSide::LEFT>(); }
CONTRACT(dquat_exp_right, "tol=1e-5") { dq_exp<JacobianSide::RIGHT>(); }
CONTRACT(dquat_chart, "tol=1e-5") {
  V4 r = any4(RN), d = any4(QN); DQ q(Q(r.w, r.x, r.y, r.z), Q(d.w, d.x, d.y, d.z));
  Eigen::Matrix<double, 8, 6> G = q.dParamDGen();
  for (int k = 0; k < 6; ++k) {
    W6 e = W6::Zero(); e(k) = 1; DQ g = q * half(e);
    for (int i = 0; i < 8; ++i) ENSURES_REAL(G(i, k), g[i], "parameters by generators");
  }
}
CONTRACT(dquat_chart_inverse, "tol=1e-5") {
  V4 r = any4(RN); unit(r); Vec3 t = anyv("tx", "ty", "tz");
  DQ q(Q(r.w, r.x, r.y, r.z), t);
  Eigen::Matrix<double, 6, 8> D = q.dGenDParam(); Eigen::Matrix<double, 8, 6> G = q.dParamDGen(); M6 I = D.lazyProduct(G);
  SAMEMN(6, 6, I, M6::Identity(), "generators by parameters is the inverse on rigid transforms");
}
CONTRACT(se3_exp, "tol=1e-5") {
  W6 x = any6();
  REQUIRES(x.head<3>().norm() > 0.0021);
  M6 J; E3 q = E3::exp(x, &J), p = E3::exp(x);
  SAME33(q.R().matrix(), p.R().matrix(), "the same exponential"); SAME3(q.t(), p.t(), "the same exponential");
  for (int k = 0; k < 6; ++k) {
    Vec3 a = J.block<3, 1>(0, k), b = J.block<3, 1>(3, k); Mat3 D = sk(a) * p.R().matrix(); Vec3 d = a.cross(p.t()) + b;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) ENSURES_REAL(vc_deriv(p.R().matrix()(i, j), WN[k]), D(i, j), "Jacobian of the exponential");
      ENSURES_REAL(vc_deriv(p.t()(i), WN[k]), d(i), "Jacobian of the exponential");
    }
  }
}
CONTRACT(so3_log, "tol=1e-5") {
  Vec3 w = anyv("wx", "wy", "wz"); double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.1414 && sin(n) > 1e-4 && cos(n) < 1 - 1e-6 && cos(n) > -1 + 1e-8);     // (facts of trigonometry)
  Mat3 J, L; R3 R = R3::exp(w, &J);
  Vec3 l = R.log(&L);
  SAME3(l, w, "the same logarithm");
  Mat3 I = L * J;
  SAME33(I, Mat3::Identity(), "the Jacobian of the logarithm is the inverse of the exponential's");
}
template <JacobianSide SIDE> static void dq_log() {
  W6 x = any6(); double n = x.head<3>().norm();
  REQUIRES(n > 0.0021 && n < 3.1414 && sin(n / 2.0) > 0.001 && sin(n) > 1e-6);
  M6 J, L; DQ q = DQ::exp<SIDE>(x, &J);
  W6 l = q.log<SIDE>(&L);
  SAME6(l, x, "the same logarithm");
  M6 I = L.lazyProduct(J);
  SAMEMN(6, 6, I, M6::Identity(), "the Jacobian of the logarithm is the inverse of the exponential's");
}
CONTRACT(dquat_log_left, "tol=1e-5 budget=600") { dq_log<JacobianSide::LEFT>(); }
CONTRACT(dquat_log_right, "tol=1e-5 budget=600") { dq_log<JacobianSide::RIGHT>(); }
CONTRACT(se3_log, "tol=1e-5 budget=600") {
  W6 x = any6(); double n = x.head<3>().norm();
  REQUIRES(n > 0.0021 && n < 3.1414 && sin(n) > 1e-4 && cos(n) < 1 - 1e-6 && cos(n) > -1 + 1e-8);
  M6 J, L; E3 T = E3::exp(x, &J);
  W6 l = T.log(&L);
  SAME6(l, x, "the same logarithm");
  M6 I = L.lazyProduct(J);
  SAMEMN(6, 6, I, M6::Identity(), "the Jacobian of the logarithm is the inverse of the exponential's");
}
