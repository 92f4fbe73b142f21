#pragma once
// Callers of the rotation classes are checked against the contracts of these classes (C10, C11, C12), not their bodies:
// a rotation acts by a matrix, a rigid transform by a matrix and a translation, motions given as parameters are named by
// a number, and dGenDParam, the inverse of the chart by small motions on the right, is the identity on six columns.
#include "vc.h"
#include "common/math/quat.h"
#include "common/math/so3.h"
#include "common/math/dquat.h"
#ifndef VC_NATIVE
namespace mc { namespace math {
template <> class Quat<double> {
 public:
  typedef double Scalar; static constexpr int DOF = 3;
  Eigen::Matrix3d P;                       // rotp(v) = P v
  Quat() {} Quat(const Eigen::Matrix3d& p) : P(p) {}
  static Quat Identity() { return Quat(Eigen::Matrix3d::Identity()); }
  const Eigen::Matrix3d& matrix() const { return P; }
  template <class D> Eigen::Matrix<double, 3, D::ColsAtCompileTime> rota(const Eigen::MatrixBase<D>& v) const { return P.transpose() * v; }
  template <class D> Eigen::Matrix<double, 3, D::ColsAtCompileTime> rotp(const Eigen::MatrixBase<D>& v) const { return P * v; }
  SO3<double> R() const { return SO3<double>(P); }
  Quat inverse() const { return Quat(P.transpose()); }
  Quat operator*(const Quat& o) const { return Quat(o.P * P); }
};
struct AbsTab { Eigen::Matrix3d P; Eigen::Vector3d t; };
static AbsTab g_tab[8];
template <> class DQuat<double> {
 public:
  typedef double Scalar; static constexpr int DOF = 6;
  Quat<double> r_; Eigen::Vector3d t_;
  DQuat() {} DQuat(const Quat<double>& r, const Eigen::Vector3d& t) : r_(r), t_(t) {}
  DQuat(const double* p) : r_(g_tab[(int)p[0]].P), t_(g_tab[(int)p[0]].t) {}
  const Eigen::Vector3d& translation() const { return t_; }
  const Quat<double>& rotation() const { return r_; } const Quat<double>& real() const { return r_; }
  SO3<double> R() const { return r_.R(); }
  template <class D> Eigen::Matrix<double, 3, D::ColsAtCompileTime> rota(const Eigen::MatrixBase<D>& v) const { return r_.rota(v); }
  template <class D> Eigen::Matrix<double, 3, D::ColsAtCompileTime> rotp(const Eigen::MatrixBase<D>& v) const { return r_.rotp(v); }
  template <class D> Eigen::Vector3d transforma(const Eigen::MatrixBase<D>& v) const { Eigen::Vector3d w = v; return Eigen::Vector3d(r_.rota(w) + t_); }
  template <class D> Eigen::Vector3d transformp(const Eigen::MatrixBase<D>& v) const { Eigen::Vector3d w = v; return r_.rotp(Eigen::Vector3d(w - t_)); }
  DQuat inverse() const { return DQuat(r_.inverse(), -r_.rotp(t_)); }
  static DQuat Identity() { return DQuat(Quat<double>::Identity(), Eigen::Vector3d::Zero()); }
  void setRandom() { *this = Identity(); }
  // the exponential is a motion of its own for each call; what it was asked for is kept
  static Eigen::Matrix<double, 6, 1> g_exp_arg[4]; static int g_exps;
  static DQuat exp(const Eigen::Matrix<double, 6, 1>& w) { int k = g_exps & 3; g_exp_arg[k] = w; ++g_exps; return DQuat(g_tab[4 + k].P, g_tab[4 + k].t); }
  DQuat otimes(const DQuat& o) const { return *this * o; }
  DQuat& operator*=(const DQuat& o) { *this = *this * o; return *this; }
  DQuat operator*(const DQuat& o) const { return DQuat(r_ * o.r_, transforma(o.t_)); }
  Eigen::Matrix<double, 6, 8> dGenDParam() const { Eigen::Matrix<double, 6, 8> m; for (int i = 0; i < 6; ++i) for (int j = 0; j < 8; ++j) m(i, j) = i == j; return m; }
  // the logarithm is a vector of its own; the transform it was asked for is kept
  static Eigen::Matrix<double, 6, 1> g_log; static Eigen::Matrix<double, 6, 6> g_dlog; static Eigen::Matrix3d g_P; static Eigen::Vector3d g_t; static int g_logs;
  Eigen::Matrix<double, 6, 1> log() const { g_P = r_.P; g_t = t_; ++g_logs; return g_log; }
  template <JacobianSide S> Eigen::Matrix<double, 6, 1> log(Eigen::Matrix<double, 6, 6>* J) const { if (S == JacobianSide::RIGHT) *J = g_dlog; else J->setZero(); return log(); }
};
Eigen::Matrix<double, 6, 1> DQuat<double>::g_log; Eigen::Matrix<double, 6, 6> DQuat<double>::g_dlog; Eigen::Matrix3d DQuat<double>::g_P; Eigen::Vector3d DQuat<double>::g_t; int DQuat<double>::g_logs = 0;
Eigen::Matrix<double, 6, 1> DQuat<double>::g_exp_arg[4]; int DQuat<double>::g_exps = 0;
} }
#endif
// A rigid transform handed over as eight parameters.  In the IR: number k, with its matrix and translation as inputs; natively: a real
// one, moved by exp(e) on the right, e the parameters e0..e5 of value zero.
#define MOTION_NAMES(a) {a "P00", a "P01", a "P02", a "P10", a "P11", a "P12", a "P20", a "P21", a "P22", a "t0", a "t1", a "t2", a "e0", a "e1", a "e2", a "e3", a "e4", a "e5"}
static const char* const MA[] = MOTION_NAMES("a"); static const char* const MB[] = MOTION_NAMES("b"); static const char* const MR[] = MOTION_NAMES("r"); static const char* const ME[] = MOTION_NAMES("g");
struct Motion {
  double p[8]; const char* const* n; double tscale;
  Eigen::Matrix3d P; Eigen::Vector3d t;                       // passive matrix, translation
#ifdef VC_NATIVE
  Eigen::Matrix<double, 8, 6> chart;
#endif
  mc::math::DQuat<double> T() const { return mc::math::DQuat<double>(p); }
};
static void any_motion(Motion& m, int k, const char* const* n, double scale) {
  m.n = n;
#ifndef VC_NATIVE
  for (int i = 0; i < 9; ++i) m.P(i / 3, i % 3) = vc::any<double>(n[i]);
  for (int i = 0; i < 3; ++i) m.t(i) = vc::any<double>(n[9 + i]);
  mc::math::g_tab[k].P = m.P; mc::math::g_tab[k].t = m.t; for (int i = 0; i < 8; ++i) m.p[i] = k;
#else
  (void)k; double q[4], s = 0, t[3]; for (int i = 0; i < 4; ++i) { q[i] = vc::any<double>(n[i]); s += q[i] * q[i]; } s = sqrt(s); REQUIRES(s > 1e-6 && s < 1e100);
  for (int i = 0; i < 3; ++i) { t[i] = vc::any<double>(n[9 + i]); REQUIRES(fabs(t[i]) < 1e100); t[i] = fmod(t[i], 2.0) * scale; }
  Eigen::Matrix<double, 6, 1> e; for (int i = 0; i < 6; ++i) e(i) = vc_param(n[12 + i], 0.0);
  mc::math::DQuat<double> T(mc::math::Quat<double>(q[0] / s, q[1] / s, q[2] / s, q[3] / s), Eigen::Vector3d(t[0], t[1], t[2]));
  m.chart = T.dParamDGen();
  T = T * mc::math::DQuat<double>::exp(e); m.P = T.rotation().R().matrix(); m.t = T.translation(); for (int i = 0; i < 8; ++i) m.p[i] = T[i];
#endif
}
// derivative of y by small motions on the right: rotation by e0..e2 (dP = -[w]P), translation by e3..e5 (dt = P^T v)
static void by_motion(double y, const Motion& m, double* d) {
#ifndef VC_NATIVE
  double g[12]; for (int i = 0; i < 12; ++i) g[i] = vc_deriv(y, m.n[i]);
  for (int k = 0; k < 3; ++k) {
    Eigen::Vector3d w(k == 0, k == 1, k == 2); d[k] = 0; d[k + 3] = 0;
    for (int j = 0; j < 3; ++j) { Eigen::Vector3d c = m.P.col(j), v = c.cross(w); for (int i = 0; i < 3; ++i) d[k] = d[k] + g[3 * i + j] * v(i); d[k + 3] = d[k + 3] + g[9 + j] * m.P(k, j); }
  }
#else
  for (int k = 0; k < 6; ++k) d[k] = vc_deriv(y, m.n[12 + k]);
#endif
}
// a row of a Jacobian by the eight parameters, in the chart of small motions
static void in_chart(const double* j, const Motion& m, double* d) {
#ifndef VC_NATIVE
  (void)m; for (int k = 0; k < 6; ++k) d[k] = j[k];
#else
  for (int k = 0; k < 6; ++k) { d[k] = 0; for (int i = 0; i < 8; ++i) d[k] += j[i] * m.chart(i, k); }
#endif
}
