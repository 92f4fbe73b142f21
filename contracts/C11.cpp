// C11: rigid transforms (dual quaternions, SE(3) matrices) form one group of rotations with translations.
//@ assume: floating-point arithmetic is read as exact real arithmetic
#include "rot_util.h"
// a rigid transform: a unit dual quaternion with rotation p and translation t
static DQ any_tf(const char* const* n, const char* a, const char* b, const char* c, Vec3* t) {
  V4 p = any4(n); unit(p); *t = anyv(a, b, c);
  return DQ(Q(p.w, p.x, p.y, p.z), *t);
}
CONTRACT(parts, "") {
  V4 p = any4(PN); unit(p); Vec3 t = anyv("tx", "ty", "tz"), v = anyv("vx", "vy", "vz");
  Q q(p.w, p.x, p.y, p.z); DQ T(q, t);
  SAME4(T.rotation(), q, "the rotation is the one given"); SAME4(T.real(), q, "the rotation is the one given"); SAME3(T.translation(), t, "the translation is the one given");
  DQ S(T[0], T[1], T[2], T[3], T[4], T[5], T[6], T[7]), U(T), W, Z(T.real(), T.dual()), M(T.data());
  W = T;
  SAME8(S, T, "made from eight numbers"); SAME4(S.real(), T.real(), "made from eight numbers"); SAME4(S.dual(), T.dual(), "made from eight numbers");
  SAME8(U, T, "copied"); SAME4(U.real(), T.real(), "copied"); SAME4(U.dual(), T.dual(), "copied");
  SAME8(W, T, "assigned"); SAME4(W.real(), T.real(), "assigned"); SAME4(W.dual(), T.dual(), "assigned"); SAME8(Z, T, "made from its parts"); SAME8(M, T, "mapped");
  SAME3(T.rota(v), q.rota(v), "rotation alone"); SAME3(T.rotp(v), q.rotp(v), "rotation alone");
  SAME33(T.R().matrix(), q.R().matrix(), "rotation matrix");
  Vec3 a = q.rota(v) + t, b = q.rotp(v - t);
  SAME3(T.transforma(v), a, "active: rotate, then translate"); SAME3(T.transformp(v), b, "passive: the inverse");
  DQ I = DQ::identity(), J; SAME8(I, J, "identity"); SAME3(I.transforma(v), v, "identity"); SAME3(I.transformp(v), v, "identity");
  Eigen::Matrix<double, 3, 2> m; m.col(0) = v; m.col(1) = Vec3(v.y() + 1.0, -v.z(), 2 * v.x());
  Eigen::Matrix<double, 3, 2> ma = T.transforma(m), mp = T.transformp(m);
  for (int j = 0; j < 2; ++j) { Vec3 c = m.col(j), x = ma.col(j), y = mp.col(j); SAME3(x, T.transforma(c), "every column is transformed"); SAME3(y, T.transformp(c), "every column is transformed"); }
}
CONTRACT(product, "") {
  Vec3 t, s, v = anyv("vx", "vy", "vz");
  DQ T = any_tf(PN, "tx", "ty", "tz", &t), S = any_tf(QN, "sx", "sy", "sz", &s), P = T * S, O = T.otimes(S);
  SAME8(P, O, "otimes is the product");
  SAME3(P.transforma(v), T.transforma(S.transforma(v)), "the product acts as its factors in turn");
  SAME3(P.transformp(v), S.transformp(T.transformp(v)), "the product acts as its factors in turn");
  SAME3(P.translation(), T.transforma(s), "translation of a product");
  SAME4(P.rotation(), T.rotation() * S.rotation(), "rotation of a product");
}
CONTRACT(inverse, "") {
  Vec3 t, v = anyv("vx", "vy", "vz");
  DQ T = any_tf(PN, "tx", "ty", "tz", &t), I = T.inverse(), A = T * I, B = I * T, E;
  SAME8(A, E, "the inverse"); SAME8(B, E, "the inverse");
  SAME3(I.transforma(v), T.transformp(v), "the inverse acts backwards"); SAME3(T.transformp(T.transforma(v)), v, "active and passive undo each other"); SAME3(T.transforma(T.transformp(v)), v, "active and passive undo each other");
}
CONTRACT(associative, "") {
  Vec8 z;
  DQ A(vc::any<double>("a0"), vc::any<double>("a1"), vc::any<double>("a2"), vc::any<double>("a3"), vc::any<double>("a4"), vc::any<double>("a5"), vc::any<double>("a6"), vc::any<double>("a7"));
  DQ B(vc::any<double>("b0"), vc::any<double>("b1"), vc::any<double>("b2"), vc::any<double>("b3"), vc::any<double>("b4"), vc::any<double>("b5"), vc::any<double>("b6"), vc::any<double>("b7"));
  DQ C(vc::any<double>("c0"), vc::any<double>("c1"), vc::any<double>("c2"), vc::any<double>("c3"), vc::any<double>("c4"), vc::any<double>("c5"), vc::any<double>("c6"), vc::any<double>("c7"));
  SAME8((A * B) * C, A * (B * C), "the product is associative");
}
// the adjoint: T xi T^-1 = Ad(T) xi for a twist xi (rotation, translation)
CONTRACT(adjoint, "") {
  Vec3 t, w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  DQ T = any_tf(PN, "tx", "ty", "tz", &t);
  DQ X(0.0, w.x(), w.y(), w.z(), 0.0, v.x(), v.y(), v.z()), Y = T * X * T.inverse();
  Mat6 A = T.Ad(); Vec6 xi; xi << w, v; Vec6 y = A * xi;
  ENSURES_REAL(Y[0], 0.0, "a twist goes to a twist"); ENSURES_REAL(Y[4], 0.0, "a twist goes to a twist");
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(Y[i + 1], y(i), "the adjoint moves a twist"); ENSURES_REAL(Y[i + 5], y(i + 3), "the adjoint moves a twist"); }
}
CONTRACT(exp_log, "") {
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.14159265);
  REQUIRES(sin(n / 2.0) > 0.00101);               // a fact of trigonometry: sin x > x - x^3/6
  Vec6 x; x << w, v;
  DQ T = DQ::exp(x);
  SAME4(T.real(), Q::exp(w), "the rotation is the exponential of the rotation");
  double g = T[0] * T[4] + T[1] * T[5] + T[2] * T[6] + T[3] * T[7];
  ENSURES_REAL(g, 0.0, "a rigid transform");
  SAME6(T.log(), x, "log is the inverse of exp");
}
CONTRACT(log_exp, "") {
  Vec3 t; DQ T = any_tf(PN, "tx", "ty", "tz", &t);
  double s2 = T[1] * T[1] + T[2] * T[2] + T[3] * T[3];
  REQUIRES(s2 > 1e-5);
  Vec6 l = T.log(); Vec3 lw = l.head<3>();
  REQUIRES(lw.squaredNorm() > 4.1e-6);             // holds: the angle is at least twice the sine of its half
  SAME8(DQ::exp(l), T, "exp is the inverse of log");
}
CONTRACT(exp_small, "") {
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  double n2 = w.squaredNorm();
  REQUIRES(n2 < 3.9e-6);
  Vec6 x; x << w, v;
  DQ T = DQ::exp(x);
  double k = 0.5 - n2 / 48.0 + n2 * n2 / 3840.0, g = w.dot(v), h = g * (-1.0 / 24.0 + n2 / 960.0 - n2 * n2 / 107520.0);
  ENSURES_REAL(T[0], cos(w.norm() / 2.0), "the series of the exponential"); ENSURES_REAL(T[4], -g * k / 2.0, "the series of the exponential");
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(T[i + 1], k * w(i), "the series of the exponential"); ENSURES_REAL(T[i + 5], h * w(i) + k * v(i), "the series of the exponential"); }
}
CONTRACT(log_small, "") {
  Vec3 t; DQ T = any_tf(PN, "tx", "ty", "tz", &t);
  double s2 = T[1] * T[1] + T[2] * T[2] + T[3] * T[3], r0 = T[0];
  REQUIRES(s2 < 0.9e-8 && (r0 > 0.5 || r0 < -0.5));
  double r3 = r0 * r0 * r0, r5 = r3 * r0 * r0;
  double a = 1.0 / r0 - s2 / (3.0 * r3) + s2 * s2 / (5.0 * r5);    // atan(s/r0)/s
  double g = T[1] * T[5] + T[2] * T[6] + T[3] * T[7], c = -1.0 / r0 + 1.0 / (3.0 * r3) - s2 / (5.0 * r5);   // (r0 - a)/s2
  Vec6 l = T.log();
  for (int i = 0; i < 3; ++i) { ENSURES_REAL(l(i), 2.0 * (a * T[i + 1]), "the series of the logarithm"); ENSURES_REAL(l(i + 3), 2.0 * (a * T[i + 5] + (g * c - T[4]) * T[i + 1]), "the series of the logarithm"); }
}
// SE(3) as matrices: passive, the rotation matrix is applied first
static E3 any_se3(const char* const* n, const char* a, const char* b, const char* c, Q* q, Vec3* t) {
  V4 p = any4(n); unit(p); *q = Q(p.w, p.x, p.y, p.z); *t = anyv(a, b, c);
  return E3(R3(*q), *t);
}
CONTRACT(se3_group, "") {
  Q p, q; Vec3 t, s, v = anyv("vx", "vy", "vz");
  E3 T = any_se3(PN, "tx", "ty", "tz", &p, &t), S = any_se3(QN, "sx", "sy", "sz", &q, &s), P = T * S, I = T.inverse(), A = T * I, B = I * T;
  Vec3 tv = p.R().matrix() * v + t;
  SAME3(T.transformp(v), tv, "rotate, then translate"); SAME3(T * v, tv, "rotate, then translate");
  SAME3(P.transformp(v), T.transformp(S.transformp(v)), "the product acts as its factors in turn");
  SAME3(P.transforma(v), S.transforma(T.transforma(v)), "the product acts as its factors in turn");
  SAME3(T.transforma(T.transformp(v)), v, "active and passive undo each other"); SAME3(I.transformp(v), T.transforma(v), "the inverse acts backwards");
  SAME33(A.rotation().matrix(), Mat3::Identity(), "the inverse"); SAME3(A.translation(), Vec3::Zero(), "the inverse");
  SAME33(B.rotation().matrix(), Mat3::Identity(), "the inverse"); SAME3(B.translation(), Vec3::Zero(), "the inverse");
}
CONTRACT(se3_matrix, "") {
  Q p, q; Vec3 t, s;
  E3 T = any_se3(PN, "tx", "ty", "tz", &p, &t), S = any_se3(QN, "sx", "sy", "sz", &q, &s), P = T * S;
  Mat4 m = T.matrix(), M = m * S.matrix(), PM = P.matrix();
  SAMEMN(4, 4, PM, M, "the matrix of a product is the product of the matrices");
  E3 U(m); SAME33(U.rotation().matrix(), T.rotation().matrix(), "made from a matrix"); SAME3(U.translation(), t, "made from a matrix");
  E3 D; SAME33(D.rotation().matrix(), Mat3::Identity(), "identity"); SAME3(D.translation(), Vec3::Zero(), "identity");
  // Ad: M [xi] M^-1 = [Ad xi]
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  Mat4 X = Mat4::Zero(); X(0, 1) = -w.z(); X(0, 2) = w.y(); X(1, 0) = w.z(); X(1, 2) = -w.x(); X(2, 0) = -w.y(); X(2, 1) = w.x(); X(0, 3) = v.x(); X(1, 3) = v.y(); X(2, 3) = v.z();
  Mat4 Y = m * X * T.inverse().matrix();
  Vec6 xi; xi << w, v; Vec6 y = T.Ad() * xi;
  ENSURES_REAL(Y(2, 1), y(0), "the adjoint moves a twist"); ENSURES_REAL(Y(0, 2), y(1), "the adjoint moves a twist"); ENSURES_REAL(Y(1, 0), y(2), "the adjoint moves a twist");
  for (int i = 0; i < 3; ++i) ENSURES_REAL(Y(i, 3), y(i + 3), "the adjoint moves a twist");
}
CONTRACT(se3_exp, "") {
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.1414);
  Vec6 x; x << w, v;
  E3 T = E3::exp(x); DQ D = DQ::exp(x);
  SAME33(T.rotation().matrix(), R3::exp(w).matrix(), "the rotation is the exponential of the rotation");
  SAME3(T.translation(), D.translation(), "the exponentials agree on the translation");
}
CONTRACT(se3_exp_small, "") {
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  double t = w.squaredNorm();
  REQUIRES(t < 3.9e-6);
  Vec6 x; x << w, v;
  E3 T = E3::exp(x);
  SAME33(T.rotation().matrix(), R3::exp(w).matrix(), "the rotation is the exponential of the rotation");
  double b = 0.5 - t / 24.0 + t * t / 720.0, c = 1.0 / 6.0 - t / 120.0 + t * t / 5040.0;
  Vec3 p = v + b * w.cross(v) + c * w.cross(w.cross(v));
  SAME3(T.translation(), p, "the series of the translation");
}
CONTRACT(se3_log, "") {
  Vec3 w = anyv("wx", "wy", "wz"), v = anyv("vx", "vy", "vz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.1414);
  REQUIRES(sin(n) > 1e-4 && cos(n) < 1 - 1e-6 && cos(n) > -1 + 1e-8);     // facts of trigonometry
  Vec6 x; x << w, v;
  SAME6(E3::exp(x).log(), x, "log is the inverse of exp");
}
