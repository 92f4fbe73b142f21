// C10: rotations (unit quaternions and rotation matrices) form one group, acting one way, with exp and log inverse.
//@ assume: floating-point arithmetic is read as exact real arithmetic
#include "rot_util.h"
CONTRACT(product, "") {
  V4 p = any4(PN), q = any4(QN);
  Q a(p.w, p.x, p.y, p.z), b(q.w, q.x, q.y, q.z);
  Q c = a * b, d = a.otimes(b), e(a);
  e *= b;
  ENSURES_REAL(c.w(), p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, "Hamilton's product");
  ENSURES_REAL(c.x(), p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, "Hamilton's product");
  ENSURES_REAL(c.y(), p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, "Hamilton's product");
  ENSURES_REAL(c.z(), p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w, "Hamilton's product");
  SAME4(d, c, "otimes is the product"); SAME4(e, c, "*= is the product");
  SAME4(a, Q(p.w, p.x, p.y, p.z), "the operands are left alone"); SAME4(b, Q(q.w, q.x, q.y, q.z), "the operands are left alone");
}
CONTRACT(group, "") {
  V4 p = any4(PN), q = any4(QN), r = any4(RN);
  Q a(p.w, p.x, p.y, p.z), b(q.w, q.x, q.y, q.z), c(r.w, r.x, r.y, r.z);
  SAME4((a * b) * c, a * (b * c), "the product is associative");
  SAME4(a * Q::Identity(), a, "the identity is neutral"); SAME4(Q::Identity() * a, a, "the identity is neutral");
  unit(p); Q u(p.w, p.x, p.y, p.z);
  SAME4(u * u.inverse(), Q::Identity(), "the inverse"); SAME4(u.inverse() * u, Q::Identity(), "the inverse");
}
CONTRACT(matrix, "") {
  V4 p = any4(PN), q = any4(QN); unit(p); unit(q);
  Q a(p.w, p.x, p.y, p.z), b(q.w, q.x, q.y, q.z);
  Mat3 A = a.R().matrix(), B = b.R().matrix();
  Mat3 I = A * A.transpose();
  SAME33(I, Mat3::Identity(), "the matrix of a unit quaternion is orthogonal");
  ENSURES_REAL(A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)), 1.0, "and has determinant 1");
  Q c = a * b;
  Mat3 C = c.R().matrix(), D = B * A;
  SAME33(C, D, "the matrix of a product is the product of the matrices (passive: in reverse order)");
  Mat3 E = a.Ad(), F = A.transpose();
  SAME33(E, F, "the adjoint is the transposed matrix");
  Mat3 G = a.inverse().R().matrix();
  SAME33(G, F, "the matrix of the inverse is the transpose");
  // a rotation by theta about z, as the documentation of active and passive has it
}
CONTRACT(action, "") {
  V4 p = any4(PN), q = any4(QN); Vec3 v = anyv("vx", "vy", "vz");
  unit(p); unit(q); Q a(p.w, p.x, p.y, p.z), b(q.w, q.x, q.y, q.z);
  Vec3 vp = a.rotp(v), va = a.rota(v);
  Vec3 mp = a.R().matrix() * v, ma = a.R().matrix().transpose() * v;
  SAME3(vp, mp, "rotp is the matrix times the vector"); SAME3(va, ma, "rota is the transposed matrix times the vector");
  SAME3(a.rota(a.rotp(v)), v, "rota undoes rotp"); SAME3(a.rotp(a.rota(v)), v, "rotp undoes rota");
  SAME3((a * b).rotp(v), b.rotp(a.rotp(v)), "the product acts as its factors in turn"); SAME3((a * b).rota(v), a.rota(b.rota(v)), "the product acts as its factors in turn");
  Eigen::Matrix<double, 3, 2> m, mmp, mma; m.col(0) = v; m.col(1) = Vec3(v.y(), -v.z(), 2 * v.x());
  mmp = a.doublerotp(m); mma = a.doublerota(m);
  for (int j = 0; j < 2; ++j) { Vec3 c = m.col(j), x = mmp.col(j), y = mma.col(j); SAME3(x, a.rotp(c), "doublerotp rotates both columns"); SAME3(y, a.rota(c), "doublerota rotates both columns"); }
  ENSURES_REAL(vp.squaredNorm(), v.squaredNorm(), "lengths are kept");
  R3 S(a);
  SAME3(S.rotp(v), vp, "a rotation matrix acts as its quaternion"); SAME3(S.rota(v), va, "a rotation matrix acts as its quaternion");
  SAME3(S * v, vp, "a rotation matrix acts as its quaternion");
  SAME3(S.inverse() * v, va, "a rotation matrix acts as its quaternion");
  R3 T(b); Mat3 ST = (S * T).matrix(), W = S.matrix() * T.matrix(), TS = S.times(T).matrix();
  SAME33(ST, W, "matrix product"); SAME33(TS, W, "matrix product");
  SAME33(S.Ad(), S.matrix(), "the adjoint of a rotation matrix is the matrix");
}
CONTRACT(exp_log, "") {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.14159265);
  REQUIRES(sin(n / 2.0) > 1e-5);     // a fact of trigonometry: sin x >= 2x/pi for 0 <= x <= pi/2
  Q a = Q::exp(w);
  ENSURES_REAL(a.w() * a.w() + a.x() * a.x() + a.y() * a.y() + a.z() * a.z(), 1.0, "exp gives a unit quaternion");
  SAME3(a.log(), w, "log is the inverse of exp");
  R3 S = R3::exp(w), T(a); Mat3 A = S.matrix(), B = T.matrix().transpose();
  SAME33(A, B, "the exponential of a matrix is that of the quaternion, inverted");
}
CONTRACT(direction, "") {
  // passive: the coordinates of a vector in a frame turned by the angle; active: the vector itself turned
  double t = vc::any<double>("angle"), c = cos(t), s = sin(t);
  for (int k = 0; k < 3; ++k) {
    Vec3 e = Vec3::Zero(), y = Vec3::Zero(), z = Vec3::Zero(), act, pas;
    e(k) = 1.0; y((k + 1) % 3) = 1.0; z((k + 2) % 3) = 1.0;
    act = c * y + s * z; pas = c * y - s * z;
    Q a = Q::from_axis_angle(e, t);
    SAME3(a.rota(y), act, "rotation about an axis, active"); SAME3(a.rotp(y), pas, "rotation about an axis, passive");
    Q h = Q::from_axis_angle(e, 2.0 * t), b = a * a;
    SAME4(h, b, "turning twice");
  }
}
CONTRACT(exp_small, "") {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n <= 3.9e-6 && cos(n / 2.0) > 0.5);    // (a fact of trigonometry)
  Q a = Q::exp(w);
  ENSURES_REAL(a.w() * a.w() + a.x() * a.x() + a.y() * a.y() + a.z() * a.z(), 1.0, "exp gives a unit quaternion");
  double n2 = n * n, k = 0.5 - n2 / 48.0 + n2 * n2 / 3840.0;      // sin(n/2)/n
  for (int i = 0; i < 3; ++i) ENSURES_REAL(a[i + 1] * cos(n / 2.0), a.w() * (k * w(i)), "exp near zero has the series of the sine");
}
CONTRACT(so3_exp_small, "") {
  Vec3 w = anyv("wx", "wy", "wz");
  double t = w.squaredNorm();
  REQUIRES(t < 3.9e-6);
  Mat3 A = R3::exp(w).matrix();
  double a = 1.0 - t / 6.0 + t * t / 120.0, b = 0.5 - t / 24.0 + t * t / 720.0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double sk = i == j ? 0.0 : ((j - i + 3) % 3 == 1 ? -w(3 - i - j) : w(3 - i - j));
    ENSURES_REAL(A(i, j), (i == j ? 1.0 - b * t : 0.0) + a * sk + b * (w(i) * w(j)), "exp near zero has the series of sine and cosine");
  }
}
CONTRACT(log_exp, "") {
  V4 p = any4(PN); unit(p);
  Q a(p.w, p.x, p.y, p.z);
  REQUIRES(p.x * p.x + p.y * p.y + p.z * p.z > 1e-10);
  Vec3 l = a.log();
  double m = l.norm();
  REQUIRES(m > 4.1e-6);
  SAME4(Q::exp(l), a, "exp is the inverse of log");
}
CONTRACT(log_small, "") {
  V4 p = any4(PN); unit(p);
  double n2 = p.x * p.x + p.y * p.y + p.z * p.z;
  REQUIRES(sqrt(n2) < 3.9e-6 && (p.w > 0.5 || p.w < -0.5));
  Q a(p.w, p.x, p.y, p.z);
  double k = 1.0 / p.w - n2 / (3.0 * p.w * p.w * p.w) + n2 * n2 / (5.0 * p.w * p.w * p.w * p.w * p.w);
  Vec3 l = a.log();
  ENSURES_REAL(l(0), 2.0 * (k * p.x), "log near zero has the series of the arc tangent"); ENSURES_REAL(l(1), 2.0 * (k * p.y), "log near zero has the series of the arc tangent"); ENSURES_REAL(l(2), 2.0 * (k * p.z), "log near zero has the series of the arc tangent");
}
CONTRACT(so3_log, "") {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 0.0021 && n < 3.1414);
  REQUIRES(sin(n) > 1e-4 && cos(n) < 1 - 1e-6 && cos(n) > -1 + 1e-8);     // facts of trigonometry
  SAME3(R3::exp(w).log(), w, "log is the inverse of exp");
}
CONTRACT(so3_log_exp, "") {
  V4 p; p.x = vc::any<double>("px"); p.y = vc::any<double>("py"); p.z = vc::any<double>("pz"); p.w = vc::any<double>("pw"); unit(p);
  Q a(p.w, p.x, p.y, p.z);
  R3 S(a);
  double t = S.matrix().trace();
  REQUIRES(t < 3.0 - 1e-5);
  Vec3 l = S.log();
  REQUIRES(l.squaredNorm() > 4.1e-6);          // holds: the angle is at least acos(1 - 5e-6)
  Mat3 A = R3::exp(l).matrix();
  SAME33(A, S.matrix(), "exp is the inverse of log");
}
CONTRACT(from_matrix, "") {
  V4 p = any4(PN); unit(p);
  Q a(p.w, p.x, p.y, p.z);
  R3 S(a);
  Q b = Q::from_R(S.matrix()), c = S.q(), d(S);
  for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) ENSURES_REAL(b[i] * b[j], a[i] * a[j], "the quaternion of a matrix is the one it was made of, up to sign");
  SAME4(c, b, "q() is from_R"); SAME4(d, b, "conversion is from_R");
}
CONTRACT(euler, "") {
  double r = vc::any<double>("roll"), p = vc::any<double>("pitch"), y = vc::any<double>("yaw");
  const double pi = 3.141592653589793;
  REQUIRES(r > -pi && r <= pi && y > -pi && y <= pi && p > -pi / 2 && p < pi / 2);
  REQUIRES(cos(p) > 0.0 && sin(p) < 1.0 && sin(p) > -1.0);      // facts of trigonometry
  Q a = Q::from_euler(r, p, y), b(r, p, y);
  SAME4(a, b, "one convention");
  ENSURES_REAL(a.w() * a.w() + a.x() * a.x() + a.y() * a.y() + a.z() * a.z(), 1.0, "a unit quaternion");
  ENSURES_REAL(a.roll(), r, "the roll angle is found again"); ENSURES_REAL(a.pitch(), p, "the pitch angle is found again"); ENSURES_REAL(a.yaw(), y, "the yaw angle is found again");
  Vec3 e = a.euler();
  ENSURES_REAL(e(0), r, "the roll angle is found again"); ENSURES_REAL(e(1), p, "the pitch angle is found again"); ENSURES_REAL(e(2), y, "the yaw angle is found again");
  // yaw about z first, then pitch about the new y, then roll about the new x
  Q z = Q::from_axis_angle(e_z, y), yy = Q::from_axis_angle(e_y, p), x = Q::from_axis_angle(e_x, r);
  SAME4(z * yy * x, a, "yaw, pitch and roll in turn");
}
CONTRACT(two_vectors, "") {
  Vec3 u = anyv("ux", "uy", "uz"), v = anyv("vx", "vy", "vz");
  unit3(u);
  unit3(v);
  REQUIRES(u.cross(v).norm() > 1e-9);
  Q a = Q::from_two_unit_vectors(u, v);
  SAME3(a.rotp(u), v, "the first vector is taken to the second"); SAME3(a.rota(v), u, "the first vector is taken to the second");
}
CONTRACT(so3_two_vectors, "") {
  Vec3 u = anyv("ux", "uy", "uz"), v = anyv("vx", "vy", "vz");
  unit3(u);
  unit3(v);
  double sn = u.cross(v).norm(), an = atan2(sn, u.dot(v));
  REQUIRES(sn > 1e-1 && an > 0.0 && an * an > 1e-4);
  R3 S = R3::from_two_unit_vectors(u, v);
  SAME3(S.rotp(u), v, "the first vector is taken to the second"); SAME3(S.rota(v), u, "the first vector is taken to the second");
}
CONTRACT(two_equal_vectors, "") {
  Vec3 u = anyv("ux", "uy", "uz");
  unit3(u);
  Vec3 m = -u;
  SAME4(Q::from_two_unit_vectors(u, u), Q::Identity(), "equal vectors");
  SAME3(Q::from_two_unit_vectors(u, m).rotp(u), m, "opposite vectors");
  SAME33(R3::from_two_unit_vectors(u, u).matrix(), Mat3::Identity(), "equal vectors");
}
CONTRACT(exp_log_quat, "") {
  Vec3 w = anyv("wx", "wy", "wz");
  double n = w.norm();
  REQUIRES(n > 4.1e-6 && n < 3.14159265);
  REQUIRES(sin(n / 2.0) > 1.1e-6);     // a fact of trigonometry
  Q a = Q::exp(w);
  
  ENSURES_REAL(a.w() * a.w() + a.x() * a.x() + a.y() * a.y() + a.z() * a.z(), 1.0, "exp gives a unit quaternion");
  double k = sin(n / 2.0) / n;
  ENSURES_REAL(a.w(), cos(n / 2.0), "half the angle"); for (int i = 0; i < 3; ++i) ENSURES_REAL(a[i + 1], k * w(i), "along the axis");
}
CONTRACT(members, "") {
  V4 p = any4(PN), q = any4(QN); double s = vc::any<double>("s");
  Q a(p.w, p.x, p.y, p.z), b(q.w, q.x, q.y, q.z);
  SAME4(a + b, Q(p.w + q.w, p.x + q.x, p.y + q.y, p.z + q.z), "sum"); SAME4(a - b, Q(p.w - q.w, p.x - q.x, p.y - q.y, p.z - q.z), "difference");
  SAME4(a * s, Q(s * p.w, s * p.x, s * p.y, s * p.z), "multiple"); SAME4(s * a, a * s, "multiple");
  SAME4(a.copy(), a, "copy"); SAME4(a.cast<double>(), a, "cast");
  for (int i = 0; i < 4; ++i) { ENSURES_REAL(a.elements()(i), a[i], "elements"); ENSURES_REAL(a.data()[i], a[i], "elements"); }
  for (int i = 0; i < 3; ++i) ENSURES_REAL(a.bar()(i), a[i + 1], "vector part");
  ENSURES_REAL(a.norm() * a.norm(), p.w * p.w + p.x * p.x + p.y * p.y + p.z * p.z, "norm");
  Q c(a); c = b; SAME4(c, b, "assignment"); c = a.arr_; SAME4(c, a, "assignment");
  Q i(a); Q& r = i.invert(); SAME4(i, a.inverse(), "invert is inverse"); ENSURES(&r == &i, "invert returns the quaternion");
  double mem[4] = {p.w, p.x, p.y, p.z}; Q m(mem); SAME4(m, a, "made of four numbers"); Eigen::Map<Eigen::Matrix<double, 4, 1>> mm(mem); Q f(mm); SAME4(f, a, "made of four numbers");
  Eigen::Vector3d v = anyv("vx", "vy", "vz"); SAME4(Q::make_pure(v), Q(0.0, v.x(), v.y(), v.z()), "a vector as a quaternion");
}
CONTRACT(normalised, "") {
  V4 p = any4(PN); REQUIRES(p.w * p.w + p.x * p.x + p.y * p.y + p.z * p.z > 1e-12); Q a(p.w, p.x, p.y, p.z); double n = a.norm(); REQUIRES(n > 1e-7); Q b(a); b.normalize();
  for (int i = 0; i < 4; ++i) ENSURES_REAL(b[i] * n, a[i], "normalising divides by the norm");
}
