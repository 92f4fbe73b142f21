// C19: the RTK filter: its motion model and measurement models are the equations, their Jacobians are the derivatives.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ generate: $GEN/core/ekf: python3 $REPO/core/ekf/ekf_gen/ekf_gen.py --config_file $REPO/core/ekf/rtk_ekf.yaml --destination $GEN/core/ekf
//@ flags: -I$GEN -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=100
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator<char>|^std::__new_allocator<char> => nop
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp $REPO/utils/wgs84.cxx
//@ sources: $REPO/common/utctime.cxx $REPO/common/quantized_time.cxx
//@ stub: ^.*Eigen::internal::stable_norm_impl< => vcs_norm
//@ assume: Eigen's stableNorm is the norm
#include "ekf_util.h"
CONTRACT(dynamics, "tol=1e-6") {
  Any s; any_ekf(s, 2); ErrorState d = dynamics(s.x, s.u, nullptr, nullptr);
  Vec3 w = s.u.gyro - s.x.gyro_bias, f = s.u.accel - s.x.acc_bias, g = s.a.P * Vec3(0, 0, G), c = w.cross(s.x.vel);
  for (int i = 0; i < 3; ++i) {
    ENSURES_REAL(d.pose(i), w(i), "the attitude turns by the measured rate without its bias");
    ENSURES_REAL(d.pose(3 + i), s.x.vel(i), "the position moves by the velocity");
    ENSURES_REAL(d.vel(i), f(i) + g(i) - c(i), "the velocity changes by specific force, gravity and the turning of the body");
    ENSURES_REAL(d.acc_bias(i), 0.0, "biases are constant"); ENSURES_REAL(d.gyro_bias(i), 0.0, "biases are constant"); ENSURES_REAL(d.p_b2g(i), 0.0, "the lever arm is constant");
  }
  for (int i = 0; i < 6; ++i) ENSURES_REAL(d.T_I2e(i), 0.0, "the navigation frame is constant");
  ENSURES_REAL(d.gps_clk(0), s.x.gps_clk(1), "clock drift"); ENSURES_REAL(d.gal_clk(0), s.x.gal_clk(1), "clock drift"); ENSURES_REAL(d.glo_clk(0), s.x.glo_clk(1), "clock drift");
  ENSURES_REAL(d.gps_clk(1), 0.0, "constant drift"); ENSURES_REAL(d.gal_clk(1), 0.0, "constant drift"); ENSURES_REAL(d.glo_clk(1), 0.0, "constant drift");
  for (int i = 0; i < 2; ++i) ENSURES_REAL(d.sd(i)(0), 0.0, "ambiguities are constant");
}
// how an error of the state grows: Ad = the derivative of the motion model in the charts of small motions
static Eigen::Matrix4d hat(const Vec6& v) { Eigen::Matrix4d m; m << 0, -v(2), v(1), v(3), v(2), 0, -v(0), v(4), -v(1), v(0), 0, v(5), 0, 0, 0, 0; return m; }
static void column(const ErrorState& d, double* col, int j, bool is_pose, int k) {   // the difference of two rates of a pose, seen in the chart of the error
  if (is_pose) { Vec6 e = Vec6::Unit(k); Eigen::Matrix4d E = hat(e), X = hat(d.pose), m = E * X - X * E; col[0] += m(2, 1); col[1] += m(0, 2); col[2] += m(1, 0); col[3] += m(0, 3); col[4] += m(1, 3); col[5] += m(2, 3); }
}
static double entry(const ErrorState& d, int i) { return i < 6 ? d.pose(i) : i < 9 ? d.vel(i - 6) : i < 12 ? d.acc_bias(i - 9) : i < 15 ? d.gyro_bias(i - 12) : i < 17 ? d.gps_clk(i - 15) : i < 19 ? d.gal_clk(i - 17) : i < 21 ? d.glo_clk(i - 19) : i < 24 ? d.p_b2g(i - 21) : i < 30 ? d.T_I2e(i - 24) : d.sd(i - 30)(0); }
static const char* const NX[] = {"v0", "v1", "v2", "ba0", "ba1", "ba2", "bg0", "bg1", "bg2", "gps0", "gps1", "gal0", "gal1", "glo0", "glo1", "l0", "l1", "l2"};
CONTRACT(dynamics_jacobian, "tol=1e-5") {
  Any s; any_ekf(s, 1); StateJac A; InputJac B; ErrorState d = dynamics(s.x, s.u, &A, &B); Eigen::MatrixXd DA = A.dense(1), DB = B.dense(1);
  for (int i = 0; i < 31; ++i) {
    double r = entry(d, i), p[6], q[6]; by_motion(r, s.a, p); by_motion(r, s.e, q);
    for (int k = 0; k < 6; ++k) {
      if (i < 6) { Vec6 e = Vec6::Unit(k); Eigen::Matrix4d m = hat(e) * hat(d.pose) - hat(d.pose) * hat(e); p[k] = p[k] + (i == 0 ? m(2, 1) : i == 1 ? m(0, 2) : i == 2 ? m(1, 0) : m(i - 3, 3)); }
      ENSURES_REAL(DA(i, k), p[k], "by the pose"); ENSURES_REAL(DA(i, 24 + k), q[k], "by the navigation frame");
    }
    for (int k = 0; k < 18; ++k) ENSURES_REAL(DA(i, 6 + k), vc_deriv(r, NX[k]), "by velocity, biases, clocks and lever arm");
    ENSURES_REAL(DA(i, 30), vc_deriv(r, "sd0"), "by the ambiguities");
    for (int k = 0; k < 3; ++k) { ENSURES_REAL(DB(i, k), vc_deriv(r, N_ACC[k]), "by the accelerometer"); ENSURES_REAL(DB(i, 3 + k), vc_deriv(r, N_GYR[k]), "by the gyroscope"); }
  }
  ENSURES(DA.rows() == 31 && DA.cols() == 31 && DB.rows() == 31 && DB.cols() == 6, "sizes");
}
CONTRACT(error_dynamics, "tol=1e-5") {     // the linear error dynamics are those of the Jacobians
  Any s; any_ekf(s); StateJac A; InputJac B; dynamics(s.x, s.u, &A, &B); Eigen::MatrixXd DA = A.dense(0), DB = B.dense(0);
  Eigen::Matrix<double, 60, 1> d; d.setZero(); for (int i = 0; i < 30; ++i) { char b[8] = "d00"; b[1] = '0' + i / 10; b[2] = '0' + i % 10; d(i) = small(b, 1); }
  Input n; static const char* const NN[] = {"n0", "n1", "n2", "n3", "n4", "n5"}; for (int i = 0; i < 3; ++i) { n.accel(i) = small(NN[i], 1); n.gyro(i) = small(NN[3 + i], 1); }
  ErrorState e = errorStateDynamics(ErrorState::fromDense(d), s.x, s.u, n);
  for (int i = 0; i < 30; ++i) {
    double r = 0; for (int k = 0; k < 30; ++k) r = r + DA(i, k) * d(k);
    for (int k = 0; k < 3; ++k) r = r + DB(i, k) * n.accel(k) + DB(i, 3 + k) * n.gyro(k);
    ENSURES_REAL(entry(e, i), r, "error state dynamics = Jacobians times error and noise");
  }
}
static void antenna(const Any& s, Vec3& p, Vec3& v) {     // position and velocity of the antenna in the earth frame
  Vec3 pn = s.a.P.transpose() * s.x.p_b2g; pn = pn + s.a.t; Vec3 dp = pn - s.e.t; p = s.e.P * dp;
  Vec3 vb = s.u.gyro.cross(s.x.p_b2g) + s.x.vel, vn = s.a.P.transpose() * vb; v = s.e.P * vn;
}
// a row of a Jacobian by a motion equals the derivative; translations are compared along the axes of the reference frame (P is orthonormal)
#define BY_POSE(r, m, row, what) { double d_[6]; by_motion(r, m, d_); for (int k = 0; k < 6; ++k) ENSURES_REAL((row)(k), d_[k], what); }
#define BY_FRAME(r, m, row, what) { double d_[6]; by_motion(r, m, d_); for (int k = 0; k < 3; ++k) ENSURES_REAL((row)(k), d_[k], what); \
  for (int k = 0; k < 3; ++k) { if (vc_is_ir()) ENSURES_REAL((row)(3) * m.P(0, k) + (row)(4) * m.P(1, k) + (row)(5) * m.P(2, k), vc_deriv(r, m.n[9 + k]), what); else ENSURES_REAL((row)(3 + k), d_[3 + k], what); } }
static const char *const N_Z[] = {"z0", "z1", "z2", "z3", "z4", "z5"};
CONTRACT(point_position, "tol=1e-5") {
  Any s; any_ekf(s); Vec6 z; for (int i = 0; i < 6; ++i) z(i) = small(N_Z[i], 10); pointPosMeas::Jac J;
  Vec6 r = h<pointPosMeas>(z, s.x, nullptr, s.u), r2 = h<pointPosMeas>(z, s.x, &J, s.u); Vec3 p, v; antenna(s, p, v); Eigen::MatrixXd D = J.dense(1);
  for (int i = 0; i < 6; ++i) {
    ENSURES_REAL(r(i), z(i) - (i < 3 ? p(i) : v(i - 3)), "measured minus expected position and velocity of the antenna"); ENSURES_REAL(r2(i), r(i), "the same with Jacobians");
    Vec6 ja = D.block<1, 6>(i, 0).transpose(), je = D.block<1, 6>(i, 24).transpose(); BY_POSE(r(i), s.a, ja, "by the pose"); BY_FRAME(r(i), s.e, je, "by the navigation frame");
    for (int k = 0; k < 18; ++k) ENSURES_REAL(D(i, 6 + k), vc_deriv(r(i), NX[k]), "by velocity, biases, clocks and lever arm");
    ENSURES_REAL(D(i, 30), 0.0, "by the ambiguities");
  }
}

// pseudorange and Doppler of up to two satellites
static const char* const SN[2][14] = {{"ax", "ay", "az", "avx", "avy", "avz", "ac0", "ac1", "asag", "aion", "atro", "az0", "az1", "aid"}, {"bx", "by", "bz", "bvx", "bvy", "bvz", "bc0", "bc1", "bsag", "bion", "btro", "bz0", "bz1", "bid"}};
struct Sats { satellite::SatelliteCache c[2]; Vec2 z[2]; int id[2]; obsMeas::ZType zz; };
static void any_sats(Sats& s, int n, int id, double far = 50, double fast = 5) {
  for (int k = 0; k < n; ++k) {
    const char* const* N = SN[k]; satellite::SatelliteCache& c = s.c[k];
    c.state.pos = smallv(N, far); c.state.vel = smallv(N + 3, fast); c.state.clk = Vec2(small(N[6], 1e-8), small(N[7], 1e-8)); c.sagnac = small(N[8], 2); c.atm.ionospheric_delay_m = small(N[9], 10); c.atm.tropospheric_delay_m = small(N[10], 10);
    s.z[k] = Vec2(small(N[11], 20), small(N[12], 20)); s.id[k] = (id + k) % 3;
    s.zz.push_back({s.z[k], c, s.id[k] == 0 ? GnssID::GPS : s.id[k] == 1 ? GnssID::Galileo : GnssID::Glonass});
  }
}
static double clk(const State& x, int id, int i) { return id == 0 ? x.gps_clk(i) : id == 1 ? x.gal_clk(i) : x.glo_clk(i); }
template <int ID> static void observation_residual() {
  Any s; any_ekf(s, 0, 6e6); Sats o; any_sats(o, 2, ID, 2e7, 4e3); Vec3 p, v; antenna(s, p, v);
  obsMeas::Jac J; obsMeas::Residual r = h<obsMeas>(o.zz, s.x, nullptr, s.u), r2 = h<obsMeas>(o.zz, s.x, &J, s.u);
  for (int k = 0; k < 2; ++k) {
    satellite::SatelliteCache& c = o.c[k]; Vec3 los = c.state.pos - p, dv = c.state.vel - v; double n = los.norm(); REQUIRES(n > 1.0);
    double range = n + c.sagnac + c.atm.ionospheric_delay_m + c.atm.tropospheric_delay_m + CL * (clk(s.x, o.id[k], 0) / 1e9 - c.state.clk(0));
    double rate = dv.dot(los) / n + OE / CL * (c.state.vel.y() * p.x() + c.state.pos.y() * v.x() - c.state.vel.x() * p.y() - c.state.pos.x() * v.y()) + CL * (clk(s.x, o.id[k], 1) / 1e9 - c.state.clk(1));
    ENSURES_REAL(r(2 * k), o.z[k](0) - range, "measured minus expected pseudorange: geometry, Sagnac, atmosphere and the clock of its system");
    ENSURES_REAL(r(2 * k + 1), o.z[k](1) - rate, "measured minus expected Doppler: rate along the line of sight, Sagnac and clock rates");
    for (int i = 0; i < 2; ++i) ENSURES_REAL(r2(2 * k + i), r(2 * k + i), "the same with Jacobians");
  }
}
CONTRACT(observation_gps, "tol=1e-5") { observation_residual<0>(); }
CONTRACT(observation_galileo, "tol=1e-5") { observation_residual<1>(); }
CONTRACT(observation_glonass, "tol=1e-5") { observation_residual<2>(); }
template <int ID, int I> static void observation_jacobian() {
  Any s; any_ekf(s); Sats o; any_sats(o, 2, ID); Vec3 p, v; antenna(s, p, v); const int k = 1;       // the second one (its rows follow those of the first)
  Vec3 L = o.c[k].state.pos; REQUIRES(L.norm() > 1.0); if (I) { o.c[k].state.pos = p + L; o.c[0].state.pos = p + L; }      // any position, given by the line of sight
  obsMeas::Jac J; obsMeas::Residual r = h<obsMeas>(o.zz, s.x, &J, s.u); Eigen::MatrixXd D = J.dense(2, 1);
  // Doppler: the line of sight is held fixed and the Sagnac rate (some 1e-5 of it) is left out
  double y = I ? L.dot(v) / L.norm() - CL * (clk(s.x, o.id[k], 1) / 1e9) : r(2 * k); Vec6 ja = D.block<1, 6>(2 * k + I, 0).transpose(), je = D.block<1, 6>(2 * k + I, 24).transpose();
  if (!I) { Vec3 los = o.c[k].state.pos - p, l0 = o.c[0].state.pos - p; REQUIRES(los.norm() > 1.0 && l0.norm() > 1.0); }
  BY_POSE(y, s.a, ja, I ? "Doppler by the pose" : "range by the pose"); BY_FRAME(y, s.e, je, I ? "Doppler by the navigation frame" : "range by the navigation frame");
  for (int m = 0; m < 18; ++m) ENSURES_REAL(D(2 * k + I, 6 + m), vc_deriv(y, NX[m]), I ? "Doppler by velocity, biases, clocks and lever arm" : "range by velocity, biases, clocks and lever arm");
  ENSURES_REAL(D(2 * k + I, 30), 0.0, "by the ambiguities");
}
CONTRACT(range_jacobian_gps, "tol=1e-5") { observation_jacobian<2, 0>(); }
CONTRACT(range_jacobian_galileo, "tol=1e-5") { observation_jacobian<0, 0>(); }
CONTRACT(range_jacobian_glonass, "tol=1e-5") { observation_jacobian<1, 0>(); }
CONTRACT(doppler_jacobian_gps, "tol=1e-5") { observation_jacobian<2, 1>(); }
CONTRACT(doppler_jacobian_galileo, "tol=1e-5") { observation_jacobian<0, 1>(); }
CONTRACT(doppler_jacobian_glonass, "tol=1e-5") { observation_jacobian<1, 1>(); }
template <int N> static void fix_and_hold() {
  Any s; any_ekf(s, N); fixAndHoldMeas::ZType z(N); Vec3 zz = smallv(N_Z, 3); for (int i = 0; i < N; ++i) z[i](0) = zz(i);
  fixAndHoldMeas::Jac J; fixAndHoldMeas::Residual r = h<fixAndHoldMeas>(z, s.x, nullptr), r2 = h<fixAndHoldMeas>(z, s.x, &J);
  for (int i = 0; i < N; ++i) {
    ENSURES_REAL(r(i), zz(i) - s.x.sd[i](0), "held minus estimated ambiguity"); ENSURES_REAL(r2(i), r(i), "the same with Jacobians");
    for (int k = 0; k < N; ++k) ENSURES_REAL(J.dSd_all(N, N)(i, k), i == k ? -1.0 : 0.0, "Jacobian");
  }
}
CONTRACT(fix_and_hold_1, "tol=1e-9") { fix_and_hold<1>(); }
CONTRACT(fix_and_hold_3, "tol=1e-9") { fix_and_hold<3>(); }


// ---- states form a manifold: copies, increments and differences
static void any_delta(ErrorState& d, int n) { Eigen::Matrix<double, 60, 1> v; v.setZero(); for (int i = 0; i < 30 + n; ++i) { char b[8] = "d00"; b[1] = '0' + i / 10; b[2] = '0' + i % 10; v(i) = small(b, i < 3 ? 0.5 : 2); } d = ErrorState::fromDense(v); }
#define SAME_REST(a, b, what) { for (int i = 0; i < 3; ++i) { ENSURES_REAL((a).vel(i), (b).vel(i), what); ENSURES_REAL((a).acc_bias(i), (b).acc_bias(i), what); ENSURES_REAL((a).gyro_bias(i), (b).gyro_bias(i), what); ENSURES_REAL((a).p_b2g(i), (b).p_b2g(i), what); } \
  for (int i = 0; i < 2; ++i) { ENSURES_REAL((a).gps_clk(i), (b).gps_clk(i), what); ENSURES_REAL((a).gal_clk(i), (b).gal_clk(i), what); ENSURES_REAL((a).glo_clk(i), (b).glo_clk(i), what); } }
template <int N> static void state_copy() {
  Any s; any_ekf(s, N); s.x.t.sec = vc::any<int64_t>("sec"); s.x.t.nsec = vc::any<int64_t>("nsec"); State y(s.x), z; z = s.x; const State* c[2] = {&y, &z};
  for (int k = 0; k < 2; ++k) {
    const State& w = *c[k]; ENSURES(w.t.sec == s.x.t.sec && w.t.nsec == s.x.t.nsec, "a copy has the time of the original"); ENSURES(w.num_sd == N, "a copy has all ambiguities");
    SAME_MOTION(w.pose, s.x.pose, "the pose is copied"); SAME_MOTION(w.T_I2e, s.x.T_I2e, "the frame is copied"); SAME_REST(w, s.x, "the rest is copied"); for (int i = 0; i < N; ++i) ENSURES_REAL(w.sd[i](0), s.x.sd[i](0), "ambiguities are copied");
  }
}
CONTRACT(state_copy, "tol=1e-9") { state_copy<2>(); }
CONTRACT(state_copy_full, "tol=1e-9 tier=thorough") { state_copy<30>(); }
template <int N, int IN_PLACE> static void state_increment() {
  Any s; any_ekf(s, N); ErrorState d; any_delta(d, N); any_exp(); State y; if (IN_PLACE) { y = s.x; y += d; } else y = s.x + d;
  SAME_MOTION(y.pose, s.x.pose * exp_of(d.pose, 0), "pose moved by the increment on the right"); SAME_MOTION(y.T_I2e, s.x.T_I2e * exp_of(d.T_I2e, 1), "frame moved by the increment on the right");
  ErrorState e, x; e.setZero(); for (int i = 0; i < 3; ++i) { e.vel(i) = s.x.vel(i) + d.vel(i); e.acc_bias(i) = s.x.acc_bias(i) + d.acc_bias(i); e.gyro_bias(i) = s.x.gyro_bias(i) + d.gyro_bias(i); e.p_b2g(i) = s.x.p_b2g(i) + d.p_b2g(i); }
  for (int i = 0; i < 2; ++i) { e.gps_clk(i) = s.x.gps_clk(i) + d.gps_clk(i); e.gal_clk(i) = s.x.gal_clk(i) + d.gal_clk(i); e.glo_clk(i) = s.x.glo_clk(i) + d.glo_clk(i); }
  SAME_REST(y, e, "sum of state and increment"); for (int i = 0; i < N; ++i) ENSURES_REAL(y.sd[i](0), s.x.sd[i](0) + d.sd(i)(0), "ambiguities plus increment"); ENSURES(y.num_sd == N, "number of ambiguities");
}
CONTRACT(state_plus, "tol=1e-8") { state_increment<2, 0>(); }
CONTRACT(state_plus_in_place, "tol=1e-8") { state_increment<2, 1>(); }
CONTRACT(state_plus_full, "tol=1e-8 tier=thorough") { state_increment<30, 0>(); }
