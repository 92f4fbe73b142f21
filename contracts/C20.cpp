// C20: one step of prediction of the RTK filter: state and covariance.
//@ assume: floating-point arithmetic is read as exact real arithmetic
//@ generate: $GEN/core/ekf: python3 $REPO/core/ekf/ekf_gen/ekf_gen.py --config_file $REPO/core/ekf/rtk_ekf.yaml --destination $GEN/core/ekf
//@ flags: -I$GEN -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=100
//@ stub: ^mc::check\( => vcs_check
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator<char>|^std::__new_allocator<char> => nop
//@ native_sources: $REPO/common/print.cxx $VERIF/irvc/check_native.cpp $REPO/utils/wgs84.cxx
//@ sources: $REPO/common/utctime.cxx $REPO/common/quantized_time.cxx
//@ stub: ^.*Eigen::internal::stable_norm_impl< => vcs_norm
//@ assume: Eigen's stableNorm is the norm
//@ stub: ^.*Eigen::internal::Assignment<Eigen::Block<.*Eigen::Inverse<.*::run => vcs_inverse_block
//@ stub: ^.*Eigen::internal::Assignment<Eigen::Matrix<double, 6, 6.*Eigen::Inverse<.*::run => vcs_inverse_6
//@ stub: ^.*mc::ekf::h<mc::ekf::pointPosMeas => vcs_h_point
//@ assume: Eigen's inverse of a matrix is its inverse
//@ stub: ^mc::ekf::dynamics\( => vcs_dynamics
//@ stub: ^(bool )?mc::isFinite\(|^(bool )?mc::isFinite< => vcs_finite
//@ cells: 200000
#define EKF_STEP
#include "ekf_util.h"
// ---- one step of prediction: the state moves by its rate, the covariance by the second-order transition matrix
extern "C" __attribute__((used)) bool vcs_finite(const void*) { return true; }      // (numbers are real numbers here)
static const char* const nm(const char* p, int i, int j) { static char b[400][8]; static int k = 0; char* c = b[k++ % 400]; c[0] = p[0]; c[1] = '0' + i / 10; c[2] = '0' + i % 10; c[3] = '0' + j / 10; c[4] = '0' + j % 10; c[5] = 0; return c; }
static int dense_size(int n) { return 30 + n; }
// fill a covariance from a symmetric matrix
static void set_cov(Covariance& c, const Eigen::MatrixXd& P, int n) {
  c.pose_pose = P.block(0, 0, 6, 6); c.pose_vel = P.block(0, 6, 6, 3); c.pose_accBias = P.block(0, 9, 6, 3); c.pose_gyroBias = P.block(0, 12, 6, 3); c.pose_gpsClk = P.block(0, 15, 6, 2); c.pose_galClk = P.block(0, 17, 6, 2); c.pose_gloClk = P.block(0, 19, 6, 2); c.pose_pB2g = P.block(0, 21, 6, 3); c.pose_TI2e = P.block(0, 24, 6, 6);
  c.vel_vel = P.block(6, 6, 3, 3); c.vel_accBias = P.block(6, 9, 3, 3); c.vel_gyroBias = P.block(6, 12, 3, 3); c.vel_gpsClk = P.block(6, 15, 3, 2); c.vel_galClk = P.block(6, 17, 3, 2); c.vel_gloClk = P.block(6, 19, 3, 2); c.vel_pB2g = P.block(6, 21, 3, 3); c.vel_TI2e = P.block(6, 24, 3, 6);
  c.accBias_accBias = P.block(9, 9, 3, 3); c.accBias_gyroBias = P.block(9, 12, 3, 3); c.accBias_gpsClk = P.block(9, 15, 3, 2); c.accBias_galClk = P.block(9, 17, 3, 2); c.accBias_gloClk = P.block(9, 19, 3, 2); c.accBias_pB2g = P.block(9, 21, 3, 3); c.accBias_TI2e = P.block(9, 24, 3, 6);
  c.gyroBias_gyroBias = P.block(12, 12, 3, 3); c.gyroBias_gpsClk = P.block(12, 15, 3, 2); c.gyroBias_galClk = P.block(12, 17, 3, 2); c.gyroBias_gloClk = P.block(12, 19, 3, 2); c.gyroBias_pB2g = P.block(12, 21, 3, 3); c.gyroBias_TI2e = P.block(12, 24, 3, 6);
  c.gpsClk_gpsClk = P.block(15, 15, 2, 2); c.gpsClk_galClk = P.block(15, 17, 2, 2); c.gpsClk_gloClk = P.block(15, 19, 2, 2); c.gpsClk_pB2g = P.block(15, 21, 2, 3); c.gpsClk_TI2e = P.block(15, 24, 2, 6);
  c.galClk_galClk = P.block(17, 17, 2, 2); c.galClk_gloClk = P.block(17, 19, 2, 2); c.galClk_pB2g = P.block(17, 21, 2, 3); c.galClk_TI2e = P.block(17, 24, 2, 6);
  c.gloClk_gloClk = P.block(19, 19, 2, 2); c.gloClk_pB2g = P.block(19, 21, 2, 3); c.gloClk_TI2e = P.block(19, 24, 2, 6);
  c.pB2g_pB2g = P.block(21, 21, 3, 3); c.pB2g_TI2e = P.block(21, 24, 3, 6); c.TI2e_TI2e = P.block(24, 24, 6, 6);
  if (n) { c.pose_sd(n) = P.block(0, 30, 6, n); c.vel_sd(n) = P.block(6, 30, 3, n); c.accBias_sd(n) = P.block(9, 30, 3, n); c.gyroBias_sd(n) = P.block(12, 30, 3, n); c.gpsClk_sd(n) = P.block(15, 30, 2, n); c.galClk_sd(n) = P.block(17, 30, 2, n); c.gloClk_sd(n) = P.block(19, 30, 2, n); c.pB2g_sd(n) = P.block(21, 30, 3, n); c.TI2e_sd(n) = P.block(24, 30, 6, n); c.sd_sd(n) = P.block(30, 30, n, n); }
}
// any covariance
static void any_cov(Eigen::MatrixXd& P, int N) { for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { double v = small(nm("P", j, i), 1.0); P(i, j) = v; P(j, i) = v; } }

// the motion model: any rates and any Jacobians (its own contracts are in C19)
static StateJac g_A; static InputJac g_B; static ErrorState g_xdot; static State g_x; static Input g_u;
extern "C" __attribute__((used)) void vcs_dynamics(ErrorState* out, const State* x, const Input* u, StateJac* A, InputJac* B) { g_x = *x; g_u = *u; *out = g_xdot; if (A) *A = g_A; if (B) *B = g_B; }
template <class M> static void fill(M& m, const char* p, int& k) { for (int i = 0; i < (int)m.rows(); ++i) for (int j = 0; j < (int)m.cols(); ++j) m(i, j) = small(nm(p, k / 100, k % 100), 1.0), ++k; }
static void any_dynamics(Snapshot& s, Input& u, int n) {
  Any a; any_ekf(a, n); a.x.t.sec = 1000; a.x.t.nsec = 0; s.x = a.x; u = a.u; for (int i = 0; i < 3; ++i) { s.u.accel(i) = small(nm("U", 0, i), 10); s.u.gyro(i) = small(nm("U", 1, i), 1); }
  if (!vc_is_ir()) { g_xdot = dynamics(s.x, u, &g_A, &g_B); return; }
  int k = 0; fill(g_A.dPose_dPose, "A", k); fill(g_A.dPose_dVel, "A", k); fill(g_A.dPose_dGyroBias, "A", k); fill(g_A.dVel_dPose, "A", k); fill(g_A.dVel_dVel, "A", k); fill(g_A.dVel_dAccBias, "A", k); fill(g_A.dVel_dGyroBias, "A", k);
  fill(g_A.dGpsClk_dGpsClk, "A", k); fill(g_A.dGalClk_dGalClk, "A", k); fill(g_A.dGloClk_dGloClk, "A", k); k = 0; fill(g_B.dPose_dGyro, "B", k); fill(g_B.dVel_dAccel, "B", k); fill(g_B.dVel_dGyro, "B", k);
  k = 0; g_xdot.setZero(); fill(g_xdot.pose, "D", k); fill(g_xdot.vel, "D", k); fill(g_xdot.acc_bias, "D", k); fill(g_xdot.gyro_bias, "D", k); fill(g_xdot.gps_clk, "D", k); fill(g_xdot.gal_clk, "D", k); fill(g_xdot.glo_clk, "D", k); fill(g_xdot.p_b2g, "D", k); fill(g_xdot.T_I2e, "D", k);
  for (int i = 0; i < n; ++i) g_xdot.sd(i)(0) = small(nm("D", 1, i), 1.0);
}
enum { MAXD = 34 };
static double gP[MAXD][MAXD], gA[MAXD][MAXD], gBm[MAXD][6], gF[MAXD][MAXD], gG[MAXD][6], gFP[MAXD][MAXD];
static bool in_a(int i, int j) { return (i < 9 && (j < 9 || (j >= 9 && j < 15 && !(i < 6 && j < 12)))) || (i >= 15 && i < 21 && j >= 15 && j < 21 && (i - 15) / 2 == (j - 15) / 2); }   // where the Jacobian may be other than zero (checked)
static bool in_f(int i, int j) { return i == j || in_a(i, j) || (i < 6 && j >= 9 && j < 12); }
// rows [I0, I1) of the covariance
template <int N, int I0, int I1> static void predict_covariance() {
  const int D = 30 + N; static Snapshot s, o; Input u; any_dynamics(s, u, N); s.x.t.sec = 1000; s.x.t.nsec = 0; UTCTime t; t.sec = 1000; t.nsec = 250000000; const double dt = 0.25;
  Eigen::MatrixXd P(D, D); any_cov(P, D); set_cov(s.cov, P, N); static ProcessCovariance Q; static InputCovariance R; double q[MAXD];
  for (int i = 0; i < D; ++i) q[i] = i > 30 ? q[30] : small(nm("Q", 0, i), 1.0);
  for (int i = 0; i < 6; ++i) { Q.pose(i) = q[i]; Q.TI2e(i) = q[24 + i]; } for (int i = 0; i < 3; ++i) { Q.vel(i) = q[6 + i]; Q.accBias(i) = q[9 + i]; Q.gyroBias(i) = q[12 + i]; Q.pB2g(i) = q[21 + i]; } for (int i = 0; i < 2; ++i) { Q.gpsClk(i) = q[15 + i]; Q.galClk(i) = q[17 + i]; Q.gloClk(i) = q[19 + i]; } Q.sd(0) = N ? q[30] : 0;
  double r[6]; for (int i = 0; i < 3; ++i) { r[i] = R.accel(i) = small(nm("R", 0, i), 1.0); r[3 + i] = R.gyro(i) = small(nm("R", 1, i), 1.0); }
  predict(s, t, u, Q, R, Out<Snapshot>(o));
  Eigen::MatrixXd A = g_A.dense(N), B = g_B.dense(N), C = o.cov.dense(N);
  for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) { gP[i][j] = P(i, j); gA[i][j] = A(i, j); if (!in_a(i, j)) ENSURES(A(i, j) == 0.0, "zeros of the Jacobian"); } for (int j = 0; j < 6; ++j) { gBm[i][j] = B(i, j); if (i >= 9) ENSURES(B(i, j) == 0.0, "zeros of the Jacobian"); } }
  for (int i = 0; i < D; ++i) {
    for (int j = 0; j < D; ++j) { double a2 = 0; for (int k = 0; k < D; ++k) if (in_a(i, k) && in_a(k, j)) a2 = a2 + gA[i][k] * gA[k][j]; gF[i][j] = (i == j ? 1.0 : 0.0) + dt * gA[i][j] + dt * dt / 2.0 * a2; }
    for (int j = 0; j < 6; ++j) { double ab = 0; for (int k = 0; k < 9; ++k) if (in_a(i, k)) ab = ab + gA[i][k] * gBm[k][j]; gG[i][j] = dt * gBm[i][j] + dt * dt / 2.0 * ab; }
  }
  for (int i = I0; i < I1; ++i) for (int j = 0; j < D; ++j) { double v = 0; for (int k = 0; k < D; ++k) if (in_f(i, k)) v = v + gF[i][k] * gP[k][j]; gFP[i][j] = v; }
  for (int i = I0; i < I1; ++i) for (int j = 0; j < D; ++j) {
    double e = i == j ? q[i] : 0.0; for (int k = 0; k < D; ++k) if (in_f(j, k)) e = e + gFP[i][k] * gF[j][k]; if (i < 9 && j < 9) for (int k = 0; k < 6; ++k) e = e + gG[i][k] * r[k] * gG[j][k];
    ENSURES_REAL(C(i, j), e, "predicted covariance = F P F^T + G Qu G^T + Qx with F, G of second order");
  }
  ENSURES(C.rows() == D && C.cols() == D, "size");
}
CONTRACT(predict_covariance_rest, "tol=1e-6") { predict_covariance<0, 9, 30>(); }
CONTRACT(predict_covariance_motion, "tol=1e-6") { predict_covariance<0, 0, 9>(); }
CONTRACT(predict_covariance_sd, "tol=1e-6") { predict_covariance<2, 30, 32>(); }
CONTRACT(predict_state, "tol=1e-6") {
  static Snapshot s, o; Input u; any_dynamics(s, u, 2); s.x.t.sec = 1000; s.x.t.nsec = 0; UTCTime t; t.sec = 1000; t.nsec = 250000000; const double dt = 0.25; static ProcessCovariance Q; static InputCovariance R; Eigen::MatrixXd P(32, 32); P.setZero(); set_cov(s.cov, P, 2); Q.sd(0) = 0;
  State x = s.x; x.num_sd = 2; predict(s, t, u, Q, R, Out<Snapshot>(o));
  if (vc_is_ir()) {      // (natively the real motion model)
    SAME_MOTION(g_x.pose, x.pose, "the rates are those of the state"); SAME_MOTION(g_x.T_I2e, x.T_I2e, "the rates are those of the state");
    for (int i = 0; i < 3; ++i) { ENSURES_REAL(g_x.vel(i), x.vel(i), "the rates are those of the state"); ENSURES_REAL(g_x.acc_bias(i), x.acc_bias(i), "the rates are those of the state"); ENSURES_REAL(g_x.gyro_bias(i), x.gyro_bias(i), "the rates are those of the state"); ENSURES_REAL(g_u.accel(i), u.accel(i), "the rates are those of the new inputs"); ENSURES_REAL(g_u.gyro(i), u.gyro(i), "the rates are those of the new inputs"); }
    for (int i = 0; i < 2; ++i) { ENSURES_REAL(g_x.gps_clk(i), x.gps_clk(i), "the rates are those of the state"); ENSURES_REAL(g_x.gal_clk(i), x.gal_clk(i), "the rates are those of the state"); ENSURES_REAL(g_x.glo_clk(i), x.glo_clk(i), "the rates are those of the state"); }
  }
  ENSURES(o.x.t.sec == 1000 && o.x.t.nsec == 250000000 && o.x.num_sd == 2, "the state is that of the new time");
  for (int i = 0; i < 3; ++i) {
    ENSURES_REAL(o.x.vel(i), x.vel(i) + dt * g_xdot.vel(i), "velocity"); ENSURES_REAL(o.x.acc_bias(i), x.acc_bias(i) + dt * g_xdot.acc_bias(i), "bias"); ENSURES_REAL(o.x.gyro_bias(i), x.gyro_bias(i) + dt * g_xdot.gyro_bias(i), "bias"); ENSURES_REAL(o.x.p_b2g(i), x.p_b2g(i) + dt * g_xdot.p_b2g(i), "lever arm");
    ENSURES_REAL(o.u.accel(i), u.accel(i), "the inputs are kept"); ENSURES_REAL(o.u.gyro(i), u.gyro(i), "the inputs are kept");
  }
  for (int i = 0; i < 2; ++i) { ENSURES_REAL(o.x.gps_clk(i), x.gps_clk(i) + dt * g_xdot.gps_clk(i), "clock"); ENSURES_REAL(o.x.gal_clk(i), x.gal_clk(i) + dt * g_xdot.gal_clk(i), "clock"); ENSURES_REAL(o.x.glo_clk(i), x.glo_clk(i) + dt * g_xdot.glo_clk(i), "clock"); ENSURES_REAL(o.x.sd[i](0), x.sd[i](0) + dt * g_xdot.sd(i)(0), "ambiguity"); }
}

// ---- measurement updates: the gain is P H^T (H P H^T + R)^-1, where the inverse is any symmetric matrix X (what it is the inverse of is part of the contract)
typedef Mat<30, 30> M30;
enum { MAXM = 6 };
static double gX[MAXM][MAXM], gS[MAXM][MAXM], gH[MAXM][MAXD], gPH[MAXD][MAXM], gK[MAXD][MAXM], gr[MAXM]; static int g_invs = 0;
static void any_inverse() { g_invs = 0; for (int i = 0; i < MAXM; ++i) for (int j = 0; j <= i; ++j) { double v = small(nm("X", i, j), 1.0); gX[i][j] = v; gX[j][i] = v; } }
extern "C" __attribute__((used)) void vcs_inverse_block(Eigen::Block<M30, -1, -1, false>* d, const Eigen::Inverse<Eigen::Block<M30, -1, -1, false> >* m, const void*) { ++g_invs; const int n = (int)m->rows(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { gS[i][j] = m->nestedExpression()(i, j); (*d)(i, j) = gX[i][j]; } }
extern "C" __attribute__((used)) void vcs_inverse_6(Mat6* d, const Eigen::Inverse<Mat6>* m, const void*) { ++g_invs; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { gS[i][j] = m->nestedExpression()(i, j); (*d)(i, j) = gX[i][j]; } }
// the model of a point position: any residual, any Jacobian (its own contract is in C19)
static pointPosMeas::Jac g_J; static Vec6 g_res;
extern "C" __attribute__((used)) void vcs_h_point(Vec6* out, const Vec6*, const State*, pointPosMeas::Jac* J, const Input*) { *out = g_res; if (J) *J = g_J; }
// the state and covariance after an update with residual gr, its Jacobian gH and the noise R; rows [I0, I1) of the covariance; in_h: columns of the Jacobian that may be other than zero
template <int N, int M, class F> static void updated(const Snapshot& o, const State& x, const Eigen::MatrixXd& P, const double* R, F in_h, int I0, int I1, bool state) {
  const int D = 30 + N;
  for (int i = 0; i < D; ++i) for (int m = 0; m < M; ++m) { double v = 0; for (int k = 0; k < D; ++k) if (in_h(k)) v = v + P(i, k) * gH[m][k]; gPH[i][m] = v; }
  Eigen::MatrixXd S(M, M); for (int m = 0; m < M; ++m) for (int q = 0; q < M; ++q) { double v = m == q ? R[m] : 0.0; for (int k = 0; k < D; ++k) if (in_h(k)) v = v + gH[m][k] * gPH[k][q]; S(m, q) = v; }
  if (vc_is_ir()) { ENSURES(g_invs == 1, "one inverse is taken"); for (int m = 0; m < M; ++m) for (int q = 0; q < M; ++q) ENSURES_REAL(gS[m][q], S(m, q), "the innovation is H P H^T + R"); }
  else { Eigen::MatrixXd X = S.inverse(); for (int m = 0; m < M; ++m) for (int q = 0; q < M; ++q) gX[m][q] = X(m, q); }
  for (int i = 0; i < D; ++i) for (int m = 0; m < M; ++m) { double v = 0; for (int q = 0; q < M; ++q) v = v + gPH[i][q] * gX[q][m]; gK[i][m] = v; }
  if (state) {
    double d[MAXD]; for (int i = 0; i < D; ++i) { double v = 0; for (int m = 0; m < M; ++m) v = v - gK[i][m] * gr[m]; d[i] = v; }
    Vec6 dp, df; for (int i = 0; i < 6; ++i) { dp(i) = d[i]; df(i) = d[24 + i]; }
    SAME_MOTION(o.x.pose, x.pose * exp_of(dp, 0), "pose moved towards the measurement"); SAME_MOTION(o.x.T_I2e, x.T_I2e * exp_of(df, 1), "frame moved towards the measurement");
    for (int i = 0; i < 3; ++i) { ENSURES_REAL(o.x.vel(i), x.vel(i) + d[6 + i], "velocity"); ENSURES_REAL(o.x.acc_bias(i), x.acc_bias(i) + d[9 + i], "bias"); ENSURES_REAL(o.x.gyro_bias(i), x.gyro_bias(i) + d[12 + i], "bias"); ENSURES_REAL(o.x.p_b2g(i), x.p_b2g(i) + d[21 + i], "lever arm"); }
    for (int i = 0; i < 2; ++i) { ENSURES_REAL(o.x.gps_clk(i), x.gps_clk(i) + d[15 + i], "clock"); ENSURES_REAL(o.x.gal_clk(i), x.gal_clk(i) + d[17 + i], "clock"); ENSURES_REAL(o.x.glo_clk(i), x.glo_clk(i) + d[19 + i], "clock"); }
    for (int i = 0; i < N; ++i) ENSURES_REAL(o.x.sd[i](0), x.sd[i](0) + d[30 + i], "ambiguity"); ENSURES(o.x.num_sd == N, "number of ambiguities");
  }
  Eigen::MatrixXd C = o.cov.dense(N);
  for (int i = I0; i < I1; ++i) for (int j = i; j < D; ++j) { double v = P(i, j); for (int m = 0; m < M; ++m) v = v - gK[i][m] * gPH[j][m]; ENSURES_REAL(C(i, j), v, "covariance less K H P"); ENSURES_REAL(C(j, i), v, "covariance is symmetric"); }
}
// any positive definite covariance
static void any_spd(Eigen::MatrixXd& P, int N) { any_cov(P, N); if (!vc_is_ir()) P = P * P.transpose() + Eigen::MatrixXd::Identity(N, N); }
template <int N, int I0, int I1> static void update_ambiguities() {
  const int D = 30 + N; static Snapshot s; Any a; any_ekf(a, N); s.x = a.x; Eigen::MatrixXd P(D, D); any_spd(P, D); set_cov(s.cov, P, N); any_inverse(); any_exp(); State x = s.x; x.num_sd = N;
  fixAndHoldMeas::ZType z(N); for (int i = 0; i < N; ++i) { z[i](0) = small(nm("z", 0, i), 3.0); gr[i] = z[i](0) - s.x.sd[i](0); for (int k = 0; k < D; ++k) gH[i][k] = 30 + i == k ? -1.0 : 0.0; }
  fixAndHoldMeas::Covariance R; double r = small("r", 1.0); r = r * r + 0.01; R(0) = r; double rr[MAXM]; for (int i = 0; i < MAXM; ++i) rr[i] = r;
  auto e = update<fixAndHoldMeas>(Out<Snapshot>(s), z, R); if (!e.ok()) return;
  updated<N, N>(s, x, P, rr, [](int k) { return k >= 30; }, I0, I1, I0 == 0);
}
CONTRACT(update_ambiguities, "tol=1e-6") { update_ambiguities<2, 0, 32>(); }
static bool in_point(int k) { return k < 9 || k >= 21; }
template <int N, int I0, int I1> static void update_position() {
  const int D = 30 + N; static Snapshot s; Any a; any_ekf(a, N); s.x = a.x; Eigen::MatrixXd P(D, D); any_spd(P, D); set_cov(s.cov, P, N); any_inverse(); any_exp(); State x = s.x; x.num_sd = N;
  Vec6 z = Vec6::Zero(), R; double rr[MAXM]; for (int i = 0; i < 6; ++i) { double r = small(nm("r", 0, i), 1.0); rr[i] = r * r + 0.01; R(i) = rr[i]; }
  if (vc_is_ir()) { int k = 0; g_J.setZero(); fill(g_J.dPose, "H", k); fill(g_J.dTI2e, "H", k); fill(g_J.dPB2g, "H", k); fill(g_J.dVel, "H", k); k = 0; fill(g_res, "e", k); } else g_res = h<pointPosMeas>(z, s.x, &g_J, a.u);
  Eigen::MatrixXd H = g_J.dense(N); for (int m = 0; m < 6; ++m) { gr[m] = g_res(m); for (int k = 0; k < D; ++k) { gH[m][k] = H(m, k); if (!in_point(k) || k >= 30) ENSURES(H(m, k) == 0.0, "zeros of the Jacobian"); } }
  auto e = update<pointPosMeas>(Out<Snapshot>(s), z, R, a.u); if (!e.ok()) return;
  updated<N, 6>(s, x, P, rr, [](int k) { return in_point(k) && k < 30; }, I0, I1, I0 == 0);
}
CONTRACT(update_position_state, "tol=1e-6") { update_position<0, 0, 1>(); }
CONTRACT(update_position_pose, "tol=1e-6") { update_position<0, 1, 5>(); }
CONTRACT(update_position_velocity, "tol=1e-6") { update_position<0, 5, 10>(); }
CONTRACT(update_position_biases, "tol=1e-6") { update_position<0, 10, 20>(); }
CONTRACT(update_position_frame, "tol=1e-6") { update_position<0, 20, 30>(); }
CONTRACT(update_position_sd, "tol=1e-6") { update_position<2, 30, 32>(); }
