// shared by the contracts on the RTK filter
#pragma once
#include <math.h>
#include <stdlib.h>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>
#include <random>
#include <Eigen/Dense>
#define private public
#include "any_util.h"
#include "abs_rot.h"
#ifndef VC_NATIVE
namespace mc { inline bool isFinite(const math::DQuat<double>&) { return true; } }
#endif
#include "core/ekf/rtk_ekf_state.cxx"
#include "core/ekf/rtk_ekf_types.cxx"
#ifdef EKF_STEP
#include "core/ekf/rtk_ekf.cxx"
#endif
#include "core/ekf/rtk_ekf_impl.cxx"
#undef T
using namespace mc; using namespace mc::ekf; using math::DQuat;
static bool g_record = false, g_ok = true;
extern "C" __attribute__((used)) double vcs_norm(const double* v, void*) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
extern "C" __attribute__((used)) void vcs_check(bool c) { if (g_record) g_ok = g_ok && c; else vc_assume(c); }
static Vec3 smallv(const char* const* n, double f) { double x = small(n[0], f), y = small(n[1], f), z = small(n[2], f); return Vec3(x, y, z); }
static Vec2 smallv2(const char* const* n, double f) { double x = small(n[0], f), y = small(n[1], f); return Vec2(x, y); }
#define NAMES2(a) {a "0", a "1"}
#define NAMES3(a) {a "0", a "1", a "2"}
static const char *const N_V[] = NAMES3("v"), *const N_BA[] = NAMES3("ba"), *const N_BG[] = NAMES3("bg"), *const N_L[] = NAMES3("l"), *const N_GPS[] = NAMES2("gps"), *const N_GAL[] = NAMES2("gal"), *const N_GLO[] = NAMES2("glo"), *const N_ACC[] = NAMES3("acc"), *const N_GYR[] = NAMES3("gyr");
static const double G = 9.80665, CL = 299792458.0, OE = 7.2921151467e-5;
struct Any { Motion a, e; State x; Input u; };
static void any_ekf(Any& s, int num_sd = 0, double far = 3.0) {      // (sizes matter to the native search only)
  any_motion(s.a, 0, MA, 3.0); any_motion(s.e, 1, ME, far); s.x.pose = s.a.T(); s.x.T_I2e = s.e.T();
  s.x.vel = smallv(N_V, 5); s.x.acc_bias = smallv(N_BA, 1); s.x.gyro_bias = smallv(N_BG, 1); s.x.gps_clk = smallv2(N_GPS, 5); s.x.gal_clk = smallv2(N_GAL, 5); s.x.glo_clk = smallv2(N_GLO, 5); s.x.p_b2g = smallv(N_L, 2);
  s.x.num_sd = num_sd; for (int i = 0; i < num_sd; ++i) { char b[8] = "sd0"; b[2] = '0' + i; s.x.sd[i](0) = small(b, 3); }
  s.u.accel = smallv(N_ACC, 10); s.u.gyro = smallv(N_GYR, 1);
}

// the abstract exponential gives any motion for each call; natively the real one
#ifndef VC_NATIVE
static const char *const MX0[] = MOTION_NAMES("p"), *const MX1[] = MOTION_NAMES("q");
static void any_exp() { DQuat<double>::g_exps = 0; for (int k = 0; k < 2; ++k) { const char* const* n = k ? MX1 : MX0; for (int i = 0; i < 9; ++i) math::g_tab[4 + k].P(i / 3, i % 3) = vc::any<double>(n[i]); for (int i = 0; i < 3; ++i) math::g_tab[4 + k].t(i) = vc::any<double>(n[9 + i]); } }
static DQuat<double> exp_of(const Vec6& w, int k) { for (int i = 0; i < 6; ++i) ENSURES_REAL(DQuat<double>::g_exp_arg[k](i), w(i), "the increment of a pose is the exponential of its part of the increment"); return DQuat<double>(math::g_tab[4 + k].P, math::g_tab[4 + k].t); }
#else
static void any_exp() {}
static DQuat<double> exp_of(const Vec6& w, int) { return DQuat<double>::exp(w); }
#endif
#define SAME_MOTION(A, B, what) { DQuat<double> a_ = A, b_ = B; Vec3 ta_ = a_.translation(), tb_ = b_.translation(); for (int j_ = 0; j_ < 3; ++j_) { Vec3 u_ = Vec3::Unit(j_), x_ = a_.rotp(u_), y_ = b_.rotp(u_); for (int i_ = 0; i_ < 3; ++i_) ENSURES_REAL(x_(i_), y_(i_), what); ENSURES_REAL(ta_(j_), tb_(j_), what); } }
