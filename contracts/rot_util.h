#pragma once
#include "vc.h"
#include "common/math/quat.h"
#include "common/math/so3.h"
#include "common/math/dquat.h"
#include "common/math/se3.h"
using namespace mc;
using mc::math::Quat; using mc::math::SO3; using mc::math::DQuat; using mc::math::SE3;
using Q = Quat<double>; using R3 = SO3<double>; using DQ = DQuat<double>; using E3 = SE3<double>;
struct V4 { double w, x, y, z; };
static V4 any4(const char* const* n) { return V4{vc::any<double>(n[0]), vc::any<double>(n[1]), vc::any<double>(n[2]), vc::any<double>(n[3])}; }
static const char* const PN[] = {"pw", "px", "py", "pz"};
static const char* const QN[] = {"qw", "qx", "qy", "qz"};
static const char* const RN[] = {"rw", "rx", "ry", "rz"};
static Vec3 anyv(const char* a, const char* b, const char* c) { double x = vc::any<double>(a), y = vc::any<double>(b), z = vc::any<double>(c); return Vec3(x, y, z); }
// (a native search scales its samples instead of rejecting them)
static void unit(V4& q) {
  if (vc_is_ir()) REQUIRES(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z == 1.0);
  else { double n = sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z); REQUIRES(n > 1e-9); q.w /= n; q.x /= n; q.y /= n; q.z /= n; }
}
static void unit3(Vec3& u) {
  if (vc_is_ir()) REQUIRES(u.x() * u.x() + u.y() * u.y() + u.z() * u.z() == 1.0);
  else { double n = u.norm(); REQUIRES(n > 1e-9); u /= n; }
}
#define SAME4(a, b, l) do { ENSURES_REAL((a).w(), (b).w(), l); ENSURES_REAL((a).x(), (b).x(), l); ENSURES_REAL((a).y(), (b).y(), l); ENSURES_REAL((a).z(), (b).z(), l); } while (0)
#define SAME8(a, b, l) do { for (int i_ = 0; i_ < 8; ++i_) ENSURES_REAL((a)[i_], (b)[i_], l); } while (0)
#define SAME3(a, b, l) do { for (int i_ = 0; i_ < 3; ++i_) ENSURES_REAL((a)(i_), (b)(i_), l); } while (0)
#define SAME6(a, b, l) do { for (int i_ = 0; i_ < 6; ++i_) ENSURES_REAL((a)(i_), (b)(i_), l); } while (0)
#define SAME33(a, b, l) do { for (int i_ = 0; i_ < 3; ++i_) for (int j_ = 0; j_ < 3; ++j_) ENSURES_REAL((a)(i_, j_), (b)(i_, j_), l); } while (0)
#define SAMEMN(M, N, a, b, l) do { for (int i_ = 0; i_ < M; ++i_) for (int j_ = 0; j_ < N; ++j_) ENSURES_REAL((a)(i_, j_), (b)(i_, j_), l); } while (0)
