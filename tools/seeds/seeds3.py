import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
T='common/utctime.cxx common/quantized_time.cxx'
C='common/print.cxx common/check.cxx '+T
IMU=C+' models/imu_model.cxx models/imu_state.cxx'
H='''#include <vector>
#include <map>
#include <random>
#include <iostream>
#include <sstream>
#include <Eigen/Dense>
#define private public
#include "models/imu_model.h"
#undef private
using namespace mc; using Q = math::Quat<double>; using DQ = math::DQuat<double>;
static meas::ImuSample S(int s, int ns, Vec3 a, Vec3 g) { meas::ImuSample z; z.t.sec = s; z.t.nsec = ns; z.accel = a; z.gyro = g; return z; }
'''
seed('t34','C18',[('models/imu_model.cxx','A->block<3, 3>(BETA, GAMMA) = -state.gamma.R().transpose() * skew(accel);','A->block<3, 3>(BETA, GAMMA) = -state.gamma.R().transpose() * skew(imu.accel);')],
 'an accelerometer bias other than zero','the error dynamics use the acceleration with its bias: covariance and derivative by the bias are wrong',H+
'''int main() { Vec6 R = Vec6::Ones(), b; b << 0.5, -0.3, 0.2, 0, 0, 0; models::ImuModel m(S(0, 0, b.head<3>(), Vec3(0, 0, 0)), b, R); models::ImuState x; x.setIdentity(); models::ImuErrorState d; Mat9 A; Mat96 B;
 m.dynamics(x, S(0, 0, b.head<3>(), Vec3(1, 0, 0)), Out(d), Out(A), Out(B)); return A.block<3, 3>(3, 6).norm() < 1e-12 ? 0 : 1; }
''',IMU)
seed('t35','C18',[('models/imu_model.cxx','split_sample.gyro = scale * it->z.gyro + (1.0 - scale) * prev_it->z.gyro;','split_sample.gyro = scale * prev_it->z.gyro + (1.0 - scale) * it->z.gyro;')],
 'a split between two samples of a changing rate, not in their middle','the rate at the split is interpolated the wrong way round',H+
'''int main() { Vec6 R = Vec6::Ones(), b = Vec6::Zero(); models::ImuModel m(S(10, 0, Vec3(0, 0, 0), Vec3(0, 0, 0)), b, R); m.integrate(S(14, 0, Vec3(0, 0, 0), Vec3(4, 0, 0))); UTCTime t; t.sec = 11; t.nsec = 0;
 models::ImuModel l = m.split(t); return std::abs(l.history_.front().z.gyro.x() - 1.0) < 1e-9 ? 0 : 1; }
''',IMU)
seed('t36','C18',[('models/imu_model.cxx','adjusted_by_state.block<3, 3>(6, 6) = dexp.transpose();','adjusted_by_state.block<3, 3>(6, 6) = dexp;')],
 'a change of the gyroscope bias large enough for the two Jacobians to differ','the Jacobian of the attitude residual by the bias is the one of the other side',H+
'''int main() { Vec6 R = Vec6::Ones(), b0 = Vec6::Zero(), b; b << 0, 0, 0, 0.3, -0.2, 0.5; models::ImuModel m(S(10, 0, Vec3(0, 0, 0), Vec3(0, 0, 0)), b0, R); m.integrate(S(11, 0, Vec3(0, 0, 0), Vec3(0.2, 0.1, 0.3)));
 DQ A(Q::exp(Vec3(0.1, 0.2, 0.3)), Vec3(1, 2, 3)), B(Q::exp(Vec3(0.2, 0.5, 0.1)), Vec3(0, 1, 2)); Vec3 v(1, 2, 3), w(2, 1, 0); const double* p[5] = {A.data(), B.data(), v.data(), w.data(), b.data()}; double J[54]; double* jj[5] = {0, 0, 0, 0, J}; Vec9 r; m.Evaluate(p, r.data(), jj);
 for (int k = 0; k < 6; ++k) { Vec6 x = b, y = b; x(k) += 1e-6; y(k) -= 1e-6; Vec9 rx, ry; p[4] = x.data(); m.Evaluate(p, rx.data(), nullptr); p[4] = y.data(); m.Evaluate(p, ry.data(), nullptr); for (int i = 0; i < 9; ++i) if (std::abs((rx(i) - ry(i)) / 2e-6 - J[6 * i + k]) > 1e-5) return 1; }
 return 0; }
''',IMU)
seed('t37','C18',[('models/imu_model.cxx','avg_imu.gyro = (imu.gyro + history_.back().z.gyro) / 2.0;','avg_imu.gyro = imu.gyro;')],
 'a rate of turn that changes between samples','the step turns by the last rate instead of the mean of both',H+
'''int main() { Vec6 R = Vec6::Ones(), b = Vec6::Zero(); models::ImuModel m(S(10, 0, Vec3(0, 0, 0), Vec3(1, 0, 0)), b, R); m.integrate(S(11, 0, Vec3(0, 0, 0), Vec3(0, 0, 0))); return std::abs(m.state().gamma.log().norm() - 0.5) < 1e-9 ? 0 : 1; }
''',IMU)
seed('t38','C18',[('models/imu_model.cxx','A = Mat9::Identity() + Adt * (Mat9::Identity() + 0.5 * Adt);','A = Mat9::Identity() + Adt * (Mat9::Identity() + Adt);')],
 'several samples with turning and acceleration','the second order of the transition is twice what it should be, so is the growth of position errors from attitude',H+
'''int main() { Vec6 R = Vec6::Ones(), b = Vec6::Zero(); models::ImuModel m(S(10, 0, Vec3(2, 0, 0), Vec3(0, 0, 0)), b, R); m.integrate(S(11, 0, Vec3(2, 0, 0), Vec3(0, 0, 0))); Mat96 D = m.dStatedBias(); m.integrate(S(12, 0, Vec3(2, 0, 0), Vec3(0, 0, 0)));
 double got = m.dStatedBias()(1, 5), x = D(1, 5) + D(4, 5) + 0.5 * (-2.0) * D(8, 5) * -1.0; double y = D(1, 5) + D(4, 5) - 0.5 * (-2.0) * D(8, 5) * -1.0; return std::min(std::abs(got - x), std::abs(got - y)) < 1e-9 ? 0 : 1; }
''',IMU)
seed('t39','C11',[('common/math/dquat.h','gross = gm * (-1. / 24. + 1. / 960. * th2 - 1. / 107520. * th4);\n        }\n\n        DQuat Q;\n        Q.r_.arr_ << ct, sinct * w;\n        Q.d_.arr_ << -gm / 2.0 * sinct, (gross * w','gross = gm * (1. / 24. + 1. / 960. * th2 - 1. / 107520. * th4);\n        }\n\n        DQuat Q;\n        Q.r_.arr_ << ct, sinct * w;\n        Q.d_.arr_ << -gm / 2.0 * sinct, (gross * w')],
 'a small rotation (below two milliradians) with a large translation along its axis','the translation of the exponential is off',
'''#include "common/math/dquat.h"
using namespace mc;
int main() { Vec6 x; x << 1.5e-3, 0, 0, 1e4, 0, 0; Vec3 t = math::DQuat<double>::exp(x).translation(); return std::abs(t.x() - 1e4) < 1e-4 ? 0 : 1; }
''','')
