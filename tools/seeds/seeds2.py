import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
T='common/utctime.cxx common/quantized_time.cxx'
C='common/print.cxx common/check.cxx '+T
SAT=C+' common/ephemeris/gps.cxx common/ephemeris/galileo.cxx common/ephemeris/glonass.cxx utils/crc.cxx utils/wgs84.cxx common/satellite/satellite_state.cxx common/satellite/satellite.cxx common/satellite/azel.cxx common/satellite/atm_correction.cxx common/satellite/satellite_cache.cxx'
# --- C02
seed('t15','C02',[('common/utctime.cxx','''                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;''','''                             : (sec > other.sec) ? false : (nsec <= other.nsec + 1) ? true : false;''')],
 'two times in the same second, the later by exactly one nanosecond','the later one is less-or-equal and at the same time greater than the earlier one',
'''#include "common/utctime.h"
using namespace mc;
int main() { UTCTime a, b; a.sec = b.sec = 1000; a.nsec = 501; b.nsec = 500; return !(a <= b) && a > b && b <= a ? 0 : 1; }
''',T)
# --- C04
seed('t16','C04',[('common/ephemeris/bit_tools.h','''void setBit(unsigned char *buff, const int pos, const unsigned data, const int len)
{
    static_assert(byteOrder == SwitchByteOrder, "KeepByteOrder Not implemented");
    // static_assert(len <= 64 && len > 0);
    typedef typename TypeHelper<Unsigned, 64>::type tempType;''','''void setBit(unsigned char *buff, const int pos, const unsigned data, const int len)
{
    static_assert(byteOrder == SwitchByteOrder, "KeepByteOrder Not implemented");
    // static_assert(len <= 64 && len > 0);
    typedef typename TypeHelper<Unsigned, 32>::type tempType;''')],
 'writing a field of more than 25 bits that does not end on a byte boundary','the top bits of the field are shifted out and zeros are written there',
'''#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <limits>
#include "common/ephemeris/bit_tools.h"
using namespace mc::ephemeris;
int main() { unsigned char b[8] = {0}; setBit<Unsigned>(b, 1, 0xC0000001u, 32); return b[0] == 0x60 && b[3] == 0 && b[4] == 0x80 && b[1] == 0 && b[2] == 0 ? 0 : 1; }
''')
# --- C05
seed('t17','C05',[('utils/crc.cxx','    return n == 0 || (n == 2 && crc);','    return n == 0 || n == 2;')],
 'a GLONASS string with exactly two wrong check sums of which neither is the overall parity','the string is accepted although two of its bits are wrong',
'''#include "utils/crc.h"
#include <cstdlib>
#include <cstring>
// accepted strings: every string that differs from an accepted one in two bits must be refused
int main() { srand(3); using namespace mc::utils; unsigned char z[64]; memset(z, 0, sizeof z); int ok = 0;
 if (!gloTest(z)) return 1;
 for (int i = 0; i < 88; ++i) for (int j = i + 1; j < 88; ++j) { unsigned char b[64]; memset(b, 0, sizeof b); b[i/8] |= 0x80 >> i%8; b[j/8] |= 0x80 >> j%8;
   if (i >= 3 + 0 && gloTest(b) && i < 85 && j < 85) ++ok; }
 return ok; }
''','utils/crc.cxx')
# --- C09
seed('t18','C09',[('common/circular_buffer.h','''        const_iterator& operator-=(size_t i)
        {
            i = i % SIZE;
            const size_t dest''','''        const_iterator& operator-=(size_t i)
        {
            i = i % (SIZE - 1);
            const size_t dest''')],
 'moving an iterator back by the whole capacity of the buffer','the iterator does not move',
'''#include "common/circular_buffer.h"
int main() { mc::CircularBuffer<int, 5> b; for (int i = 0; i < 4; ++i) b.push_back(i); auto it = b.end(); it -= 4; return it == b.begin() && *it == 0 ? 0 : 1; }
''')
# --- C10
seed('t19','C10',[('common/math/quat.h','''            q.arr_ << (m(0, 1) - m(1, 0)) / S, (m(2, 0) + m(0, 2)) / S, (m(2, 1) + m(1, 2)) / S,
                0.25 * S;
        }
        return q;''','''            q.arr_ << (m(1, 0) - m(0, 1)) / S, (m(2, 0) + m(0, 2)) / S, (m(2, 1) + m(1, 2)) / S,
                0.25 * S;
        }
        return q;''')],
 'a rotation by more than 120 degrees about an axis that is mostly the third one','the quaternion made from its matrix is the inverse turned about the other way',
'''#include "common/math/quat.h"
#include "common/math/so3.h"
using namespace mc; using namespace mc::math;
int main() { Quat<double> q(0.2, 0.1, -0.2, 0.95); q.normalize(); Mat3 R = q.R().matrix(); Quat<double> p = Quat<double>::from_R(R); Mat3 S = p.R().matrix(); return (R - S).norm() < 1e-9 ? 0 : 1; }
''')
seed('t20','C10',[('common/math/quat.h','''        if (fabs(val) > T(1.0))
            return copysign''','''        if (fabs(val) > T(0.9999999))
            return copysign''')],
 'a rotation whose pitch is within 0.02 degrees of vertical','the pitch read from it is 90 degrees, so converting to Euler angles and back gives another rotation',
'''#include "common/math/quat.h"
#include "common/math/so3.h"
using namespace mc::math;
int main() { auto q = Quat<double>::from_euler(0.3, 1.5706, -0.4); return std::abs(q.pitch() - 1.5706) < 1e-6 ? 0 : 1; }
''')
# --- C11
seed('t21','C11',[('common/math/se3.h' ,'@@','@@')] if False else [('common/math/dquat.h','''        if (th2 > (T)1e-8)
        {
            const T th = sqrt(th2);
            const T a = atan2(th, r0) / th;''','''        if (th2 > (T)1e-8)
        {
            const T th = sqrt(th2);
            const T a = asin(th < 1.0 ? th : T(1.0)) / th;''')],
 'the logarithm of a rigid motion that turns by more than half a turn over two, that is with a negative scalar part','the angle returned is the one on the wrong side of a quarter turn of the half angle',
'''#include "common/math/dquat.h"
using namespace mc; using namespace mc::math;
int main() { Vec6 w; w << 2.0, 1.5, -1.0, 1, 2, 3; DQuat<double> Q = DQuat<double>::exp(w); Vec6 v = (DQuat<double>(-1*Q.arr_[0],-1*Q.arr_[1],-1*Q.arr_[2],-1*Q.arr_[3],-1*Q.arr_[4],-1*Q.arr_[5],-1*Q.arr_[6],-1*Q.arr_[7])).log();
 DQuat<double> P = DQuat<double>::exp(v); return (P.translation() - Q.translation()).norm() < 1e-6 && (Q.log() - w).norm() < 1e-6 && std::abs(std::abs(P.real().arr_.dot(Q.real().arr_)) - 1) < 1e-9 ? 0 : 1; }
''')
# --- C12
seed('t22','C12',[('common/math/dquat.h','''            const T a1 = atan2(s, r0) / s;
            const T b1 = gm / s2;
            v = (T)2.0 * (a1 * d + ((r0 - a1) * b1 - d0) * r);
''','''            const T a1 = th / (2.0 * s);
            const T b1 = gm / (s2 + d0 * d0);
            v = (T)2.0 * (a1 * d + ((r0 - a1) * b1 - d0) * r);
''')],
 'asking for the Jacobian of the logarithm of a motion with a translation along its axis','the value returned with the Jacobian differs from the one without',
'''#include "common/math/dquat.h"
using namespace mc; using namespace mc::math;
int main() { Vec6 w; w << 1.0, 0.5, -0.7, 10, 20, -30; DQuat<double> Q = DQuat<double>::exp(w); Mat6 J; Vec6 a = Q.log(), b = Q.log(&J); return (a - b).norm() < 1e-8 ? 0 : 1; }
''')
seed('t23','C12',[('common/math/so3.h','''            const T th = std::acos((t - 1.) / 2.);
            const T th2 = th * th;
            a = sin(th) / th;
            b = (1 - cos(th)) / th2;
            c = (1 - a) / th2;
            w = (th / (2. * std::sin(th))) * r;''','''            const T th = std::acos((t - 1.) / 2.);
            const T th2 = th * th;
            a = sin(th) / th;
            b = t < 0 ? (1 + cos(th)) / th2 : (1 - cos(th)) / th2;
            c = (1 - a) / th2;
            w = (th / (2. * std::sin(th))) * r;''')],
 'the Jacobian of the logarithm of a rotation matrix with a negative trace (more than 120 degrees)','the Jacobian is not the inverse of that of the exponential',
'''#include "common/math/so3.h"
#include "common/math/quat.h"
using namespace mc; using namespace mc::math;
int main() { Vec3 w(1.6, 1.2, -1.5); Mat3 J, L; SO3<double> R = SO3<double>::exp(w, &J); R.log(&L); return (J * L - Mat3::Identity()).norm() < 1e-6 ? 0 : 1; }
''')
# --- C13
seed('t24','C13',[('common/satellite/satellite_state.cxx','    check(fabs(dt) <= MAXDTOE,','    check(-dt <= MAXDTOE,')],
 'a time more than two hours after the reference time of the ephemeris','the stale ephemeris is used and no error is reported',
'''#include "common/satellite/satellite_state.h"
#include "common/ephemeris/gps.h"
#include "common/check.h"
#include <unistd.h>
#include <stdio.h>
#include <sys/wait.h>
using namespace mc;
int main() { ephemeris::GPSEphemeris e(1); e.sqrta = 5153.8; e.ecc = 0.002; e.toe = e.toc = UTCTime::fromGPS(2000, 1000000); satellite::SatelliteState s;
 auto ends = [&](double d) { int st = 0; fflush(0); pid_t c = fork(); if (!c) { fclose(stderr); fclose(stdout); Error r = satellite::eph2Sat(e.toe + d, e, Out(s)); _exit(r.ok() ? 0 : 1); } waitpid(c, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); };
 return ends(7300.0) && !ends(7100.0) && ends(-7300.0) && !ends(-7100.0) ? 0 : 1; }
''',SAT)
seed('t25','C13',[('common/satellite/satellite_state.cxx','    while (abs(dt) > 1e-9)','    while (abs(dt) > 2e-3)')],
 'a GLONASS satellite at a time that is a whole number of minutes and a millisecond from the time of ephemeris','the last step is not taken: the position is that of a millisecond earlier, some metres away',
'''#include "common/satellite/satellite_state.h"
#include "common/ephemeris/glonass.h"
using namespace mc;
static Vec3 at(double dt) { ephemeris::GlonassEphemeris e(1); e.toe = UTCTime::fromGPS(2060, 135918000); e.pos << -625159.179688, -11415025.3906, 22774500.9766; e.vel << 2802.14977264, -1387.57514954, -626.088142395; e.acc.setZero(); e.taun = e.gamn = 0; satellite::SatelliteState s; s.t = INVALID_TIME; satellite::eph2Sat(e.toe + dt, e, Out(s)); return s.pos; }
int main() { return (at(120.0015) - at(120.0)).norm() > 1.0 && (at(-60.0015) - at(-60.0)).norm() > 1.0 ? 0 : 1; }
''',SAT)
# --- C14
seed('t26','C14',[('models/gnss_dynamics_model.cxx','            jac.clock() << Xi_[0], -Xi_[0] * dt_ / 2.0;','            jac.clock() << Xi_[0], -Xi_[0] / 2.0 * (dt_ > 1.0 ? 1.0 : dt_);')],
 'receiver clock factors more than a second apart','the Jacobian by the second clock rate is not the derivative of the residual',
'''#include "models/gnss_dynamics_model.h"
using namespace mc;
int main() { Vec3 Xi(2, 3, 4); UTCTime a, b; a.sec = 1000; a.nsec = 0; b.sec = 1010; b.nsec = 0; models::GnssDynamics f(a, b, Xi); double c1[2] = {1, 2}, c2[2] = {3, 4}, s1 = 1, s2 = 1; double* p[4] = {c1, c2, &s1, &s2}; double r[3], q[3], J[6]; double* j[4] = {nullptr, J, nullptr, nullptr};
 f.Evaluate(p, r, j); c2[1] += 1; f.Evaluate(p, q, nullptr); return std::abs(q[0] - r[0] - J[1]) < 1e-9 ? 0 : 1; }
''',C+' models/gnss_dynamics_model.cxx')
seed('t27','C14',[('models/relative_carrier_phase_model.cxx','''            const Vec3 rot_by_2 =
                e2.T * R_e2r.T * R_r2n.T * skew(T_n2b2.translation() + T_n2b2.rota(p_b2g));''','''            const Vec3 rot_by_2 =
                e2.T * R_e2r.T * R_r2n.T * (skew(T_n2b2.translation()) + skew(T_n2b1.rota(p_b2g)));''')],
 'a receiver whose attitude changes between the two observations and whose antenna is off the body origin','the Jacobian by the reference frame uses the lever arm of the other attitude',
'''#include "models/relative_carrier_phase_model.h"
#include "utils/wgs84.h"
#include "common/ephemeris/gps.h"
using namespace mc; using DQ = math::DQuat<double>;
int main() { ephemeris::GPSEphemeris e(1); e.gnssID = GnssID::GPS; e.sqrta = 5153.79589081; e.toe = e.toc = UTCTime::fromGPS(2000, 93600000); e.toes = 93600; e.ecc = 0.0022; e.i0 = 0.96; e.omega0 = 1.64; e.m0 = 1.05; e.w = 2.06;
 satellite::Satellite<ephemeris::GPSEphemeris> sat(GnssID::GPS, 1); sat.addEph(e); Vec3 rec(-12611434.0/4, -13413103.0/4, 19062913.0/4);
 rec *= 6371000.0 / rec.norm(); meas::GnssObservation o1, o2; o1.t = e.toe; o2.t = e.toe + 1.0; o1.gnss_id = o2.gnss_id = GnssID::GPS; o1.sat_num = o2.sat_num = 1; o1.freq = o2.freq = 0; o1.carrier_phase = 0; o2.carrier_phase = 10;
 DQ Te = utils::WGS84::dq_ecef2ned(rec); double Xi = 2.0; models::RelativeCarrierPhase f(o1, o2, sat, rec, Te, Xi);
 Vec6 w1, w2, w3; w1 << 0.1, 0.2, 0.3, 1, 2, 3; w2 << -0.9, 1.1, 0.4, 4, -5, 6; w3 << 0.3, 0.1, -0.2, 1, 1, 1; DQ T1 = DQ::exp(w1), T2 = DQ::exp(w2), Tr = DQ::exp(w3); double c1[2] = {0, 0}, c2[2] = {0, 0}, s1 = 1, s2 = 1; Vec3 lev(5, -8, 9);
 double* p[8] = {T1.data(), T2.data(), c1, c2, &s1, &s2, Tr.data(), lev.data()}; double r0, rp, rm; double J[8]; double* jj[8] = {0, 0, 0, 0, 0, 0, J, 0}; f.Evaluate(p, &r0, jj); double err = 0;
 Eigen::Matrix<double, 8, 6> D = Tr.dParamDGen(); Eigen::Map<Eigen::Matrix<double, 1, 8>> Jm(J);
 for (int i = 0; i < 6; ++i) { Vec6 d = Vec6::Zero(); double h = 1e-3; d[i] = h; DQ a = Tr * DQ::exp(d), b = Tr * DQ::exp(-d); p[6] = a.data(); f.Evaluate(p, &rp, nullptr); p[6] = b.data(); f.Evaluate(p, &rm, nullptr); err = std::max(err, std::abs((rp - rm) / (2 * h) - (Jm * D)(i))); }
 return err < 1e-2 ? 0 : 1; }
''',SAT+' models/relative_carrier_phase_model.cxx')
# --- C15
seed('t28','C15',[('common/satellite/satellite.h','''            if (dt_i < dt)
            {''','''            if (dt_i < dt || dt_i > 14400.0)
            {''')],
 'an almanac that spans more than four hours on both sides of the time','the search runs on past the closest ephemeris to one far in the past',
'''#include "common/satellite/satellite.h"
#include "common/ephemeris/gps.h"
using namespace mc; using E = ephemeris::GPSEphemeris;
int main() { satellite::Satellite<E> s(GnssID::GPS, 1); for (int i = 0; i < 3; ++i) { E e(1); e.gnssID = GnssID::GPS; e.toe = UTCTime::fromGPS(2000, 100000000) + 20000.0 * i; e.iode = i; s.addEph(e); }
 return s.findClosestEphemeris(UTCTime::fromGPS(2000, 100000000) + 41000.0).iode == 2 ? 0 : 1; }
''',SAT)
seed('t29','C15',[('core/sat_manager.cxx','''                      fmt(eph.Type(), sat_vec.front().sat_num()));
            sat_vec.pop_front();''','''                      fmt(eph.Type(), sat_vec.front().sat_num()));
            if (sat_vec.front().almanacSize() > 1)
                sat_vec.pop_back();
            else
                sat_vec.pop_front();''')],
 'a thirtieth satellite of one system arriving when the oldest has more than one ephemeris','the newest satellite is dropped and not the oldest',
'''#include "core/sat_manager.h"
using namespace mc; using E = ephemeris::GPSEphemeris;
int main() { SatelliteManager m; auto add = [&](int n, double dt) { E e(n); e.gnssID = GnssID::GPS; e.sat = n; e.toe = UTCTime::fromGPS(2000, 100000000) + dt; m.ephCb(e); };
 add(1, 0); add(1, 7200); for (int i = 2; i <= 30; ++i) add(i, 0); const satellite::SatelliteBase* s = nullptr; return !m.getSat(GnssID::GPS, 1, Out(s)).ok() && m.getSat(GnssID::GPS, 29, Out(s)).ok() && m.getSat(GnssID::GPS, 30, Out(s)).ok() ? 0 : 1; }
''',SAT+' core/sat_manager.cxx')
# --- C16
seed('t30','C16',[('common/satellite/satellite_cache.cxx','    while (abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate','    while (abs(dt) * state.vel.norm() > 1e3)  // get millimeter-accurate')],
 'a satellite that moves along the line of sight, so that its distance changes while the signal travels','the iteration stops after the first step, when the travel time is still that of the state at reception',
'''#include "common/satellite/satellite_cache.h"
using namespace mc;
struct S : satellite::SatelliteBase { S() : SatelliteBase(0, 1) {} int almanacSize() const override { return 1; } double carrierWavelength(int) const override { return 1; }
 Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override { double d = (t - t0).toSec(); s->t = t; s->pos = Vec3(26000000 + 7000.0 * d, 0, 1000 * d); s->vel = Vec3(7000, 0, 1000); s->clk.setZero(); return Error::none(); } UTCTime t0; };
int main() { S s; s.t0 = UTCTime::fromGPS(2000, 100000000); satellite::SatelliteCache c; Vec3 rec(6371000, 0, 100); c.update(s.t0, rec, s); double tau = (s.t0 - c.state.t).toSec(); double rng = (c.state.pos - rec).norm() + c.sagnac; return std::abs(rng - tau * C_LIGHT) < 0.5 ? 0 : 1; }
''',SAT)
seed('t31','C16',[('models/relative_carrier_phase_model.cxx','        const double range = los_to_sat.norm() + sagnac;','        const double range = los_to_sat.norm() + std::abs(sagnac);')],
 'a satellite and a receiver for which the Sagnac correction is negative','the travel time is too long by twice the correction',
'''#include <sstream>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include <iostream>
#include <Eigen/Dense>
#define private public
#include "models/relative_carrier_phase_model.h"
#undef private
using namespace mc;
struct S : satellite::SatelliteBase { S() : SatelliteBase(0, 1) {} int almanacSize() const override { return 1; } double carrierWavelength(int) const override { return 1; }
 Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override { double d = (t - t0).toSec(); s->t = t; s->pos = Vec3(15000000, 21000000 + 3000.0 * d, 1000 * d); s->vel = Vec3(0, 3000, 1000); s->clk.setZero(); return Error::none(); } UTCTime t0; };
int main() { S s; s.t0 = UTCTime::fromGPS(2000, 100000000); meas::GnssObservation o1, o2; o1.t = s.t0; o2.t = s.t0 + 1.0; o1.gnss_id = o2.gnss_id = 0; o1.sat_num = o2.sat_num = 1; o1.freq = o2.freq = 0; o1.carrier_phase = o2.carrier_phase = 0; Vec3 rec(6371000, 0, 100); math::DQuat<double> T; double Xi = 1;
 models::RelativeCarrierPhase f(o1, o2, s, rec, T, Xi); double tau = (s.t0 - f.sat1_.t).toSec(); double sg = OMEGA_EARTH * (f.sat1_.pos.x() * rec.y() - f.sat1_.pos.y() * rec.x()) / C_LIGHT; double rng = (f.sat1_.pos - rec).norm() + sg; return std::abs(rng - tau * C_LIGHT) < 2.0 ? 0 : 1; }
''',SAT+' models/relative_carrier_phase_model.cxx')
# --- C17
seed('t32','C17',[('common/satellite/atm_correction.cxx','psi * cos(azel.az), -0.416, 0.416);','psi * cos(azel.az), -0.416, 0.461);')],
 'a receiver far in the north looking north','the pierce point is not held at 75 degrees of latitude and the ionospheric delay is another',
'''#include "common/satellite/atm_correction.h"
#include "common/satellite/azel.h"
using namespace mc;
static double d(double lat) { satellite::AzimuthElevation a; a.az = 0; a.el = 0.3; return satellite::computeIonosphericDelay(UTCTime::fromGPS(2000, 15 * 3600000), Vec3(lat, 0, 0), a); }
int main() { return std::abs(d(1.25) - d(1.30)) < 1e-12 ? 0 : 1; }
''',SAT)
seed('t33','C17',[('utils/wgs84.cxx','    if (r2 > 1e-12)','    if (r2 > 1e-2)')],
 'a point within ten centimetres of the axis of the earth','latitude and longitude are those of the pole and converting back is off by up to ten centimetres',
'''#include "utils/wgs84.h"
using namespace mc; using namespace mc::utils;
int main() { Vec3 p(0.05, -0.06, 6356800.0); Vec3 q = WGS84::lla2ecef(WGS84::ecef2lla(p)); return (p - q).norm() < 1e-3 ? 0 : 1; }
''',SAT)
