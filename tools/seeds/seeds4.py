import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import seed, ROOT
I='core/ekf/rtk_ekf_impl.cxx'
PRE='''#include <cmath>
#include <cstdio>
#include "core/ekf/rtk_ekf_impl.cxx"
#undef T
using namespace mc; using namespace mc::ekf; using math::DQuat;
static State st() { State x; x.num_sd = 0; Vec6 a, b; a << 0.3, -0.7, 0.4, 1, -2, 3; b << -0.5, 0.2, 0.6, -3, 1, 2; x.pose = DQuat::exp(a); x.T_I2e = DQuat::exp(b); x.vel = Vec3(1, -2, 0.5); x.acc_bias = Vec3(0.1, 0.2, -0.3); x.gyro_bias = Vec3(0.01, -0.02, 0.03); x.gps_clk = Vec2(10, 1); x.gal_clk = Vec2(30, -5); x.glo_clk = Vec2(-20, 7); x.p_b2g = Vec3(0.3, 1, -0.4); return x; }
static satellite::SatelliteCache sat() { satellite::SatelliteCache c; c.state.pos = Vec3(2e7, -1e7, 1.2e7); c.state.vel = Vec3(1000, 2500, -700); c.state.clk = Vec2(1e-5, 2e-9); c.sagnac = 12; c.atm.ionospheric_delay_m = 3; c.atm.tropospheric_delay_m = 5; return c; }
static satellite::SatelliteCache SAT = sat(); static obsMeas::Residual run(const State& x, const Input& u, int id, obsMeas::Jac* J) { obsMeas::ZType z; { obsMeas::Data d{Vec2(0, 0), SAT, id}; z.push_back(d); } return h<obsMeas>(z, x, J, u); }
static void ant(const State& x, const Input& u, Vec3& p, Vec3& v) { p = x.T_I2e.transformp(x.pose.transforma(x.p_b2g)); v = x.T_I2e.rotp(x.pose.rota(Vec3(u.gyro.cross(x.p_b2g) + x.vel))); }
static int bad(double a, double b, double tol) { if (!(std::fabs(a - b) <= tol)) { printf("%.12g expected %.12g\\n", a, b); return 1; } return 0; }
'''
def ek(sid, prop, edits, needs, breaks, demo):
    seed(sid, prop, edits, needs, breaks, PRE.replace('using math::DQuat;','typedef math::DQuat<double> DQuat;') + demo, 'common/print.cxx common/check.cxx common/utctime.cxx common/quantized_time.cxx utils/wgs84.cxx "$out"/core/ekf/rtk_ekf_state.cxx "$out"/core/ekf/rtk_ekf_types.cxx', '-I"$out"')
    p = os.path.join(ROOT, 'seeded', sid, 'demo.sh'); s = open(p).read()
    s = s.replace('g++ ', 'mkdir -p "$out/core/ekf"; PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" python3 core/ekf/ekf_gen/ekf_gen.py --config_file core/ekf/rtk_ekf.yaml --destination "$out/core/ekf" > /dev/null || exit 3\ng++ ', 1); open(p, 'w').write(s)
RATE='''int main() { State x = st(); Input u; u.accel = Vec3(1, 2, 9); u.gyro = Vec3(0.2, -0.3, 0.5); Vec3 p, v; 
 x.T_I2e = DQuat(x.T_I2e.rotation(), Vec3(4e6, -3e6, 2e6)); ant(x, u, p, v); satellite::SatelliteCache c = sat(); Vec3 e = (c.state.pos - p).normalized(); int ids[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass}; const Vec2* k[3] = {&x.gps_clk, &x.gal_clk, &x.glo_clk}; int r = 0;
 for (int i = 0; i < 3; ++i) { auto z = run(x, u, ids[i], nullptr); double rate = (c.state.vel - v).dot(e) + 7.2921151467e-5 / 299792458.0 * (c.state.vel.y() * p.x() + c.state.pos.y() * v.x() - c.state.vel.x() * p.y() - c.state.pos.x() * v.y()) + 299792458.0 * ((*k[i])(1) / 1e9 - c.state.clk(1));
  double range = (c.state.pos - p).norm() + c.sagnac + 3 + 5 + 299792458.0 * ((*k[i])(0) / 1e9 - c.state.clk(0)); r |= bad(z(0), -range, 1e-5) | bad(z(1), -rate, 1e-7); }
 return r; }
'''
ek('u01','C19',[(I,'sat.state.vel.x() * p_e2g_e.y() -','sat.state.vel.x() * p_e2g_e.y() +')],'an observation far from the origin','the Sagnac part of the predicted Doppler has a wrong sign in one term',RATE)
ek('u02','C19',[(I,'            jac->dGalClk(i).setZero();\n','')],'a Jacobian that is reused, an observation of another system in the place of a Galileo one','the Jacobian of an observation by the Galileo clock keeps an old value',
'''int main() { State x = st(); Input u; u.accel = Vec3(1, 2, 9); u.gyro = Vec3(0.2, -0.3, 0.5); static obsMeas::Jac J; run(x, u, GnssID::Galileo, &J); run(x, u, GnssID::GPS, &J); return J.dGalClk(0).cwiseAbs().maxCoeff() == 0.0 ? 0 : 1; }
''')
ek('u03','C19',[(I,'range + sat.atm.ionospheric_delay_m + sat.atm.tropospheric_delay_m','range - sat.atm.ionospheric_delay_m + sat.atm.tropospheric_delay_m')],'a delay in the ionosphere','the ionosphere shortens the predicted pseudorange (as it does the carrier)',RATE)
ek('u04','C19',[(I,'clk(1) / 1e9 - sat.state.clk(1)','clk(1) / 1e9 + sat.state.clk(1)')],'a satellite whose clock drifts','the clock rate of the satellite is added to that of the receiver',RATE)
ek('u05','C19',[(I,"gnss_id == GnssID::Galileo ? x.gal_clk :","gnss_id == GnssID::Galileo && i < 10 ? x.gal_clk :")],'more than ten observations, a Galileo one late in the list','the clock of GLONASS is used',
'''int main() { State x = st(); Input u; u.accel = Vec3(1, 2, 9); u.gyro = Vec3(0.2, -0.3, 0.5); obsMeas::ZType z; for (int i = 0; i < 12; ++i) { obsMeas::Data d{Vec2(0, 0), SAT, GnssID::Galileo}; z.push_back(d); } auto r = h<obsMeas>(z, x, nullptr, u); return bad(r(22), r(0), 1e-6); }
''')
G='core/ekf/ekf_gen/ekf_gen_state.py'
ek('u06','C19',[(G,"        out.append(f\"xp.{s.counter_var} = {s.counter_var};\")\n","")],'a state with ambiguities','the state moved by an increment has no ambiguities left',
"""int main() { State x = st(); x.num_sd = 2; x.sd[0](0) = 1; x.sd[1](0) = 2; ErrorState d = ErrorState::Zero(); d.sd(1)(0) = 3; State y = x + d; return y.num_sd == 2 && y.sd[1](0) == 5.0 ? 0 : 1; }
""")
