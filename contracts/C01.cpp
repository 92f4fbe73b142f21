// C01: time point arithmetic is exact to the nanosecond and always yields a canonical time point.
#include "time_util.h"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
using namespace mc;

CONTRACT(construct, "mode=int") {
  int64_t s = vc::in("s", -T_LIM, T_LIM), n = vc::any<int64_t>("n");
  UTCTime t(s, n);
  ENSURES(canonical(t), "constructed time is canonical");
  ENSURES(total_ns(t) == (__int128)s * 1000000000 + n, "constructed time has the given value");
}
CONTRACT(construct_default, "") {
  UTCTime t;
  ENSURES(t.sec == 0 && t.nsec == 0, "default time is the epoch");
}
CONTRACT(construct_double, "mode=int") {
  double s = vc::any<double>("s");
  REQUIRES(s > -4.5e9 && s < 4.5e9);
  UTCTime t(s);
  ENSURES(canonical(t), "time from seconds is canonical");
  ENSURES(total_ns(t) == (int64_t)(s * 1e9), "time from seconds is the whole nanoseconds of the argument");
}
CONTRACT(wrap, "mode=int") {
  UTCTime t; t.sec = vc::in("s", -T_LIM, T_LIM); t.nsec = vc::in("n", -1000000000LL, 1999999999LL);
  __int128 v = total_ns(t);
  t.wrapNsec();
  ENSURES(canonical(t), "wrapping gives a canonical time");
  ENSURES(total_ns(t) == v, "wrapping keeps the value");
}
CONTRACT(plus, "mode=int") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn");
  UTCTime c = a + b;
  ENSURES(canonical(c), "sum is canonical");
  ENSURES(total_ns(c) == total_ns(a) + total_ns(b), "sum is exact");
  UTCTime d = a; d += b;
  ENSURES(d.sec == c.sec && d.nsec == c.nsec, "compound sum agrees");
}
CONTRACT(minus, "mode=int") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn");
  UTCTime c = a - b;
  ENSURES(canonical(c), "difference is canonical");
  ENSURES(total_ns(c) == total_ns(a) - total_ns(b), "difference is exact");
  UTCTime d = a; d -= b;
  ENSURES(d.sec == c.sec && d.nsec == c.nsec, "compound difference agrees");
}
CONTRACT(inverse, "mode=int") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn");
  UTCTime c = (a + b) - b;
  ENSURES(c.sec == a.sec && c.nsec == a.nsec, "subtracting what was added restores the time");
  UTCTime e = a; e += b; e -= b;
  ENSURES(e.sec == a.sec && e.nsec == a.nsec, "compound subtracting what was added restores the time");
}
CONTRACT(self_alias, "mode=int") {
  UTCTime a = any_time("as", "an"), b = a;
  a += a;
  ENSURES(canonical(a) && total_ns(a) == 2 * total_ns(b), "adding a time to itself doubles it");
  b -= b;
  ENSURES(b.sec == 0 && b.nsec == 0, "a time minus itself is zero");
}
CONTRACT(whole_seconds, "mode=int") {
  UTCTime a = any_time("as", "an");
  int s = vc::any<int>("s");
  UTCTime p = a + s, m = a - s, pc = a, mc_ = a;
  pc += s; mc_ -= s;
  ENSURES(canonical(p) && total_ns(p) == total_ns(a) + (__int128)s * 1000000000, "adding whole seconds is exact");
  ENSURES(canonical(m) && total_ns(m) == total_ns(a) - (__int128)s * 1000000000, "subtracting whole seconds is exact");
  ENSURES(pc.sec == p.sec && pc.nsec == p.nsec, "compound whole-second sum agrees");
  ENSURES(mc_.sec == m.sec && mc_.nsec == m.nsec, "compound whole-second difference agrees");
}
CONTRACT(fractional_canonical, "") {
  // exact IEEE reading is not needed here: the result is canonical whatever the product rounds to
  UTCTime a = any_time("as", "an");
  double s = vc::any<double>("s");
  REQUIRES(s > -4.5e9 && s < 4.5e9);
  UTCTime p = a + s, m = a - s, pc = a, mc_ = a;
  pc += s; mc_ -= s;
  ENSURES(canonical(p), "adding seconds is canonical");
  ENSURES(canonical(m), "subtracting seconds is canonical");
  ENSURES(pc.sec == p.sec && pc.nsec == p.nsec, "compound sum of seconds agrees");
  ENSURES(mc_.sec == m.sec && mc_.nsec == m.nsec, "compound difference of seconds agrees");
}
CONTRACT(fractional_value_pos, "mode=int") {
  UTCTime a = any_time("as", "an");
  double s = vc::any<double>("s");
  REQUIRES(s >= 0 && s < 4.5e9);
  LEMMA((int64_t)(s * 1e9) / 1000000000 == (int64_t)s, "whole seconds of a product");
  ENSURES(total_ns(a + s) == total_ns(a) + (int64_t)(s * 1e9), "adding seconds adds their whole nanoseconds");
  ENSURES(total_ns(a - s) == total_ns(a) - (int64_t)(s * 1e9), "subtracting seconds subtracts their whole nanoseconds");
}
CONTRACT(fractional_value_neg, "mode=int") {
  UTCTime a = any_time("as", "an");
  double s = vc::any<double>("s");
  REQUIRES(s <= 0 && s > -4.5e9);
  LEMMA((int64_t)(s * 1e9) / 1000000000 == (int64_t)s, "whole seconds of a product");
  ENSURES(total_ns(a + s) == total_ns(a) + (int64_t)(s * 1e9), "adding negative seconds adds their whole nanoseconds");
  ENSURES(total_ns(a - s) == total_ns(a) - (int64_t)(s * 1e9), "subtracting negative seconds subtracts their whole nanoseconds");
}
CONTRACT(to_sec, "mode=int") {
  UTCTime a = any_time("as", "an", 100000000000LL);
  ENSURES_REAL(a.toSec(), (double)a.sec + (double)a.nsec / 1e9, "seconds value of a time");
}
CONTRACT(random_canonical, "") {
  UTCTime a = UTCTime::Random();
  ENSURES(canonical(a), "random time is canonical");
}
CONTRACT(quantized_copy, "") {
  UTCTime a = any_time("as", "an");
  QuantizedTime q = a.quantized();
  ENSURES(q.sec == a.sec && q.nsec == a.nsec, "quantised copy holds the same instant");
  QuantizedTime r; r = a;
  ENSURES(r.sec == a.sec && r.nsec == a.nsec, "assigning a time to a quantised time keeps the instant");
}
