// C02: time points are totally ordered by the instant they name; quantised comparisons are a consistent
// tolerance comparison with a half width of half the quantisation step.
#include "time_util.h"
#include "common/utctime.cxx"
#include "common/quantized_time.cxx"
using namespace mc;
//@ assume: quantised comparisons: the double-precision seconds value of a difference is treated as the exact real number

CONTRACT(order, "mode=int") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn");
  __int128 x = total_ns(a), y = total_ns(b);
  ENSURES((a < b) == (x < y), "less-than follows the instant");
  ENSURES((a > b) == (x > y), "greater-than follows the instant");
  ENSURES((a <= b) == (x <= y), "less-or-equal follows the instant");
  ENSURES((a >= b) == (x >= y), "greater-or-equal follows the instant");
  ENSURES((a == b) == (x == y), "equality follows the instant");
  ENSURES((a != b) == (x != y), "inequality follows the instant");
}
CONTRACT(consistent, "") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn");
  bool lt = a < b, gt = a > b, eq = a == b;
  ENSURES((int)lt + (int)gt + (int)eq == 1, "exactly one of less, equal, greater");
  ENSURES((a <= b) == (lt || eq) && (a >= b) == (gt || eq), "non-strict comparisons are strict or equal");
  ENSURES((a != b) == !eq, "not-equal is the negation of equal");
  ENSURES((b > a) == lt && (b >= a) == (a <= b) && (b == a) == eq, "swapping the operands mirrors the comparison");
}
CONTRACT(transitive, "") {
  UTCTime a = any_time("as", "an"), b = any_time("bs", "bn"), c = any_time("cs", "cn");
  ENSURES(!(a < b && b < c) || a < c, "less-than is transitive");
  ENSURES(!(a <= b && b <= c) || a <= c, "less-or-equal is transitive");
}
CONTRACT(extremes, "") {
  UTCTime a; a.sec = vc::any<int64_t>("as"); a.nsec = vc::in("an", 0, 999999999);
  ENSURES(UTCTime::min() <= a && a <= UTCTime::max(), "every time lies between the extremes");
  ENSURES(!(a < INVALID_TIME), "no time precedes the invalid time");
}
// Quantised: equal when the instants are at most half a quantum apart, otherwise ordered by the instant.
CONTRACT(quantized, "mode=int") {
  UTCTime t = any_time("as", "an", 100000000000LL);
  UTCTime u = any_time("bs", "bn", 100000000000LL);
  QuantizedTime q = u.quantized();
  const __int128 half = 50000;   // half of the 1e-4 s quantum in ns
  __int128 d = total_ns(u) - total_ns(t);
  bool eq = d <= half && d >= -half, gt = d > half, lt = d < -half;
  ENSURES((q == t) == eq && (q != t) == !eq, "quantised equality is being within half a quantum");
  ENSURES((q > t) == gt && (q < t) == lt, "quantised strict order is being more than half a quantum apart");
  ENSURES((q >= t) == (gt || eq) && (q <= t) == (lt || eq), "quantised non-strict order is strict or equal");
  ENSURES((t == q) == eq && (t != q) == !eq, "mirrored quantised equality agrees");
  ENSURES((t < q) == gt && (t > q) == lt, "mirrored quantised strict order agrees");
  ENSURES((t <= q) == (gt || eq) && (t >= q) == (lt || eq), "mirrored quantised non-strict order agrees");
}
CONTRACT(quantized_fp, "mode=fpa") {
  UTCTime t = any_time("as", "an", 1000000);
  UTCTime u = any_time("bs", "bn", 1000000);
  REQUIRES(u.sec - t.sec >= -1 && u.sec - t.sec <= 1);
  QuantizedTime q = u.quantized();
  ENSURES((int)(q < t) + (int)(q == t) + (int)(q > t) == 1, "machine arithmetic: exactly one of less, equal, greater");
}
