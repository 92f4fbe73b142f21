#pragma once
#include "vc.h"
#include "common/utctime.h"
#include "common/quantized_time.h"
// Every canonical time point with |sec| <= LIM (about 127,000 years around 1970).
static const int64_t T_LIM = 4000000000000LL;
inline bool canonical(const mc::UTCTime& t) { return t.nsec >= 0 && t.nsec < 1000000000LL; }
inline __int128 total_ns(const mc::UTCTime& t) { return (__int128)t.sec * 1000000000 + t.nsec; }
inline mc::UTCTime any_time(const char* s, const char* ns, int64_t lim = T_LIM) {
  mc::UTCTime t; t.sec = vc::in(s, -lim, lim); t.nsec = vc::in(ns, 0, 999999999); return t;
}
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b < 0) ? q - 1 : q; }
inline int64_t fmod_(int64_t a, int64_t b) { int64_t r = a % b; return r < 0 ? r + b : r; }
