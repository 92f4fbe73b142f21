#pragma once
#include "vc.h"
#include <cstring>
#include <string>
#include <type_traits>
#include "common/ephemeris/eph.h"
#include "common/ephemeris/bit_tools.h"
//@ stub: ^mc::(dbg|info|warn|error)\( => nop
//@ stub: ^.*mc::fmt< => nop
//@ stub: ^std::(__cxx11::)?basic_string => nop
//@ stub: ^std::allocator|^std::__new_allocator => nop
inline bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
inline bool same(int64_t a, int64_t b) { return a == b; }
inline bool same(int a, int b) { return a == b; }
inline bool same(unsigned a, unsigned b) { return a == b; }
inline bool same(const mc::UTCTime& a, const mc::UTCTime& b) { return a.sec == b.sec && a.nsec == b.nsec; }
template <typename T> struct AnyOf { static T get(const char* n) { return vc::any<T>(n); } };
template <> struct AnyOf<mc::UTCTime> { static mc::UTCTime get(const char*) { mc::UTCTime t; t.sec = vc::in("sec", -4000000000000LL, 4000000000000LL); t.nsec = vc::in("nsec", 0, 999999999); return t; } };
// bits pos..pos+len-1 of a big-endian bit string
static inline uint64_t ubits(const uint8_t* b, int pos, int len) {
  uint64_t v = 0;
  for (int k = pos; k < pos + len; ++k) v = (v << 1) | (uint64_t)((b[k / 8] >> (7 - k % 8)) & 1);
  return v;
}
static inline int64_t sbits(const uint8_t* b, int pos, int len) { return (int64_t)(ubits(b, pos, len) << (64 - len)) >> (64 - len); }
#define KEPLER_FIELDS(X) X(toe) X(toc) X(tow) X(iodc) X(iode) X(week) X(toes) X(tocs) X(af2) X(af1) X(af0) X(m0) X(delta_n) X(ecc) X(sqrta) X(omega0) X(i0) X(w) X(omegadot) X(idot) X(cuc) X(cus) X(crc) X(crs) X(cic) X(cis)
#define F_ANY(f) e.f = AnyOf<std::decay_t<decltype(e.f)>>::get(#f);
#define F_COPY(f) d.f = e.f;
#define F_SAME(f) ENSURES(same(a.f, b.f), #f " is left alone");
