// Contract primitives.  The same contract text is (a) compiled to LLVM IR, where irvc turns it and the
// real functions it calls into proof obligations for all inputs, and (b) compiled natively, where it
// replays a concrete counterexample against the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
extern "C" {
uint64_t vc_any_bits(const char* name, int bits);
int64_t vc_any_range(const char* name, int bits, int64_t lo, int64_t hi);
double vc_any_double(const char* name);
float vc_any_float(const char* name);
void vc_any_bytes(void* p, size_t n, const char* name);
void vc_any_array(void* p, size_t n, const char* name);
void vc_assume(bool c);
void vc_assert(bool c, const char* label);
void vc_assert_real(double a, double b, const char* label);
void vc_assert_near(double a, double b, double eps, const char* label);
void vc_cover(const char* label);
void vc_abort_ok();
int vc_is_ir();
double vc_atan2(double y, double x);    // the library function, for a stub that stands in for it
double vc_param(const char* name, double value);   // an input of that name whose value is the one given: vc_deriv can vary it
double vc_deriv(double y, const char* input);   // derivative with respect to the input of that name
}
namespace vc {
template <typename T> struct A;
#define VC_INT(T, B) template <> struct A<T> { static T any(const char* n) { return (T)vc_any_bits(n, B); } }
VC_INT(uint8_t, 8); VC_INT(int8_t, 8); VC_INT(char, 8); VC_INT(uint16_t, 16); VC_INT(int16_t, 16);
VC_INT(uint32_t, 32); VC_INT(int32_t, 32); VC_INT(unsigned long, 64); VC_INT(long, 64);
VC_INT(unsigned long long, 64); VC_INT(long long, 64);
template <> struct A<bool> { static bool any(const char* n) { return (vc_any_bits(n, 8) & 1) != 0; } };
template <> struct A<double> { static double any(const char* n) { return vc_any_double(n); } };
template <> struct A<float> { static float any(const char* n) { return vc_any_float(n); } };
template <typename T> T any(const char* n) { return A<T>::any(n); }
inline int64_t in(const char* n, int64_t lo, int64_t hi) { return vc_any_range(n, 64, lo, hi); }
inline int in32(const char* n, int lo, int hi) { return (int)vc_any_range(n, 32, lo, hi); }
}
#define REQUIRES(c) vc_assume(c)
#define ENSURES(c, label) vc_assert((c), label)
#define ENSURES_REAL(a, b, label) vc_assert_real((a), (b), label)
// at most eps apart, for all inputs (proved by interval arithmetic on the normal form of the difference)
#define ENSURES_NEAR(a, b, eps, label) vc_assert_near((a), (b), (eps), label)
// an intermediate fact: proved where it stands, then available to the obligations after it
#define LEMMA(c, label) do { bool vc_l_ = (c); vc_assert(vc_l_, label); vc_assume(vc_l_); } while (0)
#define COVER(label) vc_cover(label)
struct VcReg { VcReg(const char* n, void (*f)(), const char* o); };
#ifdef VC_NATIVE
#define CONTRACT(name, opts) \
  extern "C" void vc_c_##name(); \
  static VcReg vc_r_##name(#name, vc_c_##name, opts); \
  extern "C" void vc_c_##name()
#else
#define CONTRACT(name, opts) \
  extern "C" { __attribute__((used)) char vc_o_##name[] = opts; } \
  extern "C" __attribute__((used)) void vc_c_##name()
#endif
