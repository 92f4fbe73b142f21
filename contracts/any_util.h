#pragma once
#include "vc.h"
// an input within bounds (natively a sample is moved into them)
static double anyd(const char* n, double lo, double hi) {
  if (vc_is_ir()) { double x = vc::any<double>(n); REQUIRES(x >= lo && x <= hi); return x; }
  char b[64] = "~"; int i = 0; while (n[i] && i < 60) { b[i + 1] = n[i]; ++i; } b[i + 1] = 0;
  double x = vc::any<double>(b); if (!(x >= lo && x <= hi)) { double y = std::fabs(x); if (!std::isfinite(y)) y = 0.5; y = y > 1 ? 1 / y : y; x = lo + (hi - lo) * y; }
  return vc_param(n, x);
}
// an input of any size for the verifier, up to 2 f in a native search
static double small(const char* n, double f) {
  if (vc_is_ir()) return vc::any<double>(n);
  char b[64] = "~"; int i = 0; while (n[i] && i < 60) { b[i + 1] = n[i]; ++i; } b[i + 1] = 0;
  double x = vc::any<double>(b); return vc_param(n, std::fmod(std::isfinite(x) ? x : 0.5, 2.0) * f);
}
