// Native side of the contracts: replay of counterexamples and randomised search for one (used only
// after an obligation has failed; it never decides that a property holds).
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <chrono>
#include <exception>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
struct Reg { std::string n; void (*f)(); std::string o; };
static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
VcReg::VcReg(const char* n, void (*f)(), const char* o) { regs().push_back({n, f, o}); }
struct VcAssume {}; struct VcFail { std::string label; };
static std::map<std::string, std::string> vals; static bool search = false;
static std::map<std::string, int> names; static std::vector<std::pair<std::string, std::string>> log_;
static uint64_t rs; static double tol = 1e-6, floor_ = 1.0;
static std::vector<uint64_t> hist; static std::vector<double> dhist;
static std::vector<std::string> failed; static int iter_style = 0; static bool failfast = true;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static std::string nm(const char* n) { int k = names[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static uint64_t mask(int b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static uint64_t rbits(int bits) {
  uint64_t m = mask(bits);
  switch (rnd() % 10) {
    case 0: return rnd() % 4 & m;
    case 1: return (0 - (rnd() % 4)) & m;
    case 2: return (1ull << (rnd() % bits)) & m;
    case 3: return ((1ull << (rnd() % bits)) - 1) & m;
    case 4: case 5: if (!hist.empty()) return (hist[rnd() % hist.size()] + (int64_t)(rnd() % 3) - 1) & m; return rnd() & m;
    case 6: return (rnd() >> (rnd() % 64)) & m;
    case 7: return (bits > 8 ? rnd() % 1000 : rnd()) & m;
    default: return rnd() & m;
  }
}
static double rdouble0();
static double clip = 0;      // obligations over the reals: samples of moderate size, so that rounding stays below the tolerance
static double rdouble() { double d = rdouble0(); if (clip > 0 && std::isfinite(d) && fabs(d) > clip) d = fmod(d, clip); return d; }
static double rdouble0() {
  double g = (u01() + u01() + u01() + u01() - 2) * 1.7320508;
  switch (iter_style) {
    case 0: return g;
    case 1: return g * 1e-3;
    case 2: return (u01() * 2 - 1) * 1e-7;
    case 3: return (u01() * 2 - 1) * 10;
    case 4: {
      static const double sp[] = {0, 1, -1, 0.5, -0.5, 2, -2, 1e-9, -1e-9, 1e9, 3.14159265358979, -3.14159265358979, 1e-4, -1e-4, 0.00005, 100, -100, 1e6, -1e6};
      return sp[rnd() % (sizeof sp / sizeof *sp)]; }
    case 5: if (!dhist.empty() && rnd() % 2) { double d = dhist[rnd() % dhist.size()]; switch (rnd() % 4) { case 0: return d; case 1: return -d; case 2: return d + g * 1e-6; default: return d * (1 + g * 1e-12); } } return g * 100;
    default: return g * pow(10, (double)(int)(rnd() % 19) - 9);
  }
}
template <class F> static std::string get(const std::string& n, F gen) {
  if (!search) { auto it = vals.find(n); if (it == vals.end() && n[0] == '~') it = vals.find(n.substr(1)); if (it != vals.end()) return it->second; return "0"; }   // ~x: an input the contract scales before it becomes x
  std::string v = gen(); log_.push_back({n, v}); return v;
}
static std::string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::string dhex(double d) { uint64_t b; memcpy(&b, &d, 8); return hex(b); }
static int phase = 0; static std::string target; static double step; static std::vector<double> rec;
static void (*current)() = nullptr; static size_t deriv_k = 0; static std::map<std::string, std::vector<double>> dtab;
static std::set<std::string> ints;
extern "C" {
uint64_t vc_any_bits(const char* n, int bits) {
  uint64_t v = strtoull(get(nm(n), [&] { return hex(rbits(bits)); }).c_str(), 0, 0) & mask(bits); hist.push_back(v); return v; }
int64_t vc_any_range(const char* n, int bits, int64_t lo, int64_t hi) {
  std::string n_ = nm(n); 
  std::string s = get(n_, [&] {
    uint64_t span = (uint64_t)hi - (uint64_t)lo; int64_t v;
    switch (rnd() % 8) { case 0: v = lo + (int64_t)(span ? rnd() % 3 % (span + 1 ? span + 1 : ~0ull) : 0); break; case 1: v = hi - (int64_t)(span ? rnd() % 3 % (span + 1 ? span + 1 : ~0ull) : 0); break;
      case 2: v = (int64_t)(rnd() % 7) - 3; break; case 3: case 4: v = hist.empty() ? (int64_t)rnd() : (int64_t)(hist[rnd() % hist.size()] + (int64_t)(rnd() % 3) - 1); break;
      default: v = lo + (int64_t)(span + 1 ? rnd() % (span + 1) : rnd()); }
    if (v < lo || v > hi) v = lo + (int64_t)(span + 1 ? rnd() % (span + 1) : rnd());
    return hex((uint64_t)v); });
  int64_t v = (int64_t)strtoull(s.c_str(), 0, 0); if (bits < 64) v = (int64_t)((uint64_t)v << (64 - bits)) >> (64 - bits);
  if (v < lo || v > hi) throw VcAssume{};
  ints.insert(n_);
  if (phase && n_ == target) return v + phase;
  hist.push_back((uint64_t)v); return v; }
double vc_any_double(const char* n_) { std::string n = nm(n_); uint64_t b = strtoull(get(n, [&] { return dhex(rdouble()); }).c_str(), 0, 0); double d; memcpy(&d, &b, 8); dhist.push_back(d);
  if (phase && n == target) d += phase * step * fmax(1.0, fabs(d)); return d; }
double vc_param(const char* n, double v) { return phase && n == target ? v + phase * step : v; }
// derivative of y with respect to the input called n: symbolic in the verifier, a central difference here
double vc_deriv(double y, const char* n) {
  if (phase) { rec.push_back(y); return 0; }
  size_t k = deriv_k++;
  if (!dtab.count(n)) {
    auto names0 = names; auto log0 = log_; auto vals0 = vals; bool search0 = search; auto hist0 = hist; auto dhist0 = dhist;
    if (search) for (auto& p : log_) vals[p.first] = p.second;
    search = false; target = n; step = 1e-5;
    double v = 0; { uint64_t b = vals.count(n) ? strtoull(vals[n].c_str(), 0, 0) : 0; memcpy(&v, &b, 8); }
    std::vector<double> up, dn;
    phase = 1; rec.clear(); names.clear(); current(); up = rec;
    phase = -1; rec.clear(); names.clear(); current(); dn = rec;
    phase = 0; names = names0; log_ = log0; vals = vals0; search = search0; hist = hist0; dhist = dhist0;
    std::vector<double> d(up.size());
    for (size_t i = 0; i < up.size() && i < dn.size(); i++) d[i] = (up[i] - dn[i]) / (ints.count(n) ? 2.0 : 2 * step * fmax(1.0, fabs(v)));
    dtab[n] = d;
  }
  return k < dtab[n].size() ? dtab[n][k] : 0;
}
float vc_any_float(const char* n) { uint32_t b = (uint32_t)strtoull(get(nm(n), [&] { float f = (float)rdouble(); uint32_t q; memcpy(&q, &f, 4); return hex(q); }).c_str(), 0, 0); float d; memcpy(&d, &b, 4); return d; }
void vc_any_bytes(void* p, size_t n, const char* name) {
  std::string base = nm(name); uint64_t style = rnd() % 4;
  for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)strtoull(get(base + "[" + std::to_string(i) + "]", [&] {
    uint64_t v = style == 0 ? rnd() : style == 1 ? (rnd() % 2 ? 0 : rnd()) : style == 2 ? (rnd() % 2 ? 255 : rnd()) : (rnd() % 3 ? (i ? ((uint8_t*)p)[i - 1] : 0) : rnd());
    return hex(v & 255); }).c_str(), 0, 0); }
void vc_any_array(void* p, size_t n, const char* name) { vc_any_bytes(p, n, name); }
void vc_assume(bool c) { if (!c && !phase) throw VcAssume{}; }
// known findings are listed in VC_IGNORE, separated by |
static bool ignored(const char* l) { const char* e = getenv("VC_IGNORE"); if (!e) return false; return (std::string("|") + e + "|").find(std::string("|") + l + "|") != std::string::npos; }
void vc_assert(bool c, const char* l) { if (!c && !phase && !ignored(l)) throw VcFail{l}; }
void vc_assert_real(double a, double b, const char* l) {
  double s = fmax(floor_, fmax(fabs(a), fabs(b)));
  if (phase || ignored(l)) return;
  if (!(fabs(a - b) <= tol * s) && std::isfinite(a - b)) throw VcFail{l};
  if (!std::isfinite(a - b) && std::isfinite(a) != std::isfinite(b)) throw VcFail{l}; }
void vc_assert_near(double a, double b, double e, const char* l) {
  if (phase || ignored(l)) return;
  if (!(fabs(a - b) <= e + tol * fmax(fabs(a), fabs(b))) && (std::isfinite(a - b) || std::isfinite(a) != std::isfinite(b))) throw VcFail{l}; }
void vc_cover(const char*) {}
void vc_abort_ok() {}
int vc_is_ir() { return 0; }
double vc_atan2(double y, double x) { return atan2(y, x); }
}
static sigjmp_buf jb; static volatile int insig = 0;
static void onsig(int s) { insig = s; siglongjmp(jb, s); }
// 0 held, 1 violated, 2 precondition not met
static int once(void (*f)(), std::string& why) {
  names.clear(); log_.clear(); hist.clear(); dhist.clear(); phase = 0; deriv_k = 0; dtab.clear(); current = f;
  int s = sigsetjmp(jb, 1);
  if (s) { why = "real code crashed: signal " + std::to_string(s); return 1; }
  try { f(); }
  catch (VcAssume&) { return 2; }
  catch (VcFail& e) { why = e.label; return 1; }
  catch (std::exception& e) { why = std::string("uncaught exception: ") + e.what(); return 1; }
  catch (...) { why = "uncaught exception"; return 1; }
  return 0;
}
int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: %s CONTRACT replay FILE | CONTRACT search OUT SECONDS SEED [LABELPREFIX]\n", argv[0]); return 3; }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, onsig);
  std::string mode = argv[2];
  for (auto& r : regs()) if (r.n == argv[1]) {
    size_t p = r.o.find("tol="); if (p != std::string::npos) tol = atof(r.o.c_str() + p + 4);
    if ((p = r.o.find("rel=")) != std::string::npos) { tol = atof(r.o.c_str() + p + 4); floor_ = 0; }   // purely relative
    std::string why;
    if (mode == "replay") {
      FILE* f = fopen(argv[3], "r"); char a[512], b[512];
      if (!f) return 3;
      char line[2048];
      while (fgets(line, sizeof line, f)) if (sscanf(line, "input %511s %511s", a, b) == 2) vals[a] = b;
      fclose(f);
      int k = once(r.f, why);
      if (k == 1) { printf("VIOLATED %s: %s\n", argv[1], why.c_str()); fflush(stdout); _exit(1); }
      printf(k == 2 ? "PRECONDITION-NOT-MET\n" : "HELD %s\n", argv[1]); fflush(stdout); _exit(k == 2 ? 2 : 0);
    }
    search = true; double secs = atof(argv[4]); rs = 0x9E3779B97F4A7C15ULL * (strtoull(argv[5], 0, 0) + 1) | 1;
    int maxstyle = 7; if (r.o.find("mode=") == std::string::npos) clip = 10;

    auto t0 = std::chrono::steady_clock::now(); long n = 0, ok = 0;
    bool fo = r.o.find("fstyle=unit") != std::string::npos;
    for (;; n++) {
      if ((n & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      iter_style = fo ? (int)(n % 2) * 3 : (int)(n % maxstyle);
      int k = once(r.f, why);
      if (k != 2) ok++;
      if (k == 1) {
        if (argc > 6 && why.rfind(argv[6], 0) != 0) continue;
        FILE* f = fopen(argv[3], "w");
        fprintf(f, "# found by native search after the obligation failed\nviolated %s\n", why.c_str());
        for (auto& p : log_) fprintf(f, "input %s %s\n", p.first.c_str(), p.second.c_str());
        fclose(f); printf("VIOLATED %s: %s\n", argv[1], why.c_str()); fflush(stdout); _exit(1);
      }
    }
    printf("NOT-FOUND after %ld runs (%ld within the precondition)\n", n, ok); fflush(stdout); _exit(0);
  }
  fprintf(stderr, "no contract %s\n", argv[1]); return 3;
}
