// P13: accuracy, range, monotonicity and symmetry of the fixed-point functions.
#include "mcx.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <set>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
using std::int16_t; using std::int32_t; using std::int64_t;
#ifndef MEASURE
#define MEASURE 0
#endif
// error bounds in raw output units: {int32, int16}
struct Tol { double e32, e16; double mono32, mono16; };
static const Tol EXP = {500, 2, 2, 0}, IVL = {500, 2, 2, 0}, OMX = {14.5, 12, 14, 16}, OOX = {7.5, 6, 7, 8}, TANH = {310, 12.5, 14, 16}, LOGI = {156, 7, 7, 8};
static double worst[6][2], worstm[6][2];
template <typename T> struct S {
  static double one() { return std::ldexp(1.0, 8 * sizeof(T) - 1); }
  static double err(T got, double want) { double w = std::min(want * one(), one() - 1); return std::fabs(got - w); }
  static double tol(const Tol& t) { return sizeof(T) == 4 ? t.e32 : t.e16; }
  static double mono(const Tol& t) { return sizeof(T) == 4 ? t.mono32 : t.mono16; }
};
template <typename T> void check(const char* name, int fn, const Tol& t, int I, T raw, T got, double want, double lo, double hi) {
  double e = S<T>::err(got, want);
  if (MEASURE) { double& w = worst[fn][sizeof(T) == 2]; if (e > w) { w = e; fprintf(stderr, "%s%d I=%d raw=%d err=%g\n", name, (int)sizeof(T) * 8, I, raw, e); } }
  else if (e > S<T>::tol(t)) mcx::fail("%s of raw %d (%d-bit, %d integer bits) is raw %d, %.1f units away from the real function", name, raw, (int)sizeof(T) * 8, I, got, e);
  const double one = S<T>::one();
  if (got < lo * one || got > hi * one) mcx::fail("%s of raw %d (%d-bit, %d integer bits) is raw %d, outside the range of the function", name, raw, (int)sizeof(T) * 8, I, got);
}
template <typename T> struct Mono {  // sign: +1 increasing, -1 decreasing
  const char* name; int fn; const Tol& t; int I, sign; bool have; T px, py;
  Mono(const char* n, int f, const Tol& tt, int i, int s) : name(n), fn(f), t(tt), I(i), sign(s), have(false), px(0), py(0) {}
  void add(T x, T y) {
    if (have) {
      double d = sign > 0 ? (double)py - y : (double)y - py;
      if (MEASURE) { double& w = worstm[fn][sizeof(T) == 2]; if (d > w) { w = d; fprintf(stderr, "mono %s%d I=%d raw=%d d=%g\n", name, (int)sizeof(T) * 8, I, x, d); } }
      else if (d > S<T>::mono(t)) mcx::fail("%s (%d-bit, %d integer bits) goes the wrong way by %.0f units between raw %d and %d", name, (int)sizeof(T) * 8, I, d, px, x);
    }
    have = true; px = x; py = y;
  }
};
template <typename T, int I> struct One {
  typedef FixedPoint<T, I> F;
  static void run(const std::vector<T>& v) {
    const double sc = std::ldexp(1.0, F::kFractionalBits);
    Mono<T> me("exp", 0, EXP, I, 1), mt("tanh", 1, TANH, I, 1), ml("logistic", 2, LOGI, I, 1);
    const T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
    for (T x : v) {
      const double r = x / sc;
      if (x <= 0) {
        T y = exp_on_negative_values(F::FromRaw(x)).raw();
        check<T>("exp", 0, EXP, I, x, y, std::exp(r), 0, 1); me.add(x, y);
        if (x == 0 && y != mx) mcx::fail("exp(0) is raw %d", y);
        mcx::calls();
      }
      if (x != mn) {
        Tail<F, (F::kFractionalBits > 2)>::go(x, r, mt);
        T y = logistic(F::FromRaw(x)).raw(), z = logistic(F::FromRaw(-x)).raw();
        check<T>("logistic", 2, LOGI, I, x, y, 1 / (1 + std::exp(-r)), 0, 1); ml.add(x, y);
        if (x == 0) { if (y != (T)((mx / 2) + 1)) mcx::fail("logistic(0) is raw %d", y); }
        else if ((int64_t)y + z != mx) mcx::fail("logistic of raw %d and its negative are %d and %d (%d integer bits): not symmetric", x, y, z, I);
        if (x > 0) { T w = logistic_on_positive_values(F::FromRaw(x)).raw(); if (w != y) mcx::fail("logistic_on_positive_values(%d) is %d, logistic is %d", x, w, y); }
        mcx::calls(2);
      }
      if (!(x & 255)) mcx::beat();
    }
    mcx::elements(v.size());
  }
  template <typename FF, bool> struct Tail { static void go(T, double, Mono<T>&) {} };
  template <typename FF> struct Tail<FF, true> { static void go(T x, double r, Mono<T>& mt) {
    T y = tanh(F::FromRaw(x)).raw(), z = tanh(F::FromRaw(-x)).raw();
    check<T>("tanh", 1, TANH, I, x, y, std::tanh(r), -1, 1); mt.add(x, y);
    if (x == 0 && y != 0) mcx::fail("tanh(0) is raw %d", y);
    if (y != -z) mcx::fail("tanh of raw %d and its negative are %d and %d (%d integer bits): not antisymmetric", x, y, z, I);
    if (x < 0) { T w = neg_tanh_on_negative_values(F::FromRaw(x)).raw(); if (w != -y) mcx::fail("neg_tanh_on_negative_values(%d) is %d, tanh is %d", x, w, y); }
    mcx::calls(2);
  } };
};
template <typename T> void helpers(const std::vector<T>& v) {
  typedef FixedPoint<T, 0> F;
  const double one = S<T>::one();
  Mono<T> mi("exp on interval", 3, IVL, 0, 1), mo("1/(1+x)", 4, OOX, 0, -1), mm("(1-x)/(1+x)", 5, OMX, 0, -1);
  for (T x : v) {
    const double r = x / one;
    if (x < 0 && r >= -0.25) {
      T y = exp_on_interval_between_negative_one_quarter_and_0_excl(F::FromRaw(x)).raw();
      check<T>("exp on interval", 3, IVL, 0, x, y, std::exp(r), 0.7, 1); mi.add(x, y);
    }
    if (x >= 0) {
      T y = one_over_one_plus_x_for_x_in_0_1(F::FromRaw(x)).raw();
      check<T>("1/(1+x)", 4, OOX, 0, x, y, 1 / (1 + r), 0.5 - 8 / one, 1); mo.add(x, y);
      y = one_minus_x_over_one_plus_x_for_x_in_0_1(F::FromRaw(x)).raw();
      check<T>("(1-x)/(1+x)", 5, OMX, 0, x, y, (1 - r) / (1 + r), -OMX.e16 / one, 1); mm.add(x, y);
    }
    if (!(x & 255)) mcx::beat();
    mcx::calls(3);
  }
  mcx::elements(v.size());
}
// boundary neighbourhoods of every multiple of a quarter (and of each power of two), plus a complete grid of the given step
static std::vector<int32_t> points(int I, int64_t lo, int64_t hi, int64_t step, int near) {
  std::vector<int32_t> v;
  const int f = 31 - I;
  auto add = [&](int64_t x) { if (x >= lo && x < hi && x >= INT32_MIN && x <= INT32_MAX) v.push_back((int32_t)x); };
  for (int64_t x = lo; x < hi; x += step) add(x);
  if (f >= 2) {
    const int64_t q = 1ll << (f - 2); int64_t stepq = q; while ((hi - lo) / stepq > 4096) stepq *= 2;
    for (int64_t m = (lo / stepq - 1) * stepq; m <= hi; m += stepq) for (int d = -near; d <= near; d++) add(m + d);
    for (int64_t k = 0; k < 200; k++) for (int s = -1; s <= 1; s += 2) for (int d = -near; d <= near; d++) add(s * k * q + d);
  }
  for (int b = 0; b <= 31; b++) for (int s = -1; s <= 1; s += 2) for (int d = -near; d <= near; d++) add(s * (1ll << b) + d);
  for (int d = 0; d <= near; d++) { add(INT32_MIN + d); add((int64_t)INT32_MAX - d); }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <int I, int N> struct All32 { static void run(bool T, int parts) {
  for (int p = 0; p < parts; p++) {
    if (!mcx::begin("32-bit functions, %d integer bits, part %d of %d", I, p, parts)) continue;
    const int64_t w = (1ll << 32) / parts, lo = INT32_MIN + w * p;
    One<int32_t, I>::run(points(I, lo - (p ? 64 : 0), lo + w, T ? 4093 : 65521, T ? 64 : 12));
  }
  All32<I + 1, N>::run(T, parts);
} };
template <int N> struct All32<N, N> { static void run(bool, int) {} };
template <int I, int N> struct All16 { static void run() {
  if (mcx::begin("all 16-bit inputs, %d integer bits", I)) {
    std::vector<int16_t> v; for (int a = -32768; a < 32768; a++) v.push_back(a);
    One<int16_t, I>::run(v);
  }
  All16<I + 1, N>::run();
} };
template <int N> struct All16<N, N> { static void run() {} };
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  if (mcx::begin("reciprocal helpers and exp on [-1/4,0), all 16-bit inputs")) {
    std::vector<int16_t> v; for (int a = -32768; a < 32768; a++) v.push_back(a);
    helpers<int16_t>(v);
  }
  All16<0, 14>::run();
  for (int p = 0; p < 16; p++) {
    if (!mcx::begin("reciprocal helpers and exp on [-1/4,0), 32 bit, part %d", p)) continue;
    const int64_t w = (1ll << 32) / 16, lo = INT32_MIN + w * p;
    helpers<int32_t>(points(0, lo, lo + w, T ? 509 : 16381, T ? 128 : 24));
  }
  All32<0, 30>::run(T, 4);
}
MCX_MAIN
