// P12: scalar fixed-point primitives against their mathematical definition.
#include "mcx.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <set>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
using std::int8_t; using std::int16_t; using std::int32_t; using std::int64_t;
typedef int64_t W;  // a 32-bit value shifted by up to 31 fits
static inline void count(u64 n) { mcx::elements(n); mcx::calls(n); }
// ---- definitions
static inline int64_t fl(int64_t a, int sh) { return a >> sh; }                       // floor(a / 2^sh)
template <typename T> static inline int64_t srdhm(T a, T b) {
  const int w = 8 * sizeof(T) - 1;
  int64_t r = fl((int64_t)a * b + (1ll << (w - 1)), w);
  return r > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : r;
}
static inline int64_t rdiv(int64_t x, int e) {  // nearest, ties away from zero
  if (!e) return x;
  int64_t a = x < 0 ? -x : x, q = (a + (1ll << (e - 1))) >> e;
  return x < 0 ? -q : q;
}
template <typename T> static inline int64_t sat(W x) {
  return x > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : x < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : (int64_t)x;
}
static inline int64_t half(int64_t a, int64_t b) { int64_t s = a + b; return s >= 0 ? (s + 1) / 2 : -((-s + 1) / 2); }

static std::vector<int32_t> lattice32(bool big) {
  std::set<int64_t> s;
  for (int i = 0; i <= 32; i++) for (int j = -1; j <= (big ? 32 : (i < 4 ? 4 : -1)); j++) for (int d = -2; d <= 2; d++) for (int g = -1; g <= 1; g += 2) for (int h = -1; h <= 1; h += 2) {
    int64_t v = h * ((1ll << i) + (j < 0 ? 0 : g * (1ll << j)) + d);
    if (v >= INT32_MIN && v <= INT32_MAX) s.insert(v);
  }
  for (int64_t k : {3, 5, 7, 10, 17, 255, 1000, 46340, 46341, 65535, 65537, 1431655765, 858993459, 715827882, 715827883, 1518500249, 1518500250, 2021161080, 1616928864}) { s.insert(k); s.insert(-k); }
  return std::vector<int32_t>(s.begin(), s.end());
}
static std::vector<int16_t> lattice16() {
  std::set<int> s;
  for (int i = 0; i <= 16; i++) for (int j = -1; j < 16; j++) for (int d = -1; d <= 1; d++) for (int h = -1; h <= 1; h += 2) { int v = h * ((1 << i) + (j < 0 ? 0 : (1 << j)) + d); if (v >= -32768 && v <= 32767) s.insert(v); }
  return std::vector<int16_t>(s.begin(), s.end());
}
template <typename T> void compare(T a, T b) {
#define CMP(F, OP) if (F(a, b) != (T)((a OP b) ? -1 : 0)) mcx::fail(#F "(%d,%d) is %d", a, b, F(a, b))
  CMP(MaskIfEqual, ==); CMP(MaskIfNotEqual, !=); CMP(MaskIfGreaterThan, >); CMP(MaskIfGreaterThanOrEqual, >=); CMP(MaskIfLessThan, <); CMP(MaskIfLessThanOrEqual, <=);
  if (BitAnd(a, b) != (T)(a & b) || BitOr(a, b) != (T)(a | b) || BitXor(a, b) != (T)(a ^ b) || BitNot(a) != (T)~a) mcx::fail("bitwise operation on %d, %d", a, b);
  const int64_t s = (int64_t)a + b, d = (int64_t)a - b;
  if (s == (T)s && Add(a, b) != s) mcx::fail("Add(%d,%d) is %d", a, b, Add(a, b));
  if (d == (T)d && Sub(a, b) != d) mcx::fail("Sub(%d,%d) is %d", a, b, Sub(a, b));
  const int64_t m = (int64_t)a * b;
  if (m == (T)m && Mul(a, b) != m) mcx::fail("Mul(%d,%d) is %d", a, b, Mul(a, b));
  for (T mask : {(T)0, (T)-1, (T)0x55, (T)(-12345)}) if (SelectUsingMask(mask, a, b) != (T)((mask & a) | (~mask & b))) mcx::fail("SelectUsingMask(%d,%d,%d)", mask, a, b);
  typedef FixedPoint<T, 3> F; F x = F::FromRaw(a), y = F::FromRaw(b);
  if ((x == y) != (a == b) || (x != y) != (a != b)) mcx::fail("equality of %d and %d", a, b);
  if (MaskIfLessThan(x, y) != (T)(a < b ? -1 : 0) || (x & y).raw() != (T)(a & b) || SelectUsingMask((T)-1, x, y).raw() != a || SelectUsingMask((T)0, x, y).raw() != b) mcx::fail("fixed-point operators on %d, %d", a, b);
  if (s == (T)s && (x + y).raw() != s) mcx::fail("fixed-point sum of %d and %d", a, b);
  if (d == (T)d && (x - y).raw() != d) mcx::fail("fixed-point difference of %d and %d", a, b);
  if ((x * FixedPoint<T, 2>::FromRaw(b)).raw() != (T)srdhm<T>(a, b)) mcx::fail("fixed-point product of %d and %d", a, b);
  if (RoundingHalfSum(x, y).raw() != (T)half(a, b)) mcx::fail("fixed-point half sum of %d and %d", a, b);
  static_assert(decltype(x * FixedPoint<T, 2>())::kIntegerBits == 5, "integer bits add up");
}
template <typename T> void unary(T a) {
  if (a != std::numeric_limits<T>::min() && Neg(a) != -a) mcx::fail("Neg(%d)", a);
  if (MaskIfZero(a) != (T)(a == 0 ? -1 : 0) || MaskIfNonZero(a) != (T)(a ? -1 : 0)) mcx::fail("mask of %d", a);
  if (Dup<T>(a) != a) mcx::fail("Dup(%d)", a);
  const int w = 8 * sizeof(T);
  for (int e = 0; e < w; e++) {
    if (RoundingDivideByPOT<T>(a, e) != rdiv(a, e)) mcx::fail("RoundingDivideByPOT(%d,%d) is %d, nearest is %lld", a, e, RoundingDivideByPOT<T>(a, e), (long long)rdiv(a, e));
    if (ShiftRight(a, e) != (T)fl(a, e)) mcx::fail("ShiftRight(%d,%d) is %d", a, e, ShiftRight(a, e));
    W m = (W)a * (1ll << e);
    if (m == (T)m && ShiftLeft(a, e) != (T)m) mcx::fail("ShiftLeft(%d,%d) is %d, exact value %lld is representable", a, e, ShiftLeft(a, e), (long long)m);
  }
}
// compile-time exponents and formats
template <typename T, int E> struct Pot { static void run(T x) {
  int64_t w = E >= 0 ? sat<T>((W)x * (1ll << (E < 0 ? 0 : E))) : rdiv(x, E < 0 ? -E : 0);
  if (SaturatingRoundingMultiplyByPOT<E>(x) != w) mcx::fail("SaturatingRoundingMultiplyByPOT<%d>(%d) is %d, expected %lld", E, x, SaturatingRoundingMultiplyByPOT<E>(x), (long long)w);
  typedef FixedPoint<T, 1> F;
  if (SaturatingRoundingMultiplyByPOT<E>(F::FromRaw(x)).raw() != w) mcx::fail("SaturatingRoundingMultiplyByPOT<%d> of fixed-point %d", E, x);
} };
template <typename T, int E, int EMAX> struct Pots { static void run(T x) { Pot<T, E>::run(x); Pots<T, E + 1, EMAX>::run(x); } };
template <typename T, int EMAX> struct Pots<T, EMAX, EMAX> { static void run(T) {} };
template <typename T, int S, int D> struct Resc { static void run(T x) {
  const int e = S - D; int64_t w = e >= 0 ? sat<T>((W)x * (1ll << (e < 0 ? 0 : e))) : rdiv(x, -e);
  T g = Rescale<D>(FixedPoint<T, S>::FromRaw(x)).raw();
  if (g != w) mcx::fail("Rescale<%d> of raw %d in a format with %d integer bits is %d, expected %lld", D, x, S, g, (long long)w);
} };
template <typename T, int S, int D, int N> struct RescD { static void run(T x) { Resc<T, S, D>::run(x); RescD<T, S, D + 1, N>::run(x); } };
template <typename T, int S, int N> struct RescD<T, S, N, N> { static void run(T) {} };
template <typename T, int S, int N> struct RescS { static void run(T x) { RescD<T, S, 0, N>::run(x); RescS<T, S + 1, N>::run(x); } };
template <typename T, int N> struct RescS<T, N, N> { static void run(T) {} };
template <typename T, int I> void conversions(T x) {
  typedef FixedPoint<T, I> F;
  const double one = std::ldexp(1.0, F::kFractionalBits);
  F f = F::FromRaw(x);
  if (f.raw() != x || F::FromScalarRaw(x).raw() != x) mcx::fail("raw value %d", x);
  if (ToDouble(f) != x / one) mcx::fail("ToDouble of raw %d with %d integer bits is %.17g", x, I, ToDouble(f));
  if (F::FromDouble(x / one).raw() != x) mcx::fail("FromDouble(ToDouble(%d)) is %d with %d integer bits", x, F::FromDouble(x / one).raw(), I);
  for (double d : {-0.51, -0.5, -0.49, 0.25, 0.49, 0.5, 0.51}) {
    double v = (x + d) / one, r = std::floor(std::fabs(x + d) + 0.5); if (x + d < 0) r = -r;
    int64_t w = sat<T>(r > 9e18 ? INT64_MAX : r < -9e18 ? INT64_MIN : (W)r);
    if (F::FromDouble(v).raw() != w) mcx::fail("FromDouble(%.17g) is raw %d with %d integer bits, expected %lld", v, F::FromDouble(v).raw(), I, (long long)w);
  }
  if (ExactMulByPot<1>(f).raw() != x || decltype(ExactMulByPot<1>(f))::kIntegerBits != I + 1) mcx::fail("ExactMulByPot of raw %d", x);
}
template <typename T, int I, int N> struct Fmt { static void run(const std::vector<T>& v) {
  typedef FixedPoint<T, I> F;
  if (F::kFractionalBits + I != (int)(8 * sizeof(T)) - 1) mcx::fail("fractional bits of format %d", I);
  if (F::Zero().raw() != 0 || F::One().raw() != (I == 0 ? std::numeric_limits<T>::max() : (T)(1ll << F::kFractionalBits))) mcx::fail("constants of format %d", I);
  if (F::ScalarRawMin() != std::numeric_limits<T>::min() || F::ScalarRawMax() != std::numeric_limits<T>::max()) mcx::fail("range of format %d", I);
  if (F::FromDouble(1e300).raw() != std::numeric_limits<T>::max() || F::FromDouble(-1e300).raw() != std::numeric_limits<T>::min()) mcx::fail("FromDouble does not saturate in format %d", I);
  for (T x : v) conversions<T, I>(x);
  count(v.size());
  mcx::beat();
  Fmt<T, I + 1, N>::run(v);
} };
template <typename T, int N> struct Fmt<T, N, N> { static void run(const std::vector<T>&) {} };
static int16_t rescale_const(int32_t x) { return RescaleConstantInitializer<FixedPoint<int16_t, 0>>(x); }
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
#ifdef __x86_64__
  const bool full = true;
#else
  const bool full = false;
#endif
  const auto L16 = lattice16(); const auto L32 = lattice32(false), L32b = lattice32(true);
  // (1) every 16-bit pair: product, half sum, saturating sum
  for (int a0 = -32768; a0 < 32768; a0 += 256) {
    if (!mcx::begin("all 16-bit pairs with first operand in [%d,%d)", a0, a0 + 256)) continue;
    for (int a = a0; a < a0 + 256; a++) {
      if (!full && !std::binary_search(L16.begin(), L16.end(), (int16_t)a)) continue;
      bool bad = false;
      for (int b = -32768; b < 32768; b++) {
        const int16_t p = SaturatingRoundingDoublingHighMul<int16_t>(a, b), s = SaturatingAdd<int16_t>(a, b), h = RoundingHalfSum<int16_t>(a, b), i = AddSaturatingIf16Bit<int16_t>(a, b);
        const int ab = a * b, pw = ab == (1 << 30) ? 32767 : (ab + (1 << 14)) >> 15, t = a + b, sw = t > 32767 ? 32767 : t < -32768 ? -32768 : t;
        const int hw = t >= 0 ? (t + 1) / 2 : -((1 - t) / 2);
        bad |= (p != pw) | (s != sw) | (h != hw) | (i != sw);
      }
      if (bad) for (int b = -32768; b < 32768; b++) {
        if (SaturatingRoundingDoublingHighMul<int16_t>(a, b) != srdhm<int16_t>(a, b)) mcx::fail("SaturatingRoundingDoublingHighMul(%d,%d) is %d, expected %lld", a, b, SaturatingRoundingDoublingHighMul<int16_t>(a, b), (long long)srdhm<int16_t>(a, b));
        if (RoundingHalfSum<int16_t>(a, b) != half(a, b)) mcx::fail("RoundingHalfSum(%d,%d) is %d", a, b, RoundingHalfSum<int16_t>(a, b));
        if (SaturatingAdd<int16_t>(a, b) != sat<int16_t>(a + b) || AddSaturatingIf16Bit<int16_t>(a, b) != sat<int16_t>(a + b)) mcx::fail("SaturatingAdd(%d,%d) is %d", a, b, SaturatingAdd<int16_t>(a, b));
        if (b == 32767) mcx::fail("16-bit pair with first operand %d", a);
      }
      count(65536 * 4); mcx::beat();
    }
  }
  if (mcx::begin("all 8-bit pairs"))
    for (int a = -128; a < 128; a++) for (int b = -128; b < 128; b++) if (SaturatingAdd<int8_t>(a, b) != sat<int8_t>(a + b)) mcx::fail("8-bit SaturatingAdd(%d,%d) is %d", a, b, SaturatingAdd<int8_t>(a, b));
  // (2) comparisons and operators, 16 bit: every value against the boundary lattice
  for (size_t i = 0; i < L16.size(); i += 32) {
    if (!mcx::begin("16-bit operators, all values against lattice values %zu..", i)) continue;
    for (size_t k = i; k < std::min(i + 32, L16.size()); k++) for (int a = -32768; a < 32768; a += full ? 1 : 37) { compare<int16_t>(a, L16[k]); compare<int16_t>(L16[k], a); count(2); if (!(a & 4095)) mcx::beat(); }
  }
  // (3) unary 16 bit, all values; exponents and formats
  for (int a0 = -32768; a0 < 32768; a0 += 1024) {
    if (!mcx::begin("16-bit shifts and rescalings from %d", a0)) continue;
    for (int a = a0; a < a0 + 1024; a++) { unary<int16_t>(a); Pots<int16_t, -15, 16>::run(a); RescS<int16_t, 0, 16>::run(a); count(300); mcx::beat(); }
  }
  if (mcx::begin("16-bit conversions")) { std::vector<int16_t> v; for (int a = -32768; a < 32768; a++) v.push_back(a); Fmt<int16_t, 0, 15>::run(v); }
  // (4) 32 bit
  for (size_t i = 0; i < L32b.size(); i += 256) {
    if (!mcx::begin("32-bit shifts, rescalings and conversions at lattice values %zu..", i)) continue;
    std::vector<int32_t> v(L32b.begin() + i, L32b.begin() + std::min(i + 256, L32b.size()));
    for (int32_t a : v) { unary<int32_t>(a); Pots<int32_t, -31, 32>::run(a); RescS<int32_t, 0, 32>::run(a); count(1000); mcx::beat(); if (rescale_const(a) != (int16_t)rdiv(a, 16) && rdiv(a, 16) <= 32767) mcx::fail("RescaleConstantInitializer(%d) is %d", a, rescale_const(a)); }
    Fmt<int32_t, 0, 31>::run(v);
  }
  const auto& P = T ? L32b : L32;
  for (size_t i = 0; i < P.size(); i += 16) {
    if (!mcx::begin("32-bit pairs of lattice values from %zu", i)) continue;
    for (size_t k = i; k < std::min(i + 16, P.size()); k++) {
      const int32_t a = P[k];
      for (int32_t b : L32b) {
        if (SaturatingRoundingDoublingHighMul<int32_t>(a, b) != srdhm<int32_t>(a, b)) mcx::fail("SaturatingRoundingDoublingHighMul(%d,%d) is %d, expected %lld", a, b, SaturatingRoundingDoublingHighMul<int32_t>(a, b), (long long)srdhm<int32_t>(a, b));
        if (SaturatingRoundingDoublingHighMul<int32_t>(b, a) != srdhm<int32_t>(a, b)) mcx::fail("SaturatingRoundingDoublingHighMul(%d,%d) is %d, expected %lld", b, a, SaturatingRoundingDoublingHighMul<int32_t>(b, a), (long long)srdhm<int32_t>(a, b));
        if (RoundingHalfSum<int32_t>(a, b) != half(a, b)) mcx::fail("RoundingHalfSum(%d,%d) is %d", a, b, RoundingHalfSum<int32_t>(a, b));
        const int64_t s = (int64_t)a + b;
        if (s == (int32_t)s && AddSaturatingIf16Bit<int32_t>(a, b) != s) mcx::fail("AddSaturatingIf16Bit(%d,%d)", a, b);
      }
      for (int32_t b : L32) { compare<int32_t>(a, b); mcx::beat(); }
      count(L32b.size() * 4 + L32.size()); mcx::beat();
    }
  }
  // (5) every 32-bit value (thorough): all shifts
  if (T && full) for (int64_t x0 = INT32_MIN; x0 <= INT32_MAX; x0 += 1 << 24) {
    if (!mcx::begin("32-bit shifts, all values from %lld", (long long)x0)) continue;
    for (int e = 0; e < 32; e++) {
      bool bad = false;
      for (int64_t x = x0; x < x0 + (1 << 24); x++) bad |= RoundingDivideByPOT<int32_t>((int32_t)x, e) != (int32_t)rdiv(x, e);
      if (bad) for (int64_t x = x0; x < x0 + (1 << 24); x++) if (RoundingDivideByPOT<int32_t>((int32_t)x, e) != (int32_t)rdiv(x, e)) mcx::fail("RoundingDivideByPOT(%lld,%d) is %d", (long long)x, e, RoundingDivideByPOT<int32_t>((int32_t)x, e));
      count(1 << 24); mcx::beat();
    }
    for (int64_t x = x0; x < x0 + (1 << 24); x++) {
      Pot<int32_t, 1>::run(x); Pot<int32_t, 2>::run(x); Pot<int32_t, 5>::run(x); Pot<int32_t, 16>::run(x); Pot<int32_t, 30>::run(x); Pot<int32_t, -1>::run(x); Pot<int32_t, -4>::run(x);
      if (!(x & 65535)) mcx::beat();
    }
  }
}
MCX_MAIN
