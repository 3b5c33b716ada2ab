// P14: SIMD fixed-point arithmetic, lane by lane, against the scalar implementation.
// GROUP selects the vector type under test (0: int32 lanes, 1: int16 lanes, 2/3: the 128-bit types next to AVX2).
#include "mcx.h"
#include <algorithm>
#include <limits>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
using std::int16_t; using std::int32_t; using std::int64_t;
#ifndef GROUP
#define GROUP 0
#endif
#if defined(GEMMLOWP_MSA)
#if GROUP == 0
typedef v4i32 V; typedef int32_t S;
#else
typedef v8i16 V; typedef int16_t S;
#endif
#elif defined(GEMMLOWP_WASMSIMD)
#if GROUP == 0
typedef v128_t V; typedef int32_t S;
#else
typedef int16x8_v128_t V; typedef int16_t S;
#endif
#elif defined(GEMMLOWP_NEON)
#if GROUP == 0
typedef int32x4_t V; typedef int32_t S;
#else
typedef int16x8_t V; typedef int16_t S;
#endif
#elif defined(GEMMLOWP_AVX2) && GROUP < 2
#if GROUP == 0
typedef __m256i V; typedef int32_t S;
#else
typedef int16x16_m256i V; typedef int16_t S;
#endif
#else
#if GROUP % 2 == 0
typedef __m128i V; typedef int32_t S;
#else
typedef int16x8_m128i V; typedef int16_t S;
#endif
#endif
static const int L = sizeof(V) / sizeof(S), W = 8 * sizeof(S);
static const S MN = std::numeric_limits<S>::min(), MX = std::numeric_limits<S>::max();
static_assert(std::is_same<FixedPointRawTypeTraits<V>::ScalarRawType, S>::value, "scalar type of the vector");
union U { S s[L]; V v; U() {} };
static V load(const S* p) { U u; memcpy(u.s, p, sizeof u.s); return u.v; }
static void store(S* p, V v) { U u; u.v = v; memcpy(p, u.s, sizeof u.s); }
static bool fits(int64_t x) { return x >= MN && x <= MX; }
struct Set { std::vector<int64_t> v; void insert(int64_t x) { v.push_back(x); } const std::vector<int64_t>& sorted() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; } };
static u64 nv;  // vector operations performed

#define EACH for (int l = 0; l < L; l++)
// binary operations on one pair of vectors
static void binary(const S* a, const S* b) {
  V x = load(a), y = load(b); S r[L];
#define OP2(F, COND) do { store(r, F(x, y)); EACH if (COND) { S w = F(a[l], b[l]); if (r[l] != w) mcx::fail(#F "(%d, %d) in lane %d of %d is %d, scalar %d", a[l], b[l], l, L, r[l], w); } } while (0)
  OP2(BitAnd, 1); OP2(BitOr, 1); OP2(BitXor, 1);
  OP2(Add, fits((int64_t)a[l] + b[l])); OP2(Sub, fits((int64_t)a[l] - b[l]));
#if !defined(GEMMLOWP_NEON)
  OP2(Mul, fits((int64_t)a[l] * b[l]));
#endif
  OP2(MaskIfEqual, 1); OP2(MaskIfNotEqual, 1); OP2(MaskIfGreaterThan, 1); OP2(MaskIfGreaterThanOrEqual, 1); OP2(MaskIfLessThan, 1); OP2(MaskIfLessThanOrEqual, 1);
  OP2(SaturatingRoundingDoublingHighMul, 1);
  store(r, RoundingHalfSum(x, y));
  EACH {
    int64_t s = (int64_t)a[l] + b[l]; S w = RoundingHalfSum(a[l], b[l]);
    if (r[l] != w && !((s & 1) && (r[l] == (s >> 1) || r[l] == (s >> 1) + 1))) mcx::fail("RoundingHalfSum(%d, %d) in lane %d is %d, scalar %d", a[l], b[l], l, r[l], w);
  }
  store(r, AddSaturatingIf16Bit(x, y));
  EACH if (W == 16 || fits((int64_t)a[l] + b[l])) { S w = AddSaturatingIf16Bit(a[l], b[l]); if (r[l] != w) mcx::fail("AddSaturatingIf16Bit(%d, %d) in lane %d is %d, scalar %d", a[l], b[l], l, r[l], w); }
  typedef FixedPoint<V, 2> F; typedef FixedPoint<S, 2> G; F fx = F::FromRaw(x), fy = F::FromRaw(y);
  store(r, (fx * fy).raw()); EACH if (r[l] != (G::FromRaw(a[l]) * G::FromRaw(b[l])).raw()) mcx::fail("fixed-point product of %d and %d in lane %d is %d", a[l], b[l], l, r[l]);
  store(r, (fx + fy).raw()); EACH if (fits((int64_t)a[l] + b[l]) && r[l] != a[l] + b[l]) mcx::fail("fixed-point sum of %d and %d in lane %d is %d", a[l], b[l], l, r[l]);
  store(r, (fx - fy).raw()); EACH if (fits((int64_t)a[l] - b[l]) && r[l] != a[l] - b[l]) mcx::fail("fixed-point difference of %d and %d in lane %d is %d", a[l], b[l], l, r[l]);
  bool all = true; EACH all &= a[l] == b[l];
  if ((fx == fy) != all || (fx != fy) == all) mcx::fail("equality of two vectors that %s", all ? "are equal" : "differ");
  nv += 20;
}
template <int E> static void pot1(const S* a) {
  S r[L]; store(r, SaturatingRoundingMultiplyByPOT<E>(load(a)));
  EACH { S w = SaturatingRoundingMultiplyByPOT<E>(a[l]); if (r[l] != w) mcx::fail("SaturatingRoundingMultiplyByPOT<%d>(%d) in lane %d is %d, scalar %d", E, a[l], l, r[l], w); }
  nv++;
}
template <int E, int N> struct Pots { static void run(const S* a) { pot1<E>(a); Pots<E + 1, N>::run(a); } };
template <int N> struct Pots<N, N> { static void run(const S*) {} };
static void unary(const S* a) {
  V x = load(a); S r[L];
#define OP1(F, COND) do { store(r, F(x)); EACH if (COND) { S w = F(a[l]); if (r[l] != w) mcx::fail(#F "(%d) in lane %d is %d, scalar %d", a[l], l, r[l], w); } } while (0)
  OP1(BitNot, 1); OP1(Neg, a[l] != MN); OP1(MaskIfZero, 1); OP1(MaskIfNonZero, 1);
  for (int e = 0; e < W; e++) {
    store(r, ShiftRight(x, e)); EACH if (r[l] != ShiftRight(a[l], e)) mcx::fail("ShiftRight(%d, %d) in lane %d is %d", a[l], e, l, r[l]);
    store(r, ShiftLeft(x, e)); EACH if (fits((int64_t)a[l] * (1ll << e)) && r[l] != ShiftLeft(a[l], e)) mcx::fail("ShiftLeft(%d, %d) in lane %d is %d", a[l], e, l, r[l]);
    store(r, RoundingDivideByPOT(x, e)); EACH { S w = RoundingDivideByPOT(a[l], e); if (r[l] != w) mcx::fail("RoundingDivideByPOT(%d, %d) in lane %d is %d, scalar %d", a[l], e, l, r[l], w); }
  }
  nv += 4 + 3 * W;
  Pots<1 - W, W - 1>::run(a);
  for (int l = 0; l < L; l++) { store(r, Dup<V>(a[l])); for (int m = 0; m < L; m++) if (r[m] != a[l]) mcx::fail("Dup(%d) is %d in lane %d", a[l], r[m], m); store(r, FixedPoint<V, 1>::FromScalarRaw(a[l]).raw()); for (int m = 0; m < L; m++) if (r[m] != a[l]) mcx::fail("FromScalarRaw(%d) is %d in lane %d", a[l], r[m], m); }
#if defined(GEMMLOWP_NEON)
  // per-lane exponents
  for (int e = 0; e < W; e++) {
    S ev[L]; EACH ev[l] = (e + l * 5) % W;
    store(r, ShiftLeft(x, load(ev))); EACH if (fits((int64_t)a[l] * (1ll << ev[l])) && r[l] != ShiftLeft(a[l], (int)ev[l])) mcx::fail("ShiftLeft(%d, %d) with per-lane offsets, lane %d, is %d", a[l], ev[l], l, r[l]);
    store(r, RoundingDivideByPOT(x, load(ev))); EACH { S w = RoundingDivideByPOT(a[l], (int)ev[l]); if (r[l] != w) mcx::fail("RoundingDivideByPOT(%d, %d) with per-lane exponents, lane %d, is %d, scalar %d", a[l], ev[l], l, r[l], w); }
  }
#endif
}
template <int I, int D> static void resc(const S* a) {
  S r[L]; store(r, Rescale<D>(FixedPoint<V, I>::FromRaw(load(a))).raw());
  EACH { S w = Rescale<D>(FixedPoint<S, I>::FromRaw(a[l])).raw(); if (r[l] != w) mcx::fail("Rescale<%d> of raw %d with %d integer bits in lane %d is %d, scalar %d", D, a[l], I, l, r[l], w); }
  nv++;
}
// functions
enum { EXP, TANH, LOGI, LPOS, NTANH, IVL, OOX, OMX };
static const char* fname[] = {"exp", "tanh", "logistic", "logistic_on_positive_values", "neg_tanh_on_negative_values", "exp on interval", "1/(1+x)", "(1-x)/(1+x)"};
template <int FN, int I, typename T> struct Fn;
template <int I, typename T> struct Fn<EXP, I, T> { static T f(T x) { return exp_on_negative_values(FixedPoint<T, I>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<TANH, I, T> { static T f(T x) { return tanh(FixedPoint<T, I>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<LOGI, I, T> { static T f(T x) { return logistic(FixedPoint<T, I>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<LPOS, I, T> { static T f(T x) { return logistic_on_positive_values(FixedPoint<T, I>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<NTANH, I, T> { static T f(T x) { return neg_tanh_on_negative_values(FixedPoint<T, I>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<IVL, I, T> { static T f(T x) { return exp_on_interval_between_negative_one_quarter_and_0_excl(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<OOX, I, T> { static T f(T x) { return one_over_one_plus_x_for_x_in_0_1(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
template <int I, typename T> struct Fn<OMX, I, T> { static T f(T x) { return one_minus_x_over_one_plus_x_for_x_in_0_1(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
static bool dom(int fn, S x) {
  switch (fn) {
    case EXP: case NTANH: return x <= 0 && !(fn == NTANH && x == MN);
    case LPOS: return x >= 0;
    case IVL: return x < 0 && x >= -(1 << (W - 3));
    case OOX: case OMX: return x >= 0;
    default: return x != MN;
  }
}
// Every input of v in one lane (the lane moves with the input), its neighbours being inputs far away from it.
template <int FN, int I> static void function(const std::vector<S>& all, bool every_lane) {
  std::vector<S> v;
  for (S x : all) if (dom(FN, x)) v.push_back(x);
  const size_t n = v.size();
  if (!n) return;
  std::vector<S> ref(n);
  for (size_t i = 0; i < n; i++) ref[i] = Fn<FN, I, S>::f(v[i]);
  const size_t far = n / L + 1;
  for (int sh = 0; sh < (every_lane ? L : 1); sh++)
    for (size_t base = 0; base < far; base++) {
      S a[L], r[L]; size_t at[L];
      EACH { at[l] = (base + ((l + sh) % L) * far) % n; a[l] = v[at[l]]; }
      store(r, Fn<FN, I, V>::f(load(a)));
      EACH if (r[l] != ref[at[l]]) mcx::fail("%s of raw %d (%d integer bits) in lane %d is %d, scalar %d; other lanes %d %d", fname[FN], a[l], I, l, r[l], ref[at[l]], a[(l + 1) % L], a[(l + L - 1) % L]);
      nv++;
      if (!(base & 255)) mcx::beat();
    }
  mcx::elements(n);
}
template <int I, bool OK> struct Tanh { static void run(const std::vector<S>& v) { function<TANH, I>(v, true); function<NTANH, I>(v, false); } };
template <int I> struct Tanh<I, false> { static void run(const std::vector<S>&) {} };
static std::vector<S> points(int I, bool T) {
  if (W == 16) { std::vector<S> v; for (int a = -32768; a < 32768; a++) v.push_back(a); return v; }
  Set s;
  const int64_t step = T ? 16381 : 262139; const int near = T ? 16 : 4;
  for (int64_t x = INT32_MIN; x <= INT32_MAX; x += step) s.insert(x);
  const int f = 31 - I;
  if (f >= 2) for (int64_t k = 0; k < 300; k++) for (int g = -1; g <= 1; g += 2) for (int d = -near; d <= near; d++) s.insert(g * (k << (f - 2)) + d);
  for (int b = 0; b <= 31; b++) for (int g = -1; g <= 1; g += 2) for (int d = -near; d <= near; d++) s.insert(g * (1ll << b) + d);
  for (int d = 0; d <= near; d++) { s.insert(INT32_MIN + d); s.insert((int64_t)INT32_MAX - d); }
  std::vector<S> v;
  for (int64_t x : s.sorted()) if (fits(x)) v.push_back((S)x);
  return v;
}
template <int I, int N> struct Formats { static void run(bool T) {
  if (mcx::begin("functions, %d-bit lanes, %d lanes, %d integer bits", W, L, I)) {
    std::vector<S> v = points(I, T);
    function<EXP, I>(v, true); function<LOGI, I>(v, true); function<LPOS, I>(v, false);
    Tanh<I, (W - 1 - I > 2)>::run(v);
    mcx::calls(nv); nv = 0;
  }
  Formats<I + 1, N>::run(T);
} };
template <int N> struct Formats<N, N> { static void run(bool) {} };
template <int I, int D, int N> struct RescD { static void run(const S* a) { resc<I, D>(a); RescD<I, D + 1, N>::run(a); } };
template <int I, int N> struct RescD<I, N, N> { static void run(const S*) {} };
template <int I, int N> struct RescS { static void run(const S* a) { RescD<I, 0, N>::run(a); RescS<I + 1, N>::run(a); } };
template <int N> struct RescS<N, N> { static void run(const S*) {} };

static std::vector<S> lattice(bool big) {
  Set s;
  for (int i = 0; i <= W; i++) for (int j = -1; j <= (big || W == 16 ? W : -1); j++) for (int d = -1; d <= 1; d++) for (int g = -1; g <= 1; g += 2) for (int h = -1; h <= 1; h += 2) {
    int64_t v = h * ((1ll << i) + (j < 0 ? 0 : g * (1ll << j)) + d);
    if (fits(v)) s.insert(v);
  }
  for (int64_t k : {3, 5, 7, 10, 17, 100, 255, 1000, 23170, 23171, 46340, 46341, 1431655765, 858993459, 715827882, 1518500249, 1518500250, 2021161080}) { if (fits(k)) { s.insert(k); s.insert(-k); } }
  std::vector<S> r;
  for (int64_t x : s.sorted()) r.push_back((S)x);
  return r;
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  const std::vector<S> lat = lattice(T);
  // every single value in every lane
  {
    std::vector<S> v;
    if (W == 16) for (int a = -32768; a < 32768; a++) v.push_back(a); else v = lattice(true);
    const int parts = 16;
    for (int p = 0; p < parts; p++) {
      if (!mcx::begin("unary operations, shifts and rescaling, %d lanes, part %d of %d (%d values)", L, p, parts, (int)v.size())) continue;
      for (size_t i = p; i < v.size(); i += parts)
        for (int sh = 0; sh < (T ? L : 2); sh++) {
          S a[L]; EACH a[(l + sh) % L] = v[(i + l * 977) % v.size()];
          unary(a);
          RescS<0, (W == 16 ? 15 : 8)>::run(a);
          if (!(i & 1023)) mcx::beat();
        }
      mcx::elements(v.size() / parts); mcx::calls(nv); nv = 0;
    }
  }
  // every pair of lattice values in every lane
  for (size_t i = 0; i < lat.size(); i++) {
    if (!mcx::begin("binary operations, %d-bit lanes, %d lanes, left operand %d, %d right operands", W, L, lat[i], (int)lat.size())) continue;
    for (size_t j = 0; j < lat.size(); j++)
      for (int sh = 0; sh < L; sh++) {
        S a[L], b[L];
        EACH { a[(l + sh) % L] = lat[(i + l * 37) % lat.size()]; b[(l + sh) % L] = lat[(j + l * 101) % lat.size()]; }
        binary(a, b);
      }
    mcx::elements(lat.size()); mcx::calls(nv); nv = 0;
  }
  // one lane against all contents of the others
  {
    const S fill[] = {0, 1, -1, MN, MX};
    const S val[] = {0, 1, -1, MN, MX, (S)(MN + 1), (S)(MX / 2), (S)(MN / 2), 1234};
    for (S f : fill) for (S g : fill) {
      if (!mcx::begin("one lane, other lanes hold %d and %d", f, g)) continue;
      for (int q = 0; q < L; q++) for (S x : val) for (S y : val) {
        S a[L], b[L]; EACH { a[l] = f; b[l] = g; } a[q] = x; b[q] = y;
        binary(a, b); unary(a);
      }
      mcx::calls(nv); nv = 0;
    }
  }
  // masks: every pattern of true and false lanes
  for (int p = 0; p < 16; p++) {
    if (!mcx::begin("all %d mask patterns of %d lanes, part %d", 1 << L, L, p)) continue;
    for (int m = p; m < 1 << L; m += 16) {
      S k[L], a[L], b[L], r[L];
      EACH { k[l] = (m >> l & 1) ? -1 : 0; a[l] = (S)(MX - 3 * l); b[l] = (S)(MN + 5 * l); }
      V kv = load(k);
      if (All(kv) != (m == (1 << L) - 1)) mcx::fail("All of the mask pattern %#x is %d", m, All(kv));
      if (Any(kv) != (m != 0)) mcx::fail("Any of the mask pattern %#x is %d", m, Any(kv));
      store(r, SelectUsingMask(kv, load(a), load(b)));
      EACH if (r[l] != SelectUsingMask(k[l], a[l], b[l])) mcx::fail("SelectUsingMask in lane %d of pattern %#x is %d", l, m, r[l]);
      store(r, SelectUsingMask(kv, FixedPoint<V, 3>::FromRaw(load(b)), FixedPoint<V, 3>::FromRaw(load(a))).raw());
      EACH if (r[l] != SelectUsingMask(k[l], b[l], a[l])) mcx::fail("fixed-point SelectUsingMask in lane %d of pattern %#x is %d", l, m, r[l]);
      nv += 4;
    }
    mcx::elements((1 << L) / 16); mcx::calls(nv); nv = 0;
  }
  if (mcx::begin("reciprocal helpers and exp on [-1/4,0), %d lanes", L)) {
    std::vector<S> v = points(0, T);
    function<IVL, 0>(v, true); function<OOX, 0>(v, true); function<OMX, 0>(v, true);
    mcx::calls(nv); nv = 0;
  }
  Formats<0, (W == 16 ? 14 : 30)>::run(T);
}
MCX_MAIN
