// P02: output pipelines against exact 64-bit reference arithmetic.
// Accumulators are injected through the real product: depth 1, zero operands and
// per-row (or per-column) offsets give acc(r,c) = value(r) (or value(c)).
#include "gx.h"
#include <algorithm>
#ifndef GROUP
#define GROUP 0
#endif
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA)  // no SSE4.1 or MSA implementation of these stages exists (they do not compile there)
#define IF_SI8(...)
#define IF_SPC(...)
#else
#define IF_SI8(...) __VA_ARGS__
#define IF_SPC(...) __VA_ARGS__
#endif
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_NEON) || defined(GEMMLOWP_MSA)  // scalar-only stage
#define IF_TR(...)
#else
#define IF_TR(...) __VA_ARGS__
#endif
typedef std::vector<int32_t> V32;
struct Val { int64_t v; bool ok; };  // ok=false: the documented formula overflows here
inline bool fits(int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }
inline int64_t rdpot(int64_t x, int e) {  // nearest, ties away from zero
  if (!e) return x;
  int64_t h = 1ll << (e - 1), a = x < 0 ? -x : x, q = (a + h) >> e;
  return x < 0 ? -q : q;
}
inline int64_t srdhm(int64_t a, int64_t b) {
  if (a == INT32_MIN && b == INT32_MIN) return INT32_MAX;
  int64_t p = a * b + (1ll << 30);
  return p >> 31;
}
// ---- stages with their reference
struct SQuant { int off, mul, sh;
  typedef OutputStageQuantizeDownInt32ToUint8Scale S; S make() const { S s; s.result_offset = off; s.result_mult_int = mul; s.result_shift = sh; return s; }
  Val ref(Val x, int, int) const { int64_t a = x.v + off; if (!fits(a)) return {0, false}; a *= mul; if (!fits(a)) return {0, false}; return {rdpot(a, sh), x.ok}; } };
template <VectorShape Sh> struct SQuantPC { V32 off, mul; int sh;
  typedef OutputStageQuantizeDownInt32ToUint8ScalePC<Sh> S;
  S make() const { S s; s.result_offset = VectorMap<const int32_t, Sh>(off.data(), off.size()); s.result_mult_int = VectorMap<const int32_t, Sh>(mul.data(), mul.size()); s.result_shift = sh; return s; }
  Val ref(Val x, int r, int c) const { int p = Sh == VectorShape::Col ? r : c; return SQuant{off[p], mul[p], sh}.ref(x, r, c); } };
struct SFix { int mul, sh, off;
  typedef OutputStageQuantizeDownInt32ByFixedPoint S; S make() const { S s; s.result_fixedpoint_multiplier = mul; s.result_shift = sh; s.result_offset_after_shift = off; return s; }
  Val ref(Val x, int, int) const { int64_t a = rdpot(srdhm(x.v, mul), sh) + off; return {a, x.ok && fits(a)}; } };
struct SScale { int mul, ex, off;
  typedef OutputStageScaleInt32ByFixedPointAndExponent S; S make() const { S s; s.result_fixedpoint_multiplier = mul; s.result_exponent = ex; s.result_offset_after_shift = off; return s; }
  Val ref(Val x, int, int) const { int64_t a = x.v * (1ll << std::max(ex, 0)); if (!fits(a)) return {0, false}; a = rdpot(srdhm(a, mul), std::max(-ex, 0)) + off; return {a, x.ok && fits(a)}; } };
template <VectorShape Sh> struct SScalePC { V32 mul, ex; int off;
  typedef OutputStageScaleInt32ByFixedPointAndExponentPC<Sh> S;
  S make() const { S s; s.result_fixedpoint_multiplier = VectorMap<const int32_t, Sh>(mul.data(), mul.size()); s.result_exponent = VectorMap<const int32_t, Sh>(ex.data(), ex.size()); s.result_offset_after_shift = off; return s; }
  Val ref(Val x, int r, int c) const { int p = Sh == VectorShape::Col ? r : c; return SScale{mul[p], ex[p], off}.ref(x, r, c); } };
template <VectorShape Sh> struct SBias { V32 b;
  typedef OutputStageBiasAddition<VectorMap<const int32_t, Sh>> S;
  S make() const { S s; s.bias_vector = VectorMap<const int32_t, Sh>(b.data(), b.size()); return s; }
  Val ref(Val x, int r, int c) const { int64_t a = x.v + b[Sh == VectorShape::Col ? r : c]; return {a, x.ok && fits(a)}; } };
struct SClamp { int lo, hi; typedef OutputStageClamp S; S make() const { S s; s.min = lo; s.max = hi; return s; }
  Val ref(Val x, int, int) const { return {std::min<int64_t>(std::max<int64_t>(x.v, lo), hi), x.ok}; } };
struct SU8 { typedef OutputStageSaturatingCastToUint8 S; S make() const { return S(); } Val ref(Val x, int, int) const { return {std::min<int64_t>(std::max<int64_t>(x.v, 0), 255), x.ok}; } };
struct SI8 { typedef OutputStageSaturatingCastToInt8 S; S make() const { return S(); } Val ref(Val x, int, int) const { return {std::min<int64_t>(std::max<int64_t>(x.v, -128), 127), x.ok}; } };
struct SI16 { typedef OutputStageSaturatingCastToInt16 S; S make() const { return S(); } Val ref(Val x, int, int) const { return {std::min<int64_t>(std::max<int64_t>(x.v, -32768), 32767), x.ok}; } };
struct STrunc { typedef OutputStageTruncatingCastToUint8 S; S make() const { return S(); } Val ref(Val x, int, int) const { return {x.v, x.ok && x.v >= 0 && x.v <= 255}; } };
struct STanh { int zero, amp; typedef OutputStageTanh S; S make() const { S s; s.real_zero_as_int32 = zero; s.real_amplitude_as_int32 = amp; return s; }
  Val ref(Val x, int, int) const { double t = std::tanh((x.v - (double)zero) / amp); return {zero + (int64_t)llround(amp * t), x.ok && fits(x.v - zero) }; } };
inline int tol1(const STanh& s) { return 2 + s.amp / (1 << 20); }
template <typename T> int tol1(const T&) { return 0; }
inline int tol() { return 0; }
template <typename A, typename... St> int tol(const A& a, const St&... s) { return tol1(a) + tol(s...); }
inline Val refs(Val x, int, int) { return x; }
template <typename A, typename... St> Val refs(Val x, int r, int c, const A& a, const St&... s) { return refs(a.ref(x, r, c), r, c, s...); }

static GemmContext* CTX = new GemmContext;
static int DEPTH = 1;  // more than 1: enough work for several threads
template <typename Pipe, typename Out, MapOrder D>
void product(bool by_row, const V32& acc, int m, int n, Mat<Out>& d, const Pipe& pipe) {
  GemmContext* const ctx = CTX;
  static std::vector<uint8_t> z(1 << 17, 0);
  if (DEPTH > 1) {  // one operand is zero but for a first slice of ones, so that the accumulator is the other's offset
    std::vector<uint8_t> a((size_t)m * DEPTH, 0), b((size_t)n * DEPTH, 0);
    if (by_row) for (int j = 0; j < n; j++) b[(size_t)j * DEPTH] = 1; else for (int i = 0; i < m; i++) a[(size_t)i * DEPTH] = 1;
    MatrixMap<const uint8_t, MapOrder::RowMajor> l(a.data(), m, DEPTH);
    MatrixMap<const uint8_t, MapOrder::ColMajor> r(b.data(), DEPTH, n);
    MatrixMap<Out, D> dm(d.buf.data(), m, n, d.stride);
    mcx::calls();
    V32 zero(std::max(m, n), 0);
    GemmWithOutputPipelinePC<uint8_t, Out, DefaultL8R8BitDepthParams>(ctx, l, r, &dm, ColMap(by_row ? acc.data() : zero.data(), m), RowMap(by_row ? zero.data() : acc.data(), n), pipe);
    return;
  }
  MatrixMap<const uint8_t, MapOrder::RowMajor> l(z.data(), m, 1);
  MatrixMap<const uint8_t, MapOrder::ColMajor> r(z.data(), 1, n);
  MatrixMap<Out, D> dm(d.buf.data(), m, n, d.stride);
  mcx::calls();
  static V32 one(1 << 17, 1);
  const int32_t* ro = by_row ? acc.data() : one.data();
  const int32_t* co = by_row ? one.data() : acc.data();
  GemmWithOutputPipelinePC<uint8_t, Out, DefaultL8R8BitDepthParams>(ctx, l, r, &dm, ColMap(ro, m), RowMap(co, n), pipe);
}
// One pipeline on one shape: accumulators acc[] along rows or columns.
template <typename Out, typename... St>
void check1(int m, int n, bool rm, bool by_row, const V32& acc, const St&... st) {
  auto pipe = std::make_tuple(st.make()...);
  const Out can = (Out)0x5b;
  Mat<Out> d(m, n, rm, 1, can);
  if (rm) product<decltype(pipe), Out, MapOrder::RowMajor>(by_row, acc, m, n, d, pipe);
  else product<decltype(pipe), Out, MapOrder::ColMajor>(by_row, acc, m, n, d, pipe);
  u64 h = 3;
  for (int r = 0; r < m; r++) for (int c = 0; c < n; c++) {
    int32_t a = acc[by_row ? r : c];
    Val v = refs(Val{a, true}, r, c, st...);
    if (!v.ok) continue;
    int64_t got = d(r, c);
    if (llabs(got - v.v) > tol(st...))
      mcx::fail("accumulator %d at (%d,%d) of a %dx%d %s-major result gives %lld, documented formula gives %lld", a, r, c, m, n, rm ? "row" : "column", (long long)got, (long long)v.v);
    h = mcx::mix(h, (u64)got);
  }
  mcx::elements((u64)m * n);
  mcx::outcome(h);
}
static V32 LAT;
void init_lattice(bool T) {
  LAT.clear();
  std::vector<int64_t> v = {0};
  for (int k = 0; k <= 31; k++) for (int64_t d : {-2ll, -1ll, 0ll, 1ll, 2ll}) {
    v.push_back((1ll << k) + d); v.push_back(-(1ll << k) + d);
    if (k >= 2) { v.push_back((3ll << (k - 1)) + d); v.push_back(-(3ll << (k - 1)) + d); }
  }
  for (int64_t x : {254, 255, 256, -127, -128, -129, 32766, 32767, 32768, -32768, -32769, 100, -100, 1000003, -1000003, 123456789, -123456789}) v.push_back(x);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  for (int64_t x : v) if (fits(x)) LAT.push_back((int32_t)x);
}
static const std::vector<std::pair<int, int>> SHAPES_Q = {{1, 1}, {3, 2}, {4, 4}, {5, 7}, {8, 4}, {8, 8}, {9, 9}, {12, 8}, {7, 13}, {16, 12}, {13, 17}};
// Applies a pipeline to every lattice value at every position of the shapes.
template <typename Out, typename MakeF>
void sweep(bool T, bool deep, const MakeF& f) {
  const int L = LAT.size();
  std::vector<std::pair<int, int>> sh = {{13, 17}, {17, 13}};
  if (deep) sh = T ? SHAPES_Q : std::vector<std::pair<int, int>>{{1, 1}, {3, 2}, {5, 7}, {8, 8}, {17, 13}};
#if defined(GEMMLOWP_NEON) || defined(MINIRT)  // emulated: fewer shapes in the quick tier
  if (!T) { sh = {{13, 17}}; if (deep) sh = {{3, 2}, {8, 8}, {17, 13}}; }
#endif
  for (auto& s : sh) for (int rm = 0; rm < 2; rm++) for (int br = 0; br < 2; br++) {
    int len = br ? s.first : s.second;
    // consecutive windows of the lattice so that each value meets several positions
    int step = deep && s.first * s.second < 150 ? std::max(1, len / 3) : len;
    for (int b = 0; b < L + (deep ? len : 0); b += step) {
      V32 acc(len);
      for (int i = 0; i < len; i++) acc[i] = LAT[(b + i) % L];
      f(s.first, s.second, rm, br, acc);
    }
  }
  mcx::beat();
}
static V32 vec(int n, const std::vector<int>& vals, int salt) { V32 v(n + 1); for (int i = 0; i <= n; i++) v[i] = vals[(i * 5 + salt) % vals.size()]; v.resize(n); return v; }

// The one-call interface Gemm() and the standard pipelines, scalar and per channel, with scalar operand offsets.
inline void standard(int m, int n, int k, int off, int mul, int sh, int lo, int ro, int pat) {
  GemmContext* const ctx = CTX;
  std::vector<uint8_t> a((size_t)m * k), b((size_t)n * k);
  for (size_t i = 0; i < a.size(); i++) a[i] = pat == 0 ? (i * 37 + 11) % 256 : pat == 1 ? 255 : (i * i + i / 7) % 251 + 3;
  for (size_t i = 0; i < b.size(); i++) b[i] = pat == 0 ? (i * 59 + 5) % 256 : pat == 1 ? 255 : (i * i * 3 + i / 5) % 249 + 5;
  V32 pcm = vec(std::max(m, n), {1, 2, 3, -1, 7, 255, 1000, -3, 5}, pat), pco = vec(std::max(m, n), {0, 1, -1, 100, -1000, 65536, 7}, sh);
  MatrixMap<const uint8_t, MapOrder::RowMajor> l(a.data(), m, k);
  MatrixMap<const uint8_t, MapOrder::ColMajor> r(b.data(), k, n);
  for (int v = 0; v < 5; v++) {
    Mat<uint8_t> d(m, n, v == 1, 1, (uint8_t)0x5b);
    MatrixMap<uint8_t, MapOrder::ColMajor> dc(d.buf.data(), m, n, d.stride);
    MatrixMap<uint8_t, MapOrder::RowMajor> dr(d.buf.data(), m, n, d.stride);
    mcx::calls();
    if (v == 0) Gemm<uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &dc, lo, ro, off, mul, sh);
    if (v == 1) Gemm<uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &dr, lo, ro, off, mul, sh);
    if (v == 2) GemmWithOutputPipeline<uint8_t, uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &dc, lo, ro, MakeStandardOutputPipeline(off, mul, sh));
    if (v == 3) GemmWithOutputPipeline<uint8_t, uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &dc, lo, ro, MakeStandardOutputPipeline<VectorShape::Col>(ColMap(pco.data(), m), ColMap(pcm.data(), m), sh));
    if (v == 4) GemmWithOutputPipeline<uint8_t, uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &dc, lo, ro, MakeStandardOutputPipeline<VectorShape::Row>(RowMap(pco.data(), n), RowMap(pcm.data(), n), sh));
    u64 h = 7;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      int64_t s = 0;
      for (int t = 0; t < k; t++) s += ((int64_t)a[(size_t)i * k + t] + lo) * ((int64_t)b[(size_t)j * k + t] + ro);
      if (!fits(s)) continue;
      const int p = v == 3 ? i : j;
      Val w = refs(Val{s, true}, i, j, v < 3 ? SQuant{off, mul, sh} : SQuant{pco[p], pcm[p], sh}, SU8());
      if (!w.ok) continue;
      int got = d(i, j);
      if (got != w.v) mcx::fail("%s: element (%d,%d) of %dx%dx%d with sum %lld is %d, documented formula gives %lld", v < 2 ? "Gemm()" : v == 2 ? "standard pipeline" : v == 3 ? "per-row standard pipeline" : "per-column standard pipeline", i, j, m, k, n, (long long)s, got, (long long)w.v);
      h = mcx::mix(h, (u64)got);
    }
    mcx::elements((u64)m * n);
    mcx::outcome(h);
  }
}

#define SW(OUT, DEEP, ...) sweep<OUT>(T, DEEP, [&](int m, int n, bool rm, bool br, const V32& acc) { check1<OUT>(m, n, rm, br, acc, __VA_ARGS__); })

void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  init_lattice(T);
  std::vector<int> SH = {0, 1, 2, 7, 8, 15, 23, 30, 31}, FM = {1, 2, 12345, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 1518500250, INT32_MAX - 1, INT32_MAX, -1, -(1 << 30), INT32_MIN + 1, INT32_MIN};
#if defined(GEMMLOWP_NEON) || defined(MINIRT)
  if (!T) SH = {0, 1, 8, 31};
#endif
  const std::vector<int> KEY = SH;  // with more shapes; the others with one
  auto key = [&](int sh) { return T || std::find(KEY.begin(), KEY.end(), sh) != KEY.end(); };
  SH.clear();
  for (int i = 0; i < 32; i++) SH.push_back(i);
  std::vector<int> OFFA = {0, 1, -1, 128, -128, 255, 32767, -1000000};
#if GROUP == 0
  for (int sh : SH) for (int mul : {1, 2, 3, -1, 7, 255, 4096, 65535, -65536, 1 << 20, INT32_MAX, INT32_MIN}) {
    if (!mcx::begin("quantize-down shift %d mult %d", sh, mul)) continue;
    for (int off : {0, 1, -1, 100, -1000, 65536, -(1 << 24), INT32_MAX / 2}) {
      if (!key(sh) && off != 1 && off != -1000) continue;
      bool deep = (off == 1 && key(sh)) || T;
      SQuant q{off, mul, sh};
      SW(int32_t, deep, q);
      SW(uint8_t, deep, q, SU8());
      IF_SI8(SW(int8_t, false, q, SI8());)
      SW(int16_t, false, q, SI16());
    }
  }
  for (int sh : SH) for (int salt = 0; salt < (T ? 40 : key(sh) ? 12 : 3); salt++) {
    if (!mcx::begin("per-channel quantize-down shift %d parameters %d", sh, salt)) continue;
    auto mk = [&](int n) { return vec(n, {1, 2, 3, -1, 7, 255, 1000, -3, 65535, 1 << 20, 5}, salt); };
    auto of = [&](int n) { return vec(n, {0, 1, -1, 100, -1000, 65536, 7, -(1 << 20), 3}, salt * 3 + 1); };
    bool deep = salt < 3 && key(sh);
    sweep<int32_t>(T, deep, [&](int m, int n, bool rm, bool br, const V32& acc) {
      check1<int32_t>(m, n, rm, br, acc, SQuantPC<VectorShape::Col>{of(m), mk(m), sh});
      check1<int32_t>(m, n, rm, br, acc, SQuantPC<VectorShape::Row>{of(n), mk(n), sh});
      check1<uint8_t>(m, n, rm, br, acc, SQuantPC<VectorShape::Col>{of(m), mk(m), sh}, SU8());
      check1<uint8_t>(m, n, rm, br, acc, SQuantPC<VectorShape::Row>{of(n), mk(n), sh}, SU8());
    });
  }
#elif GROUP == 1
  for (int sh : SH) for (int mul : FM) {
    if (!mcx::begin("fixed-point multiply shift %d mult %d", sh, mul)) continue;
    for (int off : OFFA) {
      if (!key(sh) && off != 1 && off != -128) continue;
      bool deep = (off == 128 && key(sh)) || T;
      SFix q{mul, sh, off};
      SW(int32_t, deep, q);
      SW(uint8_t, deep, q, SU8());
      IF_SI8(SW(int8_t, deep && sh < 9, q, SI8());)
      SW(int16_t, deep && sh < 9, q, SI16());
    }
  }
#elif GROUP == 2
  std::vector<int> EX;
  for (int i = -31; i <= 30; i++) EX.push_back(i);
  for (int ex : EX) for (int mul : FM) {
    if (!mcx::begin("fixed-point multiply exponent %d mult %d", ex, mul)) continue;
    for (int off : {0, 1, -128, 255}) {
      if (!key(ex) && !key(-ex) && off > 1) continue;
      bool deep = (off == 1 && (key(ex) || key(-ex))) || T;
      SScale q{mul, ex, off};
      SW(int32_t, deep, q);
      SW(int16_t, deep && ex < 2, q, SI16());
      SW(uint8_t, false, q, SU8());
    }
  }
  for (int salt = 0; salt < (T ? 400 : 60); salt++) {
    if (!mcx::begin("per-channel fixed-point multiply with exponent, parameters %d", salt)) continue;
    auto mk = [&](int n) { return vec(n, FM, salt); };
    auto ex = [&](int n) { return vec(n, EX, salt * 7 + 3); };
    bool deep = salt < 8;
    sweep<int32_t>(T, deep, [&](int m, int n, bool rm, bool br, const V32& acc) {
      IF_SPC(check1<int32_t>(m, n, rm, br, acc, SScalePC<VectorShape::Col>{mk(m), ex(m), salt});)
      IF_SPC(check1<int32_t>(m, n, rm, br, acc, SScalePC<VectorShape::Row>{mk(n), ex(n), -salt});)
      IF_SPC(check1<uint8_t>(m, n, rm, br, acc, SScalePC<VectorShape::Col>{mk(m), ex(m), salt}, SU8());)
      IF_SPC(check1<int16_t>(m, n, rm, br, acc, SScalePC<VectorShape::Row>{mk(n), ex(n), salt}, SI16());)
    });
  }
#elif GROUP == 3
  // the one-call interface and the standard pipelines
  for (int sh : {0, 1, 5, 8, 12, 18, 31}) for (int pat = 0; pat < 3; pat++) {
    if (!mcx::begin("Gemm() and standard pipelines, shift %d, operands %d", sh, pat)) continue;
    struct Sp { int m, k, n; };
    for (Sp q : {Sp{1, 1, 1}, Sp{5, 3, 7}, Sp{13, 17, 4}, Sp{3, 40, 19}, Sp{24, 33, 1}, Sp{1, 21, 18}})
      for (int off : {0, -1000, 77777}) for (int mul : {1, -2, 255}) for (int lo : {0, -128, -255}) for (int ro : {0, -3, 200})
        if (T || ((off != 0) + mul + lo + ro + q.m) % 3 == 0) standard(q.m, q.n, q.k, off, mul, sh, lo, ro, pat);
    mcx::beat();
  }
  // casts, clamps, bias additions, identity
  if (mcx::begin("identity and saturating casts")) {
    SW(int32_t, true, SClamp{INT32_MIN, INT32_MAX});
    SW(uint8_t, true, SU8()); IF_SI8(SW(int8_t, true, SI8());) SW(int16_t, true, SI16()); IF_TR(SW(uint8_t, true, STrunc());)
    sweep<int32_t>(T, true, [&](int m, int n, bool rm, bool br, const V32& acc) { check1<int32_t>(m, n, rm, br, acc); });
  }
  if (mcx::begin("saturating casts, every value near the thresholds")) {
    V32 save = LAT;
    LAT.clear();
    for (int i = -300; i <= 600; i++) LAT.push_back(i);
    for (int i = -40; i <= 40; i++) { LAT.push_back(32767 + i); LAT.push_back(-32768 + i); LAT.push_back(65535 + i); LAT.push_back(-65536 + i); }
    SW(uint8_t, true, SU8()); IF_SI8(SW(int8_t, true, SI8());) SW(int16_t, true, SI16()); IF_TR(SW(uint8_t, true, SClamp{0, 255}, STrunc());)
    IF_TR(SW(uint8_t, true, SClamp{17, 203}, STrunc());)
    LAT = save;
  }
  std::vector<int> CL = {INT32_MIN, -1000000, -32769, -128, -1, 0, 1, 100, 255, 256, 70000, INT32_MAX};
  for (int lo : CL) for (int hi : CL) if (lo <= hi) {
    if (!mcx::begin("clamp to [%d,%d]", lo, hi)) continue;
    SClamp q{lo, hi};
    SW(int32_t, true, q);
    SW(uint8_t, false, q, SU8()); SW(int16_t, false, q, SI16());
    IF_TR(if (lo >= 0 && hi <= 255) SW(uint8_t, true, q, STrunc());)
  }
  std::vector<int> B = {0, 1, -1, 100, -100, 65536, -65536, 1 << 30, -(1 << 30), INT32_MAX, INT32_MIN, 12345, -9};
  for (int salt = 0; salt < (T ? 200 : 26); salt++) {
    if (!mcx::begin("bias vectors %d", salt)) continue;
    sweep<int32_t>(T, salt < 6, [&](int m, int n, bool rm, bool br, const V32& acc) {
      SBias<VectorShape::Col> bc{vec(m, B, salt)}; SBias<VectorShape::Row> bro{vec(n, B, salt)};
      check1<int32_t>(m, n, rm, br, acc, bc);
      check1<int32_t>(m, n, rm, br, acc, bro);
      check1<uint8_t>(m, n, rm, br, acc, bc, SFix{1 << 30, 3, 5}, SClamp{10, 240}, SU8());
      check1<uint8_t>(m, n, rm, br, acc, bro, SFix{1 << 30, 3, 5}, SClamp{10, 240}, SU8());
      check1<int16_t>(m, n, rm, br, acc, bro, SScale{1518500250, -4, -7}, SClamp{-20000, 20000}, SI16());
    });
  }
#elif GROUP == 5
  // compositions that combine per-row and per-column parameters (transposed dispatch, tuples of every length)
  for (int salt = 0; salt < (T ? 200 : 20); salt++) {
    if (!mcx::begin("long compositions %d", salt)) continue;
    auto mk = [&](int n) { return vec(n, {1 << 30, 1518500250, (1 << 30) + 12345, INT32_MAX}, salt); };
    auto ex = [&](int n) { return vec(n, {-3, -1, 0, 1, 2, -8}, salt * 7 + 3); };
    sweep<int32_t>(T, salt < 3, [&](int m, int n, bool rm, bool br, const V32& acc) {
      SBias<VectorShape::Col> bc{vec(m, {3, -8, 100, 0, 77}, salt)}; SBias<VectorShape::Row> bro{vec(n, {1, 0, -5, 1000, 9, -40}, salt)};
      IF_SPC(check1<uint8_t>(m, n, rm, br, acc, bc, bro, SScalePC<VectorShape::Col>{mk(m), ex(m), salt}, SClamp{5, 250}, SU8());)
      IF_SPC(check1<int16_t>(m, n, rm, br, acc, bro, bc, SScalePC<VectorShape::Row>{mk(n), ex(n), salt}, SClamp{-3000, 30000}, SI16());)
      IF_SI8(check1<int8_t>(m, n, rm, br, acc, bro, SQuantPC<VectorShape::Col>{vec(m, {1, 2, 3}, salt), vec(m, {1, 5, 3, -2}, salt), 2}, bc, SClamp{-100, 100}, SI8());)
      check1<uint8_t>(m, n, rm, br, acc, bc, SFix{1 << 30, 2, 3}, bro, SScale{INT32_MAX, 1, 0}, SClamp{3, 251}, SU8());
      check1<int16_t>(m, n, rm, br, acc, bro, SQuantPC<VectorShape::Row>{vec(n, {1, 2, 3}, salt), vec(n, {1, 5, 3, -2}, salt), 2}, bc, SI16());
      check1<uint8_t>(m, n, rm, br, acc, bro, bc, SScale{1518500250, -2, 7}, SClamp{-20, 300}, bro, SU8());
      IF_TR(check1<uint8_t>(m, n, rm, br, acc, bc, SFix{1 << 30, 2, 3}, bro, SScale{INT32_MAX, 1, 0}, SClamp{0, 255}, STrunc());)
    });
  }
#elif GROUP == 6
  // results of several cache blocks, computed by several threads: per-row and per-column parameters follow the element
  struct B { int m, k, n; };
  for (B s : {B{70, 130, 50}, B{33, 140, 100}, B{130, 300, 9}, B{9, 300, 130}, B{64, 128, 64}, B{97, 40, 57}}) for (int cfg = 0; cfg < 5; cfg++) {
    if (!mcx::begin("%dx%dx%d result, settings %d", s.m, s.k, s.n, cfg)) continue;
    GemmContext ctx; CTX = &ctx; DEPTH = s.k;
    ctx.set_max_num_threads(cfg == 0 || cfg == 1 ? 1 : cfg == 2 ? 2 : cfg == 3 ? 4 : 3);
    if (cfg == 1 || cfg == 2 || cfg == 4) { ctx.set_l1_bytes_to_use(cfg == 4 ? 700 : 2500); ctx.set_l2_bytes_to_use(cfg == 4 ? 3000 : 12000); ctx.set_l2_rhs_factor(cfg == 4 ? 1.f : 0.5f); }
    for (int salt = 0; salt < (T ? 20 : 3); salt++) for (int rm = 0; rm < 2; rm++) for (int br = 0; br < 2; br++) {
      V32 acc(br ? s.m : s.n);
      for (size_t i = 0; i < acc.size(); i++) acc[i] = LAT[(i * 7 + salt * 31) % LAT.size()] >> (i % 3 * 6);
      auto mk = [&](int n) { return vec(n, {1 << 30, 1518500250, (1 << 30) + 12345, INT32_MAX, 3, -(1 << 30)}, salt); };
      auto ex = [&](int n) { return vec(n, {-3, -1, 0, 1, 2, -8, -20}, salt * 7 + 3); };
      auto sm = [&](int n) { return vec(n, {1, 2, 3, -1, 7, 255, 1000, -3, 5}, salt); };
      SBias<VectorShape::Col> bc{vec(s.m, {3, -8, 100, 0, 77, 12345, -700000}, salt)}; SBias<VectorShape::Row> bro{vec(s.n, {1, 0, -5, 1000, 9, -40, 65536}, salt)};
      check1<int32_t>(s.m, s.n, rm, br, acc);
      check1<int32_t>(s.m, s.n, rm, br, acc, bc, bro);
      check1<uint8_t>(s.m, s.n, rm, br, acc, bc, SFix{1518500250, 3, 100}, SClamp{10, 240}, SU8());
      check1<uint8_t>(s.m, s.n, rm, br, acc, bro, SQuant{5, 3, 4}, SU8());
      check1<int16_t>(s.m, s.n, rm, br, acc, bro, SScale{1518500250, -2, -7}, SI16());
      IF_SI8(check1<int8_t>(s.m, s.n, rm, br, acc, bc, SFix{1 << 30, 4, -3}, SI8());)
      check1<uint8_t>(s.m, s.n, rm, br, acc, SQuantPC<VectorShape::Col>{sm(s.m), sm(s.m), 5}, SU8());
      check1<int32_t>(s.m, s.n, rm, br, acc, SQuantPC<VectorShape::Row>{sm(s.n), sm(s.n), 5});
      IF_SPC(check1<int32_t>(s.m, s.n, rm, br, acc, SScalePC<VectorShape::Col>{mk(s.m), ex(s.m), salt});)
      IF_SPC(check1<uint8_t>(s.m, s.n, rm, br, acc, SScalePC<VectorShape::Row>{mk(s.n), ex(s.n), salt}, SU8());)
      check1<int32_t>(s.m, s.n, rm, br, acc, STanh{128, 1000});
      mcx::beat();
    }
    CTX = nullptr;
  }
  // positions beyond 8, 15 and 16 bits
  for (B s : {B{300, 1, 9}, B{9, 1, 300}, B{32775, 2, 8}, B{13, 1, 32781}, B{65551, 1, 12}, B{8, 2, 65549}}) for (int rm = 0; rm < 2; rm++) for (int br = 0; br < 2; br++) {
    if (!mcx::begin("%dx%dx%d result, per-row and per-column parameters", s.m, s.k, s.n)) continue;
    GemmContext ctx; CTX = &ctx; DEPTH = s.k;
    V32 acc(br ? s.m : s.n);
    for (size_t i = 0; i < acc.size(); i++) acc[i] = LAT[(i * 7) % LAT.size()] >> (i % 3 * 6);
    auto par = [&](int n, int lo, int hi) { V32 v(n); for (int i = 0; i < n; i++) v[i] = lo + (int)(((uint32_t)i * 2654435761u >> 8) % (uint32_t)(hi - lo + 1)); return v; };
    SBias<VectorShape::Col> bc{par(s.m, -100000, 100000)}; SBias<VectorShape::Row> bro{par(s.n, -70000, 90000)};
    check1<int32_t>(s.m, s.n, rm, br, acc, bc, bro); mcx::beat();
    check1<uint8_t>(s.m, s.n, rm, br, acc, bc, SQuant{5, 3, 12}, SU8()); mcx::beat();
    check1<int16_t>(s.m, s.n, rm, br, acc, bro, SScale{1518500250, -2, -7}, SI16()); mcx::beat();
    check1<uint8_t>(s.m, s.n, rm, br, acc, SQuantPC<VectorShape::Col>{par(s.m, -900, 900), par(s.m, -9, 9), 9}, SU8()); mcx::beat();
    check1<int32_t>(s.m, s.n, rm, br, acc, SQuantPC<VectorShape::Row>{par(s.n, -900, 900), par(s.n, -9, 9), 5}); mcx::beat();
    IF_SPC(check1<int32_t>(s.m, s.n, rm, br, acc, SScalePC<VectorShape::Col>{par(s.m, 1 << 30, INT32_MAX), par(s.m, -9, 1), 3});) mcx::beat();
    IF_SPC(check1<uint8_t>(s.m, s.n, rm, br, acc, SScalePC<VectorShape::Row>{par(s.n, 1 << 30, INT32_MAX), par(s.n, -12, 0), 99}, SU8());) mcx::beat();
    CTX = nullptr;
  }
#else
  // tanh
  for (int zero : {0, 1, -1, 128, 100, -5000, 1 << 20}) for (int amp : {1, 2, 3, 7, 100, 127, 128, 255, 1000, 4096, 65535, 65536, 1000000, 1 << 24, (1 << 26) + 1}) {
    if (!mcx::begin("tanh zero %d amplitude %d", zero, amp)) continue;
    V32 save = LAT;
    LAT.clear();
    for (int i = -400; i <= 400; i += T ? 1 : 4) { int64_t x = zero + (int64_t)std::floor(i * (amp / 40.0)); if (fits(x)) LAT.push_back((int32_t)x); }
    for (int i = -6; i <= 6; i++) for (int k : {-9, -8, -1, 0, 1, 8, 9}) { int64_t x = zero + (int64_t)k * amp + i; if (fits(x)) LAT.push_back((int32_t)x); }
    STanh q{zero, amp};
    SW(int32_t, true, q);
    if (zero == 128 && amp == 127) SW(uint8_t, true, q, SU8());
    LAT = save;
  }
#endif
}
MCX_MAIN
