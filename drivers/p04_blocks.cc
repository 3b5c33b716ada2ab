// P04: results do not depend on cache-size settings; block sizes are sound.
#ifndef MODE
#define MODE 0
#endif
#if MODE == 2
#define INT8_INPUTS
#endif
#include "gx.h"
#include <algorithm>
#if MODE == 0
typedef uint8_t In; typedef DefaultL8R8BitDepthParams Bd;
inline int ord(int o) { return o; }
#elif MODE == 1
typedef uint8_t In; typedef L8R8WithLhsNonzeroBitDepthParams Bd;
inline int ord(int o) { return o; }
#elif MODE == 2
typedef int8_t In; typedef SignedL8R8WithLhsNonzeroBitDepthParams Bd;
inline int ord(int o) { return 4 | (o & 1); }
#else
typedef uint8_t In; typedef SmallProductBitDepthParams Bd;
inline int ord(int o) { return o; }
#endif
const int LMIN = Bd::LhsRange::kMinValue, LMAX = Bd::LhsRange::kMaxValue, RMIN = Bd::RhsRange::kMinValue, RMAX = Bd::RhsRange::kMaxValue;
typedef OutputStageBiasAddition<VectorMap<const int32_t, VectorShape::Row>> BiasR;
typedef std::tuple<BiasR, OutputStageQuantizeDownInt32ByFixedPoint, OutputStageSaturatingCastToUint8> Pipe8;
struct Run {
  void run_(int o) const { with_orders(o, *this); }
  GemmContext* ctx; const Mat<In>* l; const Mat<In>* r; Mat<int32_t>* d; Mat<uint8_t>* d8; const int32_t *lo, *ro; const Pipe8* pipe8;
  template <MapOrder L, MapOrder R, MapOrder D> void run() const {
    MatrixMap<const In, L> lm(l->buf.data(), l->rows, l->cols, l->stride);
    MatrixMap<const In, R> rm(r->buf.data(), r->rows, r->cols, r->stride);
    mcx::calls();
    if (d) { MatrixMap<int32_t, D> dm(d->buf.data(), d->rows, d->cols, d->stride);
      GemmWithOutputPipelinePC<In, int32_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), std::tuple<>()); }
    else { MatrixMap<uint8_t, D> dm(d8->buf.data(), d8->rows, d8->cols, d8->stride);
      GemmWithOutputPipelinePC<In, uint8_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), *pipe8); }
  }
};
#ifndef PUBLIC_ONLY
template <int RC, int RD, int RN, int CC, int CD, int CN> using KF = KernelFormat<KernelSideFormat<CellFormat<RC, RD, CellOrder::WidthMajor>, RN>, KernelSideFormat<CellFormat<CC, CD, CellOrder::WidthMajor>, CN>>;
template <typename F> void block_invariants(const char* fmt, bool T) {
  std::vector<int> sz = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 48, 63, 64, 65, 100, 127, 128, 129, 255, 257, 500, 1000, 2049};
  for (int threads = 1; threads <= (T ? 16 : 9); threads++) for (int l1 : {0, 1, 64, 1000, 16384, 32768, 1 << 20, INT32_MAX}) {
    if (!mcx::begin("block sizes for kernel format %s, %d threads, first-level bytes %d", fmt, threads, l1)) continue;
    for (int l2 : {0, 1, 100, 4096, 262144, 393216, 1 << 22, INT32_MAX}) for (float f : {0.f, 0.01f, 0.25f, 0.5f, 0.75f, 0.9f, 1.f})
      for (int m : sz) for (int n : sz) if (n <= m) for (int k : {1, 15, 16, 17, 100, 1000, 4095}) {
        BlockParams b;
        b.Init<F>(m, n, k, threads, l1, l2, f);
        auto bad = [&](const char* w) {
          mcx::fail("%s: rows %d cols %d depth %d threads %d l1 %d l2 %d factor %g gives l1 %dx%dx%d l2 %dx%dx%d", w, m, n, k, threads, l1, l2, f, b.l1_rows, b.l1_depth, b.l1_cols, b.l2_rows, b.l2_depth, b.l2_cols);
        };
        if (b.l1_rows < 1 || b.l1_cols < 1 || b.l1_depth < 1 || b.l2_rows < 1 || b.l2_cols < 1 || b.l2_depth < 1) bad("a block size is not positive");
        if (b.l2_rows % F::kRows || b.l1_rows % F::kRows) bad("block rows are no multiple of the kernel rows");
        if (b.l2_cols % F::kCols || b.l1_cols % F::kCols) bad("block columns are no multiple of the kernel columns");
        if (b.l2_depth % F::kDepth || b.l1_depth % F::kDepth || b.l1_depth % kRegisterSize || b.l2_depth % kRegisterSize) bad("block depth is no multiple of the kernel depth or register size");
        if (b.l1_rows > b.l2_rows || b.l1_cols > b.l2_cols || b.l1_depth > b.l2_depth) bad("a first-level block exceeds its second-level block");
        if (b.l2_depth < k) bad("the depth is not covered");
        mcx::elements(1);
      }
  }
}
#endif
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  struct S { int m, k, n; };
  std::vector<S> shapes = {{1, 1, 1}, {13, 70, 9}, {24, 33, 8}, {40, 100, 40}, {9, 200, 30}, {64, 64, 64}, {100, 50, 37}, {5, 300, 5}, {49, 17, 50}, {3, 16, 100}, {130, 40, 3}, {37, 129, 25}};
  if (T) for (int m : {1, 4, 12, 13, 33, 65}) for (int n : {1, 4, 8, 9, 30}) for (int k : {1, 16, 17, 48, 65, 130, 257}) shapes.push_back({m, k, n});
  std::vector<int> L1 = {0, 1, 200, 500, 900, 1500, 2500, 5000, 16384, 32768, 1 << 30}, L2 = {0, 1, 600, 2500, 10000, 40000, 262144, 1 << 22, INT32_MAX};
  std::vector<float> FA = {0.f, 0.01f, 0.25f, 0.5f, 0.75f, 0.9f, 1.f};
#if defined(GEMMLOWP_NEON) || defined(MINIRT)
  if (!T) { L1 = {0, 300, 900, 2500, 16384, 1 << 30}; L2 = {0, 600, 2500, 10000, 262144, INT32_MAX}; FA = {0.f, 0.5f, 0.75f, 1.f}; }
#endif
  for (const S& s : shapes) for (int oi = 0; oi < 8; oi++) {
    int o = oi;
    if (ord(o) != o) continue;
    if (!T && (o + s.m + s.n) % 2 && MODE != 2) continue;
    if (!mcx::begin("mode %d: %dx%dx%d order %d under every cache setting", MODE, s.m, s.k, s.n, o)) continue;
    Mat<In> l(s.m, s.k, l_rm(o), 1, (In)LMAX), r(s.k, s.n, r_rm(o), 2, (In)RMAX);
    std::vector<int32_t> lo(s.m), ro(s.n), bias(std::max(s.m, s.n));
    for (int i = 0; i < s.m; i++) lo[i] = (int)(code(i, 5, s.m) % 301) - 150;
    for (int i = 0; i < s.n; i++) ro[i] = (int)(code(i, 9, s.n) % 301) - 150;
    for (size_t i = 0; i < bias.size(); i++) bias[i] = (int)(code(i, 2, 7) % 20001) - 10000;
    for (int i = 0; i < s.m; i++) for (int p = 0; p < s.k; p++) l(i, p) = (In)(LMIN + code(i, p, s.k) % (LMAX - LMIN + 1));
    for (int j = 0; j < s.n; j++) for (int p = 0; p < s.k; p++) r(p, j) = (In)(RMIN + code(j, p, s.k + 77) % (RMAX - RMIN + 1));
    Pipe8 pipe;
    std::get<0>(pipe).bias_vector = VectorMap<const int32_t, VectorShape::Row>(bias.data(), s.n);
    auto& q = std::get<1>(pipe);
    q.result_fixedpoint_multiplier = 1518500250; q.result_shift = 10; q.result_offset_after_shift = 99;
    std::vector<int32_t> want((size_t)s.m * s.n);
    std::vector<uint8_t> want8((size_t)s.m * s.n);
    for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) {
      int64_t a = 0;
      for (int p = 0; p < s.k; p++) a += (int64_t)(l(i, p) + lo[i]) * (r(p, j) + ro[j]);
      want[(size_t)i * s.n + j] = (int32_t)a;
      int64_t x = ((a + bias[j]) * 1518500250ll + (1ll << 30)) >> 31;
      x = (x >= 0 ? ((x + 512) >> 10) : -((-x + 512) >> 10)) + 99;
      want8[(size_t)i * s.n + j] = x < 0 ? 0 : x > 255 ? 255 : x;
    }
    GemmContext ctx;
    for (int l1 : L1) for (int l2 : L2) for (float f : FA) {
      mcx::Mark mk; mcx::note(" l1=%d l2=%d factor=%g", l1, l2, f);
      ctx.set_l1_bytes_to_use(l1); ctx.set_l2_bytes_to_use(l2); ctx.set_l2_rhs_factor(f);
      int th = 1 + (int)(((u64)l1 + (u64)l2 + (int)(f * 8)) % 4);
      ctx.set_max_num_threads(s.m * s.k * s.n > 100000 ? th : 1);
      Mat<int32_t> d(s.m, s.n, d_rm(o), 1, 0x5ca1ab1e);
      (Run{&ctx, &l, &r, &d, nullptr, lo.data(), ro.data(), &pipe}).run_(o);
      for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) if (d(i, j) != want[(size_t)i * s.n + j])
        mcx::fail("element (%d,%d) is %d under this setting, exact value %d", i, j, d(i, j), want[(size_t)i * s.n + j]);
      mcx::elements((u64)s.m * s.n);
      if (T || ((u64)l1 + l2) % 2 == 0) {
        Mat<uint8_t> d8(s.m, s.n, d_rm(o), 1, 0x5c);
        (Run{&ctx, &l, &r, nullptr, &d8, lo.data(), ro.data(), &pipe}).run_(o);
        for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) if (d8(i, j) != want8[(size_t)i * s.n + j])
          mcx::fail("quantized element (%d,%d) is %d under this setting, expected %d", i, j, d8(i, j), want8[(size_t)i * s.n + j]);
        mcx::elements((u64)s.m * s.n);
      }
#ifndef PUBLIC_ONLY
      BlockParams b; typedef DefaultKernel<Bd>::Format F;
      b.Init<F>(std::max(s.m, s.n), std::min(s.m, s.n), s.k, 1, l1, l2, f);
      mcx::outcome(mcx::hash_bytes(&b, sizeof b, s.m * 131 + s.n * 7 + s.k));  // distinct blockings
#endif
      mcx::beat();
    }
  }
#if MODE == 0 && !defined(GEMMLOWP_NEON) && !defined(MINIRT)
#ifndef PUBLIC_ONLY
#define BI(...) block_invariants<KF<__VA_ARGS__>>(#__VA_ARGS__, T)
  block_invariants<DefaultKernel<Bd>::Format>("default", T);
  BI(4, 1, 1, 4, 1, 1); BI(4, 2, 3, 4, 2, 1); BI(4, 16, 1, 4, 16, 1); BI(8, 8, 1, 8, 8, 1); BI(4, 8, 2, 4, 8, 2); BI(3, 4, 5, 7, 4, 2); BI(8, 1, 4, 2, 1, 1);
#endif
#endif
}
MCX_MAIN
