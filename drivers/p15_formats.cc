// P15: every kernel format of a family: packing, block computation and unpacking give the exact product.
// GROUP selects a part of the family (the formats are template parameters).
#include "gx.h"
#include <algorithm>
#include "internal/kernel_reference.h"
#ifndef GROUP
#define GROUP 0
#endif
// where the documentation of the cell orders puts the coefficient (w, d) of a cell
template <typename Cell> inline int place(int w, int d) {
  if (Cell::kOrder == CellOrder::DepthMajor) return d * Cell::kWidth + w;
  if (Cell::kOrder == CellOrder::WidthMajor) return w * Cell::kDepth + d;
  const int s = Cell::kWidth;  // diagonal: the diagonals of a square cell, one after the other
  return ((w - d + s) % s) * s + d;
}
// A kernel written from the interface documentation alone.
template <typename F> struct MyKernel : KernelBase {
  typedef F Format;
  const char* Name() const override { return "mine"; }
  void Run(int32_t* dst, size_t rs, size_t cs, const uint8_t* lhs, const uint8_t* rhs, size_t start_depth, size_t run_depth) const override {
    if (run_depth == 0 || run_depth % F::kDepth) mcx::fail("kernel asked to run a depth of %zu, cells have depth %d", run_depth, F::kDepth);
    for (int r = 0; r < F::kRows; r++) for (int c = 0; c < F::kCols; c++) {
      int32_t s = 0;
      for (size_t d = 0; d < run_depth; d++) {
        const size_t dc = d / F::kDepth; const int di = d % F::kDepth;
        typedef typename F::Lhs::Cell LC; typedef typename F::Rhs::Cell RC;
        uint8_t a = lhs[(dc * F::Lhs::kCells + r / LC::kWidth) * LC::kSize + place<LC>(r % LC::kWidth, di)];
        uint8_t b = rhs[(dc * F::Rhs::kCells + c / RC::kWidth) * RC::kSize + place<RC>(c % RC::kWidth, di)];
        s += (int32_t)(typename F::Lhs::Scalar)a * (int32_t)(typename F::Rhs::Scalar)b;
      }
      int32_t* p = dst + r * rs + c * cs;
      *p = start_depth == 0 ? s : *p + s;
    }
  }
};
static uint8_t Lb[1 << 16], Rb[1 << 16]; static int32_t Db[1 << 16], LO[512], RO[512];
template <typename F, MapOrder LO_, MapOrder RO_, MapOrder DO_> struct Call;
template <typename F, MapOrder LO_, MapOrder RO_, MapOrder DO_, typename C> void one(C* ctx, const KernelBase& k, const char* kn, int m, int d, int n, bool multi) {
  const int pl = 1, pr = 2, pd = 1;
  const int ls = (LO_ == MapOrder::RowMajor ? d : m) + pl, rs = (RO_ == MapOrder::RowMajor ? n : d) + pr, ds = (DO_ == MapOrder::RowMajor ? n : m) + pd;
  MatrixMap<const uint8_t, LO_> lm(Lb, m, d, ls); MatrixMap<const uint8_t, RO_> rm(Rb, d, n, rs); MatrixMap<int32_t, DO_> dm(Db, m, n, ds);
  const int nd = ds * (DO_ == MapOrder::RowMajor ? m : n);
  for (int i = 0; i < nd; i++) Db[i] = 0x51515151;
  ColMap lo(LO, m); RowMap ro(RO, n);
  mcx::calls();
  Call<F, LO_, RO_, DO_>::go(ctx, k, lm, rm, &dm, lo, ro);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int32_t s = 0;
    for (int p = 0; p < d; p++) s += (lm(i, p) + LO[i]) * (rm(p, j) + RO[j]);
    if (dm(i, j) != s) mcx::fail("%dx%dx%d, %s kernel%s: element (%d,%d) is %d, exact product %d", m, d, n, kn, multi ? " (threads)" : "", i, j, dm(i, j), s);
  }
  const int in = DO_ == MapOrder::RowMajor ? n : m;
  for (int i = 0; i < nd; i++) if (i % ds >= in && Db[i] != 0x51515151) mcx::fail("%dx%dx%d, %s kernel: a stride gap of the destination was written", m, d, n, kn);
  mcx::elements((u64)m * n);
}
template <typename F, MapOrder LO_, MapOrder RO_, MapOrder DO_> struct Call {
  static void go(SingleThreadGemmContext* c, const KernelBase& k, const MatrixMap<const uint8_t, LO_>& l, const MatrixMap<const uint8_t, RO_>& r, MatrixMap<int32_t, DO_>* d, const ColMap& lo, const RowMap& ro) {
    SingleThreadGemm<F, uint8_t, int32_t, DefaultL8R8BitDepthParams>(c, k, l, r, d, lo, ro, std::tuple<>());
  }
  static void go(GemmContext* c, const KernelBase& k, const MatrixMap<const uint8_t, LO_>& l, const MatrixMap<const uint8_t, RO_>& r, MatrixMap<int32_t, DO_>* d, const ColMap& lo, const RowMap& ro) {
    MultiThreadGemm<F, uint8_t, int32_t, DefaultL8R8BitDepthParams>(c, k, l, r, d, lo, ro, std::tuple<>());
  }
};
template <typename F, typename K> void kernel(const K& k, const char* kn, bool T) {
  const MapOrder C = MapOrder::ColMajor, R = MapOrder::RowMajor;
  std::vector<int> M, N, D; for (int i = 1; i <= 34; i++) D.push_back(i); for (int i : {47, 48, 50, 63, 64, 65}) D.push_back(i);
  if (T) { D.clear(); for (int i = 1; i <= 70; i++) D.push_back(i); }
  for (int i = 1; i <= F::kRows + 2; i++) M.push_back(i);
  for (int i = -1; i <= 1; i++) if (2 * F::kRows + i > F::kRows + 2) M.push_back(2 * F::kRows + i);
  for (int i = 1; i <= F::kCols + 1; i++) N.push_back(i);
  for (int i = -1; i <= 1; i++) if (2 * F::kCols + i > F::kCols + 1) N.push_back(2 * F::kCols + i);
  for (int cache = 0; cache < 3; cache++) {
    SingleThreadGemmContext ctx;
    if (cache == 1) { ctx.set_l1_bytes_to_use(600); ctx.set_l2_bytes_to_use(2000); ctx.set_l2_rhs_factor(0.5f); }
    if (cache == 2) { ctx.set_l1_bytes_to_use(1); ctx.set_l2_bytes_to_use(1); ctx.set_l2_rhs_factor(1.f); }
    for (int m : M) for (int n : N) {
      if (n > m) continue;  // the caller transposes
      if (!T && cache && (m + n) % 3) continue;
      for (int d : D) {
        if (!T && (m + n + d) % 2 == 0 && m > 4 && n > 4) { one<F, C, R, R>(&ctx, k, kn, m, d, n, false); continue; }
        one<F, R, C, C>(&ctx, k, kn, m, d, n, false);
        if (T) { one<F, C, R, R>(&ctx, k, kn, m, d, n, false); }
      }
      mcx::beat();
    }
    if (!T && cache == 0) for (int m : {1, 2, 3, 5}) for (int d : D) if (m <= 2 * F::kRows) one<F, C, R, R>(&ctx, k, kn, m, d, std::min(m, 2), false);
  }
  {
    SingleThreadGemmContext ctx;  // wider than any power of two below 256
    one<F, R, C, C>(&ctx, k, kn, 270, 18, 150, false); mcx::beat();
    one<F, C, R, R>(&ctx, k, kn, 270, 18, 150, false); mcx::beat();
  }
  GemmContext mt;
  for (int th : {2, 3, 4}) {
    mt.set_max_num_threads(th);
    one<F, R, C, C>(&mt, k, kn, 65, 130, 63, true); one<F, C, R, R>(&mt, k, kn, 97, 67, 33, true);
    mcx::beat();
  }
}
template <typename F, bool REF> struct Ref { static void run(bool T) { kernel<F>(ReferenceKernel<F>(), "reference", T); } };
template <typename F> struct Ref<F, false> { static void run(bool) {} };
template <typename F> void format(const char* name, bool T) {
  if (mcx::begin("format %s, all shapes, kernel written from the documentation", name)) kernel<F>(MyKernel<F>(), "own", T);
  if (std::is_same<typename F::Lhs::Scalar, uint8_t>::value && mcx::begin("format %s, all shapes, reference kernel", name)) Ref<F, std::is_same<typename F::Lhs::Scalar, uint8_t>::value>::run(T);
}
#define d_ CellOrder::DepthMajor
#define w_ CellOrder::WidthMajor
#define g_ CellOrder::Diagonal
#define FU(D, LW, LOR, LC, RW, ROR, RC) format<KernelFormat<KernelSideFormat<CellFormat<LW, D, LOR>, LC>, KernelSideFormat<CellFormat<RW, D, ROR>, RC>>>("depth " #D ", lhs " #LC " cells of width " #LW " order " #LOR ", rhs " #RC " cells of width " #RW " order " #ROR, T);
#define FS(D, LW, LOR, LC, RW, ROR, RC) format<KernelFormat<KernelSideFormatInt8<CellFormat<LW, D, LOR>, LC>, KernelSideFormatInt8<CellFormat<RW, D, ROR>, RC>>>("int8, depth " #D ", lhs " #LC " cells of width " #LW " order " #LOR ", rhs " #RC " cells of width " #RW " order " #ROR, T);
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  for (int i = 0; i < 1 << 16; i++) { Lb[i] = code(i, 11, 2); Rb[i] = code(i, 13, 4); if (i % 97 == 0) Lb[i] = 255; if (i % 89 == 0) Rb[i] = 255; }
  for (int i = 0; i < 512; i++) { LO[i] = (int)(code(i, 1, 1) % 512) - 256; RO[i] = (int)(code(i, 2, 1) % 512) - 256; }
#if GROUP == 0
  FU(2, 4, d_, 3, 4, d_, 1) FU(2, 4, w_, 3, 4, w_, 1) FU(2, 8, w_, 3, 4, w_, 1) FU(2, 4, w_, 1, 4, w_, 2)
#elif GROUP == 1
  FU(2, 4, d_, 2, 4, d_, 2) FU(2, 4, w_, 2, 4, d_, 3) FU(2, 8, w_, 1, 8, w_, 2) FU(2, 4, d_, 1, 8, w_, 1)
#elif GROUP == 2
  FU(2, 5, w_, 3, 2, g_, 2) FU(2, 2, g_, 1, 3, w_, 2) FU(2, 1, d_, 1, 7, w_, 1) FU(1, 1, d_, 1, 1, d_, 1) FU(1, 3, w_, 2, 5, d_, 1)
#elif GROUP == 3
  FU(1, 8, d_, 1, 1, w_, 3) FU(1, 4, d_, 3, 4, d_, 2) FU(4, 4, g_, 1, 4, g_, 2) FU(4, 4, w_, 3, 4, w_, 2)
#elif GROUP == 4
  FU(4, 3, d_, 2, 5, w_, 3) FU(4, 1, w_, 1, 4, g_, 1) FU(4, 6, w_, 1, 2, d_, 2) FU(4, 7, d_, 1, 1, d_, 1) FU(8, 8, g_, 2, 3, w_, 1)
#elif GROUP == 5
  FU(8, 8, g_, 1, 8, g_, 1) FU(8, 2, w_, 2, 2, d_, 3) FU(8, 5, d_, 1, 8, g_, 1) FU(8, 1, d_, 1, 1, w_, 1) FU(16, 4, w_, 1, 4, w_, 1)
#elif GROUP == 6
  FU(16, 2, w_, 2, 3, d_, 1) FU(16, 16, g_, 1, 1, w_, 2) FU(16, 5, w_, 2, 5, d_, 1) FU(16, 1, d_, 3, 16, g_, 1)
#else
  FS(16, 4, w_, 1, 2, w_, 1) FS(16, 4, w_, 1, 4, w_, 1) FS(16, 2, w_, 1, 4, w_, 1) FS(4, 3, d_, 2, 4, g_, 1) FS(2, 4, w_, 3, 4, d_, 1) FS(1, 1, d_, 1, 1, w_, 1)
#endif
}
MCX_MAIN
