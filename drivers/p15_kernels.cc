// P15: the optimised kernels of the library as units.  Each kernel is run on packed blocks of its own format and
// compared with the definition of the format, in a function into which the compiler may inline it, called several
// times with the same arguments, and with known values in the registers that a call preserves.
#ifdef PUBLIC_ONLY  // the kernels are not found under their names
#include "mcx.h"
void mcx::enumerate(const std::string&) {}
MCX_MAIN
#else
#include "gx.h"
#include "regs.h"
#include <algorithm>
#include "internal/kernel_default.h"
template <typename Cell> inline int place(int w, int d) {
  if (Cell::kOrder == CellOrder::DepthMajor) return d * Cell::kWidth + w;
  if (Cell::kOrder == CellOrder::WidthMajor) return w * Cell::kDepth + d;
  const int s = Cell::kWidth;
  return ((w - d + s) % s) * s + d;
}
alignas(64) static uint8_t LB[1 << 22], RB[1 << 20];
alignas(64) static int32_t DB[1 << 14];
// three ways to call: several blocks side by side, two depths in a row, the same block again
template <typename K> __attribute__((noinline, flatten)) void inlined(const K& k, int32_t* dst, size_t cs, const uint8_t* l, const uint8_t* r, size_t d1, size_t d2, int blocks, size_t lstep) {
  for (int b = 0; b < blocks; b++) {
    k.K::Run(dst + b * K::Format::kRows, 1, cs, l + b * lstep, r, 0, d1);
    if (d2) k.K::Run(dst + b * K::Format::kRows, 1, cs, l + b * lstep + d1 * K::Format::kRows, r + d1 * K::Format::kCols, d1, d2);
  }
}
template <typename K> __attribute__((noinline)) void called(const KernelBase& k, int32_t* dst, size_t cs, const uint8_t* l, const uint8_t* r, size_t d1, size_t d2, int blocks, size_t lstep) {
  for (int b = 0; b < blocks; b++) {
    k.Run(dst + b * K::Format::kRows, 1, cs, l + b * lstep, r, 0, d1);
    if (d2) k.Run(dst + b * K::Format::kRows, 1, cs, l + b * lstep + d1 * K::Format::kRows, r + d1 * K::Format::kCols, d1, d2);
  }
}
template <typename P> void kernel(const char* name, bool T) {
  typedef DefaultKernel<P> K; typedef typename K::Format F; typedef typename F::Lhs::Cell LC; typedef typename F::Rhs::Cell RC;
  typedef typename F::Lhs::Scalar LS; typedef typename F::Rhs::Scalar RS;
  const K k;
  const int kB = 3;
  std::vector<int> D; for (int i = 1; i * 16 <= 16 * 20; i++) D.push_back(i * 16);
  if (F::kDepth < 16) for (int i = 1; i <= 40; i++) D.push_back(i * F::kDepth);
  for (int d : {512, 1008, 1024, 1040, 2048, 4096}) D.push_back(d);
  if (T) for (int d : {8192, 16384, 30000 / 16 * 16}) D.push_back(d);
  std::sort(D.begin(), D.end()); D.erase(std::unique(D.begin(), D.end()), D.end());
  for (int d1 : D) {
    if (!mcx::begin("%s kernel, depth %d", name, d1)) continue;
    for (int d2 : {0, (int)F::kDepth, 16, 64}) for (int pat = 0; pat < 5; pat++) for (int pad : {0, 4, 16, 100}) {
      // packing completes the depth with zeros to a multiple of the register size; only the last run of a block may need them
      if (d2 && (d1 % kRegisterSize || d2 % F::kDepth)) continue;
      const size_t d = d1 + d2, dz = (d + kRegisterSize - 1) / kRegisterSize * kRegisterSize, cs = (kB * F::kRows + 15) / 16 * 16 + pad, lstep = (dz * F::kRows + 63) / 64 * 64;
      uint8_t* l = LB; uint8_t* r = RB;
      // operands: the extremes of the range of the mode, and mixtures (packed operands are biased to the type of the kernel)
      const int ll = std::is_signed<LS>::value ? -127 : P::LhsRange::kMinValue, lh = std::is_signed<LS>::value ? 127 : P::LhsRange::kMaxValue;
      const int rl = std::is_signed<RS>::value ? -128 : P::RhsRange::kMinValue, rh = std::is_signed<RS>::value ? 127 : P::RhsRange::kMaxValue;
      auto gen = [&](size_t i, int lo, int hi, int salt) -> uint8_t {
        if (pat == 0) return (uint8_t)hi;
        if (pat == 1) return (uint8_t)lo;
        if (pat == 2) return (uint8_t)(i % 3 ? hi : lo);
        return (uint8_t)(lo + (int)((i * 2654435761u + salt * 40503u + pat) >> 9) % (hi - lo + 1));
      };
      for (size_t i = 0; i < lstep * kB; i++) l[i] = i % lstep < d * F::kRows || i % lstep >= dz * F::kRows ? gen(i, ll, lh, 1) : 0;
      for (size_t i = 0; i < dz * F::kCols + 64; i++) r[i] = i < d * F::kCols || i >= dz * F::kCols ? gen(i, rl, rh, 7) : 0;
      // the reference: element (row, col) of block b
      std::vector<int32_t> ref((size_t)kB * F::kRows * F::kCols);
      bool fit = true;
      for (int b = 0; b < kB; b++) for (int i = 0; i < F::kRows; i++) for (int j = 0; j < F::kCols; j++) {
        int64_t s = 0;
        for (size_t p = 0; p < d; p++) {
          const size_t dc = p / F::kDepth; const int di = p % F::kDepth;
          s += (int64_t)(LS)l[b * lstep + (dc * F::Lhs::kCells + i / LC::kWidth) * LC::kSize + place<LC>(i % LC::kWidth, di)] *
               (RS)r[(dc * F::Rhs::kCells + j / RC::kWidth) * RC::kSize + place<RC>(j % RC::kWidth, di)];
        }
        if (s != (int32_t)s) fit = false;
        ref[((size_t)b * F::kRows + i) * F::kCols + j] = (int32_t)s;
      }
      if (!fit) continue;
      for (int way = 0; way < 2; way++) {
        const size_t nd = cs * (F::kCols - 1) + kB * F::kRows;
        int32_t* dst = DB;
        for (size_t i = 0; i < nd; i++) dst[i] = 0x3c3c3c3c;
        mcx::calls();
        preserved(name, [&] { if (way) inlined(k, dst, cs, l, r, d1, d2, kB, lstep); else called<K>(k, dst, cs, l, r, d1, d2, kB, lstep); });
        for (int j = 0; j < F::kCols; j++) for (size_t i = 0; i < cs && (j + 1 < F::kCols || i < (size_t)kB * F::kRows); i++) {
          const int32_t got = dst[j * cs + i];
          if (i >= (size_t)kB * F::kRows) { if (got != 0x3c3c3c3c) mcx::fail("%s kernel, depth %d+%d: wrote outside its block, at row %zu of column %d", name, d1, d2, i, j); continue; }
          const int32_t want = ref[i * F::kCols + j];
          if (got != want) mcx::fail("%s kernel%s, depth %d+%d, contents %d: element (%zu,%d) of %d blocks is %d, the format gives %d", name, way ? ", inlined" : "", d1, d2, pat, i, j, kB, got, want);
        }
        mcx::elements((u64)kB * F::kRows * F::kCols);
        mcx::outcome(mcx::hash_bytes(ref.data(), ref.size() * 4));
      }
    }
    mcx::beat();
  }
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  kernel<DefaultL8R8BitDepthParams>("8-bit", T);
  kernel<DefaultL7R5BitDepthParams>("7x5-bit", T);
#if defined(GEMMLOWP_NEON) || defined(GEMMLOWP_MSA)
  kernel<L8R8WithLhsNonzeroBitDepthParams>("nonzero lhs", T);
#endif
#ifdef GEMMLOWP_NEON
  kernel<SignedL8R8WithLhsNonzeroBitDepthParams>("signed, nonzero lhs", T);
#endif
}
MCX_MAIN
#endif
