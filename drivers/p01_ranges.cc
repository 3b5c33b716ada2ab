// P01: exactness for operand ranges other than the predefined ones (they select different kernels).
#ifdef SIGNED_RANGES
#define INT8_INPUTS
#endif
#include "gx.h"
#include <algorithm>
template <class In, class Bd>
struct Runner {
  GemmContext* ctx; const Mat<In>* l; const Mat<In>* r; Mat<int32_t>* d; int lo, ro;
  template <MapOrder L, MapOrder R, MapOrder D> void run() const {
    MatrixMap<const In, L> lm(l->buf.data(), l->rows, l->cols, l->stride);
    MatrixMap<const In, R> rm(r->buf.data(), r->rows, r->cols, r->stride);
    MatrixMap<int32_t, D> dm(d->buf.data(), d->rows, d->cols, d->stride);
    mcx::calls();
    GemmWithOutputPipeline<In, int32_t, Bd>(ctx, lm, rm, &dm, lo, ro, std::tuple<>());
  }
};
// content of an operand: 0 all min, 1 all max, 2 alternating, 3 position coded, 4 min with a few max, 5 max with a few min
static int value(int c, int i, int p, int mn, int mx, uint32_t seed) {
  switch (c) {
    case 0: return mn;
    case 1: return mx;
    case 2: return ((i + p) & 1) ? mx : mn;
    case 3: return mn + (int)(code(i, p, seed) % (uint32_t)(mx - mn + 1));
    case 4: return code(i, p, seed) % 7 ? mn : mx;
    default: return code(i, p, seed) % 7 ? mx : mn;
  }
}
template <class In, int LMIN, int LMAX, int RMIN, int RMAX>
void range(bool T) {
  typedef BitDepthParams<OperandRange<LMIN, LMAX>, OperandRange<RMIN, RMAX>> Bd;
  struct S { int m, n; };
  GemmContext ctx;
  for (const S& s : {S{1, 1}, S{13, 9}, S{25, 4}, S{5, 30}, S{48, 17}}) for (int lc = 0; lc < 6; lc++) {
    if (!mcx::begin("lhs %d..%d rhs %d..%d: %dx[k]x%d, lhs contents %d", LMIN, LMAX, RMIN, RMAX, s.m, s.n, lc)) continue;
    for (int rc = 0; rc < 6; rc++) {
      std::vector<int> K = {1, 2, 3, 4, 7, 8, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 128, 129, 300};
      if (T) { K.clear(); for (int k = 1; k < 200; k++) K.push_back(k); K.push_back(1000); K.push_back(4097); }
      for (int k : K) {
        mcx::Mark mk; mcx::note(" k=%d rhs contents %d", k, rc);
#ifdef SIGNED_RANGES
        const int o = 4 | ((k + rc) & 1);
#else
        const int o = (k + rc + lc) % 8;
#endif
        Mat<In> l(s.m, k, l_rm(o), k % 2, (In)LMAX), r(k, s.n, r_rm(o), k % 3, (In)RMAX);
        for (int i = 0; i < s.m; i++) for (int p = 0; p < k; p++) l(i, p) = (In)value(lc, i, p, LMIN, LMAX, k);
        for (int j = 0; j < s.n; j++) for (int p = 0; p < k; p++) r(p, j) = (In)value(rc, j, p, RMIN, RMAX, k + 50);
        Mat<int32_t> d(s.m, s.n, d_rm(o), 0, 0x5ca1ab1e);
        const int lo = (k * 37) % 3 == 0 ? 0 : -(k % 200), ro = k % 2 ? 0 : 5 - k % 128;
        Runner<In, Bd> run{&ctx, &l, &r, &d, lo, ro};
        with_orders(o, run);
        u64 h = 3;
        for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) {
          int64_t e = 0;
          for (int p = 0; p < k; p++) e += (int64_t)(l(i, p) + lo) * (r(p, j) + ro);
          if (d(i, j) != e) mcx::fail("element (%d,%d) of the %dx%dx%d product is %d, exact value %lld", i, j, s.m, k, s.n, d(i, j), (long long)e);
          h = mcx::mix(h, (u64)e);
        }
        mcx::elements((u64)s.m * s.n); mcx::outcome(h);
      }
      mcx::beat();
    }
  }
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
#ifdef SIGNED_RANGES
  range<int8_t, -127, 127, -127, 127>(T);
  range<int8_t, -127, 126, -128, 40>(T);
  range<int8_t, -100, 100, -128, 127>(T);
  range<int8_t, -1, 127, -128, 127>(T);
#elif defined(SMALL_RANGES)  // products below 4096
  range<uint8_t, 0, 63, 0, 63>(T);
  range<uint8_t, 0, 63, 0, 65>(T);
  range<uint8_t, 0, 31, 0, 127>(T);
  range<uint8_t, 0, 15, 0, 255>(T);
  range<uint8_t, 0, 255, 0, 16>(T);
  range<uint8_t, 0, 1, 0, 1>(T);
#else
  range<uint8_t, 0, 127, 0, 255>(T);
  range<uint8_t, 0, 255, 0, 127>(T);
  range<uint8_t, 0, 64, 0, 64>(T);
  range<uint8_t, 1, 127, 0, 255>(T);
  range<uint8_t, 128, 255, 0, 255>(T);
  range<uint8_t, 1, 255, 1, 255>(T);
#endif
}
MCX_MAIN
