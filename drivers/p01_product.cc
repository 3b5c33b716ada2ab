// P01: exactness of the int32 product, per back end and operand range mode.
// MODE 0: uint8 x uint8; 1: uint8 (lhs nonzero); 2: int8 (lhs > -128), NEON only; 3: small products (8 bit x 4 bit), 32-bit NEON only.
#ifndef MODE
#define MODE 0
#endif
#if MODE == 2
#define INT8_INPUTS
#endif
#include "gx.h"
#include <algorithm>
#if MODE == 0
typedef uint8_t In; typedef DefaultL8R8BitDepthParams Bd;
#elif MODE == 1
typedef uint8_t In; typedef L8R8WithLhsNonzeroBitDepthParams Bd;
#elif MODE == 2
typedef int8_t In; typedef SignedL8R8WithLhsNonzeroBitDepthParams Bd;
#else
typedef uint8_t In; typedef SmallProductBitDepthParams Bd;
#endif
const int LMIN = Bd::LhsRange::kMinValue, LMAX = Bd::LhsRange::kMaxValue;
#if MODE == 2
inline int ord(int o) { return 4 | (o & 1); }
#else
inline int ord(int o) { return o; }
#endif
const int RMIN = Bd::RhsRange::kMinValue, RMAX = Bd::RhsRange::kMaxValue;
#ifdef HEAVY_EMU
const bool EMU = true;
#else
const bool EMU = false;
#endif

struct Run {
  GemmContext* ctx; const Mat<In>* l; const Mat<In>* r; Mat<int32_t>* d;
  int kind; const int32_t* lo; const int32_t* ro;  // kind 0: scalar; 1: map/map; 2: map/dup; 3: dup/map
  template <MapOrder L, MapOrder R, MapOrder D> void run() const {
    MatrixMap<const In, L> lm(l->buf.data(), l->rows, l->cols, l->stride);
    MatrixMap<const In, R> rm(r->buf.data(), r->rows, r->cols, r->stride);
    MatrixMap<int32_t, D> dm(d->buf.data(), d->rows, d->cols, d->stride);
    std::tuple<> pipe;
    mcx::calls();
    if (kind == 0)
      GemmWithOutputPipeline<In, int32_t, Bd>(ctx, lm, rm, &dm, lo[0], ro[0], pipe);
    else if (kind == 1)
      GemmWithOutputPipelinePC<In, int32_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), pipe);
#ifndef FEW
    else if (kind == 2)
      GemmWithOutputPipelinePC<In, int32_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowDup(ro[0], r->cols), pipe);
    else
      GemmWithOutputPipelinePC<In, int32_t, Bd>(ctx, lm, rm, &dm, ColDup(lo[0], l->rows), RowMap(ro, r->cols), pipe);
#endif
  }
};

static GemmContext* CTX;
// Runs one product and compares every element with the exact sum.
void check(int o, const Mat<In>& l, const Mat<In>& r, int dpad, int kind, const std::vector<int32_t>& lo,
           const std::vector<int32_t>& ro) {
  const int m = l.rows, n = r.cols, k = l.cols;
  static GemmContext* plain = new GemmContext;
  GemmContext* const ctx = CTX ? CTX : plain;
  const int32_t CAN = 0x5ca1ab1e;
  Mat<int32_t> d(m, n, d_rm(o), dpad, CAN);
  Run run{ctx, &l, &r, &d, kind, lo.data(), ro.data()};
  with_orders(o, run);
  bool lv = kind == 1 || kind == 2, rv = kind == 1 || kind == 3;
  // exact sums, in depth-major copies for speed
  std::vector<int32_t> a((size_t)m * k), b((size_t)n * k);
  for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) a[(size_t)i * k + p] = l(i, p) + lo[lv ? i : 0];
  for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) b[(size_t)j * k + p] = r(p, j) + ro[rv ? j : 0];
  u64 h = 7;
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int64_t s = 0;
      const int32_t *x = &a[(size_t)i * k], *y = &b[(size_t)j * k];
      for (int p = 0; p < k; p++) s += (int64_t)x[p] * y[p];
      if (s > INT32_MAX || s < INT32_MIN) continue;  // outside the property
      int32_t got = d(i, j);
      if (got != (int32_t)s)
        mcx::fail("element (%d,%d) of the %dx%dx%d product is %d, exact value %lld", i, j, m, k, n, got, (long long)s);
      h = mcx::mix(h, (u64)(uint32_t)got);
    }
  mcx::elements((u64)m * n);
  mcx::outcome(h);
}
int lval(uint32_t c) { return LMIN + c % (LMAX - LMIN + 1); }
int rval(uint32_t c) { return RMIN + c % (RMAX - RMIN + 1); }
// content patterns: 0 position coded; 1 all max; 2 lhs min, rhs max; 3 lhs max rhs min; 4 alternating extremes; 5 small values
void fill(Mat<In>& l, Mat<In>& r, int pat, uint32_t seed) {
  for (int i = 0; i < l.rows; i++) for (int p = 0; p < l.cols; p++) {
    int v;
    switch (pat) {
      case 0: v = lval(code(i, p, seed)); break;
      case 1: case 3: v = LMAX; break;
      case 2: v = LMIN; break;
      case 5: v = LMIN < 0 ? (int)(code(i, p, seed) % 7) - 3 : 1 + code(i, p, seed) % 3; break;
      default: v = ((i + p) & 1) ? LMAX : LMIN;
    }
    l(i, p) = (In)v;
  }
  for (int p = 0; p < r.rows; p++) for (int j = 0; j < r.cols; j++) {
    int v;
    switch (pat) {
      case 0: v = rval(code(j, p, seed + 77)); break;
      case 1: case 2: v = RMAX; break;
      case 3: v = RMIN; break;
      case 5: v = RMIN < 0 ? (int)(code(j, p, seed + 77) % 7) - 3 : code(j, p, seed + 77) % 3; break;
      default: v = ((j * 3 + p) & 2) ? RMAX : RMIN;
    }
    r(p, j) = (In)v;
  }
}
typedef std::vector<int> VI;
void one(int o_, int m, int k, int n, int lp, int rp, int dp, int pat, int kind, int32_t lo, int32_t ro) {
  const int o = ord(o_);
  // stride gaps hold values that would change the result if they were used
  Mat<In> l(m, k, l_rm(o), lp, (In)LMAX), r(k, n, r_rm(o), rp, (In)RMAX);
  fill(l, r, pat, m * 1000003u + k * 1009u + n);
  std::vector<int32_t> lov(m + 1, lo), rov(n + 1, ro);
  if (kind == 1 || kind == 2) for (int i = 0; i < m; i++) lov[i] = lo + (int)(code(i, 5, m) % 301) - 150;
  if (kind == 1 || kind == 3) for (int i = 0; i < n; i++) rov[i] = ro + (int)(code(i, 9, n) % 301) - 150;
  check(o, l, r, dp, kind, lov, rov);
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  // (1) shapes: every combination, all storage orders.
  VI M, N, K;
  if (EMU && !T) {
    M = {1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 24, 25}; N = {1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 17};
    K = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 65};
  } else {
    for (int i = 1; i <= (T ? 50 : 26); i++) M.push_back(i);
    for (int i = 1; i <= (T ? 26 : 17); i++) N.push_back(i);
    for (int i = 1; i <= (T ? 67 : 20); i++) K.push_back(i);
    if (!T) { M.push_back(37); M.push_back(49); N.push_back(25); K.push_back(31); K.push_back(32); K.push_back(33); K.push_back(34); K.push_back(47); K.push_back(65); }
  }
  for (int m : M) for (int n : N) {
    if (!mcx::begin("mode %d: shapes %dx[K]x%d all depths and orders", MODE, m, n)) continue;
    for (int k : K) {
      for (int o = 0; o < 8; o++) if (ord(o) == o) {
        mcx::Mark mk; mcx::note(" k=%d order=%d", k, o);
        one(o, m, k, n, (m + k) % 3, (n + k) % 3, (m + n) % 3, (k + o) % 5 == 0 ? 1 + (m + n + o) % 4 : 0, (k + n) % 2, (m % 5) * 61 - 128, (n % 5) * 53 - 128);
        mcx::beat();
      }
    }
  }
  // zero dimensions: nothing may be written
  for (int o = 0; o < 8; o++) if (ord(o) == o) for (int z = 1; z < 8; z++) {
    if (!mcx::begin("mode %d: zero dimensions mask %d, order %d", MODE, z, o)) continue;
    for (int big = 1; big <= 33; big += 8) {
      int m = (z & 1) ? 0 : big, k = (z & 2) ? 0 : big, n = (z & 4) ? 0 : big;
      Mat<In> l(std::max(m, 1), std::max(k, 1), l_rm(o), 0, (In)LMAX), r(std::max(k, 1), std::max(n, 1), r_rm(o), 0, (In)RMAX);
      l.rows = m; l.cols = k; r.rows = k; r.cols = n;
      Mat<int32_t> d(std::max(m, 1), std::max(n, 1), d_rm(o), 3, 0x5ca1ab1e);
      d.rows = m; d.cols = n;
      std::vector<int32_t> lo(big + 1, 3), ro(big + 1, 5);
      for (int th = 1; th <= 4; th += 3) for (int kind = 0; kind < 2; kind++) {
        GemmContext ctx; ctx.set_max_num_threads(th);
        Run run{&ctx, &l, &r, &d, kind, lo.data(), ro.data()};
        with_orders(o, run);
        for (size_t i = 0; i < d.buf.size(); i++)
          if (d.buf[i] != 0x5ca1ab1e) mcx::fail("a %dx%dx%d product wrote to the destination", m, k, n);
        mcx::elements(d.buf.size());
      }
    }
  }
  // (2) every pair of operand values at every depth position, over extreme backgrounds.
  const int P = EMU ? (T ? 34 : 17) : (T ? 67 : 34);
  const int bgl[5] = {LMIN, LMAX, LMAX, LMIN, (LMIN + LMAX + 1) / 2}, bgr[5] = {RMIN, RMAX, RMIN, RMAX, (RMIN + RMAX) / 2};
  for (int pos = 0; pos < P; pos++) for (int bg = 0; bg < 5; bg++) {
    if (EMU && !T && bg != 1 && pos % 4 != bg % 4) continue;
    if (!mcx::begin("mode %d: all value pairs at depth position %d, background %d/%d", MODE, pos, bgl[bg], bgr[bg])) continue;
    const int k = P + (pos % 3), lv = LMAX - LMIN + 1, rv = RMAX - RMIN + 1;
    int o = ord((pos * 5 + bg) % 8);
    Mat<In> l(lv, k, l_rm(o), 0), r(k, rv, r_rm(o), 0);
    for (int i = 0; i < lv; i++) for (int p = 0; p < k; p++) l(i, p) = (In)(p == pos ? LMIN + i : bgl[bg]);
    for (int j = 0; j < rv; j++) for (int p = 0; p < k; p++) r(p, j) = (In)(p == pos ? RMIN + j : bgr[bg]);
    check(o, l, r, 0, 0, {0}, {0});
  }
  // (3) boundary values in every pair of depth positions (partial sums of two products)
  VI lb, rb;
  for (int v : {LMIN, LMIN + 1, 0, 1, 127, 128, LMAX - 1, LMAX}) if (v >= LMIN && v <= LMAX && (lb.empty() || std::find(lb.begin(), lb.end(), v) == lb.end())) lb.push_back(v);
  for (int v : {RMIN, RMIN + 1, -1, 0, 127, 128, RMAX - 1, RMAX}) if (v >= RMIN && v <= RMAX && (rb.empty() || std::find(rb.begin(), rb.end(), v) == rb.end())) rb.push_back(v);
  const int PP = T ? 34 : (EMU ? 12 : 18);
  for (int p1 = 0; p1 < PP; p1++) for (int p2 = p1 + 1; p2 < PP; p2++) {
    if (!mcx::begin("mode %d: boundary values at depth positions %d,%d", MODE, p1, p2)) continue;
    for (int bg = 0; bg < 2; bg++) {
      const int k = PP, o = ord((p1 + p2 + bg) % 8), A = lb.size(), B = rb.size();
      Mat<In> l(A * A, k, l_rm(o), 0), r(k, B * B, r_rm(o), 0);
      for (int i = 0; i < A * A; i++) for (int p = 0; p < k; p++) l(i, p) = (In)(p == p1 ? lb[i / A] : p == p2 ? lb[i % A] : bg ? LMAX : LMIN);
      for (int j = 0; j < B * B; j++) for (int p = 0; p < k; p++) r(p, j) = (In)(p == p1 ? rb[j / B] : p == p2 ? rb[j % B] : bg ? RMAX : RMIN);
      check(o, l, r, 0, 0, {0}, {0});
    }
  }
  // (4) long depths, up to the largest for which the extreme sum still fits
  VI D = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16384, 16385, 32767, 32768, 33024, 33025};
  if (T) for (int d = 68; d < 2100; d += 1) D.push_back(d);
  for (int d : D) for (int pat = 0; pat < 5; pat++) {
    if (!mcx::begin("mode %d: depth %d, contents %d", MODE, d, pat)) continue;
    for (int o : (d > 3000 && EMU ? VI{5, 3} : VI{0, 2, 5, 7})) {
      one(o, 13 + (o & 1) * 12, d, 9, 0, 0, 0, pat, 0, 0, 0);
      if (pat == 0 || pat == 4) one(o, 3, d, 5, 1, 2, 1, pat, 1, -128, -127);
      mcx::beat();
    }
  }
  // (5) offsets: a lattice of scalar and vector offsets in both operands
  VI OF = {0, 1, -1, 2, -127, -128, -129, -255, -256, 127, 128, 255, 256, 1000, -1000, 32767, -32768, 46340, -46340};
  for (int lo : OF) for (int ro : OF) {
    if (!mcx::begin("mode %d: offsets %d,%d", MODE, lo, ro)) continue;
    for (int kind = 0; kind < 4; kind++)
      for (int k : {1, 2, 3, 16, 17, 40}) for (int pat = 0; pat < 5; pat++) {
        if (EMU && pat > 1 && k != 17) continue;
        mcx::Mark mk; mcx::note(" kind=%d k=%d contents=%d", kind, k, pat);
        one((lo * 3 + ro + kind + k + 1000000) % 8, 9 + kind, k, 13 - kind, 0, 0, 0, pat, kind, lo, ro);
      }
  }
  // (6) larger matrices (several cache blocks), tall and wide, all orders
  struct S { int m, k, n; };
  std::vector<S> big = {{100, 100, 100}, {1, 1000, 1}, {500, 3, 1}, {1, 3, 500}, {257, 31, 3}, {3, 31, 257}, {64, 512, 64}, {130, 257, 67}, {67, 257, 130}, {33, 700, 129}, {300, 70, 300}};
  if (!EMU || T) { big.push_back({600, 200, 64}); big.push_back({64, 200, 600}); big.push_back({2000, 64, 9}); big.push_back({9, 64, 2000}); big.push_back({40, 4000, 40}); big.push_back({512, 512, 512}); }
  for (const S& s : big) for (int o = 0; o < 8; o++) if (ord(o) == o) {
    if (!mcx::begin("mode %d: large %dx%dx%d order %d", MODE, s.m, s.k, s.n, o)) continue;
    one(o, s.m, s.k, s.n, o % 3, (o + 1) % 3, (o + 2) % 4, 0, o % 4, -77, -101);
    if ((long)s.m * s.k * s.n > (EMU ? 3000000 : 20000000)) continue;
    for (int cfg = 0; cfg < 4; cfg++) {  // the same product on several threads and in small blocks
      GemmContext ctx; CTX = &ctx;
      ctx.set_max_num_threads(cfg == 0 ? 4 : cfg == 1 ? 1 : cfg == 2 ? 2 : 3);
      if (cfg) { ctx.set_l1_bytes_to_use(cfg == 2 ? 700 : 2500); ctx.set_l2_bytes_to_use(cfg == 2 ? 5000 : 20000); ctx.set_l2_rhs_factor(cfg == 3 ? 1.f : 0.5f); }
      mcx::Mark mk; mcx::note(" settings %d", cfg);
      one(o, s.m, s.k, s.n, o % 3, (o + 1) % 3, (o + 2) % 4, 0, (o + cfg) % 4, -77, -101);
      CTX = nullptr;
      mcx::beat();
    }
  }
  // (8) dimensions beyond 16 bits
  for (int d : {65535, 65536, 65537, 100000, 131073, 200001}) {
    if (!mcx::begin("mode %d: depth %d, small values", MODE, d)) continue;
    for (int o : VI{0, 2, 5, 7}) {
      mcx::Mark mk; mcx::note(" order %d", o);
      one(o, 5, d, 3, 0, 0, 0, 5, 0, -7, -11); mcx::beat();
      one(o, 2, d, 2, 1, 2, 1, 5, 0, -128, 1); mcx::beat();
    }
  }
  for (int d : {4097, 32769, 65535, 65537, 70001, 131073}) for (int o = 0; o < 8; o++) if (ord(o) == o) {
    if (!mcx::begin("mode %d: %d rows or columns, order %d", MODE, d, o)) continue;
    for (int t : VI{1, 3}) {
      GemmContext ctx; CTX = &ctx; ctx.set_max_num_threads(t);
      mcx::Mark mk; mcx::note(" threads %d", t);
      one(o, d, 3, 1, 0, 0, 1, 0, 1, -77, -101); mcx::beat();
      one(o, 1, 2, d, 0, 1, 0, 0, 1, -77, -101); mcx::beat();
      one(o, d, 1, 2, 1, 0, 0, 0, o % 4, -77, -101); mcx::beat();
      one(o, 3, 1, d, 0, 0, 0, 0, o % 4, -77, -101); mcx::beat();
      CTX = nullptr;
    }
  }
#ifdef HUGE_ROWS
  // (9) so many rows that the reordered copy of the operand exceeds 2^31 bytes
  if (mcx::begin("mode %d: %d rows", MODE, (1 << 27) + 5)) {
    const int m = (1 << 27) + 5;
    std::vector<uint8_t> l(m), d(m, 77); const uint8_t r = 3;
    for (int i = 0; i < m; i++) l[i] = i * 7 + (i >> 8);
    mcx::beat();
    MatrixMap<const uint8_t, MapOrder::RowMajor> lm(l.data(), m, 1); MatrixMap<const uint8_t, MapOrder::ColMajor> rm(&r, 1, 1); MatrixMap<uint8_t, MapOrder::ColMajor> dm(d.data(), m, 1);
    GemmContext ctx; ctx.set_max_num_threads(1);
    mcx::calls();
    GemmWithOutputPipeline<uint8_t, uint8_t, DefaultL8R8BitDepthParams>(&ctx, lm, rm, &dm, 1, 2, std::make_tuple(OutputStageSaturatingCastToUint8()));
    mcx::beat();
    for (int i = 0; i < m; i++) if (d[i] != std::min(255, (l[i] + 1) * 5)) mcx::fail("element (%d,0) is %d, expected %d", i, d[i], std::min(255, (l[i] + 1) * 5));
    mcx::elements(m);
  }
#endif
  // (7) strides far larger than the matrix
  for (int o = 0; o < 8; o++) if (ord(o) == o) for (int big = 1; big < 8; big++) {
    if (!mcx::begin("mode %d: large strides, mask %d, order %d", MODE, big, o)) continue;
    for (int pad : {250, 4096, 32760, 65530, 131072}) { one(o, 13, 35, 18, (big & 1) ? pad : 0, (big & 2) ? pad + 1 : 0, (big & 4) ? pad + 2 : 0, 0, o % 4, -7, -101); mcx::beat(); }
  }
}
MCX_MAIN
