// P03: a product touches only the memory it was given.
// All operands, offset and bias vectors and the destination lie flush against
// inaccessible pages; inputs are compared with a copy (or mapped read-only);
// destination gaps and surroundings hold canaries; operand gaps are varied.
#ifndef MODE
#define MODE 0
#endif
#if MODE == 2
#define INT8_INPUTS
#endif
#include "gx.h"
#include "arena.h"
#include <algorithm>
#if MODE == 0
typedef uint8_t In; typedef DefaultL8R8BitDepthParams Bd;
inline int ord(int o) { return o; }
#elif MODE == 1
typedef uint8_t In; typedef L8R8WithLhsNonzeroBitDepthParams Bd;
inline int ord(int o) { return o; }
#elif MODE == 2
typedef int8_t In; typedef SignedL8R8WithLhsNonzeroBitDepthParams Bd;
inline int ord(int o) { return 4 | (o & 1); }
#else
typedef uint8_t In; typedef SmallProductBitDepthParams Bd;
inline int ord(int o) { return o; }
#endif
const int LMIN = Bd::LhsRange::kMinValue, LMAX = Bd::LhsRange::kMaxValue, RMIN = Bd::RhsRange::kMinValue, RMAX = Bd::RhsRange::kMaxValue;
template <typename T> struct GM {  // matrix inside an arena
  T* p; int rows, cols, stride; bool rm;
  size_t extent() const { int maj = rm ? rows : cols, min = rm ? cols : rows; return (size_t)(maj - 1) * stride + min; }
  size_t at(int r, int c) const { return rm ? (size_t)r * stride + c : (size_t)c * stride + r; }
  GM(const Arena& a, int r, int c, bool rm_, int pad, int where) : rows(r), cols(c), stride((rm_ ? c : r) + pad), rm(rm_) { p = a.place<T>(extent(), where); }
};
static Arena &AL = *new Arena(1 << 17), &AR = *new Arena(1 << 17), &AD = *new Arena(1 << 19), &ALO = *new Arena(1 << 13), &ARO = *new Arena(1 << 13), &AB = *new Arena(1 << 13);
template <typename Out> struct PipeOf;
template <> struct PipeOf<int32_t> { typedef std::tuple<> type; static type make(const int32_t*, int) { return type(); } static int32_t ref(int32_t a, int32_t) { return a; } };
typedef OutputStageBiasAddition<VectorMap<const int32_t, VectorShape::Col>> BiasC;
template <> struct PipeOf<uint8_t> { typedef std::tuple<BiasC, OutputStageSaturatingCastToUint8> type;
  static type make(const int32_t* b, int m) { BiasC s; s.bias_vector = VectorMap<const int32_t, VectorShape::Col>(b, m); return type(s, OutputStageSaturatingCastToUint8()); }
  static uint8_t ref(int32_t a, int32_t b) { a += b; return a < 0 ? 0 : a > 255 ? 255 : a; } };
template <> struct PipeOf<int16_t> { typedef std::tuple<BiasC, OutputStageSaturatingCastToInt16> type;
  static type make(const int32_t* b, int m) { BiasC s; s.bias_vector = VectorMap<const int32_t, VectorShape::Col>(b, m); return type(s, OutputStageSaturatingCastToInt16()); }
  static int16_t ref(int32_t a, int32_t b) { a += b; return a < -32768 ? -32768 : a > 32767 ? 32767 : a; } };
template <typename Out, template <typename> class G = GM> struct Run {
  GemmContext* ctx; const G<In>* l; const G<In>* r; G<Out>* d; const int32_t *lo, *ro, *bias;
  template <MapOrder L, MapOrder R, MapOrder D> void run() const {
    MatrixMap<const In, L> lm(l->p, l->rows, l->cols, l->stride);
    MatrixMap<const In, R> rm(r->p, r->rows, r->cols, r->stride);
    MatrixMap<Out, D> dm(d->p, d->rows, d->cols, d->stride);
    auto pipe = PipeOf<Out>::make(bias, d->rows);
    mcx::calls();
    GemmWithOutputPipelinePC<In, Out, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), pipe);
  }
};
static GemmContext* ctxs[8];
template <typename Out> void one(int o, int m, int k, int n, int lp, int rp, int dp, int where, int threads, bool ro_inputs, uint32_t seed) {
  GM<In> l(AL, m, k, l_rm(o), lp, where & 1), r(AR, k, n, r_rm(o), rp, (where >> 1) & 1);
  GM<Out> d(AD, m, n, d_rm(o), dp, (where >> 2) & 1);
  int32_t *lo = ALO.place<int32_t>(m, where & 1), *ro = ARO.place<int32_t>(n, (where >> 1) & 1), *bias = AB.place<int32_t>(m, where & 1);
  // gaps get a value depending on the seed: different runs see different gap bytes
  memset(l.p, (int)(seed * 37 + 11), l.extent() * sizeof(In)); memset(r.p, (int)(seed * 91 + 200), r.extent() * sizeof(In));
  std::vector<int32_t> ll((size_t)m * k), rr((size_t)k * n);
  for (int i = 0; i < m; i++) { lo[i] = (int)(code(i, 5, m) % 301) - 150; bias[i] = (int)(code(i, 1, m) % 5001) - 2500; }
  for (int j = 0; j < n; j++) ro[j] = (int)(code(j, 9, n) % 301) - 150;
  for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) { int v = LMIN + code(i, p, k) % (LMAX - LMIN + 1); l.p[l.at(i, p)] = (In)v; ll[(size_t)i * k + p] = v + lo[i]; }
  for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) { int v = RMIN + code(j, p, k + 77) % (RMAX - RMIN + 1); r.p[r.at(p, j)] = (In)v; rr[(size_t)j * k + p] = v + ro[j]; }
  std::string cl((char*)l.p, l.extent() * sizeof(In)), cr((char*)r.p, r.extent() * sizeof(In)), clo((char*)lo, m * 4), cro((char*)ro, n * 4), cb((char*)bias, m * 4);
  const unsigned char CAN = 0xA0 + (seed * 29) % 64;
  // canaries: the destination with its gaps and up to 512 bytes beside it
  char* db = (char*)d.p; char* de = (char*)(d.p + d.extent());
  char* cbeg = std::max(AD.lo, db - 512); char* cend = std::min(AD.hi, de + 512);
  memset(cbeg, CAN, cend - cbeg);
  if (ro_inputs) { AL.readonly(true); AR.readonly(true); ALO.readonly(true); ARO.readonly(true); AB.readonly(true); }
  Run<Out> run{ctxs[threads], &l, &r, &d, lo, ro, bias};
  with_orders(o, run);
  if (ro_inputs) { AL.readonly(false); AR.readonly(false); ALO.readonly(false); ARO.readonly(false); AB.readonly(false); }
  if (memcmp(cl.data(), l.p, cl.size())) mcx::fail("the left operand was modified");
  if (memcmp(cr.data(), r.p, cr.size())) mcx::fail("the right operand was modified");
  if (memcmp(clo.data(), lo, clo.size()) || memcmp(cro.data(), ro, cro.size()) || memcmp(cb.data(), bias, cb.size())) mcx::fail("an offset or bias vector was modified");
  for (char* p = cbeg; p < db; p++) if (*(unsigned char*)p != CAN) mcx::fail("byte %ld before the destination was written", (long)(db - p));
  for (char* p = de; p < cend; p++) if (*(unsigned char*)p != CAN) mcx::fail("byte %ld after the destination was written", (long)(p - de));
  Out can; memset(&can, CAN, sizeof can);
  int maj = d.rm ? m : n, min = d.rm ? n : m;
  for (int a = 0; a + 1 < maj; a++) for (int b = min; b < d.stride; b++) if (d.p[(size_t)a * d.stride + b] != can) mcx::fail("stride gap element %d of destination line %d was written", b, a);
  u64 h = 1;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int32_t s = 0;
    const int32_t *x = &ll[(size_t)i * k], *y = &rr[(size_t)j * k];
    for (int p = 0; p < k; p++) s += x[p] * y[p];
    Out want = PipeOf<Out>::ref(s, bias[i]), got = d.p[d.at(i, j)];
    if (got != want) mcx::fail("element (%d,%d) is %lld instead of %lld", i, j, (long long)got, (long long)want);
    h = mcx::mix(h, (u64)got);
  }
  mcx::elements(cend - cbeg);
  mcx::outcome(h);
}
#if UINTPTR_MAX > 0xffffffffu && !defined(MINIRT)
// a matrix whose lines lie so far apart that it spans more than 2^31 elements; nothing else is mapped
template <typename T> struct Sparse {
  char* base; size_t len; T* p; int rows, cols, stride; bool rm; size_t pg;
  size_t at(int r, int c) const { return rm ? (size_t)r * stride + c : (size_t)c * stride + r; }
  int lines() const { return rm ? rows : cols; }
  int line() const { return rm ? cols : rows; }
  char* first(int a) const { return (char*)((uintptr_t)(p + (size_t)a * stride) / pg * pg); }
  char* last(int a) const { return (char*)(((uintptr_t)(p + (size_t)a * stride + line()) + pg - 1) / pg * pg); }
  Sparse(int r, int c, bool rm_, int st) : rows(r), cols(c), stride(st), rm(rm_), pg(sysconf(_SC_PAGESIZE)) {
    len = ((size_t)lines() * stride * sizeof(T) / pg + 2) * pg;
    base = (char*)mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == (char*)MAP_FAILED) { perror("mmap"); abort(); }
    p = (T*)(base + 64);
    for (int a = 0; a < lines(); a++) { if (mprotect(first(a), last(a) - first(a), PROT_READ | PROT_WRITE)) { perror("mprotect"); abort(); } memset(first(a), 0x5b, last(a) - first(a)); }
  }
  ~Sparse() { munmap(base, len); }
};
template <typename Out> void spread(int o, int m, int k, int n, int mask, int stride) {
  Sparse<In> l(m, k, l_rm(o), mask & 1 ? stride : l_rm(o) ? k : m), r(k, n, r_rm(o), mask & 2 ? stride + 5 : r_rm(o) ? n : k);
  Sparse<Out> d(m, n, d_rm(o), mask & 4 ? stride + 1 : d_rm(o) ? n : m);
  std::vector<int32_t> lo(m), ro(n), bias(m);
  for (int i = 0; i < m; i++) { lo[i] = (int)(code(i, 5, m) % 301) - 150; bias[i] = (int)(code(i, 1, m) % 5001) - 2500; }
  for (int j = 0; j < n; j++) ro[j] = (int)(code(j, 9, n) % 301) - 150;
  for (int i = 0; i < m; i++) for (int q = 0; q < k; q++) l.p[l.at(i, q)] = (In)(LMIN + code(i, q, k) % (LMAX - LMIN + 1));
  for (int j = 0; j < n; j++) for (int q = 0; q < k; q++) r.p[r.at(q, j)] = (In)(RMIN + code(j, q, k + 77) % (RMAX - RMIN + 1));
  Run<Out, Sparse> run{ctxs[1], &l, &r, &d, lo.data(), ro.data(), bias.data()};
  with_orders(o, run);
  u64 h = 3;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int32_t s = 0;
    for (int q = 0; q < k; q++) s += ((int)l.p[l.at(i, q)] + lo[i]) * ((int)r.p[r.at(q, j)] + ro[j]);
    Out want = PipeOf<Out>::ref(s, bias[i]), got = d.p[d.at(i, j)];
    if (got != want) mcx::fail("stride %d: element (%d,%d) is %lld instead of %lld", stride, i, j, (long long)got, (long long)want);
    h = mcx::mix(h, (u64)got);
  }
  if (mask & 4) for (int a = 0; a < d.lines(); a++) {
    const char *b = (char*)(d.p + (size_t)a * d.stride), *e = (char*)(d.p + (size_t)a * d.stride + d.line());
    for (const char* q = d.first(a); q < d.last(a); q++) if ((q < b || q >= e) && *q != 0x5b) mcx::fail("stride %d: byte %ld from the start of destination line %d was written", stride, (long)(q - b), a);
  }
  mcx::elements((u64)m * n);
  mcx::outcome(h);
}
#endif
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  for (int i = 1; i < 5; i++) { ctxs[i] = new GemmContext; ctxs[i]->set_max_num_threads(i); }
  // small and odd cache sizes: 5: one thread, 6: three threads, 7: two threads
  for (int i = 5; i < 8; i++) { ctxs[i] = new GemmContext; ctxs[i]->set_max_num_threads(i == 5 ? 1 : 9 - i); ctxs[i]->set_l1_bytes_to_use(i == 7 ? 700 : 2500); ctxs[i]->set_l2_bytes_to_use(i == 7 ? 3000 : 12000); ctxs[i]->set_l2_rhs_factor(i == 6 ? 1.f : 0.5f); }
  typedef std::vector<int> VI;
  VI M = {1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 17, 24, 25}, N = {1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 17}, K = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33};
  if (T) { M.clear(); N.clear(); K.clear(); for (int i = 1; i <= 40; i++) M.push_back(i); for (int i = 1; i <= 26; i++) N.push_back(i); for (int i = 1; i <= 35; i++) K.push_back(i); K.push_back(63); K.push_back(65); }
#if defined(GEMMLOWP_NEON) || defined(MINIRT)
  else { M = {1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 25}; N = {1, 2, 3, 4, 5, 7, 8, 9, 13}; }
#endif
  for (int m : M) for (int n : N) {
    if (!mcx::begin("mode %d: %dx[K]x%d, all orders, strides, placements and output types", MODE, m, n)) continue;
    u64 cnt = 0;
    for (int k : K) for (int o = 0; o < 8; o++) if (ord(o) == o) for (int w : {0, 7, 2, 5}) {
      if (!T && (w == 2 || w == 5) && k > 9) continue;
      // quick: strides vary with the case so that every gap class meets every shape class
      int pads[3][3] = {{0, 0, 0}, {1, 2, 1}, {7, 16, 5}};
      for (int s = 0; s < 3; s++) {
        if (!T && s && (m + k + n + o + w + s) % 2) continue;
        mcx::Mark mk; mcx::note(" k=%d order=%d placement=%d pads=%d", k, o, w, s);
        cnt++;
        bool rd = cnt % 8 == 0;
        one<int32_t>(o, m, k, n, pads[s][0], pads[s][1], pads[s][2], w, 1, rd, cnt);
#if !defined(GEMMLOWP_NEON) && !defined(MINIRT)
        const bool more = true;
#else
        const bool more = T || (k + o) % 2;
#endif
        if (more) {
          one<uint8_t>(o, m, k, n, pads[s][0], pads[s][1], pads[s][2], w, 1, rd, cnt + 1);
          if (T || (k % 3 == 0)) one<int16_t>(o, m, k, n, pads[s][0], pads[s][1], pads[s][2], w, 1, rd, cnt + 2);
        }
        mcx::beat();
      }
    }
  }
  // strides far larger than the matrix
  for (int o = 0; o < 8; o++) if (ord(o) == o) for (int big = 0; big < 8; big++) {
    if (!mcx::begin("mode %d: large strides, mask %d, order %d", MODE, big, o)) continue;
    for (int w = 0; w < 8; w += 7) for (int t : {1, 5}) {
      one<int32_t>(o, 9, 20, 10, (big & 1) ? 5000 : 0, (big & 2) ? 6001 : 1, (big & 4) ? 9000 : 0, w, t, false, o + w);
      one<uint8_t>(o, 9, 20, 10, (big & 1) ? 5000 : 0, (big & 2) ? 6001 : 1, (big & 4) ? 33000 : 0, w, t, false, o + w);
    }
  }
#if UINTPTR_MAX > 0xffffffffu && !defined(MINIRT)
  // matrices that span more than 2^31 elements
  for (int o = 0; o < 8; o++) if (ord(o) == o) for (int mask = 1; mask < 8; mask++) {
    if (!mcx::begin("mode %d: matrices of more than 2^31 elements, mask %d, order %d", MODE, mask, o)) continue;
    for (int st : {(1 << 26) + 3, (1 << 29) + 7}) {
      const int a = st > 1 << 27 ? 17 : 40, b = st > 1 << 27 ? 16 : 35;
      spread<int32_t>(o, a, 37, b, mask, st); spread<uint8_t>(o, b, 33, a, mask, st); spread<int16_t>(o, a, 34, a, mask, st);
      mcx::beat();
    }
  }
#endif
  // several blocks and several threads
  struct S { int m, k, n; };
  std::vector<S> big = {{64, 128, 32}, {100, 100, 41}, {41, 101, 100}, {129, 300, 9}, {65, 65, 64}, {33, 257, 33}};
  if (T) { big.push_back({200, 200, 200}); big.push_back({17, 500, 130}); big.push_back({300, 33, 65}); }
  for (const S& s : big) for (int o = 0; o < 8; o++) if (ord(o) == o) for (int t = 1; t <= 7; t++) {
    if (!mcx::begin("mode %d: %dx%dx%d order %d, setting %d", MODE, s.m, s.k, s.n, o, t)) continue;
    for (int w = 0; w < 8; w += 7) {
      one<int32_t>(o, s.m, s.k, s.n, o % 3, (o + 1) % 3, (o + 2) % 4, w, t, t == 2, o + w);
      one<uint8_t>(o, s.m, s.k, s.n, o % 3, (o + 1) % 3, (o + 2) % 4, w, t, t == 3, o + w);
      if (w) one<int16_t>(o, s.m, s.k, s.n, o % 3, (o + 1) % 3, (o + 2) % 4, w, t, t == 5, o + w);
    }
  }
}
MCX_MAIN
