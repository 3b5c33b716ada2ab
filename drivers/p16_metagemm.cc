// P16: the NEON meta-library products.
// GROUP 0..8: output type (GROUP % 3: 8-bit, float, int32) and kernel shape (GROUP / 3: 2x4, 1x8, 3x3) of the
// stream interface; GROUP 9: the legacy entry points (matrix and vector).
#include "mcx.h"
#include "arena.h"
#include "regs.h"
#include <algorithm>
#include <tuple>
#include "public/gemmlowp.h"
#ifndef GROUP
#define GROUP 0
#endif
#if GROUP == 9
#include "meta/legacy_multi_thread_gemm.h"
#else
#include "meta/multi_thread_gemm.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/single_thread_gemm.h"
#include "meta/streams.h"
#endif
using namespace gemmlowp; using namespace gemmlowp::meta;
struct Q { int lo, ro, so, mul, sh; float f; };
// offsets of the operands, offset of the sum, multiplier, shift, float scale
static const Q qs[] = {{-127, -127, 300, 1, 7, 0.333f}, {0, 0, 0, 1, 0, 1.f}, {-255, -1, -1000, 3, 9, -0.01f}, {12, -200, 77777, -2, 10, 1e-6f}, {-128, 0, -5, 77, 15, 3.f}};
__attribute__((optimize("O2"))) static inline uint8_t gen(int pat, int i, int j) {
  switch (pat) {
    case 0: { uint32_t h = (i * 2654435761u) ^ (j * 40503u + 77); h ^= h >> 13; h *= 0x5bd1e995; return h >> 19; }
    case 1: return 255;
    case 2: return (i + j) & 1 ? 255 : 0;
    case 3: return 0;
    default: { uint32_t h = (j * 2654435761u) ^ (i * 97u + 5); h ^= h >> 15; h *= 0x85ebca6b; return (h >> 20) % 8 ? 255 - (h >> 24) % 3 : 0; }
  }
}
static bool domain(int64_t s, const Q& q, int type) {  // everything the kernels compute stays within int32
  if (s > INT32_MAX || s < INT32_MIN) return false;
  if (type) return true;
  int64_t x = (s + q.so) * q.mul + (q.sh ? 1 << (q.sh - 1) : 0);
  return x <= INT32_MAX && x >= INT32_MIN && s + q.so <= INT32_MAX && s + q.so >= INT32_MIN;
}
static inline void expect(int64_t s, const Q& q, uint8_t* o) {
  int64_t x = ((s + q.so) * q.mul + (q.sh ? 1 << (q.sh - 1) : 0)) >> q.sh;
  *o = x < 0 ? 0 : x > 255 ? 255 : x;
}
static inline void expect(int64_t s, const Q& q, float* o) { *o = (float)(int32_t)s * q.f; }
static inline void expect(int64_t s, const Q&, int32_t* o) { *o = s; }
static inline void fillb(void* p, size_t n) { memset(p, 0xA5, n); }
static Arena AL(1 << 21), AR(1 << 21), AO(1 << 22), AS(8 << 20);

#if GROUP < 9
#if GROUP % 3 == 0
typedef uint8_t Out; typedef QuantizedStaticPreprocessed Ker; static const int kType = 0;
static void setk(Ker* k, const Q& q, int depth) { k->count = depth; k->multiplicative_offset = q.mul; k->rounding_offset = q.sh ? 1 << (q.sh - 1) : 0; k->shift = -q.sh; }
#elif GROUP % 3 == 1
typedef float Out; typedef QuantizedStaticPreprocessedAsFloat Ker; static const int kType = 1;
static void setk(Ker* k, const Q& q, int depth) { k->count = depth; k->scale = q.f; }
#else
typedef int32_t Out; typedef QuantizedStaticPreprocessedAsInt32 Ker; static const int kType = 2;
static void setk(Ker* k, const Q&, int depth) { k->count = depth; }
#endif
static const int KM = GROUP / 3 == 0 ? 2 : GROUP / 3 == 1 ? 1 : 3, KN = GROUP / 3 == 0 ? 4 : GROUP / 3 == 1 ? 8 : 3;
// A pool that runs the tasks in a given order, one at a time, and finds out which bytes each of them writes.
struct SerialPool {
  int order; bool watch; char *s, *r; size_t sn, rn; int ran;
  void Execute(const std::vector<Task*>& t) {
    std::vector<int> p; for (size_t i = 0; i < t.size(); i++) p.push_back(order ? t.size() - 1 - i : i);
    ran = t.size();
    if (watch) {
      std::vector<unsigned char> who(sn + rn, 0), save(r, r + rn);
      for (size_t i = 0; i < t.size(); i++) for (int v : {0x00, 0xFF}) {
        memset(s, v, sn); memset(r, v, rn);
        t[i]->Run();
        for (size_t b = 0; b < sn + rn; b++) {
          unsigned char c = b < sn ? s[b] : r[b - sn];
          if (c == v) continue;
          if (who[b] && who[b] != i + 1) mcx::fail("tasks %d and %zu of %zu both write byte %zu of the %s", who[b] - 1, i, t.size(), b < sn ? b : b - sn, b < sn ? "scratch memory" : "result");
          who[b] = i + 1;
        }
      }
      std::copy(save.begin(), save.end(), r);
    }
    for (int i : p) t[i]->Run();
    for (auto x : t) delete x;
  }
};
template <typename P> void strm(P* s, int count, int stride, int mo, int ao) { s->count = count; s->stride = stride; s->multiplicative_sum_offset = mo; s->additive_sum_offset = ao; }
#define FAST __attribute__((optimize("O2")))
template <typename LS, typename RS, typename E> FAST void one(const char* en, int m, int n, int k, int pat, const Q& q, int pad, int threads, int mode, WorkersPool* wp) {
  const bool lc = std::is_same<LS, ColumnMajorWithSum>::value, rc = std::is_same<RS, ColumnMajorWithSum>::value;
  const int ls = (lc ? m : k) + pad, rs = (rc ? n : k) + pad * 2, os = n + pad;
  const size_t ln = (size_t)ls * ((lc ? k : m) - 1) + (lc ? m : k), rn = (size_t)rs * ((rc ? k : n) - 1) + (rc ? n : k), on = (size_t)os * (m - 1) + n;
  uint8_t* l = AL.place<uint8_t>(ln, 1); uint8_t* r = AR.place<uint8_t>(rn, 1); Out* o = AO.place<Out>(on, 1);
  for (size_t i = 0; i < ln; i++) l[i] = 0xEE;
  for (size_t i = 0; i < rn; i++) r[i] = 0xEE;
  for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) l[lc ? p * ls + i : i * ls + p] = gen(pat, i, p);
  for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) r[rc ? p * rs + j : j * rs + p] = gen(pat == 2 ? 4 : pat, j + 1000, p);
  typedef GemmParams<uint8_t, Out, LS, RS, Ker, RowMajor> P;
  P P_; memset(&P_, 0, sizeof P_);
  P_.m = m; P_.n = n; P_.k = k; P_.lhs = l; P_.rhs = r; P_.result = o;
  strm(&P_.left_stream, k, ls, q.ro, (kType == 0 ? q.so : 0) + k * q.lo * q.ro);
  strm(&P_.right_stream, k, rs, q.lo, 0);
  setk(&P_.fused_kernel.kernel, q, k);
  P_.fused_kernel.output_stream.count = n; P_.fused_kernel.output_stream.stride = os * sizeof(Out);
  // scratch: what the executor declares, for every task
  const size_t est = E::template EstimateScratchSize<P>(P_, KM, KN, 8);
  const size_t sn = est * (threads > 0 ? threads : 1);
  uint8_t* s = AS.place<uint8_t>(sn, 1);
  P_.scratch = s;
  fillb(o, on * sizeof(Out)); fillb(s, std::min<size_t>(sn, 64));
  mcx::calls();
  if (threads == 0) preserved("meta gemm", [&] { gemmlowp::meta::Gemm<E, P, KM, KN, 8>(P_); });
  else if (mode == 2) { SimpleContext<WorkersPool> c(threads, wp); MultiThreadGemm<SimpleContext<WorkersPool>, E, P, KM, KN, 8>(&c, P_); }
  else {
    SerialPool pool; pool.order = mode & 1; pool.watch = mode >= 3; pool.s = (char*)s; pool.sn = sn; pool.r = (char*)o; pool.rn = on * sizeof(Out); pool.ran = 0;
    SimpleContext<SerialPool> c(threads, &pool);
    MultiThreadGemm<SimpleContext<SerialPool>, E, P, KM, KN, 8>(&c, P_);
    if (pool.ran > threads) mcx::fail("%s %dx%dx%d: %d tasks for a limit of %d threads", en, m, n, k, pool.ran, threads);
    if (pool.ran > 1) mcx::extra(0, 1);
  }
  std::vector<int32_t> ro_(k);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int64_t x = 0;
    for (int p = 0; p < k; p++) x += (int64_t)(l[lc ? p * ls + i : i * ls + p] + q.lo) * (r[rc ? p * rs + j : j * rs + p] + q.ro);
    if (!domain(x, q, kType)) continue;
    Out e; expect(x, q, &e);
    if (memcmp(&o[i * os + j], &e, sizeof e)) mcx::fail("%s %dx%dx%d, operands %s/%s, pad %d, data %d, offsets %d %d, threads %d (mode %d): element (%d,%d) is %g, definition gives %g", en, m, n, k, lc ? "col" : "row", rc ? "col" : "row", pad, pat, q.lo, q.ro, threads, mode, i, j, (double)o[i * os + j], (double)e);
  }
  for (int i = 0; i < m - 1; i++) for (int j = n; j < os; j++) { Out z; fillb(&z, sizeof z); if (memcmp(&o[i * os + j], &z, sizeof z)) mcx::fail("%s %dx%dx%d: gap after row %d of the result was written", en, m, n, k, i); }
  mcx::elements((u64)m * n);
  mcx::outcome(mcx::hash_bytes(o, on * sizeof(Out)));
}
template <typename LS, typename RS, typename E> void orders(const char* en, bool T, int which) {
  // all remainder classes of the three dimensions
  std::vector<int> K; for (int i = 1; i <= 17; i++) K.push_back(i); if (T) for (int i = 18; i <= 41; i++) K.push_back(i);
  const int M = T ? 3 * KM + 2 : 2 * KM + 1, N = T ? 3 * KN + 1 : 2 * KN + 1;
  for (int m = 1; m <= M; m++) for (int n = 1; n <= N; n++) {
    if (!mcx::begin("%s order %d: %dx%d, depths 1..%d", en, which, m, n, K.back())) continue;
    for (int k : K) {
      one<LS, RS, E>(en, m, n, k, 0, qs[0], 0, 0, 0, 0);
      one<LS, RS, E>(en, m, n, k, 1 + (k + m) % 4, qs[1 + (k + n + m) % 4], 3, 0, 0, 0);
      if (T) for (int pat = 0; pat < 5; pat++) for (const Q& q : qs) one<LS, RS, E>(en, m, n, k, pat, q, (pat + k) % 3, 0, 0, 0);
    }
  }
  // the deepest products: sums of 255 at the limit of the documented depth
  for (int k : {504, 1021, 2039, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048}) {
    if (!T && which && k < 2044 && k != 2040) continue;
    for (int m = 1; m <= KM; m++) {
      if (!mcx::begin("%s order %d: depth %d, %d rows", en, which, k, m)) continue;
      for (int n = 1; n <= KN; n++) for (int pat : {1, 0}) one<LS, RS, E>(en, m, n, k, pat, qs[pat ? 4 : 0], 0, 0, 0, 0);
      one<LS, RS, E>(en, m, KN, k, 1, qs[1], 0, 0, 0, 0);
    }
  }
}
template <typename LS, typename RS, typename E> void tasks(const char* en, bool T, int which) {
  // splits: shapes around the thresholds (tasks of at least 16000 operations, at least four rows or columns)
  static WorkersPool wp_; WorkersPool* wp = &wp_;
  struct S { int m, n, k; };
  std::vector<S> sh;
  for (int m : {1, 3, 4, 7, 8, 9, 12, 13, 17, 23}) for (int n : {1, 4, 7, 8, 11, 16, 19}) for (int k : {8, 250, 700}) if (m * n * k >= 30000 && (T || (m + n) % 2 || m * n > 100)) sh.push_back(S{m, n, k});
  for (int n = 60; n < (T ? 92 : 72); n++) sh.push_back(S{5, n, 130});
  for (int m = 60; m < (T ? 92 : 72); m++) sh.push_back(S{m, 6, 130});
  for (auto& x : sh) {
    if (!mcx::begin("%s order %d: split of %dx%dx%d", en, which, x.m, x.n, x.k)) continue;
    for (int th = 1; th <= (T ? 9 : 5); th++) for (int mode : {0, 1, 3}) {
      if (!T && mode == 1 && th % 2) continue;
      if (mode == 3 && th != 2 && th != 5) continue;
      one<LS, RS, E>(en, x.m, x.n, x.k, th % 2 ? 0 : 4, qs[th % 5], th % 3, th, mode, 0);
    }
    one<LS, RS, E>(en, x.m, x.n, x.k, 0, qs[0], 0, 3, 2, wp);
  }
}
template <typename LS, typename RS> void cachefriendly(bool T, int which) {
  // the caches are so small that the work is cut into many pieces; the declared scratch memory is the cache size
  std::vector<int> K = {1, 8, 9, 31, 40}; if (T) { K.clear(); for (int i = 1; i <= 48; i++) K.push_back(i); }
  const int top = T ? 75 : 50;
  for (int k : K) for (int x = 1; x <= top; x++) {
    if (!mcx::begin("cache friendly order %d: dimension %d, depth %d", which, x, k)) continue;
    for (int y : {1, KM, KN + 1}) {
      one<LS, RS, GemmExecutorPackRHSCacheFriendly<1024>>("PackRHSCacheFriendly<1024>", y, x, k, 0, qs[0], 0, 0, 0, 0);
      one<LS, RS, GemmExecutorPackLHSCacheFriendly<1024>>("PackLHSCacheFriendly<1024>", x, y, k, 0, qs[0], 0, 0, 0, 0);
      if (y > 1) one<LS, RS, GemmExecutorPackRHSCacheFriendly<1024>>("PackRHSCacheFriendly<1024>", y, x, k, 1, qs[2], 2, 0, 0, 0);
    }
  }
  // the default cache
  for (int x : {367, 368, 369, 370, 371, 372, 373, 495, 496, 497}) {
    if (!mcx::begin("cache friendly order %d: default cache, dimension %d", which, x)) continue;
    one<LS, RS, GemmExecutorPackRHSCacheFriendly<>>("PackRHSCacheFriendly", 2, x, 2048, 0, qs[0], 0, 0, 0, 0);
    one<LS, RS, GemmExecutorPackLHSCacheFriendly<>>("PackLHSCacheFriendly", x, 2, 2048, 0, qs[0], 0, 0, 0, 0);
  }
}
template <typename LS, typename RS> void all(bool T, int which) {
  orders<LS, RS, GemmExecutorPackRHS>("PackRHS", T, which);
  if (T || which == 0) orders<LS, RS, GemmExecutorPackLHS>("PackLHS", T, which);
  if (T || which <= 1) tasks<LS, RS, GemmExecutorPackRHS>("PackRHS", T, which);
  if (which == 0) tasks<LS, RS, GemmExecutorPackLHS>("PackLHS", T, which);
  if (T || which <= 1) cachefriendly<LS, RS>(T, which);
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  all<RowMajorWithSum, RowMajorWithSum>(T, 0);
  all<RowMajorWithSum, ColumnMajorWithSum>(T, 1);
  if (GROUP % 3 == 2 || T) { all<ColumnMajorWithSum, RowMajorWithSum>(T, 2); all<ColumnMajorWithSum, ColumnMajorWithSum>(T, 3); }
}
#else
static WorkersPool* pool;
template <typename O> struct Do;
template <> struct Do<uint8_t> { static const int type = 0; static const char* name() { return "q8"; }
  static int scratch(int m, int n, int k, int t, bool v) { return v ? gemv_q8_scratch(m, n, k, t) : gemm_q8_scratch(m, n, k, t); }
  static void gemm(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int m, int n, int k, const Q& q, uint8_t* o) { multi_thread_gemm_q8(pool, t, s, l, r, m, n, k, q.lo, q.ro, q.so, q.mul, q.sh, o); }
  static void gemv(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int n, int k, const Q& q, uint8_t* o) { multi_thread_gemv_q8(pool, t, s, l, r, n, k, q.lo, q.ro, q.so, q.mul, q.sh, o); } };
template <> struct Do<float> { static const int type = 1; static const char* name() { return "float"; }
  static int scratch(int m, int n, int k, int t, bool v) { return v ? gemv_f_scratch(m, n, k, t) : gemm_f_scratch(m, n, k, t); }
  static void gemm(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int m, int n, int k, const Q& q, float* o) { multi_thread_gemm_f(pool, t, s, l, r, m, n, k, q.lo, q.ro, q.f, o); }
  static void gemv(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int n, int k, const Q& q, float* o) { multi_thread_gemv_f(pool, t, s, l, r, n, k, q.lo, q.ro, q.f, o); } };
template <> struct Do<int32_t> { static const int type = 2; static const char* name() { return "int32"; }
  static int scratch(int m, int n, int k, int t, bool v) { return v ? gemv_i32_scratch(m, n, k, t) : gemm_i32_scratch(m, n, k, t); }
  static void gemm(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int m, int n, int k, const Q& q, int32_t* o) { multi_thread_gemm_i32(pool, t, s, l, r, m, n, k, q.lo, q.ro, o); }
  static void gemv(int t, uint8_t* s, const uint8_t* l, const uint8_t* r, int n, int k, const Q& q, int32_t* o) { multi_thread_gemv_i32(pool, t, s, l, r, n, k, q.lo, q.ro, o); } };
template <typename O> void one(int m, int n, int k, int pat, const Q& q, int t, bool vec) {
  const size_t ln = (size_t)m * k, rn = (size_t)n * k, on = (size_t)m * n;
  uint8_t* l = AL.place<uint8_t>(ln, 1); uint8_t* r = AR.place<uint8_t>(rn, 1); O* o = AO.place<O>(on, 1);
  for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) l[i * k + p] = gen(pat, i, p);
  for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) r[j * k + p] = gen(pat == 2 ? 4 : pat, j + 1000, p);
  const size_t sn = Do<O>::scratch(m, n, k, t, vec);
  uint8_t* s = AS.place<uint8_t>(sn, 1);
  fillb(o, on * sizeof(O));
  mcx::calls();
  preserved(vec ? "legacy meta gemv" : "legacy meta gemm", [&] { if (vec) Do<O>::gemv(t, s, l, r, n, k, q, o); else Do<O>::gemm(t, s, l, r, m, n, k, q, o); });
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int64_t x = 0; const uint8_t *a = l + (size_t)i * k, *b = r + (size_t)j * k;
    for (int p = 0; p < k; p++) x += (a[p] + q.lo) * (b[p] + q.ro);
    if (!domain(x, q, Do<O>::type)) continue;
    O e; expect(x, q, &e);
    if (memcmp(&o[(size_t)i * n + j], &e, sizeof e)) mcx::fail("%s %s %dx%dx%d, data %d, offsets %d %d, threads %d: element (%d,%d) is %g, definition gives %g", Do<O>::name(), vec ? "gemv" : "gemm", m, n, k, pat, q.lo, q.ro, t, i, j, (double)o[(size_t)i * n + j], (double)e);
  }
  mcx::elements(on);
  mcx::outcome(mcx::hash_bytes(o, on * sizeof(O)));
}
template <typename O> void typ(bool T, bool A) {
  const int top = T ? 40 : 20;
  if (!A)
  for (int m = 1; m <= (T ? 9 : 6); m++) for (int n = 1; n <= (T ? 17 : 10); n++) {
    if (!mcx::begin("legacy %s: %dx%d, depths 1..%d", Do<O>::name(), m, n, top)) continue;
    for (int k = 1; k <= top; k++) { one<O>(m, n, k, 0, qs[0], 1, false); one<O>(m, n, k, 1 + (k + m + n) % 4, qs[1 + (k + n) % 4], 1, false); if (m == 1) one<O>(m, n, k, 0, qs[3], 1, true); }
  }
  // vectors: both kernel choices by depth
  if (!A) for (int k : {504, 1535, 1536, 1537, 1541, 1663, 1664, 1665, 1671, 2040, 2041, 2047, 2048}) for (int n = 1; n <= (T ? 25 : 17); n++) {
    if (!mcx::begin("legacy %s: vector of %d by depth %d", Do<O>::name(), n, k)) continue;
    for (int pat : {0, 1}) { one<O>(1, n, k, pat, qs[pat ? 4 : 0], 1, true); if (n > 1) one<O>(n, 1, k, pat, qs[pat ? 4 : 2], 1, false); }
  }
  // threads
  struct S { int m, n, k; };
  std::vector<S> sh; for (int m : {1, 2, 5, 8, 11, 16, 33}) for (int n : {1, 3, 8, 13, 20, 37}) for (int k : {60, 131, 520, 2047}) if (m * n * k > 30000 && (T || (m * n * k < (A ? 80000 : 200000)))) sh.push_back(S{m, n, k});
  for (auto& x : sh) {
    if (!mcx::begin("legacy %s: threads on %dx%dx%d", Do<O>::name(), x.m, x.n, x.k)) continue;
    for (int t = 2; t <= (T ? 7 : A ? 3 : 5); t++) one<O>(x.m, x.n, x.k, t % 2 ? 0 : 4, qs[t % 5], t, false);
  }
  // many columns: the packed operand is cut into pieces (pieces of at most 256 KB of the operand)
  if (!A) for (int k : T ? std::vector<int>{1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 25, 33, 64, 65, 257, 2048} : std::vector<int>{8, 9, 11, 16, 17, 33, 257, 2048}) {
    const int cut = 4 * (65536 / k);
    for (int d : {-1, 0, 1, 3, cut / 2, cut - 1, cut, cut + 5}) {
      const int n = cut + d;
      if ((size_t)n * k > (2 << 20) || (size_t)n * 3 * sizeof(O) > (4 << 20)) continue;
      if (!T && Do<O>::type && d != cut - 1 && d != 1) continue;
      if (!mcx::begin("legacy %s: %d columns of depth %d", Do<O>::name(), n, k)) continue;
      one<O>(2, n, k, 0, qs[0], 1, false);
      if (k < 20 || T) one<O>(3, n, k, 4, qs[2], 2, false);
    }
  }
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  pool = new WorkersPool;
  const bool A = tier == "asan";  // only the work split over threads
  typ<uint8_t>(T, A); typ<float>(T, A); typ<int32_t>(T, A);
}
#endif
#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1"; }
#endif
MCX_MAIN
