// P08: the legacy 8-bit interface: argument lattices and call histories.
#include "mcx.h"
#include "arena.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
using namespace gemmlowp::eight_bit_int_gemm;
using std::int32_t; using std::uint8_t; using std::int64_t;
inline uint32_t code(uint32_t a, uint32_t b, uint32_t c) {
  uint32_t h = a * 0x9e3779b1u ^ (b + 0x7f4a7c15u) * 0x85ebca6bu ^ (c + 0x165667b1u) * 0xc2b2ae35u;
  h ^= h >> 15; h *= 0x2c1b3c6du; h ^= h >> 12; h *= 0x297a2d39u; h ^= h >> 15;
  return h;
}
static Arena &AA = *new Arena(1 << 20), &AB = *new Arena(1 << 20), &AC = *new Arena(1 << 20);
typedef std::vector<int> VI;
#ifdef GEMMLOWP_USE_META_FASTPATH
const bool META = true;
#else
const bool META = false;
#endif
size_t extent(bool rm, int r, int c, int ld) { return r && c ? (size_t)((rm ? r : c) - 1) * ld + (rm ? c : r) : 0; }
size_t at(bool rm, int r, int c, int ld) { return rm ? (size_t)r * ld + c : (size_t)c * ld + r; }
inline int64_t rshift(int64_t x, int e) {
  if (!e) return x;
  int64_t h = 1ll << (e - 1), a = x < 0 ? -x : x, q = (a + h) >> e;
  return x < 0 ? -q : q;
}
struct Args { int t, m, n, k, pa, pb, pc, where; int32_t ao, bo, co, cm, cs; float cf; bool a5b7; int pat; };
// t: bit 2 transpose_a, bit 1 transpose_b, bit 0 transpose_c
template <typename Out> void call(const Args& q) {
  const bool ta = q.t & 4, tb = q.t & 2, tc = q.t & 1, fl = sizeof(Out) == 4;
  const int m = q.m, n = q.n, k = q.k;
  const int lda = (ta ? k : m) + q.pa, ldb = (tb ? n : k) + q.pb, ldc = (tc ? n : m) + q.pc;
  const size_t ea = extent(ta, m, k, lda), eb = extent(tb, k, n, ldb), ec = extent(tc, m, n, ldc);
  uint8_t *a = AA.place<uint8_t>(ea, q.where & 1), *b = AB.place<uint8_t>(eb, q.where & 1);
  Out* c = AC.place<Out>(ec, q.where & 1);
  memset(a, q.a5b7 ? 31 : 0xF7, ea); memset(b, q.a5b7 ? 31 : 0xFB, eb);
  const int mod = q.a5b7 ? 32 : 256;
  std::vector<int32_t> A((size_t)m * k), B((size_t)n * k);
  auto val = [&](int i, int p, int s) { return q.pat == 0 || q.pat == 4 ? code(i, p, s + q.pat) % mod : q.pat == 1 ? mod - 1 : q.pat == 2 ? 0 : ((i + p) & 1) ? mod - 1 : 0; };
  for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) { a[at(ta, i, p, lda)] = val(i, p, k); A[(size_t)i * k + p] = a[at(ta, i, p, lda)] + q.ao; }
  for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) { b[at(tb, p, j, ldb)] = val(j, p, k + 9); B[(size_t)j * k + p] = b[at(tb, p, j, ldb)] + q.bo; }
  std::string ca((char*)a, ea), cb((char*)b, eb);
  char* c0 = std::max(AC.lo, (char*)c - 256); char* c1 = std::min(AC.hi, (char*)(c + ec) + 256);
  memset(c0, 0xA7, c1 - c0);
  mcx::calls();
  BitDepthSetting bd = q.a5b7 ? BitDepthSetting::A5B7 : BitDepthSetting::A8B8;
  if (fl) EightBitIntGemm(ta, tb, tc, m, n, k, a, q.ao, lda, b, q.bo, ldb, (float*)c, q.cf, ldc, bd);
  else EightBitIntGemm(ta, tb, tc, m, n, k, a, q.ao, lda, b, q.bo, ldb, (uint8_t*)c, q.co, q.cm, q.cs, ldc, bd);
  if (memcmp(ca.data(), a, ea) || memcmp(cb.data(), b, eb)) mcx::fail("an operand was modified");
  std::vector<char> dst((c1 - c0), 0);
  u64 h = 1;
  for (int i = 0; i < m && k; i++) for (int j = 0; j < n; j++) {
    int64_t s = 0;
    for (int p = 0; p < k; p++) s += (int64_t)A[(size_t)i * k + p] * B[(size_t)j * k + p];
    char* e = (char*)(c + at(tc, i, j, ldc));
    memset(&dst[e - c0], 1, sizeof(Out));
    if (s > INT32_MAX || s < INT32_MIN) continue;
    if (fl) {
      float w = (float)(int32_t)s * q.cf, g; memcpy(&g, e, 4);
      if (memcmp(&w, &g, 4)) mcx::fail("float element (%d,%d) is %.9g, exact product %lld scaled by %g is %.9g", i, j, g, (long long)s, q.cf, w);
      h = mcx::mix(h, mcx::hash_bytes(&g, 4));
    } else {
      int64_t x = s + q.co; if (x > INT32_MAX || x < INT32_MIN) continue;
      x *= q.cm; if (x > INT32_MAX || x < INT32_MIN) continue;
      if (META && q.cs > 0 && x + (1ll << (q.cs - 1)) > INT32_MAX) continue;
      x = rshift(x, q.cs); x = x < 0 ? 0 : x > 255 ? 255 : x;
      if (*(uint8_t*)e != x) mcx::fail("element (%d,%d) is %d, documented value %d (exact product %lld)", i, j, *(uint8_t*)e, (int)x, (long long)s);
      h = mcx::mix(h, *(uint8_t*)e);
    }
  }
  for (char* p = c0; p < c1; p++) if (!dst[p - c0] && *(unsigned char*)p != 0xA7) mcx::fail("a byte outside the result was written (offset %ld of the destination)", (long)(p - (char*)c));
  mcx::elements(c1 - c0);
  mcx::outcome(h);
}
void both(const Args& q) { call<uint8_t>(q); call<float>(q); mcx::beat(); }
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  // (1) shapes, transpositions, leading dimensions
  VI M = {1, 2, 3, 4, 5, 7, 8, 9, 13, 17, 25}, N = {1, 2, 3, 4, 5, 8, 9, 13, 18}, K = {1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 33};
  if (T) { for (int i = 1; i < 27; i++) { M.push_back(i); N.push_back(i); K.push_back(i); } K.push_back(63); K.push_back(64); K.push_back(65); K.push_back(100); for (VI* v : {&M, &N, &K}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); } }
  for (int m : M) for (int n : N) {
    if (!mcx::begin("shapes %dx[k]x%d, all transpositions and leading dimensions", m, n)) continue;
    for (int k : K) for (int t = 0; t < 8; t++) {
      int pd[4][3] = {{0, 0, 0}, {1, 0, 2}, {0, 3, 0}, {5, 2, 1}};
      for (int s = 0; s < 4; s++) {
        if (!T && s && (s + m + n + k + t) % 3) continue;
        mcx::Mark mk; mcx::note(" k=%d transpose=%d leading=%d", k, t, s);
        Args q{t, m, n, k, pd[s][0], pd[s][1], pd[s][2], (s + k) & 1, -(m * 11 % 256), -(n * 17 % 256), 5000 - 40 * k, 3, 6 + (k > 8) + (k > 20), 0.125f * (1 + s), (m + n + k) % 5 == 0, 0};
        if (q.a5b7) { q.ao %= 16; q.bo %= 16; q.cs = 3; }
        both(q);
      }
    }
  }
  // zero dimensions: nothing is stored, whatever happened before
  for (int z = 1; z < 8; z++) {
    if (!mcx::begin("zero dimensions, mask %d", z)) continue;
    for (int t = 0; t < 8; t++) {
      Args big{t, 9, 7, 12, 0, 0, 0, 1, 3, 5, 0, 1, 4, 2.f, false, 0};
      both(big);
      Args q{t, (z & 1) ? 0 : 9, (z & 2) ? 0 : 7, (z & 4) ? 0 : 12, 0, 0, 0, 1, 3, 5, 0, 1, 4, 2.f, false, 0};
      both(q);
    }
  }
  // (2) quantization parameters
  for (int cs = 0; cs <= 31; cs++) {
    for (int cm : {1, 2, 3, 7, 255, -1, 1000, 65536, 1 << 24, INT32_MAX}) {
      if (!mcx::begin("shift %d multiplier %d, all offsets and contents", cs, cm)) continue;
      for (int co : {0, 1, -1, 128, -128, 5000, -100000, 1 << 20, 1 << 30}) for (int ao : {0, -1, -128, -255, 100}) for (int pat = 0; pat < 4; pat++) {
        Args q{(co + pat) & 7, 5, 6, pat == 0 ? 9 : 17, 0, 0, 0, 1, ao, -ao - 1, co, cm, cs, 1.f, false, pat};
        call<uint8_t>(q);
      }
      mcx::beat();
    }
  }
  for (float f : {0.f, 1.f, -1.f, 0.5f, 1e-3f, 3.14159f, -2.5e-8f, 1e30f, 1.1754944e-38f, INFINITY}) {
    if (!mcx::begin("float factor %g", f)) continue;
    for (int t = 0; t < 8; t++) for (int pat = 0; pat < 4; pat++) for (int ao : {0, -128, -255, 1000}) {
      Args q{t, 7, 5, 18, 1, 0, 2, 1, ao, -127, 0, 0, 0, f, false, pat};
      if (std::isinf(f)) { q.ao = 1; q.bo = 1; q.pat = 1; }  // no 0 * inf
      call<float>(q);
    }
  }
  // (3) histories of calls
  typedef std::function<void()> Op;
  struct A { const char* name; Op f; };
  Args small8{4, 5, 6, 11, 1, 0, 0, 1, -7, -9, 100, 3, 4, 0.5f, false, 0}, small8b{3, 9, 3, 20, 0, 2, 1, 1, -128, -100, 9000, 1, 7, -1.f, false, 0};
  Args big8{5, 41, 43, 120, 0, 1, 3, 1, -100, -50, 20000, 1, 9, 0.25f, false, 0}, big8t{0, 33, 80, 60, 0, 0, 0, 1, -20, -30, 100, 1, 12, 3.f, false, 0}, a5{1, 20, 7, 30, 0, 0, 0, 1, 1, 2, 0, 1, 6, 1.f, true, 0}, big8x{5, 41, 43, 120, 0, 1, 3, 1, -90, -61, 20000, 1, 9, 0.25f, false, 4}, zero{1, 6, 7, 0, 0, 0, 0, 1, 3, 5, 0, 1, 4, 2.f, false, 0};
  std::vector<A> ops = {
      {"u8 5x6x11", [=] { call<uint8_t>(small8); }}, {"float 9x3x20", [=] { call<float>(small8b); }},
      {"u8 41x43x120", [=] { call<uint8_t>(big8); }}, {"float 33x80x60", [=] { call<float>(big8t); }},
      {"u8 41x43x120, other contents", [=] { call<uint8_t>(big8x); }},
      {"float 41x43x120", [=] { call<float>(big8); }},
      {"A5B7", [=] { call<uint8_t>(a5); }}, {"float depth 0", [=] { call<float>(zero); }},
      {"free", [] { FreePersistentResources(); }},
      {"threads 1", [] { SetMaxNumThreads(1); }}, {"threads 2", [] { SetMaxNumThreads(2); }}, {"threads 4", [] { SetMaxNumThreads(4); }}, {"threads 0", [] { SetMaxNumThreads(0); }}};
  const int L = T ? 4 : 3, n = ops.size();
  std::vector<int> h;
  std::function<void(int)> rec = [&](int depth) {
    if (depth == 0) {
      for (int i : h) { mcx::note(" ; %s", ops[i].name); ops[i].f(); mcx::beat(); }
      // whatever happened, the next calls are right
      call<uint8_t>(small8b); call<float>(small8);
      if (h[0] % 3 == 0) { call<uint8_t>(big8t); }
      FreePersistentResources();
      mcx::extra(0, 1);
      return;
    }
    for (int i = 0; i < n; i++) { h.push_back(i); mcx::Mark mk; rec(depth - 1); h.pop_back(); }
  };
  for (int len = 1; len <= L; len++) for (int i = 0; i < n; i++) {
    if (len >= 3) {
      for (int j = 0; j < n; j++) {
        if (!mcx::begin("histories of length %d", len)) continue;
        h = {i, j}; mcx::Mark mk; rec(len - 2);
      }
      continue;
    }
    if (!mcx::begin("histories of length %d", len)) continue;
    h = {i}; rec(len - 1);
  }
  // (5) long depths (on both sides of the limits of every code path) and larger results
  for (int k : {64, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 2040, 2047, 2048, 2049, 2056, 3000, 4096, 4104, 8200, 16384, 20480, 32768, 33025}) {
    if (!mcx::begin("depth %d, all transpositions", k)) continue;
    struct S { int m, n; };
    for (S s : {S{1, 1}, S{1, 9}, S{9, 1}, S{5, 6}, S{2, 3}, S{13, 4}}) for (int t = 0; t < 8; t++) for (int pat = 0; pat < 4; pat++) {
      if (!T && k > 3000 && (t * 5 + pat + s.m) % 4) continue;
      mcx::Mark mk; mcx::note(" %dx%d transpose=%d contents=%d", s.m, s.n, t, pat);
      int sh = 0; while ((65025ll * k >> sh) > 200) sh++;
      Args q{t, s.m, s.n, k, 0, 0, 0, t & 1, pat ? 0 : -128, pat ? 0 : -127, pat ? 0 : 20000, 1, pat ? sh : sh - 4, 0.25f, false, pat};
      both(q);
    }
  }
  struct S3 { int m, k, n; };
  for (S3 s : {S3{60, 33, 70}, S3{130, 67, 100}, S3{33, 257, 65}, S3{200, 64, 3}, S3{3, 64, 200}, S3{257, 300, 1}, S3{1, 300, 257}, S3{97, 513, 30}}) for (int th : {1, 3, 4}) {
    if (!mcx::begin("%dx%dx%d, %d threads, all transpositions", s.m, s.k, s.n, th)) continue;
    SetMaxNumThreads(th);
    for (int t = 0; t < 8; t++) for (int lead = 0; lead < 2; lead++) {
      mcx::Mark mk; mcx::note(" transpose=%d leading=%d", t, lead);
      int sh = 0; while ((16000ll * s.k >> sh) > 200) sh++;
      Args q{t, s.m, s.n, s.k, 3 * lead, lead, 2 * lead, 1, -100, -90, 7000, 1, sh - 2, -0.5f, false, 0};
      both(q);
    }
    FreePersistentResources();
  }
  // (6) operands so large that they are handled in several pieces (by the number of rows, columns and depth)
  for (S3 s : {S3{3, 2048, 127}, S3{3, 2048, 300}, S3{5, 2048, 373}, S3{300, 2048, 3}, S3{497, 1801, 5}, S3{3, 505, 1101}, S3{1101, 505, 2}, S3{2, 64, 8001}, S3{8001, 63, 2}}) for (int th : {1, 3}) {
    if (!T && s.m * s.n > 4000 && th > 1) continue;
    if (!mcx::begin("%dx%dx%d in pieces, %d threads", s.m, s.k, s.n, th)) continue;
    SetMaxNumThreads(th);
    int sh = 0; while ((16000ll * s.k >> sh) > 200) sh++;
    for (int t = 0; t < 8; t++) {
      if (!T && t != 0 && t != 3 && t != 4 && t != 5) continue;
      mcx::Mark mk; mcx::note(" transpose=%d", t);
      Args q{t, s.m, s.n, s.k, 0, 0, 0, 1, -100, -90, 7000, 1, sh - 2, -0.5f, false, 0};
      both(q);
    }
    FreePersistentResources();
  }
#ifdef HUGE_LD
  // (4) a leading dimension so large that the intermediate result exceeds 2^31 bytes
  if (mcx::begin("float, 1x4x8, leading dimension 2^29")) {
    uint8_t a[8], b[32]; float c[4] = {-1, -1, -1, -1};
    for (int i = 0; i < 8; i++) a[i] = i * 3;
    for (int i = 0; i < 32; i++) b[i] = i * 5 + 1;
    mcx::calls();
    EightBitIntGemm(true, false, true, 1, 4, 8, a, 1, 8, b, 2, 8, c, 0.5f, 1 << 29, BitDepthSetting::A8B8);
    for (int j = 0; j < 4; j++) {
      int s = 0;
      for (int p = 0; p < 8; p++) s += (a[p] + 1) * (b[j * 8 + p] + 2);
      if (c[j] != 0.5f * s) mcx::fail("element %d is %g instead of %g", j, c[j], 0.5f * s);
    }
    FreePersistentResources();
  }
  // (5) leading dimensions so large that a matrix spans more than 2^31 elements
  for (int t = 0; t < 8; t++) for (int mask = 1; mask < 8; mask++) {
    if (!mcx::begin("matrices of more than 2^31 elements, mask %d, transpositions %d", mask, t)) continue;
    const bool ta = t & 4, tb = t & 2, tc = t & 1;
    const int m = 34, n = 35, k = 36, S = (1 << 26) + 5;
    const int lda = mask & 1 ? S : ta ? k : m, ldb = mask & 2 ? S + 3 : tb ? n : k, ldc = mask & 4 ? S + 1 : tc ? n : m;
    auto at = [](bool rm, int r, int c, int ld) { return rm ? (size_t)r * ld + c : (size_t)c * ld + r; };
    auto map = [](size_t bytes) { void* p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); abort(); } return p; };
    const size_t na = (size_t)lda * 37, nb = (size_t)ldb * 37, nc = (size_t)ldc * 36;
    uint8_t *a = (uint8_t*)map(na), *b = (uint8_t*)map(nb), *c = (uint8_t*)map(nc); float* f = (float*)map(nc * 4);
    for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) a[at(ta, i, p, lda)] = i * 7 + p * 11;
    for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) b[at(tb, p, j, ldb)] = j * 13 + p * 5;
    auto dot = [&](int i, int j) { int s = 0; for (int p = 0; p < k; p++) s += (a[at(ta, i, p, lda)] - 9) * (b[at(tb, p, j, ldb)] - 4); return s; };
    mcx::calls();
    EightBitIntGemm(ta, tb, tc, m, n, k, a, -9, lda, b, -4, ldb, c, 17, 3, 15, ldc, BitDepthSetting::A8B8);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      const int64_t v = ((int64_t)(dot(i, j) + 17) * 3 + (1 << 14)) >> 15; const int want = v < 0 ? 0 : v > 255 ? 255 : v;
      if (c[at(tc, i, j, ldc)] != want) mcx::fail("element (%d,%d) is %d instead of %d", i, j, c[at(tc, i, j, ldc)], want);
    }
    void* probe = malloc(nc * 4);  // what the intermediate result of the float product needs
    free(probe);
    if (probe) {
      mcx::calls();
      EightBitIntGemm(ta, tb, tc, m, n, k, a, -9, lda, b, -4, ldb, f, 0.25f, ldc, BitDepthSetting::A8B8);
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (f[at(tc, i, j, ldc)] != 0.25f * dot(i, j)) mcx::fail("float element (%d,%d) is %g instead of %g", i, j, f[at(tc, i, j, ldc)], 0.25f * dot(i, j));
    }
    FreePersistentResources();
    munmap(a, na); munmap(b, nb); munmap(c, nc); munmap(f, nc * 4);
    mcx::elements((u64)m * n * 2);
    mcx::beat();
  }
#endif
}
MCX_MAIN
