// P20: products on different contexts used by different threads, all interleavings.
#include "mc.h"
#include <pthread.h>
#include <string.h>
#include <tuple>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "public/gemmlowp.h"
using namespace gemmlowp;
namespace {
typedef VectorMap<const std::int32_t, VectorShape::Col> CM;
typedef VectorMap<const std::int32_t, VectorShape::Row> RM;
const int MT = 4, OPS = 10;
struct Buf { unsigned char l[4096], r[4096], d8[4096]; std::int32_t d[4096]; std::int16_t d16[4096]; float f[64]; std::int32_t off[80], bias[80]; };
Buf bufs[MT];
long long rnd(long long x, int s) { if (!s) return x; long long h = 1ll << (s - 1); return x >= 0 ? (x + h) >> s : -((-x + h) >> s); }
long long clampll(long long x, long long a, long long b) { return x < a ? a : x > b ? b : x; }
template <MapOrder L, MapOrder R, MapOrder D, typename Out, typename C, typename P>
void gemm(C* c, const unsigned char* l, const unsigned char* r, Out* d, int m, int k, int n, const std::int32_t* off, const P& p) {
  MatrixMap<const std::uint8_t, L> lm(l, m, k); MatrixMap<const std::uint8_t, R> rm(r, k, n); MatrixMap<Out, D> dm(d, m, n);
  GemmWithOutputPipelinePC<std::uint8_t, Out, DefaultL8R8BitDepthParams>(c, lm, rm, &dm, CM(off, m), RM(off + 5, n), p);
}
const MapOrder RMJ = MapOrder::RowMajor, CMJ = MapOrder::ColMajor;
// in: where the operands, offsets and biases are (may be shared by the threads); out: where the result goes
void fill(Buf& u, int seed) {
  for (int i = 0; i < 4096; i++) { u.l[i] = i * 37 + (i >> 6) * 11 + seed; u.r[i] = i * 91 + (i >> 5) * 7 + seed * 3; }
  for (int i = 0; i < 80; i++) { u.off[i] = (i * 13 + seed) % 97 - 48; u.bias[i] = (i * 31 + seed) % 4001 - 2000; }
}
template <typename C> void op(C* c, const Buf& in, Buf& u, int o, bool large) {
  int m = 5, k = 9, n = 3;
  if (o % 3 == 1) { m = 4; k = 7; n = 6; }
  if (o % 3 == 2) { m = 2; k = 18; n = 2; }
  if (large) { m = 32; k = 64; n = 64; }
  mc_note("operation %d, %dx%dx%d", o, m, k, n);
  OutputStageBiasAddition<CM> b; b.bias_vector = CM(in.bias, m);
  OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = 1 << 30; q.result_shift = 9; q.result_offset_after_shift = 3;
  OutputStageQuantizeDownInt32ToUint8Scale s; s.result_offset = 700; s.result_mult_int = 3; s.result_shift = 11;
  OutputStageClamp cl; cl.min = 20; cl.max = 200;
  OutputStageScaleInt32ByFixedPointAndExponent e; e.result_fixedpoint_multiplier = 1 << 30; e.result_exponent = -6; e.result_offset_after_shift = -5;
  OutputStageTanh th; th.real_zero_as_int32 = 100; th.real_amplitude_as_int32 = 30000;
  bool lr = true, rc = true, dr = false;  // lhs row major, rhs column major, destination row major
  int kind = 0;                           // 0 int32, 1 uint8, 2 int16
  memset(u.d8, 77, sizeof u.d8); memset(u.d, 0x77, sizeof u.d); memset(u.d16, 0x77, sizeof u.d16);
  switch (o) {
    case 0: gemm<RMJ, CMJ, CMJ>(c, in.l, in.r, u.d, m, k, n, in.off, std::make_tuple()); break;
    case 1: lr = false; dr = true; gemm<CMJ, CMJ, RMJ>(c, in.l, in.r, u.d, m, k, n, in.off, std::make_tuple()); break;
    case 2: rc = false; gemm<RMJ, RMJ, CMJ>(c, in.l, in.r, u.d, m, k, n, in.off, std::make_tuple(b)); break;
    case 3: kind = 1; gemm<RMJ, CMJ, CMJ>(c, in.l, in.r, u.d8, m, k, n, in.off, std::make_tuple(b, q, OutputStageSaturatingCastToUint8())); break;
    case 4: kind = 1; dr = true; gemm<RMJ, CMJ, RMJ>(c, in.l, in.r, u.d8, m, k, n, in.off, std::make_tuple(s, cl, OutputStageSaturatingCastToUint8())); break;
    case 5: kind = 2; gemm<RMJ, CMJ, CMJ>(c, in.l, in.r, u.d16, m, k, n, in.off, std::make_tuple(e, OutputStageSaturatingCastToInt16())); break;
    case 6: { kind = 1; MatrixMap<const std::uint8_t, RMJ> lm(in.l, m, k); MatrixMap<const std::uint8_t, CMJ> rm(in.r, k, n); MatrixMap<std::uint8_t, CMJ> dm(u.d8, m, n);
      Gemm<std::uint8_t, DefaultL8R8BitDepthParams>(c, lm, rm, &dm, -3, -9, 700, 3, 11); break; }
    case 7: gemm<RMJ, CMJ, CMJ>(c, in.l, in.r, u.d, m, k, n, in.off, std::make_tuple(th)); break;
    case 8: gemm<RMJ, CMJ, CMJ>(c, in.l, in.r, u.d, 0, k, n, in.off, std::make_tuple()); break;
    case 9: {  // the functions of the fixed-point library
      FixedPoint<std::int32_t, 4> x = FixedPoint<std::int32_t, 4>::FromRaw(0x1234567 * (1 + (in.l[0] & 3)));
      int a = tanh(x).raw(), g = logistic(x).raw(), h = tanh(-x).raw(), w = exp_on_negative_values(-x).raw();
      MC_CHECK(a == -h && g > 0 && w > 0, "fixed-point functions of %d", x.raw());
      return; }
  }
  if (o == 8) { for (int i = 0; i < 4096; i++) MC_CHECK(u.d[i] == 0x77777777, "an empty product stored something"); return; }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    long long x = 0;
    for (int p = 0; p < k; p++) x += (long long)(in.l[lr ? i * k + p : p * m + i] + (o == 6 ? -3 : in.off[i])) * (in.r[rc ? j * k + p : p * n + j] + (o == 6 ? -9 : in.off[5 + j]));
    long long got = kind == 0 ? u.d[dr ? i * n + j : j * m + i] : kind == 1 ? u.d8[dr ? i * n + j : j * m + i] : u.d16[dr ? i * n + j : j * m + i], w = x;
    if (o == 2 || o == 3) w += in.bias[i];
    if (o == 3) w = clampll(rnd((w * (1 << 30) + (1ll << 30)) >> 31, 9) + 3, 0, 255);
    if (o == 4) w = clampll(clampll(rnd((w + 700) * 3, 11), 20, 200), 0, 255);
    if (o == 6) w = clampll(rnd((w + 700) * 3, 11), 0, 255);
    if (o == 5) w = clampll(rnd((w * (1 << 30) + (1ll << 30)) >> 31, 6) - 5, -32768, 32767);
    if (o == 7) MC_CHECK(got >= 100 - 30001 && got <= 100 + 30001 && (w < 100 ? got <= 102 : got >= 98), "tanh stage gives %lld for %lld", got, w);
    else MC_CHECK(got == w, "element (%d,%d) of operation %d is %lld, alone it is %lld", i, j, o, got, w);
  }
  mc_outcome(o + u.d[0] + u.d8[0]);
}
struct Prog { int id, o[2], n, threads; bool shared, large; };
Prog progs[MT];
void* client(void* v) {
  Prog& p = *(Prog*)v;
  const Buf& in = bufs[p.shared ? MT - 1 : p.id];
  GemmContext c; c.set_max_num_threads(p.threads);
  for (int i = 0; i < p.n; i++) op(&c, in, bufs[p.id], p.o[i], p.large);
  return 0;
}
void concurrently(int n) {
  pthread_t t[MT];
  for (int i = 0; i < MT; i++) fill(bufs[i], i + 1);
  for (int i = 1; i < n; i++) pthread_create(&t[i], 0, client, &progs[i]);
  client(&progs[0]);
  for (int i = 1; i < n; i++) pthread_join(t[i], 0);
}
}  // namespace
MC_SCENARIO(ctx_pairs) {  // every pair of operations, operands shared or not
  bool sh = mc_choose(2);
  for (int i = 0; i < 2; i++) progs[i] = Prog{i, {mc_choose(OPS), 0}, 1, 1, sh, false};
  concurrently(2);
}
MC_SCENARIO(ctx_two_each) {  // two operations each on the same context
  for (int i = 0; i < 2; i++) { int a = mc_choose(OPS - 1), b = mc_choose(3) * 3; progs[i] = Prog{i, {a, b}, 2, 1, true, false}; }
  concurrently(2);
}
MC_SCENARIO(ctx_triples) {
  int a = mc_choose(OPS);
  progs[0] = Prog{0, {a, 0}, 1, 1, true, false}; progs[1] = Prog{1, {(a + 3) % OPS, 0}, 1, 1, true, false}; progs[2] = Prog{2, {a, 0}, 1, 1, true, false};
  concurrently(3);
}
MC_SCENARIO(ctx_workers_one) {  // one of the contexts has a worker
  int a = mc_choose(2) * 3, b = mc_choose(OPS);
  progs[0] = Prog{0, {a, 0}, 1, 2, false, true}; progs[1] = Prog{1, {b, 0}, 1, 1, false, false};
  concurrently(2);
}
MC_SCENARIO(ctx_workers_both) {
  progs[0] = Prog{0, {mc_choose(2) * 3, 0}, 1, 2, true, true}; progs[1] = Prog{1, {3, 0}, 1, 2, true, true};
  concurrently(2);
}
MC_SCENARIO(ctx_legacy) {  // the legacy interface next to a context
  for (int i = 0; i < MT; i++) fill(bufs[i], i + 1);
  progs[1] = Prog{1, {mc_choose(OPS), 0}, 1, 1, true, false};
  pthread_t t; pthread_create(&t, 0, client, &progs[1]);
  const Buf& in = bufs[MT - 1]; Buf& u = bufs[0];
  eight_bit_int_gemm::EightBitIntGemm(true, false, false, 3, 2, 5, in.l, -3, 5, in.r, 4, 5, u.f, 0.5f, 3, eight_bit_int_gemm::BitDepthSetting::A8B8);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) {
    int s = 0; for (int p = 0; p < 5; p++) s += (in.l[i * 5 + p] - 3) * (in.r[j * 5 + p] + 4);
    MC_CHECK(u.f[j * 3 + i] == 0.5f * s, "legacy element (%d,%d) is %g, alone it is %g", i, j, u.f[j * 3 + i], 0.5f * s);
  }
  eight_bit_int_gemm::FreePersistentResources();
  pthread_join(t, 0);
}
// one context handed from thread to thread
namespace {
GemmContext* H; bool large_h;
void* second(void* v) { op(H, bufs[1], bufs[1], (int)(long)v, large_h); return 0; }
}
MC_SCENARIO(ctx_handover) {
  for (int i = 0; i < MT; i++) fill(bufs[i], i + 1);
  H = new GemmContext; H->set_max_num_threads(2); large_h = true;
  op(H, bufs[0], bufs[0], 0, true);
  pthread_t t; pthread_create(&t, 0, second, (void*)(long)3); pthread_join(t, 0);
  op(H, bufs[2], bufs[2], 0, false);
  delete H;
}
