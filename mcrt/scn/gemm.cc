// P05/P10/P19: multi-threaded products on the library's own pool, all schedules.
#include "mc.h"
#include <tuple>
#include <vector>
#include "public/gemmlowp.h"
using namespace gemmlowp;
namespace {
template <typename C>
void product(C* ctx, int m, int k, int n, int seed, bool u8) {
  static unsigned char l[1 << 14], r[1 << 14];
  static std::int32_t d[1 << 13], off[300], bias[300];
  static unsigned char d8[1 << 13];
  for (int i = 0; i < m * k; i++) l[i] = (i * 37 + (i >> 6) * 11 + seed) & 255;
  for (int i = 0; i < n * k; i++) r[i] = (i * 91 + (i >> 5) * 7 + seed * 3) & 255;
  for (int i = 0; i < 300; i++) { off[i] = (i * 13 + seed) % 97 - 48; bias[i] = (i * 31 + seed) % 4001 - 2000; }
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> lm(l, m, k);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> rm(r, k, n);
  typedef VectorMap<const std::int32_t, VectorShape::Col> CM;
  typedef VectorMap<const std::int32_t, VectorShape::Row> RM;
  if (u8) {
    for (int i = 0; i < m * n; i++) d8[i] = 77;
    OutputStageBiasAddition<CM> b; b.bias_vector = CM(bias, m);
    OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = 1 << 30; q.result_shift = 11; q.result_offset_after_shift = 3;
    MatrixMap<std::uint8_t, MapOrder::ColMajor> dm(d8, m, n);
    GemmWithOutputPipelinePC<std::uint8_t, std::uint8_t, DefaultL8R8BitDepthParams>(ctx, lm, rm, &dm, CM(off, m), RM(off + 5, n), std::make_tuple(b, q, OutputStageSaturatingCastToUint8()));
  } else {
    for (int i = 0; i < m * n; i++) d[i] = 0x77777777;
    MatrixMap<std::int32_t, MapOrder::ColMajor> dm(d, m, n);
    GemmWithOutputPipelinePC<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(ctx, lm, rm, &dm, CM(off, m), RM(off + 5, n), std::make_tuple());
  }
  unsigned long long h = 5;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    std::int32_t s = 0;
    for (int p = 0; p < k; p++) s += (l[i * k + p] + off[i]) * (r[j * k + p] + off[5 + j]);
    if (u8) {
      long long x = ((long long)(s + bias[i]) * (1 << 30) + (1ll << 30)) >> 31;
      x = (x >= 0 ? (x + 1024) >> 11 : -((-x + 1024) >> 11)) + 3;
      int w = x < 0 ? 0 : x > 255 ? 255 : (int)x;
      MC_CHECK(d8[j * m + i] == w, "element (%d,%d) of the %dx%dx%d product is %d under this schedule, expected %d", i, j, m, k, n, d8[j * m + i], w);
    } else {
      MC_CHECK(d[j * m + i] == s, "element (%d,%d) of the %dx%dx%d product is %d under this schedule, expected %d", i, j, m, k, n, d[j * m + i], s);
    }
    h = h * 31 + s;
  }
  mc_outcome(h);
}
void done() {
  MC_CHECK(mc_threads_unjoined() == 0, "destroying the context left %d threads", mc_threads_unjoined());
  MC_CHECK(mc_heap_blocks() == 0, "destroying the context left %zu blocks of memory", mc_heap_blocks());
}
}  // namespace
MC_SCENARIO(gemm_2) {
  { GemmContext c; c.set_max_num_threads(2); product(&c, 32, 64, 64, 1, false);
    MC_CHECK(mc_threads_created() <= 1, "%d threads created with a maximum of 2", mc_threads_created()); }
  done();
}
MC_SCENARIO(gemm_2_2) {
  { GemmContext c; c.set_max_num_threads(2); product(&c, 32, 64, 64, 1, true); product(&c, 34, 110, 36, 2, false);
    MC_CHECK(mc_threads_created() <= 1, "%d threads created with a maximum of 2", mc_threads_created()); }
  done();
}
MC_SCENARIO(gemm_3) {
  { GemmContext c; c.set_max_num_threads(3); product(&c, 48, 64, 64, 1, false);
    MC_CHECK(mc_threads_created() <= 2, "%d threads created with a maximum of 3", mc_threads_created()); }
  done();
}
// several right-hand-side blocks: several batches per product
MC_SCENARIO(gemm_blocks) {
  { GemmContext c; c.set_max_num_threads(2); c.set_l2_bytes_to_use(1500); c.set_l2_rhs_factor(0.75f); c.set_l1_bytes_to_use(1000);
    product(&c, 33, 64, 63, 4, false); }
  done();
}
// growth: 2 threads, then 3, then 1, then 2
MC_SCENARIO(gemm_grow) {
  { GemmContext c;
    c.set_max_num_threads(2); product(&c, 32, 64, 64, 1, false);
    c.set_max_num_threads(3); product(&c, 48, 64, 64, 2, true);
    c.set_max_num_threads(1); product(&c, 32, 64, 64, 3, false);
    c.set_max_num_threads(2); product(&c, 32, 64, 64, 4, true);
    MC_CHECK(mc_threads_created() <= 2, "%d threads created with a maximum of 3", mc_threads_created()); }
  done();
}
// two independent contexts used by two application threads at once
namespace {
void* user(void* a) { GemmContext c; c.set_max_num_threads(2); product(&c, 32, 64, 64, (int)(long)a, false); return 0; }
struct U { unsigned char l[2048], r[4096]; std::int32_t d[2048]; };
U uu[2];
void* user1(void* a) {  // disjoint buffers
  int id = (int)(long)a; U& u = uu[id];
  for (int i = 0; i < 2048; i++) u.l[i] = i * 7 + id;
  for (int i = 0; i < 4096; i++) u.r[i] = i * 5 + id;
  GemmContext c; c.set_max_num_threads(2);
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> lm(u.l, 32, 64);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> rm(u.r, 64, 64);
  MatrixMap<std::int32_t, MapOrder::ColMajor> dm(u.d, 32, 64);
  GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(&c, lm, rm, &dm, -3, 9, std::make_tuple());
  for (int i = 0; i < 32; i++) for (int j = 0; j < 64; j++) {
    std::int32_t s = 0;
    for (int p = 0; p < 64; p++) s += (u.l[i * 64 + p] - 3) * (u.r[j * 64 + p] + 9);
    MC_CHECK(u.d[j * 32 + i] == s, "element (%d,%d) wrong with two contexts in use", i, j);
  }
  return 0;
}
}
MC_SCENARIO(gemm_two_contexts) {
  pthread_t t;
  pthread_create(&t, 0, user1, (void*)1);
  user1((void*)0);
  pthread_join(t, 0);
  done();
}
