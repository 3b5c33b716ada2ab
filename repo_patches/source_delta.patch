From 9d21c7be1143138b665392c9c56f42153939487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:00 +0000
Subject: [PATCH 01/24] verification hook: configurable busy-wait length (off
 by default)

---
 internal/multi_thread_gemm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..916f15f 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -48,7 +48,13 @@ namespace gemmlowp {
 // between consecutive GEMM invokations, not just intra-GEMM considerations.
 // Of course, we need to balance keeping CPUs spinning longer to resume work
 // faster, versus passively waiting to conserve power.
+#ifdef GEMMLOWP_VERIF_BUSYWAIT_NOPS
+// Verification hook: a short busy-wait, so that both the busy-waiting and the
+// passive waiting paths are reachable within a few steps.
+const int kMaxBusyWaitNOPs = GEMMLOWP_VERIF_BUSYWAIT_NOPS;
+#else
 const int kMaxBusyWaitNOPs = 4 * 1000 * 1000;
+#endif
 
 // On X86 and ARM platforms we may use NOP instructions to know how long we
 // are busy-waiting.
-- 
2.43.0


From 7f7bf70e87c361c1745fc7ed4eda40dd9c915197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:48 +0000
Subject: [PATCH 02/24] fix: SSE/AVX SaturatingRoundingDoublingHighMul
 saturates to INT32_MAX

The single overflowing operand pair INT32_MIN * INT32_MIN returned INT32_MIN
on the SSE4.1 and AVX2 32-bit paths; the scalar and NEON paths (and the
definition) return INT32_MAX.
---
 fixedpoint/fixedpoint_avx.h | 4 +++-
 fixedpoint/fixedpoint_sse.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..c895cc3 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -348,7 +348,9 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..e2c94c9 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -352,7 +352,9 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
-- 
2.43.0


From 713b86f59ba3e1813e10f3b2c5ca61575aafc533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:48 +0000
Subject: [PATCH 03/24] fix: OutputStageTanh sign flip just below the positive
 cutoff on SIMD

With a power-of-two amplitude the accumulator zero + 8 * amplitude - 1 was
rescaled to exactly 8.0, which overflows the Q3.28 input of tanh: on SIMD
paths, whose ShiftLeft does not saturate, the output was zero - amplitude.
---
 internal/output.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/output.h b/internal/output.h
index 92bf7b9..49ad809 100644
--- a/internal/output.h
+++ b/internal/output.h
@@ -368,7 +368,9 @@ struct OutputStageEvalBufferImpl<OutputStageTanh,
         output_stage.real_amplitude_as_int32;
 
     input_cutoff_min = real_zero_as_int32 - 8 * real_amplitude_as_int32;
-    input_cutoff_max = real_zero_as_int32 + 8 * real_amplitude_as_int32;
+    // One less than 8 amplitudes: rounding the rescaled input could otherwise
+    // reach 8.0, which is not representable with 3 integer bits.
+    input_cutoff_max = real_zero_as_int32 + 8 * real_amplitude_as_int32 - 1;
     output_min = real_zero_as_int32 - real_amplitude_as_int32;
     output_max = real_zero_as_int32 + real_amplitude_as_int32;
 
-- 
2.43.0


From 7081e7d2d74fafadee9933f09b0a1fad2224ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:12 +0000
Subject: [PATCH 04/24] fix: float EightBitIntGemm with a zero depth stored
 uninitialised scratch

The int32 product returns early when a dimension is zero, so the
intermediate scratch was converted to float without having been written:
the destination received stale data of an earlier call, or uninitialised
memory. Return early, like the 8-bit entry point does.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..e84fc20 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -341,6 +341,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
                      const std::uint8_t* b, std::int32_t b_offset,
                      std::int32_t ldb, float* c, float c_offset,
                      std::int32_t ldc, BitDepthSetting bit_depth) {
+  // As in the 8-bit entry point, there is nothing to compute (and no
+  // intermediate result to convert) if any dimension is zero.
+  if (m == 0 || n == 0 || k == 0) {
+    return;
+  }
+
   ScopedLock sl(GlobalMutexes::EightBitIntGemm());
   GemmContext* context = GetOrCreateGlobalContext();
 
-- 
2.43.0


From 3329801be65f777e5a4b0e8cec3aa24dfcdb5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:12 +0000
Subject: [PATCH 05/24] fix: scratch size of float EightBitIntGemm truncated to
 32 bits

An intermediate result of 2^31 bytes or more gave a negative required
size, so no buffer was allocated and the product was written through a
null or too small pointer.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index e84fc20..be77edc 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -144,7 +144,7 @@ class Scratch {
  public:
   Scratch() : buffer_(), buffer_32_(nullptr), size_(0) {}
 
-  void AssureSize(std::int32_t required_size) {
+  void AssureSize(std::size_t required_size) {
     if (size_ >= required_size) {
       return;
     }
@@ -167,7 +167,7 @@ class Scratch {
  private:
   std::unique_ptr<std::uint8_t[]> buffer_;
   std::uint8_t* buffer_32_;
-  std::int32_t size_;
+  std::size_t size_;
 };
 
 Scratch* global_scratch = nullptr;
@@ -362,9 +362,11 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-    scratch->AssureSize(m * ldc * sizeof(std::int32_t));
+    scratch->AssureSize(static_cast<std::size_t>(m) * ldc *
+                        sizeof(std::int32_t));
   } else {
-    scratch->AssureSize(n * ldc * sizeof(std::int32_t));
+    scratch->AssureSize(static_cast<std::size_t>(n) * ldc *
+                        sizeof(std::int32_t));
   }
   std::int32_t* temp_c = reinterpret_cast<std::int32_t*>(scratch->buffer());
 
-- 
2.43.0


From 330ff01f9108619f135c3571d43cbcedf31be3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:43 +0000
Subject: [PATCH 06/24] fix: meta fast path read strided vectors as contiguous

A one-row column-major (or one-column row-major) operand or result with a
leading dimension greater than one is not contiguous, but was handed to
the fast path as if it was.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index be77edc..f306b50 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,8 +192,8 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
-  if (rows == 1) {
+  // Is it a one row vector? (a contiguous vector is both row and column major)
+  if (rows == 1 && (transpose || stride == 1)) {
     return true;
   }
 
@@ -206,8 +206,9 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
-  if (cols == 1) {
+  // Is it a one column vector? (a contiguous vector is both row and column
+  // major)
+  if (cols == 1 && (!transpose || stride == 1)) {
     return true;
   }
 
-- 
2.43.0


From 3f9b5fe8b46beb03c32094286958cdb1b8706dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:31 +0000
Subject: [PATCH 07/24] fix: meta quantized gemm with a zero shift shifted by a
 negative amount

1 << (shift - 1) with shift == 0 is undefined and gives INT32_MIN as the
rounding offset on 64-bit ARM, so every result came out wrong.
---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..1a79099 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 5bf1d2e4c6148e7b6918ffcf82a76eca9226b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:37 +0000
Subject: [PATCH 08/24] fix: data races on the profiler's flags and thread
 count

The profiler thread read the termination flag without synchronisation,
FinishProfiling() reset the profiling flag outside the lock, and the
report read the set of registered threads while they may still register
or exit.
---
 profiling/profiler.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 018da57..59e517e 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -147,6 +147,7 @@
 #error Profiling is not enabled!
 #endif
 
+#include <atomic>
 #include <vector>
 
 #include "instrumentation.h"
@@ -247,9 +248,13 @@ class ProfileTreeView {
   }
 
   void Print() const {
+    int threads_count;
+    {
+      ScopedLock sl(GlobalMutexes::Profiler());
+      threads_count = static_cast<int>(ThreadsUnderProfiling().size());
+    }
     printf("\n");
-    printf("gemmlowp profile (%d threads, %d samples)\n",
-           static_cast<int>(ThreadsUnderProfiling().size()),
+    printf("gemmlowp profile (%d threads, %d samples)\n", threads_count,
            static_cast<int>(root_.weight));
     PrintNode(&root_, 0);
     printf("\n");
@@ -282,8 +287,9 @@ inline bool& IsProfiling() {
 }
 
 // This is how we tell the profiler thread to finish.
-inline bool& ProfilerThreadShouldFinish() {
-  static bool b;
+// Read by the profiler thread without holding the lock.
+inline std::atomic<bool>& ProfilerThreadShouldFinish() {
+  static std::atomic<bool> b;
   return b;
 }
 
@@ -365,7 +371,8 @@ inline void FinishProfiling() {
     ProfilerThreadShouldFinish() = true;
   }  // must release the lock here to avoid deadlock with profiler thread.
   pthread_join(ProfilerThread(), nullptr);
-  IsProfiling() = false;  // yikes, this should be guarded by the lock!
+  ScopedLock sl(GlobalMutexes::Profiler());
+  IsProfiling() = false;
 }
 
 }  // namespace gemmlowp
-- 
2.43.0


From 40e8349bff65d8328dfb588b4cb5d8ab8dce835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:20 +0000
Subject: [PATCH 09/24] fix: profiler sampled freed ThreadInfo of exiting
 threads, leaked a key per thread

At thread exit one thread-specific-data destructor deleted the ThreadInfo
and another one, run in unspecified order (after it, on glibc), removed it
from the set of sampled threads: the profiler thread could sample freed
memory. Each thread also created a pthread key that was never deleted, so
that after PTHREAD_KEYS_MAX threads exits were not noticed any more.
Unregister in the destructor instead.
---
 profiling/instrumentation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/profiling/instrumentation.h b/profiling/instrumentation.h
index c1f852e..bbfc407 100644
--- a/profiling/instrumentation.h
+++ b/profiling/instrumentation.h
@@ -159,19 +159,15 @@ inline std::set<ThreadInfo*>& ThreadsUnderProfiling() {
 }
 
 struct ThreadInfo {
-  pthread_key_t key;  // used only to get a callback at thread exit.
   ProfilingStack stack;
 
-  ThreadInfo() {
-    pthread_key_create(&key, ThreadExitCallback);
-    pthread_setspecific(key, this);
-    stack.lock = new Mutex();
-  }
+  ThreadInfo() { stack.lock = new Mutex(); }
 
-  static void ThreadExitCallback(void* ptr) {
+  // Runs at thread exit. The thread must be unregistered before any of this
+  // memory is released: the profiler thread samples all registered threads.
+  ~ThreadInfo() {
     ScopedLock sl(GlobalMutexes::Profiler());
-    ThreadInfo* self = static_cast<ThreadInfo*>(ptr);
-    ThreadsUnderProfiling().erase(self);
+    ThreadsUnderProfiling().erase(this);
   }
 };
 
-- 
2.43.0


From 3074c89f999d1aaa00e663938e7bf04126f59c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 10/24] fix: overflowing reservations in Allocator

Reservations whose total size overflows std::size_t, or (on 32 bit)
exceeds its largest power of two, wrapped around: Commit() then provided
too little memory, or none, instead of stopping.
---
 internal/allocator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/allocator.h b/internal/allocator.h
index e71df15..384ca89 100644
--- a/internal/allocator.h
+++ b/internal/allocator.h
@@ -92,6 +92,10 @@ class Allocator {
   // there is no point in allowing more until we need to.
   static constexpr std::size_t kMaxBlocks = 5;
 
+  // The largest power of two that is a std::size_t.
+  static constexpr std::size_t kMaxStorageSize =
+      ~static_cast<std::size_t>(0) / 2 + 1;
+
   void Commit() {
     assert(!committed_);
 
@@ -135,6 +139,8 @@ class Allocator {
     assert(!committed_ && "can't reserve blocks while committed");
     assert(reserved_blocks_ < kMaxBlocks &&
            "didn't expect to allocate this many blocks");
+    ReleaseBuildAssertion(n <= (kMaxStorageSize - reserved_bytes_) / sizeof(T),
+                          "allocation size overflow");
     const std::size_t bytes = RoundUp<kAlignment>(n * sizeof(T));
     const std::size_t offset = reserved_bytes_;
     const std::size_t index = reserved_blocks_;
-- 
2.43.0


From 67b057b76dbd7e553716ae9fbe9bf6545c87523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:39 +0000
Subject: [PATCH 11/24] fix: scalar ShiftLeft by 31

1 << 31 overflows int, giving a negative factor: ShiftLeft(-1, 31)
returned INT32_MAX instead of INT32_MIN.
---
 fixedpoint/fixedpoint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 56e95c0..91d3a92 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -125,7 +125,8 @@ tIntegerType Neg(tIntegerType a) {
 template <typename tIntegerType, typename OffsetType>
 tIntegerType ShiftLeft(tIntegerType a, OffsetType offset) {
   const std::int64_t wide_a = static_cast<std::int64_t>(a);
-  const std::int64_t wide_shifted = wide_a * (1 << offset);
+  const std::int64_t wide_shifted =
+      wide_a * (static_cast<std::int64_t>(1) << offset);
   const auto min = std::numeric_limits<tIntegerType>::min();
   const auto max = std::numeric_limits<tIntegerType>::max();
   return wide_shifted < min
-- 
2.43.0


From beb5ae7c357314eaede6e851c5824ea1f899242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:32 +0000
Subject: [PATCH 12/24] fix: All/Any on SSE4.1 and AVX2 masks were always true

_mm_testc_si128(a, a) tests (~a & a) == 0, which always holds, and BitNot of the
int returned by _mm256_testz_si256 is non-zero for both 0 and 1. So All() was true
for every mask (FixedPoint operator== of any two SIMD values) and Any() on AVX2
was true for the empty mask.
---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index c895cc3..dc10f12 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index e2c94c9..874fb81 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From 7dc252b1a40cf5103ba567500f2a04c8a45f1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:42 +0000
Subject: [PATCH 13/24] fix: keep every cache friendly meta gemm task within
 the declared scratch memory

The last task got all the remaining rows (columns), which can be more chunks
than fit in the cache: e.g. n = 371, k = 2048 overran the scratch memory, in a
multi threaded gemm into the scratch memory of the next task.
---
 meta/single_thread_gemm.h | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/meta/single_thread_gemm.h b/meta/single_thread_gemm.h
index 258de69..dafa3a4 100644
--- a/meta/single_thread_gemm.h
+++ b/meta/single_thread_gemm.h
@@ -15,6 +15,7 @@
 #ifndef GEMMLOWP_META_SINGLE_THREAD_GEMM_H_
 #define GEMMLOWP_META_SINGLE_THREAD_GEMM_H_
 
+#include <algorithm>
 #include <iostream>
 #include "base.h"
 
@@ -413,6 +414,16 @@ inline int CalculateCacheFriendlyTasksCount(int cache_size, int constant_memory,
   return (chunks_count + available_chunks - 1) / available_chunks;
 }
 
+// Start of the given task when all the chunks are spread evenly over the tasks.
+// No task gets more chunks than fit in the cache.
+inline int CacheFriendlyTaskStart(int task, int tasks_count, int total_dim,
+                                  int chunk_dim) {
+  const int chunks_count = (total_dim + chunk_dim - 1) / chunk_dim;
+  return std::min<std::int64_t>(
+      total_dim, static_cast<std::int64_t>(chunks_count) * task / tasks_count *
+                     chunk_dim);
+}
+
 template <typename Params>
 inline void UpdateCacheFriendlyTask(int m_offset, int m, int n_offset, int n,
                                     const Params& params, Params* task_params) {
@@ -467,19 +478,16 @@ class GemmExecutorPackRHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.n / cache_friendly_tasks_count;
-
     P task_params = params;
-    for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-      internal::UpdateCacheFriendlyTask(0, params.m, i * cache_friendly_dim,
-                                        cache_friendly_dim, params,
+    for (int i = 0; i < cache_friendly_tasks_count; ++i) {
+      const int start = internal::CacheFriendlyTaskStart(
+          i, cache_friendly_tasks_count, params.n, n);
+      const int end = internal::CacheFriendlyTaskStart(
+          i + 1, cache_friendly_tasks_count, params.n, n);
+      internal::UpdateCacheFriendlyTask(0, params.m, start, end - start, params,
                                         &task_params);
       Gemm<GemmExecutorPackRHS, P, m, n, k>(task_params);
     }
-    const int dim_sum = (cache_friendly_tasks_count - 1) * cache_friendly_dim;
-    internal::UpdateCacheFriendlyTask(0, params.m, dim_sum, params.n - dim_sum,
-                                      params, &task_params);
-    Gemm<GemmExecutorPackRHS, P, m, n, k>(task_params);
   }
 };
 
@@ -516,19 +524,16 @@ class GemmExecutorPackLHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.m / cache_friendly_tasks_count;
-
     P task_params = params;
-    for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-      internal::UpdateCacheFriendlyTask(i * cache_friendly_dim,
-                                        cache_friendly_dim, 0, params.n, params,
+    for (int i = 0; i < cache_friendly_tasks_count; ++i) {
+      const int start = internal::CacheFriendlyTaskStart(
+          i, cache_friendly_tasks_count, params.m, m);
+      const int end = internal::CacheFriendlyTaskStart(
+          i + 1, cache_friendly_tasks_count, params.m, m);
+      internal::UpdateCacheFriendlyTask(start, end - start, 0, params.n, params,
                                         &task_params);
       Gemm<GemmExecutorPackLHS, P, m, n, k>(task_params);
     }
-    const int dim_sum = (cache_friendly_tasks_count - 1) * cache_friendly_dim;
-    internal::UpdateCacheFriendlyTask(dim_sum, params.m - dim_sum, 0, params.n,
-                                      params, &task_params);
-    Gemm<GemmExecutorPackLHS, P, m, n, k>(task_params);
   }
 };
 
-- 
2.43.0


From aaf9a7f04b1036f7ed4cdf734a8dcf43c854f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:21 +0000
Subject: [PATCH 14/24] fix: cut the legacy meta gemm by the packed size of the
 rhs

Packed rows are padded to 8 elements and carry a row sum, so that for small
depths the scratch memory per thread was too small for the rhs: e.g. 2 x 58000
with k = 9, reachable through the meta fast path, overran the scratch memory.
---
 meta/legacy_multi_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_multi_thread_gemm.h b/meta/legacy_multi_thread_gemm.h
index a1e48c3..7d6b681 100644
--- a/meta/legacy_multi_thread_gemm.h
+++ b/meta/legacy_multi_thread_gemm.h
@@ -35,10 +35,12 @@ void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
                                const IN_TYPE* rhs, std::int32_t m,
                                std::int32_t n, std::int32_t k, OUT_TYPE* result,
                                std::int32_t result_stride, const F& operation) {
-  const std::int32_t rhs_size = n * k * sizeof(IN_TYPE);
+  // Scratch memory taken by a packed rhs row: padded data and row sum.
+  const std::int32_t packed_k = AlignTo<8>(k) + 8;
+  const std::int32_t rhs_size = n * packed_k * sizeof(IN_TYPE);
   if (rhs_size > kMaxCacheFriendlySize) {
     const std::int32_t optimal_n =
-        std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
+        std::max(1, 4 * (kMaxCacheFriendlySize / (packed_k * 4)));
     const std::int32_t chunks_count_less_one = n / optimal_n - 1;
     const std::int32_t chunk_size = optimal_n * k;
     for (int i = 0; i < chunks_count_less_one; ++i) {
-- 
2.43.0


From b7c16f86d59cbdb884f74fc429ecd19389c4727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:23 +0000
Subject: [PATCH 15/24] fix: do not refer to a destroyed operation in legacy
 meta gemm tasks

The tasks kept a reference to the copy of the operation in the closure passed to
std::for_each, which is destroyed before the tasks run.
---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0


From 53d327c6f5a6f556f2df52ff5050e0f33493e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:55 +0000
Subject: [PATCH 16/24] fix: tell the compiler that the meta gemm kernels
 change count

The kernels count down in an input operand, so that the compiler may reuse the
changed register: on 32 bit ARM at -O2 a 2x7x15 product to int32 was wrong.
---
 .../quantized_mul_kernels_common.py           |   3 +-
 meta/quantized_mul_kernels_arm_32.h           | 315 ++++++++++--------
 meta/quantized_mul_kernels_arm_64.h           | 315 ++++++++++--------
 3 files changed, 362 insertions(+), 271 deletions(-)

diff --git a/meta/generators/quantized_mul_kernels_common.py b/meta/generators/quantized_mul_kernels_common.py
index ef69eb5..b9ab550 100644
--- a/meta/generators/quantized_mul_kernels_common.py
+++ b/meta/generators/quantized_mul_kernels_common.py
@@ -494,7 +494,7 @@ def _Generate1xNLoadMultiplyAggregate(emitter, registers, kernel_n, aggregators,
 
 def _GenerateMultiplyKernel(emitter, registers, kernel_m, kernel_n, lhs, rhs):
   """Main muliply loop. Pick best implementation for given kernel shape."""
-  count = registers.MapParameter('count', 'params.kernel.count')
+  count = registers.MapOutputParameter('count', 'params_count_copy')
 
   aggregators = _GenerateAndClearAggregators(emitter, registers,
                                              kernel_m * kernel_n)
@@ -552,6 +552,7 @@ class QuantizedMulKernel(common.MulKernelGenerator):
 
     registers = self.asm_emitter.CreateRegisters()
 
+    self.emitter.EmitDeclare('int', 'params_count_copy', 'params.kernel.count')
     self.asm_emitter.PushIndent(self.emitter.indent)
     self.asm_emitter.EmitAsmBegin()
 
diff --git a/meta/quantized_mul_kernels_arm_32.h b/meta/quantized_mul_kernels_arm_32.h
index 1619c9d..993c3cf 100644
--- a/meta/quantized_mul_kernels_arm_32.h
+++ b/meta/quantized_mul_kernels_arm_32.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -113,6 +114,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -165,9 +167,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -191,6 +193,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -249,9 +252,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -275,6 +278,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -336,9 +340,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -363,6 +367,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -437,9 +442,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[4]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -464,6 +469,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -542,9 +548,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -569,6 +575,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -653,9 +660,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
       "vst1.8 {d0[6]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -680,6 +687,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -767,9 +775,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -795,6 +803,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -858,9 +867,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -884,6 +893,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -955,9 +965,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -982,6 +992,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1065,9 +1076,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "vst1.8 {d0[2]}, [%[result]]!\n"
       "vst1.16 {d6[0]}, [r0]!\n"
       "vst1.8 {d6[2]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1093,6 +1104,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1184,9 +1196,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d8[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1212,6 +1224,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1290,9 +1303,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
       "vst1.8 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1317,6 +1330,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1407,9 +1421,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
       "vst1.16 {d8[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1435,6 +1449,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1546,9 +1561,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "vst1.8 {d6[2]}, [r0]!\n"
       "vst1.16 {d12[0]}, [r1]!\n"
       "vst1.8 {d12[2]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1575,6 +1590,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1615,9 +1631,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "cc",
         "memory");
 }
@@ -1639,6 +1655,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1683,9 +1700,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "cc", "memory");
 }
@@ -1707,6 +1724,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1757,9 +1775,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -1781,6 +1799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1834,9 +1853,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21",
         "cc", "memory");
@@ -1859,6 +1878,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1921,9 +1941,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "cc", "memory");
@@ -1946,6 +1966,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2011,9 +2032,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "cc", "memory");
@@ -2036,6 +2057,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2107,9 +2129,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "cc", "memory");
@@ -2132,6 +2154,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2207,9 +2230,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2233,6 +2256,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2283,9 +2307,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "cc", "memory");
 }
@@ -2307,6 +2331,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2365,9 +2390,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
         "memory");
@@ -2390,6 +2415,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2460,9 +2486,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "cc",
@@ -2486,6 +2512,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2564,9 +2591,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2590,6 +2617,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2650,9 +2678,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -2674,6 +2702,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2746,9 +2775,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2772,6 +2801,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2865,9 +2895,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2891,6 +2921,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2934,9 +2965,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "d12",
         "d13", "cc", "memory");
@@ -2959,6 +2990,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3006,9 +3038,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "d12", "d13", "cc", "memory");
@@ -3031,6 +3063,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3084,9 +3117,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -3109,6 +3142,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3165,9 +3199,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3191,6 +3225,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3258,9 +3293,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3284,6 +3319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3354,9 +3390,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3380,6 +3416,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3456,9 +3493,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3482,6 +3519,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3562,9 +3600,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3589,6 +3627,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3644,9 +3683,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "d12", "d13", "cc", "memory");
@@ -3669,6 +3708,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3732,9 +3772,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
@@ -3758,6 +3798,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3833,9 +3874,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3860,6 +3901,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3943,9 +3985,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3970,6 +4012,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4037,9 +4080,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -4062,6 +4105,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4141,9 +4185,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
@@ -4168,6 +4212,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4268,9 +4313,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
diff --git a/meta/quantized_mul_kernels_arm_64.h b/meta/quantized_mul_kernels_arm_64.h
index abda496..9433ab9 100644
--- a/meta/quantized_mul_kernels_arm_64.h
+++ b/meta/quantized_mul_kernels_arm_64.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -112,6 +113,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -163,9 +165,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -188,6 +190,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -244,9 +247,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v0.b}[2], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -270,6 +273,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -328,9 +332,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -354,6 +358,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -425,9 +430,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.b}[4], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -451,6 +456,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -525,9 +531,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -551,6 +557,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -630,9 +637,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
       "st1 {v0.b}[6], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -656,6 +663,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -737,9 +745,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -763,6 +771,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -826,9 +835,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -852,6 +861,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -921,9 +931,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -947,6 +957,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1026,9 +1037,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "st1 {v0.b}[2], [%x[result]], #1\n"
       "st1 {v3.h}[0], [x0], #2\n"
       "st1 {v3.b}[2], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1052,6 +1063,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1137,9 +1149,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v4.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1163,6 +1175,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1241,9 +1254,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
       "st1 {v2.b}[0], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1267,6 +1280,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1354,9 +1368,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
       "st1 {v4.h}[0], [x1], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1380,6 +1394,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1485,9 +1500,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "st1 {v3.b}[2], [x0], #1\n"
       "st1 {v6.h}[0], [x1], #2\n"
       "st1 {v6.b}[2], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1513,6 +1528,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1553,9 +1569,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "cc", "memory");
 }
 
@@ -1576,6 +1592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1619,9 +1636,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -1642,6 +1659,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1690,9 +1708,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
 }
@@ -1714,6 +1732,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1764,9 +1783,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
 }
@@ -1788,6 +1807,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1847,9 +1867,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
 }
@@ -1871,6 +1891,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1933,9 +1954,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
 }
@@ -1957,6 +1978,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2024,9 +2046,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
 }
@@ -2048,6 +2070,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2117,9 +2140,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
 }
@@ -2141,6 +2164,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2191,9 +2215,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -2214,6 +2238,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2270,9 +2295,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
 }
@@ -2294,6 +2319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2360,9 +2386,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2384,6 +2410,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2456,9 +2483,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
 }
@@ -2480,6 +2507,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2540,9 +2568,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
 }
@@ -2564,6 +2592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2633,9 +2662,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2657,6 +2686,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2744,9 +2774,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
         "memory");
@@ -2769,6 +2799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2812,9 +2843,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2836,6 +2867,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2882,9 +2914,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2906,6 +2938,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2957,9 +2990,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
@@ -2982,6 +3015,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3035,9 +3069,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
@@ -3060,6 +3094,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3124,9 +3159,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
@@ -3149,6 +3184,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3216,9 +3252,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
@@ -3241,6 +3277,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3313,9 +3350,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
@@ -3338,6 +3375,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3412,9 +3450,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
@@ -3437,6 +3475,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3492,9 +3531,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -3516,6 +3555,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3577,9 +3617,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
@@ -3602,6 +3642,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3673,9 +3714,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3698,6 +3739,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3775,9 +3817,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
@@ -3800,6 +3842,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3867,9 +3910,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
@@ -3892,6 +3935,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3968,9 +4012,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3993,6 +4037,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -4087,9 +4132,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
-- 
2.43.0


From daa36d0fc24a90135b0d275a8989d05d689f83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:55 +0000
Subject: [PATCH 17/24] fix: unsigned operands of at most 7 bits may be zero

DefaultKernel took an unsigned LHS range such as OperandRange<0, 127> for
one that excludes the value 0, and used the LhsNonzero kernels for it. In
those, uint8 0 is int8 -128 and the sum of two products of -128 by -128
overflows 16 bits: on NEON, a product of all-zero operands was not 0.
---
 internal/kernel_default.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/kernel_default.h b/internal/kernel_default.h
index 29b0991..2137805 100644
--- a/internal/kernel_default.h
+++ b/internal/kernel_default.h
@@ -51,6 +51,7 @@ struct DefaultKernel
                         (BitDepthParams::LhsRange::kMinValue >= 0),
                         (BitDepthParams::LhsRange::kMinValue > 0 ||
                          (BitDepthParams::LhsRange::kMaxValue <= 127 &&
+                          BitDepthParams::LhsRange::kMinValue < 0 &&
                           BitDepthParams::LhsRange::kMinValue > -128))> {};
 
 }  // end namespace gemmlowp
-- 
2.43.0


From 1c67f083bd4289da1b4206413a842b064520c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:13 +0000
Subject: [PATCH 18/24] fix: splitting many rows among many tasks overflowed
 int

rows * (n + 1) is an int product: with 33554437 rows and 64 tasks it
overflows, task boundaries go wrong and rows are left unwritten.
---
 internal/multi_thread_gemm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 916f15f..82c2928 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -701,7 +701,8 @@ void MultiThreadGemm(GemmContextType* context, const KernelBase& kernel,
     for (int n = 0; n < task_count; ++n) {
       int start_row = next_start_row;
       next_start_row = std::min(
-          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));
+          rows, RoundUp<KernelFormat::kRows>(static_cast<int>(
+                    static_cast<std::int64_t>(rows) * (n + 1) / task_count)));
 
       int block_rows = next_start_row - start_row;
       auto lhs_block = lhs.block(start_row, 0, block_rows, depth);
-- 
2.43.0


From fd7d2e9bcd0d31f106216b86f749fdcfcf4f2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:13 +0000
Subject: [PATCH 19/24] fix: size and positions of a packed block overflowed
 int

With 2^27 rows and depth 1 (padded to 16) the packed LHS of the x86
kernels is larger than INT_MAX bytes; the product aborted with
"allocation size overflow".
---
 internal/pack.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/pack.h b/internal/pack.h
index a9eb396..1dc1baf 100644
--- a/internal/pack.h
+++ b/internal/pack.h
@@ -52,8 +52,8 @@ class PackedSideBlock {
                   const BlockParams& block_params)
       : allocator_(allocator), pos_(0) {
     GetSideBlockParams(side, &params_, block_params);
-    data_handle_ =
-        allocator_->Reserve<std::uint8_t>(params_.l2_width * params_.l2_depth);
+    data_handle_ = allocator_->Reserve<std::uint8_t>(
+        static_cast<std::size_t>(params_.l2_width) * params_.l2_depth);
     sums_of_each_slice_handle_ =
         allocator_->Reserve<std::int32_t>(params_.l2_width);
   }
@@ -63,7 +63,8 @@ class PackedSideBlock {
   void seek_run(int start_width, int start_depth) const {
     int kernel_run_depth =
         std::min<int>(params_.l1_depth, params_.l2_depth - start_depth);
-    pos_ = params_.l2_width * start_depth + start_width * kernel_run_depth;
+    pos_ = static_cast<std::size_t>(params_.l2_width) * start_depth +
+           static_cast<std::size_t>(start_width) * kernel_run_depth;
   }
 
   void seek_next_cell() const { pos_ += KernelSideFormat::Cell::kSize; }
@@ -124,7 +125,7 @@ class PackedSideBlock {
   //
   // pos_ is mutable because during the computation we will want to
   // be able to iterate on the data in a const PackedSideBlock.
-  mutable int pos_;
+  mutable std::size_t pos_;
 };
 
 // WidthMajor and DepthMajor are custom phrases modelled after the
-- 
2.43.0


From 0800c514a3784496652cb4c5447d4dc56c52da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 20/24] fix: tell the compiler that a meta requantize kernel
 changes v9

The 64-bit ARM kernel for counts of 16 n + 7 keeps the output offset in v9
but did not list it as clobbered, so that whatever the caller kept in d9 was
lost.
---
 meta/transform_kernels_arm_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 86b5411..426b2d3 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -847,7 +847,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
         [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
-      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "cc", "memory");
+      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc", "memory");
 }
 
 template <>
-- 
2.43.0


From 3597a54b00217be977536f1552f5e8298fb823ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:54 +0000
Subject: [PATCH 21/24] fix: tell the compiler that the meta bias-add kernels
 change rows

The kernels count the rows down in an input operand, so that the compiler may
reuse the changed register: with the kernel inlined in a loop, the second
bias-add on the same number of rows ran past its buffers.
---
 meta/generators/transform_kernels_common.py |  2 +-
 meta/transform_kernels_arm_32.h             | 80 ++++++++++++---------
 meta/transform_kernels_arm_64.h             | 80 ++++++++++++---------
 3 files changed, 97 insertions(+), 65 deletions(-)

diff --git a/meta/generators/transform_kernels_common.py b/meta/generators/transform_kernels_common.py
index 436b40c..8602993 100644
--- a/meta/generators/transform_kernels_common.py
+++ b/meta/generators/transform_kernels_common.py
@@ -412,7 +412,7 @@ class BiasAdd(common.Transform1DKernelGenerator):
 
     self._Prepare(self.asm_emitter, registers)
 
-    rows = registers.MapParameter('rows', 'params_rows_copy')
+    rows = registers.MapOutputParameter('rows', 'params_rows_copy')
 
     self.asm_emitter.EmitNumericalLabel(1)
 
diff --git a/meta/transform_kernels_arm_32.h b/meta/transform_kernels_arm_32.h
index 64e744e..1477acc 100644
--- a/meta/transform_kernels_arm_32.h
+++ b/meta/transform_kernels_arm_32.h
@@ -5590,8 +5590,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5734,8 +5735,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5878,8 +5880,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6025,8 +6028,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6169,8 +6173,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6329,8 +6334,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6488,8 +6494,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6650,8 +6657,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6807,8 +6815,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6982,8 +6991,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7157,8 +7167,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7335,8 +7346,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7701,8 +7714,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7891,8 +7905,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8084,8 +8099,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 426b2d3..8364985 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -5625,8 +5625,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5766,8 +5767,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5907,8 +5909,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6051,8 +6054,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6192,8 +6196,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6349,8 +6354,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6506,8 +6512,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6666,8 +6673,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6820,8 +6828,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6992,8 +7001,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7164,8 +7174,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7339,8 +7350,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7697,8 +7710,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7884,8 +7898,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8074,8 +8089,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [rows] "+r"(params_rows_copy),
+        [output] "+r"(output)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
-- 
2.43.0


From 699a00ed1a0c32fd33374b1598734e06e62965e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:57 +0000
Subject: [PATCH 22/24] fix: tell the compiler which operands the kernels
 change

The NEON kernels scale dst_col_stride, and the SSE4.1 and AVX2 kernels count
down run_depth_cells, in operands declared as inputs only, so that the compiler
may reuse the changed registers: a kernel inlined in a loop over blocks wrote
its second block to the wrong place (NEON) or ran past its operands (x86).
---
 internal/kernel_avx.h  |  7 +++----
 internal/kernel_neon.h | 24 +++++++++++-------------
 internal/kernel_sse.h  | 12 +++++-------
 3 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/internal/kernel_avx.h b/internal/kernel_avx.h
index 2fe1249..1c55ef3 100644
--- a/internal/kernel_avx.h
+++ b/internal/kernel_avx.h
@@ -40,7 +40,7 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
            std::size_t run_depth) const override {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -344,10 +344,9 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%ymm0", "%ymm1", "%ymm2", "%ymm3", "%ymm4", "%ymm5", "%ymm6", "%ymm7",
         "%ymm8", "%ymm9", "%ymm10", "%ymm11", "%ymm12", "%ymm13", "%ymm14", "%ymm15", "%r12",
diff --git a/internal/kernel_neon.h b/internal/kernel_neon.h
index 9859637..4019f1b 100644
--- a/internal/kernel_neon.h
+++ b/internal/kernel_neon.h
@@ -272,10 +272,9 @@ struct NEON_32_Kernel12x4Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "r1",
         // note: someone on internet says that quad registers are
@@ -644,9 +643,9 @@ struct NEON_32_Kernel12x4Depth2Assuming12BitProducts : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride] "r"(dst_col_stride),
+        [start_depth] "r"(start_depth),
         [global_accumulators] "r"(&global_accumulators[0])
         :  // clobbers
         "cc", "memory", "r0", "r1",
@@ -908,10 +907,10 @@ struct NEON_32bit_GEMM_Int8Operands_LhsNonzero : KernelBase {
         "vst1.32 {d10, d11}, [r0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth)
+        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7",
         "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17",
@@ -1626,10 +1625,9 @@ struct NEON_64_Kernel12x8Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6",
         "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16",
@@ -1895,9 +1893,9 @@ struct NEON_64_Kernel12x8Depth4_dotprod : KernelBase {
         "st1 {v31.16b}, [x0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [depth] "+r"(depth)
+        [depth] "+r"(depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [dst_ptr] "r"(dst_ptr), [dst_col_stride] "r"(dst_col_stride), [start_depth] "r"(start_depth)
+        [dst_ptr] "r"(dst_ptr), [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22",
diff --git a/internal/kernel_sse.h b/internal/kernel_sse.h
index ba7959b..5f725f6 100644
--- a/internal/kernel_sse.h
+++ b/internal/kernel_sse.h
@@ -193,10 +193,9 @@ struct SSE4_32_Kernel4x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+g"(run_depth_cells)
         :  // inputs
-        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride),
-        [run_depth_cells] "g"(run_depth_cells)
+        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%eax", "%ecx");
@@ -219,7 +218,7 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
     (void)dst_row_stride;
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -501,11 +500,10 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
         [start_depth] "r"(start_depth),
-        [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%r12", "%r13", "%r14",
-- 
2.43.0


From f50b96141c88b7b6d2552a07f89b7965901e6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:36 +0000
Subject: [PATCH 23/24] fix: compute element offsets of matrices in
 std::ptrdiff_t

The offset of an element was computed as a product of ints, which overflows
for a matrix that spans more than 2^31 elements (many rows times a large
stride): the product then read and wrote outside of the matrices.
---
 internal/output_neon.h | 40 ++++++++++++++++++++--------------------
 internal/pack.h        |  3 ++-
 internal/pack_avx.h    |  4 ++--
 internal/pack_msa.h    |  6 +++---
 internal/pack_neon.h   |  8 ++++----
 internal/pack_sse.h    |  2 +-
 public/map.h           |  3 ++-
 7 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/internal/output_neon.h b/internal/output_neon.h
index 52ea1bc..3ef1998 100644
--- a/internal/output_neon.h
+++ b/internal/output_neon.h
@@ -346,7 +346,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<4, 4>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::int32_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    const std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 4; i++) {
       vst1q_s32(dst_ptr + i * stride, block.buf.reg[i]);
     }
@@ -388,13 +388,13 @@ struct StoreFinalOutputImpl<RegBlockInt32<8, 4>, DstType> {
                   int col) {
     std::int32_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1q_s32(dst_ptr + i * col_stride + 0, src.buf.reg[2 * i + 0]);
         vst1q_s32(dst_ptr + i * col_stride + 4, src.buf.reg[2 * i + 1]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       RegBlockInt32<4, 4> top;
       top.buf.reg[0] = src.buf.reg[0];
       top.buf.reg[1] = src.buf.reg[2];
@@ -459,13 +459,13 @@ struct StoreFinalOutputImpl<RegBlockInt32<8, 8>, DstType> {
                   int col) {
     std::int32_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 8; i++) {
         vst1q_s32(dst_ptr + i * col_stride, src.buf.reg[2 * i]);
         vst1q_s32(dst_ptr + i * col_stride + 4, src.buf.reg[2 * i + 1]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       RegBlockInt32<4, 4> top_left;
       top_left.buf.reg[0] = src.buf.reg[0];
       top_left.buf.reg[1] = src.buf.reg[2];
@@ -516,7 +516,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<4, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1q_s32(dst_ptr, src.buf.reg[0]);
     } else {
-      int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       vst1q_lane_s32(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1q_lane_s32(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1q_lane_s32(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -533,7 +533,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<1, 4>, DstType> {
     if (DstType::kOrder == MapOrder::RowMajor) {
       vst1q_s32(dst_ptr, src.buf.reg[0]);
     } else {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       vst1q_lane_s32(dst_ptr + 0 * col_stride, src.buf.reg[0], 0);
       vst1q_lane_s32(dst_ptr + 1 * col_stride, src.buf.reg[0], 1);
       vst1q_lane_s32(dst_ptr + 2 * col_stride, src.buf.reg[0], 2);
@@ -550,7 +550,7 @@ struct StoreFinalOutputImpl<RegBlockInt16<1, 4>, DstType> {
     if (DstType::kOrder == MapOrder::RowMajor) {
       vst1_s16(dst_ptr, src.buf.reg[0]);
     } else {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       vst1_lane_s16(dst_ptr + 0 * col_stride, src.buf.reg[0], 0);
       vst1_lane_s16(dst_ptr + 1 * col_stride, src.buf.reg[0], 1);
       vst1_lane_s16(dst_ptr + 2 * col_stride, src.buf.reg[0], 2);
@@ -588,7 +588,7 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1_u8(dst_ptr, src.buf.reg[0]);
     } else {
-      const int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       vst1_lane_u8(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1_lane_u8(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1_lane_u8(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -606,8 +606,8 @@ struct StoreFinalOutputImpl<RegBlockUint8<4, 4>, DstType> {
   static void Run(const RegBlockUint8<4, 4>& src, DstType* dst, int row,
                   int col) {
     std::uint8_t* dst_ptr = dst->data(row, col);
-    const int row_stride = dst->rows_stride();
-    const int col_stride = dst->cols_stride();
+    const std::ptrdiff_t row_stride = dst->rows_stride();
+    const std::ptrdiff_t col_stride = dst->cols_stride();
     for (int i = 0; i < 2; i++) {
       vst1_lane_u8(dst_ptr + 0 * row_stride + (2 * i + 0) * col_stride,
                    src.buf.reg[i], 0);
@@ -635,12 +635,12 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 4>, DstType> {
                   int col) {
     std::uint8_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1_u8(dst_ptr + i * col_stride, src.buf.reg[i]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       for (int i = 0; i < 4; i++) {
         std::uint8_t* col_ptr = dst_ptr + i;
         vst1_lane_u8(col_ptr + 0 * row_stride, src.buf.reg[i], 0);
@@ -699,7 +699,7 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 8>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::uint8_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    const std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 8; i++) {
       vst1_u8(dst_ptr + i * stride, block.buf.reg[i]);
     }
@@ -735,7 +735,7 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1_s8(dst_ptr, src.buf.reg[0]);
     } else {
-      const int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       vst1_lane_s8(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1_lane_s8(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1_lane_s8(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -753,8 +753,8 @@ struct StoreFinalOutputImpl<RegBlockInt8<4, 4>, DstType> {
   static void Run(const RegBlockInt8<4, 4>& src, DstType* dst, int row,
                   int col) {
     std::int8_t* dst_ptr = dst->data(row, col);
-    const int row_stride = dst->rows_stride();
-    const int col_stride = dst->cols_stride();
+    const std::ptrdiff_t row_stride = dst->rows_stride();
+    const std::ptrdiff_t col_stride = dst->cols_stride();
     for (int i = 0; i < 2; i++) {
       vst1_lane_s8(dst_ptr + 0 * row_stride + (2 * i + 0) * col_stride,
                    src.buf.reg[i], 0);
@@ -782,12 +782,12 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 4>, DstType> {
                   int col) {
     std::int8_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      const std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1_s8(dst_ptr + i * col_stride, src.buf.reg[i]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       for (int i = 0; i < 4; i++) {
         std::int8_t* col_ptr = dst_ptr + i;
         vst1_lane_s8(col_ptr + 0 * row_stride, src.buf.reg[i], 0);
@@ -846,7 +846,7 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 8>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::int8_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    const std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 8; i++) {
       vst1_s8(dst_ptr + i * stride, block.buf.reg[i]);
     }
diff --git a/internal/pack.h b/internal/pack.h
index 1dc1baf..416f101 100644
--- a/internal/pack.h
+++ b/internal/pack.h
@@ -168,7 +168,8 @@ class SideMap {
   }
   Scalar* data() const { return data_; }
   Scalar* data(int w, int d) const {
-    return data_ + w * width_stride() + d * depth_stride();
+    return data_ + static_cast<std::ptrdiff_t>(w) * width_stride() +
+           static_cast<std::ptrdiff_t>(d) * depth_stride();
   }
   Scalar operator()(int w, int d) const { return *data(w, d); }
   Scalar& operator()(int w, int d) { return *data(w, d); }
diff --git a/internal/pack_avx.h b/internal/pack_avx.h
index 1ef5ce1..8816be5 100644
--- a/internal/pack_avx.h
+++ b/internal/pack_avx.h
@@ -49,7 +49,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat> *dst, int start_width) {
     std::uint8_t *dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 16;
 
     __m256i one = _mm256_set1_epi16(1);
@@ -203,7 +203,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat> *dst, int start_width) {
     std::uint8_t *dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 8;
 
     __m128i one = _mm_set1_epi16(1);
diff --git a/internal/pack_msa.h b/internal/pack_msa.h
index 4072229..f40d2ce 100644
--- a/internal/pack_msa.h
+++ b/internal/pack_msa.h
@@ -48,7 +48,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     v16i8 src_lines[4 * kCells];
     for (int i = 0; i < 4 * kCells; i++) {
@@ -202,7 +202,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     v8i16 src_lines[kCells * 4];
     for (int i = 0; i < kCells; i++) {
@@ -372,7 +372,7 @@ class PackingRegisterBlock<WidthMajorUint8SideMap,
     std::int32_t* sums_ptr = dst->sums_of_each_slice() + start_width;
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data.
     v16i8 src_lines[Width];
     for (int i = 0; i < Width; i++) {
diff --git a/internal/pack_neon.h b/internal/pack_neon.h
index f113d9e..4cd0391 100644
--- a/internal/pack_neon.h
+++ b/internal/pack_neon.h
@@ -51,7 +51,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint8x16_t src_lines[4 * kCells];
     for (int i = 0; i < 4 * kCells; i++) {
@@ -152,7 +152,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint16x8_t src_lines[kCells * 4];
     for (int i = 0; i < kCells; i++) {
@@ -278,7 +278,7 @@ class PackingRegisterBlock<WidthMajorUint8SideMap,
     std::int32_t* sums_ptr = dst->sums_of_each_slice() + start_width;
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint8x16_t src_lines[Width];
     for (int i = 0; i < Width; i++) {
@@ -343,7 +343,7 @@ class PackingRegisterBlock<WidthMajorInt8SideMap,
     std::int32_t* sums_ptr = dst->sums_of_each_slice() + start_width;
     std::int8_t* dst_ptr = reinterpret_cast<std::int8_t*>(dst->current_data());
     const std::int8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     int8x16_t src_lines[Width];
     for (int i = 0; i < Width; i++) {
diff --git a/internal/pack_sse.h b/internal/pack_sse.h
index b729014..9735cf6 100644
--- a/internal/pack_sse.h
+++ b/internal/pack_sse.h
@@ -49,7 +49,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 8;
 
     __m128i one = _mm_set1_epi16(1);
diff --git a/public/map.h b/public/map.h
index 6810b2b..54780f9 100644
--- a/public/map.h
+++ b/public/map.h
@@ -60,7 +60,8 @@ class MatrixMap {
   int cols_stride() const { return kOrder == MapOrder::RowMajor ? 1 : stride_; }
   Scalar* data() const { return data_; }
   Scalar* data(int row, int col) const {
-    return data_ + row * rows_stride() + col * cols_stride();
+    return data_ + static_cast<std::ptrdiff_t>(row) * rows_stride() +
+           static_cast<std::ptrdiff_t>(col) * cols_stride();
   }
   Scalar& operator()(int row, int col) const { return *data(row, col); }
 
-- 
2.43.0


From f4247c5b753050ab65c54ee17ef8be6125190a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:36 +0000
Subject: [PATCH 24/24] fix: compute row offsets of the float result in
 std::ptrdiff_t

The conversion of the intermediate result to float multiplied the row index
and the leading dimension as ints, which overflows for a result that spans
more than 2^31 elements.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index f306b50..cc989d5 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -392,8 +392,8 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   if (transpose_c) {
     // Row major.
     for (int i = 0; i < m; ++i) {
-      float* dest_row = c + i * ldc;
-      std::int32_t* src_row = temp_c + i * ldc;
+      float* dest_row = c + static_cast<std::ptrdiff_t>(i) * ldc;
+      std::int32_t* src_row = temp_c + static_cast<std::ptrdiff_t>(i) * ldc;
       for (int j = 0; j < n; ++j) {
         dest_row[j] = static_cast<float>(src_row[j]) * c_offset;
       }
@@ -401,8 +401,8 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   } else {
     // Column major.
     for (int i = 0; i < n; ++i) {
-      float* dest_column = c + i * ldc;
-      std::int32_t* src_column = temp_c + i * ldc;
+      float* dest_column = c + static_cast<std::ptrdiff_t>(i) * ldc;
+      std::int32_t* src_column = temp_c + static_cast<std::ptrdiff_t>(i) * ldc;
       for (int j = 0; j < m; ++j) {
         dest_column[j] = static_cast<float>(src_column[j]) * c_offset;
       }
-- 
2.43.0

