// P19: thread and memory use over all histories of products and settings. Allocation and thread
// creation are interposed (link with the WRAP and WRAPT flags).
#include "heap.h"
#include "gx.h"
#include <functional>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
namespace leg = gemmlowp::eight_bit_int_gemm;
static volatile int created, joined, finished, running, peak;
struct Start { void* (*f)(void*); void* a; };
static void* entry(void* p) {
  Start s = *(Start*)p; __real_free(p);
  int r = __atomic_add_fetch(&running, 1, __ATOMIC_SEQ_CST), q = peak;
  while (r > q && !__atomic_compare_exchange_n(&peak, (int*)&q, r, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
  void* x = s.f(s.a);
  __atomic_sub_fetch(&running, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(&finished, 1, __ATOMIC_SEQ_CST);
  return x;
}
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); int __real_pthread_join(pthread_t, void**);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  Start* s = (Start*)__real_malloc(sizeof(Start)); s->f = f; s->a = x;
  // the C library's own per-thread bookkeeping is cached across threads: not the library's memory
  int tag = heap::tag(); heap::tag() = 0;
  int r = __real_pthread_create(t, a, entry, s);
  heap::tag() = tag;
  if (!r) __atomic_add_fetch(&created, 1, __ATOMIC_SEQ_CST);
  return r;
}
int __wrap_pthread_join(pthread_t t, void** r) { int x = __real_pthread_join(t, r); if (!x) __atomic_add_fetch(&joined, 1, __ATOMIC_SEQ_CST); return x; }
}
static uint8_t L[1 << 16], R[1 << 16], D8[1 << 17]; static int32_t D[1 << 15], OFF[600]; static float DF[1 << 15];
struct Shape { int m, k, n; };
template <typename C> void product(C* c, Shape s, int kind) {
  MatrixMap<const uint8_t, MapOrder::RowMajor> lm(L, s.m, s.k); MatrixMap<const uint8_t, MapOrder::ColMajor> rm(R, s.k, s.n);
  mcx::calls();
  if (kind == 0) { MatrixMap<int32_t, MapOrder::ColMajor> dm(D, s.m, s.n); GemmWithOutputPipeline<uint8_t, int32_t, DefaultL8R8BitDepthParams>(c, lm, rm, &dm, -3, -77, std::tuple<>()); }
  else { OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = 1 << 30; q.result_shift = 9; q.result_offset_after_shift = 7;
    MatrixMap<uint8_t, MapOrder::RowMajor> dm(D8, s.m, s.n);
    GemmWithOutputPipelinePC<uint8_t, uint8_t, L8R8WithLhsNonzeroBitDepthParams>(c, lm, rm, &dm, ColMap(OFF, s.m), RowMap(OFF + 300, s.n), std::make_tuple(q, OutputStageSaturatingCastToUint8())); }
}
// An application-supplied pool that only counts
struct CountPool {
  std::vector<int> batch; Allocator al; bool run = true;
  template <typename T> void Execute(int n, T* t) { batch.push_back(n); for (int i = 0; i < n && run; i++) { t[i].local_allocator = &al; t[i].Run(); } }
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& t) { batch.push_back(t.size()); for (Task* x : t) { if (run) { x->local_allocator = &al; x->Run(); } delete x; } }
  void Execute(const std::vector<Task*>& t) { LegacyExecuteAndDestroyTasks(t); }
};
struct CountCtx : MultiThreadGemmContextBase { CountPool pool; CountPool* workers_pool() { return &pool; } };
static int hw() { long n = sysconf(_SC_NPROCESSORS_CONF); return n < 1 ? 1 : (int)n; }
struct Guard {  // nothing may be left of a history
  int c0, j0; long live0;
  Guard() : c0(created), j0(joined), live0(heap::live()) { heap::tag() = 1; }
  void end(const char* what) {
    heap::tag() = 0;
    if (created - c0 != joined - j0) mcx::fail("%s left %d of %d threads unjoined", what, (created - c0) - (joined - j0), created - c0);
    if (running) mcx::fail("%s left %d threads running", what, running);
    if (heap::live() != live0) mcx::fail("%s left %ld blocks (%zu bytes) of memory", what, heap::live() - live0, heap::bytes());
  }
};
struct Model {  // what the configuration allows
  int cap = 1, top = 1, c0, j0;
  Model() : c0(created), j0(joined) {}
  void set(int th) { cap = th <= 0 ? hw() : th; }
  template <typename F> void op(const char* name, const F& f) {
    if (cap > top) top = cap;
    int before = created, alive = (created - c0) - (joined - j0);
    f();
    int made = created - before, now = (created - c0) - (joined - j0);
    if (cap == 1 && made) mcx::fail("%s created %d threads although the maximum is 1", name, made);
    if (now > top - 1) mcx::fail("%s: %d worker threads exist, at most %d threads were ever configured", name, now, top);
    int need = cap - 1 - alive; if (need < 0) need = 0;
    if (made > need) mcx::fail("%s created %d threads while %d idle workers existed and the maximum is %d", name, made, alive, cap);
  }
};
template <typename F> void repeat(const char* name, const F& f) {  // repeating a product needs no more memory or threads
  f(); f();
  long b = heap::live(); int c = created; size_t y = heap::bytes();
  f();
  if (heap::live() == b && created == c && heap::bytes() == y) return;
  for (int i = 0; i < 12; i++) f();
  long b2 = heap::live(); int c2 = created; size_t y2 = heap::bytes();
  for (int i = 0; i < 6; i++) f();
  if (heap::live() > b2 && b2 > b) mcx::fail("every repetition of %s keeps more memory blocks (%ld, %ld, %ld)", name, b, b2, heap::live());
  if (heap::bytes() > y2 && y2 > y) mcx::fail("every repetition of %s keeps more memory (%zu, %zu, %zu bytes)", name, y, y2, heap::bytes());
  if (created > c2 && c2 > c) mcx::fail("every repetition of %s creates threads", name);
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  for (size_t i = 0; i < sizeof L; i++) { L[i] = code(i, 1, 2); if (!L[i]) L[i] = 1; R[i] = code(i, 3, 4); }
  for (int i = 0; i < 600; i++) OFF[i] = -(i % 256);
  struct Op { const char* name; std::function<void(GemmContext*, Model&)> f; };
  std::vector<Op> ops;
  auto P = [&](const char* n, Shape s, int kind) { ops.push_back({n, [=](GemmContext* c, Model& m) { m.op(n, [&] { product(c, s, kind); }); }}); };
  P("5x6x7", {5, 6, 7}, 0); P("32x64x64", {32, 64, 64}, 0); P("64x70x64", {64, 70, 64}, 1); P("20x200x120", {20, 200, 120}, 0); P("200x300x1", {200, 300, 1}, 1); P("9x0x9", {9, 0, 9}, 0); P("100x90x80", {100, 90, 80}, 1);
  const int np = ops.size();
  for (int th : {1, 2, 3, 5, 0}) {
    static const char* nm[] = {"auto threads", "1 thread", "2 threads", "3 threads", "", "5 threads"};
    ops.push_back({nm[th], [th](GemmContext* c, Model& m) { c->set_max_num_threads(th); m.set(th); }});
  }
  ops.push_back({"small caches", [](GemmContext* c, Model&) { c->set_l1_bytes_to_use(1000); c->set_l2_bytes_to_use(5000); }});
  const int n = ops.size();
#ifndef LEN
#define LEN 3
#endif
  const int len = T ? LEN + 1 : LEN;
  std::vector<int> h;
  std::function<void(int)> rec = [&](int d) {
    if (!d) {
      mcx::Mark mk;
      Guard g;
      { GemmContext c; Model m; heap::tag() = 1;
        for (int i : h) { mcx::note(" ; %s", ops[i].name); ops[i].f(&c, m); } }
      g.end("destroying the context");
      mcx::extra(0, 1); mcx::beat();
      return;
    }
    for (int i = 0; i < n; i++) { if (i >= np && !h.empty() && h.back() == i) continue; h.push_back(i); rec(d - 1); h.pop_back(); }
  };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (!mcx::begin("context: histories of %d operations starting with %s, %s", len, ops[i].name, ops[j].name)) continue;
    h = {i, j}; rec(len - 2); h.clear();
  }
  // plateau
  for (int th : {1, 2, 3, 4, 0}) for (int i = 0; i < np; i++) {
    if (!mcx::begin("repetitions of %s with %d threads", ops[i].name, th)) continue;
    Guard g;
    { GemmContext c; Model m; c.set_max_num_threads(th); m.set(th); repeat(ops[i].name, [&] { ops[i].f(&c, m); mcx::beat(); }); }
    g.end("destroying the context");
  }
  // number of parts
  for (int m : {1, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 96, 97, 128, 160}) for (int nn : {1, 5, 16, 17, 33, 64, 100}) {
    if (!mcx::begin("parts of products with %d rows and %d columns", m, nn)) continue;
    for (int k : {1, 16, 64, 127, 128, 129, 200, 255, 256, 300}) for (int th : {1, 2, 3, 4, 7, 16, 0}) {
      if (m * k > (1 << 16) || nn * k > (1 << 16)) continue;
      CountCtx c; c.set_max_num_threads(th);
      product(&c, {m, k, nn}, 0);
      int cap = th <= 0 ? hw() : th, big = m > nn ? m : nn;
      long vol = (long)m * k * nn / 65536; if (vol < 1) vol = 1;
      for (int b : c.pool.batch) {
        if (b > cap) mcx::fail("%dx%dx%d is cut into %d parts with a maximum of %d threads", m, k, nn, b, cap);
        if (b > 1 && b > (big + 15) / 16) mcx::fail("%dx%dx%d is cut into %d parts of less than 16 rows", m, k, nn, b);
        if (b > 1 && b > vol) mcx::fail("%dx%dx%d is cut into %d parts, there is work for %ld", m, k, nn, b, vol);
      }
      mcx::extra(1, c.pool.batch.size());
      mcx::outcome(c.pool.batch.empty() ? 0 : c.pool.batch[0]);
    }
    mcx::beat();
  }
  // number of parts of large products (the parts are counted, not run)
  for (int m : {17, 64, 200, 1000, 5000, 65536, 100000, 1 << 20}) for (int nn : {1, 4, 16, 63, 256}) {
    if (nn > m) continue;
    if (!mcx::begin("parts of large products with %d rows and %d columns", m, nn)) continue;
    for (int k : {1, 100, 1000, 4096, 8192, 8193, 20000, 65535, 65536, 100000, 1 << 20}) for (int th : {1, 2, 3, 7, 16, 0}) {
      if ((long)m * k > INT32_MAX || (long)nn * k > (1 << 21)) continue;
      static std::vector<uint8_t> big(1 << 21, 7);
      CountCtx c; c.set_max_num_threads(th); c.pool.run = false;
      if (th == 1 && (long)m * k * nn > (1 << 24)) continue;  // would be computed for real
      MatrixMap<const uint8_t, MapOrder::RowMajor> lm(L, m, k); MatrixMap<const uint8_t, MapOrder::ColMajor> rm(big.data(), k, nn);
      MatrixMap<int32_t, MapOrder::ColMajor> dm(D, m, nn);
      int cap = th <= 0 ? hw() : th;
      long vol = (long)m * k * nn / 65536;
      if (vol < 2 || cap < 2 || m < 17) continue;  // would be computed for real
      mcx::calls();
      GemmWithOutputPipeline<uint8_t, int32_t, DefaultL8R8BitDepthParams>(&c, lm, rm, &dm, -3, -77, std::tuple<>());
      for (int b : c.pool.batch) {
        if (b > cap) mcx::fail("%dx%dx%d is cut into %d parts with a maximum of %d threads", m, k, nn, b, cap);
        if (b > 1 && b > (m + 15) / 16) mcx::fail("%dx%dx%d is cut into %d parts of less than 16 rows", m, k, nn, b);
        if (b > 1 && b > vol) mcx::fail("%dx%dx%d is cut into %d parts, there is work for %ld", m, k, nn, b, vol);
      }
      mcx::extra(1, c.pool.batch.size());
      mcx::outcome(c.pool.batch.empty() ? 0 : c.pool.batch[0]);
    }
    mcx::beat();
  }
  // legacy interface
  struct LOp { const char* name; std::function<void(Model&)> f; };
  std::vector<LOp> lops;
  auto G = [&](const char* nm, Shape s, bool fl) { lops.push_back({nm, [=](Model& m) { mcx::calls(); m.op(nm, [&] {
    if (fl) leg::EightBitIntGemm(true, false, false, s.m, s.n, s.k, L, -1, s.k, R, -2, s.k, DF, 0.5f, s.m, leg::BitDepthSetting::A8B8);
    else leg::EightBitIntGemm(true, false, false, s.m, s.n, s.k, L, -1, s.k, R, -2, s.k, D8, 3, 1, 8, s.m, leg::BitDepthSetting::A8B8); }); }}); };
  G("u8 5x6x7", {5, 6, 7}, false); G("float 6x9x5", {6, 9, 5}, true); G("u8 64x70x64", {64, 70, 64}, false); G("float 40x90x60", {40, 90, 60}, true);
  for (int th : {1, 2, 3, 0}) { static const char* nm[] = {"auto threads", "1 thread", "2 threads", "3 threads"}; lops.push_back({nm[th], [th](Model& m) { leg::SetMaxNumThreads(th); m.set(th); }}); }
  lops.push_back({"free", [](Model& m) { leg::FreePersistentResources(); int left = (created - m.c0) - (joined - m.j0); if (left || running) mcx::fail("releasing the persistent resources left %d threads", left); if (heap::live()) mcx::fail("releasing the persistent resources left %ld blocks (%zu bytes) of memory", heap::live(), heap::bytes()); m.set(1); m.top = 1; }});
  const int ln = lops.size();
  std::function<void(int)> lrec = [&](int d) {
    if (!d) {
      mcx::Mark mk;
      Guard g; Model m;
      for (int i : h) { mcx::note(" ; %s", lops[i].name); lops[i].f(m); }
      leg::FreePersistentResources();
      g.end("releasing the persistent resources");
      mcx::extra(0, 1); mcx::beat();
      return;
    }
    for (int i = 0; i < ln; i++) { h.push_back(i); lrec(d - 1); h.pop_back(); }
  };
  for (int i = 0; i < ln; i++) for (int j = 0; j < ln; j++) {
    if (!mcx::begin("legacy interface: histories of %d calls starting with %s, %s", len + 1, lops[i].name, lops[j].name)) continue;
    h = {i, j}; lrec(len - 1); h.clear();
  }
}
MCX_MAIN
