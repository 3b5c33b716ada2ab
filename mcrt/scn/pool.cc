// P06: WorkersPool under all schedules.
#include "mc.h"
#include <pthread.h>
#include <vector>
#include "internal/multi_thread_gemm.h"
using namespace gemmlowp;

namespace {
struct Log {
  int runs;        // plain: written by the task, read by the caller
  int value;
  int self;
  Allocator* alloc;
  bool deleted;
};
// An allocator in use by a running task (to detect sharing).
struct Busy { Allocator* a; int n; };

struct T : Task {
  Log* log; int v; bool use_alloc; int* input;
  T(Log* l, int vv, bool ua, int* in) : log(l), v(vv), use_alloc(ua), input(in) {}
  ~T() { log->deleted = true; }
  void Run() override {
    log->runs++;
    log->self = mc_self();
    log->alloc = local_allocator;
    int in = *input;                       // written by the caller before Execute
    if (use_alloc) {
      auto h = local_allocator->Reserve<std::uint8_t>(16);
      local_allocator->Commit();
      std::uint8_t* p = local_allocator->GetPointer<std::uint8_t>(h);
      for (int i = 0; i < 16; i++) p[i] = v;
      mc_point();
      for (int i = 0; i < 16; i++)
        if (p[i] != (std::uint8_t)v) mc_fail("scratch memory of a running task was overwritten");
      local_allocator->Decommit();
    }
    log->value = v + in;
  }
};

void check(Log* l, int n, int base, int in, bool legacy) {
  for (int i = 0; i < n; i++) {
    MC_CHECK(l[i].runs == 1, "task %d of %d ran %d times", i, n, l[i].runs);
    MC_CHECK(l[i].value == base + i + in, "effects of task %d not visible (or stale input)", i);
    MC_CHECK(l[i].alloc != nullptr, "task %d got no allocator", i);
    for (int j = 0; j < i; j++)
      MC_CHECK(l[i].alloc != l[j].alloc, "tasks %d and %d share an allocator", i, j);
    if (legacy) MC_CHECK(l[i].deleted, "task %d was not destroyed", i);
    mc_outcome(l[i].self);
  }
}

// One batch through the legacy entry point (what MultiThreadGemm uses).
void legacy_batch(WorkersPool* p, int n, int base, bool ua) {
  static Log logs[8];
  static int input;
  for (int i = 0; i < n; i++) logs[i] = Log();
  input = base * 3 + 1;
  std::vector<Task*> v;
  for (int i = 0; i < n; i++) v.push_back(new T(&logs[i], base + i, ua, &input));
  p->Execute(v);
  check(logs, n, base, input, true);
}
// One batch through the array entry point.
void array_batch(WorkersPool* p, int n, int base, bool ua) {
  static Log logs[8];
  static int input;
  for (int i = 0; i < n; i++) logs[i] = Log();
  input = base * 3 + 1;
  std::vector<T> v;
  v.reserve(n);
  for (int i = 0; i < n; i++) v.emplace_back(&logs[i], base + i, ua, &input);
  p->Execute(n, v.data());
  check(logs, n, base, input, false);
}
void seq(std::initializer_list<int> sizes, bool ua, bool arr) {
  {
    WorkersPool p;
    int b = 10, mx = 0;
    for (int n : sizes) {
      if (arr) array_batch(&p, n, b, ua); else legacy_batch(&p, n, b, ua);
      b += 10;
      if (n > mx) mx = n;
      MC_CHECK(mc_threads_created() == mx - 1, "%d threads created for batches of at most %d tasks",
               mc_threads_created(), mx);
    }
  }
  MC_CHECK(mc_threads_unjoined() == 0, "pool destruction left %d threads", mc_threads_unjoined());
  MC_CHECK(mc_heap_blocks() == 0, "pool leaked %zu blocks", mc_heap_blocks());
}
}  // namespace

// every history of batch sizes up to a length, as program choices
MC_SCENARIO(pool_hist2) { int a = 1 + mc_choose(3), b = 1 + mc_choose(3); seq({a, b}, false, mc_choose(2)); }
MC_SCENARIO(pool_hist3) { int a = 1 + mc_choose(2), b = 1 + mc_choose(2), c = 1 + mc_choose(2); seq({a, b, c}, false, false); }
MC_SCENARIO(pool_1) { seq({1}, false, false); }
MC_SCENARIO(pool_2) { seq({2}, false, false); }
MC_SCENARIO(pool_2_2) { seq({2, 2}, false, false); }
MC_SCENARIO(pool_2_2_arr) { seq({2, 2}, false, true); }
MC_SCENARIO(pool_3) { seq({3}, false, false); }
MC_SCENARIO(pool_3_arr) { seq({3}, true, true); }
MC_SCENARIO(pool_3_2) { seq({3, 2}, false, false); }
MC_SCENARIO(pool_2_3) { seq({2, 3}, false, false); }
MC_SCENARIO(pool_4) { seq({4}, false, false); }
MC_SCENARIO(pool_4_arr) { seq({4}, false, true); }
MC_SCENARIO(pool_5) { seq({5}, false, mc_choose(2)); }
MC_SCENARIO(pool_2_5_3) { seq({2, 5, 3}, false, mc_choose(2)); }
MC_SCENARIO(pool_6) { seq({6}, false, false); }
MC_SCENARIO(pool_2_2_2) { seq({2, 2, 2}, false, false); }
MC_SCENARIO(pool_alloc) { seq({2, 2}, true, false); }
MC_SCENARIO(pool_alloc3) { seq({3}, true, false); }
MC_SCENARIO(pool_destroy_idle) { WorkersPool p; }

// Two pools used one after the other / nested from a task.
namespace {
struct Nest : Task {
  WorkersPool* inner; int* out;
  Nest(WorkersPool* i, int* o) : inner(i), out(o) {}
  void Run() override { legacy_batch(inner, 2, 50, false); *out = 1; }
};
}
MC_SCENARIO(pool_two_pools) {
  {
    WorkersPool a, b;
    legacy_batch(&a, 2, 1, false);
    legacy_batch(&b, 2, 20, false);
    legacy_batch(&a, 2, 40, false);
  }
  MC_CHECK(mc_threads_unjoined() == 0, "threads left");
}
