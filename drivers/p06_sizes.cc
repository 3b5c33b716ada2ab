// P06: batches of every size, larger than the interleaving explorer can take, on real threads: all pairs of batch
// sizes (growth, shrinkage) through all entry points.
#define GEMMLOWP_VERIF_BUSYWAIT_NOPS 2000
#include "mcx.h"
#include <atomic>
#include <memory>
#include "internal/multi_thread_gemm.h"
using namespace gemmlowp;
struct Log { std::atomic<int> runs{0}, deleted{0}; Allocator* alloc = nullptr; std::atomic<int> value{0}; };
static std::atomic<int> running{0};
struct T : Task {
  Log* log; int v;
  T(Log* l, int x) : log(l), v(x) {}
  ~T() { log->deleted++; }
  void Run() override {
    running++;
    log->runs++;
    log->alloc = local_allocator;
    auto h = local_allocator->Reserve<std::uint8_t>(100 + v);
    local_allocator->Commit();
    std::uint8_t* p = local_allocator->GetPointer<std::uint8_t>(h);
    memset(p, v, 100 + v);
    if (v % 3 == 0) sched_yield();
    for (int i = 0; i < 100 + v; i++) if (p[i] != (std::uint8_t)v) log->runs += 1000;
    local_allocator->Decommit();
    log->value = v * 7 + 1;
    running--;
  }
};
static void batch(WorkersPool* p, int n, int way) {
  std::vector<Log> logs(n);
  mcx::calls();
  if (way == 2) {
    std::vector<T> v; v.reserve(n);
    for (int i = 0; i < n; i++) v.emplace_back(&logs[i], i);
    p->Execute(n, v.data());
    if (running) mcx::fail("the call for %d tasks returned while %d of them were running", n, (int)running);
    for (int i = 0; i < n; i++) if (logs[i].deleted) mcx::fail("task %d of %d belongs to the caller but was destroyed", i, n);
  } else {
    std::vector<Task*> v;
    for (int i = 0; i < n; i++) v.push_back(new T(&logs[i], i));
    if (way == 0) p->Execute(v); else p->LegacyExecuteAndDestroyTasks(v);
    if (running) mcx::fail("the call for %d tasks returned while %d of them were running", n, (int)running);
    for (int i = 0; i < n; i++) if (logs[i].deleted != 1) mcx::fail("task %d of %d was destroyed %d times", i, n, (int)logs[i].deleted);
  }
  for (int i = 0; i < n; i++) {
    if (logs[i].runs >= 1000) mcx::fail("the scratch memory of task %d of %d was overwritten while it ran", i, n);
    if (logs[i].runs != 1) mcx::fail("task %d of %d ran %d times", i, n, (int)logs[i].runs);
    if (logs[i].value != i * 7 + 1) mcx::fail("task %d of %d had not finished when the call returned", i, n);
    if (!logs[i].alloc) mcx::fail("task %d of %d got no allocator", i, n);
    for (int j = 0; j < i; j++) if (logs[i].alloc == logs[j].alloc) mcx::fail("tasks %d and %d of %d got the same allocator", j, i, n);
  }
  mcx::elements(n);
  mcx::beat();
}
void mcx::enumerate(const std::string& tier) {
  const int N = tier == "thorough" ? 40 : 18;
  for (int way = 0; way < 3; way++) for (int a = 1; a <= N; a++) {
    if (!mcx::begin("a batch of %d, then of every size to %d, and back, entry point %d", a, N, way)) continue;
    for (int b = 1; b <= N; b++) {
      mcx::Mark mk; mcx::note(" second batch %d", b);
      WorkersPool p;
      batch(&p, a, way); batch(&p, b, way); batch(&p, a, (way + 1) % 3);
    }
    mcx::outcome(a * 3 + way);
  }
  for (int n : {32, 33, 63, 64, 65, 100, 128, 129}) {
    if (!mcx::begin("batches of %d", n)) continue;
    WorkersPool p;
    for (int way = 0; way < 3; way++) { batch(&p, n, way); batch(&p, 2, way); }
    mcx::outcome(n * 3 + 1000);
  }
}
MCX_MAIN
