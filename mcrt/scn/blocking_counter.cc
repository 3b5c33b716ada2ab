// P07: BlockingCounter under all schedules.
#include "mc.h"
#include <pthread.h>
#include "internal/multi_thread_gemm.h"
using gemmlowp::BlockingCounter;

namespace {
struct Arg {
  BlockingCounter* c;
  int decs;
  int* slots;   // one plain slot per decrement
  int* zeros;   // how many decrements reported zero (own slot)
  int round;
};
void* dec_thread(void* p) {
  Arg* a = (Arg*)p;
  for (int i = 0; i < a->decs; i++) {
    a->slots[i] = a->round + 1;        // plain write, must be visible after Wait
    if (a->c->DecrementCount()) (*a->zeros)++;
  }
  return nullptr;
}
// threads[t] performs d[t] decrements per round
void run(int nt, const int* d, int rounds, bool late_wait) {
  BlockingCounter c;
  for (int r = 0; r < rounds; r++) {
    int total = 0;
    for (int i = 0; i < nt; i++) total += d[i];
    c.Reset(total);
    static int slots[8][4];
    static int zeros[8];
    for (int i = 0; i < 8; i++) {
      zeros[i] = 0;
      for (int j = 0; j < 4; j++) slots[i][j] = 0;
    }
    Arg args[8];
    pthread_t th[8];
    for (int i = 0; i < nt; i++) {
      args[i] = Arg{&c, d[i], slots[i], &zeros[i], r};
      pthread_create(&th[i], nullptr, dec_thread, &args[i]);
    }
    if (late_wait) for (int i = 0; i < nt; i++) pthread_join(th[i], nullptr);
    c.Wait();
    for (int i = 0; i < nt; i++)
      for (int j = 0; j < d[i]; j++)
        MC_CHECK(slots[i][j] == r + 1, "Wait returned before decrement %d of thread %d in round %d", j, i, r);
    if (!late_wait) for (int i = 0; i < nt; i++) pthread_join(th[i], nullptr);
    int z = 0;
    for (int i = 0; i < nt; i++) {
      z += zeros[i];
      mc_outcome(zeros[i] * (i + 1));
    }
    MC_CHECK(z == (total > 0 ? 1 : 0), "%d decrements reported reaching zero (count %d)", z, total);
  }
}
}  // namespace

MC_SCENARIO(bc_1x1_r3) { int d[] = {1}; run(1, d, 3, false); }
MC_SCENARIO(bc_1x3_r2) { int d[] = {3}; run(1, d, 2, false); }
MC_SCENARIO(bc_2x1_r2) { int d[] = {1, 1}; run(2, d, 2, false); }
MC_SCENARIO(bc_2x2) { int d[] = {2, 2}; run(2, d, 1, false); }
MC_SCENARIO(bc_3x1) { int d[] = {1, 1, 1}; run(3, d, 1, false); }
MC_SCENARIO(bc_4x1) { int d[] = {1, 1, 1, 1}; run(4, d, 1, false); }
MC_SCENARIO(bc_5x1) { int d[] = {1, 1, 1, 1, 1}; run(5, d, 1, false); }
MC_SCENARIO(bc_8x1) { int d[] = {1, 1, 1, 1, 1, 1, 1, 1}; run(8, d, 1, false); }
MC_SCENARIO(bc_grow) { int d[] = {2, 1, 3, 1}; run(1, d, 1, false); run(4, d, 1, false); run(2, d, 1, false); }
MC_SCENARIO(bc_many_rounds) { int d[] = {1}; run(1, d, 6, false); }
MC_SCENARIO(bc_late) { int d[] = {1, 2}; run(2, d, 1, true); }
MC_SCENARIO(bc_zero) { int d[] = {0}; run(1, d, 2, false); }
