// P09: concurrent callers of the legacy interface, all interleavings.
#include "mc.h"
#include <pthread.h>
#include <stdint.h>
#include <initializer_list>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
using namespace gemmlowp::eight_bit_int_gemm;
namespace {
const int MT = 4;
struct Buf { unsigned char a[2048], b[4096], c8[2048]; float cf[2048]; };
Buf buf[MT];
int rdiv(int x, int s) { return x >= 0 ? (x + (1 << s >> 1)) >> s : -((-x + (1 << s >> 1)) >> s); }
// op: 0 u8 small, 1 float small, 2 free, 3 two threads, 4 one thread, 5 u8 that uses two threads, 6 float that uses two threads, 7 larger float, 8 automatic number of threads
void op(int id, int o) {
  Buf& u = buf[id];
  mc_note("caller %d: operation %d", id, o);
  if (o == 2) return FreePersistentResources();
  if (o == 3) return SetMaxNumThreads(2);
  if (o == 4) return SetMaxNumThreads(1);
  if (o == 8) return SetMaxNumThreads(0);
  const bool fl = o == 1 || o == 6 || o == 7;
  int m = 3, n = 2, k = 5;
  if (o == 7) { m = 5; n = 6; k = 3; }
  if (o == 5 || o == 6) { m = 32; n = 64; k = 64; }
  for (int i = 0; i < m * k; i++) u.a[i] = i * 7 + id * 13 + o;
  for (int i = 0; i < n * k; i++) u.b[i] = i * 5 + id * 3 + o * 11;
  const int ao = -3 - id, bo = 4 + id, co = 100 * id, cm = 1 + id, cs = 10 + (k > 5 ? 4 : 0);
  const bool tc = id & 1;
  const int ldc = tc ? n : m;
  for (int i = 0; i < m * n; i++) { u.c8[i] = 99; u.cf[i] = -99; }
  if (fl) EightBitIntGemm(true, false, tc, m, n, k, u.a, ao, k, u.b, bo, k, u.cf, 0.5f * (id + 1), ldc, BitDepthSetting::A8B8);
  else EightBitIntGemm(true, false, tc, m, n, k, u.a, ao, k, u.b, bo, k, u.c8, co, cm, cs, ldc, BitDepthSetting::A8B8);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    int s = 0;
    for (int p = 0; p < k; p++) s += (u.a[i * k + p] + ao) * (u.b[j * k + p] + bo);
    const int at = tc ? i * n + j : j * m + i;
    if (fl) {
      float w = (float)s * (0.5f * (id + 1));
      MC_CHECK(u.cf[at] == w, "caller %d: element (%d,%d) is %g, alone it is %g", id, i, j, u.cf[at], w);
    } else {
      int w = rdiv((s + co) * cm, cs); w = w < 0 ? 0 : w > 255 ? 255 : w;
      MC_CHECK(u.c8[at] == w, "caller %d: element (%d,%d) is %d, alone it is %d", id, i, j, u.c8[at], w);
    }
    mc_outcome(s);
  }
}
struct Prog { int id, n, o[3]; };
void* run(void* v) { Prog* p = (Prog*)v; for (int i = 0; i < p->n; i++) op(p->id, p->o[i]); return 0; }
Prog progs[MT];
void concurrently(int n) {
  pthread_t t[MT];
  for (int i = 1; i < n; i++) pthread_create(&t[i], 0, run, &progs[i]);
  run(&progs[0]);
  for (int i = 1; i < n; i++) pthread_join(t[i], 0);
}
void set(int id, int a, int b = -1, int c = -1) { Prog& p = progs[id]; p.id = id; p.n = 0; for (int x : {a, b, c}) if (x >= 0) p.o[p.n++] = x; }
void end() {
  FreePersistentResources();
  MC_CHECK(mc_threads_unjoined() == 0, "releasing the resources left %d threads", mc_threads_unjoined());
  MC_CHECK(mc_heap_blocks() == 0, "releasing the resources left %zu blocks (%zu bytes) of memory", mc_heap_blocks(), mc_heap_bytes());
  FreePersistentResources();  // releasing twice is harmless
  op(0, 1);                   // and the interface is usable again
  FreePersistentResources();
  MC_CHECK(mc_heap_blocks() == 0, "memory left after reuse");
}
}  // namespace
const int SMALL[] = {0, 1, 2, 3, 7, 8};
MC_SCENARIO(leg_pairs_1) {  // one operation each, every pair
  set(0, SMALL[mc_choose(6)]); set(1, SMALL[mc_choose(6)]);
  concurrently(2); end();
}
MC_SCENARIO(leg_pairs_2) {  // two operations each
  int a = mc_choose(6), b = mc_choose(6), c = mc_choose(6), d = mc_choose(6);
  set(0, SMALL[a], SMALL[b]); set(1, SMALL[c], SMALL[d]);
  concurrently(2); end();
}
MC_SCENARIO(leg_triples) {  // three callers
  int a = mc_choose(6), b = mc_choose(6), c = mc_choose(6);
  set(0, SMALL[a]); set(1, SMALL[b]); set(2, SMALL[c]);
  concurrently(3); end();
}
// products that use worker threads, against every other operation
MC_SCENARIO(leg_workers) {
  SetMaxNumThreads(2);
  set(0, 5); set(1, SMALL[mc_choose(6)]);
  concurrently(2); end();
}
MC_SCENARIO(leg_workers_float) {
  SetMaxNumThreads(2);
  set(0, 6, 2); set(1, 3, SMALL[mc_choose(6)]);
  concurrently(2); end();
}
MC_SCENARIO(leg_workers_both) {
  SetMaxNumThreads(2);
  set(0, 5); set(1, 6);
  concurrently(2); end();
}
MC_SCENARIO(leg_workers_resize) {
  set(0, 3, 5, 4); set(1, 2, 5);
  concurrently(2); end();
}
