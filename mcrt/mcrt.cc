// mcrt: a stateless model checker run-time.
//
// The code under test is compiled with -fsanitize=thread and linked with this
// file INSTEAD of libtsan.  Threads are fibres under a controlled scheduler;
// see DESIGN.md for the model.  This file itself is not instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern char __data_start, _end;
}

#define NOINSTR __attribute__((no_sanitize("thread")))
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

namespace {

const int MAXT = 12;           // threads per execution (main included)
const int MAXOBJ = 4096;       // sync objects / atomic locations per execution
const int MAXDEV = 60;         // deviations in a job
const int MAXCH = 20000;       // recorded choice points per execution
const int MAXKEYS = 2048;
const size_t STACK = 512 * 1024;
const size_t REGION = 12u << 20;         // model heap per thread
const size_t ARENA = REGION * MAXT;
const int UNBOUNDED = 1000;    // preemption bound meaning "none"
const int MAXHIST = 24;        // store history per atomic location
const u32 JOBCAP = 1u << 21;

struct VC {
  u16 c[MAXT];
};
inline void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < MAXT; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum TState { T_FREE, T_RUN, T_BLOCK, T_COND, T_JOIN, T_DONE };

struct Fibre {
  void* sp;
  char* stack;
  TState st;
  const void* wait_obj;      // mutex / cond / guard address
  const void* wait_mutex;
  bool timed;                // in a timed wait
  bool signalled, timed_out;
  int join_target;
  bool detached, joined;
  bool yielded;              // must let another thread step first
  // fairness between several spinning threads: threads scheduled since this
  // one's previous yield, and threads that must step before it runs again
  u32 since, owes;
  bool since_valid;
  VC vc, acq_pend, rel_fence;
  bool have_rel_fence;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  void* tsd[MAXKEYS];
  u64 th;                    // hash of the thread's causal history
  size_t atop;               // heap bump pointer of this thread's region
  // spin detection
  const void* spin_addr;
  u64 spin_val;
  int spin_n;
  int where;                 // kind of scheduling point the thread is at
};

struct Store {
  u64 val;
  u16 clk;
  u8 tid;
  u8 init;
  bool rel_any;
  VC sync;
};

struct Obj {
  const void* addr;
  u8 kind;  // 1 mutex 2 cond 3 atomic 4 guard 5 sem
  u8 inited, destroyed;
  int owner;  // mutex owner (-1 none)
  int rec;
  int mtype;
  long count;
  u64 trace;  // hash of the per-object access order
  u32 ordinal;
  VC sync;
  int head_tid;
  // store history for atomics
  int nh, base;
  Store h[MAXHIST];
  int seen[MAXT];
};

struct Cell {
  u16 w_clk;
  u8 w_tid;   // 0xff none
  u8 flags;   // 1 freed 2 unallocated 4 last write atomic
  u16 r_clk;  // or index when r_tid==0xfe
  u8 r_tid;   // 0xff none
  u8 pad;
};
struct ShPage {
  u64 page;
  u32 gen;
  Cell* cells;
};
const u32 SHN = 1 << 15;

struct Choice {
  u8 n, c;
  u8 kind;
  u8 alt_ok[16];  // alternatives (by index) that are within budget (all, by construction)
};

struct Job {
  u16 n;
  struct {
    u16 pos;
    u8 alt;
    u8 opts;
  } d[MAXDEV];
};

struct Shared {
  volatile int lock;
  volatile int stop;
  volatile int active;
  volatile u32 njobs;
  u64 execs, pruned, states, transitions, nodes, violations, dropped;
  u64 maxch, maxsteps;
  u64 hb_distinct, out_distinct;
  u64 preempt_used[8];
  u64 kinds[16];
  char vmsg[4096];
  char vdev[4096];
  Job jobs[JOBCAP];
};
const u32 HSET = 1u << 26;

struct Conf {
  int preempt, spurious, stale;
  int tsd_orders;
  double max_seconds;
  bool verbose;
  u64 max_execs;
};

struct RT {
  bool active;       // an execution is running
  int inrt;          // inside the run-time (hooks ignored)
  int cur;
  int nthreads;
  Fibre f[MAXT];
  Obj obj[MAXOBJ];
  int nobj;
  u32 objhash[MAXOBJ * 2];
  // choices
  Choice ch[MAXCH];
  int nch;
  Job job;
  int jobi;
  int used_preempt, used_spur, used_stale;
  bool prune, pruned;
  int from;
  u64 newstates;
  long steps;
  u64 visible;
  void* main_sp;
  // outcome
  bool failed;
  char msg[2048];
  char ctxinfo[1024];
  u64 outcome;
  bool expect_abort;
  bool aborted;
  // heap
  char* arena;
  size_t heap_bytes, heap_blocks;
  // shadow
  ShPage sh[SHN];
  u32 gen;
  u32 nsh;
  Cell* cellpool;
  u32 cellpool_used;
  u32 cellpool_cap;
  VC rvc[60000];
  u32 nrvc;
  // keys
  struct {
    bool used;
    void (*d)(void*);
  } keys[MAXKEYS];
  int nkeys;
  int live_keys;
  int created, peak;
  // output capture
  char out[1 << 16];
  int outn;
  // trace of events (for replay output)
  bool tracing;
  char* stacks;
  char* snap;
  size_t snapn;
  u64 objord;
};

RT* g;        // mmapped
Shared* S;    // shared memory
u64* hset_hb;
u64* hset_out;
u64* hset_state;
Conf conf;
void (*scenario_fn)();
const char* scenario_name;
McScenario* scn_list;

u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

extern "C" void mc_switch_to(void** save, void* to);
#define switch_to mc_switch_to
asm(R"(
.text
.globl mc_switch_to
.type mc_switch_to,@function
mc_switch_to:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

__attribute__((noreturn)) void end_execution() {
  // Abandon all fibres, go back to the explorer.
  g->active = false;
  g->inrt = 1;
  void* dummy;
  switch_to(&dummy, g->main_sp);
  __builtin_unreachable();
}

void describe(char* buf, size_t n) {
  size_t k = 0;
  for (int i = 0; i < g->nthreads && k + 80 < n; i++) {
    static const char* nm[] = {"free", "runnable", "blocked", "cond-wait", "joining", "done"};
    k += snprintf(buf + k, n - k, "T%d:%s ", i, nm[g->f[i].st]);
  }
}

__attribute__((noreturn, format(printf, 1, 2))) void violation(const char* fmt, ...) {
  g->inrt = 1;
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(g->msg, sizeof g->msg, "[T%d] ", g->cur);
  vsnprintf(g->msg + k, sizeof g->msg - k, fmt, ap);
  va_end(ap);
  describe(g->ctxinfo, sizeof g->ctxinfo);
  g->failed = true;
  end_execution();
}

void trace_ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_ev(const char* fmt, ...) {
  if (!g->tracing) return;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(b, sizeof b, "%6ld T%d ", g->steps, g->cur);
  k += vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  if (k > (int)sizeof b - 2) k = sizeof b - 2;
  b[k++] = '\n';
  ssize_t r = write(2, b, k);
  (void)r;
}

// ---------------------------------------------------------------- choices
bool hset_add(u64* t, u64 h);
int choose(int n, int kind, int extra = 0) {
  if (n <= 1) return 0;
  if (n > 255) n = 255;
  if (g->nch >= MAXCH) violation("execution too long: more than %d choice points", MAXCH);
  if (g->prune && g->nch >= g->from && kind == 0) {
    // A scheduling state: same causal history of every thread, same budgets.
    u64 k = 0;
    for (int i = 0; i < g->nthreads; i++)
      k += mix(mix(mix(i + 1, g->f[i].th), ((g->f[i].where * 8 + g->f[i].st) * 2 + g->f[i].yielded) * 2 + (g->f[i].spin_n >= 3)),
               g->f[i].since_valid ? 1 + g->f[i].since + ((u64)g->f[i].owes << 32) : 0);
    k = mix(k, g->used_spur * 64 + g->used_stale);
    k = mix(k, mix(g->cur + 1, (conf.preempt < UNBOUNDED ? g->used_preempt * 2 : 0) + extra));
    if (!hset_add(hset_state, k)) {
      g->pruned = true;
      end_execution();
    }
    g->newstates++;
  }
  int pos = g->nch++;
  int c = 0;
  if (g->jobi < g->job.n && g->job.d[g->jobi].pos == pos) {
    if (g->job.d[g->jobi].opts != n)
      violation("INTERNAL: nondeterministic replay (choice %d has %d options, expected %d)", pos, n,
                g->job.d[g->jobi].opts);
    c = g->job.d[g->jobi].alt;
    g->jobi++;
  }
  g->ch[pos].n = n;
  g->ch[pos].c = c;
  g->ch[pos].kind = kind;
  return c;
}

// ---------------------------------------------------------------- scheduling
void step() {
  g->steps++;
  if (g->steps > 3000000) {
    violation("livelock: no completion after %ld steps", g->steps);
  }
}

void run_fibre(int t) {
  int me = g->cur;
  if (t == me) return;
  g->cur = t;
  switch_to(&g->f[me].sp, g->f[t].sp);
}

// Choose the next thread to run.  cur_enabled: the current thread could go on.
// voluntary: the current thread yields (sleep / spin): switching is free, and
// another thread must step first if there is one.
void schedule(bool cur_enabled, bool voluntary, int tag = 0) {
  step();
  int opts[2 * MAXT], cost[2 * MAXT], n = 0;  // cost: 0 free, 1 preempt, 2 spurious, 3 timeout
  int me = g->cur;
  bool other = false;
  g->f[me].where = 1 + cur_enabled * 2 + voluntary + tag;
  u32 runnable = 0;
  for (int i = 0; i < g->nthreads; i++) {
    if (g->f[i].st == T_RUN) runnable |= 1u << i;
    if (i != me && g->f[i].st == T_RUN && !g->f[i].yielded) other = true;
  }
  if (voluntary) {
    Fibre& f = g->f[me];
    if (other) f.yielded = true;
    f.owes = f.since_valid ? runnable & ~f.since & ~(1u << me) : 0;
    f.since = 0;
    f.since_valid = true;
  } else {
    g->f[me].since_valid = false;
    g->f[me].owes = 0;
  }
  auto held = [&](int i) { return g->f[i].yielded || (g->f[i].owes & runnable); };
  bool me_ok = cur_enabled && !held(me);
  if (me_ok) {
    opts[n] = me;
    cost[n++] = 0;
  }
  for (int i = 0; i < g->nthreads; i++) {
    if (i == me || g->f[i].st != T_RUN || held(i)) continue;
    if (me_ok && g->used_preempt >= conf.preempt) continue;
    opts[n] = i;
    cost[n++] = me_ok ? 1 : 0;
  }
  if (n == 0) {
    // only yielded threads are left
    for (int i = 0; i < g->nthreads; i++) g->f[i].yielded = false, g->f[i].owes = 0;
    if (cur_enabled) {
      opts[n] = me;
      cost[n++] = 0;
    }
    for (int i = 0; i < g->nthreads; i++)
      if (i != me && g->f[i].st == T_RUN) {
        opts[n] = i;
        cost[n++] = 0;
      }
  }
  bool timed_forced = false;
  if (n == 0) {
    for (int i = 0; i < g->nthreads; i++)
      if (g->f[i].st == T_COND && g->f[i].timed) {
        opts[n] = i;
        cost[n++] = 3;
        timed_forced = true;
      }
  }
  if (n == 0) {
    char b[900];
    describe(b, sizeof b);
    violation("deadlock: no thread can run (%s)", b);
  }
  if (!timed_forced) {
    // spurious wake-ups / time-outs as extra alternatives
    if (g->used_spur < conf.spurious)
      for (int i = 0; i < g->nthreads; i++)
        if (g->f[i].st == T_COND) {
          opts[n] = i;
          cost[n++] = g->f[i].timed ? 3 : 2;
        }
  }
  int c = choose(n, 0, me_ok);
  int t = opts[c];
  if (cost[c] == 1) g->used_preempt++;
  if (cost[c] == 2) {
    g->used_spur++;
    g->f[t].st = T_RUN;
    g->f[t].signalled = true;
    g->f[t].th = mix(g->f[t].th, 555);
    trace_ev("-> spurious wake-up of T%d", t);
  }
  if (cost[c] == 3) {
    if (!timed_forced) g->used_spur++;
    g->f[t].st = T_RUN;
    g->f[t].timed_out = true;
    g->f[t].th = mix(g->f[t].th, 556);
    trace_ev("-> time-out in T%d", t);
  }
  // a thread that is scheduled lets yielded ones back in
  for (int i = 0; i < g->nthreads; i++)
    if (i != t) g->f[i].yielded = false, g->f[i].since |= 1u << t, g->f[i].owes &= ~(1u << t);
  if (voluntary && t != me) g->f[me].yielded = false;
  run_fibre(t);
}

inline bool on() { return g && g->active && !g->inrt; }

void visible_point() {
  g->visible++;
  g->f[g->cur].spin_n = 0;
  g->f[g->cur].spin_addr = nullptr;
  schedule(true, false);
}

void block_on(const void* o) {
  Fibre& f = g->f[g->cur];
  f.st = T_BLOCK;
  f.wait_obj = o;
  schedule(false, false);
}
void wake_all(const void* o) {
  for (int i = 0; i < g->nthreads; i++)
    if (g->f[i].st == T_BLOCK && g->f[i].wait_obj == o) {
      g->f[i].st = T_RUN;
      g->f[i].wait_obj = nullptr;
    }
}

Obj* find_obj(const void* a, int kind) {
  u32 h = (u32)(((u64)a * 0x9e3779b97f4a7c15ull) >> 40) % (MAXOBJ * 2);
  for (;;) {
    u32 v = g->objhash[h];
    if (!v) break;
    Obj* o = &g->obj[v - 1];
    if (o->addr == a && o->kind == kind) return o;
    h = (h + 1) % (MAXOBJ * 2);
  }
  if (g->nobj >= MAXOBJ) violation("INTERNAL: too many synchronisation objects");
  Obj* o = &g->obj[g->nobj++];
  memset(o, 0, sizeof *o);
  o->addr = a;
  o->kind = kind;
  o->owner = -1;
  o->head_tid = -1;
  o->ordinal = g->nobj;
  g->objhash[h] = g->nobj;
  return o;
}
// Records a visible operation in the causal history of the current thread.
// Loads do not change the object's own history, so that they commute.
void touch(Obj* o, int op, u64 extra = 0) {
  Fibre& f = g->f[g->cur];
  f.th = mix(mix(mix(f.th, op + 1), (u64)o->addr), mix(o->trace, extra));
  if (op != 1) o->trace = mix(o->trace, f.th);
}
void touch_self(int op, u64 extra) {
  Fibre& f = g->f[g->cur];
  f.th = mix(mix(f.th, op + 100), extra);
}

// ---------------------------------------------------------------- shadow
Cell* page_cells(u64 page) {
  u32 h = (u32)((page * 0x9e3779b97f4a7c15ull) >> 49);
  for (;;) {
    ShPage& p = g->sh[h];
    if (p.page == page) {
      if (p.gen != g->gen) {
        p.gen = g->gen;
        u64 base = page << 12;
        bool heap = base >= (u64)g->arena && base < (u64)g->arena + ARENA;
        Cell z = {0, 0xff, (u8)(heap ? 2 : 0), 0, 0xff, 0};
        for (int i = 0; i < 4096; i++) p.cells[i] = z;
      }
      return p.cells;
    }
    if (!p.page) {
      if (g->nsh > SHN / 2 || g->cellpool_used + 4096 > g->cellpool_cap)
        violation("INTERNAL: shadow memory exhausted");
      g->nsh++;
      p.page = page;
      p.gen = g->gen - 1;
      p.cells = g->cellpool + g->cellpool_used;
      g->cellpool_used += 4096;
      continue;
    }
    h = (h + 1) & (SHN - 1);
  }
}

void plain_write_over_atomic(u64 a);
void race(const char* what, u64 a, void* pc, int other) {
  violation("data race: %s at %p (pc %p) conflicts with an unordered access by T%d", what, (void*)a, pc,
            other);
}

// flags: 1 write, 2 atomic
void access(u64 a, size_t n, int fl, void* pc) {
  if (!on()) return;
  int t = g->cur;
  Fibre& f = g->f[t];
  u16 myclk = f.vc.c[t];
  while (n) {
    u64 page = a >> 12;
    Cell* cs = page_cells(page);
    u32 off = a & 4095;
    while (n && off < 4096) {
      Cell& c = cs[off];
      if (c.flags & 3) {
        if (c.flags & 1) violation("use after free: access to %p (pc %p)", (void*)a, pc);
        violation("heap access outside any allocated block: %p (pc %p)", (void*)a, pc);
      }
      if (c.w_tid != 0xff && c.w_tid != t && c.w_clk > f.vc.c[c.w_tid] &&
          !((fl & 2) && (c.flags & 4)))
        race((fl & 1) ? "write" : "read", a, pc, c.w_tid);
      if (fl & 1) {
        if (c.r_tid != 0xff) {
          if (c.r_tid == 0xfe) {
            VC& v = g->rvc[c.r_clk];
            for (int i = 0; i < MAXT; i++)
              if (i != t && v.c[i] > f.vc.c[i]) race("write", a, pc, i);
          } else if (c.r_tid != t && c.r_clk > f.vc.c[c.r_tid]) {
            race("write", a, pc, c.r_tid);
          }
          c.r_tid = 0xff;
        }
        c.w_tid = t;
        c.w_clk = myclk;
        if (fl & 2) {
          c.flags |= 4;
        } else if (c.flags & 4) {
          c.flags &= ~4;
          plain_write_over_atomic(a);
        }
      } else if (!(fl & 2)) {
        if (c.r_tid == 0xff || c.r_tid == t ||
            (c.r_tid != 0xfe && c.r_clk <= f.vc.c[c.r_tid])) {
          c.r_tid = t;
          c.r_clk = myclk;
        } else if (c.r_tid == 0xfe) {
          g->rvc[c.r_clk].c[t] = myclk;
        } else if (g->nrvc < 60000) {
          u32 k = g->nrvc++;
          memset(&g->rvc[k], 0, sizeof(VC));
          g->rvc[k].c[c.r_tid] = c.r_clk;
          g->rvc[k].c[t] = myclk;
          c.r_tid = 0xfe;
          c.r_clk = k;
        }
      }
      off++;
      a++;
      n--;
    }
  }
}
// liveness check only (for sync objects)
void alive(const void* p, size_t n, const char* what) {
  u64 a = (u64)p;
  for (size_t i = 0; i < n; i++) {
    Cell* cs = page_cells((a + i) >> 12);
    if (cs[(a + i) & 4095].flags & 3)
      violation("%s on freed or unallocated memory %p", what, p);
  }
}
void shadow_set(u64 a, size_t n, u8 flags) {
  Cell z = {0, 0xff, flags, 0, 0xff, 0};
  while (n) {
    Cell* cs = page_cells(a >> 12);
    u32 off = a & 4095;
    while (n && off < 4096) {
      cs[off++] = z;
      a++;
      n--;
    }
  }
}

// ---------------------------------------------------------------- heap
struct Hdr {
  size_t n;
  u64 magic;
};
bool in_arena(const void* p) {
  return g && (char*)p >= g->arena && (char*)p < g->arena + ARENA;
}
void* heap_alloc(size_t n, size_t al) {
  g->inrt++;
  if (al < 16) al = 16;
  Fibre& f = g->f[g->cur];
  size_t lo = (size_t)g->cur * REGION;
  size_t p = lo + f.atop + sizeof(Hdr);
  p = (p + al - 1) & ~(al - 1);
  if (n > REGION || p + n + 64 > lo + REGION) {
    g->inrt--;
    violation("INTERNAL: model heap exhausted (request %zu)", n);
  }
  Hdr* h = (Hdr*)(g->arena + p) - 1;
  h->n = n;
  h->magic = 0x4d43484541504f4bull;
  f.atop = p + n + 32 - lo;
  g->heap_bytes += n;
  g->heap_blocks++;
  shadow_set((u64)(g->arena + p), n, 0);
  // poison fresh memory with a fixed pattern: contents must not matter
  memset(g->arena + p, 0xA5, n);
  g->inrt--;
  return g->arena + p;
}
void heap_free(void* p) {
  if (!in_arena(p)) {
    if (g->active && !g->inrt) {
    }
    return;
  }
  if (!g->active) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == 0xdeadull) violation("double free of %p", p);
  if (h->magic != 0x4d43484541504f4bull) violation("free of a pointer that was not allocated: %p", p);
  if (on() && g->cur >= 0) access((u64)p, h->n, 1, __builtin_return_address(0));
  g->inrt++;
  h->magic = 0xdead;
  g->heap_bytes -= h->n;
  g->heap_blocks--;
  shadow_set((u64)p, h->n, 1);
  g->inrt--;
}

// ---------------------------------------------------------------- atomics
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void bump(Fibre& f) {
  int t = &f - g->f;
  if (f.vc.c[t] >= 65000) violation("livelock: clock overflow");
  f.vc.c[t]++;
}
u64 rd(const void* a, int sz) {
  u64 v = 0;
  memcpy(&v, a, sz);
  return v;
}
void wr(void* a, int sz, u64 v) { memcpy(a, &v, sz); }

// A plain write to an atomic location starts a new object lifetime there.
void plain_write_over_atomic(u64 a) {
  Obj* o = find_obj((void*)a, 3);
  o->nh = 0;
}

Obj* atom(const void* a, int sz) {
  Obj* o = find_obj(a, 3);
  u64 cur = rd(a, sz);
  if (o->nh == 0 || o->h[(o->nh - 1) % MAXHIST].val != cur) {
    // first use, or the location was written non-atomically since: restart history
    Store s;
    memset(&s, 0, sizeof s);
    s.val = cur;
    s.init = 1;
    o->base = o->nh;
    o->h[o->nh % MAXHIST] = s;
    o->nh++;
    memset(&o->sync, 0, sizeof o->sync);
    o->head_tid = -1;
    for (int i = 0; i < MAXT; i++) o->seen[i] = o->nh - 1;
  }
  return o;
}

void add_store(Obj* o, u64 v, const VC& sync) {
  Fibre& f = g->f[g->cur];
  Store& s = o->h[o->nh % MAXHIST];
  s.val = v;
  s.tid = g->cur;
  s.clk = f.vc.c[g->cur];
  s.init = 0;
  s.sync = sync;
  o->nh++;
  if (o->nh - o->base > MAXHIST) o->base = o->nh - MAXHIST;
  o->seen[g->cur] = o->nh - 1;
}

u64 a_load(const void* a, int sz, int mo, void* pc) {
  if (!on()) return rd(a, sz);
  Fibre& f = g->f[g->cur];
  g->inrt++;
  Obj* o0 = find_obj(a, 3);
  (void)o0;
  bool spinning = f.spin_addr == a && f.spin_n >= 3;
  {
    int keep_n = f.spin_n;
    const void* keep_a = f.spin_addr;
    u64 keep_v = f.spin_val;
    g->visible++;
    schedule(true, spinning);
    f.spin_n = keep_n;
    f.spin_addr = keep_a;
    f.spin_val = keep_v;
  }
  g->inrt--;
  access((u64)a, sz, 2, pc);
  g->inrt++;
  Obj* o = atom(a, sz);
  int latest = o->nh - 1;
  int idx = latest;
  if (conf.stale > g->used_stale && mo != __ATOMIC_SEQ_CST) {
    int lo = o->seen[g->cur] > o->base ? o->seen[g->cur] : o->base;
    for (int i = latest; i > lo; i--) {
      Store& s = o->h[i % MAXHIST];
      if (s.init || s.tid == g->cur || s.clk <= f.vc.c[s.tid]) {
        lo = i;
        break;
      }
    }
    int n = latest - lo + 1;
    if (n > 1) {
      int c = choose(n, 2);
      idx = latest - c;
      if (c) g->used_stale++;
    }
  }
  touch(o, 1, latest - idx);
  o->seen[g->cur] = idx > o->seen[g->cur] ? idx : o->seen[g->cur];
  u64 v;
  if (idx == latest) {
    v = rd(a, sz);
    if (acq(mo))
      vc_join(f.vc, o->sync);
    else
      vc_join(f.acq_pend, o->sync);
  } else {
    Store& s = o->h[idx % MAXHIST];
    v = s.val;
    if (acq(mo))
      vc_join(f.vc, s.sync);
    else
      vc_join(f.acq_pend, s.sync);
  }
  if (f.spin_addr == a && f.spin_val == v)
    f.spin_n++;
  else {
    f.spin_addr = a;
    f.spin_val = v;
    f.spin_n = 1;
  }
  trace_ev("atomic load %p -> %llu (mo %d)%s", a, (unsigned long long)v, mo, idx == latest ? "" : " STALE");
  g->inrt--;
  return v;
}

void store_sync(Obj* o, Fibre& f, int mo, bool rmw) {
  if (rel(mo)) {
    if (rmw)
      vc_join(o->sync, f.vc);
    else
      o->sync = f.vc;
    o->head_tid = g->cur;
  } else if (!rmw) {
    if (o->head_tid != g->cur) {
      memset(&o->sync, 0, sizeof o->sync);
      o->head_tid = -1;
    }
    if (f.have_rel_fence) vc_join(o->sync, f.rel_fence);
  } else if (f.have_rel_fence) {
    vc_join(o->sync, f.rel_fence);
  }
}

void a_store(void* a, int sz, u64 v, int mo, void* pc) {
  if (!on()) {
    wr(a, sz, v);
    return;
  }
  g->inrt++;
  visible_point();
  g->inrt--;
  access((u64)a, sz, 3, pc);
  g->inrt++;
  Fibre& f = g->f[g->cur];
  Obj* o = atom(a, sz);
  touch(o, 2);
  store_sync(o, f, mo, false);
  wr(a, sz, v);
  u64 vv = rd(a, sz);
  add_store(o, vv, o->sync);
  if (rel(mo)) bump(f);
  trace_ev("atomic store %p <- %llu (mo %d)", a, (unsigned long long)vv, mo);
  g->inrt--;
}

template <typename F>
u64 a_rmw(void* a, int sz, int mo, void* pc, F fn) {
  if (!on()) {
    u64 o = rd(a, sz);
    wr(a, sz, fn(o));
    return o;
  }
  g->inrt++;
  visible_point();
  g->inrt--;
  access((u64)a, sz, 3, pc);
  g->inrt++;
  Fibre& f = g->f[g->cur];
  Obj* o = atom(a, sz);
  touch(o, 3);
  u64 old = rd(a, sz);
  if (acq(mo))
    vc_join(f.vc, o->sync);
  else
    vc_join(f.acq_pend, o->sync);
  store_sync(o, f, mo, true);
  wr(a, sz, fn(old));
  u64 nv = rd(a, sz);
  add_store(o, nv, o->sync);
  if (rel(mo)) bump(f);
  trace_ev("atomic rmw %p %llu -> %llu (mo %d)", a, (unsigned long long)old, (unsigned long long)nv, mo);
  g->inrt--;
  return old;
}

bool a_cas(void* a, int sz, void* exp, u64 des, int mo, int fmo, void* pc) {
  if (!on()) {
    u64 o = rd(a, sz), e = rd(exp, sz);
    if (o == e) {
      wr(a, sz, des);
      return true;
    }
    wr(exp, sz, o);
    return false;
  }
  g->inrt++;
  visible_point();
  g->inrt--;
  u64 e = rd(exp, sz);
  u64 old = rd(a, sz);
  bool ok = old == e;
  access((u64)a, sz, ok ? 3 : 2, pc);
  g->inrt++;
  Fibre& f = g->f[g->cur];
  Obj* o = atom(a, sz);
  touch(o, ok ? 3 : 1);
  int m = ok ? mo : fmo;
  if (acq(m))
    vc_join(f.vc, o->sync);
  else
    vc_join(f.acq_pend, o->sync);
  if (ok) {
    store_sync(o, f, mo, true);
    wr(a, sz, des);
    add_store(o, rd(a, sz), o->sync);
    if (rel(mo)) bump(f);
  } else {
    o->seen[g->cur] = o->nh - 1;
    wr(exp, sz, old);
  }
  trace_ev("atomic cas %p %llu -> %llu %s", a, (unsigned long long)old, (unsigned long long)des, ok ? "ok" : "fail");
  g->inrt--;
  return ok;
}

// ---------------------------------------------------------------- threads
void finish_current(void* ret) {
  Fibre& f = g->f[g->cur];
  f.ret = ret;
  // thread-specific data destructors; POSIX leaves the order unspecified
  g->inrt++;
  for (int it = 0; it < 4; it++) {
    bool any = false;
    for (;;) {
      int ks[8], n = 0;
      for (int k = 0; k < g->nkeys && n < 8; k++)
        if (g->keys[k].used && g->keys[k].d && f.tsd[k]) ks[n++] = k;
      if (!n) break;
      any = true;
      int c = conf.tsd_orders ? choose(n, 3) : 0;
      touch_self(1, c);
      void* v = f.tsd[ks[c]];
      void (*d)(void*) = g->keys[ks[c]].d;
      f.tsd[ks[c]] = nullptr;
      trace_ev("tsd destructor of key %d", ks[c]);
      g->inrt--;
      d(v);
      g->inrt++;
    }
    if (!any) break;
  }
  visible_point();
  trace_ev("thread exit");
  touch_self(2, 0);
  f.st = T_DONE;
  bump(f);
  for (int i = 0; i < g->nthreads; i++)
    if (g->f[i].st == T_JOIN && g->f[i].join_target == g->cur) g->f[i].st = T_RUN;
  schedule(false, false);
  __builtin_unreachable();
}

void fibre_entry() {
  Fibre& f = g->f[g->cur];
  g->inrt = 0;
  void* r = f.fn(f.arg);
  finish_current(r);
}

void* make_stack(int i) {
  char* top = g->stacks + (size_t)(i + 1) * STACK;
  void** sp = (void**)top;
  *--sp = nullptr;                 // alignment / fake return address
  *--sp = (void*)fibre_entry;      // ret target
  for (int k = 0; k < 6; k++) *--sp = nullptr;
  return sp;
}

void main_entry() {
  g->inrt = 0;
  scenario_fn();
  g->inrt = 1;
  if (g->expect_abort) violation("the program went on although it had to stop");
  // Everything must have been joined by the scenario.
  for (int i = 1; i < g->nthreads; i++)
    if (g->f[i].st != T_DONE || (!g->f[i].joined && !g->f[i].detached)) {
      violation("thread T%d was never joined (leaked)", i);
    }
  end_execution();
}

}  // namespace

McScenario::McScenario(const char* n, void (*f)()) : name(n), fn(f), next(scn_list) { scn_list = this; }

// ==================================================================== hooks
extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(N)                                                             \
  void __tsan_read##N(void* a) { access((u64)a, N, 0, PC); }              \
  void __tsan_write##N(void* a) { access((u64)a, N, 1, PC); }             \
  void __tsan_unaligned_read##N(void* a) { access((u64)a, N, 0, PC); }    \
  void __tsan_unaligned_write##N(void* a) { access((u64)a, N, 1, PC); }   \
  void __tsan_read_write##N(void* a) { access((u64)a, N, 1, PC); }        \
  void __tsan_volatile_read##N(void* a) { access((u64)a, N, 0, PC); }     \
  void __tsan_volatile_write##N(void* a) { access((u64)a, N, 1, PC); }    \
  void __tsan_unaligned_volatile_read##N(void* a) { access((u64)a, N, 0, PC); } \
  void __tsan_unaligned_volatile_write##N(void* a) { access((u64)a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access((u64)a, n, 0, PC); }
void __tsan_write_range(void* a, unsigned long n) { access((u64)a, n, 1, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (on() && *a != v) access((u64)a, 8, 1, PC);
}
void __tsan_vptr_read(void** a) { access((u64)a, 8, 0, PC); }

#define AT(BITS, TY)                                                                         \
  TY __tsan_atomic##BITS##_load(const volatile TY* a, int mo) {                              \
    return (TY)a_load((const void*)a, sizeof(TY), mo, PC);                                   \
  }                                                                                          \
  void __tsan_atomic##BITS##_store(volatile TY* a, TY v, int mo) {                           \
    a_store((void*)a, sizeof(TY), (u64)v, mo, PC);                                           \
  }                                                                                          \
  TY __tsan_atomic##BITS##_exchange(volatile TY* a, TY v, int mo) {                          \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64) { return (u64)v; });             \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_add(volatile TY* a, TY v, int mo) {                         \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)(o + v); }); \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_sub(volatile TY* a, TY v, int mo) {                         \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)(o - v); }); \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_and(volatile TY* a, TY v, int mo) {                         \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)(o & v); }); \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_or(volatile TY* a, TY v, int mo) {                          \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)(o | v); }); \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_xor(volatile TY* a, TY v, int mo) {                         \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)(o ^ v); }); \
  }                                                                                          \
  TY __tsan_atomic##BITS##_fetch_nand(volatile TY* a, TY v, int mo) {                        \
    return (TY)a_rmw((void*)a, sizeof(TY), mo, PC, [=](u64 o) { return (u64)(TY)~(o & v); });\
  }                                                                                          \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY* a, TY* e, TY d, int mo, int fmo) { \
    return a_cas((void*)a, sizeof(TY), e, (u64)d, mo, fmo, PC);                              \
  }                                                                                          \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY* a, TY* e, TY d, int mo, int fmo) {   \
    return a_cas((void*)a, sizeof(TY), e, (u64)d, mo, fmo, PC);                              \
  }                                                                                          \
  TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* a, TY e, TY d, int mo, int fmo) {      \
    TY x = e;                                                                                \
    a_cas((void*)a, sizeof(TY), &x, (u64)d, mo, fmo, PC);                                    \
    return x;                                                                                \
  }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)

void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  Fibre& f = g->f[g->cur];
  if (acq(mo)) vc_join(f.vc, f.acq_pend);
  if (rel(mo)) {
    f.rel_fence = f.vc;
    f.have_rel_fence = true;
    bump(f);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---- libc memory functions, redirected from the code under test by objcopy
void* mc_memcpy(void* d, const void* s, size_t n) {
  access((u64)s, n, 0, PC);
  access((u64)d, n, 1, PC);
  return memcpy(d, s, n);
}
void* mc_memmove(void* d, const void* s, size_t n) {
  access((u64)s, n, 0, PC);
  access((u64)d, n, 1, PC);
  return memmove(d, s, n);
}
void* mc_memset(void* d, int c, size_t n) {
  access((u64)d, n, 1, PC);
  return memset(d, c, n);
}
static void cap(const char* b, int k) {
  if (!g) return;
  for (int i = 0; i < k && g->outn < (int)sizeof g->out - 1; i++) g->out[g->outn++] = b[i];
  g->out[g->outn] = 0;
}
static int vcap(const char* fmt, va_list ap) {
  char b[4096];
  if (g) g->inrt++;
  int k = vsnprintf(b, sizeof b, fmt, ap);
  if (k > (int)sizeof b - 1) k = sizeof b - 1;
  cap(b, k);
  if (g) g->inrt--;
  return k;
}
int mc_printf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int k = vcap(fmt, ap);
  va_end(ap);
  return k;
}
int mc_fprintf(FILE*, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int k = vcap(fmt, ap);
  va_end(ap);
  return k;
}
int mc_vprintf(const char* fmt, va_list ap) { return vcap(fmt, ap); }
int mc_vfprintf(FILE*, const char* fmt, va_list ap) { return vcap(fmt, ap); }
int mc_puts(const char* s) {
  cap(s, strlen(s));
  cap("\n", 1);
  return 1;
}
int mc_fputs(const char* s, FILE*) {
  cap(s, strlen(s));
  return 1;
}
int mc_putchar(int c) {
  char b = c;
  cap(&b, 1);
  return c;
}
int mc_fputc(int c, FILE*) { return mc_putchar(c); }
size_t mc_fwrite(const void* p, size_t a, size_t b, FILE*) {
  cap((const char*)p, a * b);
  return b;
}
int mc_fflush(FILE*) { return 0; }

// ---- heap
void* malloc(size_t n) {
  if (on()) return heap_alloc(n, 16);
  return __libc_malloc(n);
}
void free(void* p) {
  if (!p) return;
  if (in_arena(p)) {
    heap_free(p);
    return;
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (on()) {
    void* p = heap_alloc(a * b, 16);
    memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (on() || in_arena(p)) {
    if (!p) return heap_alloc(n, 16);
    if (!in_arena(p)) return __libc_realloc(p, n);
    Hdr* h = (Hdr*)p - 1;
    void* q = heap_alloc(n, 16);
    memcpy(q, p, h->n < n ? h->n : n);
    heap_free(p);
    return q;
  }
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) {
  if (on()) return heap_alloc(n, al);
  return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) {
  if (on()) return heap_alloc(n, al);
  return __libc_memalign(al, n);
}
int posix_memalign(void** p, size_t al, size_t n) {
  if (on()) {
    *p = heap_alloc(n, al);
    return 0;
  }
  *p = __libc_memalign(al, n);
  return *p ? 0 : ENOMEM;
}

// ---- threads
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!on()) {
    fprintf(stderr, "mcrt: pthread_create outside an execution\n");
    _exit(3);
  }
  g->inrt++;
  visible_point();
  if (g->nthreads >= MAXT) violation("too many threads created in one execution (%d)", g->nthreads);
  // as in glibc, the identifier is stored before the new thread can run
  g->inrt--;
  access((u64)th, sizeof *th, 1, PC);
  g->inrt++;
  *th = (pthread_t)(g->nthreads + 1000);
  int i = g->nthreads++;
  g->created++;
  Fibre& f = g->f[i];
  memset(&f, 0, sizeof f);
  f.st = T_RUN;
  touch(find_obj(&g->created, 7), 11);
  f.th = mix(g->f[g->cur].th, i);
  f.fn = fn;
  f.arg = arg;
  f.vc = g->f[g->cur].vc;
  f.vc.c[i] = 1;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    f.detached = ds == PTHREAD_CREATE_DETACHED;
  }
  bump(g->f[g->cur]);
  f.sp = make_stack(i);
  int alive_n = 0;
  for (int k = 1; k < g->nthreads; k++)
    if (g->f[k].st != T_DONE) alive_n++;
  if (alive_n > g->peak) g->peak = alive_n;
  trace_ev("pthread_create -> T%d", i);
  g->inrt--;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  int i = (int)th - 1000;
  if (i < 0 || i >= g->nthreads) violation("join of an invalid thread id");
  Fibre& t = g->f[i];
  if (t.joined) violation("thread T%d joined twice", i);
  if (t.detached) violation("join of detached thread T%d", i);
  if (i == g->cur) violation("thread joins itself");
  while (t.st != T_DONE) {
    g->f[g->cur].st = T_JOIN;
    g->f[g->cur].join_target = i;
    schedule(false, false);
  }
  t.joined = true;
  touch_self(3, t.th);
  vc_join(g->f[g->cur].vc, t.vc);
  if (ret) *ret = t.ret;
  trace_ev("pthread_join T%d", i);
  g->inrt--;
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!on()) return 0;
  int i = (int)th - 1000;
  if (i >= 0 && i < g->nthreads) g->f[i].detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  if (on()) return (pthread_t)(g->cur + 1000);
  return (pthread_t)1;
}
void pthread_exit(void* r) {
  finish_current(r);
  __builtin_unreachable();
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }

// ---- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  if (!on()) return 0;
  g->inrt++;
  alive(m, 1, "mutex init");
  Obj* o = find_obj(m, 1);
  if (o->owner >= 0) violation("re-initialisation of a locked mutex");
  u64 tr = o->trace;
  u32 ord = o->ordinal;
  memset(o, 0, sizeof *o);
  o->addr = m;
  o->kind = 1;
  o->owner = -1;
  o->inited = 1;
  o->trace = tr;
  o->ordinal = ord;
  o->mtype = 0;
  if (a) pthread_mutexattr_gettype(a, &o->mtype);
  g->inrt--;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!on()) return 0;
  g->inrt++;
  alive(m, 1, "mutex destroy");
  Obj* o = find_obj(m, 1);
  if (o->owner >= 0) violation("destruction of a locked mutex");
  for (int i = 0; i < g->nthreads; i++)
    if ((g->f[i].st == T_BLOCK && g->f[i].wait_obj == m) || (g->f[i].st == T_COND && g->f[i].wait_mutex == m))
      violation("destruction of a mutex T%d is using", i);
  o->destroyed = 1;
  g->inrt--;
  return 0;
}
static void lock_raw(pthread_mutex_t* m, Obj* o) {
  while (o->owner >= 0) block_on(m);
  o->owner = g->cur;
  o->rec = 1;
  vc_join(g->f[g->cur].vc, o->sync);
  touch(o, 4);
}
static void unlock_raw(pthread_mutex_t* m, Obj* o) {
  Fibre& f = g->f[g->cur];
  o->sync = f.vc;
  bump(f);
  o->owner = -1;
  wake_all(m);
  touch(o, 5);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return 0;
  g->inrt++;
  alive(m, 1, "mutex lock");
  visible_point();
  alive(m, 1, "mutex lock");
  Obj* o = find_obj(m, 1);
  if (o->destroyed) violation("lock of a destroyed mutex");
  if (o->owner == g->cur) {
    if (o->mtype == PTHREAD_MUTEX_RECURSIVE) {
      o->rec++;
      g->inrt--;
      return 0;
    }
    violation("deadlock: thread locks a mutex it already holds");
  }
  lock_raw(m, o);
  alive(m, 1, "mutex lock");
  trace_ev("lock %p", (void*)m);
  g->inrt--;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  alive(m, 1, "mutex trylock");
  Obj* o = find_obj(m, 1);
  if (o->destroyed) violation("lock of a destroyed mutex");
  int r = EBUSY;
  if (o->owner < 0) {
    lock_raw(m, o);
    r = 0;
  } else if (o->owner == g->cur && o->mtype == PTHREAD_MUTEX_RECURSIVE) {
    o->rec++;
    r = 0;
  }
  if (r) touch(o, 13);
  trace_ev("trylock %p -> %d", (void*)m, r);
  g->inrt--;
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return 0;
  g->inrt++;
  alive(m, 1, "mutex unlock");
  Obj* o = find_obj(m, 1);
  if (o->owner != g->cur) violation("unlock of a mutex the thread does not hold");
  if (--o->rec == 0) unlock_raw(m, o);
  trace_ev("unlock %p", (void*)m);
  g->inrt--;
  return 0;
}
// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  if (!on()) return 0;
  g->inrt++;
  alive(c, 1, "cond init");
  find_obj(c, 2)->destroyed = 0;
  g->inrt--;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!on()) return 0;
  g->inrt++;
  alive(c, 1, "cond destroy");
  for (int i = 0; i < g->nthreads; i++)
    if (g->f[i].st == T_COND && g->f[i].wait_obj == c) violation("destruction of a condition variable T%d waits on", i);
  find_obj(c, 2)->destroyed = 1;
  g->inrt--;
  return 0;
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  g->inrt++;
  visible_point();
  alive(c, 1, "cond wait");
  Obj* o = find_obj(c, 2);
  if (o->destroyed) violation("wait on a destroyed condition variable");
  Obj* mo = find_obj(m, 1);
  if (mo->owner != g->cur) violation("condition wait without holding the mutex");
  touch(o, 6);
  Fibre& f = g->f[g->cur];
  int rec = mo->rec;
  trace_ev("cond_wait %p", (void*)c);
  unlock_raw(m, mo);
  f.st = T_COND;
  f.wait_obj = c;
  f.wait_mutex = m;
  f.timed = timed;
  f.signalled = f.timed_out = false;
  schedule(false, false);
  f.wait_obj = f.wait_mutex = nullptr;
  f.timed = false;
  alive(m, 1, "mutex re-lock after a wait");
  lock_raw(m, mo);
  mo->rec = rec;
  alive(m, 1, "mutex re-lock after a wait");
  trace_ev("cond_wait %p returns", (void*)c);
  int r = f.timed_out && !f.signalled ? ETIMEDOUT : 0;
  g->inrt--;
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  alive(c, 1, "cond signal");
  Obj* o = find_obj(c, 2);
  if (o->destroyed) violation("signal of a destroyed condition variable");
  touch(o, 7);
  int w[MAXT], n = 0;
  for (int i = 0; i < g->nthreads; i++)
    if (g->f[i].st == T_COND && g->f[i].wait_obj == c) w[n++] = i;
  if (n) {
    int k = w[choose(n, 4)];
    g->f[k].st = T_RUN;
    g->f[k].signalled = true;
    touch_self(4, k);
    g->f[k].th = mix(g->f[k].th, g->f[g->cur].th);
  }
  trace_ev("cond_signal %p (%d waiting)", (void*)c, n);
  g->inrt--;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  alive(c, 1, "cond broadcast");
  Obj* o = find_obj(c, 2);
  if (o->destroyed) violation("broadcast of a destroyed condition variable");
  touch(o, 7);
  int n = 0;
  for (int i = 0; i < g->nthreads; i++)
    if (g->f[i].st == T_COND && g->f[i].wait_obj == c) {
      g->f[i].st = T_RUN;
      g->f[i].signalled = true;
      g->f[i].th = mix(g->f[i].th, g->f[g->cur].th);
      n++;
    }
  trace_ev("cond_broadcast %p (%d waiting)", (void*)c, n);
  g->inrt--;
  return 0;
}
// ---- once, guards
static bool once_begin(const void* a, int kind) {
  // returns true if the caller must run the initialiser
  g->inrt++;
  visible_point();
  Obj* o = find_obj(a, kind);
  touch(o, 8);
  while (o->owner >= 0 && o->count == 0) {
    if (o->owner == g->cur) violation("recursive static initialisation");
    block_on(a);
  }
  bool first = o->count == 0;
  if (first)
    o->owner = g->cur;
  else
    vc_join(g->f[g->cur].vc, o->sync);
  g->inrt--;
  return first;
}
static void once_end(const void* a, int kind, bool ok) {
  g->inrt++;
  Obj* o = find_obj(a, kind);
  o->count = ok;
  o->owner = -1;
  o->sync = g->f[g->cur].vc;
  bump(g->f[g->cur]);
  wake_all(a);
  g->inrt--;
}
int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!on()) {
    if (!*c) {
      *c = 2;
      fn();
    }
    return 0;
  }
  if (once_begin(c, 6)) {
    fn();
    once_end(c, 6, true);
  }
  return 0;
}
int __cxa_guard_acquire(u64* gd) {
  if (!on()) {
    return *(char*)gd == 0;
  }
  if (*(char*)gd) {
    g->inrt++;
    Obj* o = find_obj(gd, 4);
    vc_join(g->f[g->cur].vc, o->sync);
    g->inrt--;
    return 0;
  }
  return once_begin(gd, 4) ? 1 : 0;
}
void __cxa_guard_release(u64* gd) {
  *(char*)gd = 1;
  if (!on()) return;
  once_end(gd, 4, true);
  // the inline fast path loads the guard byte atomically with acquire: give
  // that location the same clock
  g->inrt++;
  Obj* a = atom(gd, 1);
  a->sync = g->f[g->cur].vc;
  a->head_tid = g->cur;
  add_store(a, 1, a->sync);
  g->inrt--;
}
void __cxa_guard_abort(u64* gd) {
  if (on()) once_end(gd, 4, false);
}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
// Destructors of function-local statics are not run at the end of an execution
// (and must not reach libc's list, which would outlive the execution).
int __cxa_atexit(void (*f)(void*), void* a, void* d) {
  if (on()) return 0;
  typedef int (*Fn)(void (*)(void*), void*, void*);
  Fn real = (Fn)dlsym(RTLD_NEXT, "__cxa_atexit");
  return real ? real(f, a, d) : 0;
}

// ---- thread-specific data
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  if (!on()) {
    // keys made before an execution (static initialisers) are not modelled
    return 0;
  }
  g->inrt++;
  int i = -1;
  for (int j = 0; j < g->nkeys; j++)
    if (!g->keys[j].used) {
      i = j;
      break;
    }
  if (i < 0) {
    if (g->nkeys >= 1024) {
      g->inrt--;
      return EAGAIN;
    }
    i = g->nkeys++;
  }
  touch(find_obj(&g->nkeys, 7), 12);
  g->keys[i].used = true;
  g->keys[i].d = d;
  g->live_keys++;
  for (int t = 0; t < MAXT; t++) g->f[t].tsd[i] = nullptr;
  trace_ev("key_create %d", i);
  g->inrt--;
  *k = i;
  return 0;
}
int pthread_key_delete(pthread_key_t k) {
  if (!on()) return 0;
  if ((int)k >= g->nkeys || !g->keys[k].used) return EINVAL;
  g->keys[k].used = false;
  g->live_keys--;
  return 0;
}
void* pthread_getspecific(pthread_key_t k) {
  if (!on()) return nullptr;
  if ((int)k >= g->nkeys || !g->keys[k].used) return nullptr;
  return g->f[g->cur].tsd[k];
}
int pthread_setspecific(pthread_key_t k, const void* v) {
  if (!on()) return 0;
  if ((int)k >= g->nkeys || !g->keys[k].used) return EINVAL;
  g->f[g->cur].tsd[k] = (void*)v;
  return 0;
}
// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) {
  if (!on()) return 0;
  g->inrt++;
  find_obj(s, 5)->count = v;
  g->inrt--;
  return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  Obj* o = find_obj(s, 5);
  o->count++;
  vc_join(o->sync, g->f[g->cur].vc);
  bump(g->f[g->cur]);
  touch(o, 9);
  wake_all(s);
  g->inrt--;
  return 0;
}
int sem_wait(sem_t* s) {
  if (!on()) return 0;
  g->inrt++;
  visible_point();
  Obj* o = find_obj(s, 5);
  while (o->count <= 0) block_on(s);
  o->count--;
  vc_join(g->f[g->cur].vc, o->sync);
  touch(o, 10);
  g->inrt--;
  return 0;
}
// ---- time
static void mc_yield_() {
  g->inrt++;
  g->visible++;
  trace_ev("sleep/yield");
  touch_self(6, 0);
  schedule(true, true, 8);
  g->inrt--;
}
int nanosleep(const struct timespec*, struct timespec*) {
  if (on()) mc_yield_();
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) {
  if (on()) mc_yield_();
  return 0;
}
int usleep(useconds_t) {
  if (on()) mc_yield_();
  return 0;
}
unsigned sleep(unsigned) {
  if (on()) mc_yield_();
  return 0;
}
int sched_yield(void) {
  if (on()) mc_yield_();
  return 0;
}
// ---- termination
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  if (g && g->active) {
    g->inrt = 1;
    if (g->expect_abort) {
      g->aborted = true;
      end_execution();
    }
    violation("assertion failed: %s (%s:%u %s)", e, file, line, fn);
  }
  fprintf(stderr, "assert %s %s:%u\n", e, file, line);
  _exit(3);
}
void abort(void) {
  if (g && g->active) {
    g->inrt = 1;
    if (g->expect_abort) {
      g->aborted = true;
      end_execution();
    }
    violation("abort() called");
  }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(3);
}
void mc_exit(int c) { violation("exit(%d) called", c); }

// ---- scenario interface
void mc_fail(const char* fmt, ...) {
  char b[1500];
  g->inrt++;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  violation("%s", b);
}
int mc_choose(int n) {
  g->inrt++;
  int r = choose(n, 1);
  touch_self(5, r);
  g->inrt--;
  return r;
}
void mc_outcome(uint64_t h) { g->outcome = mix(g->outcome, h); }
int mc_threads_created(void) { return g->created; }
int mc_threads_peak(void) { return g->peak; }
int mc_self(void) { return g->cur; }
int mc_threads_alive(void) {
  int n = 0;
  for (int i = 1; i < g->nthreads; i++) n += g->f[i].st != T_DONE;
  return n;
}
int mc_threads_unjoined(void) {
  int n = 0;
  for (int i = 1; i < g->nthreads; i++) n += !(g->f[i].joined || (g->f[i].detached && g->f[i].st == T_DONE));
  return n;
}
size_t mc_heap_bytes(void) { return g->heap_bytes; }
size_t mc_heap_blocks(void) { return g->heap_blocks; }
int mc_keys_live(void) { return g->live_keys; }
void mc_point(void) {
  g->inrt++;
  visible_point();
  touch_self(7, 0);
  g->inrt--;
}
const char* mc_stdout(void) { return g->out; }
void mc_stdout_clear(void) {
  g->outn = 0;
  g->out[0] = 0;
}
void mc_expect_abort(void) { g->expect_abort = true; }
long mc_step(void) { return g->steps; }
void mc_note(const char* fmt, ...) {
  if (!g->tracing) return;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  g->inrt++;
  vsnprintf(b, sizeof b, fmt, ap);
  trace_ev("%s", b);
  g->inrt--;
  va_end(ap);
}
}  // extern "C"

// ==================================================================== explorer
namespace {

void reset_execution() {
  // restore the program's globals
  memcpy(&__data_start, g->snap, g->snapn);
  g->cur = 0;
  g->nthreads = 1;
  memset(&g->f[0], 0, sizeof(Fibre));
  g->f[0].st = T_RUN;
  g->f[0].vc.c[0] = 1;
  g->nobj = 0;
  memset(g->objhash, 0, sizeof g->objhash);
  g->nch = 0;
  g->jobi = 0;
  g->used_preempt = g->used_spur = g->used_stale = 0;
  g->steps = 0;
  g->visible = 0;
  g->pruned = false;
  g->newstates = 0;
  g->failed = false;
  g->msg[0] = 0;
  g->outcome = 0;
  g->expect_abort = g->aborted = false;
  g->heap_bytes = g->heap_blocks = 0;
  g->gen++;
  g->nrvc = 0;
  g->nkeys = 0;
  memset(g->keys, 0, sizeof g->keys);
  g->live_keys = 0;
  g->created = g->peak = 0;
  g->outn = 0;
  g->out[0] = 0;
}

void main_trampoline() { main_entry(); }

void run_execution(const Job& j) {
  reset_execution();
  g->job = j;
  g->from = j.n ? j.d[j.n - 1].pos + 1 : 0;
  char* top = g->stacks + STACK;
  void** sp = (void**)top;
  *--sp = nullptr;
  *--sp = (void*)main_trampoline;
  for (int k = 0; k < 6; k++) *--sp = nullptr;
  g->f[0].sp = sp;
  g->active = true;
  g->inrt = 1;
  switch_to(&g->main_sp, g->f[0].sp);
  g->active = false;
  g->inrt = 0;
}

void lockS() {
  while (__sync_lock_test_and_set(&S->lock, 1)) {
    while (S->lock) __builtin_ia32_pause();
  }
}
void unlockS() { __sync_lock_release(&S->lock); }

void devs_text(const Job& j, char* b, size_t n) {
  size_t k = 0;
  b[0] = 0;
  for (int i = 0; i < j.n && k + 40 < n; i++)
    k += snprintf(b + k, n - k, "%d:%d:%d ", j.d[i].pos, j.d[i].alt, j.d[i].opts);
}

void report(const Job& j, const char* msg) {
  lockS();
  if (!S->violations) {
    snprintf(S->vmsg, sizeof S->vmsg, "%s", msg);
    devs_text(j, S->vdev, sizeof S->vdev);
  }
  S->violations++;
  S->stop = 1;
  unlockS();
}

bool hset_add(u64* t, u64 h) {
  if (!h) h = 1;
  u32 i = (u32)(h >> 20) & (HSET - 1);
  for (int k = 0; k < 64; k++) {
    u64 v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (!v) {
      u64 e = 0;
      if (__atomic_compare_exchange_n(&t[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
      if (e == h) return false;
    }
    i = (i + 1) & (HSET - 1);
  }
  return true;  // table full: treat as new (never prunes wrongly)
}

void on_crash(int sig, siginfo_t* si, void*) {
  char b[300];
  snprintf(b, sizeof b, "[T%d] crash: signal %d at address %p (step %ld)", g->cur, sig, si ? si->si_addr : 0,
           g->steps);
  if (sig == SIGPROF) snprintf(b, sizeof b, "[T%d] hang: no progress (step %ld)", g->cur, g->steps);
  if (g->active) report(g->job, b);
  else {
    fprintf(stderr, "mcrt: crash in explorer: signal %d\n", sig);
    S->stop = 1;
  }
  _exit(g->active ? 0 : 4);
}

void arm_timer(int secs) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

void worker_loop(double deadline) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 16;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF};
  for (int s : sigs) sigaction(s, &sa, 0);
  bool counted = true;
  int tick = 0;
  for (;;) {
    Job j;
    lockS();
    if (S->stop) {
      unlockS();
      break;
    }
    if (S->njobs) {
      j = S->jobs[--S->njobs];
      if (!counted) {
        S->active++;
        counted = true;
      }
      unlockS();
    } else {
      if (counted) {
        S->active--;
        counted = false;
      }
      bool done = S->active == 0;
      unlockS();
      if (done) break;
      struct timespec ts = {0, 200000};
      syscall(35 /*nanosleep*/, &ts, nullptr);
      continue;
    }
    if ((tick++ & 63) == 0) {
      arm_timer(60);
      if (now() > deadline) {
        lockS();
        S->stop = 2;
        S->dropped++;
        unlockS();
        break;
      }
    }
    run_execution(j);
    if (g->failed) {
      char b[3500];
      snprintf(b, sizeof b, "%s {%s}", g->msg, g->ctxinfo);
      report(g->job, b);
      break;
    }
    if (g->jobi != j.n) {
      report(j, "INTERNAL: a forced choice was never reached (nondeterministic execution)");
      break;
    }
    u64 hb = 0;
    for (int i = 0; i < g->nobj; i++) hb += mix((u64)g->obj[i].addr * 31 + g->obj[i].kind, g->obj[i].trace);
    hb = mix(hb, g->outcome);
    bool nhb = !g->pruned && hset_add(hset_hb, hb), nout = !g->pruned && hset_add(hset_out, mix(77, g->outcome));
    int from = j.n ? j.d[j.n - 1].pos + 1 : 0;
    // push alternatives
    lockS();
    S->execs++;
    S->pruned += g->pruned;
    S->states += g->newstates;
    S->hb_distinct += nhb;
    S->out_distinct += nout;
    S->transitions += g->visible;
    S->nodes += g->nch - from + 1;
    S->preempt_used[g->used_preempt < 8 ? g->used_preempt : 7]++;
    if ((u64)g->nch > S->maxch) S->maxch = g->nch;
    if ((u64)g->steps > S->maxsteps) S->maxsteps = g->steps;
    bool over = false;
    for (int p = from; p < g->nch && !over; p++)
      for (int a = 1; a < g->ch[p].n; a++) {
        if (j.n >= MAXDEV || S->njobs >= JOBCAP) {
          S->dropped++;
          over = true;
          break;
        }
        Job& q = S->jobs[S->njobs++];
        q = j;
        q.d[q.n].pos = p;
        q.d[q.n].alt = a;
        q.d[q.n].opts = g->ch[p].n;
        q.n++;
      }
    if (conf.max_execs && S->execs >= conf.max_execs) {
      S->stop = 2;
      S->dropped += S->njobs;
    }
    unlockS();
  }
  _exit(0);
}

void* map(size_t n, bool shared) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(4);
  }
  return p;
}

void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fputc('\\', f);
    if ((unsigned char)*s < 32) {
      fprintf(f, "\\u%04x", *s);
      continue;
    }
    fputc(*s, f);
  }
  fputc('"', f);
}

}  // namespace

int main(int argc, char** argv) {
  const char* scn = nullptr;
  const char* replay = nullptr;
  const char* out = nullptr;
  int jobs = 8;
  bool list = false, noprune = false;
  conf.preempt = 2;
  conf.spurious = 1;
  conf.stale = 0;
  conf.tsd_orders = 1;
  conf.max_seconds = 60;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char* s) { return !strcmp(argv[i], s) && i + 1 < argc; };
    if (is("--scenario")) scn = argv[++i];
    else if (is("--preempt")) conf.preempt = atoi(argv[++i]);
    else if (is("--spurious")) conf.spurious = atoi(argv[++i]);
    else if (is("--stale")) conf.stale = atoi(argv[++i]);
    else if (is("--jobs")) jobs = atoi(argv[++i]);
    else if (is("--seconds")) conf.max_seconds = atof(argv[++i]);
    else if (is("--max-execs")) conf.max_execs = atoll(argv[++i]);
    else if (is("--out")) out = argv[++i];
    else if (is("--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--list")) list = true;
    else if (!strcmp(argv[i], "--no-prune")) noprune = true;
    else if (!strcmp(argv[i], "--verbose")) conf.verbose = true;
    else {
      fprintf(stderr, "bad argument %s\n", argv[i]);
      return 4;
    }
  }
  if (list) {
    for (McScenario* s = scn_list; s; s = s->next) printf("%s\n", s->name);
    return 0;
  }
  for (McScenario* s = scn_list; s; s = s->next)
    if (scn && !strcmp(scn, s->name)) {
      scenario_fn = s->fn;
      scenario_name = s->name;
    }
  if (!scenario_fn) {
    fprintf(stderr, "no such scenario\n");
    return 4;
  }
  RT* r = (RT*)map(sizeof(RT), false);
  r->stacks = (char*)map(MAXT * STACK, false);
  r->arena = (char*)map(ARENA, false);
  r->cellpool_cap = 4096u * 12000;
  r->cellpool = (Cell*)map((size_t)r->cellpool_cap * sizeof(Cell), false);
  S = (Shared*)map(sizeof(Shared), true);
  hset_hb = (u64*)map(HSET * 8ull, true);
  hset_out = (u64*)map(HSET * 8ull, true);
  hset_state = (u64*)map(HSET * 8ull, true);
  r->snapn = &_end - &__data_start;
  r->snap = (char*)map(r->snapn + 4096, false);
  r->gen = 1;
  r->prune = !noprune && !replay;
  setvbuf(stdout, nullptr, _IONBF, 0);
  g = r;
  memcpy(g->snap, &__data_start, g->snapn);
  double t0 = now();
  int rc = 0;
  if (replay) {
    Job j;
    memset(&j, 0, sizeof j);
    const char* p = replay;
    while (*p) {
      int a, b, c, k = 0;
      if (sscanf(p, " %d:%d:%d%n", &a, &b, &c, &k) != 3) break;
      j.d[j.n].pos = a;
      j.d[j.n].alt = b;
      j.d[j.n].opts = c;
      j.n++;
      p += k;
    }
    g->tracing = conf.verbose;
    pid_t pid = fork();
    if (!pid) {
      stack_t ss;
      memset(&ss, 0, sizeof ss);
      ss.ss_sp = map(1 << 16, false);
      ss.ss_size = 1 << 16;
      sigaltstack(&ss, 0);
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = on_crash;
      sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
      int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF};
      for (int s : sigs) sigaction(s, &sa, 0);
      arm_timer(60);
      run_execution(j);
      if (g->failed) {
        char b[3500];
        snprintf(b, sizeof b, "%s {%s}", g->msg, g->ctxinfo);
        report(g->job, b);
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (S->violations) printf("REPLAY VIOLATION %s\n", S->vmsg);
    else printf("REPLAY OK\n");
    return S->violations ? 1 : 0;
  }
  S->njobs = 1;  // the empty prefix
  S->active = jobs;
  for (int i = 0; i < jobs; i++) {
    pid_t pid = fork();
    if (!pid) worker_loop(t0 + conf.max_seconds);
  }
  bool bad = false;
  for (int i = 0; i < jobs; i++) {
    int st;
    wait(&st);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      bad = true;
      S->stop = 1;
    }
  }
  bool exhaustive = S->stop == 0 && S->dropped == 0;
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f,
          "{\"scenario\":\"%s\",\"preempt\":%d,\"spurious\":%d,\"stale\":%d,\"executions\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,"
          "\"tree_nodes\":%llu,\"distinct_traces\":%llu,\"distinct_outcomes\":%llu,\"max_choice_points\":%llu,"
          "\"max_steps\":%llu,\"exhaustive\":%s,\"seconds\":%.2f,\"internal_error\":%s",
          scenario_name, conf.preempt, conf.spurious, conf.stale, (unsigned long long)S->execs, (unsigned long long)S->pruned, (unsigned long long)S->states,
          (unsigned long long)S->transitions, (unsigned long long)S->nodes, (unsigned long long)S->hb_distinct,
          (unsigned long long)S->out_distinct, (unsigned long long)S->maxch, (unsigned long long)S->maxsteps,
          exhaustive && !S->violations ? "true" : "false", now() - t0, bad && !S->violations ? "true" : "false");
  if (S->violations) {
    fprintf(f, ",\"violation\":");
    json_str(f, S->vmsg);
    fprintf(f, ",\"replay\":");
    json_str(f, S->vdev);
    rc = 1;
  }
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  if (bad && !S->violations) rc = 4;
  return rc;
}
