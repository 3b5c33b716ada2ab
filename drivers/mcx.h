// Bounded exhaustive exploration of the implementation: enumeration of cases
// (configurations or operation histories), work distribution over processes,
// crash/hang detection and coverage counting.
//
// A driver enumerates its cases deterministically; MCX_CASE claims a case for
// this process.  Every process enumerates the same sequence and claims tickets
// from a shared counter, so each case is executed exactly once.
#ifndef MCX_H_
#define MCX_H_
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>

typedef uint64_t u64;
namespace mcx {
const int MAXP = 64;
struct Shared {
  volatile u64 next;       // next ticket
  volatile u64 total;      // number of cases in the enumeration (set by whoever finishes)
  volatile u64 cases, calls, elements, outcomes;
  volatile int stop;       // 1: failure found, 2: out of time
  volatile int failed;
  volatile u64 fail_idx;
  char msg[2000];
  char fail_case[1000];
  struct P {
    volatile u64 idx;
    volatile u64 beat;
    volatile int busy;
    char cur[1000];
  } p[MAXP];
  int nsamples;
  char samples[8][600];
  volatile u64 extra[16];
  volatile u64 hset[1 << 20];
};
struct State {
  Shared* s;
  int me, jobs;
  u64 local;       // next case index of the enumeration
  u64 mine;        // claimed ticket
  long only;       // replay of one case
  double deadline;
  bool inproc;
  std::string args;
};
inline State& st() { static State x; return x; }
inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline u64 mix(u64 a, u64 b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  a ^= a >> 32;
  return a;
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline void add(volatile u64* c, u64 n) { __atomic_fetch_add(c, n, __ATOMIC_RELAXED); }
inline void calls(u64 n = 1) { add(&st().s->calls, n); }
inline void elements(u64 n) { add(&st().s->elements, n); }
inline void extra(int k, u64 n) { add(&st().s->extra[k], n); }
// Fingerprint of an observed result.
inline void outcome(u64 h) {
  h = mix(h, 0x51ed);
  if (!h) h = 1;
  Shared* s = st().s;
  u64 m = (1 << 20) - 1, i = (h >> 17) & m;
  for (int k = 0; k < 16; k++) {
    u64 v = s->hset[i];
    if (v == h) return;
    if (!v) {
      u64 e = 0;
      if (__atomic_compare_exchange_n((u64*)&s->hset[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        add(&s->outcomes, 1);
        return;
      }
      if (e == h) return;
    }
    i = (i + 1) & m;
  }
}
__attribute__((noreturn, format(printf, 1, 2))) inline void fail(const char* fmt, ...) {
  Shared* s = st().s;
  int zero = 0;
  if (__atomic_compare_exchange_n(&s->failed, &zero, 1, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(s->msg, sizeof s->msg, fmt, ap);
    va_end(ap);
    s->fail_idx = s->p[st().me].idx;
    memcpy(s->fail_case, s->p[st().me].cur, sizeof s->fail_case);
    __atomic_store_n(&s->failed, 2, __ATOMIC_SEQ_CST);
    s->stop = 1;
  }
  _exit(1);
}
inline void finish_case() {
  State& x = st();
  if (x.s->p[x.me].busy) {
    x.s->p[x.me].busy = 0;
    add(&x.s->cases, 1);
  }
}
// Claims the next case of the enumeration. The description identifies it.
__attribute__((format(printf, 1, 2))) inline bool begin(const char* fmt, ...) {
  State& x = st();
  finish_case();
  u64 i = x.local++;
  if (x.only >= 0) {
    if ((long)i != x.only) return false;
  } else {
    if (x.s->stop) return false;
#ifdef __wasm__  // no shared memory: every instance takes its share
    if (i % x.jobs != (u64)x.me) return false;
#else
    if (i < x.mine) return false;
#endif
    if (now() > x.deadline) {
      x.s->stop = 2;
      return false;
    }
    x.mine = __atomic_fetch_add(&x.s->next, 1, __ATOMIC_RELAXED);
    // (the ticket just consumed was i)
  }
  Shared::P& p = x.s->p[x.me];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(p.cur, sizeof p.cur, fmt, ap);
  va_end(ap);
  p.idx = i;
  p.beat++;
  p.busy = 1;
  if ((i & (i - 1)) == 0 && i >= 1) {
    int k = __atomic_fetch_add(&x.s->nsamples, 1, __ATOMIC_RELAXED);
    if (k < 8 || (i > 64 && (i * 2654435761u >> 7) % 3 == 0)) snprintf(x.s->samples[k % 8], 600, "%s", p.cur);
  }
  return true;
}
inline void beat() { st().s->p[st().me].beat++; }
// Appends to the description of the current case (kept for crash reports).
__attribute__((format(printf, 1, 2))) inline void note(const char* fmt, ...) {
  Shared::P& p = st().s->p[st().me];
  size_t n = strlen(p.cur);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(p.cur + n, sizeof p.cur - n, fmt, ap);
  va_end(ap);
}
struct Mark {  // restores the description at scope exit
  size_t n;
  Mark() : n(strlen(st().s->p[st().me].cur)) {}
  ~Mark() { st().s->p[st().me].cur[n] = 0; }
};
inline void jstr(const char* s) {
  putchar('"');
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') putchar('\\');
    if ((unsigned char)*s < 32) printf("\\u%04x", *s);
    else putchar(*s);
  }
  putchar('"');
}
// The driver's enumeration.
void enumerate(const std::string& tier);
}  // namespace mcx

namespace mcx {
inline void report(double seconds, bool bad) {
  State& x = st();
  printf("{\"cases\":%llu,\"total\":%llu,\"calls\":%llu,\"elements\":%llu,\"outcomes\":%llu,\"exhaustive\":%s,\"seconds\":%.2f,\"extra\":[",
         (unsigned long long)x.s->cases, (unsigned long long)x.s->total, (unsigned long long)x.s->calls,
         (unsigned long long)x.s->elements, (unsigned long long)x.s->outcomes,
         (x.s->stop == 0 && x.only < 0) ? "true" : "false", seconds);
  for (int i = 0; i < 16; i++) printf("%s%llu", i ? "," : "", (unsigned long long)x.s->extra[i]);
  printf("],\"samples\":[");
  int ns = x.s->nsamples < 8 ? x.s->nsamples : 8;
  for (int i = 0; i < ns; i++) { if (i) putchar(','); jstr(x.s->samples[i]); }
  printf("]");
  if (bad) {
    printf(",\"fail_idx\":%llu,\"fail_case\":", (unsigned long long)x.s->fail_idx);
    jstr(x.s->fail_case);
    printf(",\"msg\":");
    jstr(x.s->msg);
  }
  printf("}\n");
}
}  // namespace mcx

#ifdef __wasm__
extern "C" {
__attribute__((export_name("mcx_run"))) void mcx_run(int me, int jobs, int only, int thorough, double seconds) {
  using namespace mcx;
  State& x = st();
  x.s = (Shared*)calloc(1, sizeof(Shared));
  x.me = me; x.jobs = jobs; x.only = only; x.deadline = now() + seconds;
  enumerate(thorough ? "thorough" : "quick");
  finish_case();
  x.s->total = x.local;
}
__attribute__((export_name("mcx_report"))) void mcx_report(int crashed) {
  using namespace mcx;
  State& x = st();
  if (crashed && !x.s->failed) {
    x.s->failed = 2;
    x.s->fail_idx = x.s->p[x.me].idx;
    memcpy(x.s->fail_case, x.s->p[x.me].cur, sizeof x.s->fail_case);
    snprintf(x.s->msg, sizeof x.s->msg, "crash: WebAssembly trap");
  }
  report(0, x.s->failed);
  fflush(stdout);
}
}
#define MCX_MAIN
#else
inline int mcx_main(int argc, char** argv) {
  using namespace mcx;
  std::string tier = "quick";
  int jobs = 8;
  double seconds = 1e9, hang = 120;
  long only = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--seconds") seconds = atof(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--only") only = atol(argv[++i]);
    else { fprintf(stderr, "bad argument %s\n", argv[i]); return 4; }
  }
  if (only >= 0) jobs = 1;
  if (jobs > MAXP) jobs = MAXP;
  State& x = st();
  x.s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (x.s == MAP_FAILED) { perror("mmap"); return 4; }
  double t0 = now();
  x.jobs = jobs;
  x.only = only;
  x.deadline = t0 + seconds;
  pid_t pid[MAXP];
  fflush(stdout);
  for (int j = 0; j < jobs; j++) {
    pid[j] = fork();
    if (pid[j] < 0) { perror("fork"); return 4; }
    if (pid[j] == 0) {
      x.me = j;
      x.local = 0;
      x.mine = __atomic_fetch_add(&x.s->next, 1, __ATOMIC_RELAXED);
      enumerate(tier);
      finish_case();
      x.s->total = x.local;
      _exit(0);
    }
  }
  int left = jobs;
  bool bad = false;
  std::vector<u64> beat(jobs, 0);
  std::vector<double> when(jobs, t0);
  std::vector<bool> gone(jobs, false);
  char msg[2600] = "";
  while (left) {
    int stt;
    pid_t p = waitpid(-1, &stt, WNOHANG);
    if (p > 0) {
      for (int j = 0; j < jobs; j++)
        if (pid[j] == p) {
          gone[j] = true;
          left--;
          bool sig = WIFSIGNALED(stt);
          if ((sig || (WEXITSTATUS(stt) != 0 && x.s->failed == 0)) && !x.s->failed) {
            x.s->failed = 2;
            x.s->stop = 1;
            x.s->fail_idx = x.s->p[j].idx;
            memcpy(x.s->fail_case, x.s->p[j].cur, sizeof x.s->fail_case);
            if (sig) snprintf(x.s->msg, sizeof x.s->msg, "crash: signal %d (%s)", WTERMSIG(stt), strsignal(WTERMSIG(stt)));
            else snprintf(x.s->msg, sizeof x.s->msg, "unexpected exit with status %d", WEXITSTATUS(stt));
          }
        }
      continue;
    }
    usleep(2000);
    double t = now();
    for (int j = 0; j < jobs; j++) {
      if (gone[j]) continue;
      u64 b = x.s->p[j].beat;
      if (b != beat[j]) { beat[j] = b; when[j] = t; }
      else if (x.s->stop == 1 && t - when[j] > 5) kill(pid[j], SIGKILL), when[j] = t;
      else if (t - when[j] > hang && x.s->p[j].busy) {
        if (!x.s->failed) {
          x.s->failed = 2;
          x.s->stop = 1;
          x.s->fail_idx = x.s->p[j].idx;
          memcpy(x.s->fail_case, x.s->p[j].cur, sizeof x.s->fail_case);
          snprintf(x.s->msg, sizeof x.s->msg, "hang: no progress for %.0f s", hang);
        }
        kill(pid[j], SIGKILL);
      }
    }
  }
  bad = x.s->failed;
  report(now() - t0, bad);
  return bad ? 1 : 0;
}
#define MCX_MAIN int main(int argc, char** argv) { return mcx_main(argc, argv); }
#endif
#endif
