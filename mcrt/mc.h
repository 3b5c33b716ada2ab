// Scenario-side interface of the mcrt stateless model checker.
#ifndef MC_H_
#define MC_H_
#include <stddef.h>
#include <stdint.h>

extern "C" {
// Reports a violation of the property in the current execution (does not return).
void mc_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
// Free non-deterministic choice in [0, n): every value is explored.
int mc_choose(int n);
// Fingerprint of the observable outcome of this execution (for coverage counts).
void mc_outcome(uint64_t h);
// Number of threads created so far / alive (created and not yet finished) now,
// the main one excluded.
int mc_threads_created(void);
int mc_threads_alive(void);
int mc_threads_unjoined(void);
// Largest number of threads simultaneously not finished (main excluded).
int mc_threads_peak(void);
int mc_self(void);
// Bytes / blocks currently allocated from the modelled heap.
size_t mc_heap_bytes(void);
size_t mc_heap_blocks(void);
// Number of live modelled thread-specific-data keys.
int mc_keys_live(void);
// Visits a scheduling point explicitly (a visible no-op).
void mc_point(void);
// Text captured from printf-like calls of the code under test.
const char* mc_stdout(void);
void mc_stdout_clear(void);
// Makes a failing assert()/abort() an expected outcome: returns normally from
// the scenario instead of reporting a violation.
void mc_expect_abort(void);
// True while the previous step was taken by another thread, etc. (debug only)
long mc_step(void);
// Is there still non-quiescent work (threads that are runnable)?
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}

struct McScenario {
  const char* name;
  void (*fn)();
  McScenario* next;
  McScenario(const char* n, void (*f)());
};
#define MC_SCENARIO(NAME)                                  \
  static void mc_scn_##NAME();                             \
  static McScenario mc_reg_##NAME(#NAME, mc_scn_##NAME);   \
  static void mc_scn_##NAME()

#define MC_CHECK(COND, ...)          \
  do {                               \
    if (!(COND)) mc_fail(__VA_ARGS__); \
  } while (0)

#endif
