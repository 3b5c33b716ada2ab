// Interposed allocation functions (link with WRAP flags): ownership, accounting and failure injection.
#ifndef HEAP_H_
#define HEAP_H_
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
namespace heap {
struct B { char* p; size_t n; int tag; };
const int CAP = 1 << 14;
inline B* tab() { static B t[CAP]; return t; }
inline int& used() { static int n; return n; }
inline int& tag() { static int t; return t; }          // 0: allocations are not tracked
inline long& count() { static long c; return c; }      // tracked allocations so far
inline long& fail_at() { static long c = -1; return c; } // refuse this tracked allocation
inline size_t& refuse_over() { static size_t c = ~(size_t)0; return c; }
inline pthread_mutex_t& mu() { static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; return m; }
inline void put(void* p, size_t n) {
  pthread_mutex_lock(&mu());
  if (used() == CAP) abort();
  B b = {(char*)p, n, tag()}; tab()[used()++] = b;
  pthread_mutex_unlock(&mu());
}
inline bool refuse(size_t n) {
  if (!tag()) return false;
  long c = __atomic_fetch_add(&count(), 1, __ATOMIC_SEQ_CST);
  return c == fail_at() || n > refuse_over();
}
inline void drop(void* p) {
  if (!p || !used()) return;
  pthread_mutex_lock(&mu());
  for (int i = used() - 1; i >= 0; i--) if (tab()[i].p == p) { tab()[i] = tab()[--used()]; break; }
  pthread_mutex_unlock(&mu());
}
inline long live() { return used(); }
inline size_t bytes() { size_t s = 0; for (int i = 0; i < used(); i++) s += tab()[i].n; return s; }
inline size_t largest() { size_t s = 0; for (int i = 0; i < used(); i++) if (tab()[i].n > s) s = tab()[i].n; return s; }
// the tracked block containing [p, p+n), or null
inline const B* owner(const void* p, size_t n) {
  for (int i = 0; i < used(); i++) if ((char*)p >= tab()[i].p && (char*)p + n <= tab()[i].p + tab()[i].n) return &tab()[i];
  return 0;
}
}  // namespace heap
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_memalign(size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { if (heap::refuse(n)) return 0; void* p = __real_malloc(n); if (p && heap::tag()) heap::put(p, n); return p; }
void __wrap_free(void* p) { heap::drop(p); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (heap::refuse(a * b)) return 0; void* p = __real_calloc(a, b); if (p && heap::tag()) heap::put(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) { if (heap::refuse(n)) return 0; heap::drop(q); void* p = __real_realloc(q, n); if (p && heap::tag()) heap::put(p, n); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (heap::refuse(n)) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r && heap::tag()) heap::put(*o, n); return r; }
void* __wrap_memalign(size_t a, size_t n) { if (heap::refuse(n)) return 0; void* p = __real_memalign(a, n); if (p && heap::tag()) heap::put(p, n); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (heap::refuse(n)) return 0; void* p = __real_aligned_alloc(a, n); if (p && heap::tag()) heap::put(p, n); return p; }
}
#endif
