// Memory regions bounded by inaccessible pages on both sides.
#ifndef ARENA_H_
#define ARENA_H_
#include <sys/mman.h>
#include <unistd.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
struct Arena {
  char* lo; char* hi; char* base; size_t len;
  explicit Arena(size_t bytes) {
    size_t pg = sysconf(_SC_PAGESIZE);
    len = (bytes + pg - 1) / pg * pg;
    base = (char*)mmap(0, len + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == (char*)MAP_FAILED) { perror("mmap"); abort(); }
    lo = base + pg; hi = lo + len;
    if (mprotect(lo, len, PROT_READ | PROT_WRITE)) { perror("mprotect"); abort(); }
  }
  // where: 0 flush with the lower guard, 1 flush with the upper guard
  template <typename T> T* place(size_t count, int where) const {
    size_t b = count * sizeof(T);
    if (b > len) { fprintf(stderr, "arena too small: %zu > %zu\n", b, len); abort(); }
    return (T*)(where ? hi - b : lo);
  }
  void readonly(bool on) const { if (mprotect(lo, len, on ? PROT_READ : PROT_READ | PROT_WRITE)) { perror("mprotect"); abort(); } }
};
#endif
