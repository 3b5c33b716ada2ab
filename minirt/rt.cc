// A minimal run-time for back ends whose C library is not installed here:
// 64- and 32-bit MIPS (MSA), 32-bit x86, and WebAssembly (SIMD).
// The headers of another target with the same data model are used; this file
// implements what the drivers call.  One thread per process.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#define X extern "C"
typedef unsigned char uc;
X int rt_main_argc(int, char**);
int main(int, char**);

// ---- system calls
#if defined(__mips64)
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long v0 asm("$2") = n, a0 asm("$4") = a, a1 asm("$5") = b, a2 asm("$6") = c, a3 asm("$7") = d, a4 asm("$8") = e, a5 asm("$9") = f;
  asm volatile("syscall" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2), "r"(a4), "r"(a5)
               : "$1", "$3", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "hi", "lo", "memory");
  return a3 ? -v0 : v0;
}
enum { WRITE = 5001, MMAP = 5009, MPROTECT = 5010, MUNMAP = 5011, NANOSLEEP = 5034, GETPID = 5038, FORK = 5056, WAIT4 = 5059, KILL = 5060, EXIT = 5205, GETTIME = 5222 };
asm(".text\n.globl __start\n.ent __start\n__start:\n.set push\n.set noreorder\nmove $4,$29\nli $8,-16\nand $29,$29,$8\njal rt_start\ndaddiu $29,$29,-64\n.set pop\n.end __start\n");
#elif defined(__mips__)
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long v0 asm("$2") = n, a0 asm("$4") = a, a1 asm("$5") = b, a2 asm("$6") = c, a3 asm("$7") = d, t0 asm("$8") = e, t1 asm("$9") = f;
  asm volatile("subu $sp,$sp,32\nsw %[e],16($sp)\nsw %[f],20($sp)\nsyscall\naddu $sp,$sp,32"
               : "+r"(v0), "+r"(a3), [e] "+r"(t0), [f] "+r"(t1) : "r"(a0), "r"(a1), "r"(a2)
               : "$1", "$3", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "hi", "lo", "memory");
  return a3 ? -v0 : v0;
}
enum { WRITE = 4004, MMAP = 4090, MPROTECT = 4125, MUNMAP = 4091, NANOSLEEP = 4166, GETPID = 4020, FORK = 4002, WAIT4 = 4114, KILL = 4037, EXIT = 4246, GETTIME = 4263 };
asm(".text\n.globl __start\n.ent __start\n__start:\n.set push\n.set noreorder\nmove $4,$29\nli $8,-16\nand $29,$29,$8\njal rt_start\naddiu $29,$29,-64\n.set pop\n.end __start\n");
#elif defined(__i386__)
static long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long = 0) {
  long r;
  asm volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
  return r;
}
enum { WRITE = 4, MMAP = 90, MPROTECT = 125, MUNMAP = 91, NANOSLEEP = 162, GETPID = 20, FORK = 2, WAIT4 = 114, KILL = 37, EXIT = 252, GETTIME = 265 };
asm(".text\n.globl _start\n_start:\nmovl %esp,%eax\nandl $-16,%esp\nsubl $12,%esp\npushl %eax\ncall rt_start\n");
#elif defined(__wasm__)
#define IMPORT(n) __attribute__((import_module("env"), import_name(n)))
X IMPORT("write") int js_write(int fd, const void* p, int n);
X IMPORT("exit") void js_exit(int code);
X IMPORT("now") double js_now();
#else
#error unknown target
#endif

X __attribute__((noreturn)) void _exit(int c) {
#ifdef __wasm__
  js_exit(c);
#else
  sys(EXIT, c);
#endif
  __builtin_trap();
}
X void exit(int c) { _exit(c); }
X long write(int fd, const void* p, size_t n) {
#ifdef __wasm__
  return js_write(fd, p, n);
#else
  return sys(WRITE, fd, (long)p, n);
#endif
}
static int err;
X int* __errno_location() { return &err; }
static long ret(long r) { if (r < 0 && r > -4096) { err = -r; return -1; } return r; }
#ifdef __wasm__
static size_t brk_ = 0;
X void* mmap(void*, size_t n, int, int, int, long) {
  n = (n + 65535) & ~(size_t)65535;
  size_t p = __builtin_wasm_memory_grow(0, n >> 16);
  if (p == (size_t)-1) return (void*)-1;
  return (void*)(p << 16);
}
X int mprotect(void*, size_t, int) { return 0; }
X int munmap(void*, size_t) { return 0; }
X int fork() { return -1; }
X int waitpid(int, int*, int) { return -1; }
X int kill(int, int) { return -1; }
X void abort() { _exit(134); }
struct ts { long long s; long n; };  // (64-bit time_t would not matter: only the driver reads it)
X int usleep(unsigned) { return 0; }
X int nanosleep(const void*, void*) { return 0; }
#else
X void* mmap(void* a, size_t n, int prot, int flags, int fd, long off) {
#if defined(__mips__)
  if (flags & 0x20) flags = (flags & ~0x20) | 0x800;  // MAP_ANONYMOUS
#endif
#if defined(__i386__)
  long v[6] = {(long)a, (long)n, prot, flags, fd, off};
  return (void*)ret(sys(MMAP, (long)v));
#else
  return (void*)ret(sys(MMAP, (long)a, n, prot, flags, fd, off));
#endif
}
X int mprotect(void* a, size_t n, int p) { return ret(sys(MPROTECT, (long)a, n, p)); }
X int munmap(void* a, size_t n) { return ret(sys(MUNMAP, (long)a, n)); }
X int fork() { return ret(sys(FORK)); }
X int waitpid(int p, int* st, int o) { return ret(sys(WAIT4, p, (long)st, o, 0)); }
X int kill(int p, int s) { return ret(sys(KILL, p, s)); }
X __attribute__((noreturn)) void abort() { sys(KILL, sys(GETPID), 6); _exit(134); }
struct ts { long s, n; };
X int nanosleep(const ts* a, ts* b) { return ret(sys(NANOSLEEP, (long)a, (long)b)); }
X int usleep(unsigned us) { ts t = {(long)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, 0); }
#endif
X int clock_gettime(int c, ts* t) {
#ifdef __wasm__
  double d = js_now(); ((long*)t)[0] = (long)d; ((long*)t)[1] = (long)((d - (long)d) * 1e9); return 0;
#else
  return ret(sys(GETTIME, c, (long)t));
#endif
}
X int __clock_gettime64(int c, void*) { abort(); }
X long sysconf(int) { return 65536; }

// ---- memory and strings
X void* memcpy(void* d, const void* s, size_t n) { uc* a = (uc*)d; const uc* b = (const uc*)s;
  if (!(((uintptr_t)a | (uintptr_t)b) & 7)) for (; n >= 8; n -= 8, a += 8, b += 8) *(volatile uint64_t*)a = *(const uint64_t*)b;
  while (n--) { *a++ = *b++; asm volatile("" ::: "memory"); } return d; }
X void* memmove(void* d, const void* s, size_t n) { uc* a = (uc*)d; const uc* b = (const uc*)s;
  if (a < b) while (n--) { *a++ = *b++; asm volatile("" ::: "memory"); } else while (n--) { a[n] = b[n]; asm volatile("" ::: "memory"); } return d; }
X void* memset(void* d, int c, size_t n) { uc* a = (uc*)d; uint64_t w = (uc)c * 0x0101010101010101ull;
  while (n && ((uintptr_t)a & 7)) { *a++ = c; n--; }
  for (; n >= 8; n -= 8, a += 8) *(volatile uint64_t*)a = w;
  while (n--) { *a++ = c; asm volatile("" ::: "memory"); } return d; }
X int memcmp(const void* x, const void* y, size_t n) { const uc *a = (const uc*)x, *b = (const uc*)y;
  for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
X int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
X size_t strlen(const char* s) { size_t n = 0; while (s[n]) { n++; asm volatile("" ::: "memory"); } return n; }
X int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (uc)*a - (uc)*b; }
X void* memchr(const void* p, int c, size_t n) { for (const uc* a = (const uc*)p; n; n--, a++) if (*a == (uc)c) return (void*)a; return 0; }
X char* strsignal(int) { return (char*)"signal"; }
// size classes of powers of two; header: 16 bytes before the block {mapping, class}
struct Hdr { void* base; int cls; };
static void* freel[40];
static const size_t BIG = 1 << 20;
static char *pool, *pool_end;
static void* raw(size_t n, int* cls) {
  int c = 6;
  while (((size_t)1 << c) < n) c++;
  *cls = c;
  size_t b = (size_t)1 << c;
  if (freel[c]) { void* p = freel[c]; freel[c] = *(void**)p; return p; }
  if (b >= BIG) { void* p = mmap(0, b, 3, 0x22, -1, 0); return p == (void*)-1 ? 0 : p; }
  if ((size_t)(pool_end - pool) < b) {
    pool = (char*)mmap(0, 4 * BIG, 3, 0x22, -1, 0);
    if (pool == (char*)-1) { pool = pool_end = 0; return 0; }
    pool_end = pool + 4 * BIG;
  }
  void* p = pool; pool += b; return p;
}
static void* amalloc(size_t al, size_t n) {
  if (n > (size_t)1 << (8 * sizeof(size_t) - 2)) return 0;
  int c;
  char* p = (char*)raw(n + al + 16, &c);
  if (!p) return 0;
  uintptr_t u = ((uintptr_t)p + 16 + al - 1) / al * al;
  Hdr* h = (Hdr*)(u - 16);
  h->base = p; h->cls = c;
  return (void*)u;
}
X void* malloc(size_t n) { return amalloc(16, n); }
X void free(void* p) {
  if (!p) return;
  Hdr h = *(Hdr*)((char*)p - 16);
  if (((size_t)1 << h.cls) >= BIG) { munmap(h.base, (size_t)1 << h.cls); return; }
  *(void**)h.base = freel[h.cls]; freel[h.cls] = h.base;
}
X void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
X int posix_memalign(void** r, size_t al, size_t n) { *r = amalloc(al < 16 ? 16 : al, n); return *r ? 0 : 12; }
X void* aligned_alloc(size_t al, size_t n) { return amalloc(al < 16 ? 16 : al, n); }
X void* memalign(size_t al, size_t n) { return amalloc(al < 16 ? 16 : al, n); }
void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---- input and output
struct Out { char* p; size_t left, n; int fd; };
static char obuf[4][512]; static size_t on[4];
static void flush(int fd) { if (on[fd]) { write(fd, obuf[fd], on[fd]); on[fd] = 0; } }
static void put(Out* o, char c) {
  o->n++;
  if (o->fd) { obuf[o->fd][on[o->fd]++] = c; if (on[o->fd] == 512 || (o->fd == 2 && c == '\n')) flush(o->fd); }
  else if (o->left > 1) { *o->p++ = c; o->left--; }
}
static void num(Out* o, unsigned long long v, unsigned base, bool neg, int width, bool zero, int prec) {
  char t[70]; int n = 0;
  do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v);
  while (n < prec) t[n++] = '0';
  int len = n + neg;
  if (!zero) while (width > len) { put(o, ' '); width--; }
  if (neg) put(o, '-');
  if (zero) while (width > len) { put(o, '0'); width--; }
  while (n) put(o, t[--n]);
}
static void flt(Out* o, double d, int prec) {
  if (d != d) { put(o, 'n'); put(o, 'a'); put(o, 'n'); return; }
  if (d < 0) { put(o, '-'); d = -d; }
  if (d > 1e18) { put(o, 'i'); put(o, 'n'); put(o, 'f'); return; }
  double s = 1; for (int i = 0; i < prec; i++) s *= 10;
  unsigned long long w = (unsigned long long)d, f = (unsigned long long)((d - (double)w) * s + 0.5);
  if (f >= (unsigned long long)s) { w++; f -= (unsigned long long)s; }
  num(o, w, 10, false, 0, false, 0);
  if (prec) { put(o, '.'); num(o, f, 10, false, 0, false, prec); }
}
static void fmt(Out* o, const char* f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { put(o, *f); continue; }
    f++;
    bool zero = false; int width = 0, prec = -1, lng = 0;
    while (*f == '0' || *f == '-' || *f == '+') { if (*f == '0') zero = true; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f == 'l') lng++; if (*f == 'z') lng = sizeof(size_t) == 8 ? 1 : 0; f++; }
    switch (*f) {
      case 'd': case 'i': { long long v = lng > 1 ? va_arg(ap, long long) : lng ? va_arg(ap, long) : va_arg(ap, int); num(o, v < 0 ? 0ull - v : v, 10, v < 0, width, zero, 0); break; }
      case 'u': case 'x': case 'X': { unsigned long long v = lng > 1 ? va_arg(ap, unsigned long long) : lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); num(o, v, *f == 'u' ? 10 : 16, false, width, zero, 0); break; }
      case 'p': num(o, (uintptr_t)va_arg(ap, void*), 16, false, 0, false, 0); break;
      case 'c': put(o, va_arg(ap, int)); break;
      case 's': { const char* s = va_arg(ap, const char*); for (int i = 0; s && s[i] && (prec < 0 || i < prec); i++) put(o, s[i]); break; }
      case 'f': case 'g': case 'e': flt(o, va_arg(ap, double), prec < 0 ? 6 : prec); break;
      case '%': put(o, '%'); break;
      default: put(o, '?');
    }
  }
}
X { void *stdout = (void*)1, *stderr = (void*)2; }
X int vsnprintf(char* p, size_t n, const char* f, va_list ap) { Out o = {p, n, 0, 0}; fmt(&o, f, ap); if (n) *o.p = 0; return o.n; }
X int snprintf(char* p, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(p, n, f, ap); va_end(ap); return r; }
X int vfprintf(void* fl, const char* f, va_list ap) { Out o = {0, 0, 0, (int)(intptr_t)fl}; fmt(&o, f, ap); return o.n; }
X int fprintf(void* fl, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fl, f, ap); va_end(ap); return r; }
X int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf((void*)1, f, ap); va_end(ap); return r; }
X int putc(int c, void* fl) { Out o = {0, 0, 0, (int)(intptr_t)fl}; put(&o, c); return c; }
X int fputc(int c, void* fl) { return putc(c, fl); }
X int putchar(int c) { return putc(c, (void*)1); }
X int fputs(const char* s, void* fl) { while (*s) putc(*s++, fl); return 0; }
X int puts(const char* s) { fputs(s, (void*)1); putchar('\n'); return 0; }
X size_t fwrite(const void* p, size_t a, size_t b, void* fl) { for (size_t i = 0; i < a * b; i++) putc(((const char*)p)[i], fl); return b; }
X int fflush(void*) { flush(1); flush(2); return 0; }
X void perror(const char* s) { fputs(s, (void*)2); putc('\n', (void*)2); }
X double strtod(const char* s, char**) {
  double v = 0, sc = 1; bool neg = *s == '-', dot = false; if (neg) s++;
  for (; (*s >= '0' && *s <= '9') || *s == '.'; s++) if (*s == '.') dot = true; else { v = v * 10 + (*s - '0'); if (dot) sc *= 10; }
  if (*s == 'e') { s++; if (*s == '+') s++; for (int e = *s - '0'; e > 0; e--) v *= 10; }
  return neg ? -v / sc : v / sc;
}
X long strtol(const char* s, char**, int) { long v = 0; bool neg = *s == '-'; if (neg) s++; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; return neg ? -v : v; }
X long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
X void __assert_fail(const char* e, const char* f, unsigned l, const char*) { fprintf((void*)2, "%s:%u: assertion failed: %s\n", f, l, e); fflush(0); abort(); }

// ---- threads: there is one
X int pthread_mutex_init(void*, const void*) { return 0; }
X int pthread_mutex_destroy(void*) { return 0; }
X int pthread_mutex_lock(void*) { return 0; }
X int pthread_mutex_unlock(void*) { return 0; }
X int pthread_cond_init(void*, const void*) { return 0; }
X int pthread_cond_destroy(void*) { return 0; }
X int pthread_cond_wait(void*, void*) { abort(); }
X int pthread_cond_signal(void*) { return 0; }
X int pthread_cond_broadcast(void*) { return 0; }
X int pthread_create(unsigned long*, const void*, void*, void*) { abort(); }
X int pthread_join(unsigned long, void**) { abort(); }

// ---- C++
X int __cxa_atexit(void*, void*, void*) { return 0; }
X void __cxa_pure_virtual() { abort(); }
X { void* __dso_handle; }
// ---- compiler support
#if !defined(__mips64)
// 64-bit atomics shared between processes
static volatile int* spin;
static void lock() { while (__atomic_exchange_n(spin, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock() { __atomic_store_n(spin, 0, __ATOMIC_RELEASE); }
static uint64_t at_add(volatile void* p, uint64_t v, int) { lock(); uint64_t o = *(volatile uint64_t*)p; *(volatile uint64_t*)p = o + v; unlock(); return o; }
static bool at_cas(volatile void* p, void* e, uint64_t v, int, int) {
  lock(); uint64_t o = *(volatile uint64_t*)p; bool ok = o == *(uint64_t*)e; if (ok) *(volatile uint64_t*)p = v; else *(uint64_t*)e = o; unlock(); return ok;
}
X uint64_t fetch_add_8(volatile void* p, uint64_t v, int m) asm("__atomic_fetch_add_8");
X uint64_t fetch_add_8(volatile void* p, uint64_t v, int m) { return at_add(p, v, m); }
X bool cas_8(volatile void* p, void* e, uint64_t v, int a, int b) asm("__atomic_compare_exchange_8");
X bool cas_8(volatile void* p, void* e, uint64_t v, int a, int b) { return at_cas(p, e, v, a, b); }
static uint64_t udm(uint64_t a, uint64_t b, uint64_t* r) {
  uint32_t ah = a >> 32, bh = b >> 32;
  if (!ah && !bh) { if (r) *r = (uint32_t)a % (uint32_t)b; return (uint32_t)a / (uint32_t)b; }
  uint64_t q = 0, m = 0;
  for (int i = 63; i >= 0; i--) { bool top = m >> 63; m = m << 1 | ((a >> i) & 1); if (top || m >= b) { m -= b; q |= 1ull << i; } }
  if (r) *r = m;
  return q;
}
X uint64_t __udivdi3(uint64_t a, uint64_t b) { return udm(a, b, 0); }
X uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; udm(a, b, &r); return r; }
X int64_t __divdi3(int64_t a, int64_t b) { uint64_t q = udm(a < 0 ? 0ull - a : a, b < 0 ? 0ull - b : b, 0); return (a < 0) != (b < 0) ? 0ull - q : q; }
X int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; udm(a < 0 ? 0ull - a : a, b < 0 ? 0ull - b : b, &r); return a < 0 ? 0ull - r : r; }
X double __floatundidf(uint64_t a) { return (double)(uint32_t)(a >> 32) * 4294967296.0 + (double)(uint32_t)a; }
X double __floatdidf(int64_t a) { return a < 0 ? -__floatundidf(0ull - a) : __floatundidf(a); }
X float __floatundisf(uint64_t a) { return (float)__floatundidf(a); }
X float __floatdisf(int64_t a) { return (float)__floatdidf(a); }
X uint64_t __fixunsdfdi(double d) { if (d <= 0) return 0; uint32_t h = (uint32_t)(d / 4294967296.0); return (uint64_t)h << 32 | (uint32_t)(d - (double)h * 4294967296.0); }
X int64_t __fixdfdi(double d) { return d < 0 ? 0ull - __fixunsdfdi(-d) : __fixunsdfdi(d); }
X int64_t __fixsfdi(float d) { return __fixdfdi(d); }
#endif
// ---- mathematics (only as accurate as the drivers need)
X double floor(double d) { if (!(d > -9e15 && d < 9e15)) return d; double t = (double)(int64_t)d; return t > d ? t - 1 : t; }
X double ceil(double d) { return -floor(-d); }
X double round(double d) { return d < 0 ? -floor(-d + 0.5) : floor(d + 0.5); }
X long long llround(double d) { return (long long)round(d); }
X long lround(double d) { return (long)round(d); }
X double ldexp(double d, int k) { double b = k < 0 ? 0.5 : 2; for (int n = k < 0 ? -k : k; n; n--) d *= b; return d; }
X double trunc(double d) { return d < 0 ? -floor(-d) : floor(d); }
X double fabs(double d) { return d < 0 ? -d : d; }
X double exp(double d) {
  if (d > 700) return 1e308 * 10; if (d < -700) return 0;
  int k = (int)floor(d * 1.4426950408889634 + 0.5);
  double r = d - k * 0.6931471805599453, t = 1, s = 1;
  for (int i = 1; i < 24; i++) { t *= r / i; s += t; }
  double b = k < 0 ? 0.5 : 2; for (int n = k < 0 ? -k : k; n; n--) s *= b;
  return s;
}
X double tanh(double d) {
  if (d < 0) return -tanh(-d);
  if (d > 25) return 1;
  if (d < 0.01) { double q = d * d; return d * (1 - q / 3 + 2 * q * q / 15 - 17 * q * q * q / 315); }
  double e = exp(-2 * d); return (1 - e) / (1 + e);
}
// ---- start
#ifndef __wasm__
X void (*__init_array_start[])() __attribute__((visibility("hidden")));
X void (*__init_array_end[])() __attribute__((visibility("hidden")));
X void rt_start(long* sp) {
#if !defined(__mips64)
  spin = (volatile int*)mmap(0, 4096, 3, 0x21, -1, 0);
#endif
  for (void (**f)() = __init_array_start; f != __init_array_end; f++) (*f)();
  int r = main((int)sp[0], (char**)(sp + 1));
  fflush(0);
  _exit(r);
}
#else
X void __wasm_call_ctors();
X __attribute__((export_name("rt_init"))) void rt_init() {
  spin = (volatile int*)calloc(1, 64);
  __wasm_call_ctors();
}
#endif
