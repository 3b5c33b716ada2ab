// P11: explicit exploration of the scratch allocator against a reference model.
#include "mcx.h"
#include "heap.h"
#include <fcntl.h>
#include <functional>
#include <memory>
#include <new>
#include "internal/allocator.h"
using namespace gemmlowp;
using std::int8_t; using std::uint8_t; using std::int16_t; using std::uint16_t; using std::int32_t; using std::uint32_t;
struct Kind { int type; size_t n; };
const int TS[6] = {1, 1, 2, 2, 4, 4};
static Allocator::Handle reserve(Allocator& a, Kind k) {
  switch (k.type) {
    case 0: return a.Reserve<uint8_t>(k.n); case 1: return a.Reserve<int8_t>(k.n); case 2: return a.Reserve<uint16_t>(k.n);
    case 3: return a.Reserve<int16_t>(k.n); case 4: return a.Reserve<uint32_t>(k.n); default: return a.Reserve<int32_t>(k.n);
  }
}
static char* pointer(Allocator& a, const Allocator::Handle& h, int type) {
  switch (type) {
    case 0: return (char*)a.GetPointer<uint8_t>(h); case 1: return (char*)a.GetPointer<int8_t>(h); case 2: return (char*)a.GetPointer<uint16_t>(h);
    case 3: return (char*)a.GetPointer<int16_t>(h); case 4: return (char*)a.GetPointer<uint32_t>(h); default: return (char*)a.GetPointer<int32_t>(h);
  }
}
// The real allocator next to its model.
struct M {
  alignas(Allocator) char mem[sizeof(Allocator)];
  Allocator* a;
  bool committed; int gen; bool touch;
  struct Bl { Kind k; Allocator::Handle h; char* p; };
  std::vector<Bl> bl;
  std::vector<Bl> stale;
  M(bool t = true) : a(0), touch(t) { create(); }
  ~M() { heap::tag() = 0; if (a) { a = 0; } }
  void create() { heap::tag() = 1; a = new (mem) Allocator; heap::tag() = 0; committed = false; gen = 0; bl.clear(); stale.clear(); }
  size_t bytes(const Bl& b) const { return b.k.n * TS[b.k.type]; }
  size_t need() const { size_t s = 0; for (auto& b : bl) s += (bytes(b) + 63) / 64 * 64; return s; }
  void res(Kind k) { heap::tag() = 1; Bl b; b.k = k; b.h = reserve(*a, k); b.p = 0; heap::tag() = 0; bl.push_back(b); }
  void commit() {
    const size_t had = heap::largest(); const long c = heap::count();
    heap::tag() = 1; a->Commit(); heap::tag() = 0;
    if (had >= need() && heap::count() != c) mcx::fail("existing storage of %zu bytes was not reused for %zu bytes", had, need());
    if (heap::live() > 1) mcx::fail("%ld storage blocks are held at once", heap::live());
    committed = true;
    for (auto& b : bl) { b.p = pointer(*a, b.h, b.k.type); }
    for (size_t i = 0; i < bl.size(); i++) {
      const size_t n = bytes(bl[i]);
      if ((uintptr_t)bl[i].p % 64) mcx::fail("block %zu is not aligned to a cache line", i);
      if (n && !heap::owner(bl[i].p, n)) mcx::fail("block %zu (%zu bytes) is not inside memory owned by the allocator", i, n);
      for (size_t j = 0; j < i; j++) {
        const size_t q = bytes(bl[j]);
        if (n && q && bl[i].p < bl[j].p + q && bl[j].p < bl[i].p + n) mcx::fail("blocks %zu and %zu overlap", j, i);
      }
      if (touch) memset(bl[i].p, 0x40 + i, n);
    }
    check();
  }
  void check() {  // pointers and contents are stable
    for (size_t i = 0; i < bl.size(); i++) {
      if (pointer(*a, bl[i].h, bl[i].k.type) != bl[i].p) mcx::fail("the pointer of block %zu changed", i);
      if (touch) for (size_t x = 0, n = bytes(bl[i]); x < n; x++) if (bl[i].p[x] != (char)(0x40 + i)) mcx::fail("the contents of block %zu changed at byte %zu", i, x);
    }
    mcx::elements(bl.size());
  }
  void decommit() {
    check();
    a->Decommit();
    committed = false; gen++;
    stale = bl; bl.clear();
  }
  void destroy() {
    a->~Allocator(); a = 0;
    if (heap::live()) mcx::fail("destruction left %ld blocks (%zu bytes)", heap::live(), heap::bytes());
  }
};
// Runs f in a child; returns the wait status.
static int child(const std::function<void()>& f) {
  fflush(0);
  pid_t p = fork();
  if (p < 0) { perror("fork"); abort(); }
  if (!p) { int fd = open("/dev/null", 1); dup2(fd, 2); f(); _exit(0); }
  int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
  return s;
}
static void must_stop(const char* what, const std::function<void()>& f) {
  int s = child(f);
  mcx::extra(1, 1);
  if (!(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT)) mcx::fail("%s was not stopped (status 0x%x)", what, s);
}
static std::vector<Kind> ALPHA;
enum { COMMIT = 100, DECOMMIT, RENEW };
static std::string show(const std::vector<int>& h) {
  std::string s; static const char* N[6] = {"u8", "i8", "u16", "i16", "u32", "i32"};
  for (int o : h) { if (!s.empty()) s += " "; if (o == COMMIT) s += "commit"; else if (o == DECOMMIT) s += "decommit"; else if (o == RENEW) s += "renew";
    else { char b[40]; snprintf(b, 40, "%s[%zu]", N[ALPHA[o].type], ALPHA[o].n); s += b; } }
  return s;
}
static void apply(M& m, int o) {
  if (o == COMMIT) m.commit(); else if (o == DECOMMIT) m.decommit();
  else if (o == RENEW) { m.destroy(); m.create(); } else m.res(ALPHA[o]);
}
static bool legal(const M& m, int o) {
  if (o == COMMIT) return !m.committed; if (o == DECOMMIT) return m.committed; if (o == RENEW) return !m.committed && m.bl.empty();
  return !m.committed && m.bl.size() < 5;
}
static void run(const std::vector<int>& h) {
  M m; for (int o : h) apply(m, o);
  mcx::calls(h.size()); mcx::extra(0, 1);
  if (m.committed) m.decommit();
  if (!m.bl.empty()) { m.commit(); m.decommit(); }
  mcx::outcome(mcx::mix(heap::largest(), m.gen));
  m.destroy();
}
// every illegal operation in the state reached by h
static void illegal(const std::vector<int>& h) {
  M m; for (int o : h) apply(m, o);
  Allocator& a = *m.a;
  if (m.committed) {
    must_stop("commit while committed", [&] { a.Commit(); });
    must_stop("reservation while committed", [&] { a.Reserve<uint8_t>(3); });
    must_stop("destruction while committed", [&] { a.~Allocator(); });
    for (auto& b : m.bl) for (int t = 0; t < 6; t++) if (t != b.k.type) must_stop("a pointer of another type", [&] { pointer(a, b.h, t); });
  } else {
    must_stop("decommit while not committed", [&] { a.Decommit(); });
    for (auto& b : m.bl) must_stop("a pointer before commit", [&] { pointer(a, b.h, b.k.type); });
    if (!m.bl.empty()) must_stop("destruction with pending reservations", [&] { a.~Allocator(); });
    if (m.bl.size() == 5) must_stop("a sixth reservation", [&] { a.Reserve<uint8_t>(1); });
  }
  for (auto& b : m.stale) must_stop("a handle of an earlier generation", [&] { pointer(a, b.h, b.k.type); });
  if (m.committed) m.decommit();
  else if (!m.bl.empty()) { m.commit(); m.decommit(); }
  m.destroy();
}
// every allocation of the history refused in turn
static void faults(const std::vector<int>& h) {
  for (int f = 0; f < 20; f++) {
    long made = 0;
    int pfd[2]; if (pipe(pfd)) abort();
    int s = child([&] {
      heap::count() = 0; heap::fail_at() = f;
      M m; for (int o : h) { apply(m, o); if (heap::count() > f && write(pfd[1], "x", 1) == 1) _exit(7); }
      _exit(heap::count() > f ? 7 : 3);
    });
    close(pfd[0]); close(pfd[1]);
    (void)made;
    mcx::extra(2, 1);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 3) return;  // fewer allocations than that
    if (!(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT)) mcx::fail("the program continued after allocation %d was refused (status 0x%x)", f, s);
  }
}
static void sequences(int depth, int nres, bool renew, const std::function<void(const std::vector<int>&)>& leaf) {
  // all legal sequences of exactly the given length (prefixes are covered by their extensions)
  std::vector<int> h;
  struct St { bool c; size_t n; };
  std::function<void(St)> rec = [&](St s) {
    if ((int)h.size() == depth) { leaf(h); return; }
    auto go = [&](int o, St t) { h.push_back(o); rec(t); h.pop_back(); };
    if (s.c) { go(DECOMMIT, {false, 0}); return; }
    go(COMMIT, {true, s.n});
    if (renew && !s.n && !h.empty()) go(RENEW, {false, 0});
    if (s.n < 5) for (int r = 0; r < nres; r++) go(r, {false, s.n + 1});
  };
  rec({false, 0});
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
#ifdef __x86_64__
  const int D1 = T ? 10 : 9, D2 = T ? 15 : 12;
#else
  const int D1 = T ? 7 : 6, D2 = T ? 10 : 8;
#endif
  ALPHA = {{0, 1}, {5, 16}, {3, 33}, {0, 0}, {4, 1000}, {1, 65}, {2, 2048}};
  auto batched = [&](const char* what, int depth, int nres, bool renew, const std::function<void(const std::vector<int>&)>& f, u64 per) {
    std::vector<std::vector<int>> b;
    auto flush = [&] {
      if (b.empty()) return;
      if (mcx::begin("%s, length %d, from [%s]", what, depth, show(b[0]).c_str()))
        for (auto& h : b) { mcx::Mark mk; mcx::note(" -> %s", show(h).c_str()); f(h); mcx::beat(); }
      b.clear();
    };
    sequences(depth, nres, renew, [&](const std::vector<int>& h) { b.push_back(h); if (b.size() == per) flush(); });
    flush();
  };
  for (int d = 1; d <= (T ? 7 : D1 > 7 ? 7 : 6); d++) batched("all histories over seven sizes", d, 7, true, run, 500);
#ifndef NDEBUG
  batched("all histories over four sizes", D1, 4, true, run, 500);
  batched("all histories over two sizes", D2, 2, true, run, 500);
  // small then large then small etc. with more kinds of sizes
  ALPHA = {{4, 1000}, {0, 1}, {5, 16}, {3, 33}, {0, 0}, {1, 65}, {2, 2048}};
  batched("all histories over two sizes (small/large)", D2, 2, true, run, 500);
  for (int d = 1; d <= (T ? 7 : 6); d++) batched("illegal operations after histories over two sizes", d, 2, true, illegal, 20);
#endif
  for (int d = 1; d <= (T ? 8 : 6); d++) batched("refused allocations in histories over two sizes", d, 2, true, faults, 20);
  // every single size, alone and after a neighbour
  for (int t = 0; t < 6; t++) {
    if (!mcx::begin("every single size up to 700, type %d", t)) continue;
    for (size_t n = 0; n <= 700; n++) {
      M m; m.res({t, n}); m.res({0, 1}); m.res({t, n + 1}); m.commit(); m.decommit();
      m.res({0, 1}); m.res({t, n}); m.commit(); m.decommit(); m.destroy();
      mcx::extra(0, 1); mcx::beat();
    }
  }
  // huge sizes: either enough memory is provided, or the program stops
  const size_t MX = ~(size_t)0;
  std::vector<size_t> huge = {MX, MX - 1, MX - 62, MX - 63, MX - 64, MX / 2, MX / 2 + 1, MX / 2 + 2, MX / 2 - 63, MX / 4, MX / 4 + 1, MX / 4 + 2, MX / 8 + 1, MX / 16 + 1};
  for (size_t a : huge) for (int t : {0, 3, 5}) {
    if (!mcx::begin("huge reservation of %zu elements of type %d", a, t)) continue;
    for (size_t b : {(size_t)0, (size_t)1, (size_t)100, MX / 2, MX / 4, MX / 4 + 1, MX / 2 + 1}) for (int order = 0; order < 2; order++) {
      mcx::Mark mk; mcx::note(" with %zu bytes %s", b, order ? "before" : "after");
      int s = child([&] {
        heap::refuse_over() = (size_t)1 << 24;  // the system never grants as much
        M m(false);
        if (order) { m.res({0, b}); m.res({t, a}); } else { m.res({t, a}); m.res({0, b}); }
        heap::tag() = 1; m.a->Commit(); heap::tag() = 0;
        _exit(9);
      });
      mcx::extra(2, 1);
      if (!(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT)) mcx::fail("the program continued with an impossible reservation (status 0x%x)", s);
      mcx::beat();
    }
  }
}
MCX_MAIN
