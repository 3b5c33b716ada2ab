// P18: instrumentation and profiler under all schedules.  Built with -DGEMMLOWP_PROFILING.
#include "mc.h"
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <tuple>
#ifdef WITH_GEMM
#include "public/gemmlowp.h"
#endif
#include "profiling/instrumentation.h"
#include "profiling/profiler.h"
using namespace gemmlowp;
namespace {
const char* const A = "alpha"; const char* const B = "beta"; const char* const C = "gamma"; const char* const D = "delta";
// ---- reading reports
struct Line { int level; double pct; std::string label; };
struct Report { int threads, samples; std::vector<Line> l; };
// Parses all reports printed so far.
std::vector<Report> reports() {
  std::vector<Report> out;
  const char* p = mc_stdout();
  while (*p) {
    const char* e = p; while (*e && *e != '\n') e++;
    std::string s(p, e - p);
    p = *e ? e + 1 : e;
    if (s.empty()) continue;
    Report r;
    if (sscanf(s.c_str(), "gemmlowp profile (%d threads, %d samples)", &r.threads, &r.samples) == 2) { out.push_back(r); continue; }
    Line x; size_t i = 0; while (i < s.size() && s[i] == ' ') i++;
    x.level = i / 4 + 1;
    char* q; x.pct = strtod(s.c_str() + i, &q);
    MC_CHECK(*q == '%' && !out.empty(), "unparsable report line '%s'", s.c_str());
    x.label = q + 2;
    out.back().l.push_back(x);
  }
  return out;
}
typedef std::vector<std::string> Path;
bool other(const std::string& s) { return s == "other" || s == "other (outside of any label)"; }
// Checks the arithmetic of a report, and calls seen(path, number of samples with exactly this stack).
template <typename F> void check(const Report& r, F seen) {
  const double W = r.samples;
  std::vector<long> w(r.l.size());
  for (size_t i = 0; i < r.l.size(); i++) {
    double x = r.l[i].pct * W / 100; w[i] = (long)(x + 0.5);
    MC_CHECK(x - w[i] < 0.01 * W && w[i] - x < 0.01 * W && x >= 0, "line '%s' has a fractional weight %g of %g", r.l[i].label.c_str(), x, W);
  }
  Path path; long top = 0; bool anytop = false;
  for (size_t i = 0; i < r.l.size(); i++) {
    const int lev = r.l[i].level;
    MC_CHECK(lev <= (int)path.size() + 1, "report skips a level");
    path.resize(lev - 1);
    path.push_back(r.l[i].label);
    if (lev == 1) { top += w[i]; anytop = true; MC_CHECK((r.l[i].label == "other (outside of any label)") == other(r.l[i].label), "'other' at top level"); }
    long kids = 0; bool has = false, leaf = other(r.l[i].label);
    long last = -1;
    for (size_t j = i + 1; j < r.l.size() && r.l[j].level > lev; j++)
      if (r.l[j].level == lev + 1) { has = true; kids += w[j]; MC_CHECK(last < 0 || w[j] <= last, "children are not sorted"); last = w[j]; }
    MC_CHECK(!(leaf && has), "'other' has children");
    if (has) { MC_CHECK(kids == w[i], "weights below '%s' add up to %ld, not %ld", r.l[i].label.c_str(), kids, w[i]); }
    else {
      Path q = path; if (leaf) q.pop_back();
      if (w[i]) seen(q, w[i]);
    }
  }
  if (anytop) MC_CHECK(top == (long)r.samples, "top-level weights add up to %ld of %d samples", top, r.samples);
  else if (r.samples) seen(Path(), (long)r.samples);
}
struct Allow { std::vector<Path> ok; };
void only(const Report& r, const std::vector<Path>& ok) {
  check(r, [&](const Path& p, long w) {
    for (auto& q : ok) if (q == p) { mc_outcome(w * 131 + (&q - &ok[0])); return; }
    std::string s; for (auto& x : p) s += "/" + x;
    mc_fail("the report contains the stack '%s', which no sampled thread ever had (%ld samples)", s.c_str(), w);
  });
}
// ---- instrumented threads
void work_ab() { ScopedProfilingLabel a(A); { ScopedProfilingLabel b(B); } }
void work_upd() { ScopedProfilingLabel a(C); a.Update(D); }
void* th_ab(void*) { RegisterCurrentThreadForProfiling(); work_ab(); return 0; }
void* th_upd(void*) { RegisterCurrentThreadForProfiling(); work_upd(); return 0; }
void* th_label_only(void*) { ScopedProfilingLabel a("unregistered"); return 0; }
void* th_reg(void*) { RegisterCurrentThreadForProfiling(); return 0; }
const Path e, pa{A}, pab{A, B}, pc{C}, pd{D};
// stacks are per thread and one profile may sample several threads
void end(size_t nreports) {
  MC_CHECK(mc_threads_unjoined() == 0, "%d threads were left behind", mc_threads_unjoined());
  MC_CHECK(reports().size() == nreports, "%zu reports instead of %zu", reports().size(), nreports);
}
}  // namespace
// a thread registers, runs labels and exits while being profiled
MC_SCENARIO(prof_exit) {
  StartProfiling();
  pthread_t t; pthread_create(&t, 0, th_ab, 0);
  pthread_join(t, 0);
  FinishProfiling();
  end(1);
  auto r = reports()[0];
  MC_CHECK(r.threads == 0, "the exited thread is still registered");
  only(r, {e, pa, pab});
}
// the profile ends while the thread is running or exiting
MC_SCENARIO(prof_finish_during) {
  StartProfiling();
  pthread_t t; pthread_create(&t, 0, th_upd, 0);
  FinishProfiling();
  pthread_join(t, 0);
  end(1);
  auto r = reports()[0];
  MC_CHECK(r.threads <= 1, "%d threads", r.threads);
  only(r, {e, pc, pd});
}
// the thread lives before the profile starts
MC_SCENARIO(prof_start_during) {
  pthread_t t; pthread_create(&t, 0, th_ab, 0);
  StartProfiling();
  FinishProfiling();
  pthread_join(t, 0);
  end(1);
  only(reports()[0], {e, pa, pab});
}
// an unregistered thread uses labels: never sampled
MC_SCENARIO(prof_unregistered) {
  StartProfiling();
  pthread_t t; pthread_create(&t, 0, th_label_only, 0);
  RegisterCurrentThreadForProfiling();
  work_upd();
  pthread_join(t, 0);
  FinishProfiling();
  end(1);
  MC_CHECK(reports()[0].threads == 1, "%d threads registered instead of 1", reports()[0].threads);
  only(reports()[0], {e, pc, pd});
}
// two threads with different labels
MC_SCENARIO(prof_two) {
  pthread_t t, u; pthread_create(&t, 0, th_ab, 0);
  pthread_create(&u, 0, th_upd, 0);
  StartProfiling();
  FinishProfiling();
  pthread_join(t, 0); pthread_join(u, 0);
  end(1);
  only(reports()[0], {e, pa, pab, pc, pd});
}
// two profiles one after the other: nothing of the first is in the second
MC_SCENARIO(prof_twice) {
  RegisterCurrentThreadForProfiling();
  StartProfiling(); work_ab(); FinishProfiling();
  StartProfiling(); work_upd(); FinishProfiling();
  end(2);
  auto r = reports();
  only(r[0], {e, pa, pab});
  only(r[1], {e, pc, pd});
  MC_CHECK(r[0].threads == 1 && r[1].threads == 1, "threads registered: %d, %d", r[0].threads, r[1].threads);
}
// two threads ask whether they may profile: a profile begins as soon as the other has ended
namespace { void* th_profile(void* p) { StartProfiling(); FinishProfiling(); return 0; } }
MC_SCENARIO(prof_handover) {
  pthread_t t; pthread_create(&t, 0, th_profile, 0); pthread_join(t, 0);
  th_profile(0);
  end(2);
}
// threads come and go: nothing accumulates
MC_SCENARIO(prof_churn) {
  pthread_t t;
  pthread_create(&t, 0, th_ab, 0); pthread_join(t, 0);
  const int keys = mc_keys_live(); const size_t blocks = mc_heap_blocks(); const size_t bytes = mc_heap_bytes();
  for (int i = 0; i < 3; i++) {
    pthread_create(&t, 0, i == 1 ? th_label_only : th_upd, 0); pthread_join(t, 0);
    MC_CHECK(mc_keys_live() == keys, "each exited thread leaks thread-specific keys (%d, then %d)", keys, mc_keys_live());
    MC_CHECK(mc_heap_blocks() == blocks && mc_heap_bytes() == bytes, "each exited thread leaks memory");
  }
  MC_CHECK(ThreadsUnderProfiling().empty(), "exited threads are still registered");
}
// registering twice, or from a thread that already has labels, samples once
MC_SCENARIO(prof_reregister) {
  { ScopedProfilingLabel a(A); RegisterCurrentThreadForProfiling(); RegisterCurrentThreadForProfiling();
    StartProfiling();
    { ScopedProfilingLabel b(B); }
    FinishProfiling(); }
  end(1);
  MC_CHECK(reports()[0].threads == 1, "registered twice");
  only(reports()[0], {pa, pab});
}
// misuse stops
MC_SCENARIO(prof_abort) {
  int w = mc_choose(3);
  if (w == 0) { mc_expect_abort(); FinishProfiling(); }
  if (w == 1) { StartProfiling(); mc_expect_abort(); StartProfiling(); }
  if (w == 2) { std::vector<ScopedProfilingLabel*> v; for (int i = 0; i < 30; i++) v.push_back(new ScopedProfilingLabel(A)); mc_expect_abort(); ScopedProfilingLabel x(B); }
  mc_fail("misuse %d of the profiler was not stopped", w);
}
MC_SCENARIO(prof_deep) {
  RegisterCurrentThreadForProfiling();
  static char names[30][4];
  std::vector<ScopedProfilingLabel*> v; Path p; std::vector<Path> ok{p};
  for (int i = 0; i < 30; i++) { names[i][0] = 'a' + i / 10; names[i][1] = '0' + i % 10; p.push_back(names[i]); ok.push_back(p); }
  for (int i = 0; i < 28; i++) v.push_back(new ScopedProfilingLabel(names[i]));
  StartProfiling();
  for (int i = 28; i < 30; i++) v.push_back(new ScopedProfilingLabel(names[i]));
  for (int i = 29; i >= 28; i--) delete v[i];
  FinishProfiling();
  for (int i = 27; i >= 0; i--) delete v[i];
  end(1);
  only(reports()[0], {ok.begin() + 28, ok.end()});
}
// every multiset of up to three recorded stacks of depth up to three over two labels
MC_SCENARIO(prof_tree) {
  int n = mc_choose(4);
  std::vector<ProfilingStack> v; std::vector<Path> want;
  for (int i = 0; i < n; i++) {
    ProfilingStack s; Path p; s.size = mc_choose(4);
    for (size_t d = 0; d < s.size; d++) { s.labels[d] = mc_choose(2) ? A : B; p.push_back(s.labels[d]); }
    v.push_back(s); want.push_back(p);
  }
  ProfileTreeView(v).Print();
  auto r = reports();
  MC_CHECK(r.size() == 1 && r[0].samples == n, "%d samples reported instead of %d", r[0].samples, n);
  long tot = 0;
  check(r[0], [&](const Path& p, long w) {
    long c = 0; for (auto& q : want) c += q == p;
    std::string s; for (auto& x : p) s += "/" + x;
    MC_CHECK(c == w, "stack '%s' is reported %ld times, recorded %ld times", s.c_str(), w, c);
    tot += w;
  });
  MC_CHECK(tot == n, "%ld of %d samples are in the tree", tot, n);
}
#ifdef WITH_GEMM
// a profiled multi-threaded product gives the same result; workers register and unregister
MC_SCENARIO(prof_gemm) {
  static unsigned char l[32 * 64], r[64 * 64]; static std::int32_t d[32 * 64];
  for (int i = 0; i < 32 * 64; i++) l[i] = i * 7;
  for (int i = 0; i < 64 * 64; i++) r[i] = i * 5;
  StartProfiling();
  {
    GemmContext c; c.set_max_num_threads(2);
    MatrixMap<const std::uint8_t, MapOrder::RowMajor> lm(l, 32, 64);
    MatrixMap<const std::uint8_t, MapOrder::ColMajor> rm(r, 64, 64);
    MatrixMap<std::int32_t, MapOrder::ColMajor> dm(d, 32, 64);
    GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(&c, lm, rm, &dm, -3, 9, std::make_tuple());
  }
  FinishProfiling();
  for (int i = 0; i < 32; i++) for (int j = 0; j < 64; j++) {
    std::int32_t s = 0;
    for (int p = 0; p < 64; p++) s += (l[i * 64 + p] - 3) * (r[j * 64 + p] + 9);
    MC_CHECK(d[j * 32 + i] == s, "element (%d,%d) wrong while profiling", i, j);
  }
  end(1);
  auto rr = reports()[0];
  MC_CHECK(rr.threads == 0, "an exited worker is still registered");
  check(rr, [&](const Path& p, long w) { mc_outcome(p.size() * 100 + w); });
}
#endif
