// P05: results independent of thread count and of the order in which tasks run.
// An application-supplied worker pool runs every batch in every order; each
// task's set of written elements is measured and must be disjoint from the
// others and together cover the result.
#include "gx.h"
#include <algorithm>
typedef uint8_t In; typedef DefaultL8R8BitDepthParams Bd;
struct Probe {  // destination watched while tasks run
  char* p = nullptr; size_t bytes = 0, elem = 1; bool measure = false;
  std::vector<int> owner;  // per element: 1 + index of the task that wrote it
  int task_no = 0; u64 batches = 0, tasks = 0;
};
struct Pool {
  std::vector<int> perm;
  bool beat = false, share = false;  // share: one allocator for all (tasks run one after another)
  Probe pr;
  std::vector<Allocator*> al;
  Allocator* alloc(size_t i) { while (al.size() <= i) al.push_back(new Allocator); return al[i]; }
  void run_all(std::vector<Task*>& t) {
    size_t n = t.size();
    std::vector<int> idx(n);
    for (size_t i = 0; i < n; i++) idx[i] = i;
    if (perm.size() == n) idx = perm;
    else if (perm.size() > 1 && perm[0] > perm.back()) std::reverse(idx.begin(), idx.end());
    pr.batches++; pr.tasks += n;
    for (int i : idx) {
      t[i]->local_allocator = alloc(share ? 0 : i);
      if (beat) mcx::beat();
      if (!pr.measure) { t[i]->Run(); continue; }
      // which elements does this task write? run it twice over different backgrounds
      std::vector<char> save(pr.p, pr.p + pr.bytes), wrote(pr.bytes / pr.elem, 0);
      for (int bg : {0x11, 0xEE}) {
        memset(pr.p, bg, pr.bytes);
        t[i]->Run();
        for (size_t b = 0; b < pr.bytes; b++) if ((unsigned char)pr.p[b] != bg) wrote[b / pr.elem] = 1;
      }
      std::vector<char> res(pr.p, pr.p + pr.bytes);
      memcpy(pr.p, save.data(), pr.bytes);
      pr.task_no++;
      for (size_t e = 0; e < wrote.size(); e++) if (wrote[e]) {
        if (pr.owner[e]) mcx::fail("destination element %zu is written by task %d and by task %d", e, pr.owner[e], pr.task_no);
        pr.owner[e] = pr.task_no;
        memcpy(pr.p + e * pr.elem, res.data() + e * pr.elem, pr.elem);
      }
    }
  }
  // same public methods as WorkersPool
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& tasks) { std::vector<Task*> t = tasks; run_all(t); for (Task* x : t) delete x; }
  void Execute(const std::vector<Task*>& tasks) { LegacyExecuteAndDestroyTasks(tasks); }
  template <typename TT> void Execute(int n, TT* tasks) { std::vector<Task*> t; for (int i = 0; i < n; i++) t.push_back(&tasks[i]); run_all(t); }
};
struct Ctx : MultiThreadGemmContextBase { Pool pool; Pool* workers_pool() { return &pool; } };
typedef OutputStageBiasAddition<VectorMap<const int32_t, VectorShape::Col>> BiasC;
typedef std::tuple<BiasC, OutputStageQuantizeDownInt32ByFixedPoint, OutputStageSaturatingCastToUint8> Pipe8;
template <typename C> struct Run {
  C* ctx; const Mat<In>* l; const Mat<In>* r; Mat<int32_t>* d; Mat<uint8_t>* d8; const int32_t *lo, *ro; const Pipe8* pipe8;
  template <MapOrder L, MapOrder R, MapOrder D> void run() const {
    MatrixMap<const In, L> lm(l->buf.data(), l->rows, l->cols, l->stride);
    MatrixMap<const In, R> rm(r->buf.data(), r->rows, r->cols, r->stride);
    mcx::calls();
    if (d) { MatrixMap<int32_t, D> dm(d->buf.data(), d->rows, d->cols, d->stride);
      GemmWithOutputPipelinePC<In, int32_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), std::tuple<>()); }
    else { MatrixMap<uint8_t, D> dm(d8->buf.data(), d8->rows, d8->cols, d8->stride);
      GemmWithOutputPipelinePC<In, uint8_t, Bd>(ctx, lm, rm, &dm, ColMap(lo, l->rows), RowMap(ro, r->cols), *pipe8); }
  }
};
struct Data {
  Mat<In> l, r; std::vector<int32_t> lo, ro, bias, want; std::vector<uint8_t> want8; Pipe8 pipe; int m, k, n, o;
  Data(int m_, int k_, int n_, int o_) : l(m_, k_, l_rm(o_), 1, 255), r(k_, n_, r_rm(o_), 2, 255), lo(m_), ro(n_), bias(m_), want((size_t)m_ * n_), want8((size_t)m_ * n_), m(m_), k(k_), n(n_), o(o_) {
    for (int i = 0; i < m; i++) { lo[i] = (int)(code(i, 5, m) % 301) - 150; bias[i] = (int)(code(i, 2, 7) % 20001) - 10000; }
    for (int i = 0; i < n; i++) ro[i] = (int)(code(i, 9, n) % 301) - 150;
    std::vector<int32_t> a((size_t)m * k), b((size_t)n * k);
    for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) { l(i, p) = code(i, p, k); a[(size_t)i * k + p] = l(i, p) + lo[i]; }
    for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) { r(p, j) = code(j, p, k + 77); b[(size_t)j * k + p] = r(p, j) + ro[j]; }
    std::get<0>(pipe).bias_vector = VectorMap<const int32_t, VectorShape::Col>(bias.data(), m);
    auto& q = std::get<1>(pipe);
    q.result_fixedpoint_multiplier = 1518500250; q.result_shift = 10; q.result_offset_after_shift = 99;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      int32_t s = 0;
      const int32_t *x = &a[(size_t)i * k], *y = &b[(size_t)j * k];
      for (int p = 0; p < k; p++) s += x[p] * y[p];
      want[(size_t)i * n + j] = s;
      int64_t v = (((int64_t)s + bias[i]) * 1518500250ll + (1ll << 30)) >> 31;
      v = (v >= 0 ? ((v + 512) >> 10) : -((-v + 512) >> 10)) + 99;
      want8[(size_t)i * n + j] = v < 0 ? 0 : v > 255 ? 255 : v;
    }
  }
  template <typename C> void check(C* c, bool u8, Pool* pool, int threads) {
    Mat<int32_t> d(m, n, d_rm(o), 1, 0x5ca1ab1e); Mat<uint8_t> d8(m, n, d_rm(o), 1, 0x5c);
    if (pool) {
      Probe& p = pool->pr;
      p.p = u8 ? (char*)d8.buf.data() : (char*)d.buf.data(); p.elem = u8 ? 1 : 4; p.bytes = (u8 ? d8.buf.size() : d.buf.size()) * p.elem;
      p.owner.assign(p.bytes / p.elem, 0); p.task_no = 0; p.batches = p.tasks = 0;
    }
    Run<C> run{c, &l, &r, u8 ? nullptr : &d, u8 ? &d8 : nullptr, lo.data(), ro.data(), &pipe};
    with_orders(o, run);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      int64_t got = u8 ? d8(i, j) : d(i, j), w = u8 ? want8[(size_t)i * n + j] : want[(size_t)i * n + j];
      if (got != w) mcx::fail("element (%d,%d) is %lld with maximum thread count %d, expected %lld", i, j, (long long)got, threads, (long long)w);
    }
    if (pool && pool->pr.measure && pool->pr.batches) {
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!pool->pr.owner[d.at(i, j)]) mcx::fail("element (%d,%d) is written by no task", i, j);
      size_t cnt = 0;
      for (int x : pool->pr.owner) cnt += x != 0;
      if (cnt != (size_t)m * n) mcx::fail("tasks write %zu elements outside the result", cnt - (size_t)m * n);
      if (u8 == false) { mcx::extra(0, 1); mcx::extra(1, pool->pr.tasks); }
    }
    mcx::elements((u64)m * n);
  }
};
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  struct S { int m, k, n; };
  std::vector<S> shapes = {{17, 256, 33}, {33, 128, 33}, {40, 100, 40}, {49, 130, 48}, {64, 64, 64}, {63, 64, 65}, {65, 70, 61}, {100, 50, 60}, {80, 80, 80}, {97, 90, 50}, {81, 257, 17}, {129, 512, 2}, {300, 700, 1}, {1, 900, 250}, {23, 400, 97}};
  if (T) for (int m : {25, 31, 32, 34, 48, 50, 73, 96, 98, 121, 145}) for (int n : {24, 25, 40, 73}) for (int k : {129, 200}) shapes.push_back({m, k, n});
  for (const S& s : shapes) for (int o = 0; o < 8; o++) {
    if (!T && (o * 5 + s.m + s.n) % 4) continue;
    if (!mcx::begin("%dx%dx%d order %d: every task order and thread count", s.m, s.k, s.n, o)) continue;
    Data D(s.m, s.k, s.n, o);
    for (int th : {2, 3, 4, 5, 6, 7, 16, 0}) for (int cache = 0; cache < 2; cache++) {
      mcx::Mark mk; mcx::note(" threads=%d cache=%d", th, cache);
      Ctx c; c.set_max_num_threads(th);
      if (cache) { c.set_l1_bytes_to_use(2500); c.set_l2_bytes_to_use(10000); c.set_l2_rhs_factor(0.5f); }
      c.pool.pr.measure = true;
      D.check(&c, false, &c.pool, th);
      D.check(&c, true, &c.pool, th);
      c.pool.pr.measure = false;
      int nt = c.pool.pr.batches ? c.pool.pr.tasks / c.pool.pr.batches : 0;
      if (nt < 2) continue;
      mcx::outcome(nt * 1000 + c.pool.pr.batches);
      std::vector<int> p(nt);
      for (int i = 0; i < nt; i++) p[i] = i;
      const bool all = nt <= (T ? 5 : 4);
      int cnt = 0;
      do {
        if (!all) {  // rotations and reversals only
          int k = cnt / 2; if (k >= nt) break;
          for (int i = 0; i < nt; i++) p[i] = (i + k) % nt;
          if (cnt % 2) std::reverse(p.begin(), p.end());
        }
        if (!T && cache && cnt > 2) break;
        c.pool.perm = p; c.pool.share = cnt % 2;
        D.check(&c, cnt % 3 == 1, &c.pool, th);
        mcx::extra(2, 1);
        cnt++; mcx::beat();
      } while (!all || std::next_permutation(p.begin(), p.end()));
      for (Allocator* a : c.pool.al) delete a;
      c.pool.al.clear();
    }
  }
  // many threads: every element written by exactly one task, forwards and backwards
  struct TS { int m, k, n; };
  for (TS s : {TS{1000, 33, 70}, TS{600, 64, 60}, TS{1031, 40, 100}, TS{67, 40, 1031}, TS{529, 150, 33}, TS{2100, 65, 17}}) for (int o = 0; o < 8; o++) {
    if (!T && (o + s.m) % 4) continue;
    if (!mcx::begin("%dx%dx%d order %d: many threads", s.m, s.k, s.n, o)) continue;
    Data D(s.m, s.k, s.n, o);
    for (int th : {2, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 23, 25, 31, 32, 33, 34, 47, 64}) {
      mcx::Mark mk; mcx::note(" threads=%d", th);
      Ctx c; c.set_max_num_threads(th);
      c.pool.pr.measure = true;
      D.check(&c, false, &c.pool, th);
      c.pool.pr.measure = false;
      int nt = c.pool.pr.batches ? c.pool.pr.tasks / c.pool.pr.batches : 0;
      if (nt < 2) continue;
      mcx::outcome(nt * 1000 + c.pool.pr.batches);
      std::vector<int> p(nt);
      for (int i = 0; i < nt; i++) p[i] = nt - 1 - i;
      c.pool.perm = p; c.pool.share = th % 2;
      D.check(&c, true, &c.pool, th);
      mcx::extra(2, 1); mcx::beat();
      for (Allocator* a : c.pool.al) delete a;
      c.pool.al.clear();
    }
  }
#ifdef HUGE_ROWS
  // so many rows that rows times tasks does not fit 32 bits
  struct HS { int m, th; };
  for (HS s : {HS{(1 << 25) + 5, 64}, HS{(1 << 24) + 21, 127}, HS{(1 << 28) + 5, 8}}) {
    if (s.m > (1 << 26) && !T) continue;
    if (!mcx::begin("%dx1x1 in %d parts", s.m, s.th)) continue;
    std::vector<uint8_t> l(s.m), d(s.m, 77); const uint8_t r = 3;
    for (int i = 0; i < s.m; i++) l[i] = i * 7 + (i >> 8);
    mcx::beat();
    MatrixMap<const uint8_t, MapOrder::RowMajor> lm(l.data(), s.m, 1); MatrixMap<const uint8_t, MapOrder::ColMajor> rm(&r, 1, 1); MatrixMap<uint8_t, MapOrder::ColMajor> dm(d.data(), s.m, 1);
    Ctx c; c.set_max_num_threads(s.th); c.pool.share = true; c.pool.beat = true;
    mcx::calls();
    GemmWithOutputPipeline<uint8_t, uint8_t, DefaultL8R8BitDepthParams>(&c, lm, rm, &dm, 1, 2, std::make_tuple(OutputStageSaturatingCastToUint8()));
    for (int i = 0; i < s.m; i++) if (d[i] != std::min(255, (l[i] + 1) * 5)) mcx::fail("element (%d,0) is %d with maximum thread count %d, expected %d", i, d[i], s.th, std::min(255, (l[i] + 1) * 5));
    mcx::elements(s.m);
    mcx::extra(0, 1); mcx::extra(1, c.pool.pr.tasks);
  }
#endif
  // the library's own pool
  for (const S& s : shapes) for (int o = 0; o < 8; o++) {
    if (!T && (o * 3 + s.m + s.n) % 4) continue;
    if (!mcx::begin("%dx%dx%d order %d: library pool, every thread count", s.m, s.k, s.n, o)) continue;
    Data D(s.m, s.k, s.n, o);
    GemmContext shared;
    for (int th : {1, 2, 3, 4, 5, 6, 7, 8, 0, 3, 1, 16}) {
      mcx::Mark mk; mcx::note(" threads=%d", th);
      shared.set_max_num_threads(th);
      GemmContext fresh; fresh.set_max_num_threads(th);
      for (int u8 = 0; u8 < 2; u8++) { D.check(&shared, u8, nullptr, th); D.check(&fresh, u8, nullptr, th); }
      mcx::beat();
    }
  }
  // the library's own pool with many threads
  for (TS s : {TS{600, 64, 60}, TS{67, 40, 1031}, TS{1031, 70, 33}}) for (int o : {0, 3, 5, 6}) {
    if (!mcx::begin("%dx%dx%d order %d: library pool, many threads", s.m, s.k, s.n, o)) continue;
    Data D(s.m, s.k, s.n, o);
    GemmContext shared;
    for (int th : {9, 10, 13, 17, 24, 33, 12, 65}) {
      mcx::Mark mk; mcx::note(" threads=%d", th);
      shared.set_max_num_threads(th);
      for (int u8 = 0; u8 < 2; u8++) { D.check(&shared, u8, nullptr, th); mcx::beat(); }
    }
  }
}
MCX_MAIN
