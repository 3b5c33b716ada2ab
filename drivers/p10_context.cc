// P10: a reused context behaves like a fresh one: all histories of products and settings up to a length.
#include "gx.h"
#include <functional>
#include <malloc.h>
typedef DefaultL8R8BitDepthParams B88; typedef L8R8WithLhsNonzeroBitDepthParams BNZ;
static const int PAD = 3;
// all products take their operands, offsets and biases from the same places, with contents of their own
static uint8_t LA[1 << 17], RA[1 << 17]; static int32_t LOA[512], ROA[512], BA[512]; static int64_t DA[1 << 13];
enum Out { I32, U8, I16, OUT_KINDS };
struct Settings { int th, l1, l2; float rf; };
typedef VectorMap<const int32_t, VectorShape::Col> VC;
struct Product {
  const char* name; int m, k, n, o, out, mode, off;  // mode 0: uint8, 1: lhs nonzero, 2: int8 (NEON)
  Mat<uint8_t> l, r; std::vector<int32_t> lo, ro, bias; std::string want, shape;
  Product(const char* nm, int m_, int k_, int n_, int o_, int out_, int mode_, int off_, int salt = 0) : name(nm), m(m_), k(k_), n(n_), o(o_), out(out_), mode(mode_), off(off_), l(m_, k_, l_rm(o_), 1, 9), r(k_, n_, r_rm(o_), 0, 9), lo(m_ + 1), ro(n_ + 1), bias(m_ + 1) {
    for (int i = 0; i < m; i++) for (int p = 0; p < k; p++) { l(i, p) = code(i, p, m + 3 * n + salt); if (mode == 1 && !l(i, p)) l(i, p) = 1; if (mode == 2 && l(i, p) == 128) l(i, p) = 129; }
    for (int j = 0; j < n; j++) for (int p = 0; p < k; p++) r(p, j) = code(j, p, m + 5 * k + salt);
    for (int i = 0; i < m; i++) { lo[i] = off ? (int)(code(i, off, 1 + salt) % 256) - 255 : -3; bias[i] = (int)(code(i, 2, off + salt) % 20001) - 10000; }
    for (int j = 0; j < n; j++) ro[j] = off ? (int)(code(j, off, 2 + salt) % 256) - 255 : 11;
  }
  int size() const { return out == I32 ? 4 : out == I16 ? 2 : 1; }
  // exact value of an element, from the definition
  int64_t value(int i, int j) const {
    int64_t s = 0;
    for (int p = 0; p < k; p++) s += (int64_t)((mode == 2 ? (int8_t)l(i, p) : l(i, p)) + lo[i]) * ((mode == 2 ? (int8_t)r(p, j) : r(p, j)) + ro[j]);
    if (out == I32) return s;
    s += bias[i];
    if (out == U8) {
      int64_t v = (s * 1518500250ll + (1ll << 30)) >> 31;
      v = (v >= 0 ? ((v + 512) >> 10) : -((-v + 512) >> 10)) + 99;
      return v < 0 ? 0 : v > 255 ? 255 : v;
    }
    int64_t a = s < 0 ? -s : s, v = (a * 1 + 32) >> 6; v = s < 0 ? -v : v;
    return v < -32768 ? -32768 : v > 32767 ? 32767 : v;
  }
  template <typename C, typename In, typename Bd, typename O, typename Pipe> struct Call {
    C* c; const Product* p; O* d; const Pipe* pipe;
    template <MapOrder L, MapOrder R, MapOrder D> void run() const {
      MatrixMap<const In, L> lm((const In*)LA, p->m, p->k, p->l.stride);
      MatrixMap<const In, R> rm((const In*)RA, p->k, p->n, p->r.stride);
      MatrixMap<O, D> dm(d, p->m, p->n, (D == MapOrder::RowMajor ? p->n : p->m) + PAD);
      mcx::calls();
      if (p->off) GemmWithOutputPipelinePC<In, O, Bd>(c, lm, rm, &dm, ColMap(LOA, p->m), RowMap(ROA, p->n), *pipe);
      else GemmWithOutputPipeline<In, O, Bd>(c, lm, rm, &dm, p->lo[0], p->ro[0], *pipe);
    }
  };
  template <typename C, typename In, typename Bd> void typed(C* c, char* d) const {
    if (out == I32) { std::tuple<> t; Call<C, In, Bd, int32_t, std::tuple<>> f{c, this, (int32_t*)d, &t}; orders(f); }
    else {
      OutputStageBiasAddition<VC> b; b.bias_vector = VC(BA, m);
      if (out == U8) {
        OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = 1518500250; q.result_shift = 10; q.result_offset_after_shift = 99;
        auto t = std::make_tuple(b, q, OutputStageSaturatingCastToUint8());
        Call<C, In, Bd, uint8_t, decltype(t)> f{c, this, (uint8_t*)d, &t}; orders(f);
      } else {
        OutputStageQuantizeDownInt32ToUint8Scale q; q.result_offset = 0; q.result_mult_int = 1; q.result_shift = 6;
        auto t = std::make_tuple(b, q, OutputStageSaturatingCastToInt16());
        Call<C, In, Bd, int16_t, decltype(t)> f{c, this, (int16_t*)d, &t}; orders(f);
      }
    }
  }
  template <typename F> void orders(const F& f) const {
    switch (o) { case 4: f.template run<MapOrder::RowMajor, MapOrder::ColMajor, MapOrder::ColMajor>(); break;
      case 5: f.template run<MapOrder::RowMajor, MapOrder::ColMajor, MapOrder::RowMajor>(); break; default: abort(); }
  }
  template <typename C> std::string run(C* c, int fill) const {
    size_t bytes = (size_t)(d_rm(o) ? m : n) * ((d_rm(o) ? n : m) + PAD) * size();
    if (l.buf.size() > sizeof LA || r.buf.size() > sizeof RA || lo.size() > 512 || ro.size() > 512 || bytes + 8 > sizeof DA) abort();
    memcpy(LA, l.buf.data(), l.buf.size()); memcpy(RA, r.buf.data(), r.buf.size());
    memcpy(LOA, lo.data(), lo.size() * 4); memcpy(ROA, ro.data(), ro.size() * 4); memcpy(BA, bias.data(), bias.size() * 4);
    char* d = (char*)DA; memset(d, fill, bytes + 8);
    if (mode == 0) typed<C, uint8_t, B88>(c, d);
    else if (mode == 1) typed<C, uint8_t, BNZ>(c, d);
#if defined(GEMMLOWP_NEON)
    else typed<C, int8_t, SignedL8R8WithLhsNonzeroBitDepthParams>(c, d);
#endif
    for (int j = 0; j < 8; j++) if (d[bytes + j] != (char)fill) mcx::fail("%s wrote past the destination", name);
    // result elements only; the gaps must keep the fill
    std::string e;
    int maj = d_rm(o) ? m : n, in = d_rm(o) ? n : m;
    if (!k) { for (size_t b = 0; b < bytes; b++) if (d[b] != (char)fill) mcx::fail("%s has no depth but wrote to the destination", name); return ""; }
    for (int a = 0; a < maj; a++) {
      e.append(d + (size_t)a * (in + PAD) * size(), (size_t)in * size());
      for (int b = 0; b < PAD * size(); b++) if (d[((size_t)a * (in + PAD) + in) * size() + b] != (char)fill) mcx::fail("%s wrote into a stride gap", name);
    }
    return e;
  }
  // the result on a fresh default context, checked against the definition
  void prepare() {
    GemmContext c; c.set_max_num_threads(1);
    want = run(&c, 0x5c);
    size_t at = 0; int maj = d_rm(o) ? m : n, in = d_rm(o) ? n : m;
    if (k) for (int a = 0; a < maj; a++) for (int b = 0; b < in; b++, at += size()) {
      int64_t g = 0; const char* p = want.data() + at;
      if (out == I32) { int32_t v; memcpy(&v, p, 4); g = v; } else if (out == I16) { int16_t v; memcpy(&v, p, 2); g = v; } else g = (uint8_t)*p;
      int64_t w = d_rm(o) ? value(a, b) : value(b, a);
      if (g != w) mcx::fail("%s on a fresh context: element (%d,%d) is %lld, expected %lld", name, d_rm(o) ? a : b, d_rm(o) ? b : a, (long long)g, (long long)w);
    }
    char s[100]; snprintf(s, sizeof s, "%s %dx%dx%d", name, m, k, n); shape = s;
  }
};
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  typedef GemmContext C;
  std::vector<Product> P;
  P.emplace_back("int32", 5, 7, 6, 4, I32, 0, 0);
  P.emplace_back("uint8", 9, 33, 4, 5, U8, 0, 1);
  P.emplace_back("int32 threads", 40, 90, 37, 5, I32, 0, 2);
  P.emplace_back("int32 threads, other contents", 40, 90, 37, 5, I32, 0, 2, 77);
  P.emplace_back("uint8 threads", 36, 120, 64, 4, U8, 1, 3);
  P.emplace_back("int16 threads", 70, 60, 33, 5, I16, 0, 0);
  P.emplace_back("vector", 130, 600, 1, 4, U8, 0, 4);
  P.emplace_back("vector, other contents", 130, 600, 1, 4, U8, 0, 4, 55);
  P.emplace_back("row", 1, 50, 20, 5, I32, 1, 5);
  P.emplace_back("deep", 3, 700, 3, 4, I16, 1, 6);
  P.emplace_back("depth 0", 8, 0, 8, 4, I32, 0, 0);
#if defined(GEMMLOWP_NEON)
  P.emplace_back("int8", 21, 70, 50, 5, I32, 2, 7);
#endif
  for (auto& p : P) { mcx::beat(); p.prepare(); }
  struct Op { std::string name; std::function<void(C*)> f; };
  std::vector<Op> ops;
  for (auto& p : P) ops.push_back({p.shape, [&p](C* c) {
    std::string g = p.run(c, 0x37);
    if (g != p.want) { size_t i = 0; while (g[i] == p.want[i]) i++; mcx::fail("%s on the reused context differs from a fresh context (first at element %zu of the result)", p.shape.c_str(), i / p.size()); }
    mcx::elements(g.size()); } });
  const int np = ops.size();
  ops.push_back({"threads 1", [](C* c) { c->set_max_num_threads(1); }});
  ops.push_back({"threads 2", [](C* c) { c->set_max_num_threads(2); }});
  ops.push_back({"threads 3", [](C* c) { c->set_max_num_threads(3); }});
  ops.push_back({"threads 0", [](C* c) { c->set_max_num_threads(0); }});
  ops.push_back({"small caches", [](C* c) { c->set_l1_bytes_to_use(1200); c->set_l2_bytes_to_use(4000); c->set_l2_rhs_factor(0.5f); }});
  ops.push_back({"default caches", [](C* c) { c->set_l1_bytes_to_use(kDefaultL1CacheSize); c->set_l2_bytes_to_use(kDefaultL2CacheSize); c->set_l2_rhs_factor(kDefaultL2RhsFactor); }});
  ops.push_back({"tiny rhs share", [](C* c) { c->set_l2_rhs_factor(0.05f); c->set_l2_bytes_to_use(9000); }});
  const int n = ops.size();
#ifndef LEN
#define LEN 3
#endif
  const int len = T ? LEN + 1 : LEN;
  // every history of exactly len operations after an initial thread setting; each operation is checked when it is a product
  std::vector<int> h;
  int init = 0;
  auto play = [&](int perturb) {
    mallopt(M_PERTURB, perturb);
    C c; c.set_max_num_threads(init);
    for (int i : h) { mcx::note(" ; %s", ops[i].name.c_str()); ops[i].f(&c); }
    mcx::extra(0, 1); mcx::beat();
  };
  std::function<void(int)> rec = [&](int d) {
    if (!d) { if (h.back() < np) { mcx::Mark mk; play(h[0] * 16 + 1); } return; }  // (a history ending with a setting checks nothing new)
    for (int i = 0; i < n; i++) {
      if (!h.empty() && i >= np && h.back() >= np && i <= h.back()) continue;  // settings commute or override
      h.push_back(i); rec(d - 1); h.pop_back();
    }
  };
  for (int th : {1, 2, 4}) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (i >= np && j >= np && j <= i) continue;
    init = th;
    if (!mcx::begin("context with %d threads; histories of %d operations starting with %s, %s", th, len, ops[i].name.c_str(), ops[j].name.c_str())) continue;
    h = {i, j};
    rec(len - 2);
    h.clear();
  }
  // long alternations: every ordered pair of products, repeated, with and without worker growth
  for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) {
    if (!mcx::begin("alternation of %s and %s", ops[i].name.c_str(), ops[j].name.c_str())) continue;
    for (int p : {0, 0xA5}) {
      mallopt(M_PERTURB, p);
      C c;
      for (int t : {1, 2, 2, 3, 1, 4, 2, 0}) { c.set_max_num_threads(t); ops[i].f(&c); ops[j].f(&c); mcx::beat(); }
      C d; d.set_max_num_threads(2);  // two contexts in alternation
      for (int t = 0; t < 3; t++) { ops[i].f(&c); ops[j].f(&d); ops[j].f(&c); ops[i].f(&d); }
      mcx::extra(0, 1);
    }
  }
}
MCX_MAIN
