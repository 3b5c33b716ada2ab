// P17: the NEON meta-library element-wise transforms against their affine definitions.
#include "mcx.h"
#include "arena.h"
#include "regs.h"
#include <algorithm>
#include <cmath>
#include <iomanip>
#include <iostream>
#include <limits>
#include "public/gemmlowp.h"
#include "meta/multi_thread_transform.h"
#include "meta/single_thread_transform.h"
#include "meta/transform_kernels.h"
using namespace gemmlowp; using namespace gemmlowp::meta;
typedef Transform1DParams<int32_t, uint8_t, Requantize> RQ;
typedef Transform1DParams<float, uint8_t, Quantize> QU;
typedef Transform1DParams<uint8_t, float, Dequantize> DQ;
typedef Transform1DParams<uint8_t, uint8_t, MinMax<uint8_t>> MM;
typedef Transform1DParams<uint8_t, int32_t, BiasAdd<uint8_t>> BA;
static Arena AI(1 << 20), AO(1 << 20), AB(1 << 16);
// Runs the tasks one after the other, in either order; finds out which elements each of them writes.
struct SerialPool {
  int order; char* r; size_t rn; int ran;
  void Execute(const std::vector<Task*>& t) {
    ran = t.size();
    std::vector<unsigned char> who(rn, 0), save(r, r + rn);
    for (size_t i = 0; i < t.size(); i++) for (int v : {0x00, 0xFF}) {
      memset(r, v, rn);
      t[i]->Run();
      for (size_t b = 0; b < rn; b++) if ((unsigned char)r[b] != v) {
        if (who[b] && who[b] != i + 1) mcx::fail("tasks %d and %zu of %zu both write byte %zu of the output", who[b] - 1, i, t.size(), b);
        who[b] = i + 1;
      }
    }
    std::copy(save.begin(), save.end(), r);
    for (size_t i = 0; i < t.size(); i++) t[order ? t.size() - 1 - i : i]->Run();
    for (auto x : t) delete x;
  }
};
static WorkersPool* wp;
// threads 0: single-thread entry; mode 0/1 serial pool in either order, 2 workers
template <typename P> void run(const P& p, int threads, int mode, size_t on) {
  mcx::calls();
  if (threads == 0) preserved("transform", [&] { Transform1D<P, 16>(p); });
  else if (mode == 2) { SimpleContext<WorkersPool> c(threads, wp); MultiThreadTransform1D<SimpleContext<WorkersPool>, P, 16>(&c, p); }
  else {
    SerialPool s; s.order = mode; s.r = (char*)p.output; s.rn = on * sizeof(typename P::OutType); s.ran = 0;
    SimpleContext<SerialPool> c(threads, &s);
    MultiThreadTransform1D<SimpleContext<SerialPool>, P, 16>(&c, p);
    if (s.ran > threads) mcx::fail("%d tasks for a limit of %d threads", s.ran, threads);
    if (s.ran > 1) mcx::extra(0, 1);
  }
}
static inline double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
template <typename In, typename Out> struct Buf {
  In* in; Out* out; size_t ni, no;
  Buf(size_t a, size_t b) : ni(a), no(b) { in = AI.place<In>(a, 1); out = AO.place<Out>(b, 1); memset(AO.lo, 0xA5, AO.hi - AO.lo < 65536 ? AO.hi - AO.lo : 0); 
    size_t slack = std::min<size_t>((char*)out - AO.lo, 256); memset((char*)out - slack, 0xA5, slack + b * sizeof(Out)); }
  void front(const char* n) { size_t slack = std::min<size_t>((char*)out - AO.lo, 256); for (size_t i = 1; i <= slack; i++) if ((unsigned char)((char*)out)[-(long)i] != 0xA5) mcx::fail("%s: memory before the output was written", n); }
};
struct RP { double imin, ioff, iscale, omin, ooff, oinv; };
// input range -> output range; the second maps past both ends of the output type
// The ranges of 8-bit types start at the lowest value of the type (offset 0); the 64-bit kernels other than bias-add also honour other offsets.
#ifdef __aarch64__
#define OFF(x) x
#else
#define OFF(x) 0
#endif
static const RP rps[] = {{-100, -2147483648.0, 200 / 4294967295.0, -100, 0, 255 / 200.0}, {-300, -2147483648.0, 700 / 4294967295.0, -100, 0, 255 / 200.0},
                         {0, 0, 1, 0, 0, 1}, {0, 0, 0.01, 0.5, OFF(3), 2}, {10, 100, -1e-6, -7, OFF(128), 4}};
static const int32_t i32s[] = {0, 1, -1, 2, 3, 127, 128, 129, 254, 255, 256, 257, -127, -128, -129, -255, -256, 1000, -1000, 5000, 12345, 12800, -12800, 25500, 25600, 32767, 32768, 65535, 65536, -32768, -32769, 99999, -99999, 1 << 20, -(1 << 20), 10000000, -10000000, 123456789, -123456789, 1 << 30, -(1 << 30), 2000000000, -2000000000, 2147483647, -2147483647, INT32_MIN};
static const int NI = sizeof i32s / sizeof *i32s;
static void requant(int n, const RP& q, int rot, int th, int mode) {
  Buf<int32_t, uint8_t> b(n, n);
  for (int i = 0; i < n; i++) b.in[i] = i32s[(i * 5 + rot) % NI];
  RQ p; p.input = b.in; p.output = b.out; p.scratch = 0; p.kernel = Requantize{(float)q.imin, (float)q.ioff, (float)q.iscale, (float)q.omin, (float)q.ooff, (float)q.oinv, n};
  run(p, th, mode, n);
  for (int i = 0; i < n; i++) {
    double x = (((double)(float)b.in[i] - q.ioff) * q.iscale + q.imin - q.omin) * q.oinv + q.ooff;
    if (fabs(b.out[i] - clampd(x, 0, 255)) > 1.01) mcx::fail("requantize, %d elements: element %d, input %d gives %d, affine function %.3f", n, i, b.in[i], b.out[i], x);
  }
  b.front("requantize"); mcx::elements(n); mcx::outcome(mcx::hash_bytes(b.out, n));
}
struct QP { double min, off, scale; };
static const QP qps[] = {{-100, 0, 255 / 200.0}, {0, 0, 1}, {-1, OFF(10), 1000}, {5, OFF(200), -3}, {-1000, OFF(-20), 0.01}};
static const float fls[] = {0.f, -0.f, 1.f, -1.f, .5f, -.5f, .25f, .75f, 1.5f, 2.5f, -1.5f, 99.9f, -99.9f, 100.f, -100.f, 100.5f, -100.5f, 254.f, 254.5f, 255.f, 255.4f, 255.6f, 256.f, 300.f, -300.f, 1000.f, -1000.f, 32767.f, 32768.f, 40000.f, -40000.f, 70000.f, -70000.f, 1e6f, -1e6f, 1e-6f, -1e-6f, 3.14159f, -2.71828f, 12.345f, 50.f, -50.f, 63.7f, 127.9f, 128.1f, 200.2f, 2e9f, -2e9f};
static const int NF = sizeof fls / sizeof *fls;
static void quant(int n, const QP& q, int rot, int th, int mode) {
  Buf<float, uint8_t> b(n, n);
  for (int i = 0; i < n; i++) b.in[i] = fls[(i * 5 + rot) % NF];
  QU p; p.input = b.in; p.output = b.out; p.scratch = 0; p.kernel = Quantize{(float)q.min, (float)q.off, (float)q.scale, n};
  run(p, th, mode, n);
  for (int i = 0; i < n; i++) {
    double x = ((double)b.in[i] - q.min) * q.scale + q.off;
    if (fabs(b.out[i] - clampd(x, 0, 255)) > 1.01) mcx::fail("quantize, %d elements: element %d, input %.9g gives %d, affine function %.3f", n, i, b.in[i], b.out[i], x);
  }
  b.front("quantize"); mcx::elements(n); mcx::outcome(mcx::hash_bytes(b.out, n));
}
static const QP dps[] = {{-100, 0, 200 / 255.0}, {0, 0, 1}, {3.5, OFF(128), -0.125}, {-1e6, OFF(255), 1e4}};
static void dequant(int n, const QP& q, int rot, int th, int mode) {
  Buf<uint8_t, float> b(n, n);
  for (int i = 0; i < n; i++) b.in[i] = i * 37 + rot;
  DQ p; p.input = b.in; p.output = b.out; p.scratch = 0; p.kernel = Dequantize{(float)q.min, (float)q.off, (float)q.scale, n};
  run(p, th, mode, n);
  for (int i = 0; i < n; i++) {
    double x = ((double)b.in[i] - q.off) * q.scale + q.min, tol = (fabs((b.in[i] - q.off) * q.scale) + fabs(q.min) + 1e-3) * 1e-6;
    if (!(fabs(b.out[i] - x) <= tol)) mcx::fail("dequantize, %d elements: element %d, input %d gives %.9g, affine function %.9g", n, i, b.in[i], b.out[i], x);
  }
  b.front("dequantize"); mcx::elements(n); mcx::outcome(mcx::hash_bytes(b.out, n * 4));
}
static void minmax(int n, int lo, int hi, int rot, int th, int mode) {
  Buf<uint8_t, uint8_t> b(n, n);
  for (int i = 0; i < n; i++) b.in[i] = i * 37 + rot;
  MM p; p.input = b.in; p.output = b.out; p.scratch = 0; p.kernel.min = lo; p.kernel.max = hi; p.kernel.count = n;
  run(p, th, mode, n);
  for (int i = 0; i < n; i++) { int e = std::max(lo, std::min<int>(hi, b.in[i])); if (b.out[i] != e) mcx::fail("min-max [%d,%d], %d elements: element %d, input %d gives %d", lo, hi, n, i, b.in[i], b.out[i]); }
  b.front("min-max"); mcx::elements(n); mcx::outcome(mcx::hash_bytes(b.out, n));
}
struct BP { double imin, ioff, is, bmin, boff, bs, omin, ooff, oinv; };
static const BP bps[] = {{-100, 0, 200 / 255.0, -100, 0, 200 / 255.0, -250, -2147483648.0, 4294967295.0 / 500}, {0, 0, 1, 0, 0, 1, 0, 0, 1},
                         {-1, 0, 0.5, 2, 0, -0.25, -3, 7, 100}, {0, 0, 1, 0, 0, 1, 100, 0, 2e7}};
static void biasadd(int n, int rows, const BP& q, int rot) {
  Buf<uint8_t, int32_t> b((size_t)n * rows, (size_t)n * rows);
  uint8_t* bias = AB.place<uint8_t>(n, 1);
  for (int i = 0; i < n * rows; i++) b.in[i] = i * 37 + rot;
  for (int i = 0; i < n; i++) bias[i] = i * 91 + rot * 3 + 1;
  BA p; p.input = b.in; p.output = b.out; p.scratch = 0;
  auto& k = p.kernel; k.input_range_min = q.imin; k.input_range_offset = q.ioff; k.input_range_scale = q.is; k.bias_range_min = q.bmin; k.bias_range_offset = q.boff; k.bias_range_scale = q.bs;
  k.output_range_min = q.omin; k.output_range_offset = q.ooff; k.one_over_output_range_scale = q.oinv; k.count = n; k.rows = rows; k.bias = bias;
  run(p, 0, 0, 0);
  for (int i = 0; i < n * rows; i++) {
    double a = (b.in[i] - q.ioff) * q.is, c = (bias[i % n] - q.boff) * q.bs;
    double x = (a + q.imin + c + q.bmin - q.omin) * q.oinv + q.ooff;
    double tol = 1.01 + 1e-6 * ((fabs(a) + fabs(c) + fabs(q.imin) + fabs(q.bmin) + fabs(q.omin)) * fabs(q.oinv) + fabs(q.ooff));
    if (fabs(b.out[i] - clampd(x, -2147483648.0, 2147483647.0)) > tol) mcx::fail("bias-add, %d rows of %d: element %d, input %d, bias %d gives %d, affine function %.3f", rows, n, i, b.in[i], bias[i % n], b.out[i], x);
  }
  b.front("bias-add"); mcx::elements((u64)n * rows); mcx::outcome(mcx::hash_bytes(b.out, (size_t)n * rows * 4));
}
// The transforms in a function into which the compiler may inline them, on two batches of the same size.
__attribute__((noinline, flatten)) static void flat_bias(const uint8_t* in, int32_t* out, const uint8_t* bias, int count, int rows, float scale) {
  for (int i = 0; i < 3; i++) {
    BA p; p.input = in + i * count * rows; p.output = out + i * count * rows; p.scratch = 0;
    p.kernel = BiasAdd<uint8_t>(); auto& k = p.kernel;
    k.input_range_min = 0; k.input_range_offset = 0; k.input_range_scale = scale; k.bias_range_min = 0; k.bias_range_offset = 0; k.bias_range_scale = scale;
    k.output_range_min = 0; k.output_range_offset = 0; k.one_over_output_range_scale = scale; k.count = count; k.rows = rows; k.bias = bias;
    Transform1D<BA, 16>(p);
  }
}
__attribute__((noinline, flatten)) static void flat_minmax(const uint8_t* in, uint8_t* out, int count, uint8_t lo, uint8_t hi) {
  for (int i = 0; i < 3; i++) { MM p; p.input = in + i * count; p.output = out + i * count; p.scratch = 0; p.kernel.min = lo; p.kernel.max = hi; p.kernel.count = count; Transform1D<MM, 16>(p); }
}
__attribute__((noinline, flatten)) static void flat_dequant(const uint8_t* in, float* out, int count, float mn, float scale) {
  for (int i = 0; i < 3; i++) { DQ p; p.input = in + i * count; p.output = out + i * count; p.scratch = 0; p.kernel = Dequantize{mn, 0, scale, count}; Transform1D<DQ, 16>(p); }
}
__attribute__((noinline, flatten)) static void flat_quant(const float* in, uint8_t* out, int count, float mn, float scale) {
  for (int i = 0; i < 3; i++) { QU p; p.input = in + i * count; p.output = out + i * count; p.scratch = 0; p.kernel = Quantize{mn, 0, scale, count}; Transform1D<QU, 16>(p); }
}
__attribute__((noinline, flatten)) static void flat_requant(const int32_t* in, uint8_t* out, int count, float mn, float scale) {
  for (int i = 0; i < 3; i++) { RQ p; p.input = in + i * count; p.output = out + i * count; p.scratch = 0; p.kernel = Requantize{0, 0, scale, mn, 0, scale, count}; Transform1D<RQ, 16>(p); }
}
static void inlined(int n, int rows) {
  static uint8_t u8[3 * 80 * 20], bias[80]; static int32_t s32[3 * 80 * 20], o32[3 * 80 * 20 + 4]; static float f[3 * 80], of[3 * 80 + 4]; static uint8_t o8[3 * 80 + 16];
  const int m = 3 * n;
  for (int i = 0; i < m * rows; i++) u8[i] = i * 37 + n;
  for (int i = 0; i < n; i++) bias[i] = i * 91 + rows;
  for (int i = 0; i < m; i++) { f[i] = (i * 29 + n) % 256; s32[i] = (i * 53 + n) % 256; }
  mcx::calls(5);
  memset(o32, 0x5a, sizeof o32); preserved("bias-add", [&] { flat_bias(u8, o32, bias, n, rows, 1.f); });
  for (int i = 0; i < m * rows; i++) if (abs(o32[i] - u8[i] - bias[i % n]) > 1) mcx::fail("bias-add inlined, %d rows of %d, three times: element %d is %d, expected %d", rows, n, i, o32[i], u8[i] + bias[i % n]);
  if (o32[m * rows] != 0x5a5a5a5a) mcx::fail("bias-add inlined, %d rows of %d, three times: wrote past the end", rows, n);
  memset(o8, 0x5a, sizeof o8); preserved("min-max", [&] { flat_minmax(u8, o8, n, 40, 200); });
  for (int i = 0; i < m; i++) if (o8[i] != std::max(40, std::min<int>(200, u8[i]))) mcx::fail("min-max inlined, %d elements three times: element %d, input %d gives %d", n, i, u8[i], o8[i]);
  if (o8[m] != 0x5a) mcx::fail("min-max inlined, %d elements three times: wrote past the end", n);
  memset(of, 0x5a, sizeof of); preserved("dequantize", [&] { flat_dequant(u8, of, n, 3.f, 0.5f); });
  for (int i = 0; i < m; i++) if (fabs(of[i] - (u8[i] * 0.5 + 3)) > 1e-3) mcx::fail("dequantize inlined, %d elements three times: element %d, input %d gives %g", n, i, u8[i], of[i]);
  memset(o8, 0x5a, sizeof o8); preserved("quantize", [&] { flat_quant(f, o8, n, 0.f, 1.f); });
  for (int i = 0; i < m; i++) if (abs(o8[i] - (int)f[i]) > 1) mcx::fail("quantize inlined, %d elements three times: element %d, input %g gives %d", n, i, f[i], o8[i]);
  memset(o8, 0x5a, sizeof o8); preserved("requantize", [&] { flat_requant(s32, o8, n, 0.f, 1.f); });
  for (int i = 0; i < m; i++) if (abs(o8[i] - s32[i]) > 1) mcx::fail("requantize inlined, %d elements three times: element %d, input %d gives %d", n, i, s32[i], o8[i]);
  mcx::elements(m * (rows + 4)); mcx::outcome(mcx::hash_bytes(o32, m * rows * 4));
}
void mcx::enumerate(const std::string& tier) {
  const bool T = tier == "thorough";
  wp = new WorkersPool;
  const int top = T ? 100 : 67;
  for (int n = 1; n <= top; n++) {
    if (mcx::begin("requantize, %d elements, every position with every input of the lattice", n)) for (auto& q : rps) for (int r = 0; r < NI; r++) requant(n, q, r, 0, 0);
    if (mcx::begin("quantize, %d elements, every position with every input of the lattice", n)) for (auto& q : qps) for (int r = 0; r < NF; r++) quant(n, q, r, 0, 0);
    if (mcx::begin("dequantize, %d elements, every position with every input", n)) for (auto& q : dps) for (int r = 0; r < 256; r++) dequant(n, q, r, 0, 0);
    if (mcx::begin("min-max, %d elements, every position with every input", n))
      for (auto& x : {std::make_pair(64, 192), std::make_pair(0, 255), std::make_pair(0, 0), std::make_pair(255, 255), std::make_pair(1, 254), std::make_pair(127, 128)}) for (int r = 0; r < 256; r++) minmax(n, x.first, x.second, r, 0, 0);
    if (mcx::begin("bias-add, rows of %d elements", n)) for (int rows = 1; rows <= 4; rows++) for (auto& q : bps) for (int r = 0; r < 256; r += T ? 1 : 3) biasadd(n, rows, q, r);
  }
  for (int n : {100, 112, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000}) {
    if (!mcx::begin("long transforms, %d elements", n)) continue;
    for (int r : {0, 3, 11}) {
      for (auto& q : rps) requant(n, q, r, 0, 0);
      for (auto& q : qps) quant(n, q, r, 0, 0);
      for (auto& q : dps) dequant(n, q, r, 0, 0);
      minmax(n, 64, 192, r, 0, 0); minmax(n, 0, 255, r, 0, 0);
      for (int rows : {1, 2, 3, 7, 16, 40}) if (n * rows <= 60000) for (auto& q : bps) biasadd(n, rows, q, r);
    }
    mcx::beat();
  }
  for (int n = 1; n <= 33; n++) {
    if (!mcx::begin("bias-add, many rows of %d elements", n)) continue;
    for (int rows : {5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000}) for (auto& q : bps) biasadd(n, rows, q, rows);
  }
  for (int n = 1; n <= 80; n++) {
    if (!mcx::begin("transforms inlined in a loop, %d elements", n)) continue;
    for (int rows : {1, 2, 3, 5, 16, 20}) inlined(n, rows);
  }
  // thresholds: tasks of at least 32000 cost units after an overhead of 128000
  std::vector<int> extra; for (int e = -2; e <= 18; e++) extra.push_back(e);
  struct K { int cost; } ks[] = {{12}, {8}, {12}, {4}};
  for (int k = 0; k < 4; k++) for (int tasks = 1; tasks <= (T ? 8 : 4); tasks++) for (int e : extra) {
    const int n = (128000 + 32000 * tasks) / ks[k].cost + e;
    if (!mcx::begin("split of transform %d over %d elements", k, n)) continue;
    for (int th = 1; th <= (T ? 9 : 5); th++) for (int mode = 0; mode < 3; mode++) {
      if (!T && (th + e) % 2 && mode) continue;
      switch (k) { case 0: requant(n, rps[0], th, th, mode); break; case 1: quant(n, qps[0], th, th, mode); break; case 2: dequant(n, dps[0], th, th, mode); break; default: minmax(n, 64, 192, th, th, mode); }
    }
  }
}
MCX_MAIN
