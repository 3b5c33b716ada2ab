// Shared helpers for the GEMM drivers.
#ifndef GX_H_
#define GX_H_
#include "mcx.h"
#include <cmath>
#include <memory>
#include <type_traits>
#include "public/gemmlowp.h"
#ifdef MINIRT  // no threads in that run-time (see minirt/rt.cc)
#define set_max_num_threads(n) set_max_num_threads(((void)(n), 1))
#endif
using namespace gemmlowp;
using std::int8_t; using std::uint8_t; using std::int16_t; using std::int32_t; using std::int64_t;

// Deterministic position-coded values (not random: a fixed function of the
// coordinates, so every position of every matrix is distinguishable).
inline uint32_t code(uint32_t a, uint32_t b, uint32_t c) {
  uint32_t h = a * 0x9e3779b1u ^ (b + 0x7f4a7c15u) * 0x85ebca6bu ^ (c + 0x165667b1u) * 0xc2b2ae35u;
  h ^= h >> 15; h *= 0x2c1b3c6du; h ^= h >> 12; h *= 0x297a2d39u; h ^= h >> 15;
  return h;
}

template <typename T>
struct Mat {  // plain matrix with explicit order and stride
  std::vector<T> buf;
  int rows, cols, stride;
  bool row_major;
  Mat(int r, int c, bool rm, int pad, T fill = T()) : rows(r), cols(c), stride((rm ? c : r) + pad), row_major(rm) {
    size_t n = (size_t)stride * (rm ? r : c);
    buf.assign(n + 1, fill);
  }
  size_t at(int r, int c) const { return row_major ? (size_t)r * stride + c : (size_t)c * stride + r; }
  T& operator()(int r, int c) { return buf[at(r, c)]; }
  const T& operator()(int r, int c) const { return buf[at(r, c)]; }
};

template <int N> struct OrderOf;
template <> struct OrderOf<0> { static constexpr MapOrder value = MapOrder::ColMajor; };
template <> struct OrderOf<1> { static constexpr MapOrder value = MapOrder::RowMajor; };

// Calls f.template operator()<L,R,D>() for the storage orders encoded in o (0..7).
template <typename F>
void with_orders(int o, const F& f) {
  const MapOrder C = MapOrder::ColMajor, R = MapOrder::RowMajor;
#ifdef INT8_INPUTS  // int8 operands: only depth-contiguous operands are supported
  if (o == 4) f.template run<R, C, C>();
  else if (o == 5) f.template run<R, C, R>();
  else abort();
#else
  switch (o) {
    case 0: f.template run<C, C, C>(); break;
    case 1: f.template run<C, C, R>(); break;
    case 2: f.template run<C, R, C>(); break;
    case 3: f.template run<C, R, R>(); break;
    case 4: f.template run<R, C, C>(); break;
    case 5: f.template run<R, C, R>(); break;
    case 6: f.template run<R, R, C>(); break;
    case 7: f.template run<R, R, R>(); break;
  }
#endif
}
inline bool l_rm(int o) { return o & 4; }
inline bool r_rm(int o) { return o & 2; }
inline bool d_rm(int o) { return o & 1; }

typedef VectorMap<const int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const int32_t, VectorShape::Row> RowMap;
typedef VectorDup<const int32_t, VectorShape::Col> ColDup;
typedef VectorDup<const int32_t, VectorShape::Row> RowDup;
typedef BitDepthParams<OperandRange<0, 255>, OperandRange<0, 15>> SmallProductBitDepthParams;
#endif
