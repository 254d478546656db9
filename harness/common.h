// Shared helpers of the simulation harnesses.
#pragma once

#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

#include <dlafsim/core.h>
#include <dlafsim/mpi_sim.h>

#include <pika/execution.hpp>
#include <pika/mpi.hpp>
#include <pika/runtime.hpp>

#include <dlaf/common/range2d.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/init.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/schedulers.h>
#include <dlaf/tune.h>
#include <dlaf/types.h>

namespace hz {
using dlaf::Backend;
using dlaf::Device;
using dlaf::GlobalElementIndex;
using dlaf::GlobalElementSize;
using dlaf::GlobalTileIndex;
using dlaf::LocalTileIndex;
using dlaf::LocalTileSize;
using dlaf::SizeType;
using dlaf::TileElementIndex;
using dlaf::TileElementSize;
using dlaf::comm::Communicator;
using dlaf::comm::CommunicatorGrid;
using dlaf::comm::Index2D;
using dlaf::comm::Size2D;
template <class T>
using Mat = dlaf::matrix::Matrix<T, Device::CPU>;
template <class T>
using CMat = dlaf::matrix::Matrix<const T, Device::CPU>;
using Dist = dlaf::matrix::Distribution;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using zc = std::complex<double>;

// ---------------------------------------------------------------- deterministic pseudo-random data
inline std::uint64_t h64(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline std::string sci(double x) {
  char t[32];
  std::snprintf(t, sizeof(t), "%.3g", x);
  return t;
}
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(h64(seed * 77 + 1)) {}
  std::uint64_t u() {
    s += 0x9e3779b97f4a7c15ull;
    return h64(s);
  }
  double d() {  // [-1, 1)
    return static_cast<double>(u() >> 11) / static_cast<double>(1ull << 52) - 1.0;
  }
  long i(long lo, long hi) {
    return lo + static_cast<long>(u() % static_cast<std::uint64_t>(hi - lo + 1));
  }
};
// Now and then larger tiles, or more of them
struct Enlarge {
  long kind;
  long factor;
  Rng r;
  Enlarge() : kind(sim::param("enlarge", 0, 79)), factor(kind == 1 || kind == 2 ? sim::param("enlarge.factor", 2, kind == 1 ? 7 : 3) : 1),
      r(static_cast<std::uint64_t>(factor > 1 ? sim::param("enlarge.rest", 0, 1000) : 0)) {}
  SizeType grow(SizeType v) {
    return v == 0 ? 0 : v * factor - r.i(0, factor - 1);
  }
  SizeType tile(SizeType v) {
    return kind == 1 ? grow(v) : v;
  }
  SizeType size(SizeType v) {
    return kind == 1 || kind == 2 ? grow(v) : v;
  }
};
template <class T>
T mk(double re, double im) {
  if constexpr (std::is_same_v<T, dlaf::BaseType<T>>) {
    (void) im;
    return static_cast<T>(re);
  }
  else
    return T(static_cast<dlaf::BaseType<T>>(re), static_cast<dlaf::BaseType<T>>(im));
}
template <class T>
T rnd(Rng& r) {
  const double a = r.d(), b = r.d();
  return mk<T>(a, b);
}
template <class T>
T cj(T x) {
  if constexpr (std::is_same_v<T, dlaf::BaseType<T>>)
    return x;
  else
    return std::conj(x);
}

// ---------------------------------------------------------------- dense matrices
template <class T>
struct Dense {
  SizeType m = 0, n = 0;
  std::vector<T> v;
  Dense() = default;
  Dense(SizeType m_, SizeType n_, T x = T(0)) : m(m_), n(n_), v(static_cast<std::size_t>(m_ * n_), x) {}
  T& operator()(SizeType i, SizeType j) {
    return v[static_cast<std::size_t>(i + j * m)];
  }
  const T& operator()(SizeType i, SizeType j) const {
    return v[static_cast<std::size_t>(i + j * m)];
  }
};
template <class T>
Dense<T> random_dense(SizeType m, SizeType n, std::uint64_t seed) {
  Dense<T> d(m, n);
  Rng r(seed);
  for (auto& x : d.v)
    x = rnd<T>(r);
  return d;
}
template <class T>
Dense<T> eye(SizeType n) {
  Dense<T> d(n, n);
  for (SizeType i = 0; i < n; ++i)
    d(i, i) = T(1);
  return d;
}
template <class T>
Dense<T> mul(const Dense<T>& a, const Dense<T>& b) {
  Dense<T> c(a.m, b.n);
  for (SizeType j = 0; j < b.n; ++j)
    for (SizeType k = 0; k < a.n; ++k) {
      const T x = b(k, j);
      for (SizeType i = 0; i < a.m; ++i)
        c(i, j) += a(i, k) * x;
    }
  return c;
}
template <class T>
Dense<T> ctrans(const Dense<T>& a) {
  Dense<T> c(a.n, a.m);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      c(j, i) = cj(a(i, j));
  return c;
}
template <class T>
Dense<T> trans(const Dense<T>& a) {
  Dense<T> c(a.n, a.m);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      c(j, i) = a(i, j);
  return c;
}
template <class T>
double maxabs(const Dense<T>& a) {
  double r = 0;
  for (auto& x : a.v)
    r = std::max(r, static_cast<double>(std::abs(x)));
  return r;
}
// max difference; NaN counts as infinite
template <class T>
double maxdiff(const Dense<T>& a, const Dense<T>& b) {
  if (a.m != b.m || a.n != b.n)
    sim::harness_error("maxdiff: sizes");
  double r = 0;
  for (std::size_t i = 0; i < a.v.size(); ++i) {
    const double d = static_cast<double>(std::abs(a.v[i] - b.v[i]));
    if (!(d <= 1e300))
      return HUGE_VAL;
    r = std::max(r, d);
  }
  return r;
}
// Hermitian positive definite, well conditioned
template <class T>
Dense<T> random_hpd(SizeType n, std::uint64_t seed) {
  Dense<T> a(n, n);
  Rng r(seed);
  for (SizeType j = 0; j < n; ++j) {
    for (SizeType i = j + 1; i < n; ++i) {
      a(i, j) = rnd<T>(r);
      a(j, i) = cj(a(i, j));
    }
    a(j, j) = mk<T>(2.0 * static_cast<double>(n) + r.d(), 0);
  }
  return a;
}
template <class T>
Dense<T> random_herm(SizeType n, std::uint64_t seed) {
  Dense<T> a(n, n);
  Rng r(seed);
  for (SizeType j = 0; j < n; ++j) {
    for (SizeType i = j + 1; i < n; ++i) {
      a(i, j) = rnd<T>(r);
      a(j, i) = cj(a(i, j));
    }
    a(j, j) = mk<T>(r.d(), 0);
  }
  return a;
}
enum class Part { Lower, Upper };
// Well conditioned triangular matrix (dense, other triangle zero)
template <class T>
Dense<T> random_tri(SizeType n, Part p, bool unit, std::uint64_t seed) {
  Dense<T> a(n, n);
  Rng r(seed);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i) {
      const T x = rnd<T>(r);
      if (i == j)
        a(i, j) = unit ? T(1) : mk<T>(2.0 + std::abs(r.d()), 0);
      else if ((i > j) == (p == Part::Lower))
        a(i, j) = x * mk<T>(1.0 / static_cast<double>(n), 0);
    }
  return a;
}

// ---------------------------------------------------------------- distributed <-> dense
template <class T>
void set_tile(const typename Mat<T>::TileType& t, const Dist& d, GlobalTileIndex g, const Dense<T>& src) {
  for (SizeType j = 0; j < t.size().cols(); ++j)
    for (SizeType i = 0; i < t.size().rows(); ++i) {
      auto e = d.global_element_index(g, {i, j});
      t({i, j}) = src(e.row(), e.col());
    }
}
// Asynchronous or blocking initialisation (async: one task per tile)
template <class T>
void fill(Mat<T>& a, const Dense<T>& src, bool async) {
  const Dist& d = a.distribution();
  for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
    const auto g = d.global_tile_index(ij);
    if (async) {
      const Dist dd = d;
      const Dense<T>* s = &src;
      ex::start_detached(a.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                         ex::then([dd, g, s](typename Mat<T>::TileType t) { set_tile<T>(t, dd, g, *s); }));
    }
    else {
      auto t = tt::sync_wait(a.readwrite(ij));
      set_tile<T>(t, d, g, src);
    }
  }
}
template <class T, class M>
void gather(M& a, Dense<T>& dst) {
  const Dist d = a.distribution();
  for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
    auto tw = tt::sync_wait(a.read(ij));
    const auto& t = tw.get();
    const auto g = d.global_tile_index(ij);
    for (SizeType j = 0; j < t.size().cols(); ++j)
      for (SizeType i = 0; i < t.size().rows(); ++i) {
        auto e = d.global_element_index(g, {i, j});
        dst(e.row(), e.col()) = t({i, j});
      }
  }
}

// ---------------------------------------------------------------- runs
struct Shape {
  int pr = 1, pc = 1;
  dlaf::common::Ordering order = dlaf::common::Ordering::ColumnMajor;
  sim::Config cfg;
  int pipelines = 1;
};
inline Shape draw_shape(int max_r = 3, int max_c = 3, int max_ranks = 6, int max_workers = 4) {
  sim::draw_faults();
  Shape s;
  s.pr = static_cast<int>(sim::param("grid.rows", 1, max_r));
  s.pc = static_cast<int>(sim::param("grid.cols", 1, std::min(max_c, max_ranks / s.pr)));
  s.order = sim::param("grid.order", 0, 1) ? dlaf::common::Ordering::RowMajor
                                            : dlaf::common::Ordering::ColumnMajor;
  s.cfg.nranks = s.pr * s.pc;
  s.cfg.workers = static_cast<int>(sim::param("workers", 1, max_workers));
  s.cfg.mpi_pool = sim::param("mpi_pool", 0, 1) != 0;
  s.pipelines = static_cast<int>(sim::param("pipelines", 1, 3));
  return s;
}

// for algorithms that need at least two communicators per direction
inline Shape two_pipelines(Shape s) {
  s.pipelines = std::max(s.pipelines, 2);
  return s;
}
// for algorithms with blocking communication inside of tasks: the library is meant to run with at least two threads, one of
// which the MPI pool takes
inline Shape two_threads(Shape s) {
  if (!s.cfg.mpi_pool)
    s.cfg.workers = std::max(s.cfg.workers, 2);
  return s;
}

struct Tune {
  bool set = false;
  long layout = 0, tfactor = 1, red2band = 1, rank1 = 1, busy = 0, min_band = 2, b1d = 8192, hh_group = 64;
};
Tune& tune();

// Whole lifecycle: MPI initialised, library initialised, body on every rank, library finalised; afterwards the
// resource accounting is checked.
struct RunOpt {
  bool check_leaks = true;
};
void run_ranks(const sim::Config& cfg, const std::function<void(int)>& body, RunOpt opt = {});

// Tuning knobs, randomised per run
inline void draw_tune() {
  auto& t = tune();
  t.set = true;
  t.layout = sim::param("tune.layout", 0, 2);
  t.tfactor = sim::param("tune.tfactor_threads", 1, 4);
  t.red2band = sim::param("tune.red2band_threads", 1, 4);
  t.rank1 = sim::param("tune.rank1_threads", 1, 4);
  t.busy = sim::param("tune.busy_wait", 0, 1);
  t.min_band = sim::param("tune.min_band", 2, 4);
  t.b1d = sim::param_of("tune.1d_block", {8192, 1, 4, 8, 16});
  t.hh_group = sim::param("tune.hh_group", 1, 5);
}
inline Shape draw_local(int max_workers = 4) {
  Shape s;
  sim::draw_faults();
  s.cfg.nranks = 1;
  s.cfg.workers = static_cast<int>(sim::param("workers", 1, max_workers));
  return s;
}
inline Index2D draw_source(const Shape& s, const std::string& nm = "src") {
  const int r = static_cast<int>(sim::param(nm + ".row", 0, s.pr - 1));
  const int c = static_cast<int>(sim::param(nm + ".col", 0, s.pc - 1));
  return {r, c};
}
inline dlaf::matrix::AllocationSpec alloc_of(long a) {
  using dlaf::matrix::AllocationLayout;
  using dlaf::matrix::Ld;
  switch (a) {
    case 1:
      return {AllocationLayout::ColMajor, Ld::Compact};
    case 2:
      return {AllocationLayout::Blocks, Ld::Compact};
    case 3:
      return {AllocationLayout::Tiles, Ld::Compact};
    case 4:
      return {AllocationLayout::Tiles, Ld::Padded};
    default:
      return {};
  }
}
// Memory of matrices that the harness provides; it lives until the end of the run
void keep_alive(std::shared_ptr<void> p);
// A matrix that begins inside of its first block can only be made through a mapping given by the user (see
// the constructor of Matrix with an AllocationMapping): its blocks (alloc 2) or tiles (3, 4) are stored as said
// by the mapping.
class OffsetMapping {
public:
  OffsetMapping(Dist d, long alloc) : dist_(std::move(d)), alloc_(alloc) {
    const auto nt = dist_.local_nr_tiles();
    const SizeType lr = dist_.local_size().rows(), pad = alloc == 4 ? 3 : 0;
    for (SizeType j = 0, c = 0; j < nt.cols(); ++j) {
      SizeType w = 0;
      for (SizeType i = 0, r = 0; i < nt.rows(); ++i) {
        const auto sz = dist_.tile_size_of(dlaf::LocalTileIndex(i, j));
        w = sz.cols();
        ld_.push_back(alloc == 2 ? std::max<SizeType>(1, lr) : sz.rows() + pad);
        offset_.push_back(alloc == 2 ? r + c * lr : mem_);
        if (alloc != 2)
          mem_ += ld_.back() * sz.cols();
        r += sz.rows();
      }
      c += w;
    }
    if (alloc == 2)
      mem_ = lr * dist_.local_size().cols();
  }
  SizeType min_mem_size() const {
    return mem_;
  }
  SizeType tile_offset(const dlaf::LocalTileIndex& i) const {
    return offset_[at(i)];
  }
  dlaf::TileElementSize tile_size_of(const dlaf::LocalTileIndex& i) const {
    return dist_.tile_size_of(i);
  }
  SizeType ld_tile(const dlaf::LocalTileIndex& i) const {
    return ld_[at(i)];
  }
  SizeType min_tile_mem_size(const dlaf::LocalTileIndex& i) const {
    const auto sz = tile_size_of(i);
    return sz.isEmpty() ? 0 : sz.rows() + ld_[at(i)] * (sz.cols() - 1);
  }
  const LocalTileSize& nr_tiles() const {
    return dist_.local_nr_tiles();
  }
  const Dist& distribution() const {
    return dist_;
  }
  dlaf::matrix::AllocationLayout allocation_layout() const {
    return alloc_ == 2 ? dlaf::matrix::AllocationLayout::Blocks : dlaf::matrix::AllocationLayout::Tiles;
  }

private:
  std::size_t at(const dlaf::LocalTileIndex& i) const {
    return static_cast<std::size_t>(i.row() + i.col() * dist_.local_nr_tiles().rows());
  }
  Dist dist_;
  long alloc_;
  SizeType mem_ = 0;
  std::vector<SizeType> offset_, ld_;
};
// The matrix of this distribution
template <class T>
Mat<T> make_mat(const Dist& d, long alloc) {
  if (d.offset() == GlobalElementIndex(0, 0))
    return Mat<T>(d, alloc_of(alloc));
  OffsetMapping map(d, alloc);
  auto mem = std::make_shared<std::vector<T>>(static_cast<std::size_t>(map.min_mem_size()), T(-1234567));
  keep_alive(mem);
  return Mat<T>(map, mem->data());
}
inline long draw_alloc(const std::string& nm = "alloc") {
  return sim::param(nm, 0, 4);
}
// Position of a matrix inside of its first block (its first tiles are smaller): 0 in most of the runs
inline SizeType draw_offset(long& alloc, SizeType max, const std::string& nm = "offset") {
  if (sim::param(nm + ".use", 0, 3) != 0)
    return 0;
  const SizeType o = sim::param(nm, 0, max);
  if (o > 0 && alloc <= 1)  // (no offset with column major storage)
    alloc = 2;
  return o;
}
// Matrix operand: the other triangle filled with values (or NaN) that must neither be used nor changed
template <class T>
Dense<T> with_opposite(Dense<T> a, Part p, std::uint64_t seed, bool nan) {
  Rng r(seed + 991);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (i != j && (i > j) != (p == Part::Lower)) {
        const T x = rnd<T>(r);
        a(i, j) = nan ? mk<T>(std::nan(""), std::nan("")) : x;
      }
  return a;
}
template <class T>
bool same_bits(T a, T b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T>
void check_opposite(const Dense<T>& out, const Dense<T>& in, Part p, const char* what) {
  for (SizeType j = 0; j < in.n; ++j)
    for (SizeType i = 0; i < in.m; ++i)
      if (i != j && (i > j) != (p == Part::Lower) && !same_bits(in(i, j), out(i, j)))
        sim::violation("opposite-triangle", std::string(what) + ": element (" + std::to_string(i) + "," +
                                                std::to_string(j) + ") outside of the given triangle was modified");
}
template <class T>
void check_same(const Dense<T>& out, const Dense<T>& in, const char* kind, const char* what) {
  for (SizeType j = 0; j < in.n; ++j)
    for (SizeType i = 0; i < in.m; ++i)
      if (!same_bits(in(i, j), out(i, j)))
        sim::violation(kind, std::string(what) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") differs");
}
template <class T>
Dense<T> triangle(Dense<T> a, Part p) {
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (i != j && (i > j) != (p == Part::Lower))
        a(i, j) = T(0);
  return a;
}
template <class T>
Dense<T> hermitian_of(Dense<T> a, Part p) {
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      if (i != j && (i > j) != (p == Part::Lower))
        a(i, j) = cj(a(j, i));
  return a;
}
template <class T>
void check_close(const Dense<T>& got, const Dense<T>& want, double tol, const char* kind, const char* what) {
  const double d = maxdiff(got, want);
  if (!(d <= tol))
    sim::violation(kind, std::string(what) + ": maximum error " + sci(d) + " exceeds " + sci(tol));
}
inline blas::Uplo uplo_of(Part p) {
  return p == Part::Lower ? blas::Uplo::Lower : blas::Uplo::Upper;
}

inline CommunicatorGrid make_grid(const Shape& s) {
  return CommunicatorGrid(MPI_COMM_WORLD, s.pr, s.pc, s.order, static_cast<std::size_t>(s.pipelines));
}

void check(bool ok, const std::string& kind, const std::string& msg);
inline std::string str(double x) {
  char b[64];
  std::snprintf(b, sizeof(b), "%.3g", x);
  return b;
}
}  // namespace hz
