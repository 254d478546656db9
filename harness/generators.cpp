// C24: functions that fill matrices: same matrix on every distribution, in program order with other operations
#include "common.h"

#include <memory>

#include <dlaf/matrix/panel.h>
#include <dlaf/util_matrix.h>

namespace {
using namespace hz;
using dlaf::Coord;
namespace mu = dlaf::matrix::util;
const char* const KIND = "wrong-contents";

enum Kind { SetF, SetOp, Identity, Zero, ZeroRange, Add, Look, Random, Herm, Hpd, Banded, NonZero, NKinds };
struct Op {
  Kind kind;
  long a = 0;  // transposition, band size, constant
  std::uint64_t seed = 0;
};

// An element getter with state: must be alive whenever it is called
template <class T>
struct Getter {
  std::shared_ptr<std::uint64_t> seed;
  const Getter* self;
  SizeType m, n;
  Getter(std::uint64_t s, SizeType m_, SizeType n_) : seed(std::make_shared<std::uint64_t>(s)), self(this), m(m_), n(n_) {}
  Getter(const Getter& o) : seed(o.seed), self(this), m(o.m), n(o.n) {}
  ~Getter() {
    self = nullptr;
  }
  static T at(std::uint64_t s, SizeType i, SizeType j) {
    Rng r(s + static_cast<std::uint64_t>(i) * 1009u + static_cast<std::uint64_t>(j) * 13u);
    return rnd<T>(r);
  }
  T operator()(const GlobalElementIndex& ij) const {
    if (self != this || !seed)
      sim::violation("lifetime", "an element getter was called after it was destroyed");
    if (ij.row() < 0 || ij.col() < 0 || ij.row() >= m || ij.col() >= n)
      sim::violation(KIND, "an element getter was called with an index outside of the matrix");
    return at(*seed, ij.row(), ij.col());
  }
};

template <class T>
void random_fill(Mat<T>& a, const Op& o) {
  switch (o.kind) {
    case Random:
      return mu::set_random(a);
    case Herm:
      return mu::set_random_hermitian(a);
    case Hpd:
      return mu::set_random_hermitian_positive_definite(a);
    case Banded:
      return mu::set_random_hermitian_banded(a, o.a);
    case NonZero:
      return mu::set_random_non_zero_diagonal(a);
    default:
      sim::harness_error("random_fill");
  }
}
// What is documented about the values
template <class T>
void check_random(const Dense<T>& d, const Op& o) {
  constexpr bool complex = dlaf::isComplex_v<T>;
  const double n = static_cast<double>(d.n);
  const double eps = 1e-6;
  bool differ = d.m * d.n < 4 || o.kind == Banded;
  auto bad = [](const char* what, SizeType i, SizeType j) {
    sim::violation("wrong-values", std::string(what) + " at (" + std::to_string(i) + "," + std::to_string(j) + ")");
  };
  for (SizeType j = 0; j < d.n; ++j)
    for (SizeType i = 0; i < d.m; ++i) {
      const T x = d(i, j);
      differ = differ || (x != d(0, 0) && i != j);
      if (o.kind != Random && o.kind != NonZero) {
        if (!same_bits(x, cj(d(j, i))) && x != cj(d(j, i)))
          bad("a Hermitian matrix is not Hermitian", i, j);
        const double off = o.kind == Hpd ? 2 * n : 0;
        if (i == j && (std::abs(std::real(x) - off) > 1 + eps * (1 + off) || std::imag(zc(x)) != 0))
          bad("diagonal element outside of the documented range", i, j);
      }
      if ((i != j || o.kind == Random || o.kind == NonZero) && !(std::abs(x) <= 1 + eps))
        bad("element outside of the documented range", i, j);
      if (o.kind == Banded && std::abs(i - j) > o.a && x != T(0))
        bad("element outside of the band is not zero", i, j);
      if (o.kind == Banded && std::abs(i - j) <= o.a && i != j && x == T(0))
        bad("element inside of the band is zero", i, j);
      if (o.kind == NonZero && i == j && !(std::abs(x) >= 0.1 - eps))
        bad("diagonal element too small", i, j);
    }
  (void) complex;
  if (!differ)
    bad("all elements are the same", 0, 0);
}
// Different tiles have different seeds
template <class T>
void check_tiles_differ(const Dense<T>& d, const Dist& dist, const Op& o) {
  if (o.kind == Banded)
    return;
  std::vector<GlobalTileIndex> ts;
  for (auto ij : dlaf::common::iterate_range2d(dist.nr_tiles()))
    ts.push_back(ij);
  for (std::size_t a = 0; a < ts.size(); ++a)
    for (std::size_t b = a + 1; b < ts.size(); ++b) {
      const auto sa = dist.tile_size_of(ts[a]);
      if (sa != dist.tile_size_of(ts[b]) || sa.rows() * sa.cols() < 3)
        continue;
      if (o.kind != Random && o.kind != NonZero && (ts[a].row() == ts[a].col() || ts[b].row() == ts[b].col()))
        continue;
      bool same = true;
      for (auto e : dlaf::common::iterate_range2d(sa)) {
        const auto ga = dist.global_element_index(ts[a], e), gb = dist.global_element_index(ts[b], e);
        if (ga.row() == ga.col() || gb.row() == gb.col())
          continue;
        same = same && d(ga.row(), ga.col()) == d(gb.row(), gb.col());
      }
      if (same && sa.rows() > 1)
        sim::violation("wrong-values", "two tiles hold the same random values");
    }
}

template <class T>
void fills() {
  const Shape sh = draw_shape(3, 3, 6, 3);
  const bool square = sim::param("square", 0, 2) != 0;
  const SizeType tm = sim::param("tm", 1, 4), tn = square ? tm : sim::param("tn", 1, 4);
  const SizeType km = sim::param("km", 1, 3), kn = sim::param("kn", 1, 3);
  const SizeType m = sim::param("m", 0, 12), n = square ? m : sim::param("n", 0, 12);
  const Index2D src = draw_source(sh);
  const long al = draw_alloc("alloc");
  // matrices stored by columns cannot have an offset
  const SizeType om = al >= 2 ? sim::param("offset_m", 0, 5) : 0, on = square || al < 2 ? om : sim::param("offset_n", 0, 5);
  const int nops = static_cast<int>(sim::param("ops", 1, 6));
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000)));
  std::vector<Op> ops;
  for (int k = 0; k < nops; ++k) {
    Op o;
    do
      o.kind = static_cast<Kind>(r.i(0, NKinds - 1));
    while ((!square && o.kind > Random) || (o.kind == ZeroRange && (m == 0 || n == 0)));
    o.seed = r.u() % 100000;
    o.a = o.kind == SetOp ? r.i(0, 2) : o.kind == Banded ? r.i(0, m) : r.i(1, 9);
    ops.push_back(o);
  }
  // what the first rank saw; the others must see the same
  std::vector<std::unique_ptr<Dense<T>>> first(ops.size());
  Dense<T> out(m, n), want_out(m, n);
  run_ranks(sh.cfg, [&](int rank) {
    auto grid = make_grid(sh);
    // The random matrices as a single process makes them
    std::vector<Dense<T>> alone;
    for (std::size_t k = 0; k < ops.size(); ++k) {
      alone.emplace_back(m, n);
      if (ops[k].kind < Random)
        continue;
      Mat<T> loc = make_mat<T>(Dist(dlaf::LocalElementSize(m, n), {tm, tn}, GlobalElementIndex(om, on)), 3);
      random_fill(loc, ops[k]);
      gather<T>(loc, alone.back());
      check_random(alone.back(), ops[k]);
      check_tiles_differ(alone.back(), loc.distribution(), ops[k]);
      if (!first[k])
        first[k] = std::make_unique<Dense<T>>(alone.back());
      else
        check_same(alone.back(), *first[k], KIND, "random matrix made by another process");
    }
    Mat<T> mat = make_mat<T>(Dist({m, n}, {tm * km, tn * kn}, {tm, tn}, grid.size(), grid.rank(), src, GlobalElementIndex(om, on)), al);
    const Dist d = mat.distribution();
    Dense<T> model(m, n);
    std::vector<std::shared_ptr<Dense<T>>> seen;
    mu::set0<Backend::MC>(pika::execution::thread_priority::normal, mat);
    for (std::size_t k = 0; k < ops.size(); ++k) {
      const Op& o = ops[k];
      switch (o.kind) {
        case SetF: {
          Getter<T> g(o.seed, m, n);
          mu::set(mat, g);
          for (SizeType j = 0; j < n; ++j)
            for (SizeType i = 0; i < m; ++i)
              model(i, j) = Getter<T>::at(o.seed, i, j);
          break;
        }
        case SetOp: {
          const blas::Op op = o.a == 0 ? blas::Op::NoTrans : o.a == 1 ? blas::Op::Trans : blas::Op::ConjTrans;
          Getter<T> g(o.seed, o.a ? n : m, o.a ? m : n);
          mu::set(mat, g, op);
          for (SizeType j = 0; j < n; ++j)
            for (SizeType i = 0; i < m; ++i) {
              const T x = o.a ? Getter<T>::at(o.seed, j, i) : Getter<T>::at(o.seed, i, j);
              model(i, j) = o.a == 2 ? cj(x) : x;
            }
          break;
        }
        case Identity:
          mu::set_identity(mat);
          for (SizeType j = 0; j < n; ++j)
            for (SizeType i = 0; i < m; ++i)
              model(i, j) = T(i == j ? 1 : 0);
          break;
        case Zero:
          mu::set0<Backend::MC>(o.a % 2 ? pika::execution::thread_priority::high : pika::execution::thread_priority::normal, mat);
          for (auto& x : model.v)
            x = T(0);
          break;
        case ZeroRange: {
          // the local tiles of a range of global tiles
          Rng q(o.seed);
          const SizeType r0 = q.i(0, d.nr_tiles().rows()), c0 = q.i(0, d.nr_tiles().cols());
          const SizeType r1 = q.i(r0, d.nr_tiles().rows()), c1 = q.i(c0, d.nr_tiles().cols());
          const LocalTileIndex b{d.next_local_tile_from_global_tile<Coord::Row>(r0), d.next_local_tile_from_global_tile<Coord::Col>(c0)};
          const LocalTileIndex e{d.next_local_tile_from_global_tile<Coord::Row>(r1), d.next_local_tile_from_global_tile<Coord::Col>(c1)};
          mu::set0<Backend::MC>(pika::execution::thread_priority::normal, b, e - b, mat);
          for (SizeType j = 0; j < n; ++j)
            for (SizeType i = 0; i < m; ++i) {
              const auto t = d.global_tile_index(GlobalElementIndex(i, j));
              if (t.row() >= r0 && t.row() < r1 && t.col() >= c0 && t.col() < c1)
                model(i, j) = T(0);
            }
          break;
        }
        case Add:
          for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles()))
            ex::start_detached(mat.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                               ex::then([c = T(static_cast<dlaf::BaseType<T>>(o.a))](auto t) {
                                 sim::maybe_yield("add");
                                 for (auto e : dlaf::common::iterate_range2d(t.size()))
                                   t(e) += c;
                               }));
          for (auto& x : model.v)
            x += T(static_cast<dlaf::BaseType<T>>(o.a));
          break;
        case Look: {
          // readers that start at any later time see the contents of now
          auto now = std::make_shared<Dense<T>>(model);
          for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
            const auto g = d.global_tile_index(ij);
            ex::start_detached(mat.read(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                               ex::then([now, g, d](auto t) {
                                 for (auto e : dlaf::common::iterate_range2d(t.get().size())) {
                                   const auto x = d.global_element_index(g, e);
                                   if (!same_bits(t.get()(e), (*now)(x.row(), x.col())) && t.get()(e) != (*now)(x.row(), x.col()))
                                     sim::violation("wrong-order", "a reader sees other contents than those of the operations before it");
                                 }
                               }));
          }
          break;
        }
        default:
          random_fill(mat, o);
          model = alone[k];
      }
      sim::maybe_yield("filled");
    }
    gather<T>(mat, out);
    if (rank == 0)
      want_out = model;
    grid.wait_all_communicators();
  });
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      if (out(i, j) != want_out(i, j))
        sim::violation(KIND, "element (" + std::to_string(i) + "," + std::to_string(j) + ") of the distributed matrix differs from that of a local one");
}

template <class T, Coord axis>
void panels() {
  const Shape sh = draw_shape(3, 3, 6, 2);
  const SizeType nb = sim::param("nb", 1, 4), m = sim::param("m", 1, 14);
  const Index2D src = draw_source(sh);
  const SizeType nt = (m + nb - 1) / nb;
  const SizeType s = sim::param("start", 0, nt - 1), e = sim::param("end", s, nt);
  const SizeType w = sim::param("width", 1, nb);
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    const Dist d({m, m}, {nb, nb}, grid.size(), grid.rank(), src);
    dlaf::matrix::Panel<axis, T, Device::CPU> p(d);
    p.setRangeStart(GlobalTileIndex(s, s));
    p.setRangeEnd(GlobalTileIndex(e, e));
    if constexpr (axis == Coord::Col)
      p.setWidth(w);
    else
      p.setHeight(w);
    for (auto ij : p.iteratorLocal())
      ex::start_detached(p.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) | ex::then([](auto t) {
                           for (auto x : dlaf::common::iterate_range2d(t.size()))
                             t(x) = T(7);
                         }));
    mu::set0<Backend::MC>(pika::execution::thread_priority::normal, p);
    for (auto ij : p.iteratorLocal()) {
      auto t = tt::sync_wait(p.read(ij));
      for (auto x : dlaf::common::iterate_range2d(t.get().size()))
        if (t.get()(x) != T(0))
          sim::violation(KIND, "a panel set to zero is not zero");
    }
    grid.wait_all_communicators();
  });
}
}
SIM_SCENARIO("C24", fill_double, 3) {
  fills<double>();
}
SIM_SCENARIO("C24", fill_complex, 3) {
  fills<zc>();
}
SIM_SCENARIO("C24", fill_float, 1) {
  fills<float>();
}
SIM_SCENARIO("C24", panel_set0, 1) {
  if (sim::param("axis", 0, 1))
    panels<double, Coord::Col>();
  else
    panels<zc, Coord::Row>();
}
