// C15: permutations of rows and columns
#include "common.h"

#include <dlaf/permutations/general.h>
#include <dlaf/permutations/general/impl.h>

namespace dlaf::permutations::internal {
DLAF_PERMUTATIONS_GENERAL_ETI(, Backend::MC, Device::CPU, double)
DLAF_PERMUTATIONS_GENERAL_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;
using dlaf::Coord;

template <class T, Coord C>
void perm(long kind) {  // 0: local matrix, 1: distributed, 2: rank local permutation of a distributed matrix
  const Shape sh = kind == 0 ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 1, 4));
  const SizeType n = el_.size(sim::param("n", 0, 18));
  const SizeType nt = (n + nb - 1) / nb;
  const SizeType ib = sim::param("i_begin", 0, nt);
  const SizeType ie = sim::param("i_end", ib, nt);
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const long al = draw_alloc("alloc_in"), bl = draw_alloc("alloc_out");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long pk = sim::param("perm_kind", 0, 3);
  const int reps = static_cast<int>(sim::param("repeat", 1, 2));

  const SizeType e0 = std::min(n, ib * nb), e1 = std::min(n, ie * nb);
  auto make_perm = [&](SizeType k, std::uint64_t s) {
    std::vector<SizeType> p(static_cast<std::size_t>(k));
    for (SizeType i = 0; i < k; ++i)
      p[static_cast<std::size_t>(i)] = pk == 1 ? k - 1 - i : pk == 2 ? (i + k / 2) % k : i;
    if (pk == 3) {
      Rng r(s);
      for (SizeType i = k - 1; i > 0; --i)
        std::swap(p[static_cast<std::size_t>(i)], p[static_cast<std::size_t>(r.i(0, i))]);
    }
    return p;
  };
  const Dense<T> in = random_dense<T>(n, n, seed);
  const Dense<T> before = random_dense<T>(n, n, seed + 1);
  Dense<T> out(n, n), inout(n, n), want = before;
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      const Dist d({n, n}, {nb, nb}, gs, gr, src);
      Mat<T> a(d, alloc_of(al));
      Mat<T> b(d, alloc_of(bl));
      fill(a, in, async);
      fill(b, before, async);
      const SizeType np = kind == 1 ? n : d.local_size().template get<C>();
      Mat<SizeType> perms(dlaf::LocalElementSize(np, 1), TileElementSize(nb, 1), alloc_of(1));
      // element range of the permuted window, in the index space of perms
      SizeType w0 = e0, w1 = e1;
      if (kind == 2) {
        const SizeType t0 = d.template next_local_tile_from_global_tile<C>(ib);
        const SizeType t1 = d.template next_local_tile_from_global_tile<C>(ie);
        w0 = std::min(np, t0 * nb);
        w1 = std::min(np, t1 * nb);
      }
      const auto p = make_perm(w1 - w0, seed + 7);
      {
        const Dist& pd = perms.distribution();
        for (auto ij : dlaf::common::iterate_range2d(pd.local_nr_tiles())) {
          auto t = tt::sync_wait(perms.readwrite(ij));
          for (SizeType i = 0; i < t.size().rows(); ++i) {
            const SizeType g = ij.row() * nb + i;
            t({i, 0}) = (g >= w0 && g < w1) ? p[static_cast<std::size_t>(g - w0)] : SizeType(-1000000);
          }
        }
      }
      // expected values of the local elements
      if (kind != 1 || sim::cur_rank() == 0)
        for (SizeType j = e0; j < e1; ++j)
          for (SizeType i = e0; i < e1; ++i) {
            SizeType x = C == Coord::Row ? i : j;
            if (kind == 2) {
              const GlobalElementIndex ij(i, j);
              const GlobalTileIndex t = d.global_tile_index(ij);
              if (d.rank_global_tile(t) != gr)
                continue;
              const SizeType lc = d.template local_element_from_global_element<C>(x);
              x = d.template global_element_from_local_element<C>(w0 + p[static_cast<std::size_t>(lc - w0)]);
            }
            else
              x = e0 + p[static_cast<std::size_t>(x - e0)];
            want(i, j) = C == Coord::Row ? in(x, j) : in(i, x);
          }
      for (int rep = 0; rep < reps; ++rep) {
        if (kind == 1)
          dlaf::permutations::permute<Backend::MC, Device::CPU, T, C>(*grid, ib, ie, perms, a, b);
        else
          dlaf::permutations::permute<Backend::MC, Device::CPU, T, C>(ib, ie, perms, a, b);
      }
      gather<T>(b, out);
      gather<T>(a, inout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (kind == 0)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(inout, in, "operand-modified", "input matrix");
  check_same(out, want, "wrong-result", "permuted matrix");
}
void pick(long kind) {
  const long c = sim::param("complex", 0, 1);
  if (sim::param("coord.row", 0, 1))
    c ? perm<zc, Coord::Row>(kind) : perm<double, Coord::Row>(kind);
  else
    c ? perm<zc, Coord::Col>(kind) : perm<double, Coord::Col>(kind);
}
}
SIM_SCENARIO("C15", permute_local, 1) {
  pick(0);
}
SIM_SCENARIO("C15", permute_distributed, 4) {
  pick(1);
}
SIM_SCENARIO("C15", permute_rank_local, 1) {
  pick(2);
}
