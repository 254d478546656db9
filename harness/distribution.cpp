// C30: the layouts the ranks compute independently from each other agree and partition the matrix
#include <optional>

#include "dist_check.h"

#include <dlaf/matrix/views.h>

namespace {
using namespace hz;
using dlaf::Coord;
using dlaf::matrix::SubDistributionSpec;
namespace de = dlaf::matrix::internal::distribution;
const char* const KIND = "wrong-layout";

struct Sub {
  SizeType r, c, m, n;
};
void layouts() {
  const Shape sh = draw_shape(4, 4, 9, 1);
  const SizeType tm = sim::param("tm", 1, 4), tn = sim::param("tn", 1, 4);
  const SizeType km = sim::param("km", 1, 4), kn = sim::param("kn", 1, 4);
  const SizeType m = sim::param("m", 0, 40), n = sim::param("n", 0, 20);
  const Index2D src = draw_source(sh);
  const long ctor = sim::param("constructor", 0, 4);
  const bool no_offset = sim::param("default_offset", 0, 3) == 0;
  const SizeType om = no_offset ? 0 : sim::param("offset_m", 0, 12), on = no_offset ? 0 : sim::param("offset_n", 0, 12);
  const SizeType otm = sim::param("tile_offset_m", 0, 5), otn = sim::param("tile_offset_n", 0, 5);
  const int depth = static_cast<int>(sim::param("sub_depth", 0, 3));
  const bool single = sim::param("single_tile_per_block", 0, 2) == 0;
  const bool moved = sim::param("moved", 0, 1) != 0;
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000)));
  std::vector<Sub> subs;
  SizeType cm = m, cn = n;
  for (int k = 0; k < depth; ++k) {
    Sub s;
    s.r = r.i(0, cm);
    s.c = r.i(0, cn);
    s.m = r.i(0, 7) == 0 ? 0 : r.i(0, cm - s.r);
    s.n = r.i(0, 7) == 0 ? 0 : r.i(0, cn - s.c);
    cm = s.m;
    cn = s.n;
    subs.push_back(s);
  }
  const bool local = ctor == 0;
  const bool with_blocks = ctor >= 3;
  const bool with_tile_offset = ctor == 2 || ctor == 4;
  const SizeType bm = with_blocks ? tm * km : tm, bn = with_blocks ? tn * kn : tn;
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    const Size2D gs = local ? Size2D(1, 1) : grid.size();
    const Index2D me = local ? Index2D(0, 0) : grid.rank();
    const Index2D s0 = local ? Index2D(0, 0) : src;
    const GlobalElementIndex eo(om, on);
    const GlobalTileIndex to(otm, otn);
    Dist d = no_offset ? (ctor == 0   ? Dist(dlaf::LocalElementSize(m, n), {tm, tn})
                          : ctor == 1 ? Dist({m, n}, {tm, tn}, gs, me, s0)
                          : ctor == 2 ? Dist({m, n}, {tm, tn}, gs, me, s0, to)
                          : ctor == 3 ? Dist({m, n}, {bm, bn}, {tm, tn}, gs, me, s0)
                                      : Dist({m, n}, {bm, bn}, {tm, tn}, gs, me, s0, to))
             : ctor == 0 ? Dist(dlaf::LocalElementSize(m, n), {tm, tn}, eo)
             : ctor == 1 ? Dist({m, n}, {tm, tn}, gs, me, s0, eo)
             : ctor == 2 ? Dist({m, n}, {tm, tn}, gs, me, s0, to, eo)
             : ctor == 3 ? Dist({m, n}, {bm, bn}, {tm, tn}, gs, me, s0, eo)
                         : Dist({m, n}, {bm, bn}, {tm, tn}, gs, me, s0, to, eo);
    SizeType ro = om + (with_tile_offset ? otm * tm : 0), co = on + (with_tile_offset ? otn * tn : 0);
    auto check = [&](const Dist& x, SizeType t_m, SizeType t_n) {
      check_axis<Coord::Row>(x, ro, bm, t_m, gs.rows(), s0.row(), me.row(), KIND);
      check_axis<Coord::Col>(x, co, bn, t_n, gs.cols(), s0.col(), me.col(), KIND);
    };
    check(d, tm, tn);
    for (const Sub& s : subs) {
      const Dist parent = d;
      if (moved) {
        Dist c = d;
        Dist e(std::move(c), SubDistributionSpec{{s.r, s.c}, {s.m, s.n}});
        d = std::move(e);
        if (!e.size().isEmpty() || !e.local_nr_tiles().isEmpty())
          sim::violation(KIND, "a moved-from distribution is not empty");
      }
      else
        d = Dist(d, SubDistributionSpec{{s.r, s.c}, {s.m, s.n}});
      ro += s.r;
      co += s.c;
      if (d.size() != GlobalElementSize(s.m, s.n))
        sim::violation(KIND, "size of a part of a distribution");
      check(d, tm, tn);
      if (s.m > 0 && s.n > 0) {
        for (auto ij : dlaf::common::iterate_range2d(d.nr_tiles())) {
          const auto g = de::global_tile_index_from_sub_distribution(parent, {s.r, s.c}, d, ij);
          const auto o = de::tile_element_offset_from_sub_distribution(parent, {s.r, s.c}, d, ij);
          const auto x = d.global_element_index(ij, {0, 0});
          if (parent.global_element_index(g, o) != GlobalElementIndex(x.row() + s.r, x.col() + s.c))
            sim::violation(KIND, "tile of the parent of a part");
        }
      }
    }
    if (single) {
      const Dist b = dlaf::matrix::internal::create_single_tile_per_block_distribution(d);
      check(b, bm, bn);
      if (!b.single_tile_per_block())
        sim::violation(KIND, "several tiles per block");
    }
    // Every element belongs to exactly one rank: no rank knows another one's answer
    if (!local) {
      const auto cells = static_cast<std::size_t>(d.size().rows() * d.size().cols());
      std::vector<int> mine(cells, 0), all(cells, 0);
      for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
        const auto g = d.global_tile_index(ij);
        if (d.local_tile_index(g) != ij || d.rank_global_tile(g) != me || d.tile_size_of(g) != d.tile_size_of(ij))
          sim::violation(KIND, "a local tile is not the one of its global index");
        for (auto e : dlaf::common::iterate_range2d(d.tile_size_of(ij))) {
          const auto x = d.global_element_index(g, e);
          if (d.global_tile_index(x) != g || d.tile_element_index(x) != e)
            sim::violation(KIND, "an element is not in the tile it came from");
          ++mine[static_cast<std::size_t>(x.row() + x.col() * d.size().rows())];
        }
      }
      if (cells > 0) {
        MPI_Allreduce(mine.data(), all.data(), static_cast<int>(cells), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        for (int c : all)
          if (c != 1)
            sim::violation(KIND, "an element belongs to " + std::to_string(c) + " ranks");
      }
    }
    grid.wait_all_communicators();
  });
}

// Matrices which no machine holds: the index arithmetic must not depend on the size
void large_layouts() {
  sim::Config cfg;
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000000)));
  const long mag = sim::param("magnitude", 8, 44);
  const int P = static_cast<int>(sim::param("grid_rows", 1, 300)), Q = static_cast<int>(sim::param("grid_cols", 1, 300));
  const int depth = static_cast<int>(sim::param("sub_depth", 0, 2));
  const bool big_tiles = sim::param("large_tiles", 0, 1) != 0;
  const bool tile_offset = sim::param("tile_offset", 0, 1) != 0;
  const bool many = sim::param("tiles_per_block", 0, 1) != 0;
  run_ranks(cfg, [&](int) {
    const SizeType top = SizeType(1) << mag;
    auto tile = [&] { return big_tiles ? r.i(1, 1l << r.i(1, 31)) : r.i(1, 64); };
    const SizeType tm = tile(), tn = tile();
    const SizeType bm = many ? tm * r.i(1, 8) : tm, bn = many ? tn * r.i(1, 8) : tn;
    const Index2D me(static_cast<int>(r.i(0, P - 1)), static_cast<int>(r.i(0, Q - 1))), s0(static_cast<int>(r.i(0, P - 1)), static_cast<int>(r.i(0, Q - 1)));
    const SizeType m = r.i(0, top), n = r.i(0, top);
    const GlobalElementIndex eo(r.i(0, top), r.i(0, top));
    const GlobalTileIndex to(tile_offset ? r.i(0, top / tm) : 0, tile_offset ? r.i(0, top / tn) : 0);
    Dist d({m, n}, {bm, bn}, {tm, tn}, Size2D(P, Q), me, s0, to, eo);
    SizeType ro = eo.row() + to.row() * tm, co = eo.col() + to.col() * tn;
    for (int k = 0;; ++k) {
      check_axis_large<Coord::Row>(d, ro, bm, tm, P, s0.row(), me.row(), r, KIND);
      check_axis_large<Coord::Col>(d, co, bn, tn, Q, s0.col(), me.col(), r, KIND);
      if (k == depth)
        break;
      const SizeType i = r.i(0, d.size().rows()), j = r.i(0, d.size().cols());
      const GlobalElementSize sz(r.i(0, d.size().rows() - i), r.i(0, d.size().cols() - j));
      d = Dist(d, SubDistributionSpec{{i, j}, sz});
      ro += i;
      co += j;
    }
  });
}
}
SIM_SCENARIO("C30", layouts_of_all_ranks, 1) {
  layouts();
}
SIM_SCENARIO("C30", layouts_of_large_matrices, 1) {
  large_layouts();
}
