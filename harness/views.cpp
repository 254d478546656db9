// C02: views of sub-matrices of distributed (re-tiled) matrices address the elements they stand for
#include "dist_check.h"

#include <memory>

#include <dlaf/matrix/matrix_ref.h>

namespace {
using namespace hz;
using dlaf::Coord;
using dlaf::matrix::internal::MatrixRef;
using T = double;

struct Step {
  SizeType r, c, m, n;
  bool retiled, ro, local_index;
  double add;
};

void views() {
  const Shape sh = draw_shape(3, 3, 6, 2);
  const SizeType tm = sim::param("tm", 1, 3), tn = sim::param("tn", 1, 3);
  const SizeType km = sim::param("km", 1, 4), kn = sim::param("kn", 1, 3);
  const bool block_tiles = sim::param("block_tiles", 0, 1) != 0;
  const SizeType m = sim::param("m", 1, 30), n = sim::param("n", 1, 14);
  const Index2D src = draw_source(sh);
  long al = draw_alloc("alloc");
  SizeType om = 0, on = 0;
  if (sim::param("offset", 0, 2) == 0) {
    om = sim::param("om", 0, 14);
    on = sim::param("on", 0, 14);
    if (om + on > 0 && al <= 1)  // (no offset with column major storage)
      al = 2;
  }
  const int nsteps = static_cast<int>(sim::param("steps", 1, 6));
  const bool async = sim::param("async_fill", 0, 1) != 0;
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000)));
  std::vector<Step> steps;
  Dense<T> init(m, n), ref(m, n), out(m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      init(i, j) = static_cast<T>(i * 100 + j);
  ref = init;
  std::vector<Dense<T>> before;
  for (int k = 0; k < nsteps; ++k) {
    Step s;
    s.r = r.i(0, m - 1);
    s.c = r.i(0, n - 1);
    s.m = r.i(1, m - s.r);
    s.n = r.i(1, n - s.c);
    s.retiled = block_tiles && r.i(0, 1) == 0;
    s.ro = r.i(0, 2) == 0;
    s.local_index = r.i(0, 1) != 0;
    s.add = static_cast<T>((k + 1) * 10000);
    before.push_back(ref);
    if (!s.ro)
      for (SizeType j = 0; j < s.n; ++j)
        for (SizeType i = 0; i < s.m; ++i)
          ref(s.r + i, s.c + j) += s.add;
    steps.push_back(s);
  }
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    const int me_r = grid.rank().row(), me_c = grid.rank().col();
    const SizeType bm = tm * km, bn = tn * kn;
    Mat<T> mat = make_mat<T>(Dist({m, n}, {bm, bn}, {block_tiles ? bm : tm, block_tiles ? bn : tn}, grid.size(), grid.rank(), src, GlobalElementIndex(om, on)), al);
    fill(mat, init, async);
    for (int k = 0; k < nsteps; ++k) {
      const Step& s = steps[static_cast<std::size_t>(k)];
      const Dense<T>* want = &before[static_cast<std::size_t>(k)];
      auto go = [&](auto& ref_view, SizeType t_m, SizeType t_n, bool ro) {
        const Dist d = ref_view.distribution();
        check_axis<Coord::Row>(d, om + s.r, bm, t_m, sh.pr, src.row(), me_r, "wrong-view");
        check_axis<Coord::Col>(d, on + s.c, bn, t_n, sh.pc, src.col(), me_c, "wrong-view");
        for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
          const auto g = d.global_tile_index(ij);
          const auto tl = d.global_element_index(g, {0, 0});
          auto look = [want, tl, s](const auto& t) {
            for (SizeType j = 0; j < t.size().cols(); ++j)
              for (SizeType i = 0; i < t.size().rows(); ++i)
                if (t({i, j}) != (*want)(s.r + tl.row() + i, s.c + tl.col() + j))
                  sim::violation("wrong-view", "a tile of a sub-matrix holds other elements than those it stands for");
          };
          auto sched = ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>());
          if (ro) {
            if (s.local_index)
              ex::start_detached(ref_view.read(ij) | sched | ex::then([look](auto t) { look(t.get()); }));
            else
              ex::start_detached(ref_view.read(g) | sched | ex::then([look](auto t) { look(t.get()); }));
          }
          else if constexpr (!std::is_const_v<std::remove_reference_t<decltype(ref_view)>>) {
            auto upd = [look, s](auto t) {
              look(t);
              sim::maybe_yield("view");
              for (SizeType j = 0; j < t.size().cols(); ++j)
                for (SizeType i = 0; i < t.size().rows(); ++i)
                  t({i, j}) += s.add;
            };
            if (s.local_index)
              ex::start_detached(ref_view.readwrite(ij) | sched | ex::then(upd));
            else
              ex::start_detached(ref_view.readwrite(g) | sched | ex::then(upd));
          }
        }
      };
      // the view disappears before what was submitted through it runs
      if (s.retiled) {
        auto sub = mat.retiled_sub_pipeline(LocalTileSize{km, kn});
        MatrixRef<T, Device::CPU> v(sub, {{s.r, s.c}, {s.m, s.n}});
        go(v, tm, tn, s.ro);
      }
      else {
        MatrixRef<T, Device::CPU> v(mat, {{s.r, s.c}, {s.m, s.n}});
        go(v, block_tiles ? bm : tm, block_tiles ? bn : tn, s.ro);
      }
      sim::maybe_yield("views step");
    }
    gather<T>(mat, out);
    grid.wait_all_communicators();
  });
  check_same(out, ref, "wrong-contents", "matrix updated through views");
}
}
SIM_SCENARIO("C02", sub_matrix_views, 1) {
  views();
}
