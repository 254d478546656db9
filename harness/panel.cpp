// C05: broadcast of panels
#include "common.h"

#include <memory>
#include <optional>

#include <dlaf/common/round_robin.h>
#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/panel.h>

namespace {
using namespace hz;
using dlaf::Coord;
using dlaf::orthogonal;
using dlaf::common::RoundRobin;
using dlaf::matrix::Panel;
using dlaf::matrix::splitTile;
using dlaf::matrix::StoreTransposed;

template <class T>
T value(std::uint64_t seed, int iter, SizeType k, SizeType i, SizeType j) {
  Rng r(seed * 1000003u + static_cast<unsigned>(iter) * 7919u + static_cast<unsigned>(k) * 131u + static_cast<unsigned>(i) * 17u + static_cast<unsigned>(j));
  return rnd<T>(r);
}

struct Iter {
  SizeType start, end, offset, width;  // width < 0: default
  SizeType startT, endT;
  int mode, modeT;
  int root;
  bool link;
  SizeType line;  // column (or row) of the matrix which the panel is linked to
};

template <class P>
void set_range(P& p, const Iter& it, int mode, SizeType start, SizeType end, SizeType blk) {
  using dlaf::GlobalElementIndex;
  const GlobalTileIndex s{start, start}, e{end, end};
  const GlobalElementIndex se{start * blk + it.offset, start * blk + it.offset};
  auto set_start = [&] { it.offset > 0 || mode == 2 ? p.setRangeStart(se) : p.setRangeStart(s); };
  if (it.offset == 0 && mode == 0)
    p.setRange(s, e);
  else if (start <= p.rangeEnd()) {
    set_start();
    p.setRangeEnd(e);
  }
  else {
    p.setRangeEnd(e);
    set_start();
  }
}

struct Setup {
  Shape sh;
  SizeType mb, nb, m, n;
  Index2D src;
  int nws;
  std::uint64_t seed;
  bool rewrite;
  std::vector<Iter> its;
  SizeType bias, biasT;
  long al;
};

template <class T, class P>
void check_panel(P& p, const Dist& d, std::uint64_t seed, int iter, const Iter& it, SizeType first, const char* what) {
  constexpr Coord coord = P::coord;
  for (const auto& idx : p.iteratorLocal()) {
    const SizeType k = d.global_tile_from_local_tile<coord>(idx.template get<coord>());
    (void) first;
    (void) it;
    ex::start_detached(p.read(idx) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                       ex::then([=](auto tw) {
                         const auto& t = tw.get();
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i) {
                             if (!same_bits(t({i, j}), value<T>(seed, iter, k, i, j)))
                               sim::violation("wrong-data", std::string(what) + ": iteration " + std::to_string(iter) + ", tile " + std::to_string(k) + ", element (" +
                                                                std::to_string(i) + "," + std::to_string(j) + ") does not have the value of the source panel");
                           }
                         sim::count("probe.panel_tiles_checked");
                       }));
  }
}

template <class T, Coord axis, StoreTransposed st, bool transposed, StoreTransposed stT>
void run(const Setup& s) {
  constexpr Coord coord = orthogonal(axis);
  run_ranks(s.sh.cfg, [&](int) {
    auto grid = make_grid(s.sh);
    {
      const Dist d({s.m, s.n}, {s.mb, s.nb}, grid.size(), grid.rank(), s.src);
      const SizeType blk = coord == Coord::Row ? s.mb : s.nb;
      Mat<T> mat(d, alloc_of(s.al));
      using P = Panel<axis, T, Device::CPU, st>;
      using PT = Panel<orthogonal(axis), T, Device::CPU, stT>;
      RoundRobin<P> panels(static_cast<std::size_t>(s.nws), d, GlobalTileIndex{s.bias, s.bias});
      std::optional<RoundRobin<PT>> panelsT;
      if constexpr (transposed)
        panelsT.emplace(static_cast<std::size_t>(s.nws), d, GlobalTileIndex{s.biasT, s.biasT});
      auto row = grid.row_communicator_pipeline();
      auto col = grid.col_communicator_pipeline();
      const auto rank = grid.rank();
      for (int n = 0; n < static_cast<int>(s.its.size()); ++n) {
        const Iter& it = s.its[static_cast<std::size_t>(n)];
        P& p = panels.nextResource();
        set_range(p, it, it.mode, it.start, it.end, blk);
        if (it.width > 0) {
          if constexpr (axis == Coord::Col)
            p.setWidth(it.width);
          else
            p.setHeight(it.width);
        }
        const std::uint64_t seed = s.seed;
        const bool mine = rank.template get<axis>() == it.root;
        if (mine)
          for (const auto& idx : p.iteratorLocal()) {
            const SizeType k = d.template global_tile_from_local_tile<coord>(idx.template get<coord>());
            auto write = [=](auto t) {
              for (SizeType j = 0; j < t.size().cols(); ++j)
                for (SizeType i = 0; i < t.size().rows(); ++i)
                  t({i, j}) = value<T>(seed, n, k, i, j);
            };
            auto sched = dlaf::internal::getBackendScheduler<Backend::MC>();
            if (it.link) {
              // (part of) a tile of the matrix
              const GlobalTileIndex g(coord, k, it.line);
              const SizeType o = k == it.start ? it.offset : 0;
              const auto full = d.tile_size_of(g);
              const dlaf::matrix::SubTileSpec spec{TileElementIndex(coord, o, 0),
                                                   TileElementSize(coord, full.template get<coord>() - o, it.width > 0 ? it.width : full.template get<axis>())};
              ex::start_detached(splitTile(mat.readwrite(g), spec) | ex::continues_on(sched) | ex::then(write));
              p.setTile(idx, splitTile(mat.read(g), spec));
              if (s.rewrite)
                ex::start_detached(mat.readwrite(g) | ex::continues_on(sched) | ex::then([](auto t) {
                                     for (SizeType j = 0; j < t.size().cols(); ++j)
                                       for (SizeType i = 0; i < t.size().rows(); ++i)
                                         t({i, j}) = T(-7);
                                   }));
            }
            else
              ex::start_detached(p.readwrite(idx) | ex::continues_on(sched) | ex::then(write));
          }
        if constexpr (transposed) {
          PT& pT = panelsT->nextResource();
          Iter itT = it;
          if (it.startT != it.start)
            itT.offset = 0;
          set_range(pT, itT, it.modeT, it.startT, it.endT, blk);
          if (it.width > 0) {
            if constexpr (axis == Coord::Col)
              pT.setHeight(it.width);
            else
              pT.setWidth(it.width);
          }
          dlaf::comm::broadcast(it.root, p, pT, row, col);
          check_panel<T>(pT, d, seed, n, it, it.startT, "transposed panel");
          check_panel<T>(p, d, seed, n, it, it.start, "panel");
          pT.reset();
        }
        else {
          if constexpr (axis == Coord::Col)
            dlaf::comm::broadcast(it.root, p, row);
          else
            dlaf::comm::broadcast(it.root, p, col);
          check_panel<T>(p, d, seed, n, it, it.start, "panel");
        }
        p.reset();
        sim::maybe_yield("panel iteration");
      }
    }
    grid.wait_all_communicators();
  });
}

template <class T>
void scenario(bool transposed) {
  Setup s;
  s.sh = draw_shape();
  draw_tune();
  const bool colaxis = sim::param("axis", 0, 1) == 0;
  const bool st = !transposed && sim::param("store_transposed", 0, 1) != 0;
  const bool stT = transposed && sim::param("store_transposed_T", 0, 1) != 0;
  s.mb = sim::param("mb", 1, 4);
  s.nb = transposed ? s.mb : sim::param("nb", 1, 4);
  s.m = sim::param("m", 0, 14);
  if (transposed && !stT)  // the tiles of both panels have the same shape only if all the tiles are full
    s.m = s.m / s.mb * s.mb;
  s.n = transposed ? s.m : sim::param("n", 0, 14);
  if (s.m == 0 || s.n == 0)  // a panel is related to a matrix with at least a tile in each direction
    s.m = s.n = 0;
  s.src = draw_source(s.sh);
  s.nws = static_cast<int>(sim::param("workspaces", 1, 3));
  s.al = draw_alloc();
  s.rewrite = sim::param("rewrite_source", 0, 1) != 0;
  s.seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  const int n = static_cast<int>(sim::param("iterations", 1, 5));
  const bool offsets = (!transposed || stT) && sim::param("element_offsets", 0, 1) != 0;
  Rng r(s.seed + 3);
  const SizeType blk = colaxis ? s.mb : s.nb, wid = colaxis ? s.nb : s.mb;
  const SizeType len = colaxis ? s.m : s.n, other = colaxis ? s.n : s.m;
  auto ceil = [](SizeType a, SizeType b) { return (a + b - 1) / b; };
  const SizeType nt = ceil(len, blk), no = ceil(other, wid);
  s.bias = nt == 0 || r.i(0, 1) ? 0 : r.i(0, nt - 1);
  s.biasT = transposed ? (nt == 0 || r.i(0, 1) ? s.bias : r.i(s.bias, nt - 1)) : 0;
  const int np = colaxis ? s.sh.pc : s.sh.pr;
  const int srcl = colaxis ? s.src.col() : s.src.row();
  for (int i = 0; i < n; ++i) {
    Iter it{};
    it.start = r.i(s.bias, nt);
    it.end = r.i(it.start, nt);
    it.mode = static_cast<int>(r.i(0, 2));
    it.modeT = static_cast<int>(r.i(0, 2));
    if (transposed) {
      // the transposed panel covers a part of the panel
      if (it.end < s.biasT) {
        it.end = nt;
      }
      it.startT = r.i(0, 1) ? std::max(it.start, s.biasT) : r.i(std::max(it.start, s.biasT), it.end);
      it.endT = r.i(0, 2) ? it.end : r.i(it.startT, it.end);
    }
    it.offset = 0;
    if (offsets && it.start < nt && it.start < it.end && (!transposed || it.startT == it.start) && r.i(0, 1)) {
      const SizeType ts = std::min(blk, len - it.start * blk);
      it.offset = r.i(0, ts - 1);
    }
    if (it.start == nt) {
      it.mode = 0;
    }
    if (transposed && it.startT == nt)
      it.modeT = 0;
    it.width = r.i(0, 1) ? -1 : r.i(1, wid);
    if (transposed && !stT)
      it.width = -1;
    it.root = static_cast<int>(r.i(0, np - 1));
    it.link = no > 0 && !st && r.i(0, 1);
    if (it.link) {
      it.line = r.i(0, no - 1);
      it.root = static_cast<int>((srcl + it.line) % np);
      const SizeType w = std::min(wid, other - it.line * wid);
      if (it.width > w || w < wid)
        it.width = it.width < 0 ? w : std::min(w, it.width);
      if (transposed && !stT) {
        it.link = it.width < 0 || it.width == wid;
        it.width = -1;
      }
    }
    s.its.push_back(it);
  }
  constexpr auto No = StoreTransposed::No, Yes = StoreTransposed::Yes;
  if (transposed) {
    if (colaxis)
      stT ? run<T, Coord::Col, No, true, Yes>(s) : run<T, Coord::Col, No, true, No>(s);
    else
      stT ? run<T, Coord::Row, No, true, Yes>(s) : run<T, Coord::Row, No, true, No>(s);
  }
  else if (colaxis)
    st ? run<T, Coord::Col, Yes, false, No>(s) : run<T, Coord::Col, No, false, No>(s);
  else
    st ? run<T, Coord::Row, Yes, false, No>(s) : run<T, Coord::Row, No, false, No>(s);
}
}
SIM_SCENARIO("C05", panel_broadcast, 1) {
  scenario<double>(false);
}
SIM_SCENARIO("C05", panel_broadcast_transposed, 2) {
  scenario<double>(true);
}
