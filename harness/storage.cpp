// C35: matrices are stored as requested (or where the user's memory is), however they are created or moved
#include "dist_check.h"

#include <memory>
#include <optional>

#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/tune.h>

namespace {
using namespace hz;
using dlaf::Coord;
using dlaf::GlobalElementSize;
using dlaf::LocalElementSize;
using dlaf::TileElementSize;
using dlaf::matrix::AllocationLayout;
using dlaf::matrix::AllocationLayoutDefault;
using dlaf::matrix::AllocationSpec;
using dlaf::matrix::Ld;

struct Req {
  SizeType m, n, bm, bn, tm, tn;
  int ctor;          // how the matrix is created
  long layout;       // 0 default, 1 ColMajor, 2 Blocks, 3 Tiles
  long ld;           // 0 default, 1 Compact, 2 Padded, 3 explicit
  SizeType ld_extra;
  long tune_layout;  // 0 ColMajor, 1 Blocks, 2 Tiles
  bool by_set;       // set_layout / set_ld instead of the constructor
};

template <class M>
struct TileInfo {
  const void* ptr;
  SizeType ld;
  TileElementSize size;
};

// What is known about the storage of one rank.
template <class T>
void check_storage(Mat<T>& mat, AllocationLayout want, const Req& q, bool explicit_ld, SizeType ld_value, long ld_kind, T* user, SizeType user_ld) {
  const char* kind = "wrong-storage";
  if (mat.allocation_layout() != want)
    sim::violation(kind, "the matrix does not have the layout which was asked for");
  const Dist& d = mat.distribution();
  const SizeType lm = d.local_nr_tiles().rows(), ln = d.local_nr_tiles().cols();
  std::vector<const T*> ptr;
  std::vector<SizeType> ld;
  std::vector<TileElementSize> size;
  auto at = [&](SizeType i, SizeType j) { return static_cast<std::size_t>(i + j * lm); };
  for (SizeType j = 0; j < ln; ++j)
    for (SizeType i = 0; i < lm; ++i) {
      auto w = tt::sync_wait(mat.read(LocalTileIndex(i, j)));
      ptr.push_back(w.get().ptr());
      ld.push_back(w.get().ld());
      size.push_back(w.get().size());
      if (w.get().size() != d.tile_size_of(LocalTileIndex(i, j)))
        sim::violation(kind, "a tile does not have the size of the distribution");
    }
  if (ptr.empty())
    return;
  const SizeType lr = d.local_size().rows();
  auto check_ld = [&](SizeType got, SizeType rows) {
    const SizeType lo = std::max<SizeType>(1, rows);
    if (user) {
      if (got != user_ld)
        sim::violation(kind, "a tile of a matrix on the user's memory has another leading dimension");
    }
    else if (explicit_ld) {
      if (got != ld_value)
        sim::violation(kind, "a tile has leading dimension " + std::to_string(got) + " instead of the requested " + std::to_string(ld_value));
    }
    else if (got < lo || (ld_kind == 1 && got != lo))
      sim::violation(kind, "a tile has leading dimension " + std::to_string(got) + " for " + std::to_string(rows) + " rows");
  };
  // (position of the first element of tile i along a direction, local elements)
  std::vector<SizeType> r0, c0;
  for (SizeType i = 0; i < lm; ++i)
    r0.push_back(i == 0 ? 0 : r0.back() + size[at(i - 1, 0)].rows());
  for (SizeType j = 0; j < ln; ++j)
    c0.push_back(j == 0 ? 0 : c0.back() + size[at(0, j - 1)].cols());
  auto block_of = [&](Coord, SizeType g, SizeType tiles) { return g / tiles; };
  for (SizeType j = 0; j < ln; ++j)
    for (SizeType i = 0; i < lm; ++i) {
      const T* p = ptr[at(i, j)];
      const SizeType l = ld[at(i, j)];
      if (want == AllocationLayout::ColMajor) {
        const T* base = user ? user : ptr[0];
        check_ld(l, lr);
        if (l != ld[0] || p != base + r0[static_cast<std::size_t>(i)] + l * c0[static_cast<std::size_t>(j)])
          sim::violation(kind, "a tile of a column major matrix is not at its place");
      }
      else if (want == AllocationLayout::Blocks) {
        // first tile of the same block
        const auto g = d.global_tile_index(LocalTileIndex(i, j));
        const SizeType kr = q.bm / q.tm, kc = q.bn / q.tn;
        SizeType fi = i, fj = j;
        while (fi > 0 && block_of(Coord::Row, d.template global_tile_from_local_tile<Coord::Row>(fi - 1), kr) == g.row() / kr)
          --fi;
        while (fj > 0 && block_of(Coord::Col, d.template global_tile_from_local_tile<Coord::Col>(fj - 1), kc) == g.col() / kc)
          --fj;
        SizeType rows = 0;
        for (SizeType k = fi; k < lm && d.template global_tile_from_local_tile<Coord::Row>(k) / kr == g.row() / kr; ++k)
          rows += size[at(k, j)].rows();
        check_ld(l, rows);
        if (l != ld[at(fi, fj)] ||
            p != ptr[at(fi, fj)] + (r0[static_cast<std::size_t>(i)] - r0[static_cast<std::size_t>(fi)]) +
                     l * (c0[static_cast<std::size_t>(j)] - c0[static_cast<std::size_t>(fj)]))
          sim::violation(kind, "a tile is not at its place in the block");
      }
      else
        check_ld(l, size[at(i, j)].rows());
    }
  // every element has a place of its own
  std::vector<const T*> all;
  for (SizeType j = 0; j < ln; ++j)
    for (SizeType i = 0; i < lm; ++i)
      for (SizeType c = 0; c < size[at(i, j)].cols(); ++c)
        for (SizeType r = 0; r < size[at(i, j)].rows(); ++r)
          all.push_back(ptr[at(i, j)] + r + c * ld[at(i, j)]);
  std::sort(all.begin(), all.end(), std::less<const T*>());
  for (std::size_t k = 1; k < all.size(); ++k)
    if (all[k] == all[k - 1])
      sim::violation(kind, "two elements share their place in memory");
}

// The tiles of a retiled matrix are parts of the tiles of the matrix.
template <class T>
void check_retiled(Mat<T>& mat, AllocationLayout want, SizeType rt, SizeType ct) {
  const Dist d = mat.distribution();
  const auto nt = d.local_nr_tiles();
  std::vector<const T*> ptr;
  std::vector<SizeType> ld;
  for (SizeType j = 0; j < nt.cols(); ++j)
    for (SizeType i = 0; i < nt.rows(); ++i) {
      auto w = tt::sync_wait(mat.read(LocalTileIndex(i, j)));
      ptr.push_back(w.get().ptr());
      ld.push_back(w.get().ld());
    }
  auto sub = mat.retiled_sub_pipeline({rt, ct});
  if (want == AllocationLayout::Tiles && rt * ct > 1)
    want = AllocationLayout::Blocks;
  if (sub.allocation_layout() != want)
    sim::violation("wrong-storage", "a retiled matrix has another layout");
  const Dist& s = sub.distribution();
  for (SizeType j = 0; j < s.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < s.local_nr_tiles().rows(); ++i) {
      auto w = tt::sync_wait(sub.read(LocalTileIndex(i, j)));
      const std::size_t k = static_cast<std::size_t>(i / rt + (j / ct) * nt.rows());
      if (w.get().ld() != ld[k] ||
          w.get().ptr() != ptr[k] + (i % rt) * s.tile_size().rows() + (j % ct) * s.tile_size().cols() * ld[k])
        sim::violation("wrong-storage", "a tile of a retiled matrix is not at its place");
    }
}

template <class T>
void storage() {
  Shape sh = draw_shape(3, 3, 6, 2);
  Req q;
  q.ctor = static_cast<int>(sim::param("ctor", 0, 10));
  const bool local = q.ctor <= 2 || q.ctor == 5 || q.ctor == 10;
  q.m = sim::param("m", 0, 16);
  q.n = sim::param("n", 0, 12);
  q.tm = sim::param("tm", 1, 4);
  q.tn = sim::param("tn", 1, 4);
  const SizeType km = sim::param("km", 1, 3), kn = sim::param("kn", 1, 3);
  const bool by_dist = q.ctor == 4;
  q.bm = by_dist ? q.tm * km : q.tm;
  q.bn = by_dist ? q.tn * kn : q.tn;
  q.layout = sim::param("layout", 0, 3);
  q.ld = sim::param("ld", 0, 3);
  q.ld_extra = sim::param("ld_extra", 0, 3);
  q.tune_layout = sim::param("tune.default_layout", 0, 2);
  q.by_set = sim::param("by_set", 0, 1) != 0;
  Index2D src = draw_source(sh);
  if (q.ctor == 3 || q.ctor == 7)
    src = {0, 0};
  const bool async = sim::param("async_fill", 0, 1) != 0;
  const long moves = sim::param("moves", 0, 3);
  SizeType rt = sim::param("retile_rows", 1, 2), ct = sim::param("retile_cols", 1, 2);
  if (q.tm % rt != 0)
    rt = 1;
  if (q.tn % ct != 0)
    ct = 1;
  const bool no_gather = sim::param("no_gather", 0, 1) != 0;
  const long data = sim::param("dataseed", 0, 100000);
  const Dense<T> init = random_dense<T>(q.m, q.n, static_cast<std::uint64_t>(data));
  Dense<T> ref = init;
  for (auto& x : ref.v)
    x = (x + T(5)) + T(5);
  const Dense<T> junk(3, 2, T(1));
  std::vector<Dense<T>> outs(static_cast<std::size_t>(sh.cfg.nranks), Dense<T>(q.m, q.n));
  run_ranks(sh.cfg, [&](int world) {
    auto grid = make_grid(sh);
    const Size2D gs = local ? Size2D{1, 1} : grid.size();
    const Index2D me = local ? Index2D{0, 0} : grid.rank();
    const Index2D s = local ? Index2D{0, 0} : src;
    auto& tune_layout = dlaf::getTuneParameters().default_allocation_layout;
    const auto old_layout = tune_layout;
    const Dist expect({q.m, q.n}, {q.bm, q.bn}, {q.tm, q.tn}, gs, me, s);
    const SizeType lr = expect.local_size().rows(), lc = expect.local_size().cols();
    // (what was asked for; memory of the user is always column major)
    const bool user = q.ctor >= 5;
    AllocationLayout want = AllocationLayout::ColMajor;
    if (!user && q.layout > 0)
      want = static_cast<AllocationLayout>(q.layout - 1);
    else if (!user)
      want = static_cast<AllocationLayout>(q.tune_layout);
    const SizeType min_ld = std::max<SizeType>(1, want == AllocationLayout::ColMajor ? lr : want == AllocationLayout::Blocks ? q.bm : q.tm);
    const SizeType ld_value = min_ld + q.ld_extra;
    long ld_kind = q.ld;
    if (ld_kind == 0)
      ld_kind = want == AllocationLayout::ColMajor ? 2 : 1;
    tune_layout = static_cast<AllocationLayout>(q.tune_layout);
    AllocationSpec spec;
    if (q.by_set) {
      if (q.layout > 0)
        spec.set_layout(want);
      if (q.ld == 1 || q.ld == 2)
        spec.set_ld(q.ld == 1 ? Ld::Compact : Ld::Padded);
      else if (q.ld == 3)
        spec.set_ld(dlaf::matrix::LdSpec(ld_value));
    }
    else if (q.layout > 0) {
      if (q.ld == 0)
        spec = AllocationSpec(want);
      else if (q.ld == 3)
        spec = AllocationSpec(want, ld_value);
      else
        spec = AllocationSpec(want, q.ld == 1 ? Ld::Compact : Ld::Padded);
    }
    else {
      if (q.ld == 3)
        spec = AllocationSpec(AllocationLayoutDefault{}, ld_value);
      else if (q.ld > 0)
        spec = AllocationSpec(AllocationLayoutDefault{}, q.ld == 1 ? Ld::Compact : Ld::Padded);
    }
    if (!user) {
      dlaf::matrix::LdSpec ask = q.ld == 3 ? dlaf::matrix::LdSpec(ld_value) : dlaf::matrix::LdSpec(ld_kind == 2 ? Ld::Padded : Ld::Compact);
      if (spec.layout() != want || spec.ld() != ask)
        sim::violation("wrong-storage", "the specification of the allocation does not give what was asked for");
    }
    // memory of the user, with a margin on both sides
    const SizeType uld = std::max<SizeType>(1, lr) + q.ld_extra;
    const std::size_t margin = 5, usize = lr * lc == 0 ? 0 : static_cast<std::size_t>(lr + uld * (lc - 1));
    const T canary = T(-77);
    std::vector<T> mem(usize + 2 * margin, canary);
    T* up = mem.data() + margin;
    const GlobalElementSize sz(q.m, q.n);
    const TileElementSize ts(q.tm, q.tn);
    if (q.ctor == 8 || q.ctor == 9) {  // (the constant matrix reads what is there)
      for (SizeType j = 0; j < lc; ++j)
        for (SizeType i = 0; i < lr; ++i)
          up[i + j * uld] = init(expect.template global_element_from_local_element<Coord::Row>(i),
                                 expect.template global_element_from_local_element<Coord::Col>(j));
    }
    auto create = [&]() -> Mat<T> {
      switch (q.ctor) {
        case 0:
          return Mat<T>(sz, ts, spec);
        case 1:
          return Mat<T>(LocalElementSize(q.m, q.n), ts, spec);
        case 2:
          return Mat<T>({q.m, q.n}, ts, spec);
        case 3:
          return Mat<T>(sz, ts, grid, spec);
        case 4:
          return Mat<T>(expect, spec);
        case 5:
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(sz, ts, uld, up);
        case 6:
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(sz, ts, uld, grid, src, up);
        case 7:
          return dlaf::matrix::create_matrix_from_col_major<Device::CPU>(sz, ts, uld, grid, up);
        default:
          return Mat<T>(dlaf::matrix::ColMajorLayout(expect, uld), up);
      }
    };
    {
      std::optional<Mat<T>> mat;
      std::optional<CMat<T>> cmat;
      if (q.ctor == 8)
        cmat.emplace(dlaf::matrix::ColMajorLayout(expect, uld), static_cast<const T*>(up));
      else
        mat.emplace(create());
      // (a later change of the default concerns other matrices)
      tune_layout = old_layout;
      const Dist d = cmat ? cmat->distribution() : mat->distribution();
      check_axis<Coord::Row>(d, 0, q.bm, q.tm, gs.rows(), s.row(), me.row(), "wrong-storage");
      check_axis<Coord::Col>(d, 0, q.bn, q.tn, gs.cols(), s.col(), me.col(), "wrong-storage");
      if (d.rank_index() != me || d.grid_size() != gs || d.tile_size() != ts)
        sim::violation("wrong-storage", "the matrix has another distribution than requested");
      auto& out = outs[static_cast<std::size_t>(world)];
      if (cmat) {
        gather<T>(*cmat, out);
        for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
          auto w = tt::sync_wait(cmat->read(ij));
          const SizeType e0 = d.template local_element_from_local_tile_and_tile_element<Coord::Row>(ij.row(), 0);
          const SizeType e1 = d.template local_element_from_local_tile_and_tile_element<Coord::Col>(ij.col(), 0);
          if (w.get().ptr() != up + e0 + e1 * uld || w.get().ld() != uld)
            sim::violation("wrong-storage", "a tile of a constant matrix is not at its place in the user's memory");
        }
      }
      else {
        check_storage<T>(*mat, want, q, !user && q.ld == 3, ld_value, ld_kind, user ? up : nullptr, uld);
        fill(*mat, init, async);
        // updates which may be pending while the matrix moves
        auto update = [&](Mat<T>& x) {
          for (auto ij : dlaf::common::iterate_range2d(x.distribution().local_nr_tiles()))
            ex::start_detached(x.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                               ex::then([](typename Mat<T>::TileType t) {
                                 sim::maybe_yield("storage update");
                                 for (SizeType c = 0; c < t.size().cols(); ++c)
                                   for (SizeType r = 0; r < t.size().rows(); ++r)
                                     t({r, c}) += T(5);
                               }));
        };
        update(*mat);
        if (moves == 1) {
          Mat<T> other(std::move(*mat));
          mat.reset();
          mat.emplace(std::move(other));
        }
        else if (moves == 2) {
          Mat<T> other({3, 2}, {2, 2});
          fill(other, junk, true);
          update(other);
          other = std::move(*mat);
          mat.reset();
          mat.emplace(std::move(other));
        }
        else if (moves == 3) {
          // a mirror on the same device is the matrix itself
          dlaf::matrix::MatrixMirror<T, Device::CPU, Device::CPU> mirror(*mat);
          if (&mirror.get() != &*mat)
            sim::violation("wrong-storage", "a mirror on the same device is another matrix");
        }
        if (q.bm == q.tm && q.bn == q.tn)
          check_retiled<T>(*mat, want, rt, ct);
        if (mat->distribution() != d)
          sim::violation("wrong-storage", "the moved matrix has another distribution");
        update(*mat);
        if (mat->allocation_layout() != want)
          sim::violation("wrong-storage", "the moved matrix has another layout");
        if (user && no_gather)
          mat->wait_local_tiles();
        else
          gather<T>(*mat, out);
      }
      if (user && mat) {
        // complete on the destruction at the latest
        mat->wait_local_tiles();
        for (SizeType j = 0; j < lc; ++j)
          for (SizeType i = 0; i < lr; ++i)
            out(expect.template global_element_from_local_element<Coord::Row>(i), expect.template global_element_from_local_element<Coord::Col>(j)) = up[i + j * uld];
      }
      if (cmat)
        cmat->wait_local_tiles();
    }
    if (user) {
      for (std::size_t k = 0; k < mem.size(); ++k) {
        const bool inside = k >= margin && k < margin + usize && static_cast<SizeType>(k - margin) % uld < lr;
        if (!inside && mem[k] != canary)
          sim::violation("wrong-storage", "memory of the user which is not part of the matrix was written");
      }
    }
    // every rank compares what it owns
    const Dense<T>& expected = q.ctor == 8 ? init : ref;
    const auto& out = outs[static_cast<std::size_t>(world)];
    for (SizeType j = 0; j < lc; ++j)
      for (SizeType i = 0; i < lr; ++i) {
        const SizeType gi = expect.template global_element_from_local_element<Coord::Row>(i), gj = expect.template global_element_from_local_element<Coord::Col>(j);
        if (out(gi, gj) != expected(gi, gj))
          sim::violation("wrong-contents", "element (" + std::to_string(gi) + "," + std::to_string(gj) + ") of the matrix differs");
      }
    grid.wait_all_communicators();
  });
}
}
SIM_SCENARIO("C35", storage_double, 2) {
  storage<double>();
}
SIM_SCENARIO("C35", storage_complex, 1) {
  storage<std::complex<double>>();
}
SIM_SCENARIO("C35", storage_float, 1) {
  storage<float>();
}
