// C06: copy and redistribution of matrices
#include "common.h"

#include <memory>

#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>

namespace {
using namespace hz;

// One program of copies and overwrites on a few matrices; the reference model executes it sequentially on dense arrays.
struct Step {
  int kind;  // 0 overwrite dst, 1 copy src -> dst
  int src, dst;
  std::uint64_t seed;
};
std::vector<Step> draw_steps(int nmat, int nsteps, std::uint64_t seed) {
  std::vector<Step> v;
  Rng r(seed + 5);
  for (int i = 0; i < nsteps; ++i) {
    Step s{static_cast<int>(r.i(0, 3)) == 0 ? 0 : 1, static_cast<int>(r.i(0, nmat - 1)), static_cast<int>(r.i(0, nmat - 1)), seed + 100u + static_cast<unsigned>(i)};
    if (s.src == s.dst)
      s.dst = (s.dst + 1) % nmat;
    v.push_back(s);
  }
  return v;
}

template <class T>
void redistribute() {
  const Shape sh = draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType bm = el_.tile(sim::param("base.rows", 1, 3)), bn = el_.tile(sim::param("base.cols", 1, 3));
  const SizeType m = el_.size(sim::param("m", 0, 20)), n = el_.size(sim::param("n", 0, 20));
  const int nmat = static_cast<int>(sim::param("matrices", 2, 3));
  const int nsteps = static_cast<int>(sim::param("steps", 1, 5));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const bool destroy = sim::param("destroy_pending", 0, 1) != 0;
  // distributions which start inside of a block (boundaries of the tiles have to coincide)
  SizeType om = 0, on = 0;
  if (sim::param("offset", 0, 2) == 0) {
    om = sim::param("om", 0, 4 * bm);
    on = sim::param("on", 0, 4 * bn);
  }
  struct D {
    SizeType mb, nb;
    Index2D src;
    long al;
  };
  std::vector<D> ds;
  for (int i = 0; i < nmat; ++i) {
    const std::string p = "m" + std::to_string(i);
    ds.push_back({bm << sim::param(p + ".rowscale", 0, 2), bn << sim::param(p + ".colscale", 0, 2), draw_source(sh, p + ".src"),
                  draw_alloc(p + ".alloc")});
    if (om + on > 0 && ds.back().al <= 1)  // (no offset with column major storage)
      ds.back().al = 2;
  }
  const auto steps = draw_steps(nmat, nsteps, seed);
  std::vector<Dense<T>> ref, init, out, data;
  for (int i = 0; i < nmat; ++i) {
    init.push_back(random_dense<T>(m, n, seed + static_cast<unsigned>(i)));
    out.emplace_back(m, n);
  }
  ref = init;
  for (auto& s : steps) {
    data.push_back(random_dense<T>(m, n, s.seed));
    ref[static_cast<std::size_t>(s.dst)] = s.kind == 0 ? data.back() : ref[static_cast<std::size_t>(s.src)];
  }
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    std::vector<std::unique_ptr<Mat<T>>> ms;
    for (int i = 0; i < nmat; ++i) {
      const D& d = ds[static_cast<std::size_t>(i)];
      ms.push_back(std::make_unique<Mat<T>>(make_mat<T>(Dist({m, n}, {d.mb, d.nb}, grid.size(), grid.rank(), d.src, GlobalElementIndex(om, on)), d.al)));
      fill(*ms.back(), init[static_cast<std::size_t>(i)], true);
    }
    for (std::size_t k = 0; k < steps.size(); ++k) {
      auto& dst = *ms[static_cast<std::size_t>(steps[k].dst)];
      if (steps[k].kind == 0)
        fill(dst, data[k], true);
      else {
        CMat<T>& src = *ms[static_cast<std::size_t>(steps[k].src)];
        dlaf::matrix::copy(src, dst, grid);
      }
      sim::maybe_yield("copy step");
    }
    for (int i = 0; i < nmat; ++i) {
      if (destroy && i > 0) {  // the result of the others must not depend on this one staying alive
        ms[static_cast<std::size_t>(i)].reset();
        out[static_cast<std::size_t>(i)] = ref[static_cast<std::size_t>(i)];
      }
    }
    for (int i = 0; i < nmat; ++i)
      if (ms[static_cast<std::size_t>(i)])
        gather<T>(*ms[static_cast<std::size_t>(i)], out[static_cast<std::size_t>(i)]);
    grid.wait_all_communicators();
  });
  for (std::size_t i = 0; i < ref.size(); ++i)
    check_same(out[i], ref[i], "wrong-contents", ("matrix " + std::to_string(i)).c_str());
}

// Full copies between matrices with the same distribution (through matrices, views and mirrors)
template <class T>
void same_distribution() {
  const Shape sh = draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType tm = el_.tile(sim::param("tile.rows", 1, 3)), tn = el_.tile(sim::param("tile.cols", 1, 3));
  const SizeType km = sim::param("tiles_per_block.rows", 1, 2), kn = sim::param("tiles_per_block.cols", 1, 2);
  const SizeType m = el_.size(sim::param("m", 0, 16)), n = el_.size(sim::param("n", 0, 16));
  const int nmat = static_cast<int>(sim::param("matrices", 2, 3));
  const int nsteps = static_cast<int>(sim::param("steps", 1, 6));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const Index2D src = draw_source(sh);
  std::vector<long> al;
  for (int i = 0; i < nmat; ++i)
    al.push_back(draw_alloc("m" + std::to_string(i) + ".alloc"));
  SizeType om = 0, on = 0;
  if (sim::param("offset", 0, 2) == 0) {
    om = sim::param("om", 0, 7);
    on = sim::param("on", 0, 7);
    if (om + on > 0)
      for (auto& x : al)
        x = std::max(x, 2l);  // (no offset with column major storage)
  }
  const auto steps = draw_steps(nmat, nsteps, seed);
  std::vector<Dense<T>> ref, init, out, data;
  for (int i = 0; i < nmat; ++i) {
    init.push_back(random_dense<T>(m, n, seed + static_cast<unsigned>(i)));
    out.emplace_back(m, n);
  }
  ref = init;
  for (auto& s : steps) {
    data.push_back(random_dense<T>(m, n, s.seed));
    ref[static_cast<std::size_t>(s.dst)] = s.kind == 0 ? data.back() : ref[static_cast<std::size_t>(s.src)];
  }
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    std::vector<std::unique_ptr<Mat<T>>> ms;
    for (int i = 0; i < nmat; ++i) {
      ms.push_back(std::make_unique<Mat<T>>(make_mat<T>(Dist({m, n}, {tm * km, tn * kn}, {tm, tn}, grid.size(), grid.rank(), src, GlobalElementIndex(om, on)), al[static_cast<std::size_t>(i)])));
      fill(*ms.back(), init[static_cast<std::size_t>(i)], true);
    }
    for (std::size_t k = 0; k < steps.size(); ++k) {
      auto& dst = *ms[static_cast<std::size_t>(steps[k].dst)];
      if (steps[k].kind == 0)
        fill(dst, data[k], true);
      else {
        CMat<T>& src_ = *ms[static_cast<std::size_t>(steps[k].src)];
        Mat<T>& nsrc = *ms[static_cast<std::size_t>(steps[k].src)];
        using dlaf::matrix::internal::MatrixRef;
        switch (steps[k].seed % 4) {
          case 0:
            dlaf::matrix::copy(src_, dst);
            break;
          case 1: {
            MatrixRef<const T, Device::CPU> a(src_);
            MatrixRef<T, Device::CPU> b(dst);
            dlaf::matrix::internal::copy(a, b);
            break;
          }
          case 2: {
            MatrixRef<const T, Device::CPU> a(src_);
            dlaf::matrix::internal::copy(a, dst);
            break;
          }
          default: {
            dlaf::matrix::MatrixMirror<const T, Device::CPU, Device::CPU> a(src_);
            dlaf::matrix::MatrixMirror<T, Device::CPU, Device::CPU> b(dst);
            dlaf::matrix::MatrixMirror<T, Device::CPU, Device::CPU> c(nsrc);
            c.copySourceToTarget();
            c.copyTargetToSource();
            dlaf::matrix::copy(a.get(), b.get());
          }
        }
      }
      sim::maybe_yield("copy step");
    }
    for (int i = 0; i < nmat; ++i)
      gather<T>(*ms[static_cast<std::size_t>(i)], out[static_cast<std::size_t>(i)]);
    grid.wait_all_communicators();
  });
  for (std::size_t i = 0; i < ref.size(); ++i)
    check_same(out[i], ref[i], "wrong-contents", ("matrix " + std::to_string(i)).c_str());
}

// Copy of a sub-matrix into a sub-matrix with another origin, distributed
template <class T>
void sub_matrix() {
  using dlaf::matrix::internal::MatrixRef;
  const Shape sh = draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType mb = el_.tile(sim::param("mb", 1, 4)), nb = el_.tile(sim::param("nb", 1, 4));
  const SizeType m = el_.size(sim::param("m", 0, 12)), n = el_.size(sim::param("n", 0, 12));
  const SizeType om = sim::param("off.m", 0, mb - 1), on = sim::param("off.n", 0, nb - 1);
  auto org = [&](const char* nm, SizeType off, SizeType b) { return off + b * sim::param(nm, 0, 3); };
  const SizeType ar = org("a.row_tile", om, mb), ac = org("a.col_tile", on, nb);
  const SizeType br = org("b.row_tile", om, mb), bc = org("b.col_tile", on, nb);
  const SizeType ta = sim::param("tail.a", 0, 3), tb = sim::param("tail.b", 0, 3);
  const Index2D src = draw_source(sh);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b");
  const bool again = sim::param("rewrite_source", 0, 1) != 0;
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const Dense<T> a = random_dense<T>(ar + m + ta, ac + n + ta, seed), b = random_dense<T>(br + m + tb, bc + n + tb, seed + 1),
                 a2 = random_dense<T>(a.m, a.n, seed + 2);
  Dense<T> aout(a.m, a.n), bout(b.m, b.n), ref = b;
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      ref(br + i, bc + j) = a(ar + i, ac + j);
  auto wrap = [](SizeType x, int p) { return static_cast<int>(((x % p) + p) % p); };
  // both views start on the same rank
  const Index2D bsrc{wrap(src.row() + ar / mb - br / mb, sh.pr), wrap(src.col() + ac / nb - bc / nb, sh.pc)};
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    Mat<T> ma(Dist({a.m, a.n}, {mb, nb}, grid.size(), grid.rank(), src), alloc_of(al));
    Mat<T> mbt(Dist({b.m, b.n}, {mb, nb}, grid.size(), grid.rank(), bsrc), alloc_of(bl));
    fill(ma, a, true);
    fill(mbt, b, true);
    {
      CMat<T>& ca = ma;
      MatrixRef<const T, Device::CPU> ra(ca, {{ar, ac}, {m, n}});
      MatrixRef<T, Device::CPU> rb(mbt, {{br, bc}, {m, n}});
      dlaf::matrix::internal::copy(ra, rb);
    }
    if (again)
      fill(ma, a2, true);
    gather<T>(mbt, bout);
    gather<T>(ma, aout);
    grid.wait_all_communicators();
  });
  check_same(bout, ref, "wrong-contents", "destination");
  check_same(aout, again ? a2 : a, "operand-modified", "source");
}

// Copies of ranges of local tiles, also inside of one matrix
template <class T>
void local_ranges() {
  const Shape sh = draw_local();
  draw_tune();
  Enlarge el_;
  const SizeType mb = el_.tile(sim::param("mb", 1, 3)), nb = el_.tile(sim::param("nb", 1, 3));
  const SizeType mt = sim::param("row_tiles", 1, 5), nt = sim::param("col_tiles", 1, 5);
  const int nmat = static_cast<int>(sim::param("matrices", 1, 3));
  const int nsteps = static_cast<int>(sim::param("steps", 1, 8));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const SizeType m = mt * mb, n = nt * nb;
  std::vector<long> al;
  for (int i = 0; i < nmat; ++i)
    al.push_back(draw_alloc("m" + std::to_string(i) + ".alloc"));
  struct R {
    int kind, s, d;
    SizeType si, sj, di, dj, h, w;
    std::uint64_t seed;
  };
  std::vector<R> prog;
  Rng r(seed + 3);
  for (int k = 0; k < nsteps; ++k) {
    R q{};
    q.kind = r.i(0, 3) == 0 ? 0 : 1;
    q.s = static_cast<int>(r.i(0, nmat - 1));
    q.d = static_cast<int>(r.i(0, nmat - 1));
    q.h = r.i(0, mt);
    q.w = r.i(0, nt);
    q.si = r.i(0, mt - q.h);
    q.di = r.i(0, mt - q.h);
    q.sj = r.i(0, nt - q.w);
    q.dj = r.i(0, nt - q.w);
    q.seed = seed + 50u + static_cast<unsigned>(k);
    // overlapping ranges of the same matrix are documented as incorrect
    if (q.kind == 1 && q.s == q.d && std::abs(q.si - q.di) < q.h && std::abs(q.sj - q.dj) < q.w && (q.si != q.di || q.sj != q.dj)) {
      q.di = q.si;
      q.dj = q.sj;
    }
    prog.push_back(q);
  }
  std::vector<Dense<T>> ref, init, out, data;
  for (int i = 0; i < nmat; ++i) {
    init.push_back(random_dense<T>(m, n, seed + static_cast<unsigned>(i)));
    out.emplace_back(m, n);
  }
  ref = init;
  for (auto& q : prog) {
    data.push_back(random_dense<T>(m, n, q.seed));
    auto& d = ref[static_cast<std::size_t>(q.d)];
    if (q.kind == 0)
      d = data.back();
    else {
      const auto s = ref[static_cast<std::size_t>(q.s)];
      for (SizeType j = 0; j < q.w * nb; ++j)
        for (SizeType i = 0; i < q.h * mb; ++i)
          d(q.di * mb + i, q.dj * nb + j) = s(q.si * mb + i, q.sj * nb + j);
    }
  }
  run_ranks(sh.cfg, [&](int) {
    std::vector<std::unique_ptr<Mat<T>>> ms;
    for (int i = 0; i < nmat; ++i) {
      ms.push_back(std::make_unique<Mat<T>>(Dist(dlaf::LocalElementSize{m, n}, {mb, nb}), alloc_of(al[static_cast<std::size_t>(i)])));
      fill(*ms.back(), init[static_cast<std::size_t>(i)], true);
    }
    for (std::size_t k = 0; k < prog.size(); ++k) {
      const R& q = prog[k];
      auto& dst = *ms[static_cast<std::size_t>(q.d)];
      if (q.kind == 0) {
        fill(dst, data[k], true);
        continue;
      }
      CMat<T>& src = *ms[static_cast<std::size_t>(q.s)];
      if (q.si == q.di && q.sj == q.dj)
        dlaf::matrix::copy(LocalTileIndex(q.si, q.sj), LocalTileSize(q.h, q.w), src, dst);
      else
        dlaf::matrix::copy(LocalTileSize(q.h, q.w), LocalTileIndex(q.si, q.sj), src, LocalTileIndex(q.di, q.dj), dst);
      sim::maybe_yield("copy step");
    }
    for (int i = 0; i < nmat; ++i)
      gather<T>(*ms[static_cast<std::size_t>(i)], out[static_cast<std::size_t>(i)]);
  });
  for (std::size_t i = 0; i < ref.size(); ++i)
    check_same(out[i], ref[i], "wrong-contents", ("matrix " + std::to_string(i)).c_str());
}
}
SIM_SCENARIO("C06", redistribute, 4) {
  sim::param("complex", 0, 1) ? redistribute<zc>() : redistribute<double>();
}
SIM_SCENARIO("C06", copy_same_distribution, 2) {
  sim::param("complex", 0, 1) ? same_distribution<zc>() : same_distribution<double>();
}
SIM_SCENARIO("C06", copy_sub_matrix, 2) {
  sim::param("complex", 0, 1) ? sub_matrix<zc>() : sub_matrix<double>();
}
SIM_SCENARIO("C06", copy_local_ranges, 1) {
  sim::param("complex", 0, 1) ? local_ranges<zc>() : local_ranges<double>();
}
