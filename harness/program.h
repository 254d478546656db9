// Random programs of algorithms submitted back to back, with a dense sequential model
#pragma once
#include <memory>
#include <optional>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/communication/error.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/sender/transform_mpi.h>
#include <dlaf/solver/triangular.h>

#include "eig_common.h"

namespace hz {
enum class POp { Refill, Trsm, Trmm, Hemm, Gemm, Chol, TriInv, CholInv, GenToStd, Copy, Redist, Norm, Eig, User, Check, Recreate, Move };

template <class T>
struct Program {
  struct Step {
    POp op;
    int x, y = -1, z = -1;  // matrices
    bool local;
    int var = 0;
    bool async = true;
    Dense<T> data;              // refill
    Dense<T> want;              // check
    double value = 0;           // norm
    char kind = 'G';
    Index2D target{0, 0};
    int pipe = 0;
  };
  Shape sh;
  SizeType n = 0, nb = 1;
  Index2D src[2] = {{0, 0}, {0, 0}};  // two distributions
  long al = 0;
  int nd = 3, nl = 2;  // distributed, local matrices
  std::vector<Dense<T>> model;
  std::vector<char> kind;
  std::vector<Step> steps;
  std::vector<Dense<T>> init;
  bool with_eig = false;
  std::uint64_t seed = 0;
  int completed = 0;

  int id(bool local, int k) const {
    return local ? nd + k : k;
  }
  int dist_of(int m) const {  // the last distributed matrix has another source rank
    return m == nd - 1 ? 1 : 0;
  }

  static Dense<T> lower(const Dense<T>& a) {
    return triangle(a, Part::Lower);
  }
  static void solve_left(const Dense<T>& l, Dense<T>& x, bool ct) {
    const SizeType n = l.n;
    for (SizeType j = 0; j < x.n; ++j)
      for (SizeType q = 0; q < n; ++q) {
        const SizeType i = ct ? n - 1 - q : q;
        T s = x(i, j);
        for (SizeType p = 0; p < q; ++p) {
          const SizeType k = ct ? n - 1 - p : p;
          s -= (ct ? cj(l(k, i)) : l(i, k)) * x(k, j);
        }
        x(i, j) = s / (ct ? cj(l(i, i)) : l(i, i));
      }
  }
  static void store_lower(Dense<T>& a, const Dense<T>& b) {
    for (SizeType j = 0; j < a.n; ++j)
      for (SizeType i = j; i < a.m; ++i)
        a(i, j) = b(i, j);
  }
  static Dense<T> chol(const Dense<T>& h) {
    const SizeType n = h.n;
    Dense<T> l = lower(h);
    for (SizeType j = 0; j < n; ++j) {
      for (SizeType k = 0; k < j; ++k)
        for (SizeType i = j; i < n; ++i)
          l(i, j) -= l(i, k) * cj(l(j, k));
      const T d = mk<T>(std::sqrt(std::real(l(j, j))), 0);
      l(j, j) = d;
      for (SizeType i = j + 1; i < n; ++i)
        l(i, j) /= d;
    }
    return l;
  }
  static T alpha_of(int var, SizeType n) {
    return var % 2 ? mk<T>(1.0 / static_cast<double>(4 * n + 4), 0) : mk<T>(-0.25 / static_cast<double>(n + 1), 0.125 / static_cast<double>(n + 1));
  }

  Dense<T> fresh(char k, std::uint64_t s) const {
    if (k == 'H')
      return with_opposite(random_hpd<T>(n, s), Part::Lower, s, false);
    if (k == 'L')
      return with_opposite(random_tri<T>(n, Part::Lower, false, s), Part::Lower, s, false);
    return random_dense<T>(n, n, s);
  }

  void draw(bool eig, bool recreate) {
    with_eig = eig;
    sh = draw_shape(3, 3, 6, 3);
    if (eig)
      sh = two_threads(two_pipelines(sh));
    draw_tune();
    nb = sim::param("nb", eig ? 2 : 1, 4);
    tune().b1d = std::max<long>(tune().b1d, nb);
    n = sim::param("n", 0, 9);
    src[0] = draw_source(sh);
    src[1] = draw_source(sh, "src2");
    al = draw_alloc();
    seed = static_cast<std::uint64_t>(sim::param("program", 0, 10000000));
    const int nops = static_cast<int>(sim::param("operations", 1, 10));
    Rng r(seed);
    const char* kinds = "GHLGGHLG";
    for (int i = 0; i < nd + nl; ++i) {
      kind.push_back(kinds[r.i(0, 7)]);
      model.push_back(fresh(kind.back(), seed + static_cast<unsigned>(i)));
    }
    init = model;
    for (int q = 0; q < nops; ++q)
      add(r, recreate, q);
    for (int i = 0; i < nd + nl; ++i)
      check_step(i);
  }
  void check_step(int i) {
    Step s{};
    s.op = POp::Check;
    s.x = i;
    s.local = i >= nd;
    s.want = model[static_cast<std::size_t>(i)];
    s.kind = kind[static_cast<std::size_t>(i)];
    steps.push_back(std::move(s));
  }
  // a matrix of the kinds, with the first distribution; -1: none
  int pick(Rng& r, bool local, const std::string& kinds, int not1 = -1, int not2 = -1, bool second = false) {
    std::vector<int> v;
    for (int k = 0; k < (local ? nl : nd); ++k) {
      const int i = id(local, k);
      if (i != not1 && i != not2 && kinds.find(kind[static_cast<std::size_t>(i)]) != std::string::npos && (local || second || dist_of(i) == 0 || src[0] == src[1]))
        v.push_back(i);
    }
    return v.empty() ? -1 : v[static_cast<std::size_t>(r.i(0, static_cast<long>(v.size()) - 1))];
  }
  Dense<T>& M(int i) {
    return model[static_cast<std::size_t>(i)];
  }
  char& K(int i) {
    return kind[static_cast<std::size_t>(i)];
  }
  void add(Rng& r, bool recreate, int q) {
    for (int tries = 0; tries < 40; ++tries) {
      Step s{};
      s.local = r.i(0, 4) == 0;
      s.var = static_cast<int>(r.i(0, 7));
      s.async = r.i(0, 1) != 0;
      s.pipe = static_cast<int>(r.i(0, 2));
      s.target = Index2D(static_cast<int>(r.i(0, sh.pr - 1)), static_cast<int>(r.i(0, sh.pc - 1)));
      s.op = static_cast<POp>(r.i(0, 16));
      switch (s.op) {
        case POp::Refill:
        case POp::Recreate:
          if (s.op == POp::Recreate && !recreate)
            continue;
          s.x = pick(r, s.local, "GHLX", -1, -1, true);
          s.kind = "GHLG"[r.i(0, 3)];
          s.data = fresh(s.kind, seed * 31 + static_cast<unsigned>(q));
          M(s.x) = s.data;
          K(s.x) = s.kind;
          break;
        case POp::Move:
          s.x = pick(r, s.local, "GHLX", -1, -1, true);
          break;
        case POp::Trsm:
        case POp::Trmm: {
          s.y = pick(r, s.local, "L");
          s.x = pick(r, s.local, "G", s.y);
          if (s.x < 0 || s.y < 0)
            continue;
          const bool right = s.var & 1, ct = (s.var & 2) && s.op == POp::Trsm;
          const Dense<T> l = lower(M(s.y));
          if (s.op == POp::Trmm)
            M(s.x) = right ? mul(M(s.x), l) : mul(l, M(s.x));
          else if (!right)
            solve_left(l, M(s.x), ct);
          else {  // X op(L)^-1 = (op(L)^-H X^H)^H
            Dense<T> t = ctrans(M(s.x));
            solve_left(l, t, !ct);
            M(s.x) = ctrans(t);
          }
          break;
        }
        case POp::Hemm:
        case POp::Gemm: {
          s.y = s.op == POp::Hemm ? pick(r, s.local, "H") : pick(r, s.local, "GHL");
          s.z = pick(r, s.local, "GHL", s.op == POp::Hemm ? s.y : -1);
          s.x = pick(r, s.local, "G", s.y, s.z);
          if (s.x < 0 || s.y < 0 || s.z < 0)
            continue;
          if (s.op == POp::Gemm && s.y == s.z && n > 0 && !s.local)
            continue;
          const Dense<T> a = s.op == POp::Hemm ? hermitian_of(M(s.y), Part::Lower) : M(s.y);
          const Dense<T> p = mul(a, M(s.z));
          const T al_ = alpha_of(s.var, n), be = s.var & 2 ? T(1) : mk<T>(0.5, 0);
          Dense<T>& c = M(s.x);
          for (std::size_t i = 0; i < c.v.size(); ++i)
            c.v[i] = al_ * p.v[i] + be * c.v[i];
          break;
        }
        case POp::Chol:
          s.x = pick(r, s.local, "H", -1, -1, true);
          if (s.x < 0)
            continue;
          store_lower(M(s.x), chol(M(s.x)));
          K(s.x) = 'L';
          break;
        case POp::TriInv:
        case POp::CholInv: {
          s.x = pick(r, s.local, "L", -1, -1, true);
          if (s.x < 0)
            continue;
          Dense<T> inv = eye<T>(n);
          solve_left(lower(M(s.x)), inv, false);
          if (s.op == POp::CholInv) {
            store_lower(M(s.x), mul(ctrans(inv), inv));
            K(s.x) = 'H';
          }
          else
            store_lower(M(s.x), inv);
          break;
        }
        case POp::GenToStd: {
          s.x = pick(r, s.local, "H");
          s.y = pick(r, s.local, "L", s.x);
          if (s.x < 0 || s.y < 0)
            continue;
          Dense<T> a = hermitian_of(M(s.x), Part::Lower);
          const Dense<T> l = lower(M(s.y));
          solve_left(l, a, false);
          a = ctrans(a);
          solve_left(l, a, false);
          store_lower(M(s.x), ctrans(a));
          break;
        }
        case POp::Copy:
        case POp::Redist:
          if (s.op == POp::Redist)
            s.local = false;
          s.y = pick(r, s.local, "GHL", -1, -1, s.op == POp::Redist);
          s.x = pick(r, s.local, "GHLX", s.y, -1, s.op == POp::Redist);
          if (s.x < 0 || s.y < 0)
            continue;
          M(s.x) = M(s.y);
          K(s.x) = K(s.y);
          break;
        case POp::Norm:
          s.local = false;
          s.x = pick(r, false, "GHL", -1, -1, true);
          if (s.x < 0)
            continue;
          s.value = maxabs(M(s.x));
          break;
        case POp::Eig:
          if (!with_eig)
            continue;
          s.x = pick(r, s.local, "H", -1, -1, true);
          if (s.x < 0)
            continue;
          s.want = hermitian_of(M(s.x), Part::Lower);
          K(s.x) = 'X';
          break;
        case POp::User:
          s.local = false;
          s.x = 0;
          break;
        case POp::Check:
          s.x = pick(r, s.local, "GHL", -1, -1, true);
          if (s.x < 0)
            continue;
          check_step(s.x);
          return;
      }
      steps.push_back(std::move(s));
      return;
    }
  }

  // ---------------------------------------------------------------- execution on one rank
  struct Live {
    std::vector<std::unique_ptr<Mat<T>>> m;
    long blocks = 0;  // buffers owned by the matrices
    struct Eig {
      const Step* s;
      std::optional<dlaf::EigensolverResult<T, Device::CPU>> r;
    };
    std::vector<Eig> eigs;
    std::vector<std::pair<const Step*, std::shared_ptr<std::vector<long>>>> users;
    std::vector<std::function<void()>> later;
  };
  std::unique_ptr<Mat<T>> make(CommunicatorGrid& grid, int i) {
    const SizeType N = n;
    if (i >= nd)
      return std::make_unique<Mat<T>>(Dist({N, N}, {nb, nb}, {1, 1}, {0, 0}, {0, 0}), alloc_of(al));
    return std::make_unique<Mat<T>>(Dist({N, N}, {nb, nb}, grid.size(), grid.rank(), src[dist_of(i)]), alloc_of(al));
  }
  // The parts of the eigenvectors of each rank, gathered for the check after the run
  std::vector<Dense<T>> evecs;
  std::vector<Dense<double>> evals;

  void compare(Mat<T>& a, const Step& s) {
    if (s.kind == 'X')
      return;
    const double tol = 1e-9 * (1 + maxabs(s.want));
    const Dist d = a.distribution();
    for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
      auto tw = tt::sync_wait(a.read(ij));
      const auto& t = tw.get();
      const auto g = d.global_tile_index(ij);
      for (SizeType j = 0; j < t.size().cols(); ++j)
        for (SizeType i = 0; i < t.size().rows(); ++i) {
          auto e = d.global_element_index(g, {i, j});
          const double err = std::abs(t({i, j}) - s.want(e.row(), e.col()));
          if (!(err <= tol))
            sim::violation("wrong-result", "a matrix differs from the sequential execution of the program: element (" + std::to_string(e.row()) + "," +
                                               std::to_string(e.col()) + ") has error " + str(err));
        }
    }
    sim::count("probe.matrices_checked");
  }

  void exec(CommunicatorGrid& grid, Live& L, const Step& s) {
    constexpr auto MC = Backend::MC;
    const auto lo = blas::Uplo::Lower;
    auto m = [&](int i) -> Mat<T>& { return *L.m[static_cast<std::size_t>(i)]; };
    switch (s.op) {
      case POp::Refill:
        fill(m(s.x), s.data, s.async);
        break;
      case POp::Recreate:
        L.m[static_cast<std::size_t>(s.x)] = make(grid, s.x);
        fill(m(s.x), s.data, s.async);
        break;
      case POp::Move: {
        auto p = std::make_unique<Mat<T>>(std::move(m(s.x)));
        L.m[static_cast<std::size_t>(s.x)] = std::move(p);
        break;
      }
      case POp::Trsm: {
        const auto side = s.var & 1 ? blas::Side::Right : blas::Side::Left;
        const auto op = s.var & 2 ? blas::Op::ConjTrans : blas::Op::NoTrans;
        if (s.local)
          dlaf::triangular_solver<MC, Device::CPU, T>(side, lo, op, blas::Diag::NonUnit, T(1), m(s.y), m(s.x));
        else
          dlaf::triangular_solver<MC, Device::CPU, T>(grid, side, lo, op, blas::Diag::NonUnit, T(1), m(s.y), m(s.x));
        break;
      }
      case POp::Trmm: {
        const auto side = s.var & 1 ? blas::Side::Right : blas::Side::Left;
        if (s.local)
          dlaf::triangular_multiplication<MC, Device::CPU, T>(side, lo, blas::Op::NoTrans, blas::Diag::NonUnit, T(1), m(s.y), m(s.x));
        else
          dlaf::triangular_multiplication<MC, Device::CPU, T>(grid, side, lo, blas::Op::NoTrans, blas::Diag::NonUnit, T(1), m(s.y), m(s.x));
        break;
      }
      case POp::Hemm: {
        const T al_ = alpha_of(s.var, n), be = s.var & 2 ? T(1) : mk<T>(0.5, 0);
        if (s.local)
          dlaf::hermitian_multiplication<MC, Device::CPU, T>(blas::Side::Left, lo, al_, m(s.y), m(s.z), be, m(s.x));
        else
          dlaf::hermitian_multiplication<MC, Device::CPU, T>(grid, blas::Side::Left, lo, al_, m(s.y), m(s.z), be, m(s.x));
        break;
      }
      case POp::Gemm: {
        using dlaf::matrix::internal::MatrixRef;
        const T al_ = alpha_of(s.var, n), be = s.var & 2 ? T(1) : mk<T>(0.5, 0);
        CMat<T>&a = m(s.y), &b = m(s.z);
        MatrixRef<const T, Device::CPU> ra(a), rb(b);
        MatrixRef<T, Device::CPU> rc(m(s.x));
        if (s.local)
          dlaf::multiplication::internal::generalMatrix<MC>(blas::Op::NoTrans, blas::Op::NoTrans, al_, ra, rb, be, rc);
        else {
          auto row = grid.row_communicator_pipeline();
          auto col = grid.col_communicator_pipeline();
          dlaf::multiplication::internal::generalMatrix<MC>(row, col, al_, ra, rb, be, rc);
        }
        break;
      }
      case POp::Chol:
        if (s.local)
          dlaf::cholesky_factorization<MC>(lo, m(s.x));
        else
          dlaf::cholesky_factorization<MC>(grid, lo, m(s.x));
        break;
      case POp::TriInv:
        if (s.local)
          dlaf::triangular_inverse<MC>(lo, blas::Diag::NonUnit, m(s.x));
        else
          dlaf::triangular_inverse<MC>(grid, lo, blas::Diag::NonUnit, m(s.x));
        break;
      case POp::CholInv:
        if (s.local)
          dlaf::inverse_from_cholesky_factor<MC>(lo, m(s.x));
        else
          dlaf::inverse_from_cholesky_factor<MC>(grid, lo, m(s.x));
        break;
      case POp::GenToStd:
        if (s.local)
          dlaf::eigensolver::internal::generalized_to_standard<MC>(lo, m(s.x), m(s.y));
        else
          dlaf::eigensolver::internal::generalized_to_standard<MC>(grid, lo, m(s.x), m(s.y));
        break;
      case POp::Copy: {
        CMat<T>& y = m(s.y);
        dlaf::matrix::copy(y, m(s.x));
        break;
      }
      case POp::Redist:
        dlaf::matrix::copy(m(s.y), m(s.x), grid);
        break;
      case POp::Norm: {
        auto snd = dlaf::auxiliary::max_norm<MC>(grid, s.target, blas::Uplo::General, m(s.x));
        const bool mine = grid.rank() == s.target;
        const Step* p = &s;
        ex::start_detached(std::move(snd) | ex::then([mine, p](dlaf::BaseType<T> v) {
                             if (mine && !(std::abs(v - p->value) <= 1e-9 * (1 + p->value)))
                               sim::violation("wrong-result", "a norm differs from the sequential execution of the program");
                             sim::count("probe.norms");
                           }));
        break;
      }
      case POp::Eig: {
        auto res = s.local ? dlaf::hermitian_eigensolver<MC>(lo, m(s.x)) : dlaf::hermitian_eigensolver<MC>(grid, lo, m(s.x));
        L.eigs.push_back({&s, std::move(res)});
        break;
      }
      case POp::User: {
        auto in = std::make_shared<std::vector<long>>(2, s.var + 5);
        auto out = std::make_shared<std::vector<long>>(2, -1);
        auto go = [&](auto p) {
          const long want = (s.var + 5) * static_cast<long>(p.size());
          ex::start_detached(p.exclusive() | dlaf::comm::internal::transformMPI([=](const Communicator& c, MPI_Request* req) {
                               DLAF_MPI_CHECK_ERROR(MPI_Iallreduce(in->data(), out->data(), 2, MPI_LONG, MPI_SUM, c, req));
                             }) |
                             ex::then([in, out, want] {
                               check((*out)[0] == want && (*out)[1] == want, "wrong-result", "a reduction of the user on a pipeline of the grid");
                               sim::count("probe.user_collectives");
                             }));
        };
        if (s.pipe == 0)
          go(grid.full_communicator_pipeline());
        else if (s.pipe == 1)
          go(grid.row_communicator_pipeline());
        else
          go(grid.col_communicator_pipeline());
        break;
      }
      case POp::Check:
        compare(m(s.x), s);
        break;
    }
  }

  // `keep`: objects are destroyed only after everything was waited for; otherwise at once after submission
  std::function<void(Live&)> at_end;  // called when everything was submitted, before the objects are destroyed
  void run_on(CommunicatorGrid& grid, bool do_checks, bool async_init) {
    Live L;
    for (int i = 0; i < nd + nl; ++i) {
      const auto before = sim::mem_stats(sim::cur_rank()).live_blocks;
      L.m.push_back(make(grid, i));
      L.blocks += static_cast<long>(sim::mem_stats(sim::cur_rank()).live_blocks - before);
      fill(*L.m.back(), init[static_cast<std::size_t>(i)], async_init);
    }
    for (const auto& s : steps) {
      if (!do_checks && s.op == POp::Check)
        continue;
      exec(grid, L, s);
      sim::maybe_yield("submit");
    }
    if (do_checks)
      for (auto& e : L.eigs) {
        std::size_t k = 0;
        while (&steps[k] != e.s)
          ++k;
        evecs.resize(steps.size());
        evals.resize(steps.size());
        if (evecs[k].n != n)
          evecs[k] = Dense<T>(n, n), evals[k] = Dense<double>(n, 1);
        gather<T>(e.r->eigenvectors, evecs[k]);
        gather<dlaf::BaseType<T>>(e.r->eigenvalues, evals[k]);
      }
    if (at_end)
      at_end(L);
    ++completed;
  }
  void check_eigs() {
    for (std::size_t k = 0; k < evecs.size(); ++k)
      if (evecs[k].n == n && n > 0) {
        check_ascending(evals[k].v, 0, "eigensolver");
        check_eig<T>(steps[k].want, nullptr, evals[k].v, evecs[k], 1e-9, "eigensolver in a program");
        sim::count("probe.eigensolvers_checked");
      }
  }
};
}
