// C32: matrices written to and read from (simulated) HDF5 files
#include "common.h"

#include <memory>
#include <optional>

#include <dlaf/communication/error.h>
#include <dlaf/matrix/hdf5.h>

namespace {
using namespace hz;
using dlaf::matrix::internal::FileHDF5;

struct Desc {  // how a matrix is laid out
  bool local = false;
  SizeType mb = 1, nb = 1;
  Index2D src{0, 0};
  long al = 0;
  SizeType om = 0, on = 0;
};
Desc draw_desc(const Shape& sh, const std::string& p, bool may_local) {
  Desc d;
  d.local = may_local && sim::param(p + ".local", 0, 1) != 0;
  d.mb = sim::param(p + ".mb", 1, 4);
  d.nb = sim::param(p + ".nb", 1, 4);
  if (!d.local)
    d.src = draw_source(sh, p + ".src");
  d.al = draw_alloc(p + ".alloc");
  d.om = draw_offset(d.al, 6, p + ".row_offset");
  d.on = draw_offset(d.al, 6, p + ".col_offset");
  return d;
}
template <class T>
Mat<T> make(const Desc& d, SizeType m, SizeType n, CommunicatorGrid& grid) {
  if (d.local)
    return make_mat<T>(Dist(dlaf::LocalElementSize{m, n}, {d.mb, d.nb}, GlobalElementIndex(d.om, d.on)), d.al);
  return make_mat<T>(Dist({m, n}, {d.mb, d.nb}, grid.size(), grid.rank(), d.src, GlobalElementIndex(d.om, d.on)), d.al);
}

// elements of the local part of `a` equal to those of `want`
template <class T>
void check_matrix(Mat<T>& a, const Dense<T>& want, const char* what) {
  const Dist d = a.distribution();
  if (d.size() != GlobalElementSize(want.m, want.n))
    sim::violation("wrong-size", std::string(what) + ": size of the matrix");
  Dense<T> got = want;
  gather<T>(a, got);
  check_same(got, want, "wrong-contents", what);
}
template <class T>
void modify(Mat<T>& a) {
  for (auto ij : dlaf::common::iterate_range2d(a.distribution().local_nr_tiles()))
    ex::start_detached(a.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                       ex::then([](typename Mat<T>::TileType t) {
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i)
                             t({i, j}) = t({i, j}) * T(2);
                       }));
}

struct Fail {
  int rank = -1;
  long n = -1;
};

// Runs one I/O operation: either it succeeds, or the failure is visible (an exception or the end of the process)
template <class F>
bool io(int r, const Fail& fail, bool& failed, F&& f) {
  if (fail.rank != r) {
    f();
    return true;
  }
  try {
    f();
  }
  catch (const H5::Exception&) {
    if (!sim::hdf5_failed(r) || failed)
      throw;
    failed = true;
    sim::count("probe.io_error_reported");
    return false;
  }
  if (sim::hdf5_failed(r) && !failed)
    sim::violation("io-error-ignored", "an operation on a file failed but the call of the library returned normally");
  return true;
}

template <class T>
void program(bool faults) {
  const Shape sh = draw_shape();
  draw_tune();
  const bool parallel = sim::param("parallel_file", 0, 1) != 0;
  const int ranks = sh.pr * sh.pc;
  const int writer = static_cast<int>(sim::param("writer", 0, ranks - 1));
  const int nsets = static_cast<int>(sim::param("datasets", 1, 3));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const bool read_back = sim::param("read_back", 0, 1) != 0;
  const bool second = sim::param("second_file", 0, 1) != 0;
  const bool detach_file = sim::param("move_file", 0, 1) != 0;
  struct Set {
    SizeType m, n;
    Desc w, r[2];
    bool pending, overwrite, flush;
    int reads;
  };
  std::vector<Set> sets;
  std::vector<Dense<T>> data, other;
  for (int i = 0; i < nsets; ++i) {
    const std::string p = "d" + std::to_string(i);
    Set s;
    s.m = sim::param(p + ".m", 0, 10);
    s.n = sim::param(p + ".n", 0, 10);
    s.w = draw_desc(sh, p + ".w", true);
    if (!parallel)
      s.w.local = true;
    s.reads = static_cast<int>(sim::param(p + ".reads", 1, 2));
    for (int k = 0; k < s.reads; ++k)
      s.r[k] = draw_desc(sh, p + ".r" + std::to_string(k), true);
    s.pending = sim::param(p + ".pending", 0, 1) != 0;
    s.overwrite = sim::param(p + ".overwrite", 0, 1) != 0;
    s.flush = sim::param(p + ".flush", 0, 1) != 0;
    sets.push_back(s);
    data.push_back(random_dense<T>(s.m, s.n, seed + 10u * static_cast<unsigned>(i)));
    other.push_back(random_dense<T>(s.m, s.n, seed + 10u * static_cast<unsigned>(i) + 5));
  }
  Fail fail;
  if (faults) {
    fail.rank = parallel ? static_cast<int>(sim::param("fail.rank", 0, ranks - 1)) : writer;
    fail.n = sim::param("fail.op", 0, 30);
  }
  run_ranks(sh.cfg, [&](int r) {
    auto grid = make_grid(sh);
    Communicator world(MPI_COMM_WORLD);
    if (r == 0 && faults)
      sim::hdf5_fail_operation(fail.rank, fail.n);
    sim::harness_barrier();
    bool failed = false;
    std::vector<bool> lost(sets.size(), false);  // datasets of which an operation failed on this rank
    // rank of the world's communicator equals the simulated rank
    auto name = [](std::size_t i) { return "/set" + std::to_string(i); };
    auto read = [&](const FileHDF5& f, const Desc& d, std::size_t i) {
      if (lost[i])
        return;
      std::optional<Mat<T>> m;
      if (!io(r, fail, failed, [&] {
            m.emplace(d.local ? f.read<T>(name(i), {d.mb, d.nb}) : f.read<T>(name(i), {d.mb, d.nb}, grid, d.src));
          }))
        return;
      const Dist dd = m->distribution();
      if (dd.block_size() != GlobalElementSize(d.mb, d.nb) ||
          (!d.local && (dd.source_rank_index() != d.src || dd.grid_size() != grid.size())))
        sim::violation("wrong-distribution", "a matrix read from a file does not have the requested distribution");
      if (sets[i].overwrite) {
        Dense<T> twice = data[i];
        for (auto& x : twice.v)
          x = x * T(2);
        modify(*m);
        check_matrix(*m, twice, "matrix read and modified");
      }
      else
        check_matrix(*m, data[i], "matrix read");
    };
    auto write = [&](const FileHDF5& f, std::size_t i) {
      const Set& s = sets[i];
      Mat<T> m = make<T>(s.w, s.m, s.n, grid);
      fill(m, data[i], s.pending);
      if (!io(r, fail, failed, [&] { f.write(m, name(i)); }))
        lost[i] = true;
      if (s.overwrite)
        fill(m, other[i], true);
      check_matrix(m, s.overwrite ? other[i] : data[i], "matrix after the write");
    };
    {
      std::optional<FileHDF5> f;
      if (parallel)
        f.emplace(world, "a.h5");
      else if (r == writer)
        f.emplace("a.h5", FileHDF5::FileMode::readwrite);
      if (f) {
        for (std::size_t i = 0; i < sets.size(); ++i) {
          write(*f, i);
          if (sets[i].flush)
            f->flush();
          if (read_back && !parallel && !lost[i]) {
            Desc d = sets[i].r[0];
            d.local = true;
            read(*f, d, i);
          }
        }
        if (parallel && read_back) {
          f->flush();
          DLAF_MPI_CHECK_ERROR(MPI_Barrier(MPI_COMM_WORLD));
          bool any = false;
          for (bool l : lost)
            any = any || l;
          int l = any, all = 0;
          DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&l, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD));
          if (!all)
            for (std::size_t i = 0; i < sets.size(); ++i)
              read(*f, sets[i].r[0], i);
        }
      }
      if (f && detach_file) {
        FileHDF5 g = std::move(*f);
        f.reset();
      }
    }
    DLAF_MPI_CHECK_ERROR(MPI_Barrier(MPI_COMM_WORLD));
    // a dataset of which a write failed has no defined contents
    std::vector<int> l(sets.size()), all(sets.size());
    for (std::size_t i = 0; i < sets.size(); ++i)
      l[i] = lost[i];
    DLAF_MPI_CHECK_ERROR(MPI_Allreduce(l.data(), all.data(), static_cast<int>(l.size()), MPI_INT, MPI_MAX, MPI_COMM_WORLD));
    for (std::size_t i = 0; i < sets.size(); ++i)
      lost[i] = all[i] != 0;
    {
      FileHDF5 f("a.h5", FileHDF5::FileMode::readonly);
      for (std::size_t i = 0; i < sets.size(); ++i)
        for (int k = 0; k < sets[i].reads; ++k)
          read(f, sets[i].r[k], i);
    }
    DLAF_MPI_CHECK_ERROR(MPI_Barrier(MPI_COMM_WORLD));
    if (second && !faults) {  // copy to a file written by all ranks from the matrices read with another distribution
      {
        FileHDF5 f("a.h5", FileHDF5::FileMode::readonly);
        FileHDF5 g(world, "b.h5");
        for (std::size_t i = 0; i < sets.size(); ++i) {
          const Desc& d = sets[i].r[0];
          Mat<T> m = d.local ? f.read<T>(name(i), {d.mb, d.nb}) : f.read<T>(name(i), {d.mb, d.nb}, grid, d.src);
          g.write(m, name(i));
        }
      }
      DLAF_MPI_CHECK_ERROR(MPI_Barrier(MPI_COMM_WORLD));
      FileHDF5 g("b.h5", FileHDF5::FileMode::readonly);
      for (std::size_t i = 0; i < sets.size(); ++i)
        read(g, sets[i].w, i);
    }
    grid.wait_all_communicators();
  });
  sim::hdf5_check_quiescent();
}

void by_type(bool faults) {
  switch (sim::param("type", 0, 3)) {
    case 0:
      return program<double>(faults);
    case 1:
      return program<zc>(faults);
    case 2:
      return program<float>(faults);
    default:
      return program<std::complex<float>>(faults);
  }
}
}
SIM_SCENARIO("C32", write_and_read, 4) {
  by_type(false);
}
SIM_SCENARIO("C32", io_errors, 2) {
  by_type(true);
}
// A dataset with elements of another type is not silently converted
SIM_SCENARIO("C32", wrong_type, 1) {
  const Shape sh = draw_shape(2, 2, 3, 3);
  const bool local = sim::param("local", 0, 1) != 0;
  const SizeType m = sim::param("m", 0, 5), n = sim::param("n", 0, 5);
  run_ranks(sh.cfg, [&](int r) {
    auto grid = make_grid(sh);
    if (r == 0) {
      FileHDF5 f("a.h5", FileHDF5::FileMode::readwrite);
      Mat<float> a(dlaf::LocalElementSize{m, n}, {2, 2});
      const Dense<float> d = random_dense<float>(m, n, 1);
      fill(a, d, false);
      f.write(a, "/a");
    }
    sim::harness_barrier();
    sim::expect_abort(true, "probe.wrong_type_refused");
    FileHDF5 f("a.h5", FileHDF5::FileMode::readonly);
    if (local)
      f.read<double>("/a", {2, 2});
    else
      f.read<zc>("/a", {2, 2}, grid, {0, 0});
    sim::violation("wrong-type-accepted", "a dataset of single precision was read into a matrix of double precision");
  });
}
