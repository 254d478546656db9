// C31: where the value of each option comes from
#include "common.h"

#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>

#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>

namespace {
using namespace hz;
using dlaf::configuration;
using dlaf::TuneParameters;
using dlaf::matrix::AllocationLayout;
const char* const KIND = "wrong-option";

struct Opt {
  const char* name;   // as it is printed, nullptr: not printed
  const char* env;
  const char* cmd;    // nullptr: environment only
  char type;          // s: size, i: signed size, d: real, b: switch, l: layout
  bool tune;
  std::function<double(const configuration&, const TuneParameters&)> get;
  std::function<void(configuration&, TuneParameters&, double)> set;
};
template <class M, class V>
Opt cfg_opt(const char* name, const char* env, const char* cmd, char type, V M::*p) {
  Opt o{name, env, cmd, type, std::is_same_v<M, TuneParameters>, {}, {}};
  o.get = [p](const configuration& c, const TuneParameters& t) {
    if constexpr (std::is_same_v<M, configuration>)
      return static_cast<double>(c.*p);
    else
      return static_cast<double>(t.*p);
  };
  o.set = [p](configuration& c, TuneParameters& t, double x) {
    if constexpr (std::is_same_v<M, configuration>)
      c.*p = static_cast<V>(x);
    else if constexpr (std::is_enum_v<V>)
      t.*p = static_cast<V>(static_cast<int>(x));
    else
      t.*p = static_cast<V>(x);
  };
  return o;
}
const std::vector<Opt>& table() {
  using C = configuration;
  using P = TuneParameters;
  static const std::vector<Opt> t = {
      cfg_opt(nullptr, "DLAF_PRINT_CONFIG", "dlaf:print-config", 'b', &C::print_config),
#if PIKA_VERSION_FULL >= 0x001F00
      cfg_opt("num_np_gpu_streams", "DLAF_NUM_NP_GPU_STREAMS", "dlaf:num-np-gpu-streams", 's', &C::num_np_gpu_streams),
      cfg_opt("num_hp_gpu_streams", "DLAF_NUM_HP_GPU_STREAMS", "dlaf:num-hp-gpu-streams", 's', &C::num_hp_gpu_streams),
#else
      cfg_opt("num_np_gpu_streams_per_thread", "DLAF_NUM_NP_GPU_STREAMS_PER_THREAD", "dlaf:num-np-gpu-streams-per-thread", 's', &C::num_np_gpu_streams_per_thread),
      cfg_opt("num_hp_gpu_streams_per_thread", "DLAF_NUM_HP_GPU_STREAMS_PER_THREAD", "dlaf:num-hp-gpu-streams-per-thread", 's', &C::num_hp_gpu_streams_per_thread),
#endif
      cfg_opt("umpire_host_memory_pool_initial_block_bytes", "DLAF_UMPIRE_HOST_MEMORY_POOL_INITIAL_BLOCK_BYTES", "dlaf:umpire-host-memory-pool-initial-block-bytes", 's', &C::umpire_host_memory_pool_initial_block_bytes),
      cfg_opt("umpire_host_memory_pool_next_block_bytes", "DLAF_UMPIRE_HOST_MEMORY_POOL_NEXT_BLOCK_BYTES", "dlaf:umpire-host-memory-pool-next-block-bytes", 's', &C::umpire_host_memory_pool_next_block_bytes),
      cfg_opt("umpire_host_memory_pool_alignment_bytes", "DLAF_UMPIRE_HOST_MEMORY_POOL_ALIGNMENT_BYTES", "dlaf:umpire-host-memory-pool-alignment-bytes", 's', &C::umpire_host_memory_pool_alignment_bytes),
      cfg_opt("umpire_host_memory_pool_coalescing_free_ratio", "DLAF_UMPIRE_HOST_MEMORY_POOL_COALESCING_FREE_RATIO", "dlaf:umpire-host-memory-pool-coalescing-free-ratio", 'd', &C::umpire_host_memory_pool_coalescing_free_ratio),
      cfg_opt("umpire_host_memory_pool_coalescing_reallocation_ratio", "DLAF_UMPIRE_HOST_MEMORY_POOL_COALESCING_REALLOCATION_RATIO", "dlaf:umpire-host-memory-pool-coalescing-reallocation-ratio", 'd', &C::umpire_host_memory_pool_coalescing_reallocation_ratio),
      cfg_opt("umpire_device_memory_pool_initial_block_bytes", "DLAF_UMPIRE_DEVICE_MEMORY_POOL_INITIAL_BLOCK_BYTES", "dlaf:umpire-device-memory-pool-initial-block-bytes", 's', &C::umpire_device_memory_pool_initial_block_bytes),
      cfg_opt("umpire_device_memory_pool_next_block_bytes", "DLAF_UMPIRE_DEVICE_MEMORY_POOL_NEXT_BLOCK_BYTES", "dlaf:umpire-device-memory-pool-next-block-bytes", 's', &C::umpire_device_memory_pool_next_block_bytes),
      cfg_opt("umpire_device_memory_pool_alignment_bytes", "DLAF_UMPIRE_DEVICE_MEMORY_POOL_ALIGNMENT_BYTES", "dlaf:umpire-device-memory-pool-alignment-bytes", 's', &C::umpire_device_memory_pool_alignment_bytes),
      cfg_opt("umpire_device_memory_pool_coalescing_free_ratio", "DLAF_UMPIRE_DEVICE_MEMORY_POOL_COALESCING_FREE_RATIO", "dlaf:umpire-device-memory-pool-coalescing-free-ratio", 'd', &C::umpire_device_memory_pool_coalescing_free_ratio),
      cfg_opt("umpire_device_memory_pool_coalescing_reallocation_ratio", "DLAF_UMPIRE_DEVICE_MEMORY_POOL_COALESCING_REALLOCATION_RATIO", "dlaf:umpire-device-memory-pool-coalescing-reallocation-ratio", 'd', &C::umpire_device_memory_pool_coalescing_reallocation_ratio),
      cfg_opt("num_gpu_blas_handles", "DLAF_NUM_GPU_BLAS_HANDLES", "dlaf:num-gpu-blas-handles", 's', &C::num_gpu_blas_handles),
      cfg_opt("num_gpu_lapack_handles", "DLAF_NUM_GPU_LAPACK_HANDLES", "dlaf:num-gpu-lapack-handles", 's', &C::num_gpu_lapack_handles),
      cfg_opt("default_allocation_layout", "DLAF_DEFAULT_ALLOCATION_LAYOUT", "dlaf:default_allocation_layout", 'l', &P::default_allocation_layout),
      cfg_opt("tfactor_num_threads", "DLAF_TFACTOR_NUM_THREADS", "dlaf:tfactor-num-threads", 's', &P::tfactor_num_threads),
      cfg_opt("tfactor_num_streams", "DLAF_TFACTOR_NUM_STREAMS", "dlaf:tfactor-num-streams", 's', &P::tfactor_num_streams),
      cfg_opt("tfactor_barrier_busy_wait_us", "DLAF_TFACTOR_BARRIER_BUSY_WAIT_US", "dlaf:tfactor-barrier-busy-wait-us", 's', &P::tfactor_barrier_busy_wait_us),
      cfg_opt("red2band_panel_num_threads", "DLAF_RED2BAND_PANEL_NUM_THREADS", "dlaf:red2band-panel-num-threads", 's', &P::red2band_panel_num_threads),
      cfg_opt("red2band_barrier_busy_wait_us", "DLAF_RED2BAND_BARRIER_BUSY_WAIT_US", "dlaf:red2band-barrier-busy-wait-us", 's', &P::red2band_barrier_busy_wait_us),
      cfg_opt("tridiag_rank1_num_threads", "DLAF_TRIDIAG_RANK1_NUM_THREADS", "dlaf:tridiag-rank1-num-threads", 's', &P::tridiag_rank1_num_threads),
      cfg_opt("tridiag_rank1_barrier_busy_wait_us", "DLAF_TRIDIAG_RANK1_BARRIER_BUSY_WAIT_US", "dlaf:tridiag-rank1-barrier-busy-wait-us", 's', &P::tridiag_rank1_barrier_busy_wait_us),
      cfg_opt("eigensolver_min_band", "DLAF_EIGENSOLVER_MIN_BAND", "dlaf:eigensolver-min-band", 'i', &P::eigensolver_min_band),
      cfg_opt("band_to_tridiag_1d_block_size_base", "DLAF_BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE", "dlaf:band-to-tridiag-1d-block-size-base", 'i', &P::band_to_tridiag_1d_block_size_base),
      cfg_opt("bt_band_to_tridiag_hh_apply_group_size", "DLAF_BT_BAND_TO_TRIDIAG_HH_APPLY_GROUP_SIZE", "dlaf:bt-band-to-tridiag-hh-apply-group-size", 'i', &P::bt_band_to_tridiag_hh_apply_group_size),
      cfg_opt("communicator_grid_num_pipelines", "DLAF_COMMUNICATOR_GRID_NUM_PIPELINES", "dlaf:communicator-grid-num-pipelines", 's', &P::communicator_grid_num_pipelines),
      // these have no command line option
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_CHOLESKY_FACTORIZATION_DATA", nullptr, 'b', &P::debug_dump_cholesky_factorization_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_GENERALIZED_EIGENSOLVER_DATA", nullptr, 'b', &P::debug_dump_generalized_eigensolver_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_GENERALIZED_TO_STANDARD_DATA", nullptr, 'b', &P::debug_dump_generalized_to_standard_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_EIGENSOLVER_DATA", nullptr, 'b', &P::debug_dump_eigensolver_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_INVERSE_FROM_CHOLESKY_FACTOR_DATA", nullptr, 'b', &P::debug_dump_inverse_from_cholesky_factor_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_REDUCTION_TO_BAND_DATA", nullptr, 'b', &P::debug_dump_reduction_to_band_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_BAND_TO_TRIDIAGONAL_DATA", nullptr, 'b', &P::debug_dump_band_to_tridiagonal_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_TRIANGULAR_INVERSE_DATA", nullptr, 'b', &P::debug_dump_triangular_inverse_data),
      cfg_opt(nullptr, "DLAF_DEBUG_DUMP_TRIDIAG_SOLVER_DATA", nullptr, 'b', &P::debug_dump_tridiag_solver_data),
  };
  return t;
}
const char* const LAYOUT[] = {"ColMajor", "Blocks", "Tiles"};

double draw_value(Rng& r, const Opt& o) {
  switch (o.type) {
    case 'b':
      return static_cast<double>(r.i(0, 1));
    case 'l':
      return static_cast<double>(static_cast<int>(std::vector<AllocationLayout>{AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles}[static_cast<std::size_t>(r.i(0, 2))]));
    case 'd':
      return static_cast<double>(r.i(0, 64)) / 64;
    default:
      return static_cast<double>(r.i(0, 9) == 0 ? r.i(1000000, 1l << 40) : r.i(1, 100));
  }
}
std::string layout_name(double x) {
  const auto l = static_cast<AllocationLayout>(static_cast<int>(x));
  return LAYOUT[l == AllocationLayout::ColMajor ? 0 : l == AllocationLayout::Blocks ? 1 : 2];
}
std::string text(Rng& r, const Opt& o, double x) {
  std::string s;
  if (o.type == 'b')
    s = x != 0 ? std::vector<std::string>{"ON", "true", "Yes", "1"}[static_cast<std::size_t>(r.i(0, 3))]
               : std::vector<std::string>{"off", "FALSE", "no", "0"}[static_cast<std::size_t>(r.i(0, 3))];
  else if (o.type == 'l')
    s = layout_name(x);
  else if (o.type == 'd')
    s = str(x).empty() ? "" : [&] { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return std::string(b); }();
  else
    s = std::to_string(static_cast<long long>(x));
  if ((o.type == 'b' || o.type == 'l') && r.i(0, 2) == 0)
    for (auto& c : s)
      c = static_cast<char>(r.i(0, 1) ? std::toupper(c) : std::tolower(c));
  return s;
}

void options() {
  const Shape sh = draw_local(6);
  const int rounds = static_cast<int>(sim::param("rounds", 1, 3));
  const long density = sim::param("density", 1, 4);
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000000)));
  sim::mpi_auto_init(true);
  sim::run(sh.cfg, [&](int) {
    pika::start(nullptr, 0, nullptr, pika::init_params{});
    std::map<std::string, double> tuned;  // tuning parameters keep their value until something changes it
    for (const Opt& o : table())
      ::unsetenv(o.env);
    for (int k = 0; k < rounds; ++k) {
      configuration user;
      const bool given = r.i(0, 1) != 0;
      std::vector<std::string> args{"program"};
      std::map<std::string, double> want;
      for (const Opt& o : table()) {
        TuneParameters& now = dlaf::getTuneParameters();
        double x;
        // lowest precedence first
        if (o.tune) {
          if (tuned.count(o.env) && o.get(user, now) != tuned[o.env])
            sim::violation(KIND, std::string(o.env) + " changed without being set");
          if (r.i(0, 5) == 0)
            o.set(user, now, draw_value(r, o));
        }
        else if (given && r.i(0, 5) < density)
          o.set(user, now, draw_value(r, o));
        x = o.get(user, now);
        if (r.i(0, 7) < density) {
          x = draw_value(r, o);
          ::setenv(o.env, text(r, o, x).c_str(), 1);
        }
        else
          ::unsetenv(o.env);
        if (o.cmd && r.i(0, 7) < density) {
          if (o.type == 'b') {
            x = 1;
            args.push_back(std::string("--") + o.cmd);
          }
          else {
            x = draw_value(r, o);
            if (r.i(0, 1))
              args.push_back(std::string("--") + o.cmd + "=" + text(r, o, x));
            else {
              args.push_back(std::string("--") + o.cmd);
              args.push_back(text(r, o, x));
            }
          }
        }
        want[o.env] = x;
      }
      std::vector<const char*> argv;
      for (auto& a : args)
        argv.push_back(a.c_str());
      argv.push_back(nullptr);
      const int argc = static_cast<int>(args.size());
      std::ostringstream out;
      std::streambuf* keep = std::cout.rdbuf(out.rdbuf());
      const long how = r.i(0, 2);
      std::unique_ptr<dlaf::ScopedInitializer> scoped;
      if (how == 0)
        dlaf::initialize(argc, argv.data(), user);
      else if (how == 1)
        scoped = std::make_unique<dlaf::ScopedInitializer>(argc, argv.data(), user);
      else {
        namespace po = pika::program_options;
        po::variables_map vm;
        po::store(po::parse_command_line(argc, argv.data(), dlaf::getOptionsDescription()), vm);
        po::notify(vm);
        dlaf::initialize(vm, user);
      }
      std::cout.rdbuf(keep);
      const configuration& got = dlaf::internal::getConfiguration();
      const TuneParameters& par = dlaf::getTuneParameters();
      for (const Opt& o : table()) {
        const double x = o.get(got, par);
        if (x != want[o.env])
          sim::violation(KIND, std::string(o.env) + " is " + std::to_string(x) + " instead of " + std::to_string(want[o.env]));
        if (o.tune)
          tuned[o.env] = x;
      }
      if (want["DLAF_PRINT_CONFIG"] != 0) {
        const std::string s = out.str();
        for (const Opt& o : table()) {
          if (!o.name)
            continue;
          const std::string key = std::string(" ") + o.name + " = ";
          const auto p = s.find(key);
          if (p == std::string::npos)
            sim::violation(KIND, std::string(o.name) + " is missing in the printed configuration");
          const auto e = s.find('\n', p);
          const std::string v = s.substr(p + key.size(), e - p - key.size());
          const double x = want[o.env];
          if (o.type == 'l' ? v != layout_name(x) : std::abs(std::stod(v) - x) > 1e-4 * std::abs(x))
            sim::violation(KIND, std::string(o.name) + " is printed as " + v);
        }
      }
      // in use
      {
        namespace ei = dlaf::eigensolver::internal;
        const double nw = static_cast<double>(pika::resource::get_thread_pool("default").get_os_thread_count());
        const auto workers = [&](const char* env, std::size_t used, double most) {
          if (static_cast<double>(used) != std::min(want[env], std::max(1., most)))
            sim::violation(KIND, std::string(env) + " is " + std::to_string(want[env]) + " but " + std::to_string(used) + " workers are used, with at most " + std::to_string(most));
        };
        workers("DLAF_RED2BAND_PANEL_NUM_THREADS", ei::get_red2band_panel_num_workers(), nw - 1);
        workers("DLAF_TRIDIAG_RANK1_NUM_THREADS", ei::get_tridiag_rank1_num_workers(), nw);
        workers("DLAF_TFACTOR_NUM_THREADS", dlaf::factorization::internal::get_tfactor_num_workers<Backend::MC>(), nw - 1);
        const auto nb = static_cast<SizeType>(r.i(1, 120));
        const auto base = static_cast<SizeType>(want["DLAF_BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE"]), least = static_cast<SizeType>(want["DLAF_EIGENSOLVER_MIN_BAND"]);
        if (base >= nb && ei::get1DBlockSize(nb) != base / nb * nb)
          sim::violation(KIND, "1D block size " + std::to_string(ei::get1DBlockSize(nb)) + " for blocks of " + std::to_string(nb) + " and base " + std::to_string(base));
        if (least >= 2) {
          SizeType band = std::min(least, nb);
          while (nb % band != 0)
            ++band;
          if (ei::getBandSize(nb) != band)
            sim::violation(KIND, "band size " + std::to_string(ei::getBandSize(nb)) + " for blocks of " + std::to_string(nb) + " and minimum " + std::to_string(least));
        }
      }
      {
        Mat<double> a(Dist(dlaf::LocalElementSize(7, 5), {3, 2}));
        const auto lay = static_cast<AllocationLayout>(static_cast<int>(want["DLAF_DEFAULT_ALLOCATION_LAYOUT"]));
        const auto stored = [&](bool two) {
          auto x = tt::sync_wait(a.readwrite(LocalTileIndex(0, 0)));
          auto y = tt::sync_wait(a.readwrite(two ? LocalTileIndex(1, 0) : LocalTileIndex(0, 1)));
          return std::make_pair(y.ptr() - x.ptr(), x.ld());
        };
        const auto down = stored(true);
        if (lay == AllocationLayout::ColMajor && (down.first != 3 || down.second < 7))
          sim::violation(KIND, "a matrix is not stored with the default layout");
        if (lay != AllocationLayout::ColMajor && down.second >= 7 && down.first == 3)
          sim::violation(KIND, "a matrix is stored by columns, not with the default layout");
        CommunicatorGrid grid(MPI_COMM_WORLD, 1, 1, dlaf::common::Ordering::ColumnMajor, want["DLAF_COMMUNICATOR_GRID_NUM_PIPELINES"] <= 8 ? par.communicator_grid_num_pipelines : 1);
        for (auto ij : dlaf::common::iterate_range2d(a.distribution().local_nr_tiles()))
          ex::start_detached(a.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) | ex::then([](auto) { sim::maybe_yield("use"); }));
        grid.wait_all_communicators();
      }
      sim::drain(0);
      if (scoped)
        scoped.reset();
      else
        dlaf::finalize();
      sim::maybe_yield("finalized");
    }
    for (const Opt& o : table())
      ::unsetenv(o.env);
    pika::finalize();
    pika::stop();
  });
  sim::mpi_check_quiescent(true);
}

// An option whose value cannot be understood is refused, not ignored
void invalid() {
  const Shape sh = draw_local(2);
  const long which = sim::param("option", 0, static_cast<long>(table().size()) - 1);
  const bool env = sim::param("environment", 0, 1) != 0 || !table()[static_cast<std::size_t>(which)].cmd;
  sim::mpi_auto_init(true);
  sim::run(sh.cfg, [&](int) {
    pika::start(nullptr, 0, nullptr, pika::init_params{});
    const Opt& o = table()[static_cast<std::size_t>(which)];
    for (const Opt& x : table())
      ::unsetenv(x.env);
    std::vector<std::string> args{"program"};
    if (env)
      ::setenv(o.env, "perhaps", 1);
    else
      args.push_back(o.type == 'b' ? std::string("--dlaf:no-such-option") : std::string("--") + o.cmd + "=perhaps");
    std::vector<const char*> argv;
    for (auto& a : args)
      argv.push_back(a.c_str());
    argv.push_back(nullptr);
    sim::expect_abort(true, "probe.option_refused");
    bool thrown = false;
    try {
      dlaf::initialize(static_cast<int>(args.size()), argv.data());
    }
    catch (const std::exception&) {
      thrown = true;
    }
    if (!thrown)
      sim::violation("accepted", std::string(o.env) + ": an invalid value was accepted");
    sim::expect_abort(false, "probe.option_refused");
    sim::count("probe.option_thrown");
    ::unsetenv(o.env);
    // and can be corrected
    dlaf::initialize(pika::program_options::variables_map{});
    dlaf::finalize();
    pika::finalize();
    pika::stop();
  });
}
}
SIM_SCENARIO("C31", option_sources, 4) {
  options();
}
SIM_SCENARIO("C31", invalid_options, 1) {
  invalid();
}
