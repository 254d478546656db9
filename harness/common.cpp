#include "common.h"

#include <pika/init.hpp>
#include <pika/program_options.hpp>

namespace hz {
Tune& tune() {
  static Tune t;
  return t;
}

static void apply_tune() {
  const Tune& t = tune();
  if (!t.set)
    return;
  auto& p = dlaf::getTuneParameters();
  using dlaf::matrix::AllocationLayout;
  p.default_allocation_layout = t.layout == 0   ? AllocationLayout::ColMajor
                                : t.layout == 1 ? AllocationLayout::Blocks
                                                : AllocationLayout::Tiles;
  p.tfactor_num_threads = static_cast<std::size_t>(t.tfactor);
  p.red2band_panel_num_threads = static_cast<std::size_t>(t.red2band);
  p.tridiag_rank1_num_threads = static_cast<std::size_t>(t.rank1);
  p.tfactor_barrier_busy_wait_us = p.red2band_barrier_busy_wait_us = p.tridiag_rank1_barrier_busy_wait_us =
      t.busy ? 1000 : 0;
  p.eigensolver_min_band = t.min_band;
  p.band_to_tridiag_1d_block_size_base = t.b1d;
  p.bt_band_to_tridiag_hh_apply_group_size = t.hh_group;
}

void check(bool ok, const std::string& kind, const std::string& msg) {
  if (!ok)
    sim::violation(kind, msg);
}

namespace {
std::vector<std::shared_ptr<void>>& kept() {
  static std::vector<std::shared_ptr<void>> v;
  return v;
}
}
void keep_alive(std::shared_ptr<void> p) {
  kept().push_back(std::move(p));
}
void run_ranks(const sim::Config& cfg, const std::function<void(int)>& body, RunOpt opt) {
  kept().clear();
  sim::mpi_auto_init(true);
  sim::run(cfg, [&](int r) {
    pika::start(nullptr, 0, nullptr, pika::init_params{});
    // One process holds all ranks: the process-wide part of the initialisation is done once
    if (r == 0)
      dlaf::initialize(pika::program_options::variables_map{});
    else
      pika::mpi::experimental::start_polling();
    if (r == 0)
      apply_tune();
    sim::harness_barrier();
    body(r);
    sim::drain(r);
    sim::harness_barrier();
    if (opt.check_leaks) {
      const auto& m = sim::mem_stats(r);
      if (m.live_blocks != 0)
        sim::violation("memory-leak", "rank " + std::to_string(r) + ": " + std::to_string(m.live_blocks) +
                                          " buffers (" + std::to_string(m.live_bytes) +
                                          " bytes) are still allocated after all objects were destroyed");
    }
    sim::harness_barrier();
    if (r == 0)
      dlaf::finalize();
    else
      pika::mpi::experimental::stop_polling();
    pika::finalize();
    pika::stop();
  });
  sim::mpi_check_quiescent(opt.check_leaks);
}
}
