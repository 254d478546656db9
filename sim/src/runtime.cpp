// Simulated pika runtime
#include <pika/init.hpp>
#include <pika/mpi.hpp>
#include <pika/runtime.hpp>

#include <string>

namespace {
// rank slots: 0 polling enabled, 1 runtime initialised, 2 suspended, 3 started by pika::start
constexpr int kPolling = 0, kInit = 1, kSuspended = 2;
}

namespace pika::resource {
pika::execution::experimental::resource_pool& get_thread_pool(const std::string& name) {
  static pika::execution::experimental::resource_pool def{0}, mpi{1};
  return name == "mpi" ? mpi : def;
}
std::size_t get_num_threads(const std::string&) {
  return static_cast<std::size_t>(::sim::workers());
}
}

namespace pika {
void start(int, const char* const*, const init_params&) {
  auto& i = ::sim::rank_slot(::sim::cur_rank(), kInit);
  if (i)
    ::sim::violation("runtime-usage", "pika::start while the runtime is running");
  i = 1;
  ::sim::rank_slot(::sim::cur_rank(), kSuspended) = 0;
}
void start(std::nullptr_t, int argc, const char* const* argv, const init_params& p) {
  start(argc, argv, p);
}
void finalize() {}
int stop() {
  const int r = ::sim::cur_rank();
  if (!::sim::rank_slot(r, kInit))
    ::sim::violation("runtime-usage", "pika::stop without a running runtime");
  ::sim::drain(r);
  ::sim::rank_slot(r, kInit) = 0;
  return 0;
}
void wait() {
  ::sim::drain(::sim::cur_rank());
}
void suspend() {
  const int r = ::sim::cur_rank();
  if (!::sim::rank_slot(r, kInit))
    ::sim::violation("runtime-usage", "pika::suspend without a running runtime");
  ::sim::drain(r);
  ::sim::rank_slot(r, kSuspended) = 1;
}
void resume() {
  const int r = ::sim::cur_rank();
  if (!::sim::rank_slot(r, kInit))
    ::sim::violation("runtime-usage", "pika::resume without a running runtime");
  ::sim::rank_slot(r, kSuspended) = 0;
}
bool is_runtime_initialized() {
  return ::sim::rank_slot(::sim::cur_rank(), kInit) != 0;
}
}

namespace pika::mpi::experimental {
void start_polling(exception_mode, std::string) {
  ::sim::rank_slot(::sim::cur_rank(), kPolling) = 1;
}
void stop_polling() {
  ::sim::rank_slot(::sim::cur_rank(), kPolling) = 0;
}
std::string get_pool_name() {
  return ::sim::config().mpi_pool ? "polling" : "default";
}
}

int main(int argc, char** argv) {
  return ::sim::driver_main(argc, argv);
}
