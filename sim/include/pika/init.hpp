#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <pika/program_options.hpp>
#include <pika/runtime_fwd.hpp>
#ifdef DLAFSIM_BOOST_PROGRAM_OPTIONS
#include <optional>
#include <pika/execution.hpp>
#endif
namespace pika {
// pika's own options_description can be assigned
struct options_holder {
  std::shared_ptr<pika::program_options::options_description> p;
  options_holder& operator=(const pika::program_options::options_description& d) {
    p = std::make_shared<pika::program_options::options_description>(d);
    return *this;
  }
};
struct init_params {
  options_holder desc_cmdline;
  std::vector<std::string> cfg;
  std::function<void()> rp_callback;
};
void start(int argc, const char* const* argv, const init_params& params = {});
void start(std::nullptr_t, int argc, const char* const* argv, const init_params& params = {});
int stop();
void finalize();
void suspend();
void resume();
void wait();
bool is_runtime_initialized();
struct scoped_finalize {
  ~scoped_finalize() {
    finalize();
  }
};
#ifdef DLAFSIM_BOOST_PROGRAM_OPTIONS
// The program's main function runs as a task of the runtime
template <class F>
int init(F* f, int argc, const char* const* argv, const init_params& params = {}) {
  namespace ex = execution::experimental;
  program_options::variables_map vm;
  program_options::store(program_options::command_line_parser(argc, argv).options(*params.desc_cmdline.p).run(), vm);
  program_options::notify(vm);
  start(nullptr, argc, argv, params);
  std::optional<int> rc;
  this_thread::experimental::sync_wait(ex::schedule(ex::thread_pool_scheduler{}) | ex::then([&] { rc = f(vm); }));
  stop();
  return rc.value_or(-1);
}
#endif
}
