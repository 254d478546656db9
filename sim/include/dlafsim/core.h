// Deterministic simulator core: fibers, seeded scheduler, simulated clock, fault injection, recording.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- violations
[[noreturn]] void violation(const std::string& kind, const std::string& msg);
// An error of the machinery itself (never reported as a violation)
[[noreturn]] void harness_error(const std::string& msg);
// Ends the run successfully from anywhere
[[noreturn]] void finish_ok(const char* counter);
bool reported();  // something was written to stderr in this run
// While set, an abort (std::terminate, MPI_Abort, failed assertion) is the required outcome
void expect_abort(bool on, const char* counter = "expected_abort");
// Same, but only an abort of `rank` is the required outcome
void expect_abort_of(int rank, const char* counter);
// An execution that cannot progress any more is not a violation once an abort is expected
void tolerate_hang_after_fault();
bool abort_expected();
// An exception which ends the process (std::terminate)
[[noreturn]] void uncaught(const std::string& msg);

// ---------------------------------------------------------------- randomness
// Named workload parameter in [lo, hi]; recorded, overridable by the replay file, minimised towards lo.
long param(const std::string& name, long lo, long hi);
// Named parameter from a list of values (minimised towards the first one)
long param_of(const std::string& name, const std::vector<long>& values);
bool has_override(const std::string& name);
void set_param_default(const std::string& name, long v);
// Anonymous recorded choice in [0, n): 0 is the simplest/default outcome
std::uint32_t choose(std::uint32_t n);
// True with probability num/den (0 = no fault is the default outcome when replaying/minimising)
bool coin(std::uint32_t num, std::uint32_t den);

// ---------------------------------------------------------------- event log
void log_event(std::uint64_t kind, std::uint64_t a = 0, std::uint64_t b = 0, std::uint64_t c = 0);
void note(const std::string& text);  // human readable trace, only kept when tracing is on
bool tracing();
void count(const char* counter, std::uint64_t n = 1);  // reach probes / fault counters
std::uint64_t now();
std::uint64_t steps();

// ---------------------------------------------------------------- tasks
struct TaskFnBase {
  virtual ~TaskFnBase() = default;
  virtual void run() = 0;
};
using TaskFn = std::unique_ptr<TaskFnBase>;

template <class F>
TaskFn make_task(F f) {
  struct Impl final : TaskFnBase {
    F f;
    explicit Impl(F&& f_) : f(std::move(f_)) {}
    void run() override {
      f();
    }
  };
  return TaskFn(new Impl(std::move(f)));
}

constexpr int kPoolDefault = 0;
constexpr int kPoolMpi = 1;

struct TaskAttr {
  int priority = 0;      // 0 normal, 1 high, -1 low
  bool nostack = false;  // pika's nostack: must run to completion without suspending
  int pool = kPoolDefault;
};

void spawn(int rank, TaskAttr attr, TaskFn fn);

struct Fiber;
Fiber* current();
int cur_rank();             // rank of the running fiber (aborts outside of the simulation)
TaskAttr cur_attr();        // as which the running task was spawned
bool in_sim();
void yield();               // scheduling point (keeps the worker slot)
void maybe_yield(const char* where);  // buggified scheduling point: usually nothing
// Suspends the running fiber; holds_worker: blocks the worker (busy wait / blocking MPI call) instead of
// suspending the task
void block(const char* why, bool holds_worker = false);
void wake(Fiber* f);

// Event executed by the scheduler at now()+delay (the scheduler may also reorder events)
void post_event(int rank, std::uint64_t delay, TaskFn fn, const char* what);

// ---------------------------------------------------------------- ranks
struct Config {
  int nranks = 1;
  int workers = 2;      // worker threads per rank
  bool mpi_pool = false;
  std::uint64_t max_steps = 4000000;
};
Config& config();
int nranks();
int workers();

// Runs main(rank) on each rank until all mains return and the system is quiescent.
void run(const Config& cfg, std::function<void(int)> main);

// Barrier among the main fibers (harness use only; not an MPI operation)
void harness_barrier();

// Number of runnable/queued/blocked tasks of the rank
std::size_t live_tasks(int rank);
// Blocks the main fiber until rank has no live task nor pending asynchronous MPI operation
void drain(int rank);
std::size_t& pending_async(int rank);

// per rank user slot (globals)
std::uint64_t& rank_slot(int rank, int slot);

// ---------------------------------------------------------------- memory
struct MemStats {
  std::uint64_t live_blocks = 0, live_bytes = 0, total = 0;
};
MemStats& mem_stats(int rank);
void* sim_alloc(std::size_t bytes);
void sim_free(void* p);
bool sim_owns(const void* p);
void fail_alloc_after(long n, bool persistent = false);  // <0: never; then a failure of the rank is the required outcome
void check_quarantine();

// ---------------------------------------------------------------- fault knobs of the run
struct Faults {
  int mem_mode = 0;          // 0: zero fill, 1: NaN poison + quarantine, 2: NaN poison + eager reuse
  int yield_rate = 0;        // 1/1000 probability of a yield at maybe_yield
  int strategy = 0;          // scheduling strategy
  int slow_rank = -1;        // rank starved for most of the run
  int delay_max = 1;         // maximum extra latency of MPI transfers
  int eager_rate = 50;       // percent of sends that are buffered
  int inline_post = 0;       // 0: MPI calls posted from their own task, 1: inline, 2: mixed
  int stall_rate = 0;        // 1/1000: stall the chosen rank for a burst
};
Faults& faults();
void draw_faults();  // draws all knobs as named params ("swarm")

// ---------------------------------------------------------------- process driver
// Provided by the harness
struct Scenario {
  const char* name;
  void (*fn)();
  int weight;
};
void register_scenario(const char* property, const char* name, void (*fn)(), int weight = 1);
struct ScenarioReg {
  ScenarioReg(const char* property, const char* name, void (*fn)(), int weight = 1) {
    register_scenario(property, name, fn, weight);
  }
};
#define SIM_SCENARIO(prop, name, weight)                                         \
  static void scenario_##name();                                                 \
  static ::sim::ScenarioReg reg_##name(prop, #name, &scenario_##name, weight);   \
  static void scenario_##name()

int driver_main(int argc, char** argv);

}  // namespace sim
