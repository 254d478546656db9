#include <dlafsim/core.h>

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include <cxxabi.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void sim_ctx_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

namespace sim {

// ================================================================= shared result area
constexpr std::size_t kMaxChoices = 1u << 23;
constexpr std::size_t kTextCap = 1u << 16;

struct Shared {
  int status;  // 0 running, 1 ok, 2 violation, 3 harness error
  char kind[96];
  char msg[8192];
  std::uint64_t hash, sched_hash, steps, time, nchoices;
  char scenario[96];
  char params[kTextCap];
  char counters[kTextCap];
  std::uint32_t choices[kMaxChoices];
  // input of the run (the child process starts from the same heap image whatever the input is)
  std::uint64_t in_seed;
  char in_scenario[96];
  char in_property[96];
  char in_trace[1024];
  int in_replay, in_quiet, in_cpu;
  int in_noverrides;
  struct {
    char name[56];
    long value;
  } in_overrides[512];
  std::uint64_t in_nchoices;
  std::uint32_t in_choices[kMaxChoices];
};
static Shared* g_sh = nullptr;

// ================================================================= run state
struct EhGlobals {
  void* caught = nullptr;
  unsigned int uncaught = 0;
};

enum class FState { Ready, Running, Blocked, Done };

struct Fiber {
  std::uint64_t id = 0;
  int rank = 0;
  bool is_main = false;
  bool nostack = false;
  TaskAttr attr;
  int pool = 0;
  FState state = FState::Ready;
  bool has_slot = false;     // occupies a worker
  bool keeps_slot = false;   // blocked while holding the worker
  bool wake_pending = false;
  const char* why = "";
  void* sp = nullptr;
  char* stack = nullptr;
  std::size_t stack_size = 0;
  TaskFn fn;
  EhGlobals eh;
  std::uint64_t seq = 0;  // readiness order
  std::uint64_t prio = 0;
};

struct QTask {
  std::uint64_t id, seq, prio;
  TaskAttr attr;
  TaskFn fn;
};
struct Event {
  std::uint64_t time, seq, prio;
  int rank;
  TaskFn fn;
  const char* what;
};

struct RankState {
  RankState() = default;
  RankState(const RankState&) = delete;
  RankState& operator=(const RankState&) = delete;
  std::deque<QTask> queue[2];
  std::vector<Fiber*> ready;
  int active[2] = {0, 0};
  std::size_t live = 0;           // tasks not finished
  std::size_t pending_async = 0;  // MPI requests in flight through transform_mpi
  std::vector<Fiber*> drain_waiters;
  bool main_done = false;
  Fiber* main = nullptr;
  MemStats mem;
  std::uint64_t slots[16] = {};
};

struct State {
  Config cfg;
  std::deque<RankState> ranks;
  std::vector<Event> events;
  std::vector<Fiber*> all_fibers;
  std::vector<std::pair<char*, std::size_t>> free_stacks;
  Fiber* cur = nullptr;
  void* sched_sp = nullptr;
  std::uint64_t next_id = 1, next_seq = 1;
  std::uint64_t now = 0, steps = 0;
  bool running = false;
  int barrier_count = 0;
  std::vector<Fiber*> barrier_waiters;
  // rng
  std::uint64_t seed = 0;
  std::uint64_t s_rng[2] = {1, 2};  // schedule stream
  std::uint64_t p_rng[2] = {3, 4};  // strategy-internal stream (not recorded)
  bool replay = false;
  std::size_t choice_pos = 0;
  std::map<std::string, long> defaults;
  std::vector<std::string> param_order;
  std::map<std::string, long> params;
  std::map<std::string, int> param_seen;
  std::uint64_t hash = 1469598103934665603ull, sched_hash = 1469598103934665603ull;
  std::map<std::string, std::uint64_t> counters;
  FILE* trace = nullptr;
  Faults faults;
  // strategy state
  int burst_rank = -1;
  int burst_left = 0;
  int stalled_rank = -1;
  std::uint64_t stall_until = 0;
  std::uint64_t pct_change_next = 50;
  std::uint64_t pct_low = 1ull << 40;
  bool eager_cancel = false;
  std::string scenario;
};
static State* S = nullptr;

static std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static std::uint64_t rng_next(std::uint64_t s[2]) {
  // xoroshiro128+
  const std::uint64_t s0 = s[0];
  std::uint64_t s1 = s[1];
  const std::uint64_t result = s0 + s1;
  s1 ^= s0;
  s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  s[1] = (s1 << 37) | (s1 >> 27);
  return result;
}
static std::uint64_t hstr(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
static void mix(std::uint64_t& h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 1099511628211ull;
}

// ================================================================= reporting
static void publish() {
  g_sh->hash = S->hash;
  g_sh->sched_hash = S->sched_hash;
  g_sh->steps = S->steps;
  g_sh->time = S->now;
  g_sh->nchoices = S->choice_pos;
  std::ostringstream ps;
  for (const auto& n : S->param_order)
    ps << n << "=" << S->params[n] << "\n";
  std::snprintf(g_sh->params, kTextCap, "%s", ps.str().c_str());
  std::ostringstream cs;
  for (const auto& [k, v] : S->counters)
    cs << k << "=" << v << "\n";
  std::snprintf(g_sh->counters, kTextCap, "%s", cs.str().c_str());
  std::snprintf(g_sh->scenario, sizeof(g_sh->scenario), "%s", S->scenario.c_str());
}

static void finish_process(int status, const std::string& kind, const std::string& msg) {
  std::snprintf(g_sh->kind, sizeof(g_sh->kind), "%s", kind.c_str());
  std::snprintf(g_sh->msg, sizeof(g_sh->msg), "%s", msg.c_str());
  publish();
  g_sh->status = status;
  if (S->trace) {
    std::fprintf(S->trace, "END status=%d kind=%s msg=%s\n", status, kind.c_str(), msg.c_str());
    std::fflush(S->trace);
  }
  _exit(0);
}

void violation(const std::string& kind, const std::string& msg) {
  finish_process(2, kind, msg);
  std::abort();
}
void harness_error(const std::string& msg) {
  if (!g_sh) {
    std::fprintf(stderr, "harness error: %s\n", msg.c_str());
    _exit(3);
  }
  finish_process(3, "harness", msg);
  std::abort();
}

static int g_errfd = -1;
bool reported() {
  if (!g_sh || !g_sh->in_quiet || g_errfd < 0)
    return true;
  std::fflush(stderr);
  char c;
  return pread(g_errfd, &c, 1, 0) == 1;
}
static bool g_expect_abort = false;
static const char* g_expect_counter = "";
void finish_ok(const char* counter) {
  S->counters[counter] += 1;
  finish_process(1, "", "");
  std::abort();
}
static int g_expect_rank = -1;
static bool g_tolerate_hang = false;
void tolerate_hang_after_fault() {
  g_tolerate_hang = true;
}
void expect_abort(bool on, const char* counter) {
  g_expect_abort = on;
  g_expect_counter = counter;
  g_expect_rank = -1;
}
void expect_abort_of(int rank, const char* counter) {
  expect_abort(true, counter);
  g_expect_rank = rank;
}
bool abort_expected() {
  return g_expect_abort && (g_expect_rank < 0 || (in_sim() && cur_rank() == g_expect_rank));
}
void uncaught(const std::string& msg) {
  if (abort_expected())
    finish_ok(g_expect_counter);
  violation("unhandled-exception", msg);
}
static bool abort_expected_safe() {
  return g_expect_abort && (g_expect_rank < 0 || (S && S->cur && S->cur->rank == g_expect_rank));
}

// ================================================================= randomness
static void record(std::uint32_t v) {
  if (S->choice_pos < kMaxChoices)
    g_sh->choices[S->choice_pos] = v;
  ++S->choice_pos;
  mix(S->hash, v);
}

static bool replaying(std::uint32_t n, std::uint32_t& out) {
  if (!S->replay)
    return false;
  out = S->choice_pos < g_sh->in_nchoices ? g_sh->in_choices[S->choice_pos] : 0;
  if (out >= n)
    out = n - 1;
  return true;
}

std::uint32_t choose(std::uint32_t n) {
  if (n <= 1)
    return 0;
  std::uint32_t v;
  if (!replaying(n, v))
    v = static_cast<std::uint32_t>(rng_next(S->s_rng) >> 11) % n;
  record(v);
  return v;
}

bool coin(std::uint32_t num, std::uint32_t den) {
  if (num == 0)
    return false;
  std::uint32_t v;
  if (!replaying(2, v))
    v = (static_cast<std::uint32_t>(rng_next(S->s_rng) >> 11) % den) < num ? 1 : 0;
  record(v);
  return v != 0;
}

static const long* find_override(const std::string& name) {
  for (int i = 0; i < g_sh->in_noverrides; ++i)
    if (name == g_sh->in_overrides[i].name)
      return &g_sh->in_overrides[i].value;
  return nullptr;
}
bool has_override(const std::string& name) {
  return find_override(name) != nullptr;
}
void set_param_default(const std::string& name, long v) {
  S->defaults[name] = v;
}

static std::string occ_name(const std::string& name) {
  int k = S->param_seen[name]++;
  return k == 0 ? name : name + "#" + std::to_string(k);
}

static long draw_param(const std::string& nm, long n) {
  std::uint64_t x = S->seed ^ (hstr(nm) * 0x9e3779b97f4a7c15ull);
  splitmix(x);
  return static_cast<long>(splitmix(x) % static_cast<std::uint64_t>(n));
}

static long put_param(const std::string& nm, long v) {
  S->param_order.push_back(nm);
  S->params[nm] = v;
  mix(S->hash, static_cast<std::uint64_t>(v));
  return v;
}

long param(const std::string& name, long lo, long hi) {
  const std::string nm = occ_name(name);
  if (hi < lo)
    hi = lo;
  if (const long* o = find_override(nm))
    return put_param(nm, std::min(std::max(*o, lo), hi));
  if (S->replay)
    return put_param(nm, lo);
  return put_param(nm, lo + draw_param(nm, hi - lo + 1));
}

long param_of(const std::string& name, const std::vector<long>& values) {
  const std::string nm = occ_name(name);
  if (const long* o = find_override(nm)) {
    if (std::find(values.begin(), values.end(), *o) != values.end())
      return put_param(nm, *o);
    return put_param(nm, values[0]);
  }
  if (S->replay)
    return put_param(nm, values[0]);
  return put_param(nm, values[static_cast<std::size_t>(draw_param(nm, static_cast<long>(values.size())))]);
}

// ================================================================= log
void log_event(std::uint64_t kind, std::uint64_t a, std::uint64_t b, std::uint64_t c) {
  mix(S->hash, kind);
  mix(S->hash, a);
  mix(S->hash, b);
  mix(S->hash, c);
}
bool tracing() {
  return S && S->trace;
}
void note(const std::string& text) {
  if (S && S->trace) {
    std::fprintf(S->trace, "[t=%lu step=%lu r=%d f=%lu] %s\n", (unsigned long) S->now,
                 (unsigned long) S->steps, S->cur ? S->cur->rank : -1,
                 (unsigned long) (S->cur ? S->cur->id : 0), text.c_str());
    std::fflush(S->trace);
  }
}
void count(const char* counter, std::uint64_t n) {
  S->counters[counter] += n;
}
std::uint64_t now() {
  return S->now;
}
std::uint64_t steps() {
  return S->steps;
}

// ================================================================= fibers
static constexpr std::size_t kTaskStack = 512 * 1024;
static constexpr std::size_t kMainStack = 4 * 1024 * 1024;

static char* stack_map(std::size_t sz) {
  void* p = mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    harness_error("mmap of a fiber stack failed");
  mprotect(p, 4096, PROT_NONE);
  return static_cast<char*>(p) + 4096;
}

static void fiber_entry();

static Fiber* make_fiber(int rank, bool is_main, TaskFn fn) {
  Fiber* f = new Fiber;
  f->id = S->next_id++;
  f->rank = rank;
  f->is_main = is_main;
  f->fn = std::move(fn);
  f->stack_size = is_main ? kMainStack : kTaskStack;
  if (!is_main && !S->free_stacks.empty()) {
    f->stack = S->free_stacks.back().first;
    S->free_stacks.pop_back();
  }
  else {
    f->stack = stack_map(f->stack_size);
  }
  std::uintptr_t top = reinterpret_cast<std::uintptr_t>(f->stack + f->stack_size) & ~std::uintptr_t(63);
  void** sp = reinterpret_cast<void**>(top);
  *--sp = nullptr;  // alignment
  *--sp = reinterpret_cast<void*>(&fiber_entry);
  for (int i = 0; i < 6; ++i)
    *--sp = nullptr;
  f->sp = sp;
  f->prio = rng_next(S->p_rng) >> 24 | (1ull << 41);
  return f;
}

static EhGlobals* eh_now() {
  return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
}

static void switch_to(Fiber* f) {
  S->cur = f;
  f->state = FState::Running;
  EhGlobals saved = *eh_now();
  *eh_now() = f->eh;
  sim_ctx_switch(&S->sched_sp, f->sp);
  f->eh = *eh_now();
  *eh_now() = saved;
  S->cur = nullptr;
}

static void switch_out() {
  Fiber* f = S->cur;
  sim_ctx_switch(&f->sp, S->sched_sp);
}

static void fiber_entry() {
  Fiber* f = S->cur;
  try {
    f->fn->run();
  }
  catch (const std::exception& e) {
    uncaught(std::string("exception escaped a task: ") + e.what());
  }
  catch (...) {
    uncaught("unknown exception escaped a task");
  }
  try {
    f->fn.reset();
  }
  catch (...) {
    uncaught("exception in task destruction");
  }
  f->state = FState::Done;
  switch_out();
  harness_error("resumed a finished fiber");
}

Fiber* current() {
  return S->cur;
}
bool in_sim() {
  return S && S->cur;
}
int cur_rank() {
  if (!S || !S->cur)
    harness_error("cur_rank outside of the simulation");
  return S->cur->rank;
}

TaskAttr cur_attr() {
  if (!S || !S->cur)
    harness_error("cur_attr outside of the simulation");
  return S->cur->attr;
}

static void make_ready(Fiber* f) {
  f->state = FState::Ready;
  f->seq = S->next_seq++;
  S->ranks[static_cast<std::size_t>(f->rank)].ready.push_back(f);
}

void yield() {
  if (!S || !S->cur)
    return;
  Fiber* f = S->cur;
  if (f->nostack)
    return;
  f->keeps_slot = f->has_slot;
  f->why = "yield";
  make_ready(f);
  switch_out();
}

void maybe_yield(const char* where) {
  if (!S || !S->cur || !S->running || S->faults.yield_rate == 0 || S->cur->nostack)
    return;
  if (coin(static_cast<std::uint32_t>(S->faults.yield_rate), 1000)) {
    count("fault.preempt");
    (void) where;
    yield();
  }
}

static void release_slot(Fiber* f) {
  if (f->has_slot) {
    f->has_slot = false;
    --S->ranks[static_cast<std::size_t>(f->rank)].active[f->pool];
  }
}

void block(const char* why, bool holds_worker) {
  Fiber* f = S->cur;
  if (!f)
    harness_error("block outside of a fiber");
  if (f->wake_pending) {
    f->wake_pending = false;
    return;
  }
  if (f->nostack && !holds_worker)
    violation("stackless-suspend",
              std::string("a task scheduled without a stack tried to suspend in: ") + why);
  f->why = why;
  f->state = FState::Blocked;
  f->keeps_slot = holds_worker && f->has_slot;
  if (!f->keeps_slot)
    release_slot(f);
  switch_out();
}

void wake(Fiber* f) {
  if (f->state == FState::Blocked)
    make_ready(f);
  else
    f->wake_pending = true;
}

void spawn(int rank, TaskAttr attr, TaskFn fn) {
  QTask t;
  t.id = S->next_id++;
  t.seq = S->next_seq++;
  t.prio = rng_next(S->p_rng) >> 24 | (1ull << 41);
  if (attr.pool == kPoolMpi && !S->cfg.mpi_pool)
    attr.pool = kPoolDefault;
  t.attr = attr;
  t.fn = std::move(fn);
  auto& r = S->ranks[static_cast<std::size_t>(rank)];
  ++r.live;
  r.queue[attr.pool].push_back(std::move(t));
  count("tasks");
}

void post_event(int rank, std::uint64_t delay, TaskFn fn, const char* what) {
  Event e;
  e.time = S->now + delay;
  e.seq = S->next_seq++;
  e.prio = rng_next(S->p_rng) >> 24 | (1ull << 41);
  e.rank = rank;
  e.fn = std::move(fn);
  e.what = what;
  S->events.push_back(std::move(e));
}

Config& config() {
  return S->cfg;
}
int nranks() {
  return S->cfg.nranks;
}
int workers() {
  return S->cfg.workers;
}
std::size_t live_tasks(int rank) {
  return S->ranks[static_cast<std::size_t>(rank)].live;
}
std::size_t& pending_async(int rank) {
  return S->ranks[static_cast<std::size_t>(rank)].pending_async;
}
std::uint64_t& rank_slot(int rank, int slot) {
  return S->ranks[static_cast<std::size_t>(rank)].slots[slot];
}
Faults& faults() {
  return S->faults;
}

void draw_faults() {
  auto& f = S->faults;
  f.strategy = static_cast<int>(param("f.strategy", 0, 7));
  f.mem_mode = static_cast<int>(param("f.mem_mode", 0, 2));
  f.yield_rate = static_cast<int>(param_of("f.yield_rate", {0, 0, 20, 100, 400}));
  f.slow_rank = static_cast<int>(param_of("f.slow_rank", {-1, -1, 0, 1, 2, 3}));
  f.delay_max = static_cast<int>(param_of("f.delay_max", {0, 1, 10, 100, 1000}));
  f.eager_rate = static_cast<int>(param_of("f.eager_rate", {50, 0, 100, 20, 80}));
  f.inline_post = static_cast<int>(param("f.inline_post", 0, 2));
  f.stall_rate = static_cast<int>(param_of("f.stall_rate", {0, 0, 2, 10}));
  if (f.mem_mode != 0)
    mallopt(M_PERTURB, 0x5A);  // plain heap memory is poisoned too
}

void harness_barrier() {
  if (++S->barrier_count == S->cfg.nranks) {
    S->barrier_count = 0;
    auto w = std::move(S->barrier_waiters);
    S->barrier_waiters.clear();
    for (auto* f : w)
      wake(f);
  }
  else {
    S->barrier_waiters.push_back(S->cur);
    block("harness barrier");
  }
}

// A task which waits for the runtime to be idle does not wait for itself
void drain(int rank) {
  auto& r = S->ranks[static_cast<std::size_t>(rank)];
  while (r.live > (S->cur->is_main ? 0 : 1) || r.pending_async > 0) {
    r.drain_waiters.push_back(S->cur);
    block("waiting for the runtime to drain");
  }
}

static void check_drain(RankState& r) {
  if (r.live > 1 || r.pending_async > 0 || r.drain_waiters.empty())
    return;
  std::vector<Fiber*> later;
  auto w = std::move(r.drain_waiters);
  for (auto* f : w)
    if (r.live <= (f->is_main ? 0 : 1))
      wake(f);
    else
      later.push_back(f);
  r.drain_waiters = std::move(later);
}

// ================================================================= scheduler
struct Cand {
  int type;  // 0 ready fiber, 1 queued task, 2 event
  int rank;
  int pool;
  std::size_t idx;
  std::uint64_t seq, prio;
};

static std::string describe_blocked() {
  std::ostringstream os;
  int shown = 0;
  for (auto* f : S->all_fibers) {
    if (f->state == FState::Blocked && shown < 24) {
      os << " [rank " << f->rank << (f->is_main ? " main" : " task") << ": " << f->why << "]";
      ++shown;
    }
  }
  for (std::size_t r = 0; r < S->ranks.size(); ++r)
    if (S->ranks[r].pending_async)
      os << " [rank " << r << ": " << S->ranks[r].pending_async << " MPI operations pending]";
  return os.str();
}

static bool slot_free(const RankState& r, int pool) {
  if (r.slots[2])  // runtime suspended: its workers take no task
    return false;
  return r.active[pool] < (pool == kPoolMpi ? 1 : S->cfg.workers);
}

static std::size_t strategy_pick(const std::vector<Cand>& c) {
  const std::size_t n = c.size();
  auto rnd = [&](std::size_t m) -> std::size_t { return (rng_next(S->p_rng) >> 11) % m; };
  const Faults& f = S->faults;

  // rank level faults: slow or stalled ranks
  std::vector<std::size_t> pool;
  pool.reserve(n);
  if (f.stall_rate > 0 && S->now >= S->stall_until && rnd(1000) < static_cast<std::size_t>(f.stall_rate)) {
    S->stalled_rank = static_cast<int>(rnd(static_cast<std::size_t>(S->cfg.nranks)));
    S->stall_until = S->now + 10 + rnd(400);
    count("fault.stall");
  }
  int excl1 = S->now < S->stall_until ? S->stalled_rank : -1;
  int excl2 = (f.slow_rank >= 0 && rnd(20) != 0) ? f.slow_rank : -1;
  for (std::size_t i = 0; i < n; ++i)
    if (c[i].rank != excl1 && c[i].rank != excl2)
      pool.push_back(i);
  if (pool.empty()) {
    for (std::size_t i = 0; i < n; ++i)
      pool.push_back(i);
  }
  else if (pool.size() < n)
    count("fault.slow_rank");

  auto uni = [&]() { return pool[rnd(pool.size())]; };
  auto best = [&](auto less) {
    std::size_t b = pool[0];
    for (auto i : pool)
      if (less(c[i], c[b]))
        b = i;
    return b;
  };
  switch (f.strategy) {
    case 1:  // mostly FIFO
      if (rnd(8) == 0)
        return uni();
      return best([](const Cand& a, const Cand& b) { return a.seq < b.seq; });
    case 2:  // mostly LIFO
      if (rnd(8) == 0)
        return uni();
      return best([](const Cand& a, const Cand& b) { return a.seq > b.seq; });
    case 3: {  // PCT: random priorities with change points
      std::size_t b = best([](const Cand& a, const Cand& b) { return a.prio > b.prio; });
      if (rnd(16) == 0)
        return uni();
      return b;
    }
    case 4: {  // bursts on one rank
      if (S->burst_left <= 0) {
        S->burst_rank = c[uni()].rank;
        S->burst_left = 1 + static_cast<int>(rnd(60));
      }
      --S->burst_left;
      std::vector<std::size_t> q;
      for (auto i : pool)
        if (c[i].rank == S->burst_rank)
          q.push_back(i);
      if (q.empty()) {
        S->burst_left = 0;
        return uni();
      }
      return q[rnd(q.size())];
    }
    case 5: {  // communication starved
      std::vector<std::size_t> q;
      for (auto i : pool)
        if (c[i].type != 2)
          q.push_back(i);
      if (q.empty() || rnd(50) == 0)
        return uni();
      return q[rnd(q.size())];
    }
    case 6: {  // communication eager
      std::vector<std::size_t> q;
      for (auto i : pool)
        if (c[i].type == 2)
          q.push_back(i);
      if (q.empty() || rnd(50) == 0)
        return uni();
      return q[rnd(q.size())];
    }
    case 7: {  // main threads run ahead (long queues), then random
      std::vector<std::size_t> q;
      for (auto i : pool)
        if (c[i].type == 0)
          q.push_back(i);
      if (q.empty() || rnd(10) == 0)
        return uni();
      return q[rnd(q.size())];
    }
    default:
      return uni();
  }
}

static void retire(Fiber* f) {
  auto& r = S->ranks[static_cast<std::size_t>(f->rank)];
  release_slot(f);
  if (f->is_main)
    r.main_done = true;
  else {
    --r.live;
    S->free_stacks.push_back({f->stack, f->stack_size});
    check_drain(r);
  }
  S->all_fibers.erase(std::find(S->all_fibers.begin(), S->all_fibers.end(), f));
  delete f;
}

static bool step() {
  std::vector<Cand> c;
  for (int r = 0; r < S->cfg.nranks; ++r) {
    auto& rs = S->ranks[static_cast<std::size_t>(r)];
    for (std::size_t i = 0; i < rs.ready.size(); ++i) {
      Fiber* f = rs.ready[i];
      if (f->is_main || f->keeps_slot || slot_free(rs, f->pool))
        c.push_back({0, r, f->pool, i, f->seq, f->prio});
    }
    for (int p = 0; p < 2; ++p)
      if (slot_free(rs, p))
        for (std::size_t i = 0; i < rs.queue[p].size(); ++i)
          c.push_back({1, r, p, i, rs.queue[p][i].seq, rs.queue[p][i].prio});
  }
  for (std::size_t i = 0; i < S->events.size(); ++i)
    if (S->events[i].time <= S->now)
      c.push_back({2, S->events[i].rank, 0, i, S->events[i].seq, S->events[i].prio});
  if (c.empty()) {
    if (S->events.empty())
      return false;
    std::uint64_t t = ~0ull;
    for (auto& e : S->events)
      t = std::min(t, e.time);
    S->now = t;
    return true;
  }
  std::uint32_t pick = 0;
  if (c.size() > 1) {
    if (!replaying(static_cast<std::uint32_t>(c.size()), pick))
      pick = static_cast<std::uint32_t>(strategy_pick(c));
    record(pick);
  }
  const Cand k = c[pick];
  auto& rs = S->ranks[static_cast<std::size_t>(k.rank)];
  ++S->steps;
  ++S->now;
  if (S->steps > S->cfg.max_steps)
    violation("no-progress", "step budget exhausted without termination;" + describe_blocked());

  if (k.type == 2) {
    Event e = std::move(S->events[k.idx]);
    S->events.erase(S->events.begin() + static_cast<std::ptrdiff_t>(k.idx));
    mix(S->sched_hash, 0x200 + static_cast<std::uint64_t>(e.rank));
    log_event(2, static_cast<std::uint64_t>(e.rank));
    if (S->trace)
      note(std::string("event ") + e.what);
    e.fn->run();
    e.fn.reset();
    check_drain(S->ranks[static_cast<std::size_t>(e.rank)]);
    return true;
  }
  Fiber* f = nullptr;
  if (k.type == 0) {
    f = rs.ready[k.idx];
    rs.ready.erase(rs.ready.begin() + static_cast<std::ptrdiff_t>(k.idx));
    if (!f->is_main && !f->has_slot) {
      f->has_slot = true;
      ++rs.active[f->pool];
    }
  }
  else {
    QTask t = std::move(rs.queue[k.pool][k.idx]);
    rs.queue[k.pool].erase(rs.queue[k.pool].begin() + static_cast<std::ptrdiff_t>(k.idx));
    f = make_fiber(k.rank, false, std::move(t.fn));
    f->id = t.id;
    f->pool = k.pool;
    f->nostack = t.attr.nostack;
    f->attr = t.attr;
    f->prio = t.prio;
    f->has_slot = true;
    ++rs.active[f->pool];
    S->all_fibers.push_back(f);
  }
  f->keeps_slot = false;
  mix(S->sched_hash, f->id * 4 + 1);
  log_event(1, f->id, static_cast<std::uint64_t>(f->rank));
  // PCT change points
  if (S->faults.strategy == 3 && S->steps >= S->pct_change_next) {
    f->prio = S->pct_low--;
    S->pct_change_next = S->steps + 1 + (rng_next(S->p_rng) >> 11) % 300;
  }
  switch_to(f);
  if (f->state == FState::Done)
    retire(f);
  return true;
}

void mpi_reset();
void run(const Config& cfg, std::function<void(int)> main) {
  if (S->running)
    harness_error("nested run");
  S->cfg = cfg;
  S->ranks.clear();
  for (int r = 0; r < cfg.nranks; ++r)
    S->ranks.emplace_back();
  S->running = true;
  mpi_reset();
  S->barrier_count = 0;
  count("ranks", static_cast<std::uint64_t>(cfg.nranks));
  for (int r = 0; r < cfg.nranks; ++r) {
    Fiber* f = make_fiber(r, true, make_task([&main, r] { main(r); }));
    S->all_fibers.push_back(f);
    S->ranks[static_cast<std::size_t>(r)].main = f;
    make_ready(f);
  }
  while (step()) {
  }
  for (int r = 0; r < cfg.nranks; ++r) {
    auto& rs = S->ranks[static_cast<std::size_t>(r)];
    if ((!rs.main_done || rs.live > 0) && g_expect_abort && g_tolerate_hang)
      finish_ok("probe.hang_after_fault");
    if (!rs.main_done || rs.live > 0)
      violation("deadlock", "no rank can make progress and rank " + std::to_string(r) +
                                " did not terminate;" + describe_blocked());
  }
  S->running = false;
}

// ================================================================= memory
struct Block {
  std::size_t size;
  int rank;
  bool freed;
  char* base;
};
static constexpr std::size_t kRed = 64;
static std::map<char*, Block>* g_blocks = nullptr;
static std::map<std::size_t, std::vector<char*>>* g_reuse = nullptr;
static long g_fail_after = -1;

static bool g_fail_persistent = false;
void fail_alloc_after(long n, bool persistent) {
  g_fail_persistent = persistent;
  g_fail_after = n;
}

MemStats& mem_stats(int rank) {
  return S->ranks[static_cast<std::size_t>(rank)].mem;
}

static void fill(char* p, std::size_t n, unsigned char v) {
  std::memset(p, v, n);
}

void* sim_alloc(std::size_t bytes) {
  if (!g_blocks) {
    g_blocks = new std::map<char*, Block>;
    g_reuse = new std::map<std::size_t, std::vector<char*>>;
  }
  if (g_fail_after >= 0 && g_fail_after-- == 0) {
    count("fault.alloc_fail");
    expect_abort_of(in_sim() ? S->cur->rank : -1, "probe.abort_after_failed_allocation");
    if (g_fail_persistent)
      g_fail_after = 0;
    throw std::bad_alloc();
  }
  const int rank = in_sim() ? S->cur->rank : 0;
  maybe_yield("alloc");
  char* user = nullptr;
  const int mode = S->faults.mem_mode;
  if (mode == 2) {
    auto it = g_reuse->find(bytes);
    if (it != g_reuse->end() && !it->second.empty()) {
      user = it->second.back();
      it->second.pop_back();
      (*g_blocks)[user].freed = false;
      (*g_blocks)[user].rank = rank;
      count("fault.mem_reuse");
    }
  }
  if (!user) {
    std::size_t total = bytes + 2 * kRed + 64;
    static const bool guard = std::getenv("DLAF_SIM_GUARD") != nullptr;  // debugging aid: unmapped page behind each block
    char* base;
    if (guard) {
      const std::size_t len = (total + 4095) / 4096 * 4096;
      char* m = static_cast<char*>(mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      mprotect(m + len, 4096, PROT_NONE);
      user = m + len - bytes;
      base = user - kRed;
      fill(base, kRed, 0xA5);
    }
    else {
      base = static_cast<char*>(std::aligned_alloc(64, (total + 63) / 64 * 64));
      if (!base)
        harness_error("out of memory");
      user = base + kRed;
      fill(base, kRed, 0xA5);
      fill(user + bytes, kRed, 0xA5);
    }
    (*g_blocks)[user] = Block{bytes, rank, false, base};
    if (mode == 0)
      fill(user, bytes, 0);
    else {
      fill(user, bytes, 0xFF);
      count("fault.mem_poison");
    }
  }
  if (S->running) {
    auto& m = mem_stats(rank);
    ++m.live_blocks;
    m.live_bytes += bytes;
    ++m.total;
  }
  return user;
}

static void check_red(char* user, const Block& b, const char* when) {
  static const bool guard = std::getenv("DLAF_SIM_GUARD") != nullptr;
  for (std::size_t i = 0; i < kRed; ++i)
    if (static_cast<unsigned char>(b.base[i]) != 0xA5 ||
        (!guard && static_cast<unsigned char>(user[b.size + i]) != 0xA5))
      violation("memory-overrun", std::string("write outside of an allocated buffer detected at ") + when);
}

void sim_free(void* p) {
  if (!p)
    return;
  char* u = static_cast<char*>(p);
  auto it = g_blocks ? g_blocks->find(u) : std::map<char*, Block>::iterator{};
  if (!g_blocks || it == g_blocks->end())
    violation("bad-free", "deallocation of an address which was not allocated by the allocator");
  if (it->second.freed)
    violation("bad-free", "double deallocation");
  check_red(u, it->second, "deallocation");
  it->second.freed = true;
  if (S->running) {
    auto& m = mem_stats(it->second.rank);
    --m.live_blocks;
    m.live_bytes -= it->second.size;
  }
  if (S->faults.mem_mode == 2)
    (*g_reuse)[it->second.size].push_back(u);
  else
    fill(u, it->second.size, 0xFB);
}

bool sim_owns(const void* p) {
  if (!g_blocks)
    return false;
  char* u = static_cast<char*>(const_cast<void*>(p));
  auto it = g_blocks->upper_bound(u);
  if (it == g_blocks->begin())
    return false;
  --it;
  return u < it->first + it->second.size;
}

void check_quarantine() {
  if (!g_blocks)
    return;
  for (auto& [u, b] : *g_blocks) {
    check_red(u, b, "end of run");
    if (b.freed && S->faults.mem_mode != 2)
      for (std::size_t i = 0; i < b.size; ++i)
        if (static_cast<unsigned char>(u[i]) != 0xFB)
          violation("write-after-free", "a deallocated buffer was modified after its deallocation");
  }
}

// ================================================================= process driver
struct ScenarioRec {
  std::string property, name;
  void (*fn)();
  int weight;
};
static std::vector<ScenarioRec>& registry() {
  static std::vector<ScenarioRec> v;
  return v;
}
void register_scenario(const char* property, const char* name, void (*fn)(), int weight) {
  registry().push_back({property, name, fn, weight});
}

struct Case {
  std::uint64_t seed = 0;
  std::string scenario;  // empty: drawn from seed
  bool replay = false;
  std::map<std::string, long> overrides;
  std::vector<std::uint32_t> choices;
};

struct Result {
  int status = 0;
  std::string kind, msg, scenario;
  std::uint64_t hash = 0, sched_hash = 0, steps = 0, time = 0;
  std::map<std::string, long> params;
  std::vector<std::string> param_order;
  std::map<std::string, std::uint64_t> counters;
  std::vector<std::uint32_t> choices;
};

static std::string g_property;
static int g_cpu_limit = 40;

static volatile sig_atomic_t g_in_crash = 0;
static void on_crash(int sig) {
  if (g_in_crash) {  // crash or hang of the reporting below (corrupted heap)
    std::strcpy(g_sh->kind, "crash");
    g_sh->status = 2;
    _exit(0);
  }
  g_in_crash = 1;
  alarm(5);
  if (sig == SIGALRM)
    finish_process(2, "no-progress", "the process is blocked outside of the control of the scheduler;" + describe_blocked());
  const char* n = strsignal(sig);
  if (sig == SIGXCPU)
    finish_process(2, "no-progress", "a task ran without reaching a scheduling point for the CPU limit;" + describe_blocked());
  if (sig == SIGABRT && abort_expected_safe())
    finish_ok(g_expect_counter);
  if (sig == SIGABRT)
    finish_process(2, "assertion", "the process aborted (failed assertion or std::terminate)");
  finish_process(2, "crash", std::string("fatal signal: ") + (n ? n : "?"));
}
static void on_terminate() {
  if (abort_expected_safe())
    finish_ok(g_expect_counter);
  std::string m = "std::terminate called";
  if (std::exception_ptr e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    }
    catch (const std::exception& x) {
      m += std::string(": ") + x.what();
    }
    catch (...) {
    }
  }
  finish_process(2, "assertion", m);
}

static const ScenarioRec* pick_scenario() {
  std::vector<const ScenarioRec*> v;
  int total = 0;
  const std::string prop = g_sh->in_property, scen = g_sh->in_scenario;
  for (auto& r : registry())
    if ((prop.empty() || r.property == prop) && (scen.empty() || r.name == scen)) {
      v.push_back(&r);
      total += r.weight;
    }
  if (v.empty())
    return nullptr;
  std::uint64_t x = g_sh->in_seed ^ 0x5ce4a210;
  splitmix(x);
  int k = static_cast<int>(splitmix(x) % static_cast<std::uint64_t>(total));
  for (auto* r : v) {
    if (k < r->weight)
      return r;
    k -= r->weight;
  }
  return v.back();
}


[[noreturn]] static void child_main() {
  if (g_sh->in_quiet) {
    FILE* n1 = std::freopen("/dev/null", "w", stdout);
    (void) n1;
    dup2(g_errfd, 2);
  }
  S = new State;
  S->seed = g_sh->in_seed;
  std::uint64_t x = g_sh->in_seed;
  S->s_rng[0] = splitmix(x);
  S->s_rng[1] = splitmix(x);
  S->p_rng[0] = splitmix(x);
  S->p_rng[1] = splitmix(x) | 1;
  S->replay = g_sh->in_replay != 0;
  if (g_sh->in_trace[0])
    S->trace = std::fopen(g_sh->in_trace, "w");
  static char altstack[65536];
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGALRM})
    sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  rlimit rl{static_cast<rlim_t>(g_sh->in_cpu), static_cast<rlim_t>(g_sh->in_cpu + 20)};
  setrlimit(RLIMIT_CPU, &rl);
  rlimit cl{0, 0};
  setrlimit(RLIMIT_CORE, &cl);
  alarm(90);
  const ScenarioRec* sc = pick_scenario();
  if (!sc)
    harness_error("no scenario");
  S->scenario = sc->name;
  count((std::string("scenario.") + sc->name).c_str());
  try {
    sc->fn();
  }
  catch (const std::exception& e) {
    harness_error(std::string("exception in scenario: ") + e.what());
  }
  check_quarantine();
  finish_process(1, "", "");
  std::abort();
}

// The zygote forks one child per run; its own memory never changes between runs
static int g_req[2], g_resp[2];
static void start_zygote() {
  g_errfd = memfd_create("sim-stderr", 0);
  if (g_errfd < 0 || pipe(g_req) || pipe(g_resp)) {
    std::perror("zygote");
    _exit(3);
  }
  pid_t z = fork();
  if (z < 0) {
    std::perror("fork");
    _exit(3);
  }
  if (z > 0) {
    close(g_req[0]);
    close(g_resp[1]);
    return;
  }
  close(g_req[1]);
  close(g_resp[0]);
  char c;
  while (read(g_req[0], &c, 1) == 1) {
    pid_t pid = fork();
    if (pid == 0)
      child_main();
    int st = -1;
    if (pid > 0)
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
      }
    if (write(g_resp[1], &st, sizeof(st)) != sizeof(st))
      break;
  }
  _exit(0);
}

static void parse_kv(const char* text, std::vector<std::string>* order, std::map<std::string, long>* m,
                     std::map<std::string, std::uint64_t>* mu) {
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    auto p = line.find('=');
    if (p == std::string::npos)
      continue;
    std::string k = line.substr(0, p);
    if (order)
      order->push_back(k);
    if (m)
      (*m)[k] = std::stol(line.substr(p + 1));
    if (mu)
      (*mu)[k] = std::stoull(line.substr(p + 1));
  }
}

static bool g_quiet_child = true;

static Result run_case(const Case& cs, const char* trace_file = nullptr) {
  std::fflush(nullptr);
  if (ftruncate(g_errfd, 0) != 0 || lseek(g_errfd, 0, SEEK_SET) < 0) {
    std::perror("memfd");
    _exit(3);
  }
  g_sh->status = 0;
  g_sh->nchoices = 0;
  g_sh->kind[0] = g_sh->msg[0] = g_sh->params[0] = g_sh->counters[0] = 0;
  g_sh->hash = g_sh->sched_hash = g_sh->steps = g_sh->time = 0;
  g_sh->in_seed = cs.seed;
  std::snprintf(g_sh->in_scenario, sizeof(g_sh->in_scenario), "%s", cs.scenario.c_str());
  std::snprintf(g_sh->in_property, sizeof(g_sh->in_property), "%s", g_property.c_str());
  std::snprintf(g_sh->in_trace, sizeof(g_sh->in_trace), "%s", trace_file ? trace_file : "");
  g_sh->in_replay = cs.replay;
  g_sh->in_quiet = g_quiet_child;
  g_sh->in_cpu = g_cpu_limit;
  int no = 0;
  for (auto& [k, v] : cs.overrides) {
    if (no == 512)
      break;
    std::snprintf(g_sh->in_overrides[no].name, sizeof(g_sh->in_overrides[no].name), "%s", k.c_str());
    g_sh->in_overrides[no].value = v;
    ++no;
  }
  g_sh->in_noverrides = no;
  g_sh->in_nchoices = std::min(cs.choices.size(), kMaxChoices);
  std::copy_n(cs.choices.begin(), g_sh->in_nchoices, g_sh->in_choices);
  int st = 0;
  if (write(g_req[1], "r", 1) != 1 || read(g_resp[0], &st, sizeof(st)) != sizeof(st)) {
    std::fprintf(stderr, "the zygote process died\n");
    _exit(3);
  }
  Result r;
  r.status = g_sh->status;
  r.kind = g_sh->kind;
  r.msg = g_sh->msg;
  if (r.status == 0) {
    r.status = 2;
    if (WIFEXITED(st)) {
      r.kind = "exit";
      r.msg = "the process exited with code " + std::to_string(WEXITSTATUS(st)) + " inside the run";
    }
    else {
      r.kind = "crash";
      r.msg = "the process was killed by signal " + std::to_string(WTERMSIG(st));
      if (WTERMSIG(st) == SIGKILL) {
        r.status = 3;
        r.msg = "child killed (SIGKILL)";
      }
    }
  }
  if (r.status == 2 && (r.kind == "assertion" || r.kind == "exit" || r.kind == "crash")) {
    char buf[1200];
    const ssize_t k = pread(g_errfd, buf, sizeof(buf), 0);
    if (k > 0)
      r.msg += " | stderr: " + std::string(buf, static_cast<std::size_t>(k));
  }
  r.hash = g_sh->hash;
  r.sched_hash = g_sh->sched_hash;
  r.steps = g_sh->steps;
  r.time = g_sh->time;
  r.scenario = g_sh->scenario;
  parse_kv(g_sh->params, &r.param_order, &r.params, nullptr);
  parse_kv(g_sh->counters, nullptr, nullptr, &r.counters);
  if (r.status == 2)
    r.choices.assign(g_sh->choices, g_sh->choices + std::min<std::uint64_t>(g_sh->nchoices, kMaxChoices));
  return r;
}

static void write_case(const std::string& path, const Case& cs, const Result& r, std::uint64_t orig_seed) {
  std::ofstream o(path);
  o << "# dlaf-sim replay file\n";
  o << "property=" << g_property << "\n";
  o << "scenario=" << cs.scenario << "\n";
  o << "seed=" << cs.seed << "\n";
  o << "found_with_seed=" << orig_seed << "\n";
  o << "kind=" << r.kind << "\n";
  std::string m = r.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  o << "message=" << m << "\n";
  o << "hash=" << r.hash << "\n";
  o << "steps=" << r.steps << "\n";
  for (auto& n : r.param_order)
    o << "param " << n << "=" << r.params.at(n) << "\n";
  // sparse choices
  std::size_t nz = 0;
  for (auto c : cs.choices)
    nz += c != 0;
  o << "choices_total=" << cs.choices.size() << " nonzero=" << nz << "\n";
  for (std::size_t i = 0; i < cs.choices.size(); ++i)
    if (cs.choices[i])
      o << "choice " << i << " " << cs.choices[i] << "\n";
}

static bool read_case(const std::string& path, Case& cs, std::string& kind, std::uint64_t& hash) {
  std::ifstream in(path);
  if (!in)
    return false;
  cs.replay = true;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    if (line.rfind("param ", 0) == 0) {
      auto p = line.find('=');
      cs.overrides[line.substr(6, p - 6)] = std::stol(line.substr(p + 1));
    }
    else if (line.rfind("choice ", 0) == 0) {
      std::istringstream is(line.substr(7));
      std::size_t i;
      std::uint32_t v;
      is >> i >> v;
      if (cs.choices.size() <= i)
        cs.choices.resize(i + 1, 0);
      cs.choices[i] = v;
    }
    else {
      auto p = line.find('=');
      std::string k = line.substr(0, p), v = line.substr(p + 1);
      if (k == "scenario")
        cs.scenario = v;
      else if (k == "seed")
        cs.seed = std::stoull(v);
      else if (k == "kind")
        kind = v;
      else if (k == "hash")
        hash = std::stoull(v);
      else if (k == "property")
        g_property = v;
    }
  }
  return true;
}

static double wall() {
  timeval tv;
  gettimeofday(&tv, nullptr);
  return static_cast<double>(tv.tv_sec) + 1e-6 * static_cast<double>(tv.tv_usec);
}

// Shrinks parameters and schedule while the same kind of violation persists
static void minimise(Case& cs, Result& best, double budget) {
  const double t0 = wall();
  int tries = 0, kept = 0;
  auto attempt = [&](const Case& c) {
    ++tries;
    Result r = run_case(c);
    if (r.status == 2 && r.kind == best.kind) {
      ++kept;
      return std::make_pair(true, std::move(r));
    }
    return std::make_pair(false, std::move(r));
  };
  auto out_of_time = [&] { return wall() - t0 > budget; };
  // 1. default schedule everywhere?
  {
    Case c = cs;
    c.choices.clear();
    auto [ok, r] = attempt(c);
    if (ok) {
      cs = c;
      best = r;
    }
  }
  // 2. parameters towards their simplest value
  for (int round = 0; round < 3 && !out_of_time(); ++round) {
    bool changed = false;
    auto order = best.param_order;
    for (auto& n : order) {
      if (out_of_time())
        break;
      auto it = best.params.find(n);
      if (it == best.params.end())
        continue;
      const long v = it->second;
      std::vector<long> cand;
      if (n.rfind("seed", 0) == 0 || n.find("seed") != std::string::npos)
        cand = {0, 1};
      else
        cand = {std::min(v, 0l), std::min(v, 1l), std::min(v, 2l), v / 2, v - 1};
      if (n.rfind("f.", 0) == 0)
        cand = {0, -1};
      for (long c1 : cand) {
        if (c1 == v || out_of_time())
          continue;
        Case c = cs;
        c.overrides = best.params;
        c.overrides[n] = c1;
        auto [ok, r] = attempt(c);
        if (ok) {
          if (r.params.count(n) && r.params.at(n) == v)
            continue;  // clamped: no change
          cs = c;
          cs.overrides = r.params;
          best = r;
          changed = true;
          break;
        }
      }
    }
    if (!changed)
      break;
  }
  cs.overrides = best.params;
  // 3. schedule: shortest prefix, then zero chunks (ddmin)
  if (!cs.choices.empty()) {
    cs.choices.resize(std::min(cs.choices.size(), best.choices.size()));
    std::size_t lo = 0, hi = cs.choices.size();
    while (lo < hi && !out_of_time()) {
      std::size_t mid = lo + (hi - lo) / 2;
      Case c = cs;
      c.choices.resize(mid);
      auto [ok, r] = attempt(c);
      if (ok) {
        hi = mid;
        cs = c;
        best = r;
      }
      else
        lo = mid + 1;
    }
    for (std::size_t chunk = std::max<std::size_t>(1, cs.choices.size() / 2); chunk >= 1 && !out_of_time();
         chunk /= 2) {
      for (std::size_t a = 0; a < cs.choices.size() && !out_of_time(); a += chunk) {
        Case c = cs;
        bool any = false;
        for (std::size_t i = a; i < std::min(a + chunk, c.choices.size()); ++i) {
          any |= c.choices[i] != 0;
          c.choices[i] = 0;
        }
        if (!any)
          continue;
        auto [ok, r] = attempt(c);
        if (ok) {
          cs = c;
          best = r;
        }
      }
      if (chunk == 1)
        break;
    }
    while (!cs.choices.empty() && cs.choices.back() == 0)
      cs.choices.pop_back();
  }
  std::fprintf(stderr, "minimise: %d attempts, %d kept, %.1fs\n", tries, kept, wall() - t0);
}

static std::string json_escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\', o += c;
    else if (static_cast<unsigned char>(c) < 0x20)
      o += ' ';
    else
      o += c;
  }
  return o;
}

int driver_main(int argc, char** argv) {
  // Reproducible addresses (best effort: nothing in the event log depends on addresses)
  if (!std::getenv("DLAFSIM_NOASLR")) {
    setenv("DLAFSIM_NOASLR", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE))
      personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_sh == MAP_FAILED) {
    std::perror("mmap");
    return 3;
  }
  start_zygote();
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  Case base;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto p = a.find('=');
    if (a.rfind("--", 0) == 0 && p != std::string::npos)
      opt[a.substr(2, p - 2)] = a.substr(p + 1);
    else if (a.rfind("param:", 0) == 0 && p != std::string::npos)
      base.overrides[a.substr(6, p - 6)] = std::stol(a.substr(p + 1));
  }
  auto geti = [&](const char* k, long d) { return opt.count(k) ? std::stol(opt[k]) : d; };
  g_property = opt["property"];
  g_cpu_limit = static_cast<int>(geti("cpu", 40));
  g_quiet_child = !geti("verbose", 0);

  if (mode == "list") {
    for (auto& r : registry())
      std::printf("%s %s %d\n", r.property.c_str(), r.name.c_str(), r.weight);
    return 0;
  }
  if (mode == "one") {
    base.seed = std::stoull(opt["seed"]);
    base.scenario = opt["scenario"];
    Result r = run_case(base, opt.count("trace") ? opt["trace"].c_str() : nullptr);
    std::printf("status=%d kind=%s hash=%lu steps=%lu time=%lu scenario=%s\nmsg=%s\n", r.status,
                r.kind.c_str(), (unsigned long) r.hash, (unsigned long) r.steps, (unsigned long) r.time,
                r.scenario.c_str(), r.msg.c_str());
    for (auto& n : r.param_order)
      std::printf("  %s=%ld\n", n.c_str(), r.params[n]);
    for (auto& [k, v] : r.counters)
      std::printf("  #%s=%lu\n", k.c_str(), (unsigned long) v);
    return r.status == 1 ? 0 : r.status == 2 ? 1 : 3;
  }
  if (mode == "replay") {
    Case cs;
    std::string kind;
    std::uint64_t hash = 0;
    if (!read_case(opt["file"], cs, kind, hash)) {
      std::fprintf(stderr, "cannot read %s\n", opt["file"].c_str());
      return 3;
    }
    Result r = run_case(cs, opt.count("trace") ? opt["trace"].c_str() : nullptr);
    std::printf("REPLAY status=%d kind=%s hash=%lu steps=%lu\nmessage=%s\n", r.status, r.kind.c_str(),
                (unsigned long) r.hash, (unsigned long) r.steps, r.msg.c_str());
    if (r.status == 2 && r.kind == kind && (hash == 0 || r.hash == hash)) {
      std::printf("REPRODUCED\n");
      return 1;
    }
    return r.status == 1 ? 0 : 3;
  }
  if (mode == "explore") {
    const std::uint64_t seed = std::stoull(opt["seed"]);
    const long first = geti("first", 0), stride = geti("stride", 1), count_ = geti("count", 1000000000);
    const double limit = static_cast<double>(geti("seconds", 30));
    const long recheck = geti("recheck", 25);
    const double minb = static_cast<double>(geti("minimise", 20));
    std::set<std::string> known;
    {
      std::istringstream is(opt["known"]);
      std::string t;
      while (std::getline(is, t, ','))
        known.insert(t);
    }
    std::map<std::string, std::uint64_t> counters;
    std::map<std::string, std::uint64_t> fault_runs;
    std::unordered_set<std::uint64_t> scheds;
    std::uint64_t runs = 0, steps_ = 0, time_ = 0, rechecks = 0, max_steps = 0;
    std::map<std::string, std::uint64_t> known_hits;
    std::map<std::string, std::string> known_msg;
    const double t0 = wall();
    int rc = 0;
    long errors = 0;
    std::string vjson, samples;
    for (long i = first; i < count_ && wall() - t0 < limit; i += stride) {
      Case cs = base;
      std::uint64_t x = seed * 0x9e3779b97f4a7c15ull + static_cast<std::uint64_t>(i);
      cs.seed = splitmix(x);
      cs.scenario = opt["scenario"];
      Result r = run_case(cs);
      ++runs;
      steps_ += r.steps;
      time_ += r.time;
      max_steps = std::max(max_steps, r.steps);
      scheds.insert(r.sched_hash);
      if (runs <= 2) {
        samples += std::string(runs == 1 ? "" : ",") + "{\"seed\":" + std::to_string(cs.seed) + ",\"scenario\":\"" +
                   r.scenario + "\",\"steps\":" + std::to_string(r.steps) + ",\"hash\":\"" + std::to_string(r.hash) + "\",\"params\":{";
        bool f0 = true;
        for (auto& n : r.param_order) {
          samples += std::string(f0 ? "" : ",") + "\"" + n + "\":" + std::to_string(r.params[n]);
          f0 = false;
        }
        samples += "}}";
      }
      for (auto& [k, v] : r.counters) {
        counters[k] += v;
        ++fault_runs[k];
      }
      if (r.status == 3) {
        std::fprintf(stderr, "harness error: seed=%lu scenario=%s %s\n", (unsigned long) cs.seed, r.scenario.c_str(), r.msg.c_str());
        ++errors;
        continue;
      }
      if (r.status == 2) {
        // gate: the same seed again must give the same execution
        Result r2 = run_case(cs);
        if (r2.status != 2 || r2.kind != r.kind || r2.hash != r.hash) {
          std::fprintf(stderr, "NONDETERMINISM: seed=%lu scenario=%s kind=%s/%s hash=%lu/%lu msg=%s\n",
                       (unsigned long) cs.seed, r.scenario.c_str(), r.kind.c_str(), r2.kind.c_str(),
                       (unsigned long) r.hash, (unsigned long) r2.hash, r.msg.c_str());
          ++errors;
          continue;
        }
        const std::string key = r.scenario + ":" + r.kind;
        if (known.count(key)) {
          ++known_hits[key];
          known_msg[key] = r.msg;
          continue;
        }
        Case rep;
        rep.seed = cs.seed;
        rep.scenario = r.scenario;
        rep.replay = true;
        rep.overrides = r.params;
        rep.choices = r.choices;
        Result rr = run_case(rep);
        if (rr.status != 2 || rr.kind != r.kind) {
          std::fprintf(stderr, "REPLAY MISMATCH: seed=%lu scenario=%s kind=%s/%s hash=%lu/%lu msg=%s\n",
                       (unsigned long) cs.seed, r.scenario.c_str(), r.kind.c_str(), rr.kind.c_str(),
                       (unsigned long) r.hash, (unsigned long) rr.hash, r.msg.c_str());
          ++errors;
          continue;
        }
        std::fprintf(stderr, "violation: seed=%lu scenario=%s kind=%s msg=%s\n", (unsigned long) cs.seed,
                     r.scenario.c_str(), r.kind.c_str(), r.msg.c_str());
        minimise(rep, rr, minb);
        // normalise: final run of the minimised case gives the recorded hash
        rr = run_case(rep);
        const std::string path = opt["out"] + "." + std::to_string(first) + ".replay";
        write_case(path, rep, rr, cs.seed);
        vjson = "{\"scenario\":\"" + r.scenario + "\",\"kind\":\"" + rr.kind + "\",\"message\":\"" +
                json_escape(rr.msg) + "\",\"seed\":" + std::to_string(cs.seed) + ",\"index\":" +
                std::to_string(i) + ",\"replay\":\"" + path + "\"}";
        rc = 1;
        break;
      }
      if (recheck > 0 && runs % static_cast<std::uint64_t>(recheck) == 1) {
        Result r2 = run_case(cs);
        ++rechecks;
        if (r2.status != r.status || r2.hash != r.hash) {
          std::fprintf(stderr, "NONDETERMINISM: seed=%lu scenario=%s hash=%lu/%lu\n", (unsigned long) cs.seed,
                       r.scenario.c_str(), (unsigned long) r.hash, (unsigned long) r2.hash);
          ++errors;
        }
      }
    }
    if (opt.count("hashes")) {
      std::ofstream o(opt["hashes"], std::ios::binary);
      for (auto h : scheds)
        o.write(reinterpret_cast<const char*>(&h), 8);
    }
    std::printf("{\"runs\":%lu,\"steps\":%lu,\"sim_time\":%lu,\"distinct\":%zu,\"rechecks\":%lu,\"max_steps\":%lu,\"wall\":%.3f",
                (unsigned long) runs, (unsigned long) steps_, (unsigned long) time_, scheds.size(),
                (unsigned long) rechecks, (unsigned long) max_steps, wall() - t0);
    std::printf(",\"counters\":{");
    bool f1 = true;
    for (auto& [k, v] : counters) {
      std::printf("%s\"%s\":[%lu,%lu]", f1 ? "" : ",", json_escape(k).c_str(), (unsigned long) v,
                  (unsigned long) fault_runs[k]);
      f1 = false;
    }
    std::printf("},\"known\":{");
    f1 = true;
    for (auto& [k, v] : known_hits) {
      std::printf("%s\"%s\":[%lu,\"%s\"]", f1 ? "" : ",", json_escape(k).c_str(), (unsigned long) v,
                  json_escape(known_msg[k]).c_str());
      f1 = false;
    }
    std::printf("},\"errors\":%ld,\"samples\":[%s]", errors, samples.c_str());
    if (rc == 0 && errors > 0)
      rc = 3;
    if (!vjson.empty())
      std::printf(",\"violation\":%s", vjson.c_str());
    std::printf("}\n");
    std::fflush(stdout);
    return rc;
  }
  std::fprintf(stderr, "usage: explore|one|replay|list\n");
  return 3;
}

}  // namespace sim
