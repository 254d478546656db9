#include <dlafsim/mpi_sim.h>

#include <algorithm>
#include <complex>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <sstream>

using namespace sim;

// ================================================================= datatypes
namespace {
enum Basic { CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LL, ULL, FLT, DBL, BOOL, CFLT, CDBL, BYTE, NBASIC };
const std::size_t kSize[NBASIC] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 1, 8, 16, 1};

struct Layout {
  int basic = 0;
  std::vector<std::pair<long, long>> blocks;  // byte offset, byte length of one item
  long extent = 0;
  long elems = 0;  // basic elements of one item
};
using LayoutP = std::shared_ptr<Layout>;

struct TypeImpl {
  LayoutP layout;
  bool committed = false;
  bool freed = false;
  int owner = -1;
};

LayoutP basic_layout(int b) {
  static LayoutP cache[NBASIC];
  if (!cache[b]) {
    auto l = std::make_shared<Layout>();
    l->basic = b;
    l->blocks = {{0, static_cast<long>(kSize[b])}};
    l->extent = static_cast<long>(kSize[b]);
    l->elems = 1;
    cache[b] = l;
  }
  return cache[b];
}
}

struct sim_mpi_type sim_mpi_types_[NBASIC] = {{0, nullptr},  {1, nullptr},  {2, nullptr},  {3, nullptr},
                                              {4, nullptr},  {5, nullptr},  {6, nullptr},  {7, nullptr},
                                              {8, nullptr},  {9, nullptr},  {10, nullptr}, {11, nullptr},
                                              {12, nullptr}, {13, nullptr}, {14, nullptr}, {15, nullptr},
                                              {16, nullptr}};
struct sim_mpi_comm sim_mpi_world_ = {1, nullptr};
struct sim_mpi_comm sim_mpi_self_ = {2, nullptr};

struct sim_mpi_req {
  bool done = false;
  bool nonblocking = true;
  int rank = 0;
  sim::Fiber* waiter = nullptr;
  sim::TaskFn cont;
};

namespace {
// ================================================================= state
struct SendOp {
  const void* buf;
  int count;
  LayoutP lay;
  int tag;
  MPI_Request req;
  bool eager;
  std::vector<char> data;  // eager snapshot
  std::uint64_t sum;
  bool send_done = false;
  bool delivered = false;
  int rank;
};
struct RecvOp {
  void* buf;
  int count;
  LayoutP lay;
  int tag;
  MPI_Request req;
  std::uint64_t sum;
  bool poisoned;
  int rank;
};
using SendP = std::shared_ptr<SendOp>;
using RecvP = std::shared_ptr<RecvOp>;
struct Channel {
  std::deque<SendP> sends;
  std::deque<RecvP> recvs;
};

enum CollKind { BCAST, REDUCE, ALLREDUCE, BARRIER, DUP, SPLIT };
const char* kCollName[] = {"Bcast", "Reduce", "Allreduce", "Barrier", "Comm_dup", "Comm_split"};

struct CollArg {
  bool here = false;
  const void* sbuf = nullptr;
  void* rbuf = nullptr;
  int count = 0;
  LayoutP lay;
  MPI_Request req = nullptr;
  std::vector<char> data;
  bool eager = false;
  std::uint64_t sum = 0;   // checksum of the send buffer
  std::uint64_t rsum = 0;  // checksum of the poisoned receive buffer
  bool has_rsum = false;
  bool scheduled = false;
  bool completed = false;
  int color = 0, key = 0;
  MPI_Comm* out = nullptr;
  int world = 0;
};
struct Coll {
  CollKind kind;
  bool blocking;
  int root;
  int op;
  int basic;
  long elems;
  int first;  // comm rank of the first caller
  std::vector<CollArg> args;
  int arrived = 0;
  int completed = 0;
  std::vector<char> result;
  bool computed = false;
};
struct Ctx {
  int id;
  std::vector<int> group;  // comm rank -> world rank
  std::vector<std::uint64_t> seq;
  std::map<std::uint64_t, std::shared_ptr<Coll>> colls;
  std::map<std::pair<int, int>, Channel> chan;  // (src, dst) comm ranks
};
struct CommImpl {
  std::shared_ptr<Ctx> ctx;
  int owner = 0;
  int myrank = 0;
  bool freed = false;
};

struct MpiState {
  std::vector<MpiRankStats> stats;
  std::shared_ptr<Ctx> world;
  std::vector<std::shared_ptr<Ctx>> self;
  std::vector<std::shared_ptr<Ctx>> all;
  int next_ctx = 1;
  bool err_fired = false;
  std::string err_call;
  std::uint64_t ops = 0;
  int next_handle = 10;
};
MpiState* M = nullptr;
bool g_auto_init = true;
int g_provided = 3;
int g_err_rank = -1;
long g_err_n = -1;
long g_err_site = -1;
std::map<const void*, long> g_err_sites;
int g_err_code = MPI_ERR_OTHER;
int g_cerr_rank = -1;
long g_cerr_n = -1;

MpiState& st() {
  if (!M) {
    M = new MpiState;
    M->stats.resize(static_cast<std::size_t>(nranks()));
    for (auto& s : M->stats) {
      s.initialized = g_auto_init;
      s.provided = g_provided;
    }
    auto w = std::make_shared<Ctx>();
    w->id = M->next_ctx++;
    for (int i = 0; i < nranks(); ++i)
      w->group.push_back(i);
    w->seq.assign(w->group.size(), 0);
    M->world = w;
    M->all.push_back(w);
    for (int i = 0; i < nranks(); ++i) {
      auto c = std::make_shared<Ctx>();
      c->id = M->next_ctx++;
      c->group = {i};
      c->seq = {0};
      M->self.push_back(c);
      M->all.push_back(c);
    }
  }
  return *M;
}

struct Ref {
  std::shared_ptr<Ctx> ctx;
  int me;
};

void require_init(const char* call) {
  auto& s = st().stats[static_cast<std::size_t>(cur_rank())];
  if (!s.initialized || s.finalized)
    violation("mpi-usage", std::string(call) + " called while MPI is not initialised");
}

Ref resolve(MPI_Comm c, const char* call) {
  require_init(call);
  auto& m = st();
  const int r = cur_rank();
  if (c == MPI_COMM_NULL)
    violation("mpi-usage", std::string(call) + " on MPI_COMM_NULL");
  if (c == MPI_COMM_WORLD)
    return {m.world, r};
  if (c == MPI_COMM_SELF)
    return {m.self[static_cast<std::size_t>(r)], 0};
  auto* i = static_cast<CommImpl*>(c->impl);
  if (!i || i->freed)
    violation("mpi-usage", std::string(call) + " on a communicator which was already freed");
  if (i->owner != r)
    violation("mpi-usage", std::string(call) + " on a communicator handle of another rank");
  return {i->ctx, i->myrank};
}

LayoutP layout_of(MPI_Datatype t, const char* call, bool need_commit = true) {
  if (t == MPI_DATATYPE_NULL)
    violation("mpi-usage", std::string(call) + " with MPI_DATATYPE_NULL");
  if (t >= sim_mpi_types_ && t < sim_mpi_types_ + NBASIC)
    return basic_layout(t->id);
  auto* i = static_cast<TypeImpl*>(t->impl);
  if (i->freed)
    violation("mpi-usage", std::string(call) + " with a datatype which was already freed");
  if (need_commit && !i->committed)
    violation("mpi-usage", std::string(call) + " with a datatype which was not committed");
  return i->layout;
}

template <class F>
void for_blocks(const Layout& l, int count, F f) {
  for (int k = 0; k < count; ++k)
    for (auto& b : l.blocks)
      f(k * l.extent + b.first, b.second);
}
void pack(const void* buf, int count, const Layout& l, std::vector<char>& out) {
  out.clear();
  for_blocks(l, count, [&](long o, long n) {
    const char* p = static_cast<const char*>(buf) + o;
    out.insert(out.end(), p, p + n);
  });
}
void unpack(void* buf, int count, const Layout& l, const std::vector<char>& in) {
  std::size_t pos = 0;
  for_blocks(l, count, [&](long o, long n) {
    if (pos >= in.size())
      return;
    const std::size_t k = std::min<std::size_t>(static_cast<std::size_t>(n), in.size() - pos);
    std::memcpy(static_cast<char*>(buf) + o, in.data() + pos, k);
    pos += k;
  });
}
std::uint64_t checksum(const void* buf, int count, const Layout& l) {
  std::uint64_t h = 1469598103934665603ull;
  for_blocks(l, count, [&](long o, long n) {
    const unsigned char* p = static_cast<const unsigned char*>(buf) + o;
    for (long i = 0; i < n; ++i) {
      h ^= p[i];
      h *= 1099511628211ull;
    }
  });
  return h;
}
bool poison(void* buf, int count, const Layout& l) {
  if (faults().mem_mode == 0)
    return false;
  for_blocks(l, count, [&](long o, long n) { std::memset(static_cast<char*>(buf) + o, 0xFF, static_cast<std::size_t>(n)); });
  return true;
}

std::uint64_t draw_delay() {
  const int d = faults().delay_max;
  if (d == 0)
    return 0;
  std::uint64_t v = choose(static_cast<std::uint32_t>(d) + 1);
  if (v > 0)
    sim::count("fault.msg_delay");
  return v;
}

MPI_Request new_req(bool nonblocking) {
  auto* r = new sim_mpi_req;
  r->rank = cur_rank();
  r->nonblocking = nonblocking;
  ++st().stats[static_cast<std::size_t>(r->rank)].reqs_live;
  return r;
}

void fire(MPI_Request r) {
  const int rank = r->rank;
  --pending_async(rank);
  --st().stats[static_cast<std::size_t>(rank)].reqs_live;
  auto fn = std::move(r->cont);
  delete r;
  TaskAttr a;
  a.priority = 1;
  a.pool = kPoolMpi;
  spawn(rank, a, std::move(fn));
}

void complete(MPI_Request r) {
  r->done = true;
  log_event(31, static_cast<std::uint64_t>(r->rank));
  if (r->cont)
    fire(r);
  else if (r->waiter) {
    auto* f = r->waiter;
    r->waiter = nullptr;
    wake(f);
  }
}

int wait_req(MPI_Request r, const char* why) {
  while (!r->done) {
    r->waiter = current();
    block(why, true);
  }
  --st().stats[static_cast<std::size_t>(r->rank)].reqs_live;
  delete r;
  return MPI_SUCCESS;
}

// returns true if the call has to fail
bool enter_at(const char* call, const void* site) {
  auto& m = st();
  ++m.ops;
  const int r = cur_rank();
  auto& s = m.stats[static_cast<std::size_t>(r)];
  ++s.calls;
  maybe_yield(call);
  if (g_err_n >= 0 && (g_err_rank < 0 || g_err_rank == r)) {
    bool counts = true;
    if (g_err_site >= 0) {
      // call sites are numbered in the order in which the rank first reaches them
      auto it = g_err_sites.find(site);
      if (it == g_err_sites.end())
        it = g_err_sites.emplace(site, static_cast<long>(g_err_sites.size())).first;
      counts = it->second == g_err_site;
    }
    if (counts && g_err_n-- == 0) {
      m.err_fired = true;
      m.err_call = call;
      sim::count("fault.mpi_error");
      log_event(40, static_cast<std::uint64_t>(r));
      expect_abort_of(r, "probe.abort_after_mpi_error");
      if (tracing())
        note(std::string("injected MPI error in ") + call);
      return true;
    }
  }
  return false;
}

#define enter(call) enter_at(call, __builtin_return_address(0))

// ================================================================= point to point
void send_complete(const SendP& s) {
  if (s->send_done)
    return;
  // Once the receiver has got the whole message, a sender that learned of it by other means may reuse the buffer: the
  // contents cannot be read again.
  if (!s->delivered && checksum(s->buf, s->count, *s->lay) != s->sum)
    violation("buffer-modified", "a send buffer was modified before the send completed (rank " +
                                     std::to_string(s->rank) + ")");
  s->send_done = true;
  complete(s->req);
}

void deliver(const SendP& s, const RecvP& r) {
  if (!s->eager) {
    if (checksum(s->buf, s->count, *s->lay) != s->sum)
      violation("buffer-modified", "a send buffer was modified before the send completed (rank " +
                                       std::to_string(s->rank) + ")");
    pack(s->buf, s->count, *s->lay, s->data);
  }
  if (r->poisoned && checksum(r->buf, r->count, *r->lay) != r->sum)
    violation("buffer-modified", "a receive buffer was modified before the receive completed (rank " +
                                     std::to_string(r->rank) + ")");
  const std::size_t cap = static_cast<std::size_t>(r->lay->elems) * static_cast<std::size_t>(r->count) * kSize[r->lay->basic];
  if (s->data.size() > cap)
    violation("mpi-truncation", "a message of " + std::to_string(s->data.size()) + " bytes was received in a buffer of " +
                                    std::to_string(cap) + " bytes");
  if (s->data.size() < cap)
    violation("mpi-short-message", "a message of " + std::to_string(s->data.size()) +
                                       " bytes was received by a receive of " + std::to_string(cap) + " bytes");
  if (s->lay->basic != r->lay->basic && s->lay->basic != BYTE && r->lay->basic != BYTE)
    violation("mpi-type-mismatch", "send and receive datatypes differ");
  unpack(r->buf, r->count, *r->lay, s->data);
  s->delivered = true;
  log_event(32, static_cast<std::uint64_t>(s->rank), static_cast<std::uint64_t>(r->rank));
  sim::count("p2p");
  complete(r->req);
  if (!s->send_done) {
    std::uint64_t d = draw_delay();
    post_event(s->rank, d, make_task([s] { send_complete(s); }), "send completion");
  }
}

void matched(const SendP& s, const RecvP& r) {
  std::uint64_t d = draw_delay();
  post_event(r->rank, d, make_task([s, r] { deliver(s, r); }), "message delivery");
}

bool tag_match(int rt, int stag) {
  return rt == MPI_ANY_TAG || rt == stag;
}

MPI_Request post_send(const void* buf, int count, MPI_Datatype t, int dest, int tag, const Ref& c, bool sync,
                      bool nonblocking) {
  auto lay = layout_of(t, "MPI_Send");
  if (dest < 0 || dest >= static_cast<int>(c.ctx->group.size()))
    violation("mpi-usage", "send to an invalid rank");
  if (tag < 0)
    violation("mpi-usage", "send with a negative tag");
  auto s = std::make_shared<SendOp>();
  s->buf = buf;
  s->count = count;
  s->lay = lay;
  s->tag = tag;
  s->req = new_req(nonblocking);
  s->rank = cur_rank();
  s->sum = checksum(buf, count, *lay);
  s->eager = !sync && coin(static_cast<std::uint32_t>(faults().eager_rate), 100);
  log_event(33, static_cast<std::uint64_t>(c.ctx->id), static_cast<std::uint64_t>(dest), static_cast<std::uint64_t>(tag));
  if (tracing())
    note("send ctx=" + std::to_string(c.ctx->id) + " to=" + std::to_string(dest) + " tag=" + std::to_string(tag) +
         (s->eager ? " eager" : " rendezvous"));
  if (s->eager) {
    sim::count("fault.early_send_completion");
    pack(buf, count, *lay, s->data);
    std::uint64_t d = draw_delay();
    post_event(s->rank, d, make_task([s] { send_complete(s); }), "eager send completion");
  }
  auto& ch = c.ctx->chan[{c.me, dest}];
  for (auto it = ch.recvs.begin(); it != ch.recvs.end(); ++it)
    if (tag_match((*it)->tag, tag)) {
      auto r = *it;
      ch.recvs.erase(it);
      matched(s, r);
      return s->req;
    }
  ch.sends.push_back(s);
  return s->req;
}

MPI_Request post_recv(void* buf, int count, MPI_Datatype t, int src, int tag, const Ref& c, bool nonblocking) {
  auto lay = layout_of(t, "MPI_Recv");
  if (src == MPI_ANY_SOURCE)
    harness_error("MPI_ANY_SOURCE is not supported by the simulated MPI");
  if (src < 0 || src >= static_cast<int>(c.ctx->group.size()))
    violation("mpi-usage", "receive from an invalid rank");
  auto r = std::make_shared<RecvOp>();
  r->buf = buf;
  r->count = count;
  r->lay = lay;
  r->tag = tag;
  r->req = new_req(nonblocking);
  r->rank = cur_rank();
  r->poisoned = poison(buf, count, *lay);
  r->sum = r->poisoned ? checksum(buf, count, *lay) : 0;
  log_event(34, static_cast<std::uint64_t>(c.ctx->id), static_cast<std::uint64_t>(src), static_cast<std::uint64_t>(tag));
  if (tracing())
    note("recv ctx=" + std::to_string(c.ctx->id) + " from=" + std::to_string(src) + " tag=" + std::to_string(tag));
  auto& ch = c.ctx->chan[{src, c.me}];
  for (auto it = ch.sends.begin(); it != ch.sends.end(); ++it)
    if (tag_match(tag, (*it)->tag)) {
      auto s = *it;
      ch.sends.erase(it);
      matched(s, r);
      return r->req;
    }
  ch.recvs.push_back(r);
  return r->req;
}

// ================================================================= collectives
template <class T>
void red(T* a, const T* b, long n, int op) {
  for (long i = 0; i < n; ++i)
    switch (op) {
      case MPI_SUM:
        a[i] = static_cast<T>(a[i] + b[i]);
        break;
      case MPI_PROD:
        a[i] = static_cast<T>(a[i] * b[i]);
        break;
      case MPI_MAX:
        a[i] = a[i] < b[i] ? b[i] : a[i];
        break;
      case MPI_MIN:
        a[i] = b[i] < a[i] ? b[i] : a[i];
        break;
      case MPI_LAND:
        a[i] = static_cast<T>(a[i] && b[i]);
        break;
      case MPI_LOR:
        a[i] = static_cast<T>(a[i] || b[i]);
        break;
      default:
        harness_error("unsupported MPI_Op");
    }
}
template <class T>
void redc(T* a, const T* b, long n, int op) {
  for (long i = 0; i < n; ++i)
    if (op == MPI_SUM)
      a[i] += b[i];
    else if (op == MPI_PROD)
      a[i] *= b[i];
    else
      violation("mpi-usage", "invalid reduction operation on complex data");
}
void reduce_into(std::vector<char>& a, const std::vector<char>& b, int basic, int op) {
  const long n = static_cast<long>(a.size() / kSize[basic]);
#define C(B, T)                                                                        \
  case B:                                                                              \
    red(reinterpret_cast<T*>(a.data()), reinterpret_cast<const T*>(b.data()), n, op);  \
    break;
  switch (basic) {
    C(CHAR, char)
    C(SCHAR, signed char)
    C(UCHAR, unsigned char)
    C(SHORT, short)
    C(USHORT, unsigned short)
    C(INT, int)
    C(UINT, unsigned)
    C(LONG, long)
    C(ULONG, unsigned long)
    C(LL, long long)
    C(ULL, unsigned long long)
    C(FLT, float)
    C(DBL, double)
    C(BOOL, bool)
    case CFLT:
      redc(reinterpret_cast<std::complex<float>*>(a.data()), reinterpret_cast<const std::complex<float>*>(b.data()), n, op);
      break;
    case CDBL:
      redc(reinterpret_cast<std::complex<double>*>(a.data()), reinterpret_cast<const std::complex<double>*>(b.data()), n, op);
      break;
    default:
      harness_error("unsupported reduction type");
  }
#undef C
}

MPI_Comm make_comm(std::shared_ptr<Ctx> ctx, int world_rank) {
  auto* i = new CommImpl;
  i->ctx = ctx;
  i->owner = world_rank;
  for (std::size_t k = 0; k < ctx->group.size(); ++k)
    if (ctx->group[k] == world_rank)
      i->myrank = static_cast<int>(k);
  auto* c = new sim_mpi_comm;
  c->id = st().next_handle++;
  c->impl = i;
  auto& s = st().stats[static_cast<std::size_t>(world_rank)];
  ++s.comms_live;
  ++s.comms_created;
  return c;
}

using CollP = std::shared_ptr<Coll>;

void coll_finish(const CollP& c, int rank) {
  auto& a = c->args[static_cast<std::size_t>(rank)];
  if (a.completed)
    return;
  // the input must not have been modified while the operation was pending
  if (a.sbuf && a.sbuf != MPI_IN_PLACE && checksum(a.sbuf, a.count, *a.lay) != a.sum)
    violation("buffer-modified", std::string("the input buffer of ") + kCollName[c->kind] +
                                     " was modified before the operation completed");
  if (a.has_rsum && checksum(a.rbuf, a.count, *a.lay) != a.rsum)
    violation("buffer-modified", std::string("the output buffer of ") + kCollName[c->kind] +
                                     " was modified before the operation completed");
  const bool root = rank == c->root;
  switch (c->kind) {
    case BCAST:
      if (!root)
        unpack(a.rbuf, a.count, *a.lay, c->result);
      break;
    case REDUCE:
      if (root)
        unpack(a.rbuf, a.count, *a.lay, c->result);
      break;
    case ALLREDUCE:
      unpack(a.rbuf, a.count, *a.lay, c->result);
      break;
    default:
      break;
  }
  a.completed = true;
  ++c->completed;
  log_event(35, static_cast<std::uint64_t>(c->kind), static_cast<std::uint64_t>(a.world));
  complete(a.req);
}

void coll_schedule(const CollP& c, int rank) {
  auto& a = c->args[static_cast<std::size_t>(rank)];
  if (a.scheduled)
    return;
  a.scheduled = true;
  std::uint64_t d = draw_delay();
  post_event(a.world, d, make_task([c, rank] { coll_finish(c, rank); }), kCollName[c->kind]);
}

void coll_progress(const std::shared_ptr<Ctx>& ctx, const CollP& c, std::uint64_t seq) {
  const int n = static_cast<int>(c->args.size());
  const bool all = c->arrived == n;
  switch (c->kind) {
    case BCAST: {
      auto& ra = c->args[static_cast<std::size_t>(c->root)];
      if (ra.here && !c->computed) {
        c->result = ra.data;  // the checksum guarantees that a late read would give the same data
        c->computed = true;
      }
      if (c->computed) {
        for (int i = 0; i < n; ++i)
          if (c->args[static_cast<std::size_t>(i)].here && (i != c->root || ra.eager || all))
            coll_schedule(c, i);
      }
      break;
    }
    case REDUCE:
    case ALLREDUCE: {
      if (all && !c->computed) {
        // any combination order is legal
        std::vector<int> order;
        for (int i = 0; i < n; ++i)
          order.push_back(i);
        if (n > 1)
          std::rotate(order.begin(), order.begin() + choose(static_cast<std::uint32_t>(n)), order.end());
        c->result = c->args[static_cast<std::size_t>(order[0])].data;
        for (int i = 1; i < n; ++i)
          reduce_into(c->result, c->args[static_cast<std::size_t>(order[static_cast<std::size_t>(i)])].data, c->basic, c->op);
        c->computed = true;
      }
      for (int i = 0; i < n; ++i) {
        auto& a = c->args[static_cast<std::size_t>(i)];
        if (!a.here)
          continue;
        if (all || (c->kind == REDUCE && i != c->root && a.eager))
          coll_schedule(c, i);
      }
      break;
    }
    case BARRIER:
      if (all)
        for (int i = 0; i < n; ++i)
          coll_schedule(c, i);
      break;
    case DUP:
      if (all && !c->computed) {
        c->computed = true;
        auto nc = std::make_shared<Ctx>();
        nc->id = st().next_ctx++;
        nc->group = ctx->group;
        nc->seq.assign(nc->group.size(), 0);
        st().all.push_back(nc);
        for (int i = 0; i < n; ++i) {
          *c->args[static_cast<std::size_t>(i)].out = make_comm(nc, ctx->group[static_cast<std::size_t>(i)]);
          coll_schedule(c, i);
        }
      }
      break;
    case SPLIT:
      if (all && !c->computed) {
        c->computed = true;
        std::map<int, std::vector<std::pair<int, int>>> groups;
        for (int i = 0; i < n; ++i) {
          auto& a = c->args[static_cast<std::size_t>(i)];
          if (a.color != MPI_UNDEFINED)
            groups[a.color].push_back({a.key, i});
          else
            *a.out = MPI_COMM_NULL;
        }
        for (auto& [color, v] : groups) {
          std::stable_sort(v.begin(), v.end());
          auto nc = std::make_shared<Ctx>();
          nc->id = st().next_ctx++;
          for (auto& [k, i] : v)
            nc->group.push_back(ctx->group[static_cast<std::size_t>(i)]);
          nc->seq.assign(nc->group.size(), 0);
          st().all.push_back(nc);
          for (auto& [k, i] : v)
            *c->args[static_cast<std::size_t>(i)].out = make_comm(nc, ctx->group[static_cast<std::size_t>(i)]);
        }
        for (int i = 0; i < n; ++i)
          coll_schedule(c, i);
      }
      break;
  }
  if (all)
    ctx->colls.erase(seq);
}

std::string coll_desc(const Coll& c) {
  std::ostringstream os;
  os << (c.blocking ? "" : "I") << kCollName[c.kind] << "(elements=" << c.elems << ", type=" << c.basic << ", root=" << c.root
     << ", op=" << c.op << ")";
  return os.str();
}

struct CollCall {
  CollKind kind;
  bool blocking;
  const void* sbuf = nullptr;
  void* rbuf = nullptr;
  int count = 0;
  MPI_Datatype type = nullptr;
  int op = 0;
  int root = -1;
  int color = 0, key = 0;
  MPI_Comm* out = nullptr;
};

MPI_Request coll_enter(const Ref& r, const CollCall& call) {
  auto& ctx = *r.ctx;
  const std::uint64_t seq = ctx.seq[static_cast<std::size_t>(r.me)]++;
  Coll desc{};
  desc.kind = call.kind;
  desc.blocking = call.blocking;
  desc.root = call.root;
  desc.op = call.op;
  LayoutP lay = call.type ? layout_of(call.type, kCollName[call.kind]) : nullptr;
  desc.basic = lay ? lay->basic : -1;
  desc.elems = lay ? lay->elems * call.count : 0;
  desc.first = r.me;
  if (call.root >= static_cast<int>(ctx.group.size()))
    violation("mpi-usage", "collective with an invalid root");
  if (lay && (call.kind == REDUCE || call.kind == ALLREDUCE)) {
    const bool logical = call.op == MPI_LAND || call.op == MPI_LOR;
    if (lay->basic == CHAR || lay->basic == BYTE || (lay->basic == BOOL && !logical) ||
        (logical && (lay->basic == FLT || lay->basic == DBL || lay->basic == CFLT || lay->basic == CDBL)))
      violation("mpi-usage", "reduction operation which is not defined for the datatype");
  }
  auto it = ctx.colls.find(seq);
  CollP c;
  if (it == ctx.colls.end()) {
    c = std::make_shared<Coll>(desc);
    c->args.resize(ctx.group.size());
    ctx.colls[seq] = c;
  }
  else {
    c = it->second;
    if (c->kind != desc.kind || c->blocking != desc.blocking || c->root != desc.root || c->op != desc.op ||
        c->basic != desc.basic || c->elems != desc.elems)
      violation("collective-mismatch",
                "collective number " + std::to_string(seq) + " of a communicator differs among its ranks: rank " +
                    std::to_string(c->first) + " called " + coll_desc(*c) + ", rank " + std::to_string(r.me) +
                    " called " + coll_desc(desc));
  }
  log_event(36, static_cast<std::uint64_t>(ctx.id), seq, static_cast<std::uint64_t>(call.kind));
  sim::count("collective");
  if (tracing())
    note("collective ctx=" + std::to_string(ctx.id) + " me=" + std::to_string(r.me) + " seq=" + std::to_string(seq) + " " +
         coll_desc(desc));
  auto& a = c->args[static_cast<std::size_t>(r.me)];
  a.here = true;
  a.world = cur_rank();
  a.sbuf = call.sbuf;
  a.rbuf = call.rbuf;
  a.count = call.count;
  a.lay = lay;
  a.color = call.color;
  a.key = call.key;
  a.out = call.out;
  a.req = new_req(!call.blocking);
  const bool root = r.me == call.root;
  if (call.kind == BCAST) {
    if (root) {
      pack(call.sbuf, call.count, *lay, a.data);
      a.sum = checksum(call.sbuf, call.count, *lay);
      a.eager = coin(static_cast<std::uint32_t>(faults().eager_rate), 100);
    }
    else {
      a.sbuf = nullptr;
      if (poison(call.rbuf, call.count, *lay)) {
        a.has_rsum = true;
        a.rsum = checksum(call.rbuf, call.count, *lay);
      }
    }
  }
  else if (call.kind == REDUCE || call.kind == ALLREDUCE) {
    const bool in_place = call.sbuf == MPI_IN_PLACE;
    if (in_place && call.kind == REDUCE && !root)
      violation("mpi-usage", "MPI_IN_PLACE used by a non root rank of Reduce");
    const void* in = in_place ? call.rbuf : call.sbuf;
    pack(in, call.count, *lay, a.data);
    if (!in_place)
      a.sum = checksum(in, call.count, *lay);
    a.eager = coin(static_cast<std::uint32_t>(faults().eager_rate), 100);
    if ((root || call.kind == ALLREDUCE)) {
      if (!in_place && call.rbuf == call.sbuf && call.count > 0)
        violation("mpi-usage", "aliased buffers in a reduction");
      if (poison(call.rbuf, call.count, *lay)) {
        a.has_rsum = true;
        a.rsum = checksum(call.rbuf, call.count, *lay);
      }
    }
  }
  ++c->arrived;
  auto req = a.req;
  coll_progress(r.ctx, c, seq);
  return req;
}
}

// ================================================================= sim API
namespace sim {
bool mpi_post_inline() {
  const int m = faults().inline_post;
  return m == 1 || (m == 2 && choose(2) == 1);
}

void mpi_on_complete(MPI_Request req, TaskFn fn) {
  if (!req) {
    // operation completed without a request (e.g. failed call): pika would see MPI_REQUEST_NULL
    TaskAttr a;
    a.pool = kPoolMpi;
    spawn(cur_rank(), a, std::move(fn));
    return;
  }
  if (req->cont)
    violation("mpi-usage", "a request was used twice");
  ++pending_async(req->rank);
  if (!rank_slot(req->rank, 0)) {
    // polling is disabled: nobody will ever notice the completion
    req->cont.reset();
    static std::vector<TaskFn> keep;
    keep.push_back(std::move(fn));
    return;
  }
  req->cont = std::move(fn);
  if (req->done)
    fire(req);
}

MpiRankStats& mpi_stats(int rank) {
  return st().stats[static_cast<std::size_t>(rank)];
}
void mpi_reset() {
  M = nullptr;  // the old state is intentionally kept allocated
}
void mpi_auto_init(bool on) {
  g_auto_init = on;
  if (M)
    for (auto& s : M->stats)
      s.initialized = on;
}
void mpi_set_provided(int level) {
  g_provided = level;
  if (M)
    for (auto& s : M->stats)
      s.provided = level;
}
void mpi_inject_completion_error(int rank, long nth) {
  g_cerr_rank = rank;
  g_cerr_n = nth;
}
bool mpi_fail_completion() {
  const int r = cur_rank();
  if (g_cerr_n >= 0 && g_cerr_rank == r && g_cerr_n-- == 0) {
    st().err_fired = true;
    st().err_call = "the completion of a request";
    sim::count("fault.mpi_completion_error");
    expect_abort_of(r, "probe.abort_after_mpi_error");
    if (tracing())
      note("injected MPI error in the completion of a request");
    return true;
  }
  return false;
}
void mpi_inject_error(int rank, long nth, int code) {
  g_err_rank = rank;
  g_err_n = nth;
  g_err_code = code;
  g_err_site = -1;
}
void mpi_inject_error_at(int rank, long site, long nth, int code) {
  mpi_inject_error(rank, nth, code);
  g_err_site = site;
  g_err_sites.clear();
}
bool mpi_error_fired() {
  return st().err_fired;
}
std::string mpi_error_call() {
  return st().err_call;
}
std::uint64_t mpi_op_count() {
  return st().ops;
}

void mpi_check_quiescent(bool leaks) {
  auto& m = st();
  for (auto& c : m.all) {
    for (auto& [k, ch] : c->chan) {
      if (!ch.sends.empty())
        violation("unmatched-message", "a message from rank " + std::to_string(k.first) + " to rank " +
                                           std::to_string(k.second) + " was sent but never received");
      if (!ch.recvs.empty())
        violation("unmatched-message", "a receive of rank " + std::to_string(k.second) + " from rank " +
                                           std::to_string(k.first) + " was never matched");
    }
    if (!c->colls.empty())
      violation("unmatched-collective", "a collective was not entered by all ranks of its communicator: " +
                                            coll_desc(*c->colls.begin()->second));
  }
  if (leaks) {
    for (std::size_t r = 0; r < m.stats.size(); ++r) {
      auto& s = m.stats[r];
      if (s.reqs_live != 0)
        violation("request-leak", "rank " + std::to_string(r) + " left " + std::to_string(s.reqs_live) +
                                      " MPI requests incomplete");
      if (s.comms_live != 0)
        violation("communicator-leak", "rank " + std::to_string(r) + " did not free " + std::to_string(s.comms_live) +
                                           " communicators");
      if (s.types_live != 0)
        violation("datatype-leak",
                  "rank " + std::to_string(r) + " did not free " + std::to_string(s.types_live) + " MPI datatypes");
    }
  }
}
}

// ================================================================= C API
extern "C" {
int MPI_Init_thread(int*, char***, int required, int* provided) {
  auto& s = st().stats[static_cast<std::size_t>(cur_rank())];
  if (s.initialized)
    violation("mpi-usage", "MPI_Init_thread called twice");
  s.initialized = true;
  s.provided = std::min(required, g_provided);
  *provided = s.provided;
  return MPI_SUCCESS;
}
int MPI_Init(int* a, char*** b) {
  int p;
  return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p);
}
int MPI_Initialized(int* flag) {
  *flag = st().stats[static_cast<std::size_t>(cur_rank())].initialized;
  return MPI_SUCCESS;
}
int MPI_Finalized(int* flag) {
  *flag = st().stats[static_cast<std::size_t>(cur_rank())].finalized;
  return MPI_SUCCESS;
}
int MPI_Finalize(void) {
  require_init("MPI_Finalize");
  auto& s = st().stats[static_cast<std::size_t>(cur_rank())];
  s.finalized = true;
  return MPI_SUCCESS;
}
int MPI_Query_thread(int* provided) {
  *provided = st().stats[static_cast<std::size_t>(cur_rank())].provided;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int) {
  st().stats[static_cast<std::size_t>(cur_rank())].aborted = true;
  if (abort_expected()) {
    if (!reported())
      violation("silent-abort", "the process aborted after a failure without reporting it");
    finish_ok("abort_via_mpi_abort");
  }
  violation("mpi-abort", "MPI_Abort was called");
}
int MPI_Error_string(int code, char* s, int* len) {
  *len = std::snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", code);
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) {
  return MPI_SUCCESS;
}
int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler) {
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out) {
  auto r = resolve(comm, "MPI_Comm_dup");
  if (enter("MPI_Comm_dup"))
    return g_err_code;
  CollCall c{};
  c.kind = DUP;
  c.blocking = true;
  c.out = out;
  return wait_req(coll_enter(r, c), "MPI_Comm_dup");
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out) {
  auto r = resolve(comm, "MPI_Comm_split");
  if (enter("MPI_Comm_split"))
    return g_err_code;
  CollCall c{};
  c.kind = SPLIT;
  c.blocking = true;
  c.color = color;
  c.key = key;
  c.out = out;
  return wait_req(coll_enter(r, c), "MPI_Comm_split");
}
int MPI_Comm_free(MPI_Comm* comm) {
  auto r = resolve(*comm, "MPI_Comm_free");
  if (enter("MPI_Comm_free"))
    return g_err_code;
  if (*comm == MPI_COMM_WORLD || *comm == MPI_COMM_SELF)
    violation("mpi-usage", "MPI_Comm_free of a predefined communicator");
  auto* i = static_cast<CommImpl*>((*comm)->impl);
  i->freed = true;
  --st().stats[static_cast<std::size_t>(cur_rank())].comms_live;
  *comm = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm comm, int* rank) {
  auto r = resolve(comm, "MPI_Comm_rank");
  *rank = r.me;
  return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm comm, int* size) {
  auto r = resolve(comm, "MPI_Comm_size");
  *size = static_cast<int>(r.ctx->group.size());
  return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* result) {
  auto ra = resolve(a, "MPI_Comm_compare"), rb = resolve(b, "MPI_Comm_compare");
  if (ra.ctx == rb.ctx)
    *result = MPI_IDENT;
  else if (ra.ctx->group == rb.ctx->group)
    *result = MPI_CONGRUENT;
  else {
    auto x = ra.ctx->group, y = rb.ctx->group;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    *result = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
int MPI_Dims_create(int n, int nd, int* dims) {
  if (nd == 2) {
    int a = 1;
    for (int i = 1; i * i <= n; ++i)
      if (n % i == 0)
        a = i;
    dims[0] = n / a;
    dims[1] = a;
  }
  return MPI_SUCCESS;
}
int MPI_Type_vector(int count, int blocklen, int stride, MPI_Datatype t, MPI_Datatype* out) {
  auto base = layout_of(t, "MPI_Type_vector", false);
  if (enter("MPI_Type_vector"))
    return g_err_code;
  auto l = std::make_shared<Layout>();
  l->basic = base->basic;
  for (int i = 0; i < count; ++i)
    for (int j = 0; j < blocklen; ++j)
      for (auto& b : base->blocks) {
        const long off = (static_cast<long>(i) * stride + j) * base->extent + b.first;
        if (!l->blocks.empty() && l->blocks.back().first + l->blocks.back().second == off)
          l->blocks.back().second += b.second;
        else
          l->blocks.push_back({off, b.second});
      }
  l->elems = static_cast<long>(count) * blocklen * base->elems;
  l->extent = count > 0 ? ((static_cast<long>(count) - 1) * stride + blocklen) * base->extent : 0;
  auto* i = new TypeImpl;
  i->layout = l;
  i->owner = cur_rank();
  auto* nt = new sim_mpi_type;
  nt->id = st().next_handle++;
  nt->impl = i;
  auto& s = st().stats[static_cast<std::size_t>(cur_rank())];
  ++s.types_live;
  ++s.types_created;
  sim::count("derived_types");
  *out = nt;
  return MPI_SUCCESS;
}
int MPI_Type_contiguous(int count, MPI_Datatype t, MPI_Datatype* out) {
  return MPI_Type_vector(1, count, count, t, out);
}
int MPI_Type_commit(MPI_Datatype* t) {
  layout_of(*t, "MPI_Type_commit", false);
  if (enter("MPI_Type_commit"))
    return g_err_code;
  if ((*t)->impl)
    static_cast<TypeImpl*>((*t)->impl)->committed = true;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t) {
  layout_of(*t, "MPI_Type_free", false);
  if (enter("MPI_Type_free"))
    return g_err_code;
  if (!(*t)->impl)
    violation("mpi-usage", "MPI_Type_free of a predefined datatype");
  auto* i = static_cast<TypeImpl*>((*t)->impl);
  i->freed = true;
  --st().stats[static_cast<std::size_t>(i->owner)].types_live;
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* size) {
  auto l = layout_of(t, "MPI_Type_size", false);
  *size = static_cast<int>(l->elems * static_cast<long>(kSize[l->basic]));
  return MPI_SUCCESS;
}

#define SIM_ENTER(name)                 \
  auto ref = resolve(comm, name);       \
  if (enter(name))                      \
    return g_err_code;

int MPI_Send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm) {
  SIM_ENTER("MPI_Send")
  return wait_req(post_send(buf, count, t, dest, tag, ref, false, false), "MPI_Send");
}
int MPI_Ssend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm) {
  SIM_ENTER("MPI_Ssend")
  return wait_req(post_send(buf, count, t, dest, tag, ref, true, false), "MPI_Ssend");
}
int MPI_Recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status*) {
  SIM_ENTER("MPI_Recv")
  return wait_req(post_recv(buf, count, t, src, tag, ref, false), "MPI_Recv");
}
int MPI_Sendrecv(const void* sbuf, int scount, MPI_Datatype stp, int dest, int stag, void* rbuf, int rcount,
                 MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status*) {
  SIM_ENTER("MPI_Sendrecv")
  auto a = post_recv(rbuf, rcount, rt, src, rtag, ref, false);
  auto b = post_send(sbuf, scount, stp, dest, stag, ref, false, false);
  wait_req(a, "MPI_Sendrecv");
  return wait_req(b, "MPI_Sendrecv");
}
int MPI_Isend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Isend")
  *req = post_send(buf, count, t, dest, tag, ref, false, true);
  return MPI_SUCCESS;
}
int MPI_Issend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Issend")
  *req = post_send(buf, count, t, dest, tag, ref, true, true);
  return MPI_SUCCESS;
}
int MPI_Irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Irecv")
  *req = post_recv(buf, count, t, src, tag, ref, true);
  return MPI_SUCCESS;
}
static CollCall mk(CollKind k, bool blocking, const void* s, void* r, int count, MPI_Datatype t, int op, int root) {
  CollCall c{};
  c.kind = k;
  c.blocking = blocking;
  c.sbuf = s;
  c.rbuf = r;
  c.count = count;
  c.type = t;
  c.op = op;
  c.root = root;
  return c;
}
int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm comm) {
  SIM_ENTER("MPI_Bcast")
  return wait_req(coll_enter(ref, mk(BCAST, true, buf, buf, count, t, 0, root)), "MPI_Bcast");
}
int MPI_Ibcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Ibcast")
  *req = coll_enter(ref, mk(BCAST, false, buf, buf, count, t, 0, root));
  return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
  SIM_ENTER("MPI_Reduce")
  return wait_req(coll_enter(ref, mk(REDUCE, true, s, r, count, t, op, root)), "MPI_Reduce");
}
int MPI_Ireduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm,
                MPI_Request* req) {
  SIM_ENTER("MPI_Ireduce")
  *req = coll_enter(ref, mk(REDUCE, false, s, r, count, t, op, root));
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  SIM_ENTER("MPI_Allreduce")
  return wait_req(coll_enter(ref, mk(ALLREDUCE, true, s, r, count, t, op, -1)), "MPI_Allreduce");
}
int MPI_Iallreduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Iallreduce")
  *req = coll_enter(ref, mk(ALLREDUCE, false, s, r, count, t, op, -1));
  return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm comm) {
  SIM_ENTER("MPI_Barrier")
  return wait_req(coll_enter(ref, mk(BARRIER, true, nullptr, nullptr, 0, nullptr, 0, -1)), "MPI_Barrier");
}
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* req) {
  SIM_ENTER("MPI_Ibarrier")
  *req = coll_enter(ref, mk(BARRIER, false, nullptr, nullptr, 0, nullptr, 0, -1));
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* req, MPI_Status*) {
  if (!*req)
    return MPI_SUCCESS;
  int r = wait_req(*req, "MPI_Wait");
  *req = MPI_REQUEST_NULL;
  return r;
}
int MPI_Waitall(int n, MPI_Request* reqs, MPI_Status*) {
  for (int i = 0; i < n; ++i)
    MPI_Wait(&reqs[i], MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* req, int* flag, MPI_Status*) {
  if (!*req) {
    *flag = 1;
    return MPI_SUCCESS;
  }
  if ((*req)->done) {
    wait_req(*req, "MPI_Test");
    *req = MPI_REQUEST_NULL;
    *flag = 1;
  }
  else {
    *flag = 0;
    sim::yield();
  }
  return MPI_SUCCESS;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
  return f == 0 ? MPI_COMM_WORLD : MPI_COMM_NULL;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm) {
  return 0;
}
double MPI_Wtime(void) {
  return 1e-6 * static_cast<double>(sim::now());
}
}
