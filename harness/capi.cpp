// C19: the C interface - handles, lifecycle, results; C34: the ScaLAPACK-like entry points over a simulated BLACS.
//
// Every simulated rank calls its own copy of a shared library built from all of DLA-Future's sources, so that the process-wide
// state of the interface (table of grids, initialisation flags, configuration) exists once per rank as in a real execution.
#include <dlfcn.h>
#include <unistd.h>

#include <cstdlib>
#include <map>
#include <memory>
#include <set>

#include "common.h"
#include "eig_common.h"

#include <dlaf_c/desc.h>
#ifdef DLAF_WITH_HDF5
#include <H5Cpp.h>
#endif

namespace hz {
void check(bool ok, const std::string& kind, const std::string& msg) {
  if (!ok)
    sim::violation(kind, msg);
}
}

namespace {
using namespace hz;
using zc = std::complex<double>;

// ---------------------------------------------------------------- one library per rank
constexpr int kMaxRanks = 6;
void* lib_of(int rank) {
  static void* h[kMaxRanks] = {};
  if (!h[0]) {
    char exe[4096] = {};
    if (readlink("/proc/self/exe", exe, sizeof(exe) - 1) <= 0)
      sim::harness_error("cannot find the executable");
    std::string e(exe);
    const auto p = e.rfind(" (deleted)");
    if (p != std::string::npos)
      e.resize(p);
    for (int i = 0; i < kMaxRanks; ++i) {
      h[i] = dlopen((e + ".rank" + std::to_string(i) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h[i])
        sim::harness_error(std::string("dlopen: ") + dlerror());
    }
  }
  return h[rank];
}
[[maybe_unused]] const void* loaded_before_forking = lib_of(0);

template <class F>
F* fn(int rank, const std::string& name) {
  void* p = dlsym(lib_of(rank), name.c_str());
  if (!p)
    sim::harness_error("no symbol " + name);
  return reinterpret_cast<F*>(p);
}

// ---------------------------------------------------------------- simulated BLACS
struct BlacsCtx {
  int system;
  MPI_Comm comm;
  int pr, pc, r, c;
};
struct Blacs {
  std::map<int, BlacsCtx> ctx;
  std::map<int, MPI_Comm> sys;
  int next = 0;
};
Blacs& blacs(int rank) {
  static Blacs b[kMaxRanks];
  return b[rank];
}
}
extern "C" {
void Cblacs_get(int ctxt, int what, int* val) {
  if (what != 10)
    sim::violation("blacs-usage", "Cblacs_get with what = " + std::to_string(what));
  auto& b = blacs(sim::cur_rank());
  auto it = b.ctx.find(ctxt);
  if (it == b.ctx.end())
    sim::violation("blacs-usage", "Cblacs_get on an unknown context " + std::to_string(ctxt));
  *val = it->second.system;
}
MPI_Comm Cblacs2sys_handle(int sys) {
  auto& b = blacs(sim::cur_rank());
  auto it = b.sys.find(sys);
  if (it == b.sys.end())
    sim::violation("blacs-usage", "Cblacs2sys_handle on an unknown system handle " + std::to_string(sys));
  return it->second;
}
void Cblacs_gridinfo(int ctxt, int* np, int* mp, int* px, int* py) {
  auto& b = blacs(sim::cur_rank());
  auto it = b.ctx.find(ctxt);
  if (it == b.ctx.end())
    sim::violation("blacs-usage", "Cblacs_gridinfo on an unknown context " + std::to_string(ctxt));
  *np = it->second.pr;
  *mp = it->second.pc;
  *px = it->second.r;
  *py = it->second.c;
}
}

namespace {
// ---------------------------------------------------------------- block-cyclic arithmetic of the harness
struct Bc {
  int n, nb, np, p, src;
  int rel() const {
    return (p - src + np) % np;
  }
  int local() const {
    int c = 0;
    for (int g = 0; g < n; ++g)
      c += (g / nb) % np == rel();
    return c;
  }
  int global(int l) const {
    return (l / nb * np + rel()) * nb + l % nb;
  }
};

// ---------------------------------------------------------------- program
enum Routine { Potrf, Potri, Eig, Gen, GenFact };
struct Comm {
  std::vector<int> color, key;
};
struct Grid {
  int comm;
  int pr[2], pc[2];
  char order;
  bool from_blacs;
};
struct Call {
  int grid;
  Routine r;
  char type, uplo;
  int n, nb, isrc, jsrc, pad, k;
  bool partial, p_api, nan;
  std::uint64_t seed;
  double scale = 1;  // of the elements of A
};
enum OpKind { OCreate, OFree, OFreeAll, ORestart, OInitAgain, OCall, OMessage, OFinalizeAgain };
struct Op {
  OpKind k;
  int idx;
};

// double precision copies of input and output of one call of one group
struct CallData {
  bool used = false;
  Dense<zc> a, b, l, a_in, b_in, a_out, b_out, z_out;
  std::vector<std::vector<double>> w;
};

struct Program {
  bool scalapack;
  bool one_group = false;  // all grids have all ranks
  int nranks;
  std::vector<Comm> comms;
  std::vector<Grid> grids;
  std::vector<Call> calls;
  std::vector<Op> ops;
  bool leave_grids;   // grids alive at the end: released by the finalisation
  bool free_blacs_first;
  std::vector<CallData> data;  // [call * 2 + color]

  int group_size(int c, int color) const {
    int s = 0;
    for (int x : comms[static_cast<std::size_t>(c)].color)
      s += x == color;
    return s;
  }
  void add_grid() {
    const std::string nm = "grid" + std::to_string(grids.size());
    Grid g{};
    g.comm = static_cast<int>(sim::param(nm + ".comm", 0, nranks > 1 ? (one_group ? 1 : 2) : 0));
    g.from_blacs = scalapack && sim::param(nm + ".blacs", 0, 3) != 3;
    for (int col = 0; col < 2; ++col) {
      const int s = group_size(g.comm, col);
      if (s == 0)
        continue;
      std::vector<long> divs;
      for (int d = s; d >= 1; --d)
        if (s % d == 0)
          divs.push_back(d);
      g.pr[col] = static_cast<int>(sim::param_of(nm + ".rows" + std::to_string(col), divs));
      g.pc[col] = s / g.pr[col];
    }
    g.order = "CRcr"[sim::param(nm + ".order", 0, 3)];
    ops.push_back({OCreate, static_cast<int>(grids.size())});
    grids.push_back(g);
  }
  void add_call(int grid) {
    const std::string nm = "call" + std::to_string(calls.size());
    const Grid& g = grids[static_cast<std::size_t>(grid)];
    Call c{};
    c.grid = grid;
    c.r = static_cast<Routine>(sim::param(nm + ".routine", 0, 4));
    c.type = "dzsc"[sim::param(nm + ".type", 0, 3)];
    c.uplo = c.r <= Potri ? "LUlu"[sim::param(nm + ".uplo", 0, 3)] : "Ll"[sim::param(nm + ".uplo", 0, 1)];
    c.nb = static_cast<int>(sim::param(nm + ".nb", 2, 5));
    c.n = static_cast<int>(sim::param(nm + ".n", 0, 12));
    int mr = g.pr[0], mc = g.pc[0];
    if (g.pr[1]) {
      mr = std::min(mr, g.pr[1]);
      mc = std::min(mc, g.pc[1]);
    }
    c.isrc = static_cast<int>(sim::param(nm + ".isrc", 0, mr - 1));
    c.jsrc = static_cast<int>(sim::param(nm + ".jsrc", 0, mc - 1));
    c.pad = static_cast<int>(sim::param(nm + ".pad", 0, 3));
    c.partial = c.r >= Eig && sim::param(nm + ".partial", 0, 1);
    c.k = c.partial ? static_cast<int>(sim::param(nm + ".k", 0, 12)) % (c.n + 1) : c.n;
    c.p_api = scalapack && g.from_blacs && sim::param(nm + ".p_api", 0, 3) != 3;
    if (c.p_api && c.partial && c.n > 0)
      c.k = std::max(c.k, 1);
    c.nan = sim::param(nm + ".nan", 0, 1);
    c.seed = static_cast<std::uint64_t>(sim::param(nm + ".data", 0, 1000));
    if (c.r == Eig && !one_group) {
      const double single[] = {1e-20, 1e20, 1e-30, 1e30}, dbl[] = {1e-100, 1e100, 1e-160, 1e160};
      const long k = sim::param(nm + ".scale", 0, 7);
      if (k >= 4)
        c.scale = (c.type == 's' || c.type == 'c' ? single : dbl)[k - 4];
    }
    ops.push_back({OCall, static_cast<int>(calls.size())});
    calls.push_back(c);
  }
  void draw(bool scal, int nr) {
    scalapack = scal;
    nranks = nr;
    for (int k = 0; k < 3; ++k) {
      Comm c;
      for (int r = 0; r < nr; ++r) {
        c.color.push_back(k == 2 ? r % 2 : 0);
        c.key.push_back(k == 1 ? nr - r : r);
      }
      comms.push_back(c);
    }
    std::vector<int> alive;
    int messages = 0;
    auto create = [&] {
      alive.push_back(static_cast<int>(grids.size()));
      add_grid();
    };
    const int nops = static_cast<int>(sim::param("operations", 1, 7));
    leave_grids = sim::param("leave_grids", 0, 1);
    free_blacs_first = sim::param("free_blacs_first", 0, 1);
    for (int q = 0; q < nops; ++q) {
      const std::string nm = "op" + std::to_string(q);
      const long k = sim::param(nm, 0, 11);
      if (k >= 3 && k <= 5 && grids.size() < 5)
        create();
      else if (k >= 6 && k <= 7) {
        if (!alive.empty()) {
          const auto i = static_cast<std::size_t>(sim::param(nm + ".free", 0, 4)) % alive.size();
          ops.push_back({OFree, alive[i]});
          alive.erase(alive.begin() + static_cast<long>(i));
        }
      }
      else if (k == 8) {
        alive.clear();
        ops.push_back({OFreeAll, 0});
      }
      else if (k == 9) {
        alive.clear();
        ops.push_back({ORestart, sim::param(nm + ".twice", 0, 1) != 0});
      }
      else if (k == 10)
        ops.push_back({OInitAgain, 0});
      else if (k == 11 && nr > 1)
        ops.push_back({OMessage, messages++});
      else {
        if (alive.empty())
          create();
        add_call(alive[static_cast<std::size_t>(sim::param(nm + ".grid", 0, 4)) % alive.size()]);
      }
    }
    data.resize(calls.size() * 2);
    for (std::size_t i = 0; i < calls.size(); ++i)
      for (int col = 0; col < 2; ++col)
        prepare(calls[i], col, data[i * 2 + static_cast<std::size_t>(col)]);
  }
  template <class T>
  static Dense<zc> wide(const Dense<T>& a) {
    Dense<zc> r(a.m, a.n);
    for (std::size_t i = 0; i < a.v.size(); ++i)
      r.v[i] = zc(std::real(a.v[i]), std::imag(a.v[i]));
    return r;
  }
  static Part part_of(const Call& c) {
    return c.uplo == 'L' || c.uplo == 'l' ? Part::Lower : Part::Upper;
  }
  template <class T>
  void prepare_t(const Call& c, int col, CallData& d) {
    const std::uint64_t s = c.seed * 2 + static_cast<std::uint64_t>(col);
    const Part p = part_of(c);
    if (c.r == Potrf) {
      const Dense<T> a = random_hpd<T>(c.n, s);
      d.a = wide(a);
      d.a_in = wide(with_opposite(a, p, s, c.nan));
    }
    else if (c.r == Potri) {
      const Dense<T> t = random_tri<T>(c.n, p, false, s);
      d.l = wide(t);
      d.a = p == Part::Lower ? mul(d.l, ctrans(d.l)) : mul(ctrans(d.l), d.l);
      d.a_in = wide(with_opposite(t, p, s, c.nan));
    }
    else {
      Dense<T> a = random_herm<T>(c.n, s);
      for (auto& x : a.v)
        x *= static_cast<dlaf::BaseType<T>>(c.scale);
      d.a = wide(a);
      d.a_in = wide(with_opposite(a, p, s, c.nan));
      if (c.r == Gen) {
        const Dense<T> b = random_hpd<T>(c.n, s + 4);
        d.b = wide(b);
        d.b_in = wide(with_opposite(b, p, s + 2, c.nan));
      }
      else if (c.r == GenFact) {
        const Dense<T> l = random_tri<T>(c.n, Part::Lower, false, s + 6);
        d.l = wide(l);
        d.b = mul(d.l, ctrans(d.l));
        d.b_in = wide(with_opposite(l, p, s + 2, c.nan));
      }
    }
    d.a_out = d.b_out = d.z_out = Dense<zc>(c.n, c.n);
    d.w.resize(static_cast<std::size_t>(nranks));
  }
  void prepare(const Call& c, int col, CallData& d) {
    switch (c.type) {
      case 'd':
        return prepare_t<double>(c, col, d);
      case 's':
        return prepare_t<float>(c, col, d);
      case 'z':
        return prepare_t<zc>(c, col, d);
      default:
        return prepare_t<std::complex<float>>(c, col, d);
    }
  }
};

template <class T>
T conv(zc x) {
  return mk<T>(x.real(), x.imag());
}
constexpr double kGuard = -1234.5;

// Local part of a distributed matrix, as a user keeps it: leading dimension, guards around
template <class T>
struct Local {
  Bc r, c;
  int ld;
  std::vector<T> v, init;
  static constexpr int G = 5;
  Local(Bc r_, Bc c_, int pad, const Dense<zc>* in) : r(r_), c(c_) {
    const int m = r.local(), n = c.local();
    ld = std::max(1, m) + pad;
    v.assign(static_cast<std::size_t>(ld * std::max(n, 1) + 2 * G), conv<T>(zc(kGuard, kGuard)));
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i)
        at(i, j) = in ? conv<T>((*in)(r.global(i), c.global(j))) : conv<T>(zc(77, 77));
    init = v;
  }
  T& at(int i, int j) {
    return v[static_cast<std::size_t>(G + i + j * ld)];
  }
  T* ptr() {
    return v.data() + G;
  }
  void collect(Dense<zc>& out, const char* what) {
    const int m = r.local(), n = c.local();
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) {
        const T x = at(i, j);
        out(r.global(i), c.global(j)) = zc(std::real(x), std::imag(x));
        at(i, j) = init[static_cast<std::size_t>(G + i + j * ld)];
      }
    if (std::memcmp(v.data(), init.data(), v.size() * sizeof(T)) != 0)
      sim::violation("out-of-bounds", std::string(what) + ": memory outside of the local matrix was modified");
  }
};

struct RankRun {
  Program& p;
  int me;
  struct UserComm {
    MPI_Comm comm = MPI_COMM_NULL;
    bool created = false;
  };
  std::vector<UserComm> comms;
  struct LiveGrid {
    int ctx;
    long ncomms;
  };
  std::map<int, LiveGrid> alive;  // grid -> handle
  std::vector<MPI_Request> reqs;
  std::vector<std::unique_ptr<std::vector<double>>> bufs;
  std::vector<std::pair<std::vector<double>*, double>> expected;
  long user_comms = 0;

  RankRun(Program& p_, int me_) : p(p_), me(me_) {}

  [[noreturn]] void fail(const char* kind, const std::string& m) {
    sim::violation(kind, "rank " + std::to_string(me) + ": " + m);
  }
  int color(const Grid& g) const {
    return p.comms[static_cast<std::size_t>(g.comm)].color[static_cast<std::size_t>(me)];
  }
  void quiet(const char* after, bool initialised = true) {
    const std::string s = std::string(" after ") + after;
    if (sim::live_tasks(me) || sim::pending_async(me))
      fail("not-complete", std::to_string(sim::live_tasks(me)) + " tasks and " + std::to_string(sim::pending_async(me)) + " operations are still running" + s);
    if (initialised != (sim::rank_slot(me, 1) != 0))
      fail("lifecycle", std::string("the runtime is ") + (initialised ? "not " : "") + "running" + s);
    if (initialised && !sim::rank_slot(me, 2))
      fail("lifecycle", "the runtime is not suspended" + s);
    if (sim::mem_stats(me).live_blocks)
      fail("memory-leak", std::to_string(sim::mem_stats(me).live_blocks) + " buffers are still allocated" + s);
    const auto& m = sim::mpi_stats(me);
    if (m.types_live)
      fail("datatype-leak", std::to_string(m.types_live) + " datatypes are not freed" + s);
    long want = user_comms;
    for (auto& kv : alive)
      want += kv.second.ncomms;
    if (m.comms_live != want)
      fail("communicator-leak", std::to_string(m.comms_live) + " communicators are alive, " + std::to_string(want) + " expected" + s);
    if (m.finalized)
      fail("lifecycle", "MPI was finalised" + s);
  }
  void initialize() {
    const char* a0 = "program";
    const char* none = nullptr;
    const char* argv[] = {a0, none};
    fn<void(int, const char**, int, const char**)>(me, "dlaf_initialize")(1, argv, 1, argv);
  }
  void create(int gi) {
    const Grid& g = p.grids[static_cast<std::size_t>(gi)];
    const int col = color(g);
    const MPI_Comm comm = comms[static_cast<std::size_t>(g.comm)].comm;
    const long before = sim::mpi_stats(me).comms_live;
    int ctx;
    if (g.from_blacs) {
      // Cblacs_gridinit: ranks of the system context's communicator, by rows or by columns
      auto& b = blacs(me);
      ctx = b.next++;
      const int sys = 100 + g.comm;
      b.sys[sys] = comm;
      int rk;
      MPI_Comm_rank(comm, &rk);
      const bool rm = g.order == 'R' || g.order == 'r';
      const int pr = g.pr[col], pc = g.pc[col];
      b.ctx[ctx] = {sys, comm, pr, pc, rm ? rk / pc : rk % pr, rm ? rk % pc : rk / pr};
      fn<void(int)>(me, "dlaf_create_grid_from_blacs")(ctx);
    }
    else {
      ctx = fn<int(MPI_Comm, int, int, char)>(me, "dlaf_create_grid")(comm, g.pr[col], g.pc[col], g.order);
      for (auto& kv : alive)
        if (kv.second.ctx == ctx)
          fail("handle", "the handle of a new grid is the one of a live grid (" + std::to_string(ctx) + ")");
      for (auto& kv : blacs(me).ctx)
        if (kv.first == ctx)
          fail("handle", "the handle of a new grid is a BLACS context");
    }
    alive[gi] = {ctx, sim::mpi_stats(me).comms_live - before};
    if (alive[gi].ncomms <= 0)
      fail("handle", "no communicator was created for a new grid");
    if (g.pr[col] > 0) {
      // the exported query agrees with the layout the grid was made with
      int rk;
      MPI_Comm_rank(comm, &rk);
      const int pr = g.pr[col], pc = g.pc[col];
      const bool rm = g.order == 'R' || g.order == 'r';
      const char o = fn<char(MPI_Comm, int, int, int, int)>(me, "grid_ordering")(comm, pr, pc, rm ? rk / pc : rk % pr, rm ? rk % pc : rk / pr);
      const char want = pr == 1 || pc == 1 || !rm ? 'C' : 'R';
      if (o != want)
        fail("wrong-result", std::string("grid_ordering returns ") + o + " for a grid ordered " + want);
    }
  }
  void destroy(int gi) {
    const Grid& g = p.grids[static_cast<std::size_t>(gi)];
    const int ctx = alive.at(gi).ctx;
    alive.erase(gi);
    if (g.from_blacs && p.free_blacs_first)
      blacs(me).ctx.erase(ctx);
    fn<void(int)>(me, "dlaf_free_grid")(ctx);
    blacs(me).ctx.erase(ctx);
  }
  void forget_all() {
    for (auto& kv : alive)
      blacs(me).ctx.erase(kv.second.ctx);
    alive.clear();
  }
  template <class T>
  void call(const Call& c, CallData& d) {
    using R = dlaf::BaseType<T>;
    const Grid& g = p.grids[static_cast<std::size_t>(c.grid)];
    const int col = color(g), pr = g.pr[col], pc = g.pc[col];
    int rk;
    MPI_Comm_rank(comms[static_cast<std::size_t>(g.comm)].comm, &rk);
    const bool rm = g.order == 'R' || g.order == 'r';
    const int myr = rm ? rk / pc : rk % pr, myc = rm ? rk % pc : rk / pr;
    const Bc br{c.n, c.nb, pr, myr, c.isrc}, bc{c.n, c.nb, pc, myc, c.jsrc};
    Local<T> a(br, bc, c.pad, &d.a_in);
    Local<T> b(br, bc, c.pad ? c.pad - 1 : 2, c.r >= Gen ? &d.b_in : nullptr);
    Local<T> z(br, bc, c.pad ? 0 : 1, nullptr);
    constexpr int G = 4;
    std::vector<R> w(static_cast<std::size_t>(c.n + 2 * G), static_cast<R>(kGuard));
    const int ctx = alive.at(c.grid).ctx;
    auto desc = [&](Local<T>& m) { return DLAF_descriptor{c.n, c.n, c.nb, c.nb, c.isrc, c.jsrc, 0, 0, m.ld}; };
    const std::string t(1, c.type);
    const bool cplx = c.type == 'z' || c.type == 'c';
    int info = -1;
    std::string name;
    using D = DLAF_descriptor;
    using S = SizeType;
    if (!c.p_api) {
      if (c.r == Potrf || c.r == Potri) {
        name = (c.r == Potrf ? "dlaf_cholesky_factorization_" : "dlaf_inverse_from_cholesky_factor_") + t;
        info = fn<int(int, char, T*, D)>(me, name)(ctx, c.uplo, a.ptr(), desc(a));
      }
      else {
        name = std::string("dlaf_") + (cplx ? "hermitian" : "symmetric") + (c.r == Eig ? "" : "_generalized") + "_eigensolver" +
               (c.partial ? "_partial_spectrum" : "") + (c.r == GenFact ? "_factorized" : "") + "_" + t;
        if (c.r == Eig) {
          if (c.partial)
            info = fn<int(int, char, T*, D, R*, T*, D, S, S)>(me, name)(ctx, c.uplo, a.ptr(), desc(a), w.data() + G, z.ptr(), desc(z), 0, c.k);
          else
            info = fn<int(int, char, T*, D, R*, T*, D)>(me, name)(ctx, c.uplo, a.ptr(), desc(a), w.data() + G, z.ptr(), desc(z));
        }
        else if (c.partial)
          info = fn<int(int, char, T*, D, T*, D, R*, T*, D, S, S)>(me, name)(ctx, c.uplo, a.ptr(), desc(a), b.ptr(), desc(b), w.data() + G, z.ptr(),
                                                                             desc(z), 0, c.k);
        else
          info = fn<int(int, char, T*, D, T*, D, R*, T*, D)>(me, name)(ctx, c.uplo, a.ptr(), desc(a), b.ptr(), desc(b), w.data() + G, z.ptr(), desc(z));
      }
    }
    else {
      auto sdesc = [&](Local<T>& m, int* o) {
        const int v[9] = {1, ctx, c.n, c.n, c.nb, c.nb, c.isrc, c.jsrc, m.ld};
        std::copy(v, v + 9, o);
      };
      int da[9], db[9], dz[9];
      sdesc(a, da);
      sdesc(b, db);
      sdesc(z, dz);
      const int* A = da;
      const int* B = db;
      const int* Z = dz;
      const S first = 1, last = c.k;
      if (c.r == Potrf || c.r == Potri) {
        name = "dlaf_p" + t + (c.r == Potrf ? "potrf" : "potri");
        fn<void(char, int, T*, int, int, const int*, int*)>(me, name)(c.uplo, c.n, a.ptr(), 1, 1, A, &info);
      }
      else {
        name = "dlaf_p" + t + (cplx ? "he" : "sy") + (c.r == Eig ? "evd" : "gvd") + (c.partial ? "_partial_spectrum" : "") +
               (c.r == GenFact ? "_factorized" : "");
        if (c.r == Eig) {
          if (c.partial)
            fn<void(char, int, T*, int, int, const int*, R*, T*, int, int, const int*, S, S, int*)>(me, name)(
                c.uplo, c.n, a.ptr(), 1, 1, A, w.data() + G, z.ptr(), 1, 1, Z, first, last, &info);
          else
            fn<void(char, int, T*, int, int, const int*, R*, T*, int, int, const int*, int*)>(me, name)(
                c.uplo, c.n, a.ptr(), 1, 1, A, w.data() + G, z.ptr(), 1, 1, Z, &info);
        }
        else if (c.partial)
          fn<void(char, int, T*, int, int, const int*, T*, int, int, const int*, R*, T*, int, int, const int*, S, S, int*)>(me, name)(
              c.uplo, c.n, a.ptr(), 1, 1, A, b.ptr(), 1, 1, B, w.data() + G, z.ptr(), 1, 1, Z, first, last, &info);
        else
          fn<void(char, int, T*, int, int, const int*, T*, int, int, const int*, R*, T*, int, int, const int*, int*)>(me, name)(
              c.uplo, c.n, a.ptr(), 1, 1, A, b.ptr(), 1, 1, B, w.data() + G, z.ptr(), 1, 1, Z, &info);
      }
    }
    // results are taken right after the return: they have to be complete by then
    if (info != 0)
      fail("wrong-result", name + ": status " + std::to_string(info));
    d.used = true;
    a.collect(d.a_out, (name + " (A)").c_str());
    b.collect(d.b_out, (name + " (B)").c_str());
    z.collect(d.z_out, (name + " (Z)").c_str());
    for (int i = 0; i < G; ++i)
      if (w[static_cast<std::size_t>(i)] != static_cast<R>(kGuard) || w[w.size() - 1 - static_cast<std::size_t>(i)] != static_cast<R>(kGuard))
        fail("out-of-bounds", name + ": memory outside of the eigenvalues was modified");
    for (int i = 0; i < c.n; ++i)
      d.w[static_cast<std::size_t>(me)].push_back(static_cast<double>(w[static_cast<std::size_t>(G + i)]));
    quiet(name.c_str());
  }
  // messages of the application on its own communicators, in flight while the library works
  void message(int idx) {
    const auto& uc = comms[static_cast<std::size_t>(idx % 2)];
    int n, r;
    MPI_Comm_size(uc.comm, &n);
    MPI_Comm_rank(uc.comm, &r);
    const int to = (r + 1) % n, from = (r + n - 1) % n, tag = idx;
    bufs.push_back(std::make_unique<std::vector<double>>(3, 1000.0 * idx + r));
    auto* s = bufs.back().get();
    bufs.push_back(std::make_unique<std::vector<double>>(3, 0.0));
    auto* d = bufs.back().get();
    MPI_Request q;
    MPI_Irecv(d->data(), 3, MPI_DOUBLE, from, tag, uc.comm, &q);
    reqs.push_back(q);
    MPI_Isend(s->data(), 3, MPI_DOUBLE, to, tag, uc.comm, &q);
    reqs.push_back(q);
    expected.push_back({d, 1000.0 * idx + from});
    sim::count("user_messages");
  }
  void run() {
    // communicators of the application
    comms.resize(3);
    comms[0].comm = MPI_COMM_WORLD;
    for (std::size_t k = 1; k < 3; ++k) {
      const long before = sim::mpi_stats(me).comms_live;
      MPI_Comm_split(MPI_COMM_WORLD, p.comms[k].color[static_cast<std::size_t>(me)], p.comms[k].key[static_cast<std::size_t>(me)], &comms[k].comm);
      comms[k].created = true;
      user_comms += sim::mpi_stats(me).comms_live - before;
    }
    initialize();
    quiet("dlaf_initialize");
    for (const Op& o : p.ops) {
      switch (o.k) {
        case OCreate:
          create(o.idx);
          quiet("the creation of a grid");
          break;
        case OFree:
          destroy(o.idx);
          quiet("dlaf_free_grid");
          break;
        case OFreeAll:
          forget_all();
          fn<void()>(me, "dlaf_free_all_grids")();
          quiet("dlaf_free_all_grids");
          break;
        case ORestart:
          forget_all();
          fn<void()>(me, "dlaf_finalize")();
          quiet("dlaf_finalize", false);
          if (o.idx)
            fn<void()>(me, "dlaf_finalize")();
          quiet("dlaf_finalize", false);
          initialize();
          quiet("dlaf_initialize after dlaf_finalize");
          break;
        case OInitAgain:
          initialize();
          quiet("a second dlaf_initialize");
          break;
        case OMessage:
          message(o.idx);
          break;
        case OFinalizeAgain:
          break;
        case OCall: {
          const Call& c = p.calls[static_cast<std::size_t>(o.idx)];
          CallData& d = p.data[static_cast<std::size_t>(o.idx * 2 + color(p.grids[static_cast<std::size_t>(c.grid)]))];
          switch (c.type) {
            case 'd':
              call<double>(c, d);
              break;
            case 's':
              call<float>(c, d);
              break;
            case 'z':
              call<zc>(c, d);
              break;
            default:
              call<std::complex<float>>(c, d);
          }
          break;
        }
      }
    }
    if (!p.leave_grids) {
      while (!alive.empty())
        destroy(alive.begin()->first);
      quiet("dlaf_free_grid of all grids");
    }
    forget_all();
    fn<void()>(me, "dlaf_finalize")();
    quiet("dlaf_finalize", false);
    if (!reqs.empty())
      MPI_Waitall(static_cast<int>(reqs.size()), reqs.data(), MPI_STATUSES_IGNORE);
    for (auto& e : expected)
      for (double x : *e.first)
        if (x != e.second)
          fail("message", "a message of the application has the wrong content");
    for (std::size_t k = 1; k < 3; ++k)
      MPI_Comm_free(&comms[k].comm);
  }
};

void verify(const Call& c, const CallData& d) {
  const double eps = c.type == 's' || c.type == 'c' ? 1.2e-7 : 2.3e-16;
  const double nn = static_cast<double>(c.n + 4);
  const Part p = Program::part_of(c);
  check_opposite(d.a_out, d.a_in, p, "C API (A)");
  if (c.r == Potrf) {
    const Dense<zc> f = triangle(d.a_out, p);
    check_close(p == Part::Lower ? mul(f, ctrans(f)) : mul(ctrans(f), f), d.a, 100 * eps * nn * nn, "wrong-result", "Cholesky factorisation");
    return;
  }
  if (c.r == Potri) {
    check_close(mul(d.a, hermitian_of(d.a_out, p)), eye<zc>(c.n), 1000 * eps * nn, "wrong-result", "inverse from Cholesky factor");
    return;
  }
  std::vector<double> w;
  for (auto& x : d.w)
    if (!x.empty()) {
      if (!w.empty() && w != x)
        sim::violation("wrong-result", "eigenvalues of different ranks differ");
      w = x;
    }
  check_ascending(w, 0, "eigensolver");
  const double tol = 1000 * eps * nn;
  Dense<zc> xk(c.n, c.k);
  for (SizeType j = 0; j < c.k; ++j)
    for (SizeType i = 0; i < c.n; ++i)
      xk(i, j) = d.z_out(i, j);
  std::vector<double> wk(w.begin(), w.begin() + c.k);
  check_eig<zc>(d.a, c.r == Eig ? nullptr : &d.b, wk, xk, tol, "eigensolver");
  if (c.r == Eig)
    check_trace(d.a, w, tol * 10, "eigensolver");
  else {
    check_opposite(d.b_out, d.b_in, p, "C API (B)");
    const Dense<zc> f = triangle(d.b_out, p);
    check_close(mul(f, ctrans(f)), d.b, tol * 100, "wrong-result", "generalised eigensolver: factor of B");
  }
}

void set_env(const char* name, const std::string& v) {
  setenv((std::string("DLAF_") + name).c_str(), v.c_str(), 1);
}

#ifdef DLAF_WITH_HDF5
// C37: the debug dumps of the routines
enum Dump { DChol, DG2S, DGen, DEig, DR2B, DB2T, DInv, DTInv, DTrid, NDump };
const char* const DUMP_ENV[] = {"CHOLESKY_FACTORIZATION", "GENERALIZED_TO_STANDARD", "GENERALIZED_EIGENSOLVER", "EIGENSOLVER", "REDUCTION_TO_BAND",
                                "BAND_TO_TRIDIAGONAL", "INVERSE_FROM_CHOLESKY_FACTOR", "TRIANGULAR_INVERSE", "TRIDIAG_SOLVER"};
const char* const DUMP_SETS[] = {"/cholesky /input", "/cholesky /input-a /std", "", "/evals /evecs /input", "/band /input", "/input /tridiagonal",
                                 "/input /inverse_from_cholesky_factor", "/input /triangular_inverse", "/evals /evecs /input"};
using Sets = std::map<std::string, Dense<zc>>;
Dense<zc> dense(const std::string& where, const sim::Hdf5Set& s) {
  if (s.dims.size() != 3 || s.dims[2] < 1 || s.dims[2] > 2 || !s.is_float)
    sim::violation("wrong-dump", where + ": not a matrix");
  const auto k = s.dims[2];
  Dense<zc> d(static_cast<SizeType>(s.dims[1]), static_cast<SizeType>(s.dims[0]));
  for (std::size_t i = 0; i < d.v.size(); ++i) {
    double x[2] = {0, 0};
    for (std::size_t q = 0; q < k; ++q) {
      const char* at = s.data.data() + (i * k + q) * s.element;
      if (s.element == 4) {
        float f;
        std::memcpy(&f, at, 4);
        x[q] = f;
      }
      else
        std::memcpy(&x[q], at, 8);
    }
    d.v[i] = zc(x[0], x[1]);
  }
  return d;
}
void same(const std::string& what, const Dense<zc>& a, const Dense<zc>& b, SizeType cols, bool lower_only = false) {
  if (a.m != b.m || a.n != b.n)
    sim::violation("wrong-dump", what + " has size " + std::to_string(a.m) + "x" + std::to_string(a.n));
  auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  for (SizeType j = 0; j < cols; ++j)
    for (SizeType i = lower_only ? j : 0; i < a.m; ++i)
      if (!eq(a(i, j).real(), b(i, j).real()) || !eq(a(i, j).imag(), b(i, j).imag()))
        sim::violation("wrong-dump", what + ": element (" + std::to_string(i) + ", " + std::to_string(j) + ") is " + std::to_string(a(i, j).real()) +
                                         " instead of " + std::to_string(b(i, j).real()));
}
void verify_dumps(const Program& p, long flags, int min_band) {
  std::vector<std::vector<std::pair<std::string, Sets>>> got(NDump);
  for (auto& f : sim::hdf5_files()) {
    std::string names;
    Sets sets;
    bool empty = false;
    for (auto& [n, s] : f.sets) {
      names += (names.empty() ? "" : " ") + n;
      sets[n] = dense(f.name + n, s);
      empty = empty || sets[n].m == 0 || sets[n].n == 0;
    }
    if (empty)
      continue;
    int kind = -1;
    if (names.find("/input-b") != std::string::npos)
      kind = DGen;
    for (int k = 0; k < NDump && kind < 0; ++k)
      if (names == DUMP_SETS[k])
        kind = k;
    if (kind == DEig && sets["/input"].m != sets["/input"].n)
      kind = DTrid;
    if (kind == DEig && sets["/input"].m <= 2)  // one of two kinds
      kind = f.name.find("tridiag") != std::string::npos ? DTrid : DEig;
    if (kind < 0)
      sim::violation("wrong-dump", f.name + " has datasets " + names);
    got[static_cast<std::size_t>(kind)].push_back({f.name, sets});
    sim::count("dumps");
  }
  std::vector<std::size_t> used(NDump, 0);
  for (auto& o : p.ops) {
    if (o.k != OCall)
      continue;
    const Call& c = p.calls[static_cast<std::size_t>(o.idx)];
    const CallData& d = p.data[static_cast<std::size_t>(o.idx) * 2];
    if (c.n == 0)
      continue;
    const Grid& g = p.grids[static_cast<std::size_t>(c.grid)];
    const double nn = static_cast<double>(c.n + 4), tol = 1000 * (c.type == 's' || c.type == 'c' ? 1.2e-7 : 2.3e-16) * nn;
    auto dump = [&](Dump k) -> const Sets* {
      if (!(flags >> k & 1))
        return nullptr;
      if (used[k] == got[k].size())
        sim::violation("missing-dump", std::string("no file with the data of call ") + std::to_string(o.idx) + " (" + DUMP_ENV[k] + ")");
      return &got[k][used[k]++].second;
    };
    const Part part = Program::part_of(c);
    const std::string nm = "dump of call " + std::to_string(o.idx) + ": ";
    if (c.r == Potrf && part == Part::Lower)  // the other variant has no dump
      if (auto* s = dump(DChol)) {
        same(nm + "input of the factorization", s->at("/input"), d.a_in, c.n);
        same(nm + "factor", s->at("/cholesky"), d.a_out, c.n);
      }
    if (c.r == Potri) {
      Dense<zc> inv;
      if (auto* s = dump(DTInv)) {
        same(nm + "input of the triangular inverse", s->at("/input"), d.a_in, c.n);
        inv = triangle(s->at("/triangular_inverse"), part);
        check_close(mul(inv, d.l), eye<zc>(c.n), tol, "wrong-dump", "dumped triangular inverse");
      }
      if (auto* s = dump(DInv)) {
        if (inv.m)
          same(nm + "input of the assembly of the inverse", triangle(s->at("/input"), part), inv, c.n);
        same(nm + "inverse", s->at("/inverse_from_cholesky_factor"), d.a_out, c.n);
      }
    }
    if (c.r < Eig)
      continue;
    std::vector<double> w;
    for (auto& x : d.w)
      if (!x.empty())
        w = x;
    const std::vector<double> wk(w.begin(), w.begin() + c.k);
    auto values = [&](const std::string& what, const Dense<zc>& e) {
      Dense<zc> x(c.n, 1);
      for (SizeType i = 0; i < c.n; ++i)
        x(i, 0) = w[static_cast<std::size_t>(i)];
      same(what, e, x, 1);
    };
    auto first_k = [&](const Dense<zc>& e) {
      Dense<zc> x(c.n, c.k);
      std::copy(e.v.begin(), e.v.begin() + static_cast<long>(x.v.size()), x.v.begin());
      return x;
    };
    Dense<zc> std_a = d.a;  // standard problem
    if (c.r >= Gen) {
      if (auto* s = dump(DGen)) {
        same(nm + "input A of the generalized eigensolver", s->at("/input-a"), d.a_in, c.n);
        const auto b = s->find(c.r == Gen ? "/input-b" : "/input-b-factorized");
        if (b == s->end())
          sim::violation("wrong-dump", nm + "no input B of the generalized eigensolver");
        same(nm + "input B of the generalized eigensolver", b->second, d.b_in, c.n);
        values(nm + "eigenvalues of the generalized eigensolver", s->at("/evals"));
        same(nm + "eigenvectors of the generalized eigensolver", s->at("/evecs"), d.z_out, c.k);
      }
      if (c.r == Gen)
        if (auto* s = dump(DChol)) {
          same(nm + "input of the factorization", s->at("/input"), d.b_in, c.n);
          same(nm + "factor", s->at("/cholesky"), d.b_out, c.n);
        }
      std_a = Dense<zc>();
      if (auto* s = dump(DG2S)) {
        same(nm + "input of the transformation to a standard problem", s->at("/input-a"), d.a_in, c.n);
        same(nm + "factor of the transformation", s->at("/cholesky"), d.b_out, c.n);
        std_a = hermitian_of(s->at("/std"), part);
        const Dense<zc> l = triangle(d.b_out, part);
        check_close(mul(mul(l, std_a), ctrans(l)), d.a, 100 * tol, "wrong-dump", "dumped standard problem");
      }
    }
    auto standard = [&](const char* what, const Dense<zc>& x) {
      if (c.r == Eig)
        same(nm + what, x, d.a_in, c.n);
      else if (std_a.m)
        same(nm + what, x, std_a, c.n, true);
      else
        std_a = hermitian_of(x, part);
    };
    if (auto* s = dump(DEig)) {
      standard("input of the eigensolver", s->at("/input"));
      values(nm + "eigenvalues", s->at("/evals"));
      if (c.r == Eig)
        same(nm + "eigenvectors", s->at("/evecs"), d.z_out, c.k);
      else
        check_eig<zc>(std_a, nullptr, wk, first_k(s->at("/evecs")), 10 * tol, "dump of the eigensolver");
    }
    SizeType band = std::min(min_band, c.nb);
    while (c.nb % band != 0)
      ++band;
    auto sums = [&](const Dense<zc>& x, SizeType b, double& trace, double& frob) {
      trace = frob = 0;
      for (SizeType j = 0; j < c.n; ++j)
        for (SizeType i = j; i < std::min<SizeType>(c.n, j + b + 1); ++i) {
          trace += i == j ? x(i, j).real() : 0;
          frob += (i == j ? 1 : 2) * std::norm(x(i, j));
        }
    };
    double wt = 0, wf = 0;
    for (double x : w) {
      wt += x;
      wf += x * x;
    }
    auto spectrum = [&](const char* what, const Dense<zc>& x, SizeType b) {
      double t, f;
      sums(x, b, t, f);
      if (!(std::abs(t - wt) <= 10 * tol * (1 + std::sqrt(wf))) || !(std::abs(f - wf) <= 10 * tol * (1 + wf)))
        sim::violation("wrong-dump", nm + what + " is not similar to the matrix of the problem");
    };
    if (auto* s = dump(DR2B)) {
      standard("input of the reduction to band", s->at("/input"));
      spectrum("band matrix", s->at("/band"), band);
    }
    Dense<zc> tri;
    if (g.pr[0] * g.pc[0] > 1)  // on a single rank the algorithm for local matrices is used, which has no dump
      if (auto* s = dump(DB2T)) {
        spectrum("input of the reduction to tridiagonal", s->at("/input"), band);
        tri = s->at("/tridiagonal");
      }
    if (auto* s = dump(DTrid)) {
      const Dense<zc>& in = s->at("/input");
      if (tri.m)
        for (SizeType i = 0; i < c.n; ++i)
          for (SizeType j = 0; j < (i + 1 < c.n ? 2 : 1); ++j)
            if (in(i, j) != tri(i, j))
              sim::violation("wrong-dump", nm + "input of the tridiagonal solver");
      Dense<zc> t(c.n, c.n);
      for (SizeType i = 0; i < c.n; ++i) {
        t(i, i) = in(i, 0);
        if (i + 1 < c.n)
          t(i + 1, i) = t(i, i + 1) = in(i, 1);
      }
      values(nm + "eigenvalues of the tridiagonal solver", s->at("/evals"));
      check_eig<zc>(t, nullptr, wk, first_k(s->at("/evecs")), 10 * tol, "dump of the tridiagonal solver");
    }
  }
  for (std::size_t k = 0; k < NDump; ++k)
    if (used[k] != got[k].size())
      sim::violation("wrong-dump", std::string("more files than calls (") + DUMP_ENV[k] + "): " + got[k].back().first);
}
#endif

void history(bool scalapack, bool dumps = false) {
  sim::draw_faults();
  sim::Config cfg;
  cfg.nranks = static_cast<int>(sim::param("ranks", 1, kMaxRanks));
  cfg.mpi_pool = sim::param("mpi_pool", 0, 1) != 0;
  cfg.workers = static_cast<int>(sim::param("workers", cfg.mpi_pool ? 1 : 2, 4));
  auto num = [&](const char* nm, const char* pn, long lo, long hi) { set_env(nm, std::to_string(sim::param(pn, lo, hi))); };
  const char* layouts[] = {"ColMajor", "Blocks", "Tiles"};
  set_env("DEFAULT_ALLOCATION_LAYOUT", layouts[sim::param("tune.layout", 0, 2)]);
  num("TFACTOR_NUM_THREADS", "tune.tfactor_threads", 1, 4);
  num("RED2BAND_PANEL_NUM_THREADS", "tune.red2band_threads", 1, 4);
  num("TRIDIAG_RANK1_NUM_THREADS", "tune.rank1_threads", 1, 4);
  [[maybe_unused]] const int min_band = static_cast<int>(sim::param("tune.min_band", 2, 4));
  set_env("EIGENSOLVER_MIN_BAND", std::to_string(min_band));
  num("BT_BAND_TO_TRIDIAG_HH_APPLY_GROUP_SIZE", "tune.hh_group", 1, 5);
  num("COMMUNICATOR_GRID_NUM_PIPELINES", "pipelines", 2, 3);
  set_env("BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE", std::to_string(sim::param_of("tune.1d_block", {8192, 5, 8, 16})));
  for (const char* n : {"TFACTOR", "RED2BAND", "TRIDIAG_RANK1"})
    set_env((std::string(n) + "_BARRIER_BUSY_WAIT_US").c_str(), sim::param("tune.busy_wait", 0, 1) ? "1000" : "0");
  Program p;
  p.one_group = dumps;
  p.draw(scalapack, cfg.nranks);
#ifdef DLAF_WITH_HDF5
  long flags = 0;
  for (int k = 0; k < NDump; ++k) {
    const bool on = sim::param(std::string("dump.") + DUMP_ENV[k], 0, 1) != 0;
    flags |= on ? 1l << k : 0;
    set_env((std::string("DEBUG_DUMP_") + DUMP_ENV[k] + "_DATA").c_str(), on ? "1" : "0");
  }
#endif
  sim::mpi_auto_init(true);
  sim::run(cfg, [&](int r) {
    RankRun rr(p, r);
    rr.run();
  });
  sim::mpi_check_quiescent(true);
  for (std::size_t i = 0; i < p.calls.size(); ++i)
    for (std::size_t col = 0; col < 2; ++col)
      if (p.data[i * 2 + col].used)
        verify(p.calls[i], p.data[i * 2 + col]);
#ifdef DLAF_WITH_HDF5
  sim::hdf5_check_quiescent();
  verify_dumps(p, flags, min_band);
#endif
}
}

#ifdef DLAF_WITH_HDF5
SIM_SCENARIO("C37", dumps, 1) {
  history(true, true);
}
#else
SIM_SCENARIO("C19", c_interface_history, 1) {
  history(false);
}
SIM_SCENARIO("C34", scalapack_interface_history, 1) {
  history(true);
}
#endif
