// C23: blocking communication primitives
#include "common.h"

#include <memory>

#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/functions_sync.h>
#include <dlaf/communication/message.h>
#include <dlaf/matrix/tile.h>

namespace {
using namespace hz;
namespace cs = dlaf::comm::sync;
namespace dc = dlaf::common;

template <class T>
constexpr bool is_complex = std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>;

// Sums and products of these are exact in any order
template <class T>
T small(Rng& r) {
  if constexpr (std::is_same_v<T, bool>)
    return r.i(0, 1) != 0;
  else if constexpr (std::is_integral_v<T>)
    return static_cast<T>(r.i(-3, 3));
  else {
    const double v[] = {1, -1, 2, -2, 3};
    return mk<T>(v[r.i(0, 4)], static_cast<double>(r.i(-2, 2)));
  }
}
// Everything the type can hold, for operations which only compare or move values
template <class T>
T wide(Rng& r) {
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
    return static_cast<T>(r.u());
  else
    return small<T>(r);
}

// A strided buffer with guard elements in the gaps and around
template <class T>
struct Buf {
  SizeType nb, bs, stride;
  static constexpr SizeType pad = 3;
  std::unique_ptr<T[]> v;
  std::size_t len;
  bool tile;
  T guard(std::size_t i) const {
    return static_cast<T>(static_cast<float>(100 + i % 7));
  }
  Buf(SizeType count, Rng& r) {
    std::vector<SizeType> f{};
    for (SizeType k = 1; k <= count; ++k)
      if (count % k == 0)
        f.push_back(k);
    nb = count == 0 ? 1 : f[static_cast<std::size_t>(r.i(0, static_cast<long>(f.size()) - 1))];
    bs = count / nb;
    stride = bs + (r.i(0, 2) == 0 || count == 0 ? 0 : r.i(1, 3));
    tile = r.i(0, 2) == 0;
    len = static_cast<std::size_t>(2 * pad + nb * stride);
    v = std::make_unique<T[]>(len);
    for (std::size_t i = 0; i < len; ++i)
      v[i] = guard(i);
  }
  T* ptr() {
    return v.get() + pad;
  }
  std::size_t at(SizeType k) const {
    return static_cast<std::size_t>(pad + k / bs * stride + k % bs);
  }
  void set(const std::vector<T>& d) {
    for (std::size_t k = 0; k < d.size(); ++k)
      v[at(static_cast<SizeType>(k))] = d[k];
  }
  void check_is(const std::vector<T>& d, const char* what) const {
    std::vector<char> used(len, 0);
    for (std::size_t k = 0; k < d.size(); ++k) {
      const auto i = at(static_cast<SizeType>(k));
      used[i] = 1;
      if (v[i] != d[k])
        sim::violation("wrong-data", std::string(what) + ": element " + std::to_string(k) + " is wrong");
    }
    for (std::size_t i = 0; i < len; ++i)
      check(used[i] || v[i] == guard(i), "outside-modified", std::string(what) + ": memory outside of the data was written");
  }
  dc::DataDescriptor<T> data() {
    return dc::DataDescriptor<T>(ptr(), nb, bs, stride);
  }
  dc::DataDescriptor<const T> cdata() {
    return dc::DataDescriptor<const T>(ptr(), nb, bs, stride);
  }
};

struct Step {
  int kind;   // 0 bcast 1 reduce 2 reduce in place 3 allreduce 4 allreduce in place 5 p2p 6 bcast of a tile
  int comm;   // 0 world-like, 1 row, 2 col
  int root, peer, type, op;
  SizeType count;
  std::uint64_t seed;
};

template <class T>
void do_step(const Step& s, dlaf::comm::Communicator& comm, int me, int myworld) {
  const int p = comm.size();
  const int root = s.root % p;
  constexpr bool cplx = is_complex<T>;
  // the operations which MPI defines for the type
  const int opi = std::is_same_v<T, bool> ? 4 + s.op % 2 : s.op % (cplx ? 2 : 4);
  const bool reduces = s.kind >= 1 && s.kind <= 4;
  if (std::is_same_v<T, char> && reduces)
    return;
  const bool exact = reduces && opi < 2;
  std::vector<std::vector<T>> in(static_cast<std::size_t>(p));
  for (int q = 0; q < p; ++q) {
    Rng r(s.seed * 31 + static_cast<unsigned>(q));
    for (SizeType k = 0; k < s.count; ++k)
      in[static_cast<std::size_t>(q)].push_back(exact ? small<T>(r) : wide<T>(r));
  }
  const MPI_Op ops[] = {MPI_SUM, MPI_PROD, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR};
  const MPI_Op op = ops[opi];
  std::vector<T> red = in[0];
  for (int q = 1; q < p; ++q)
    for (std::size_t k = 0; k < red.size(); ++k) {
      const T x = in[static_cast<std::size_t>(q)][k];
      if (opi == 0)
        red[k] = static_cast<T>(red[k] + x);
      else if (opi == 1)
        red[k] = static_cast<T>(red[k] * x);
      else if constexpr (std::is_same_v<T, bool>)
        red[k] = opi == 4 ? red[k] && x : red[k] || x;
      else if constexpr (!cplx)
        red[k] = opi == 2 ? std::max<T>(red[k], x) : std::min<T>(red[k], x);
    }
  const auto& mine = in[static_cast<std::size_t>(me)];
  Rng lr(s.seed * 77 + static_cast<unsigned>(myworld) + 5);  // every rank has its own layout
  Buf<T> a(s.count, lr), b(s.count, lr);
  a.set(mine);
  const bool tiles = s.kind == 6 && s.count > 0;  // an empty tile has no data pointer
  using TileT = dlaf::matrix::Tile<T, Device::CPU>;
  using CTileT = dlaf::matrix::Tile<const T, Device::CPU>;
  auto tile = [](Buf<T>& x) {
    dlaf::memory::MemoryView<T, Device::CPU> mv(x.ptr(), x.nb * x.stride);
    return TileT(TileElementSize(x.bs, x.nb), std::move(mv), std::max<SizeType>(1, x.stride));
  };
  switch (s.kind) {
    case 0:
    case 6:
      if (me == root) {
        if (tiles) {
          CTileT t(tile(a));
          cs::broadcast::send(comm, t);
        }
        else if (lr.i(0, 1))
          cs::broadcast::send(comm, a.data());
        else
          cs::broadcast::send(comm, a.cdata());
      }
      else if (tiles)
        cs::broadcast::receive_from(root, comm, tile(a));
      else
        cs::broadcast::receive_from(root, comm, a.data());
      a.check_is(in[static_cast<std::size_t>(root)], "broadcast");
      break;
    case 1: {
      if (me == root) {
        b.set(std::vector<T>(mine.size(), static_cast<T>(77.f)));
        cs::reduce(root, comm, op, a.cdata(), b.data());
        b.check_is(red, "reduce: result");
      }
      else
        cs::reduce(root, comm, op, a.data(), b.data());
      a.check_is(mine, "reduce: source");
      break;
    }
    case 2:
      cs::reduceInPlace(root, comm, op, a.data());
      a.check_is(me == root ? red : mine, "reduce in place");
      break;
    case 3:
      b.set(std::vector<T>(mine.size(), static_cast<T>(77.f)));
      cs::allReduce(comm, op, a.cdata(), b.data());
      b.check_is(red, "all reduce: result");
      a.check_is(mine, "all reduce: source");
      break;
    case 4:
      cs::allReduceInPlace(comm, op, a.data());
      a.check_is(red, "all reduce in place");
      break;
    default: {
      const int peer = s.peer % p;
      if (peer == root)
        break;
      if (me == root) {
        if (lr.i(0, 1) || s.count == 0)
          cs::send_to(peer, comm, a.cdata());
        else
          cs::send_to(peer, comm, tile(a));
        a.check_is(mine, "send: source");
      }
      else if (me == peer) {
        if (lr.i(0, 1) || s.count == 0)
          cs::receive_from(root, comm, a.data());
        else
          cs::receive_from(root, comm, tile(a));
        a.check_is(in[static_cast<std::size_t>(root)], "receive");
      }
      break;
    }
  }
}

void program() {
  const Shape sh = draw_shape(3, 3, 6, 2);
  const int n = static_cast<int>(sim::param("steps", 1, 12));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  Rng r(seed);
  std::vector<Step> st;
  for (int i = 0; i < n; ++i)
    st.push_back({static_cast<int>(r.i(0, 6)), static_cast<int>(r.i(0, 2)), static_cast<int>(r.i(0, 5)), static_cast<int>(r.i(0, 5)),
                  static_cast<int>(r.i(0, 14)), static_cast<int>(r.i(0, 3)), r.i(0, 12), r.u() >> 20});
  run_ranks(sh.cfg, [&](int w) {
    auto grid = make_grid(sh);
    for (const Step& s : st) {
      auto& comm = s.comm == 0 ? grid.fullCommunicator() : s.comm == 1 ? grid.rowCommunicator() : grid.colCommunicator();
      const int me = comm.rank();
      switch (s.type) {
        case 0:
          do_step<float>(s, comm, me, w);
          break;
        case 1:
          do_step<double>(s, comm, me, w);
          break;
        case 2:
          do_step<std::complex<float>>(s, comm, me, w);
          break;
        case 3:
          do_step<zc>(s, comm, me, w);
          break;
        case 4:
          do_step<int>(s, comm, me, w);
          break;
        case 5:
          do_step<long>(s, comm, me, w);
          break;
        case 6:
          do_step<bool>(s, comm, me, w);
          break;
        case 7:
          do_step<char>(s, comm, me, w);
          break;
        case 8:
          do_step<short>(s, comm, me, w);
          break;
        case 9:
          do_step<unsigned short>(s, comm, me, w);
          break;
        case 10:
          do_step<unsigned>(s, comm, me, w);
          break;
        case 11:
          do_step<unsigned long>(s, comm, me, w);
          break;
        case 12:
          do_step<long long>(s, comm, me, w);
          break;
        case 13:
          do_step<unsigned long long>(s, comm, me, w);
          break;
        default:
          do_step<unsigned char>(s, comm, me, w);
      }
    }
  });
}

// Messages are values which can be stored, moved and assigned without losing or leaking their datatype
void messages() {
  const Shape sh = draw_shape(1, 3, 3, 2);
  const int n = static_cast<int>(sim::param("messages", 1, 4));
  const int moves = static_cast<int>(sim::param("moves", 0, 5));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  run_ranks(sh.cfg, [&](int w) {
    auto grid = make_grid(sh);
    auto& comm = grid.fullCommunicator();
    using Msg = dlaf::comm::Message<dc::DataDescriptor<double>>;
    Rng r(seed);                                     // the same operations on all ranks
    Rng lr(seed * 3 + static_cast<unsigned>(w) + 1);  // with different layouts
    std::vector<std::unique_ptr<Buf<double>>> bufs;
    std::vector<Msg> msgs;
    std::vector<int> which;
    const SizeType count = r.i(1, 8);
    for (int i = 0; i < n; ++i) {
      bufs.push_back(std::make_unique<Buf<double>>(count, lr));
      bufs.back()->set(std::vector<double>(static_cast<std::size_t>(count), w == 0 ? 10. + i : -1.));
      msgs.emplace_back(bufs.back()->data());
      which.push_back(i);
    }
    for (int k = 0; k < moves; ++k) {
      const auto a = static_cast<std::size_t>(r.i(0, n - 1)), b = static_cast<std::size_t>(r.i(0, n - 1));
      if (a != b) {
        Msg tmp(std::move(msgs[a]));
        msgs[a] = std::move(msgs[b]);
        msgs[b] = std::move(tmp);
        std::swap(which[a], which[b]);
      }
      else {  // replaced by a new message for the same data
        msgs[a] = Msg(bufs[static_cast<std::size_t>(which[a])]->data());
        sim::count("probe.message_replaced");
      }
    }
    for (int i = 0; i < n; ++i) {
      auto& m = msgs[static_cast<std::size_t>(i)];
      DLAF_MPI_CHECK_ERROR(MPI_Bcast(m.data(), m.count(), m.mpi_type(), 0, comm));
      auto& b = *bufs[static_cast<std::size_t>(which[static_cast<std::size_t>(i)])];
      b.check_is(std::vector<double>(static_cast<std::size_t>(count), 10. + which[static_cast<std::size_t>(i)]), "message");
    }
  });
}
}
SIM_SCENARIO("C23", sync_program, 4) {
  program();
}
SIM_SCENARIO("C23", message_values, 1) {
  messages();
}
