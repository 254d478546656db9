// C02: operations on the tiles of matrices and of their views
#include "common.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <set>

#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/tile.h>
#include <dlaf/sender/transform.h>

namespace {
using namespace hz;
namespace di = dlaf::internal;
using dlaf::matrix::splitTile;
using dlaf::matrix::splitTileDisjoint;
using dlaf::matrix::SubTileSpec;
using Spec = SubTileSpec;
using Ref = dlaf::matrix::internal::MatrixRef<double, Device::CPU>;
using CRef = dlaf::matrix::internal::MatrixRef<const double, Device::CPU>;
using RO = dlaf::matrix::ReadOnlyTileSender<double, Device::CPU>;
using RW = dlaf::matrix::ReadWriteTileSender<double, Device::CPU>;

constexpr double P = 65521;

struct Rect {
  SizeType i0, j0, m, n;
};
struct Access {
  LocalTileIndex tile;
  bool global;                                    // use the global index
  bool ref;                                       // through a MatrixRef
  dlaf::matrix::internal::SubMatrixSpec refspec{{0, 0}, {0, 0}};  // (global origin and size)
  Rect whole;                                     // elements of the tile
  bool split;
  Spec spec{{0, 0}, {0, 0}};
  Rect rect;                                      // elements used
};
enum Kind { Root, SubPipe, SubConst, Retiled, RetiledConst, RetiledRef };
enum Act { Open, CloseObj, Done, MoveObj, Read, Write, Disjoint, Multi, ReadSplit, DropRO, DropRW, ReadTwice, Share, SyncRead, WaitLocal, Flush };
struct Step {
  Act act;
  int id = 0;
  int obj = 0;
  Access dst{};
  std::vector<Access> src;
  std::vector<Spec> specs;
  std::vector<Rect> rects;
  bool late = false, twostep = false, hi = false;
  int flavour = 0;
  std::vector<double> expect;
};
struct Item {
  int step = -1, child = -1;
};
struct Obj {
  Kind kind = Root;
  int parent = -1;
  LocalTileSize tpb{1, 1};
  std::optional<dlaf::matrix::internal::SubMatrixSpec> refspec;
  std::optional<Dist> dist;
  bool ro = false, alive = true;
  std::vector<Item> items;
  std::size_t pos = 0;  // position in the items of the parent
  std::set<std::pair<SizeType, SizeType>> done;
};

struct World {
  std::vector<Obj> objs;
  std::vector<Step> steps;
  Dense<double> init, model;
  Dense<int> users;
};

double step_value(double x, int id, SizeType i, SizeType j, double in) {
  return std::fmod(3 * x + id + static_cast<double>(i * 7 + j) + in, P);
}
template <class F>
void each(const Rect& r, F f) {
  for (SizeType j = 0; j < r.n; ++j)
    for (SizeType i = 0; i < r.m; ++i)
      f(i, j);
}
double checksum_model(const Dense<double>& m, const Rect& r) {
  double s = 0;
  each(r, [&](SizeType i, SizeType j) { s = std::fmod(s * 5 + m(r.i0 + i, r.j0 + j), P); });
  return s;
}

// ---------------------------------------------------------------- execution
struct Run;
struct InUse {
  World& w;
  Rect r;
  bool write;
  InUse(World& w_, Rect r_, bool wr, int id) : w(w_), r(r_), write(wr) {
    each(r, [&](SizeType i, SizeType j) {
      int& u = w.users(r.i0 + i, r.j0 + j);
      if (write ? u != 0 : u < 0)
        sim::violation("overlapping-access", "operation " + std::to_string(id) + (write ? " writes" : " reads") + " element (" + std::to_string(r.i0 + i) + "," +
                                                 std::to_string(r.j0 + j) + ") while another operation " + (u < 0 ? "writes" : "reads") + " it");
      u = write ? -1 : u + 1;
    });
  }
  ~InUse() {
    each(r, [&](SizeType i, SizeType j) {
      int& u = w.users(r.i0 + i, r.j0 + j);
      u = write ? 0 : u - 1;
    });
  }
};

template <class Tile>
void check_size(const Tile& t, const Rect& r, int id) {
  if (t.size() != TileElementSize(r.m, r.n))
    sim::violation("wrong-tile", "operation " + std::to_string(id) + " got a tile of size (" + std::to_string(t.size().rows()) + "," + std::to_string(t.size().cols()) +
                                     ") instead of (" + std::to_string(r.m) + "," + std::to_string(r.n) + ")");
}
template <class Tile>
double read_tile(World& w, const Tile& t, const Rect& r, int id) {
  check_size(t, r, id);
  InUse u(w, r, false, id);
  double s = 0;
  sim::maybe_yield("reading");
  each(r, [&](SizeType i, SizeType j) {
    const double x = t({i, j});
    s = x >= 0 && x < P ? std::fmod(s * 5 + x, P) : -1e9;
  });
  sim::maybe_yield("reading");
  return s;
}
void expect(double got, double want, int id, const char* what) {
  if (got != want)
    sim::violation("wrong-data", std::string(what) + " " + std::to_string(id) + " did not observe the data of the previous operations");
  sim::count("probe.reads_checked");
}
template <class Tile>
void write_tile(World& w, const Tile& t, const Rect& r, int id, double in) {
  check_size(t, r, id);
  InUse u(w, r, true, id);
  each(r, [&](SizeType i, SizeType j) {
    t({i, j}) = step_value(t({i, j}), id, i, j, in);
    if (j == 0)
      sim::maybe_yield("writing");
  });
  sim::count("probe.writes");
}

using Buf = std::vector<double>;
struct Run {
  World& w;
  std::vector<std::unique_ptr<char[]>> store;
  std::vector<Mat<double>*> rw;
  std::vector<CMat<double>*> ro;
  std::vector<ex::unique_any_sender<>> late;
  std::vector<int> finished;
  explicit Run(World& w_) : w(w_), store(w.objs.size()), rw(w.objs.size(), nullptr), ro(w.objs.size(), nullptr), finished(w.steps.size() + 1, 0) {}

  // the object is created in memory with a pattern: members which are not initialised have invalid values
  template <class M, class F>
  M* create(std::size_t o, F f) {
    store[o].reset(new char[sizeof(M) + 64]);
    std::memset(store[o].get(), 0xA5, sizeof(M) + 64);
    const auto a = reinterpret_cast<std::uintptr_t>(store[o].get());
    return new (reinterpret_cast<void*>((a + 63) / 64 * 64)) M(f());
  }
  CMat<double>& mat(int o) {
    const auto k = static_cast<std::size_t>(o);
    return ro[k] ? *ro[k] : *rw[k];
  }
  void destroy(std::size_t k) {
    if (rw[k])
      rw[k]->~Matrix();
    if (ro[k])
      ro[k]->~Matrix();
    rw[k] = nullptr;
    ro[k] = nullptr;
    if (store[k])
      std::memset(store[k].get(), 0x5A, sizeof(Mat<double>));
  }

  RO read(int o, const Access& a) {
    RO s;
    auto& m = mat(o);
    if (a.ref) {
      CRef r(m, a.refspec);
      s = a.global ? r.read(r.distribution().global_tile_index(a.tile)) : r.read(a.tile);
    }
    else
      s = a.global ? m.read(m.distribution().global_tile_index(a.tile)) : m.read(a.tile);
    return a.split ? splitTile(std::move(s), a.spec) : s;
  }
  RW readwrite(int o, const Access& a) {
    RW s;
    auto& m = *rw[static_cast<std::size_t>(o)];
    if (a.ref) {
      Ref r(m, a.refspec);
      s = a.global ? r.readwrite(r.distribution().global_tile_index(a.tile)) : r.readwrite(a.tile);
    }
    else
      s = a.global ? m.readwrite(m.distribution().global_tile_index(a.tile)) : m.readwrite(a.tile);
    return a.split ? splitTile(std::move(s), a.spec) : std::move(s);
  }
  static di::Policy<Backend::MC> policy(const Step& s) {
    return di::Policy<Backend::MC>(s.hi ? pika::execution::thread_priority::high : pika::execution::thread_priority::normal);
  }
  void launch(const Step& s, ex::unique_any_sender<> snd) {
    if (s.late)
      late.push_back(std::move(snd));
    else
      ex::start_detached(std::move(snd));
  }
  void done(int id) {
    ++finished[static_cast<std::size_t>(id)];
    sim::log_event(300, static_cast<std::uint64_t>(id));
  }
  void flush() {
    while (!late.empty()) {
      const auto i = sim::choose(static_cast<std::uint32_t>(late.size()));
      auto s = std::move(late[i]);
      late.erase(late.begin() + i);
      ex::start_detached(std::move(s));
      sim::maybe_yield("start late");
    }
  }

  void exec(const Step& s) {
    World& W = w;
    const Step* p = &s;
    const int id = s.id;
    const auto k = static_cast<std::size_t>(s.obj);
    switch (s.act) {
      case Open: {
        const Obj& o = w.objs[k];
        const auto pk = static_cast<std::size_t>(o.parent);
        switch (o.kind) {
          case SubPipe:
            rw[k] = create<Mat<double>>(k, [&] { return rw[pk]->sub_pipeline(); });
            break;
          case SubConst:
            ro[k] = create<CMat<double>>(k, [&] { return mat(o.parent).sub_pipeline_const(); });
            break;
          case Retiled:
            rw[k] = create<Mat<double>>(k, [&] { return rw[pk]->retiled_sub_pipeline(o.tpb); });
            break;
          case RetiledConst:
            ro[k] = create<CMat<double>>(k, [&] { return mat(o.parent).retiled_sub_pipeline_const(o.tpb); });
            break;
          default: {
            Ref r(*rw[pk], *o.refspec);
            rw[k] = create<Mat<double>>(k, [&] { return r.retiled_sub_pipeline(o.tpb); });
          }
        }
        using dlaf::matrix::AllocationLayout;
        const auto al = mat(s.obj).allocation_layout();
        {
          const auto pl = layouts[pk];
          const bool tiled = pl == AllocationLayout::Tiles && o.tpb != LocalTileSize(1, 1);
          if (al != (tiled ? AllocationLayout::Blocks : pl))
            sim::violation("wrong-layout", "a view does not report the allocation layout of its matrix");
          layouts[k] = al;
        }
        if (mat(s.obj).distribution() != *o.dist)
          sim::violation("wrong-view", "a view has an unexpected distribution");
        break;
      }
      case CloseObj:
        destroy(k);
        break;
      case Done:
        if (s.flavour)
          mat(s.obj).done(s.dst.tile);
        else
          mat(s.obj).done(mat(s.obj).distribution().global_tile_index(s.dst.tile));
        break;
      case MoveObj:
        if (rw[k]) {
          Mat<double> t(std::move(*rw[k]));
          sim::maybe_yield("moved");
          *rw[k] = std::move(t);
        }
        else {
          CMat<double> t(std::move(*ro[k]));
          sim::maybe_yield("moved");
          *ro[k] = std::move(t);
        }
        break;
      case Read: {
        auto f = [&W, p, this](const auto& t) {
          expect(read_tile(W, t, p->dst.rect, p->id), p->expect[0], p->id, "the read");
          done(p->id);
        };
        launch(s, di::transform(policy(s), f, read(s.obj, s.dst)));
        break;
      }
      case Write: {
        auto f = [&W, p, this](const Mat<double>::TileType& t) {
          write_tile(W, t, p->dst.rect, p->id, 0);
          done(p->id);
        };
        auto g = [f](const Mat<double>::TileType& t) { f(t.subTileReference({{0, 0}, t.size()})); };
        if (s.flavour == 0)
          launch(s, di::transform(policy(s), f, readwrite(s.obj, s.dst)));
        else if (s.flavour == 1)
          launch(s, di::transform(policy(s), g, readwrite(s.obj, s.dst)));
        else {  // the access is kept by a following task
          auto h = [f](Mat<double>::TileType t) {
            f(t);
            return t;
          };
          auto check_again = [&W, p](Mat<double>::TileType t) {
            const double c = read_tile(W, t, p->dst.rect, p->id);
            expect(c, p->expect[0], p->id, "the holder of the write access");
          };
          launch(s, readwrite(s.obj, s.dst) | ex::continues_on(di::getBackendScheduler<Backend::MC>()) | ex::then(h) |
                        ex::continues_on(di::getBackendScheduler<Backend::MC>()) | ex::then(check_again));
        }
        break;
      }
      case Disjoint: {
        auto v = splitTileDisjoint(readwrite(s.obj, s.dst), s.specs);
        check(v.size() == s.specs.size(), "wrong-tile", "splitTileDisjoint: number of subtiles");
        for (std::size_t i = 0; i < v.size(); ++i) {
          auto f = [&W, p, i, this](const Mat<double>::TileType& t) {
            write_tile(W, t, p->rects[i], p->id, 0);
            if (i + 1 == p->specs.size())
              done(p->id);
          };
          if (s.flavour == static_cast<int>(i))
            launch(s, di::transform(policy(s), f, std::move(v[i])));
          else
            ex::start_detached(di::transform(policy(s), f, std::move(v[i])));
        }
        break;
      }
      case Multi: {
        auto one = [&W, p, this](const Mat<double>::TileType& t, const auto& a) {
          const double in = read_tile(W, a, p->src[0].rect, p->id);
          expect(in, p->expect[0], p->id, "the operation");
          write_tile(W, t, p->dst.rect, p->id, in);
          done(p->id);
        };
        auto two = [&W, p, this](const auto& a, const Mat<double>::TileType& t, const auto& b) {
          const double x = read_tile(W, a, p->src[0].rect, p->id), y = read_tile(W, b, p->src[1].rect, p->id);
          expect(x, p->expect[0], p->id, "the operation");
          expect(y, p->expect[1], p->id, "the operation");
          write_tile(W, t, p->dst.rect, p->id, x + y);
          done(p->id);
        };
        if (s.src.size() == 1)
          launch(s, di::transform(policy(s), one, ex::when_all(readwrite(s.obj, s.dst), read(s.obj, s.src[0]))));
        else {
          auto a = read(s.obj, s.src[0]);
          auto t = readwrite(s.obj, s.dst);
          launch(s, di::transform(policy(s), two, ex::when_all(std::move(a), std::move(t), read(s.obj, s.src[1]))));
        }
        break;
      }
      case ReadSplit: {
        auto v = splitTile(read(s.obj, s.dst), s.specs);
        for (std::size_t i = 0; i < v.size(); ++i) {
          auto f = [&W, p, i, this](const auto& t) {
            expect(read_tile(W, t, p->rects[i], p->id), p->expect[i], p->id, "the read of a subtile");
            if (i + 1 == p->specs.size())
              done(p->id);
          };
          if (s.flavour == static_cast<int>(i))
            launch(s, di::transform(policy(s), f, std::move(v[i])));
          else
            ex::start_detached(di::transform(policy(s), f, std::move(v[i])));
        }
        break;
      }
      case DropRO: {
        auto x = read(s.obj, s.dst);
        sim::maybe_yield("unused sender");
        done(id);
        break;
      }
      case DropRW: {
        auto x = readwrite(s.obj, s.dst);
        sim::maybe_yield("unused sender");
        done(id);
        break;
      }
      case ReadTwice: {
        auto x = read(s.obj, s.dst);
        auto y = x;
        auto f = [&W, p](const auto& t) { expect(read_tile(W, t, p->dst.rect, p->id), p->expect[0], p->id, "the read"); };
        auto g = [f, p, this](const auto& t) {
          f(t);
          done(p->id);
        };
        ex::start_detached(di::transform(policy(s), f, std::move(x)));
        launch(s, di::transform(policy(s), g, std::move(y)));
        break;
      }
      case Share: {
        auto x = dlaf::matrix::shareReadWriteTile(readwrite(s.obj, s.dst));
        auto y = x;
        auto f = [&W, p](const auto& t) { expect(read_tile(W, t, p->dst.rect, p->id), p->expect[0], p->id, "the shared read"); };
        auto g = [f, p, this](const auto& t) {
          f(t);
          done(p->id);
        };
        ex::start_detached(di::transform(policy(s), f, std::move(x)));
        launch(s, di::transform(policy(s), g, std::move(y)));
        break;
      }
      case SyncRead: {
        auto t = tt::sync_wait(read(s.obj, s.dst));
        for (int i = 0; i < 2; ++i)
          expect(read_tile(W, t.get(), s.dst.rect, id), s.expect[0], id, "the read");
        done(id);
        break;
      }
      case WaitLocal: {
        if (s.flavour)
          mat(s.obj).wait_local_tiles();
        else
          mat(s.obj).waitLocalTiles();
        for (int q : wait_for[static_cast<std::size_t>(id)])
          check(finished[static_cast<std::size_t>(q)] > 0, "wait-incomplete", "wait_local_tiles returned before operation " + std::to_string(q) + ", which was submitted before");
        done(id);
        break;
      }
      case Flush:
        flush();
        done(id);
        break;
    }
  }
  std::vector<dlaf::matrix::AllocationLayout> layouts;
  std::vector<std::vector<int>> wait_for;
};

// ---------------------------------------------------------------- generation
struct Gen {
  World& w;
  Rng r;
  int nheld = 0;
  std::vector<std::vector<int>> wait_for;

  Rect rect_of(const Dist& d, LocalTileIndex t, GlobalElementIndex origin = {0, 0}) {
    const auto g = d.global_tile_index(t);
    const auto e = d.global_element_index(g, {0, 0});
    const auto s = d.tile_size_of(g);
    return {origin.row() + e.row(), origin.col() + e.col(), s.rows(), s.cols()};
  }
  Spec sub(const Rect& x, Rect& out) {
    const SizeType i = r.i(0, x.m - 1), j = r.i(0, x.n - 1);
    const SizeType m = r.i(1, x.m - i), n = r.i(1, x.n - j);
    out = {x.i0 + i, x.j0 + j, m, n};
    return {{i, j}, {m, n}};
  }
  // (nothing if the object has no tile to access)
  std::optional<Access> access(int o, bool allow_ref = true) {
    Obj& ob = w.objs[static_cast<std::size_t>(o)];
    const Dist& d = *ob.dist;
    Access a{};
    a.global = r.i(0, 1) != 0;
    a.ref = allow_ref && d.single_tile_per_block() && r.i(0, 3) == 0 && !d.size().isEmpty();
    const Dist* use = &d;
    std::optional<Dist> sd;
    GlobalElementIndex origin(0, 0);
    if (a.ref) {
      const SizeType i = r.i(0, d.size().rows() - 1), j = r.i(0, d.size().cols() - 1);
      a.refspec = {{i, j}, {r.i(1, d.size().rows() - i), r.i(1, d.size().cols() - j)}};
      sd.emplace(d, a.refspec);
      use = &*sd;
      origin = {i, j};
    }
    const auto nt = use->local_nr_tiles();
    if (nt.isEmpty())
      return {};
    for (int tries = 0; tries < 6; ++tries) {
      a.tile = {r.i(0, nt.rows() - 1), r.i(0, nt.cols() - 1)};
      const auto e = use->global_element_index(use->global_tile_index(a.tile), {0, 0});
      const GlobalElementIndex ge(origin.row() + e.row(), origin.col() + e.col());
      const auto lt = d.local_tile_index(d.global_tile_index(ge));
      if (ob.done.count({lt.row(), lt.col()}))
        continue;
      if (a.ref) {
        const auto s = use->tile_size_of(use->global_tile_index(a.tile));
        a.whole = {ge.row(), ge.col(), s.rows(), s.cols()};
      }
      else
        a.whole = rect_of(d, a.tile);
      a.rect = a.whole;
      a.split = r.i(0, 2) == 0;
      if (a.split)
        a.spec = sub(a.whole, a.rect);
      return a;
    }
    return {};
  }
  bool same_tile(int o, const Access& a, const Access& b) {
    const Dist& d = *w.objs[static_cast<std::size_t>(o)].dist;
    return d.global_tile_index(GlobalElementIndex(a.whole.i0, a.whole.j0)) == d.global_tile_index(GlobalElementIndex(b.whole.i0, b.whole.j0));
  }
  // whether an operation on the object can be waited for
  bool unblocked(int o) {
    auto closed = [&](int q, std::size_t before) {
      const auto& it = w.objs[static_cast<std::size_t>(q)].items;
      for (std::size_t i = 0; i < before; ++i)
        if (it[i].child >= 0 && tree_alive(it[i].child))
          return false;
      return true;
    };
    if (!closed(o, w.objs[static_cast<std::size_t>(o)].items.size()))
      return false;
    for (int c = o; w.objs[static_cast<std::size_t>(c)].parent >= 0; c = w.objs[static_cast<std::size_t>(c)].parent)
      if (!closed(w.objs[static_cast<std::size_t>(c)].parent, w.objs[static_cast<std::size_t>(c)].pos))
        return false;
    return true;
  }
  bool tree_alive(int o) {
    const Obj& ob = w.objs[static_cast<std::size_t>(o)];
    if (ob.alive)
      return true;
    for (const auto& i : ob.items)
      if (i.child >= 0 && tree_alive(i.child))
        return true;
    return false;
  }
  Step make(Act a, int o) {
    Step s;
    s.act = a;
    s.obj = o;
    s.id = static_cast<int>(w.steps.size());
    s.hi = r.i(0, 3) == 0;
    s.late = r.i(0, 6) == 0;
    s.flavour = static_cast<int>(r.i(0, 2));
    return s;
  }
  void push(Step s, bool item) {
    if (item)
      w.objs[static_cast<std::size_t>(s.obj)].items.push_back({s.id, -1});
    w.steps.push_back(std::move(s));
  }
  void flush() {
    push(make(Flush, 0), false);
    nheld = 0;
  }
  void specs(Step& s, bool disjoint) {
    const Rect& x = s.dst.rect;
    if (!disjoint) {
      const int n = static_cast<int>(r.i(1, 3));
      for (int i = 0; i < n; ++i) {
        Rect q{};
        s.specs.push_back(sub(x, q));
        s.rects.push_back(q);
      }
      return;
    }
    const SizeType a = r.i(0, x.m), b = r.i(0, x.n);
    for (int q = 0; q < 4; ++q) {
      const SizeType i = q & 1 ? a : 0, m = q & 1 ? x.m - a : a;
      const SizeType j = q & 2 ? b : 0, n = q & 2 ? x.n - b : b;
      if (m == 0 || n == 0 || (r.i(0, 3) == 0 && !s.specs.empty()))
        continue;
      s.specs.push_back({{i, j}, {m, n}});
      s.rects.push_back({x.i0 + i, x.j0 + j, m, n});
    }
  }
  void collect(int o, std::vector<int>& v) {
    for (const auto& it : w.objs[static_cast<std::size_t>(o)].items)
      if (it.child >= 0)
        collect(it.child, v);
      else if (w.steps[static_cast<std::size_t>(it.step)].act != Done)
        v.push_back(it.step);
  }
  void op(int o) {
    Obj& ob = w.objs[static_cast<std::size_t>(o)];
    const long x = r.i(0, 99);
    Act a = x < 16 ? Read : x < 38 ? Write : x < 48 ? Disjoint : x < 64 ? Multi : x < 70 ? ReadSplit : x < 74 ? DropRO : x < 77 ? DropRW : x < 83 ? ReadTwice : x < 87 ? Share : x < 93 ? SyncRead : x < 96 ? WaitLocal : Done;
    if (ob.ro && (a == Write || a == Disjoint || a == Multi || a == DropRW || a == Share))
      a = Read;
    if ((a == SyncRead || a == WaitLocal) && !unblocked(o))
      a = Read;
    if (a == WaitLocal && !ob.done.empty())
      a = Read;
    auto acc = access(o, a != Done);
    if (!acc)
      return;
    if (a == SyncRead || a == WaitLocal)
      flush();
    Step s = make(a, o);
    s.dst = *acc;
    switch (a) {
      case Disjoint:
        specs(s, true);
        if (s.specs.empty())
          return;
        break;
      case ReadSplit:
        specs(s, false);
        break;
      case Multi: {
        auto b = access(o);
        if (!b || same_tile(o, *acc, *b))
          return;
        s.src.push_back(*b);
        auto c = access(o);
        if (c && r.i(0, 1) && !same_tile(o, *acc, *c))
          s.src.push_back(*c);
        break;
      }
      case Done:
        if (s.dst.ref)
          return;
        ob.done.insert({s.dst.tile.row(), s.dst.tile.col()});
        break;
      case WaitLocal: {
        std::vector<int> v;
        collect(o, v);
        wait_for.resize(w.steps.size() + 1);
        wait_for[static_cast<std::size_t>(s.id)] = v;
        break;
      }
      default:
        break;
    }
    push(std::move(s), true);
  }
  void open(int par) {
    Obj& ob = w.objs[static_cast<std::size_t>(par)];
    if (!ob.done.empty() || w.objs.size() > 6)
      return;
    Obj n;
    n.parent = par;
    const Dist& d = *ob.dist;
    const bool single = d.single_tile_per_block();
    const long x = r.i(0, 9);
    n.kind = x < 3 ? SubPipe : x < 4 ? SubConst : x < 7 ? Retiled : x < 8 ? RetiledConst : RetiledRef;
    if (!single && n.kind != SubConst)
      n.kind = SubPipe;
    if (ob.ro)
      n.kind = n.kind == SubPipe || n.kind == SubConst ? SubConst : RetiledConst;
    if (n.kind == RetiledRef && d.size().isEmpty())
      n.kind = Retiled;
    n.ro = n.kind == SubConst || n.kind == RetiledConst;
    GlobalElementSize size = d.size();
    if (n.kind == RetiledRef) {
      size = {r.i(1, size.rows()), r.i(1, size.cols())};
      n.refspec.emplace(dlaf::matrix::internal::SubMatrixSpec{{0, 0}, size});
    }
    if (n.kind == Retiled || n.kind == RetiledConst || n.kind == RetiledRef) {
      auto div = [&](SizeType b) {
        std::vector<SizeType> v;
        for (SizeType k = 1; k <= b; ++k)
          if (b % k == 0)
            v.push_back(k);
        return v[static_cast<std::size_t>(r.i(0, static_cast<long>(v.size()) - 1))];
      };
      n.tpb = {div(d.block_size().rows()), div(d.block_size().cols())};
      n.dist.emplace(size, d.block_size(), TileElementSize(d.block_size().rows() / n.tpb.rows(), d.block_size().cols() / n.tpb.cols()), d.grid_size(), d.rank_index(),
                     d.source_rank_index(), d.offset());
    }
    else
      n.dist.emplace(d);
    n.pos = ob.items.size();
    const int id = static_cast<int>(w.objs.size());
    ob.items.push_back({-1, id});
    w.objs.push_back(std::move(n));
    push(make(Open, id), false);
  }
  void close(int o) {
    w.objs[static_cast<std::size_t>(o)].alive = false;
    push(make(CloseObj, o), false);
  }

  // values seen by each operation in the sequential order
  void evaluate(int o) {
    for (const auto& it : w.objs[static_cast<std::size_t>(o)].items) {
      if (it.child >= 0) {
        evaluate(it.child);
        continue;
      }
      Step& s = w.steps[static_cast<std::size_t>(it.step)];
      auto write = [&](const Rect& q, double in) {
        each(q, [&](SizeType i, SizeType j) {
          double& x = w.model(q.i0 + i, q.j0 + j);
          x = step_value(x, s.id, i, j, in);
        });
      };
      switch (s.act) {
        case Read:
        case ReadTwice:
        case Share:
        case SyncRead:
          s.expect = {checksum_model(w.model, s.dst.rect)};
          break;
        case Write:
          write(s.dst.rect, 0);
          s.expect = {checksum_model(w.model, s.dst.rect)};
          break;
        case Disjoint:
          for (const auto& q : s.rects)
            write(q, 0);
          break;
        case Multi: {
          double in = 0;
          for (const auto& a : s.src) {
            s.expect.push_back(checksum_model(w.model, a.rect));
            in += s.expect.back();
          }
          write(s.dst.rect, in);
          break;
        }
        case ReadSplit:
          for (const auto& q : s.rects)
            s.expect.push_back(checksum_model(w.model, q));
          break;
        default:
          break;
      }
    }
  }
};

void scenario(bool destroy_early) {
  Shape sh = draw_local(4);
  draw_tune();
  const SizeType mb = sim::param("mb", 1, 6), nb = sim::param("nb", 1, 6);
  const SizeType m = sim::param("m", 0, 14), n = sim::param("n", 0, 14);
  const int gr = static_cast<int>(sim::param("grid.rows", 1, 2)), gc = static_cast<int>(sim::param("grid.cols", 1, 2));
  const Index2D rk(static_cast<int>(sim::param("rank.row", 0, gr - 1)), static_cast<int>(sim::param("rank.col", 0, gc - 1)));
  const Index2D src(static_cast<int>(sim::param("src.row", 0, gr - 1)), static_cast<int>(sim::param("src.col", 0, gc - 1)));
  const long memory = sim::param_of("memory", {0, 1, 0, 1, 2});  // 0: allocated by the library, 1: given by the user, 2: given, read only
  long al = draw_alloc();
  SizeType om = 0, on = 0;
  if (memory == 0 && sim::param("offset", 0, 3) == 0) {
    om = sim::param("om", 0, 14);
    on = sim::param("on", 0, 14);
    if (om + on > 0 && al <= 1)  // (no offset with column major storage)
      al = 2;
  }
  const int nsteps = static_cast<int>(sim::param("operations", 1, 40));
  const auto seed = static_cast<std::uint64_t>(sim::param("program", 0, 10000000));
  const int stacked = static_cast<int>(sim::param("interleave_views", 0, 1));

  World w;
  const Dist d({m, n}, {mb, nb}, {gr, gc}, rk, src, GlobalElementIndex(om, on));
  w.init = Dense<double>(m, n);
  w.users = Dense<int>(m, n);
  Rng vr(seed + 1);
  for (auto& x : w.init.v)
    x = static_cast<double>(vr.i(0, 65520));
  w.model = w.init;
  {
    Obj root;
    root.dist.emplace(d);
    root.ro = memory == 2;
    w.objs.push_back(std::move(root));
  }
  w.objs.reserve(64);
  w.steps.reserve(512);
  Gen g{w, Rng(seed), 0, {}};
  while (static_cast<int>(w.steps.size()) < nsteps) {
    std::vector<int> live;
    for (std::size_t i = 0; i < w.objs.size(); ++i)
      if (w.objs[i].alive)
        live.push_back(static_cast<int>(i));
    if (live.empty())
      break;
    const int o = stacked ? live[static_cast<std::size_t>(g.r.i(0, static_cast<long>(live.size()) - 1))] : live.back();
    const long x = g.r.i(0, 99);
    const auto before = w.steps.size();
    if (x < 9)
      g.open(o);
    else if (x < 18 && (o != 0 || (destroy_early && x == 10)))
      g.close(o);
    else if (x < 21)
      g.push(g.make(MoveObj, o), false);
    else
      g.op(o);
    if (w.steps.size() == before)
      g.flush();  // (guarantees that the generation ends)
  }
  g.flush();
  for (std::size_t i = w.objs.size(); i-- > 0;)
    if (w.objs[i].alive && (i > 0 || destroy_early))
      g.close(static_cast<int>(i));
  g.evaluate(0);
  g.wait_for.resize(w.steps.size() + 1);

  run_ranks(sh.cfg, [&](int) {
    std::unique_ptr<Buf> buf;
    {
      Run run(w);
      run.wait_for = g.wait_for;
      run.layouts.resize(w.objs.size());
      if (memory > 0) {
        const SizeType ld = std::max<SizeType>(1, d.local_size().rows()) + (al % 2);
        const auto layout = dlaf::matrix::ColMajorLayout(d, ld);
        buf = std::make_unique<Buf>(static_cast<std::size_t>(std::max<SizeType>(1, layout.min_mem_size())), -5.0);
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i) {
            const auto gt = d.global_tile_index(GlobalElementIndex(i, j));
            if (d.rank_global_tile(gt) != rk)
              continue;
            const auto e = d.tile_element_index(GlobalElementIndex(i, j));
            const auto lt = d.local_tile_index(gt);
            (*buf)[static_cast<std::size_t>(lt.row() * mb + e.row() + ld * (lt.col() * nb + e.col()))] = w.init(i, j);
          }
        if (memory == 1)
          run.rw[0] = run.create<Mat<double>>(0, [&] { return Mat<double>(layout, buf->data()); });
        else
          run.ro[0] = run.create<CMat<double>>(0, [&] { return CMat<double>(layout, static_cast<const double*>(buf->data())); });
      }
      else {
        run.rw[0] = run.create<Mat<double>>(0, [&] { return make_mat<double>(d, al); });
        fill(*run.rw[0], w.init, seed % 2 == 0);
      }
      run.layouts[0] = run.mat(0).allocation_layout();
      for (const auto& s : w.steps) {
        run.exec(s);
        sim::maybe_yield("submit");
      }
      sim::drain(0);
      for (const auto& s : w.steps)
        if (s.act >= Read && run.finished[static_cast<std::size_t>(s.id)] == 0)
          sim::violation("lost-operation", "operation " + std::to_string(s.id) + " was never executed");
      if (!destroy_early) {
        auto final_check = [&](auto& a) {
          for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
            if (w.objs[0].done.count({ij.row(), ij.col()}))
              continue;
            auto tw = tt::sync_wait(a.read(ij));
            const Rect q = g.rect_of(d, ij);
            if (read_tile(w, tw.get(), q, -1) != checksum_model(w.model, q))
              sim::violation("wrong-data", "the final data of a tile are wrong");
          }
        };
        final_check(run.mat(0));
        run.destroy(0);
      }
    }
    if (memory > 0) {
      const SizeType ld = std::max<SizeType>(1, d.local_size().rows()) + (al % 2);
      std::vector<char> used(buf->size(), 0);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i) {
          const auto gt = d.global_tile_index(GlobalElementIndex(i, j));
          if (d.rank_global_tile(gt) != rk)
            continue;
          const auto e = d.tile_element_index(GlobalElementIndex(i, j));
          const auto lt = d.local_tile_index(gt);
          const auto k = static_cast<std::size_t>(lt.row() * mb + e.row() + ld * (lt.col() * nb + e.col()));
          used[k] = 1;
          check((*buf)[k] == w.model(i, j), "wrong-data", "the final data in the memory of the user are wrong");
        }
      for (std::size_t k = 0; k < buf->size(); ++k)
        check(used[k] || (*buf)[k] == -5.0, "outside-modified", "memory outside of the matrix was written");
    }
  });
}
}
SIM_SCENARIO("C02", tile_operations, 3) {
  scenario(false);
}
SIM_SCENARIO("C02", tile_operations_destroy, 2) {
  scenario(true);
}
