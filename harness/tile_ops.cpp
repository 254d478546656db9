// C27: operations on tiles
#include "common.h"

#include <array>
#include <memory>
#include <optional>

#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
#include <dlaf/matrix/copy_tile.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/when_all_lift.h>

namespace {
using namespace hz;
namespace di = dlaf::internal;
namespace tile = dlaf::tile;
using blas::Diag;
using blas::Op;
using blas::Side;
using blas::Uplo;
using dlaf::matrix::splitTile;
using dlaf::matrix::SubTileSpec;

enum Kind { Gemm, Hemm, Her2k, Herk, Trmm, Trmm3, Trsm, Add, Scal, ScaleCol, Laset, Set0, Lacpy, LacpyRegion, CopyTile, Lauum, LauumWs, Potrf, PotrfInfo, PotrfBad, Trtri, TrtriWs, TrtriInfo, TrtriBad, Hegst, Stedc, Lange, Lantr, KINDS };
const char* const NAMES[] = {"gemm", "hemm", "her2k", "herk", "trmm", "trmm3", "trsm", "add", "scal", "scaleCol", "laset", "set0", "lacpy", "lacpy of a region", "copy", "lauum", "lauum_workspace", "potrf", "potrfInfo", "potrfInfo (not positive definite)", "trtri", "trtri_workspace", "trtri_info", "trtri_info (singular)", "hegst", "stedc", "lange", "lantr"};

constexpr SizeType S = 9;   // order of the tiles
constexpr int NSLOTS = 6;

template <class T>
T real_of(T x) {
  return mk<T>(std::real(x), 0);
}
template <class T>
Dense<T> opm(Op op, const Dense<T>& a) {
  return op == Op::NoTrans ? a : op == Op::Trans ? trans(a) : ctrans(a);
}
inline bool in_tri(Uplo u, SizeType i, SizeType j) {
  return u == Uplo::General || i == j || (i > j) == (u == Uplo::Lower);
}
template <class T>
Dense<T> tri(Dense<T> a, Uplo u, Diag d = Diag::NonUnit) {
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i) {
      if (!in_tri(u, i, j))
        a(i, j) = T(0);
      if (i == j && d == Diag::Unit)
        a(i, j) = T(1);
    }
  return a;
}
template <class T>
Dense<T> herm(const Dense<T>& a, Uplo u) {
  Dense<T> r(a.m, a.n);
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i)
      r(i, j) = i == j ? real_of(a(i, j)) : in_tri(u, i, j) ? a(i, j) : cj(a(j, i));
  return r;
}
template <class T>
Dense<T> scaled(Dense<T> a, T x) {
  for (auto& v : a.v)
    v *= x;
  return a;
}
template <class T>
Dense<T> plus(Dense<T> a, const Dense<T>& b) {
  for (std::size_t i = 0; i < a.v.size(); ++i)
    a.v[i] += b.v[i];
  return a;
}
template <class T>
Dense<T> inv_tri(const Dense<T>& a, bool lower) {  // a is triangular (other triangle zero)
  const SizeType n = a.n;
  Dense<T> x = eye<T>(n);
  for (SizeType c = 0; c < n; ++c)
    for (SizeType k = 0; k < n; ++k) {
      const SizeType i = lower ? k : n - 1 - k;
      T s = x(i, c);
      for (SizeType j = lower ? 0 : i + 1; j < (lower ? i : n); ++j)
        s -= a(i, j) * x(j, c);
      x(i, c) = s / a(i, i);
    }
  return x;
}
template <class T>
Dense<T> chol(const Dense<T>& a) {  // lower factor
  const SizeType n = a.n;
  Dense<T> l(n, n);
  for (SizeType j = 0; j < n; ++j) {
    double d = std::real(a(j, j));
    for (SizeType k = 0; k < j; ++k)
      d -= std::norm(l(j, k));
    l(j, j) = mk<T>(std::sqrt(d), 0);
    for (SizeType i = j + 1; i < n; ++i) {
      T s = a(i, j);
      for (SizeType k = 0; k < j; ++k)
        s -= l(i, k) * cj(l(j, k));
      l(i, j) = s / l(j, j);
    }
  }
  return l;
}

// Part of a slot
struct Sub {
  int slot = 0;
  SizeType i = 0, j = 0, m = 0, n = 0;
  bool whole() const {
    return i == 0 && j == 0 && m == S && n == S;
  }
};

template <class T>
struct World {
  using R = dlaf::BaseType<T>;
  using RW = dlaf::matrix::ReadWriteTileSender<T, Device::CPU>;
  using RO = dlaf::matrix::ReadOnlyTileSender<T, Device::CPU>;
  std::vector<std::unique_ptr<Mat<T>>> mats;
  std::vector<int> mat_of;
  std::vector<LocalTileIndex> tile_of;
  std::vector<Dense<T>> model;
  std::vector<std::string> history;
  Rng rng{0};

  RW rw(const Sub& s) {
    auto t = mats[static_cast<std::size_t>(mat_of[static_cast<std::size_t>(s.slot)])]->readwrite(tile_of[static_cast<std::size_t>(s.slot)]);
    if (s.whole())
      return t;
    return splitTile(std::move(t), SubTileSpec{{s.i, s.j}, {s.m, s.n}});
  }
  RO ro(const Sub& s) {
    auto t = mats[static_cast<std::size_t>(mat_of[static_cast<std::size_t>(s.slot)])]->read(tile_of[static_cast<std::size_t>(s.slot)]);
    if (s.whole())
      return t;
    return splitTile(std::move(t), SubTileSpec{{s.i, s.j}, {s.m, s.n}});
  }
  Dense<T> get(const Sub& s) const {
    Dense<T> d(s.m, s.n);
    for (SizeType j = 0; j < s.n; ++j)
      for (SizeType i = 0; i < s.m; ++i)
        d(i, j) = model[static_cast<std::size_t>(s.slot)](s.i + i, s.j + j);
    return d;
  }
  void put(const Sub& s, const Dense<T>& d, Uplo u = Uplo::General) {
    for (SizeType j = 0; j < s.n; ++j)
      for (SizeType i = 0; i < s.m; ++i)
        if (in_tri(u, i, j))
          model[static_cast<std::size_t>(s.slot)](s.i + i, s.j + j) = d(i, j);
  }
  // writes new values
  void set(const Sub& s, const Dense<T>& d) {
    put(s, d);
    auto p = std::make_shared<Dense<T>>(d);
    di::transformDetach(di::Policy<Backend::MC>(),
                        [p](const typename Mat<T>::TileType& t) {
                          for (SizeType j = 0; j < p->n; ++j)
                            for (SizeType i = 0; i < p->m; ++i)
                              t({i, j}) = (*p)(i, j);
                        },
                        rw(s));
  }
  Dense<T> fresh(SizeType m, SizeType n) {
    return random_dense<T>(m, n, rng.u());
  }
  Sub draw(SizeType m, SizeType n, std::initializer_list<int> avoid) {
    Sub s;
    do
      s.slot = static_cast<int>(rng.i(0, NSLOTS - 1));
    while (std::find(avoid.begin(), avoid.end(), s.slot) != avoid.end());
    s.m = m;
    s.n = n;
    s.i = rng.i(0, S - m);
    s.j = rng.i(0, S - n);
    return s;
  }
  // a full operand: bounded, no NaN
  void general(const Sub& s) {
    const double x = maxdiff(get(s), Dense<T>(s.m, s.n));
    if (!(x < 8) || rng.i(0, 3) == 0)
      set(s, fresh(s.m, s.n));
  }
  T nan() {
    return mk<T>(std::nan(""), std::nan(""));
  }
  // a matrix given by one triangle: the other one must not be used (nor its diagonal if it is implicit)
  void triangle_only(const Sub& s, Dense<T> d, Uplo u, Diag diag = Diag::NonUnit) {
    for (SizeType j = 0; j < s.n; ++j)
      for (SizeType i = 0; i < s.m; ++i)
        if (!in_tri(u, i, j) || (i == j && diag == Diag::Unit))
          d(i, j) = nan();
    set(s, d);
  }
  void triangular(const Sub& s, Uplo u, Diag diag) {
    triangle_only(s, random_tri<T>(s.n, u == Uplo::Lower ? Part::Lower : Part::Upper, false, rng.u()), u, diag);
  }
  void hermitian(const Sub& s, Uplo u) {
    triangle_only(s, random_herm<T>(s.n, rng.u()), u);
  }
  T scalar() {
    const long k = rng.i(0, 4);
    return k == 0 ? T(0) : k == 1 ? T(1) : k == 2 ? T(-1) : scaled(fresh(1, 1), T(0.5)).v[0];
  }
  Op op(bool two = false) {
    const long k = rng.i(0, 2);
    if (two)  // of herk, her2k
      return k == 0 ? Op::NoTrans : k == 1 && std::is_same_v<T, R> ? Op::Trans : Op::ConjTrans;
    return k == 0 ? Op::NoTrans : k == 1 ? Op::Trans : Op::ConjTrans;
  }
  di::Policy<Backend::MC> policy() {
    using pika::execution::thread_priority;
    using pika::execution::thread_stacksize;
    return di::Policy<Backend::MC>(rng.i(0, 1) ? thread_priority::high : thread_priority::normal,
                                   rng.i(0, 1) ? thread_stacksize::nostack : thread_stacksize::default_);
  }
  void compare(const char* when) {
    for (int k = 0; k < NSLOTS; ++k) {
      Sub s{k, 0, 0, S, S};
      auto tw = tt::sync_wait(ro(s));
      const auto& t = tw.get();
      const auto& d = model[static_cast<std::size_t>(k)];
      for (SizeType j = 0; j < S; ++j)
        for (SizeType i = 0; i < S; ++i) {
          const T x = t({i, j}), w = d(i, j);
          const bool xn = std::isnan(std::abs(x)), wn = std::isnan(std::abs(w));
          if (xn && wn)
            continue;
          if (!(std::abs(x - w) <= 1e-9 * (1 + std::abs(w))))
            sim::violation("wrong-result", std::string(when) + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") of tile " + std::to_string(k) + " is " + std::to_string(std::real(x)) + " instead of " +
                                               std::to_string(std::real(w)) + "; operations: " + tail());
        }
    }
  }
  std::string tail() const {
    std::string r;
    for (std::size_t i = history.size() > 6 ? history.size() - 6 : 0; i < history.size(); ++i)
      r += (r.empty() ? "" : ", ") + history[i];
    return r;
  }
  double norm_of(lapack::Norm nrm, const Dense<T>& a) const {
    double r = 0;
    if (nrm == lapack::Norm::Max)
      return maxdiff(a, Dense<T>(a.m, a.n));
    if (nrm == lapack::Norm::Fro) {
      for (auto& x : a.v)
        r += std::norm(x);
      return std::sqrt(r);
    }
    if (nrm == lapack::Norm::One) {
      for (SizeType j = 0; j < a.n; ++j) {
        double s = 0;
        for (SizeType i = 0; i < a.m; ++i)
          s += std::abs(a(i, j));
        r = std::max(r, s);
      }
      return r;
    }
    return norm_of(lapack::Norm::One, trans(a));
  }
  template <class F>
  struct Pending {
    ex::unique_any_sender<F> s;
    F want;
    const char* what;
  };
  std::vector<Pending<R>> norms;
  std::vector<Pending<long long>> infos;

  void step(Kind k, SizeType m, SizeType n, SizeType kk) {
    const auto p = policy();
    const bool low = rng.i(0, 1), left = rng.i(0, 1), unit = rng.i(0, 1), bar = rng.i(0, 1);
    const Uplo u = low ? Uplo::Lower : Uplo::Upper;
    const Side side = left ? Side::Left : Side::Right;
    const Diag diag = unit ? Diag::Unit : Diag::NonUnit;
    const T alpha = scalar(), beta = scalar();
#define SUBMIT(f, ...)                                        \
  do {                                                        \
    if (bar)                                                  \
      ex::start_detached(di::whenAllLift(__VA_ARGS__) | tile::f(p)); \
    else                                                      \
      ex::start_detached(tile::f(p, di::whenAllLift(__VA_ARGS__)));  \
  } while (0)
    switch (k) {
      case Gemm: {
        const Op oa = op(), ob = op();
        const Sub c = draw(m, n, {});
        const Sub a = oa == Op::NoTrans ? draw(m, kk, {c.slot}) : draw(kk, m, {c.slot});
        Sub b = ob == Op::NoTrans ? draw(kk, n, {c.slot, a.slot}) : draw(n, kk, {c.slot, a.slot});
        general(a), general(b), general(c);
        if (a.m == b.m && a.n == b.n && rng.i(0, 1))
          b = a;  // the same tile twice
        put(c, plus(scaled(mul(opm(oa, get(a)), opm(ob, get(b))), alpha), scaled(get(c), beta)));
        SUBMIT(gemm, oa, ob, alpha, ro(a), ro(b), beta, rw(c));
        break;
      }
      case Hemm: {
        const Sub c = draw(m, n, {}), a = draw(left ? m : n, left ? m : n, {c.slot}), b = draw(m, n, {c.slot, a.slot});
        general(b), general(c), hermitian(a, u);
        const auto h = herm(get(a), u);
        put(c, plus(scaled(left ? mul(h, get(b)) : mul(get(b), h), alpha), scaled(get(c), beta)));
        SUBMIT(hemm, side, u, alpha, ro(a), ro(b), beta, rw(c));
        break;
      }
      case Herk:
      case Her2k: {
        const Op o = op(true);
        const R al = std::real(alpha), be = std::real(beta);
        const Sub c = draw(n, n, {}), a = o == Op::NoTrans ? draw(n, kk, {c.slot}) : draw(kk, n, {c.slot});
        const Sub b = o == Op::NoTrans ? draw(n, kk, {c.slot, a.slot}) : draw(kk, n, {c.slot, a.slot});
        general(a), general(b), hermitian(c, u);
        const auto ad = opm(o, get(a)), bd = opm(o, get(b));
        Dense<T> r = scaled(herm(get(c), u), T(be));
        if (k == Herk) {
          r = plus(r, scaled(mul(ad, ctrans(ad)), T(al)));
          put(c, r, u);
          SUBMIT(herk, u, o, al, ro(a), be, rw(c));
        }
        else {
          // op(a) op(b)^H for no transposition, a^H b otherwise
          r = plus(r, plus(scaled(mul(ad, ctrans(bd)), alpha), scaled(mul(bd, ctrans(ad)), cj(alpha))));
          put(c, r, u);
          SUBMIT(her2k, u, o, alpha, ro(a), ro(b), be, rw(c));
        }
        break;
      }
      case Trmm:
      case Trmm3:
      case Trsm: {
        const Op o = op();
        const Sub b = draw(m, n, {}), a = draw(left ? m : n, left ? m : n, {b.slot}), c = draw(m, n, {a.slot, b.slot});
        general(b), general(c), triangular(a, u, diag);
        const auto t = tri(get(a), u, diag);
        auto f = opm(o, t);
        if (k == Trsm)
          f = inv_tri(f, low == (o == Op::NoTrans));
        const auto r = scaled(left ? mul(f, get(b)) : mul(get(b), f), alpha);
        put(k == Trmm3 ? c : b, r);
        if (k == Trmm)
          SUBMIT(trmm, side, u, o, diag, alpha, ro(a), rw(b));
        else if (k == Trsm)
          SUBMIT(trsm, side, u, o, diag, alpha, ro(a), rw(b));
        else
          SUBMIT(trmm3, side, u, o, diag, alpha, ro(a), ro(b), rw(c));
        break;
      }
      case Add: {
        const Sub a = draw(m, n, {}), b = draw(m, n, {a.slot});
        general(a), general(b);
        put(a, plus(get(a), scaled(get(b), alpha)));
        SUBMIT(add, alpha, ro(b), rw(a));
        break;
      }
      case Scal: {
        const Sub a = draw(m, n, {});
        general(a);
        put(a, scaled(get(a), beta));
        SUBMIT(scal, beta, rw(a));
        break;
      }
      case ScaleCol: {
        if (m == 0 || n == 0)  // there is no such column
          return;
        const Sub a = draw(m, n, {});
        general(a);
        const SizeType col = rng.i(0, n - 1);
        auto d = get(a);
        for (SizeType i = 0; i < m; ++i)
          d(i, col) *= alpha;
        put(a, d);
        SUBMIT(scaleCol, alpha, col, rw(a));
        break;
      }
      case Laset:
      case Set0: {
        const Sub a = draw(m, n, {});
        const Uplo g = rng.i(0, 1) ? u : Uplo::General;
        auto d = get(a);
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i)
            if (k == Set0)
              d(i, j) = T(0);
            else if (i == j)
              d(i, j) = beta;
            else if (in_tri(g, i, j))
              d(i, j) = alpha;
        put(a, d);
        if (k == Set0)
          SUBMIT(set0, rw(a));
        else
          SUBMIT(laset, g, alpha, beta, rw(a));
        break;
      }
      case Lacpy:
      case CopyTile: {
        const Sub a = draw(m, n, {}), b = draw(m, n, {a.slot});
        put(b, get(a));
        if (k == CopyTile) {
          auto s = ex::when_all(ro(a), rw(b));
          if (bar)
            ex::start_detached(std::move(s) | dlaf::matrix::copy(p));
          else
            ex::start_detached(dlaf::matrix::copy(p, std::move(s)));
        }
        else
          di::transformDetach(p, [](const auto& in, const auto& out) { tile::lacpy<T>(in, out); }, di::whenAllLift(ro(a), rw(b)));
        break;
      }
      case LacpyRegion: {
        const Sub a = draw(rng.i(m, S), rng.i(n, S), {}), b = draw(rng.i(m, S), rng.i(n, S), {a.slot});
        const TileElementIndex ia{rng.i(0, a.m - m), rng.i(0, a.n - n)}, ib{rng.i(0, b.m - m), rng.i(0, b.n - n)};
        if (ia.row() >= a.m || ia.col() >= a.n || ib.row() >= b.m || ib.col() >= b.n)
          return;  // such an index is not an element
        auto d = get(b);
        const auto s = get(a);
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i)
            d(ib.row() + i, ib.col() + j) = s(ia.row() + i, ia.col() + j);
        put(b, d);
        di::transformDetach(p, [=](const auto& in, const auto& out) { tile::lacpy<T>(TileElementSize{m, n}, ia, in, ib, out); }, di::whenAllLift(ro(a), rw(b)));
        break;
      }
      case Lauum:
      case LauumWs: {
        const Sub a = draw(n, n, {}), w = draw(rng.i(n, S), rng.i(n, S), {a.slot});
        triangular(a, u, Diag::NonUnit);
        const auto t = tri(get(a), u);
        put(a, low ? mul(ctrans(t), t) : mul(t, ctrans(t)), u);
        if (k == Lauum)
          SUBMIT(lauum, u, rw(a));
        else {
          SUBMIT(lauum_workspace, u, rw(a), rw(w));
          set(w, fresh(w.m, w.n));
        }
        break;
      }
      case Potrf:
      case PotrfInfo:
      case PotrfBad: {
        const Sub a = draw(n, n, {});
        auto d = random_hpd<T>(n, rng.u());
        const bool bad = k == PotrfBad && n > 0;
        const SizeType at = bad ? rng.i(0, n - 1) : -1;
        if (bad)
          d(at, at) = mk<T>(-1.0, 0);
        triangle_only(a, d, u);
        if (!bad) {
          const auto l = chol(herm(get(a), u));
          put(a, low ? l : ctrans(l), u);
        }
        if (k == Potrf)
          SUBMIT(potrf, u, rw(a));
        else {
          auto s = ex::ensure_started(di::whenAllLift(u, rw(a)) | tile::potrfInfo(p));
          infos.push_back({std::move(s), at + 1, NAMES[k]});
          if (bad)
            set(a, fresh(n, n));
        }
        break;
      }
      case Trtri:
      case TrtriWs:
      case TrtriInfo:
      case TrtriBad: {
        const Sub a = draw(n, n, {}), w = draw(rng.i(n, S), rng.i(n, S), {a.slot});
        const bool bad = k == TrtriBad && n > 0;
        const Diag dg = bad ? Diag::NonUnit : diag;
        auto d = random_tri<T>(n, low ? Part::Lower : Part::Upper, false, rng.u());
        const SizeType at = bad ? rng.i(0, n - 1) : -1;
        if (bad)
          d(at, at) = T(0);
        triangle_only(a, d, u, dg);
        if (!bad) {
          auto old = get(a);
          auto x = inv_tri(tri(old, u, dg), low);
          if (dg == Diag::Unit)
            for (SizeType i = 0; i < n; ++i)
              x(i, i) = old(i, i);
          put(a, x, u);
        }
        if (k == Trtri)
          SUBMIT(trtri, u, dg, rw(a));
        else if (k == TrtriWs) {
          SUBMIT(trtri_workspace, u, dg, rw(a), rw(w));
          set(w, fresh(w.m, w.n));
        }
        else {
          auto s = ex::ensure_started(di::whenAllLift(u, dg, rw(a)) | tile::trtri_info(p));
          infos.push_back({std::move(s), at + 1, NAMES[k]});
          if (bad)
            set(a, fresh(n, n));
        }
        break;
      }
      case Hegst: {
        const int itype = static_cast<int>(rng.i(1, 3));
        const Sub a = draw(n, n, {}), b = draw(n, n, {a.slot});
        hermitian(a, u);
        triangular(b, u, Diag::NonUnit);
        const auto h = herm(get(a), u), f = tri(get(b), u);
        // lower: L^-1 A L^-H or L^H A L; upper: U^-H A U^-1 or U A U^H
        Dense<T> l;
        if (itype == 1) {
          const auto i = inv_tri(f, low);
          l = low ? i : ctrans(i);
        }
        else
          l = low ? ctrans(f) : f;
        put(a, mul(mul(l, h), ctrans(l)), u);
        // some implementations modify b temporarily: it is accessed as read-write
        SUBMIT(hegst, itype, u, rw(a), rw(b));
        break;
      }
      case Stedc: {
        if constexpr (std::is_same_v<T, R>) {
          if (n == 0)
            return;
          // one column of the slot is followed by the next one: tiles of two columns
          const Sub t = draw(n, 2, {}), e = draw(n, n, {t.slot});
          auto d = fresh(n, 2);
          if (rng.i(0, 2) == 0)
            d(rng.i(0, n - 1), 1) = 0;
          set(t, d);
          SUBMIT(stedc, rw(t), rw(e));
          auto tw = tt::sync_wait(ro(t));
          auto ew = tt::sync_wait(ro(e));
          Dense<T> q(n, n), a(n, n), r(n, n), dd = get(t);
          for (SizeType j = 0; j < n; ++j) {
            dd(j, 0) = tw.get()({j, 0});
            dd(j, 1) = tw.get()({j, 1});
            for (SizeType i = 0; i < n; ++i)
              q(i, j) = ew.get()({i, j});
          }
          for (SizeType i = 0; i < n; ++i) {
            a(i, i) = d(i, 0);
            if (i + 1 < n)
              a(i + 1, i) = a(i, i + 1) = d(i, 1);
            if (i > 0)
              check(dd(i - 1, 0) <= dd(i, 0), "wrong-result", "stedc: eigenvalues are not ascending");
          }
          r = mul(a, q);
          for (SizeType j = 0; j < n; ++j)
            for (SizeType i = 0; i < n; ++i)
              r(i, j) -= q(i, j) * dd(j, 0);
          check_close(r, Dense<T>(n, n), 1e-11, "wrong-result", "stedc: residual");
          check_close(mul(ctrans(q), q), eye<T>(n), 1e-11, "wrong-result", "stedc: orthonormality");
          put(t, dd);
          put(e, q);
        }
        else
          return;
        break;
      }
      case Lange:
      case Lantr: {
        static const lapack::Norm NS[] = {lapack::Norm::Max, lapack::Norm::One, lapack::Norm::Inf, lapack::Norm::Fro};
        const auto nrm = NS[rng.i(0, 3)];
        if (k == Lange) {
          const Sub a = draw(m, n, {});
          general(a);
          const double want = norm_of(nrm, get(a));
          if (bar)
            norms.push_back({ex::ensure_started(di::whenAllLift(nrm, ro(a)) | tile::lange(p)), want, "lange"});
          else
            norms.push_back({ex::ensure_started(tile::lange(p, di::whenAllLift(nrm, rw(a)))), want, "lange"});
        }
        else {
          if ((low && m < n) || (!low && m > n))
            std::swap(m, n);
          const Sub a = draw(m, n, {});
          triangle_only(a, fresh(m, n), u, diag);
          const double want = norm_of(nrm, tri(get(a), u, diag));
          norms.push_back({ex::ensure_started(di::whenAllLift(nrm, u, diag, ro(a)) | tile::lantr(p)), m == 0 || n == 0 ? 0 : want, "lantr"});
        }
        break;
      }
      default:
        return;
    }
    history.push_back(std::string(NAMES[k]) + " " + std::to_string(m) + "x" + std::to_string(n) + "x" + std::to_string(kk) + (low ? " lower" : " upper") + (left ? " left" : " right") + (unit ? " unit" : ""));
    sim::count(NAMES[k]);
#undef SUBMIT
  }
  void finish_pending() {
    for (auto& x : norms) {
      const double v = tt::sync_wait(std::move(x.s));
      check(std::abs(v - x.want) <= 1e-12 * (1 + x.want), "wrong-result", std::string(x.what) + " returns " + std::to_string(v) + " instead of " + std::to_string(x.want) + "; operations: " + tail());
    }
    norms.clear();
    for (auto& x : infos) {
      const long long v = tt::sync_wait(std::move(x.s));
      check(v == x.want, "wrong-result", std::string(x.what) + " returns " + std::to_string(v) + " instead of " + std::to_string(x.want));
    }
    infos.clear();
  }
};

template <class T>
void tile_ops() {
  const Shape sh = draw_local();
  draw_tune();
  const int steps = static_cast<int>(sim::param("steps", 1, 14));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  const int sync = static_cast<int>(sim::param("compare_every", 0, 4));
  const long al1 = draw_alloc("alloc1"), al2 = draw_alloc("alloc2");
  const int split = static_cast<int>(sim::param("slots_in_first", 1, NSLOTS - 1));
  const bool tall = sim::param("tall", 0, 1);
  struct St {
    Kind k;
    SizeType m, n, kk;
  };
  std::vector<St> prog;
  for (int i = 0; i < steps; ++i) {
    const std::string b = "op" + std::to_string(i);
    prog.push_back({static_cast<Kind>(sim::param(b, 0, KINDS - 1)), sim::param(b + ".m", 0, S), sim::param(b + ".n", 0, S), sim::param(b + ".k", 0, S)});
  }
  run_ranks(sh.cfg, [&](int) {
    World<T> w;
    w.rng = Rng(seed);
    auto mat = [&](int slots, bool t, long al) {
      const SizeType k = static_cast<SizeType>(slots);
      const dlaf::GlobalElementSize sz = t ? dlaf::GlobalElementSize{S * k, S} : dlaf::GlobalElementSize{S, S * k};
      return std::make_unique<Mat<T>>(Dist(sz, {S, S}, {1, 1}, {0, 0}, {0, 0}), alloc_of(al));
    };
    w.mats.push_back(mat(split, tall, al1));
    w.mats.push_back(mat(NSLOTS - split, !tall, al2));
    for (int k = 0; k < NSLOTS; ++k) {
      const bool second = k >= split;
      w.mat_of.push_back(second);
      const SizeType i = second ? k - split : k;
      w.tile_of.push_back(second != tall ? LocalTileIndex{i, 0} : LocalTileIndex{0, i});
      w.model.emplace_back(S, S);
    }
    for (int k = 0; k < NSLOTS; ++k)
      w.set(Sub{k, 0, 0, S, S}, w.fresh(S, S));
    int i = 0;
    for (const auto& p : prog) {
      w.step(p.k, p.m, p.n, p.kk);
      if (sync > 0 && ++i % sync == 0)
        w.compare("after an operation");
    }
    if (sim::choose(2))
      w.finish_pending();
    w.compare("at the end");
    w.finish_pending();
  });
}
}
SIM_SCENARIO("C27", tiles_real, 1) {
  tile_ops<double>();
}
SIM_SCENARIO("C27", tiles_complex, 1) {
  tile_ops<zc>();
}
