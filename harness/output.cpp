// C25: the text a matrix is printed as describes its contents
#include "common.h"

#include <sstream>

#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/print_csv.h>
#include <dlaf/matrix/print_numpy.h>

namespace {
using namespace hz;
const char* const KIND = "wrong-output";

[[noreturn]] void bad(const std::string& what, const std::string& text) {
  sim::violation(KIND, what + " | " + text.substr(0, 300));
  std::abort();
}
// A reader of the printed text
struct Reader {
  const std::string& s;
  std::size_t p = 0;
  void blanks(bool lines = false) {
    while (p < s.size() && (s[p] == ' ' || (lines && s[p] == '\n')))
      ++p;
  }
  bool is(const std::string& t) {
    blanks();
    if (s.compare(p, t.size(), t) != 0)
      return false;
    p += t.size();
    return true;
  }
  void need(const std::string& t) {
    if (!is(t))
      bad("'" + t + "' expected at character " + std::to_string(p), s);
  }
  long integer() {
    blanks();
    std::size_t n = 0;
    long x = 0;
    try {
      x = std::stol(s.substr(p), &n);
    }
    catch (...) {
      bad("integer expected at character " + std::to_string(p), s);
    }
    p += n;
    return x;
  }
  double real() {
    blanks();
    std::size_t n = 0;
    double x = 0;
    try {
      x = std::stod(s.substr(p), &n);
    }
    catch (...) {
      bad("number expected at character " + std::to_string(p), s);
    }
    p += n;
    return x;
  }
  // a name or a literal; python does not know the names nan and inf
  double py_real() {
    if (is("np.nan"))
      return std::numeric_limits<double>::quiet_NaN();
    if (is("np.inf") || is("+np.inf"))
      return std::numeric_limits<double>::infinity();
    if (is("-np.inf"))
      return -std::numeric_limits<double>::infinity();
    blanks();
    std::size_t q = p;
    while (q < s.size() && (s[q] == '+' || s[q] == '-'))
      ++q;
    if (q < s.size() && std::isalpha(static_cast<unsigned char>(s[q])))
      bad("not a python expression at character " + std::to_string(p), s);
    return real();
  }
  template <class T>
  T py() {
    if constexpr (dlaf::isComplex_v<T>) {
      if (is("complex(") || is("np.complex64(") || is("np.complex128(")) {
        const double re = py_real();
        need(",");
        const double im = py_real();
        need(")");
        return mk<T>(re, im);
      }
      const double re = py_real(), im = py_real();
      need("j");
      return mk<T>(re, im);
    }
    else
      return static_cast<T>(py_real());
  }
  template <class T>
  T cpp() {
    if constexpr (dlaf::isComplex_v<T>) {
      need("(");
      const double re = real();
      need(",");
      const double im = real();
      need(")");
      return mk<T>(re, im);
    }
    else
      return static_cast<T>(real());
  }
};
bool near_real(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b))
    return a == b;
  return std::abs(a - b) <= tol;
}
template <class T>
bool near(T a, T b) {
  const double re = static_cast<double>(std::real(b)), im = static_cast<double>(std::imag(b));
  double size = 0;
  for (double x : {re, im})
    if (std::isfinite(x))
      size = std::max(size, std::abs(x));
  return near_real(static_cast<double>(std::real(a)), re, 1e-3 * size) && near_real(static_cast<double>(std::imag(a)), im, 1e-3 * size);
}
// np.array([...], dtype=...).reshape(cols, rows).T
template <class T>
Dense<T> read_numpy_tile(Reader& in) {
  in.need("np.array([");
  std::vector<T> v;
  while (!in.is("]")) {
    v.push_back(in.py<T>());
    if (!in.is(",")) {
      in.need("]");
      break;
    }
  }
  in.need(",");
  in.need("dtype");
  in.need("=");
  in.need("np.");
  if (dlaf::isComplex_v<T> != (in.s.compare(in.p, 1, "c") == 0))
    bad("type of the elements", in.s);
  while (in.p < in.s.size() && in.s[in.p] != ')')
    ++in.p;
  in.need(")");
  in.need(".reshape(");
  const long a = in.integer();
  in.need(",");
  const long b = in.integer();
  in.need(")");
  in.need(".T");
  // rows of the reshaped array are the columns of the result
  Dense<T> d(b, a);
  if (static_cast<std::size_t>(a * b) != v.size())
    bad("number of elements does not match the shape", in.s);
  for (long i = 0; i < a; ++i)
    for (long j = 0; j < b; ++j)
      d(j, i) = v[static_cast<std::size_t>(i * b + j)];
  return d;
}
template <class T>
void read_numpy_matrix(const std::string& text, const std::string& sym, Dense<T>& out, Dense<T>& set, SizeType m, SizeType n) {
  Reader in{text};
  in.need(sym);
  in.need("=");
  in.need("np.zeros(");
  in.need("(");
  const long r = in.integer();
  in.need(",");
  const long c = in.integer();
  in.need(")");
  in.need(",");
  if (r != m || c != n)
    bad("size of the matrix", text);
  while (in.p < text.size() && text[in.p] != '\n')
    ++in.p;
  for (in.blanks(true); in.p < text.size(); in.blanks(true)) {
    in.need(sym);
    in.need("[");
    const long r0 = in.integer();
    in.need(":");
    const long r1 = in.integer();
    in.need(",");
    const long c0 = in.integer();
    in.need(":");
    const long c1 = in.integer();
    in.need("]");
    in.need("=");
    const Dense<T> t = read_numpy_tile<T>(in);
    if (t.m != r1 - r0 || t.n != c1 - c0 || r0 < 0 || c0 < 0 || r1 > m || c1 > n)
      bad("range of a tile", text);
    for (long j = c0; j < c1; ++j)
      for (long i = r0; i < r1; ++i) {
        out(i, j) = t(i - r0, j - c0);
        set(i, j) += T(1);
      }
  }
}
template <class T>
void read_csv(Reader& in, Dense<T>& out) {
  for (SizeType i = 0; i < out.m; ++i) {
    for (SizeType j = 0; j < out.n; ++j) {
      out(i, j) = in.cpp<T>();
      if (!in.is(",") && j + 1 < out.n)
        bad("separator expected", in.s);
    }
    in.blanks();
    if (in.p < in.s.size() && in.s[in.p] == '\n')
      ++in.p;
    else
      bad("end of line expected at character " + std::to_string(in.p), in.s);
  }
}

template <class T>
void outputs() {
  const Shape sh = draw_shape(3, 3, 6, 3);
  const bool csv = sim::param("csv", 0, 1) != 0;
  const bool one = csv || sim::param("local", 0, 1) != 0;
  const SizeType tm = sim::param("tm", 1, 4), tn = sim::param("tn", 1, 4);
  const SizeType km = sim::param("km", 1, 3), kn = sim::param("kn", 1, 3);
  const SizeType m = sim::param("m", 0, 9), n = sim::param("n", 0, 9);
  const Index2D src = draw_source(sh);
  long al = draw_alloc("alloc");
  const bool tiles = sim::param("tiles", 0, 3) == 0;
  const bool retiled = sim::param("retiled", 0, 1) != 0;
  // first tile smaller than the others
  SizeType om = 0, on = 0;
  if (sim::param("offset", 0, 2) == 0) {
    om = sim::param("om", 0, 7);
    on = sim::param("on", 0, 7);
    if (om + on > 0 && al <= 1)
      al = 2;
  }
  const bool part = sim::param("part", 0, 2) == 0 && m > 0 && n > 0;
  const bool specials = sim::param("special_values", 0, 2) == 0 && !csv;
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000)));
  Dense<T> a = random_dense<T>(m, n, r.u()), b(m, n);
  for (SizeType k = 0; k < m * n; ++k) {
    auto& x = a.v[static_cast<std::size_t>(k)];
    if (r.i(0, 3) == 0)
      x = mk<T>(static_cast<double>(r.i(-3, 3)), static_cast<double>(r.i(-3, 3)));
    if (r.i(0, 7) == 0)
      x *= static_cast<T>(std::pow(10.0, static_cast<double>(r.i(-20, 20))));
    if (specials && r.i(0, 7) == 0) {
      const double inf = std::numeric_limits<double>::infinity(), v[] = {std::nan(""), inf, -inf, 1.5};
      const long p = r.i(0, 2), q = r.i(0, 3);
      x = r.i(0, 1) ? mk<T>(v[p], v[q]) : mk<T>(v[q], v[p]);
    }
    if constexpr (dlaf::isComplex_v<T>)
      b.v[static_cast<std::size_t>(k)] = T(std::real(x) * 2, std::imag(x) * 2);
    else
      b.v[static_cast<std::size_t>(k)] = x * 2;
  }
  SizeType pr = 0, pc = 0, pm = m, pn = n;
  if (part && !csv) {
    pr = r.i(0, m - 1);
    pc = r.i(0, n - 1);
    pm = r.i(1, m - pr);
    pn = r.i(1, n - pc);
  }
  Dense<T> out(pm, pn), times(pm, pn);
  run_ranks(sh.cfg, [&](int rank) {
    auto grid = make_grid(sh);
    const SizeType bm = tm * km, bn = tn * kn;
    const bool rt = retiled && (km > 1 || kn > 1);
    const TileElementSize ts{rt ? bm : tm, rt ? bn : tn};
    Mat<T> mat = make_mat<T>(one ? Dist({m, n}, {bm, bn}, ts, Size2D(1, 1), Index2D(0, 0), Index2D(0, 0), GlobalElementIndex(om, on))
                   : Dist({m, n}, {bm, bn}, ts, grid.size(), grid.rank(), src, GlobalElementIndex(om, on)), al);
    fill(mat, a, true);
    // pending operations before the matrix is printed
    auto work = [&](Mat<T>& x) {
      for (auto ij : dlaf::common::iterate_range2d(x.distribution().local_nr_tiles()))
        ex::start_detached(x.readwrite(ij) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) | ex::then([](auto t) {
                             sim::maybe_yield("double");
                             for (auto e : dlaf::common::iterate_range2d(t.size()))
                               if constexpr (dlaf::isComplex_v<T>)
                                 t(e) = T(std::real(t(e)) * 2, std::imag(t(e)) * 2);
                               else
                                 t(e) *= 2;
                           }));
    };
    std::ostringstream os;
    Dense<T> mine(pm, pn), cnt(pm, pn);
    auto print_all = [&](Mat<T>& x) {
      const Dist& d = x.distribution();
      work(x);
      if (part && !csv) {
        dlaf::matrix::internal::MatrixRef<const T, Device::CPU> v(x, {{pr, pc}, {pm, pn}});
        dlaf::matrix::print(dlaf::format::numpy{}, "M", v, os);
      }
      else if (tiles) {
        for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
          std::ostringstream o;
          auto t = tt::sync_wait(x.read(ij));
          if (csv)
            dlaf::matrix::print(dlaf::format::csv{}, t.get(), o);
          else
            dlaf::matrix::print(dlaf::format::numpy{}, t.get(), o);
          const std::string s = o.str();
          Reader in{s};
          Dense<T> got(t.get().size().rows(), t.get().size().cols());
          if (csv)
            read_csv(in, got);
          else
            got = read_numpy_tile<T>(in);
          if (got.m != t.get().size().rows() || got.n != t.get().size().cols())
            bad("size of a tile", s);
          for (auto e : dlaf::common::iterate_range2d(t.get().size())) {
            const auto g = d.global_element_index(d.global_tile_index(ij), e);
            mine(g.row(), g.col()) = got(e.row(), e.col());
            cnt(g.row(), g.col()) += T(1);
          }
        }
      }
      else if (csv)
        dlaf::matrix::print(dlaf::format::csv{}, "M", x, os);
      else
        dlaf::matrix::print(dlaf::format::numpy{}, "M", x, os);
      // and after it
      work(x);
    };
    if (rt) {
      auto sub = mat.retiled_sub_pipeline(LocalTileSize{km, kn});
      print_all(sub);
    }
    else
      print_all(mat);
    const std::string text = os.str();
    if (part && !csv)
      read_numpy_matrix(text, "M", mine, cnt, pm, pn);
    else if (!tiles) {
      if (csv) {
        Reader in{text};
        in.need("M");
        in.need("\n");
        read_csv(in, mine);
        in.blanks(true);
        if (in.p != text.size())
          bad("more text than elements", text);
        for (auto& x : cnt.v)
          x = T(1);
      }
      else
        read_numpy_matrix(text, "M", mine, cnt, m, n);
    }
    if (!one || rank == 0)
      for (std::size_t k = 0; k < mine.v.size(); ++k)
        if (cnt.v[k] != T(0)) {
          out.v[k] = mine.v[k];
          times.v[k] += cnt.v[k];
        }
    grid.wait_all_communicators();
  });
  for (SizeType j = 0; j < pn; ++j)
    for (SizeType i = 0; i < pm; ++i) {
      if (times(i, j) != T(1))
        sim::violation(KIND, "element (" + std::to_string(i) + "," + std::to_string(j) + ") is not printed exactly once");
      if (!near(out(i, j), b(pr + i, pc + j)))
        sim::violation(KIND, "element (" + std::to_string(i) + "," + std::to_string(j) + ") is printed with another value");
    }
}
}
SIM_SCENARIO("C25", print_double, 2) {
  outputs<double>();
}
SIM_SCENARIO("C25", print_complex, 2) {
  outputs<zc>();
}
SIM_SCENARIO("C25", print_float, 1) {
  outputs<float>();
}
