// C36: the benchmark programs of the miniapp directory as whole programs, from main to exit
//
// Every simulated rank runs main() of its own copy of a shared library with all of DLA-Future and of the programs.
#include <dlfcn.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <streambuf>

#include <H5Cpp.h>

#include "common.h"

namespace hz {
void check(bool ok, const std::string& kind, const std::string& msg) {
  if (!ok)
    sim::violation(kind, msg);
}
}

namespace {
using namespace hz;
constexpr int kMaxRanks = 6;
void* lib_of(int rank) {
  static void* h[kMaxRanks] = {};
  if (!h[0]) {
    char exe[4096] = {};
    if (readlink("/proc/self/exe", exe, sizeof(exe) - 1) <= 0)
      sim::harness_error("cannot find the executable");
    std::string e(exe);
    const auto p = e.rfind(" (deleted)");
    if (p != std::string::npos)
      e.resize(p);
    for (int i = 0; i < kMaxRanks; ++i) {
      h[i] = dlopen((e + ".rank" + std::to_string(i) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h[i])
        sim::harness_error(std::string("dlopen: ") + dlerror());
    }
  }
  return h[rank];
}
[[maybe_unused]] const void* loaded_before_forking = lib_of(0);

// what each rank writes
struct PerRank : std::streambuf {
  std::string text[kMaxRanks];
  int overflow(int c) override {
    if (c != EOF)
      text[sim::cur_rank()].push_back(static_cast<char>(c));
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    text[sim::cur_rank()].append(s, static_cast<std::size_t>(n));
    return n;
  }
};
int spoil_index = -1;
}
extern "C" int miniapp_spoil(int) {
  return spoil_index;
}

namespace {
const char* const OUT = "wrong-output";
std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream is(s);
  for (std::string l; std::getline(is, l);)
    v.push_back(l);
  return v;
}
std::string squeeze(const std::string& s) {
  std::istringstream is(s);
  std::string out;
  for (std::string w; is >> w;)
    out += (out.empty() ? "" : " ") + w;
  return out;
}
std::string lower(std::string s) {
  std::string out;
  for (char c : s)
    if (c != '_' && c != ' ')
      out.push_back(static_cast<char>(std::tolower(c)));
  return out;
}
std::string dims(long a, long b) {
  return "(" + std::to_string(a) + ", " + std::to_string(b) + ")";
}
enum App { Chol, Eig, Gen, G2S, Solve, Mult, TriInv, CholInv, Red, B2T, Trid, BtB2T, BtRed, Comm, Redist, NApps };
const char* const NAME[] = {"cholesky", "eigensolver", "gen_eigensolver", "gen_to_std", "triangular_solver", "triangular_multiplication",
                            "triangular_inverse", "inverse_from_cholesky_factor", "reduction_to_band", "band_to_tridiag", "tridiag_solver",
                            "bt_band_to_tridiag", "bt_reduction_to_band", "communication", "redistribution"};

void set_env(const char* name, const std::string& v) {
  setenv((std::string("DLAF_") + name).c_str(), v.c_str(), 1);
}

using zc = std::complex<double>;
Dense<zc> dense(const std::string& where, const sim::Hdf5Set& s) {
  if (s.dims.size() != 3 || s.dims[2] < 1 || s.dims[2] > 2 || !s.is_float)
    sim::violation("wrong-file", where + ": not a matrix");
  const auto k = s.dims[2];
  Dense<zc> d(static_cast<SizeType>(s.dims[1]), static_cast<SizeType>(s.dims[0]));
  for (std::size_t i = 0; i < d.v.size(); ++i) {
    double x[2] = {0, 0};
    for (std::size_t q = 0; q < k; ++q) {
      const char* at = s.data.data() + (i * k + q) * s.element;
      if (s.element == 4) {
        float f;
        std::memcpy(&f, at, 4);
        x[q] = f;
      }
      else
        std::memcpy(&x[q], at, 8);
    }
    d.v[i] = zc(x[0], x[1]);
  }
  return d;
}
sim::Hdf5Set stored(const Dense<zc>& d, char type) {
  sim::Hdf5Set s;
  const std::size_t k = type == 'c' || type == 'z' ? 2 : 1;
  s.is_float = true;
  s.element = type == 's' || type == 'c' ? 4 : 8;
  s.dims = {static_cast<unsigned long long>(d.n), static_cast<unsigned long long>(d.m), k};
  s.data.resize(d.v.size() * k * s.element);
  for (std::size_t i = 0; i < d.v.size(); ++i)
    for (std::size_t q = 0; q < k; ++q) {
      const double x = q ? d.v[i].imag() : d.v[i].real();
      const float f = static_cast<float>(x);
      std::memcpy(&s.data[(i * k + q) * s.element], s.element == 4 ? static_cast<const void*>(&f) : &x, s.element);
    }
  return s;
}
Dense<zc> lower_hermitian(const Dense<zc>& a) {
  Dense<zc> h = a;
  for (SizeType j = 0; j < h.n; ++j) {
    h(j, j) = h(j, j).real();
    for (SizeType i = 0; i < j; ++i)
      h(i, j) = std::conj(h(j, i));
  }
  return h;
}

void program() {
  sim::draw_faults();
  const App app = static_cast<App>(sim::param("program", 0, NApps - 1));
  sim::Config cfg;
  const int pr = static_cast<int>(sim::param("grid.rows", 1, 3));
  const int pc = static_cast<int>(sim::param("grid.cols", 1, std::min(3, kMaxRanks / pr)));
  cfg.nranks = pr * pc;
  cfg.mpi_pool = sim::param("mpi_pool", 0, 1) != 0;
  cfg.workers = static_cast<int>(sim::param("workers", 2, 4));
  auto num = [&](const char* nm, const char* pn, long lo, long hi) { const long x = sim::param(pn, lo, hi); set_env(nm, std::to_string(x)); return x; };
  const char* layouts[] = {"ColMajor", "Blocks", "Tiles"};
  set_env("DEFAULT_ALLOCATION_LAYOUT", layouts[sim::param("tune.layout", 0, 2)]);
  num("TFACTOR_NUM_THREADS", "tune.tfactor_threads", 1, 4);
  num("RED2BAND_PANEL_NUM_THREADS", "tune.red2band_threads", 1, 4);
  num("TRIDIAG_RANK1_NUM_THREADS", "tune.rank1_threads", 1, 4);
  const long min_band = num("EIGENSOLVER_MIN_BAND", "tune.min_band", 2, 4);
  num("BT_BAND_TO_TRIDIAG_HH_APPLY_GROUP_SIZE", "tune.hh_group", 1, 5);
  num("COMMUNICATOR_GRID_NUM_PIPELINES", "pipelines", 2, 3);
  set_env("BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE", std::to_string(sim::param_of("tune.1d_block", {8192, 6, 8, 16})));
  for (const char* n : {"TFACTOR", "RED2BAND", "TRIDIAG_RANK1"})
    set_env((std::string(n) + "_BARRIER_BUSY_WAIT_US").c_str(), sim::param("tune.busy_wait", 0, 1) ? "1000" : "0");

  const bool local = cfg.nranks == 1 && app != Comm && sim::param("local", 0, 1);
  const char type = "sdcz"[sim::param("type", 0, 3)];
  const long nruns = sim::param("nruns", 1, 2), nwarmups = sim::param("nwarmups", 0, 1);
  const bool csv = sim::param("csv", 0, 1) != 0;
  const bool two = app == Solve || app == Mult || app == BtB2T || app == BtRed;  // m x n
  const long big = app == Comm ? 6 : 13;
  const long m = sim::param("m", 1, big), 
             min_mb = app == Eig || app == Gen || app == Red || app == B2T || app == BtB2T || app == BtRed ? 2 : 1,
             mb = sim::param("mb", min_mb, app == Redist ? std::min(m, 6l) : 6);
  const long n = two ? sim::param("n", 1, big) : m, nb = two ? sim::param("nb", 1, 5) : mb;
  long mbd = 0;  // one block size has to be a multiple of the other
  if (app == Redist) {
    mbd = sim::param("mb_dst", 1, m);
    while (mbd % mb != 0 && mb % mbd != 0)
      --mbd;
  }
  const bool has_uplo = app == Chol || app == Eig || app == Gen || app == G2S || app == Solve || app == Mult || app == TriInv || app == CholInv || app == B2T;
  const long check = sim::param("check", 0, 2);
  // the eigensolvers know the lower triangle only, as does the check of the Cholesky factorization
  const char uplo = app == Eig || app == Gen || app == B2T || (app == Chol && m % mb == 0 && check) ? 'L' : "LU"[sim::param("uplo", 0, 1)];
  const char side = "LR"[sim::param("side", 0, 1)];
  const char op = app == Solve || local ? "NTC"[sim::param("op", 0, 2)] : 'N';
  const char diag = "NU"[sim::param("diag", 0, 1)];
  long band = mb;
  if (app == Red || app == B2T || app == BtB2T || app == BtRed) {
    std::vector<long> div;
    for (long b = 2; b <= mb; ++b)
      if (mb % b == 0)
        div.push_back(b);
    band = div[static_cast<std::size_t>(sim::param("band", 0, 4)) % div.size()];
  }
  const bool slices = app == Eig || app == Gen || app == BtB2T || app == BtRed || (app == Solve && side == 'L');
  const long how_many = slices ? sim::param("evals", 0, 2) : 0;  // all, by index, by percentage
  long ev = n;
  std::string ev_arg;
  if (how_many == 1) {
    ev = sim::param("evals.end", 0, 13) % (n + 1);
    ev_arg = "--eval-index-end=" + std::to_string(ev);
  }
  else if (how_many == 2) {
    const long pct = sim::param("evals.percent", 0, 100);
    ev = std::lround(static_cast<double>(n) * static_cast<double>(pct) / 100.);
    ev_arg = "--percent-evals=" + std::to_string(pct);
  }
  const bool can_check = (app == Chol && m % mb == 0) || app == Eig || app == Gen;
  const bool checks = can_check && check != 0;
  const bool spoil = sim::param("spoil", 0, 3) == 0 && checks && ev > 0;
  spoil_index = spoil ? static_cast<int>(sim::param("spoil.index", 0, 12) % ev) : -1;

  // files: on a simulated disk
  const bool has_files = app == Eig || app == Gen || app == Red || app == Trid;
  const bool in_file = has_files && sim::param("file.in", 0, 2) == 0, out_file = has_files && app != Trid && sim::param("file.out", 0, 1);
  const bool other_set = (in_file || out_file) && sim::param("file.dataset", 0, 1);
  // the size on the command line is ignored: none or a wrong one
  const long arg_m = !in_file ? m : sim::param("file.size_option", 0, 2) == 0 ? 1 + m % big : 0;
  const std::string set_a = other_set ? "/some matrix" : app == Gen ? "/input-a" : app == Trid ? "/tridiag" : "/input", set_b = other_set ? "/another" : "/input-b";
  Dense<zc> in_a, in_b;
  if (in_file) {
    const bool cplx = (type == 'c' || type == 'z') && app != Trid;
    const std::uint64_t seed = static_cast<std::uint64_t>(sim::param("file.data", 0, 1000));
    in_a = app == Trid ? random_dense<zc>(m, 2, seed) : random_herm<zc>(m, seed);
    in_b = random_hpd<zc>(m, seed + 1);
    if (!cplx)
      for (auto* d : {&in_a, &in_b})
        for (auto& x : d->v)
          x = x.real();
    const char t = app == Trid ? (type == 'c' ? 's' : type == 'z' ? 'd' : type) : type;
    sim::hdf5_put("in.h5", set_a, stored(in_a, t));
    in_a = dense("in.h5", stored(in_a, t));  // rounded
    if (app == Gen) {
      sim::hdf5_put("in.h5", set_b, stored(in_b, t));
      in_b = dense("in.h5", stored(in_b, t));
    }
  }

  std::vector<std::string> args{std::string("miniapp_") + NAME[app], std::string("--type=") + (sim::param("type.upper", 0, 1) ? static_cast<char>(std::toupper(type)) : type),
                                "--grid-rows=" + std::to_string(pr), "--grid-cols=" + std::to_string(pc), "--nruns=" + std::to_string(nruns),
                                "--nwarmups=" + std::to_string(nwarmups)};
  if (check)
    args.push_back(check == 1 ? "--check-result=last" : "--check-result=all");
  if (local)
    args.push_back("--local");
  if (csv) {
    args.push_back("--csv");
    args.push_back("--pp-info=tag, 17");
  }
  auto opt = [&](const char* k, auto v) { std::ostringstream os; os << "--" << k << "=" << v; args.push_back(os.str()); };
  if (two) {
    opt("m", m);
    opt("n", n);
    opt("mb", mb);
    opt("nb", nb);
    if (app == BtB2T || app == BtRed)
      opt("b", band);
  }
  else {
    if (arg_m)
      opt("matrix-size", arg_m);
    opt("block-size", mb);
    if (in_file)
      opt("input-file", "in.h5");
    if (out_file)
      opt("output-file", "out.h5");
    if (other_set && app == Gen) {
      opt("input-dataset-a", set_a);
      opt("input-dataset-b", set_b);
    }
    else if (other_set)
      opt("input-dataset", set_a);
    if (app == Red && band == mb)
      args.push_back("--band-size=-1");
    else if (app == Red || app == B2T)
      opt("band-size", band);
    if (app == Redist)
      opt("block-size-dst", mbd);
  }
  if (has_uplo)
    opt("uplo", uplo);
  if (app == Solve || app == Mult) {
    opt("side", side);
    opt("op", op);
  }
  if (app == Solve || app == Mult || app == TriInv)
    opt("diag", diag);
  if (!ev_arg.empty())
    args.push_back(ev_arg);

  std::string what;
  for (auto& a : args)
    what += (what.empty() ? "" : " ") + a;
  auto bad = [&](const std::string& kind, const std::string& msg) { sim::violation(kind, msg + " | " + what + " on " + std::to_string(pr) + "x" + std::to_string(pc) + " ranks"); };

  static PerRank out, err;
  static std::terminate_handler keep_terminate;
  keep_terminate = std::set_terminate([] {
    const std::string& said = err.text[sim::cur_rank()];
    if (!said.empty() && !std::current_exception())
      sim::violation("assertion", "std::terminate called: " + squeeze(said));
    keep_terminate();
  });
  std::streambuf* const keep_out = std::cout.rdbuf(&out);
  std::streambuf* const keep_err = std::cerr.rdbuf(&err);
  int rc[kMaxRanks];
  sim::mpi_auto_init(false);
  sim::run(cfg, [&](int r) {
    std::vector<std::string> mine = args;
    std::vector<char*> argv;
    for (auto& a : mine)
      argv.push_back(a.data());
    argv.push_back(nullptr);
    auto* f = reinterpret_cast<int (*)(int, char**)>(dlsym(lib_of(r), (std::string("miniapp_") + NAME[app]).c_str()));
    if (!f)
      sim::harness_error(std::string("no program ") + NAME[app]);
    rc[r] = f(static_cast<int>(args.size()), argv.data());
  });
  std::cout.rdbuf(keep_out);
  std::cerr.rdbuf(keep_err);
  std::set_terminate(keep_terminate);
  sim::mpi_check_quiescent(true);

  for (int r = 0; r < cfg.nranks; ++r) {
    if (rc[r] != EXIT_SUCCESS)
      bad("wrong-exit", "exit status " + std::to_string(rc[r]) + " on rank " + std::to_string(r));
    const bool warned = err.text[r].find("Warning") != std::string::npos;
    const bool silent = app == Comm || app == Redist;  // nothing to check, nothing said
    if (warned != ((check != 0 && !can_check && !silent) || (in_file && arg_m)))
      bad(OUT, warned ? "unexpected warning: " + err.text[r] : std::string("no warning about the check which is not made"));
    if (r != 0 && !out.text[r].empty())
      bad(OUT, "output on rank " + std::to_string(r) + ": " + out.text[r]);
  }
  sim::hdf5_check_quiescent();
  std::map<std::string, Dense<zc>> sets;
  for (auto& f : sim::hdf5_files())
    if (f.name == "out.h5")
      for (auto& [nm, x] : f.sets)
        sets[nm] = dense("out.h5 " + nm, x);
    else if (f.name != "in.h5")
      bad("wrong-file", "unexpected file " + f.name);
  if (out_file && !spoil) {
    sim::count("files");
    auto get = [&](const std::string& nm, long rows, long cols) -> const Dense<zc>& {
      const auto it = sets.find(nm);
      if (it == sets.end())
        bad("wrong-file", "no dataset " + nm);
      if (it->second.m != rows || it->second.n != cols)
        bad("wrong-file", nm + " is " + std::to_string(it->second.m) + "x" + std::to_string(it->second.n));
      return it->second;
    };
    auto input = [&](const std::string& nm, const Dense<zc>& d) {
      const Dense<zc>& x = get(nm, m, m);
      if (in_file && x.v != d.v)
        bad("wrong-file", nm + " is not the matrix of the input file");
      return lower_hermitian(x);
    };
    const double eps = type == 's' || type == 'c' ? 1.2e-7 : 2.3e-16;
    const Dense<zc> a = input(set_a, in_a);
    double na = 0, nz = 0;
    for (auto& x : a.v)
      na = std::max(na, std::abs(x));
    const double tol = 200 * static_cast<double>(m + 4) * eps;
    if (app == Red) {  // the band matrix has the invariants of the input
      const Dense<zc>& x = get("/band", m, m);
      double ta = 0, tb = 0, fa = 0, fb = 0;
      for (long j = 0; j < m; ++j)
        for (long i = 0; i < m; ++i) {
          fa += std::norm(a(i, j));
          if (i >= j && i - j <= band)
            fb += (i == j ? 1 : 2) * std::norm(x(i, j));
          if (i == j)
            ta += a(i, i).real(), tb += x(i, i).real();
        }
      if (!(std::abs(ta - tb) <= tol * static_cast<double>(m) * na) || !(std::abs(fa - fb) <= tol * fa + 1e-300))
        bad("wrong-file", "/band is not similar to the input");
    }
    else {
      const Dense<zc> b = app == Gen ? input(set_b, in_b) : eye<zc>(m);
      const Dense<zc>&w = get("/evals", m, 1), &z = get("/evecs", m, m);
      for (auto& x : b.v)
        nz = std::max(nz, std::abs(x));
      double nv = 0;
      for (long k = 0; k < ev; ++k)
        for (long i = 0; i < m; ++i)
          nv = std::max(nv, std::abs(z(i, k)));
      const Dense<zc> az = mul(a, z), bz = mul(b, z);
      for (long k = 0; k < ev; ++k) {
        if (k && !(w(k - 1, 0).real() <= w(k, 0).real()))
          bad("wrong-file", "/evals is not sorted");
        zc one = 0;
        for (long i = 0; i < m; ++i) {
          one += std::conj(z(i, k)) * bz(i, k);
          if (!(std::abs(az(i, k) - w(k, 0) * bz(i, k)) <= 10 * tol * (na + std::abs(w(k, 0)) * nz) * nv))
            bad("wrong-file", "/evals and /evecs do not solve the problem in the file");
        }
        if (!(std::abs(one - 1.) <= 10 * tol * (1 + nz * nv * nv)))
          bad("wrong-file", "/evecs is not normalized");
      }
    }
  }
  else if (!out_file && !sets.empty())
    bad("wrong-file", "an output file which nobody asked for");
  const std::string grid = dims(pr, pc);
  const std::string threads = std::to_string(cfg.workers);
  std::string id(1, type), tail;
  const long bandsize = [&] {
    long b = std::min(min_band, mb);
    while (mb % b != 0)
      ++b;
    return b;
  }();
  bool rate = true;
  switch (app) {
    case Chol: case G2S: case CholInv: case TriInv:
      id += uplo;
      tail = dims(m, m) + " " + dims(mb, mb);
      break;
    case Eig: case Gen:
      rate = false;
      id += uplo;
      tail = dims(m, m) + " " + dims(0, ev) + " " + dims(mb, mb) + " " + std::to_string(bandsize);
      break;
    case Solve: case Mult:
      id += std::string() + side + uplo + op + diag;
      tail = dims(m, n) + (app == Solve ? " " + dims(0, ev) : "") + " " + dims(mb, nb);
      break;
    case Red:
      tail = dims(m, m) + " " + dims(mb, mb) + " " + std::to_string(band);
      break;
    case B2T:
      id += uplo;
      tail = dims(m, m) + " " + dims(mb, mb) + " " + std::to_string(band);
      break;
    case Trid:
      rate = false;
      tail = dims(m, 2) + " " + dims(mb, 2);
      break;
    case BtB2T: case BtRed:
      tail = dims(m, n) + " " + dims(0, ev) + " " + dims(mb, nb) + " " + std::to_string(band);
      break;
    case Comm:
      rate = false;
      tail = std::to_string(m) + " " + std::to_string(mb);
      break;
    case Redist:
      rate = false;
      tail = dims(m, m) + " " + dims(mb, mb) + " -> " + dims(mbd, mbd);
      break;
    default:
      break;
  }
  tail = id + " " + tail + " " + grid + " " + threads + " MC";

  const auto lines = lines_of(out.text[0]);
  std::size_t l = 0;
  auto next = [&]() -> std::string {
    if (l >= lines.size())
      bad(OUT, "the output ends after " + std::to_string(l) + " lines");
    return lines[l++];
  };
  auto number = [&](const std::string& s, const char* unit) {
    char* e = nullptr;
    const double x = std::strtod(s.c_str(), &e);
    if (e == s.c_str() || std::strcmp(e, unit) != 0 || !std::isfinite(x))
      bad(OUT, "'" + s + "' is not a number of " + unit);
    return x;
  };
  if (app == Comm && cfg.nranks == 1) {
    if (lines.size() != 1 || lines[0].find("Nothing to measure") == std::string::npos)
      bad(OUT, "output of a single rank: " + out.text[0]);
    return;
  }
  double work = 0;
  for (long run = -nwarmups; run < nruns; ++run) {
    const std::string head = "[" + std::to_string(run) + "]";
    if (run >= 0) {
      const std::string first = next();
      if (squeeze(first) != head)
        bad(OUT, "'" + first + "' instead of the begin of run " + head);
      const int results = app == Comm ? 16 : 1;
      for (int k = 0; k < results; ++k) {
        const std::string line = squeeze(next());
        std::istringstream is(line);
        std::string w, t, g, rest;
        is >> w;
        if (w != head)
          bad(OUT, "'" + line + "' in run " + head);
        if (app == Comm) {
          const auto p = line.find("s " + tail.substr(0, 2));
          if (p == std::string::npos)
            bad(OUT, "'" + line + "' without '" + tail + "'");
          t = line.substr(0, p + 1);
          t = t.substr(t.rfind(' ') + 1);
          rest = line.substr(p + 2);
          rest = rest.substr(0, rest.rfind(' ') + 1) + "MC";  // the backend is printed as it was asked for
        }
        else {
          is >> t;
          if (rate)
            is >> g;
          std::getline(is, rest);
          rest = squeeze(rest);
        }
        const double secs = number(t, "s");
        if (secs < 0)
          bad(OUT, "negative time " + t);
        if (rate) {
          const double x = number(g, "GFlop/s") * secs;
          if (work != 0 && std::abs(x - work) > 1e-4 * std::abs(work))
            bad(OUT, "rate times time is " + std::to_string(x * 1e9) + " operations in run " + head + " and " + std::to_string(work * 1e9) + " before");
          work = x;
        }
        if (rest != tail)
          bad(OUT, "'" + rest + "' instead of '" + tail + "'");
        if (csv && app != Comm && app != Mult) {  // these two have no such line
          const std::string c = next();
          std::vector<std::string> f;
          std::istringstream cs(c);
          for (std::string x; std::getline(cs, x, ',');)
            f.push_back(squeeze(x));
          if (f.size() < 3 || f[0] != "CSVData-2" || f.size() % 2 == 0)
            bad(OUT, "CSV: '" + c + "'");
          std::map<std::string, std::string> kv;
          for (std::size_t i = 1; i + 1 < f.size(); i += 2)
            kv[lower(f[i])] = f[i + 1];
          auto is_ = [&](const std::string& k, const std::string& v, bool needed) {
            const auto it = kv.find(k);
            if (it == kv.end() ? needed : it->second != v)
              bad(OUT, "CSV: " + k + " is '" + (it == kv.end() ? "" : it->second) + "' instead of '" + v + "': " + c);
          };
          is_("run", std::to_string(run), true);
          is_("time", t.substr(0, t.size() - 1), true);
          if (rate)
            is_("gflops", g.substr(0, g.size() - 7), true);
          // one letter (as in the line above) or the name
          auto named = [&](const std::string& k, char c, std::initializer_list<const char*> names, bool needed) {
            for (const char* nm : names) {
              const auto it = kv.find(k);
              if (it != kv.end() && it->second == nm)
                return;
            }
            is_(k, std::string(1, c), needed);
          };
          named("type", type, {type == 's' ? "Single" : type == 'd' ? "Double" : type == 'c' ? "ComplexSingle" : "ComplexDouble"}, true);
          named("uplo", uplo, {uplo == 'L' ? "Lower" : "Upper"}, has_uplo);
          named("op", op, {op == 'N' ? "NoTrans" : op == 'T' ? "Trans" : "ConjTrans"}, app == Solve);
          named("diag", diag, {diag == 'N' ? "NonUnit" : "Unit"}, app == Solve || app == TriInv);
          is_("matrixsize", std::to_string(m), true);
          is_("blocksize", std::to_string(mb), app != Redist);
          if (app == Redist) {
            is_("blocksizesrc", std::to_string(mb), true);
            is_("blocksizedst", std::to_string(mbd), true);
          }
          is_("bandsize", std::to_string(app == Eig || app == Gen ? bandsize : band), app == Eig || app == Gen || app == Red || app == B2T || app == BtB2T || app == BtRed);
          is_("commrows", std::to_string(pr), true);
          is_("commcols", std::to_string(pc), true);
          is_("threads", threads, true);
          is_("backend", "MC", true);
          is_("eigenvalueindexend", std::to_string(ev), app == Gen || app == BtB2T || app == BtRed || app == Solve);
          is_("lasteigenvalueindex", std::to_string(ev), app == Eig);
          is_("tag", "17", true);
        }
      }
    }
    if (checks && (check == 2 || run == nruns - 1)) {
      const std::string c = next();
      const bool error = c.compare(0, 7, "ERROR: ") == 0;
      const auto p = c.find("Max Diff / Max A");
      if (p == std::string::npos)
        bad(OUT, "'" + c + "' instead of the outcome of the check");
      const std::string v = squeeze(c.substr(c.rfind(':') + 1));
      if (error != spoil)
        bad("wrong-check",
            (spoil ? "a result with a wrong element is accepted: " : "a right result is rejected: ") + c);
      number(v, "");
    }
  }
  if (l != lines.size())
    bad(OUT, "more output than expected: '" + lines[l] + "'");
}
}

SIM_SCENARIO("C36", miniapp_programs, 1) {
  program();
}
