// Drives the header-only C++ interface under AddressSanitizer / UBSan with operators that watch the pointers they get.
// compile with -DFT=float or double; usage: prog SEED ROUNDS   prints "COUNT name k" lines; a violated oracle prints "FAIL kind details" and exits with 1.
#include <array>
#include <cmath>
#include <concepts>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>

#include "lanczos.h"
#include "eigen_operators.h"

static std::map< std::string, long > counts;
static std::string ctx;
#define CHECK(ok, kind, ...) do { counts["oracle_checks"]++; if (!(ok)) { std::printf("FAIL %s | %s | ", kind, ctx.c_str()); std::printf(__VA_ARGS__); std::printf("\n"); std::exit(1); } } while (0)

using Rng = std::mt19937_64;
static int irand(Rng& g, int lo, int hi) { return std::uniform_int_distribution< int >(lo, hi)(g); }
// mostly small, about one in 40 well above `hi`
static int size(Rng& g, int lo, int hi, int tail) { return irand(g, 0, 39) == 0 ? irand(g, hi, tail) : irand(g, lo, hi); }
template< typename F > static DenseMatrix< F > gauss(Rng& g, int n, int m) {
  std::normal_distribution< double > d; DenseMatrix< F > X(n, m);
  for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) X(i, j) = F(d(g));
  return X;
}
template< typename F > static DenseMatrix< F > orthonormal(Rng& g, int n, int m) {
  std::normal_distribution< double > d; DenseMatrix< F > X(n, m);
  std::vector< std::vector< double > > q;
  while (int(q.size()) < m) {
    std::vector< double > x(n);
    for (auto& t : x) t = d(g);
    for (int r = 0; r < 3; ++r) for (auto& u : q) { double c = 0; for (int i = 0; i < n; ++i) c += u[i] * x[i]; for (int i = 0; i < n; ++i) x[i] -= c * u[i]; }
    double s = 0; for (auto t : x) s += t * t;
    for (auto& t : x) t /= std::sqrt(s);
    q.push_back(x);
  }
  for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) X(i, j) = F(q[j][i]);
  return X;
}

// an operator in the sense of the documentation: shape() and matvec(), any type
template< typename F > struct Watched {
  using value_type = F;
  DenseMatrix< F > A;
  mutable long calls = 0;
  mutable std::vector< double > in_norm;
  mutable bool aliased = false;
  void matvec(const F* x, F* y) const {
    const long n = A.rows(), m = A.cols();
    std::vector< F > xc(x, x + m);                       // every promised input element is readable
    if (y < x + m && x < y + n) aliased = true;
    for (long i = 0; i < n; ++i) y[i] = F(7777);         // every promised output element is writable
    double s = 0;
    for (long j = 0; j < m; ++j) s += double(xc[j]) * xc[j];
    in_norm.push_back(std::sqrt(s));
    for (long i = 0; i < n; ++i) { double t = 0; for (long j = 0; j < m; ++j) t += double(A(i, j)) * xc[j]; y[i] = F(t); }
    calls++;
  }
  std::pair< size_t, size_t > shape() const { return { size_t(A.rows()), size_t(A.cols()) }; }
};

static void check_parameters() {
  for (int a = -60; a <= 60; ++a) for (int b = 1; b <= 23; ++b) {
    const int r = mod(a, b);
    CHECK(r >= 0 && r < b && (a - r) % b == 0, "mod is not the true modulus", "a=%d b=%d r=%d", a, b, r);
    counts["mod_values"]++;
  }
  for (int n = 1; n <= 9; ++n) for (int d = -3; d <= 14; ++d) {
    const std::pair< size_t, size_t > dim(n, n);
    const int deg = param_deg(d, dim);
    CHECK(deg >= 1 && deg <= n && (d < 1 || d > n || deg == d), "bad Krylov dimension", "n=%d d=%d deg=%d", n, d, deg);
    for (int c = -2; c <= 14; ++c) {
      const int ncv = param_ncv(c, deg, dim);
      CHECK(ncv >= 1 && ncv <= deg && (deg < 2 || ncv >= 2) && (c < 2 || c > deg || ncv == c), "bad number of Lanczos vectors", "n=%d deg=%d c=%d ncv=%d", n, deg, c, ncv);
      for (int o = -3; o <= 14; ++o) {
        const int orth = param_orth(o, deg, ncv, dim);
        CHECK(orth >= 0 && orth < ncv, "re-orthogonalises against more vectors than are in memory", "deg=%d ncv=%d o=%d orth=%d", deg, ncv, o, orth);
        if (o >= 0 && o < ncv) CHECK(orth == o, "a valid number of vectors was changed", "deg=%d ncv=%d o=%d orth=%d", deg, ncv, o, orth);
        if (o < 0 || o > deg) CHECK(orth == ncv - 1, "a negative number does not mean all vectors", "deg=%d ncv=%d o=%d orth=%d", deg, ncv, o, orth);
        counts["parameter_triples"]++;
      }
    }
  }
}

template< typename F > static void check_orth(Rng& g) {
  const int n = size(g, 1, 24, 200), m = irand(g, 0, 3) && n > 24 ? irand(g, 1, 24) : irand(g, 1, n), p = irand(g, 0, m + 3), start = irand(g, -2 * m, 3 * m);
  const bool rev = irand(g, 0, 1), ortho = irand(g, 0, 2) != 0;
  const F eps = std::numeric_limits< F >::epsilon();
  DenseMatrix< F > U = ortho ? orthonormal< F >(g, n, m) : gauss< F >(g, n, m);
  std::set< int > dead;
  for (int j = 0; j < m; ++j) if (irand(g, 0, 5) == 0) { U.col(j).setConstant(irand(g, 0, 1) ? F(0) : std::numeric_limits< F >::quiet_NaN()); dead.insert(j); counts["dead_columns"]++; }
  Vector< F > v = gauss< F >(g, n, 1);
  char buf[200]; std::snprintf(buf, sizeof buf, "orth_vector<%zu> n=%d m=%d p=%d start=%d rev=%d ortho=%d", sizeof(F), n, m, p, start, rev, ortho); ctx = buf;
  // reference: modified Gram-Schmidt in the documented order, in long double
  std::vector< int > order;
  for (int c = 0; c < p; ++c) { int i = start + (rev ? -c : c); order.push_back(((i % m) + m) % m); }
  Eigen::Matrix< long double, Dynamic, 1 > w = v.template cast< long double >();
  for (int j : order) if (!dead.count(j)) { auto u = U.col(j).template cast< long double >(); w -= u * (u.dot(w) / u.squaredNorm()); }
  const DenseMatrix< F > U0 = U;
  std::unique_ptr< F[] > mem(new F[n]);                    // exactly n elements, redzones around them
  Eigen::Map< Vector< F > > vm(mem.get(), n); vm = v;
  orth_vector< F >(vm, U, start, p, rev);
  const double tol = 400.0 * eps * n * (p + 1) * std::max(1.0, double(v.norm()));
  CHECK(vm.allFinite(), "a zero or NaN column destroyed the vector", "-");
  CHECK((vm.template cast< long double >() - w).norm() < tol, "the projections are not those of the selected columns", "err=%g tol=%g", double((vm.template cast< long double >() - w).norm()), tol);
  if (ortho) for (int j = 0; j < m; ++j) if (!dead.count(j)) {
    const bool sel = std::find(order.begin(), order.end(), j) != order.end();
    const double c = U.col(j).dot(vm), c0 = U.col(j).dot(v);
    CHECK(std::abs(c - (sel ? 0.0 : c0)) < tol, sel ? "not orthogonal to a selected column" : "a column that was not selected was projected out", "j=%d c=%g c0=%g", j, c, c0);
    counts[sel ? "projected_columns" : "untouched_columns"]++;
  }
  for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) CHECK(U(i, j) == U0(i, j) || (std::isnan(U(i, j)) && std::isnan(U0(i, j))), "the basis was modified", "-");
  counts["orth_calls"]++;
}

template< typename F > static void check_lanczos(Rng& g) {
  const int n = irand(g, 0, 9) == 0 ? 1 : size(g, 2, 32, 300);
  const F eps = std::numeric_limits< F >::epsilon();
  const int deg = param_deg(irand(g, 1, n + 2), { size_t(n), size_t(n) });
  const bool full = irand(g, 0, 2) != 0, early = irand(g, 0, 3) == 0 && n > 3 && n <= 32;
  const int ncv = full ? deg : param_ncv(irand(g, 0, deg), deg, { size_t(n), size_t(n) });
  const int orth = full ? deg : param_orth(irand(g, 0, ncv), deg, ncv, { size_t(n), size_t(n) });
  DenseMatrix< F > A = gauss< F >(g, n, n);
  A = ((A + A.transpose()) / F(2 * std::sqrt(double(n)))).eval();
  Vector< F > q = gauss< F >(g, n, 1);
  int grade = n;
  if (early) {  // start inside an invariant subspace
    const DenseMatrix< F > U = orthonormal< F >(g, n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double t = 0; for (int k = 0; k < n; ++k) t += double(U(i, k)) * U(j, k) * (2.0 * k / n - 0.7); A(i, j) = A(j, i) = F(t); }
    grade = irand(g, 1, n / 2);
    q.setZero();
    for (int j = 0; j < grade; ++j) q += F(1 + j % 2) * U.col(j * 2 % n);
  }
  const F rtol = sizeof(F) == 8 ? F(1e-8) : F(1e-4);
  char buf[200]; std::snprintf(buf, sizeof buf, "lanczos_recurrence<%zu> n=%d deg=%d ncv=%d orth=%d early=%d grade=%d", sizeof(F), n, deg, ncv, orth, early, grade); ctx = buf;
  Watched< F > op{ A };
  std::unique_ptr< F[] > al(new F[deg + 1]()), be(new F[deg + 1]()), V(new F[size_t(n) * ncv]()), v(new F[n]);
  std::copy(q.data(), q.data() + n, v.get());
  lanczos_recurrence< F >(op, v.get(), deg, rtol, orth, al.get(), be.get(), V.get(), size_t(ncv));
  counts["expansions"]++;
  CHECK(!op.aliased, "input and output of the operator overlap", "-");
  const int k = int(op.calls);
  CHECK(k >= 1 && k <= deg, "wrong number of applications", "k=%d", k);
  for (double x : op.in_norm) CHECK(std::abs(x - 1) < 200 * eps * n, "the operator was given a vector that is not normalised", "norm=%g", x);
  CHECK(be[0] == 0, "beta[0] is not zero", "%g", double(be[0]));
  for (int j = k; j < deg; ++j) CHECK(al[j] == 0, "coefficients beyond the invariant subspace were written", "j=%d", j);
  const double res_tol = std::sqrt(double(n)) * rtol;
  for (int j = 1; j < k; ++j) CHECK(be[j] >= res_tol * 0.999, "went on beyond an invariant subspace", "j=%d beta=%g", j, double(be[j]));
  if (k < deg) { CHECK(be[k] < res_tol * 1.001, "stopped before the subspace was invariant", "beta=%g", double(be[k])); counts["early_stops"]++; }
  if (early && deg > grade && full) CHECK(k <= grade + (sizeof(F) == 4 ? n : 0), "an invariant subspace was not detected", "k=%d", k);
  // oracle: the same recurrence in long double with complete re-orthogonalisation, as far as it is well determined
  using L = long double;
  Eigen::Matrix< L, Dynamic, Dynamic > Al = A.template cast< L >(), Q(n, k);
  Eigen::Matrix< L, Dynamic, 1 > u = q.template cast< L >(); u /= u.norm();
  L amp = 1;
  for (int j = 0; j < k; ++j) {
    Q.col(j) = u;
    Eigen::Matrix< L, Dynamic, 1 > z = Al * u;
    const L a = u.dot(z);
    for (int r = 0; r < 2; ++r) z -= Q.leftCols(j + 1) * (Q.leftCols(j + 1).transpose() * z);
    const L b = z.norm();
    const double tol = double(amp) * 100 * eps * n;
    if (tol > 1e-3) break;
    CHECK(std::abs(double(al[j] - a)) < tol, "wrong diagonal coefficient", "j=%d got=%g want=%g tol=%g", j, double(al[j]), double(a), tol);
    CHECK(std::abs(double(be[j + 1] - b)) < tol || (j + 1 == deg), "wrong off-diagonal coefficient", "j=%d got=%g want=%g", j, double(be[j + 1]), double(b));
    counts["coefficients"] += 2;
    amp *= std::max< L >(1, 4 / std::max< L >(b, 1e-18L));
    u = z / b;
  }
  if (ncv == deg) {
    Eigen::Map< DenseMatrix< F > > Vm(V.get(), n, ncv);
    const DenseMatrix< double > W = Vm.leftCols(k).template cast< double >();
    CHECK(std::abs(W.col(0).norm() - 1) < 100 * eps * n, "the first basis vector is not the starting vector", "-");
    double bmin = 1; for (int j = 1; j < k; ++j) bmin = std::min(bmin, double(be[j]));
    const double loss = 1000 * eps * n * std::pow(1.0 / bmin, 1);
    if (full && loss < 1e-2) {
      const double o = (W.transpose() * W - DenseMatrix< double >::Identity(k, k)).cwiseAbs().maxCoeff();
      CHECK(o < loss, "the basis is not orthonormal", "%g > %g", o, loss);
      counts["bases"]++;
    }
    DenseMatrix< double > T = DenseMatrix< double >::Zero(k, k);
    for (int j = 0; j < k; ++j) { T(j, j) = al[j]; if (j + 1 < k) T(j, j + 1) = T(j + 1, j) = be[j + 1]; }
    DenseMatrix< double > R = A.template cast< double >() * W - W * T;
    for (int j = 0; j + 1 < k; ++j) CHECK(R.col(j).norm() < std::max(loss, 1000.0 * eps * n) * 10, "A Q = Q T fails", "col=%d err=%g", j, R.col(j).norm());
  } else counts["rolling_buffers"]++;
}

template< typename F > static void check_operators(Rng& g) {
  const int n = size(g, 1, 20, 150), m = size(g, 1, 20, 150), k = size(g, 1, 5, 80);
  DenseMatrix< F > A = gauss< F >(g, n, m), B = gauss< F >(g, n, m);
  for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) if (irand(g, 0, 2) == 0) { A(i, j) = 0; B(j % n, j) = 0; }
  char buf[200]; std::snprintf(buf, sizeof buf, "operators<%zu> n=%d m=%d k=%d", sizeof(F), n, m, k); ctx = buf;
  const F tol = 100 * std::numeric_limits< F >::epsilon() * (n + m);
  auto run = [&](auto& op, const DenseMatrix< F >& M, const char* name) {
    auto s = op.shape();
    CHECK(s.first == size_t(n) && s.second == size_t(m), "wrong shape", "%s", name);
    std::unique_ptr< F[] > x(new F[m]), y(new F[n]);
    Vector< F > xv = gauss< F >(g, m, 1);
    std::copy(xv.data(), xv.data() + m, x.get());
    std::fill(y.get(), y.get() + n, std::numeric_limits< F >::quiet_NaN());
    op.matvec(x.get(), y.get());
    for (int i = 0; i < n; ++i) { F t = 0, a = 1; for (int j = 0; j < m; ++j) { t += M(i, j) * xv[j]; a += std::abs(M(i, j) * xv[j]); } CHECK(std::abs(t - y[i]) < tol * a, "wrong product", "%s i=%d", name, i); }
    for (int j = 0; j < m; ++j) CHECK(x[j] == xv[j], "the operator modified its input", "%s", name);
    counts["products"]++;
  };
  auto adj = [&](auto& op, const char* name) {
    std::unique_ptr< F[] > x(new F[n]), y(new F[m]), X(new F[size_t(m) * k]), Y(new F[size_t(n) * k]);
    Vector< F > xv = gauss< F >(g, n, 1);
    std::copy(xv.data(), xv.data() + n, x.get());
    std::fill(y.get(), y.get() + m, std::numeric_limits< F >::quiet_NaN());
    std::fill(Y.get(), Y.get() + size_t(n) * k, std::numeric_limits< F >::quiet_NaN());
    op.rmatvec(x.get(), y.get());
    for (int j = 0; j < m; ++j) { F t = 0, a = 1; for (int i = 0; i < n; ++i) { t += A(i, j) * xv[i]; a += std::abs(A(i, j) * xv[i]); } CHECK(std::abs(t - y[j]) < tol * a, "wrong adjoint product", "%s j=%d", name, j); }
    DenseMatrix< F > Xm = gauss< F >(g, m, k);
    std::copy(Xm.data(), Xm.data() + size_t(m) * k, X.get());
    op.matmat(X.get(), Y.get(), k);
    for (int c = 0; c < k; ++c) for (int i = 0; i < n; ++i) { F t = 0, a = 1; for (int j = 0; j < m; ++j) { t += A(i, j) * Xm(j, c); a += std::abs(A(i, j) * Xm(j, c)); } CHECK(std::abs(t - Y[size_t(c) * n + i]) < tol * a, "wrong matrix product", "%s", name); }
    counts["adjoint_products"]++; counts["matrix_products"]++;
  };
  DenseEigenLinearOperator< F > D(A);
  Eigen::SparseMatrix< F > As = A.sparseView(), Bs = B.sparseView();
  SparseEigenLinearOperator< F, false > S(As);
  run(D, A, "dense"); adj(D, "dense"); run(S, A, "sparse"); adj(S, "sparse");
  SparseEigenLinearOperator< F, true > G(As);
  {
    const DenseMatrix< F > GM = A.transpose() * A;
    auto s = G.shape();
    CHECK(s.first == size_t(m) && s.second == size_t(m), "wrong shape", "gram");
    for (int t = 0; t < 3; ++t) {
      const int c = t == 2 ? k : 1;
      const size_t len = size_t(m) * c;
      std::unique_ptr< F[] > x(new F[len]), y(new F[len]);
      DenseMatrix< F > X = gauss< F >(g, m, c);
      std::copy(X.data(), X.data() + len, x.get());
      std::fill(y.get(), y.get() + len, std::numeric_limits< F >::quiet_NaN());
      if (t == 0) G.matvec(x.get(), y.get()); else if (t == 1) G.rmatvec(x.get(), y.get()); else G.matmat(x.get(), y.get(), c);
      const DenseMatrix< F > W = GM * X;
      const F scale = 1 + A.cwiseAbs2().sum() * X.cwiseAbs().maxCoeff();
      for (size_t i = 0; i < len; ++i) CHECK(std::abs(W.data()[i] - y[i]) < tol * scale, "wrong gram product", "%s i=%zu", t == 0 ? "matvec" : t == 1 ? "rmatvec" : "matmat", i);
      counts["gram_products"]++;
    }
  }
  SparseEigenAffineOperator< F > P(As, Bs);
  run(P, A, "affine at 0");
  // parameters in any order: repeats, the zero, and products repeated at one parameter
  const int changes = irand(g, 3, 12);
  size_t done = 1;
  for (int r = 0; r < changes; ++r) {
    const F t = irand(g, 0, 3) == 0 ? F(0) : F(irand(g, -800, 800)) / 97; // not a short binary fraction
    P.set_parameter(t);
    DenseMatrix< F > M = A + t * B;
    for (int rep = irand(g, 1, 2); rep > 0; --rep) { run(P, M, "affine"); done++; counts["affine_products"]++; }
  }
  CHECK(P.n_matvecs == done, "the affine operator miscounts its products", "%zu", size_t(P.n_matvecs));
}

static_assert(LinearOperator< Watched< float > > && LinearOperator< Watched< double > >);
static_assert(LinearOperator< DenseEigenLinearOperator< double > > && AdjointOperator< DenseEigenLinearOperator< float > >);
static_assert(AffineOperator< SparseEigenAffineOperator< double > >);

int main(int argc, char** argv) {
  Rng g(std::strtoull(argv[1], nullptr, 10));
  const int rounds = std::atoi(argv[2]);
  ctx = "parameters";
  check_parameters();
  for (int i = 0; i < rounds; ++i) {
    check_orth< FT >(g);
    check_lanczos< FT >(g);
    check_operators< FT >(g);
  }
  for (auto& [k, v] : counts) std::printf("COUNT %s %ld\n", k.c_str(), v);
  return 0;
}
