// C12, C13, C14: Lanczos, the deflated operator, the block-vector traits and
// the block eigensolver.
#include "fem.hpp"

#include <mfmg/common/lanczos.templates.hpp>
#include <mfmg/dealii/anasazi.templates.hpp>
#include <mfmg/dealii/belos_traits.hpp>

#include <boost/property_tree/ptree.hpp>

using ex::Hash;
using ex::Run;
using boost::property_tree::ptree;
using SVec = dealii::Vector<double>;

std::string num(double x)
{
  std::ostringstream os;
  os << x;
  return os.str();
}
SVec to_vec(DVec const &d)
{
  SVec v(d.size());
  for (std::size_t i = 0; i < d.size(); ++i)
    v[i] = d[i];
  return v;
}
DVec to_dvec(SVec const &v) { return DVec(v.begin(), v.end()); }

struct DenseOp
{
  Dense a;
  mutable long applications = 0;
  std::size_t m() const { return a.r; }
  std::size_t n() const { return a.c; }
  void vmult(SVec &y, SVec const &x) const
  {
    ++applications;
    DVec r = mul(a, to_dvec(x));
    for (int i = 0; i < a.r; ++i)
      y[i] = r[i];
  }
};

// orthogonal matrices: identity, two reflections, an odd permutation, the
// eigenvectors of the 1d Laplacian
int const n_bases = 5;
Dense basis(int n, int k)
{
  Dense q(n, n);
  if (k == 3)
  {
    for (int i = 0; i < n; ++i)
      q(i, (i + 1) % n) = 1.;
    return q;
  }
  if (k == 4)
  {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        q(i, j) = std::sqrt(2. / (n + 1)) *
                  std::sin(M_PI * (i + 1) * (j + 1) / (n + 1));
    return q;
  }
  DVec v(n);
  for (int i = 0; i < n; ++i)
    v[i] = k == 1 ? 1. : 1. + i * (i % 2 ? -1. : 0.5);
  double const s = dot(v, v);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      q(i, j) = (i == j) - (k == 0 ? 0. : 2. * v[i] * v[j] / s);
  return q;
}
// columns of q are eigenvectors
Dense with_spectrum(DVec const &w, Dense const &q)
{
  int const n = w.size();
  Dense a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < n; ++k)
        a(i, j) += q(i, k) * w[k] * q(j, k);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      a(i, j) = a(j, i) = 0.5 * (a(i, j) + a(j, i));
  return a;
}

// ----------------------------------------------------------------------- C12

struct EigExpect
{
  DVec values;      // expected
  double value_tol; // on eigenvalues
  double res_tol;   // on residuals
};

bool check_pairs(Run &run, Dense const &a, std::vector<double> const &evals,
                 std::vector<SVec> const &evecs, EigExpect const &ex)
{
  std::size_t const k = ex.values.size();
  if (!run.check(evals.size() == k && evecs.size() == k, "number",
                 std::to_string(evals.size()) + " eigenvalues and " +
                     std::to_string(evecs.size()) +
                     " eigenvectors returned, " + std::to_string(k) +
                     " requested"))
    return false;
  for (std::size_t i = 0; i < k; ++i)
  {
    if (!run.check(int(evecs[i].size()) == a.r, "size",
                   "eigenvector of wrong size"))
      return false;
    if (i)
      run.check(evals[i] >= evals[i - 1], "order",
                "eigenvalues not in ascending order");
    DVec const v = to_dvec(evecs[i]);
    run.check(std::abs(norm(v) - 1.) < 1e-6, "norm",
              "eigenvector has norm " + num(norm(v)));
    DVec r = mul(a, v);
    for (int j = 0; j < a.r; ++j)
      r[j] -= evals[i] * v[j];
    run.check(norm(r) <= ex.res_tol, "residual",
              "pair " + std::to_string(i) + " (" + num(evals[i]) +
                  ") has residual " + num(norm(r)) + " > " + num(ex.res_tol));
    run.check(std::abs(evals[i] - ex.values[i]) <= ex.value_tol, "lowest",
              "eigenvalue " + std::to_string(i) + " is " + num(evals[i]) +
                  ", the lowest ones are " + num(ex.values[i]));
    if (run.failed())
      return false;
  }
  return true;
}

std::string show(DVec const &v)
{
  std::string s;
  for (double x : v)
    s += (s.empty() ? "" : ",") + num(x);
  return s;
}

void lanczos_run(Run &run, DenseOp const &op, ptree const &params,
                 DVec const &start, EigExpect const &ex,
                 std::vector<int> const &zeros, int repeat = 1)
{
  Dense const before = op.a;
  SVec const guess = to_vec(start);
  ptree const pbefore = params;
  std::vector<double> first_vals;
  std::vector<SVec> first_vecs;
  for (int rep = 0; rep < repeat; ++rep)
  {
    mfmg::Lanczos<DenseOp, SVec> solver(op);
    std::vector<double> evals;
    std::vector<SVec> evecs;
    op.applications = 0;
    try
    {
      std::tie(evals, evecs) = solver.solve(params, guess);
    }
    catch (std::exception const &e)
    {
      run.check(false, "exception",
                std::string("Lanczos refused a solvable problem: ") + e.what());
      return;
    }
    run.step(op.applications);
    if (!check_pairs(run, op.a, evals, evecs, ex))
      return;
    for (int z : zeros)
      for (auto const &v : evecs)
        run.check(v[z] == 0., "constrained",
                  "entry " + std::to_string(z) +
                      ", zero in the start vector and decoupled, became " +
                      num(v[z]));
    run.check(max_diff(to_dvec(guess), start) == 0. &&
                  max_diff(op.a, before) == 0. && params == pbefore,
              "unmodified", "operator, initial guess or parameters changed");
    if (rep == 0)
    {
      first_vals = evals;
      first_vecs = evecs;
    }
    else
      for (std::size_t i = 0; i < evals.size(); ++i)
        run.check(evals[i] == first_vals[i] &&
                      max_diff(to_dvec(evecs[i]), to_dvec(first_vecs[i])) == 0.,
                  "repeat", "second solve gives another result");
    Hash h;
    h << evals << show(start);
    run.observe(h);
  }
}

ptree lanczos_params(int k, double tol, int maxit, int overshoot)
{
  ptree p;
  p.put("num_eigenpairs", k);
  p.put("tolerance", tol);
  p.put("max_iterations", maxit);
  if (overshoot >= 0)
    p.put("percent_overshoot", overshoot);
  return p;
}

// plain Lanczos, distinct eigenvalues
void c12_plain(Run &run)
{
  int const n = 1 + run.choose(run.thorough ? 6 : 5, "n-1");
  int const bas = run.choose(n_bases, "basis");
  double const tol = run.pick<double>("tolerance", {1e-9, 1e-4, 1e-2});
  int const over = run.pick<int>("overshoot", {-1, 5, 50, 99});
  int const mx = run.choose(2, "max iterations");
  run.commit();
  // all ascending subsets of the alphabet of this size
  static DVec const alphabet{-2., -0.5, 0., 1., 2.5, 6., 20.};
  DVec w;
  int next = 0;
  for (int i = 0; i < n; ++i)
  {
    int const left = n - i - 1;
    int const c = run.choose(int(alphabet.size()) - left - next, "eigenvalue");
    w.push_back(alphabet[next + c]);
    next += c + 1;
  }
  int const k = 1 + run.choose(std::min(n, 4), "requested-1");
  // start vector by its components in the eigenbasis: nonzero on the wanted
  DVec start(n, 0.), coef(n);
  Dense const q = basis(n, bas);
  for (int i = 0; i < n; ++i)
    coef[i] = i < k ? (run.choose(2, "c") ? -2. : 1.)
                    : double(run.choose(2, "c"));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      start[i] += q(i, j) * coef[j];
  DenseOp op{with_spectrum(w, q)};
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  double const s = max_abs(w) + 1.;
  ex.res_tol = tol * (1 + 1e-6) + 1e-9 * s;
  ex.value_tol = ex.res_tol;
  lanczos_run(run, op, lanczos_params(k, tol, mx ? 200 : n, over), start, ex,
              {}, 2);
}

// tridiagonal operators with exactly representable coefficients, started from
// unit vectors: the iteration ends exactly (breakdown without rounding)
void c12_tridiagonal(Run &run)
{
  int const n = 1 + run.choose(run.thorough ? 16 : 10, "n-1");
  double const tol = run.pick<double>("tolerance", {1e-9, 1e-4, 1e-2});
  int const over = run.pick<int>("overshoot", {-1, 5, 20, 50, 99});
  run.commit();
  int const kind = run.choose(3, "diagonal");
  int const k = 1 + run.choose(std::min(n, 5), "requested-1");
  int const first = run.choose(2, "end");
  // a decoupled, constrained tail
  int const tail = run.choose(3, "constrained");
  Dense a(n + tail, n + tail);
  for (int i = 0; i < n; ++i)
  {
    a(i, i) = kind == 0 ? 2. : kind == 1 ? 1. + i : (i % 2 ? 4. : -1.);
    if (i)
      a(i, i - 1) = a(i - 1, i) = kind == 2 ? 0.5 : -1.;
  }
  std::vector<int> zeros;
  for (int i = n; i < n + tail; ++i)
  {
    a(i, i) = -100.;
    zeros.push_back(i);
  }
  Dense sub(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      sub(i, j) = a(i, j);
  DVec w;
  Dense v;
  jacobi_eig(sub, w, v);
  DVec start(n + tail, 0.);
  start[first ? n - 1 : 0] = 1.;
  // not deficient: every eigenvector of a tridiagonal matrix has nonzero ends,
  // but they may be tiny
  for (int i = 0; i < n; ++i)
    if (std::abs(v(first ? n - 1 : 0, i)) < 1e-2)
      run.reject();
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  ex.res_tol = tol * (1 + 1e-6) + 1e-8;
  ex.value_tol = ex.res_tol;
  DenseOp op{a};
  lanczos_run(run, op, lanczos_params(k, tol, 300, over), start, ex, zeros);
}

// deflation cycles, multiple eigenvalues
void c12_deflated(Run &run)
{
  int const n = 2 + run.choose(run.thorough ? 6 : 5, "n-2");
  int const bas = run.pick<int>("basis", {1, 2, 4});
  double const tol = run.pick<double>("tolerance", {1e-8, 1e-4});
  int const over = run.pick<int>("overshoot", {-1, 5, 50});
  run.commit();
  int const cycles = 1 + run.choose(3, "cycles-1");
  int const per = 1 + run.choose(3, "per cycle-1");
  if (cycles * per > n)
    run.reject();
  // non-decreasing spectra
  static DVec const alphabet{0.5, 2., 5., 9.};
  std::vector<int> idx;
  int lo = 0;
  for (int i = 0; i < n; ++i)
  {
    lo += run.choose(int(alphabet.size()) - lo, "eigenvalue");
    idx.push_back(lo);
  }
  DVec w;
  for (int i : idx)
    w.push_back(alphabet[i]);
  int const k = 1 + run.choose(cycles * per, "requested-1");
  // what exact cycles find: the lowest distinct ones of what is left
  std::vector<int> count(alphabet.size(), 0);
  for (int i : idx)
    ++count[i];
  DVec found;
  for (int c = 0; c < cycles; ++c)
  {
    int got = 0;
    for (std::size_t i = 0; i < alphabet.size() && got < per; ++i)
      if (count[i] > 0)
      {
        --count[i];
        ++got;
        found.push_back(alphabet[i]);
      }
    // not enough distinct eigenvalues: every start vector is deficient
    if (got < per)
      run.reject();
  }
  std::sort(found.begin(), found.end());
  for (int i = 0; i < k; ++i)
    if (found[i] != w[i])
      run.reject();
  Dense const q = basis(n, bas);
  DVec start(n, 0.);
  int const sk = run.choose(2, "start");
  for (int i = 0; i < n; ++i)
    start[i] = sk ? 1. : 1. + 0.3 * ((i * 5) % 7);
  // deficient in an eigenspace?
  Dense const a = with_spectrum(w, q);
  for (std::size_t e = 0; e < alphabet.size(); ++e)
  {
    double s = 0, cnt = 0;
    for (int j = 0; j < n; ++j)
      if (idx[j] == int(e))
      {
        double c = 0;
        for (int i = 0; i < n; ++i)
          c += q(i, j) * start[i];
        s += c * c;
        cnt += 1;
      }
    if (cnt > 0 && std::sqrt(s) < 0.05 * norm(start))
      run.reject();
  }
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  ex.res_tol = 20 * tol + 1e-7;
  ex.value_tol = 20 * tol + 1e-7;
  ptree p = lanczos_params(k, tol, 300, over);
  p.put("is_deflated", true);
  p.put("num_cycles", cycles);
  p.put("num_eigenpairs_per_cycle", per);
  DenseOp op{a};
  lanczos_run(run, op, p, start, ex, {});
}

// larger operators: more vectors, more iterations between convergence tests,
// other magnitudes
void c12_large(Run &run)
{
  int const n = run.pick<int>(
      "n", run.thorough ? std::vector<int>{12, 24, 40, 80, 140}
                        : std::vector<int>{12, 24, 40, 80});
  int const kind = run.choose(5, "spectrum");
  double const scale = run.pick<double>("scale", {1., 1e-6, 1e6});
  run.commit();
  int const k = run.pick<int>("requested", {1, 3, 7, 12});
  int const over = run.pick<int>("overshoot", {-1, 10, 60, 99});
  double const rel = run.pick<double>("relative tolerance", {1e-8, 1e-5});
  int const sk = run.choose(2, "start");
  int const mx = run.choose(2, "max iterations");
  DVec w;
  for (int i = 0; i < n; ++i)
    w.push_back(scale *
                (kind == 0   ? 1. + i
                 : kind == 1 ? 2. - 2. * std::cos(M_PI * (i + 1) / (n + 1))
                 : kind == 2 ? (i < n / 2 ? 1. + 0.05 * i : 40. + i)
                 : kind == 3 ? -7. + 0.75 * i
                             : std::pow(1.15, i)));
  Dense const q = basis(n, kind == 1 ? 4 : kind == 2 ? 1 : 2);
  DVec start(n, 0.);
  for (int j = 0; j < n; ++j)
  {
    double const c = sk ? 1. : (j % 2 ? -1. : 1.) * (1. + (j * 7) % 5);
    for (int i = 0; i < n; ++i)
      start[i] += q(i, j) * c;
  }
  double const top = max_abs(w);
  DenseOp op{with_spectrum(w, q)};
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  double const tol = rel * scale;
  ex.res_tol = tol * (1 + 1e-6) + 1e-11 * top;
  ex.value_tol = ex.res_tol;
  lanczos_run(run, op, lanczos_params(k, tol, mx ? 1000 : n, over), start, ex,
              {});
}

// the same with deflation: the cycles interleave
void c12_large_deflated(Run &run)
{
  int const n =
      run.pick<int>("n", run.thorough ? std::vector<int>{12, 30, 48, 72}
                                      : std::vector<int>{12, 30, 48});
  int const mult = 1 + run.choose(3, "multiplicity-1");
  double const scale = run.pick<double>("scale", {1., 1e-6, 1e6});
  run.commit();
  int const cycles = run.pick<int>("cycles", {1, 2, 3, 4});
  int const per = run.pick<int>("per cycle", {1, 2, 3, 4, 6});
  int const over = run.pick<int>("overshoot", {-1, 20});
  // every eigenvalue with this multiplicity; one pair of each per cycle
  int const distinct = n / mult;
  if (cycles > mult && mult > 1)
    run.reject();
  DVec w;
  for (int i = 0; i < n; ++i)
    w.push_back(scale * (0.5 + i / mult));
  std::vector<int> count(n / mult, mult);
  DVec found;
  for (int c = 0; c < cycles; ++c)
  {
    int got = 0;
    for (int i = 0; i < distinct && got < per; ++i)
      if (count[i] > 0)
      {
        --count[i];
        ++got;
        found.push_back(w[i * mult]);
      }
    if (got < per)
      run.reject();
  }
  std::sort(found.begin(), found.end());
  int lowest = 0;
  while (lowest < int(found.size()) && found[lowest] == w[lowest])
    ++lowest;
  int const less = run.choose(3, "fewer");
  int const k = std::min<int>(lowest, cycles * per) - less;
  if (k < 1)
    run.reject();
  Dense const q = basis(n, 2);
  DVec start(n, 0.);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      start[i] += q(i, j) * (1. + (j * 5) % 3);
  DenseOp op{with_spectrum(w, q)};
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  double const tol = 1e-8 * scale;
  ex.res_tol = 20 * tol + 1e-10 * max_abs(w);
  ex.value_tol = ex.res_tol;
  ptree p = lanczos_params(k, tol, 1000, over);
  p.put("is_deflated", true);
  p.put("num_cycles", cycles);
  p.put("num_eigenpairs_per_cycle", per);
  lanczos_run(run, op, p, start, ex, {});
}

// stopped by the number of iterations: the lowest Ritz pairs of the Krylov
// space of that dimension
void c12_truncated(Run &run)
{
  int const n = run.pick<int>("n", {3, 4, 5, 6, 8, 12, 20});
  int const kind = run.choose(3, "spectrum");
  int const over = run.pick<int>("overshoot", {-1, 30, 99});
  run.commit();
  int const m = 1 + run.choose(std::min(n - 1, 9), "iterations-1");
  int const k = 1 + run.choose(std::min(m, 4), "requested-1");
  int const bas = run.pick<int>("basis", {0, 1, 2, 4});
  int const sk = run.choose(2, "start");
  DVec w;
  for (int i = 0; i < n; ++i)
    w.push_back(kind == 0   ? 1. + i
                : kind == 1 ? -3. + 1.5 * i + 0.25 * i * i
                            : (i % 2 ? 8. + i : 0.5 + i));
  std::sort(w.begin(), w.end());
  Dense const q = basis(n, bas);
  DVec start(n, 0.);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < n; ++i)
      start[i] += q(i, j) * (sk ? 1. : (j % 2 ? -1. : 2.));
  DenseOp op{with_spectrum(w, q)};
  // orthonormal basis of the Krylov space
  std::vector<DVec> u;
  DVec x = start;
  for (int j = 0; j < m; ++j)
  {
    for (int rep = 0; rep < 3; ++rep)
      for (auto const &y : u)
      {
        double const c = dot(x, y);
        for (int i = 0; i < n; ++i)
          x[i] -= c * y[i];
      }
    double const s = norm(x);
    if (s < 1e-3) // nearly invariant: may stop before
      run.reject();
    for (double &c : x)
      c /= s;
    u.push_back(x);
    x = mul(op.a, x);
  }
  Dense t(m, m), s;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < m; ++j)
      t(i, j) = dot(u[i], mul(op.a, u[j]));
  DVec ritz;
  jacobi_eig(t, ritz, s);
  mfmg::Lanczos<DenseOp, SVec> solver(op);
  std::vector<double> evals;
  std::vector<SVec> evecs;
  try
  {
    std::tie(evals, evecs) =
        solver.solve(lanczos_params(k, 1e-13, m, over), to_vec(start));
  }
  catch (std::exception const &e)
  {
    run.check(false, "exception", std::string("refused: ") + e.what());
    return;
  }
  run.step(op.applications);
  run.check(op.applications <= m, "iterations",
            std::to_string(op.applications) +
                " applications of the operator with max_iterations=" +
                std::to_string(m));
  if (!run.check(int(evals.size()) == k && int(evecs.size()) == k, "number",
                 "wrong number of pairs"))
    return;
  for (int i = 0; i < k; ++i)
  {
    run.check(std::abs(evals[i] - ritz[i]) < 1e-7, "Ritz value",
              "after " + std::to_string(m) + " iterations, value " +
                  std::to_string(i) + " is " + num(evals[i]) +
                  ", the Ritz value is " + num(ritz[i]));
    // the vector lies in the space and has this Rayleigh quotient
    DVec v = to_dvec(evecs[i]);
    run.check(std::abs(norm(v) - 1.) < 1e-6, "norm", "not normalised");
    DVec want(n, 0.);
    for (int j = 0; j < m; ++j)
      for (int r = 0; r < n; ++r)
        want[r] += u[j][r] * s(j, i);
    bool const separate = (i == 0 || ritz[i] - ritz[i - 1] > 1e-2) &&
                          (i + 1 >= m || ritz[i + 1] - ritz[i] > 1e-2);
    if (separate)
      run.check(std::abs(std::abs(dot(v, want)) - 1.) < 1e-6, "Ritz vector",
                "after " + std::to_string(m) + " iterations, vector " +
                    std::to_string(i) + " is not the Ritz vector");
  }
  Hash h;
  h << n << m << evals;
  run.observe(h);
}

void c12(Run &run)
{
  switch (run.choose(6, "part"))
  {
  case 0:
    return c12_plain(run);
  case 1:
    return c12_tridiagonal(run);
  case 2:
    return c12_deflated(run);
  case 3:
    return c12_large(run);
  case 4:
    return c12_large_deflated(run);
  default:
    return c12_truncated(run);
  }
}

// ----------------------------------------------------------------------- C13

void c13_small(Run &run)
{
  int const n = 1 + run.choose(run.thorough ? 5 : 4, "n-1");
  int const scale_kind = run.choose(3, "scale");
  int const ak = run.choose(3, "operator");
  run.commit();
  // up to this many additions of up to two vectors each; the entries of the
  // vectors range over an alphabet
  int const total = n <= 2 ? 4 : n == 3 ? 3 : 2;
  Dense a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      a(i, j) = ak == 0 ? (i == j ? 1. + i : 0.)
                        : ak == 1 ? 1. / (1. + i + j)
                                  : 1. + i - 2. * j + 0.5 * ((i * j) % 3);
  DenseOp base{a};
  mfmg::DeflatedOperator<DenseOp, SVec> op(base);
  run.check(op.m() == std::size_t(n) && op.n() == std::size_t(n), "size",
            "sizes differ from the base operator");
  std::vector<DVec> ortho; // orthonormal basis of the span so far
  int left = total;
  Hash h;
  h << n << ak << scale_kind;
  for (int round = 0;; ++round)
  {
    // check
    auto project = [&](DVec x)
    {
      for (int rep = 0; rep < 2; ++rep)
        for (auto const &q : ortho)
        {
          double const c = dot(q, x);
          for (int i = 0; i < n; ++i)
            x[i] -= c * q[i];
        }
      return x;
    };
    for (int s = -1; s < n; ++s)
    {
      DVec x(n, 0.);
      if (s < 0)
        for (int i = 0; i < n; ++i)
          x[i] = 1.5 - i + 0.25 * i * i;
      else
        x[s] = 1.;
      SVec xv = to_vec(x);
      op.deflate(xv);
      DVec const px = project(x);
      run.check(max_diff(to_dvec(xv), px) < 1e-9, "deflate",
                "deflated vector differs from (I-P) x by " +
                    num(max_diff(to_dvec(xv), px)));
      SVec in = to_vec(px), y(n);
      y = 3.;
      op.vmult(y, in);
      run.step(2);
      DVec const want = project(mul(a, px));
      run.check(max_diff(to_dvec(y), want) < 1e-8, "apply",
                "operator differs from (I-P) A (I-P) by " +
                    num(max_diff(to_dvec(y), want)));
      run.check(max_diff(to_dvec(in), px) == 0., "source",
                "apply changed its source");
      // no matter how small or large the vector is
      for (double f : {1e-18, 1e18})
      {
        DVec xs = x, ps = px, ws = want;
        for (int i = 0; i < n; ++i)
        {
          xs[i] *= f;
          ps[i] *= f;
          ws[i] *= f;
        }
        SVec xf = to_vec(xs), pf = to_vec(ps), yf(n);
        op.deflate(xf);
        op.vmult(yf, pf);
        run.step(2);
        run.check(max_diff(to_dvec(xf), ps) < 1e-9 * f, "deflate",
                  "wrong for a vector of size " + num(f));
        run.check(max_diff(to_dvec(yf), ws) < 1e-8 * f, "apply",
                  "wrong for a vector of size " + num(f));
      }
    }
    h << std::uint64_t(ortho.size());
    if (run.failed())
      return;
    if (left == 0)
      break;
    int const k = run.choose(std::min(left, 2) + 1, "add");
    if (k == 0 && round > 0)
      break;
    left -= k;
    std::vector<SVec> vs;
    for (int v = 0; v < k; ++v)
    {
      DVec x(n);
      for (int i = 0; i < n; ++i)
      {
        static double const alphabet[3] = {0., 1., -2.};
        x[i] = alphabet[run.choose(3, "x")];
      }
      if (max_abs(x) == 0.)
        run.reject(); // not a direction
      double const f = scale_kind == 0
                           ? 1.
                           : std::pow(10., (scale_kind == 1 ? 6. : -3.) *
                                               (v % 2 ? 1 : -1));
      // the span, in the reference: a dependent vector adds nothing
      DVec r = project(x);
      if (norm(r) > 1e-6 * norm(x))
      {
        double const s = norm(r);
        for (double &c : r)
          c /= s;
        ortho.push_back(r);
      }
      for (double &c : x)
      {
        h << c;
        c *= f;
      }
      vs.push_back(to_vec(x));
    }
    std::vector<DVec> copies;
    for (auto const &v : vs)
      copies.push_back(to_dvec(v));
    op.add_deflation_vecs(vs);
    for (std::size_t i = 0; i < vs.size(); ++i)
      run.check(max_diff(to_dvec(vs[i]), copies[i]) == 0., "source",
                "deflation vectors changed");
    if (k == 0)
      continue;
  }
  run.check(max_diff(base.a, a) == 0., "operator", "base operator changed");
  run.observe(h);
}

// more and longer vectors: every sequence over a pool with dependent members,
// cut into batches in every way
void c13_large(Run &run)
{
  int const n = run.pick<int>("n", {12, 30});
  int const ak = run.choose(2, "operator");
  int const copies = run.pick<int>("copies", {1, 3});
  int const length = 1 + run.choose(run.thorough ? 5 : 4, "vectors-1");
  run.commit();
  Dense a(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      a(i, j) = ak ? 1. / (1. + i + j)
                   : 1. + 0.1 * i - 0.2 * j + 0.5 * ((i * j) % 3);
  // the pool: three independent directions and two of their combinations; the
  // copies shift them, so that several times as many vectors are deflated
  int const pool = 5;
  auto vec = [&](int p, int shift)
  {
    DVec x(n, 0.);
    for (int i = 0; i < n; ++i)
    {
      double const x0 = i == shift ? 1. : 0.,
                   x1 = ((i + shift) % 4 == 1) ? -2. : 0.5 * ((i * i) % 3),
                   x2 = 1. + 0.01 * i * (i + shift);
      x[i] = p == 0   ? x0
             : p == 1 ? x1
             : p == 2 ? x2
             : p == 3 ? 1e4 * (x1 - 0.5 * x0)
                      : 1e-4 * (x2 + 3. * x1);
    }
    return x;
  };
  DenseOp base{a};
  mfmg::DeflatedOperator<DenseOp, SVec> op(base);
  std::vector<DVec> ortho;
  auto project = [&](DVec x)
  {
    for (int rep = 0; rep < 2; ++rep)
      for (auto const &q : ortho)
      {
        double const c = dot(q, x);
        for (int i = 0; i < n; ++i)
          x[i] -= c * q[i];
      }
    return x;
  };
  Hash h;
  h << n << ak << copies;
  std::vector<SVec> batch;
  for (int v = 0; v < length; ++v)
  {
    int const p = run.choose(pool, "vector");
    for (int c = 0; c < copies; ++c)
    {
      DVec const x = vec(p, c);
      h << x;
      DVec r = project(x);
      if (norm(r) > 1e-6 * norm(x))
      {
        double const s = norm(r);
        for (double &y : r)
          y /= s;
        ortho.push_back(r);
      }
      batch.push_back(to_vec(x));
    }
    if (v + 1 < length && run.choose(2, "same batch"))
      continue;
    op.add_deflation_vecs(batch);
    batch.clear();
    for (int s = 0; s < 3; ++s)
    {
      DVec x(n);
      for (int i = 0; i < n; ++i)
        x[i] = s == 0   ? 1.5 - i + 0.25 * i * (i % 5)
               : s == 1 ? (i == n - 1)
                        : std::sin(1. + i);
      SVec xv = to_vec(x);
      op.deflate(xv);
      DVec const px = project(x);
      run.check(max_diff(to_dvec(xv), px) < 1e-8 * (1 + max_abs(x)), "deflate",
                "deflated vector differs from (I-P) x by " +
                    num(max_diff(to_dvec(xv), px)));
      SVec in = to_vec(px), y(n);
      y = 3.;
      op.vmult(y, in);
      run.step(2);
      DVec const want = project(mul(a, px));
      run.check(max_diff(to_dvec(y), want) < 1e-8 * (1 + max_abs(want)),
                "apply",
                "operator differs from (I-P) A (I-P) by " +
                    num(max_diff(to_dvec(y), want)));
    }
    if (run.failed())
      return;
  }
  run.check(max_diff(base.a, a) == 0., "operator", "base operator changed");
  run.observe(h);
}

void c13(Run &run)
{
  if (run.choose(2, "part") == 0)
    c13_small(run);
  else
    c13_large(run);
}

// ----------------------------------------------------------------------- C14

using MV = mfmg::MultiVector<SVec>;
using MVT = Anasazi::MultiVecTraits<double, MV>;
using SDM = Teuchos::SerialDenseMatrix<int, double>;

// Model: columns are cells of a store; a multi-vector is a list of cells.
struct Model
{
  int len = 0;
  double unit = 1.; // size of the entries
  std::vector<DVec> store;
  std::vector<std::vector<int>> mv; // columns
  std::vector<Teuchos::RCP<MV>> real;
  int fresh(DVec const &v)
  {
    store.push_back(v);
    return store.size() - 1;
  }
};

void compare(Run &run, Model const &m, std::string const &after)
{
  double scale = m.unit;
  if (m.unit != 1.)
    for (auto const &v : m.store)
      scale = std::max(scale, max_abs(v));
  for (std::size_t k = 0; k < m.mv.size(); ++k)
  {
    auto const &r = *m.real[k];
    if (!run.check(MVT::GetNumberVecs(r) == int(m.mv[k].size()), "number",
                   after + ": number of vectors " +
                       std::to_string(MVT::GetNumberVecs(r)) + " instead of " +
                       std::to_string(m.mv[k].size())))
      return;
    run.check(m.mv[k].empty() || MVT::GetGlobalLength(r) == m.len, "length",
              after + ": wrong length");
    for (std::size_t c = 0; c < m.mv[k].size(); ++c)
    {
      if (!run.check(int(r[c]->size()) == m.len, "length",
                     after + ": column of wrong length"))
        return;
      double const e = max_diff(to_dvec(*r[c]), m.store[m.mv[k][c]]);
       run.check(e < 1e-12 * scale, "value",
                after + ": column " + std::to_string(c) + " of multi-vector " +
                    std::to_string(k) + " differs by " + num(e));
    }
    if (run.failed())
      return;
  }
}

// does column i of x alias column j != i of y?
bool cross_alias(std::vector<int> const &x, std::vector<int> const &y)
{
  for (std::size_t i = 0; i < x.size(); ++i)
    for (std::size_t j = 0; j < y.size(); ++j)
      if (i != j && x[i] == y[j])
        return true;
  return false;
}
bool any_alias(std::vector<int> const &x, std::vector<int> const &y)
{
  for (int i : x)
    for (int j : y)
      if (i == j)
        return true;
  return false;
}

std::vector<std::vector<int>> selections(int n)
{
  if (n > 4)
  {
    // some: nothing, all, reversed, every second, a long shuffled one, single
    // ones
    std::vector<std::vector<int>> r(9);
    for (int i = 0; i < n; ++i)
    {
      r[1].push_back(i);
      r[2].push_back(n - 1 - i);
      if (i % 2)
        r[3].push_back(i);
      if (i % 5 != 2)
        r[4].push_back((i * 5 + 3) % n);
      if (i < 5)
        r[5].push_back((i * 2 + n - 2) % n);
    }
    std::sort(r[4].begin(), r[4].end());
    r[4].erase(std::unique(r[4].begin(), r[4].end()), r[4].end());
    std::reverse(r[4].begin(), r[4].end() - 1);
    r[6] = {n - 1};
    r[7] = {0};
    if (n > 9)
      for (int i = 0; i < 9; ++i)
        r[8].push_back((i * 4 + 8) % n);
    return r;
  }
  // all ordered selections without repetition
  std::vector<std::vector<int>> r{{}};
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> s)
  {
    for (int i = 0; i < n; ++i)
      if (std::find(s.begin(), s.end(), i) == s.end())
      {
        auto t = s;
        t.push_back(i);
        r.push_back(t);
        rec(t);
      }
  };
  rec({});
  return r;
}

void c14_traits(Run &run)
{
  Model m;
  // long vectors with many columns: one operation
  int const wide = run.choose(3, "wide");
  m.len = wide ? run.pick<int>("length", {33, 70})
               : run.pick<int>("length", {1, 2, 4});
  int const c0 = wide ? (wide == 1 ? 9 : 17)
                      : 1 + run.choose(3, "columns of a-1"),
            c1 = wide ? run.pick<int>("columns of b", {c0, 5})
                      : 1 + run.choose(3, "columns of b-1");
  // the size of the entries must not matter (a power of two)
  double const unit = run.choose(2, "scale") ? std::ldexp(1., -66) : 1.;
  bool const deep = run.thorough && unit == 1.;
  int const depth = wide ? (deep ? 2 : 1) : (deep ? 3 : 2);
  m.unit = unit;
  int const first = run.choose(16, "operation 0");
  run.commit();
  for (int k = 0; k < 2; ++k)
  {
    int const c = k ? c1 : c0;
    std::vector<std::shared_ptr<SVec>> vs;
    std::vector<int> cells;
    for (int j = 0; j < c; ++j)
    {
      DVec v(m.len);
      for (int i = 0; i < m.len; ++i)
        v[i] = unit * (1. + k * 7 + j * 3 - i * 1.5 + (i * j) % 2);
      vs.push_back(std::make_shared<SVec>(to_vec(v)));
      cells.push_back(m.fresh(v));
    }
    m.real.push_back(Teuchos::rcp(new MV(vs)));
    m.mv.push_back(cells);
  }
  compare(run, m, "start");
  static double const scalars[3] = {0., 1., -2.5};
  Hash h;
  for (int step = 0; step < depth && !run.failed(); ++step)
  {
    int const op = step == 0 ? first : run.choose(16, "operation");
    int const nmv = m.mv.size();
    auto pick_mv = [&](char const *l) { return run.choose(nmv, l); };
    auto pick_sel = [&](int n)
    {
      auto s = selections(n);
      return s[run.choose(s.size(), "index")];
    };
    auto pick_range = [&](int n)
    {
      if (n > 4)
      {
        int const lo = run.pick<int>("lo", {0, 1, n / 2, n - 1});
        int const len = run.pick<int>("len", {1, 2, n / 2, n});
        return Teuchos::Range1D(lo, std::min(lo + len, n) - 1);
      }
      int const lo = run.choose(n, "lo");
      int const hi = lo + run.choose(n - lo, "len");
      return Teuchos::Range1D(lo, hi);
    };
    std::string what = "operation " + std::to_string(op);
    int const s = pick_mv("x");
    int const ns = m.mv[s].size();
    auto &rs = *m.real[s];
    auto const &crs = rs;
    if (ns == 0 && op != 0 && op != 1 && op != 7)
      run.reject();
    auto add_copy = [&](std::vector<int> const &sel, Teuchos::RCP<MV> const &r)
    {
      std::vector<int> cells;
      for (int i : sel)
      {
        DVec const v = m.store[m.mv[s][i]];
        cells.push_back(m.fresh(v));
      }
      m.mv.push_back(cells);
      m.real.push_back(r);
    };
    auto add_view = [&](std::vector<int> const &sel, Teuchos::RCP<MV> const &r)
    {
      std::vector<int> cells;
      for (int i : sel)
        cells.push_back(m.mv[s][i]);
      m.mv.push_back(cells);
      m.real.push_back(r);
    };
    auto range_sel = [&](Teuchos::Range1D const &r)
    {
      std::vector<int> v;
      for (int i = r.lbound(); i <= r.ubound(); ++i)
        v.push_back(i);
      return v;
    };
    std::vector<int> all(ns);
    std::iota(all.begin(), all.end(), 0);
    switch (op)
    {
    case 0:
    {
      int const k = run.choose(4, "k");
      if (ns == 0)
        run.reject();
      auto r = MVT::Clone(crs, k);
      // contents are unspecified: initialise
      MVT::MvInit(*r, 2. * unit);
      std::vector<int> cells;
      for (int i = 0; i < k; ++i)
        cells.push_back(m.fresh(DVec(m.len, 2. * unit)));
      m.mv.push_back(cells);
      m.real.push_back(r);
      break;
    }
    case 1:
      add_copy(all, MVT::CloneCopy(crs));
      break;
    case 2:
    {
      auto sel = pick_sel(ns);
      add_copy(sel, MVT::CloneCopy(crs, sel));
      break;
    }
    case 3:
    {
      auto r = pick_range(ns);
      add_copy(range_sel(r), MVT::CloneCopy(crs, r));
      break;
    }
    case 4:
    {
      auto sel = pick_sel(ns);
      add_view(sel, MVT::CloneViewNonConst(rs, sel));
      break;
    }
    case 5:
    {
      auto r = pick_range(ns);
      add_view(range_sel(r), MVT::CloneViewNonConst(rs, r));
      break;
    }
    case 6:
    {
      int const how = run.choose(2, "how");
      if (how == 0)
      {
        auto sel = pick_sel(ns);
        add_view(sel, Teuchos::rcp_const_cast<MV>(MVT::CloneView(crs, sel)));
      }
      else
      {
        auto r = pick_range(ns);
        add_view(range_sel(r),
                 Teuchos::rcp_const_cast<MV>(MVT::CloneView(rs, r)));
      }
      break;
    }
    case 7:
    {
      // mv = alpha A B + beta mv
      int const a = pick_mv("a");
      if (ns == 0 || m.mv[a].empty() || any_alias(m.mv[a], m.mv[s]))
        run.reject();
      double const alpha = scalars[run.choose(3, "alpha")],
                   beta = scalars[run.choose(3, "beta")];
      int const na = m.mv[a].size();
      SDM b(na, ns);
      int const bk = run.choose(4, "b");
      for (int i = 0; i < na; ++i)
        for (int j = 0; j < ns; ++j)
          b(i, j) = bk == 0   ? (i == j)
                    : bk == 1 ? 1. + i - 2. * j
                    : bk == 2 ? 0.
                              : std::ldexp(1. + i + 2. * j, -60);
      SDM const bb(b);
      std::vector<DVec> out;
      for (int j = 0; j < ns; ++j)
      {
        DVec v(m.len, 0.);
        for (int x = 0; x < m.len; ++x)
        {
          v[x] = beta * m.store[m.mv[s][j]][x];
          for (int i = 0; i < na; ++i)
            v[x] += alpha * m.store[m.mv[a][i]][x] * b(i, j);
        }
        out.push_back(v);
      }
      MVT::MvTimesMatAddMv(alpha, *m.real[a], b, beta, rs);
      for (int j = 0; j < ns; ++j)
      {
        // (small products count)
        if (beta == 0.)
        {
          DVec size(m.len, 0.);
          for (int i = 0; i < na; ++i)
            for (int x = 0; x < m.len; ++x)
              size[x] += std::abs(alpha * m.store[m.mv[a][i]][x] * b(i, j));
          run.check(max_diff(to_dvec(*rs[j]), out[j]) <= 1e-12 * max_abs(size),
                    "MvTimesMatAddMv", "small coefficients do not count");
        }
        m.store[m.mv[s][j]] = out[j];
      }
      for (int i = 0; i < na; ++i)
        for (int j = 0; j < ns; ++j)
          run.check(b(i, j) == bb(i, j), "operand", "matrix changed");
      break;
    }
    case 8:
    {
      // mv = alpha A + beta B, outputs may be the inputs
      int const a = pick_mv("a"), b = pick_mv("b");
      if (int(m.mv[a].size()) != ns || int(m.mv[b].size()) != ns ||
          cross_alias(m.mv[s], m.mv[a]) || cross_alias(m.mv[s], m.mv[b]))
        run.reject();
      double const alpha = scalars[run.choose(3, "alpha")],
                   beta = scalars[run.choose(3, "beta")];
      std::vector<DVec> out;
      for (int j = 0; j < ns; ++j)
      {
        DVec v(m.len);
        for (int x = 0; x < m.len; ++x)
          v[x] = alpha * m.store[m.mv[a][j]][x] +
                 beta * m.store[m.mv[b][j]][x];
        out.push_back(v);
      }
      MVT::MvAddMv(alpha, *m.real[a], beta, *m.real[b], rs);
      for (int j = 0; j < ns; ++j)
        m.store[m.mv[s][j]] = out[j];
      break;
    }
    case 9:
    {
      if (run.choose(2, "how") == 0)
      {
        double const alpha = scalars[run.choose(3, "alpha")];
        MVT::MvScale(rs, alpha);
        for (int j = 0; j < ns; ++j)
          for (double &x : m.store[m.mv[s][j]])
            x *= alpha;
      }
      else
      {
        std::vector<double> al(ns);
        int const pattern = ns > 4 ? run.choose(3, "pattern") : 0;
        for (int j = 0; j < ns; ++j)
          al[j] = ns > 4 ? scalars[(j * (pattern + 1) + pattern) % 3] + j
                         : scalars[run.choose(3, "alpha")];
        MVT::MvScale(rs, al);
        for (int j = 0; j < ns; ++j)
          for (double &x : m.store[m.mv[s][j]])
            x *= al[j];
      }
      break;
    }
    case 10:
    {
      int const a = pick_mv("a");
      int const na = m.mv[a].size();
      if (na == 0)
        run.reject();
      double const alpha = scalars[run.choose(3, "alpha")];
      SDM c(ns, na);
      c.putScalar(99.);
      MVT::MvTransMv(alpha, crs, *m.real[a], c);
      for (int i = 0; i < ns; ++i)
        for (int j = 0; j < na; ++j)
          run.check(std::abs(c(i, j) - alpha * dot(m.store[m.mv[s][i]],
                                                   m.store[m.mv[a][j]])) <=
                        1e-10 * std::abs(alpha) * norm(m.store[m.mv[s][i]]) *
                            norm(m.store[m.mv[a][j]]),
                    "MvTransMv", "block product differs");
      break;
    }
    case 11:
    {
      int const a = pick_mv("a");
      if (int(m.mv[a].size()) != ns)
        run.reject();
      std::vector<double> d(run.choose(2, "presized") ? 5 : 0, 77.);
      MVT::MvDot(crs, *m.real[a], d);
      run.check(int(d.size()) >= ns, "MvDot", "too few values");
      for (int j = 0; j < ns && !run.failed(); ++j)
        run.check(std::abs(d[j] - dot(m.store[m.mv[s][j]],
                                      m.store[m.mv[a][j]])) <=
                      1e-10 * norm(m.store[m.mv[s][j]]) *
                          norm(m.store[m.mv[a][j]]),
                  "MvDot", "inner product differs");
      break;
    }
    case 12:
    {
      std::vector<double> d(run.choose(2, "presized") ? 5 : 0, 77.);
      MVT::MvNorm(crs, d);
      run.check(int(d.size()) >= ns, "MvNorm", "too few values");
      for (int j = 0; j < ns && !run.failed(); ++j)
        run.check(std::abs(d[j] - norm(m.store[m.mv[s][j]])) <=
                      1e-10 * norm(m.store[m.mv[s][j]]),
                  "MvNorm", "norm differs");
      break;
    }
    case 13:
    {
      // columns of A into selected columns of mv
      int const a = pick_mv("a");
      int const na = m.mv[a].size();
      if (na > ns || na == 0)
        run.reject();
      std::vector<int> sel;
      bool const range = run.choose(2, "range");
      int lo = 0;
      if (range)
      {
        lo = run.choose(ns - na + 1, "lo");
        for (int i = 0; i < na; ++i)
          sel.push_back(lo + i);
      }
      else
      {
        std::vector<std::vector<int>> v;
        for (auto const &x : selections(ns))
          if (int(x.size()) == na)
            v.push_back(x);
        if (v.empty())
          run.reject();
        sel = v[run.choose(v.size(), "index")];
      }
      std::vector<int> target;
      for (int i : sel)
        target.push_back(m.mv[s][i]);
      if (cross_alias(target, m.mv[a]))
        run.reject();
      if (range)
        MVT::SetBlock(*m.real[a], Teuchos::Range1D(lo, lo + na - 1), rs);
      else
        MVT::SetBlock(*m.real[a], sel, rs);
      std::vector<DVec> out;
      for (int i = 0; i < na; ++i)
        out.push_back(m.store[m.mv[a][i]]);
      for (int i = 0; i < na; ++i)
        m.store[target[i]] = out[i];
      break;
    }
    case 14:
      if (run.choose(2, "what") == 0)
      {
        double const alpha = scalars[run.choose(3, "alpha")];
        if (alpha == 0.)
          MVT::MvInit(rs);
        else
          MVT::MvInit(rs, alpha * unit);
        for (int j = 0; j < ns; ++j)
          m.store[m.mv[s][j]] = DVec(m.len, alpha * unit);
      }
      else
      {
        MVT::MvRandom(rs);
        std::set<double> seen;
        for (int j = 0; j < ns; ++j)
        {
          DVec const v = to_dvec(*rs[j]);
          for (double x : v)
            run.check(x >= -1. && x <= 1. && seen.insert(x).second, "MvRandom",
                      "not random: " + num(x));
          m.store[m.mv[s][j]] = v;
        }
      }
      break;
    case 15:
    {
      bool thrown = false;
      int const a = pick_mv("a");
      try
      {
        if (run.choose(2, "what"))
          MVT::Assign(*m.real[a], rs);
        else
        {
          std::ostringstream os;
          MVT::MvPrint(crs, os);
        }
      }
      catch (mfmg::NotImplementedExc const &)
      {
        thrown = true;
      }
      run.check(thrown, "not provided",
                "an operation that is not provided does not throw");
      break;
    }
    }
    run.step();
    compare(run, m, what);
    h << op << std::uint64_t(m.mv.size());
    for (auto const &x : m.mv)
      for (int c : x)
        h << m.store[c];
    run.observe(h);
  }
  // copies and views stay valid when the originals go away
  if (!run.failed())
  {
    m.real[0] = Teuchos::null;
    m.mv.erase(m.mv.begin());
    m.real.erase(m.real.begin());
    compare(run, m, "original destroyed");
  }
}

void c14_operator(Run &run)
{
  int const n = run.pick<int>("n", {1, 2, 3, 4, 33, 70}),
            c = run.pick<int>("columns", {0, 1, 2, 3, 9, 17});
  run.commit();
  dealii::DynamicSparsityPattern dsp(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      dsp.add(i, j);
  dealii::SparsityPattern sp;
  sp.copy_from(dsp);
  dealii::SparseMatrix<double> a(sp);
  Dense d(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
    {
      d(i, j) = 1. + i - 3. * j + (i * j) % 2;
      a.set(i, j, d(i, j));
    }
  MV x(c, n), y(c, n);
  for (int j = 0; j < c; ++j)
    for (int i = 0; i < n; ++i)
    {
      (*x[j])[i] = 1. + j * 2. - i;
      (*y[j])[i] = 55.;
    }
  MV x0(c, n);
  for (int j = 0; j < c; ++j)
    *x0[j] = *x[j];
  Anasazi::OperatorTraits<double, MV, dealii::SparseMatrix<double>>::Apply(a, x,
                                                                          y);
  run.step();
  for (int j = 0; j < c; ++j)
  {
    run.check(max_diff(to_dvec(*y[j]), mul(d, to_dvec(*x0[j]))) < 1e-12,
              "apply", "operator on a multi-vector differs");
    run.check(max_diff(to_dvec(*x[j]), to_dvec(*x0[j])) == 0., "source",
              "operator changed its source");
  }
  Hash h;
  h << n << c;
  run.observe(h);
}

void c14_lobpcg(Run &run)
{
  int const n = run.pick<int>("n", run.thorough
                                       ? std::vector<int>{4, 6, 9, 12, 16, 25}
                                       : std::vector<int>{4, 6, 9, 12});
  int const kind = run.choose(5, "matrix");
  int const k = 1 + run.choose(std::min(4, (n - 1) / 3), "requested-1");
  double const tol = run.pick<double>("tolerance", {1e-2, 1e-4, 1e-6});
  run.commit();
  int const full = run.choose(3, "full ortho");
  int const guesses = run.choose(3, "guesses"); // 1, k, k dependent
  int const sk = run.choose(3, "start");
  Dense a(n, n);
  if (kind == 0)
    for (int i = 0; i < n; ++i)
    {
      a(i, i) = 2.;
      if (i)
        a(i, i - 1) = a(i - 1, i) = -1.;
    }
  else if (kind == 1) // distinct
  {
    DVec w;
    for (int i = 0; i < n; ++i)
      w.push_back(1. + i * i * 0.5);
    a = with_spectrum(w, basis(n, 1));
  }
  else if (kind == 2) // multiple
  {
    DVec w;
    for (int i = 0; i < n; ++i)
      w.push_back(1. + i / 2);
    a = with_spectrum(w, basis(n, 2));
  }
  else if (kind == 3) // diagonal with clusters
    for (int i = 0; i < n; ++i)
      a((i * 5 + 2) % n, (i * 5 + 2) % n) += 1. + (i % 3) + 0.1 * i;
  else // multiplicity three
  {
    DVec w;
    for (int i = 0; i < n; ++i)
      w.push_back(0.25 + i / 3);
    a = with_spectrum(w, basis(n, 4));
  }
  for (int i = 0; i < n; ++i)
    if (a(i, i) == 0.)
      a(i, i) = 7.;
  dealii::DynamicSparsityPattern dsp(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (a(i, j) != 0. || i == j)
        dsp.add(i, j);
  dealii::SparsityPattern sp;
  sp.copy_from(dsp);
  dealii::SparseMatrix<double> m(sp);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (a(i, j) != 0.)
        m.set(i, j, a(i, j));
  DVec w;
  Dense v;
  jacobi_eig(a, w, v);
  ptree p;
  p.put("number of eigenvectors", k);
  p.put("tolerance", tol);
  if (full < 2)
    p.put("full_ortho", full == 1);
  std::vector<std::shared_ptr<SVec>> init;
  int const ng = guesses == 0 ? 1 : k;
  for (int g = 0; g < ng; ++g)
  {
    DVec x(n);
    for (int i = 0; i < n; ++i)
      x[i] = sk == 0   ? 1. + (guesses == 1) * ((i * (g + 2)) % 5)
             : sk == 1 ? 1. + 0.37 * ((i * i + (guesses == 1) * 3 * g) % 7)
                       : (i % 2 ? -1. : 1.) * (1. + 0.1 * i * i) +
                             (guesses == 1 ? g * (i % 3) : 0.);
    init.push_back(std::make_shared<SVec>(to_vec(x)));
  }
  // the guesses must span something of what is wanted
  if (ng == k)
  {
    Dense g(k, k);
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j)
      {
        double s = 0;
        for (int x = 0; x < n; ++x)
          s += v(x, i) * (*init[j])[x];
        g(i, j) = s / init[j]->l2_norm();
      }
    Dense gg = mul(g, transpose(g)), ev;
    DVec sv;
    jacobi_eig(gg, sv, ev);
    if (guesses == 1 && sv[0] < 0.01)
      run.reject();
  }
  std::vector<DVec> before;
  for (auto const &x : init)
    before.push_back(to_dvec(*x));
  mfmg::AnasaziSolver<dealii::SparseMatrix<double>, SVec> solver(m);
  std::vector<double> evals;
  std::vector<SVec> evecs;
  bool refused = false;
  try
  {
    std::tie(evals, evecs) = solver.solve(p, init);
  }
  catch (std::exception const &)
  {
    refused = true;
  }
  run.step();
  if (refused)
  {
    // the package may fail to converge when its search space degenerates
    // (dependent guesses, few distinct eigenvalues): this must be reported
    run.check((kind == 2 || kind == 4 || guesses == 2 || full == 0 || n < 6),
              "exception", "the block eigensolver refused a solvable problem");
    Hash h;
    h << "refused" << n << kind;
    run.observe(h);
    return;
  }
  EigExpect ex;
  ex.values.assign(w.begin(), w.begin() + k);
  ex.res_tol = tol * (1 + 1e-6) + 1e-9;
  // a loose tolerance may be met by other pairs than the lowest ones
  ex.value_tol = tol > 1e-3 ? HUGE_VAL : tol + 1e-9;
  if (!check_pairs(run, a, evals, evecs, ex))
    return;
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < i; ++j)
      run.check(std::abs(evecs[i] * evecs[j]) < 1e-6, "orthogonal",
                "eigenvectors are not orthogonal");
  for (std::size_t i = 0; i < init.size(); ++i)
    run.check(max_diff(to_dvec(*init[i]), before[i]) == 0., "guess",
              "initial guess changed");
  Hash h;
  h << n << kind << evals << sk << guesses;
  run.observe(h);
}

void c14(Run &run)
{
  switch (run.choose(3, "part"))
  {
  case 0:
    return c14_traits(run);
  case 1:
    return c14_operator(run);
  default:
    return c14_lobpcg(run);
  }
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize init(argc, argv, 1);
  Run run(argc, argv);
  return run.explore(
      [](Run &r)
      {
        if (r.prop == "C12")
          c12(r);
        else if (r.prop == "C13")
          c13(r);
        else if (r.prop == "C14")
          c14(r);
        else
          throw std::logic_error("unknown property " + r.prop);
      });
}
