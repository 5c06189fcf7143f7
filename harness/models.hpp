// Reference models and small helpers shared by the harnesses.
#ifndef VERIF_MODELS_HPP
#define VERIF_MODELS_HPP
#include "fem.hpp"

#include <ml_MultiLevelPreconditioner.h>

using ex::Run;

// ------------------------------------------------------------------ matrices

using Layout = std::vector<int>; // rows per rank
inline std::vector<Layout> layouts(int n, int ranks)
{
  std::vector<Layout> v;
  Layout l(ranks, 0);
  std::function<void(int, int)> rec = [&](int r, int left)
  {
    if (r == ranks - 1)
    {
      l[r] = left;
      v.push_back(l);
      return;
    }
    for (int k = 0; k <= left; ++k)
    {
      l[r] = k;
      rec(r + 1, left - k);
    }
  };
  rec(0, n);
  return v;
}
inline Layout even_layout(int n, int ranks)
{
  Layout l(ranks, n / ranks);
  for (int i = 0; i < n % ranks; ++i)
    ++l[i];
  return l;
}
inline std::string show(Layout const &l)
{
  std::string s;
  for (int i : l)
    s += (s.empty() ? "" : "+") + std::to_string(i);
  return s;
}
inline dealii::IndexSet index_set(Layout const &l, int rank)
{
  int n = 0, first = 0;
  for (int r = 0; r < int(l.size()); ++r)
  {
    if (r < rank)
      first += l[r];
    n += l[r];
  }
  dealii::IndexSet is(n);
  if (l[rank] > 0)
    is.add_range(first, first + l[rank]);
  is.compress();
  return is;
}
inline std::shared_ptr<TSM> make_matrix(Run &run, Dense const &d, Layout const &rows,
                                 Layout const &cols)
{
  auto ri = index_set(rows, run.rank), ci = index_set(cols, run.rank);
  dealii::TrilinosWrappers::SparsityPattern sp(ri, ci, MPI_COMM_WORLD);
  for (auto i : ri)
    for (int j = 0; j < d.c; ++j)
      if (d(i, j) != 0.)
        sp.add(i, j);
  sp.compress();
  auto m = std::make_shared<TSM>();
  m->reinit(sp);
  for (auto i : ri)
    for (int j = 0; j < d.c; ++j)
      if (d(i, j) != 0.)
        m->set(i, j, d(i, j));
  m->compress(dealii::VectorOperation::insert);
  return m;
}
inline DistVec make_vector(Run &run, Layout const &l, DVec const &v)
{
  DistVec x(index_set(l, run.rank), MPI_COMM_WORLD);
  scatter(v, x);
  return x;
}
inline DVec gatherv(DistVec const &v) { return gather(v, MPI_COMM_WORLD); }

int const n_patterns = 8;
inline Dense pattern_matrix(int m, int n, int k)
{
  Dense d(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      switch (k)
      {
      case 0: // full, nonsymmetric
        d(i, j) = 1. + i - 2. * j + 0.25 * ((i * 3 + j * 5) % 4);
        break;
      case 1: // tridiagonal
        d(i, j) = i == j ? 4. : (j == i + 1 ? -1. : (j == i - 1 ? -1.5 : 0.));
        break;
      case 2: // upper
        d(i, j) = j >= i ? 1. + 0.5 * (j - i) : 0.;
        break;
      case 3: // zero
        d(i, j) = 0.;
        break;
      case 4: // one row, one column
        d(i, j) = (i == m - 1 || j == 0) ? 2. + j + 10. * i : 0.;
        break;
      case 5: // scattered
        d(i, j) = ((i * 7 + j * 3) % 3 == 0) ? 1. / (1. + i + j) : 0.;
        break;
      case 6: // anti-diagonal
        d(i, j) = (i + j == n - 1) ? 3. - i : 0.;
        break;
      case 7: // symmetric
        d(i, j) = 1. / (1. + i + j) + (i == j ? 2. : 0.);
        break;
      }
  return d;
}

inline DVec unit(int n, int i)
{
  DVec v(n, 0.);
  v[i] = 1.;
  return v;
}
inline DVec general(int n, int s = 0)
{
  DVec v(n);
  for (int i = 0; i < n; ++i)
    v[i] = 1. + 0.5 * ((i * 5 + s * 3) % 7) - 1.25 * ((i + s) % 3);
  return v;
}

inline std::string num(double x)
{
  std::ostringstream os;
  os << x;
  return os.str();
}

template <int dim>
std::vector<Mesh> small_meshes()
{
  if (dim == 2)
    return {brick(1, 1, 1, 0), brick(2, 1, 1, 0), brick(3, 2, 1, 0), cube(1),
            mesh_of("disc", 0), cube(2), mesh_of("ball", 0)};
  return {brick(1, 1, 1, 0), brick(2, 1, 2, 0), brick(2, 2, 2, 0)};
}

template <typename F>
bool throws(F &&f)
{
  try
  {
    f();
  }
  catch (std::exception const &)
  {
    return true;
  }
  return false;
}

// The preconditioners of Ifpack act on the rows and columns a rank owns
// (stored: entries of the sparsity pattern, default the nonzero ones)
inline Dense smoother_inverse(std::string const &type, Dense const &a,
                              Layout const &rows,
                              Dense const *pattern = nullptr)
{
  int const n = a.r;
  Dense inv(n, n);
  int first = 0;
  for (int r = 0; r < int(rows.size()); ++r)
  {
    int const k = rows[r];
    if (k > 0)
    {
      Dense b(k, k);
      for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j)
          b(i, j) = a(first + i, first + j);
      Dense m(k, k);
      auto part = [&](bool lower, bool upper)
      {
        Dense p(k, k);
        for (int i = 0; i < k; ++i)
          for (int j = 0; j < k; ++j)
            if (i == j || (lower && j < i) || (upper && j > i))
              p(i, j) = b(i, j);
        return p;
      };
      if (type == "jacobi")
        m = part(false, false);
      else if (type == "gauss-seidel")
        m = part(true, false);
      else if (type == "symmetric gauss-seidel")
      {
        Dense d = part(false, false);
        for (int i = 0; i < k; ++i)
          d(i, i) = 1. / d(i, i);
        m = mul(part(true, false), mul(d, part(false, true)));
      }
      else if (type == "ilu")
      {
        // ILU(0), IKJ
        auto stored = [&](int i, int j)
        {
          return (pattern ? *pattern : a)(first + i, first + j) != 0.;
        };
        Dense f = b;
        for (int i = 0; i < k; ++i)
          for (int p = 0; p < i; ++p)
            if (stored(i, p))
            {
              f(i, p) /= f(p, p);
              for (int j = p + 1; j < k; ++j)
                if (stored(i, j))
                  f(i, j) -= f(i, p) * f(p, j);
            }
        Dense l(k, k), u(k, k);
        for (int i = 0; i < k; ++i)
          for (int j = 0; j < k; ++j)
          {
            if (j < i)
              l(i, j) = f(i, j);
            else
              u(i, j) = f(i, j);
            if (i == j)
              l(i, j) = 1.;
          }
        m = mul(l, u);
      }
      else
        throw std::logic_error("smoother type");
      LU lu(m);
      for (int j = 0; j < k; ++j)
      {
        DVec x = lu.solve(unit(k, j));
        for (int i = 0; i < k; ++i)
          inv(first + i, first + j) = x[i];
      }
    }
    first += k;
  }
  return inv;
}

inline std::string mixed_case(std::string s, int k)
{
  for (std::size_t i = 0; i < s.size(); ++i)
    if (k == 1 || (k == 2 && i % 2))
      s[i] = std::toupper(s[i]);
    else
      s[i] = std::tolower(s[i]);
  return s;
}

struct DenseLikeOperator : dealii::Subscriptor
{
  TSM const *a;
  using size_type = DistVec::size_type;
  using value_type = double;
  void vmult(DistVec &y, DistVec const &x) const { a->vmult(y, x); }
  size_type m() const { return a->m(); }
  size_type n() const { return a->n(); }
  double el(size_type, size_type) const { return 0.; }
};

// the package estimates eigenvalues from random vectors: same start
inline void seed_package()
{
  std::srand(1);
  ML_set_random_seed(1);
}

#endif
