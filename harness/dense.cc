// The dense reference arithmetic, compiled with -O2.
#include "dense.hpp"

Dense transpose(Dense const &m)
{
  Dense t(m.c, m.r);
  for (int i = 0; i < m.r; ++i)
    for (int j = 0; j < m.c; ++j)
      t(j, i) = m(i, j);
  return t;
}
Dense mul(Dense const &x, Dense const &y)
{
  if (x.c != y.r)
    throw std::logic_error("dense mul: size mismatch");
  Dense z(x.r, y.c);
  for (int i = 0; i < x.r; ++i)
    for (int k = 0; k < x.c; ++k)
    {
      double v = x(i, k);
      if (v != 0.)
        for (int j = 0; j < y.c; ++j)
          z(i, j) += v * y(k, j);
    }
  return z;
}
DVec mul(Dense const &x, DVec const &y)
{
  if (x.c != int(y.size()))
    throw std::logic_error("dense mul: size mismatch");
  DVec z(x.r, 0.);
  for (int i = 0; i < x.r; ++i)
    for (int j = 0; j < x.c; ++j)
      z[i] += x(i, j) * y[j];
  return z;
}
double max_abs(DVec const &v)
{
  double m = 0;
  for (double x : v)
  {
    if (!(std::abs(x) <= m)) // NaN propagates
      m = std::abs(x);
    if (std::isnan(x))
      return x;
  }
  return m;
}
double max_abs(Dense const &m) { return max_abs(m.a); }
double max_diff(DVec const &x, DVec const &y)
{
  if (x.size() != y.size())
    return HUGE_VAL;
  double m = 0;
  for (std::size_t i = 0; i < x.size(); ++i)
  {
    double d = std::abs(x[i] - y[i]);
    if (std::isnan(d))
      return HUGE_VAL;
    m = std::max(m, d);
  }
  return m;
}
double max_diff(Dense const &x, Dense const &y)
{
  if (x.r != y.r || x.c != y.c)
    return HUGE_VAL;
  return max_diff(x.a, y.a);
}
double dot(DVec const &x, DVec const &y)
{
  double s = 0;
  for (std::size_t i = 0; i < x.size(); ++i)
    s += x[i] * y[i];
  return s;
}
double norm(DVec const &x) { return std::sqrt(dot(x, x)); }

LU::LU(Dense const &x) : m(x), p(x.r)
  {
    std::iota(p.begin(), p.end(), 0);
    int n = m.r;
    for (int k = 0; k < n; ++k)
    {
      int b = k;
      for (int i = k; i < n; ++i)
        if (std::abs(m(i, k)) > std::abs(m(b, k)))
          b = i;
      if (b != k)
      {
        for (int j = 0; j < n; ++j)
          std::swap(m(k, j), m(b, j));
        std::swap(p[k], p[b]);
      }
      min_pivot = std::min(min_pivot, std::abs(m(k, k)));
      if (m(k, k) == 0.)
        continue;
      for (int i = k + 1; i < n; ++i)
      {
        double f = m(i, k) / m(k, k);
        m(i, k) = f;
        for (int j = k + 1; j < n; ++j)
          m(i, j) -= f * m(k, j);
      }
    }
  }
DVec LU::solve(DVec const &b) const
  {
    int n = m.r;
    DVec x(n);
    for (int i = 0; i < n; ++i)
    {
      double s = b[p[i]];
      for (int j = 0; j < i; ++j)
        s -= m(i, j) * x[j];
      x[i] = s;
    }
    for (int i = n - 1; i >= 0; --i)
    {
      double s = x[i];
      for (int j = i + 1; j < n; ++j)
        s -= m(i, j) * x[j];
      x[i] = s / m(i, i);
    }
    return x;
  }
// Cyclic Jacobi for symmetric matrices: ascending eigenvalues; columns of V
void jacobi_eig(Dense a, DVec &w, Dense &v)
{
  int n = a.r;
  v = Dense(n, n);
  for (int i = 0; i < n; ++i)
    v(i, i) = 1;
  for (int sweep = 0; sweep < 100; ++sweep)
  {
    double off = 0, tot = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
      {
        tot += a(i, j) * a(i, j);
        if (i != j)
          off += a(i, j) * a(i, j);
      }
    if (off <= 1e-30 * tot || tot == 0)
      break;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q)
      {
        if (a(p, q) == 0.)
          continue;
        double th = (a(q, q) - a(p, p)) / (2 * a(p, q));
        double t = (th >= 0 ? 1. : -1.) /
                   (std::abs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; ++k)
        {
          double x = a(k, p), y = a(k, q);
          a(k, p) = c * x - s * y;
          a(k, q) = s * x + c * y;
        }
        for (int k = 0; k < n; ++k)
        {
          double x = a(p, k), y = a(q, k);
          a(p, k) = c * x - s * y;
          a(q, k) = s * x + c * y;
        }
        for (int k = 0; k < n; ++k)
        {
          double x = v(k, p), y = v(k, q);
          v(k, p) = c * x - s * y;
          v(k, q) = s * x + c * y;
        }
      }
  }
  std::vector<int> idx(n);
  std::iota(idx.begin(), idx.end(), 0);
  std::sort(idx.begin(), idx.end(),
            [&](int i, int j) { return a(i, i) < a(j, j); });
  w.resize(n);
  Dense vv(n, n);
  for (int i = 0; i < n; ++i)
  {
    w[i] = a(idx[i], idx[i]);
    for (int k = 0; k < n; ++k)
      vv(k, i) = v(k, idx[i]);
  }
  v = vv;
}
