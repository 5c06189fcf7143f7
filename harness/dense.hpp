// Boring dense linear algebra used as the reference model.
#ifndef VERIF_DENSE_HPP
#define VERIF_DENSE_HPP
#include <algorithm>
#include <cmath>
#include <numeric>
#include <stdexcept>
#include <vector>

struct Dense
{
  int r = 0, c = 0;
  std::vector<double> a;
  Dense() = default;
  Dense(int r_, int c_) : r(r_), c(c_), a(std::size_t(r_) * c_, 0.) {}
  double &operator()(int i, int j) { return a[std::size_t(i) * c + j]; }
  double operator()(int i, int j) const { return a[std::size_t(i) * c + j]; }
};

using DVec = std::vector<double>;

// defined in dense.cc, which is compiled with optimisation
Dense transpose(Dense const &m);
Dense mul(Dense const &x, Dense const &y);
DVec mul(Dense const &x, DVec const &y);
double max_abs(DVec const &v); // NaN propagates
double max_abs(Dense const &m);
double max_diff(DVec const &x, DVec const &y); // HUGE_VAL on NaN or sizes
double max_diff(Dense const &x, Dense const &y);
double dot(DVec const &x, DVec const &y);
double norm(DVec const &x);

// Gaussian elimination with partial pivoting; keeps the smallest |pivot|
struct LU
{
  Dense m;
  std::vector<int> p;
  double min_pivot = HUGE_VAL;
  explicit LU(Dense const &x);
  DVec solve(DVec const &b) const;
};

// Cyclic Jacobi for symmetric matrices: ascending eigenvalues; columns of V
void jacobi_eig(Dense a, DVec &w, Dense &v);
#endif
