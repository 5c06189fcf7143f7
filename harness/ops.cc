// C07, C15, C16, C21 (matrix market), C22, C23, C24: operators, smoothers,
// coarse solvers, parameter conversion, sorting utilities, evaluator helpers.
#include "evaluators.hpp"
#include "models.hpp"

#include <mfmg/common/operator.hpp>
#include <mfmg/common/utils.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
#include <mfmg/dealii/dealii_utils.hpp>

#include <deal.II/lac/precondition.h>
#include <deal.II/lac/trilinos_precondition.h>

#include <boost/property_tree/ptree.hpp>

#include <ml_MultiLevelPreconditioner.h>

#include <unistd.h>

using ex::Hash;
using ex::Run;
using boost::property_tree::ptree;
using TOp = mfmg::DealIITrilinosMatrixOperator<DistVec>;
using Op = mfmg::Operator<DistVec>;

// Checks that op represents the matrix d in every way an operator can
// (row_l, col_l: layouts of range and domain)
bool check_operator(Run &run, Op const &op, Dense const &d, Layout const &rows,
                    Layout const &cols, std::string const &what,
                    bool trans = true, double floor = 1.)
{
  double const tol = 1e-12 * std::max(floor, max_abs(d) * std::max(d.r, d.c));
  auto dom = op.build_domain_vector(), rng = op.build_range_vector();
  run.check(int(dom->size()) == d.c && int(rng->size()) == d.r, "vector size",
            what + ": domain/range vectors have sizes " +
                std::to_string(dom->size()) + "/" +
                std::to_string(rng->size()) + " for a " + std::to_string(d.r) +
                "x" + std::to_string(d.c) + " operator");
  if (run.failed())
    return false;
  run.check(dom->locally_owned_elements() == index_set(cols, run.rank) &&
                rng->locally_owned_elements() == index_set(rows, run.rank),
            "vector layout", what + ": domain/range vector distributed "
                                    "unlike the operator");
  run.check(max_abs(gatherv(*dom)) == 0. && max_abs(gatherv(*rng)) == 0.,
            "vector zero", what + ": vectors are not zero");
  for (int s = -1; s < d.c; ++s)
  {
    DVec const x = s < 0 ? general(d.c) : unit(d.c, s);
    auto xv = op.build_domain_vector();
    auto yv = op.build_range_vector();
    scatter(x, *xv);
    scatter(general(d.r, 4), *yv); // garbage
    op.apply(*xv, *yv);
    run.step();
    double const e = max_diff(gatherv(*yv), mul(d, x));
    run.check(e < tol, "apply",
              what + ": A x differs by " + num(e));
    run.check(max_diff(gatherv(*xv), x) == 0., "apply source",
              what + ": apply changed its source");
    if (s == 0)
    {
      scatter(general(d.r, 4), *yv);
      op.apply(*xv, *yv, mfmg::OperatorMode::NO_TRANS);
      run.check(max_diff(gatherv(*yv), mul(d, x)) < tol, "apply",
                what + ": A x (explicit mode) differs");
    }
  }
  if (trans)
  {
    Dense const t = transpose(d);
    for (int s = -1; s < d.r; ++s)
    {
      DVec const x = s < 0 ? general(d.r) : unit(d.r, s);
      auto xv = op.build_range_vector();
      auto yv = op.build_domain_vector();
      scatter(x, *xv);
      scatter(general(d.c, 4), *yv);
      op.apply(*xv, *yv, mfmg::OperatorMode::TRANS);
      run.step();
      double const e = max_diff(gatherv(*yv), mul(t, x));
      run.check(e < tol, "apply transposed",
                what + ": A^T x differs by " + num(e));
      run.check(max_diff(gatherv(*xv), x) == 0., "apply source",
                what + ": transposed apply changed its source");
    }
  }
  return !run.failed();
}

// number of stored entries over all ranks
std::size_t nnz(Dense const &d)
{
  std::size_t k = 0;
  for (double x : d.a)
    k += x != 0.;
  return k;
}

// ----------------------------------------------------------------------- C07

Dense choose_matrix(Run &run, int m, int n, std::string const &name,
                    bool all_entries)
{
  Dense d(m, n);
  if (!all_entries)
  {
    d = pattern_matrix(m, n, run.choose(n_patterns, name));
    return d;
  }
  double const alphabet[3] = {0., 1., -2.};
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      d(i, j) = alphabet[run.choose(3, name)];
  return d;
}

void c07_trilinos(Run &run)
{
  static std::vector<std::array<int, 2>> const shapes{
      {{1, 1}}, {{1, 2}}, {{2, 1}}, {{2, 2}}, {{2, 3}}, {{3, 2}}, {{3, 3}},
      {{1, 4}}, {{4, 2}}, {{5, 3}}, {{5, 5}}};
  auto const shape = shapes[run.choose(shapes.size(), "shape")];
  int const m = shape[0], n = shape[1];
  bool all_entries = false;
  if (run.size == 1 && m * n <= (run.thorough ? 9 : 6))
    all_entries = run.choose(2, "all entries");
  auto const rl = layouts(m, run.size), cl = layouts(n, run.size);
  // every layout for small shapes, else the even one and a lopsided one
  auto pick_layout = [&](std::string const &name, std::vector<Layout> const &l,
                         int k)
  {
    std::vector<Layout> v = l;
    if (run.size > 1 && k > (run.thorough ? 4 : run.size <= 2 ? 3 : 2))
      v = {even_layout(k, run.size), l.front(), l.back()};
    int const c = run.choose(v.size(), name);
    run.note(show(v[c]));
    return v[c];
  };
  Layout const rows = pick_layout("rows", rl, m);
  Layout const cols = pick_layout("cols", cl, n);
  run.commit();
  Dense const a = choose_matrix(run, m, n, "a", all_entries);
  auto mat = make_matrix(run, a, rows, cols);
  auto op = std::make_shared<TOp>(mat);
  std::size_t const k = nnz(a);
  auto unchanged = [&](std::string const &after)
  {
    run.check(max_diff(gather(*op->get_matrix()), a) == 0., "operand",
              "matrix of the operator changed by " + after);
  };
  check_operator(run, *op, a, rows, cols, "operator");
  run.check(op->grid_complexity() == std::size_t(m) &&
                op->operator_complexity() == k,
            "complexity",
            "sizes " + std::to_string(op->grid_complexity()) + "/" +
                std::to_string(op->operator_complexity()) + " reported for " +
                std::to_string(m) + " rows and " + std::to_string(k) +
                " entries");
  unchanged("apply");
  if (run.failed())
    return;
  // transpose
  auto opt = op->transpose();
  check_operator(run, *opt, transpose(a), cols, rows, "transpose");
  unchanged("transpose");
  auto optt = opt->transpose();
  check_operator(run, *optt, a, rows, cols, "transpose of transpose");
  if (run.failed())
    return;
  // products: B (n x p) and B (p x n)
  int const p = run.thorough ? 1 + run.choose(3, "p-1")
                             : 1 + 2 * run.choose(2, "p/2");
  std::vector<int> kinds{0, 4, 5};
  if (run.thorough)
    kinds = {0, 1, 2, 3, 4, 5, 6, 7};
  else if (run.size > 2)
    kinds = {0, 4};
  Dense const b = pattern_matrix(n, p, run.pick("b", kinds));
  Layout const pl = even_layout(p, run.size);
  Layout const pl2 = layouts(p, run.size).front(); // all on the last rank
  for (auto const &l : {pl, pl2})
  {
    auto bop = std::make_shared<TOp>(make_matrix(run, b, cols, l));
    auto c = op->multiply(bop);
    check_operator(run, *c, mul(a, b), rows, l, "product");
    run.check(max_diff(gather(*bop->get_matrix()), b) == 0., "operand",
              "second operand changed by multiply");
    unchanged("multiply");
    Dense const bt = transpose(b);
    auto btop = std::make_shared<TOp>(make_matrix(run, bt, l, cols));
    auto ct = op->multiply_transpose(btop);
    check_operator(run, *ct, mul(a, b), rows, l, "product with transpose");
    run.check(max_diff(gather(*btop->get_matrix()), bt) == 0., "operand",
              "second operand changed by multiply_transpose");
    unchanged("multiply_transpose");
    if (run.failed())
      return;
    // Galerkin-like chain: B^T (A' B) with A' = A A^T needs matching shapes
    auto aat = op->multiply_transpose(op);
    check_operator(run, *aat, mul(a, transpose(a)), rows, rows, "A A^T");
    auto chain = btop->multiply(bop);
    check_operator(run, *chain, mul(bt, b), l, l, "B^T B");
    auto chain2 = op->multiply(bop)->transpose()->multiply(op);
    check_operator(run, *chain2, mul(transpose(mul(a, b)), a), l, cols,
                   "(A B)^T A");
    // results outlive their operands
    bop.reset();
    btop.reset();
    check_operator(run, *c, mul(a, b), rows, l, "product after operands died");
    if (run.failed())
      return;
  }
  Hash h;
  h << "tril" << m << n << a.a << b.a << show(rows) << show(cols);
  run.observe(h);
}

// larger matrices (more rows and entries per row than small internal buffers
// hold), entries of other magnitudes
void c07_large(Run &run)
{
  static std::vector<std::array<int, 2>> const shapes{
      {{40, 60}}, {{60, 35}}, {{130, 3}}, {{3, 130}}, {{90, 90}}};
  auto const shape = shapes[run.choose(shapes.size(), "shape")];
  int const m = shape[0], n = shape[1];
  auto pick_layout = [&](std::string const &name, int k)
  {
    std::vector<Layout> v{even_layout(k, run.size)};
    if (run.size > 1)
    {
      v.push_back(Layout(run.size, 0));
      v.back().back() = k;
      v.push_back(Layout(run.size, 1));
      v.back().front() = k - run.size + 1;
    }
    int const c = run.choose(v.size(), name);
    run.note(show(v[c]));
    return v[c];
  };
  Layout const rows = pick_layout("rows", m), cols = pick_layout("cols", n);
  run.commit();
  double const scale = run.pick<double>("scale", {1., 1e-9, 1e8});
  Dense a = pattern_matrix(m, n, run.pick<int>("a", {0, 1, 5}));
  for (double &x : a.a)
    x *= scale;
  auto op = std::make_shared<TOp>(make_matrix(run, a, rows, cols));
  double const none = 1e-300;
  check_operator(run, *op, a, rows, cols, "large operator", true, none);
  run.check(op->grid_complexity() == std::size_t(m) &&
                op->operator_complexity() == nnz(a),
            "complexity", "wrong sizes of a large operator");
  auto opt = op->transpose();
  check_operator(run, *opt, transpose(a), cols, rows, "large transpose", true,
                 none);
  if (run.failed())
    return;
  int const p = run.pick<int>("p", {1, 37});
  Dense const b = pattern_matrix(n, p, p == 1 ? 0 : 5), bt = transpose(b);
  Layout const l = even_layout(p, run.size);
  auto bop = std::make_shared<TOp>(make_matrix(run, b, cols, l)),
       btop = std::make_shared<TOp>(make_matrix(run, bt, l, cols));
  Dense const ab = mul(a, b);
  double const floor = max_abs(a) * max_abs(b) * n;
  check_operator(run, *op->multiply(bop), ab, rows, l, "large product", true,
                 floor);
  check_operator(run, *op->multiply_transpose(btop), ab, rows, l,
                 "large product with transpose", true, floor);
  run.check(max_diff(gather(*op->get_matrix()), a) == 0. &&
                max_diff(gather(*bop->get_matrix()), b) == 0. &&
                max_diff(gather(*btop->get_matrix()), bt) == 0.,
            "operand", "operand of a large product changed");
  Hash h;
  h << "large" << m << n << a.a << p << show(rows) << show(cols);
  run.observe(h);
}

// any sequence of transposes and products from one start operator
void c07_sequences(Run &run)
{
  int const n = run.pick<int>("n", {2, 3});
  Layout const l = run.pick_from("layout", layouts(n, run.size));
  int const ka = run.choose(n_patterns, "a");
  run.commit();
  int const depth = run.thorough ? 4 : 3;
  Dense const a = pattern_matrix(n, n, ka), b = pattern_matrix(n, n, 0),
              c = pattern_matrix(n, n, 4);
  std::shared_ptr<Op> opb = std::make_shared<TOp>(make_matrix(run, b, l, l)),
                      opc = std::make_shared<TOp>(make_matrix(run, c, l, l));
  std::shared_ptr<Op> x = std::make_shared<TOp>(make_matrix(run, a, l, l));
  Dense dx = a;
  for (int i = 0; i < depth; ++i)
  {
    switch (run.choose(7, "op"))
    {
    case 0:
      x = x->transpose();
      dx = transpose(dx);
      break;
    case 1:
      x = x->multiply(opb);
      dx = mul(dx, b);
      break;
    case 2:
      x = x->multiply_transpose(opb);
      dx = mul(dx, transpose(b));
      break;
    case 3:
      x = opc->multiply(x);
      dx = mul(c, dx);
      break;
    case 4:
      x = opc->multiply_transpose(x);
      dx = mul(c, transpose(dx));
      break;
    case 5:
      x = x->multiply_transpose(x);
      dx = mul(dx, transpose(dx));
      break;
    case 6:
      x = x->multiply(x);
      dx = mul(dx, dx);
      break;
    }
    double const s = std::max(1., max_abs(dx));
    if (s > 1e6)
      run.reject();
    auto xv = x->build_domain_vector();
    auto yv = x->build_range_vector();
    scatter(general(n), *xv);
    x->apply(*xv, *yv);
    run.step();
    run.check(max_diff(gatherv(*yv), mul(dx, general(n))) < 1e-11 * s,
              "sequence", "operator differs from the model after " +
                              std::to_string(i + 1) + " operations");
    scatter(general(n), *yv);
    x->apply(*yv, *xv, mfmg::OperatorMode::TRANS);
    run.check(max_diff(gatherv(*xv), mul(transpose(dx), general(n))) <
                  1e-11 * s,
              "sequence", "transposed operator differs from the model after " +
                              std::to_string(i + 1) + " operations");
    Hash h;
    h << dx.a;
    run.observe(h);
    if (run.failed())
      return;
  }
}

// serial operator on deal.II matrices: the library class is abstract, so a
// user has to derive from it
struct SerialOp : mfmg::DealIIMatrixOperator<dealii::Vector<double>>
{
  using Base = mfmg::DealIIMatrixOperator<dealii::Vector<double>>;
  using IOp = ::mfmg::Operator<dealii::Vector<double>>;
  using Base::Base;
  std::shared_ptr<IOp> transpose() const override { return nullptr; }
  std::shared_ptr<IOp> multiply(std::shared_ptr<IOp const>) const override
  {
    return nullptr;
  }
};

void c07_serial(Run &run)
{
  int const m = 1 + run.choose(4, "m-1"), n = 1 + run.choose(4, "n-1");
  run.commit();
  bool const all = m * n <= 6 && run.choose(2, "all entries");
  Dense const a = choose_matrix(run, m, n, "a", all);
  auto sp = std::make_shared<dealii::SparsityPattern>();
  dealii::DynamicSparsityPattern dsp(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (a(i, j) != 0.)
        dsp.add(i, j);
  sp->copy_from(dsp);
  auto mat = std::make_shared<dealii::SparseMatrix<double>>(*sp);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (a(i, j) != 0.)
        mat->set(i, j, a(i, j));
  SerialOp op(sp, mat);
  auto dom = op.build_domain_vector(), rng = op.build_range_vector();
  run.check(int(dom->size()) == n && int(rng->size()) == m, "vector size",
            "vectors of the serial operator have the wrong size");
  run.check(dom->linfty_norm() == 0. && rng->linfty_norm() == 0.,
            "vector zero", "vectors of the serial operator are not zero");
  run.check(op.grid_complexity() == std::size_t(m) &&
                op.operator_complexity() == mat->n_nonzero_elements(),
            "complexity", "wrong sizes of the serial operator");
  for (int t = 0; t < 2; ++t)
  {
    Dense const d = t ? transpose(a) : a;
    for (int s = -1; s < d.c; ++s)
    {
      DVec const x = s < 0 ? general(d.c) : unit(d.c, s);
      dealii::Vector<double> xv(d.c), yv(d.r);
      for (int i = 0; i < d.c; ++i)
        xv[i] = x[i];
      yv = 7.;
      op.apply(xv, yv,
               t ? mfmg::OperatorMode::TRANS : mfmg::OperatorMode::NO_TRANS);
      run.step();
      DVec y(yv.begin(), yv.end());
      run.check(max_diff(y, mul(d, x)) < 1e-12, "serial apply",
                "serial operator application differs");
    }
  }
  bool thrown = false;
  try
  {
    op.multiply_transpose(nullptr);
  }
  catch (std::exception const &)
  {
    thrown = true;
  }
  run.check(thrown, "not provided", "multiply_transpose of the serial operator "
                                    "does not throw");
  Hash h;
  h << "ser" << m << n << a.a;
  run.observe(h);
}

template <int dim>
void c07_matrix_free(Run &run)
{
  std::vector<Mesh> ms = small_meshes<dim>();
  ms.push_back(warped(1, brick(3, 2, 1, 0)));
  Mesh const m = run.pick("mesh", ms);
  std::string const bc =
      run.pick<std::string>("boundary", {"dirichlet", "none", "left"});
  // (6: entries of size 1e8, 7: of size 1e-20, 8: of size 1e20)
  int const coeff = run.pick("coefficient", std::vector<int>{0, 1, 2, 6, 7, 8});
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, m, bc);
  pb.assemble(coeff);
  auto eval = std::make_shared<MFEvaluator<dim>>(pb);
  mfmg::DealIIMatrixFreeOperator<dim, DistVec> op(eval);
  Dense const a = gather(pb.matrix);
  int const n = a.r;
  double const amax = max_abs(a);
  auto dom = op.build_domain_vector(), rng = op.build_range_vector();
  run.check(int(dom->size()) == n && int(rng->size()) == n &&
                dom->locally_owned_elements() == pb.owned &&
                rng->locally_owned_elements() == pb.owned &&
                max_abs(gatherv(*dom)) == 0. && max_abs(gatherv(*rng)) == 0.,
            "matrix-free vectors", "wrong domain or range vector");
  run.check(int(op.m()) == n, "matrix-free size", "wrong number of rows");
  for (int s = -1; s < n; ++s)
  {
    DVec const x = s < 0 ? general(n) : unit(n, s);
    scatter(x, *dom);
    scatter(general(n, 2), *rng);
    op.apply(*dom, *rng);
    run.check(max_diff(gatherv(*rng), mul(a, x)) <= 1e-12 * amax, "matrix-free apply",
              "matrix-free application differs from the matrix");
    scatter(general(n, 2), *rng);
    op.vmult(*rng, *dom);
    run.check(max_diff(gatherv(*rng), mul(a, x)) <= 1e-12 * amax, "matrix-free vmult",
              "matrix-free vmult differs from the matrix");
    run.check(max_diff(gatherv(*dom), x) == 0., "apply source",
              "source changed");
    run.step();
  }
  auto inv = op.get_diagonal_inverse();
  scatter(general(n), *dom);
  inv->vmult(*rng, *dom);
  DVec ref = general(n);
  for (int i = 0; i < n; ++i)
    ref[i] /= a(i, i);
  run.check(max_diff(gatherv(*rng), ref) <= 1e-12 * max_abs(ref),
            "diagonal inverse",
            "diagonal inverse differs");
  // products A B^T with enumerated B
  dealii::IndexSet const owned = pb.owned;
  Layout fine(run.size);
  int const mine = owned.n_elements();
  MPI_Allgather(&mine, 1, MPI_INT, fine.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for (int rows : {1, 2, 3, 18, 41})
    for (auto const &l : rows <= 3 ? layouts(rows, run.size)
                                   : std::vector<Layout>{even_layout(rows, run.size)})
      for (int k = 0; k < n_patterns; ++k)
      {
        if (rows > 3 && k != 0 && k != 5)
          continue;
        Dense const b = pattern_matrix(rows, n, k);
        auto bm = make_matrix(run, b, l, fine);
        auto bop = std::make_shared<TOp>(bm);
        auto c = op.multiply_transpose(bop);
        // (the product may drop entries that are rounding errors)
        check_operator(run, *c, mul(a, transpose(b)), fine, l,
                       "matrix-free product with transpose", true,
                       amax);
        run.check(max_diff(gather(*bm), b) == 0., "operand",
                  "operand changed by the matrix-free product");
        for (int j = 0; j < rows; ++j)
        {
          auto row = mfmg::extract_row(*bm, j);
          DVec r(n);
          for (int i = 0; i < n; ++i)
            r[i] = b(j, i);
          run.check(row.locally_owned_elements() == owned &&
                        max_diff(gatherv(row), r) == 0.,
                    "row", "extracted row differs from the matrix row");
          run.step();
        }
        if (run.failed())
          return;
      }
  Hash h;
  h << "mf" << dim << a.a << show(fine);
  run.observe(h);
}

void c07(Run &run)
{
  int const part = run.choose(run.size == 1 ? 6 : 5, "part");
  if (part == 0)
    c07_trilinos(run);
  else if (part == 4)
    c07_large(run);
  else if (part == 1)
    c07_sequences(run);
  else if (part == 2)
    c07_matrix_free<2>(run);
  else if (part == 3)
    c07_matrix_free<3>(run);
  else
    c07_serial(run);
}

// ----------------------------------------------------------------------- C15

namespace c15ns
{
struct Leaf
{
  std::string text, type; // type: int double bool string
};
// what a text is, by an independent grammar
std::string classify(std::string const &s)
{
  std::size_t i = 0, n = s.size();
  auto digits = [&]()
  {
    std::size_t k = i;
    while (i < n && std::isdigit(static_cast<unsigned char>(s[i])))
      ++i;
    return i - k;
  };
  if (s == "true" || s == "false")
    return "bool";
  if (i < n && (s[i] == '+' || s[i] == '-'))
    ++i;
  std::size_t const d = digits();
  if (i == n && d > 0)
  {
    // exact range of int
    if (d > 15)
      return "double";
    long long const v = std::strtoll(s.c_str(), nullptr, 10);
    return v >= -2147483648ll && v <= 2147483647ll ? "int" : "double";
  }
  std::size_t f = 0;
  if (i < n && s[i] == '.')
  {
    ++i;
    f = digits();
  }
  if (d + f == 0)
    return "string";
  if (i < n && (s[i] == 'e' || s[i] == 'E'))
  {
    ++i;
    if (i < n && (s[i] == '+' || s[i] == '-'))
      ++i;
    if (digits() == 0)
      return "string";
  }
  return i == n ? "double" : "string";
}

std::string describe(ptree const &t, int depth = 0)
{
  // sorted by name: parameter lists are unordered maps
  std::map<std::string, std::string> m;
  for (auto const &c : t)
  {
    if (!c.second.empty())
      m[c.first] = "{" + describe(c.second, depth + 1) + "}";
    else
    {
      std::string const v = c.second.data(), ty = classify(v);
      std::ostringstream os;
      os.precision(17);
      os << ty << ":";
      if (ty == "double")
        os << std::strtod(v.c_str(), nullptr);
      else if (ty == "int")
        os << std::atoi(v.c_str());
      else
        os << v;
      m[c.first] = os.str();
    }
  }
  std::string s;
  for (auto const &c : m)
    s += c.first + "=" + c.second + ";";
  return s;
}
std::string describe(Teuchos::ParameterList const &l)
{
  std::map<std::string, std::string> m;
  for (auto it = l.begin(); it != l.end(); ++it)
  {
    std::string const name = l.name(it);
    auto const &e = l.entry(it);
    std::ostringstream os;
    os.precision(17);
    if (e.isList())
      os << "{" << describe(l.sublist(name)) << "}";
    else if (e.isType<int>())
      os << "int:" << Teuchos::any_cast<int>(e.getAny(false));
    else if (e.isType<double>())
      os << "double:" << Teuchos::any_cast<double>(e.getAny(false));
    else if (e.isType<bool>())
      os << "bool:"
         << (Teuchos::any_cast<bool>(e.getAny(false)) ? "true" : "false");
    else if (e.isType<std::string>())
      os << "string:" << Teuchos::any_cast<std::string>(e.getAny(false));
    else
      os << "?";
    m[name] = os.str();
  }
  std::string s;
  for (auto const &c : m)
    s += c.first + "=" + c.second + ";";
  return s;
}
} // namespace c15ns

void c15(Run &run)
{
  static std::vector<std::string> const values{
      "1",       "0",     "-3",        "7.5",    "-0.25", "1e-3",
      "2.",      ".5",    "true",      "false",  "MLS",   "symmetric Gauss-Seidel",
      "a&b",     "x<y",   "say \"hi\"", "p>q",   "it's",  "1 2",
      "",        "yes",   "1e400x",    "True",   "a,b;c", "3000000000",
      "&amp;",   "+4",    "1.5.2",     "12abc",  "-",     "e5",
      "0.12345678901234567", "2147483647", "2147483648", "-2147483648",
      "010",     "0x10",  "1E+2",      "-1.5e-300", "nan", "caf\xc3\xa9",
      "<!-- c -->", "]]>", "$x/{y}", "tab\there", "two\nlines"};
  static std::vector<std::string> const names{
      "a", "smoother: type", "b<c", "q\"r", "x&y", "n(1)", "level 0"};
  int const form = run.choose(3, "form");
  ptree t;
  std::set<std::string> used;
  if (form == 0)
  {
    // up to two levels, up to two leaves each; all values in all places
    int const nv = values.size();
    run.commit();
    int const top = run.choose(nv + 1, "top");
    if (top < nv)
    {
      int const k = run.choose(names.size(), "name");
      t.push_back({names[k], ptree(values[top])});
      run.note(names[k] + "='" + values[top] + "'");
    }
    int const sub = run.choose(nv + 1, "sub");
    if (sub < nv)
    {
      ptree s;
      s.push_back({"v", ptree(values[sub])});
      s.push_back({"w", ptree("4")});
      t.push_back({"sub list", s});
      run.note("sub list.v='" + values[sub] + "'");
    }
  }
  else if (form == 1)
  {
    // all shapes: each node has 0..2 children, depth <= 3
    run.commit();
    int counter = 0;
    std::function<ptree(int)> grow = [&](int depth) -> ptree
    {
      int const k = depth == 0 ? run.choose(3, "children")
                               : (depth > 3 ? 0 : run.choose(3, "children"));
      if (k == 0)
        return depth == 0 ? ptree()
                          : ptree(values[(counter++ * 7) % values.size()]);
      ptree p;
      for (int i = 0; i < k; ++i)
      {
        std::string const nm = names[(depth * 2 + i) % names.size()];
        p.push_back({nm, grow(depth + 1)});
      }
      return p;
    };
    if (run.choose(2, "deep") == 0)
      t = grow(2);
    else
      t = grow(run.thorough ? 0 : 1);
    if (t.empty())
      t = ptree();
  }
  else
  {
    // flat lists: all pairs of values under two names
    run.commit();
    int const i = run.choose(values.size(), "v1"),
              j = run.choose(values.size(), "v2");
    int const a = run.choose(names.size(), "n1"),
              b = run.choose(names.size(), "n2");
    if (a == b)
      run.reject();
    t.push_back({names[a], ptree(values[i])});
    t.push_back({names[b], ptree(values[j])});
  }
  std::string const want = c15ns::describe(t);
  run.note(want);
  // the result replaces whatever the list contained
  Teuchos::ParameterList pl;
  bool const prefilled = run.choose(2, "prefilled");
  if (prefilled)
    pl.set("old", 5);
  std::string got;
  try
  {
    mfmg::ptree2plist(t, pl);
    got = c15ns::describe(pl);
  }
  catch (std::exception const &e)
  {
    got = std::string("exception: ") + e.what();
    got = got.substr(0, 200);
  }
  run.step();
  run.check(got == want, "parameter list",
            "expected " + want + " got " + got);
  Hash h;
  h << want;
  run.observe(h);
}

// ----------------------------------------------------------------------- C16

template <typename T>
void c16_sort(Run &run, std::vector<T> const &a, std::vector<T> const &b)
{
  int const n = a.size();
  auto const a0 = a, b0 = b;
  auto const p = mfmg::sort_permutation(a, b);
  run.step();
  run.check(a == a0 && b == b0, "sort", "inputs changed");
  if (!run.check(int(p.size()) == n, "sort", "wrong size"))
    return;
  std::vector<int> seen(n, 0);
  for (auto i : p)
    if (run.check(int(i) < n, "sort", "index out of range"))
      ++seen[i];
  run.check(std::all_of(seen.begin(), seen.end(), [](int s) { return s == 1; }),
            "sort", "not a permutation");
  if (run.failed())
    return;
  for (int i = 0; i + 1 < n; ++i)
    run.check(std::make_pair(a[p[i]], b[p[i]]) <=
                  std::make_pair(a[p[i + 1]], b[p[i + 1]]),
              "sort", "not ordered by first and then second key");
  // in place on keys and a companion
  std::vector<std::string> comp(n), want(n);
  std::vector<T> av = a;
  for (int i = 0; i < n; ++i)
    comp[i] = std::to_string(i);
  for (int i = 0; i < n; ++i)
    want[i] = comp[p[i]];
  auto const pc = p;
  mfmg::apply_permutation_in_place(p, comp);
  mfmg::apply_permutation_in_place(p, av);
  run.check(comp == want, "permute", "companion not permuted like the keys");
  for (int i = 0; i < n; ++i)
    run.check(av[i] == a[p[i]], "permute", "keys wrongly permuted");
  run.check(p == pc, "permute", "permutation changed");
  Hash h;
  for (int i = 0; i < n; ++i)
    h << a[i] << b[i];
  run.observe(h);
}

void c16_permute(Run &run, std::vector<unsigned int> const &p)
{
  int const n = p.size();
  std::vector<int> v(n), want(n);
  std::vector<std::vector<double>> w(n);
  for (int i = 0; i < n; ++i)
  {
    v[i] = 10 * i;
    w[i] = DVec(i % 300, i);
  }
  for (int i = 0; i < n; ++i)
    want[i] = v[p[i]];
  auto const pc = p;
  mfmg::apply_permutation_in_place(p, v);
  mfmg::apply_permutation_in_place(p, w);
  run.step();
  run.check(v == want && p == pc, "permute", "wrong permutation in place");
  for (int i = 0; i < n; ++i)
    run.check(w[i].size() == p[i] % 300 && (w[i].empty() || w[i][0] == p[i]),
              "permute", "element lost or duplicated");
  Hash h;
  h << "p" << p;
  run.observe(h);
}

void c16(Run &run)
{
  int const part = run.choose(4, "part");
  if (part == 0)
  {
    // all sequences of (key, second key): plain, close and extreme values
    int const alphabet = run.choose(4, "alphabet");
    int const n = run.choose(run.thorough ? 7 : 6, "n");
    int const keys = run.thorough ? 3 : (n <= 4 ? 3 : 2);
    run.commit();
    if (alphabet == 3)
    {
      std::vector<int> const ka{std::numeric_limits<int>::max(),
                                std::numeric_limits<int>::min(), 0},
          kb{0, std::numeric_limits<int>::min()};
      std::vector<int> a, b;
      for (int i = 0; i < n; ++i)
      {
        a.push_back(ka[run.choose(keys, "a")]);
        b.push_back(kb[run.choose(2, "b")]);
      }
      return c16_sort(run, a, b);
    }
    std::vector<std::vector<double>> const ka{
        {-1., 0., 1.},
        {1., 1. + 4e-16, 1. - 1e-12},
        {1e300, -std::numeric_limits<double>::infinity(), 5e-324}},
        kb{{0., 0.5}, {2e-17, 1e-17}, {std::numeric_limits<double>::infinity(), -1e300}};
    std::vector<double> a, b;
    for (int i = 0; i < n; ++i)
    {
      a.push_back(ka[alphabet][run.choose(keys, "a")]);
      b.push_back(kb[alphabet][run.choose(2, "b")]);
    }
    c16_sort(run, a, b);
  }
  else if (part == 1)
  {
    // all permutations
    int const n = run.choose(run.thorough ? 9 : 8, "n");
    run.commit();
    std::vector<unsigned int> left(n), p;
    std::iota(left.begin(), left.end(), 0);
    while (!left.empty())
    {
      int const k = run.choose(left.size(), "p");
      p.push_back(left[k]);
      left.erase(left.begin() + k);
    }
    c16_permute(run, p);
  }
  else if (part == 2)
  {
    // longer ones: all rotations, strides, reversed prefixes and, for the
    // shorter, all transpositions
    int const n = run.pick("n", std::vector<int>{9, 10, 16, 17, 31, 32, 33, 64, 100,
                                                 256, 257, 300});
    int const family = run.choose(n <= 33 ? 4 : 3, "family");
    run.commit();
    int const k = run.choose(n, "k");
    std::vector<unsigned int> p(n);
    std::iota(p.begin(), p.end(), 0);
    if (family == 0)
      std::rotate(p.begin(), p.begin() + k, p.end());
    else if (family == 1)
    {
      if (std::gcd(k, n) != 1)
        run.reject();
      for (int i = 0; i < n; ++i)
        p[i] = (long(i) * k + 1) % n;
    }
    else if (family == 2)
      std::reverse(p.begin(), p.begin() + k + 1);
    else
      std::swap(p[k], p[run.choose(n, "l")]);
    c16_permute(run, p);
  }
  else
  {
    // longer sequences: keys k i^2 + l i modulo q, and blocks of equal keys
    int const n = run.pick("n", std::vector<int>{9, 15, 16, 17, 18, 33, 64, 257, 1000});
    int const q = run.pick("q", std::vector<int>{1, 2, 3, 7, 16, 1009});
    run.commit();
    int const k = run.choose(4, "k"), l = run.choose(5, "l") - 2;
    bool const integers = run.choose(2, "integers");
    std::vector<int> a(n), b(n);
    for (int i = 0; i < n; ++i)
    {
      a[i] = (k * i * i + l * i) % q;
      b[i] = (i * 7 + k) % 5 - 2;
    }
    if (integers)
      return c16_sort(run, a, b);
    c16_sort(run, std::vector<double>(a.begin(), a.end()),
             std::vector<double>(b.begin(), b.end()));
  }
}

// ---------------------------------------------------------------------- C21b

std::string slurp(std::string const &fn)
{
  std::ifstream in(fn);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}

void c21(Run &run)
{
  int const kind = run.choose(run.size == 1 ? 3 : 2, "kind");
  bool const large = run.choose(2, "large");
  int const m = large ? run.pick<int>("m", {40, 101})
                      : 1 + run.choose(run.thorough ? 5 : 4, "m-1"),
            n = large ? (kind == 1 ? 1 : 60)
                      : 1 + run.choose(run.thorough ? 5 : 4, "n-1");
  Layout rows = even_layout(m, run.size), cols = even_layout(n, run.size);
  if (large && run.size > 1 && run.choose(2, "on the last"))
  {
    rows = Layout(run.size, 0);
    rows.back() = m;
  }
  if (run.size > 1 && !large)
  {
    auto const rl = layouts(m, run.size);
    int const c = run.choose(std::min<int>(rl.size(), 10), "rows");
    rows = rl[c * (rl.size() - 1) / std::max<int>(1, std::min<int>(rl.size(), 10) - 1)];
    run.note(show(rows));
  }
  run.commit();
  std::string const fn = "m.mtx";
  Dense a(m, n);
  bool vec = false;
  if (kind == 1)
  {
    // a vector
    vec = true;
    if (n > 1)
      run.reject();
    DVec const v = general(m, run.choose(3, "values"));
    for (int i = 0; i < m; ++i)
      a(i, 0) = v[i] * (i % 2 ? 1e-300 : 1e200);
    dealii::TrilinosWrappers::MPI::Vector x(index_set(rows, run.rank),
                                            MPI_COMM_WORLD);
    for (auto i : index_set(rows, run.rank))
      x(i) = a(i, 0);
    x.compress(dealii::VectorOperation::insert);
    mfmg::matrix_market_output_file(fn, x);
  }
  else
  {
    bool const all = run.size == 1 && m * n <= 4 && run.choose(2, "all entries");
    a = choose_matrix(run, m, n, "a", all);
    int const scale = run.choose(3, "scale");
    for (double &x : a.a)
      x *= scale == 0 ? 1. : scale == 1 ? 1e-200 / 3. : 1e200 / 7.;
    if (kind == 0)
      mfmg::matrix_market_output_file(fn, *make_matrix(run, a, rows, cols));
    else
    {
      dealii::SparsityPattern sp;
      dealii::DynamicSparsityPattern dsp(m, n);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
          if (a(i, j) != 0. || i == j)
            dsp.add(i, j);
      sp.copy_from(dsp);
      dealii::SparseMatrix<double> sm(sp);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j)
          if (a(i, j) != 0.)
            sm.set(i, j, a(i, j));
      mfmg::matrix_market_output_file(fn, sm);
    }
  }
  MPI_Barrier(MPI_COMM_WORLD);
  run.step();
  if (run.rank == 0)
  {
    std::istringstream is(slurp(fn));
    std::string line;
    std::getline(is, line);
    bool const coordinate = line.find("coordinate") != std::string::npos;
    run.check(line.rfind("%%MatrixMarket matrix", 0) == 0 &&
                  line.find("real") != std::string::npos &&
                  line.find("general") != std::string::npos &&
                  coordinate == !vec,
              "header", "bad header: " + line);
    while (is.peek() == '%')
      std::getline(is, line);
    long r = -1, c = -1, k = -1;
    is >> r >> c;
    if (coordinate)
      is >> k;
    run.check(r == m && c == (vec ? 1 : n), "size",
              "header says " + std::to_string(r) + "x" + std::to_string(c));
    if (!run.failed())
    {
      Dense back(a.r, vec ? 1 : a.c);
      std::set<std::pair<long, long>> seen;
      long count = 0;
      if (coordinate)
      {
        long i, j;
        std::string val;
        while (is >> i >> j >> val)
        {
          ++count;
          run.check(i >= 1 && i <= m && j >= 1 && j <= n, "index",
                    "index out of range");
          run.check(seen.insert({i, j}).second, "entry",
                    "entry written twice");
          if (run.failed())
            break;
          back(i - 1, j - 1) = std::strtod(val.c_str(), nullptr);
        }
        run.check(count == k, "size", "header says " + std::to_string(k) +
                                          " entries, file has " +
                                          std::to_string(count));
      }
      else
      {
        std::string val;
        while (is >> val)
        {
          if (!run.check(count < m, "entry", "too many values"))
            break;
          back(count++, 0) = std::strtod(val.c_str(), nullptr);
        }
        run.check(count == m, "entry", "values missing");
      }
      if (!run.failed())
        for (int i = 0; i < back.r; ++i)
          for (int j = 0; j < back.c; ++j)
            run.check(std::abs(back(i, j) - a(i, j)) <=
                          1e-15 * std::abs(a(i, j)),
                      "value", "value differs after reading back");
    }
    unlink(fn.c_str());
  }
  MPI_Barrier(MPI_COMM_WORLD);
  Hash h;
  h << "mm" << kind << m << n << a.a << show(rows);
  run.observe(h);
}

// ----------------------------------------------------------------------- C22

int const n_regular = 6;
Dense regular_matrix(int n, int k)
{
  Dense d(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      switch (k)
      {
      case 0: // 1d Laplace
        d(i, j) = i == j ? 2. : std::abs(i - j) == 1 ? -1. : 0.;
        break;
      case 1: // nonsymmetric, diagonally dominant
        d(i, j) = i == j ? 5. + i : j == i + 1 ? -2. : j == i - 1 ? 1. : 0.;
        break;
      case 2: // arrow
        d(i, j) = i == j ? 3. + n : (i == 0 || j == 0) ? 1. + 0.5 * j : 0.;
        break;
      case 3: // full symmetric
        d(i, j) = 1. / (1. + std::abs(i - j)) + (i == j ? 1.5 : 0.);
        break;
      case 4: // diagonal
        d(i, j) = i == j ? 0.5 + i : 0.;
        break;
      case 5: // long-range couplings, varying scale
        d(i, j) = i == j ? 10. * (1 + i % 3)
                         : (i + 2 * j) % 3 == 0 ? -1. - 0.25 * i : 0.;
        break;
      }
  return d;
}

void c22_assembled(Run &run)
{
  bool const large = run.choose(2, "large");
  int const n = large ? 40 : 1 + run.choose(run.thorough ? 6 : 5, "n-1");
  // (the others amplify too much when they are this large)
  int const k = large ? run.pick<int>("matrix", {0, 1, 3, 4})
                      : run.choose(n_regular, "matrix");
  auto const ls = large ? std::vector<Layout>{even_layout(n, run.size)}
                        : layouts(n, run.size);
  int const li = run.choose(std::min<std::size_t>(ls.size(), run.thorough ? 60 : 24),
                            "layout");
  Layout const l = ls[li * (ls.size() - 1) /
                      std::max<std::size_t>(1, std::min<std::size_t>(ls.size(), run.thorough ? 60 : 24) - 1)];
  run.note(show(l));
  run.commit();
  Dense a = regular_matrix(n, k);
  double const scale = run.pick<double>("matrix scale", {1., 1e-9, 1e8});
  for (double &x : a.a)
    x *= scale;
  std::vector<std::string> const types{"symmetric gauss-seidel", "gauss-seidel",
                                       "jacobi", "ilu", ""};
  std::string type = run.pick("type", types);
  auto params = std::make_shared<ptree>();
  if (!type.empty())
    params->put("smoother.type", mixed_case(type, run.choose(3, "case")));
  else
    type = "symmetric gauss-seidel"; // the documented default
  auto mat = make_matrix(run, a, l, l);
  auto op = std::make_shared<TOp>(mat);
  mfmg::DealIISmoother<DistVec> smoother(op, params);
  // another smoother on the same operator must not matter
  auto other_params = std::make_shared<ptree>();
  other_params->put("smoother.type", type == "jacobi" ? "ILU" : "Jacobi");
  mfmg::DealIISmoother<DistVec> other(op, other_params);
  Dense const minv = smoother_inverse(type, a, l);
  auto model = [&](DVec const &b, DVec const &x)
  {
    DVec r = mul(a, x);
    for (int i = 0; i < n; ++i)
      r[i] = b[i] - r[i];
    DVec c = mul(minv, r);
    for (int i = 0; i < n; ++i)
      c[i] += x[i];
    return c;
  };
  std::vector<DVec> vs;
  for (int i = 0; i < n; i += large ? 13 : 1)
    vs.push_back(unit(n, i));
  vs.push_back(DVec(n, 0.));
  vs.push_back(general(n));
  for (auto const &b0 : vs)
    for (auto const &x : vs)
    {
      DVec b = b0;
      for (double &y : b)
        y *= scale;
      DistVec bv = make_vector(run, l, b), xv = make_vector(run, l, x);
      DVec xr = x;
      // repeated application, with another smoother working in between
      for (int rep = 0; rep < 3; ++rep)
      {
        smoother.apply(bv, xv);
        xr = model(b, xr);
        run.step();
        double const e = max_diff(gatherv(xv), xr);
        if (!run.check(e < 1e-10 * std::max(1., max_abs(xr)), "step",
                       type + ": application " + std::to_string(rep + 1) +
                           " differs from x + M^-1 (b - A x) by " +
                           std::to_string(e)))
          return;
        run.check(max_diff(gatherv(bv), b) == 0., "b",
                  "right-hand side changed");
        DistVec y = make_vector(run, l, general(n, 1));
        other.apply(bv, y);
      }
    }
  // no matter how small or large the vectors are
  for (double f : {1e-80, 1e-20, 1e20, 1e80})
  {
    DVec b = general(n), x = general(n, 3);
    for (int i = 0; i < n; ++i)
    {
      b[i] *= f * scale;
      x[i] *= f;
    }
    DistVec bv = make_vector(run, l, b), xv = make_vector(run, l, x);
    smoother.apply(bv, xv);
    run.step();
    DVec const xr = model(b, x);
    run.check(max_diff(gatherv(xv), xr) < 1e-10 * f * std::max(1., max_abs(xr) / f),
              "step", type + ": wrong for vectors of size " + num(f));
  }
  // exact solution
  DVec const xs = general(n, 2);
  DistVec bv = make_vector(run, l, mul(a, xs)), xv = make_vector(run, l, xs);
  smoother.apply(bv, xv);
  run.check(max_diff(gatherv(xv), xs) < 1e-11 * std::max(1., max_abs(mul(a, xs)) / scale),
            "fixed point", "exact solution changed by the smoother");
  run.check(max_diff(gather(*mat), a) == 0., "matrix", "matrix changed");
  Hash h;
  h << type << n << k << minv.a;
  run.observe(h);
}

template <int dim>
void c22_matrix_free(Run &run)
{
  std::vector<Mesh> ms = small_meshes<dim>();
  ms.push_back(warped(1, brick(3, 2, 1, 0)));
  Mesh const m = run.pick("mesh", ms);
  std::string const bc = run.pick<std::string>("boundary", {"left", "dirichlet"});
  int const coeff = run.choose(3, "coefficient");
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, m, bc);
  pb.assemble(coeff);
  auto eval = std::make_shared<MFEvaluator<dim>>(pb);
  auto op =
      std::make_shared<mfmg::DealIIMatrixFreeOperator<dim, DistVec>>(eval);
  Dense const a = gather(pb.matrix);
  int const n = a.r;
  auto params = std::make_shared<ptree>();
  int const ty = run.choose(4, "type");
  if (ty > 0)
    params->put("smoother.type", mixed_case("chebyshev", ty - 1));
  int const degree = run.choose(run.thorough ? 5 : 4, "degree");
  int const range = run.choose(3, "range");
  int const maxev = run.choose(2, "max eigenvalue");
  using Cheb = dealii::PreconditionChebyshev<DenseLikeOperator, DistVec,
                                             dealii::DiagonalMatrix<DistVec>>;
  typename Cheb::AdditionalData data;
  if (degree > 0)
  {
    int const deg = degree == 3 ? 11 : degree;
    params->put("smoother.degree", deg);
    data.degree = deg;
  }
  if (range > 0)
  {
    params->put("smoother.smoothing_range", range == 1 ? 5.5 : 20.);
    data.smoothing_range = range == 1 ? 5.5 : 20.;
  }
  if (maxev > 0)
  {
    params->put("smoother.max_eigenvalue", 3.5);
    data.max_eigenvalue = 3.5;
    data.eig_cg_n_iterations = 0; // documented: else the value is not used
  }
  data.preconditioner = eval->matrix_free_get_diagonal_inverse();
  DenseLikeOperator ref_op;
  ref_op.a = &pb.matrix;
  Cheb ref;
  ref.initialize(ref_op, data);
  mfmg::DealIIMatrixFreeSmoother<dim, DistVec> smoother(op, params);
  auto nv = [&](DVec const &v)
  {
    DistVec x(pb.owned, MPI_COMM_WORLD);
    scatter(v, x);
    return x;
  };
  auto model = [&](DVec const &b, DVec const &x)
  {
    DVec r = mul(a, x);
    for (int i = 0; i < n; ++i)
      r[i] = b[i] - r[i];
    DistVec rv = nv(r), cv = nv(DVec(n, 0.));
    ref.vmult(cv, rv);
    DVec c = gatherv(cv);
    for (int i = 0; i < n; ++i)
      c[i] += x[i];
    return c;
  };
  std::vector<DVec> vs{DVec(n, 0.), general(n), unit(n, 0), unit(n, n - 1),
                       unit(n, n / 2)};
  for (auto const &b : vs)
    for (auto const &x : vs)
    {
      DistVec bv = nv(b), xv = nv(x);
      DVec xr = x;
      for (int rep = 0; rep < 2; ++rep)
      {
        smoother.apply(bv, xv);
        xr = model(b, xr);
        run.step();
        double const e = max_diff(gatherv(xv), xr);
        if (!run.check(e < 1e-10 * std::max(1., max_abs(xr)), "step",
                       "chebyshev: application " + std::to_string(rep + 1) +
                           " differs from x + M^-1 (b - A x) by " +
                           std::to_string(e)))
          return;
        run.check(max_diff(gatherv(bv), b) == 0., "b",
                  "right-hand side changed");
      }
    }
  for (double f : {1e-80, 1e-20, 1e20, 1e80})
  {
    DVec b = general(n), x = general(n, 3);
    for (int i = 0; i < n; ++i)
    {
      b[i] *= f;
      x[i] *= f;
    }
    DistVec bv = nv(b), xv = nv(x);
    smoother.apply(bv, xv);
    run.step();
    DVec const xr = model(b, x);
    run.check(max_diff(gatherv(xv), xr) < 1e-10 * f * std::max(1., max_abs(xr) / f),
              "step", "chebyshev: wrong for vectors of size " + num(f));
  }
  DVec const xs = general(n, 2);
  DistVec bv = nv(mul(a, xs)), xv = nv(xs);
  smoother.apply(bv, xv);
  run.check(max_diff(gatherv(xv), xs) < 1e-10 * std::max(1., max_abs(mul(a, xs))),
            "fixed point", "exact solution changed by the smoother");
  Hash h;
  h << "cheb" << dim << degree << range << maxev << a.a << gatherv(xv);
  run.observe(h);
}

void c22(Run &run)
{
  int const part = run.choose(3, "part");
  if (part == 0)
    c22_assembled(run);
  else if (part == 1)
    c22_matrix_free<2>(run);
  else
    c22_matrix_free<3>(run);
}

// ----------------------------------------------------------------------- C23

void c23_direct(Run &run)
{
  bool const large = run.choose(2, "large");
  int const n = large ? run.pick<int>("n", {30, 150})
                      : 1 + run.choose(run.thorough ? 6 : 5, "n-1");
  bool const all = run.size == 1 && n <= 3 && run.choose(2, "all entries");
  auto const ls = large ? std::vector<Layout>{even_layout(n, run.size)}
                        : layouts(n, run.size);
  int const nl = std::min<std::size_t>(ls.size(), run.thorough ? 60 : 20);
  int const li = run.choose(nl, "layout");
  Layout const l = ls[li * (ls.size() - 1) / std::max(1, nl - 1)];
  run.note(show(l));
  run.commit();
  Dense a(n, n);
  if (all)
  {
    double const alphabet[3] = {0., 1., -2.};
    for (double &x : a.a)
      x = alphabet[run.choose(3, "a")];
  }
  else
  {
    int const k = run.choose(n_regular + 2, "matrix");
    a = k < n_regular ? regular_matrix(n, k)
                      : pattern_matrix(n, n, k == n_regular ? 6 : 2);
    double const scale = run.pick<double>("scale", {1., 1e-6, 1e6});
    for (double &x : a.a)
      x *= scale;
  }
  LU lu(a);
  if (!(lu.min_pivot > 1e-12 * std::max(1e-30, max_abs(a))))
    run.reject();
  auto params = std::make_shared<ptree>();
  int const ty = run.choose(4, "type");
  if (ty > 0)
    params->put("coarse.type", mixed_case("direct", ty - 1));
  auto mat = make_matrix(run, a, l, l);
  auto op = std::make_shared<TOp>(mat);
  auto solver = std::make_unique<mfmg::DealIISolver<DistVec>>(op, params);
  op.reset();
  // sequences of solves: every right-hand side after every other
  std::vector<DVec> bs{general(n), DVec(n, 0.)};
  for (int i = 0; i < n; i += large ? n - 1 : 1)
    bs.push_back(unit(n, i));
  for (double f : {1e-80, 1e-20, 1e20, 1e80})
  {
    bs.push_back(general(n, 1));
    for (double &x : bs.back())
      x *= f;
  }
  for (std::size_t i = 0; i < bs.size(); ++i)
    for (std::size_t j = 0; j < bs.size(); ++j)
      for (auto const &b : {bs[i], bs[j]})
      {
        DistVec bv = make_vector(run, l, b),
                xv = make_vector(run, l, general(n, 5));
        solver->apply(bv, xv);
        run.step();
        DVec const x = lu.solve(b);
        double const s = std::max(1e-300, std::max(max_abs(x), max_abs(b)));
        double const e = max_diff(gatherv(xv), x);
        if (!run.check(e <= 1e-9 * s, "solution",
                       "direct solver differs by " + std::to_string(e)))
          return;
        run.check(max_diff(gatherv(bv), b) == 0., "b",
                  "right-hand side changed");
      }
  run.check(max_diff(gather(*mat), a) == 0., "matrix", "matrix changed");
  Hash h;
  h << n << a.a << show(l);
  run.observe(h);
}

struct MLCase
{
  std::string name;
  std::vector<std::array<std::string, 2>> params;
};

void c23_ml(Run &run)
{
  // 2d Laplace on a k x k grid
  int const k = run.pick<int>("grid", {1, 2, 4, 9, 14});
  int const n = k * k;
  static std::vector<MLCase> const cases{
      {"none", {}},
      {"empty", {}},
      {"coarse jacobi",
       {{{"coarse: type", "Jacobi"}}, {{"coarse: max size", "4"}}}},
      {"smoother",
       {{{"smoother: type", "Jacobi"}}, {{"smoother: sweeps", "2"}}}},
      {"damping", {{{"smoother: damping factor", "0.5"}},
                   {{"smoother: type", "Gauss-Seidel"}}}},
      {"levels", {{{"max levels", "2"}}, {{"coarse: max size", "10"}}}},
      {"one level", {{{"max levels", "1"}}}},
      {"zero start", {{{"zero starting solution", "true"}}}},
      {"nonzero start", {{{"zero starting solution", "false"}}}},
      {"threshold", {{{"aggregation: threshold", "0.01"}}}},
      {"cycle", {{{"prec type", "MGW"}}, {{"cycle applications", "2"}}}}};
  int const c = run.choose(cases.size(), "parameters");
  run.note(cases[c].name);
  int const lk = run.choose(run.size == 1 ? 1 : 2, "layout");
  run.commit();
  Layout const l = lk == 0 ? even_layout(n, run.size)
                           : [&]()
  {
    Layout v(run.size, 0);
    v.back() = n;
    return v;
  }();
  int const coeff = run.choose(2, "coefficient");
  Dense a(n, n);
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < k; ++j)
    {
      int const p = i * k + j;
      double const w = coeff && (i + j) % 3 == 0 ? 1.5 : 1.;
      a(p, p) += 4. * w;
      if (j + 1 < k)
      {
        a(p, p + 1) -= 1.;
        a(p + 1, p) -= 1.;
      }
      if (i + 1 < k)
      {
        a(p, p + k) -= 1.;
        a(p + k, p) -= 1.;
      }
    }
  auto mat = make_matrix(run, a, l, l);
  auto op = std::make_shared<TOp>(mat);
  auto params = std::make_shared<ptree>();
  params->put("coarse.type", mixed_case("ml", run.choose(3, "case")));
  // the reference: the package's defaults with the user's values on top
  Teuchos::ParameterList pl;
  ML_Epetra::SetDefaults("SA", pl);
  if (cases[c].name == "empty")
    params->put_child("coarse.params", ptree());
  for (auto const &p : cases[c].params)
  {
    params->put(ptree::path_type("coarse/params/" + p[0], '/'), p[1]);
    std::string const v = p[1];
    if (v == "true" || v == "false")
      pl.set(p[0], v == "true");
    else if (v.find_first_not_of("0123456789") == std::string::npos)
      pl.set(p[0], std::atoi(v.c_str()));
    else if (v.find_first_not_of("0123456789.") == std::string::npos)
      pl.set(p[0], std::atof(v.c_str()));
    else
      pl.set(p[0], v);
  }
  // the path separator in the tree is '.', names contain no dots
  ptree fixed = *params;
  seed_package();
  mfmg::DealIISolver<DistVec> solver(op, params);
  run.check(fixed == *params, "params", "user's parameters changed");
  dealii::TrilinosWrappers::PreconditionAMG ref;
  seed_package();
  ref.initialize(*mat, pl);
  std::vector<DVec> bs{general(n), unit(n, 0), unit(n, n - 1),
                       unit(n, n / 2), DVec(n, 0.)};
  LU lu(a);
  for (auto const &b : bs)
    for (int rep = 0; rep < 2; ++rep)
    {
      DVec const x0 = rep == 0 ? DVec(n, 0.) : general(n, 3);
      DistVec bv = make_vector(run, l, b), xv = make_vector(run, l, x0),
              yv = make_vector(run, l, x0);
      solver.apply(bv, xv);
      ref.vmult(yv, bv);
      run.step();
      double const e = max_diff(gatherv(xv), gatherv(yv));
      // (the package estimates eigenvalues from random vectors)
      if (!run.check(e < 1e-5 * std::max(1., max_abs(gatherv(yv))), "ml",
                     "ML application differs by " + num(e) +
                         " from the one with the package's defaults and the "
                         "user's parameters"))
        return;
      run.check(max_diff(gatherv(bv), b) == 0., "b", "right-hand side changed");
      if (rep == 0)
      {
        // contraction in the energy norm
        DVec const xs = lu.solve(b);
        DVec err = gatherv(xv);
        for (int i = 0; i < n; ++i)
          err[i] -= xs[i];
        double const e1 = dot(err, mul(a, err)), e0 = dot(xs, mul(a, xs));
        run.check(e1 <= e0 * (1 + 1e-10) + 1e-20, "contraction",
                  "ML application does not contract the error: " +
                      std::to_string(e1) + " from " + std::to_string(e0));
      }
      Hash h;
      h << "ml" << k << cases[c].name << gatherv(xv);
      run.observe(h);
    }
}

void c23(Run &run)
{
  if (run.choose(2, "part") == 0)
    c23_direct(run);
  else
    c23_ml(run);
}

// ----------------------------------------------------------------------- C24

template <int dim>
void c24(Run &run)
{
  std::vector<Mesh> ms = small_meshes<dim>();
  ms.push_back(mesh_of("hanging", 1));
  ms.push_back(mesh_of("L", 1));
  ms.push_back(mesh_of("disc", 1));
  ms.push_back(warped(1, brick(3, 2, 1, 0)));
  ms.push_back(dim == 2 ? brick(17, 9, 1, 0) : brick(4, 4, 3, 0));
  if (run.thorough)
    ms.push_back(cube(dim == 2 ? 3 : 2));
  Mesh const m = run.pick("mesh", ms);
  std::string const bc =
      run.pick<std::string>("boundary", {"dirichlet", "none", "left"});
  int const coeff = run.pick<int>("coefficient", {0, 1, 2, 7, 8});
  int const degree = 1 + run.choose(2, "degree-1");
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, m, bc, degree);
  if (m.kind == "hanging")
  {
    pb.pattern = coeff;
    // constraints with hanging nodes
    pb.constraints.clear();
    pb.constraints.reinit(pb.relevant);
    dealii::DoFTools::make_hanging_node_constraints(pb.dof_handler,
                                                    pb.constraints);
    pb.constraints.close();
    dealii::TrilinosWrappers::SparsityPattern sp(pb.owned, pb.comm);
    dealii::DoFTools::make_sparsity_pattern(pb.dof_handler, sp, pb.constraints);
    sp.compress();
    pb.matrix.reinit(sp);
    CellMatrix<dim> cm(pb.fe, coeff);
    dealii::FullMatrix<double> k;
    std::vector<dealii::types::global_dof_index> idx(pb.fe.dofs_per_cell);
    for (auto &cell : pb.dof_handler.active_cell_iterators())
      if (cell->is_locally_owned())
      {
        cm(cell, k);
        cell->get_dof_indices(idx);
        pb.constraints.distribute_local_to_global(k, idx, pb.matrix);
      }
    pb.matrix.compress(dealii::VectorOperation::add);
  }
  else
    pb.assemble(coeff);
  MatrixEvaluator<dim> ev(pb);
  run.check(ev.get_dim() == dim, "dim", "wrong dimension");
  run.check(ev.get_mesh_evaluator_type() == "DealIIMeshEvaluator", "type",
            "wrong evaluator type " + ev.get_mesh_evaluator_type());
  MFEvaluator<dim> mf(pb);
  run.check(mf.get_dim() == dim, "dim", "wrong dimension");
  run.check(mf.get_mesh_evaluator_type() == "DealIIMatrixFreeMeshEvaluator",
            "type", "wrong evaluator type " + mf.get_mesh_evaluator_type());
  run.check(&ev.get_dof_handler() == &pb.dof_handler &&
                &ev.get_constraints() == &pb.constraints,
            "access", "other dof handler or constraints returned");
  run.check(mf.m() == pb.dof_handler.n_dofs(), "size", "wrong size");
  auto rv = mf.build_range_vector();
  run.check(rv->locally_owned_elements() == pb.owned, "range vector",
            "range vector distributed unlike the dofs");

  Dense const a = gather(pb.matrix);
  for (int rep = 0; rep < 2; ++rep)
  {
    auto const diag = ev.get_diagonal();
    run.check(diag.size() == pb.dof_handler.n_dofs() &&
                  diag.locally_owned_elements() == pb.owned,
              "diagonal layout", "diagonal distributed unlike the dofs");
    for (auto i : pb.relevant)
    {
      bool const there =
          diag.in_local_range(i) ||
          diag.get_partitioner()->is_ghost_entry(i);
      if (!run.check(there, "diagonal ghosts",
                     "relevant dof missing from the diagonal"))
        return;
      run.check(std::abs(diag(i) - a(i, i)) <= 1e-13 * std::abs(a(i, i)),
                "diagonal",
                "diagonal entry " + num(diag(i)) + " instead of " +
                    num(a(i, i)));
      run.step();
    }
  }
  // initial guesses: every subset of constrained dofs on short vectors
  {
    int const n = 1 + run.choose(run.thorough ? 8 : 6, "n-1");
    for (unsigned int mask = 0; mask < (1u << n); ++mask)
    {
      dealii::AffineConstraints<double> cs;
      for (int i = 0; i < n; ++i)
        if (mask & (1u << i))
          cs.add_line(i);
      cs.close();
      dealii::Vector<double> x(n), y(n);
      y = 3.;
      mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(cs, x);
      mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(cs, y);
      run.step();
      for (int i = 0; i < n; ++i)
      {
        if (mask & (1u << i))
          run.check(x[i] == 0. && y[i] == 0., "guess",
                    "initial guess is not zero at a constrained dof");
        else
          run.check(x[i] != 0. && std::isfinite(x[i]), "guess",
                    "initial guess is zero at a free dof");
        run.check(x[i] == y[i], "guess", "initial guess differs when repeated");
      }
    }
  }
  // longer vectors
  for (int n : {100, 257, 3000})
    for (int every : {0, 1, 2, 7})
    {
      dealii::AffineConstraints<double> cs;
      for (int i = 0; every && i < n; i += every)
        cs.add_line(i);
      cs.close();
      dealii::Vector<double> x(n), y(n);
      y = 3.;
      mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(cs, x);
      mfmg::DealIIMeshEvaluator<dim>::set_initial_guess(cs, y);
      run.step();
      bool good = true;
      for (int i = 0; i < n; ++i)
        good = good && ((every && i % every == 0) ? x[i] == 0. : x[i] != 0. && std::isfinite(x[i])) && x[i] == y[i];
      run.check(good, "guess", "bad initial guess of length " + std::to_string(n));
    }
  Hash h;
  h << dim << a.a << run.size;
  run.observe(h);
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize init(argc, argv, 1);
  Run run(argc, argv);
  return run.explore(
      [](Run &r)
      {
        if (r.prop == "C07")
          c07(r);
        else if (r.prop == "C15")
          c15(r);
        else if (r.prop == "C16")
          c16(r);
        else if (r.prop == "C21")
          c21(r);
        else if (r.prop == "C22")
          c22(r);
        else if (r.prop == "C23")
          c23(r);
        else if (r.prop == "C24")
        {
          if (r.choose(2, "dim-2") == 0)
            c24<2>(r);
          else
            c24<3>(r);
        }
        else
          throw std::logic_error("unknown property " + r.prop);
      });
}
