// C06 (weights), C08, C09, C10, C11, C17, C20: local eigenproblems, fast
// product, the two-grid cycle, histories of hierarchies, configuration errors.
#include "evaluators.hpp"
#include "models.hpp"

#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/amge_host.templates.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

#include <deal.II/base/timer.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/trilinos_precondition.h>

using ex::Hash;
using ex::Run;
using boost::property_tree::ptree;
using Op = mfmg::Operator<DistVec>;
using TOp = mfmg::DealIITrilinosMatrixOperator<DistVec>;
using Hier = mfmg::Hierarchy<DistVec>;

template <int dim>
std::shared_ptr<mfmg::MeshEvaluator> make_evaluator(Problem<dim> &p, bool mf)
{
  if (mf)
    return std::make_shared<MFEvaluator<dim>>(p);
  return std::make_shared<MatrixEvaluator<dim>>(p);
}

// The options of the eigensolvers' own; returns the number of pairs that are
// computed in all
int put_options(ptree &es, std::string const &solver, int neig, int options)
{
  int pairs_computed = neig;
  if (options == 1 && solver == "anasazi")
  {
    es.put("full_ortho", false);
    es.put("max_iterations", 150);
    es.put("tolerance", 1e-8);
  }
  else if (options == 1)
  {
    es.put("is_deflated", true);
    es.put("num_cycles", 2);
    es.put("num_eigenpairs_per_cycle", neig);
    pairs_computed = 2 * neig;
  }
  else if (options == 2 && solver == "anasazi")
    es.put("max_iterations", 500);
  else if (options == 2)
  {
    es.put("is_deflated", true);
    es.put("num_cycles", neig);
    es.put("num_eigenpairs_per_cycle", 1);
  }
  else if (options == 3)
  {
    es.put("percent_overshoot", 60);
    es.put("max_iterations", 1000);
  }
  else if (options == 4)
  {
    es.put("percent_overshoot", 0);
    es.put("is_deflated", false);
    es.put("num_cycles", 1);
    es.put("num_eigenpairs_per_cycle", 1);
  }
  return pairs_computed;
}

// (Anasazi without full orthogonalization may recover forever with three
// vectors)
int pick_options(Run &run, std::string const &solver, int neig, int coeff)
{
  if (solver != "lanczos" && solver != "anasazi")
    return 0;
  int const o = run.choose(solver == "lanczos" ? 5 : 3, "solver options");
  if ((solver == "anasazi" && o == 1 && neig > 2) ||
      (!run.thorough && o > 0 && coeff > 0))
    run.reject();
  return o;
}

// what this execution uses (set by the properties that enumerate them)
int solver_options = 0;

std::shared_ptr<ptree> make_params(Part const &part, int neig,
                                   std::string const &solver, bool fast_ap)
{
  auto p = std::make_shared<ptree>();
  p->put_child("agglomeration", to_ptree(part));
  p->put("eigensolver.number of eigenvectors", neig);
  if (!solver.empty())
    p->put("eigensolver.type", solver);
  if (solver == "anasazi")
    p->put("eigensolver.tolerance", 1e-10);
  else
    p->put("eigensolver.tolerance", 1e-13);
  if (solver_options > 0)
    put_options(p->get_child("eigensolver"), solver, neig, solver_options);
  p->put("fast_ap", fast_ap);
  return p;
}

// the layout (rows per rank) of an operator's range
Layout layout_of(dealii::IndexSet const &is)
{
  int ranks;
  MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  int k = is.n_elements();
  Layout l(ranks);
  MPI_Allgather(&k, 1, MPI_INT, l.data(), 1, MPI_INT, MPI_COMM_WORLD);
  return l;
}

DistVec new_vector(dealii::IndexSet const &is, DVec const &v)
{
  DistVec x(is, MPI_COMM_WORLD);
  scatter(v, x);
  return x;
}

Dense dense_of(Op const &op)
{
  auto dom = op.build_domain_vector(), rng = op.build_range_vector();
  int const n = dom->size(), m = rng->size();
  Dense d(m, n);
  for (int j = 0; j < n; ++j)
  {
    scatter(unit(n, j), *dom);
    *rng = 0.;
    op.apply(*dom, *rng);
    DVec const c = gatherv(*rng);
    for (int i = 0; i < m; ++i)
      d(i, j) = c[i];
  }
  return d;
}

Dense dense_restriction(std::shared_ptr<Op const> r)
{
  auto t = std::dynamic_pointer_cast<TOp const>(r);
  if (t)
    return gather(*t->get_matrix());
  return dense_of(*r);
}

template <int dim>
std::vector<Mesh> meshes(Run &run, int level)
{
  std::vector<Mesh> v;
  if (dim == 2)
  {
    v = {brick(2, 2, 1, 0), brick(3, 2, 1, 0), brick(4, 1, 1, 0),
         brick(4, 3, 1, 0), cube(2), mesh_of("disc", 1), mesh_of("L", 1),
         mesh_of("ball", 0)};
    if (level > 0)
    {
      v.push_back(brick(5, 4, 1, 0));
      v.push_back(mesh_of("disc2", 1));
      v.push_back(mesh_of("cross", 1));
    }
    if (level > 1 || run.thorough)
      v.push_back(cube(3));
  }
  else
  {
    v = {brick(2, 2, 1, 0), brick(2, 2, 2, 0), mesh_of("disc", 0)};
    if (level > 0 || run.thorough)
      v.push_back(brick(3, 2, 2, 0));
    if (run.thorough)
    {
      v.push_back(cube(2));
      v.push_back(brick(4, 2, 1, 0));
    }
  }
  return v;
}

// Bigger problems: many agglomerates, many dofs per agglomerate, cells of
// other shapes
template <int dim>
std::vector<std::pair<Mesh, Part>> big_problems(bool thorough)
{
  std::vector<std::pair<Mesh, Part>> v;
  if (dim == 2)
  {
    v = {{brick(7, 6, 1, 0), {"block", 4, 3, 1}},
         {brick(9, 7, 1, 0), {"metis", 4, 0, 0}},
         {warped(4, brick(6, 5, 1, 0)), {"block", 3, 5, 1}},
         {brick(11, 10, 1, 0), {"block", 11, 10, 1}}};
    if (thorough)
    {
      v.push_back({warped(4, mesh_of("L", 2)), {"zoltan", 3, 0, 0}});
      v.push_back({mesh_of("disc", 2), {"block", 4, 4, 1}});
      v.push_back({brick(13, 12, 1, 0), {"block", 5, 12, 1}});
    }
  }
  else
  {
    v = {{warped(4, brick(4, 3, 2, 0)), {"block", 2, 3, 2}}};
    if (thorough)
      v.push_back({brick(4, 4, 3, 0), {"metis", 3, 0, 0}});
  }
  return v;
}

template <int dim>
std::vector<Part> parts(bool graphs)
{
  std::vector<Part> v;
  if (dim == 2)
    v = {{"block", 2, 2, 1}, {"block", 1, 2, 1}, {"block", 3, 1, 1},
         {"block", 9, 9, 1}};
  else
    v = {{"block", 2, 2, 2}, {"block", 2, 1, 1}, {"block", 9, 9, 9}};
  if (graphs)
  {
    v.push_back({"metis", 2, 0, 0});
    v.push_back({"zoltan", 3, 0, 0});
  }
  return v;
}

// The mesh and its partition; returns whether it is a bigger problem
template <int dim>
bool pick_problem(Run &run, int level, bool graphs, Mesh &m, Part &part)
{
  bool const big = run.choose(2, "bigger problem");
  if (big)
  {
    auto const v = big_problems<dim>(run.thorough);
    auto const &p = v[run.choose(v.size(), "problem")];
    m = p.first;
    part = p.second;
    std::ostringstream s;
    s << m << " " << part;
    run.note(s.str());
  }
  else
  {
    m = run.pick("mesh", meshes<dim>(run, level));
    part = run.pick("agglomeration", parts<dim>(graphs));
  }
  return big;
}

// Smallest number of unconstrained and total dofs over the agglomerates of
// all ranks; used to stay within admissible numbers of eigenvectors.
template <int dim>
struct Local
{
  dealii::Triangulation<dim> tria;
  std::map<typename dealii::Triangulation<dim>::active_cell_iterator,
           typename dealii::DoFHandler<dim>::active_cell_iterator>
      map;
  Dense a;                    // agglomerate matrix
  std::vector<bool> fixed;    // constrained dofs
  std::vector<unsigned> glob; // global dof per local dof
  std::vector<int> free;
  Dense a_free;
  dealii::AffineConstraints<double> constraints;
};

template <int dim>
std::unique_ptr<Local<dim>> make_local(Problem<dim> &pb,
                                       mfmg::AMGe<dim, DistVec> const &amge,
                                       unsigned int id)
{
  auto l = std::make_unique<Local<dim>>();
  amge.build_agglomerate_triangulation(id, l->tria, l->map);
  dealii::DoFHandler<dim> dh(l->tria);
  dh.distribute_dofs(pb.fe);
  dealii::AffineConstraints<double> &cs = l->constraints;
  dealii::SparsityPattern sp;
  dealii::SparseMatrix<double> m;
  assemble_agglomerate<dim>(pb.fe, pb.pattern, dh, cs, sp, m);
  int const n = dh.n_dofs();
  l->a = Dense(n, n);
  for (int i = 0; i < n; ++i)
    for (auto it = m.begin(i); it != m.end(i); ++it)
      l->a(i, it->column()) = it->value();
  for (int i = 0; i < n; ++i)
  {
    l->fixed.push_back(cs.is_constrained(i));
    if (!l->fixed.back())
      l->free.push_back(i);
  }
  int const f = l->free.size();
  l->a_free = Dense(f, f);
  for (int i = 0; i < f; ++i)
    for (int j = 0; j < f; ++j)
      l->a_free(i, j) = l->a(l->free[i], l->free[j]);
  // the map of dofs: independent of mfmg, by support points on the cells
  l->glob.assign(n, 0);
  std::vector<dealii::types::global_dof_index> li(pb.fe.dofs_per_cell),
      gi(pb.fe.dofs_per_cell);
  for (auto const &kv : l->map)
  {
    typename dealii::DoFHandler<dim>::active_cell_iterator lc(
        &l->tria, kv.first->level(), kv.first->index(), &dh);
    lc->get_dof_indices(li);
    kv.second->get_dof_indices(gi);
    for (unsigned int i = 0; i < li.size(); ++i)
      l->glob[li[i]] = gi[i];
  }
  dh.clear();
  return l;
}

template <int dim>
int min_free_dofs(Problem<dim> &pb, Part const &part)
{
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, pb.dof_handler);
  unsigned int const n = amge.build_agglomerates(to_ptree(part));
  int k = 1 << 20;
  for (unsigned int i = 1; i <= n; ++i)
    k = std::min<int>(k, make_local<dim>(pb, amge, i)->free.size());
  MPI_Allreduce(MPI_IN_PLACE, &k, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  return k;
}

// Does the eigensolver deliver on this agglomerate, in both modes? (One that
// does not throws, which on several ranks leaves the others waiting.)
template <int dim>
bool willing(Problem<dim> &pb, Local<dim> &l, std::string const &solver, int neig,
             int only_mode = -1)
{
  auto params = make_params({"block", 1, 1, 1}, neig, solver, false);
  ptree const es = params->get_child("eigensolver");
  double const tolerance = es.get<double>("tolerance");
  mfmg::LobpcgScratchData scratch;
  try
  {
    if (only_mode != 1)
    {
    auto e = std::dynamic_pointer_cast<mfmg::DealIIMeshEvaluator<dim>>(
        make_evaluator<dim>(pb, false));
    mfmg::AMGe_host<dim, mfmg::DealIIMeshEvaluator<dim>, DistVec> amge(
        MPI_COMM_WORLD, pb.dof_handler, es);
    amge.compute_local_eigenvectors(neig, tolerance, l.tria, l.map, *e, scratch);
    }
    if (only_mode == 0)
      return true;
    auto m = std::dynamic_pointer_cast<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>(
        make_evaluator<dim>(pb, true));
    mfmg::AMGe_host<dim, mfmg::DealIIMatrixFreeMeshEvaluator<dim>, DistVec>
        mamge(MPI_COMM_WORLD, pb.dof_handler, es);
    mamge.compute_local_eigenvectors(neig, tolerance, l.tria, l.map, *m, scratch);
  }
  catch (std::exception const &)
  {
    return false;
  }
  return true;
}

template <int dim>
bool all_willing(Run &run, Problem<dim> &pb, Part const &part,
                 std::string const &solver, int neig, int mode)
{
  if (run.size == 1 && neig == 1)
    return true;
  int good = 1;
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, pb.dof_handler);
  unsigned int const na = amge.build_agglomerates(to_ptree(part));
  for (unsigned int id = 1; id <= na; ++id)
    good = good && willing<dim>(pb, *make_local<dim>(pb, amge, id), solver, neig, mode);
  MPI_Allreduce(MPI_IN_PLACE, &good, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  return good;
}

// Are some of the lowest eigenvalues of an agglomerate repeated? The pairs are
// not unique then.
template <int dim>
bool repeated_pairs(Problem<dim> &pb, Part const &part, int neig)
{
  int bad = 0;
  mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, pb.dof_handler);
  unsigned int const na = amge.build_agglomerates(to_ptree(part));
  for (unsigned int id = 1; id <= na; ++id)
  {
    auto l = make_local<dim>(pb, amge, id);
    DVec w;
    Dense v;
    jacobi_eig(l->a_free, w, v);
    for (int i = 0; i + 1 < int(w.size()) && i < neig; ++i)
      if (w[i + 1] - w[i] < 1e-5 * w.back())
        bad = 1;
  }
  MPI_Allreduce(MPI_IN_PLACE, &bad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return bad;
}

// Is this number of eigenvectors within what the solver can deliver?
bool admissible(std::string const &solver, int neig, int n_free)
{
  if (solver == "arpack" || solver == "")
    return 2 * neig + 2 <= n_free;
  if (solver == "anasazi")
    return 3 * neig + 1 <= n_free;
  return neig <= n_free;
}

// ----------------------------------------------------------------------- C08

template <int dim>
void c08(Run &run)
{
  bool const mf = run.choose(2, "matrix-free");
  Mesh m;
  Part part;
  bool const big = pick_problem<dim>(run, 1, true, m, part);
  std::string const bc = run.pick<std::string>("boundary", {"left", "none", "dirichlet"});
  int coeff = run.choose(3, "coefficient");
  run.commit();
  std::string const solver = run.pick<std::string>(
      "solver", mf ? std::vector<std::string>{"lanczos", "anasazi"}
                   : std::vector<std::string>{"arpack", "lapack", "lanczos",
                                              "anasazi"});
  std::vector<int> counts{1, 2, 3};
  if (big)
    counts = {3, 7};
  else if (run.thorough)
    counts.push_back(4);
  int const neig = run.pick("eigenvectors", counts);
  // (LOBPCG may recover forever with many vectors)
  if (big && (coeff == 0 || (solver == "anasazi" && neig > 3) ||
              (!run.thorough && (coeff == 1 || bc == "dirichlet"))))
    run.reject();
  solver_options = big ? 0 : pick_options(run, solver, neig, coeff);
  int const degree =
      1 + (dim == 2 && !big && solver_options == 0 && neig != 2 && coeff == 2
               ? run.choose(2, "degree-1")
               : 0);
  // the scale of the problem (the other solvers have absolute tolerances)
  bool scaled = false;
  if ((solver == "lapack" || solver == "arpack") && coeff > 0)
  {
    scaled = run.choose(2, "scaled");
    if (scaled)
      coeff = coeff == 1 ? 7 : 6; // tiny, huge
  }
  Problem<dim> pb(MPI_COMM_WORLD, m, bc, degree);
  pb.assemble(coeff);
  if (!pb.patches_know_constraints())
    run.reject();
  if (!admissible(solver, neig, min_free_dofs<dim>(pb, part)))
    run.reject();
  if (!all_willing<dim>(run, pb, part, solver, neig, mf))
    run.reject();
  auto eval = make_evaluator<dim>(pb, mf);
  std::shared_ptr<Op> r[2];
  std::shared_ptr<Op> ap, ref;
  bool refused[2] = {false, false};
  for (int fast = 0; fast < 2; ++fast)
  {
    auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
    auto a = h->get_global_operator(eval);
    int bad = 0;
    try
    {
      r[fast] = h->build_restrictor(MPI_COMM_WORLD, eval,
                                    make_params(part, neig, solver, fast));
    }
    catch (std::runtime_error const &)
    {
      bad = 1;
    }
    // (an eigensolver that does not converge refuses; on one rank only, the
    // others would wait)
    refused[fast] = bad;
    if (bad && run.size > 1)
      throw std::runtime_error("eigensolver failed");
    if (bad)
      continue;
    if (fast)
      ap = h->fast_multiply_transpose();
    else
      ref = a->multiply_transpose(r[0]);
    run.step(2);
  }
  run.check(refused[0] == refused[1], "refused",
            "only one of fast_ap and the explicit product can be built");
  if (refused[0] || run.failed())
  {
    run.check(solver == "anasazi" || solver == "lanczos", "refused",
              "set-up fails with " + solver);
    return;
  }
  Dense const a = gather(pb.matrix);
  Dense const r0 = dense_restriction(r[0]), r1 = dense_restriction(r[1]);
  double const amax = scaled ? max_abs(a) : std::max(1., max_abs(a));
  // (ARPACK's random restarts depend on what was computed before)
  if (!run.check(r0.r == r1.r && r0.c == r1.c &&
                     (max_diff(r0, r1) < 1e-9 ||
                      (solver == "arpack" && repeated_pairs<dim>(pb, part, neig))),
                 "restriction",
                 "fast_ap changes the restriction by " +
                     (r0.r == r1.r ? num(max_diff(r0, r1)) : "its size")))
    return;
  Dense const exact0 = mul(a, transpose(r0)), exact1 = mul(a, transpose(r1));
  double const tol = solver == "lanczos"   ? 3e-3 * amax
                     : solver == "anasazi" ? 1e-7 * amax
                                           : 1e-8 * amax;
  auto compare = [&](std::shared_ptr<Op> op, Dense const &exact, double t,
                     std::string const &what)
  {
    Dense const d = dense_restriction(op);
    if (!run.check(d.r == exact.r && d.c == exact.c, "size",
                   what + " has the wrong size"))
      return;
    double const e = max_diff(d, exact);
    run.check(e < t, "product", what + " differs from A R^T by " + num(e));
    auto dom = op->build_domain_vector(), rng = op->build_range_vector();
    auto rr = r[0]->build_range_vector();
    run.check(dom->locally_owned_elements() == rr->locally_owned_elements() &&
                  rng->locally_owned_elements() == pb.owned,
              "layout", what + " is distributed unlike A R^T");
  };
  compare(ref, exact0, 1e-11 * amax, "the explicit product");
  compare(ap, exact1, tol, "the fast product (" + solver + ")");
  // the coarse matrix both lead to
  Dense const ac = mul(r1, exact1);
  Dense const ac1 = dense_restriction(r[1]->multiply(ap));
  if (run.check(ac1.r == ac.r && ac1.c == ac.c, "size",
                "coarse matrix has the wrong size"))
    run.check(max_diff(ac1, ac) < 4 * tol, "coarse matrix",
              "coarse matrix of fast_ap differs by " + num(max_diff(ac1, ac)));
  run.step(2);
  Hash h;
  h << mf << r0.r << r0.c << exact1.a;
  run.observe(h);
}

// ------------------------------------------------------------- C06 (weights)

template <int dim>
void c06(Run &run)
{
  std::vector<Mesh> ms = meshes<dim>(run, 1);
  Mesh const m = run.pick("mesh", ms);
  Part const part = run.pick("agglomeration", parts<dim>(true));
  std::string const bc = run.pick<std::string>("boundary", {"left", "none", "dirichlet"});
  int const coeff =
      run.pick("coefficient", std::vector<int>{0, 1, 2, 7, 8});
  int const degree = 1 + run.choose(run.thorough && dim == 2 ? 2 : 1, "degree-1");
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, m, bc, degree);
  pb.assemble(coeff);
  int const n_free = min_free_dofs<dim>(pb, part);
  int const neig = 1 + run.choose(2, "eigenvectors-1");
  if (!admissible("lapack", neig, n_free))
    run.reject();
  auto eval = std::make_shared<MatrixEvaluator<dim>>(pb);
  ptree es;
  es.put("type", "lapack");
  using Host =
      mfmg::AMGe_host<dim, mfmg::DealIIMeshEvaluator<dim>, DistVec>;
  Host amge(MPI_COMM_WORLD, pb.dof_handler, es);
  auto diag = eval->get_diagonal();
  auto rest = std::make_shared<TSM>();
  std::unique_ptr<TSM> ev, delta;
  std::vector<double> eigenvalues;
  amge.setup_restrictor(to_ptree(part), neig, 1e-13, *eval, diag, rest, ev,
                        delta, eigenvalues);
  TSM plain;
  amge.setup_restrictor(to_ptree(part), neig, 1e-13, *eval, diag, plain);
  run.step(2);
  Dense const r = gather(*rest), e = gather(*ev), d = gather(*delta),
              p = gather(plain);
  int const n = pb.dof_handler.n_dofs();
  run.check(r.c == n && e.c == n && d.c == n && p.c == n && r.r == e.r &&
                r.r == d.r && r.r == p.r,
            "size", "matrices of different sizes");
  if (run.failed())
    return;
  run.check(max_diff(r, p) < 1e-12, "overloads",
            "the two forms give different restrictions");
  Dense sum = e;
  for (std::size_t i = 0; i < sum.a.size(); ++i)
    sum.a[i] += d.a[i];
  run.check(max_diff(sum, r) < 1e-12, "delta",
            "restriction is not eigenvector + delta matrix");
  // per agglomerate, against the agglomerate's own matrix
  Dense const a = gather(pb.matrix);
  unsigned int n_agg = 0;
  for (auto cell : pb.dof_handler.active_cell_iterators())
    if (cell->is_locally_owned())
      n_agg = std::max(n_agg, cell->user_index());
  std::vector<int> per_rank(run.size);
  int mine = n_agg;
  MPI_Allgather(&mine, 1, MPI_INT, per_rank.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int row = 0, rows = 0;
  for (int q = 0; q < run.size; ++q)
  {
    if (q < run.rank)
      row += per_rank[q] * neig;
    rows += per_rank[q] * neig;
  }
  if (!run.check(rows == r.r, "rows",
                 "expected " + std::to_string(rows) + " rows, got " +
                     std::to_string(r.r)))
    return;
  run.check(eigenvalues.size() == std::size_t(neig) * n_agg, "eigenvalues",
            "wrong number of eigenvalues");
  DVec weight_sum(n, 0.);
  for (unsigned int id = 1; id <= n_agg; ++id)
  {
    auto l = make_local<dim>(pb, amge, id);
    int const k = l->glob.size();
    std::vector<double> w(n, 0.);
    std::vector<bool> in(n, false);
    for (int i = 0; i < k; ++i)
    {
      w[l->glob[i]] = l->a(i, i) / a(l->glob[i], l->glob[i]);
      in[l->glob[i]] = true;
    }
    for (int i = 0; i < n; ++i)
      weight_sum[i] += w[i];
    for (int v = 0; v < neig; ++v, ++row)
    {
      double bad = 0., outside = 0., norm2 = 0.;
      for (int i = 0; i < n; ++i)
      {
        if (!in[i])
          outside = std::max({outside, std::abs(r(row, i)), std::abs(e(row, i))});
        else
          bad = std::max(bad, std::abs(r(row, i) - w[i] * e(row, i)));
        norm2 += e(row, i) * e(row, i);
      }
      run.check(outside == 0., "support", "row has entries outside of its agglomerate");
      run.check(bad < 1e-11, "weight",
                "row " + std::to_string(row) +
                    " is not the weighted eigenvector (off by " + num(bad) + ")");
      run.check(std::abs(norm2 - 1.) < 1e-9, "eigenvector",
                "row of the eigenvector matrix is not a unit vector");
      // an eigenvector for the eigenvalue reported in its place
      DVec x(k), y;
      for (int i = 0; i < k; ++i)
        x[i] = e(row, l->glob[i]);
      y = mul(l->a, x);
      double const lam = eigenvalues[(id - 1) * neig + v];
      double res = 0.;
      for (int i = 0; i < k; ++i)
        if (!l->fixed[i])
          res = std::max(res, std::abs(y[i] - lam * x[i]));
      run.check(res < 1e-8 * max_abs(l->a) + 1e-300, "eigenpair",
                "row " + std::to_string(row) +
                    " of the eigenvector matrix and its eigenvalue are no "
                    "eigenpair of the agglomerate (residual " + num(res) + ")");
    }
  }
  MPI_Allreduce(MPI_IN_PLACE, weight_sum.data(), n, MPI_DOUBLE, MPI_SUM,
                MPI_COMM_WORLD);
  for (int i = 0; i < n; ++i)
    run.check(std::abs(weight_sum[i] - 1.) < 1e-9, "partition of unity",
              "weights of dof " + std::to_string(i) + " sum to " +
                  num(weight_sum[i]));
  Hash h;
  h << n << neig << r.a;
  run.observe(h);
}

// ----------------------------------------------------------------------- C11

template <int dim, typename Evaluator>
void c11_solve(Run &run, Problem<dim> &pb, Part const &part,
               Evaluator const &eval, bool mf, std::string const &solver,
               int neig, int options)
{
  ptree es;
  if (solver != "default")
    es.put("type", solver);
  if (solver == "anasazi" && run.choose(2, "use_initial_guess"))
    es.put("use_initial_guess", true);
  double const tolerance = solver == "anasazi" ? 1e-10 : 1e-13;
  es.put("tolerance", tolerance);
  int const pairs_computed = put_options(es, solver, neig, options);
  es.put("number of eigenvectors", neig);
  using Base = std::conditional_t<
      std::is_base_of<mfmg::DealIIMatrixFreeMeshEvaluator<dim>, Evaluator>::value,
      mfmg::DealIIMatrixFreeMeshEvaluator<dim>, mfmg::DealIIMeshEvaluator<dim>>;
  mfmg::AMGe_host<dim, Base, DistVec> amge(MPI_COMM_WORLD, pb.dof_handler, es);
  unsigned int const n_agg = amge.build_agglomerates(to_ptree(part));
  mfmg::LobpcgScratchData scratch;
  std::string const kind =
      solver == "default" ? (mf ? "lanczos" : "arpack") : solver;
  for (unsigned int id = 1; id <= n_agg; ++id)
  {
    auto l = make_local<dim>(pb, amge, id);
    int const n = l->glob.size(), f = l->free.size();
    if (!admissible(kind, neig, f))
      continue;
    DVec w;
    Dense v;
    // "that solver's operator": the assembled solvers work on A plus the mean
    // of its diagonal on unconstrained dofs, shifted back
    jacobi_eig(l->a_free, w, v);
    double const scale = std::max(1e-300, max_abs(l->a_free)) * 4;
    // AMGe_host never asks Lanczos for residuals below 1e-4: with tiny
    // matrices any pair will do
    double const tol = kind == "lanczos"   ? (scale < 1e-1 ? 1. : 2e-3)
                       : kind == "anasazi" ? 1e-6
                                           : 1e-8;
    // a Krylov space of one vector sees the eigenspaces that the vector has a
    // component in, and each of them once
    std::vector<double> distinct;
    {
      dealii::Vector<double> start(n);
      Base const &evaluator = eval;
      evaluator.set_initial_guess(l->constraints, start);
      double const norm_start = start.l2_norm();
      for (int i = 0; i < f;)
      {
        double sum = 0.;
        int j = i;
        for (; j < f && w[j] <= w[i] + 1e-7 * scale; ++j)
        {
          double s = 0.;
          for (int k = 0; k < f; ++k)
            s += v(k, j) * start[l->free[k]];
          sum += s * s;
        }
        if (kind != "lanczos" || std::sqrt(sum) > 1e-2 * norm_start)
          distinct.push_back(w[i]);
        i = j;
      }
    }
    std::vector<std::complex<double>> lambda;
    std::vector<dealii::Vector<double>> vecs;
    std::vector<double> diag;
    std::vector<dealii::types::global_dof_index> map;
    Base const &base = eval;
    try
    {
      std::tie(lambda, vecs, diag, map) = amge.compute_local_eigenvectors(
          neig, tolerance, l->tria, l->map, base, scratch);
    }
    catch (std::exception const &e)
    {
      // LOBPCG may fail to converge; a Krylov space has no more directions
      // than there are distinct eigenvalues
      run.check(kind == "anasazi" ||
                    (kind == "lanczos" && int(distinct.size()) < pairs_computed),
                "refused",
                solver + " failed on agglomerate " + std::to_string(id) + ": " +
                    e.what());
      continue;
    }
    run.step();
    std::string const who = solver + ", agglomerate " + std::to_string(id) +
                            " (" + std::to_string(n) + " dofs): ";
    if (!run.check(lambda.size() == std::size_t(neig) &&
                       vecs.size() == std::size_t(neig),
                   "count", who + "wrong number of eigenpairs"))
      return;
    bool sizes = diag.size() == std::size_t(n) && map.size() == std::size_t(n);
    for (auto const &v : vecs)
      sizes = sizes && v.size() == std::size_t(n);
    if (!run.check(sizes, "sizes", who + "results of wrong size"))
      return;
    for (int i = 0; i < n; ++i)
    {
      run.check(map[i] == l->glob[i], "dof map", who + "wrong dof map");
      if (!(mf && l->fixed[i]))
        run.check(std::abs(diag[i] - l->a(i, i)) <
                      1e-10 * std::abs(l->a(i, i)) + 1e-300,
                  "diagonal",
                  who + "diagonal entry " + std::to_string(i) + " is " +
                      num(diag[i]) + " instead of " + num(l->a(i, i)));
    }
    if (kind == "anasazi" && mf && neig > 1)
    {
      double c = 0.;
      for (auto const &x : vecs)
        for (int k = 0; k < n; ++k)
          if (l->fixed[k])
            c = std::max(c, std::abs(x[k]));
      if (!run.check(c < 1e-10, "constrained-anasazi-mf",
                     who + "eigenvectors have entries of size " + num(c) +
                         " at constrained dofs"))
        return;
    }
    for (int i = 0; i < neig; ++i)
    {
      double const lam = lambda[i].real();
      run.check(std::abs(lambda[i].imag()) == 0., "real", who + "complex eigenvalue");
      run.check(i == 0 || lam >= lambda[i - 1].real() - tol * scale, "order",
                who + "eigenvalues not ascending");
      // a Krylov space of one vector sees every distinct eigenvalue once;
      // LOBPCG steps over an eigenvalue now and then when they are crowded
      bool const crowded = kind == "anasazi" && i > 0 &&
                           (pb.fe.degree > 1 || scale > 100. || scale < 0.1);
      double const upper =
          (kind == "lanczos" || kind == "arpack")
              ? (i < int(distinct.size()) ? distinct[i] : w.back())
              : w[std::min(f - 1, i + int(crowded))];
      run.check(lam <= upper + tol * scale && lam >= w[i] - tol * scale, "lowest",
                who + "eigenvalue " + std::to_string(i) + " is " + num(lam) +
                    " instead of " + num(w[i]));
      DVec x(n);
      for (int k = 0; k < n; ++k)
        x[k] = vecs[i][k];
      DVec y = mul(l->a, x);
      double res = 0.;
      for (int k = 0; k < n; ++k)
      {
        if (l->fixed[k])
          run.check(std::abs(x[k]) < 1e-10, "constrained",
                    who + "eigenvector " + std::to_string(i) +
                        " has entry " + num(x[k]) + " at a constrained dof");
        else
          res = std::max(res, std::abs(y[k] - lam * x[k]));
      }
      run.check(res < 3 * tol * scale, "residual",
                who + "residual of pair " + std::to_string(i) + " is " +
                    num(res / scale) + " relative");
      for (int j = 0; j <= i; ++j)
      {
        double s = 0.;
        for (int k = 0; k < n; ++k)
          s += vecs[i][k] * vecs[j][k];
        run.check(std::abs(s - (i == j ? 1. : 0.)) < (kind == "lanczos" ? 1e-4 : 1e-7),
                  "orthonormal",
                  who + "vectors " + std::to_string(j) + " and " +
                      std::to_string(i) + " have inner product " + num(s));
      }
    }
    if (solver == "anasazi")
      scratch.lobpcg_init_guess = vecs;
    Hash h;
    h << solver << n << f << neig << l->a.a;
    run.observe(h);
    if (run.failed())
      return;
  }
}

template <int dim>
void c11(Run &run)
{
  bool const mf = run.choose(2, "matrix-free");
  Mesh m;
  Part part;
  bool const big = pick_problem<dim>(run, 1, true, m, part);
  std::string const bc = run.pick<std::string>("boundary", {"left", "none", "dirichlet"});
  int const degree = 1 + run.choose(dim == 2 ? 2 : 1, "degree-1");
  run.commit();
  int const coeff = run.choose(7, "coefficient"); // 5: tiny, 6: huge
  std::string const solver = run.pick<std::string>(
      "solver", mf ? std::vector<std::string>{"default", "lanczos", "anasazi"}
                   : std::vector<std::string>{"default", "arpack", "lapack",
                                              "lanczos", "anasazi"});
  std::vector<int> counts{1, 2, 3};
  if (run.thorough)
    counts = {1, 2, 3, 4, 5, 7};
  if (big)
    counts = {4, 10};
  int const neig = run.pick("eigenvectors", counts);
  if (big && (solver == "anasazi" || bc == "dirichlet" ||
              (!run.thorough && (degree > 1 || (coeff != 1 && coeff != 2)))))
    run.reject();
  // (Lanczos and LOBPCG have absolute tolerances)
  if (coeff > 4 && solver != "lapack" && solver != "arpack")
    run.reject();
  if (!run.thorough)
  {
    if (solver == "anasazi" && (coeff % 2 || (degree > 1 && coeff)))
      run.reject();
    if (solver == "default" && (coeff || neig > 2))
      run.reject();
  }
  int const options = big ? 0 : pick_options(run, solver, neig, coeff);
  if (!run.thorough && options > 0 && degree > 1)
    run.reject();
  Problem<dim> pb(MPI_COMM_WORLD, m, bc, degree);
  pb.assemble(coeff == 5 ? 7 : coeff);
  if (mf)
  {
    MFEvaluator<dim> e(pb);
    c11_solve<dim>(run, pb, part, e, mf, solver, neig, options);
  }
  else
  {
    MatrixEvaluator<dim> e(pb);
    c11_solve<dim>(run, pb, part, e, mf, solver, neig, options);
  }
}

// ----------------------------------------------------------------------- C09

struct Cycle
{
  Dense a, r, minv, c;
  int steps = 1, levels = 2;
  bool precond = true;
  DVec operator()(DVec const &b, DVec const &x0) const
  {
    int const n = a.r;
    DVec x = precond ? DVec(n, 0.) : x0;
    auto smooth = [&]()
    {
      DVec q = mul(a, x);
      for (int i = 0; i < n; ++i)
        q[i] = b[i] - q[i];
      DVec const d = mul(minv, q);
      for (int i = 0; i < n; ++i)
        x[i] += d[i];
    };
    if (levels == 1)
    {
      DVec q = mul(a, x);
      for (int i = 0; i < n; ++i)
        q[i] = b[i] - q[i];
      DVec const d = mul(c, q);
      for (int i = 0; i < n; ++i)
        x[i] += d[i];
      return x;
    }
    for (int s = 0; s < steps; ++s)
      smooth();
    DVec q = mul(a, x);
    for (int i = 0; i < n; ++i)
      q[i] -= b[i];
    DVec const d = mul(transpose(r), mul(c, mul(r, q)));
    for (int i = 0; i < n; ++i)
      x[i] -= d[i];
    for (int s = 0; s < steps; ++s)
      smooth();
    return x;
  }
};

// The coarse space may contain the same function twice (e.g. two agglomerates
// that share their only unconstrained dof); there is no coarse problem to
// solve then.
bool nearly_singular(Dense const &a, double scale, double ratio = 1e-9)
{
  DVec w;
  Dense v;
  jacobi_eig(a, w, v);
  double hi = scale, lo = HUGE_VAL;
  for (double x : w)
  {
    hi = std::max(hi, std::abs(x));
    lo = std::min(lo, std::abs(x));
  }
  return !(lo > ratio * hi);
}

Dense inverse(Dense const &a)
{
  LU lu(a);
  Dense d(a.r, a.c);
  for (int j = 0; j < a.r; ++j)
  {
    DVec const x = lu.solve(unit(a.r, j));
    for (int i = 0; i < a.r; ++i)
      d(i, j) = x[i];
  }
  return d;
}

// One ML application to a zero start, as a matrix
Dense ml_matrix(TSM const &a, Teuchos::ParameterList &pl)
{
  dealii::TrilinosWrappers::PreconditionAMG amg;
  seed_package();
  amg.initialize(a, pl);
  int const n = a.m();
  Dense d(n, n);
  auto is = a.locally_owned_range_indices();
  for (int j = 0; j < n; ++j)
  {
    DistVec b = new_vector(is, unit(n, j)), x = new_vector(is, DVec(n, 0.));
    amg.vmult(x, b);
    DVec const c = gatherv(x);
    for (int i = 0; i < n; ++i)
      d(i, j) = c[i];
  }
  return d;
}

// Chebyshev with the package's defaults unless given
template <int dim>
Dense chebyshev_matrix(Problem<dim> &pb, std::shared_ptr<MFEvaluator<dim>> eval,
                       ptree const &options)
{
  using Cheb = dealii::PreconditionChebyshev<DenseLikeOperator, DistVec,
                                             dealii::DiagonalMatrix<DistVec>>;
  typename Cheb::AdditionalData data;
  if (options.count("degree"))
    data.degree = options.get<int>("degree");
  if (options.count("smoothing_range"))
    data.smoothing_range = options.get<double>("smoothing_range");
  if (options.count("max_eigenvalue"))
  {
    data.max_eigenvalue = options.get<double>("max_eigenvalue");
    data.eig_cg_n_iterations = 0; // the value is not used otherwise
  }
  data.preconditioner = eval->matrix_free_get_diagonal_inverse();
  DenseLikeOperator op;
  op.a = &pb.matrix;
  Cheb cheb;
  cheb.initialize(op, data);
  int const n = pb.matrix.m();
  Dense d(n, n);
  for (int j = 0; j < n; ++j)
  {
    DistVec b = new_vector(pb.owned, unit(n, j)),
            x = new_vector(pb.owned, DVec(n, 0.));
    cheb.vmult(x, b);
    DVec const c = gatherv(x);
    for (int i = 0; i < n; ++i)
      d(i, j) = c[i];
  }
  return d;
}

Dense stored_pattern(TSM const &m)
{
  Dense d(m.m(), m.n());
  auto rng = m.local_range();
  for (auto r = rng.first; r < rng.second; ++r)
    for (auto it = m.begin(r); it != m.end(r); ++it)
      d(it->row(), it->column()) = 1.;
  MPI_Allreduce(MPI_IN_PLACE, d.a.data(), d.a.size(), MPI_DOUBLE, MPI_SUM,
                MPI_COMM_WORLD);
  return d;
}

template <int dim>
void c09(Run &run)
{
  bool const mf = run.choose(2, "matrix-free");
  Mesh m;
  Part part;
  bool const big = pick_problem<dim>(run, 0, run.thorough, m, part);
  std::string const bc = run.pick<std::string>("boundary", {"left", "dirichlet"});
  bool const fast = run.choose(2, "fast_ap");
  run.commit();
  int const coeff = run.thorough ? run.choose(3, "coefficient") : 2;
  int const neig = big ? 3 : 1 + run.choose(2, "eigenvectors-1");
  std::string const solver = mf ? "lanczos" : "lapack";
  std::vector<std::string> types{"", "symmetric gauss-seidel", "gauss-seidel",
                                 "jacobi", "ilu"};
  if (mf)
    types = {"", "chebyshev"};
  std::string const type = run.pick("smoother", types);
  // (-1: not given)
  int const steps = run.pick(
      "smoothing steps", big ? std::vector<int>{1, 7} : std::vector<int>{0, 1, 2, -1});
  std::string const coarse = run.pick<std::string>("coarse", {"", "direct", "ml"});
  int const levels = run.choose(3, "levels"); // 0: not given
  int const mode = run.choose(3, "mode");     // 0: not given
  if (big && (type == "" || coarse == "" || levels != 2 || mode == 0 ||
              (!run.thorough && bc == "dirichlet")))
    run.reject();
  if (!run.thorough && !big)
  {
    // options left out: all, one of them, or none
    int const out = (type == "") + (steps < 0) + (coarse == "") + (levels == 0) +
                    (mode == 0);
    if (out == 2 || out == 3 || out == 4)
      if (levels != 1)
        run.reject();
    if (out == 1 && (coarse == "ml" || !(steps == 1 || steps < 0)))
      run.reject();
  }
  bool extras = !big;
  if (!run.thorough && !big)
  {
    // deviations from the usual configuration one at a time
    int const unusual_but_ml = (neig > 1) + fast + (type == "gauss-seidel") +
                               (type == "jacobi") + (type == "ilu");
    int const unusual = (neig > 1) + fast + (coarse == "ml") +
                        (type == "gauss-seidel" || type == "jacobi" || type == "ilu");
    if (unusual > 1)
      run.reject();
    extras = !unusual_but_ml && mode != 0 && coarse != "" &&
             (levels == 1 || (type != "" && steps == 1)) &&
             (run.size == 1 ||
              (m.kind == "brick" && bc == "left" && part.kind == "block"));
  }
  // the smoother's own options
  int const cheb = mf && extras && levels != 1 && coarse != "ml"
                       ? run.choose(4, "smoother options")
                       : 0;
  // the user's list for ML (0: none)
  int const list = coarse == "ml" && extras ? run.choose(4, "coarse.params") : 1;
  // somebody measures the time
  bool const timed = extras && mode == 2 && list == 1 && cheb == 0 &&
                     run.choose(2, "timer");
  ptree smoother;
  if (cheb == 1)
    smoother.put("degree", 3);
  else if (cheb == 2)
    smoother.put("smoothing_range", 7.5);
  else if (cheb == 3)
  {
    smoother.put("degree", 2);
    smoother.put("smoothing_range", 3.);
    smoother.put("max_eigenvalue", 2.25);
  }
  // ML's aggregates and the approximate pairs of Lanczos do not mix
  if (mf && fast && (coarse == "ml" || neig > 1))
    run.reject();
  if (levels == 1 && (mf || steps >= 0 || type != "" || fast || neig != 1))
    run.reject(); // nothing of these is used
  Problem<dim> pb(MPI_COMM_WORLD, m, bc);
  pb.assemble(coeff);
  if (fast && !pb.patches_know_constraints())
    run.reject();
  if (!admissible(solver, neig, min_free_dofs<dim>(pb, part)))
    run.reject();
  auto params = make_params(part, neig, solver, fast);
  if (!type.empty())
    params->put("smoother.type", type);
  if (steps >= 0)
    params->put("smoother.n_smoothing_steps", steps);
  if (!coarse.empty())
    params->put("coarse.type", coarse);
  for (auto const &kv : smoother)
    params->put("smoother." + kv.first, kv.second.data());
  Teuchos::ParameterList pl;
  ML_Epetra::SetDefaults("SA", pl);
  if (coarse == "ml")
  {
    auto list_put = [&](std::string const &name, auto value)
    {
      params->put("coarse.params." + name, value);
      pl.set(name, value);
    };
    if (list == 1)
      list_put("coarse: max size", 4);
    else if (list == 2)
    {
      list_put("coarse: max size", 3);
      list_put("smoother: type", std::string("Jacobi"));
      list_put("smoother: sweeps", 3);
      list_put("smoother: damping factor", 0.55);
    }
    else if (list == 3)
    {
      list_put("max levels", 1);
      list_put("coarse: type", std::string("Jacobi"));
      list_put("coarse: sweeps", 2);
    }
  }
  if (levels > 0)
    params->put("max levels", levels);
  if (mode > 0)
    params->put("is preconditioner", mode == 1);
  if (levels != 1 && !all_willing<dim>(run, pb, part, solver, neig, mf))
    run.reject();
  auto eval = make_evaluator<dim>(pb, mf);
  // reference
  Cycle model;
  model.a = gather(pb.matrix);
  model.levels = levels == 1 ? 1 : 2;
  model.steps = steps < 0 ? 1 : steps;
  model.precond = mode != 2;
  int const n = model.a.r;
  Layout const rows = layout_of(pb.owned);
  double tol = 1e-9;
  if (model.levels == 1)
  {
    if (nearly_singular(model.a, 0.))
      run.reject();
    if (coarse == "ml")
    {
      tol = 1e-5;
      model.c = ml_matrix(pb.matrix, pl);
    }
    else
      model.c = inverse(model.a);
  }
  else
  {
    auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
    auto a = h->get_global_operator(eval);
    auto r = h->build_restrictor(MPI_COMM_WORLD, eval,
                                 make_params(part, neig, solver, false));
    model.r = dense_restriction(r);
    Dense const ac = mul(model.r, mul(model.a, transpose(model.r)));
    if (nearly_singular(ac, max_abs(model.a), mf && fast ? 1e-2 : 1e-9))
      run.reject();
    if (fast && mf)
      tol = 2e-2; // the pairs of Lanczos are approximate
    if (coarse == "ml")
    {
      auto acop = r->multiply(a->multiply_transpose(r));
      auto t = std::dynamic_pointer_cast<TOp>(acop);
      if (!t)
        throw std::runtime_error("coarse operator is no Trilinos matrix");
      model.c = ml_matrix(*t->get_matrix(), pl);
      tol = std::max(tol, 1e-5);
    }
    else
      model.c = inverse(ac);
    if (mf)
      model.minv = chebyshev_matrix<dim>(
          pb, std::static_pointer_cast<MFEvaluator<dim>>(eval), smoother);
    else
    {
      Dense const sp = stored_pattern(pb.matrix);
      model.minv = smoother_inverse(
          type.empty() ? "symmetric gauss-seidel" : type, model.a, rows, &sp);
    }
  }
  ptree const before = *params;
  seed_package();
  std::ostringstream times;
  std::shared_ptr<dealii::TimerOutput> timer;
  if (timed)
    timer = std::make_shared<dealii::TimerOutput>(
        times, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
  Hier hier(MPI_COMM_WORLD, eval, params, timer);
  run.check(*params == before, "params", "building the hierarchy changed the caller's parameters");
  std::vector<DVec> bs{general(n), unit(n, 0), unit(n, n / 2), unit(n, n - 1),
                       DVec(n, 0.)};
  std::vector<DVec> xs{DVec(n, 0.), general(n, 2), unit(n, n / 2)};
  if (run.thorough && !big)
    for (int i = 1; i + 1 < n; ++i)
      bs.push_back(unit(n, i));
  else if (run.size > 1 || big)
  {
    bs = {general(n), unit(n, n / 2)};
    xs = {general(n, 2)};
  }
  int turn = 0;
  for (auto const &b : bs)
    for (auto const &x : xs)
    {
      DistVec bv = new_vector(pb.owned, b), xv = new_vector(pb.owned, x);
      if (++turn % 2)
        hier.vmult(xv, bv);
      else
        hier.apply(bv, xv);
      run.step();
      DVec const y = model(b, x);
      double const s = std::max(1e-3, std::max(max_abs(y), max_abs(b)));
      double const e = max_diff(gatherv(xv), y);
      if (!run.check(e < tol * s, "cycle",
                     "application differs from the configured cycle by " +
                         num(e / s) + " relative"))
        return;
      run.check(max_diff(gatherv(bv), b) == 0., "b", "right-hand side changed");
    }
  if (!model.precond)
  {
    DVec const x = general(n, 1), b = mul(model.a, x);
    DistVec bv = new_vector(pb.owned, b), xv = new_vector(pb.owned, x);
    hier.vmult(xv, bv);
    double const e = max_diff(gatherv(xv), x);
    run.check(e < 1e-8 * std::max(max_abs(x), max_abs(b)), "fixed point",
              "exact solution changed by " + num(e));
  }
  Hash h;
  h << mf << type << model.steps << model.levels << model.precond << model.a.a
    << model.c.a;
  run.observe(h);
}

// ----------------------------------------------------------------------- C10

template <int dim>
struct C10Config
{
  bool mf;
  Part part;
  std::string smoother;
  int steps;
  std::string coarse;
  bool precond;
  int levels;
  bool fast;
};

template <int dim>
void c10_sequences(Run &run)
{
  bool const mf = run.choose(2, "matrix-free");
  Mesh const m = run.pick("mesh", dim == 2 ? std::vector<Mesh>{brick(3, 2, 1, 0), cube(2)}
                                           : std::vector<Mesh>{brick(2, 2, 1, 0)});
  int const variant = run.choose(2, "configurations");
  run.commit();
  using C = C10Config<dim>;
  std::vector<C> const configs =
      variant == 0
          ? std::vector<C>{{mf, {"block", 2, 2, 2}, "", 1, "direct", true, 2, false},
                           {mf, {"block", 1, 2, 1}, "", 2, "direct", false, 2, true},
                           {mf, {"metis", 2, 0, 0}, "", 1, "ml", true, 2, false}}
          : std::vector<C>{{mf, {"block", 2, 2, 2}, mf ? "" : "ilu", 1, "direct", false, 2, false},
                           {false, {"block", 2, 2, 2}, "", 1, "ml", true, 1, false},
                           {false, {"block", 2, 2, 2}, "", 1, "ml", false, 1, false}};
  Problem<dim> pb(MPI_COMM_WORLD, m, "left");
  pb.assemble(2);
  int const n = pb.matrix.m();
  // variant 0: one parameter object per configuration, shared by all builds of
  // it; variant 1: a single object, which is changed after every build
  std::vector<std::shared_ptr<ptree>> params;
  std::vector<ptree> original;
  auto fill = [&](C const &c, ptree &p)
  {
    p = *make_params(c.part, 1, c.mf ? "lanczos" : "lapack", c.fast);
    if (!c.smoother.empty())
      p.put("smoother.type", c.smoother);
    p.put("smoother.n_smoothing_steps", c.steps);
    p.put("coarse.type", c.coarse);
    p.put("is preconditioner", c.precond);
    p.put("max levels", c.levels);
  };
  for (auto const &c : configs)
  {
    params.push_back(variant == 1 && !params.empty()
                         ? params.front()
                         : std::make_shared<ptree>());
    ptree p;
    fill(c, p);
    *params.back() = p;
    original.push_back(p);
  }
  std::vector<std::shared_ptr<mfmg::MeshEvaluator>> evals{
      make_evaluator<dim>(pb, false), make_evaluator<dim>(pb, true)};
  std::vector<DVec> const vs{general(n), unit(n, n / 2)};
  // the same input on a fresh hierarchy on a mesh nobody used before
  static std::map<std::string, DVec> memo;
  auto reference = [&](int c, int v) -> DVec const &
  {
    std::ostringstream key;
    key << dim << mf << m << variant << " " << c << " " << v;
    auto it = memo.find(key.str());
    if (it != memo.end())
      return it->second;
    Problem<dim> fresh(MPI_COMM_WORLD, m, "left");
    fresh.assemble(2);
    auto p = std::make_shared<ptree>();
    fill(configs[c], *p);
    auto e = make_evaluator<dim>(fresh, configs[c].mf);
    seed_package();
    Hier h(MPI_COMM_WORLD, e, p);
    DistVec b = new_vector(fresh.owned, vs[v]),
            x = new_vector(fresh.owned, general(n, 3));
    h.vmult(x, b);
    return memo[key.str()] = gatherv(x);
  };
  int const slots = 2;
  std::vector<std::unique_ptr<Hier>> live(slots);
  std::vector<int> which(slots, -1);
  int const nc = configs.size(), nv = vs.size();
  int const depth = run.thorough ? 5 : 4;
  Hash h;
  h << dim << mf << variant;
  for (int d = 0; d < depth; ++d)
  {
    // operations: build config c in slot s; apply v to slot s; destroy slot s
    struct O
    {
      int kind, slot, arg;
    };
    std::vector<O> ops;
    for (int s = 0; s < slots; ++s)
    {
      // slots are interchangeable: fill the first one first
      if (s == 1 && !live[0])
        continue;
      if (!live[s])
        for (int c = 0; c < nc; ++c)
          ops.push_back({0, s, c});
      else
      {
        for (int v = 0; v < nv; ++v)
          ops.push_back({1, s, v});
        if (d + 1 < depth)
          ops.push_back({2, s, 0});
      }
    }
    O const o = ops[run.choose(ops.size(), "op")];
    static char const *const names[] = {"build", "apply", "destroy"};
    run.note(std::string(names[o.kind]) + "(" + std::to_string(o.slot) + "," +
             std::to_string(o.arg) + ")");
    run.step();
    if (o.kind == 0)
    {
      seed_package();
      if (variant == 1)
        *params[o.arg] = original[o.arg];
      live[o.slot] = std::make_unique<Hier>(
          MPI_COMM_WORLD, evals[configs[o.arg].mf], params[o.arg]);
      which[o.slot] = o.arg;
      run.check(*params[o.arg] == original[o.arg], "params",
                "building a hierarchy changed the caller's parameters");
      if (variant == 1)
      {
        // the caller goes on to something else
        ptree &p = *params[o.arg];
        p.clear();
        p.put("is preconditioner", !configs[o.arg].precond);
        p.put("max levels", 3 - configs[o.arg].levels);
        p.put("smoother.n_smoothing_steps", 4);
        p.put("smoother.type", "none of them");
      }
    }
    else if (o.kind == 2)
      live[o.slot].reset();
    // after every operation each live hierarchy still is what it was
    for (int s = 0; s < slots; ++s)
      if (live[s] && (o.kind != 1 || s == o.slot))
        for (int v = 0; v < nv; ++v)
        {
          if (o.kind == 1 && v != o.arg)
            continue;
          DistVec b = new_vector(pb.owned, vs[v]),
                  x = new_vector(pb.owned, general(n, 3));
          if ((d + s) % 2)
            live[s]->vmult(x, b);
          else
            live[s]->apply(b, x);
          run.step();
          DVec const &ref = reference(which[s], v);
          double const e = max_diff(gatherv(x), ref);
          double const tol = configs[which[s]].coarse == "ml" ? 1e-5 : 1e-10;
          if (!run.check(e < tol * std::max(1., max_abs(ref)), "result",
                         "hierarchy of configuration " +
                             std::to_string(which[s]) + " in slot " +
                             std::to_string(s) + " now differs by " + num(e)))
            return;
          run.check(max_diff(gatherv(b), vs[v]) == 0., "b",
                    "right-hand side changed");
        }
    h << o.kind << o.slot << o.arg;
    run.observe(h);
  }
}

template <int dim>
void c10_linear(Run &run)
{
  bool const mf = run.choose(2, "matrix-free");
  Mesh const m = run.pick("mesh", meshes<dim>(run, 0));
  Part const part = run.pick("agglomeration", parts<dim>(run.thorough));
  std::string const bc = run.pick<std::string>("boundary", {"left", "dirichlet"});
  int const coeff = run.choose(3, "coefficient");
  run.commit();
  std::vector<std::string> types{"symmetric gauss-seidel", "gauss-seidel", "ilu"};
  if (mf)
    types = {"chebyshev"};
  std::string const type = run.pick("smoother", types);
  int const steps = run.choose(3, "smoothing steps");
  std::string const coarse = run.pick<std::string>("coarse", {"direct", "ml"});
  Problem<dim> pb(MPI_COMM_WORLD, m, bc);
  pb.assemble(coeff);
  if (min_free_dofs<dim>(pb, part) < 1)
    run.reject();
  auto params = make_params(part, 1, mf ? "lanczos" : "lapack", false);
  params->put("smoother.type", type);
  params->put("smoother.n_smoothing_steps", steps);
  params->put("coarse.type", coarse);
  if (!all_willing<dim>(run, pb, part, mf ? "lanczos" : "lapack", 1, mf))
    run.reject();
  auto eval = make_evaluator<dim>(pb, mf);
  {
    auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
    h->get_global_operator(eval);
    Dense const r =
        dense_restriction(h->build_restrictor(MPI_COMM_WORLD, eval, params));
    Dense const a = gather(pb.matrix);
    if (nearly_singular(mul(r, mul(a, transpose(r))), max_abs(a)))
      run.reject();
  }
  seed_package();
  Hier hier(MPI_COMM_WORLD, eval, params);
  int const n = pb.matrix.m();
  Dense p(n, n);
  auto apply = [&](DVec const &b)
  {
    DistVec bv = new_vector(pb.owned, b), xv = new_vector(pb.owned, general(n, 5));
    hier.vmult(xv, bv);
    run.step();
    return gatherv(xv);
  };
  for (int j = 0; j < n; ++j)
  {
    DVec const c = apply(unit(n, j));
    for (int i = 0; i < n; ++i)
      p(i, j) = c[i];
  }
  double const s = std::max(1e-300, max_abs(p));
  // linear: combinations, large and small scales
  for (double f : {1., -3., 1e10, 1e-8, 1e-20, -1e60, 1e-60, 1e-130})
  {
    DVec g = general(n, 1);
    for (double &x : g)
      x *= f;
    DVec const y = apply(g), z = mul(p, g);
    run.check(max_diff(y, z) < 1e-9 * n * s * std::abs(f), "linear",
              "not linear: off by " + num(max_diff(y, z)));
  }
  bool const symmetric = type != "gauss-seidel" && (type != "ilu" || true);
  if (symmetric && coarse == "direct")
  {
    double const e = max_diff(p, transpose(p));
    run.check(e < 1e-9 * s, "symmetric", "not symmetric: off by " + num(e / s));
    if (steps > 0)
    {
      Dense q = p;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          q(i, j) = 0.5 * (p(i, j) + p(j, i));
      DVec w;
      Dense v;
      jacobi_eig(q, w, v);
      double const lo = *std::min_element(w.begin(), w.end());
      // one symmetric smoothing step reaches every direction if it converges
      run.check(lo > -1e-10 * s, "positive", "has the eigenvalue " + num(lo));
    }
  }
  Hash h;
  h << mf << type << steps << coarse << p.a;
  run.observe(h);
}

// ----------------------------------------------------------------------- C17

template <int dim>
void c17(Run &run)
{
  Mesh m;
  Part part;
  bool const big = pick_problem<dim>(run, 1, true, m, part);
  std::string const bc = run.pick<std::string>("boundary", {"left", "none", "dirichlet"});
  int const coeff = run.choose(3, "coefficient");
  run.commit();
  std::string const solver = run.pick<std::string>("solver", {"lanczos", "anasazi"});
  int const neig = big ? 2 : 1 + run.choose(run.thorough ? 3 : 2, "eigenvectors-1");
  bool const fast = run.choose(2, "fast_ap");
  if (big && coeff == 0)
    run.reject();
  solver_options = big ? 0 : pick_options(run, solver, neig, coeff);
  int const degree = 1 + (dim == 2 && !big && solver_options == 0 && neig == 1 &&
                                  coeff == 2 && solver == "lanczos"
                              ? run.choose(2, "degree-1")
                              : 0);
  Problem<dim> pb(MPI_COMM_WORLD, m, bc, degree);
  pb.assemble(coeff);
  if (!admissible(solver, neig, min_free_dofs<dim>(pb, part)))
    run.reject();
  if (fast && !pb.patches_know_constraints())
    run.reject();
  // unique spaces need a gap above the wanted eigenvalues in every agglomerate
  int gap = 1;
  {
    mfmg::AMGe<dim, DistVec> amge(MPI_COMM_WORLD, pb.dof_handler);
    unsigned int const na = amge.build_agglomerates(to_ptree(part));
    for (unsigned int id = 1; id <= na; ++id)
    {
      auto l = make_local<dim>(pb, amge, id);
      if (run.size > 1 && !willing<dim>(pb, *l, solver, neig))
        gap = -1;
      DVec w;
      Dense v;
      jacobi_eig(l->a_free, w, v);
      std::sort(w.begin(), w.end());
      for (int i = 0; i + 1 < int(w.size()) && i < neig; ++i)
        if (w[i + 1] - w[i] < 0.05 * w.back())
          gap = std::min(gap, 0);
    }
    MPI_Allreduce(MPI_IN_PLACE, &gap, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    if (gap < 0)
      run.reject();
  }
  Dense r[2], ac[2], pre[2];
  bool solvable = true;
  std::vector<unsigned int> ids[2];
  int const n = pb.matrix.m();
  auto apply = [&](Hier const &h, int j)
  {
    DistVec b = new_vector(pb.owned, unit(n, j)), x = new_vector(pb.owned, general(n));
    h.vmult(x, b);
    return gatherv(x);
  };
  for (int mf = 0; mf < 2; ++mf)
  {
    auto eval = make_evaluator<dim>(pb, mf);
    auto params = make_params(part, neig, solver, fast);
    // the smoothers differ between the modes; without them the cycle is the
    // coarse correction
    params->put("smoother.n_smoothing_steps", 0);
    params->put("coarse.type", "direct");
    auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
    auto a = h->get_global_operator(eval);
    try
    {
      auto rop = h->build_restrictor(MPI_COMM_WORLD, eval, params);
      for (auto cell : pb.dof_handler.active_cell_iterators())
        ids[mf].push_back(cell->user_index());
      r[mf] = dense_restriction(rop);
      auto ap = fast ? h->fast_multiply_transpose() : a->multiply_transpose(rop);
      ac[mf] = dense_restriction(rop->multiply(ap));
      run.check(max_diff(dense_of(*a), gather(pb.matrix)) <
                    1e-11 * std::max(1., max_abs(gather(pb.matrix))),
                "operator", "global operator is not the problem's matrix");
      if (mf == 0)
        solvable = !nearly_singular(ac[0], max_abs(gather(pb.matrix)), 1e-4);
      if (!solvable)
        continue;
      Hier hier(MPI_COMM_WORLD, eval, params);
      pre[mf] = Dense(n, n);
      for (int j = 0; j < n; ++j)
      {
        DVec const c = apply(hier, j);
        for (int i = 0; i < n; ++i)
          pre[mf](i, j) = c[i];
      }
      run.step(n + 3);
    }
    catch (std::runtime_error const &e)
    {
      if (run.size > 1)
        throw;
      return; // the eigensolver refused: nothing to compare
    }
  }
  run.check(ids[0] == ids[1], "agglomerates", "agglomerates differ");
  if (!run.check(r[0].r == r[1].r && r[0].c == r[1].c, "size",
                 "restrictions of different size"))
    return;
  double const amax = std::max(1., max_abs(gather(pb.matrix)));
  if (gap)
  {
    // same row spaces per row up to sign (simple eigenvalues)
    double worst = 0.;
    for (int i = 0; i < r[0].r; ++i)
    {
      double p = 0., q = 0.;
      for (int j = 0; j < n; ++j)
      {
        p = std::max(p, std::abs(r[0](i, j) - r[1](i, j)));
        q = std::max(q, std::abs(r[0](i, j) + r[1](i, j)));
      }
      worst = std::max(worst, std::min(p, q));
    }
    double const tol = solver == "lanczos" ? 2e-2 : 1e-5;
    if (solver == "anasazi" && neig > 1)
    {
      // constrained dofs do not belong to the coarse space
      double c = 0.;
      for (auto const &line : pb.constraints.get_lines())
        for (int i = 0; i < r[1].r; ++i)
          c = std::max(c, std::abs(r[1](i, line.index)));
      MPI_Allreduce(MPI_IN_PLACE, &c, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
      if (!run.check(c < 1e-9, "constrained-anasazi-mf",
                     "the matrix-free restriction has entries of size " + num(c) +
                         " at constrained dofs"))
        return;
    }
    run.check(worst < tol, "restriction",
              "restrictions differ by " + num(worst));
    for (int i = 0; i < ac[0].r; ++i)
      run.check(std::abs(ac[0](i, i) - ac[1](i, i)) < 4 * tol * amax,
                "coarse operator", "coarse operators differ by " +
                                       num(ac[0](i, i) - ac[1](i, i)));
    double const s = std::max(1e-300, max_abs(pre[0]));
    // the coarse problem amplifies the error of the pairs by its condition
    if (solvable)
      run.check(max_diff(pre[0], pre[1]) < (solver == "lanczos" ? 0.2 : 1e-3) * s,
                "preconditioner",
                "coarse corrections differ by " +
                    num(max_diff(pre[0], pre[1]) / s) + " relative");
  }
  Hash h;
  h << solver << neig << fast << r[0].r << n << gap << ids[0];
  run.observe(h);
}

// ----------------------------------------------------------------------- C20

// Evaluators that provide nothing beyond the defaults of their base class
struct AnyEvaluator : mfmg::MeshEvaluator
{
  int dim;
  std::string type;
  AnyEvaluator(int d, std::string const &t) : dim(d), type(t) {}
  int get_dim() const override { return dim; }
  std::string get_mesh_evaluator_type() const override { return type; }
};

// Operations and combinations that are not provided
template <int dim>
void c20_missing(Run &run)
{
  int const group = run.choose(4, "group");
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, brick(2, 2, 1, 0), "left");
  pb.assemble(1);
  std::string what;
  std::function<void()> action;
  auto const one = [&](std::vector<std::pair<std::string, std::function<void()>>> v)
  {
    auto const &a = v[run.choose(v.size(), "operation")];
    what = a.first;
    action = a.second;
  };
  auto const params = make_params({"block", 2, 2, 2}, 1, group == 2 ? "lanczos" : "lapack", false);
  std::shared_ptr<Op> op, r;
  DistVec x = new_vector(pb.owned, general(pb.matrix.m())), y(x);
  double value = 0.;
  std::size_t size = 0;
  using MFOp = mfmg::DealIIMatrixFreeOperator<dim, DistVec>;
  if (group == 0)
  {
    // evaluators of unknown kind or dimension
    int const d = run.pick("dimension", std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 23});
    std::string const t = run.pick<std::string>(
        "evaluator", {"DealIIMeshEvaluator", "DealIIMatrixFreeMeshEvaluator",
                      "CudaMeshEvaluator", "MeshEvaluator", "", "DealII",
                      "dealiimeshevaluator", "DealIIMeshEvaluatorX",
                      "DealIIMatrixFree", "MatrixFreeMeshEvaluator",
                      "CudaMatrixFreeMeshEvaluator", "TpetraMeshEvaluator"});
    if ((d == 2 || d == 3) &&
        (t == "DealIIMeshEvaluator" || t == "DealIIMatrixFreeMeshEvaluator"))
      run.reject();
    what = "evaluator " + t + " of dimension " + std::to_string(d);
    auto eval = std::make_shared<AnyEvaluator>(d, t);
    if (run.choose(2, "how"))
      action = [=]() { mfmg::create_hierarchy_helpers<DistVec>(eval); };
    else
      action = [=]() { Hier h(MPI_COMM_WORLD, eval, params); };
  }
  else if (group == 1)
  {
    // what a user's evaluator must override
    auto e = std::make_shared<mfmg::DealIIMeshEvaluator<dim>>(pb.dof_handler, pb.constraints);
    auto f = std::make_shared<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>(
        pb.dof_handler, pb.constraints);
    auto sp = std::make_shared<dealii::SparsityPattern>();
    auto sm = std::make_shared<dealii::SparseMatrix<double>>();
    auto tm = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();
    auto v = std::make_shared<dealii::Vector<double>>(4);
    one({{"evaluate_agglomerate", [=, &pb]() { e->evaluate_agglomerate(pb.dof_handler, pb.constraints, *sp, *sm); }},
         {"evaluate_global", [=, &pb]() { e->evaluate_global(pb.dof_handler, pb.constraints, *tm); }},
         {"get_diagonal", [=]() { e->get_diagonal(); }},
         {"matrix-free evaluate_agglomerate", [=, &pb]() { f->evaluate_agglomerate(pb.dof_handler, pb.constraints, *sp, *sm); }},
         {"matrix-free evaluate_global", [=, &pb]() { f->evaluate_global(pb.dof_handler, pb.constraints, *tm); }},
         {"clone", [=]() { f->clone(); }},
         {"matrix_free_initialize_agglomerate", [=, &pb]() { f->matrix_free_initialize_agglomerate(pb.dof_handler); }},
         {"matrix_free_evaluate_agglomerate", [=]() { f->matrix_free_evaluate_agglomerate(*v, *v); }},
         {"matrix_free_get_agglomerate_diagonal", [=, &pb]() { f->matrix_free_get_agglomerate_diagonal(pb.constraints); }},
         {"matrix_free_evaluate_global", [=, &x, &y]() { f->matrix_free_evaluate_global(x, y); }},
         {"matrix_free_get_diagonal_inverse", [=]() { f->matrix_free_get_diagonal_inverse(); }},
         {"matrix-free get_diagonal", [=]() { f->get_diagonal(); }},
         {"hierarchy", [=]() { Hier h(MPI_COMM_WORLD, e, params); }},
         {"matrix-free hierarchy", [=]() { Hier h(MPI_COMM_WORLD, f, params); }}});
  }
  else if (group == 2)
  {
    auto eval = make_evaluator<dim>(pb, true);
    auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
    op = h->get_global_operator(eval);
    r = h->build_restrictor(MPI_COMM_WORLD, eval, params);
    auto mf = std::dynamic_pointer_cast<MFOp const>(op);
    if (!run.check(mf != nullptr, "kind", "the global operator is not matrix-free"))
      return;
    one({{"n()", [&, mf]() { size = mf->n(); }},
         {"el()", [&, mf]() { value = mf->el(0, 0); }},
         {"el() of the last entry", [&, mf]() { value = mf->el(mf->m() - 1, 0); }},
         {"transposed application", [&]() { op->apply(x, y, mfmg::OperatorMode::TRANS); }},
         {"transpose", [&]() { op->transpose(); }},
         {"multiply", [&]() { op->multiply(r); }},
         {"multiply with itself", [&]() { op->multiply(op); }},
         {"grid_complexity", [&]() { size = op->grid_complexity(); }},
         {"operator_complexity", [&]() { size = op->operator_complexity(); }}});
  }
  else
  {
    // operations of serial matrices and of helpers without a fast product
    auto sp = std::make_shared<dealii::SparsityPattern>(2, 2, 2);
    sp->add(0, 1);
    sp->compress();
    auto sm = std::make_shared<dealii::SparseMatrix<double>>(*sp);
    using SVec = dealii::Vector<double>;
    using SOp = ::mfmg::Operator<SVec>;
    struct Serial : mfmg::DealIIMatrixOperator<SVec>
    {
      using mfmg::DealIIMatrixOperator<SVec>::DealIIMatrixOperator;
      std::shared_ptr<SOp> transpose() const override { return nullptr; }
      std::shared_ptr<SOp> multiply(std::shared_ptr<SOp const>) const override { return nullptr; }
    };
    auto a = std::make_shared<Serial>(sp, sm);
    struct Bare : mfmg::HierarchyHelpers<DistVec>
    {
      std::shared_ptr<Op> get_global_operator(std::shared_ptr<mfmg::MeshEvaluator>) override { return nullptr; }
      std::shared_ptr<Op> build_restrictor(MPI_Comm, std::shared_ptr<mfmg::MeshEvaluator>, std::shared_ptr<ptree const>) override { return nullptr; }
      std::shared_ptr<mfmg::Smoother<DistVec>> build_smoother(std::shared_ptr<Op const>, std::shared_ptr<ptree const>) override { return nullptr; }
      std::shared_ptr<mfmg::Solver<DistVec>> build_coarse_solver(std::shared_ptr<Op const>, std::shared_ptr<ptree const>) override { return nullptr; }
    };
    one({{"multiply_transpose of serial matrices", [=]() { a->multiply_transpose(nullptr); }},
         {"fast_multiply_transpose of helpers without one",
          [=]() { Bare b; b.fast_multiply_transpose(); }}});
  }
  bool thrown = false;
  try
  {
    action();
  }
  catch (std::exception const &)
  {
    thrown = true;
  }
  run.step();
  run.check(thrown, "not provided", what + " is not provided but does not throw");
  Hash hs;
  hs << dim << group << what << int(thrown);
  run.observe(hs);
}

template <int dim>
void c20(Run &run)
{
  if (run.choose(2, "part"))
    return c20_missing<dim>(run);
  bool const mf = run.choose(2, "matrix-free");
  int const option = run.choose(9, "option");
  Mesh const m = run.pick("mesh", std::vector<Mesh>{brick(2, 2, 1, 0), brick(3, 2, 1, 0)});
  run.commit();
  Problem<dim> pb(MPI_COMM_WORLD, m, "left");
  pb.assemble(0);
  auto eval = make_evaluator<dim>(pb, mf);
  auto params = make_params({"block", 2, 2, 2}, 1, mf ? "lanczos" : "lapack", false);
  bool valid = true;
  std::string what;
  auto text = [&](std::vector<std::string> const &good,
                  std::vector<std::string> const &bad, bool any_case)
  {
    std::vector<std::pair<std::string, bool>> all;
    for (auto const &g : good)
      for (int k = 0; k < (any_case ? 3 : 1); ++k)
        all.push_back({any_case ? mixed_case(g, k) : g, true});
    for (auto const &b : bad)
      all.push_back({b, false});
    auto bad_one = [&](std::string const &b)
    {
      for (auto const &x : all)
        if (x.first == b)
          return;
      all.push_back({b, false});
    };
    for (auto const &g : good)
    {
      // near misses of valid names: all proper prefixes and suffixes, one
      // letter more, less, twice or another one, and other words around it
      for (std::size_t k = 0; k < g.size(); ++k)
      {
        bad_one(g.substr(0, k));
        bad_one(g.substr(k + 1));
        bad_one(g.substr(0, k) + g.substr(k + 1));
        bad_one(g.substr(0, k) + g[k] + g.substr(k));
        bad_one(g.substr(0, k) + (g[k] == 'z' ? 'a' : char(g[k] + 1)) +
                g.substr(k + 1));
      }
      for (auto const &w : {"x", " ", "_", "-", "1", "2", "s", "block ", "point ",
                            "\t", "mf ", "my", "\""})
      {
        bad_one(g + w);
        bad_one(w + g);
      }
      for (auto const &h : good)
        bad_one(g + " " + h), bad_one(g + h), bad_one(g + "," + h);
    }
    for (auto const &w :
         {"sor", "ssor", "SOR", "ic", "ict", "ilut", "block jacobi", "richardson",
          "identity", "gauss_seidel", "gs", "gauss seidel", "backward gauss-seidel",
          "symmetric-gauss-seidel", "cheby", "polynomial", "relaxation", "schwarz",
          "damped jacobi", "l1-jacobi", "kaczmarz", "scotch", "parmetis", "p4est",
          "graph", "hypergraph", "rcb", "phg", "kway", "random", "blocks", "cells",
          "cell", "single", "umfpack", "klu", "amesos_klu", "superlu",
          "superlu_dist", "mumps", "muelu", "amgx", "iterative", "cg", "gmres",
          "cholesky", "lu", "dense", "exact", "lapack_direct", "multigrid",
          "smoothed aggregation", "SA", "slepc", "lobpcg", "feast", "krylovschur",
          "power", "jacobi-davidson", "dense eigen", "arpack-ng", "syevx", "dsaupd",
          "blopex", "trlan", "cusolver", "cusparse", "device", "host", "unknown",
          "null", "auto", "Default", "false", "1", "-1", "2.5", "no", "off", "?"})
    {
      bool known = false;
      for (auto const &x : all)
        known = known || x.first == w;
      std::string low = w;
      for (auto &ch : low)
        ch = char(::tolower(ch));
      for (auto const &g : good)
        known = known || low == g;
      if (!known)
        bad_one(w);
    }
    auto const &p = all[run.choose(all.size(), "value")];
    what = p.first;
    valid = p.second;
    return p.first;
  };
  std::vector<std::string> const junk{"", "none", "default", "0", "true"};
  switch (option)
  {
  case 0:
  {
    std::string const v = text({"block", "zoltan", "metis"}, junk, true);
    params->put("agglomeration.partitioner", v);
    params->put("agglomeration.n_agglomerates", 2);
    break;
  }
  case 1:
    params->put("smoother.type",
                mf ? text({"chebyshev"},
                          {"", "none", "symmetric gauss-seidel", "gauss-seidel",
                           "jacobi", "ilu", "ml"},
                          true)
                   : text({"symmetric gauss-seidel", "gauss-seidel", "jacobi", "ilu"},
                          {"", "none", "chebyshev", "symmetric", "sgs",
                           "symmetric gauss seidel", "direct"},
                          true));
    break;
  case 2:
    params->put("coarse.type", text({"direct", "ml"}, {"", "none", "lu", "amg", "jacobi"}, true));
    break;
  case 3:
    params->put("eigensolver.type",
                mf ? text({"lanczos", "anasazi"},
                          {"", "none", "arpack", "lapack", "krylov", "ARPACK"}, false)
                   : text({"lanczos", "anasazi", "arpack", "lapack"},
                          {"", "none", "krylov", "slepc"}, false));
    break;
  case 4:
  {
    // parameters that are required
    std::string const k = run.pick<std::string>(
        "missing", {"agglomeration", "eigensolver", "agglomeration.partitioner",
                    "agglomeration.nx", "agglomeration.ny", "agglomeration.nz",
                    "agglomeration.n_agglomerates"});
    bool const graph = k == "agglomeration.n_agglomerates";
    if (k == "agglomeration.nz" && dim == 2)
      run.reject();
    if (graph)
    {
      ptree t;
      t.put("partitioner", run.choose(2, "graph") ? "metis" : "zoltan");
      params->put_child("agglomeration", t);
    }
    else if (k.find('.') == std::string::npos)
      params->erase(k);
    else
      params->get_child("agglomeration").erase(k.substr(k.find('.') + 1));
    what = "no " + k;
    valid = false;
    break;
  }
  case 5:
    // a number of agglomerates or block size that is no positive number
    {
      std::string const k = run.pick<std::string>("key", {"nx", "ny", "nz"});
      if (k == "nz" && dim == 2)
        run.reject();
      std::string const v = run.pick<std::string>("number", {"two", "", "2.5x"});
      params->put("agglomeration." + k, v);
      what = k + " = '" + v + "'";
      valid = false;
      break;
    }
  case 6:
  {
    // numbers of levels
    int const l = run.pick<int>("max levels", {1, 2, 0, -1, 3, 4, 10, 100, -100});
    params->put("max levels", l);
    what = std::to_string(l) + " levels";
    valid = l == 2 || (l == 1 && !mf); // no coarse solver without a matrix
    break;
  }
  case 7:
    // no parameters at all
    params.reset();
    what = "no parameters";
    valid = false;
    break;
  case 8:
    // a pair of valid values in unusual case
    params->put("agglomeration.partitioner", run.pick<std::string>("p", {"BLOCK", "Block", "METIS", "Metis"}));
    params->put("agglomeration.n_agglomerates", 2);
    params->put("coarse.type", run.pick<std::string>("c", {"DIRECT", "Direct", "ML", "Ml"}));
    what = "names in unusual case";
    break;
  }
  bool thrown = false;
  std::unique_ptr<Hier> h;
  std::shared_ptr<ptree> lower;
  std::string message;
  try
  {
    seed_package();
    h = std::make_unique<Hier>(MPI_COMM_WORLD, eval, params);
  }
  catch (std::exception const &e)
  {
    thrown = true;
    message = e.what();
  }
  run.step();
  if (valid)
  {
    run.check(!thrown, "valid", "valid value '" + what + "' refused: " + message);
    if (!thrown)
    {
      // same meaning as the canonical spelling
      auto p2 = std::make_shared<ptree>(*params);
      for (auto const &k : {"agglomeration.partitioner", "smoother.type", "coarse.type"})
      {
        auto v = params->get_optional<std::string>(k);
        if (v)
          p2->put(k, mixed_case(*v, 0));
      }
      seed_package();
      Hier ref(MPI_COMM_WORLD, eval, p2);
      int const n = pb.matrix.m();
      for (int j : {0, n / 2, n - 1})
      {
        DistVec b = new_vector(pb.owned, unit(n, j)), x = new_vector(pb.owned, DVec(n, 0.)),
                y = new_vector(pb.owned, DVec(n, 0.));
        h->vmult(x, b);
        ref.vmult(y, b);
        run.step(2);
        double const e = max_diff(gatherv(x), gatherv(y));
        run.check(e < 1e-5 * std::max(1., max_abs(gatherv(y))), "meaning",
                  "'" + what + "' means something else than its lower-case spelling");
        run.check(max_abs(gatherv(y)) > 0. && max_abs(gatherv(y)) < 1e8, "sane",
                  "the preconditioner built with '" + what + "' gives no result");
      }
    }
  }
  else
    run.check(thrown, "invalid",
              "invalid configuration accepted: option " + std::to_string(option) +
                  " '" + what + "'");
  Hash hs;
  hs << dim << mf << option << what << int(thrown) << int(valid);
  run.observe(hs);
}

template <int dim>
void dispatch(Run &run)
{
  solver_options = 0;
  if (run.prop == "C06")
    c06<dim>(run);
  else if (run.prop == "C08")
    c08<dim>(run);
  else if (run.prop == "C09")
    c09<dim>(run);
  else if (run.prop == "C10")
  {
    if (run.choose(2, "part") == 0)
      c10_sequences<dim>(run);
    else
      c10_linear<dim>(run);
  }
  else if (run.prop == "C11")
    c11<dim>(run);
  else if (run.prop == "C17")
    c17<dim>(run);
  else if (run.prop == "C20")
    c20<dim>(run);
  else
    throw std::logic_error("property");
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  Run run(argc, argv);
  return run.explore(
      [](Run &r)
      {
        if (r.choose(2, "dim-2") == 0)
          dispatch<2>(r);
        else
          dispatch<3>(r);
      });
}
