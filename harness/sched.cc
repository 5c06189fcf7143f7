// C19: the set-up under every schedule of its parallel tasks.
#include "scheduler.hpp"

#include "evaluators.hpp"
#include "models.hpp"

#include <mfmg/common/hierarchy.hpp>
#include <mfmg/dealii/amge_host.templates.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

using boost::property_tree::ptree;
using ex::Hash;
using ex::Run;
using Op = mfmg::Operator<DistVec>;
using TOp = mfmg::DealIITrilinosMatrixOperator<DistVec>;

struct Config
{
  char const *name;
  Mesh mesh;
  Part part;
  char const *bc;
  int coeff;
};

// small problems with two to four agglomerates per rank, of equal and of
// different sizes, connected and not
std::vector<Config> configs()
{
  return {
      {"two cells", brick(2, 1, 1, 0), {"block", 1, 1, 1}, "none", 1},
      {"three cells", brick(3, 1, 1, 0), {"block", 1, 1, 1}, "left", 1},
      {"2+2+1 cells", brick(5, 1, 1, 0), {"block", 2, 1, 1}, "left", 2},
      {"3+1 cells twice", brick(4, 2, 1, 0), {"block", 3, 2, 1}, "none", 1},
      {"apart", mesh_of("disc2", 0), {"block", 1, 1, 1}, "left", 1},
      {"four", brick(4, 1, 1, 0), {"block", 1, 1, 1}, "none", 2},
  };
}

struct Solver
{
  char const *name;
  bool mf;
  char const *type;
  int neig;
  bool guess;
  bool arpack() const { return std::string(type) == "arpack"; }
  bool random() const { return std::string(type) == "anasazi"; }
};
std::vector<Solver> solvers()
{
  return {{"arpack", false, "arpack", 1, false},
          {"lapack", false, "lapack", 2, false},
          {"lanczos", false, "lanczos", 2, false},
          {"anasazi", false, "anasazi", 1, false},
          {"anasazi with guess", false, "anasazi", 1, true},
          {"matrix-free lanczos", true, "lanczos", 2, false},
          {"matrix-free anasazi with guess", true, "anasazi", 1, true}};
}

struct Result
{
  Dense r, ap;
  bool refused = false;
};

template <int dim>
Result set_up(Problem<dim> &pb, Config const &c, Solver const &s, bool fast)
{
  std::shared_ptr<mfmg::MeshEvaluator> eval;
  if (s.mf)
    eval = std::make_shared<MFEvaluator<dim>>(pb);
  else
    eval = std::make_shared<MatrixEvaluator<dim>>(pb);
  auto params = std::make_shared<ptree>();
  params->put_child("agglomeration", to_ptree(c.part));
  params->put("eigensolver.number of eigenvectors", s.neig);
  params->put("eigensolver.type", s.type);
  params->put("eigensolver.tolerance", s.random() ? 1e-10 : 1e-13);
  if (s.guess)
    params->put("eigensolver.use_initial_guess", true);
  params->put("fast_ap", fast);
  auto h = mfmg::create_hierarchy_helpers<DistVec>(eval);
  auto a = h->get_global_operator(eval);
  Result x;
  seed_package();
  std::shared_ptr<Op> r;
  try
  {
    r = h->build_restrictor(MPI_COMM_WORLD, eval, params);
  }
  catch (std::exception const &)
  {
    if (pb.dof_handler.get_triangulation().n_active_cells() > 0 &&
        dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1)
      throw;
    x.refused = true;
    return x;
  }
  x.r = gather(*std::dynamic_pointer_cast<TOp const>(r)->get_matrix());
  if (fast)
    x.ap = gather(
        *std::dynamic_pointer_cast<TOp const>(h->fast_multiply_transpose())
             ->get_matrix());
  return x;
}

// eigenvectors are known up to their sign
void fix_signs(Result &x)
{
  for (int i = 0; i < x.r.r; ++i)
  {
    int k = 0;
    for (int j = 0; j < x.r.c; ++j)
      if (std::abs(x.r(i, j)) > std::abs(x.r(i, k)) * (1. + 1e-4))
        k = j;
    if (x.r(i, k) < 0.)
    {
      for (int j = 0; j < x.r.c; ++j)
        x.r(i, j) = -x.r(i, j);
      for (int j = 0; j < x.ap.r; ++j)
        x.ap(j, i) = -x.ap(j, i);
    }
  }
}

int const dim = 2;
std::map<std::string, std::unique_ptr<Problem<dim>>> problems;
std::map<std::string, Result> baselines;

void c19(Run &run)
{

  auto const all_c = configs();
  auto const all_s = solvers();
  Config const c = run.pick_from("problem", all_c);
  run.note(c.name);
  Solver const s = run.pick_from("solver", all_s);
  run.note(s.name);
  bool const fast = run.choose(2, "fast_ap");
  int const stream = run.choose(fast ? 3 : 1, "parallel loop");
  sched::Policy p;
  p.target = stream;
  // 0: fixed schedules (all loops), 1: orders and buffers, 2: interleavings
  int const kind = run.size > 1 ? 0 : run.choose(3, "kind");
  int const n_items = (c.mesh.kind == "disc2" || c.name == std::string("four"))
                          ? 4
                          : (c.name == std::string("two cells") ||
                             c.part.a == 3)
                                ? 2
                                : 3;
  if (kind == 0)
  {
    if (stream > 0)
      run.reject();
    p.target = -1;
    p.uniform = run.choose(8, "schedule");
    p.lazy_copy = run.choose(2, "lazy copies");
  }
  else if (kind == 1)
  {
    if (n_items == 4 && !run.thorough)
      p.choose_slots = false;
    else
      p.choose_slots = true;
    if (s.random() && !s.guess)
      run.reject();
    bool const plain = std::string(s.name) == "lapack" || s.mf;
    if (!run.thorough && (stream == 0 ? !s.guess && !plain : !plain || s.guess))
      run.reject();
    if (!run.thorough && stream == 0 && fast && n_items > 2)
      run.reject();
  }
  else
  {
    bool const small = n_items == 2;
    if (n_items > 3)
      run.reject();
    if (n_items == 3 && !run.thorough &&
        (!fast || c.part.a == 1 ||
         (stream == 0 && std::string(s.name) != "lapack")))
      run.reject();
    p.preemptions = run.thorough && small ? 2 : 1;
    p.slices = 8;
    p.slice = run.choose(8, "slice");
    p.repeats = run.thorough ? 3 : 1;
    // one solver for the loops that do not depend on it
    if (stream > 0 && (s.random() || s.arpack() || std::string(s.name) == "lanczos"))
      run.reject();
    if (s.random() && !s.guess)
      run.reject();
  }
  run.commit();
  std::string const pkey = c.name;
  auto &pb = problems[pkey];
  if (!pb)
  {
    pb = std::make_unique<Problem<dim>>(MPI_COMM_WORLD, c.mesh, c.bc);
    pb->assemble(c.coeff);
  }
  std::string const bkey = pkey + "|" + s.name + (fast ? "|fast" : "");
  if (!baselines.count(bkey))
  {
    sched::set(nullptr, {});
    set_up<dim>(*pb, c, s, fast); // (first-time effects)
    baselines[bkey] = set_up<dim>(*pb, c, s, fast);
    if (s.random())
      fix_signs(baselines[bkey]);
  }
  Result const &base = baselines[bkey];
  if (base.refused)
    run.reject();
  CallbackHook::handler() = [](char const *w) { sched::point(w); };
  sched::set(&run, p);
  Result x = set_up<dim>(*pb, c, s, fast);
  int const streams = sched::n_streams();
  run.step(1 + sched::n_switches() + sched::n_points());
  sched::set(nullptr, {});
  CallbackHook::handler() = nullptr;
  if (!run.check(!x.refused, "refused", "set-up fails under this schedule"))
    return;
  double const tol = s.random() ? 1e-5 : 1e-9;
  if (s.random())
    fix_signs(x);
  if (run.check(x.r.r == base.r.r && x.r.c == base.r.c, "size",
                "restriction of another size"))
    run.check(max_diff(x.r, base.r) < tol, "restriction",
              "restriction differs by " + num(max_diff(x.r, base.r)) +
                  " from the one of the sequential set-up");
  if (fast && run.check(x.ap.r == base.ap.r && x.ap.c == base.ap.c, "size",
                        "fast product of another size"))
    run.check(max_diff(x.ap, base.ap) < 20 * tol * std::max(1., max_abs(base.ap)),
              "fast product",
              "fast product differs by " + num(max_diff(x.ap, base.ap)) +
                  " from the one of the sequential set-up");
  Hash h;
  h << bkey << streams << kind << stream << p.uniform;
  for (std::size_t i = 0; i < run.path().size(); ++i)
    h << run.path()[i];
  run.observe(h);
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  Run run(argc, argv);
  int const rc = run.explore([](Run &r) { c19(r); });
  problems.clear();
  return rc;
}
