// Meshes, finite element problems and user-side mesh evaluators used to drive
// mfmg. Everything here is environment: mfmg only sees it through its public
// interfaces.
#ifndef VERIF_FEM_HPP
#define VERIF_FEM_HPP

#include "dense.hpp"
#include "explore.hpp"

#include <set>
#include <deal.II/base/index_set.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>
#include <deal.II/lac/vector.h>

#include <boost/property_tree/ptree.hpp>

#include <array>
#include <memory>

using DistVec = dealii::LinearAlgebra::distributed::Vector<double>;
using TSM = dealii::TrilinosWrappers::SparseMatrix;

// ---------------------------------------------------------------- meshes

struct Mesh
{
  std::string kind;         // cube, brick, L, disc, ball, shell, hanging
  std::array<int, 3> n{{1, 1, 1}}; // coarse cells per direction (brick)
  int refine = 0;
  bool structured = false;  // axis-aligned lattice of equal cells
  int warp = 0;             // position and extents of a lattice, see below
  std::array<double, 3> shift() const
  {
    return warp == 1   ? std::array<double, 3>{{-3.25, -7.5, 2.125}}
           : warp == 3 ? std::array<double, 3>{{-1000., 250., -3000.}}
           : warp == 4 ? std::array<double, 3>{{-2., -3., 1.}}
                       : std::array<double, 3>{{0., 0., 0.}};
  }
  std::array<double, 3> scale() const
  {
    return warp == 1   ? std::array<double, 3>{{0.125, 2.5, 40.}}
           : warp == 2 ? std::array<double, 3>{{1e-5, 1e-5, 1e-5}}
           : warp == 3 ? std::array<double, 3>{{1e4, 1e4, 3e3}}
           : warp == 4 ? std::array<double, 3>{{0.5, 1.5, 2.}}
                       : std::array<double, 3>{{1., 1., 1.}};
  }
};
inline std::ostream &operator<<(std::ostream &os, Mesh const &m)
{
  os << m.kind;
  if (m.kind == "brick")
    os << m.n[0] << "x" << m.n[1] << "x" << m.n[2];
  os << "r" << m.refine;
  if (m.warp)
    os << "w" << m.warp;
  return os;
}
inline Mesh cube(int r) { return {"cube", {{1, 1, 1}}, r, true}; }
inline Mesh brick(int a, int b, int c, int r)
{
  return {"brick", {{a, b, c}}, r, true};
}
// 1: negative coordinates, stretched cells; 2: tiny; 3: huge, far away
inline Mesh warped(int w, Mesh m)
{
  m.warp = w;
  return m;
}
inline Mesh mesh_of(std::string const &k, int r) { return {k, {{1, 1, 1}}, r, false}; }

template <int dim>
void make_mesh(dealii::Triangulation<dim> &t, Mesh const &m)
{
  using namespace dealii;
  if (m.kind == "cube")
    GridGenerator::hyper_cube(t);
  else if (m.kind == "brick")
  {
    std::vector<unsigned int> reps;
    Point<dim> lo, hi;
    for (int d = 0; d < dim; ++d)
    {
      reps.push_back(m.n[d]);
      hi[d] = m.n[d];
    }
    GridGenerator::subdivided_hyper_rectangle(t, reps, lo, hi);
  }
  else if (m.kind == "L")
    GridGenerator::hyper_L(t, 0., 2.);
  else if (m.kind == "disc" || m.kind == "disc2")
  {
    // two components that do not touch; in disc2 the second one is longer
    Triangulation<dim> a, b;
    Point<dim> lo1, hi1, lo2, hi2;
    std::vector<unsigned int> r1, r2;
    for (int d = 0; d < dim; ++d)
    {
      hi1[d] = 1;
      lo2[d] = d == 0 ? 2 : 0;
      hi2[d] = d == 0 ? (m.kind == "disc2" ? 5 : 3) : 1;
      r1.push_back(1);
      r2.push_back(d == 0 && m.kind == "disc2" ? 3 : 1);
    }
    GridGenerator::subdivided_hyper_rectangle(a, r1, lo1, hi1);
    GridGenerator::subdivided_hyper_rectangle(b, r2, lo2, hi2);
    GridGenerator::merge_triangulations(a, b, t);
  }
  else if (m.kind == "ball")
    GridGenerator::hyper_ball(t);
  else if (m.kind == "shell")
    GridGenerator::hyper_shell(t, Point<dim>(), 0.5, 1., dim == 2 ? 6 : 6);
  else if (m.kind == "cross")
  {
    std::vector<unsigned int> sizes(2 * dim, 1);
    GridGenerator::hyper_cross(t, sizes);
  }
  else if (m.kind == "cheese")
  {
    std::vector<unsigned int> holes(dim, 1);
    GridGenerator::cheese(t, holes);
  }
  else if (m.kind == "hanging")
    GridGenerator::hyper_cube(t);
  else
    throw std::logic_error("unknown mesh " + m.kind);
  if (m.warp)
  {
    auto const scale = m.scale(), shift = m.shift();
    GridTools::transform(
        [&](Point<dim> const &p)
        {
          Point<dim> q;
          for (int d = 0; d < dim; ++d)
            q[d] = p[d] * scale[d] + shift[d];
          return q;
        },
        t);
  }
  if (m.refine > 0)
    t.refine_global(m.refine);
  if (m.kind == "hanging")
  {
    // refine the cells whose centre is in the low corner
    for (auto &cell : t.active_cell_iterators())
      if (cell->is_locally_owned())
      {
        bool low = true;
        for (int d = 0; d < dim; ++d)
          low = low && cell->center()[d] < 0.5;
        if (low)
          cell->set_refine_flag();
      }
    t.execute_coarsening_and_refinement();
  }
}

// boundary id layouts
template <int dim>
void set_boundary_ids(dealii::Triangulation<dim> &t, std::string const &mode)
{
  for (auto &cell : t.active_cell_iterators())
    for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
      if (cell->face(f)->at_boundary())
      {
        unsigned int id = 0;
        auto c = cell->face(f)->center();
        if (mode == "dirichlet")
          id = 1;
        else if (mode == "none")
          id = 0;
        else if (mode == "left")
          id = (c[0] < 1e-8) ? 1 : 0;
        else if (mode.compare(0, 5, "sides") == 0)
          // nonzero on the faces with a number in the mask
          id = (std::stoi(mode.substr(5)) >> f) & 1 ? f + 5 : 0;
        else if (mode == "distinct")
        {
          // a value determined by the geometric position of the face
          id = 2;
          for (int d = 0; d < dim; ++d)
            id = (id * 1009 + int(std::floor(c[d] * 8 + 100.25))) % 99991;
          id += 3;
        }
        else
          throw std::logic_error("boundary mode");
        cell->face(f)->set_boundary_id(id);
      }
}

template <int dim>
double coefficient(int pattern, dealii::Point<dim> const &c)
{
  switch (pattern)
  {
  case 3:
    return 1e3 * coefficient<dim>(1, c);
  case 4:
    return 1e-4 * coefficient<dim>(2, c);
  case 5:
    return 1e-10 * coefficient<dim>(1, c);
  case 6:
    return 1e8 * coefficient<dim>(2, c);
  case 7:
    return 1e-20 * coefficient<dim>(1, c);
  case 8:
    return 1e20 * coefficient<dim>(1, c);
  case 0:
    return 1.;
  case 1:
  {
    double s = 1.;
    for (int d = 0; d < dim; ++d)
      s += (d + 1) * std::abs(c[d]);
    return s;
  }
  default:
  {
    long k = 0;
    for (int d = 0; d < dim; ++d)
      k += long(std::floor(4 * c[d] + 1e-9)) * (d == 1 ? 3 : d == 2 ? 5 : 1);
    return (((k % 5) + 5) % 5 < 2) ? 10. : 1. + 0.1 * (((k % 3) + 3) % 3);
  }
  }
}

template <int dim>
struct CellMatrix
{
  dealii::QGauss<dim> quadrature;
  dealii::FEValues<dim> fe_values;
  int pattern;
  CellMatrix(dealii::FiniteElement<dim> const &fe, int pattern_)
      : quadrature(fe.degree + 1),
        fe_values(fe, quadrature,
                  dealii::update_gradients | dealii::update_JxW_values),
        pattern(pattern_)
  {
  }
  template <typename Cell>
  void operator()(Cell const &cell, dealii::FullMatrix<double> &m)
  {
    fe_values.reinit(cell);
    unsigned int n = fe_values.dofs_per_cell;
    m.reinit(n, n);
    double const a = coefficient<dim>(pattern, cell->center());
    for (unsigned int q = 0; q < quadrature.size(); ++q)
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          m(i, j) += a * fe_values.shape_grad(i, q) *
                     fe_values.shape_grad(j, q) * fe_values.JxW(q);
  }
};

// -------------------------------------------------- agglomeration parameters

struct Part
{
  std::string kind;
  int a = 0, b = 0, c = 0; // nx ny nz or n_agglomerates
};
inline std::ostream &operator<<(std::ostream &os, Part const &p)
{
  os << p.kind << ":" << p.a;
  if (p.kind == "block")
    os << "x" << p.b << "x" << p.c;
  return os;
}
inline boost::property_tree::ptree to_ptree(Part const &p)
{
  boost::property_tree::ptree t;
  t.put("partitioner", p.kind);
  if (p.kind == "block")
  {
    t.put("nx", p.a);
    t.put("ny", p.b);
    t.put("nz", p.c);
  }
  else
    t.put("n_agglomerates", p.a);
  return t;
}

// --------------------------------------------------------------- problems

template <int dim>
struct Problem
{
  MPI_Comm comm;
  dealii::parallel::distributed::Triangulation<dim> tria;
  dealii::FE_Q<dim> fe;
  dealii::DoFHandler<dim> dof_handler;
  dealii::AffineConstraints<double> constraints;
  dealii::IndexSet owned, relevant;
  TSM matrix;
  int pattern = 0;
  int n_evaluate_global = 0;

  Problem(MPI_Comm c, Mesh const &m, std::string const &bc, int degree = 1)
      : comm(c), tria(c), fe(degree), dof_handler(tria)
  {
    make_mesh<dim>(tria, m);
    set_boundary_ids<dim>(tria, bc);
    dof_handler.distribute_dofs(fe);
    owned = dof_handler.locally_owned_dofs();
    dealii::DoFTools::extract_locally_relevant_dofs(dof_handler, relevant);
  }

  void assemble(int coeff_pattern)
  {
    pattern = coeff_pattern;
    make_constraints(dof_handler, constraints);
    dealii::TrilinosWrappers::SparsityPattern sp(owned, comm);
    dealii::DoFTools::make_sparsity_pattern(dof_handler, sp, constraints);
    sp.compress();
    matrix.reinit(sp);
    CellMatrix<dim> cm(fe, pattern);
    dealii::FullMatrix<double> k;
    std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell);
    for (auto &cell : dof_handler.active_cell_iterators())
      if (cell->is_locally_owned())
      {
        cm(cell, k);
        cell->get_dof_indices(idx);
        constraints.distribute_local_to_global(k, idx, matrix);
      }
    matrix.compress(dealii::VectorOperation::add);
  }

  // Do the problems on patches of cells know the same constraints? At a
  // reentrant corner a cell may touch the constrained boundary in a vertex
  // only; a mesh evaluator working on patches that contain this cell but not
  // its neighbours cannot know that the vertex is constrained.
  bool patches_know_constraints() const
  {
    std::vector<int> fixed(dof_handler.n_dofs(), 0);
    for (auto i : owned)
      fixed[i] = constraints.is_constrained(i);
    MPI_Allreduce(MPI_IN_PLACE, fixed.data(), fixed.size(), MPI_INT, MPI_MAX,
                  comm);
    int good = 1;
    std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell),
        fidx(fe.dofs_per_face);
    for (auto &cell : dof_handler.active_cell_iterators())
      if (cell->is_locally_owned())
      {
        std::set<dealii::types::global_dof_index> known;
        for (unsigned int f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; ++f)
          if (cell->face(f)->at_boundary() && cell->face(f)->boundary_id() == 1)
          {
            cell->face(f)->get_dof_indices(fidx);
            known.insert(fidx.begin(), fidx.end());
          }
        cell->get_dof_indices(idx);
        for (auto i : idx)
          if (fixed[i] && !known.count(i))
            good = 0;
      }
    MPI_Allreduce(MPI_IN_PLACE, &good, 1, MPI_INT, MPI_MIN, comm);
    return good;
  }

  static void make_constraints(dealii::DoFHandler<dim> const &dh,
                               dealii::AffineConstraints<double> &cs)
  {
    dealii::IndexSet rel;
    dealii::DoFTools::extract_locally_relevant_dofs(dh, rel);
    cs.clear();
    cs.reinit(rel);
    dealii::IndexSet bdofs =
        dealii::DoFTools::extract_boundary_dofs(dh, dealii::ComponentMask(),
                                                {1});
    for (auto i : bdofs)
      if (rel.is_element(i))
        cs.add_line(i);
    cs.close();
  }
};

// Gather a distributed matrix / vector on every rank
inline Dense gather(TSM const &m)
{
  Dense d(m.m(), m.n());
  auto rng = m.local_range();
  for (auto r = rng.first; r < rng.second; ++r)
    for (auto it = m.begin(r); it != m.end(r); ++it)
      d(it->row(), it->column()) += it->value();
  MPI_Allreduce(MPI_IN_PLACE, d.a.data(), d.a.size(), MPI_DOUBLE, MPI_SUM,
                m.get_mpi_communicator());
  return d;
}
inline DVec gather(DistVec const &v, MPI_Comm comm)
{
  DVec d(v.size(), 0.);
  for (auto i : v.locally_owned_elements())
    d[i] = v(i);
  MPI_Allreduce(MPI_IN_PLACE, d.data(), d.size(), MPI_DOUBLE, MPI_SUM, comm);
  return d;
}
inline void scatter(DVec const &d, DistVec &v)
{
  for (auto i : v.locally_owned_elements())
    v(i) = d[i];
}

inline double rel_tol(double scale, double tol) { return tol * std::max(1., scale); }

#endif
