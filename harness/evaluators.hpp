// User-side evaluators handed to mfmg.
#ifndef VERIF_EVALUATORS_HPP
#define VERIF_EVALUATORS_HPP
#include "fem.hpp"

#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

// Called at every entry of a user callback: a scheduling point for the
// controlled WorkStream scheduler (no-op otherwise)
struct CallbackHook
{
  static void point(char const *what)
  {
    if (handler())
      handler()(what);
  }
  static std::function<void(char const *)> &handler()
  {
    static std::function<void(char const *)> h;
    return h;
  }
};

template <int dim>
void assemble_agglomerate(dealii::FiniteElement<dim> const &fe, int pattern,
                          dealii::DoFHandler<dim> const &dh,
                          dealii::AffineConstraints<double> &constraints,
                          dealii::SparsityPattern &sp,
                          dealii::SparseMatrix<double> &matrix)
{
  Problem<dim>::make_constraints(dh, constraints);
  dealii::DynamicSparsityPattern dsp(dh.n_dofs());
  dealii::DoFTools::make_sparsity_pattern(dh, dsp, constraints);
  matrix.clear();
  sp.copy_from(dsp);
  matrix.reinit(sp);
  CellMatrix<dim> cm(fe, pattern);
  dealii::FullMatrix<double> k;
  std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell);
  for (auto &cell : dh.active_cell_iterators())
  {
    cm(cell, k);
    cell->get_dof_indices(idx);
    constraints.distribute_local_to_global(k, idx, matrix);
  }
}

template <int dim>
class MatrixEvaluator : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  MatrixEvaluator(Problem<dim> &p)
      : mfmg::DealIIMeshEvaluator<dim>(p.dof_handler, p.constraints), _p(p)
  {
  }
  void evaluate_global(dealii::DoFHandler<dim> &,
                       dealii::AffineConstraints<double> &,
                       TSM &system_matrix) const override
  {
    system_matrix.copy_from(_p.matrix);
  }
  void evaluate_agglomerate(dealii::DoFHandler<dim> &dh,
                            dealii::AffineConstraints<double> &cs,
                            dealii::SparsityPattern &sp,
                            dealii::SparseMatrix<double> &m) const override
  {
    CallbackHook::point("evaluate_agglomerate:begin");
    dh.distribute_dofs(_p.fe);
    assemble_agglomerate<dim>(_p.fe, _p.pattern, dh, cs, sp, m);
    CallbackHook::point("evaluate_agglomerate:end");
  }

private:
  Problem<dim> &_p;
};

template <int dim>
class MFEvaluator : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
public:
  MFEvaluator(Problem<dim> &p)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(p.dof_handler, p.constraints),
        _p(p)
  {
  }
  MFEvaluator(MFEvaluator const &o)
      : mfmg::DealIIMatrixFreeMeshEvaluator<dim>(o._p.dof_handler,
                                                 o._p.constraints),
        _p(o._p)
  {
  }
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<dim>>
  clone() const override
  {
    CallbackHook::point("clone");
    return std::make_unique<MFEvaluator>(*this);
  }
  void matrix_free_initialize_agglomerate(
      dealii::DoFHandler<dim> &dh) const override
  {
    CallbackHook::point("initialize");
    dh.distribute_dofs(_p.fe);
    assemble_agglomerate<dim>(_p.fe, _p.pattern, dh, _cs, _sp, _m);
  }
  void matrix_free_evaluate_agglomerate(dealii::Vector<double> const &src,
                                        dealii::Vector<double> &dst) const override
  {
    CallbackHook::point("evaluate");
    _m.vmult(dst, src);
  }
  std::vector<double> matrix_free_get_agglomerate_diagonal(
      dealii::AffineConstraints<double> &constraints) const override
  {
    CallbackHook::point("diagonal");
    constraints.copy_from(_cs);
    std::vector<double> d(_m.m());
    for (unsigned int i = 0; i < d.size(); ++i)
      d[i] = _m.diag_element(i);
    return d;
  }
  void matrix_free_evaluate_global(DistVec const &src,
                                   DistVec &dst) const override
  {
    _p.matrix.vmult(dst, src);
  }
  std::shared_ptr<dealii::DiagonalMatrix<DistVec>>
  matrix_free_get_diagonal_inverse() const override
  {
    DistVec d(_p.owned, _p.comm);
    for (auto i : _p.owned)
      d(i) = 1. / _p.matrix.diag_element(i);
    d.compress(dealii::VectorOperation::insert);
    return std::make_shared<dealii::DiagonalMatrix<DistVec>>(d);
  }
  DistVec get_diagonal() override
  {
    DistVec d(_p.owned, _p.relevant, _p.comm);
    for (auto i : _p.owned)
      d(i) = _p.matrix.diag_element(i);
    d.compress(dealii::VectorOperation::insert);
    d.update_ghost_values();
    return d;
  }

private:
  Problem<dim> &_p;
  mutable dealii::AffineConstraints<double> _cs;
  mutable dealii::SparsityPattern _sp;
  mutable dealii::SparseMatrix<double> _m;
};
#endif
