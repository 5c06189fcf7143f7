From d5e25a49bd16dcf3368e4c5ba2011dc986334cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 01/26] fix: forget previous agglomerates before building new
 ones

build_agglomerates_block() only considers cells whose user_index is zero
but nothing ever reset it, so a second call on the same triangulation
created no agglomerates at all.
---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..beec344 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -52,6 +52,11 @@ template <int dim, typename VectorType>
 unsigned int AMGe<dim, VectorType>::build_agglomerates(
     boost::property_tree::ptree const &ptree) const
 {
+  // Forget the agglomerates of any previous call. Cells that are not part of
+  // an agglomerate, i.e., ghost and artificial cells, have a zero user_index.
+  for (auto cell : _dof_handler.active_cell_iterators())
+    cell->set_user_index(0);
+
   std::string partitioner_type = ptree.get<std::string>("partitioner");
   std::transform(partitioner_type.begin(), partitioner_type.end(),
                  partitioner_type.begin(), ::tolower);
-- 
2.43.0


From 2ae436aa96f18cf9f20e359594a59b5715e3a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 02/26] fix: list the file of every rank in the master record

AMGe::output() stored all the file names in the first entry, so that the
record referenced the file of the last rank only.
---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index beec344..6026296 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -267,7 +267,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From 16bd209c17316394c79ab944fbb456a500b2919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 03/26] fix: do not let a block agglomerate take cells of a
 previous one

On unstructured coarse meshes, and on distributed ones, the block of cells
reached from a seed cell may overlap with an agglomerate that has already
been created. That agglomerate could lose all its cells.
---
 include/mfmg/common/amge.templates.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 6026296..70e7f1f 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -444,7 +444,10 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
           auto current_cell = current_y_cell;
           for (unsigned int i = 0; i < agglomerate_dim[0]; ++i)
           {
-            current_cell->set_user_index(agglomerate);
+            // Do not take cells from a previous agglomerate. Otherwise, an
+            // agglomerate could end up without any cell.
+            if (current_cell->user_index() == 0)
+              current_cell->set_user_index(agglomerate);
             if (current_cell->at_boundary(x_p) == false)
             {
               // TODO For now, we assume that there is no adaptive refinement.
-- 
2.43.0


From 1edb36edac9e8d6c52a2a0c279826a7731798046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 04/26] fix: escape parameter names and values in the list
 handed to Teuchos

---
 source/common/utils.cc | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index ffdb0a1..feacb8a 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -17,6 +17,36 @@
 
 namespace mfmg
 {
+// Names and values are free text, they must not be read as markup
+static std::string xml_escape(std::string const &text)
+{
+  std::string escaped;
+  for (char const c : text)
+  {
+    switch (c)
+    {
+    case '&':
+      escaped += "&amp;";
+      break;
+    case '<':
+      escaped += "&lt;";
+      break;
+    case '>':
+      escaped += "&gt;";
+      break;
+    case '"':
+      escaped += "&quot;";
+      break;
+    case '\'':
+      escaped += "&apos;";
+      break;
+    default:
+      escaped += c;
+    }
+  }
+  return escaped;
+}
+
 static std::ostream &
 ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
 {
@@ -28,7 +58,8 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
     bool child_is_sublist = !item.second.empty();
     if (child_is_sublist)
     {
-      os << "<ParameterList name=\"" << item.first << "\">" << std::endl;
+      os << "<ParameterList name=\"" << xml_escape(item.first) << "\">"
+         << std::endl;
       ptree2plist_internal(item.second, os);
       os << "</ParameterList>" << std::endl;
     }
@@ -54,8 +85,8 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
         value_type = "string";
       }
 
-      os << "<Parameter name=\"" << item.first << "\" type=\"" << value_type
-         << "\" value=\"" << value << "\"/>" << std::endl;
+      os << "<Parameter name=\"" << xml_escape(item.first) << "\" type=\""
+         << value_type << "\" value=\"" << xml_escape(value) << "\"/>" << std::endl;
     }
   }
   return os;
-- 
2.43.0


From 11910fe8c6393951eb968822e42602845910bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 05/26] fix: keep the smoothed aggregation defaults under the
 user's ML parameters

---
 source/dealii/dealii_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index b77e22a..ce2586a 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -58,7 +58,9 @@ DealIISolver<VectorType>::DealIISolver(
       if (ml_tree)
       {
         // Augment with user provided parameters
-        ptree2plist(*ml_tree, ml_params);
+        Teuchos::ParameterList user_params;
+        ptree2plist(*ml_tree, user_params);
+        ml_params.setParameters(user_params);
       }
 
       _smoother.reset(new dealii::TrilinosWrappers::PreconditionAMG());
-- 
2.43.0


From 9be4dcb7b1010918f73f521c4cfbf74a6661c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 06/26] fix: do not drop small entries when writing a serial
 matrix

---
 source/dealii/dealii_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_utils.cc b/source/dealii/dealii_utils.cc
index 9cc5c39..ee7393e 100644
--- a/source/dealii/dealii_utils.cc
+++ b/source/dealii/dealii_utils.cc
@@ -74,7 +74,8 @@ void matrix_market_output_file(std::string const &filename,
                                dealii::SparseMatrix<double> const &matrix)
 {
   dealii::TrilinosWrappers::SparseMatrix trilinos_matrix;
-  trilinos_matrix.reinit(matrix);
+  // Do not drop small entries
+  trilinos_matrix.reinit(matrix, 0.);
 
   matrix_market_output_file(filename, trilinos_matrix);
 }
-- 
2.43.0


From 6008911f54cd1af8230762799894191e5914376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 07/26] fix: stop Lanczos in an invariant subspace and refuse
 missing eigenpairs

---
 include/mfmg/common/lanczos.templates.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..38f7f96 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -254,7 +254,11 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
     bool const max_iterations_reached = (it == maxit);
     bool const percent_overshoot_exceeded =
         (100 * (it - it_prev_check) > percent_overshoot * it_prev_check);
-    if (first_iteration || max_iterations_reached || percent_overshoot_exceeded)
+    // The Krylov space is (numerically) invariant: everything that it contains
+    // has converged and nothing can be gained by iterating further.
+    bool const invariant_subspace = (beta <= tol);
+    if (first_iteration || max_iterations_reached ||
+        percent_overshoot_exceeded || invariant_subspace)
     {
       int const dim_hessenberg = it;
       ASSERT((size_t)dim_hessenberg == main_diagonal.size(), "Internal error");
@@ -276,6 +280,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   }
   it = it < maxit ? it : maxit;
 
+  ASSERT_THROW(!evals.empty(), "Lanczos could not compute the required number "
+                               "of eigenpairs.");
   ASSERT(it >= num_requested,
          "Internal error: required number of iterations not reached");
 
@@ -462,6 +468,10 @@ bool Lanczos<OperatorType, VectorType>::details_check_convergence(
   if (num_evecs < num_requested)
     return false;
 
+  // There may be fewer eigenpairs than that without the spurious ones
+  if (evecs.empty())
+    return false;
+
   bool is_converged = true;
 
   // Terminate if every approximate eigenvalue has converged to tolerance
-- 
2.43.0


From 33210d2f99a2c1904438512eea073c16ba6c0258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 08/26] fix: keep the lowest eigenpairs of all Lanczos cycles

---
 include/mfmg/common/lanczos.templates.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 38f7f96..4b96173 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -145,25 +145,22 @@ Lanczos<OperatorType, VectorType>::solve(
     }
   }
 
-  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
-  evals.resize(n_eigenvectors);
-  evecs.resize(n_eigenvectors);
-
   // Sort eigenvalues in ascending order if we run multiple Lanczos
   // The reason is that while each Lanczos solve produces sorted eigenvalues,
   // they may be the same, and thus need to be interleaved
   if (num_cycles > 1)
   {
-    std::vector<double> sorted_evals(n_eigenvectors);
-    std::vector<VectorType> sorted_evecs(n_eigenvectors);
+    int const n_computed = evals.size();
+    std::vector<double> sorted_evals(n_computed);
+    std::vector<VectorType> sorted_evecs(n_computed);
 
     // Compute permutation for ascending order
-    std::vector<int> perm_index(n_eigenvectors);
+    std::vector<int> perm_index(n_computed);
     std::iota(perm_index.begin(), perm_index.end(), 0);
     std::sort(perm_index.begin(), perm_index.end(),
               [&](int i, int j) { return evals[i] < evals[j]; });
 
-    for (int i = 0; i < n_eigenvectors; i++)
+    for (int i = 0; i < n_computed; i++)
     {
       sorted_evals[i] = evals[perm_index[i]];
       sorted_evecs[i] = evecs[perm_index[i]];
@@ -172,6 +169,11 @@ Lanczos<OperatorType, VectorType>::solve(
     evecs = sorted_evecs;
   }
 
+  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors. This has
+  // to happen after sorting to keep the lowest eigenpairs of all the cycles.
+  evals.resize(n_eigenvectors);
+  evecs.resize(n_eigenvectors);
+
   return std::make_tuple(evals, evecs);
 }
 
-- 
2.43.0


From a18b52e4e1535864f88ca69ddc9df43a5ce3be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 09/26] fix: drop linearly dependent deflation vectors

---
 .../common/lanczos_deflatedop.templates.hpp   | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/common/lanczos_deflatedop.templates.hpp b/include/mfmg/common/lanczos_deflatedop.templates.hpp
index 1125f69..15294e4 100644
--- a/include/mfmg/common/lanczos_deflatedop.templates.hpp
+++ b/include/mfmg/common/lanczos_deflatedop.templates.hpp
@@ -12,7 +12,9 @@
 #ifndef MFMG_LANCZOS_DEFLATEDOP_TEMPLATE_HPP
 #define MFMG_LANCZOS_DEFLATEDOP_TEMPLATE_HPP
 
+#include <algorithm>
 #include <cmath>
+#include <numeric>
 
 #include "lanczos_deflatedop.hpp"
 
@@ -72,6 +74,14 @@ void DeflatedOperator<OperatorType, VectorType>::add_deflation_vecs(
   auto vnew_start = vold_end;
   auto vnew_end = vnew_start + num_new;
 
+  // Normalize new vectors, so that what is left of them after the
+  // orthogonalization tells whether they are linearly dependent
+  std::for_each(vnew_start, vnew_end, [](auto &new_v) {
+    double const norm = new_v.l2_norm();
+    if (norm > 0.)
+      new_v /= norm;
+  });
+
   // Orthogonalize new vectors with respect to old vectors
   std::for_each(vnew_start, vnew_end, [&](auto &new_v) {
     std::for_each(vold_start, vold_end,
@@ -100,11 +110,19 @@ void DeflatedOperator<OperatorType, VectorType>::add_deflation_vecs(
     }
 
     // Normalize.
-
-    // FIXME: we are not accounting for possible rank deficiency here
     double norm = std::sqrt(dot_best);
-    ASSERT(norm, "Internal error: zero norm"); // FIXME need better test for
-                                               // near-zero here.
+
+    // All the vectors left depend linearly on the ones already in the set, only
+    // noise remains of them
+    if (norm < 1e-12)
+    {
+      std::vector<int> dependent(perm_ind.begin() + i, perm_ind.end());
+      std::sort(dependent.begin(), dependent.end());
+      for (auto it = dependent.rbegin(); it != dependent.rend(); ++it)
+        _deflation_vecs.erase(_deflation_vecs.begin() + *it);
+      break;
+    }
+
     _deflation_vecs[perm_ind[i]] /= norm;
 
     // Orthogonalize all later vectors against this one
-- 
2.43.0


From f895fd9f85378ac7d676305633fa11ebe9cf18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 10/26] fix: let MvAddMv write to its second operand

---
 include/mfmg/dealii/anasazi_traits.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/anasazi_traits.hpp b/include/mfmg/dealii/anasazi_traits.hpp
index b946542..a521ef9 100644
--- a/include/mfmg/dealii/anasazi_traits.hpp
+++ b/include/mfmg/dealii/anasazi_traits.hpp
@@ -161,8 +161,16 @@ public:
 
     for (int i = 0; i < n_vectors; i++)
     {
-      *mv[i] = *A[i];
-      (*mv[i]).sadd(alpha, beta, *B[i]);
+      // The result may be the same object as one of the operands
+      if (mv[i] == B[i])
+      {
+        (*mv[i]).sadd(beta, alpha, *A[i]);
+      }
+      else
+      {
+        *mv[i] = *A[i];
+        (*mv[i]).sadd(alpha, beta, *B[i]);
+      }
     }
   }
 
-- 
2.43.0


From 6ec64b447e77c8f59c9bbf62d94c17aaf60aa734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 11/26] fix: refuse eigenpairs the block eigensolver did not
 converge to

---
 include/mfmg/dealii/anasazi.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/anasazi.templates.hpp b/include/mfmg/dealii/anasazi.templates.hpp
index f751be0..94a4dc5 100644
--- a/include/mfmg/dealii/anasazi.templates.hpp
+++ b/include/mfmg/dealii/anasazi.templates.hpp
@@ -73,7 +73,7 @@ AnasaziSolver<OperatorType, VectorType>::solve(
                                          solverParams);
 
   Anasazi::ReturnType rr = solver->solve();
-  ASSERT(rr == Anasazi::Converged, "Anasazi could not solve the problem");
+  ASSERT_THROW(rr == Anasazi::Converged, "Anasazi could not solve the problem");
 
   // Extract solution
   Anasazi::Eigensolution<double, MultiVectorType> solution =
-- 
2.43.0


From c74e066c73479c78d399bb9439ca189d852b3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 12/26] fix: give ARPACK enough restarts and refuse eigenpairs
 it did not find

---
 include/mfmg/dealii/amge_host.templates.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..7945d3b 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -412,7 +412,10 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SparseDirectUMFPACK inv_system_matrix;
     inv_system_matrix.initialize(agglomerate_system_matrix);
 
-    dealii::SolverControl solver_control(n_dofs_agglomerate, tolerance);
+    // The number of restarts needed depends on the gaps between the
+    // eigenvalues, not on the size of the agglomerate.
+    dealii::SolverControl solver_control(
+        std::max<unsigned int>(n_dofs_agglomerate, 1000), tolerance);
     unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
@@ -429,6 +432,11 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     solver.set_initial_vector(initial_vector);
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
+
+    // Eigenvectors that have not been found are left at zero.
+    for (auto const &eigenvector : eigenvectors)
+      ASSERT_THROW(eigenvector.l2_norm() > 0.5,
+                   "ARPACK did not find the requested eigenpairs");
   }
   else if (eigensolver_type == "lanczos")
   {
-- 
2.43.0


From fd92228fae9b447f754d065beeb0bcc7c591e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 13/26] fix: keep the Lanczos vectors orthogonal and stop when
 no direction is left

---
 include/mfmg/common/lanczos.templates.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 4b96173..ffb7494 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -202,6 +202,7 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
 
   // Initializations; first Lanczos vector.
   double alpha = 0;
+  double max_alpha = 0;
   double beta = initial_guess.l2_norm();
 
   std::vector<VectorType> lanc_vectors; // Lanczos vectors
@@ -244,9 +245,17 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
     alpha = lanc_vectors[it - 1] * lanc_vectors[it]; // = tridiag_{it,it}
 
     main_diagonal.push_back(alpha);
+    max_alpha = std::max(max_alpha, std::abs(alpha));
 
     lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);
 
+    // Rounding errors destroy the orthogonality of the Lanczos vectors once an
+    // eigenpair has converged, which results in spurious eigenpairs. Since all
+    // the vectors are stored anyway, orthogonalize against all of them.
+    for (int i = 0; i < it; ++i)
+      lanc_vectors[it].add(-(lanc_vectors[i] * lanc_vectors[it]),
+                           lanc_vectors[i]);
+
     beta = lanc_vectors[it].l2_norm(); // = tridiag_{it+1,it}
 
     // Check convergence if requested
@@ -258,7 +267,7 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
         (100 * (it - it_prev_check) > percent_overshoot * it_prev_check);
     // The Krylov space is (numerically) invariant: everything that it contains
     // has converged and nothing can be gained by iterating further.
-    bool const invariant_subspace = (beta <= tol);
+    bool const invariant_subspace = (beta <= std::max(tol, 1e-12 * max_alpha));
     if (first_iteration || max_iterations_reached ||
         percent_overshoot_exceeded || invariant_subspace)
     {
@@ -270,7 +279,10 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
       std::tie(evals, evecs_tridiag) = details_calc_tridiag_epairs(
           main_diagonal, sub_diagonal, num_requested);
 
-      if (details_check_convergence(beta, dim_hessenberg, num_requested, tol,
+      // Only rounding errors are left to continue with.
+      bool const no_direction_left = (beta <= 1e-12 * max_alpha);
+      if (no_direction_left ||
+          details_check_convergence(beta, dim_hessenberg, num_requested, tol,
                                     evecs_tridiag))
       {
         break;
-- 
2.43.0


From ba26c74529a57e5d54d3a5747380e9a2e065f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 14/26] fix: scale the shift of constrained dofs and the LAPACK
 bounds with the agglomerate matrix

---
 include/mfmg/dealii/amge_host.templates.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 7945d3b..3762592 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -387,10 +387,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
   // Shift diagonal entries for constrained degrees of freedom, to avoid
-  // using the corresponding eigenvectors
+  // using the corresponding eigenvectors. The shift has to be larger than all
+  // the eigenvalues we are interested in.
+  double const constrained_diagonal =
+      std::max<double>(200., 2. * agglomerate_system_matrix.linfty_norm());
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        constrained_diagonal;
   }
 
   // Compute the eigenvalues and the eigenvectors
@@ -458,12 +462,16 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     full_matrix.copy_from(agglomerate_system_matrix);
 
     double const lower_bound = -0.5;
-    double const upper_bound = 100.;
-    double const tol = 1e-12;
+    double const upper_bound = 0.75 * constrained_diagonal;
+    // Let LAPACK choose the tolerance. An absolute tolerance that is too loose
+    // for the scale of the matrix makes the inverse iteration fail.
+    double const tol = 0.;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
         lower_bound, upper_bound, tol, lapack_eigenvalues, lapack_eigenvectors);
+    ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,
+                 "LAPACK found fewer eigenpairs than requested");
 
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
-- 
2.43.0


From 5fb6c6dec60f573a269983113e353d76723bf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 15/26] fix: refuse unknown eigensolver types in release mode

---
 include/mfmg/dealii/amge_host.templates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 3762592..97806ac 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -336,7 +336,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Compute the map between the local and the global dof indices.
@@ -483,7 +483,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Shift eigenvalues back
-- 
2.43.0


From cd1b7cc3b892cb1dbe167c7e1750467b797249ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:42 +0000
Subject: [PATCH 16/26] fix: do not copy the previous patch again when a patch
 of the fast product is empty

---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..2b3e72b 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // The copy data may be the one of another patch
+              local_copy_data = CopyData();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..ca3f6b1 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // The copy data may be the one of another patch
+          local_copy_data = CopyData();
           return;
         }
 
-- 
2.43.0


From 735afdb3f6799a27aeb59e8b322f776a1f909626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 17/26] fix: refuse a non-positive number of levels in release
 mode

---
 include/mfmg/common/hierarchy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..7e6153a 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -170,8 +170,8 @@ public:
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-    ASSERT(num_levels > 0, "number of levels specified by \"max levels\" "
-                           "parameter must be positive");
+    ASSERT_THROW(num_levels > 0, "number of levels specified by \"max levels\" "
+                                 "parameter must be positive");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
-- 
2.43.0


From c08feb64d69b7e80b60d92c3f677604e7ac9f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 18/26] fix: refuse to build a hierarchy without parameters

---
 include/mfmg/common/hierarchy.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 7e6153a..8d63e30 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -161,6 +161,9 @@ public:
             std::shared_ptr<dealii::TimerOutput> timer = nullptr)
       : _timer(timer)
   {
+    ASSERT_THROW(params != nullptr, "A hierarchy cannot be built without "
+                                    "parameters");
+
     timer_enter_subsection(_timer, "Setup");
     // Replace by a factory
     auto hierarchy_helpers = create_hierarchy_helpers<VectorType>(evaluator);
-- 
2.43.0


From 1bd5044d565b9895ca3896efb57ea6397f877c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 19/26] fix: do not change the caller's parameters when
 building a hierarchy

---
 include/mfmg/common/hierarchy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 8d63e30..08e1008 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -188,7 +188,10 @@ public:
       {
         if (level_index == 0)
         {
-          // When using ML for the full hierarchy, do not zero out initial guess
+          // When using ML for the full hierarchy, do not zero out initial
+          // guess. The parameters belong to the caller who may use them for
+          // another hierarchy so do not change them.
+          params = std::make_shared<boost::property_tree::ptree>(*params);
           params->put("coarse.params.zero starting solution",
                       _is_preconditioner);
         }
-- 
2.43.0


From fadc0f9a51f305ebfec406394cf108ac1111a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 20/26] fix: refuse hierarchies of more than two levels instead
 of crashing

---
 include/mfmg/common/hierarchy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 08e1008..0afbadf 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -175,6 +175,8 @@ public:
     int const num_levels = params->get("max levels", 2);
     ASSERT_THROW(num_levels > 0, "number of levels specified by \"max levels\" "
                                  "parameter must be positive");
+    // The restrictor is always built from the mesh of the finest level
+    ASSERT_THROW(num_levels <= 2, "more than two levels are not supported");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
-- 
2.43.0


From 1ac32e32f17b8bbd8ae7086ef00d5d69c0f5a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 21/26] fix: refuse to build a coarse solver for an operator
 without a matrix

---
 source/dealii/dealii_solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index ce2586a..a694d88 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -34,6 +34,8 @@ DealIISolver<VectorType>::DealIISolver(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
+  ASSERT_THROW(trilinos_operator != nullptr,
+               "The coarse solvers need a matrix to work on");
   auto sparse_matrix = trilinos_operator->get_matrix();
   // Make parameters case-insensitive
   std::string coarse_type_lower = coarse_type;
-- 
2.43.0


From 648f723e10360d49822d934ebabf13711c95f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 22/26] fix: serialize the ARPACK solves of agglomerates
 processed in parallel

ARPACK keeps the state of a solve in static variables, so two tasks that
are in the eigensolver at the same time corrupt each other.
---
 include/mfmg/dealii/amge_host.templates.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 97806ac..4dbbe4b 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,6 +29,8 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <mutex>
+
 namespace mfmg
 {
 
@@ -159,6 +161,14 @@ public:
 
 namespace mfmg
 {
+// ARPACK keeps the state of a solve in static variables. The agglomerates are
+// processed in parallel, so their solves have to be serialized.
+inline std::mutex &arpack_mutex()
+{
+  static std::mutex mutex;
+  return mutex;
+}
+
 namespace
 {
 template <typename AgglomerateOperator>
@@ -433,6 +443,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
 
     // Compute the eigenvectors. Arpack outputs eigenvectors with a L2 norm of
     // one.
+    std::lock_guard<std::mutex> const lock(arpack_mutex());
     solver.set_initial_vector(initial_vector);
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
-- 
2.43.0


From 29f4bbb69741f5b6e3d6c40b45293d7ad1fb3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 23/26] fix: scale the shift of constrained dofs of LAPACK with
 the agglomerate matrix

---
 include/mfmg/dealii/amge_host.templates.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 4dbbe4b..ee7b139 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -399,8 +399,8 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   // Shift diagonal entries for constrained degrees of freedom, to avoid
   // using the corresponding eigenvectors. The shift has to be larger than all
   // the eigenvalues we are interested in.
-  double const constrained_diagonal =
-      std::max<double>(200., 2. * agglomerate_system_matrix.linfty_norm());
+  double const matrix_norm = agglomerate_system_matrix.linfty_norm();
+  double const constrained_diagonal = std::max<double>(200., 2. * matrix_norm);
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
     agglomerate_system_matrix.diag_element(constraint.index) =
@@ -472,8 +472,16 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::LAPACKFullMatrix<double> full_matrix;
     full_matrix.copy_from(agglomerate_system_matrix);
 
+    // The accuracy of LAPACK is relative to the largest entry of the matrix.
+    // Use a shift that is of the scale of the matrix.
+    double const lapack_constrained_diagonal =
+        (matrix_norm > 0.) ? 2. * matrix_norm : constrained_diagonal;
+    for (auto const constraint : agglomerate_constraints.get_lines())
+      full_matrix(constraint.index, constraint.index) =
+          lapack_constrained_diagonal;
+
     double const lower_bound = -0.5;
-    double const upper_bound = 0.75 * constrained_diagonal;
+    double const upper_bound = 0.75 * lapack_constrained_diagonal;
     // Let LAPACK choose the tolerance. An absolute tolerance that is too loose
     // for the scale of the matrix makes the inverse iteration fail.
     double const tol = 0.;
-- 
2.43.0


From d5c61a902ef853943857a8943e479740167d2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 24/26] fix: use the maximum eigenvalue given for the Chebyshev
 smoother

deal.II ignores the value unless the number of iterations that estimate it
is set to zero, so smoother.max_eigenvalue had no effect.
---
 source/dealii/dealii_matrix_free_smoother.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 6031ed3..52818a1 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -48,6 +48,8 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
             params->get_optional<double>("smoother.max_eigenvalue"))
     {
       data.max_eigenvalue = *max_eigenvalue;
+      // The given value is only used if none is estimated
+      data.eig_cg_n_iterations = 0;
     }
 
     data.preconditioner = matrix_free_operator->get_diagonal_inverse();
-- 
2.43.0


From 2b4f96b5ff6bb7d846332acb1853778eaae1c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 25/26] fix: make the Lanczos test for spurious Ritz values
 relative

With an absolute tolerance, genuine eigenpairs of operators with small entries
were dropped. A start vector that vanishes under the deflation was recognised
by that tolerance only, check for it instead.
---
 include/mfmg/common/lanczos.templates.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index ffb7494..db464ba 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -118,8 +118,15 @@ Lanczos<OperatorType, VectorType>::solve(
     if (cycle > 0)
       internal::details_set_initial_guess(initial_guess, cycle);
 
+    double const initial_norm = initial_guess.l2_norm();
     deflated_op.deflate(initial_guess);
 
+    // Only noise is left when the previous cycles have found everything
+    ASSERT_THROW(cycle == 0 ||
+                     initial_guess.l2_norm() > 1e-12 * initial_norm,
+                 "Lanczos could not compute the required number of "
+                 "eigenpairs.");
+
     std::vector<double> cycle_evals;
     std::vector<VectorType> cycle_evecs;
     std::tie(cycle_evals, cycle_evecs) = details_solve_lanczos(
@@ -363,7 +370,10 @@ Lanczos<OperatorType, VectorType>::details_calc_tridiag_epairs(
 
   // The following tolerance may need adjustment, however this doesn't
   // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12.
-  double const tol2 = 5.e-12;
+  // It is relative to the largest Ritz value: the size of the operator must not
+  // decide which eigenpairs are genuine.
+  double const tol2 =
+      5.e-12 * std::max(std::abs(evals.front()), std::abs(evals.back()));
 
   // Identify repeated eigenvalues.
   // A "marked" eigenvalue here is nonrepeated or first of a set of repeated.
-- 
2.43.0


From 65fe177ef340df2d83588ef9c1f0e53752800bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 26/26] fix: keep small entries in the matrix-free product with
 a transpose

The product of a matrix-free operator with the transpose of a matrix dropped
every entry below 1e-14, so that operators with small entries had an empty
product. Drop only what is negligible compared to the rest of the column.
---
 include/mfmg/dealii/dealii_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/dealii_utils.hpp b/include/mfmg/dealii/dealii_utils.hpp
index 76b70e6..b5d8bb7 100644
--- a/include/mfmg/dealii/dealii_utils.hpp
+++ b/include/mfmg/dealii/dealii_utils.hpp
@@ -56,6 +56,7 @@ matrix_transpose_matrix_multiply(
     std::remove_const<decltype(src)>::type dst(tmp->locally_owned_elements(),
                                                tmp->get_mpi_communicator());
     A.apply(src, dst);
+    auto const max_value = dst.linfty_norm();
 
     // NOTE: getting an error that the index set is not compressed when calling
     // IndexSet::index_within_set() directly on dst.locally_owned_elements() so
@@ -69,7 +70,8 @@ matrix_transpose_matrix_multiply(
       if (local_i != dealii::numbers::invalid_dof_index)
       {
         auto const value = dst[i];
-        if (std::abs(value) > 1e-14) // is that an appropriate epsilon?
+        // what is dropped is negligible compared to the rest of the column
+        if (std::abs(value) > 1e-14 * max_value)
         {
           C->set(i, j, value);
         }
-- 
2.43.0

