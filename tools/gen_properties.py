#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
A = "include/mfmg/common/amge.templates.hpp"
AH = "include/mfmg/dealii/amge_host.templates.hpp"
HH = "source/dealii/dealii_hierarchy_helpers.cc"
MH = "source/dealii/dealii_matrix_free_hierarchy_helpers.cc"
LZ = "include/mfmg/common/lanczos.templates.hpp"
H = "include/mfmg/common/hierarchy.hpp"
TM = "source/dealii/dealii_trilinos_matrix_operator.cc"
MF = "source/dealii/dealii_matrix_free_operator.cc"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook}})


prop("C01", "Agglomeration partitions the locally owned cells",
     "After agglomerates are built, on every rank the locally owned cells are partitioned into agglomerates numbered 1..n with n the returned count: every owned cell carries exactly one id in that range, no id is unused, and ghost or artificial cells carry 0. A rank without cells reports 0 agglomerates. This holds for the block, zoltan and metis partitioners, for zoltan and metis also on locally refined meshes.",
     ["inputs", "configurations"],
     "All small meshes (2D/3D bricks, L, disconnected, curved and locally refined meshes), all partitioners, all small block extents / agglomerate counts, 1 to 4 ranks.",
     "The tests agglomerate one or two square meshes per partitioner and compare hard-coded ids; every other combination of mesh, extent, partitioner and rank count is unexamined.",
     [A], [("build_agglomerates", A), ("build_agglomerates_block", A), ("build_agglomerates_partitioner", A)],
     ["AMGe::build_agglomerates return value", "cell user indices"])

prop("C02", "Block agglomerates are boxes of the requested extent",
     "With the block partitioner on a structured mesh, each agglomerate is contained in an axis-aligned box of at most nx by ny (by nz) cells, i.e. the configured extents in x, y and z are honoured in their own direction. On a single rank with a rectangular mesh the agglomerates are exactly the regular tiling of the domain by such boxes anchored at the lower corner, with only the last tile of a direction allowed to be smaller.",
     ["inputs", "configurations"],
     "All brick meshes up to the bound, all extents (including anisotropic, 1, larger than the mesh), 2D and 3D, 1 to 4 ranks.",
     "The tests use one extent on one uniformly refined square/cube, mostly with all extents equal, so mixed-up directions or off-by-one extents on other shapes are invisible.",
     [A], [("build_agglomerates_block", A), ("parameters nx, ny, nz", A)],
     ["cell user indices against cell centres"])

prop("C03", "Agglomeration depends only on its own parameters, not on history",
     "Building agglomerates yields the same agglomerates (same count and same cell sets) on a mesh that was already agglomerated, with the same or other parameters, as on a freshly made mesh. In particular a second hierarchy or restrictor built on the same mesh is the same as the first.",
     ["histories", "configurations"],
     "All sequences of agglomeration requests up to the depth bound over a small alphabet of parameter sets, on several meshes and rank counts.",
     "Tests only ever agglomerate a fresh triangulation once.",
     [A], [("user index as the 'already assigned' mark", A), ("_n_agglomerates", A)],
     ["cell user indices and returned count after each request", "restriction matrices of successive set-ups"])

prop("C04", "Boundary agglomerates are exactly the inner and outer halo",
     "For every agglomerate, in order of its id, the interior boundary agglomerate lists exactly the cells of the agglomerate that share a vertex with a cell outside of it, and the halo agglomerate exactly the cells outside of it that share a vertex with it, each once and in ascending cell order, ghost cells of other ranks included as outside cells. An agglomerate without neighbours gives two empty lists, and no pair of lists is dropped.",
     ["inputs", "configurations"],
     "All agglomerations in the bound of C01 and all assignments of cells of a small mesh to agglomerates.",
     "One test checks a handful of hard-coded lists on one mesh.",
     [A], [("build_boundary_agglomerates", A)],
     ["AMGe::build_boundary_agglomerates return value"])

prop("C05", "An agglomerate's mesh is a faithful copy of its cells",
     "On meshes without hanging nodes, the triangulation built for an agglomerate (by id or by an ascending list of cells) has exactly one cell per cell of the agglomerate, mapped to it one to one, with the same vertices and the same boundary ids on faces at the domain boundary. No other face carries a boundary id of the user. The dof index map then sends every dof of the agglomerate to the global dof that has the same support point, whatever the dof numbering and finite element degree.",
     ["inputs", "configurations"],
     "All agglomerates of all small meshes, partitioners and extents in the bound; every subset of cells up to the bound for the list form; FE degrees 1 to 3; boundary ids that differ from face to face.",
     "Tests look at two agglomerates of one mesh with degree 1 and uniform boundary ids.",
     [A], [("build_agglomerate_triangulation", A), ("compute_dof_index_map", A)],
     ["agglomerate triangulation, cell map, dof index map"])

prop("C06", "Restriction rows are weighted eigenvectors; weights sum to one",
     "The restriction matrix has one row per local eigenvector, ranks in order and within a rank agglomerate by agglomerate, whose entry at a global dof is the eigenvector entry there times the ratio of the agglomerate's diagonal entry to the global diagonal entry, and zero elsewhere. For the dofs of the restrictor set up from an assembled problem whose agglomerate matrices add up to the global one, these ratios sum to one over all agglomerates of all ranks. When the split form is requested, the eigenvector matrix holds the unweighted eigenvectors and restriction equals eigenvector plus delta matrix.",
     ["inputs", "configurations"],
     "All small agglomerations, all numbers of eigenvectors per agglomerate in the bound (also different from agglomerate to agglomerate), all dof maps, 1 to 4 ranks including ranks without agglomerates.",
     "One test assembles one matrix on one fixed mesh with a uniform number of eigenvectors and constant weights.",
     [A, AH, "include/mfmg/dealii/dealii_utils.hpp"],
     [("compute_restriction_sparse_matrix (both overloads)", A), ("compute_restriction_sparsity_pattern", A), ("setup_restrictor", AH), ("copy_local_to_global", AH)],
     ["entries of the restriction, eigenvector and delta matrices"])

prop("C07", "Operators form one consistent algebra of linear maps",
     "An operator applied in normal or transposed mode computes A x or A^T x of its matrix; transpose, multiply and multiply_transpose return the operators A^T, A B and A B^T (the matrix-free product may leave out entries that are zero up to rounding), and none of these alters its operands. Domain and range vectors built by an operator are zero, have its dimensions and parallel layout, and fit its application in either mode. Matrix-free and assembled operators of the same map agree on everything both provide, and the diagonal inverse and the size queries report the represented matrix.",
     ["inputs", "histories"],
     "All matrices of small dimensions (square and rectangular, empty rows, ranks owning nothing) from an enumerated family, all pairs of compatible operands, all unit vectors and all operation sequences up to the bound, 1 to 4 ranks.",
     "Tests touch apply and multiply on one Laplace matrix; transposed mode, rectangular layouts and operand preservation are not examined.",
     [TM, "source/dealii/dealii_matrix_operator.cc", MF, "include/mfmg/dealii/dealii_utils.hpp", "source/dealii/dealii_utils.cc"],
     [("DealIITrilinosMatrixOperator", TM), ("DealIIMatrixOperator", "source/dealii/dealii_matrix_operator.cc"), ("DealIIMatrixFreeOperator", MF), ("matrix transpose / product helpers", "source/dealii/dealii_utils.cc")],
     ["Operator interface: apply, transpose, multiply, multiply_transpose, build_*_vector, sizes"])

prop("C08", "fast_ap computes the same operator as A times R transposed",
     "With \"fast_ap\" enabled the operator obtained as the product of the system matrix with the transposed restriction is the same, up to the tolerance of the eigensolver, as the explicit product, and the restriction itself is unchanged, in both the assembled and the matrix-free mode. This holds for every mesh, agglomeration, coefficient, boundary condition, number of eigenvectors and number of ranks for which the user's evaluator gives each patch of cells the constraints the global problem has on it (Dirichlet faces meeting no patch in a vertex only). The preconditioner built with fast_ap therefore acts as the one built without.",
     ["inputs", "configurations", "schedules"],
     "All small meshes (also disconnected ones and agglomerates without neighbours), block and graph agglomerations, 1..k eigenvectors, coefficients, 1 to 4 ranks.",
     "One test compares fast_ap and the explicit product on one square mesh with few configurations.",
     [HH, MH, A, AH],
     [("eigenvector scaling + delta correction over interior and halo agglomerates", HH), ("same, matrix-free", MH), ("fast_multiply_transpose", HH)],
     ["HierarchyHelpers::fast_multiply_transpose vs multiply_transpose", "Hierarchy::vmult"])

prop("C09", "The hierarchy is the two-grid method its parameters define",
     "Whenever the coarse operator is nonsingular, applying the hierarchy computes exactly the configured multigrid cycle: the configured number of pre-smoothing steps, coarse correction x - R^T Ac^-1 R (A x - b) with Ac = R A R^T, the same number of post-smoothing steps. As a preconditioner the result depends on b alone, not on the incoming x; in standalone mode the incoming x is the start value, and an exact solution is a fixed point. The right-hand side is never modified, and the same holds on every number of ranks, with the agglomerates of that distribution.",
     ["inputs", "configurations"],
     "All combinations of small meshes, agglomerations, eigenvector counts, smoother types, numbers of smoothing steps, coarse solvers, preconditioner/standalone mode and 1 to 4 ranks (also ranks without cells), every unit vector as b and as x.",
     "The tests compare convergence rates with stored reference values at few parameter points; they cannot tell a wrong cycle that still converges.",
     [H, "include/mfmg/common/level.hpp", HH, MH],
     [("Hierarchy constructor", H), ("Hierarchy::apply / vmult", H), ("Level::build_vector", "include/mfmg/common/level.hpp")],
     ["Hierarchy::apply and vmult"])

prop("C10", "A set-up hierarchy is an immutable, reusable linear map",
     "Applying a hierarchy any number of times, through either entry point, interleaved with applications to other vectors or of other hierarchies, always gives the same result for the same input, and as a preconditioner it is linear at every scale and, with a symmetric smoother and a direct coarse solver, symmetric positive definite for a symmetric positive definite problem whose coarse operator is nonsingular. Building or destroying another hierarchy, even on the same mesh, changes nothing for the existing one. The caller's parameters keep their meaning.",
     ["histories", "inputs"],
     "All sequences up to the depth bound of build / apply / destroy operations over several configurations and vectors.",
     "Tests build one hierarchy and use it inside one solve.",
     [H, "source/dealii/dealii_smoother.cc", "source/dealii/dealii_solver.cc"],
     [("Hierarchy::apply", H), ("smoother and solver state", "source/dealii/dealii_smoother.cc")],
     ["Hierarchy::apply / vmult"])

prop("C11", "Local eigenpairs are the lowest ones of the agglomerate",
     "For every agglomerate and each available eigensolver, the requested number of pairs returned are eigenpairs of the agglomerate's system matrix up to that solver's tolerance, ascending and real, with mutually orthogonal eigenvectors of unit norm, and they belong to the smallest eigenvalues; a solver may refuse by an exception, and an eigenvalue that is repeated, or that the start vector has no component for, may be found fewer times than its multiplicity by the Krylov solvers (arpack, lanczos, anasazi). Constrained dofs do not contribute eigenvectors: entries at constrained dofs are zero as long as there are enough others. The returned diagonal and dof map are those of the agglomerate matrix, unshifted.",
     ["inputs", "configurations"],
     "All agglomerates of the small meshes in the bound, coefficients, boundary conditions, every solver (arpack, lapack, lanczos, anasazi; matrix-free and assembled) and every admissible number of eigenvectors.",
     "Tests check two meshes with a constant coefficient against stored numbers.",
     [AH, "include/mfmg/dealii/anasazi.templates.hpp", LZ],
     [("compute_local_eigenvectors", AH), ("diagonal shift and un-shift", AH)],
     ["AMGe_host::compute_local_eigenvectors return values"])

prop("C12", "Lanczos returns the lowest eigenpairs of a symmetric operator",
     "For a symmetric operator and a start vector that is not deficient in the wanted eigenvectors, Lanczos returns exactly the requested number of pairs, ascending, with unit eigenvectors whose residuals satisfy the requested tolerance, and these are the lowest eigenvalues (it refuses by an exception if it cannot); when the iteration limit ends it before that, the pairs are the lowest Ritz pairs of the Krylov space of as many dimensions. With deflation cycles the results of the cycles are merged in ascending order, pairs kept together, also for multiple eigenvalues. The operator and the initial guess are not modified.",
     ["inputs", "configurations"],
     "All small symmetric matrices of an enumerated family (distinct, repeated, clustered, indefinite spectra), all admissible numbers of pairs, overshoots, iteration caps, deflation cycles, and start vectors.",
     "Tests run Lanczos on one diagonal operator with a fixed multiplicity.",
     [LZ, "include/mfmg/common/lanczos.hpp"],
     [("solve", LZ), ("details_solve_lanczos", LZ), ("details_check_convergence / details_calc_evecs", LZ)],
     ["Lanczos::solve return values"])

prop("C13", "The deflated operator is the projected operator",
     "With a set of deflation vectors, applying the deflated operator to a vector that has no component along them computes (I-P) A x where P is the orthogonal projector on the span of all deflation vectors added so far, in any order and number of additions, vectors that depend on earlier ones adding nothing. Deflating a vector leaves no component along that span and changes nothing else. Sizes are those of the base operator.",
     ["histories", "inputs"],
     "All sequences of additions (in any grouping, with near-parallel but independent vectors and arbitrary scaling) up to the bound, small symmetric operators, all unit vectors.",
     "Only exercised indirectly through one deflated Lanczos test.",
     ["include/mfmg/common/lanczos_deflatedop.templates.hpp", "include/mfmg/common/lanczos_deflatedop.hpp"],
     [("add_deflation_vecs", "include/mfmg/common/lanczos_deflatedop.templates.hpp"), ("apply / deflate", "include/mfmg/common/lanczos_deflatedop.templates.hpp")],
     ["DeflatedOperator::vmult, deflate"])

prop("C14", "Multi-vectors satisfy the block-vector contract of the eigensolver",
     "The multi-vector operations handed to the block eigensolver obey its documented contract: clones are deep or sized copies, views share storage with the right columns, and scaled sums, block products, inner products, norms, assignments and initialisation give the mathematical result for every shape and every column selection, including outputs that alias an input. The block eigensolver then returns the requested number of lowest eigenpairs in ascending order, or throws.",
     ["inputs", "histories"],
     "All shapes up to the bound, all column index selections, all coefficient values in {0, 1, -1, general}, all aliasing patterns; all operation sequences up to the bound against a dense model.",
     "One test runs LOBPCG on one matrix; the individual operations are not tested for aliasing, views or special coefficients.",
     ["include/mfmg/dealii/anasazi_traits.hpp", "include/mfmg/dealii/belos_traits.hpp", "include/mfmg/dealii/multivector.hpp", "include/mfmg/dealii/anasazi.templates.hpp"],
     [("Anasazi::MultiVecTraits", "include/mfmg/dealii/anasazi_traits.hpp"), ("Belos::MultiVecTraits", "include/mfmg/dealii/belos_traits.hpp"), ("AnasaziSolver::solve", "include/mfmg/dealii/anasazi.templates.hpp")],
     ["MultiVecTraits static functions", "AnasaziSolver::solve"])

prop("C15", "Solver parameters reach the solver package unchanged",
     "Converting a user's parameter tree to a solver parameter list gives a list with the same nesting, names and values: each leaf becomes a parameter of boolean, integer, floating point or string type according to its text, empty trees give empty lists, and nothing is lost, reordered in meaning or added. This holds for every name and text a parameter file can contain.",
     ["inputs"],
     "All trees up to the bound over an alphabet of names and values, including characters special to the intermediate format.",
     "One test converts one tree.",
     ["source/common/utils.cc", "include/mfmg/common/utils.hpp"],
     [("ptree2plist", "source/common/utils.cc")],
     ["ptree2plist result"])

prop("C16", "Sorting by permutation keeps values and companions together",
     "Sorting a sequence by permutation returns a permutation of its indices that orders it by the given comparison, and applying that permutation in place to any companion sequence moves every element exactly as the out-of-place application would, with no element lost or duplicated.",
     ["inputs"],
     "All sequences (with repetitions) up to the length bound and all permutations up to the length bound.",
     "One test sorts one short sequence.",
     ["include/mfmg/common/utils.hpp"],
     [("sort_permutation", "include/mfmg/common/utils.hpp"), ("apply_permutation_in_place", "include/mfmg/common/utils.hpp")],
     ["sort_permutation, apply_permutation_in_place"])

prop("C17", "Matrix-free and assembled set-ups of one problem agree",
     "For the same problem and parameters, the matrix-free path and the assembled path produce the same agglomerates, restriction spaces, coarse operators and preconditioner wherever both support the configuration. The matrix-free path uses only the user's evaluator and never needs the assembled matrix.",
     ["inputs", "configurations"],
     "All small meshes, coefficients, boundary conditions, eigensolvers, fast_ap on and off, 1 to 4 ranks.",
     "Tests compare iteration behaviour of the two modes separately with stored values.",
     [MH, MF, "source/dealii/dealii_matrix_free_smoother.cc", AH],
     [("DealIIMatrixFreeHierarchyHelpers", MH), ("DealIIMatrixFreeOperator", MF), ("DealIIMatrixFreeSmoother", "source/dealii/dealii_matrix_free_smoother.cc")],
     ["restrictor, coarse operator and hierarchy application of both modes"])

prop("C19", "The set-up result does not depend on task scheduling",
     "The restriction, the fast product and the preconditioner are the same, up to the tolerance of the eigensolver, for every order in which the parallel set-up tasks run, every assignment of tasks to reused scratch and copy objects, and every interleaving of concurrently running tasks. No task's result depends on which task used its buffers before.",
     ["schedules"],
     "All task orders and all buffer assignments for up to the bounded number of agglomerates; all interleavings of two or three workers at the user callbacks up to the preemption bound.",
     "The tests run with one thread, where only one schedule occurs.",
     [AH, HH, MH, "source/dealii/dealii_mesh_evaluator.cc"],
     [("WorkStream worker/copier of setup_restrictor", AH), ("WorkStream worker/copier of fast_ap", HH), ("same, matrix-free", MH)],
     ["restrictor and fast_ap operators for each schedule"])

prop("C20", "Invalid configurations are refused, valid spellings accepted",
     "A parameter value that names no available partitioner, smoother, coarse solver or eigensolver, a number of levels other than one or two, a required parameter that is missing, or an eigensolver or hierarchy the mode does not provide, is rejected by an exception instead of being silently ignored or replaced; the preconditioner is never built from it. Partitioner, smoother and coarse solver names are accepted in any letter case with the same meaning. An operation an operator does not provide throws instead of returning a wrong result.",
     ["configurations", "inputs"],
     "Every configuration option in turn set to each of its valid spellings and to each of a set of invalid ones, in both modes, in release builds.",
     "Tests check two or three exceptions.",
     [A, AH, "source/dealii/dealii_smoother.cc", "source/dealii/dealii_solver.cc", "source/dealii/dealii_matrix_free_smoother.cc", MF, H],
     [("build_agglomerates", A), ("eigensolver type dispatch", AH), ("smoother type dispatch", "source/dealii/dealii_smoother.cc"), ("solver type dispatch", "source/dealii/dealii_solver.cc")],
     ["exceptions of constructors and calls"])

prop("C21", "Written files describe exactly the data that was written",
     "The agglomerate output writes one mesh file per rank, holding for every owned cell its agglomerate id and subdomain, and one master record that references each of these files exactly once. The matrix-market export writes every nonzero entry of a matrix exactly once, every entry of a vector, with one-based indices and the right header, so that reading it back gives the same data.",
     ["inputs", "configurations"],
     "All small meshes, agglomerations and 1 to 4 ranks; all small matrices of an enumerated family including rectangular ones, empty rows and extreme values.",
     "The output functions are called by no test that reads the files back.",
     [A, "source/dealii/dealii_utils.cc", "include/mfmg/dealii/dealii_utils.hpp"],
     [("AMGe::output", A), ("matrix_market_output_file", "include/mfmg/dealii/dealii_utils.hpp")],
     ["files on disk"])

prop("C22", "A smoother application is one step of the configured iteration",
     "Applying a smoother replaces x by x + M^-1 (b - A x) for the configured method and its parameters (symmetric or plain Gauss-Seidel, Jacobi, ILU, Chebyshev), with x as start value, and changes neither b nor the matrix. An exact solution is left unchanged, and the step has no memory of previous applications.",
     ["inputs", "configurations", "histories"],
     "All small matrices of an enumerated family, all smoother types and their parameter values in the bound, every unit vector as x and b, repeated applications, 1 to 4 ranks.",
     "Smoothers are only exercised inside convergence tests.",
     ["source/dealii/dealii_smoother.cc", "source/dealii/dealii_matrix_free_smoother.cc"],
     [("DealIISmoother", "source/dealii/dealii_smoother.cc"), ("DealIIMatrixFreeSmoother", "source/dealii/dealii_matrix_free_smoother.cc")],
     ["Smoother::apply"])

prop("C23", "The coarse solver solves its system with the user's settings",
     "The direct coarse solver returns A^-1 b for every nonsingular matrix, whatever x contained, and repeated solves are independent of each other. The algebraic multigrid coarse solver starts from the package's smoothed-aggregation defaults with the user's parameters taking precedence, so one application contracts the error of a symmetric positive definite system; neither modifies b, and parameters the user gave are all passed on.",
     ["inputs", "configurations", "histories"],
     "All small nonsingular matrices of an enumerated family, both solver types, parameter sets in the bound, all unit vectors, solve sequences, 1 to 4 ranks.",
     "Coarse solvers are only exercised inside convergence tests with one parameter set.",
     ["source/dealii/dealii_solver.cc", "include/mfmg/dealii/dealii_solver.hpp"],
     [("DealIISolver constructor and apply", "source/dealii/dealii_solver.cc")],
     ["Solver::apply"])

prop("C24", "Evaluator helpers give the global diagonal and an admissible start",
     "The diagonal a mesh evaluator reports is, on every rank and for every locally relevant dof (ghosts included), the sum of the agglomerate-independent cell contributions the restriction weights need, i.e. the diagonal of the assembled matrix. The initial guess it provides for the local eigenproblems is zero at constrained dofs, nonzero at all others, lies in the constrained space, and is the same every time for the same agglomerate. Evaluators report their dimension and kind correctly.",
     ["inputs", "configurations", "histories"],
     "All small meshes, boundary conditions, coefficients, hanging nodes where supported, 1 to 4 ranks, repeated calls in any order.",
     "The tests call these functions on one mesh only as part of a larger set-up.",
     ["source/dealii/dealii_mesh_evaluator.cc", "source/dealii/dealii_matrix_free_mesh_evaluator.cc"],
     [("get_diagonal", "source/dealii/dealii_mesh_evaluator.cc"), ("set_initial_guess", "source/dealii/dealii_mesh_evaluator.cc")],
     ["get_diagonal, set_initial_guess, get_dim, get_mesh_evaluator_type"])

prop("C25", "The GPU back end computes what the host back end computes",
     "For the same problem and parameters, agglomerates, eigenpairs, restriction, operators, smoother, coarse solver and preconditioner of the CUDA back end agree with those of the host back end up to rounding.",
     ["inputs", "configurations"],
     "All small meshes, parameters and matrices.",
     "The device tests need a GPU and check single points.",
     ["include/mfmg/cuda", "source/cuda"],
     [("CUDA counterparts of the host classes", "include/mfmg/cuda")],
     ["device classes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
