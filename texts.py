"""What one execution is and what is enumerated, per property (goes to the
evidence files)."""
_M = ("2D bricks up to 4x4 (7x1, 5x3), refined bricks and squares, 3D bricks up to 12 cells and 3x3x3, "
      "L, discs, ball, shell, cross and cheese shapes, stretched, tiny, huge and shifted bricks, some of up to 300 cells")
_P = "block extents 1..4 per direction in 2D and 1..3 in 3D (plus one larger than the mesh)"
_G = "zoltan and metis with several requested numbers of agglomerates"
TEXT = {
    "C01": ("one execution per mesh, partitioner with parameters, and number of ranks; ids and count of build_agglomerates on every rank against the partition axioms",
            _M + ", locally refined meshes for the graph partitioners; " + _P + "; " + _G + "; 1-4 ranks",
            "bricks up to 6x6 and 4x4x4, two to four refinements, block extents up to 6, ten graph sizes; 1-4 ranks"),
    "C02": ("one execution per brick mesh, extents and number of ranks; cell indices of every agglomerate against a box, on one rank against the tiling",
            "2D bricks up to 4x4, 7x1, 5x3, refined 3x3, squares up to 8x8, 3D bricks up to 3x3x3, refined 2x1x1, some of up to 300 cells, stretched, tiny, huge and shifted ones; " + _P + "; 1-4 ranks",
            "bricks up to 6x6 and 4x4x4, extents up to 6; 1-4 ranks"),
    "C03": ("one execution per history of agglomeration requests on one mesh (each prefix is a state); cells of every agglomerate against a fresh mesh, and against the result of the same request in every other history and process",
            "all histories of up to 3 requests out of 7 (block, zoltan, metis with various parameters, and a refinement of the mesh after one of them), on the same or a new AMGe object, small meshes and meshes of up to 256 cells; each process walks the tree from one end or from the other; 1-4 ranks",
            "histories of up to 4 requests out of 8; 1-4 ranks"),
    "C04": ("one execution per mesh with partition, or per assignment of ids to cells; both lists of every agglomerate against a quadratic reference on shared vertices",
            "the meshes and partitions of C01 on 1-4 ranks; in addition all assignments of 1-3 ids to the cells of meshes of up to 9 cells on one rank; the same object again after another partition, and after a refinement",
            "larger meshes; all assignments on larger meshes"),
    "C05": ("one execution per mesh, partition or cell list, boundary ids, degree and numbering; vertices, faces, ids and dof map against the global mesh",
            "bricks, squares, L, disc, ball, shell, cross, 3D; all nonempty ascending cell lists of meshes of up to 9 cells; boundary ids dirichlet, one side, distinct (up to five digits), every set of sides nonzero; the same object after other ids, another partition, a refinement; degrees 1-3; two numberings; stretched, tiny, huge and larger meshes; 1-4 ranks",
            "larger meshes, more degrees"),
    "C06": ("one execution per mesh, partition, pattern of eigenvector counts and diagonal (direct assembly of the matrices), and per problem (restrictor set up with LAPACK); every entry of R, E and D against the reference",
            "eigenvectors of size 1, 1e-18 and 1e15, all patterns of 1-3 vectors per agglomerate on small meshes, up to 20 vectors per agglomerate on larger ones; problems with 5 coefficients (scales 1e-20 to 1e20), 3 boundary conditions, 5 agglomerations, 1-2 vectors; 1-4 ranks",
            "degree 2, larger meshes"),
    "C07": ("one execution per matrices, layouts of rows and columns over the ranks, and operation, and per sequence of operations; against dense algebra",
            "all distributions of the rows of matrices up to 4x4 over 1-4 ranks, all 0/1/2.5 matrices up to 6 entries, 8 patterns, sequences of 3 operations out of 7; serial matrices; matrix-free operators of small problems with 6 coefficients (scales 1e-20 to 1e20); matrices of up to 130 rows with scales 1e-9 to 1e8",
            "all entries up to 9, sequences of 4, larger products"),
    "C08": ("one execution per problem, solver and number of eigenvectors; the fast product, the explicit product, the restriction of both paths and the coarse matrices against dense algebra",
            "14 meshes in 2D and 3D, 5 agglomerations, 3 boundary conditions, 3 coefficients (for LAPACK and ARPACK also scaled by 1e-20 and 1e8), 4 assembled and 2 matrix-free eigensolvers, 1-3 eigenvectors, solver options, degrees 1-2; five bigger problems (up to 132 dofs, 12 agglomerates, 3-7 eigenvectors, stretched cells); 1-4 ranks",
            "up to 4 eigenvectors, more meshes"),
    "C09": ("one execution per problem and configuration of the hierarchy (one application each to several right-hand sides and start values); against a dense model of the cycle",
            "10 meshes, agglomerations, boundary conditions, assembled and matrix-free, fast_ap, 5 smoothers, 0-2 steps or not given, coarse direct/ml/not given, 1-2 levels or not given, preconditioner or standalone or not given; deviations from the usual configuration one at a time; options of the Chebyshev smoother, four lists for ML, a timer; five bigger problems with up to 7 steps and 3 eigenvectors; 1-4 ranks",
            "all combinations, 3 coefficients"),
    "C10": ("one execution per history of up to 4 operations (build, destroy, apply through either entry point) on three hierarchies, and one per configuration for linearity, symmetry and definiteness; against the first results and dense algebra",
            "all histories up to length 4, two sets of configurations, assembled and matrix-free, 2D and 3D; parameters that the caller changes after set-up; scales of vectors 1e-130 to 1e60; 1-2 ranks",
            "all histories up to length 5"),
    "C11": ("one execution per problem, eigensolver and number of pairs, over all agglomerates; residuals, order, norms and position in the spectrum against a Jacobi eigensolver",
            "14 meshes, 5 agglomerations, 3 boundary conditions, degrees 1-2, 7 coefficients (scales 1e-20 to 1e8 where the solver has no absolute tolerance), 5 assembled and 3 matrix-free solver choices and their options, 1-3 pairs; five bigger problems (agglomerates of up to 132 dofs, 4-10 pairs); 1-2 ranks",
            "1-7 pairs"),
    "C12": ("one execution per spectrum, basis, start vector and options; residuals, order and position in the exact spectrum",
            "all spectra over an alphabet of eigenvalues (repeated, clustered, negative) of orders up to 5, 5 bases, start vectors, tolerances 1e-9..1e-2, overshoot 5-99 %, tridiagonal operators up to order 10, up to 3 deflation cycles of up to 3 pairs; orders up to 60 with scales 1e-6 to 1e6 and with deflation; iteration limits that are reached before convergence (lowest Ritz pairs of the Krylov space)",
            "orders up to 7 and 16"),
    "C13": ("one execution per history of deflations with vectors of {-1,0,1}^n (scaled); operator and projector against dense projections",
            "orders up to 4, all vectors, up to 2 vectors per step, scales 1, 1e-3, 1e6 of the directions and 1e-18 to 1e18 of the vectors, three operators; histories of up to 4 batches of vectors of larger order from a pool",
            "orders up to 5"),
    "C14": ("one execution per sequence of multi-vector operations on vectors and views that may alias; against a model with explicit storage. Runs of LOBPCG against a Jacobi eigensolver",
            "two operations out of 16 with all arguments, entries of size 1 and 1e-20, lengths 1, 2, 4, 1-3 columns; wide multi-vectors (9 and 17 columns, lengths 33 and 70); matrices of order up to 24, 1-4 pairs",
            "three operations, larger matrices"),
    "C15": ("one execution per parameter tree; the converted list against the tree",
            "all trees of bounded shape over alphabets of values (booleans, integers, floats, near misses, XML special characters) and names, prefilled lists",
            "deeper trees"),
    "C16": ("one execution per sequence, or per permutation; against out-of-place application",
            "all sequences over 2-3 keys of length up to 5, families of long ones, all permutations of up to 7 elements",
            "length up to 6 and 8"),
    "C17": ("one execution per problem, solver and number of eigenvectors, set up twice; agglomerates, spans of restriction rows, coarse operators and applications compared",
            "14 meshes, 5 agglomerations, 3 boundary conditions, 3 coefficients, lanczos and anasazi with their options, 1-2 eigenvectors, degrees 1-2, five bigger problems, with and without fast_ap; 1-3 ranks",
            "1-3 eigenvectors"),
    "C19": ("one execution per schedule of the set-up tasks under a controlled scheduler (deal.II's WorkStream replaced); the restriction and the product against the serial schedule",
            "9 problems, all solver choices; all orders of workers and copiers with all assignments of scratch and copy objects for up to 3-4 tasks; all interleavings with at most 1 preemption at the instrumented functions of mfmg for 2-3 tasks (8 slices); 8 fixed schedules on 2 ranks",
            "2 preemptions, three repeats, four tasks"),
    "C20": ("one execution per configuration with one invalid or unusually spelt value, or per operation that is not provided; must throw, or have the result of the usual spelling",
            "lists of invalid names for each option, all combinations of letter case of the valid names, missing parameters, levels -1..3, unsupported combinations, operations and evaluators; assembled and matrix-free",
            "the same"),
    "C21": ("one execution per mesh and partition, or per matrix or vector; the files are parsed back and compared",
            "meshes of C01 (subset), names, serial matrices up to 4x4 with all layouts of the entries, values over 600 orders of magnitude, matrices of up to 101 x 60; 1-4 and 11 ranks",
            "up to 5x5"),
    "C22": ("one execution per matrix, layout and smoother (several applications each); against a dense model of the iteration",
            "matrices of order up to 5, order 40, scales 1e-9 to 1e8 (vectors 1e-80 to 1e80), up to 24 layouts over 1-4 ranks, all smoothers in three spellings; assembled problems; Chebyshev with degrees 0-3, ranges, eigenvalue bounds and given maximum eigenvalues against a dense polynomial",
            "order up to 6, 60 layouts, degree 4"),
    "C23": ("one execution per matrix, layout and configuration (several solves each); against dense elimination and against ML set up with the expected list",
            "all matrices of order up to 3 over 3 values, patterns of order up to 5 with scales 1e-6..1e6 (right-hand sides 1e-80 to 1e80), up to 20 layouts, orders 30 and 150; grids up to 14x14 for ML with 8 lists of parameters; 1-4 ranks",
            "order up to 6, 60 layouts"),
    "C24": ("one execution per problem; diagonal and initial guess on every rank against the assembled matrix",
            "small meshes in 2D and 3D, 3 boundary conditions, 5 coefficients (scales 1e-20 to 1e20), degrees 1-2, all agglomerates; all constraint sets on up to 6 dofs; stretched and bigger meshes, vectors of up to 3000 entries; 1-4 ranks",
            "larger meshes, up to 8 dofs"),
}
