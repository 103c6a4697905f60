prop('C15', 'Heat, advection, reaction-diffusion and flow element equations',
 'For every geometry, velocity and pressure state, coefficient and time step, the element matrices and residuals of the heat transfer, advection (with streamline and shock capturing stabilisation), reaction-diffusion, Stokes, Navier-Stokes (stabilised, consistent, decoupled, adjoint) and Brinkman equations equal the quadrature of their weak forms, also at points where the velocity vanishes. Tangents are the derivatives of the residuals they belong to, and velocity and pressure rows are mapped to the right degree of freedom of the right node.',
 ['inputs', 'configurations'], 'all nodal coordinates, states, coefficients, velocity/pressure element pairs', WHY % 'one cavity or channel per equation at one Reynolds number', [SRC + 'FEM/Equation/HeatTransfer.h', SRC + 'FEM/Equation/Advection.h', SRC + 'FEM/Equation/ReactionDiffusion.h', SRC + 'FEM/Equation/Stokes.h', SRC + 'FEM/Equation/NavierStokes.h'],
 [dict(name='flow and transport element integrators', where='src/FEM/Equation/*.h')], note='symbolic identities where they fit, identity testing at generic points over GF(2^61+24039) otherwise; the same spec is replayed in floating point', technique=GENP)
prop('C16', 'Mass, load, area, centroid and interpolation integrals of elements',
 'For every geometry and field, the consistent mass matrices, body forces, surface forces, element areas, volumes, centres of gravity, weak springs, line integrals and interpolated nodal or elemental values and gradients equal the quadrature (or interpolation) they stand for. Each contribution is mapped to the right degree of freedom of the right node.',
 ['inputs', 'configurations'], 'all nodal coordinates, nodal fields, node numberings and element/quadrature pairs', WHY % 'uniform fields on rectangular meshes', [SRC + 'FEM/Equation/General.h', SRC + 'FEM/Equation/Numeric.h', SRC + 'FEM/Equation/PlaneStrain.h', SRC + 'FEM/Equation/Solid.h'],
 [dict(name='mass/load/interpolation integrators', where='src/FEM/Equation/General.h, Numeric.h')], note='identities as for the stiffness matrices; weak springs for every number of nodes', technique=GENP)
prop('C04', 'Sparse matrices behave as the matrix they store',
 'Whatever sequence of element writes and reads, a sparse matrix (the assembly format and the compressed format) returns the last value written at each position and zero elsewhere, keeps its columns strictly sorted inside the matrix, and a write changes no other entry. Conversion between the formats, multiplication by a vector, sums, differences and scalings give the result of the same operation on the dense matrix.',
 ['inputs', 'histories'], 'all sizes, sparsity patterns, values and write orders', WHY % 'only the patterns of a few meshes, assembled in one order', [SRC + 'LinearAlgebra/Models/LILCSR.h', SRC + 'LinearAlgebra/Models/CSR.h'],
 [dict(name='LILCSR and CSR', where='src/LinearAlgebra/Models/LILCSR.h, CSR.h')], note='element access, products and representation invariant for all sizes; sums, differences and format conversions for bounded shapes with symbolic columns and values', technique=SYM + ' (quantified facts)')
prop('C09', 'Degree of freedom numbering and boundary conditions',
 'For every mesh and every list of constraints, numbering gives the free degrees of freedom consecutive numbers in node order, leaves constrained ones unnumbered, and returns how many unknowns there are. Prescribing values marks exactly the listed degrees of freedom and stores the last listed value, periodic pairs share one number per degree of freedom, and removing the conditions frees everything.',
 ['inputs'], 'all numbers of nodes, all (also unequal) numbers of degrees of freedom per node, all constraint lists', WHY % 'meshes where every node has the same degrees of freedom', [SRC + 'FEM/Controller/BoundaryCondition.h'],
 [dict(name='Renumbering, SetDirichlet, SetPeriodic, RemoveBoundaryConditions', where='src/FEM/Controller/BoundaryCondition.h')], note='all sizes; periodic pairs for every list in which no node is second twice or both first and second', technique=SYM + ' (quantified facts)')
prop('C10', 'Assembly adds each element contribution exactly once',
 'For every mesh, degree of freedom table and element matrix, assembling adds each element entry between two free degrees of freedom to exactly their global row and column, moves the columns of prescribed degrees of freedom times their value to the right hand side, adds prescribed forces to free degrees of freedom only, and changes nothing else. Disassembling puts the solution into exactly the free degrees of freedom of the nodal vectors and keeps the prescribed ones.',
 ['inputs'], 'all meshes, numberings, element matrices, interpolation mixes, prescribed values', WHY % 'single-field meshes where a swapped row and column cancels by symmetry', [SRC + 'FEM/Controller/Assembling.h'],
 [dict(name='Assembling (all overloads), Disassembling', where='src/FEM/Controller/Assembling.h')], note='proved for all sizes against the sparse matrix contract established under the sparse matrix property', technique=SYM + ' (quantified facts, callee contracts)')
prop('C17', 'Structured meshes are consistent: nodes, elements, edges, constraints',
 'For every subdivision and every dimension, the rectangle (uniform, graded and second order), annulus, rectangle with rectangular or circular hole, rectangle with cells cut out and ground structure generators place their nodes where the geometry says, list every cell once with its nodes counterclockwise, and trace the boundary in order. Constraint lists and selections contain exactly the nodes, elements or edges whose own coordinates satisfy the predicate, each listed degree of freedom once with value zero.',
 ['inputs', 'configurations'], 'all dimensions, all subdivisions, all predicates on coordinates', WHY % 'a few even subdivisions', [SRC + 'PrePost/Mesher/SquareMesh.h', SRC + 'PrePost/Mesher/AnnulusMesh.h', SRC + 'PrePost/Mesher/SquareAnnulusMesh.h', SRC + 'PrePost/Mesher/SquareCircleAnnulusMesh.h', SRC + 'PrePost/Mesher/GrandStructure.h'],
 [dict(name='GenerateNodes/Elements/Edges/Fixedlist of the mesh classes', where='src/PrePost/Mesher/*.h')], note='nodes, elements, edges and constraint lists for all subdivisions; the constraint list of the graded rectangle, selections and ground structure bars for listed subdivisions with symbolic dimensions', technique=SYM)
prop('C18', 'Density, projection and sensitivity filters',
 'For every neighbourhood, positive weights and design, the filtered variables are the weighted means of the neighbouring variables (followed by the smoothed step of the current steepness for the projection filter), and the filtered sensitivities are the weighted means of the neighbouring sensitivities with the scaling of their scheme. Where neighbourhoods are symmetric with equal weight sums, the filtered sensitivities are the exact gradient of the filtered objective.',
 ['inputs'], 'all neighbourhoods, weights, designs, sensitivities and steepness values', WHY % 'one filter on one mesh', [SRC + 'Optimize/Filter/DensityFilter.h', SRC + 'Optimize/Filter/HeavisideFilter.h', SRC + 'Optimize/Filter/SensitivityFilter.h'],
 [dict(name='DensityFilter, HeavisideFilter, SensitivityFilter, SensitivityFilter2', where='src/Optimize/Filter/*.h')], note='formulas for all sizes; exactness of the gradient for rings of 3 to 5 variables with symbolic weights', technique=SYM)
prop('C06', 'Krylov solvers return a vector that meets the requested tolerance',
 'For every nonsingular system and right hand side (zero included), whenever a conjugate gradient or stabilised biconjugate gradient solver (plain, scaled, incomplete-LU or SOR preconditioned) stops before its iteration limit, the true residual of the returned vector is within the tolerance relative to the right hand side. The vector and the tracked residual stay consistent at every iteration, the conjugate gradient variants keep search directions conjugate, the iterates are those of the method, and matrix and right hand side are left unchanged.',
 ['inputs', 'histories'], 'all sizes, matrices, right hand sides, preconditioners, tolerances and iteration counts', WHY % 'one 3x3 or one finite element system per solver', [SRC + 'LinearAlgebra/Solvers/CG.h'],
 [dict(name='CG, ILU0CG, ScalingCG, SORCG, BiCGSTAB, BiCGSTAB2, ILU0BiCGSTAB, ScalingBiCGSTAB and their vector kernels', where='src/LinearAlgebra/Solvers/CG.h')], note='inductive invariants over all sizes and iterations in exact arithmetic, with the matrix product and the preconditioner as linear maps; first three iterates at generic points; breakdown by a vanishing inner product excluded', technique='loop invariants over linear operators, discharged by polynomial identity testing and SMT; callee contracts for product and preconditioner')
prop('C07', 'Preconditioners solve with their incomplete factors',
 'For every sparse matrix with stored diagonal, the zero fill-in incomplete factorisation keeps the sparsity pattern and returns unit lower and upper factors whose product equals the matrix at every stored position. Applying the preconditioner returns the vector for which the product of the stored factors equals the right hand side; diagonal scaling divides by the stored diagonal; and each relaxation sweep produces the successive over-relaxation iterate, stopping early only when the summed relative change is below the tolerance.',
 ['inputs'], 'all sizes for the diagonal; every sparsity pattern of up to three rows and random ones of up to six with generic values for the rest', WHY % 'one finite element matrix', [SRC + 'LinearAlgebra/Solvers/CG.h'],
 [dict(name='ILU0, PreILU0, GetDiagonal, Scaling, SOR', where='src/LinearAlgebra/Solvers/CG.h')], note='factorisation and sweeps are decided per sparsity pattern at generic values (bounded in the pattern), the diagonal kernels for all sizes', technique=GENP + '; ' + SYM)
prop('C05', 'Dense LU factorisation and solution',
 'For every nonsingular matrix, factorisation with row exchange returns a permutation and factors whose product is the permuted matrix, always eliminates with the largest remaining entry of the column (so no multiplier exceeds one and a vanishing leading entry is harmless), and stays inside the matrix. Solving with the factors returns the solution of the original system for every right hand side and leaves the factors unchanged.',
 ['inputs'], 'all sizes, matrices, row exchanges and right hand sides', WHY % 'one 3x3 system', [SRC + 'LinearAlgebra/Solvers/LU.h'],
 [dict(name='LU, SolveLU', where='src/LinearAlgebra/Solvers/LU.h')], note='loop invariant of the elimination and recursive definition of the substitutions, for all sizes; executed as well on generic matrices', technique=SYM + ' (loop invariants, recursive definitions)')
prop('C08', 'Eigenvalue solvers return eigenpairs of the pencil',
 'For every symmetric matrix (and positive definite mass matrix), the Lanczos processes, with and without restarts, plain and shift-inverted, build a basis that is orthonormal in their inner product with its tridiagonal projection, and convert the eigenpairs of that projection to eigenpairs of the original problem. Bisection brackets the requested eigenvalue of every tridiagonal matrix by its sign changes to the stated precision, and inverse iteration solves the shifted tridiagonal systems exactly, also with zero pivots.',
 ['inputs', 'histories'], 'all tridiagonal and sparse symmetric matrices, shifts, mass matrices, basis sizes and restarts', WHY % 'the printed output of two samples', [SRC + 'LinearAlgebra/Solvers/Lanczos.h'],
 [dict(name='Lanczos variants, BisectionMethod, InversePowerMethod, ReconvertVector', where='src/LinearAlgebra/Solvers/Lanczos.h')], note='kernels, reconversion, bisection and inverse iteration for all sizes; Lanczos processes at generic matrices of small order against contracts of the linear solver; execution against dense eigensolvers', technique=SYM + ' (loop invariants, recursive definitions); ' + GENP)
prop('C19', 'Optimality criteria update',
 'For every design, sensitivity and constraint function, the update returns the clipped fixed point formula at one multiplier which is an end of the last bisection bracket, on the side the constraint tells; the bracket is narrower than its tolerance and inside the initial one, and the variables stay inside move limits and bounds. Convergence is reported exactly when the relative change of the objective, whatever its sign, is below the tolerance.',
 ['inputs', 'histories'], 'all numbers of variables, designs, sensitivities, constraint functions and parameters', WHY % 'one compliance problem', [SRC + 'Optimize/Solver/OC.h'],
 [dict(name='OC', where='src/Optimize/Solver/OC.h')], note='inductive invariant of the bisection for all sizes and all constraint functions; the ignored user bounds are a known finding', technique=SYM + ' (inductive invariant found by Houdini)')
prop('C20', 'Moving asymptotes and convex linearisation solve their subproblem',
 'For every design, history, sensitivities and parameters, a step builds the convex separable approximation, asymptotes and move limits of its method, and its inner iteration follows the Newton direction of the relaxed optimality conditions with a step that keeps all variables inside the move limits and all multipliers positive, until the relaxation is exhausted. The returned design is inside the move limits and minimises the subproblem; convergence is reported exactly when the relative change of the objective, whatever its sign, is below the tolerance.',
 ['inputs', 'histories'], 'all designs, sensitivities, asymptote histories, numbers of variables and constraints (also more constraints than variables)', WHY % 'a few topology optimisation runs with one constraint', [SRC + 'Optimize/Solver/MMA.h', SRC + 'Optimize/Solver/CONLIN.h'],
 [dict(name='MMA and CONLIN', where='src/Optimize/Solver/MMA.h, CONLIN.h')], note='optimality residual and convergence test for all sizes; the step at generic points for listed numbers of variables and constraints (bounded); execution compares with a reference minimiser', technique=SYM + '; ' + GENP)

prop('C21', 'Result files state the model written; imports return what the file lists',
 'For every model, the exported result file carries the format header, every point padded with zeros to three components, every cell with its node count and the total count, the cell types, and each scalar or vector field under its name in node (or cell) order, with a section line and count exactly when asked for. Reading a result file returns exactly its points, cells and named fields in order (a cell field is never taken for a point field of the same name, an absent one gives an empty list and the search starts over); reading tables returns exactly the listed nodes, elements, pairs, initial values and conditions, where entries marked free give none, and a file that cannot be opened is reported and reads nothing.',
 ['inputs', 'configurations'], 'all numbers of nodes, cells, fields and components when writing; all values, and many file layouts, when reading', WHY % 'one file per program, compared after the whole analysis', [SRC + 'PrePost/Export/ExportToVTK.h', SRC + 'PrePost/Import/ImportFromCSV.h', SRC + 'PrePost/Import/ImportFromVTK.h', SRC + 'PrePost/Import/ImportFromVTK2.h'],
 [dict(name='ExportToVTK writers', where='src/PrePost/Export/ExportToVTK.h'), dict(name='CSV and VTK readers', where='src/PrePost/Import/*.h')], note='writers proved for all sizes as equality of texts; readers proved for listed file layouts with arbitrary numbers (bounded in the layout), round trip included', technique=SYM + ' (texts as a free monoid)')
prop('C22', 'Triangle mesher returns a valid triangulation of the given region',
 'For every region given by closed polygons and every size, the Delaunay mesher returns counterclockwise triangles that cover exactly the region, share whole edges only, list exactly the boundary edges as edges, and whose sides do not exceed the size by more than the final smoothing adds.',
 ['inputs'], 'all simple polygons with holes, all sizes', WHY % 'one L-shaped polygon', [SRC + 'PrePost/Mesher/Delaunay.h'],
 [dict(name='Delaunay', where='src/PrePost/Mesher/Delaunay.h')], note='not claimed')
NA = [dict(property='C22', reason='Global geometric correctness of an incremental flip algorithm: needs a planar-subdivision invariant over a mutable linked structure (mutual neighbour indices), exact orientation reasoning with the tolerances of the code, recovery of constrained edges and a termination measure for the flips; no contract within reach of the verifier expresses it, and execution alone would be a different technique. Observed while reading: some polygons make it read element -1 (see DESIGN.md).')]
