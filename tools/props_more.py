CP = 'constant propagation / abstract interpretation of the Python source over oriented templates, and an operator algebra over the derived expressions'
prop('C04', 'Orientation signs and boundary operators are consistent',
     'The tables of permutations, parities and faces that the topologies are built from list every permutation, symmetry and face exactly once with its correct sign. Building a topology from oriented elements gives incidence matrices that carry these signs, '
     'so that the boundary of a boundary vanishes for the primal chain, for the dual chain with its boundary, and for topologies of every dimension; the dual operators restricted to the interior are the transposes of the primal ones. '
     'Elements keep the orientation of the corners they were given.',
     INPUTS, 'all dimensions, both cell shapes, all relative orientations of neighbouring elements, closed and open topologies',
     'Tests check chain closure on a few meshes whose elements are oriented by the synthetic constructors; relative orientations that do not occur there, and signs that cancel there, are not seen.',
     ALLTP + ['pycomplex/math/combinatorial.py'], [('permutation and face tables', 'permutation_map, generate_boundary, generate_boundary_indices in pycomplex/topology/simplicial.py and cubical.py, pycomplex/math/combinatorial.py'),
     ('incidence matrices', 'topology_matrix in pycomplex/topology/util.py; PrimalTopology.matrices'), ('dual chain', 'Dual.matrices, Dual.matrices_2, ClosedDual in pycomplex/topology/dual.py')], technique=CP,
     note='Signs are per element: rows of the element arrays do not interact except through shared faces, so one or two neighbours in every relative orientation cover all meshes of that dimension. The block algebra assumes that the boundary is the sub-topology selected by selector_boundary, oriented by its parent.')
prop('C17', 'Subdivisions and products tile their parents',
     'Every subdivision of a topology (fundamental, simplicial, loop, cubical) replaces each parent element by the documented number of children that fill exactly the parent without overlap, whose vertices are the vertices of the parent and the centres of the documented '
     'parent elements in the documented order, which match across faces shared by neighbouring parents, and, where the operation promises it, are oriented like their parent. The transfer operators and parent indices relate each fine element to the coarse element that contains it. '
     'The product of two topologies has as elements exactly the products of their elements.',
     INPUTS, 'all dimensions, cell shapes, and relative orientations and numberings of neighbouring parents',
     'Tests subdivide a few synthetic meshes and check totals; a wrong child in one relative orientation or a transfer to a neighbour changes no total.',
     ALLTP, [('subdivisions', 'subdivide_fundamental, subdivide_simplicial, subdivide_loop, subdivide_loop_direct, subdivide_cubical in pycomplex/topology'), ('transfers', 'transfer_matrix in pycomplex/topology/util.py'), ('product', 'TopologyCubical.product in pycomplex/topology/cubical.py')], technique=CP,
     note='One or two neighbouring parents in every relative orientation stand for all meshes, because the subdivision of a parent depends only on its own faces. Orientation of the children is required where the source promises it (2-d simplicial, loop, fundamental up to 2-d, cubical of cubes).')

prop('C19', 'Stencil operators are the matrices they stand for',
     'On a regular periodic grid of any dimension and shape, the derivative of a cochain is the signed difference of neighbouring cells along each axis with periodic wrap-around, the derivative of a derivative vanishes, and the dual derivative is the transpose of the primal one. '
     'The transpose of every stencil operator is its adjoint; sums, products, simplification and block assembly of operators act like the same operations on the matrices they stand for; diagonal() is the diagonal of that matrix; hodge operators are diagonal with the metric of the grid. '
     'The canonical system has the derivatives and hodges at their documented places and is symmetric where documented, normal equations are A^T A x = A^T B y and A A^T; the residual is A x - B y; converting a block vector to a dense one and back changes nothing. '
     'Coarsening sums or averages exactly the children of a cell, refining is the transpose up to a factor, both keep constants, and smoothing and averaging use exactly the documented neighbours. Sampling a 0-form interpolates linearly between the neighbouring grid points, periodically across the seam.',
     'all grid shapes, all dimensions, all field values and operator arguments',
     'the periodic seam, every axis and every pair of axes (signs), rectangular grids, combinations of operators',
     'Tests run the operators on one or two square grids with random or smooth data and mostly plot or check that a product vanishes; an error along one axis, at the seam, or in the adjoint of a composed operator changes none of what they look at.',
     STEN, [('grid operators', 'StencilTopology.primal, StencilTopology.derivative in pycomplex/stencil/topology.py'), ('operator algebra', 'StencilOperator, ComposedOperator, CombinedOperator, DiagonalOperator in pycomplex/stencil/operator.py'),
     ('block algebra', 'BlockArray, BlockOperator in pycomplex/stencil/block.py'), ('systems', 'System, NormalSystem in pycomplex/stencil/linear_system.py; Diffusion in pycomplex/stencil/diffusion.py'), ('transfers', 'StencilTopology.coarsen, refine, restrict, interpolate; StencilComplex in pycomplex/stencil/complex.py')],
     technique='abstract interpretation of the Python source with exact linear forms (rational coefficients over symbolic entries) as values; the derived matrices are compared with the documented ones',
     note='The operators are translation invariant along each axis by construction (numpy.roll and shifted slices), so small grids of each dimension with distinct extents stand for all shapes; values of the fields are symbolic. Field values with denominators that vanish are out of scope.')

prop('C14', 'Multigrid cycles and smoothers solve the equation they are given',
     'A multigrid hierarchy runs from the coarsest to the finest equation; a v-cycle smooths, subtracts the interpolated coarse solution of the restricted residual (solved by a v-cycle from zero, exactly on the coarsest level) and smooths again; repeated v-cycles continue from the previous iterate, as often as asked; '
     'a full cycle interpolates the solution of the restricted right hand side and then does the asked number of v-cycles on each level. '
     'Every smoother (jacobi, overrelaxation, both block Gauss-Seidel variants) performs the documented relaxation x - c D^-1 A^T (A x - B y) with the true diagonal and keeps the exact solution unchanged. The residual is A x - B y, solvers are handed exactly the equation (or its normal equations) with its right hand side and first guess and their solution is returned in the block layout of the unknowns. '
     'Restriction and interpolation of an equation use the transfer operators of the forms they act on, and the coarse equation is the same formulation of the coarsened fields on the coarse complex.',
     'all hierarchies, right hand sides, guesses, numbers of iterations, and coefficient fields',
     'one, two and three levels, with and without a first guess, zero and several iterations',
     'Tests run a few cycles on one problem and at most plot the result; a cycle that loses a correction, or a smoother that moves the exact solution, still converges or diverges slowly enough to pass.',
     ['pycomplex/stencil/multigrid.py', 'pycomplex/stencil/equation.py', 'pycomplex/stencil/diffusion.py', 'pycomplex/stencil/linear_system.py', 'pycomplex/stencil/block.py'],
     [('cycles', 'v_cycle, solve_v_cycle, solve_full_cycle, MultiGridEquation.hierarchy in pycomplex/stencil/multigrid.py'), ('smoothers', 'NormalSmoothEquation in pycomplex/stencil/equation.py'), ('solver calls', 'Equation.solve, solve_minres, solve_minres_normal, solve_qmr in pycomplex/stencil/equation.py'),
      ('transfers', 'Diffusion.coarse, restrict, interpolate in pycomplex/stencil/diffusion.py')],
     technique='abstract interpretation of the Python source with exact linear forms (rational coefficients over symbolic entries) as values, the operations of the equations being generic matrices; the derived matrices are compared with the documented formulas',
     note='Formulas are compared for hierarchies of up to three levels, which fixes the recursion. Convergence rates and the numeric accuracy of the external solvers are not decided.')

MESH = 'small meshes stand for all: each result at an element depends only on the elements it touches, and paths, fans, strips, grids, closed, disjoint and pinched meshes in scrambled numbering contain the configurations that occur.'
prop('C13', 'Averages take each incident element once, with the documented weights',
     'averaging_operators_0 (averaging_operators_N) of a topology maps vertices (top elements) to every element as the plain mean over exactly the vertices of the element (the top elements around it), degree counts the top elements around each element, and the averages over dual vertices weigh equally all dual vertices of each dual element, '
     'including those on the boundary. The position of an element of a cubical complex is the mean of its vertices, dual elements sit at their primal elements, with those of the boundary appended. smooth and smooth_operator put each vertex at the mean of the means of the incident crease elements of lowest dimension (by default the incident top elements), '
     'whatever the sign of the crease chain; the operator form of smoothing and of cubical and loop subdivision, with and without creases and smoothing, is the matrix of the construction. Summing a quantity per corner around vertices or boundary elements takes every contribution once, with its sign where asked; the area of a vertex is a third of the triangles around it. '
     'normalize_l1 scales rows or columns to absolute sum one.',
     'all meshes, all vertex positions, all crease chains', 'open and closed, pinched and disjoint meshes in any numbering, creases of every dimension, sign and combination',
     'Tests plot or compare averages of constant or smooth fields, which any normalized wrong stencil reproduces as well.',
     ALLTP + ALLCX + ['pycomplex/sparse.py'], [('averaging operators', 'averaging_operators_0, averaging_operators_N, accumulated_operators_0, degree in pycomplex/topology/base.py'), ('smoothing', 'BaseComplex.smooth, smooth_operator in pycomplex/complex/base.py'),
     ('subdivision operators', 'ComplexCubical.subdivide_operator, subdivide_cubical, ComplexTriangularEuclidian.subdivide_loop_operator'), ('sums around elements', 'remap_boundary_0, remap_boundary_N, compute_vertex_areas'), ('normalization', 'normalize_l1 in pycomplex/sparse.py')],
     technique='abstract interpretation of the Python source with constants (connectivity) and exact linear forms (positions) as values over small meshes; the derived matrices are compared with the averages over incident elements',
     note='Vertex positions are symbolic; ' + MESH + ' The positions of simplicial elements (circumcenters) are not linear in the vertices and are left to C06 and C10.')
prop('C18', 'Boundaries, selections, components and dual structure are exact',
     'The elements of a topology are all faces of its top elements, each once. Its boundary consists of exactly the faces that belong to one top element and their parts, and is None for a closed topology; parent_idx names, for a boundary, a selection or a component, the same element of the parent; the boundary has no boundary. '
     'Interior and boundary selectors pick complementary elements in order. Selecting a subset of the top elements gives exactly those with their faces, in order, with unchanged corners. Components, connectedness, the number of regions around a vertex, manifoldness and orientedness agree with their definition, splitting gives the connected pieces, largest first, '
     'and fixing the orientation makes neighbours agree without changing the elements. chain, form and range have one entry per element with the asked fill. sparse_to_elements lists the columns of each row. The dual has one cell per primal element plus one per boundary element; its selectors pick the interior and boundary ones, its interior derivatives are the transposed primal ones, every dual edge runs from one dual vertex to another, and the boundary of a boundary vanishes.',
     'all meshes', 'open and closed, pinched and disjoint meshes of both cell shapes in dimension one to three, in any numbering',
     'Tests use connected, oriented meshes numbered by the synthetic constructors and check counts or a single flag.',
     ALLTP, [('boundary and selection', 'boundary, select_subset, selector_interior, selector_boundary in pycomplex/topology/primal.py'), ('components', 'label_connections, split_connected_components, regions_per_vertex, is_manifold, is_oriented in pycomplex/topology/base.py and primal.py'),
     ('orientation', 'fix_orientation, relative_orientation in pycomplex/topology'), ('dual', 'pycomplex/topology/dual.py')],
     technique='constant propagation / abstract interpretation of the Python source over small meshes, compared with the vertex sets of the elements',
     note=MESH[0].upper() + MESH[1:])

prop('C09', 'Input outside of the documented domain is rejected, not computed with',
     'Operations raise rather than return a wrong result when their documented conditions are not met, and accept everything that meets them: '
     'select_subset takes one value per top element (topologies and complexes); dual and boundary need an oriented topology, Dual an open one and ClosedDual a closed one; orienting or taking the relative parity of a non-orientable mesh, and check_manifold of a non-manifold one, fail; '
     'check_chain fails for a boundary whose boundary does not vanish; the constructor of a topology refuses incidence, orientation and element arrays of inconsistent number, length, type or vertex numbering (vertices are exactly 0..n-1 in order); '
     'the casts as_2, as_3, as_cube, as_11, as_12, as_22, as_23, as_33 and as_44 only accept complexes of that dimension; from_elements of a cubical topology and the parity of cubes only accept corners of extent two; subdivide_octohedral needs a closed topology; '
     'volume of a line embedded in the plane needs a closed line; compute_edge_ratio and the metric optimizations need an unweighted complex; metrics need an oriented complex; spherical complexes refuse topologies of another dimension or cell shape than theirs; extrude needs two open complexes of the same topology; '
     'volumes, circumcenters, normals and angle_from_rotation need the documented number of points and dimensions; inv_diag needs a diagonal matrix; relative_permutations equal shapes; '
     'a stencil grid can only be coarsened if all extents are even, has operators only if periodic, and forms start as zeros, ones or empty; stencil operators only apply to, compose with and add to forms and operators of matching shape; a block array is only made of a dense array of its size; StencilComplex2D and 3D need grids of that dimension.',
     INPUTS, 'one element too many or too few, every wrong dimension, each array of a constructor, the last and the first element',
     'Tests only pass valid input, so a guard that is dropped, weakened to any instead of all, or applied to the wrong operand is never noticed.',
     ALLTP + ALLCX + STEN + ['pycomplex/sparse.py', 'pycomplex/math/linalg.py', 'pycomplex/geometry/euclidian.py', 'pycomplex/geometry/spherical.py'],
     [('topologies', 'BaseTopology.__init__, check_chain, check_manifold, relative_parity; PrimalTopology.select_subset, dual, boundary; Dual, ClosedDual'), ('complexes', 'as_*, volume, extrude, metric, compute_edge_ratio, optimize_weights in pycomplex/complex'),
      ('geometry', 'unsigned_volume, signed_volume, segment_normals, triangle_circumcenter in pycomplex/geometry'), ('stencils', 'StencilOperator.__call__, ComposedOperator, CombinedOperator, StencilTopology.coarse, primal, form in pycomplex/stencil')],
     technique='constant propagation / abstract interpretation of the Python source through every guard on the way of an operation; every abstract path has to end in an exception',
     note='The conditions are those the source states today by an explicit check on the public path; conditions that are only documented are not promised. ' + MESH[0].upper() + MESH[1:])

prop('C15', 'Metrics and hodges collect every fundamental piece once',
     'The primal (dual) k-metric of an element is the sum of the volumes of all fundamental pieces of the element (of its dual), spanned by the positions of the chain of elements from a vertex to the element (from the element to a top element around it), each counted exactly once, whatever the mesh and its numbering: points have measure one, '
     'pieces of simplicial euclidian complexes enter the dual metric and the top primal metric with the sign of the circumcenter relative to the facet, spherical metrics scale with radius**dimension, regular complexes use the boxes between the positions. hodge_PD and hodge_DP are the ratios of the primal and dual metric of the same element, indexed by primal element, and inverse to each other. '
     'compute_edge_ratio is half the sum of the cotangents of the angles opposite to each edge. dual_metric_closed appends the dual metric of the boundary. vertex_normals sums the normals of the triangles around each vertex. weighted_average_operators weigh the dual vertices of a dual element with the measure of the dual piece divided by the distances to its corners, summed over pieces and normalized per element.',
     'all meshes, numberings, dimensions and positions', 'open and closed meshes, several pieces, non-well-centered elements, radii other than one, non-uniform spacing',
     'Tests compare totals (areas, volumes of whole domains) or values on symmetric meshes, which metrics attributed to the wrong element, a wrong factor between primal and dual, or a lost sign reproduce as well.',
     ALLCX, [('metrics', 'metric of ComplexSimplicialEuclidian, ComplexSpherical and ComplexRegularMixin'), ('hodges', 'hodge_PD, hodge_DP, dual_metric_closed in pycomplex/complex/base.py'), ('edge ratio', 'ComplexTriangularEuclidian.compute_edge_ratio'), ('weights', 'BaseComplex.weighted_average_operators')],
     technique='constant propagation through the Python source over small meshes with the geometric primitives summarized by tables of generic numbers; the derived numbers are compared with the sums the definition names',
     note=MESH + ' The volumes, circumcenters and angles themselves are not decided here.')

NUM = ('The property quantifies over floating point values: it relates numbers computed from arbitrary coordinates by eigenvalue decompositions, iterative solvers or nearest-neighbour searches, '
       'and no sound static argument over the source in reach bounds them; deciding it would need execution. ')
prop('C20', 'Points are located in the element that contains them',
     'Picking a point returns an element (or fundamental domain) that contains it together with its barycentric coordinates, so that the coordinates are non-negative, sum to one and reproduce the point; points outside of the mesh are assigned a closest element.',
     INPUTS, 'all meshes, points and initial guesses', 'Tests pick random points of a few meshes and check most of them.',
     ALLCX, [('picking', 'pick_primal, pick_dual, pick_fundamental')],
     na=NUM + 'The parts that do not depend on the numbers are claimed elsewhere: index spaces (C03), origin and scale (C05, C06), linearity of sampling (C12), purity (C01, C02).')
prop('C21', 'Geometry routines satisfy their defining equations',
     'Circumcenters are equally far from all corners, (weighted) barycentric coordinates sum to one and reproduce the circumcenter, volumes and angles of simplices and spherical triangles have the value of the classical formulas for every non-degenerate input, pseudo-inverses and orthonormalisations satisfy the defining identities up to rounding.',
     INPUTS, 'all non-degenerate inputs and dimensions', 'Tests compare a few random or symmetric inputs.',
     GEOM, [('geometry', 'pycomplex/geometry'), ('linear algebra', 'pycomplex/math/linalg.py')],
     na=NUM + 'Their dimension, origin independence, treatment of stacks and number types are decided by C05, C06, C07 and C08, and the assembly of metrics from them by C15.')
prop('C22', 'Discrete operators converge and solvers reach the requested accuracy',
     'Discrete exterior derivatives with their hodges converge to the smooth operators under refinement, linear and eigenvalue solvers return solutions with the requested residual, and multigrid cycles reduce the error by a factor that does not depend on the grid.',
     INPUTS, 'all meshes, refinement levels and fields', 'Tests solve a few problems and mostly plot the result.',
     ALLCX + STEN, [('solvers', 'pycomplex/stencil/equation.py, pycomplex/stencil/multigrid.py'), ('hodges', 'pycomplex/complex/base.py')],
     na=NUM + 'What is exact about the operators is decided by C04, C13, C14, C15 and C19.')
prop('C23', 'Optimized meshes have the properties that are optimized for',
     'Weight and hodge optimization and mesh smoothing end in a mesh whose dual metrics are positive where the algorithm promises it, and the predicates is_well_centered, is_pairwise_delaunay and is_delaunay agree with the geometry of the mesh.',
     INPUTS, 'all meshes', 'Tests run the optimization on one mesh.',
     ALLCX, [('optimization', 'optimize_weights, optimize_weights_fundamental, optimize_weights_metric, optimize_weights_metric_orthogonal in pycomplex/complex')],
     na=NUM + 'Termination values of numeric optimization are not bounded by the source.')
prop('C24', 'Plots show the data they are given',
     'Plotting functions draw each element at its position with the colour of its value and leave the mesh and the fields unchanged.',
     INPUTS, 'all meshes and fields', 'Tests only call the plotting functions.',
     ALLCX, [('plots', 'plot functions of the complexes')],
     na='What is drawn is the effect of matplotlib, an external library whose rendering no analysis of this source determines; that arguments stay unchanged is part of C01 and that the calls work on every documented mesh part of C11 where they return values.')

prop('C25', 'Synthetic meshes are the documented ones',
     'n_cube_grid(shape) (and n_cube) has its vertices at all integer grid points, shifted so that the centroid or the minimum is at the origin as asked, and one unit cube per cell whose corner array steps along the axes, consistently oriented unless mirror is False; n_simplex is a single simplex with equidistant vertices on the unit sphere, or the canonical vertices. '
     'n_cube_dual consists of all simplices that pick one vertex of each antipodal pair of unit vectors, icosahedron of 20 congruent triangles on 12 unit vectors, hexacosichoron has the 120 vertices of the regular 600-cell on the unit sphere, icosphere of 4 times as many triangles per refinement; circle is a closed ring of equal edges with vertices on the unit circle; n_cube_dual, icosahedron, icosphere and circle are closed and consistently oriented. '
     'cylinder has the given length and radius and consists of quads spanned by a step along the axis and a step around it, consistently oriented.',
     'all shapes, dimensions, refinements, lengths and radii', 'shapes with different extents, extents of one, dimensions up to four, both values of each option',
     'Tests build some of the meshes and mostly plot them or use them as input of other operations, with square shapes and default options.',
     ['pycomplex/synthetic.py'], [('constructors', 'n_cube_grid, n_cube, n_simplex, n_cube_dual, icosahedron, hexacosichoron, icosphere, circle, cylinder in pycomplex/synthetic.py')],
     technique='constant propagation through the Python source of the constructors; the derived vertices and connectivity are compared with the definition of the mesh',
     note='Decided for the enumerated shapes, dimensions and options (extents one to three, dimension one to four); the constructors treat all extents alike. The random constructors and the convex hull of hexacosichoron are not covered.')
