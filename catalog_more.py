prop('C01', 'Meshes and their distribution over processes',
     'For every number of points, periodicity and number of processes, the pressure grid has the requested number of points per direction, the velocity grid twice minus one (one and two less in a periodic direction), with the right components per point, and the reported sizes are these. Every cell and every point belongs to exactly one process, the same for coarse cells and the fine cells inside them, and all corners of a cell that a process owns are within its ghosted region.',
     ['inputs', 'configurations'], 'all point counts up to the bounds, all cells and points, periodicity, two and three dimensions, process counts',
     RUNS + 'one process and two or three sizes are sampled; decomposition errors lose or duplicate cells only for some sizes',
     ['cafes/fem/mesh.hpp'], [('aligned coarse and fine DMDA', 'cafes/fem/mesh.hpp'), ('owned cell bounds', 'cafes/fem/mesh.hpp')])
prop('C07', 'Right-hand side: load vector and boundary values',
     'At every velocity point and component that is not constrained the right-hand side of the Stokes problem is the mass matrix times the body force at the mesh points (zero where no force function is given), at every constrained one it is the prescribed boundary value at that point, and the pressure part is zero. Imposing homogeneous conditions zeroes exactly the constrained entries.',
     ['inputs', 'configurations'], 'all polynomial forces and boundary values, all domain lengths, subsets of conditions, periodicity, processes',
     RUNS + 'forces are constant or vanish in the tests, and positions along one axis may be exchanged without notice', ['cafes/fem/rhs.hpp', 'cafes/fem/bc.hpp', 'cafes/problem/stokes.hpp'],
     [('load assembly', 'cafes/fem/rhs.hpp'), ('boundary loops', 'cafes/fem/bc.hpp')])
prop('C16', 'Distributed vectors show and accumulate the global field',
     'After an exchange, the local view of a distributed vector holds at every owned and ghost index (wrapped in periodic directions) the value of the global field, through every accessor. Adding the local view back sums all contributions to a point onto what the global vector holds, inserting it replaces owned values, and the other field of a composite vector is left alone.',
     ['inputs', 'configurations'], 'all field values; velocity, pressure, plain and composite vectors, periodicity, processes', RUNS + 'mostly one process',
     ['cafes/petsc/vec.hpp'], [('local/global views', 'cafes/petsc/vec.hpp')])
prop('C21', 'Command-line options set the problem, with documented defaults',
     'Every option given (-mx -my -mz, -Lx -Ly -Lz, -xperiod -yperiod -zperiod, -strain_tensor, -assembling, -PMM) sets its own entry to exactly the given value, and every option not given keeps its default: 17 points, length 1, not periodic, flags off.',
     ['inputs'], 'all values, subsets of options', RUNS + 'two or three option sets are used', ['cafes/problem/options.hpp'], [('process_options', 'cafes/problem/options.hpp')])
prop('C25', 'Multigrid level operators are the velocity block of their level',
     'On each level of the velocity multigrid hierarchy the matrix created for the level applies the viscous operator of the discretisation with that level\'s mesh step on that level\'s grid, for every grid (also anisotropic ones), with the identity on constrained points. Its diagonal is that of the vector Laplacian on that level.',
     ['inputs', 'configurations'], 'all fields and mesh steps; grids, levels, periodicity, processes', RUNS + 'a wrong level step only changes iteration counts, on the square grids sampled',
     ['cafes/problem/stokes.hpp', 'cafes/problem/context.hpp'], [('createLevelMatrices', 'cafes/problem/stokes.hpp')])
prop('C28', 'The attached null space is the constant pressure',
     'When the problem is assembled, the null space attached to the system matrix is spanned by one unit vector with zero velocity and a positive constant pressure, and with conditions on all non-periodic faces the assembled matrix maps it exactly to zero.',
     ['inputs', 'configurations'], 'all mesh steps; grids, periodicity, processes, viscous form', RUNS + 'solvers tolerate a wrong null space on some grids',
     ['cafes/problem/stokes.hpp'], [('set_null_space / setup', 'cafes/problem/stokes.hpp')])

prop('C32', 'The solver is given the discrete problem',
     'Setting up the solver of a Stokes problem hands the linear solver the system matrix of the problem with the preconditioning matrix built for it, or, when an assembled problem is solved by one direct factorisation, the system matrix in both roles; solving then gives it the right-hand side of the problem, leaves that unchanged and puts the answer in the solution vector. The projected multigrid solver splits velocity from pressure, halves the velocity grid until its smallest direction has at most nine points (never when it has eight or fewer, and never below four), and gives every level the viscous operator, conditions and diagonal of that level.',
     ['inputs', 'configurations'], 'all fields and mesh steps; solver choices, viscous forms, grids and anisotropy, levels, periodicity, processes, two and three dimensions', RUNS + 'an iterative solver that is given a wrong preconditioner or coarse operator still converges on the small problems sampled, and a factorisation of the wrong matrix is never run by them',
     ['cafes/problem/stokes.hpp', 'cafes/problem/context.hpp'], [('setup_KSP, setPMMSolver, solve', 'cafes/problem/stokes.hpp')])

prop('C08', 'Shapes: inside, measures, boxes, parametrisation',
     'A circle, sphere or super-ellipsoid contains exactly the points where its implicit function is below one, that function being |x/a|^n + |y/b|^n (in space (|x/a|^e + |y/b|^e)^(n/e) + |z/c|^n) in the centred and rotated axes of the shape, and parametric points of an unrotated shape lie on the surface. Circles and spheres report their true boundary measure, volume and inverse mean square distances to a rotation axis, on the surface and inside. Bounding boxes hold the whole shape, also rotated, and in mesh units every mesh point and every cell that meets the bounding box.',
     ['inputs'], 'all centres, sizes, rotations, points; exponents 1, 2, 4; two and three dimensions', RUNS + 'circles with a radius of a few steps are sampled', ['cafes/particle/geometry/super_ellipsoid.hpp', 'cafes/particle/geometry/circle.hpp', 'cafes/particle/geometry/sphere.hpp', 'cafes/particle/particle.hpp'],
     [('super_ellipsoid', 'cafes/particle/geometry/super_ellipsoid.hpp')])
prop('C22', 'Surface samples lie on the surface and surround the shape',
     'Sampling the surface of a super-ellipsoid with a step returns points on its surface, placed by its rotation and centre, symmetric about its axes. In the plane they go round once, counter-clockwise, none twice, and on an ellipse their gaps (in units of the radii) stay below twice the step. In space, on an ellipsoid, neighbouring samples of a ring and neighbouring rings are likewise within twice the step given for each.',
     ['inputs'], 'all centres, radii, rotations; listed steps and exponents; two and three dimensions', RUNS + 'only rounded visual output is printed by the tests', ['cafes/particle/geometry/uniform_sampling.hpp', 'cafes/particle/geometry/super_ellipsoid.hpp'],
     [('uniform_sampling', 'cafes/particle/geometry/uniform_sampling.hpp')])
prop('C26', 'Mesh points and surface points of a particle are located exactly',
     'The fluid points found inside a particle within a box of mesh indices are exactly the mesh points of the half-open box that the particle contains, each once. The surface points kept for a box are, in order, exactly those whose cell is in the box, each with the cell that contains it and its offset in [0, step) from the lower corner of that cell, and the radial vectors are the same points minus the centre. Particles keep the shape, force, density and velocity they are given, and differences and distances between two particles are those of their centres and velocities.',
     ['inputs'], 'all shapes on small boxes, all boxes, surface points and mesh steps; two and three dimensions', RUNS + 'circles in the middle of the domain are sampled', ['cafes/particle/particle.hpp'],
     [('find_fluid_points_insides, find_surf_points_insides', 'cafes/particle/particle.hpp')])

PO = 'cafes/problem/particle_operator.hpp'
prop('C27', 'Particles are distributed over the mesh once',
     'When the particles of a problem are set up, each process gets, for each particle, exactly the surface points whose cell it owns (with cell, offset within the cell and radius vector), every surface point of the domain belongs to exactly one process, the counts of surface points and of interior sub-cell samples are the totals over all processes, and the reported size is the number of fluid points covered on this process, each counted once over all processes. Parts of a particle outside the domain are ignored.',
     ['inputs', 'configurations'], 'all surface offsets, centres, mesh steps; particle positions, periodicity, processes, two and three dimensions', RUNS + 'one process and particles well inside the domain are sampled', ['cafes/particle/particle.hpp', 'cafes/fem/mesh.hpp'],
     [('set_materials', 'cafes/particle/particle.hpp')])
prop('C13', 'Interpolation to surfaces, layers, and their adjoint',
     'The fluid velocity at a surface point is the multilinear interpolation of the values at the corners of its cell, less the rigid motion of the particle (velocity + angular velocity x radius) when asked. The single layer of a particle has its mean over all surface points and its weighted mean rotation removed, the same on all processes. Spreading a layer gives each mesh point the sum over surface points of value x hat function x (boundary measure / number of points), across processes, replaces what was in the right-hand side, and is zero on constrained points and on the pressure.',
     ['inputs', 'configurations'], 'all fields, layers, motions, positions in cells, steps; periodicity, processes, two and three dimensions', RUNS + 'one symmetric configuration on one process cannot show swapped axes or lost ghost contributions', [PO, 'cafes/fem/quadrature.hpp'],
     [('interp_fluid_to_surf, simple_layer, SL_to_Rhs', PO)])
prop('C15', 'Rigid part of the velocity in particles, and the control observation',
     'The mean velocity of a particle and its mean moment about its centre are averages of the interpolated fluid velocity over all sub-cell samples inside the particle, over all processes. The observed control is, at each fluid point inside each particle, the fluid velocity there minus the rigid motion given by mean and rotation (inertia-weighted, about the centre), or the fluid velocity itself for Dirichlet-to-Neumann problems; each entry of the control vector belongs to one component at one fluid point of one process.',
     ['inputs', 'configurations'], 'all fields, motions, centres, steps; particle positions, periodicity, processes, two and three dimensions', RUNS + 'symmetric sampled data make moments vanish', [PO],
     [('projection, compute_y', PO)])
prop('C17', 'Controls act as forces inside the particles',
     'The right-hand side of a control problem is the mass matrix applied to the field that holds, at each fluid point inside each particle, the control value of that point (in the same order as it is observed) plus the density times force of the particle if forces are applied, plus the problem\'s own right-hand side if asked; then the boundary values (or zero, without own right-hand side) are imposed, and the pressure part is zero.',
     ['inputs', 'configurations'], 'all controls, forces, boundary values, steps; particle positions, periodicity, processes, two and three dimensions', RUNS + 'an order of the control that differs between two places, or between processes, still converges to something', [PO, 'cafes/problem/stokes.hpp'],
     [('init_problem, set_rhs_problem', PO)])
prop('C14', 'Forces and torques from a control',
     'The force and torque on each particle computed from a control are the control, and its moment about the particle centre, summed over its fluid points on all processes, times the particle volume over the number of these points (so that a uniform control gives control x volume); all processes get the same result.',
     ['inputs', 'configurations'], 'all controls, centres, volumes, steps; particle positions, periodicity, processes, two and three dimensions', RUNS + 'no test compares forces', ['cafes/particle/forces_torques.hpp', 'cafes/problem/sem.hpp'],
     [('forces_torques_with_control', 'cafes/particle/forces_torques.hpp')])
prop('C18', 'Control problems: operator, right-hand side and final solve',
     'The matrix of the smooth extension (SEM) and Dirichlet-to-Neumann problems maps any control to: fluid solve with that control, interpolation to the surfaces, layer (SEM: without its rigid part), fluid solve with the spread layer, and observation; it is linear (no own forces or boundary values) and does not depend on earlier applications or on what is left in the fluid problem. Its right-hand side is minus the same with the own data and zero control. The final solve is the fluid problem with own data (and particle forces for SEM) plus the control found, again whatever was solved before; new particle velocities are the mean fluid velocities over the surface points.',
     ['inputs', 'histories', 'configurations'], 'all controls, data and earlier states; two successive applications and solves, periodicity, processes, two and three dimensions', RUNS + 'a solver converges to a wrong answer silently when state leaks from one application to the next', ['cafes/problem/sem.hpp', 'cafes/problem/dton.hpp', PO],
     [('SEM', 'cafes/problem/sem.hpp'), ('DtoN', 'cafes/problem/dton.hpp')])
SG = 'cafes/particle/singularity/singularity.hpp'
AS = 'cafes/particle/singularity/add_singularity.hpp'
UN = 'cafes/particle/singularity/UandPNormal.hpp'
prop('C19', 'Lubrication field between two close particles',
     'For two circles or spheres that move relative to each other along the line of their centres, the singular velocity is free of divergence, vanishes tangentially on both (parabolic) surfaces, differs across the gap by the relative velocity of the second particle with respect to the first, and balances the singular pressure; the gradient functions are the exact derivatives of the velocity functions, also on the axis in space; the truncation function goes smoothly from one to zero with its stated derivatives, and field, gradient and pressure vanish beyond the truncation. In the frame of the domain the field is this one in an orthonormal frame whose origin is on the surface of the first particle and whose axis points to the second, and the box of cells reported for the pair contains the gap up to the truncation distance.',
     ['inputs', 'configurations'], 'all curvatures, gaps, velocities, truncation lengths and points; directions from a list', 'the fields are pages of rational expressions; no test evaluates them, and a wrong term only degrades the accuracy of the solution', [SG, UN, 'cafes/particle/singularity/truncation.hpp'],
     [('singularity', SG), ('ux_sing_normalMvt2D and others', UN)])
prop('C31', 'Lubrication terms added to the problem and to the forces',
     'With close particles, the right-hand side of the fluid problem is, at each velocity node, the integral (by sampling, ten points per cell and direction) over the gaps, outside the particles, of singular pressure times divergence of the basis function minus singular velocity gradient contracted with its gradient, summed over all pairs, each cell counted once over all processes, with the pressure part untouched; the reconstructed solution gains the mean of the singular velocity against the basis function in the same way. The singular force on each particle is minus the integral of the singular stress over its part of the gap, in the frame of the domain, summed over pairs. Pairs that are not close, a single particle and no particle add nothing.',
     ['inputs', 'configurations'], 'all velocities and initial fields; geometries from a list, 1 to 4 processes', 'tests have at most one configuration of close particles, on which nothing is compared', [AS],
     [('add_singularity_in_fluid, add_singularity_to_last_sol, compute_singular_forces', AS)])
prop('C20', 'Saved fields and their description',
     'Saving a two-dimensional solution writes every velocity and pressure value of all processes once, in the order of the mesh points (first direction fastest), and a description that agrees with it and with the mesh: for each field the number of points of its grid and of the stored array (slowest direction first), the step of its grid (twice as large for the pressure), the origin, the kind of field, and the place of the stored array. The solution is not changed.',
     ['inputs', 'configurations'], 'all fields and steps; mesh sizes, periodicity, processes', 'no test reads a file back, and square meshes hide exchanged directions', ['cafes/io/hdf5.hpp'],
     [('save_hdf5, create_xdmf', 'cafes/io/hdf5.hpp')])
prop('C30', 'Interpolation of a solution on a refined mesh',
     'Interpolating a solution on a mesh refined by given whole factors per direction gives velocity and pressure grids that divide every cell by these factors (same periodicity and number of components), whose values are, at every point of every process, the multilinear interpolation of the values at the corners of the coarse cell that contains it (the same value at common points). The solution is only read.',
     ['inputs', 'configurations'], 'all fields and steps; mesh sizes, refinement factors, periodicity, processes, two and three dimensions', 'the one test refines equally in all directions on one process and compares nothing', ['cafes/posttraitement/interpolation.hpp'],
     [('linear_interpolation', 'cafes/posttraitement/interpolation.hpp')])
prop('C23', 'Triangulation of surface points',
     'The triangulation of a set of points consists of triangles whose corners are points of the set, without overlap, that cover their convex hull (or the hull surface in three dimensions).',
     ['inputs'], 'all sets of points', 'one demo calls it and nothing looks at the result', ['cafes/particle/geometry/triangulation.hpp'],
     [('triangulation', 'cafes/particle/geometry/triangulation.hpp')],
     na='what decides it is the bundled qhull library (about 60 000 lines whose pivoting, merging and joggling compare floating-point determinants); its symbolic execution is out of reach, a stand-in for it would decide nothing about the triangles, and no other part of the library uses the result')
prop('C29', 'VTK output',
     'Saving a solution or a set of particles in VTK format writes every grid point with its coordinates and value, and a description of the pieces of all processes.',
     ['inputs', 'configurations'], 'all fields; processes', 'the code is disabled in the build', ['cafes/io/vtk.hpp'],
     [('save_VTK', 'cafes/io/vtk.hpp')],
     na='cafes/io/vtk.hpp is commented out everywhere in the library and cannot be compiled here (no VTK headers; it also lacks its own standard headers), so there is no intermediate representation of it to execute')
