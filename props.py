# The properties, and for each the symbolic runs that decide it.
ASSUMPTIONS = [
    'floating point is read as exact real arithmetic; double constants are read as the simplest rational within half an ulp',
    'PETSc, MPI and the C/C++ runtime behave as models/petsc_model.cpp and the executor define them; predicted values of sampled paths are compared with the installed PETSc on every run',
    'LLVM IR from clang 18 -O1 without fast math or contraction stands for the code',
]
ALL2 = 255
ALL3 = (1 << 18) - 1


def R(h, **k):
    k['h'] = h
    return k


def A(part, **k):
    return R('algebra', part=part, **k)


OPS = [
    R('ops', mx=3, my=4, reach=['matrix-free']),
    R('ops', mx=4, my=3, strain=1, reach=['matrix-free']),
    R('ops', mx=3, my=3, per=1, reach=['matrix-free']),
    R('ops', mx=3, my=4, per=2, strain=1, reach=['matrix-free']),
    R('ops', mx=3, my=3, per=3, reach=['matrix-free']),
    R('ops', mx=5, my=4, np=2, reach=['matrix-free']),
    R('ops', mx=5, my=5, np=4, strain=1, reach=['matrix-free']),
    R('ops', pieces=1, mx=3, my=4, mask=0, reach=['pieces']),
    R('ops', pieces=1, mx=4, my=3, mask=0, strain=1, reach=['pieces']),
    R('ops', pieces=1, mx=5, my=4, mask=0, strain=1, np=2, reach=['pieces']),
    R('ops', pieces=1, mx=4, my=3, np=2, reach=['pieces']),
    R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=ALL3, strain=0, reach=['pieces'], t=200),
    R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=ALL3, per=1, strain=1, reach=['pieces'], t=200),
    R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=0, strain=1, reach=['pieces'], t=200),
    R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=ALL3, per=2, strain=1, reach=['pieces'], t=200),
    R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=ALL3, per=4, np=2, reach=['pieces'], t=200),
    R('ops', pieces=1, dim=3, mx=3, my=2, mz=3, mask=0, per=3, reach=['pieces'], t=200),
    R('ops', mx=7, my=3, np=3, per=1, strain=1, reach=['matrix-free']),
    R('ops', mx=4, my=5, np=4, per=3, reach=['matrix-free']),
]
OPS_T = [
    R('ops', mx=6, my=7, reach=['matrix-free']),
    R('ops', mx=7, my=6, strain=1, per=1, reach=['matrix-free']),
    R('ops', mx=6, my=6, np=3, strain=1, reach=['matrix-free']),
    R('ops', mx=7, my=7, np=4, per=2, reach=['matrix-free']),
    R('ops', pieces=1, dim=3, mx=3, my=4, mz=3, mask=ALL3, strain=1, reach=['pieces'], t=1800),
    R('ops', pieces=1, dim=3, mx=4, my=3, mz=4, mask=ALL3, strain=0, np=2, reach=['pieces'], t=1800),
    R('ops', pieces=1, dim=3, mx=4, my=4, mz=4, mask=0, strain=1, per=7, reach=['pieces'], t=1800),
]
ASM = [
    R('ops', assembled=1, mx=3, my=4, reach=['assembled']),
    R('ops', assembled=1, mx=4, my=3, strain=1, reach=['assembled']),
    R('ops', assembled=1, mx=4, my=4, per=1, strain=1, reach=['assembled']),
    R('ops', assembled=1, mx=4, my=4, per=2, reach=['assembled']),
    R('ops', assembled=1, mx=4, my=4, per=3, reach=['assembled']),
    R('ops', assembled=1, mx=5, my=4, np=2, strain=1, reach=['assembled']),
    R('ops', assembled=1, mx=5, my=5, np=4, reach=['assembled']),
    R('ops', assembled=1, pieces=1, mx=3, my=4, reach=['assembled']),
    R('ops', assembled=1, mx=6, my=4, np=3, per=1, reach=['assembled']),
    R('ops', assembled=1, mx=4, my=5, np=4, per=2, strain=1, reach=['assembled']),
]
ASM_T = [
    R('ops', assembled=1, mx=6, my=7, strain=1, reach=['assembled']),
    R('ops', assembled=1, mx=6, my=6, np=3, reach=['assembled']),
    R('ops', assembled=1, mx=7, my=6, np=4, per=1, strain=1, reach=['assembled']),
]
PARTIAL = [  # conditions on some components of some faces only
    R('ops', mx=3, my=3, mask=m, strain=m & 1, reach=['matrix-free']) for m in (0, 0x1b, 0xd6, 0x8d, 0x72)
]
PARTIAL3 = [R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=m, per=p, blocks=0, reach=['pieces'], t=200) for m, p in ((0x1c0e5, 0), (0x2353a, 0), (ALL3, 2), (ALL3, 4), (0x1ad93, 1))]

PROPS = {
    'C02': dict(quick=[R('elem', dim=2, reach=['2d']), R('elem', dim=3, reach=['3d'])],
                bounds='element matrices of both dimensions, every entry, all positive mesh steps (three or two reals); no bound on the steps',
                outside='matrices never evaluated by the library (none)'),
    'C03': dict(quick=OPS, thorough=OPS_T,
                labels='momentum|mass-conservation|velocity-block|pressure-mass|pieces-momentum|pieces-mass-conservation|pieces-velocity-block|pieces-pressure-mass|mass-operator-.*|petsc-error',
                bounds='every field, every positive mesh step; pressure grids of 3x3 to 5x5 points (thorough: up to 7x7, 4x4x4) in 2D and 3x3x3 in 3D, periodic or not per direction, 1, 2 or 4 processes, both velocity operators',
                outside='larger grids and process counts (the element kernel and the ghost exchange do not depend on them beyond the interior, face, edge and corner cases covered); rounding'),
    'C04': dict(quick=ASM, thorough=ASM_T, labels='assembled-.*|preconditioner-.*|petsc-error',
                bounds='every field, every positive mesh step; two-dimensional grids of 3x4 to 5x5 pressure points (thorough up to 7x7), periodic or not per direction, 1, 2, 3 or 4 processes, both velocity operators, conditions on every non-periodic face',
                outside='three-dimensional assembly (the problem class does not compile in 3D); rounding; multigrid itself'),
    'C05': dict(quick=OPS[:7] + ASM + PARTIAL + PARTIAL3, thorough=OPS_T + ASM_T + [R('ops', mx=3, my=3, mask=m, strain=m & 1, reach=['matrix-free']) for m in range(1, 256, 6)],
                labels='.*dirichlet.*|momentum|pieces-momentum|velocity-block|assembled-momentum',
                bounds='as C03 and C04, with conditions on all faces or on the listed subsets of (face, component) pairs',
                outside='condition functions that depend on more than the position and time arguments the library passes'),
    'C06': dict(quick=[R('ops', mx=3, my=4, reach=['matrix-free']), R('ops', mx=5, my=4, np=2, reach=['matrix-free']), R('ops', mx=3, my=3, per=3, reach=['matrix-free']),
                       R('ops', pieces=1, mx=4, my=3, np=2, reach=['pieces']),
                       R('ops', pieces=1, dim=3, mx=3, my=3, mz=3, mask=ALL3, reach=['pieces'], t=200)] + ASM[:4],
                labels='velocity-block.*|pressure-mass.*|velocity-diagonal|pieces-velocity-block.*|pieces-.*diagonal|pieces-pressure-mass|preconditioner-.*',
                bounds='every field, every positive mesh step; the grids listed in runs', outside='larger grids; rounding'),
    'C09': dict(quick=[A(p, what=w, reach=['boxes']) for p in (2, 3, 4, 5) for w in range(6)] + [A(6, reach=['touching']), A(7, reach=['touching']), A(8, reach=['iteration']), A(9, reach=['iteration'])],
                bounds='all boxes with ordered corners and all points, real coordinates or integers in [-50,50]; iteration: every integer corner in [-20,20], up to 3 points per direction',
                outside='boxes whose corners are not ordered'),
    'C10': dict(quick=[A(11, reach=['shapes']), A(12, reach=['shapes'])],
                bounds='all points, all positive mesh steps, all affine functions, all element indices in [-1000,1000], both dimensions', outside='rounding'),
    'C11': dict(quick=[A(0, reach=['vectors']), A(1, reach=['vectors', 'cross'])],
                bounds='all real components (rounding to integers: |x| < 1000), both dimensions', outside='rounding, overflow'),
    'C12': dict(quick=[A(13, reach=['rotations']), A(15, reach=['scaled-axis']), A(16, reach=['planar'])] + [A(14, dir=d, reach=['rodrigues']) for d in range(3)],
                bounds='all angles, all unit axes (unit length of the quaternion: all nonzero axes), all points',
                outside='rounding; sine and cosine are any functions with sin^2+cos^2=1, odd and even'),
    'C24': dict(quick=[A(10, reach=['linspace'])], bounds='all ends a<=b, 0 to 6 points, end included or not', outside='more points; rounding'),
}


def S(part, **k):
    return R('setup', part=part, reach=[['mesh'], ['vectors'], ['rhs'], ['rhs'], ['options'], ['levels'], ['nullspace'], ['solver']][part], **k)


PROPS['C01'] = dict(
    quick=[S(0), S(0, per=1), S(0, per=2), S(0, per=3), S(0, np=2, hi=24, sizes=0), S(0, np=2, hi=24, per=2), S(0, np=2, hi=24, per=3, sizes=0),
           S(0, np=3, hi=20, sizes=0), S(0, np=4, hi=14, sizes=0), S(0, np=4, hi=14, per=1, sizes=0), S(0, dim=3), S(0, dim=3, per=5), S(0, dim=3, per=2), S(0, dim=3, np=2, hi=12, sizes=0),
           S(0, lo=2, hi=9), S(0, np=2, lo=2, hi=8), S(0, np=4, lo=2, hi=6), S(0, np=4, lo=3, hi=6, per=1), S(0, np=3, lo=4, hi=6, per=3), S(0, dim=3, lo=2, hi=9, per=5),
           S(0, dim=3, np=2, lo=2, hi=5, sizes=0), S(0, dim=3, np=2, lo=3, hi=5, per=6, sizes=0)],
    thorough=[S(0, np=2, hi=400), S(0, np=3, hi=60, per=1), S(0, np=4, hi=40, per=3), S(0, np=6, hi=16, sizes=0), S(0, dim=3, np=2, hi=24, per=7), S(0, dim=3, np=4, hi=14, sizes=0), S(0, dim=3, np=4, lo=2, hi=4, sizes=0)],
    bounds='any number of pressure points per direction from 2 (3 or 4 when periodic) to 400 on one process, to 24 on 2, 20 on 3, 14 on 4 processes (3D: 400 on one, 12 on two), any cell and any point of it, periodic or not per direction',
    outside='more processes and points; the way PETSc places processes is modelled (and compared with the installed PETSc)')
PROPS['C16'] = dict(
    quick=[S(1, mx=3, my=4), S(1, mx=4, my=3, per=1, np=2), S(1, mx=4, my=4, per=2), S(1, mx=5, my=5, np=4), S(1, mx=5, my=5, np=4, per=3), S(1, dim=3, mx=3, my=3, mz=3), S(1, dim=3, mx=3, my=3, mz=4, np=2, per=1), S(1, dim=3, mx=3, my=3, mz=3, per=4), S(1, mx=7, my=4, np=3, per=1)],
    thorough=[S(1, mx=7, my=8, np=6), S(1, mx=7, my=6, np=3, per=2), S(1, dim=3, mx=4, my=4, mz=4, np=4, per=7)],
    bounds='every field; velocity, pressure, plain and composite vectors of grids from 3x4 to 5x5 (3D 3x3x4) on 1, 2 or 4 processes, periodic or not', outside='larger grids')
PROPS['C07'] = dict(
    quick=[S(2, mx=3, my=4), S(2, mx=4, my=4, np=2, mask=91, fmask=2), S(2, mx=3, my=3, per=1, assembled=1), S(2, mx=5, my=4, per=2, np=2, fmask=1), S(2, mx=3, my=3, mask=0), S(2, mx=5, my=5, np=4),
           S(3, mx=4, my=3, np=2, mask=51), S(3, mx=3, my=3, mask=165, fmask=0), S(3, dim=3, mx=3, my=3, mz=3), S(3, dim=3, mx=3, my=3, mz=3, mask=0x1c0e5, fmask=5), S(3, dim=3, mx=3, my=3, mz=4, np=2, per=1, t=200),
           S(3, dim=3, mx=3, my=3, mz=3, per=2), S(3, dim=3, mx=3, my=3, mz=3, per=4, mask=0x1c4e5), S(3, mx=4, my=5, per=2, np=4, mask=51)],
    thorough=[S(2, mx=7, my=6, np=4, mask=255), S(2, mx=6, my=7, np=3, per=1), S(3, dim=3, mx=4, my=4, mz=4, np=2, t=1500)] + [S(3, mx=3, my=3, mask=m, fmask=m % 4) for m in range(3, 256, 11)],
    bounds='every body force and boundary value that is a polynomial of the position (degree 2 and 1) with any coefficients, every positive domain length; grids of 3x3 to 5x5 points (3D 3x3x3, 3x3x4), listed subsets of conditions and force components, 1, 2 or 4 processes',
    outside='forces and boundary values that are not polynomials (only their values at the mesh points enter)')
PROPS['C21'] = dict(
    quick=[S(4, dim=d, given=g) for d in (2, 3) for g in (0xffff, 0)] + [S(4, given=37), S(4, given=0x1d2), S(4, dim=3, given=0x5a5), S(4, dim=3, given=0xa5a)],
    thorough=[S(4, dim=d, given=g) for d in (2, 3) for g in range(1, 512, 37)],
    bounds='any point count in [2,100000], any positive length, any flag values, for the listed subsets of options given', outside='malformed values, which PETSc parses')
PROPS['C25'] = dict(
    quick=[S(5, mx=5, my=5), S(5, mx=3, my=36), S(5, mx=5, my=9, levels=2), S(5, mx=5, my=5, per=1, strain=1), S(5, mx=5, my=9, np=2, strain=1), S(5, mx=9, my=9, np=4, mask=27),
           S(5, dim=3, mx=3, my=3, mz=3), S(5, dim=3, mx=3, my=3, mz=3, levels=2, mask=0), S(5, dim=3, mx=3, my=5, mz=3, strain=1), S(5, dim=3, mx=4, my=3, mz=3, per=1, mask=0x1c0e5)],
    thorough=[S(5, mx=9, my=17, levels=2, np=2), S(5, mx=17, my=9, levels=2, per=2, strain=1), S(5, mx=5, my=101), S(5, dim=3, mx=5, my=5, mz=5, levels=2, np=4, t=600), S(5, dim=3, mx=3, my=5, mz=9, levels=2, strain=1, t=600)],
    bounds='every field and every positive mesh step, two-dimensional grids of 3x36 to 9x9 pressure points, and 3x3x3 to 3x5x3 in space, the finest level and one or two coarser ones, 1, 2 or 4 processes, both viscous forms',
    outside='interpolation between levels, smoothers and cycles (PETSc)')
PROPS['C28'] = dict(
    quick=[S(6, mx=3, my=4), S(6, mx=4, my=3, strain=1), S(6, mx=4, my=4, per=1), S(6, mx=5, my=4, np=2), S(6, mx=5, my=5, np=4, strain=1)],
    thorough=[S(6, mx=7, my=6, np=3)],
    bounds='every positive mesh step, grids of 3x4 to 5x5, 1, 2 or 4 processes, conditions on every non-periodic face', outside='larger grids')


def G(part, **k):
    return R('shapes', part=part, reach=[['round'], ['ellipsoid'], ['boxes'], ['boxes'], ['parametric'], ['samples'], ['samples'], ['fluid-points'], ['surface-points'], ['particles']][part], **k)


PROPS['C32'] = dict(
    quick=[S(7, kind=1), S(7, kind=1, strain=1, mx=4, my=3, np=2), S(7, assembled=1), S(7, assembled=1, kind=2), S(7, assembled=1, kind=2, strain=1, np=2, mx=4, per=1),
           S(7, pmm=1, mx=4, my=5, levels=0), S(7, pmm=1, mx=5, my=6), S(7, pmm=1, mx=5, my=5, strain=1, mask=0x1b), S(7, pmm=1, mx=7, my=9, np=4, strain=1, per=1), S(7, dim=3, mx=3, my=4, mz=3, levels=0, t=200)]
    + [S(7, pmm=1, mx=m, my=n, levels=-1) for m, n in ((9, 17), (17, 9), (13, 33), (25, 21), (33, 9), (9, 33))]
    + [S(7, dim=3, mx=l, my=m, mz=n, levels=-1) for l, m, n in ((5, 9, 9), (9, 5, 9), (9, 9, 5), (3, 9, 9))],
    thorough=[S(7, pmm=1, mx=9, my=9, levels=2), S(7, pmm=1, mx=13, my=9, levels=1, np=3, strain=1), S(7, dim=3, mx=5, my=5, mz=6, levels=1, t=800), S(7, dim=3, mx=3, my=4, mz=4, strain=1, levels=0, np=2, per=4, mask=0x2353a, t=800)]
    + [S(7, pmm=1, mx=m, my=n, levels=-1) for m in range(3, 24, 4) for n in range(4, 30, 5)],
    bounds='every field and mesh step on the level grids listed in runs (pressure grids up to 7x9, 3x4x3; thorough up to 13x9, 5x5x6), level counts for the listed grids up to 25x33 and 9x9x9; conditions on all faces or some; 1, 2 or 4 processes; the Krylov solver itself is replaced by one that returns its right-hand side',
    outside='the Krylov iterations and the field-split algebra (PETSc); larger grids; rounding')
PROPS['C08'] = dict(
    quick=[G(0), G(0, rot=1), G(0, dim=3), G(0, dim=3, rot=2), G(0, dim=3, rot=5), G(1), G(1, rot=1), G(1, n=4), G(1, n=4, rot=1), G(1, n=1), G(1, dim=3), G(1, dim=3, rot=3), G(1, dim=3, n=4, e=2), G(1, dim=3, n=4, e=2, rot=4),
           G(1, dim=3, n=2, e=4), G(2), G(2, rot=1), G(2, dim=3), G(2, dim=3, rot=2), G(2, dim=3, rot=3), G(2, dim=3, rot=4), G(2, dim=3, rot=5), G(2, dim=3, rot=6), G(3), G(3, dim=3),
           G(4), G(4, n=4), G(4, n=1), G(4, dim=3), G(4, dim=3, n=4), G(4, dim=3, e=4)],
    thorough=[G(0, dim=3, rot=r) for r in (3, 4, 6, 7, 8, 9)] + [G(1, dim=3, rot=r, t=200) for r in (2, 4, 5, 6, 7)] + [G(1, dim=3, n=4, e=2, rot=r, t=200) for r in (2, 3, 5, 8)] + [G(2, dim=3, rot=r) for r in (7, 8, 9)],
    bounds='every centre, radius, shape factor and point; exponents 1, 2 and 4; every rotation in the plane and about one axis of space, and general rotations of a list of rational quaternions; mesh boxes: every mesh step with |coordinate / step| < 10^6',
    outside='other exponents; general three-dimensional rotations outside the list; rounding; sine and cosine are any functions with sin^2+cos^2=1')
PROPS['C22'] = dict(
    quick=[G(5, k=0), G(5, k=1, rot=1), G(5, k=2, n=4), G(5, k=5, n=1), G(5, k=4), G(5, k=6), G(5, k=3, n=4, rot=1), G(6, lo=80), G(5, dim=3, k=0, k2=1), G(5, dim=3, k=1, k2=0, n=4, e=2), G(5, dim=3, k=1, k2=0, n=2, e=4, rot=2), G(5, dim=3, k=2, k2=2, rot=5),
           G(5, dim=3, k=4, k2=4, t=120), G(5, dim=3, k=7, k2=1, t=120), G(5, dim=3, k=1, k2=7, t=120), G(5, dim=3, k=3, k2=2)],
    thorough=[G(5, k=k, n=n) for k in range(8) for n in (1, 2, 4)] + [G(5, dim=3, k=k, k2=j, n=n, e=e) for k, j in ((3, 2), (4, 3), (7, 4)) for n, e in ((2, 2), (4, 2), (2, 4), (4, 4))],
    bounds='every centre and every radii; sampling steps from a list between 0.13 and 1.2 and every single step above 0.8; exponents 1, 2 and 4; rotations as C08', outside='other steps and exponents; rounding (samples within 1e-9 of the surface)')
PROPS['C26'] = dict(
    quick=[G(7), G(7, dim=3), G(7, lo=-1), G(7, lo=-2, dim=3), G(8), G(8, dim=3), G(8, n=2), G(8, n=3), G(8, n=2, dim=3), G(9), G(9, dim=3)],
    thorough=[G(8, n=4, t=600), G(8, n=3, dim=3, t=600)],
    bounds='any shape (every subset of the points of 3x2 and 2x2x2 boxes), any box corners in [-1000,1000], any surface points with |coordinate / step| < 10^5, any mesh step; up to 3 surface points (4 thorough)', outside='larger boxes, more surface points; rounding')


def W(part, **k):
    return R('sem', part=part, **k)


T3 = dict(dim=3, mx=3, my=3, mz=3)
PROPS['C27'] = dict(
    quick=[W(0), W(0, np=2), W(0, parts=1, np=4, mx=5, my=5), W(0, parts=2, np=4, mx=5, my=5, per=3), W(0, **T3), W(0, scale=1, move=2, tsym=0)],
    thorough=[W(0, parts=2, np=3, mx=6, my=5, per=1), W(0, np=2, parts=1, **T3), W(0, scale=1, move=2, half=1, tsym=0, mx=5, my=5, t=800), W(0, scale=2, move=2, tsym=0, t=800)],
    bounds='grids of 4 to 6 points per direction, 3 in space; one particle, or two also cut by the boundary; 1 to 4 processes; every position of the surface points within their cells, every centre and mesh step; membership: ellipses of one to two steps, also shifted by any amount up to half a step', outside='other shapes and sizes; more particles')
PROPS['C13'] = dict(
    quick=[W(1), W(1, np=2), W(1, parts=2, np=4, mx=5, my=5, per=1), W(1, tsym=0, **T3), W(1, npts=2, **T3), W(1, parts=1, np=2, mx=5, mask=0), W(1, parts=1, np=2, npts=2, **T3)],
    thorough=[W(1, parts=2, np=4, mx=5, my=5, per=3), W(1, parts=1, np=3, mx=6, my=5), W(1, parts=1, np=2, npts=3, t=600, **T3)],
    bounds='as C27, every field, layer and rigid motion', outside='other shapes, sizes, number of particles')
PROPS['C15'] = dict(
    quick=[W(2), W(2, np=2), W(2, parts=2, np=4, mx=5, my=5, per=1), W(2, **T3), W(2, scale=1, move=2, npts=2), W(2, np=2, parts=1, **T3)],
    thorough=[W(2, parts=1, np=3, mx=6, my=5), W(2, np=2, parts=1, **T3), W(2, scale=1, move=2, half=1, tsym=0, mx=5, my=5, t=800)],
    bounds='as C27, every field and rigid motion; 4 (1 with moved particles) samples per cell and direction', outside='other shapes, sizes, number of particles')
PROPS['C17'] = dict(
    quick=[W(3), W(3, full=0, forces=0), W(3, full=1, forces=0, np=2), W(3, full=0, forces=1, mask=0), W(3, full=0, forces=0, parts=1, np=2, mx=5, my=5), W(3, parts=2, np=4, mx=5, my=5, per=1), W(3, np=2, **T3), W(3, mask=0xa6, per=2)],
    thorough=[W(3, parts=1, np=3, mx=6, my=5), W(3, parts=1, np=4, **T3), W(3, scale=1, move=2, half=1, tsym=0, t=800)],
    bounds='as C27, every control, force, density and boundary value', outside='other shapes, sizes, number of particles')
PROPS['C14'] = dict(
    quick=[W(4), W(4, np=2), W(4, parts=2, np=4, mx=5, my=5, per=1), W(4, np=2, **T3), W(4, scale=1, move=2, tsym=0), W(5, tsym=0, twice=0), W(5, tsym=0, twice=0, parts=1, np=3, mx=6, my=5)],
    thorough=[W(4, parts=1, np=3, mx=6, my=5), W(4, np=4, parts=1, **T3), W(4, scale=1, move=2, half=1, tsym=0, mx=5, my=5, t=800), W(4, dim=3, scale=1, move=1, half=1, tsym=0, t=400)],
    labels='.*force|.*torque|petsc-error|control-.*',
    bounds='as C27, every control, volume and centre', outside='other shapes, sizes, number of particles; singular forces')
PROPS['C18'] = dict(
    quick=[W(5, tsym=0), W(5, tsym=0, np=2, parts=1, mx=5), W(6, tsym=0), W(6, tsym=0, parts=2, np=4, mx=5, my=5, per=3), W(5, tsym=0, parts=2, np=4, mx=5, my=5, per=1), W(5, tsym=0, t=200, **T3)],
    thorough=[W(6, t=300), W(5, t=600), W(5, tsym=0, np=2, twice=0, t=600, **T3)],
    bounds='as C27; the fluid solver is replaced by the identity (its solution is its right-hand side) and the control solver by one that returns its right-hand side, so that every other operation of the control problem is compared exactly; offsets of the surface points in their cells fixed in the quick runs', outside='the Krylov iterations themselves; singularities (C19); DtoN in space (its last step does not compile)')


def V(part, **k):
    return R('sing', part=part, **k)


PROPS['C19'] = dict(
    quick=[V(0, reach=['inside', 'between', 'outside']), V(3)]
    + [V(1, what=w, opaque=1) for w in (0, 1, 2)] + [V(2, what=w, opaque=1) for w in (0, 1, 2, 4)] + [V(2, what=3)]
    + [V(4, dim=2, dir=d, opaque=1) for d in (0, 1, 2, 3)]
    + [V(4, dim=3, dir=d, opaque=1) for d in (0, 1, 2)] + [V(4, dim=3, dir=d, opaque=1, slide=1) for d in (0, 4)]
    + [V(5, dim=d, scene=s, fine=64) for d in (2, 3) for s in range(7)] + [V(5, dim=3, scene=s, slide=1) for s in (1, 3)] + [V(5, dim=3, scene=20 + o, rim=r, fine=64) for o in (0, 2, 4, 6) for r in (1, 2)],
    thorough=[V(4, dim=2, dir=d, opaque=1) for d in (4, 5, 6)] + [V(4, dim=3, dir=d, opaque=1) for d in (3, 4, 5, 6)]
    + [V(4, dim=3, dir=d, opaque=1, slide=1) for d in (1, 2, 3, 5, 6)]
    + [V(5, dim=d, scene=s) for d in (2, 3) for s in range(7)],
    bounds='every curvature, gap, relative velocity, truncation length and point; any truncation function of the distance to the axis (its values and derivatives are free symbols, the real one is examined on its own); 7 directions of the axis in each dimension, any centres; boxes: 7 scenes per dimension and a general one in each octant with radii .5 and .4 and gap .01, every point of the gap',
    outside='other directions of the axis; particles that are not circles or spheres; the tangential fields, which the library does not use')
PROPS['C31'] = dict(
    quick=[V(6, dim=2, scene=0), V(6, dim=2, scene=1, np=2), V(6, dim=2, scene=7, np=4, n=5), V(6, dim=2, scene=1, np=2, last=1), V(6, dim=2, scene=7, last=1),
           V(6, dim=2, scene=8), V(6, dim=2, scene=9, np=2), V(6, dim=2, scene=10), V(6, dim=2, scene=10, last=1), V(6, dim=3, scene=2, t=300)]
    + [V(7, dim=2, scene=s, reach=['particles']) for s in (1, 3, 7)] + [V(7, dim=2, scene=7, ctx=1, N=5, reach=['particles']), V(7, dim=2, scene=10, reach=['none'])]
    + [V(7, dim=3, scene=s, reach=['particles']) for s in (0, 2, 8)] + [V(7, dim=3, scene=4, ctx=1, N=4, reach=['particles']), V(7, dim=3, scene=10, reach=['none'])],
    thorough=[V(6, dim=2, scene=s, np=3, n=5) for s in (2, 3, 4, 5, 6)] + [V(6, dim=2, scene=s, last=1, np=4, n=5) for s in (2, 3, 5)]
    + [V(6, dim=3, scene=s, t=900) for s in (0, 1, 3, 4, 5, 6)] + [V(6, dim=3, scene=2, np=2, t=900), V(6, dim=3, scene=4, np=4, n=3, t=1800)]
    + [V(7, dim=2, scene=s, N=20, reach=['particles']) for s in (0, 2, 4, 5, 6)] + [V(7, dim=3, scene=s, N=12, reach=['particles']) for s in (1, 3, 5, 6)],
    bounds='geometry fixed (12 scenes: two and three particles in 7 directions, far apart, alone, none; 6 to 8 cells per direction in 2D, 2 to 4 in 3D; 1 to 4 processes); every velocity of the particles in [-1,1] and every initial field; coefficients computed in double precision, equality up to 1e-7 (1e-5 for forces)',
    outside='other positions, radii and steps; the accuracy of the quadrature')


def Q(part, **k):
    return R('post', part=part, reach=['interpolated' if part == 0 else 'saved'], **k)


PROPS['C30'] = dict(
    quick=[Q(0), Q(0, rx=3, ry=2, np=2), Q(0, rx=1, ry=4), Q(0, per=1, mx=4, np=3, rx=3, ry=1), Q(0, per=2, my=4, mx=3, np=2), Q(0, per=3, mx=4, my=5, rx=2, ry=3, np=4), Q(0, mx=5, my=5, np=4, rx=4, ry=3),
           Q(0, dim=3, t=200), Q(0, dim=3, per=5, mx=3, mz=3, rx=1, ry=2, rz=3, t=200), Q(0, dim=3, np=2, mx=3, my=2, mz=3, rx=2, ry=1, rz=2, t=200)],
    thorough=[Q(0, mx=6, my=7, rx=5, ry=7, np=4), Q(0, mx=7, my=5, rx=7, ry=2, np=3, per=2), Q(0, dim=3, mx=3, my=4, mz=3, rx=3, ry=2, rz=4, np=4, t=600),
              Q(0, dim=3, mx=4, my=3, mz=4, per=7, rx=2, ry=3, rz=2, np=4, t=600)],
    labels='refined-size|refined-periodicity|refined-dof|refined-owned|refined-velocity|refined-pressure|solution-unchanged|petsc-error',
    bounds='every field (velocity and pressure) and every mesh step; meshes up to 5x5 (3D 3x3x3) pressure points, refinement factors 1 to 4 that differ between the directions (thorough 7x7, 4x4x4, factors to 7), periodic directions, 1 to 4 processes',
    outside='larger meshes and factors')
PROPS['C20'] = dict(
    quick=[Q(1), Q(1, np=2), Q(1, mx=4, per=1, np=3), Q(1, mx=3, my=4, per=2, np=2), Q(1, mx=4, my=4, per=3, np=4), Q(1, mx=5, my=3, np=4)],
    thorough=[Q(1, mx=a, my=b, per=p, np=n) for a, b, p, n in ((9, 4, 0, 4), (4, 11, 1, 3), (12, 12, 3, 4), (2, 2, 0, 1), (2, 7, 0, 2), (7, 2, 2, 2))],
    labels='saved-.*|description-.*|solution-unchanged|petsc-error',
    bounds='every field and mesh step; meshes of 3 to 5 (thorough 12) pressure points per direction, periodic directions, 1 to 4 processes; the text of the description is produced by the real code through stand-ins of the standard streams, its numbers stay symbolic',
    outside='save_hdf5 in three dimensions (it does not compile: the description exists in two dimensions only); the HDF5 and stream libraries themselves; reading the files with an XDMF reader')

# the same after another problem (other mesh, lengths, conditions, particles) was treated in the same program
F = dict(first=1)
F2 = dict(first=2)
for _p, _l in {
    'C03': [R('ops', mx=3, my=4, reach=['matrix-free'], strain1=1, per1=3, **F), R('ops', mx=4, my=4, np=2, strain=1, strain1=0, reach=['matrix-free'], **F), R('ops', pieces=1, mx=3, my=4, mask1=0, reach=['pieces'], **F),
            R('ops', pieces=1, dim=3, mx=2, my=3, mz=3, mask=ALL3, mask1=0x1c0e5, strain1=1, reach=['pieces'], t=200, **F)],
    'C04': [R('ops', assembled=1, mx=3, my=4, strain1=1, reach=['assembled'], **F), R('ops', assembled=1, mx=4, my=4, np=2, per1=1, strain=1, strain1=0, reach=['assembled'], **F), R('ops', assembled=1, pieces=1, mx=3, my=4, reach=['assembled'], **F)],
    'C05': [R('ops', mx=3, my=4, mask=0x1b, mask1=0xd6, reach=['matrix-free'], **F), R('ops', assembled=1, mx=4, my=4, per1=2, reach=['assembled'], **F)],
    'C06': [R('ops', mx=3, my=4, strain1=1, reach=['matrix-free'], **F), R('ops', assembled=1, mx=4, my=3, strain1=1, reach=['assembled'], **F)],
    'C01': [S(0, np=2, lo=3, hi=9, per1=3, **F), S(0, dim=3, lo=3, hi=9, per1=7, **F)],
    'C07': [S(2, mx=3, my=4, mask1=91, fmask1=2, **F), S(2, mx=4, my=4, np=2, per1=3, mask=91, **F), S(3, dim=3, mx=2, my=3, mz=3, mask1=0x1c0e5, fmask1=5, **F)],
    'C16': [S(1, mx=3, my=4, np=2, per1=3, **F), S(1, dim=3, mx=2, my=3, mz=3, per1=5, **F)],
    'C25': [S(5, mx=5, my=5, strain1=1, mask1=27, **F), S(5, dim=3, mx=3, my=3, mz=3, strain1=1, **F)],
    'C28': [S(6, mx=3, my=4, strain1=1, per1=1, **F), S(6, mx=4, my=4, np=2, **F)],
    'C32': [S(7, strain1=1, **F), S(7, assembled=1, mx=4, np=2, strain1=1, **F), S(7, pmm=1, mx=4, my=5, levels=0, strain1=1, **F)],
    'C27': [W(0, np=2, per1=3, **F), W(0, parts=1, mx=5, my=5, **F), W(0, **F, **T3), W(0, parts=1, mx=6, my=5, **F2)],
    'C13': [W(1, np=2, parts=1, mx=5, mask1=0, **F), W(1, tsym=0, **F, **T3), W(1, mx=5, parts=1, **F2)],
    'C15': [W(2, **F), W(2, np=2, parts=1, mask1=0, **F), W(2, mx=6, parts=1, npts=2, **F2)],
    'C17': [W(3, np=2, parts=1, full1=0, forces1=0, **F), W(3, full=0, forces=0, full1=1, forces1=1, **F), W(3, full=0, **F, **T3), W(3, mx=6, parts=1, **F2)],
    'C14': [W(4, np=2, parts=1, **F), W(5, tsym=0, twice=0, mx=5, parts=1, **F2)],
    'C18': [W(5, tsym=0, twice=0, mx=6, parts=1, strain1=1, **F2), W(6, tsym=0, twice=0, mx=6, parts=1, per1=1, **F2)],
}.items():
    PROPS[_p]['quick'] = PROPS[_p]['quick'] + _l
    PROPS[_p]['bounds'] += '; some grids also after another problem (other mesh, lengths, conditions) in the same program'
