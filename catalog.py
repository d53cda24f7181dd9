#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR of the real headers, assertions decided by SMT (z3, cvc5), counterexamples replayed natively'
NOTE = 'all real-valued inputs within the stated grid sizes; exact real arithmetic; PETSc and MPI modelled, model compared with the installed PETSc on sampled paths in every run'
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=k.get('observe', []), hook_needed=None)))
    if k.get('na'):
        NA.append(dict(property=id, reason=k['na']))
    else:
        P[-1]['_note'] = k.get('note', NOTE)


RUNS = 'the tests only check that a few fixed configurations run to the end or compare one analytic solution loosely; '
prop('C02', 'Element matrices are exact integrals',
     'For every positive mesh step in each direction, the elementary mass, Laplacian, strain-tensor and pressure/divergence matrices, in the form used for direct application and in the form used for assembly, equal the exact integrals of products of the multilinear basis functions and their derivatives over one cell. This holds in two and three dimensions.',
     ['inputs'], 'all positive steps h, every entry', RUNS + 'no entry is compared, and a wrong entry only changes an error norm slightly on the grids sampled',
     ['cafes/fem/matElem.hpp'], [('element matrices by tensor products', 'cafes/fem/matElem.hpp')])
prop('C03', 'Matrix-free Stokes operator is the discrete weak form',
     'Applying the matrix-free operator (its velocity block with either viscous form, pressure gradient, divergence, and mass products) to any velocity and pressure field gives, at every grid point not constrained by a boundary condition, the weak form of the finite element discretisation: Q1 velocity on the fine grid, Q1 pressure on the grid twice as coarse. The result is the same for every periodicity, anisotropic mesh step and number of processes.',
     ['inputs', 'configurations'], 'all fields and positive mesh steps; periodicity per direction, two and three dimensions, process counts, viscous form',
     RUNS + 'linear operators are only seen through one right-hand side and one process', ['cafes/fem/operator.hpp', 'cafes/fem/matrixFree.hpp', 'cafes/problem/stokes.hpp', 'cafes/petsc/vec.hpp'],
     [('element-wise application with ghost exchange', 'cafes/fem/operator.hpp'), ('shell matrix products', 'cafes/problem/matMult.hpp')])
prop('C04', 'Assembled matrices equal the matrix-free operator',
     'When the problem is assembled, multiplying by the system matrix gives the same result as the matrix-free operator for every field, including rows of constrained points, and the assembled preconditioner holds the velocity block and the pressure mass matrix. Assembly never needs an entry that was not preallocated and raises no error.',
     ['inputs', 'configurations'], 'all fields and mesh steps; grids, periodicity, processes, viscous form', RUNS + 'assembled and matrix-free runs are never compared',
     ['cafes/fem/assembling.hpp', 'cafes/problem/stokes.hpp'], [('element assembly and preallocation', 'cafes/fem/assembling.hpp')])
prop('C05', 'Dirichlet conditions constrain exactly their points',
     'A velocity component with a prescribed condition on a non-periodic face is constrained at exactly the points of that face: there the operator acts as the identity on that component, in matrix-free form, and in assembled form when all components of all non-periodic faces have a condition, as assembly assumes. All other components and points keep the unconstrained operator.',
     ['inputs', 'configurations'], 'all fields; subsets of (face, component) conditions, periodicity, processes', RUNS + 'one set of conditions, on all faces, is used',
     ['cafes/fem/bc.hpp', 'cafes/problem/stokes.hpp'], [('boundary loops', 'cafes/fem/bc.hpp')])
prop('C06', 'Preconditioner blocks and diagonals are those of the operator',
     'The preconditioner is the velocity block (with the boundary conditions) and the pressure mass matrix. The diagonals reported for matrix-free blocks are those of the Laplacian velocity block and of the mass matrix, and each is the one a basis vector would give.',
     ['inputs', 'configurations'], 'all mesh steps; grids, periodicity, processes', RUNS + 'a wrong preconditioner only changes iteration counts',
     ['cafes/fem/matrixFree.hpp', 'cafes/fem/operator.hpp', 'cafes/problem/stokes.hpp'], [('diagonal kernels', 'cafes/fem/operator.hpp')])
prop('C09', 'Boxes and box iteration',
     'For all boxes with ordered corners: the point test accepts exactly the half-open box, the intersection test and the touching test are true exactly when the closed boxes meet, the overlap is the set intersection, the union is the smallest box holding both, restriction of one box to another keeps exactly the common points when they meet and never leaves the first box, and lengths, volume and corners are the coordinates\' differences, product and combinations. Iterating over an integer box visits each point of the half-open box once, first direction fastest.',
     ['inputs'], 'all boxes and points of int or double, both dimensions', RUNS + 'boxes are not tested',
     ['cafes/particle/geometry/box.hpp', 'cafes/algorithm/iterate.hpp'], [('box algebra', 'cafes/particle/geometry/box.hpp'), ('recursive iteration', 'cafes/algorithm/iterate.hpp')])
prop('C10', 'Shape functions and element connectivity',
     'At every point and for every positive mesh step the multilinear shape functions sum to one, are one at their own node and zero at the others, and reproduce every affine function, and the gradient kernel returns the exact derivative times the product of the mesh steps. The nodes of an element are listed in lexicographic order from its lower corner, on the pressure grid and on the refined velocity grid.',
     ['inputs'], 'all points, steps and element indices, both dimensions', RUNS + 'interpolation is tested at a few points',
     ['cafes/fem/quadrature.hpp', 'cafes/fem/mesh.hpp'], [('P1 integration', 'cafes/fem/quadrature.hpp'), ('element nodes', 'cafes/fem/mesh.hpp')])
prop('C11', 'Vector, position, force and velocity algebra',
     'Sums, differences, negation, componentwise and scalar products and quotients of vectors, positions, forces and velocities, in plain and assigning form, are the componentwise operations with the stated signs. The cross products are antisymmetric, orthogonal to their arguments and right-handed in two (scalar rotation) and three dimensions, and floor, ceil and truncation to integer positions are the mathematical ones.',
     ['inputs'], 'all real components, both dimensions', RUNS + 'a sign error in one overload is invisible when that overload is unused in the sampled runs',
     ['cafes/particle/geometry/vector.hpp', 'cafes/particle/geometry/position.hpp', 'cafes/particle/geometry/cross_product.hpp', 'cafes/particle/physics/force.hpp', 'cafes/particle/physics/velocity.hpp'],
     [('operators', 'cafes/particle/geometry/vector.hpp')])
prop('C12', 'Rotations are rotations',
     'A quaternion built from an angle and a unit axis is a unit quaternion whose action is the right-handed rotation by that angle about that axis (Rodrigues formula): linear, keeping lengths and the axis, undone by the conjugate. A quaternion built from an angle alone rotates the plane by that angle, a default one is no rotation, and any nonzero axis still gives a unit quaternion.',
     ['inputs'], 'all angles, axes and points', RUNS + 'rotated particles are not tested', ['cafes/particle/geometry/quaternion.hpp'], [('rotation matrix of a quaternion', 'cafes/particle/geometry/quaternion.hpp')])
prop('C24', 'Evenly spaced samples',
     'Asking for n evenly spaced numbers between two ends returns exactly n numbers, starting at the first end, evenly spaced, never outside the interval, and ending at the second end when it is included and n is at least two.',
     ['inputs'], 'all ends, counts 0 to 6', RUNS + 'not tested', ['cafes/particle/geometry/linspace.hpp'], [('linspace', 'cafes/particle/geometry/linspace.hpp')])

exec(open(os.path.join(HERE, 'catalog_more.py')).read()) if os.path.exists(os.path.join(HERE, 'catalog_more.py')) else None
P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
na = {x['property'] for x in NA}
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking', level_note=p['_note']) for p in P if p['id'] not in na],
           not_applicable=NA, notes='No hooks in /repo. Known and fixed defects: KNOWN_FINDINGS. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
