"""Single source for properties.jsonl and MANIFEST.json (python3 mkmeta.py rewrites both)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
SRC = 'src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', technique=None, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, technique=technique, observe=observe, thorough=thorough))
SYM = 'contracts on the real C++ functions, discharged by symbolic execution of the clang AST + normal form/z3'
GENP = SYM + ' + identity testing over GF(p)'
WHY = 'Tests run %s; the quantifier ranges over all inputs.'

prop('C01', 'Dense vector and matrix algebra is exact textbook algebra',
 'For every size and every content, sums, differences, scalings, negations, inner/matrix/outer/cross products, transposes, stackings, segments, sub-blocks, norms, identity and diagonal construction and conversions of dense vectors and matrices give the textbook result with the textbook shape. Operators that return a new value never change their operands, compound assignments change only their target, and no element outside an operand is read or written.',
 ['inputs'], 'all sizes and all entries (as reals)', WHY % 'a few fixed small matrices inside whole-analysis regressions', [SRC + 'LinearAlgebra/Models/Vector.h', SRC + 'LinearAlgebra/Models/Matrix.h'],
 [dict(name='Vector/Matrix operators', where='src/LinearAlgebra/Models/Matrix.h, Vector.h')], note='all sizes symbolic; arithmetic over the reals', technique=SYM)
prop('C02', 'Dense determinant and inverse',
 'The determinant of every square dense matrix equals the Leibniz/Laplace determinant, and the inverse of every matrix with non-zero determinant is its two-sided inverse. Neither computation changes its operand.',
 ['inputs'], 'all square matrices; 1x1..3x3 closed forms, larger sizes by an induction step on the recursion', WHY % '2x2 and 3x3 Jacobians of a few meshes', [SRC + 'LinearAlgebra/Models/Matrix.h'],
 [dict(name='Matrix::Determinant, Matrix::Inverse, Matrix::Cofactor', where='src/LinearAlgebra/Models/Matrix.h')], note='closed forms for n<=4, induction step for every n>=2', technique=SYM)
prop('C03', 'Dense vectors and matrices have value semantics and own their storage',
 'A vector or matrix constructed, copied, converted or assigned in any way (including default construction, self assignment, assignment from or to an empty one, and size changes) holds exactly the values it should and storage no other object shares. Every allocation is released exactly once: nothing leaks, nothing is freed twice, nothing is used after release.',
 ['inputs', 'histories'], 'all sizes and every construct/copy/assign/destroy step from any valid state', WHY % 'complete analyses without looking at ownership', [SRC + 'LinearAlgebra/Models/Vector.h', SRC + 'LinearAlgebra/Models/Matrix.h'],
 [dict(name='constructors, operator=, destructors', where='src/LinearAlgebra/Models/Matrix.h, Vector.h')], note='ownership invariant per operation (induction over histories)', technique=SYM + ' over an explicit heap')
prop('C11', 'Shape functions interpolate and their derivatives are exact',
 'For every element shape (lines, triangles, squares, tetrahedra, cubes, low and high order) the shape functions are one at their own node and zero at the others, sum to one everywhere and reproduce the local coordinates. The published derivatives are the exact partial derivatives, and the node, point and function counts agree.',
 ['inputs'], 'every local coordinate of every element shape', WHY % 'the few integration points of the analyses they run', [SRC + 'FEM/Controller/ShapeFunction.h'],
 [dict(name='ShapeFunction*::N, dNdr, Points', where='src/FEM/Controller/ShapeFunction.h')], note='polynomial identities over the local coordinates', technique=SYM)
prop('C12', 'Quadrature rules integrate exactly to their order',
 'Every integration rule has as many points and weights as it announces, points inside the reference element, and integrates every polynomial up to the degree its point count promises exactly over the reference line, square, triangle, tetrahedron or cube.',
 ['inputs', 'configurations'], 'every rule and every polynomial of the promised degree', WHY % 'two or three rules through converged displacement fields', [SRC + 'FEM/Controller/GaussIntegration.h', SRC + 'FEM/Controller/NewtonCotesIntegration.h'],
 [dict(name='Gauss*/NewtonCotes* tables', where='src/FEM/Controller/GaussIntegration.h, NewtonCotesIntegration.h')], note='all monomials of the promised degree', technique=SYM)
prop('C13', 'Linear elastic element matrices realise the virtual work form',
 'For every element geometry, material and thickness, the stiffness matrices of the plane strain, plane stress, general plane, selectively reduced, B-bar, incompatible mode, solid, truss, beam and shell elements (and the homogenisation load and constitutive matrices) equal the quadrature of the corresponding strain energy form and are symmetric. Every row and column of the element matrix is mapped to the right degree of freedom of the right node.',
 ['inputs', 'configurations'], 'all nodal coordinates, node numberings, material parameters, and element/quadrature pairs', WHY % 'a handful of meshes with one material each', [SRC + 'FEM/Equation/PlaneStrain.h', SRC + 'FEM/Equation/PlaneStress.h', SRC + 'FEM/Equation/Solid.h', SRC + 'FEM/Equation/Shell.h', SRC + 'FEM/Equation/Beam.h', SRC + 'FEM/Equation/Truss.h', SRC + 'FEM/Equation/Homogenization.h'],
 [dict(name='element integrators', where='src/FEM/Equation/*.h')], note='symbolic identities; identity testing at generic points over GF(2^61+24039) for the large elements', technique=GENP)
prop('C14', 'Finite deformation elements: residual and consistent tangent',
 'For every reference geometry, displacement state and material, the internal force of the total and updated Lagrangian plane strain and solid elements is the virtual work of their stress, and the tangent matrix is the exact derivative of that force with respect to the displacements; both are symmetric where the energy form is. Rigid translations of an unstressed element produce no force, and the follower pressure load and its tangent follow the deformed edge.',
 ['inputs'], 'all nodal coordinates, displacements and parameters', WHY % 'one load path per element, where a wrong tangent only slows Newton iterations down', [SRC + 'FEM/Equation/PlaneStrain.h', SRC + 'FEM/Equation/Solid.h'],
 [dict(name='*TotalLagrange, *UpdatedLagrange, *SurfacePressureUpdatedLagrange', where='src/FEM/Equation/PlaneStrain.h, Solid.h')], note='identity testing over GF(p) with dual numbers for the derivative', technique=GENP)
exec(open(os.path.join(H, 'mkmeta2.py')).read()) if os.path.exists(os.path.join(H, 'mkmeta2.py')) else None
NA = globals().get('NA', [])
def main():
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            a = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
            if p['observe']: a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    na = {n['property'] for n in NA}
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy, numpy"', 'checks': [], 'not_applicable': NA}
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in na: continue
        c = {'property': p['id'], 'quick_cmd': 'python3-vt cppvc/check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt cppvc/check.py %s thorough' % p['id'],
             'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'] or SYM, 'level': p['level'], 'level_note': p['note']}
        m['checks'].append(c)
    json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
main()
