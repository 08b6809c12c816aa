"""Writes properties.jsonl and MANIFEST.json (run by hand)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INPUTS = ['inputs', 'configurations']
TESTS = ('The tests sample a few small meshes (a handful of synthetic complexes of fixed size, mostly unweighted, unit radius, float coordinates, one batch '
         'shape) and compare single numbers; the property quantifies over all sizes, classes, dimensions and options.')
AI = 'abstract interpretation of the Python source (shapes, element kinds, units, aliases, types) over symbolic inputs'

P = []


def three(text):
    """at most three sentences: the clauses of a list are separated by semicolons"""
    s = text.split('. ')
    if len(s) <= 3:
        return text
    n = -(-len(s) // 3)
    return '. '.join('; '.join(s[i:i + 1] + [t[:1].lower() + t[1:] for t in s[i + 1:i + n]]) for i in range(0, len(s), n))


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=None, na=None):
    if isinstance(over, str):
        over, text = INPUTS, over + ' (' + text + ')'
    P.append(dict(id=id, title=title, statement=three(statement), quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  _technique=technique, _note=note, _na=na))


ALLCX = ['pycomplex/complex/base.py', 'pycomplex/complex/simplicial/base.py', 'pycomplex/complex/simplicial/euclidian.py',
         'pycomplex/complex/simplicial/spherical.py', 'pycomplex/complex/cubical.py', 'pycomplex/complex/regular.py']
ALLTP = ['pycomplex/topology/primal.py', 'pycomplex/topology/base.py', 'pycomplex/topology/simplicial.py', 'pycomplex/topology/cubical.py', 'pycomplex/topology/dual.py', 'pycomplex/topology/util.py']
STEN = ['pycomplex/stencil/topology.py', 'pycomplex/stencil/complex.py', 'pycomplex/stencil/operator.py', 'pycomplex/stencil/block.py', 'pycomplex/stencil/linear_system.py', 'pycomplex/stencil/equation.py', 'pycomplex/stencil/diffusion.py', 'pycomplex/stencil/multigrid.py']
GEOM = ['pycomplex/geometry/euclidian.py', 'pycomplex/geometry/spherical.py', 'pycomplex/geometry/regular.py', 'pycomplex/math/linalg.py']
NOTE = ('The verdict comes from inspecting the source: every store, call and result of the listed operations is followed on all paths with symbolic sizes. '
        'Assumes the models of numpy/scipy primitives; where the analysis cannot tell it stays silent and counts the place as undecided in the evidence.')

prop('C01', 'Operations leave their arguments and earlier results unchanged',
     'No public operation on a topology, complex, operator, stencil system or geometry function modifies an array, list, dictionary or object that was passed to it, the object it is called on, '
     'or any value an earlier call or lazily computed attribute has handed out. Results are delivered only through return values; deriving a mesh (subdividing, selecting, transforming, orienting, smoothing) leaves the original mesh as it was.',
     ['inputs', 'histories'], 'all public operations, all argument kinds, any sequence of calls on shared objects',
     'Tests call each operation once on a freshly built mesh and do not look at the inputs afterwards, nor at lazily computed attributes that two later calls share.',
     ALLCX + ALLTP + STEN + GEOM, [('copy-based updates', 'BaseComplex.copy and the functional style of every derived mesh'), ('lazily computed attributes', 'cached_property throughout')], note=NOTE)
prop('C02', 'Operations are deterministic and keep no hidden state',
     'The result of every public operation is a function of its arguments alone: it does not depend on random numbers, uninitialised memory, the clock or the environment, and no operation stores '
     'anything in modules, classes or default arguments. Only the explicit file reading and writing operations touch files.',
     ['inputs', 'histories'], 'all public operations and all call histories',
     'A test that runs an operation once sees one history; stale state, an unset array element or a random seed shows only on later calls or other sizes.',
     ALLCX + ALLTP + STEN + GEOM + ['pycomplex/sparse.py', 'pycomplex/solvers.py', 'pycomplex/synthetic.py'], [('pure functions', 'module functions of geometry, math, sparse and topology.util'), ('full initialisation', 'np.empty followed by assignment of every element')], note=NOTE)
prop('C03', 'Arrays are indexed and sized by the element kind they belong to',
     'For a mesh with any numbers of elements of each dimension, every array or operator handed out has the documented sizes in terms of those numbers: one row per element of the documented dimension (primal, dual or boundary), '
     'operators map between the documented element kinds, and derived meshes have the element counts their construction implies. Indices of one kind of element are never used to address another, and no operation combines arrays whose sizes agree only by accident.',
     INPUTS, 'all element counts, dimensions 1 to 4, closed and open meshes, weighted and unweighted, all complex classes and stencil grids',
     TESTS, ALLTP + ALLCX + STEN, [('topology_matrix, selection_matrix', 'pycomplex/topology/util.py'), ('dual block structure', 'pycomplex/topology/dual.py')], note=NOTE)
prop('C05', 'Quantities scale with the correct power of length',
     'If all coordinates of a mesh (and weights, as squared lengths) are multiplied by a positive factor, each geometric result is multiplied by the power of that factor its meaning implies: positions, edge lengths and radii by one, areas by two, '
     'volumes by three, k-dimensional metrics by k, dual metrics by the dual dimension, hodge ratios by the difference, and barycentric coordinates, normals, angles and topological averaging weights not at all. Quantities of different dimension are never added, compared or minimised together.',
     INPUTS, 'all scale factors, all meshes and classes in Euclidean space, all public geometric operations',
     'Tests use meshes of unit size, where a wrong power of length has the right value.', ALLCX + GEOM, [('unsigned_volume, hodge operators', 'pycomplex/complex/simplicial/base.py'), ('circumcenter and volume formulas', 'pycomplex/geometry/euclidian.py')], note=NOTE)
prop('C06', 'Geometric results do not depend on the choice of origin',
     'Translating all coordinates of a Euclidean mesh (and query points) by one vector translates every result that is a position by the same vector and leaves every other result (metrics, hodges, normals, angles, volumes, barycentric coordinates, picks, operators) unchanged.',
     INPUTS, 'all translations, all Euclidean meshes and classes, all public geometric operations',
     'Synthetic test meshes are centred at or start at the origin, so an operation that forgets to subtract a reference point agrees with the correct one.', ALLCX + GEOM, [('differences relative to a corner', 'pycomplex/geometry/euclidian.py'), ('homogenize/augment', 'pycomplex/complex/simplicial/base.py')], note=NOTE)
prop('C07', 'Geometry and linear algebra functions treat every item of a stack separately',
     'The geometric and small-matrix functions accept stacks with any number of leading dimensions and compute each item from that item alone: the result for one simplex or matrix is the same whether it is passed alone or in any stack, in any position, next to any other items.',
     INPUTS, 'any number and size of leading dimensions, any mixture of items',
     'Tests pass a single stack of similar items with one or two leading dimensions.', GEOM, [('ellipsis indexing and negative axes', 'pycomplex/geometry/euclidian.py, pycomplex/math/linalg.py')], note=NOTE)
prop('C08', 'Number types never lose information silently',
     'Integer coordinates give the same results as the equal floating point coordinates, indices are kept in types that can hold any element count, signs and parities stay exact, and real-valued results are floating point: no operation stores or casts values into a type that truncates or overflows them.',
     INPUTS, 'all numeric types of inputs and all mesh sizes',
     'Tests use float coordinates and meshes of fewer than a few thousand elements.', ALLCX + ALLTP + GEOM + ['pycomplex/stencil/util.py'], [('index_dtype, sign_dtype', 'pycomplex/topology/util.py')], note=NOTE)
prop('C10', 'Derived meshes carry over the state of the mesh they come from',
     'A mesh derived from another (copy, boundary, selection, reorientation, subdivision, smoothing, transformation, cast) is of the documented class and keeps the sphere radius; it keeps the vertex weights where vertices are unchanged, selects them with the vertices where vertices are selected, and drops them where vertices change; it has exactly one position per vertex of its topology '
     'and, where it is a refinement, refers to the mesh it came from.',
     ['programs', 'configurations'], 'all derivation operations on all complex classes, weighted or not, of any radius, in any sequence',
     'Tests derive from unweighted unit-radius meshes and look at one result, so a lost radius, stale weights or a wrong class goes unnoticed.', ALLCX, [('BaseComplex.copy', 'pycomplex/complex/base.py'), ('explicit construction of derived complexes', 'subdivide_*, boundary, select_subset, as_*')], note=NOTE)
prop('C11', 'Every public operation works on every documented kind of mesh',
     'On every mesh class, dimension and option it is documented for, a public operation runs to its result: it never fails because of an undefined name or attribute, a call that does not match a signature, a variable that was not assigned on some branch, operands whose sizes cannot match, or an exception raised on every path.',
     ['programs', 'configurations'], 'all public operations times all classes, dimensions, closed/open, weighted/unweighted and option combinations',
     'The tests execute only part of the operation/class/option combinations; branches not executed there may name things that do not exist.', ALLCX + ALLTP + STEN + GEOM + ['pycomplex/block.py', 'pycomplex/solvers.py', 'pycomplex/sparse.py'], [('class hierarchy of complexes and topologies', 'pycomplex/complex, pycomplex/topology')], note=NOTE)
prop('C12', 'Sampling, transfer, averaging and stencil operators are linear in the field',
     'Operations that take a discrete field (interpolation and sampling of primal and dual forms, averaging, restriction and interpolation between levels, derivative, hodge and block operators, the residual in its unknown) are linear in that field: the result for a sum of fields is the sum of the results, and scaling the field scales the result.',
     INPUTS, 'all fields, all meshes and grids', 'Tests apply the operators to one field (often constant).', ALLCX + STEN, [('sparse operator products', 'sample_*, averaging operators'), ('convolutions', 'pycomplex/stencil')], note=NOTE)
prop('C16', 'Topology is independent of the coordinates',
     'Connectivity results (incidence and orientation matrices, element lists, duals, boundaries, selections, averaging patterns and the topology of every subdivided, smoothed or transformed mesh) depend only on the connectivity of the mesh, never on its vertex positions, weights or radius.',
     INPUTS, 'all embeddings of the same topology', 'Each test mesh has one embedding.', ALLTP + ALLCX, [('topology objects never see vertices', 'pycomplex/topology')], note=NOTE)

exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read())

if __name__ == '__main__':
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m compileall -q sa', checks=[], not_applicable=[])
    for p in P:
        if p['_na']:
            man['not_applicable'].append(dict(property=p['id'], reason=p['_na']))
            continue
        man['checks'].append(dict(property=p['id'], quick_cmd='python3-vt -m sa.run %s --tier quick' % p['id'],
                                  thorough_cmd='python3-vt -m sa.run %s --tier thorough' % p['id'],
                                  technique=p['_technique'], level='other', level_note=p['_note'] or NOTE))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
    print(len(P), 'properties', len(man['checks']), 'claimed')
