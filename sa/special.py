"""Rules with their own analysis.  RULES: property -> f(repo, tier) -> (findings, counts, explanation)"""
from . import orient, tiling, stencil, multigrid, templates, chains, guards, metrics, synth
from .loader import AnalysisBroken


def reported(prop, rule, mod, floor, explanation):
    def f(repo, tier):
        P, R = mod.run(repo, tier) if hasattr(mod, 'run') else mod(repo, tier)
        if len(R.ok) + len(R.bad) < floor:
            raise AnalysisBroken('only %d obligations of %s could be decided: %s' % (len(R.ok) + len(R.bad), prop, R.undecided[:3]))
        cov = dict(obligations=len(R.ok) + len(R.bad) + len(R.undecided), discharged=len(R.ok), undecided=len(R.undecided),
                   functions_propagated_through=len(P.calls), obligation_samples=R.ok[::max(1, len(R.ok) // 12)], undecided_obligations=R.undecided[:20])
        return templates.findings(prop, rule, R), cov, explanation
    return f


RULES = {
    'C04': reported('C04', 'orientation', orient, 1,
                    'Constant propagation through the functions that build permutation, parity and boundary tables and through the topology constructors applied to '
                    'oriented templates (one or two neighbouring elements in all relative orientations), compared with parities computed independently; '
                    'non-commutative block algebra over the expressions derived for the dual and closed dual operators (products vanish, transposes agree); '
                    'sign-linearity of the incidence matrices in the orientation arrays.'),
    'C17': reported('C17', 'tiling', tiling, 1,
                    'Constant propagation through every subdivision and product of the topologies applied to templates (one or two elements sharing a facet, in every relative '
                    'orientation): exact rational volumes of the pieces add up to the parent, pieces match on shared facets, have the orientation of their parent, vertices lie at the documented '
                    'centres, counts per parent and transfer tables relate each fine element to the coarse element that contains it.'),
    'C19': reported('C19', 'stencil', stencil, 1,
                    'Propagation of exact linear forms (rational coefficients over symbolic field entries) through the stencil classes on small periodic grids of every dimension up to three: '
                    'the matrix of every operator is derived from the source and compared with the matrix it is documented to be; products, sums, transposes, block assembly and systems are compared with the matrix algebra.'),
    'C14': reported('C14', 'cycle', multigrid, 1,
                    'Propagation of exact linear forms through the multigrid cycles applied to abstract equations whose operations are generic matrices, and through the smoothers, solver calls and transfers of the '
                    'diffusion equation on small periodic grids; the derived matrices are compared with those of the documented formulas.'),
    'C13': reported('C13', 'average', lambda repo, tier: chains.run_for('C13', repo, tier), 1,
                    'Propagation of constants and exact linear forms through the averaging operators, positions, smoothing and subdivision operators of topologies and complexes on small meshes '
                    '(paths, loops, fans, strips, grids, closed surfaces, disjoint and pinched meshes, in scrambled numbering): the matrix derived from the source is compared with the average over incident elements it is documented to be.'),
    'C18': reported('C18', 'structure', lambda repo, tier: chains.run_for('C18', repo, tier), 1,
                    'Constant propagation through boundaries, selections, components, orientation, chains and dual structure of topologies on small meshes (paths, loops, fans, strips, grids, closed surfaces, '
                    'disjoint and pinched meshes, in scrambled numbering), compared with the vertex sets of the elements.'),
    'C15': reported('C15', 'metric', metrics, 1,
                    'Constant propagation through the metrics, hodges and weighted averages of complexes on small meshes (lines, loops, fans, strips, closed surfaces, tetrahedra, grids, in scrambled numbering, '
                    'on flat, spherical and regular complexes): the volumes of simplices and boxes, barycentric coordinates and angles are tables of generic numbers per set of positions, so that the derived numbers equal '
                    'the sums over fundamental pieces named by the definition only if every piece enters once, with its factor and sign, at its element.'),
    'C25': reported('C25', 'synthetic', synth, 1,
                    'Constant propagation through the constructors of synthetic meshes for grid shapes of dimension one to four, simplices, cross polytopes, the icosahedron and its refinement, circles and cylinders: '
                    'the derived vertices and elements are compared with the definition of the mesh (grid points and cells, distances, antipodal pairs, closedness and orientation computed independently).'),
    'C09': reported('C09', 'guard', guards, 1,
                    'Constant propagation through the checks that guard the public operations, applied to input outside of the documented domain on small meshes, grids and arrays: every path of the abstract '
                    'program has to end in an exception; and to input at the allowed side of each check, which has to be followed to its result.'),
}
