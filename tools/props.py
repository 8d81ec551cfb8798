"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop('C01', 'Base maps form the hyperoctahedral group with time reversal, acting exactly',
     'Base maps of every dimension form a group: composition, inverse, integer powers (positive, zero, negative), conjugation and time reversal all agree with composing the underlying maps of the cube and of the time segment, and equal maps are equal and hash-equal however they were obtained. '
     'Every action of a base map (on points, vectors, sub-cubes, cubes by lower vertex and side, fraction numbers, time moments, points, links, prototypes, curve points, specs) is the action of that same map, is compatible with composition, and a spec times a spec or a map acts as successive application keeping the left pattern number.',
     ['inputs', 'histories'], 'all base maps/specs of dimension 1..6, all integer powers, all rational points, cubes and times; any order of operations (results are cached globally)',
     'tests check three dims with a few random pairs and fixed examples; caches make results history dependent',
     ['peano/base_maps.py', 'peano/subsets.py', 'peano/paths.py', 'peano/curves.py'],
     [('BaseMap.__mul__, get_inverse, __pow__, conjugate_by, apply_*', 'peano/base_maps.py'), ('Spec.__mul__, __rmul__, conjugate_by', 'peano/base_maps.py')],
     ['BaseMap and Spec operators', 'apply_x/apply_t/apply_vec/apply_cube/apply_cube_start/apply_cnum'])

prop('C02', 'Compact text notation round-trips and means what the documentation says',
     'Parsing the printed form of a base map, spec, point, point link, prototype, pattern or curve gives back the same object, and parsing any documented spelling (case for negation, "~" for time reversal, digit prefix for the pattern, parenthesised groups, surrounding blanks) yields the map, prototype or curve with exactly that meaning.',
     ['inputs'], 'all base maps of dimension up to 6, pattern numbers 0..9, rational points, all prototypes starting anywhere in the grid with unit (also diagonal) steps, all curves built from them',
     'tests parse a few literals; letter to axis, sign and grouping combinations are never swept',
     ['peano/base_maps.py', 'peano/paths.py', 'peano/curves.py', 'peano/subsets.py'],
     [('BaseMap.parse/__str__, Spec.parse/__str__', 'peano/base_maps.py'), ('Proto.parse/__str__', 'peano/paths.py'), ('Pattern.parse, Curve.parse', 'peano/curves.py'), ('Point.parse, Link.parse_gates', 'peano/subsets.py')],
     ['parse() and str() of BaseMap, Spec, Proto, Pattern, Curve, Point, Link'])

prop('C03', 'Base map enumeration is exact',
     'Enumerating base maps of a dimension yields every isometry of the cube exactly once for each requested time direction and nothing else; enumerating the maps that send one point to another yields exactly the cube isometries (each once, no time reversal) whose image of the source is the target, and the base map search for intersecting subsets or links yields exactly the maps that make the image meet the target.',
     ['inputs'], 'all dimensions 1..4 (5 for counts), all pairs of rational points incl. repeated, complementary and half coordinates; all pairs of subsets and links',
     'tests compare one path of the fast enumeration on a few points',
     ['peano/base_maps.py', 'peano/subsets.py'],
     [('gen_base_maps, gen_constraint_fast', 'peano/base_maps.py'), ('argmul_intersect, argstd', 'peano/subsets.py')],
     ['BaseMap.gen_base_maps', 'BaseMap.gen_constraint_fast', 'Point/FacetDivSubset/Link.argmul_intersect', 'Point.argstd'])

prop('C04', 'Subset geometry agrees with the sets they denote',
     'For points and nested facet subsets, intersection, dividing into sub-cubes, placing into a sub-cube, neighbours and the action of isometries agree with the geometric sets they denote: the listed sub-cubes (neighbours) are exactly those (other cubes) whose closed cube carries a portion of the set, each once, with exactly that portion, and dividing is inverse to placing; a link acts and intersects as the pair of its ends, which time reversal swaps.',
     ['inputs'], 'all rational points in the cube (interior, face, edge, vertex, grid aligned), all nested facet subsets in dimension 2..4, division 2..5, depth 0..3, all isometries',
     'tests look at fixed small examples, none with alignment to several grid planes at once',
     ['peano/subsets.py'], [('Point.divide/gen_neighbours/map_to_cube/transform', 'peano/subsets.py'), ('FacetDivSubset.*', 'peano/subsets.py')],
     ['Point and FacetDivSubset methods'])

prop('C05', 'Standardisation picks one canonical representative per symmetry class',
     'The standard form of a point, subset or link is an image of it under an admissible map (a cube isometry; for links also with reversal), is the same for all images, and equals the smallest image; two objects have equal standard forms exactly when some admissible map sends one to the other.',
     ['inputs'], 'all points, facet subsets, point links and facet links in dimension 1..4 with arbitrary rational coordinates',
     'tests standardise three links; the optimised point link code is never compared with the plain minimum on general positions',
     ['peano/subsets.py'], [('Point.std, Link.std, Subset.std', 'peano/subsets.py')], ['Point.std', 'FacetDivSubset.std', 'Link.std'])

prop('C06', 'Isometries and time reversal act on curves exactly',
     'Applying a base map or spec to a curve gives the curve t -> B(f(B_time t)) at every subdivision depth, for every pattern (a spec additionally selects its pattern), time reversal reverses all patterns, prototypes, patterns and pointed prototypes are transformed accordingly, the action is compatible with composition and inverses, and the original curve is unchanged.',
     ['inputs'], 'all curves (mono and multifractal) and all base maps/specs; all subdivision depths',
     'tests compare only a handful of zoo curves and entrance points; errors that appear at depth 2 or for secondary patterns are invisible',
     ['peano/curves.py', 'peano/paths.py', 'peano/base_maps.py'], [('FuzzyCurve.__rmul__, __invert__, _apply_cube_map', 'peano/curves.py'), ('Proto.__rmul__', 'peano/paths.py')],
     ['BaseMap * Curve', 'Spec * Curve', '~Curve', 'BaseMap * PathFuzzyCurve'])

prop('C07', 'Subdivision and deep fractions describe the same curve',
     'The k-th subdivision of a curve is the same map of the segment onto the cube (same order of cells and same orientation and pattern of every fraction at every depth, all patterns), and the spec reported for a nested fraction is exactly the one that maps the curve onto that fraction.',
     ['inputs'], 'all curves, k = 0..2, all nested sequences of fraction numbers',
     'tests check that subdivided zoo curves stay continuous and a few deep specs; they do not compare the maps',
     ['peano/curves.py'], [('Curve.get_subdivision, FuzzyCurve.get_deep_spec', 'peano/curves.py')], ['Curve.get_subdivision', 'Curve.get_deep_spec'])

prop('C08', 'Entrance, exit, pointed prototypes and the continuity check are exact',
     'Entrance and exit of every pattern are the exact rational points f(0) and f(1), the pointed prototypes list in each fraction the exact entrance and exit of that fraction with the pattern link as a whole, and the continuity check accepts a curve exactly when every pattern is continuous.',
     ['inputs'], 'all continuous curves with arbitrary gates and periods, and near-miss curves with one altered fraction',
     'tests use zoo curves only; no discontinuous input close to a continuous one is tried',
     ['peano/curves.py', 'peano/paths.py', 'peano/utils.py'], [('get_entrance/get_exit/get_paths/check', 'peano/curves.py'), ('Path, Path.is_continuous', 'peano/paths.py')],
     ['Curve.get_entrance/get_exit/get_paths/check', 'Path.is_continuous', 'Path.link'])

prop('C09', 'Face moments are exact first and last touching times',
     'The first (last) moment of touching a face of the cube is exactly the least (greatest) time at which the curve is on that face, the reported point is the position of the curve at that moment and lies on the face, and vertex moments are the times of the vertices.',
     ['inputs'], 'all continuous curves, all patterns, all faces of all dimensions, first and last',
     'tests compare published vertex and edge moments for a few zoo curves',
     ['peano/curves.py', 'peano/utils.py'], [('get_face_moment, get_vertex_moments', 'peano/curves.py'), ('get_periodic_sum', 'peano/utils.py')],
     ['Curve.get_face_moment', 'Curve.get_vertex_moments'])

prop('C10', 'The set of regular junctions is complete and exact, depths included',
     'The junctions listed for a curve are exactly the pairs of time-adjacent fractions (up to isometry and time reversal) occurring in some subdivision of some pattern, each listed once, and the depth of the curve is the first subdivision level at which all of them have appeared.',
     ['inputs'], 'all continuous curves, all subdivision levels',
     'tests compare counts and depths of zoo curves; depth order and completeness for multifractals with many derived junctions are not reached',
     ['peano/curves.py'], [('gen_regular_junctions, derived junctions, RegularJunction standard form', 'peano/curves.py')],
     ['Curve.gen_regular_junctions', 'Curve.get_depth', 'gen_auto_junctions'])

prop('C11', 'A fuzzy curve is exactly its class of compatible curves',
     'For pointed prototypes, the specs allowed in a fraction are exactly the specs (from the chosen group of base maps) that map the link of some pattern onto the link of the fraction, each once; the class count, the enumeration of all its curves, the example curve and stepwise specification agree with the product of these choices, forbidden specs are rejected, and every member is continuous with the same pointed prototypes.',
     ['inputs', 'histories', 'configurations'], 'all families of pointed prototypes, subgroups of base maps and time reversal settings, any sequence of specifications, images of the class under base maps',
     'tests check counts for a few zoo curves; group options, multi pattern links and transformed classes are not enumerated',
     ['peano/curves.py'], [('PathFuzzyCurve.init_from_paths, gen_allowed_specs, specify, gen_possible_curves, count_possible_curves', 'peano/curves.py')],
     ['PathFuzzyCurve.init_from_paths', 'gen_allowed_specs', 'specify', 'gen_possible_curves', 'count_possible_curves', 'get_curve_example', 'gen_defined_specs', 'Curve.forget'])

prop('C12', 'Junction templates characterise exactly which curves of a class have a junction',
     'For every fuzzy curve and every curve of its class: the curve has a given regular junction if and only if it agrees with at least one of the templates listed for that junction; hence the possible junctions of the class are the union over its members.',
     ['inputs'], 'all classes of curves with fixed pointed prototypes, all members, all junctions',
     'tests take two zoo curves; the converse direction is never tested',
     ['peano/curves.py'], [('get_junction_templates', 'peano/curves.py')], ['FuzzyCurve.get_junction_templates', 'FuzzyCurve.gen_regular_junctions'])

prop('C13', 'Growing cube paths yields exactly the full paths allowed by the rules',
     'For any grid, any next-step rule with its matching reverse rule, any start and finish nodes and any limits on the pre-expanded start and finish fronts, the search yields exactly the paths that visit every cube once, follow the rule at each step, and begin and end at the given nodes; the limits affect only speed.',
     ['inputs', 'configurations'], 'all rules on small grids, all start/finish sets, all start and finish front limits',
     'tests count Hamiltonian-like paths for two fixed rules',
     ['peano/_cube_path_trees.py'], [('CubePathTree.grow: bidirectional search and gluing', 'peano/_cube_path_trees.py')], ['CubePathTree.grow'])

prop('C14', 'Path generation is sound and complete',
     'For given links the generator yields exactly the paths that cover the grid, use in each fraction an image (possibly reversed) of the given links, pass continuously from fraction to fraction within the allowed step length, and begin and end as the global link (or refine the given parent path) requires, with none repeated; tuning limits do not change the set, and an example exists exactly when the set is non-empty.',
     ['inputs', 'configurations'], 'all point links and facet subset links, all global links, parents, step limits and front limits',
     'tests compare total counts in seven configurations; a lost and an invented path cancel, and restrictions are barely used',
     ['peano/paths.py', 'peano/_cube_path_trees.py', 'peano/subsets.py'], [('PathsGenerator', 'peano/paths.py')],
     ['PathsGenerator.generate_paths/generate_paths_generic/get_paths_example'])

prop('C15', 'Standardised path generation yields one representative per symmetry class',
     'With standardisation on and point links, the generated paths contain exactly one path of each class of the full set under the symmetries that keep the global link (or parent), and for several patterns exactly one tuple for every choice of such classes, patterns with equal links being interchangeable; with links that are sets every class is still represented, by paths of the full set, none repeated.',
     ['inputs', 'configurations'], 'all point link configurations including repeated and symmetric links, multiplicities 1..3',
     'tests compare counts for a few configurations',
     ['peano/paths.py', 'peano/utils.py'], [('generate_paths(std=True), combinations_product', 'peano/paths.py, peano/utils.py')],
     ['PathsGenerator.generate_paths(std=True)'])

prop('C16', 'Gate generation is sound, canonical and complete',
     'Generated gates are tuples of standard links, sorted, without repetition, on the boundary of the cube (strictly on facets in facet mode), and for each of them a continuous pointed prototype exists; conversely the gates of every continuous multifractal of the configuration whose gates are all on the boundary (facets) appear in standard form. A generator object may be used for any number of enumerations, one after another.',
     ['inputs', 'configurations'], 'all configurations (dimension, division, multiplicity, facet mode) and all curves of them',
     'tests compare gate lists of four configurations',
     ['peano/gates.py', 'peano/paths.py', 'peano/subsets.py'], [('GatesGenerator', 'peano/gates.py')], ['GatesGenerator.gen_gates'])

prop('C17', 'The SAT encoding of a class of curves is faithful',
     'For a class of curves and any set of forbidden pairs (junction, partially specified curve), the solver finds a model exactly when some member of the class avoids all of them, and the curve read off the model is such a member; an adapter copied from another one behaves identically and independently.',
     ['inputs', 'histories'], 'all small classes, all sequences of forbidden configurations, interleaved with solving and copying',
     'tests forbid one junction at a time on two curves',
     ['peano/_sat_adapters.py', 'peano/curves.py'], [('CurveSATAdapter', 'peano/_sat_adapters.py')], ['CurveSATAdapter.add_forbid_clause/solve/get_model_curve'])

prop('C18', 'Dilation bounds of a regular curve are rigorous and as tight as requested',
     'For every continuous curve and every d-uniform monotone ratio function, the reported lower and upper bounds enclose the true dilation (the maximum over all patterns) whatever tolerance, iteration limit, depth limit or face moment option is used, and without limits the upper bound exceeds the lower one by at most the requested relative tolerance; with face moments and a depth limit as the only limit, the lower bound is not below the ratio of any two face moments of fractions of that depth.',
     ['inputs', 'configurations'], 'all continuous curves of any dimension, division and multiplicity, metrics l1, l2, l2 squared, linf and other admissible ratio functions, all option combinations',
     'tests check published values for about twenty zoo curves with one setting each; an unsound bound for another curve type passes',
     ['peano/dilation.py', 'peano/curves.py', 'peano/_bounded_items_heap.py', 'peano/utils.py'], [('Estimator.estimate_dilation_regular', 'peano/dilation.py')],
     ['Estimator.estimate_dilation_regular result lo, up'])

prop('C19', 'Face moment lower bounds come with a genuine witness',
     'With face moments the reported argmax is a pair of points on two fractions joined by a real junction of the curve (or on one pattern), lying on the curve at the stated times, and the ratio at that pair equals the reported lower bound; with a depth limit the lower bound is at least the best ratio over all face points of fractions up to that depth.',
     ['inputs', 'configurations'], 'all continuous curves, face dimensions, metrics, depth limits',
     'tests compare the numeric bound for a few curves; the witness is never evaluated',
     ['peano/dilation.py', 'peano/curves.py'], [('face moment points, argmax bookkeeping', 'peano/dilation.py')], ["estimate_dilation_regular(use_face_moments=True)['argmax']"])

prop('C20', 'Dilation does not depend on presentation or on estimator history',
     'Bounds computed for a curve, its images under isometries and time reversal, its subdivisions, a renumbering or duplication of its patterns are mutually consistent (they intersect), and a reused estimator with any cache size and any history of previous calls returns exactly what a fresh one does.',
     ['inputs', 'histories'], 'all continuous curves, all presentations, all call histories and cache sizes',
     'tests use each estimator once on one presentation',
     ['peano/dilation.py', 'peano/curves.py', 'peano/utils.py'], [('bounds cache, junction standardisation', 'peano/dilation.py')], ['Estimator.estimate_dilation_regular on transformed curves', 'repeated calls on one Estimator'])

prop('C21', 'Minimal dilation of a class of curves is bracketed correctly and attained',
     'For a class of curves the bisection returns a member with dilation at most the good threshold, or nothing, and then every member has dilation at least the bad threshold; the estimate of the class minimum encloses the true minimum over all members up to the requested tolerance and returns a member of the class whose dilation is within the bounds; starting and stopping bounds that are true do not change this.',
     ['inputs', 'configurations'], 'all classes of curves with fixed pointed prototypes (also partially specified), all threshold pairs, metrics and valid starting bounds',
     'tests run three classes with known minimum; a wrongly lost member or a false "none" is invisible elsewhere',
     ['peano/dilation.py', 'peano/_sat_adapters.py', 'peano/curves.py', 'peano/_bounded_items_heap.py'], [('bisect_dilation_fuzzy, estimate_dilation_fuzzy', 'peano/dilation.py')],
     ['Estimator.bisect_dilation_fuzzy', 'Estimator.estimate_dilation_fuzzy'])

prop('C22', 'The best of a sequence of classes is found',
     'Over any sequence of classes (list or generator, any order, repetitions), the returned bounds enclose the minimum over all classes within the tolerance, every reported index refers to the class of the curve reported with it and includes a class attaining the minimum, and with an a-priori upper bound nothing is reported missing unless no curve satisfies the bound, and the reported bounds do not exceed it.',
     ['inputs', 'configurations'], 'all sequences of classes, orders, epoch multipliers, tolerances, upper bounds',
     'tests have one sequence of one class',
     ['peano/dilation.py'], [('estimate_dilation_sequence: active list, epochs, pruning', 'peano/dilation.py')], ['Estimator.estimate_dilation_sequence'])

prop('C23', 'The search command finds the minimal dilation of a configuration',
     'Running the search (as a script or function) for a configuration and metric reports bounds that enclose the minimal dilation over all curves of the configuration with the selected gates, curves that are continuous members with dilation within the bounds up to tolerance, or reports that nothing is found only if no curve meets the upper bound (reported bounds never exceed a given one); gate output lists the gates; grouping by gates reports each gate tuple separately.',
     ['inputs', 'configurations'], 'all configurations, gate selections, metrics, tolerances, step limits, upper bounds, grouping',
     'no test runs the search script',
     ['search.py', 'peano/gates.py', 'peano/paths.py', 'peano/dilation.py'], [('run_search and command line', 'search.py')], ['stdout of search.py', 'run_search'])

prop('C24', 'The bounded items heap keeps exactly the right items',
     'For any history of pushes, pops, threshold raises, bad item retrievals and cleaned copies, the heap holds exactly the items that are neither good nor bad under the thresholds in force when they were examined, pops them in order of decreasing upper bound, hands out each bad item exactly once and remembers an item with the largest lower bound ever pushed.',
     ['histories'], 'all operation sequences with arbitrary bounds and thresholds',
     'no direct test; used only through estimators',
     ['peano/_bounded_items_heap.py'], [('BoundedItemsHeap', 'peano/_bounded_items_heap.py')], ['BoundedItemsHeap methods'])

prop('C25', 'Curves, patterns, paths and links are immutable values with exact equality',
     'Curves, patterns, prototypes, paths, links, subsets, specs and junctions compare equal exactly when all their defining data are equal, equal objects have equal hashes and unequal curves never compare equal, ordering where provided is a strict order consistent with equality, and no operation changes its operands.',
     ['inputs', 'histories'], 'all pairs of objects differing in one datum or built in different ways, all operations',
     'tests compare objects only for equality of expected results, never for inequality',
     ['peano/curves.py', 'peano/paths.py', 'peano/subsets.py', 'peano/base_maps.py'], [('__eq__/__hash__/__lt__', 'peano/*.py')], ['==, !=, hash, <, sorted, set membership'])

prop('C26', 'Numeric helpers are exact',
     'Ratio functions equal ||dx||^d/dt for their norm in exact arithmetic (signs of dx irrelevant, d-uniform, monotone), periodic sums equal the infinite series, integer coordinates of nested cubes and times are the positional values, faces of a dimension are each listed once, the least common multiple is exact, and the product of combinations lists each choice of multisets once in its positions.',
     ['inputs'], 'all rational vectors and times, digit sequences, dimensions, id lists',
     'tests check two small examples',
     ['peano/utils.py'], [('ratio_*, get_periodic_sum, get_int_*_with_cache, gen_faces, get_lcm, combinations_product', 'peano/utils.py')], ['functions of peano.utils'])

prop('C27', 'The zoo lists genuine curves with true data',
     'Every curve of the zoo is continuous, is returned afresh and independent of what callers did before, and each published datum attached to it (gates, vertex or edge moments, depth, number of junctions, dilation values or bounds for each metric) is true of that curve according to an independent computation.',
     ['inputs', 'histories'], 'all zoo curves and all data fields, in any presentation',
     'tests compare the same code with its own table for part of the data',
     ['peano/zoo.py', 'peano/curves.py'], [('get_*_curve', 'peano/zoo.py')], ['peano.zoo.get_all_curves'])

prop('C28', 'Plots draw the curve',
     'For two and three dimensional curves the plot draws, for every pattern and fraction, the centres of the cells of the requested subdivision of that fraction in time order at the right place, coloured by pattern and joined to the next fraction, the prototype line through the cube centres, both ending in an arrow head along the curve, and (for several patterns) the name of the pattern of each fraction, overlined when reversed; every axis shows exactly the unit cube, with grid lines at the borders of the fractions if a grid is asked for; the curve is unchanged and the requested file is written.',
     ['inputs', 'configurations'], 'all 2d and 3d curves with at most 4 patterns, subdivision 0..2, grid and separate options',
     'no test draws anything',
     ['plots.py'], [('plot_curve', 'plots.py')], ['lines drawn on the axes'])

prop('C29', 'The proof script for the YE curve considers every announced curve',
     'Running YE-proof.py goes through and considers classes that together contain, up to isometry and time reversal, every plain monofractal it announces: all of genus 2x2, 3x3 and 4x4, and those of genus 5x5 and 6x6 without diagonal steps (side, diagonal and median gates), the YE curve itself excepted; '
     'every lower bound it prints for a stage is true of all curves of that stage and exceeds the dilation of the YE curve; the last stage prints 408/73 exactly.',
     ['inputs', 'configurations'], 'all plain monofractals of the announced genera, in any position and time direction',
     'no test runs the script (it did not even import before the repair)',
     ['YE-proof.py', 'search.py', 'peano/dilation.py', 'peano/paths.py', 'peano/zoo.py'], [('main and its stages', 'YE-proof.py')], ['stdout of YE-proof.py', 'classes passed to Estimator.estimate_dilation_sequence'])

NA = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    have = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py'))]
    checks = []
    for p in have:
        checks.append({
            'property': p['id'],
            'quick_cmd': './run_check.py %s --tier quick' % p['id'],
            'thorough_cmd': './run_check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing (Hypothesis, seeded, sharded, shrinking) ' + TECH.get(p['id'], 'against an independent reference model'),
            'level': 'exploration',
            'level_note': NOTE.get(p['id'], 'Generated-input search; held on every generated case. Trusts the reference model in lib/ref.py, Python fractions and Hypothesis.'),
        })
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': dict(NA).get(p['id'], 'check under construction')} for p in P if p not in have],
           'notes': 'No hooks: the checks use the public API of /repo as it is. See DESIGN.md; known_findings.txt lists repaired defects.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'checks')


TECH = {
    'C01': 'against pointwise composition of maps (reference group), with operation histories',
    'C02': 'round-trip and meaning against an independent parser',
    'C13': 'against naive exhaustive search over random rules',
    'C14': 'set equality against an independent depth-first search',
    'C15': 'orbit counting against an independent depth-first search',
    'C16': 'soundness by independent path search, completeness by sampled curves',
    'C17': 'against brute force over the class',
    'C18': 'against an independent branch-and-bound dilation reference',
    'C19': 'witness evaluation with exact curve evaluation',
    'C20': 'metamorphic relations and call histories',
    'C21': 'against brute force over the class with an independent dilation reference',
    'C22': 'against brute force over all classes with an independent dilation reference',
    'C23': 'end to end, output parsed and judged by independent references',
    'C28': 'lines read back from the axes, against an independent evaluation of the curve',
    'C29': 'all announced curves against the recorded classes, stage bounds against sampled and locally minimised curves with an independent dilation reference',
    'C24': 'stateful model-based testing',
}
NOTE = {}

if __name__ == '__main__':
    main()
