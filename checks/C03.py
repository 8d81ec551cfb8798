"""C03: enumeration of base maps is exact."""
import itertools
from collections import Counter
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output
from peano.base_maps import BaseMap

PROPERTY = 'C03'
RULE = ('Cases: dimensions with time options; pairs of points (target often an image of the source, coordinates from few values with complements and halves); '
        'pairs of facet subsets/links; non-trivial: at least two maps match and some do not, or a coordinate is repeated/complementary.')
ASSUMPTIONS = []


def as_multiset(it, what):
    with output(what):
        return Counter(conv.from_bm(b) for b in it)


def check_all(case):
    dim, tr = case['dim'], case['time_rev']
    want = Counter((c, r) for c in ref.all_coords(dim) for r in ((False, True) if tr is None else (tr,)))
    got = as_multiset(BaseMap.gen_base_maps(dim, time_rev=tr) if case['kw'] else (BaseMap.gen_base_maps(dim) if tr is None else BaseMap.gen_base_maps(dim, tr)), 'gen_base_maps')
    same(len(got), len(want), 'number of base maps, dim %d' % dim)
    require(got == want, 'gen_base_maps(%d, %s): %s', dim, tr, list(((got - want) + (want - got)).items())[:3])
    return ['nontrivial'] if dim > 1 else []


@st.composite
def point_pairs(draw, max_dim=4):
    dim = draw(st.integers(1, max_dim))
    base = draw(st.lists(gen.unit_coords(), min_size=1, max_size=3))
    vals = base + [1 - v for v in base]
    if draw(st.booleans()):
        vals.append(F(1, 2))
    src = draw(st.tuples(*[st.sampled_from(vals)] * dim))
    kind = draw(st.sampled_from(['image', 'image', 'random', 'near', 'self']))
    if kind == 'random':
        dst = draw(st.tuples(*[st.sampled_from(vals)] * dim))
    else:
        co, _ = draw(gen.isos(dim))
        dst = ref.act_x(co, src) if kind != 'self' else src
        if kind == 'near':
            i = draw(st.integers(0, dim - 1))
            dst = dst[:i] + (draw(st.sampled_from(vals)),) + dst[i + 1:]
    return {'src': [str(v) for v in src], 'dst': [str(v) for v in dst], 'kind': kind}


def check_points(case):
    src, dst = [tuple(F(v) for v in case[k]) for k in ('src', 'dst')]
    dim = len(src)
    want = Counter((c, False) for c in ref.all_coords(dim) if ref.act_x(c, src) == dst)
    s, d = conv.point(src), conv.point(dst)
    got = as_multiset(BaseMap.gen_constraint_fast(s, d), 'gen_constraint_fast')
    require(got == want, 'gen_constraint_fast: missing %s, extra or repeated %s', list((want - got).items())[:3], list((got - want).items())[:3])
    got = as_multiset(s.argmul_intersect(d), 'argmul_intersect')
    require(got == want, 'Point.argmul_intersect: missing %s, extra %s', list((want - got).items())[:3], list((got - want).items())[:3])
    # restricted list of candidates
    cand = [BaseMap(c, r) for c in ref.all_coords(dim)[::3] for r in (False,)]
    got = as_multiset(s.argmul_intersect(d, bms=cand), 'argmul_intersect with candidates')
    want2 = Counter({k: v for k, v in want.items() if BaseMap(*k) in cand})
    require(got == want2, 'Point.argmul_intersect with given candidates')
    # argstd: maps to the smallest image
    std = min(ref.act_x(c, src) for c in ref.all_coords(dim))
    want = Counter((c, False) for c in ref.all_coords(dim) if ref.act_x(c, src) == std)
    got = as_multiset(s.argstd(), 'argstd')
    require(got == want, 'Point.argstd: missing %s, extra %s', list((want - got).items())[:3], list((got - want).items())[:3])
    rep = len(set(src) | {1 - v for v in src}) < 2 * dim
    return (['nontrivial'] if dim > 1 and rep and got else []) + [case['kind'], 'match' if got else 'nomatch', 'dim%d' % dim]


def check_subsets(case):
    a, b = sets.from_case(case['a']), sets.from_case(case['b'])
    dim = a.dim
    ra, rb = sets.real(a), sets.real(b)
    want = Counter((c, False) for c in ref.all_coords(dim) if sets.meet(sets.act(c, a), b))
    got = as_multiset(ra.argmul_intersect(rb), 'argmul_intersect')
    require(got == want, 'FacetDivSubset.argmul_intersect: missing %s, extra %s', list((want - got).items())[:3], list((got - want).items())[:3])
    cand = [BaseMap(c) for c in ref.all_coords(dim)[::2]]
    got2 = as_multiset(ra.argmul_intersect(rb, bms=cand), 'argmul_intersect')
    require(got2 == Counter({k: v for k, v in want.items() if BaseMap(*k) in cand}), 'FacetDivSubset.argmul_intersect with candidates')
    return (['nontrivial'] if len(got) > 1 and dim > 2 else []) + ['match' if got else 'nomatch']


def check_links(case):
    l1 = [sets.from_case(c) for c in case['l1']]
    l2 = [sets.from_case(c) for c in case['l2']]
    dim = l1[0].dim
    want = Counter()
    for c in ref.all_coords(dim):
        for r in (False, True):
            e, x = sets.act(c, l1[0]), sets.act(c, l1[1])
            if r:
                e, x = x, e
            if sets.meet(e, l2[0]) and sets.meet(x, l2[1]):
                want[c, r] += 1
    r1, r2 = sets.real_link(l1), sets.real_link(l2)
    got = as_multiset(r1.argmul_intersect(r2), 'Link.argmul_intersect')
    require(got == want, 'Link.argmul_intersect: missing %s, extra %s', list((want - got).items())[:3], list((got - want).items())[:3])
    return (['nontrivial'] if len(want) >= 2 else []) + ['match%d' % min(len(want), 3)]


DIMS = [{'dim': d, 'time_rev': t, 'kw': k} for d in (1, 2, 3, 4) for t in (None, True, False) for k in (False, True)]

TARGETS = [
    Target('all', lambda tier: st.sampled_from(DIMS), check_all, 4, 4, fixed=lambda tier: DIMS + ([{'dim': 5, 'time_rev': None, 'kw': True}] if tier == 'thorough' else [])),
    Target('points', lambda tier: point_pairs(), check_points, 2000, 20000, shards=8),
    Target('subsets', lambda tier: sets.pair_cases(), check_subsets, 900, 9000, shards=4),
    Target('links', lambda tier: sets.link_pair_cases(), check_links, 900, 9000, shards=4),
]
