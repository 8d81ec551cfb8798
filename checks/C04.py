"""C04: geometry of points and nested facet subsets."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output

PROPERTY = 'C04'
RULE = ('Cases: a point of the cube (grid aligned, face, edge, vertex, interior) or a nested facet subset, a division, a sub-cube, an isometry and a second set; '
        'non-trivial: the point lies on a grid plane or face, or the subset has depth >= 1 in dimension >= 3.')
ASSUMPTIONS = ['facet subsets denote relatively open boxes, as documented']


@st.composite
def cases(draw):
    if draw(st.booleans()):
        dim = draw(st.integers(1, 4))
        div = draw(st.integers(2, 7))
        co = st.one_of(gen.unit_coords(), st.integers(0, div).map(lambda n: F(n, div)))
        s = sets.mk_point(draw(st.tuples(*[co] * dim)))
        other = sets.mk_point(tuple(draw(st.sampled_from([v, 1 - v, F(0)])) for v in s.lo))
    else:
        dim = draw(st.integers(2, 4))
        div = draw(st.integers(2, 5))
        s = draw(sets.facet_sets(dim, div))
        other = draw(sets.related(s)) if draw(st.integers(0, 3)) else draw(sets.facet_sets(dim, div))
    return {'s': sets.to_case(s), 'o': sets.to_case(other), 'div': div, 'iso': draw(gen.iso_texts(dim)),
            'cube': list(draw(st.tuples(*[st.integers(0, div - 1)] * dim))),
            'scale': str(draw(gen.rationals(6, -2, 3))), 'shift': [str(v) for v in draw(st.tuples(*[gen.rationals(6, -3, 3)] * dim))]}


def pieces(it, what):
    out = []
    with output(what):
        for cube, sub in it:
            out.append((tuple(int(c) for c in cube), sets.geo(sets.from_real(sub))))
    require(len({c for c, _ in out}) == len(out), '%s: a cube is listed twice', what)
    return dict(out)


def check(case):
    s, o = sets.from_case(case['s']), sets.from_case(case['o'])
    dim, div = s.dim, case['div']
    rs, ro = sets.real(s), sets.real(o)
    is_pt = not s.div
    coords, rev = ref.parse_iso(case['iso'])
    b = conv.bm(coords, rev)
    bc = conv.bm(coords)

    same(rs.dim, dim, 'dim')
    # action (time reversal does not matter for sets)
    for g in (b, bc):
        img = g * rs
        with output('image of the set'):
            same(sets.geo(sets.from_real(img)), sets.geo(sets.act(coords, s)), 'image of the set')
    # intersection, symmetric
    want = sets.meet(s, o)
    same(bool(rs.intersects(ro)), want, 'intersects')
    same(bool(ro.intersects(rs)), want, 'intersects (swapped)')
    same(bool((bc * rs).intersects(bc * ro)), want, 'intersects of images')
    same(bool(rs.intersects(rs)), True, 'intersects itself')

    # division
    want = {}
    for cube in itertools.product(range(div), repeat=dim):
        p = sets.portion(s, [F(c, div) for c in cube], F(1, div))
        if p is not None:
            want[cube] = p
    got = pieces(rs.divide(div), 'divide')
    same(got, want, 'divide')
    # every portion, placed back, is that portion of the set
    with output('divide/map_to_cube'):
        for cube, sub in rs.divide(div):
            back = sets.from_real(sub.map_to_cube(div, cube))
            lo = tuple((c + v) / div for c, v in zip(cube, want[cube][0]))
            hi = tuple((c + v) / div for c, v in zip(cube, want[cube][1]))
            same(sets.geo(back), (lo, hi), 'map_to_cube of a portion')

    # placing into a sub-cube
    cube = list(case['cube'])
    if not is_pt:
        cube[s.facet[0]] = 0 if s.facet[1] == 0 else div - 1
    put = rs.map_to_cube(div, tuple(cube))
    with output('map_to_cube'):
        box = sets.from_real(put)
        same(sets.geo(box), (tuple((c + v) / div for c, v in zip(cube, s.lo)), tuple((c + v) / div for c, v in zip(cube, s.hi))), 'map_to_cube')
    got = pieces(put.divide(div), 'divide(map_to_cube)')
    same(got.get(tuple(cube)), sets.geo(s), 'divide(map_to_cube) in that cube')

    # neighbours
    want = {}
    for cube in itertools.product((-1, 0, 1), repeat=dim):
        if any(cube):
            p = sets.portion(s, [F(c) for c in cube], F(1))
            if p is not None:
                want[cube] = p
    same(pieces(rs.gen_neighbours(), 'gen_neighbours'), want, 'gen_neighbours')

    if is_pt:
        sc, sh = F(case['scale']), [F(v) for v in case['shift']]
        t = rs.transform(scale=conv.q(sc), shift=[conv.q(v) for v in sh])
        same(conv.from_point(t), tuple(v * sc + h for v, h in zip(s.lo, sh)), 'transform')
        same(conv.from_point(rs.transform(scale=conv.q(sc))), tuple(v * sc for v in s.lo), 'transform(scale)')
        same(conv.from_point(rs.transform(shift=[conv.q(v) for v in sh])), tuple(v + h for v, h in zip(s.lo, sh)), 'transform(shift)')
        same(conv.from_point(rs.transform(shift=case['cube'])), tuple(v + h for v, h in zip(s.lo, case['cube'])), 'transform(int shift)')
        same(rs.face_dim(), sum(0 < v < 1 for v in s.lo), 'face_dim')
        nt = any(v * div == int(v * div) for v in s.lo) and dim > 1
    else:
        nt = dim >= 3 and len(s.cubes) >= 1
    # links: pairs of sets
    from peano.subsets import Link
    pair = lambda l: (sets.geo(sets.from_real(l.entrance)), sets.geo(sets.from_real(l.exit)))
    link = Link(rs, ro)
    with output('link'):
        same(link.dim, dim, 'dim of a link')
        same(pair(link), (sets.geo(s), sets.geo(o)), 'ends of a link')
        same(pair(~link), (sets.geo(o), sets.geo(s)), 'reversed link')
        img = (sets.geo(sets.act(coords, s)), sets.geo(sets.act(coords, o)))
        same(pair(bc * link), img, 'image of a link')
        same(pair(b * link), img[::-1] if rev else img, 'image of a link, time reversal included')
        for l2, (a, e) in [(link, (s, o)), (~link, (o, s)), (Link(rs, rs), (s, s)), (Link(ro, rs), (o, s)), (bc * link, (sets.act(coords, s), sets.act(coords, o)))]:
            same(bool(link.intersects(l2)), sets.meet(s, a) and sets.meet(o, e), 'intersection of links')
        if is_pt:
            tl = link.transform(scale=conv.q(sc), shift=[conv.q(v) for v in sh])
            same((conv.from_point(tl.entrance), conv.from_point(tl.exit)), tuple(tuple(v * sc + h for v, h in zip(x.lo, sh)) for x in (s, o)), 'transform of a link')
    # operands untouched
    same(sets.geo(sets.from_real(rs)), sets.geo(s), 'the set after the operations')
    return (['nontrivial'] if nt else []) + ['point' if is_pt else 'facet', 'dim%d' % dim, 'meet' if want else 'nomeet']


TARGETS = [Target('sets', lambda tier: cases(), check, 15000, 150000, shards=8)]
