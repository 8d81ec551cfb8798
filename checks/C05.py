"""C05: standard forms."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output
from peano.subsets import Link

PROPERTY = 'C05'
RULE = ('Cases: a point/facet subset/point link/facet link, an admissible map and a second object (image, near image, or independent); '
        'non-trivial: the object differs from its standard form and has dimension >= 2.')
ASSUMPTIONS = ['the order of points and point links is the lexicographic order of coordinates']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['point', 'facet', 'plink', 'plink', 'flink']))
    if kind in ('point', 'plink'):
        dim = draw(st.integers(1, 4 if kind == 'point' else 4))
        base = draw(st.lists(gen.unit_coords(), min_size=1, max_size=3))
        vals = base + [1 - v for v in base] + [F(0), F(1, 2)]
        pt = st.tuples(*[st.sampled_from(vals)] * dim)
        a = [draw(pt) for _ in range(1 if kind == 'point' else 2)]
        objs = [sets.mk_point(p) for p in a]
    else:
        dim = draw(st.integers(2, 3 if kind == 'flink' else 4))
        div = draw(st.integers(2, 4))
        objs = [draw(sets.facet_sets(dim, div, 2))]
        if kind == 'flink':
            objs.append(draw(sets.related(objs[0])) if draw(st.booleans()) else draw(sets.facet_sets(dim, div, 2)))
    co, rv = draw(gen.isos(dim))
    rv = rv and kind.endswith('link')
    fn = sets.act_facet if objs[0].div else sets.act
    oth = [fn(co, o) for o in objs]
    if rv:
        oth.reverse()
    mode = draw(st.sampled_from(['image', 'near', 'perm']))
    if mode == 'near':
        i = draw(st.integers(0, len(oth) - 1))
        if objs[0].div:
            oth[i] = draw(sets.related(oth[i]))
        else:
            j = draw(st.integers(0, dim - 1))
            v = draw(st.sampled_from([F(0), F(1), F(1, 2), 1 - oth[i].lo[j], oth[i].lo[(j + 1) % dim]]))
            oth[i] = sets.mk_point(oth[i].lo[:j] + (v,) + oth[i].lo[j + 1:])
    elif mode == 'perm' and len(oth) == 2:
        # transform the two ends by different isometries: often not an image
        co2, _ = draw(gen.isos(dim))
        oth[1] = fn(co2, oth[1])
    return {'kind': kind, 'a': [sets.to_case(o) for o in objs], 'b': [sets.to_case(o) for o in oth]}


def key(objs):
    return tuple(sets.geo(o) for o in objs)


def images(objs, link):
    dim = objs[0].dim
    out = {}
    for c in ref.all_coords(dim):
        im = [sets.act(c, o) for o in objs]
        out.setdefault(key(im), (c, False))
        if link:
            out.setdefault(key(im[::-1]), (c, True))
    return out


def check(case):
    a = [sets.from_case(c) for c in case['a']]
    b = [sets.from_case(c) for c in case['b']]
    link = len(a) == 2
    dim = a[0].dim

    def build(objs):
        return Link(sets.real(objs[0]), sets.real(objs[1])) if link else sets.real(objs[0])

    def decode(x):
        with output('standard form'):
            return [sets.from_real(x.entrance), sets.from_real(x.exit)] if link else [sets.from_real(x)]
    ra, rb = build(a), build(b)
    sa, sb = ra.std(), rb.std()
    ia = images(a, link)
    ka, kb = key(decode(sa)), key(decode(sb))
    require(ka in ia, 'standard form is not an image of the object: %s', sa)
    related = key(b) in ia
    require((sa == sb) == related, 'standard forms %s and %s are %sequal but the objects are %srelated', sa, sb, '' if sa == sb else 'un', '' if related else 'un')
    if sa == sb:
        require(hash(sa) == hash(sb), 'hash of equal standard forms')
        same(ka, kb, 'equal standard forms denote one set')
    require(sa.std() == sa, 'standard form is not standard')
    # smallest image: by the order of the code itself, over reference images
    if not a[0].div:
        same(tuple(lo for lo, _ in ka), min(tuple(lo for lo, _ in k) for k in ia), 'smallest image')
    else:
        for k, (c, r) in ia.items():
            im = conv.bm(c, r) * ra
            require(not (im < sa), 'image %s is smaller than the standard form %s', im, sa)
    return (['nontrivial'] if dim >= 2 and ka != key(a) else []) + [case['kind'], 'related' if related else 'unrelated', 'dim%d' % dim]


TARGETS = [Target('std', lambda tier: cases(), check, 12000, 120000, shards=8)]
