"""
Geometric model of subsets: a set is an open box inside an affine coordinate subspace,
prod of intervals; degenerate coordinate [v,v] or open interval (a,b).
Points are boxes with all coordinates fixed.
"""
import itertools
from dataclasses import dataclass
from fractions import Fraction as F

from hypothesis import strategies as st

from . import ref, gen, conv


@dataclass(frozen=True)
class Box:
    lo: tuple
    hi: tuple          # lo == hi: fixed coordinate
    div: int = 0       # 0 for points
    facet: tuple = ()
    cubes: tuple = ()

    @property
    def dim(self):
        return len(self.lo)


def mk_point(pt):
    return Box(tuple(pt), tuple(pt))


def mk_facet(dim, div, facet, cubes):
    """interior of the nested sub-cube of the facet"""
    fc, fv = facet
    lo, hi = [], []
    m = 0
    for j in range(dim):
        if j == fc:
            lo.append(F(fv))
            hi.append(F(fv))
        else:
            a = F(0)
            w = F(1)
            for c in cubes:
                w /= div
                a += c[m] * w
            lo.append(a)
            hi.append(a + w)
            m += 1
    return Box(tuple(lo), tuple(hi), div, tuple(facet), tuple(tuple(c) for c in cubes))


def geo(b):
    return b.lo, b.hi


def act(coords, b):
    lo = tuple(1 - b.hi[k] if f else b.lo[k] for k, f in coords)
    hi = tuple(1 - b.lo[k] if f else b.hi[k] for k, f in coords)
    return Box(lo, hi, b.div)


def meet(a, b):
    for l1, h1, l2, h2 in zip(a.lo, a.hi, b.lo, b.hi):
        if l1 == h1 and l2 == h2:
            if l1 != l2:
                return False
        elif l1 == h1:
            if not l2 < l1 < h2:
                return False
        elif l2 == h2:
            if not l1 < l2 < h1:
                return False
        elif max(l1, l2) >= min(h1, h2):
            return False
    return True


def portion(b, cube, size):
    """part of b in the closed cube, relative to it: open box or None; (cube = lower corner, side size)"""
    lo, hi = [], []
    for l, h, c in zip(b.lo, b.hi, cube):
        if l == h:
            if not c <= l <= c + size:
                return None
            lo.append((l - c) / size)
            hi.append((l - c) / size)
        else:
            a, e = max(l, c), min(h, c + size)
            if a >= e:
                return None
            lo.append((a - c) / size)
            hi.append((e - c) / size)
    return tuple(lo), tuple(hi)


def real(b):
    if not b.div:
        return conv.point(b.lo)
    from peano.subsets import FacetDivSubset
    return FacetDivSubset(b.dim, b.div, b.facet, b.cubes)


def from_real(s):
    """object of the code under test -> Box"""
    if isinstance(s, tuple):
        return mk_point(conv.from_point(s))
    return mk_facet(s.dim, s.div, (int(s.facet[0]), int(s.facet[1])), [tuple(int(v) for v in c) for c in s.cubes])


def real_link(l):
    from peano.subsets import Link
    return Link(real(l[0]), real(l[1]))


def to_case(b):
    if not b.div:
        return {'pt': [str(v) for v in b.lo]}
    return {'dim': b.dim, 'div': b.div, 'facet': list(b.facet), 'cubes': [list(c) for c in b.cubes]}


def from_case(c):
    if 'pt' in c:
        return mk_point([F(v) for v in c['pt']])
    return mk_facet(c['dim'], c['div'], tuple(c['facet']), [tuple(x) for x in c['cubes']])


@st.composite
def facet_sets(draw, dim, div, max_depth=3):
    facet = (draw(st.integers(0, dim - 1)), draw(st.integers(0, 1)))
    n = draw(st.integers(0, max_depth))
    cubes = [draw(st.tuples(*[st.integers(0, div - 1)] * (dim - 1))) for _ in range(n)]
    return mk_facet(dim, div, facet, cubes)


def act_facet(coords, b):
    """image of a facet set, as a facet set (independent of the code under test)"""
    g = act(coords, b)
    fc = next(j for j in range(b.dim) if g.lo[j] == g.hi[j])
    cubes = []
    lo = [g.lo[j] for j in range(b.dim) if j != fc]
    for _ in b.cubes:
        c = []
        for i, v in enumerate(lo):
            w = v * b.div
            k = w.numerator // w.denominator
            c.append(k)
            lo[i] = w - k
        cubes.append(tuple(c))
    return mk_facet(b.dim, b.div, (fc, int(g.lo[fc])), cubes)


@st.composite
def related(draw, a):
    """a facet set related to a: image, truncated or refined image, or altered"""
    co, _ = draw(gen.isos(a.dim))
    b = act_facet(co, a)
    kind = draw(st.sampled_from(['same', 'cut', 'refine', 'alter']))
    cubes = list(b.cubes)
    facet = b.facet
    if kind == 'cut' and cubes:
        cubes.pop()
    elif kind == 'refine':
        cubes.append(draw(st.tuples(*[st.integers(0, a.div - 1)] * (a.dim - 1))))
    elif kind == 'alter':
        if cubes and draw(st.booleans()):
            i = draw(st.integers(0, len(cubes) - 1))
            cubes[i] = draw(st.tuples(*[st.integers(0, a.div - 1)] * (a.dim - 1)))
        else:
            facet = (draw(st.integers(0, a.dim - 1)), draw(st.integers(0, 1)))
    return mk_facet(a.dim, a.div, facet, cubes)


@st.composite
def pair_cases(draw, dims=(2, 3, 3, 4)):
    dim = draw(st.sampled_from(dims))
    div = draw(st.integers(2, 5))
    a = draw(facet_sets(dim, div))
    b = draw(related(a)) if draw(st.integers(0, 3)) else draw(facet_sets(dim, div))
    return {'a': to_case(a), 'b': to_case(b)}


@st.composite
def some_point(draw, dim):
    return mk_point(draw(gen.points(dim)))


@st.composite
def links(draw, kind=None, dims=(1, 2, 3)):
    """(entrance, exit) boxes"""
    kind = kind or draw(st.sampled_from(['point', 'facet']))
    if kind == 'point':
        dim = draw(st.sampled_from(dims))
        base = draw(st.lists(gen.unit_coords(), min_size=1, max_size=3))
        vals = base + [1 - v for v in base] + [F(0), F(1)]
        pt = st.tuples(*[st.sampled_from(vals)] * dim)
        return mk_point(draw(pt)), mk_point(draw(pt))
    dim = draw(st.sampled_from([d for d in dims if d >= 2]))
    div = draw(st.integers(2, 4))
    a = draw(facet_sets(dim, div, 2))
    b = draw(related(a)) if draw(st.booleans()) else draw(facet_sets(dim, div, 2))
    return a, b


@st.composite
def link_pair_cases(draw):
    l1 = draw(links())
    co, rv = draw(gen.isos(l1[0].dim))
    fn = act_facet if l1[0].div else act
    l2 = (fn(co, l1[0]), fn(co, l1[1]))
    if rv:
        l2 = l2[::-1]
    mode = draw(st.integers(0, 3))
    if mode == 0 and l1[0].div:
        l2 = (l2[0], draw(related(l2[1])))
    elif mode == 1 and not l1[0].div:
        l2 = (l2[0], draw(some_point(l1[0].dim)))
    return {'l1': [to_case(b) for b in l1], 'l2': [to_case(b) for b in l2]}
