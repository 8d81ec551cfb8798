"""Conversion between reference data (lib/ref.py) and objects of the code under test (public API only)."""
from fractions import Fraction as F

from quicktions import Fraction as Q

from peano.base_maps import BaseMap, Spec
from peano.curves import Curve
from peano.paths import Path, Proto
from peano.subsets import Link, Point

from . import ref
from .engine import output


def q(x):
    """python Fraction -> quicktions Fraction"""
    x = F(x)
    return Q(x.numerator, x.denominator)


def f(x):
    """any rational of the code under test -> python Fraction"""
    if isinstance(x, int):
        return F(x)
    return F(int(x.numerator), int(x.denominator))


def bm(coords, rev=False):
    return BaseMap(coords, rev)


def bm_text(text):
    return BaseMap(*ref.parse_iso(text))


def from_bm(b):
    with output('base map'):
        return tuple((int(k), bool(v)) for k, v in b.coords), bool(b.time_rev)


def spec(s):
    c, r, p = s
    return Spec(BaseMap(c, r), p)


def from_spec(s):
    with output('spec'):
        c, r = from_bm(s.base_map)
        return c, r, int(s.pnum)


def point(pt):
    return Point([q(x) for x in pt])


def from_point(p):
    with output('point'):
        return tuple(f(x) for x in p)


def link(l):
    return Link(point(l[0]), point(l[1]))


def from_link(l):
    with output('link'):
        return from_point(l.entrance), from_point(l.exit)


def from_proto(p):
    with output('prototype'):
        return [tuple(int(c) for c in cube) for cube in p]


def path(dim, div, rpath):
    """rpath = [(cube, entr, exit), ...]"""
    return Path(Proto(dim, div, [c for c, _, _ in rpath]), [link((e, x)) for _, e, x in rpath])


def from_path(p):
    with output('path'):
        cubes = from_proto(p.proto)
        links = [from_link(l) for l in p.links]
        return [(c, l[0], l[1]) for c, l in zip(cubes, links, strict=True)]


def curve(rc):
    return Curve(rc.dim, rc.div, [(Proto(rc.dim, rc.div, cubes), [spec(s) for s in specs]) for cubes, specs in rc.patterns], pnum=rc.pnum)


def from_curve(c):
    """Curve (or a fully specified fuzzy curve) -> RCurve."""
    with output('curve'):
        pats = []
        for pat in c.patterns:
            specs = list(pat.specs)
            if any(s is None for s in specs):
                raise ValueError('spec is not defined')
            pats.append((from_proto(pat.proto), [from_spec(s) for s in specs]))
        rc = ref.RCurve(c.dim, c.div, pats, c.pnum)
        G = c.div ** c.dim
        for cubes, specs in rc.patterns:
            if len(cubes) != G or len(specs) != G:
                raise ValueError('pattern length')
        return rc


def data(rc):
    """comparable content of a reference curve"""
    return (rc.dim, rc.div, rc.pnum, tuple((tuple(c), tuple(s)) for c, s in rc.patterns))
