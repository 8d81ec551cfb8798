"""C02: text notation."""
import re
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, Pattern
from peano.paths import Proto
from peano.subsets import Point, Link

PROPERTY = 'C02'
RULE = ('Cases: random base maps (dim 1..6), specs (pattern 0..9), rational points/links, prototypes with rook/king steps from any start, curves from them; '
        'non-trivial: a map with a permutation and a sign or reversal, a prototype with a diagonal or negative step, a non-integer or negative point.')
ASSUMPTIONS = ['the printed form of a curve is one "@n: chain | specs" line per pattern, as in the README and search output']


@st.composite
def maps(draw):
    dim = draw(st.integers(1, 6))
    return {'iso': draw(gen.iso_texts(dim)), 'pnum': draw(st.integers(0, 9)), 'pad': draw(st.sampled_from(['', ' ', '  ', '\t'])),
            'pad2': draw(st.sampled_from(['', ' ', '\n']))}


def check_map(case):
    m = ref.parse_iso(case['iso'])
    b = BaseMap.parse(case['pad'] + case['iso'] + case['pad2'])
    same(conv.from_bm(b), m, 'BaseMap.parse(%r)' % case['iso'])
    with output('str(BaseMap)'):
        same(ref.parse_iso(str(b)), m, 'meaning of str(BaseMap)')
    require(BaseMap.parse(str(b)) == b, 'BaseMap.parse(str(b)) != b')
    bb = BaseMap(*m)
    require(b == bb, 'parsed map differs from the constructed one')
    # spec: with a digit, and without (pattern 0)
    s = Spec.parse('%d%s' % (case['pnum'], case['iso']))
    same(conv.from_spec(s), m + (case['pnum'],), 'Spec.parse')
    s0 = Spec.parse(case['iso'])
    same(conv.from_spec(s0), m + (0,), 'Spec.parse without number')
    require(Spec.parse(str(s)) == s, 'Spec.parse(str(s)) != s')
    with output('str(Spec)'):
        t = re.fullmatch(r'(\d*)([a-zA-Z]+~?)', str(s))
        same((int(t.group(1) or 0), ref.parse_iso(t.group(2))), (case['pnum'], m), 'meaning of str(Spec)')
    c = m[0]
    nt = any(k != i for i, (k, _) in enumerate(c)) and (m[1] or any(f for _, f in c))
    return (['nontrivial'] if nt else []) + ['dim%d' % len(c)]


@st.composite
def proto_cases(draw):
    dim, div, cubes = draw(gen.protos())
    return {'dim': dim, 'div': div, 'cubes': [list(c) for c in cubes], 'style': draw(st.integers(0, 3))}


def check_proto(case):
    dim, div = case['dim'], case['div']
    cubes = [tuple(c) for c in case['cubes']]
    text = gen.chain_code(cubes, case['style'])
    p = Proto.parse(text)
    same(conv.from_proto(p), cubes, 'Proto.parse(%r)' % text)
    same((p.dim, p.div), (dim, div), 'dim, div of Proto.parse(%r)' % text)
    p2 = Proto(dim, div, cubes)
    s = str(p2)
    p3 = Proto.parse(s)
    same(conv.from_proto(p3), cubes, 'Proto.parse(str(p)), str=%r' % s)
    require(p3 == p2 and (p3.dim, p3.div) == (dim, div), 'Proto round-trip')
    diag = any(sum(x != y for x, y in zip(a, b)) > 1 for a, b in zip(cubes, cubes[1:]))
    neg = any(y < x for a, b in zip(cubes, cubes[1:]) for x, y in zip(a, b))
    return (['nontrivial'] if diag or neg else []) + ['dim%d' % dim] + (['diagonal'] if diag else []) + (['corner-start'] if not any(cubes[0]) else ['other-start'])


@st.composite
def curve_cases(draw):
    if draw(st.booleans()):
        rc = draw(gen.rcurves(gen.pick_pools(max_genus=16, max_dim=4)))
        # non king steps cannot be written
        return rc.to_case() | {'style': draw(st.integers(0, 3)), 'aslist': draw(st.booleans()), 'pnum': 0}
    dim, div, cubes = draw(gen.protos(max_genus=16, max_dim=4))
    mult = draw(st.integers(1, 10))
    pats = []
    for _ in range(mult):
        co, rv = draw(gen.isos(dim))
        cc = [ref.act_cube(co, div, c) for c in cubes]
        specs = [draw(gen.isos(dim)) + (draw(st.integers(0, mult - 1)),) for _ in cc]
        pats.append((cc, specs))
    return ref.RCurve(dim, div, pats).to_case() | {'style': draw(st.integers(0, 3)), 'aslist': draw(st.booleans())}


def check_curve(case):
    rc = ref.RCurve.from_case(case)
    arg = []
    for p, (cubes, specs) in enumerate(rc.patterns):
        texts = []
        for c, r, q in specs:
            texts.append((str(q) if (q or case['style'] % 2) else '') + ref.iso_str(c, r))
        arg.append((gen.chain_code(cubes, case['style']), texts if case['aslist'] else ','.join(texts)))
    c = Curve.parse(arg)
    same(conv.data(conv.from_curve(c)), conv.data(rc), 'Curve.parse')
    same((c.dim, c.div, c.mult, c.genus), (rc.dim, rc.div, rc.mult, rc.genus), 'dim, div, mult, genus')
    for (chain, specs), pat, (cubes, rs) in zip(arg, c.patterns, rc.patterns):
        one = Pattern.parse(chain, specs)
        require(one == pat, 'Pattern.parse differs from Curve.parse')
        with output('str(Pattern)'):
            a, b = str(pat).split(' | ')
        require(Pattern.parse(a, b) == pat, 'Pattern.parse(str) differs: %s', pat)
    lines = str(c).strip().split('\n')
    same(len(lines), rc.mult, 'number of printed patterns')
    back = []
    for i, line in enumerate(lines):
        with output('str(Curve)'):
            head, rest = line.split(': ', 1)
            same(head, '@%d' % i, 'printed pattern number')
            a, b = rest.split(' | ')
            back.append((a, b))
    c2 = Curve.parse(back)
    same(conv.data(conv.from_curve(c2)), conv.data(rc), 'Curve.parse(str(curve))')
    # same content built directly
    require(c2 == conv.curve(rc) and hash(c2) == hash(conv.curve(rc)), 'parsed curve is not equal to the constructed one')
    return (['nontrivial'] if rc.mult > 1 or rc.dim > 2 else []) + ['mult%d' % rc.mult, 'dim%d' % rc.dim]


@st.composite
def point_cases(draw):
    dim = draw(st.integers(1, 5))
    fr = st.one_of(gen.unit_coords(), gen.rationals(40, -3, 3))
    return {'a': [str(v) for v in draw(st.tuples(*[fr] * dim))], 'b': [str(v) for v in draw(st.tuples(*[fr] * dim))],
            'sp': draw(st.sampled_from(['', ' '])), 'sp2': draw(st.sampled_from(['', ' ']))}


def check_point(case):
    a, b = [tuple(F(v) for v in case[k]) for k in 'ab']
    ta = '(' + (',' + case['sp']).join(case['a']) + ')'
    tb = '(' + (',' + case['sp']).join(case['b']) + ')'
    p = Point.parse(case['sp2'] + ta + case['sp2'])
    same(conv.from_point(p), a, 'Point.parse(%r)' % ta)
    with output('str(Point)'):
        same(ref.parse_point(str(conv.point(a))), a, 'meaning of str(Point)')
    require(Point.parse(str(p)) == p == conv.point(a), 'Point round-trip')
    l = Link.parse_gates(ta + case['sp2'] + '->' + case['sp2'] + tb)
    same(conv.from_link(l), (a, b), 'Link.parse_gates')
    with output('str(Link)'):
        same(ref.parse_link(str(l)), (a, b), 'meaning of str(Link)')
    require(Link.parse_gates(str(l)) == l == conv.link((a, b)), 'Link round-trip')
    return (['nontrivial'] if any(v.denominator > 1 or v < 0 for v in a + b) else []) + ['dim%d' % len(a)]


TARGETS = [
    Target('maps', lambda tier: maps(), check_map, 2500, 20000, shards=2),
    Target('protos', lambda tier: proto_cases(), check_proto, 1600, 16000, shards=2),
    Target('curves', lambda tier: curve_cases(), check_curve, 500, 6000, shards=3),
    Target('points', lambda tier: point_cases(), check_point, 1500, 12000, shards=1),
]
