"""C06: isometries and time reversal act on curves."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output
from peano.base_maps import BaseMap, Spec
from peano.curves import FuzzyCurve
from peano.paths import Proto

PROPERTY = 'C06'
RULE = ('Cases: a curve (continuous from the pool with random specs, or arbitrary patterns), two base maps, a pattern number; '
        'non-trivial: the first map moves the curve (some pattern differs) and specs are mixed; for classes (pointed prototypes, some specs fixed): a reversal acts on a class whose possible specs differ along the pattern.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    wild = draw(st.integers(0, 3)) == 0
    rc = draw(gen.wild_curves()) if wild else draw(gen.rcurves(gen.pick_pools(max_genus=32, max_dim=5)))
    dim = rc.dim
    return {'curve': rc.to_case(), 'wild': wild, 'a': draw(gen.iso_texts(dim)), 'b': draw(gen.iso_texts(dim)), 'p': draw(st.integers(0, rc.mult - 1)),
            't': [str(draw(gen.rationals(60))) for _ in range(3)], 'hole': draw(st.lists(st.integers(0, rc.genus * rc.mult - 1), max_size=4))}


def semantic(new, old, coords, rev, what):
    """new(t) == B(old(B_time t)) at all cells of subdivisions up to a size limit, for all patterns"""
    for p in range(old.mult):
        depth = 1
        while True:
            want = [ref.act_cube(coords, old.div ** depth, c) for c in old.cells(p, depth)]
            if rev:
                want.reverse()
            got = new.cells(p, depth)
            if got != want:
                i = next(i for i in range(len(want)) if got[i] != want[i])
                require(False, '%s: pattern %d depth %d cell %d is %s, expected %s', what, p, depth, i, got[i], want[i])
            depth += 1
            if old.genus ** depth > 1100 and depth > 2 or old.genus ** depth > 5000:
                break


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    c = conv.curve(rc)
    before = str(c)
    (ca, ra), (cb, rb) = ref.parse_iso(case['a']), ref.parse_iso(case['b'])
    A, B = BaseMap(ca, ra), BaseMap(cb, rb)
    ac = A * c
    n = conv.from_curve(ac)
    same((n.dim, n.div, n.mult, n.pnum), (rc.dim, rc.div, rc.mult, rc.pnum), 'shape of b*C')
    semantic(n, rc, ca, ra, 'b*C')
    want = rc.transformed(ca, ra)
    same(conv.data(n), conv.data(want), 'patterns of b*C')
    if not case['wild']:
        for t in case['t']:
            t = F(t)
            same(n.eval(rc.pnum, t), ref.act_x(ca, rc.eval(rc.pnum, 1 - t if ra else t)), '(b*C)(t) at t=%s' % t)
    # composition, inverse, reversal, identity
    require((B * A) * c == B * ac, '(ba)C != b(aC)')
    same(conv.data(conv.from_curve(B * ac)), conv.data(want.transformed(cb, rb)), 'b(aC)')
    require(A ** (-1) * ac == c, 'a^-1(aC) != C')
    inv = ~c
    same(conv.data(conv.from_curve(inv)), conv.data(rc.transformed(ref.ident(rc.dim), True)), '~C')
    semantic(conv.from_curve(inv), rc, ref.ident(rc.dim), True, '~C')
    require(~inv == c, '~~C != C')
    require(BaseMap.id_map(rc.dim) * c == c, 'id*C != C')
    # spec selects the pattern
    s = Spec(A, case['p'])
    sc = s * c
    w = rc.transformed(ca, ra)
    w.pnum = case['p']
    same(conv.data(conv.from_curve(sc)), conv.data(w), 'spec*C')
    same(conv.from_proto(sc.proto), w.patterns[case['p']][0], 'prototype of spec*C')
    same([conv.from_spec(x) for x in sc.specs], w.patterns[case['p']][1], 'specs of spec*C')
    s2 = Spec(B, (case['p'] + 1) % rc.mult)
    require((s2 * s) * c == s2 * (s * c), '(s2 s)C != s2(s C)')
    # patterns and pointed prototypes
    for p, pat in enumerate(c.patterns):
        r = ~pat
        cubes, specs = rc.patterns[p]
        same(conv.from_proto(r.proto), cubes[::-1], 'prototype of ~pattern')
        same([conv.from_spec(x) for x in r.specs], specs[::-1], 'specs of ~pattern')
        same(conv.from_proto(~pat.proto), cubes[::-1], '~prototype')
        require(~r == pat and ~~pat.proto == pat.proto, '~~ of a pattern or prototype')
    if not case['wild']:
        for old, new, rev in zip(c.get_paths(), ac.get_paths(), inv.get_paths()):
            require(A * old == new, 'pointed prototypes of b*C')
            require(~old == rev, 'pointed prototypes of ~C')
    # partially specified curve: undefined specs stay undefined at their fraction
    holes = {(h // rc.genus, h % rc.genus) for h in case['hole']}
    pats = [(Proto(rc.dim, rc.div, cubes), [None if (p, i) in holes else conv.spec(x) for i, x in enumerate(specs)]) for p, (cubes, specs) in enumerate(rc.patterns)]
    fz = A * FuzzyCurve(rc.dim, rc.div, pats, rc.pnum)
    for p, pat in enumerate(fz.patterns):
        exp = [None if (p, (rc.genus - 1 - i) if ra else i) in holes else x for i, x in enumerate(want.patterns[p][1])]
        same(conv.from_proto(pat.proto), want.patterns[p][0], 'prototype of b*fuzzy')
        same([None if x is None else conv.from_spec(x) for x in pat.specs], exp, 'specs of b*fuzzy')
    same(str(c), before, 'the curve after the operations')
    same(conv.data(conv.from_curve(c)), conv.data(rc), 'the curve after the operations')
    mixed = len({x for _, sp in rc.patterns for x in sp}) > 1
    moved = conv.data(n) != conv.data(rc)
    return (['nontrivial'] if moved and mixed and (ca != ref.ident(rc.dim) or ra) else []) + ['wild' if case['wild'] else 'continuous', 'mult%d' % rc.mult, 'dim%d' % rc.dim]


@st.composite
def class_cases(draw):
    """classes with several kinds of links, so that the fractions of a class differ"""
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=32, max_dim=4), max_extra=2))
    case = gen.paths_to_case(dim, div, paths)
    case['a'], case['b'] = draw(gen.iso_texts(dim)), draw(gen.iso_texts(dim))
    case['p'] = draw(st.integers(0, len(paths) - 1))
    case['fix'] = [[draw(st.integers(0, len(paths) - 1)), draw(st.integers(0, div ** dim - 1)), draw(st.integers(0, 100))] for _ in range(draw(st.integers(0, 3)))]
    case['rev'] = draw(st.booleans())
    return case


def act_paths(case, dim, div, paths):
    (ca, ra), (cb, rb) = ref.parse_iso(case['a']), ref.parse_iso(case['b'])
    A, B = BaseMap(ca, ra), BaseMap(cb, rb)
    for p in paths:
        path = conv.path(dim, div, p)
        for got, co, rv, what in [(A * path, ca, ra, 'b*path'), (~path, ref.ident(dim), True, '~path'), (~(A * path), ca, not ra, '~(b*path)')]:
            want = gen.map_path(co, rv, div, p)
            same(conv.from_path(got), want, what)
            same(conv.from_link(got.link), gen.path_link(div, want), 'link of ' + what)
            same((got.dim, got.div), (dim, div), 'grid of ' + what)
            require(got == conv.path(dim, div, want) and hash(got) == hash(conv.path(dim, div, want)), '%s is not equal to the same path built directly', what)
            require(got.is_continuous(), '%s is not continuous', what)
        require((B * A) * path == B * (A * path), '(ba)path != b(a path)')
        same(conv.from_path(path), list(p), 'the path after the operations')


def check_class(case):
    from peano.curves import PathFuzzyCurve
    dim, div, paths = gen.paths_from_case(case)
    G, mult = div ** dim, len(paths)
    links = tuple(gen.path_link(div, p) for p in paths)
    act_paths(case, dim, div, paths)
    table = [[sorted(gen.specs_for(links, (e, x))) for _, e, x in p] for p in paths]
    fz = PathFuzzyCurve.init_from_paths([conv.path(dim, div, p) for p in paths])
    fixed = {}
    for p, c, n in case['fix']:
        if (p, c) not in fixed:
            fixed[p, c] = table[p][c][n % len(table[p][c])]
            fz = fz.specify(p, c, conv.spec(fixed[p, c]))
    allowed = [[[fixed[p, c]] if (p, c) in fixed else table[p][c] for c in range(G)] for p in range(mult)]

    def agree(got, co, rv, pnum, what):
        ci = ref.inv(co)
        same(got.pnum, pnum, '%s: selected pattern' % what)
        for p in range(mult):
            cubes = [ref.act_cube(co, div, c) for c, _, _ in paths[p]]
            row = allowed[p]
            if rv:
                cubes, row = cubes[::-1], row[::-1]
            same(conv.from_proto(got.patterns[p].proto), cubes, '%s: prototype %d' % (what, p))
            for c in range(G):
                want = sorted((ref.comp(ref.comp(co, s[0]), ci), s[1], s[2]) for s in row[c])
                with output(what):
                    have = sorted(conv.from_spec(s) for s in got.gen_allowed_specs(p, c))
                same(have, want, '%s: specs possible at fraction %d of pattern %d' % (what, c, p))

    I = ref.ident(dim)
    (ca, ra), (cb, rb) = ref.parse_iso(case['a']), ref.parse_iso(case['b'])
    A, B = BaseMap(ca, ra), BaseMap(cb, rb)
    img = A * fz
    agree(img, ca, ra, 0, 'b*class')
    agree(B * img, ref.comp(cb, ca), ra ^ rb, 0, 'b*(a*class)')
    agree(Spec(A, case['p']) * fz, ca, ra, case['p'], 'spec*class')
    agree(~fz, I, True, 0, '~class')
    agree(~img, ca, not ra, 0, '~(b*class)')
    agree(fz, I, False, 0, 'the class after the operations')
    uneven = any(row != row[::-1] for row in allowed)
    return (['nontrivial'] if uneven and (ra or rb) else []) + ['class', 'mult%d' % mult, 'dim%d' % dim] + (['uneven'] if uneven else [])


TARGETS = [Target('action', lambda tier: cases(), check, 1800, 12000, shards=8),
           Target('class-action', lambda tier: class_cases(), check_class, 1500, 12000, shards=8)]
