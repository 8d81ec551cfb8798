"""C01: base maps form a group and act exactly."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output
from peano.base_maps import BaseMap, Spec
from peano.curves import CurvePoint
from peano.paths import Proto
from peano.subsets import Point

PROPERTY = 'C01'
RULE = ('Cases: operation programs over registers of random base maps/specs (dim 1..6), and random points/cubes/times/objects acted on; '
        'non-trivial: dim >= 2 and at least one map involved is neither the identity nor a pure flip or pure permutation without the other feature.')
ASSUMPTIONS = ['reference group in lib/ref.py composes the maps pointwise on a generic probe point']


# reference: (coords, rev)
def r_mul(a, b):
    return ref.comp(a[0], b[0]), a[1] ^ b[1]


def r_inv(a):
    return ref.inv(a[0]), a[1]


def r_pow(a, n):
    if n < 0:
        return r_pow(r_inv(a), -n)
    one = (ref.ident(len(a[0])), False)
    cyc = [one]
    while len(cyc) <= n:
        cyc.append(r_mul(cyc[-1], a))
        if cyc[-1] == one:
            return cyc[n % (len(cyc) - 1)]
    return cyc[n]


def rich(a):
    c = a[0]
    return len(c) >= 2 and any(k != i for i, (k, _) in enumerate(c)) and (any(b for _, b in c) or a[1])


def eq_bm(got, want, what):
    same(conv.from_bm(got), want, what)
    fresh = BaseMap(want[0], want[1])
    require(got == fresh and hash(got) == hash(fresh) and not (got != fresh), '%s: not equal to the same map built directly', what)
    same(got.dim, len(want[0]), what + ' dim')


OPS = ['mul', 'inv', 'pow', 'tilde', 'conj', 'cube', 'id', 'copy']


@st.composite
def programs(draw):
    dim = draw(st.integers(1, 6))
    regs = draw(st.lists(gen.iso_texts(dim), min_size=2, max_size=4))
    n = draw(st.integers(1, 14))
    ops = []
    size = len(regs)
    for _ in range(n):
        op = draw(st.sampled_from(OPS))
        i = draw(st.integers(0, size - 1))
        j = draw(st.integers(0, size - 1))
        p = draw(st.one_of(st.integers(-9, 12), st.integers(-130, 130), st.integers(-10 ** 20, 10 ** 20))) if op == 'pow' else 0
        ops.append([op, i, j, p])
        size += 1
    return {'dim': dim, 'regs': regs, 'ops': ops}


def check_program(case):
    dim = case['dim']
    model = [ref.parse_iso(t) for t in case['regs']]
    real = [BaseMap(list(c), r) for c, r in model]
    nt = False
    for op, i, j, p in case['ops']:
        a, b = real[i], real[j]
        ma, mb = model[i], model[j]
        if op == 'mul':
            x, m = a * b, r_mul(ma, mb)
        elif op == 'inv':
            x, m = a.get_inverse(), r_inv(ma)
            eq_bm(a ** (-1), m, 'a**(-1)')
            eq_bm(a * x, (ref.ident(dim), False), 'a * a^-1')
        elif op == 'pow':
            x, m = a ** p, r_pow(ma, p)
        elif op == 'tilde':
            x, m = ~a, (ma[0], not ma[1])
        elif op == 'conj':
            x, m = a.conjugate_by(b), r_mul(r_mul(mb, ma), r_inv(mb))
        elif op == 'cube':
            x, m = a.cube_map(), (ma[0], False)
        elif op == 'id':
            x, m = BaseMap.id_map(dim), (ref.ident(dim), False)
        else:
            x, m = BaseMap(tuple(a.coords), a.time_rev), ma
        eq_bm(x, m, '%s of registers %d,%d' % (op, i, j))
        require((x == a) == (m == ma), 'equality of maps: %s and %s', x, a)
        nt = nt or (rich(ma) and op in ('mul', 'inv', 'pow', 'conj'))
        real.append(x)
        model.append(m)
    # nothing was changed by the later operations
    for x, m in zip(real, model):
        eq_bm(x, m, 'register after the program')
    return (['nontrivial'] if nt else []) + ['dim%d' % dim] + ['op-' + o[0] for o in case['ops']]


@st.composite
def actions(draw):
    dim = draw(st.integers(1, 6))
    fr = gen.rationals(20, -2, 3)
    div = draw(st.one_of(st.integers(2, 9), st.integers(1, 5000)))
    genus = draw(st.one_of(st.integers(2, 40), st.integers(1, 10 ** 12)))
    return {'dim': dim, 'a': draw(gen.iso_texts(dim)), 'b': draw(gen.iso_texts(dim)),
            'x': [str(v) for v in draw(st.tuples(*[fr] * dim))], 'mx': draw(st.one_of(st.integers(1, 9), st.integers(1, 10 ** 9))), 't': str(draw(fr)), 'mt': draw(st.one_of(st.integers(1, 50), st.integers(1, 10 ** 12))),
            'div': div, 'cube': list(draw(st.tuples(*[st.integers(0, div - 1)] * dim))),
            'start': list(draw(st.tuples(*[st.integers(-3, 4)] * dim))), 'len': draw(st.integers(1, 4)),
            'genus': genus, 'cnum': draw(st.integers(0, genus - 1)),
            'cubes': draw(st.lists(st.one_of(st.none(), st.tuples(*[st.integers(0, div - 1)] * dim).map(list)), min_size=1, max_size=6))}


def check_actions(case):
    ma, mb = ref.parse_iso(case['a']), ref.parse_iso(case['b'])
    a, b = BaseMap(*ma), BaseMap(*mb)
    ab = a * b
    mab = r_mul(ma, mb)
    x = [F(v) for v in case['x']]
    qx = [conv.q(v) for v in x]
    div, cube, start, ln = case['div'], case['cube'], case['start'], case['len']
    t, mt, mx = F(case['t']), case['mt'], case['mx']

    def tup(v):
        with output('image'):
            return tuple(conv.f(u) for u in v)
    for g, m in ((a, ma), (b, mb), (ab, mab)):
        c, r = m
        same(tup(g.apply_x(qx)), ref.act_x(c, x), 'apply_x')
        same(tup(g.apply_x(qx, mx)), ref.act_x(c, x, mx), 'apply_x with scale')
        same(tup(g.apply_x(qx, conv.q(F(mx, 3)))), ref.act_x(c, x, F(mx, 3)), 'apply_x with fractional scale')
        same(tup(g.apply_vec(qx)), ref.act_vec(c, x), 'apply_vec')
        same(tuple(g.apply_cube(div, cube)), ref.act_cube(c, div, cube), 'apply_cube')
        # cube [s, s+len] in [0,1]^d: lower vertex of the image
        want = tuple(min(1 - start[k], 1 - start[k] - ln) if fl else start[k] for k, fl in c)
        same(tup(g.apply_cube_start(start, ln)), tuple(F(v) for v in want), 'apply_cube_start')
        qs = [conv.q(F(v, div)) for v in cube]
        same(tup(g.apply_cube_start(qs, conv.q(F(1, div)))), tuple(F(v, div) for v in ref.act_cube(c, div, cube)), 'apply_cube_start of a grid cube')
        same(conv.f(g.apply_t(conv.q(t))), 1 - t if r else t, 'apply_t')
        same(conv.f(g.apply_t(conv.q(t), mt)), mt - t if r else t, 'apply_t with scale')
        same(g.apply_cnum(case['genus'], case['cnum']), case['genus'] - 1 - case['cnum'] if r else case['cnum'], 'apply_cnum')
        # objects
        p = Point(qx)
        same(conv.from_point(g * p), ref.act_x(c, x), 'map * Point')
        y = [1 - v * 2 for v in x]
        l = conv.link((x, y))
        same(conv.from_link(g * l), ref.act_link(c, r, (tuple(x), tuple(y))), 'map * Link')
        cubes = [None if v is None else tuple(v) for v in case['cubes']]
        got = g * Proto(case['dim'], div, cubes)
        want = [None if v is None else ref.act_cube(c, div, v) for v in cubes]
        if r:
            want.reverse()
        with output('map * Proto'):
            same([None if v is None else tuple(v) for v in got], want, 'map * Proto')
            same((got.dim, got.div), (case['dim'], div), 'map * Proto dim/div')
        cp = g * CurvePoint(p, conv.q(t))
        with output('map * CurvePoint'):
            same((conv.from_point(cp.x), conv.f(cp.t)), (ref.act_x(c, x), 1 - t if r else t), 'map * CurvePoint')
    # compatibility with composition
    require(ab * Point(qx) == a * (b * Point(qx)), 'point: (ab)x != a(bx)')
    lk = conv.link((x, x[::-1]))
    require(ab * lk == a * (b * lk), 'link: (ab)l != a(bl)')
    same(tuple(ab.apply_cube(div, cube)), tuple(a.apply_cube(div, b.apply_cube(div, cube))), 'cube: (ab)c = a(bc)')
    same(ab.apply_cnum(case['genus'], case['cnum']), a.apply_cnum(case['genus'], b.apply_cnum(case['genus'], case['cnum'])), 'cnum action')
    fac = conv.q(F(case['div'], 3))
    sc = CurvePoint(Point(qx), conv.q(t)).scale(fac)
    with output('CurvePoint.scale'):
        same((conv.from_point(sc.x), conv.f(sc.t)), (tuple(F(div, 3) * v for v in x), F(div, 3) ** case['dim'] * t), 'CurvePoint.scale')
    return (['nontrivial'] if rich(ma) and rich(mb) else []) + ['dim%d' % case['dim']]


@st.composite
def spec_programs(draw):
    dim = draw(st.integers(1, 5))
    regs = draw(st.lists(st.tuples(gen.iso_texts(dim), st.one_of(st.integers(0, 4), st.integers(0, 1), st.just(None))), min_size=2, max_size=5))
    size = len(regs)
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        ops.append([draw(st.sampled_from(['mul', 'mul', 'tilde', 'conj', 'new'])), draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))])
        size += 1
    return {'dim': dim, 'regs': [list(r) for r in regs], 'ops': ops}


def check_spec_program(case):
    """registers hold base maps (pnum None) and specs"""
    model = [ref.parse_iso(t) + (p,) for t, p in case['regs']]

    def build(m):
        b = BaseMap(m[0], m[1])
        return b if m[2] is None else Spec(b, m[2])

    def compare(x, m, what):
        if m[2] is None:
            eq_bm(x, m[:2], what)
        else:
            same(conv.from_spec(x), m, what)
            y = build(m)
            require(x == y and hash(x) == hash(y), '%s: equal specs differ', what)
            z = Spec(BaseMap(m[0], m[1]), m[2] + 1)
            require(not (x == z), 'specs with different pattern numbers are equal')
            z = Spec(BaseMap(m[0], not m[1]), m[2])
            require(not (x == z), 'specs with different base maps are equal')
    real = [build(m) for m in model]
    nt = False
    for op, i, j in case['ops']:
        ma, mb = model[i], model[j]
        if op == 'mul':
            x = real[i] * real[j]
            c, r = r_mul(ma[:2], mb[:2])
            # (S1 S2) f = S1 (S2 f): pattern selection of the left factor if it has one
            m = (c, r, ma[2] if ma[2] is not None else mb[2])
            nt = nt or (rich(ma[:2]) and rich(mb[:2]) and m[2] is not None)
        elif op == 'tilde':
            x, m = ~real[i], (ma[0], not ma[1], ma[2])
        elif op == 'conj' and mb[2] is None:
            x = real[i].conjugate_by(real[j])
            c, r = r_mul(r_mul(mb[:2], ma[:2]), r_inv(mb[:2]))
            m = (c, r, ma[2])
            nt = nt or (rich(ma[:2]) and rich(mb[:2]))
        else:
            x, m = build(ma), ma
        compare(x, m, '%s(%d,%d)' % (op, i, j))
        real.append(x)
        model.append(m)
    for x, m in zip(real, model):
        compare(x, m, 'register after the program')
    return ['nontrivial'] if nt else []


def fixed_pairs(tier):
    for dim in (1, 2, 3) if tier == 'thorough' else (1, 2):
        maps = [ref.iso_str(c, r) for c in ref.all_coords(dim) for r in (False, True)]
        for a in maps:
            for b in maps:
                yield {'dim': dim, 'regs': [a, b], 'ops': [['mul', 0, 1, 0], ['conj', 0, 1, 0], ['inv', 2, 0, 0], ['pow', 2, 0, -2]]}


TARGETS = [
    Target('program', lambda tier: programs(), check_program, 6000, 60000, shards=4, fixed=fixed_pairs),
    Target('actions', lambda tier: actions(), check_actions, 4000, 40000, shards=4),
    Target('specs', lambda tier: spec_programs(), check_spec_program, 4000, 40000, shards=3),
]
