"""C26: numeric helpers."""
import itertools
import math
from collections import Counter
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import conv, dil
from lib.engine import Target, require, same, output

PROPERTY = 'C26'
RULE = ('Cases: random rational vectors and times for ratio functions; digit sequences for periodic sums and nested coordinates; dimension pairs for faces; integer lists; id lists with element pools; '
        'compared with direct definitions in exact rational arithmetic; non-trivial: at least two coordinates, digits, integers or positions.')
ASSUMPTIONS = ['irrational l2 in odd dimension is not supported by the library and not generated']


def rat():
    return st.one_of(st.integers(-40, 40).map(F), st.builds(F, st.integers(-60, 60), st.integers(1, 30)), st.builds(F, st.integers(-10 ** 12, 10 ** 12), st.integers(1, 10 ** 9)))


@st.composite
def ratios(draw):
    d = draw(st.integers(1, 6))
    norm = draw(st.sampled_from(['l1', 'linf', 'l2_squared'] + (['l2'] if d % 2 == 0 else [])))
    ints = draw(st.booleans())
    if ints:
        dv, dt = [draw(st.integers(-1000, 1000)) for _ in range(d)], draw(st.integers(1, 10 ** 6))
    else:
        dv, dt = [draw(rat()) for _ in range(d)], abs(draw(rat())) or F(1, 3)
    return {'d': d, 'norm': norm, 'ints': ints, 'dv': [str(x) for x in dv], 'dt': str(dt), 'scale': str(draw(st.builds(F, st.integers(1, 9), st.integers(1, 9)))),
            'inc': [str(abs(draw(rat()))) for _ in range(d)], 'as': draw(st.sampled_from(['list', 'tuple']))}


def check_ratio(case):
    fn, d, norm = dil.ratio_func(case['norm']), case['d'], case['norm']
    typ = list if case['as'] == 'list' else tuple
    dv, dt = [F(x) for x in case['dv']], F(case['dt'])
    if case['ints']:
        arg, t = typ(int(x) for x in dv), int(dt)
    else:
        arg, t = typ(conv.q(x) for x in dv), conv.q(dt)
    with output('ratio'):
        got = conv.f(fn(d, arg, t))
    same(got, dil.exact_ratio(norm, d, dv, dt), 'ratio_%s(%d, %s, %s)' % (norm, d, arg, t))
    with output('ratio'):
        neg = conv.f(fn(d, typ(-x for x in arg), t))
        k = conv.q(F(case['scale']))
        sc = conv.f(fn(d, typ(x * k for x in arg), t * k ** d))
        inc = conv.f(fn(d, typ(abs(x) + conv.q(F(y)) for x, y in zip(arg, case['inc'])), t))
    same(neg, got, 'ratio_%s of the opposite vector' % norm)
    same(sc, got, 'ratio_%s is d-uniform' % norm)
    require(inc >= got, 'ratio_%s is not monotone', norm)
    return [norm] + (['nontrivial'] if d > 1 else [])


@st.composite
def sums(draw):
    d = draw(st.integers(2, 40))
    dig = st.integers(0, d - 1)
    return {'d': d, 'start': draw(st.lists(dig, max_size=6)), 'period': draw(st.lists(dig, min_size=1, max_size=6)), 'as': draw(st.sampled_from(['list', 'tuple']))}


def check_sum(case):
    from peano.utils import get_periodic_sum
    d, s, p = case['d'], case['start'], case['period']
    typ = list if case['as'] == 'list' else tuple
    with output('get_periodic_sum'):
        got = conv.f(get_periodic_sum(typ(s), typ(p), d))
    want = sum((F(x, d ** (i + 1)) for i, x in enumerate(s)), F(0))
    # x = block + x / d^m after the start
    block = sum((F(x, d ** (i + 1)) for i, x in enumerate(p)), F(0))
    tail = block / (1 - F(1, d ** len(p)))
    want += tail / d ** len(s)
    same(got, want, 'get_periodic_sum(%s, %s, %d)' % (s, p, d))
    return ['nontrivial'] if len(s) + len(p) > 1 else []


@st.composite
def coords(draw):
    dim, div = draw(st.integers(1, 5)), draw(st.integers(2, 6))
    G = div ** dim
    n = draw(st.integers(0, 8))
    return {'dim': dim, 'div': div, 'cubes': [[draw(st.integers(0, div - 1)) for _ in range(dim)] for _ in range(n)], 'cnums': [draw(st.integers(0, G - 1)) for _ in range(n)],
            'other': [draw(st.integers(1, 5)), draw(st.integers(2, 6))]}


def check_coords(case):
    from peano.utils import get_int_cube_with_cache, get_int_time_with_cache
    dim, div = case['dim'], case['div']
    cubes, cnums = tuple(tuple(c) for c in case['cubes']), tuple(case['cnums'])
    want_x = tuple(sum(c[j] * div ** (len(cubes) - 1 - i) for i, c in enumerate(cubes)) for j in range(dim))
    G = div ** dim
    want_t = sum(c * G ** (len(cnums) - 1 - i) for i, c in enumerate(cnums))
    for _ in range(2):
        same(tuple(get_int_cube_with_cache(dim, div, cubes)), want_x, 'integer cube of %s, div %d' % (cubes, div))
        same(get_int_time_with_cache(dim, div, cnums), want_t, 'integer time of %s, dim %d, div %d' % (cnums, dim, div))
        # the same digits in another base: the caches must not mix them up
        d2, n2 = case['other']
        G2 = n2 ** d2
        same(get_int_time_with_cache(d2, n2, cnums), sum(c * G2 ** (len(cnums) - 1 - i) for i, c in enumerate(cnums)), 'integer time of %s, dim %d, div %d' % (cnums, d2, n2))
        same(tuple(get_int_cube_with_cache(dim, n2, cubes)), tuple(sum(c[j] * n2 ** (len(cubes) - 1 - i) for i, c in enumerate(cubes)) for j in range(dim)), 'integer cube of %s, div %d' % (cubes, n2))
    return ['nontrivial'] if len(cubes) > 1 else []


def check_faces(case):
    from peano.utils import gen_faces
    d, k = case
    with output('gen_faces'):
        got = Counter(tuple(f) for f in gen_faces(d, k))
    want = Counter(f for f in itertools.product((0, 1, None), repeat=d) if sum(x is None for x in f) == k)
    same(got, want, 'faces of dimension %d of the %d-cube' % (k, d))
    return ['nontrivial'] if d > 1 else []


def check_lcm(case):
    from peano.utils import get_lcm
    xs = case['xs']
    arg = {'list': lambda: list(xs), 'gen': lambda: (x for x in xs), 'set': lambda: set(xs)}[case['as']]()
    got = get_lcm(arg)
    same(got, math.lcm(*xs), 'get_lcm(%s)' % xs)
    return ['nontrivial'] if len(set(xs)) > 1 else []


@st.composite
def combos(draw):
    ids = draw(st.lists(st.integers(0, 3), min_size=1, max_size=5))
    pools = {str(i): draw(st.lists(st.integers(0, 9), max_size=4, unique=True)) for i in sorted(set(ids))}
    return {'ids': ids, 'pools': pools, 'extra': draw(st.booleans()), 'kind': draw(st.sampled_from(['list', 'gen', 'str']))}


def check_combos(case):
    from peano.utils import combinations_product
    name = {'list': lambda i: i, 'gen': lambda i: i, 'str': lambda i: 'id%d' % i}[case['kind']]
    ids = [name(i) for i in case['ids']]
    pools = {name(int(k)): ['%s.%d' % (k, x) for x in v] for k, v in case['pools'].items()}
    arg = {k: (iter(v) if case['kind'] == 'gen' else v) for k, v in pools.items()}
    if case['extra']:
        arg['unused'] = ['x']
    with output('combinations_product'):
        got = [tuple(t) for t in combinations_product(ids, arg)]
    # each choice of multisets once
    seen = Counter()
    for t in got:
        same(len(t), len(ids), 'length of a tuple')
        for i, x in zip(ids, t):
            require(x in pools[i], 'element %s in a position of %s', x, i)
        seen[tuple(sorted((i, tuple(sorted(x for j, x in zip(ids, t) if j == i))) for i in set(ids)))] += 1
    groups = sorted(set(ids))
    want = Counter()
    for pick in itertools.product(*[itertools.combinations_with_replacement(sorted(pools[i]), ids.count(i)) for i in groups]):
        want[tuple(zip(groups, pick))] += 1
    same(seen, want, 'choices of combinations_product(%s)' % ids)
    return ['nontrivial'] if len(ids) > 1 and got else []


def faces_cases(tier):
    return [[d, k] for d in range(1, 7 if tier == 'quick' else 9) for k in range(0, d + 1)]


TARGETS = [Target('ratio', lambda tier: ratios(), check_ratio, 6000, 200000, shards=2),
           Target('periodic', lambda tier: sums(), check_sum, 5000, 200000, shards=1),
           Target('coords', lambda tier: coords(), check_coords, 4000, 100000, shards=2),
           Target('faces', lambda tier: st.sampled_from(faces_cases(tier)), check_faces, 0, 0, fixed=faces_cases),
           Target('lcm', lambda tier: st.fixed_dictionaries({'xs': st.lists(st.integers(1, 10 ** 6) | st.integers(1, 30), max_size=8), 'as': st.sampled_from(['list', 'gen', 'set'])}), check_lcm, 3000, 100000),
           Target('combos', lambda tier: combos(), check_combos, 3000, 80000, shards=2)]
