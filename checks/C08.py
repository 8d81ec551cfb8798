"""C08: entrance/exit, pointed prototypes, continuity check."""
from fractions import Fraction as F

from hypothesis import assume, strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output, raises

PROPERTY = 'C08'
RULE = ('Cases: continuous curves, curves with one altered fraction (spec, pattern number, swapped cubes), arbitrary patterns, point and facet paths with exact or perturbed joints; '
        'non-trivial: a gate with a coordinate other than 0/1, or several patterns, or an alteration that breaks (or keeps) continuity, or facet joints at different depths.')
ASSUMPTIONS = ['facet sets are open (documented), so sets sharing only a boundary do not intersect']


@st.composite
def curve_cases(draw):
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=32, max_dim=5)))
    return {'curve': rc.to_case()}


def check_links(rc, c):
    links = []
    for p in range(rc.mult):
        e, x = c.get_entrance(p), c.get_exit(p)
        links.append((conv.from_point(e), conv.from_point(x)))
        same(links[-1], rc.link(p), 'entrance and exit of pattern %d' % p)
    same(conv.from_point(c.get_entrance()), rc.entrance(rc.pnum), 'default entrance')
    same(conv.from_point(c.get_exit()), rc.exit(rc.pnum), 'default exit')
    paths = c.get_paths()
    same(len(paths), rc.mult, 'number of paths')
    for p, path in enumerate(paths):
        want = [(cube, e, x) for cube, (e, x) in zip(rc.patterns[p][0], rc.frac_links(p))]
        same(conv.from_path(path), want, 'pointed prototype of pattern %d' % p)
        same(conv.from_link(path.link), gen.path_link(rc.div, want), 'link of pattern %d as a whole' % p)
        same((path.dim, path.div), (rc.dim, rc.div), 'path dimensions')
    return links, paths


def accepted(c):
    try:
        c.check()
    except ValueError:
        return False
    except AssertionError:
        return False
    return True


def check_curve(case):
    rc = ref.RCurve.from_case(case['curve'])
    assert rc.is_continuous()
    c = conv.curve(rc)
    links, paths = check_links(rc, c)
    for p, path in enumerate(paths):
        same(conv.from_link(path.link), links[p], 'path link is the gate pair')
        require(path.is_continuous(), 'path of a continuous curve reported broken')
    require(accepted(c), 'check() rejects a continuous curve')
    lab = ['mult%d' % rc.mult, 'dim%d' % rc.dim]
    if rc.mult > 1 or any(v not in (0, 1) for l in links for pt in l for v in pt):
        lab.append('nontrivial')
    return lab


@st.composite
def mutants(draw):
    if draw(st.integers(0, 4)) == 0:
        rc = draw(gen.wild_curves())
        return {'curve': rc.to_case(), 'kind': 'wild'}
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=16, max_dim=4), max_extra=2))
    case = rc.to_case()
    kind = draw(st.sampled_from(['iso', 'flip', 'rev', 'pat', 'swap']))
    p = draw(st.integers(0, rc.mult - 1))
    i = draw(st.integers(0, rc.genus - 1)) if draw(st.booleans()) else draw(st.sampled_from([0, rc.genus - 1]))
    cubes, specs = rc.patterns[p]
    cubes, specs = list(cubes), list(specs)
    co, rv, q = specs[i]
    if kind == 'iso':
        co = draw(gen.isos(rc.dim))[0]
    elif kind == 'flip':
        j = draw(st.integers(0, rc.dim - 1))
        co = tuple((k, b ^ (n == j)) for n, (k, b) in enumerate(co))
    elif kind == 'rev':
        rv = not rv
    elif kind == 'pat':
        q = draw(st.integers(0, rc.mult - 1))
    else:
        j = draw(st.integers(0, rc.genus - 1))
        cubes[i], cubes[j] = cubes[j], cubes[i]
    specs[i] = (co, rv, q)
    pats = list(rc.patterns)
    pats[p] = (cubes, specs)
    return {'curve': ref.RCurve(rc.dim, rc.div, pats, rc.pnum).to_case(), 'kind': kind}


def check_mutant(case):
    rc = ref.RCurve.from_case(case['curve'])
    c = conv.curve(rc)
    _, paths = check_links(rc, c)
    good = True
    for p in range(rc.mult):
        cubes, links = rc.patterns[p][0], rc.frac_links(p)
        ok = all(tuple(a + b for a, b in zip(cubes[i], links[i][1])) == tuple(a + b for a, b in zip(cubes[i + 1], links[i + 1][0])) for i in range(rc.genus - 1))
        same(bool(paths[p].is_continuous()), ok, 'is_continuous of pattern %d' % p)
        good = good and ok
    assert good == rc.is_continuous()
    same(accepted(c), good, 'check() of a curve that is %s' % ('continuous' if good else 'not continuous'))
    return ['nontrivial', case['kind'], 'continuous' if good else 'broken']


# ---------------------------------------------------------------- paths

@st.composite
def facet_paths(draw):
    dim, div = draw(st.sampled_from([(2, 2), (2, 3), (2, 4), (3, 2), (3, 3)]))
    rnd = draw(st.randoms(use_true_random=False))
    cubes = gen.king_walk(rnd, dim, div, draw(st.integers(0, 3)) == 0)
    assume(cubes is not None)
    sides = lambda c: [(j, v) for j in range(dim) for v in (0, 1) if c[j] == (div - 1) * v]
    assume(sides(cubes[0]) and sides(cubes[-1]))

    def nest():
        return [draw(st.tuples(*[st.integers(0, div - 1)] * (dim - 1))) for _ in range(draw(st.integers(0, 2)))]
    entr = [sets.mk_facet(dim, div, draw(st.sampled_from(sides(cubes[0]))), nest())]
    exits = []
    bad = draw(st.integers(0, 2)) == 0
    badpos = draw(st.integers(0, len(cubes) - 2)) if bad else None
    for n, (a, b) in enumerate(zip(cubes, cubes[1:])):
        d = [y - x for x, y in zip(a, b)]
        j = next(i for i, v in enumerate(d) if v)
        nx = nest()
        ne = list(nx)
        k = draw(st.integers(0, 2))
        if k == 1:
            ne = ne + nest()
        elif k == 2 and ne:
            ne.pop()
        fx, fe = (j, int(d[j] > 0)), (j, int(d[j] < 0))
        if n == badpos:
            m = draw(st.integers(0, 2))
            if m == 0 and ne:
                i = draw(st.integers(0, len(ne) - 1))
                ne[i] = draw(st.tuples(*[st.integers(0, div - 1)] * (dim - 1)))
            elif m == 1:
                fe = (draw(st.integers(0, dim - 1)), draw(st.integers(0, 1)))
            else:
                fx = (draw(st.integers(0, dim - 1)), draw(st.integers(0, 1)))
        exits.append(sets.mk_facet(dim, div, fx, nx))
        entr.append(sets.mk_facet(dim, div, fe, ne))
    exits.append(sets.mk_facet(dim, div, draw(st.sampled_from(sides(cubes[-1]))), nest()))
    return {'dim': dim, 'div': div, 'cubes': [list(c) for c in cubes], 'links': [[sets.to_case(e), sets.to_case(x)] for e, x in zip(entr, exits)]}


def shift(b, v):
    return sets.Box(tuple(x + y for x, y in zip(b.lo, v)), tuple(x + y for x, y in zip(b.hi, v)))


def check_facet_path(case):
    from peano.paths import Path, Proto
    dim, div = case['dim'], case['div']
    cubes = [tuple(c) for c in case['cubes']]
    links = [(sets.from_case(a), sets.from_case(b)) for a, b in case['links']]
    path = Path(Proto(dim, div, cubes), [sets.real_link(l) for l in links])
    with output('path link'):
        got = (sets.geo(sets.from_real(path.link.entrance)), sets.geo(sets.from_real(path.link.exit)))
    scale = lambda b, c: (tuple((x + y) / div for x, y in zip(b.lo, c)), tuple((x + y) / div for x, y in zip(b.hi, c)))
    same(got, (scale(links[0][0], cubes[0]), scale(links[-1][1], cubes[-1])), 'link of a facet path')
    ok = all(sets.meet(shift(links[i][1], cubes[i]), shift(links[i + 1][0], cubes[i + 1])) for i in range(len(cubes) - 1))
    same(bool(path.is_continuous()), ok, 'continuity of a facet path')
    rev = ~path
    same(bool(rev.is_continuous()), ok, 'continuity of the reversed facet path')
    with output('reversed facet path'):
        same([tuple(c) for c in rev.proto], cubes[::-1], 'cubes of the reversed facet path')
        same([tuple(sets.geo(sets.from_real(e)) for e in (l.entrance, l.exit)) for l in rev.links], [(sets.geo(b), sets.geo(a)) for a, b in links[::-1]], 'links of the reversed facet path')
    return ['nontrivial', 'facet-ok' if ok else 'facet-broken']


TARGETS = [
    Target('curves', lambda tier: curve_cases(), check_curve, 1400, 12000, shards=4),
    Target('mutants', lambda tier: mutants(), check_mutant, 3000, 25000, shards=6),
    Target('facet-paths', lambda tier: facet_paths(), check_facet_path, 1600, 10000, shards=4),
]
