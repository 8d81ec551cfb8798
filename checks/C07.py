"""C07: subdivision and deep specs."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same

PROPERTY = 'C07'
RULE = ('Cases: a curve (continuous or arbitrary patterns), a subdivision number k and nested fraction numbers; '
        'non-trivial: k >= 1 and the curve uses a time-reversed or permuting spec.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    wild = draw(st.integers(0, 3)) == 0
    rc = draw(gen.wild_curves()) if wild else draw(gen.rcurves(gen.pick_pools(max_genus=16, max_dim=4)))
    kmax = 0
    while rc.genus ** (kmax + 2) <= 1000 and kmax < 3:
        kmax += 1
    nests = [[draw(st.integers(0, rc.mult - 1)), draw(st.lists(st.integers(0, rc.genus - 1), max_size=5))] for _ in range(3)]
    return {'curve': rc.to_case(), 'k': draw(st.integers(0, kmax)), 'nests': nests, 'wild': wild, 't': str(draw(gen.rationals(90)))}


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    c = conv.curve(rc)
    k = case['k']
    sub = c.get_subdivision(k)
    n = conv.from_curve(sub)
    same((n.dim, n.div, n.mult, n.pnum), (rc.dim, rc.div ** (k + 1), rc.mult, rc.pnum), 'shape of the subdivision')
    same(sub.genus, rc.genus ** (k + 1), 'genus of the subdivision')
    for p in range(rc.mult):
        fr = rc.fractions(p, k + 1)
        same(n.patterns[p][0], [f[0] for f in fr], 'cells of subdivision %d, pattern %d' % (k, p))
        # each fraction is the same piece of the curve: compare one more level geometrically ...
        if n.genus * rc.genus <= 4100:
            got = []
            for cube, (co, rv, q) in zip(*n.patterns[p]):
                cells = [ref.act_cube(co, rc.div, x) for x in rc.patterns[q][0]]
                if rv:
                    cells.reverse()
                got += [tuple(a * rc.div + b for a, b in zip(cube, x)) for x in cells]
            same(got, rc.cells(p, k + 2), 'cells one level below subdivision %d' % k)
        # ... and the specs themselves
        same(n.patterns[p][1], [f[1:] for f in fr], 'specs of subdivision %d, pattern %d' % (k, p))
    if k == 1 or rc.mult == 1:
        require(c.get_subdivision() == c.get_subdivision(1), 'default subdivision')
    require(k != 0 or sub == c, 'zero subdivision differs from the curve')
    if not case['wild']:
        t = F(case['t'])
        for p in range(rc.mult):
            same(n.eval(p, t), rc.eval(p, t), 'subdivision at t=%s' % t)
        same(conv.from_point(sub.get_entrance()), rc.entrance(rc.pnum), 'entrance of the subdivision')
        same(conv.from_point(sub.get_exit()), rc.exit(rc.pnum), 'exit of the subdivision')
    # deep specs
    for p, cn in case['nests']:
        st_ = (ref.ident(rc.dim), False, p)
        for i in cn:
            st_ = rc.children(*st_)[i][1:]
        same(conv.from_spec(c.get_deep_spec(p, cn)), st_, 'get_deep_spec(%d, %s)' % (p, cn))
        same(conv.from_spec(c.get_deep_spec(p, iter(cn))), st_, 'get_deep_spec(%d, iterator)' % p)
    same(conv.data(conv.from_curve(c)), conv.data(rc), 'the curve after the operations')
    rich = any(rv or any(kk != i for i, (kk, _) in enumerate(co)) for _, sp in rc.patterns for co, rv, _ in sp)
    return (['nontrivial'] if rich and k else []) + ['k%d' % k, 'wild' if case['wild'] else 'continuous', 'mult%d' % rc.mult, 'dim%d' % rc.dim]


TARGETS = [Target('subdivision', lambda tier: cases(), check, 6000, 60000, shards=8)]
