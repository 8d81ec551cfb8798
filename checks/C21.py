"""C21: minimal dilation of a class of curves."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.classes import Class, class_cases
from lib.engine import Target, require, same, output

PROPERTY = 'C21'
RULE = ('Cases: a class with at most a few hundred members (pointed prototypes, some specs fixed, optionally without time reversal or moved by an isometry), a ratio function and a history of bisections and estimates on one estimator, with thresholds placed around the brute-force minimum; '
        'non-trivial: the class has at least two members and the call finished within its iteration limit.')
ASSUMPTIONS = ['reference minima carry float rounding of 1e-9', 'members of the class: see C11']
EPS = 1e-9


@st.composite
def cases(draw, tier):
    big = draw(st.booleans())
    md = 1 if draw(st.integers(0, 9)) == 0 else 2
    pools = gen.pick_pools(max_genus=9, max_dim=3, min_dim=md, max_gates=3) if big else gen.pick_pools(max_genus=4, max_dim=2, min_dim=md, max_gates=3)
    cl = draw(class_cases(pools, [2, 6, 20, 20] if big else [4, 16, 64, 128]))
    dim = cl['dim']
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(['bisect', 'bisect', 'estimate', 'estimate']))
        op = {'op': k, 'max_iter': None}
        if k == 'bisect':
            op['bad'] = draw(st.sampled_from(['1/2', '4/5', '9/10', '97/100', '199/200', '201/200', '103/100', '11/10', '5/4', '2', '4']))
            op['gap'] = draw(st.sampled_from(['1/100', '1/20', '1/5', '1', '3']))
        else:
            op['tol'] = draw(st.sampled_from([1, 2, 4] if dim == 1 else [1, 2, 4, 10, 30] + ([100, 300] if not big and dim == 2 else [])))
            op['start_lo'] = draw(st.sampled_from([None, None, '1/3', '9/10', '99/100']))
            op['start'] = draw(st.integers(0, 50)) if draw(st.integers(0, 2)) == 0 else None
            op['slack'] = draw(st.sampled_from(['0', '1/10', '2']))
            op['stop'] = draw(st.sampled_from([None, None, '1/2', '9/10', '11/10', '2']))
        if draw(st.integers(0, 3)) == 0:
            op['max_iter'] = draw(st.integers(1, 60))
        op['mult'] = draw(st.sampled_from([None, None, 1.01, 2.0, 10.0]))
        ops.append(op)
    return {'class': cl, 'norm': draw(dil.norms(dim)), 'ops': ops, 'cache': draw(st.sampled_from([None, None, 0, 10]))}


def bounded(x, den=10 ** 6):
    """a rational near the float x"""
    return F(x).limit_denominator(den)


CALLS = 60000


def check(case):
    cl = Class(case['class'])
    norm = case['norm']
    mem = cl.members()
    fz = cl.build()
    if dil.init_pairs(mem[0]) > 20000:
        return ['big']
    est, ratio = dil.budget_estimator(norm, CALLS, **({} if case['cache'] is None else {'cache_max_size': case['cache']}))
    mlo, mup = cl.minimum(norm)
    lab = {norm, 'dim%d' % cl.dim, 'mult%d' % cl.mult, 'members%d' % (3 if len(mem) > 50 else 2 if len(mem) > 1 else 1)}

    def member_curve(c, limit, what):
        rc = conv.from_curve(c)
        require(cl.has(rc), '%s: the returned curve is not a member of the class', what)
        rlo, rup = refdil.dilation(rc, norm, tol=1e-3, cutoff=float(limit) * (1 + EPS), max_work=1_500_000)
        require(rlo <= float(limit) * (1 + EPS), '%s: the returned curve has dilation at least %.6f, promised at most %.6f', what, rlo, float(limit))
        return rlo, rup

    for op in case['ops']:
        ratio.left = CALLS
        limited = op['max_iter'] is not None
        kw = {'max_iter': op['max_iter']} if limited else {}
        if op['mult']:
            kw['sat_iter_multiplier'] = op['mult']
        if op['op'] == 'bisect':
            bad = bounded(mlo) * F(op['bad'])
            good = bad * (1 + F(op['gap']))
            what = '%s bisection with thresholds %.6f, %.6f (minimum %.6f)' % (norm, bad, good, mlo)
            try:
                res = est.bisect_dilation_fuzzy(fz, good_threshold=conv.q(good), bad_threshold=conv.q(bad), **kw)
            except dil.Budget:
                lab.add('slow')
                continue
            except Exception as e:
                if not limited or not type(e).__module__.startswith('peano'):
                    raise
                lab.add('out-of-iterations')
                continue
            if res is None:
                require(mup * (1 + EPS) >= float(bad), '%s: no curve is claimed, but one has dilation at most %.6f', what, mup)
                lab.add('none')
            else:
                member_curve(res, good, what)
                lab.add('found')
        else:
            what = '%s estimate %s' % (norm, {k: v for k, v in op.items() if k != 'op'})
            if op['start_lo']:
                kw['start_lower_bound'] = conv.q(bounded(mlo) * F(op['start_lo']))
            if op['start'] is not None:
                rc = mem[op['start'] % len(mem)]
                up0 = bounded(refdil.dilation(rc, norm, tol=1e-3, max_work=1_500_000)[1] * 1.0001) * (1 + F(op['slack']))
                kw['start_curve'] = conv.curve(rc)
                kw['start_upper_bound'] = conv.q(up0)
            if op['stop']:
                kw['stop_upper_bound'] = conv.q(bounded(mup * 1.0001) * F(op['stop']))
            try:
                res = est.estimate_dilation_fuzzy(fz, rel_tol_inv=op['tol'], **kw)
            except dil.Budget:
                lab.add('slow')
                continue
            lo, up = dil.bounds(res, what)
            dil.encloses(lo, up, mlo, mup, what)
            r = member_curve(res['curve'], up, what)
            require(float(lo) <= r[1] * (1 + EPS), '%s: the returned curve has dilation at most %.6f, below the lower bound %.6f', what, r[1], float(lo))
            if up <= lo * F(op['tol'] + 1, op['tol']):
                lab.add('tight')
            elif limited:
                lab.add('limited')
            else:
                require(op['stop'] and lo > conv.f(kw['stop_upper_bound']), '%s: bounds [%.6f, %.6f] are wider than the tolerance', what, float(lo), float(up))
                lab.add('stopped')
        if len(mem) > 1 and cl.dim > 1:
            lab.add('nontrivial')
    return sorted(lab)


TARGETS = [Target('classes', lambda tier: cases(tier), check, 2400, 12000, shards=8)]
