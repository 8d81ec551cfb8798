"""C22: best of a sequence of classes."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.classes import Class, class_cases
from lib.engine import Target, require, same, output

PROPERTY = 'C22'
RULE = ('Cases: a sequence of up to 6 classes (list, tuple, generator; any order, repetitions), tolerance, epoch multiplier, a-priori upper bound placed around the brute-force minimum; '
        'non-trivial: at least two different classes.')
ASSUMPTIONS = ['reference minima carry float rounding of 1e-9',
               'with an a-priori upper bound below the minimum only the lower bound and the membership of reported curves are judged, as documented ("may return None if violated")']
EPS = 1e-9
CALLS = 100000


@st.composite
def cases(draw, tier):
    dim = 1 if draw(st.integers(0, 29)) == 0 else draw(st.sampled_from([2, 2, 2, 3]))
    pools = gen.pick_pools(max_genus={1: 4, 2: 9, 3: 8}[dim], dims=[dim], max_gates=3)
    if dim == 2 and draw(st.booleans()):
        pools = gen.pick_pools(max_genus=4, dims=[2], max_gates=3)
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    if draw(st.integers(0, 1)):
        pools = [draw(st.sampled_from(pools))]
    classes = [draw(class_cases(pools, [1, 4, 16] if dim == 3 else [2, 4, 16, 40], max_mult=2)) for _ in range(n)]
    order = list(range(n))
    if draw(st.booleans()):
        order += draw(st.lists(st.integers(0, n - 1), max_size=2))
    order = draw(st.permutations(order))
    return {'classes': classes, 'order': order, 'kind': draw(st.sampled_from(['list', 'tuple', 'gen', 'iter'])),
            'norm': draw(dil.norms(dim)), 'tol': draw(st.sampled_from([1, 3] if dim == 1 else [1, 3, 10, 25] + ([100] if dim == 2 else []))), 'mult': draw(st.sampled_from([None, 2, 3, 10, 50])),
            'ub': draw(st.sampled_from([None, None, '1/2', '19/20', '201/200', '21/20', '5/4', '2', '5'])),
            'cache': draw(st.sampled_from([None, None, 0, 20]))}


def check(case):
    cls = [Class(c) for c in case['classes']]
    norm = case['norm']
    if any(dil.init_pairs(c.members()[0]) > 8000 for c in cls):
        return ['big']
    lab = {norm, 'dim%d' % cls[0].dim, case['kind'], 'classes%d' % len(cls)}
    mins = []
    for c in cls:
        mins.append(c.minimum(norm))
    mlo, mup = min(m[0] for m in mins), min(m[1] for m in mins)
    order = case['order']
    fzs = [cls[i].build() for i in order]
    seq = {'list': lambda: list(fzs), 'tuple': lambda: tuple(fzs), 'gen': lambda: (f for f in fzs), 'iter': lambda: iter(fzs)}[case['kind']]()
    kw = {'rel_tol_inv': case['tol']}
    mult = 4
    if case['mult']:
        kw['rel_tol_inv_mult'] = mult = case['mult']
    ub = None
    if case['ub']:
        ub = F(mlo if F(case['ub']) < 1 else mup).limit_denominator(10 ** 6) * F(case['ub'])
        kw['upper_bound'] = conv.q(ub)
    what = '%s over %d classes %s' % (norm, len(order), {k: case[k] for k in ('tol', 'mult', 'ub', 'kind')})
    est, ratio = dil.budget_estimator(norm, CALLS, **({} if case['cache'] is None else {'cache_max_size': case['cache']}))
    try:
        res = est.estimate_dilation_sequence(seq, **kw)
    except dil.Budget:
        return sorted(lab | {'slow'})
    if res is None:
        require(ub is not None, '%s: nothing found', what)
        require(mup * (1 + EPS) >= float(ub), '%s: nothing found, but a curve has dilation at most %.6f, and the upper bound is %.6f', what, mup, float(ub))
        return sorted(lab | {'none'} | ({'nontrivial'} if len(cls) > 1 else set()))
    lo, up = dil.bounds(res, what)
    if ub is not None:
        require(float(up) <= float(ub) * (1 + EPS), '%s: upper bound %.6f exceeds the given one %.6f', what, float(up), float(ub))
    true_ub = ub is None or float(ub) > mup * (1 + EPS)
    require(float(lo) <= mup * (1 + EPS), '%s: lower bound %.6f exceeds the minimum, which is at most %.6f', what, float(lo), mup)
    require(up <= lo * F(case['tol'] + 1, case['tol']), '%s: bounds [%.6f, %.6f] are wider than the tolerance', what, float(lo), float(up))
    if true_ub:
        dil.encloses(lo, up, mlo, mup, what)
    with output(what):
        idxs, curves = [int(i) for i in res['idxs']], list(res['curves'])
    same(len(curves), len(idxs), what + ': number of curves and indices')
    require(idxs and len(set(idxs)) == len(idxs) and all(0 <= i < len(order) for i in idxs), '%s: indices %s', what, idxs)
    best = float('inf')
    for i, c in zip(idxs, curves):
        rc = conv.from_curve(c)
        require(cls[order[i]].has(rc), '%s: the curve reported for index %d is not in that class', what, i)
        lim = float(up) * (1 + 1 / mult) * (1 + EPS)
        rlo, rup = refdil.dilation(rc, norm, tol=1e-3, cutoff=lim, max_work=1_500_000)
        best = min(best, rlo)
        if true_ub:
            require(rlo <= lim, '%s: the curve reported for index %d has dilation at least %.6f, bounds are [%.6f, %.6f]', what, i, rlo, float(lo), float(up))
    if ub is None:
        require(best <= float(up) * (1 + EPS), '%s: no reported curve attains the upper bound %.6f, the best has dilation %.6f', what, float(up), best)
    if true_ub:
        require(any(mins[order[i]][0] <= mup * (1 + EPS) for i in idxs), '%s: no reported index %s belongs to a class attaining the minimum, class minima %s', what, idxs, [mins[i] for i in order])
        lab.add('found')
    else:
        lab.add('found-above-bound')
    if len(cls) > 1:
        lab.add('nontrivial')
    if len(idxs) > 1:
        lab.add('several')
    return sorted(lab)


def check_empty(case):
    from peano.dilation import Estimator
    seq = [] if case['kind'] == 'list' else (x for x in [])
    kw = {} if case['ub'] is None else {'upper_bound': conv.q(case['ub'])}
    require(not dil.estimator(case['norm']).estimate_dilation_sequence(seq, **kw), 'empty sequence: something is found')
    return ['nontrivial']


TARGETS = [Target('sequence', lambda tier: cases(tier), check, 1200, 6000, shards=8),
           Target('empty', lambda tier: st.fixed_dictionaries({'kind': st.sampled_from(['list', 'gen']), 'norm': dil.norms(2), 'ub': st.sampled_from([None, 1, 5])}), check_empty, 8, 8)]
