"""C20: dilation does not depend on presentation or on estimator history."""
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, dil
from lib.engine import Target, require, same

PROPERTY = 'C20'
RULE = ('Cases (presentations): a continuous curve and a chain of presentation changes (isometry, time reversal, subdivision, renumbering and duplication of patterns, current pattern); bounds of all presentations must pairwise intersect. '
        'Cases (histories): a sequence of calls with different curves and options on one estimator with some cache size, each compared with a fresh estimator; '
        'non-trivial: dimension at least 2, and at least two different presentations or at least two calls.')
ASSUMPTIONS = ['the product with a base map and the subdivision are those of the library (their meaning is C06 and C07)']


@st.composite
def presentations(draw):
    pools = gen.pick_pools(max_genus=9, max_dim=3) if draw(st.integers(0, 4)) else gen.pick_pools(max_genus=27, max_dim=4)
    rc = draw(gen.rcurves(pools, max_mult=4))
    forms = []
    for _ in range(draw(st.integers(1, 3))):
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(['map', 'map', 'sub', 'renum', 'dup', 'pnum', 'forget']))
            op = {'op': k}
            if k == 'map':
                op['map'] = draw(gen.iso_texts(rc.dim))
            elif k == 'sub':
                op['n'] = draw(st.sampled_from([1, 1, 2]))
            elif k == 'renum':
                op['keys'] = draw(st.lists(st.integers(0, 9), min_size=8, max_size=8))
            elif k == 'dup':
                op['which'] = draw(st.integers(0, 7))
                op['where'] = draw(st.lists(st.booleans(), min_size=16, max_size=16))
            else:
                op['n'] = draw(st.integers(0, 7))
            ops.append(op)
        forms.append(ops)
    return {'curve': rc.to_case(), 'norm': draw(dil.norms(rc.dim)), 'forms': forms,
            'tol': draw(st.sampled_from([3, 10, 30, 100])), 'faces': draw(st.booleans()), 'cache': draw(st.sampled_from([None, 0, 7]))}


def renum(rc, perm):
    """old pattern p becomes perm[p]"""
    pats = [None] * rc.mult
    for p, (cubes, specs) in enumerate(rc.patterns):
        pats[perm[p]] = (cubes, [(c, r, perm[q]) for c, r, q in specs])
    return ref.RCurve(rc.dim, rc.div, pats, perm[rc.pnum])


def duplicate(rc, which, where):
    """append a copy of a pattern; some references to the original go to the copy"""
    pats = [(cubes, list(specs)) for cubes, specs in rc.patterns]
    pats.append((pats[which][0], list(pats[which][1])))
    n, i = rc.mult, 0
    for _, specs in pats:
        for k, (c, r, q) in enumerate(specs):
            if q == which:
                if where[i % len(where)]:
                    specs[k] = (c, r, n)
                i += 1
    return ref.RCurve(rc.dim, rc.div, pats, rc.pnum)


def apply(c, rc, op):
    """library curve, reference curve of it"""
    k = op['op']
    if k == 'map':
        c = conv.bm_text(op['map']) * c
    elif k == 'sub':
        if rc.genus ** (op['n'] + 1) > 81:
            return c, rc
        c = c.get_subdivision(op['n'])
    elif k == 'renum':
        order = sorted(range(rc.mult), key=lambda p: (op['keys'][p % 8], p))
        perm = {p: i for i, p in enumerate(order)}
        rc = renum(rc, perm)
        return conv.curve(rc), rc
    elif k == 'dup':
        if rc.mult >= 5:
            return c, rc
        rc = duplicate(rc, op['which'] % rc.mult, op['where'])
        return conv.curve(rc), rc
    elif k == 'pnum':
        rc = ref.RCurve(rc.dim, rc.div, rc.patterns, op['n'] % rc.mult)
        return conv.curve(rc), rc
    else:
        return c, rc
    return c, conv.from_curve(c)


def estimate(est, c, rc, tol, faces):
    o = {'rel_tol_inv': tol}
    if faces:
        o.update(use_face_moments=True, face_dim=0)
    o, cap = dil.fit(rc, o, 12000)
    return dil.bounds(est.estimate_dilation_regular(c, max_iter=cap, **o), 'bounds')


def check_forms(case):
    rc0 = ref.RCurve.from_case(case['curve'])
    est = dil.estimator(case['norm'], **({} if case['cache'] is None else {'cache_max_size': case['cache']}))
    c0 = conv.curve(rc0)
    if dil.init_pairs(rc0) > 30000:
        return ['big']
    got = [('original', estimate(est, c0, rc0, case['tol'], case['faces']))]
    lab = set()
    for n, ops in enumerate(case['forms']):
        c, rc = c0, rc0
        for op in ops:
            c, rc = apply(c, rc, op)
            lab.add(op['op'])
        if dil.init_pairs(rc) > 30000:
            lab.add('big')
            continue
        got.append((str([o['op'] for o in ops]), estimate(est, c, rc, case['tol'], case['faces'] and n % 2 == 0)))
    for i, (na, (lo1, up1)) in enumerate(got):
        for nb, (lo2, up2) in got[:i]:
            require(max(lo1, lo2) <= min(up1, up2), '%s: bounds [%.6f, %.6f] of %s and [%.6f, %.6f] of %s are disjoint', case['norm'], float(lo1), float(up1), na, float(lo2), float(up2), nb)
    if len(got) > 1 and rc0.dim > 1:
        lab.add('nontrivial')
    return sorted(lab)


@st.composite
def histories(draw):
    pools = gen.pick_pools(max_genus=9, max_dim=3)
    mode = draw(st.integers(0, 3))
    if mode == 0:
        curves = [draw(gen.rcurves(pools, max_mult=3)) for _ in range(draw(st.integers(1, 3)))]
    elif mode == 1:
        curves = draw(gen.sibling_curves(pools, draw(st.integers(2, 3))))
    else:
        # a long history: many curves with the same grid
        shape = draw(st.sampled_from([(2, 2), (2, 3), (2, 3), (2, 3), (3, 2)]))
        pools = [p for p in pools if (p.dim, p.div) == shape and len(p.gates) <= 2]
        mapped = draw(st.booleans())
        if not mapped:
            pools = [draw(st.sampled_from(pools))]      # many common junctions and positions
        curves = [draw(gen.rcurves(pools, max_mult=2, mapped=mapped)) for _ in range(draw(st.integers(6, 14)))]
    calls = []
    for k in range(draw(st.integers(2, 6)) if mode < 2 else len(curves)):
        i = draw(st.integers(0, len(curves) - 1)) if mode < 2 else k
        o = {'rel_tol_inv': draw(st.sampled_from([1, 3, 10, 30])), 'max_iter': draw(st.sampled_from([0, 3, 30, 150]))}
        if mode >= 2:
            o = {'rel_tol_inv': draw(st.sampled_from([20, 50, 100])), 'max_iter': 1500}
        if draw(st.integers(0, 2 if mode < 2 else 7)) == 0:
            o.update(use_face_moments=True, face_dim=draw(st.integers(0, curves[i].dim - 1)))
        calls.append({'curve': i, 'opts': o, 'map': draw(gen.iso_texts(curves[i].dim)) if draw(st.booleans()) else None})
    dims = {c.dim for c in curves}
    norm = draw(st.sampled_from(['l1', 'linf', 'l2_squared', 'l3_cubed'] + (['l2'] if all(d % 2 == 0 for d in dims) else [])))
    return {'curves': [c.to_case() for c in curves], 'calls': calls, 'norm': norm, 'cache': draw(st.sampled_from([None, None, 0, 1, 5, 100]))}


def check_history(case):
    rcs = [ref.RCurve.from_case(c) for c in case['curves']]
    objs = [conv.curve(rc) for rc in rcs]
    kw = {} if case['cache'] is None else {'cache_max_size': case['cache']}
    est = dil.estimator(case['norm'], **kw)
    lab = {'cache-%s' % case['cache']}
    for n, call in enumerate(case['calls']):
        rc = rcs[call['curve']]
        o, cap = dil.fit(rc, call['opts'], 12000 if len(case['calls']) < 7 else 40000)
        o['max_iter'] = min(o['max_iter'], cap)
        c, f = objs[call['curve']], conv.curve(rc)
        if call['map']:
            c, f = conv.bm_text(call['map']) * c, conv.bm_text(call['map']) * f
        a = est.estimate_dilation_regular(c, **o)
        b = dil.estimator(case['norm']).estimate_dilation_regular(f, **o)
        same((a['lo'], a['up']), (b['lo'], b['up']), 'call %d (%s) on a reused estimator and a fresh one' % (n, o))
        if 'argmax' in b or 'argmax' in a:
            same(a.get('argmax'), b.get('argmax'), 'argmax of call %d on a reused estimator and a fresh one' % n)
        if rc.dim > 1 and n > 0:
            lab.add('nontrivial')
    return sorted(lab)


TARGETS = [Target('presentations', lambda tier: presentations(), check_forms, 250, 5000, shards=5),
           Target('histories', lambda tier: histories(), check_history, 320, 6000, shards=8)]
