"""C19: face moment witness."""
import itertools
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.engine import Target, require, same, output

PROPERTY = 'C19'
RULE = ('Cases: a continuous curve, ratio function, face dimension and limits; the reported pair of points is evaluated exactly on the curve; with a depth limit the bound is compared with all face points of fractions up to that depth; '
        'non-trivial: dimension at least 2 and several orientations or patterns.')
ASSUMPTIONS = ['the witness is given in the frame of its junction: first fraction at time [0,1] in the unit cube, second one shifted by the junction']


@st.composite
def cases(draw):
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=16, max_dim=4), max_mult=4))
    o = {'use_face_moments': True, 'face_dim': draw(st.integers(0, max(0, rc.dim - 1)))}
    m = draw(st.integers(0, 2))
    if m == 0:
        o['rel_tol_inv'] = draw(st.sampled_from([1, 2, 5, 10, 20]))
    elif m == 1:
        o['rel_tol_inv'] = draw(st.sampled_from([1, 5, 20, None]))
        o['max_iter'] = draw(st.integers(0, 120))
    else:
        o['rel_tol_inv'] = None
        o['max_depth'] = draw(st.integers(0, 2)) if rc.genus <= 4 else draw(st.integers(0, 1))
    return {'curve': rc.to_case(), 'norm': draw(dil.norms(rc.dim)), 'opts': o}


def face_points(rc, face_dim):
    """{p: sorted [(t, x)]} first and last face points of patterns"""
    res = {}
    for p in range(rc.mult):
        s = set()
        for pos in itertools.combinations(range(rc.dim), rc.dim - face_dim):
            for vals in itertools.product((0, 1), repeat=len(pos)):
                face = [None] * rc.dim
                for i, v in zip(pos, vals):
                    face[i] = v
                for last in (False, True):
                    s.add(rc.first_touch(p, tuple(face), last))
        res[p] = sorted(s)
    return res


def level_points(rc, o, depth, pts):
    """face points of all depth-level fractions of orientation o, as arrays t, x (in units of the whole fraction)"""
    co, rv, q = o
    n, g = rc.div ** depth, rc.genus ** depth
    T, X = [], []
    for i, (cube, c2, r2, q2) in enumerate(rc.fractions(q, depth, coords=co, rev=rv)):
        for t, x in pts[q2]:
            xx = ref.act_x(c2, x)
            tt = 1 - t if r2 else t
            T.append((i + float(tt)) / g)
            X.append([(c + float(v)) / n for c, v in zip(cube, xx)])
    return np.array(T), np.array(X)


def best_ratio(norm, d, a, b):
    t1, x1 = a
    t2, x2 = b
    dt = t2[None, :] - t1[:, None]
    ok = dt > 1e-12
    dx = np.abs(x2[None, :, :] - x1[:, None, :])
    r = refdil.ratio(norm, d, dx, np.where(ok, dt, 1.0))
    return float(np.where(ok, r, 0.0).max())


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    norm, o = case['norm'], dict(case['opts'])
    d = rc.dim
    lab = {norm, 'dim%d' % d, 'mult%d' % rc.mult, 'face%d' % o['face_dim']}
    units = dil.init_pairs(rc) * dil.pair_units(rc, o)
    if units > 60000:
        return sorted(lab | {'skipped'})
    c = conv.curve(rc)
    est = dil.estimator(norm)
    cap = max(10, int(60000 / rc.genus / dil.pair_units(rc, o)))
    exact_run = True
    if 'max_iter' not in o:
        o['max_iter'] = cap
    res = est.estimate_dilation_regular(c, **o)
    lo, up = dil.bounds(res, 'face moments')
    with output('argmax'):
        am = res['argmax']
        j = am['junc']
        s1, s2 = conv.from_spec(j.spec1), conv.from_spec(j.spec2)
        dx = tuple(int(v) for v in j.delta_x)
        dt = int(j.delta_t)
        x1, x2 = tuple(conv.f(v) for v in am['x1']), tuple(conv.f(v) for v in am['x2'])
        t1, t2 = conv.f(am['t1']), conv.f(am['t2'])
    if dt == 0:
        require(s1 == s2 and s1[0] == ref.ident(d) and not s1[1] and not any(dx), 'witness on a malformed auto junction')
    else:
        keys = {ref.junction_key(*k) for _, k in rc.level_junctions()}
        require(ref.junction_key(s1, s2, dx) in keys, 'witness on a junction the curve does not have: %s', j)
    require(0 <= t1 <= 1 and 0 <= t2 - dt <= 1, 'witness times %s, %s out of the fractions', t1, t2)
    same(rc.eval(s1[2], t1, coords=s1[0], rev=s1[1]), x1, 'first point of the witness at its time')
    same(rc.eval(s2[2], t2 - dt, coords=s2[0], rev=s2[1]), tuple(a - b for a, b in zip(x2, dx)), 'second point of the witness at its time')
    require(t2 > t1, 'witness times are not ordered')
    same(dil.exact_ratio(norm, d, [a - b for a, b in zip(x1, x2)], t2 - t1), lo, 'ratio at the witness')
    if 'max_depth' in o:
        # did it stop because of the depth limit? (the same result with a larger iteration limit)
        res2 = est.estimate_dilation_regular(c, **{**o, 'max_iter': o['max_iter'] * 2})
        if (res2['lo'], res2['up']) == (res['lo'], res['up']):
            pts = face_points(rc, o['face_dim'])
            best = 0.0
            for depth in range(1, o['max_depth'] + 1):
                for p in range(rc.mult):
                    lp = level_points(rc, (ref.ident(d), False, p), depth, pts)
                    if len(lp[0]) <= 1500:
                        best = max(best, best_ratio(norm, d, lp, lp))
                for _, (k1, k2, kd) in rc.level_junctions():
                    a, b = level_points(rc, k1, depth, pts), level_points(rc, k2, depth, pts)
                    if len(a[0]) <= 1500:
                        best = max(best, best_ratio(norm, d, a, (b[0] + 1, b[1] + np.array(kd))))
            require(float(lo) >= best * (1 - 1e-9), 'depth limit %s: lower bound %.6f, but face points give %.6f', o['max_depth'], float(lo), best)
            lab.add('depth-complete')
    if d > 1 and (rc.mult > 1 or len({s for _, sp in rc.patterns for s in sp}) > 1):
        lab.add('nontrivial')
    if dt:
        lab.add('regular-junction')
    return sorted(lab)


TARGETS = [Target('witness', lambda tier: cases(), check, 600, 5000, shards=8)]
