"""C18: dilation bounds of regular curves."""
import itertools
from fractions import Fraction as F

import numpy as np

from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.engine import Target, require, same, output

PROPERTY = 'C18'
RULE = ('Cases: a continuous curve (dim 1..5, mult 1..5), a ratio function and several option sets; bounds compared with an independent branch and bound; runs with a depth limit also with all pairs of face moments of that depth; '
        'non-trivial: the reference bracket is within 1% and the curve has several orientations or patterns.')
ASSUMPTIONS = ['reference bounds carry float rounding of 1e-9', 'ratio functions are d-uniform, monotone in the absolute values of coordinates and invariant under permutations of them']


@st.composite
def cases(draw):
    pools = gen.pick_pools(max_genus=9, max_dim=3) if draw(st.integers(0, 3)) else gen.pick_pools(max_genus=32, max_dim=5)
    rc = draw(gen.rcurves(pools, max_mult=5))
    norm = draw(dil.norms(rc.dim))
    size = rc.genus * rc.mult
    tols = [1, 2, 3, 5, 10]
    if size <= 40 and rc.dim <= 3:
        tols += [20, 50]
    if size <= 12 and rc.dim <= 2:
        tols += [100, 300]
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        o = {'rel_tol_inv': draw(st.sampled_from(tols))}
        m = draw(st.integers(0, 5))
        if m == 1:
            o['max_iter'] = draw(st.integers(0, 200))
        elif m == 2 and size <= 32:
            o['max_depth'] = draw(st.integers(0, 2))
            if draw(st.booleans()):
                o['rel_tol_inv'] = None
        elif m == 3 and draw(st.booleans()):
            o['rel_tol_inv'] = None
            o['max_iter'] = draw(st.integers(0, 200))
        if rc.dim <= 3 and draw(st.integers(0, 2)) == 0:
            o['use_face_moments'] = True
            o['face_dim'] = draw(st.integers(0, rc.dim - 1))
        runs.append(o)
    return {'curve': rc.to_case(), 'norm': norm, 'runs': runs, 'cache': draw(st.sampled_from([None, None, 0, 1, 64]))}


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    norm = case['norm']
    c = conv.curve(rc)
    rmax = max([o['rel_tol_inv'] or 10 for o in case['runs']])
    rlo, rup = refdil.dilation(rc, norm, tol=min(1e-3, 0.02 / rmax), max_work=2_500_000)
    assert rlo <= rup * (1 + 1e-9)
    cache = {} if case['cache'] is None else {'cache_max_size': case['cache']}
    est, ratio = dil.budget_estimator(norm, 0, **cache)
    lab = {norm, 'dim%d' % rc.dim, 'mult%d' % rc.mult}
    heavy = dil.init_pairs(rc) > 12000
    for o in case['runs'][:1 if heavy else None]:
        if heavy:
            o = dict(rel_tol_inv=o['rel_tol_inv'], max_iter=300)
        o, cap = dil.fit(rc, o)
        if o.get('rel_tol_inv') is None or 'max_depth' in o:
            o = dict(o, max_iter=min(cap, o.get('max_iter', cap)))
        # a run without limits ends when the tolerance is reached; one that needs too many evaluations is tried with a limit
        unlimited = 'max_iter' not in o and 'max_depth' not in o
        calls = 2 + (dil.face_points(rc.dim, o['face_dim']) ** 2 if 'face_dim' in o else 0)      # per pair
        ratio.left = int(calls * (dil.init_pairs(rc) + 2 * cap * rc.genus)) if unlimited else 10 ** 12
        try:
            res = est.estimate_dilation_regular(c, **o)
        except dil.Budget:
            lab.add('slow')
            est, ratio = dil.budget_estimator(norm, 10 ** 12, **cache)
            o = dict(o, max_iter=cap)
            res = est.estimate_dilation_regular(c, **o)
        what = '%s %s' % (norm, o)
        lo, up = dil.bounds(res, what)
        dil.encloses(lo, up, rlo, rup, what)
        if 'max_iter' not in o and 'max_depth' not in o:
            require(up <= lo * F(o['rel_tol_inv'] + 1, o['rel_tol_inv']), '%s: bounds [%.6f, %.6f] are wider than the tolerance', what, float(lo), float(up))
            lab.add('tol')
        else:
            lab.add('limited')
        if 'use_face_moments' in o:
            lab.add('faces')
    if rc.dim == 1:
        lab.add('line')
    if rup <= rlo * 1.01 and rc.dim > 1 and (rc.mult > 1 or len({s for _, sp in rc.patterns for s in sp}) > 1):
        lab.add('nontrivial')
    return sorted(lab)


# ---------------------------------------------------------------- depth limit: the lower bound misses no pair of face moments up to that depth

@st.composite
def depth_cases(draw):
    rc = draw(gen.rcurves(gen.pick_pools(min_dim=2, max_genus=draw(st.sampled_from([4, 4, 9])), max_dim=3), max_mult=4))
    k = draw(st.integers(1, 4 if rc.genus == 4 else 2))
    return {'curve': rc.to_case(), 'norm': draw(dil.norms(rc.dim)), 'depth': k, 'face_dim': draw(st.integers(0, rc.dim - 1)) if draw(st.integers(0, 3)) == 0 else 0}


def face_moments(rc, face_dim):
    out = []
    for p in range(rc.mult):
        pts = set()
        for face in itertools.product((0, 1, None), repeat=rc.dim):
            if face.count(None) == face_dim:
                for last in (False, True):
                    pts.add(rc.first_touch(p, face, last))
        out.append(sorted(pts))
    return out


def check_depth(case):
    rc = ref.RCurve.from_case(case['curve'])
    norm, k, fd = case['norm'], case['depth'], case['face_dim']
    pts = face_moments(rc, fd)
    n, g = float(rc.div ** k), float(rc.genus ** k)
    best = 0.0
    for p in range(rc.mult):
        idx, ts, xs = [], [], []
        for i, (cube, co, rev, q) in enumerate(rc.fractions(p, k)):
            for t, x in pts[q]:
                idx.append(i)
                ts.append((i + float(1 - t if rev else t)) / g)
                xs.append([(c + float(v)) / n for c, v in zip(cube, ref.act_x(co, x))])
        idx, ts, xs = np.array(idx), np.array(ts), np.array(xs)
        for i in range(0, len(idx), 64):
            far = idx[i:i + 64, None] + 2 <= idx[None, :]
            if far.any():
                dt = np.where(far, ts[None, :] - ts[i:i + 64, None], 1.0)
                r = refdil.ratio(norm, rc.dim, np.abs(xs[None, :, :] - xs[i:i + 64, None, :]), np.maximum(dt, 1e-300))
                best = max(best, float(r[far].max()))
    est, ratio = dil.budget_estimator(norm, 150000)
    try:
        res = est.estimate_dilation_regular(conv.curve(rc), rel_tol_inv=None, max_depth=k, use_face_moments=True, face_dim=fd)
    except dil.Budget:
        return ['slow']
    what = '%s max_depth=%d, moments of faces of dimension %d' % (norm, k, fd)
    lo, up = dil.bounds(res, what)
    require(float(lo) >= best * (1 - 1e-9), '%s: lower bound %.9f, but two face moments of fractions of that depth give %.9f', what, float(lo), best)
    rlo, rup = refdil.dilation(rc, norm, tol=1e-3, max_work=300_000)
    dil.encloses(lo, up, rlo, rup, what)
    lab = [norm, 'depth%d' % k, 'dim%d' % rc.dim]
    if k > 1 and rc.dim > 1 and (rc.mult > 1 or len({s for _, sp in rc.patterns for s in sp}) > 1):
        lab.append('nontrivial')
    return lab


TARGETS = [Target('regular', lambda tier: cases(), check, 500, 8000, shards=8),
           Target('depth', lambda tier: depth_cases(), check_depth, 800, 8000, shards=8)]
