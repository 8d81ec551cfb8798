"""Shared parts of the dilation checks."""
from fractions import Fraction as F

from hypothesis import strategies as st
from quicktions import Fraction as Q

from . import ref, refdil, conv
from .engine import output, require

EPS = 1e-9


def l3_cubed(d, dv, dt):
    return Q(sum(abs(x) ** 3 for x in dv) ** d, dt ** 3)


def ratio_func(norm):
    from peano import utils
    if norm == 'l3_cubed':
        return l3_cubed
    return {'l1': utils.ratio_l1, 'l2': utils.ratio_l2, 'l2_squared': utils.ratio_l2_squared, 'linf': utils.ratio_linf}[norm]


def exact_ratio(norm, d, dv, dt):
    """ratio at a pair of points, exact; own definition"""
    dv = [abs(F(x)) for x in dv]
    dt = F(dt)
    if norm == 'l1':
        return sum(dv) ** d / dt
    if norm == 'linf':
        return max(dv) ** d / dt
    if norm == 'l2_squared':
        return sum(x * x for x in dv) ** d / dt ** 2
    if norm == 'l2':
        return sum(x * x for x in dv) ** (d // 2) / dt
    if norm == 'l3_cubed':
        return sum(x ** 3 for x in dv) ** d / dt ** 3
    raise ValueError(norm)


def norms(dim, extra=True):
    out = ['l1', 'linf', 'l2_squared']
    if dim % 2 == 0:
        out.append('l2')
    if extra:
        out.append('l3_cubed')
    return st.sampled_from(out)


def estimator(norm, **kw):
    from peano.dilation import Estimator
    return Estimator(ratio_func(norm), **kw)


def bounds(res, what):
    with output(what):
        lo, up = conv.f(res['lo']), conv.f(res['up'])
    require(lo <= up, '%s: lo %s > up %s', what, lo, up)
    return lo, up


def encloses(lo, up, rlo, rup, what):
    """[lo, up] must contain the true value, known to lie in [rlo, rup]"""
    require(float(lo) <= rup * (1 + EPS), '%s: lower bound %.6f exceeds the dilation, which is at most %.6f', what, float(lo), rup)
    require(float(up) >= rlo * (1 - EPS), '%s: upper bound %.6f is below the dilation, which is at least %.6f', what, float(up), rlo)


def face_points(dim, face_dim):
    """number of (first and last) face points at most"""
    from math import comb
    return 2 * comb(dim, face_dim) * 2 ** (dim - face_dim)


def pair_units(rc, opts):
    """cost of one pair in units of a plain pair (upper estimate)"""
    return 1 + face_points(rc.dim, opts.get('face_dim', 0)) ** 2 / 8 if opts.get('use_face_moments') else 1


def init_pairs(rc):
    return (len(rc.level_junctions()) + rc.mult / 2) * rc.genus ** 2


def fit(rc, opts, budget=25000):
    """drop face moments where they are too expensive; returns (options, iteration cap)"""
    o = dict(opts)
    if init_pairs(rc) * pair_units(rc, o) > budget:
        o.pop('use_face_moments', None)
        o.pop('face_dim', None)
    return o, max(1, int(budget / rc.genus / pair_units(rc, o)))


class Budget(BaseException):
    """the run uses more ratio evaluations than the harness wants to spend (not a failure)"""


class BudgetRatio:
    """a ratio function that gives up after a number of evaluations; unlimited runs stay deterministic and short"""

    def __init__(self, norm, calls):
        self.fn, self.left = ratio_func(norm), calls

    def __call__(self, d, dv, dt):
        self.left -= 1
        if self.left < 0:
            raise Budget()
        return self.fn(d, dv, dt)


def budget_estimator(norm, calls, **kw):
    """(estimator, ratio): set ratio.left to renew the budget"""
    from peano.dilation import Estimator
    r = BudgetRatio(norm, calls)
    return Estimator(r, **kw), r
