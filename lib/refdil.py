"""
Independent dilation reference: numpy branch and bound on pairs of fractions.

Returns rigorous bounds (up to float rounding ~1e-12) of
   WD = max over patterns sup_{s<t} ||f(s)-f(t)||^d / (t-s)
for the norm given by name. Does not use the code under test.
"""
import numpy as np
from .ref import ident, junction_rep

NORMS = ('l1', 'l2', 'linf', 'l2_squared')


def ratio(norm, d, ax, dt):
    """ax: array (...,d) of absolute coordinate differences; dt: array."""
    if norm == 'l1':
        return ax.sum(-1) ** d / dt
    if norm == 'linf':
        return ax.max(-1) ** d / dt
    if norm == 'l2':
        return np.sqrt((ax ** 2).sum(-1)) ** d / dt
    if norm == 'l2_squared':
        return (ax ** 2).sum(-1) ** d / dt ** 2
    if norm == 'l3_cubed':
        return (ax ** 3).sum(-1) ** d / dt ** 3
    raise ValueError(norm)


class Tables:
    """Orientation automaton of a reference curve."""

    def __init__(self, rc):
        self.rc = rc
        d, N, G = rc.dim, rc.div, rc.genus
        self.d, self.N, self.G = d, N, G
        start = [(ident(d), False, p) for p in range(rc.mult)]
        # base pairs and all junctions
        reps = [k for _, k in rc.level_junctions()]
        idx, todo = {}, []

        def sid(o):
            if o not in idx:
                idx[o] = len(todo)
                todo.append(o)
            return idx[o]
        for o in start:
            sid(o)
        for k1, k2, _ in reps:
            sid(k1)
            sid(k2)
        cc, cs = [], []
        i = 0
        while i < len(todo):
            ch = rc.children(*todo[i])
            cc.append([c[0] for c in ch])
            cs.append([sid(c[1:]) for c in ch])
            i += 1
        self.ccube = np.array(cc, dtype=np.int64)
        self.cstate = np.array(cs, dtype=np.int64)
        ent = {p: rc.entrance(p) for p in range(rc.mult)}
        ext = {p: rc.exit(p) for p in range(rc.mult)}
        from .ref import act_x
        en, ex = [], []
        for co, rv, q in todo:
            a, b = act_x(co, ent[q]), act_x(co, ext[q])
            if rv:
                a, b = b, a
            en.append([float(v) for v in a])
            ex.append([float(v) for v in b])
        self.entr, self.exit = np.array(en), np.array(ex)

        # initial pairs at level 1
        S1, X1, T1, S2, X2, T2 = [], [], [], [], [], []
        ii, jj = np.triu_indices(G, 2)
        for p in range(rc.mult):
            S1.append(self.cstate[p][ii]); X1.append(self.ccube[p][ii]); T1.append(ii)
            S2.append(self.cstate[p][jj]); X2.append(self.ccube[p][jj]); T2.append(jj)
        aa, bb = np.divmod(np.arange(G * G), G)
        keep = ~((aa == G - 1) & (bb == 0))
        aa, bb = aa[keep], bb[keep]
        for k1, k2, dx in reps:
            s1, s2 = idx[k1], idx[k2]
            S1.append(self.cstate[s1][aa]); X1.append(self.ccube[s1][aa]); T1.append(aa)
            S2.append(self.cstate[s2][bb]); X2.append(self.ccube[s2][bb] + np.array(dx) * N); T2.append(bb + G)
        self.init = (np.concatenate(S1), np.concatenate(X2) - np.concatenate(X1), np.concatenate(T2) - np.concatenate(T1), np.concatenate(S2))

    def bounds(self, norm, s1, dx, dt, s2):
        d = self.d
        m = np.abs(dx) + 1.0
        dtf = dt.astype(float)
        up = ratio(norm, d, m, dtf - 1)
        lo = ratio(norm, d, m, dtf + 1)
        for P1, a in ((self.entr, 0.0), (self.exit, 1.0)):
            for P2, b in ((self.entr, 0.0), (self.exit, 1.0)):
                v = ratio(norm, d, np.abs(dx + P2[s2] - P1[s1]), dtf + b - a)
                np.maximum(lo, v, out=lo)
        return lo, up

    def expand(self, s1, dx, dt, s2):
        """children pairs in the N-times finer grid"""
        N, G = self.N, self.G
        P = len(s1)
        c1, c2 = self.ccube[s1], self.ccube[s2]          # P,G,d
        ndx = (dx[:, None, None, :] * N + c2[:, None, :, :] - c1[:, :, None, :]).reshape(P * G * G, -1)
        ar = np.arange(G)
        ndt = (dt[:, None, None] * G + ar[None, None, :] - ar[None, :, None]).reshape(-1)
        n1 = np.repeat(self.cstate[s1][:, :, None], G, axis=2).reshape(-1)
        n2 = np.repeat(self.cstate[s2][:, None, :], G, axis=1).reshape(-1)
        return n1, ndx, ndt, n2


def dilation(rc, norm, tol=1e-4, cutoff=None, tables=None, max_work=6_000_000):
    """(lo, up), lo <= WD <= up; stops when up <= lo*(1+tol), lo > cutoff, or work is used up."""
    if rc.dim == 1:
        # a continuous curve that maps the fractions of [0,1] onto distinct cells is t or 1-t
        return 1.0, 1.0
    T = tables or Tables(rc)
    cur = T.init
    lo_all, up = T.bounds(norm, *cur)
    lo = float(lo_all.max())
    level, work = 1, 0
    G2 = T.G ** 2
    done_up = 0.0                      # max upper bound of dropped pairs that were within tolerance
    lim = max(1, 400_000 // G2)
    while True:
        keep = up > lo * (1 + tol)
        if (~keep).any():
            done_up = max(done_up, float(up[~keep].max()))
        cur = tuple(a[keep] for a in cur)
        up = up[keep]
        if len(up) == 0:
            return lo, max(lo, done_up)
        if cutoff is not None and lo > cutoff:
            return lo, max(done_up, float(up.max()))
        if work > max_work or (T.G ** (level + 1)) > 2 ** 51:
            return lo, max(done_up, float(up.max()))
        order = np.argsort(-up, kind='stable')
        outs, oups = [], []
        for a in range(0, len(order), lim):
            sel = order[a:a + lim]
            sel = sel[up[sel] > lo * (1 + tol)]
            rest = order[a:a + lim]
            rest = rest[up[rest] <= lo * (1 + tol)]
            if len(rest):
                done_up = max(done_up, float(up[rest].max()))
            if len(sel) == 0:
                continue
            work += len(sel) * G2
            if work > max_work:
                return lo, max(done_up, float(up.max()))
            ch = T.expand(*(c[sel] for c in cur))
            l2, u2 = T.bounds(norm, *ch)
            lo = max(lo, float(l2.max()))
            k = u2 > lo * (1 + tol)
            if (~k).any():
                done_up = max(done_up, float(u2[~k].max()))
            outs.append(tuple(c[k] for c in ch))
            oups.append(u2[k])
        if not outs:
            return lo, max(lo, done_up)
        cur = tuple(np.concatenate([o[i] for o in outs]) for i in range(4))
        up = np.concatenate(oups)
        level += 1
