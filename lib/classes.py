"""Classes of curves (pointed prototypes with some specs fixed): generation, enumeration, brute-force minimum."""
import itertools

from hypothesis import strategies as st

from . import ref, refdil, gen, conv
from .engine import require, same


@st.composite
def class_cases(draw, pool_list, limits, max_mult=3):
    """limits: numbers of members to choose from"""
    dim, div, paths = draw(gen.rpaths(pool_list, max_extra=1, max_mult=max_mult))
    case = gen.paths_to_case(dim, div, paths)
    links = tuple(gen.path_link(div, p) for p in paths)
    case['norev'] = draw(st.integers(0, 3)) == 0 and all(gen_opts(links, p, True) for p in paths)
    opts = [gen_opts(links, p, case['norev']) for p in paths]
    G, mult = div ** dim, len(paths)
    limit = draw(st.sampled_from(limits))
    defined, total = [], 1
    for p, c in draw(st.permutations([(p, c) for p in range(mult) for c in range(G)])):
        n = len(opts[p][c])
        if total * n <= limit:
            total *= n
        else:
            defined.append([p, c, draw(st.integers(0, n - 1))])
    case['defined'] = sorted(defined)
    case['map'] = draw(gen.iso_texts(dim)) if draw(st.integers(0, 3)) == 0 else None
    return case


def gen_opts(links, path, norev):
    """allowed specs per fraction, or None when some fraction has none"""
    out = []
    for _, e, x in path:
        o = [s for s in gen.specs_for(links, (e, x)) if not (norev and s[1])]
        if not o:
            return None
        out.append(o)
    return out


class Class:
    def __init__(self, case):
        self.dim, self.div, self.paths = gen.paths_from_case(case)
        self.G, self.mult = self.div ** self.dim, len(self.paths)
        links = tuple(gen.path_link(self.div, p) for p in self.paths)
        self.opts = [gen_opts(links, p, case['norev']) for p in self.paths]
        self.fixed = {(p, c): self.opts[p][c][n % len(self.opts[p][c])] for p, c, n in case['defined']}
        self.norev, self.map = case['norev'], case['map']
        self._members = None

    def build(self):
        from peano.curves import PathFuzzyCurve
        kw = {'disable_time_rev': True} if self.norev else {}
        fz = PathFuzzyCurve.init_from_paths([conv.path(self.dim, self.div, p) for p in self.paths], **kw)
        for (p, c), s in sorted(self.fixed.items()):
            fz = fz.specify(p, c, conv.spec(s))
        if self.map:
            fz = conv.bm_text(self.map) * fz
        return fz

    def members(self):
        if self._members is None:
            pos = [(p, c) for p in range(self.mult) for c in range(self.G)]
            out = []
            for pk in itertools.product(*[[self.fixed[k]] if k in self.fixed else self.opts[k[0]][k[1]] for k in pos]):
                val = dict(zip(pos, pk))
                rc = ref.RCurve(self.dim, self.div, [([x[0] for x in self.paths[p]], [val[p, c] for c in range(self.G)]) for p in range(self.mult)])
                if self.map:
                    rc = rc.transformed(*ref.parse_iso(self.map))
                out.append(rc)
            self._members = out
            self._keys = {conv.data(rc) for rc in out}
        return self._members

    def has(self, rc):
        """is the curve a member (whatever its current pattern)?"""
        self.members()
        return conv.data(ref.RCurve(rc.dim, rc.div, rc.patterns, 0)) in self._keys

    def minimum(self, norm, tol=1e-3, cutoff=None):
        """(lo, up) of the minimal dilation; brute force; with a cutoff only decided below it"""
        best_lo, best_up = float('inf'), float('inf')
        for rc in self.members():
            cut = min(best_up, cutoff) if cutoff is not None else best_up
            lo, up = refdil.dilation(rc, norm, tol=tol, cutoff=cut if cut < float('inf') else None, max_work=1_500_000)
            best_lo, best_up = min(best_lo, lo), min(best_up, up)
        return best_lo, best_up
