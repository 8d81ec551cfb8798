"""Hypothesis strategies. Cases are JSON-able; all randomness is drawn from Hypothesis."""
import json
import os
from fractions import Fraction as F
from functools import lru_cache

from hypothesis import strategies as st

from . import ref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------- pools

class Pool:
    def __init__(self, e, links):
        self.dim, self.div = e['dim'], e['div']
        self.genus = self.div ** self.dim
        self.gates = [ref.parse_link(g) for g in e['gates']]
        self.raw = e['paths']
        self.links = links

    def path(self, g, i):
        out = []
        for tok in self.raw[g][i].split(' '):
            c, l = tok.split(':')
            a, b = self.links[int(l)]
            out.append((tuple(map(int, c)), a, b))
        return out


@lru_cache(maxsize=None)
def pools():
    with open(os.path.join(ROOT, 'corpus', 'pools.json')) as fh:
        d = json.load(fh)
    links = [ref.parse_link(t) for t in d['links']]
    return [Pool(e, links) for e in d['pools']]


def pick_pools(max_genus=16, max_dim=4, min_dim=1, dims=None, max_gates=4, min_gates=1):
    return [p for p in pools() if p.genus <= max_genus and min_dim <= p.dim <= max_dim and min_gates <= len(p.gates) <= max_gates
            and (dims is None or p.dim in dims)]


def map_path(coords, rev, div, path):
    out = [(ref.act_cube(coords, div, c),) + ref.act_link(coords, rev, (e, x)) for c, e, x in path]
    return out[::-1] if rev else out


# ---------------------------------------------------------------- elementary

def isos(dim, rev=None):
    """(coords, rev)"""
    co = st.sampled_from(ref.all_coords(dim)) if dim <= 3 else iso_big(dim)
    return st.tuples(co, st.booleans() if rev is None else st.just(rev))


@st.composite
def iso_big(draw, dim):
    perm = draw(st.permutations(range(dim)))
    flips = draw(st.tuples(*[st.booleans()] * dim))
    return tuple(zip(perm, flips))


def iso_texts(dim, rev=None):
    return isos(dim, rev).map(lambda x: ref.iso_str(*x))


def rationals(max_den=12, lo=0, hi=1):
    return st.integers(1, max_den).flatmap(lambda d: st.integers(lo * d, hi * d).map(lambda n: F(n, d)))


NICE = [F(0), F(1), F(1, 2), F(1, 3), F(2, 3), F(1, 4), F(3, 4), F(1, 5), F(3, 5), F(5, 12)]


def unit_coords():
    """coordinates of points in [0,1]: special values (with complements) are frequent"""
    return st.one_of(st.sampled_from(NICE), rationals(30))


def points(dim):
    return st.tuples(*[unit_coords()] * dim)


# ---------------------------------------------------------------- pointed prototypes and curves

def pick(pool_list):
    """a pool: half of the time every grid (dim, div) and number of gates is equally likely"""
    by = {}
    for p in pool_list:
        by.setdefault((p.dim, p.div, len(p.gates)), []).append(p)
    shapes = [by[k] for k in sorted(by)]
    return st.one_of(st.sampled_from(pool_list), st.sampled_from(shapes).flatmap(st.sampled_from))


@st.composite
def rpaths(draw, pool_list, max_extra=1, mapped=True, max_mult=5):
    """(dim, div, [path, ...]) with path = [(cube, entr, exit)...]; a complete family of pointed prototypes."""
    pool = draw(pick(pool_list))
    gl = list(range(len(pool.gates)))
    if max_extra:
        gl += draw(st.lists(st.integers(0, len(pool.gates) - 1), max_size=max(0, min(max_extra, max_mult - len(gl)))))
    if len(gl) > 1 and draw(st.booleans()):
        gl = draw(st.permutations(gl))
    paths = []
    for g in gl:
        p = pool.path(g, draw(st.integers(0, len(pool.raw[g]) - 1)))
        if mapped:
            co, rv = draw(isos(pool.dim))
            p = map_path(co, rv, pool.div, p)
        paths.append(p)
    return pool.dim, pool.div, paths


def path_link(div, path):
    c0, e, _ = path[0]
    c1, _, x = path[-1]
    return (tuple((c + v) / div for c, v in zip(c0, e)), tuple((c + v) / div for c, v in zip(c1, x)))


@lru_cache(maxsize=20000)
def specs_for(links, flink):
    return tuple(ref.allowed_specs(links, flink))


@st.composite
def rcurves(draw, pool_list=None, max_extra=1, mapped=True, max_mult=5, any_pnum=True):
    """Continuous reference curve."""
    dim, div, paths = draw(rpaths(pool_list or pick_pools(), max_extra=max_extra, mapped=mapped, max_mult=max_mult))
    links = tuple(path_link(div, p) for p in paths)
    pats = []
    for p in paths:
        specs = []
        for c, e, x in p:
            opts = specs_for(links, (e, x))
            specs.append(opts[draw(st.integers(0, len(opts) - 1))])
        pats.append(([c for c, _, _ in p], specs))
    pnum = draw(st.integers(0, len(pats) - 1)) if any_pnum else 0
    return ref.RCurve(dim, div, pats, pnum)


@st.composite
def sibling_curves(draw, pool_list, n, max_mult=3):
    """n curves with the same pointed prototypes and independently chosen specs"""
    dim, div, paths = draw(rpaths(pool_list, max_mult=max_mult))
    links = tuple(path_link(div, p) for p in paths)
    out = []
    for _ in range(n):
        pats = []
        for p in paths:
            specs = []
            for c, e, x in p:
                opts = specs_for(links, (e, x))
                specs.append(opts[draw(st.integers(0, len(opts) - 1))])
            pats.append(([c for c, _, _ in p], specs))
        out.append(ref.RCurve(dim, div, pats, draw(st.integers(0, len(pats) - 1))))
    return out



def curve_cases(*a, **kw):
    return rcurves(*a, **kw).map(lambda rc: rc.to_case())


@st.composite
def wild_curves(draw, max_dim=5, max_genus=32, max_mult=5):
    """Arbitrary prototypes and specs (no continuity): for laws that hold by definition for any patterns."""
    small = draw(st.booleans())
    shapes = [(d, n) for d in range(1, max_dim + 1) for n in range(2, 6 if d > 1 else 10) if n ** d <= (min(9, max_genus) if small else max_genus)]
    dim, div = draw(st.sampled_from(shapes))
    G = div ** dim
    cubes = all_cubes(dim, div)
    mult = draw(st.integers(1, min(3, max_mult) if small else max_mult))
    rnd = draw(st.randoms(use_true_random=False)) if G > 9 else None
    pats = []
    for _ in range(mult):
        if rnd is None:
            perm = draw(st.permutations(cubes))
            specs = [draw(isos(dim)) + (draw(st.integers(0, mult - 1)),) for _ in range(G)]
        else:
            perm = rnd.sample(cubes, G)
            specs = [(tuple(zip(rnd.sample(range(dim), dim), [rnd.random() < 0.5 for _ in range(dim)])), rnd.random() < 0.5, rnd.randrange(mult)) for _ in range(G)]
        pats.append((perm, specs))
    return ref.RCurve(dim, div, pats, draw(st.integers(0, mult - 1)))


@lru_cache(maxsize=None)
def all_cubes(dim, div):
    import itertools
    return tuple(itertools.product(range(div), repeat=dim))


# ---------------------------------------------------------------- case codecs

def paths_to_case(dim, div, paths):
    return {'dim': dim, 'div': div, 'paths': [[[list(c), ref.link_str((e, x))] for c, e, x in p] for p in paths]}


def paths_from_case(case):
    return case['dim'], case['div'], [[(tuple(c),) + ref.parse_link(l) for c, l in p] for p in case['paths']]


# ---------------------------------------------------------------- prototypes with unit (also diagonal) steps

def king_walk(rnd, dim, div, diagonal=True):
    """random Hamiltonian path of the grid with king (or rook) moves; rnd from st.randoms(); None if not found quickly"""
    import itertools
    moves = [m for m in itertools.product((-1, 0, 1), repeat=dim) if any(m) and (diagonal or sum(map(abs, m)) == 1)]
    G = div ** dim
    for _ in range(20):
        start = tuple(rnd.randrange(div) for _ in range(dim))
        path, used = [start], {start}
        budget = 60 * G

        def options(c):
            o = []
            for m in moves:
                n = tuple(a + b for a, b in zip(c, m))
                if n not in used and all(0 <= v < div for v in n):
                    o.append(n)
            rnd.shuffle(o)
            # fewest onward moves last (they are popped first)
            o.sort(key=lambda n: -sum(1 for m in moves if (t := tuple(a + b for a, b in zip(n, m))) not in used and all(0 <= v < div for v in t)))
            return o
        stack = [options(start)]
        while stack and budget:
            budget -= 1
            if len(path) == G:
                return path
            if stack[-1]:
                n = stack[-1].pop()
                path.append(n)
                used.add(n)
                stack.append(options(n))
            else:
                stack.pop()
                used.discard(path.pop())
        if len(path) == G:
            return path
    return None


@st.composite
def protos(draw, max_genus=32, max_dim=5):
    opts = [(d, n) for d in range(1, max_dim + 1) for n in range(2, 7) if n ** d <= max_genus]
    dim, div = draw(st.sampled_from(opts))
    rnd = draw(st.randoms(use_true_random=False))
    p = king_walk(rnd, dim, div, draw(st.booleans()) if dim > 1 else True)
    if p is None:
        # boustrophedon order always exists
        p = [()]
        for _ in range(dim):
            p = [(i,) + c for i in range(div) for c in (p if i % 2 == 0 else p[::-1])]
    return dim, div, p


def chain_code(cubes, style=0):
    """documented chain code; style picks group letter order"""
    out = []
    for a, b in zip(cubes, cubes[1:]):
        let = [ref.LETTERS[i].upper() if y < x else ref.LETTERS[i] for i, (x, y) in enumerate(zip(a, b)) if x != y]
        if style % 2:
            let.reverse()
        out.append(let[0] if len(let) == 1 and style < 2 else '(' + ''.join(let) + ')')
    return ''.join(out)
