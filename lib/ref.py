"""
Independent reference model of Peano multifractals.

Nothing here imports the code under test: a curve is plain data and its meaning
is re-derived from the definition in README.md:

  iso    = (coords, rev); coords = ((k_0,b_0),...): y_j = 1-x_{k_j} if b_j else x_{k_j};
           rev = time reversal.  Acts on f by (B f)(t) = B_cube(f(B_time(t))).
  spec   = (coords, rev, q): the fraction is that isometry applied to pattern q.
  RCurve = dim, div, [(cubes, specs), ...]
"""
import itertools
from fractions import Fraction as F
from functools import lru_cache


# ---------------------------------------------------------------- isometries

def ident(dim):
    return tuple((k, False) for k in range(dim))


@lru_cache(maxsize=None)
def all_coords(dim):
    out = []
    for perm in itertools.permutations(range(dim)):
        for flip in itertools.product((False, True), repeat=dim):
            out.append(tuple(zip(perm, flip)))
    return tuple(out)


def act_x(coords, x, mx=1):
    return tuple(mx - x[k] if b else x[k] for k, b in coords)


def act_vec(coords, v):
    return tuple(-v[k] if b else v[k] for k, b in coords)


def act_cube(coords, div, cube):
    # image of the box prod [c_i, c_i+1] in [0,div]^d, lower corner
    out = []
    for k, b in coords:
        lo, hi = cube[k], cube[k] + 1
        if b:
            lo, hi = div - hi, div - lo
        out.append(lo)
    return tuple(out)


@lru_cache(maxsize=200000)
def comp(a, b):
    """coords of a after b, found by probing: x |-> a(b(x))."""
    d = len(a)
    probe = tuple(F(i + 1, 2 * d + 3) for i in range(d))  # all probe, 1-probe values distinct
    img = act_x(a, act_x(b, probe))
    look = {}
    for i, p in enumerate(probe):
        look[p] = (i, False)
        look[1 - p] = (i, True)
    return tuple(look[v] for v in img)


@lru_cache(maxsize=200000)
def inv(a):
    d = len(a)
    res = [None] * d
    for j, (k, b) in enumerate(a):
        res[k] = (j, b)
    return tuple(res)


# ---------------------------------------------------------------- links

def act_link(coords, rev, link):
    e, x = act_x(coords, link[0]), act_x(coords, link[1])
    return (x, e) if rev else (e, x)


def is_gate_boundary(pt):
    return any(c == 0 or c == 1 for c in pt)


# ---------------------------------------------------------------- curves

class RCurve:
    def __init__(self, dim, div, patterns, pnum=0):
        self.dim, self.div = dim, div
        self.patterns = [([tuple(c) for c in cubes], [norm_spec(s) for s in specs]) for cubes, specs in patterns]
        self.mult = len(self.patterns)
        self.genus = div ** dim
        self.pnum = pnum
        self._eval_cache = {}

    # -- fractions: (cube, coords, rev, q), time order
    def children(self, coords, rev, q):
        """Ordered list of (cube in N-grid, coords, rev, q) of the curve (coords,rev) applied to pattern q."""
        key = (coords, rev, q)
        c = self._eval_cache.get(key)
        if c is None:
            cubes, specs = self.patterns[q]
            order = range(self.genus - 1, -1, -1) if rev else range(self.genus)
            c = []
            for j in order:
                sc, sr, sq = specs[j]
                c.append((act_cube(coords, self.div, cubes[j]), comp(coords, sc), rev ^ sr, sq))
            self._eval_cache[key] = c
        return c

    def fractions(self, pnum, depth, coords=None, rev=False):
        """All depth-level fractions, time order: [(cube in N^depth grid, coords, rev, q)]."""
        cur = [((0,) * self.dim, coords if coords is not None else ident(self.dim), rev, pnum)]
        for _ in range(depth):
            nxt = []
            for cube, co, rv, q in cur:
                base = [c * self.div for c in cube]
                for ch, co2, rv2, q2 in self.children(co, rv, q):
                    nxt.append((tuple(b + c for b, c in zip(base, ch)), co2, rv2, q2))
            cur = nxt
        return cur

    def cells(self, pnum, depth, **kw):
        return [fr[0] for fr in self.fractions(pnum, depth, **kw)]

    def eval(self, pnum, t, coords=None, rev=False, side=0):
        """Exact f(t), rational t; side=-1 uses the left expansion of t (they agree when f is continuous)."""
        t = F(t)
        co = coords if coords is not None else ident(self.dim)
        st = (co, rev, pnum)
        seen, cubes = {}, []
        G = self.genus
        while (st, t) not in seen:
            seen[st, t] = len(cubes)
            tg = t * G
            i = tg.numerator // tg.denominator
            if i == G or (side < 0 and tg == i and i > 0):
                i -= 1
            t = tg - i
            cube, c2, r2, q2 = self.children(*st)[i]
            cubes.append(cube)
            st = (c2, r2, q2)
        return limit_point(cubes, seen[st, t], self.div, self.dim)

    def entrance(self, pnum):
        return self.eval(pnum, F(0))

    def exit(self, pnum):
        return self.eval(pnum, F(1))

    def link(self, pnum):
        return (self.entrance(pnum), self.exit(pnum))

    def frac_links(self, pnum):
        gl = [self.link(p) for p in range(self.mult)]
        return [act_link(c, r, gl[q]) for c, r, q in self.patterns[pnum][1]]

    def is_continuous(self):
        """All patterns continuous (first-order junctions suffice by self-similarity)."""
        for p in range(self.mult):
            cubes = self.patterns[p][0]
            links = self.frac_links(p)
            for i in range(self.genus - 1):
                a = tuple(c + x for c, x in zip(cubes[i], links[i][1]))
                b = tuple(c + x for c, x in zip(cubes[i + 1], links[i + 1][0]))
                if a != b:
                    return False
        return True

    def transformed(self, coords, rev):
        """Reference b*C (patterns only)."""
        ci = inv(coords)
        pats = []
        for cubes, specs in self.patterns:
            nc = [act_cube(coords, self.div, c) for c in cubes]
            ns = [(comp(comp(coords, sc), ci), sr, q) for sc, sr, q in specs]
            if rev:
                nc.reverse()
                ns.reverse()
            pats.append((nc, ns))
        return RCurve(self.dim, self.div, pats, self.pnum)

    def first_touch(self, pnum, face, last=False):
        """Exact first/last t with f(t) in the face (tuple of 0/1/None), and the point."""
        st = (ident(self.dim), False, pnum)
        seen, cubes, nums = {}, [], []
        while st not in seen:
            seen[st] = len(cubes)
            ch = self.children(*st)
            idx = range(self.genus - 1, -1, -1) if last else range(self.genus)
            for i in idx:
                cube = ch[i][0]
                if all(f is None or cube[j] == (self.div - 1) * f for j, f in enumerate(face)):
                    break
            cubes.append(cube)
            nums.append((i,))
            st = ch[i][1:]
        s = seen[st]
        x = limit_point(cubes, s, self.div, self.dim)
        t = limit_point(nums, s, self.genus, 1)[0]
        return t, x

    # -- junctions
    def level_junctions(self):
        """[(level, (o1, o2, delta)), ...] raw adjacent pairs by the level at which they first occur.

        Level 1: neighbouring fractions of a pattern; level k+1: (last child, first child) of level k.
        Every pair of time-adjacent fractions of every subdivision is one of them up to an isometry.
        """
        out = []
        cur = []
        for p in range(self.mult):
            ch = self.children(ident(self.dim), False, p)
            for a, b in zip(ch, ch[1:]):
                cur.append((a[1:], b[1:], tuple(y - x for x, y in zip(a[0], b[0]))))
        level = 1
        seen = set()
        while cur:
            nxt = []
            for o1, o2, dx in cur:
                key = junction_rep(o1, o2, dx)
                if key in seen:
                    continue
                seen.add(key)
                out.append((level, key))
                k1, k2, kd = key
                a = self.children(*k1)[-1]
                b = self.children(*k2)[0]
                nd = tuple(cb + d * self.div - ca for ca, cb, d in zip(a[0], b[0], kd))
                nxt.append((a[1:], b[1:], nd))
            cur = nxt
            level += 1
        return out

    def to_case(self):
        return {'dim': self.dim, 'div': self.div, 'pnum': self.pnum,
                'patterns': [[[list(c) for c in cubes], [spec_str(s) for s in specs]] for cubes, specs in self.patterns]}

    @classmethod
    def from_case(cls, case):
        return cls(case['dim'], case['div'], [(cubes, [parse_spec(s) for s in specs]) for cubes, specs in case['patterns']], case.get('pnum', 0))


def norm_spec(s):
    c, r, q = s
    return (tuple((int(k), bool(b)) for k, b in c), bool(r), int(q))


def limit_point(cubes, start, div, dim):
    """sum cubes[i]/div^(i+1) with cubes[start:] repeated for ever."""
    m = len(cubes) - start
    xs = []
    for j in range(dim):
        pre = F(0)
        for i in range(start):
            pre += F(cubes[i][j], div ** (i + 1))
        per = F(0)
        for i in range(start, len(cubes)):
            per += F(cubes[i][j], div ** (i + 1))
        xs.append(pre + per / (1 - F(1, div ** m)))
    return tuple(xs)


# orientation o = (coords, rev, q)
def junction_rep(o1, o2, dx):
    """Representative of the pair up to cube isometries only (orientation in time kept)."""
    ci = inv(o1[0])
    return ((ident(len(dx)), o1[1], o1[2]), (comp(ci, o2[0]), o2[1], o2[2]), act_vec(ci, dx))


def junction_key(o1, o2, dx):
    """Canonical form up to isometries and the exchange (A,B,dx,time) -> (~B,~A,-dx)."""
    a = junction_rep(o1, o2, dx)
    r1 = (o2[0], not o2[1], o2[2])
    r2 = (o1[0], not o1[1], o1[2])
    b = junction_rep(r1, r2, tuple(-v for v in dx))
    return min(a, b)


# ---------------------------------------------------------------- compact spec text (documented notation)

LETTERS = 'ijklmn'


def iso_str(coords, rev):
    # text lists images of e_1, e_2, ...: e_k -> +/- e_i where y_i = x_k^b
    img = {}
    for i, (k, b) in enumerate(coords):
        img[k] = LETTERS[i].upper() if b else LETTERS[i]
    return ''.join(img[k] for k in range(len(coords))) + ('~' if rev else '')


def parse_iso(text):
    rev = text.endswith('~')
    body = text[:-1] if rev else text
    res = [None] * len(body)
    for k, ch in enumerate(body):
        res[LETTERS.index(ch.lower())] = (k, ch.isupper())
    return tuple(res), rev


def spec_str(spec):
    c, r, q = spec
    return '%d:%s' % (q, iso_str(c, r))


def parse_spec(text):
    q, t = text.split(':')
    c, r = parse_iso(t)
    return c, r, int(q)


# ---------------------------------------------------------------- path enumeration (own DFS)

def link_closure(links):
    """entrance -> sorted tuple of exits, all images (with reversal) of the given point links."""
    res = {}
    for e, x in links:
        d = len(e)
        for co in all_coords(d):
            a, b = act_x(co, e), act_x(co, x)
            res.setdefault(a, set()).add(b)
            res.setdefault(b, set()).add(a)
    return {k: tuple(sorted(v)) for k, v in res.items()}


def cubes_of_point(pt, div):
    """(cube, relative point) for all grid cubes containing pt of [0,1]^d."""
    opts = []
    for c in pt:
        s = c * div
        f = s.numerator // s.denominator
        cand = {f}
        if s == f:
            cand.add(f - 1)
        opts.append([(i, s - i) for i in sorted(cand) if 0 <= i < div])
    for combo in itertools.product(*opts):
        yield tuple(i for i, _ in combo), tuple(r for _, r in combo)


def gen_ref_paths(dim, div, glink, clos, max_cdist=None, rnd=None, node_limit=None):
    """Yield [(cube, entr, exit), ...] covering the grid, continuous, from glink[0] to glink[1]."""
    G = div ** dim
    target = {(c, r) for c, r in cubes_of_point(glink[1], div)}
    tcubes = {c for c, _ in target}
    nodes = [0]

    def nbrs(cube, pt):
        """next (cube, entrance point): other cubes containing the absolute point."""
        opts = []
        for c, p in zip(cube, pt):
            o = [(c, p)]
            if p == 0 and c > 0:
                o.append((c - 1, F(1)))
            if p == 1 and c < div - 1:
                o.append((c + 1, F(0)))
            opts.append(o)
        for combo in itertools.product(*opts):
            nc = tuple(c for c, _ in combo)
            if nc == cube:
                continue
            if max_cdist is not None and sum(abs(a - b) for a, b in zip(nc, cube)) > max_cdist:
                continue
            yield nc, tuple(p for _, p in combo)

    def rec(path, used):
        nodes[0] += 1
        if node_limit is not None and nodes[0] > node_limit:
            return
        cube, entr, ex = path[-1]
        if len(path) == G:
            if (cube, ex) in target:
                yield list(path)
            return
        cand = [(nc, ne, nx) for nc, ne in nbrs(cube, ex) if nc not in used for nx in clos.get(ne, ())]
        if rnd is not None:
            rnd.shuffle(cand)
        for nc, ne, nx in cand:
            path.append((nc, ne, nx))
            used.add(nc)
            yield from rec(path, used)
            used.discard(nc)
            path.pop()

    starts = [(c, r, x) for c, r in cubes_of_point(glink[0], div) for x in clos.get(r, ())]
    if rnd is not None:
        rnd.shuffle(starts)
    for c, r, x in starts:
        yield from rec([(c, r, x)], {c})


def allowed_specs(links, flink, revs=(False, True), coords_list=None):
    """All (coords, rev, q) whose image of global link q is flink."""
    d = len(flink[0])
    out = []
    for q, gl in enumerate(links):
        for co in (coords_list if coords_list is not None else all_coords(d)):
            for rv in revs:
                if act_link(co, rv, gl) == flink:
                    out.append((co, rv, q))
    return out


# ---------------------------------------------------------------- text for points/links

def parse_point(text):
    return tuple(F(t) for t in text.strip().strip('()').split(','))


def parse_link(text):
    a, b = text.split('->')
    return parse_point(a), parse_point(b)


def point_str(pt):
    return '(' + ','.join(str(c) for c in pt) + ')'


def link_str(l):
    return point_str(l[0]) + '->' + point_str(l[1])
