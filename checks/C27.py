"""C27: the zoo."""
import itertools
from fractions import Fraction as F
from functools import lru_cache

from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.engine import Target, require, same, output

PROPERTY = 'C27'
RULE = ('Cases: every zoo entry with every metric (independent branch and bound within 2e-4 of the published value), every other datum (independent evaluation), the classical definitions of Hilbert and Peano curves; '
        'random presentations (isometry, reversal) with the library estimates against the published values; histories that fetch entries, change what was returned and fetch again; '
        'non-trivial: the entry has published data, or the history changes a returned object.')
ASSUMPTIONS = ['published exact values must lie within the reference bracket, published intervals must contain it up to the bracket width',
               'moments are compared as multisets; a negative face dimension means last moments, as in the repository']


@lru_cache(None)
def names():
    """getters of single entries"""
    from peano import zoo
    out = []
    for n in sorted(dir(zoo)):
        f = getattr(zoo, n)
        if n.startswith('get_') and callable(f) and n != 'get_all_curves' and getattr(f, '__module__', '') == zoo.__name__:
            out.append(n)
    return tuple(out)


def fetch(name):
    from peano import zoo
    return getattr(zoo, name)()


def value(v):
    """published value -> (lo, up, exact?)"""
    with output('published dilation'):
        if isinstance(v, (list, tuple)):
            return float(v[0]), float(v[1]), False
        if hasattr(v, 'eq'):
            if v.eq is not None:
                x = float(v.eq)
                return x, x, True
            return float(v.lo), float(v.up), False
        x = float(v)
        return x, x, True


def snapshot(info):
    with output('zoo entry'):
        d = {} if info.dilation is None else {str(k): value(v) for k, v in info.dilation.items()}
        m = {} if info.moments is None else {int(k): sorted(conv.f(t) for t in v) for k, v in info.moments.items()}
        g = None if info.gates is None else [conv.from_link(l) for l in info.gates]
        return conv.data(conv.from_curve(info.curve)), sorted(d.items()), sorted(m.items()), g, info.depth, info.junctions_count


_first = {}


def baseline(name):
    if name not in _first:
        _first[name] = snapshot(fetch(name))
    return _first[name]


@lru_cache(None)
def bracket(name, norm):
    info = fetch(name)
    return refdil.dilation(conv.from_curve(info.curve), norm, tol=2e-4, max_work=60_000_000)


def fixed(tier):
    from peano import zoo
    out = []
    for n in names():
        info = fetch(n)
        for m in sorted(info.dilation or {}):
            out.append({'name': n, 'what': 'dilation', 'metric': m})
        out.append({'name': n, 'what': 'data'})
    out.append({'name': 'get_all_curves', 'what': 'all'})
    return out


def check_entry(case):
    from peano import zoo
    if case['what'] == 'all':
        with output('get_all_curves'):
            a = [snapshot(i) for i in zoo.get_all_curves()]
        b = [baseline(n) for n in names()]
        for x in a:
            require(x in b, 'get_all_curves lists an entry that no getter returns')
        require(len(a) == len(b) and all(x in a for x in b), 'get_all_curves lists %d entries, there are %d getters', len(a), len(b))
        return ['all', 'nontrivial']
    name = case['name']
    if name not in names():
        return ['gone']
    info = fetch(name)
    rc = conv.from_curve(info.curve)
    if case['what'] == 'dilation':
        m = case['metric']
        if not info.dilation or m not in info.dilation:
            return ['gone']
        lo, up, exact = value(info.dilation[m])
        rlo, rup = bracket(name, m)
        assert rup <= rlo * 1.01, 'reference bracket is too wide'
        if exact:
            require(rlo * (1 - 1e-7) <= lo <= rup * (1 + 1e-7), '%s: published %s dilation %.6f, reference bracket [%.6f, %.6f]', name, m, lo, rlo, rup)
        else:
            require(lo <= rup and rlo <= up, '%s: published %s dilation in [%.6f, %.6f], reference bracket [%.6f, %.6f]', name, m, lo, up, rlo, rup)
        return ['dilation', 'nontrivial']
    lab = {'data'}
    require(rc.is_continuous(), '%s: the curve is not continuous', name)
    for p, (cubes, specs) in enumerate(rc.patterns):
        same(sorted(cubes), sorted(itertools.product(range(rc.div), repeat=rc.dim)), '%s: cubes of pattern %d' % (name, p))
    if info.gates is not None:
        same([conv.from_link(l) for l in info.gates], [rc.link(p) for p in range(rc.mult)], '%s: gates' % name)
        lab.add('gates')
    for fd, want in (info.moments or {}).items():
        got = []
        for pos in itertools.combinations(range(rc.dim), rc.dim - abs(fd)):
            for vals in itertools.product((0, 1), repeat=len(pos)):
                face = [None] * rc.dim
                for i, v in zip(pos, vals):
                    face[i] = v
                got.append(rc.first_touch(rc.pnum, tuple(face), fd < 0)[0])
        same(sorted(conv.f(t) for t in want), sorted(got), '%s: moments of faces of dimension %d' % (name, fd))
        lab.add('moments')
    lj = rc.level_junctions()
    by_key = {}
    for level, (k1, k2, dx) in lj:
        k = ref.junction_key(k1, k2, dx)
        by_key[k] = min(level, by_key.get(k, level))
    if info.junctions_count is not None:
        same(info.junctions_count, len(by_key), '%s: number of junctions' % name)
        lab.add('junctions')
    if info.depth is not None:
        same(info.depth, max(by_key.values()), '%s: depth' % name)
        lab.add('depth')
    if name == 'get_hilbert_curve':
        classical(rc, hilbert_cells, 2)
    elif name == 'get_peano_curve':
        same((rc.dim, rc.div, rc.mult), (2, 3, 1), 'Peano curve parameters')
        classical(rc, lambda k: peano_cells(3, k), 3)
    elif name == 'get_peano5_curve':
        same((rc.dim, rc.div, rc.mult), (2, 5, 1), '5-div Peano curve parameters')
        classical(rc, lambda k: peano_cells(5, k), 5)
    if len(lab) > 1:
        lab.add('nontrivial')
    return sorted(lab)


def hilbert_cells(k):
    """textbook bit algorithm"""
    n = 1 << k
    out = []
    for d in range(n * n):
        x = y = 0
        t, s = d, 1
        while s < n:
            rx = 1 & (t // 2)
            ry = 1 & (t ^ rx)
            if ry == 0:
                if rx == 1:
                    x, y = s - 1 - x, s - 1 - y
                x, y = y, x
            x += s * rx
            y += s * ry
            t //= 4
            s *= 2
        out.append((x, y))
    return out


def peano_cells(n, k):
    """Peano's digit rule: a digit is complemented when the sum of the other coordinate's previous digits is odd"""
    out = []
    for t in range(n ** (2 * k)):
        digs = [(t // n ** i) % n for i in range(2 * k - 1, -1, -1)]
        x = y = 0
        sx = sy = 0
        for i, a in enumerate(digs):
            if i % 2 == 0:
                v = n - 1 - a if sy % 2 else a
                sx += a
                x = x * n + v
            else:
                v = n - 1 - a if sx % 2 else a
                sy += a
                y = y * n + v
        out.append((x, y))
    return out


def classical(rc, cells, div):
    for k in (1, 2, 3) if div < 5 else (1, 2):
        want, n = cells(k), div ** k
        got = rc.cells(rc.pnum, k)
        ok = any([ref.act_cube(co, n, c) for c in want] in (got, got[::-1]) for co in ref.all_coords(2))
        require(ok, 'level %d cells differ from the classical curve', k)


@st.composite
def presentations(draw):
    name = draw(st.sampled_from(names()))
    dim = fetch(name).curve.dim
    return {'name': name, 'map': draw(gen.iso_texts(dim)), 'tol': draw(st.sampled_from([3, 10, 30])), 'metric': draw(st.integers(0, 5)), 'faces': draw(st.booleans())}


def check_presentation(case):
    info = fetch(case['name'])
    co, rv = ref.parse_iso(case['map'])
    c = conv.bm_text(case['map']) * info.curve
    rc = conv.from_curve(c)
    lab = set()
    if info.gates is not None:
        same([conv.from_link(conv.link((conv.from_point(c.get_entrance(p)), conv.from_point(c.get_exit(p))))) for p in range(rc.mult)],
             [ref.act_link(co, rv, conv.from_link(l)) for l in info.gates], '%s: gates of a presentation' % case['name'])
        lab.add('nontrivial')
    if info.depth is not None:
        same(c.get_depth(), info.depth, '%s: depth of a presentation' % case['name'])
    if info.junctions_count is not None:
        same(len(list(c.gen_regular_junctions())), info.junctions_count, '%s: junctions of a presentation' % case['name'])
    for fd, want in (info.moments or {}).items():
        got = []
        for pos in itertools.combinations(range(rc.dim), rc.dim - abs(fd)):
            for vals in itertools.product((0, 1), repeat=len(pos)):
                face = [None] * rc.dim
                for i, v in zip(pos, vals):
                    face[i] = v
                got.append(conv.f(c.get_face_moment(tuple(face), last=(fd < 0) != rv)))
        same(sorted(got), sorted(1 - conv.f(t) if rv else conv.f(t) for t in want), '%s: moments of a presentation' % case['name'])
        lab.add('moments')
    ms = sorted(info.dilation or {})
    if ms and rc.genus <= 25:
        m = ms[case['metric'] % len(ms)]
        lo, up, _ = value(info.dilation[m])
        norm = 'l2_squared' if m == 'l2' else m
        if m == 'l2':
            lo, up = lo ** 2, up ** 2
        o = {'rel_tol_inv': case['tol']}
        if case['faces']:
            o.update(use_face_moments=True, face_dim=0)
        o, cap = dil.fit(rc, o, 15000)
        elo, eup = dil.bounds(dil.estimator(norm).estimate_dilation_regular(c, max_iter=cap, **o), 'estimate')
        require(float(elo) <= up * (1 + 1e-9) and float(eup) >= lo * (1 - 1e-9), '%s: %s bounds [%.6f, %.6f] of a presentation miss the published [%.6f, %.6f]', case['name'], m, float(elo), float(eup), lo, up)
        lab.add('nontrivial')
    return sorted(lab)


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ops.append({'op': draw(st.sampled_from(['fetch', 'all', 'spoil', 'spoil', 'spoil-all', 'use'])), 'name': draw(st.sampled_from(names())), 'n': draw(st.integers(0, 5))})
    return {'ops': ops, 'names': draw(st.lists(st.sampled_from(names()), min_size=1, max_size=3))}


def spoil(info, n):
    """what a caller may do to the plain containers it got"""
    for d in (info.dilation, info.moments):
        if d:
            k = sorted(d)[n % len(d)]
            if n % 2:
                d.pop(k)
            elif isinstance(d[k], list):
                d[k].append(7)
                d[k][0] = 0
            else:
                d[k] = 1
            d['more'] = 2
    if info.gates:
        info.gates.reverse()
        info.gates.append(info.gates[0])
    info.depth = 77
    info.junctions_count = 78
    if n % 3 == 0:
        info.curve = None


def check_history(case):
    from peano import zoo
    base = {n: baseline(n) for n in names()}
    lab = set()
    for op in case['ops']:
        k, name = op['op'], op['name']
        if k == 'fetch':
            same(snapshot(fetch(name)), base[name], '%s after other calls' % name)
        elif k == 'all':
            zoo.get_all_curves()
        elif k == 'spoil':
            spoil(fetch(name), op['n'])
            lab.add('nontrivial')
        elif k == 'spoil-all':
            l = zoo.get_all_curves()
            for i in l:
                spoil(i, op['n'])
            l.clear()
            lab.add('nontrivial')
        else:
            c = fetch(name).curve
            ~c
            c.get_entrance(), c.get_exit()
            list(itertools.islice(c.gen_regular_junctions(), 3))
        lab.add(k)
    for n in sorted(set(case['names'] + [o['name'] for o in case['ops']])):
        same(snapshot(fetch(n)), base[n], '%s after the history' % n)
    same(sorted(map(repr, (snapshot(i) for i in zoo.get_all_curves()))), sorted(map(repr, base.values())), 'get_all_curves after the history')
    return sorted(lab)


TARGETS = [Target('entries', lambda tier: st.nothing(), check_entry, 0, 0, fixed=fixed, shards=8, cpu_s=400),
           Target('presentations', lambda tier: presentations(), check_presentation, 1200, 12000, shards=4),
           Target('histories', lambda tier: histories(), check_history, 1200, 12000, shards=2)]
