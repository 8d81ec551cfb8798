"""C13: growing cube paths."""
import itertools

from hypothesis import strategies as st

from lib import gen
from lib.engine import Target, require, same, output

PROPERTY = 'C13'
RULE = ('Cases: a random next-step rule with states on a small grid (rule may depend on the cube, offers steps out of the grid too), start and finish nodes, several pairs of front limits; '
        'non-trivial: the set of full paths is neither empty nor independent of the states (at least one path, at least two states or a cube dependent rule).')
ASSUMPTIONS = ['next and previous rules describe the same relation; the rule lists a step once; states may be any hashable values']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['local', 'global', 'walks', 'sparse']))
    if kind == 'sparse':
        dim, div = draw(st.sampled_from([(1, 12), (2, 4), (2, 5), (2, 6), (2, 7), (3, 3), (5, 2), (4, 2), (3, 2), (2, 3)]))
    else:
        dim, div = draw(st.sampled_from([(1, 2), (1, 4), (1, 7), (2, 2), (2, 2), (2, 3), (2, 3), (2, 3), (3, 2), (3, 2), (4, 2)]))
    ns = draw(st.integers(1, 3))
    rnd = draw(st.randoms(use_true_random=False))
    G = div ** dim
    moves = [m for m in itertools.product((-1, 0, 1), repeat=dim) if any(m)]
    if draw(st.integers(0, 2)) == 0:
        moves = [m for m in moves if sum(map(abs, m)) == 1]
    cubes = list(itertools.product(range(div), repeat=dim))
    rel = set()
    starts, fins = set(), set()
    if kind == 'global':
        # (state, delta) -> states, independent of the cube
        nrules = draw(st.integers(1, max(1, min(len(moves) * ns * ns, 40 if G <= 9 else 12))))
        rules = {(rnd.randrange(ns), rnd.choice(moves), rnd.randrange(ns)) for _ in range(nrules)}
        for c in cubes:
            for s, m, t in rules:
                rel.add((c, s, tuple(a + b for a, b in zip(c, m)), t))
    elif kind == 'sparse':
        # a few long walks plus some single steps: large grids with few full paths
        for _ in range(draw(st.integers(0, 25))):
            c, m = rnd.choice(cubes), rnd.choice(moves)
            rel.add((c, rnd.randrange(ns), tuple(a + b for a, b in zip(c, m)), rnd.randrange(ns)))
    else:
        pr = draw(st.sampled_from([0.05, 0.15, 0.3, 0.5])) if G <= 9 else draw(st.sampled_from([0.02, 0.06]))
        for c in cubes:
            for m in moves:
                n = tuple(a + b for a, b in zip(c, m))
                for s in range(ns):
                    for t in range(ns):
                        if rnd.random() < pr:
                            rel.add((c, s, n, t))
    nwalk = draw(st.integers(1 if kind in ('walks', 'sparse') else 0, 4))
    walks = []
    for _ in range(nwalk):
        w = gen.king_walk(rnd, dim, div, True)
        if w:
            sts = [rnd.randrange(ns) for _ in w]
            walks.append(list(zip(w, sts)))
    for w in walks:
        if kind != 'global':
            for (a, s), (b, t) in zip(w, w[1:]):
                rel.add((a, s, b, t))
        starts.add(w[0])
        fins.add(w[-1])
    for _ in range(draw(st.integers(0 if walks else 1, 4))):
        starts.add((rnd.choice(cubes), rnd.randrange(ns)))
    for _ in range(draw(st.integers(0 if walks else 1, 4))):
        fins.add((rnd.choice(cubes), rnd.randrange(ns)))
    limits = [[draw(st.sampled_from([0, 1, 2, 3, 5, 8, 13, 30, 100, 1000])), draw(st.sampled_from([None, 0, 1, 2, 3, 5, 8, 13, 30, 100, 1000, 10 ** 6]))] for _ in range(2)]
    return {'dim': dim, 'div': div, 'kind': kind, 'states': ns, 'rel': [[list(a), s, list(b), t] for a, s, b, t in sorted(rel)],
            'start': [[list(c), s] for c, s in sorted(starts)], 'finish': [[list(c), s] for c, s in sorted(fins)], 'limits': limits}


def check(case):
    from peano._cube_path_trees import CubePathTree
    dim, div = case['dim'], case['div']
    G = div ** dim
    nxt, prv = {}, {}
    for a, s, b, t in case['rel']:
        a, b = tuple(a), tuple(b)
        nxt.setdefault((a, s), []).append((b, t))
        prv.setdefault((b, t), []).append((a, s))
    starts = [(tuple(c), s) for c, s in case['start']]
    fins = [(tuple(c), s) for c, s in case['finish']]
    inside = lambda c: all(0 <= v < div for v in c)
    finset = set(fins)
    want = []
    nodes = [0]

    def dfs(path, used):
        nodes[0] += 1
        if len(want) > 6000 or nodes[0] > 60000:
            return
        if len(path) == G:
            if path[-1] in finset:
                want.append(tuple(path))
            return
        for n in nxt.get(path[-1], ()):
            if inside(n[0]) and n[0] not in used:
                path.append(n)
                used.add(n[0])
                dfs(path, used)
                used.discard(n[0])
                path.pop()
    for s in starts:
        dfs([s], {s[0]})
    if len(want) > 6000 or nodes[0] > 60000:
        return ['too-many']
    want.sort()

    name = lambda s: ('state', s)        # states are opaque hashable values
    def mk(table):
        def fn(cube, state):
            return [(tuple(y - x for x, y in zip(cube, c)), name(t)) for c, t in table.get((cube, state[1]), ())]
        return fn
    lims = [{}] + [dict(start_max_count=a, finish_max_count=b) for a, b in case['limits']]
    for i, kw in enumerate(lims):
        tree = CubePathTree(dim, div, mk(nxt), mk(prv))
        got = []
        with output('grown path'):
            for p in tree.grow([(c, name(s)) for c, s in starts], [(c, name(s)) for c, s in fins], **kw):
                got.append(tuple((tuple(c), s[1]) for c, s in p))
        got.sort()
        if got != want:
            extra, lost = [p for p in got if p not in set(want)], [p for p in want if p not in set(got)]
            require(not extra, 'limits %s: yields a path that is not allowed: %s', kw, extra[:1])
            require(not lost, 'limits %s: loses the path %s', kw, lost[:1])
            require(False, 'limits %s: yields a path more than once', kw)
    # without a reverse rule the finish front is not expanded
    tree = CubePathTree(dim, div, mk(nxt))
    with output('grown path'):
        got = sorted(tuple((tuple(c), s[1]) for c, s in p) for p in tree.grow([(c, name(s)) for c, s in starts], [(c, name(s)) for c, s in fins], finish_max_count=None))
    same(got, want, 'paths without a reverse rule')
    lab = [case['kind'], 'dim%d' % dim, 'paths%d' % min(3, len(want))]
    if want and (case['states'] > 1 or case['kind'] != 'global'):
        lab.append('nontrivial')
    if len(want) > 50:
        lab.append('many')
    if G > 16 and want:
        lab.append('large-grid')
    return lab


TARGETS = [Target('grow', lambda tier: cases(), check, 2600, 40000, shards=8)]
