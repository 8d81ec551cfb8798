"""C16: gates."""
import itertools
import random
from fractions import Fraction as F
from functools import lru_cache

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C16'
RULE = ('Cases: a configuration with the first and last cubes and specs of every pattern (drawn so that gates can be on the boundary); the gates of these choices, standardised by the reference, '
        'must be listed exactly when pointed prototypes exist by an independent search; whole listings are checked for soundness; non-trivial: all gates are on the boundary (facets). Histories: generator objects used repeatedly, also after an abandoned enumeration; non-trivial: some object is used twice.')
ASSUMPTIONS = ['existence of pointed prototypes is decided by the reference search within a state budget; undecided gates are skipped']

CHEAP = [(1, 2, 1, 0), (1, 3, 1, 0), (1, 4, 1, 0), (1, 2, 2, 0), (1, 3, 2, 0), (2, 2, 1, 0), (2, 3, 1, 0), (2, 4, 1, 0), (3, 2, 1, 0),
         (2, 2, 2, 1), (2, 3, 1, 1), (2, 3, 2, 1), (2, 4, 1, 1), (2, 4, 2, 1), (2, 2, 3, 1), (3, 2, 1, 1)]
SLOW = [(2, 5, 1, 0), (3, 2, 2, 1), (1, 2, 3, 0), (2, 2, 2, 0)]
DEEP = [(2, 3, 2, 0), (2, 2, 4, 1), (2, 3, 3, 1), (4, 2, 1, 1)]


@lru_cache(maxsize=None)
def listing(conf):
    from peano.gates import GatesGenerator
    dim, div, mult, facet = conf
    gens = list(GatesGenerator(dim, div, mult, **({'only_facet': True} if facet else {})).gen_gates())
    return [tuple(conv.from_link(l) for l in t) for t in gens]


@lru_cache(maxsize=None)
def listing_set(conf):
    return frozenset(listing(conf))


@lru_cache(maxsize=100000)
def std_link(l):
    d = len(l[0])
    return min(min(ref.act_link(co, False, l), ref.act_link(co, True, l)) for co in ref.all_coords(d))


def on_boundary(pt, facet):
    n = sum(v in (0, 1) for v in pt)
    return n == 1 if facet else n >= 1


@lru_cache(maxsize=100000)
def exists(dim, div, gates, budget=150000):
    """True/False/None: pointed prototypes with these gates exist"""
    clos = ref.link_closure(gates)
    res = True
    for g in gates:
        r = _exists(dim, div, g, clos, budget)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def _exists(dim, div, glink, clos, budget):
    G = div ** dim
    cubes = gen.all_cubes(dim, div)
    no = {c: i for i, c in enumerate(cubes)}
    target = {(no[c], r) for c, r in ref.cubes_of_point(glink[1], div)}
    tcubes = {c for c, _ in target}
    full = (1 << G) - 1
    seen = set()
    stack = [(1 << no[c], no[c], x) for c, r in ref.cubes_of_point(glink[0], div) for x in clos.get(r, ())]
    step = {}
    while stack:
        st_ = stack.pop()
        if st_ in seen:
            continue
        seen.add(st_)
        if len(seen) > budget:
            return None
        mask, ci, ex = st_
        if mask == full:
            if (ci, ex) in target:
                return True
            continue
        if all(mask >> t & 1 for t in tcubes):
            continue
        nx = step.get((ci, ex))
        if nx is None:
            nx = []
            cube = cubes[ci]
            opts = []
            for c, p in zip(cube, ex):
                o = [(c, p)]
                if p == 0 and c > 0:
                    o.append((c - 1, F(1)))
                if p == 1 and c < div - 1:
                    o.append((c + 1, F(0)))
                opts.append(o)
            for combo in itertools.product(*opts):
                nc = tuple(c for c, _ in combo)
                if nc != cube:
                    for e in clos.get(tuple(p for _, p in combo), ()):
                        nx.append((no[nc], e))
            step[ci, ex] = nx
        for nc, e in nx:
            if not mask >> nc & 1:
                stack.append((mask | 1 << nc, nc, e))
    return False


def gates_of(dim, div, pats):
    """links of patterns given by first/last cube and spec: pats = [(cube0, cube1, spec0, spec1)]"""
    def limit(p, side):
        st_ = (ref.ident(dim), False, p)
        seen, cubes = {}, []
        while st_ not in seen:
            seen[st_] = len(cubes)
            co, rv, q = st_
            pat = pats[q]
            i = side ^ rv
            cubes.append(ref.act_cube(co, div, pat[i]))
            sc, sr, sq = pat[2 + i]
            st_ = (ref.comp(co, sc), rv ^ sr, sq)
        return ref.limit_point(cubes, seen[st_], div, dim)
    return [(limit(p, 0), limit(p, 1)) for p in range(len(pats))]


@lru_cache(maxsize=None)
def boundary_cubes(dim, div):
    return [c for c in gen.all_cubes(dim, div) if any(v in (0, div - 1) for v in c)]


def choose(rnd, conf):
    """end cubes and specs of all patterns; specs are chosen so that gates can be on the boundary"""
    dim, div, mult, facet = conf
    bc = boundary_cubes(dim, div)
    ends = []
    for _ in range(mult):
        a, b = rnd.sample(bc, 2)
        ends.append((a, b))

    def touches(c1, c2):
        return any((x == y == 0) or (x == y == div - 1) for x, y in zip(c1, c2))
    pats = []
    for p in range(mult):
        specs = []
        for side in (0, 1):
            sp = None
            for _ in range(40):
                q = rnd.randrange(mult)
                co = rnd.choice(ref.all_coords(dim))
                rv = rnd.random() < 0.5
                sp = (co, rv, q)
                if touches(ends[p][side], ref.act_cube(co, div, ends[q][side ^ rv])):
                    break
            specs.append(ref.spec_str(sp))
        pats.append([list(ends[p][0]), list(ends[p][1]), specs[0], specs[1]])
    return pats


@st.composite
def cases(draw, confs):
    conf = draw(st.sampled_from(confs))
    return {'conf': list(conf), 'patterns': choose(draw(st.randoms(use_true_random=False)), conf)}


def check(case):
    conf = tuple(case['conf'])
    dim, div, mult, facet = conf
    pats = [(tuple(a), tuple(b), ref.parse_spec(s), ref.parse_spec(t)) for a, b, s, t in case['patterns']]
    gates = gates_of(dim, div, pats)
    lab = ['conf-%d-%d-%d-%d' % conf]
    if not all(on_boundary(pt, facet) for l in gates for pt in l):
        return lab + ['internal']
    std = tuple(sorted(std_link(l) for l in gates))
    want = exists(dim, div, std)
    listed = std in listing_set(conf)
    if want is None:
        return lab + ['undecided']
    if want:
        require(listed, 'gates of an existing curve are not listed: %s', [ref.link_str(l) for l in std])
    else:
        require(not listed, 'gates without pointed prototypes are listed: %s', [ref.link_str(l) for l in std])
    return lab + ['nontrivial', 'listed' if want else 'impossible']


def check_listing(case):
    conf = tuple(case['conf'])
    dim, div, mult, facet = conf
    got = listing(conf)
    require(len(set(got)) == len(got), 'a gate tuple is listed twice')
    for t in got:
        same(len(t), mult, 'tuple length')
        same(list(t), sorted(t), 'order of links in a tuple')
        for l in t:
            same(l, std_link(l), 'standard form')
            require(all(on_boundary(pt, facet) for pt in l), 'gate is not on the %s: %s', 'facets' if facet else 'boundary', ref.link_str(l))
        require(exists(dim, div, t) is not False, 'no pointed prototypes for listed gates %s', [ref.link_str(l) for l in t])
    n = 0
    if mult == 1 and div ** dim <= 16:
        # all choices of end cubes and specs, up to symmetry of the configuration
        isos = [(co, rv) for co in ref.all_coords(dim) for rv in (False, True)]
        bc = boundary_cubes(dim, div)
        pairs = {}
        for a, b in itertools.permutations(bc, 2):
            key = min(min((ref.act_cube(co, div, a), ref.act_cube(co, div, b)), (ref.act_cube(co, div, b), ref.act_cube(co, div, a))) for co in ref.all_coords(dim))
            pairs[key] = 1
        found = set()
        seen = set()
        touch = lambda c1, c2: any((x == y == 0) or (x == y == div - 1) for x, y in zip(c1, c2))
        for pair in sorted(pairs):
            for s0 in isos:
                if not touch(pair[0], ref.act_cube(s0[0], div, pair[s0[1]])):
                    continue
                for s1 in isos:
                    if not touch(pair[1], ref.act_cube(s1[0], div, pair[1 ^ s1[1]])):
                        continue
                    l = gates_of(dim, div, [pair + (s0 + (0,), s1 + (0,))])[0]
                    n += 1
                    if l in seen:
                        continue
                    seen.add(l)
                    if all(on_boundary(pt, facet) for pt in l):
                        found.add(std_link(l))
        und = [l for l in found if exists(dim, div, (l,)) is None]
        want = {(l,) for l in found if exists(dim, div, (l,))}
        same(sorted(t for t in set(got) if t[0] not in und), sorted(t for t in want), 'gates of the configuration (all end cubes and specs)')
    if case.get('sample'):
        rnd = random.Random(case['seed'])
        for _ in range(case['sample']):
            check({'conf': list(conf), 'patterns': choose(rnd, conf)})
    # curves of the corpus of this configuration: their gates are listed
    for pool in gen.pools():
        if (pool.dim, pool.div, len(pool.gates)) == (dim, div, mult):
            std = tuple(sorted(std_link(g) for g in pool.gates))
            if all(on_boundary(pt, facet) for l in std for pt in l):
                require(std in set(got), 'gates of known curves are not listed: %s', [ref.link_str(l) for l in std])
    return ['nontrivial', 'conf-%d-%d-%d-%d' % conf] + (['exhaustive'] if n else [])


def fixed(tier):
    for c in CHEAP + SLOW + (DEEP if tier == 'thorough' else []):
        yield {'conf': list(c), 'seed': 1, 'sample': (0 if c[2] == 1 else 2500 if tier == 'quick' else 40000)}


TINY = [(1, 2, 1, 0), (1, 3, 1, 0), (1, 2, 2, 0), (2, 2, 1, 0), (2, 3, 1, 1), (2, 2, 2, 1)]


@st.composite
def histories(draw):
    confs = draw(st.lists(st.sampled_from(TINY), min_size=1, max_size=3))
    steps = draw(st.lists(st.tuples(st.integers(0, len(confs) - 1), st.sampled_from([None, None, 0, 1, 2])), min_size=2, max_size=6))
    return {'confs': [list(c) for c in confs], 'steps': [list(s) for s in steps]}


def check_history(case):
    """generator objects used repeatedly: each enumeration is complete, whatever was enumerated (or abandoned) before"""
    from peano.gates import GatesGenerator
    gens = [GatesGenerator(*c[:3], **({'only_facet': True} if c[3] else {})) for c in case['confs']]
    full = [0] * len(gens)
    for n, (g, take) in enumerate(case['steps']):
        it = iter(gens[g].gen_gates())
        with output('gates'):
            got = [tuple(conv.from_link(l) for l in t) for t in (it if take is None else itertools.islice(it, take))]
        want = listing_set(tuple(case['confs'][g]))
        require(len(set(got)) == len(got), 'step %d: a gate tuple is listed twice', n)
        if take is None:
            same(sorted(got), sorted(want), 'step %d: enumeration on a generator used before' % n)
        else:
            require(set(got) <= want and len(got) == min(take, len(want)), 'step %d: partial enumeration gives %s', n, got)
        full[g] += 1
    return ['history'] + (['nontrivial'] if max(full) > 1 else [])


TARGETS = [
    Target('listing', lambda tier: st.just(None), check_listing, 0, 0, shards=8, fixed=fixed, cpu_s=1500),
    Target('sampled', lambda tier: cases(CHEAP + (SLOW + DEEP if tier == 'thorough' else SLOW[:1])), check, 20000, 200000, shards=7, cpu_s=1500),
    Target('histories', lambda tier: histories(), check_history, 80, 1500, shards=4, cpu_s=600),
]
