"""C14: path generation, soundness and completeness."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output

PROPERTY = 'C14'
RULE = ('Cases: links (point links of known gates or arbitrary boundary points; facet subset links), a global link or parent paths, a step limit and front limits; generated set compared with an independent exhaustive search; '
        'non-trivial: at least one path exists.')
ASSUMPTIONS = ['configurations whose reference search exceeds its node budget are skipped (label capped)']

LIMITS = st.fixed_dictionaries({}, optional={'start_max_count': st.sampled_from([1, 2, 5, 10, 50, 500]), 'finish_max_count': st.sampled_from([None, 1, 2, 5, 10, 100, 1000])})


# ---------------------------------------------------------------- point links

@st.composite
def boundary_points(draw, dim, vals):
    x = [draw(st.sampled_from(vals)) for _ in range(dim)]
    if all(0 < v < 1 for v in x):
        x[draw(st.integers(0, dim - 1))] = F(draw(st.integers(0, 1)))
    return tuple(x)


@st.composite
def point_cases(draw):
    if draw(st.integers(0, 2)):
        pool = draw(gen.pick(gen.pick_pools(max_genus=16, max_dim=3, max_gates=3)))
        dim, div = pool.dim, pool.div
        links = []
        for g in pool.gates:
            co, rv = draw(gen.isos(dim))
            links.append(ref.act_link(co, rv, g))
        if draw(st.integers(0, 3)) == 0 and len(links) < 3:
            links.append(draw(st.tuples(boundary_points(dim, [F(0), F(1)]), boundary_points(dim, [F(0), F(1)]))))
    else:
        dim, div = draw(st.sampled_from([(1, 2), (1, 3), (2, 2), (2, 2), (2, 3), (2, 3), (3, 2)]))
        den = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
        vals = sorted({F(0), F(1), F(1, den), 1 - F(1, den)})
        if draw(st.integers(0, 2)):
            pt = boundary_points(dim, vals)
        else:
            pt = st.tuples(*[st.sampled_from(vals)] * dim)   # interior ends too: these can only be at the ends of a path
        links = draw(st.lists(st.tuples(pt, pt), min_size=1, max_size=3))
        if den > 1 and draw(st.integers(0, 2)) == 0:
            # one link of a path through the corners starts or ends inside the cube
            corner = st.tuples(*[st.sampled_from([F(0), F(1)])] * dim)
            inner = st.tuples(*[st.sampled_from([F(1, den), 1 - F(1, den)])] * dim)
            nbr = st.builds(lambda c, k: (c, tuple(1 - x if i == k else x for i, x in enumerate(c))), corner, st.integers(0, dim - 1))
            links = [draw(nbr), (draw(inner), draw(corner))]
            if draw(st.booleans()):
                links[1] = links[1][::-1]
            if draw(st.integers(0, 2)):
                links.append(draw(st.one_of(nbr, st.tuples(corner, corner), st.tuples(inner, corner))))
            links = draw(st.permutations(links))
    mode = draw(st.integers(0, 5))
    if mode <= 1:
        glink = draw(st.sampled_from(links))
        co, rv = draw(gen.isos(dim))
        glink = ref.act_link(co, rv, glink)
    elif mode == 2:
        a, b = draw(st.sampled_from(links)), draw(st.sampled_from(links))
        c1, c2 = draw(gen.isos(dim))[0], draw(gen.isos(dim))[0]
        glink = (ref.act_x(c1, a[0]), ref.act_x(c2, b[1]))
    elif mode in (4, 5):
        # an end of a link placed into a sub-cube
        ends = []
        for i in (0, 1):
            end = draw(st.sampled_from([p for l in links for p in l]))
            end = ref.act_x(draw(gen.isos(dim))[0], end)
            cube = draw(st.tuples(*[st.integers(0, div - 1)] * dim))
            ends.append(tuple((c + x) / div for c, x in zip(cube, end)))
        glink = tuple(ends)
    else:
        # a point of the grid: corner of sub-cubes
        pt = st.tuples(*[st.integers(0, div).map(lambda n: F(n, div))] * dim)
        glink = (draw(pt), draw(pt))
    return {'dim': dim, 'div': div, 'links': [ref.link_str(l) for l in links], 'glink': ref.link_str(glink),
            'max_cdist': draw(st.sampled_from([None, None, None, 1, 1, 2, 3])), 'limits': draw(st.lists(LIMITS, min_size=1, max_size=2))}


def ref_set(dim, div, glink, clos, max_cdist, budget):
    """sorted list of paths, None if the search is too long"""
    G = div ** dim
    target = set(ref.cubes_of_point(glink[1], div))
    out, nodes = [], [0]

    def rec(path, used):
        nodes[0] += 1
        if nodes[0] > budget or len(out) > 4000:
            return
        cube, _, ex = path[-1]
        if len(path) == G:
            if (cube, ex) in target:
                out.append(tuple(path))
            return
        opts = []
        for c, p in zip(cube, ex):
            o = [(c, p)]
            if p == 0 and c > 0:
                o.append((c - 1, F(1)))
            if p == 1 and c < div - 1:
                o.append((c + 1, F(0)))
            opts.append(o)
        for combo in itertools.product(*opts):
            nc = tuple(c for c, _ in combo)
            if nc in used or (max_cdist is not None and sum(abs(a - b) for a, b in zip(nc, cube)) > max_cdist):
                continue
            ne = tuple(p for _, p in combo)
            for nx in clos.get(ne, ()):
                path.append((nc, ne, nx))
                used.add(nc)
                rec(path, used)
                used.discard(nc)
                path.pop()
    for c, r in ref.cubes_of_point(glink[0], div):
        for x in clos.get(r, ()):
            rec([(c, r, x)], {c})
    if nodes[0] > budget or len(out) > 4000:
        return None
    return sorted(out)


def compare(got, want, what):
    if sorted(got) == want:
        return
    ws, gs = set(want), set(got)
    extra = [p for p in got if p not in ws]
    lost = [p for p in want if p not in gs]
    require(not extra, '%s: yields a path that is not allowed: %s', what, extra[:1])
    require(not lost, '%s: does not yield %s', what, lost[:1])
    require(False, '%s: yields a path more than once', what)


def check_point(case):
    from peano.paths import PathsGenerator
    dim, div = case['dim'], case['div']
    links = [ref.parse_link(t) for t in case['links']]
    glink = ref.parse_link(case['glink'])
    md = case['max_cdist']
    clos = ref.link_closure(links)
    want = ref_set(dim, div, glink, clos, md, 30000)
    if want is None:
        return ['capped']
    pg = PathsGenerator(dim, div, [conv.link(l) for l in links], **({} if md is None else {'max_cdist': md}))
    gl = conv.link(glink)
    for kw in [{}] + case['limits']:
        got = []
        for p in pg.generate_paths_generic(link=gl, **kw):
            same(conv.from_link(p.link), glink, 'global link of a generated path')
            require(p.is_continuous(), 'generated path is not continuous')
            got.append(tuple(conv.from_path(p)))
        compare(got, want, 'link %s, limits %s' % (case['glink'], kw))
    # example exists exactly when the set is not empty
    ex = pg.get_paths_example(links=(gl,))
    require((ex is not None) == bool(want), 'example %s although %d paths exist', ex, len(want))
    if ex is not None:
        require(tuple(conv.from_path(ex[0])) in set(want), 'example is not in the set')
    tup = [tuple(tuple(conv.from_path(p)) for p in t) for t in pg.generate_paths(links=[gl])]
    compare([t[0] for t in tup], want, 'generate_paths')
    # pointed parent: exactly the parent itself if it is allowed
    if want:
        par = want[len(want) // 2]
        got = [tuple(conv.from_path(p)) for p in pg.generate_paths_generic(parent=conv.path(dim, div, par), **case['limits'][0])]
        compare(got, [par], 'pointed parent')
    return ['dim%d' % dim, 'some' if want else 'none'] + (['nontrivial'] if want else []) + (['cdist'] if md else []) + (['many'] if len(want) > 20 else [])


# ---------------------------------------------------------------- several patterns

@st.composite
def multi_cases(draw):
    pool = draw(gen.pick(gen.pick_pools(max_genus=9, max_dim=3, max_gates=3)))
    ng = draw(st.integers(1, 3))
    gl = []
    for _ in range(ng):
        g = draw(st.sampled_from(pool.gates))
        co, rv = draw(gen.isos(pool.dim))
        gl.append(ref.link_str(ref.act_link(co, rv, g)))
    if draw(st.booleans()) and len(gl) > 1:
        gl[-1] = gl[0]
    return {'dim': pool.dim, 'div': pool.div, 'links': [ref.link_str(g) for g in pool.gates], 'glinks': gl if draw(st.integers(0, 3)) else None,
            'limits': draw(LIMITS)}


def check_multi(case):
    from peano.paths import PathsGenerator
    dim, div = case['dim'], case['div']
    links = [ref.parse_link(t) for t in case['links']]
    gl = [ref.parse_link(t) for t in case['glinks']] if case['glinks'] else links
    clos = ref.link_closure(links)
    lists = []
    for g in gl:
        w = ref_set(dim, div, g, clos, None, 20000)
        if w is None:
            return ['capped']
        lists.append(w)
    n = 1
    for w in lists:
        n *= len(w)
    pg = PathsGenerator(dim, div, [conv.link(l) for l in links])
    kw = dict(case['limits'])
    arg = {} if case['glinks'] is None else {'links': [conv.link(g) for g in gl]}
    ex = pg.get_paths_example(**arg, **kw)
    require((ex is not None) == (n > 0), 'example found: %s, tuples: %d', ex is not None, n)
    if ex is not None:
        same(len(ex), len(gl), 'example length')
        for p, w in zip(ex, lists):
            require(tuple(conv.from_path(p)) in set(w), 'example is not in the set')
    if n > 5000:
        return ['big', 'nontrivial']
    got = [tuple(tuple(conv.from_path(p)) for p in t) for t in pg.generate_paths(**arg, **kw)]
    compare(got, sorted(itertools.product(*lists)), 'generate_paths')
    return (['nontrivial'] if n else []) + ['mult%d' % len(gl)]


# ---------------------------------------------------------------- facet links

@st.composite
def facet_cases(draw):
    dim, div = draw(st.sampled_from([(2, 2), (2, 3), (2, 3), (3, 2), (3, 2)]))
    depth = st.integers(0, 1 if draw(st.integers(0, 2)) else 2)

    def fs():
        facet = (draw(st.integers(0, dim - 1)), draw(st.integers(0, 1)))
        cubes = [draw(st.tuples(*[st.integers(0, div - 1)] * (dim - 1))) for _ in range(draw(depth))]
        return sets.mk_facet(dim, div, facet, cubes)
    links = [[fs(), fs()] for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        gl = draw(st.sampled_from(links))
        co, rv = draw(gen.isos(dim))
        gl = [sets.act_facet(co, s) for s in gl]
        if rv:
            gl.reverse()
        if draw(st.booleans()):
            gl = [sets.mk_facet(dim, div, s.facet, s.cubes[:draw(st.integers(0, len(s.cubes)))]) for s in gl]
    else:
        gl = [fs(), fs()]
    return {'dim': dim, 'div': div, 'links': [[sets.to_case(s) for s in l] for l in links], 'glink': [sets.to_case(s) for s in gl],
            'parent': draw(st.integers(0, 10 ** 6)), 'coarse': draw(st.lists(st.integers(0, 2), min_size=16, max_size=16)),
            'limits': draw(st.lists(LIMITS, min_size=1, max_size=1)), 'max_cdist': draw(st.sampled_from([None, None, 1, 2]))}


def facet_closure(links, dim):
    """distinct oriented (entrance, exit) pairs of facet sets"""
    res = {}
    for a, b in links:
        for co in ref.all_coords(dim):
            x, y = sets.act_facet(co, a), sets.act_facet(co, b)
            res[x, y] = 1
            res[y, x] = 1
    return list(res)


def facet_set(dim, div, clos, starts_ok, step_ok, finish_ok, budget):
    G = div ** dim
    cubes = list(itertools.product(range(div), repeat=dim))
    # links by neighbour step: exit facet (j, v) leads to the cube in direction j, sign v; entrance there is facet (j, 1-v)
    by_facet = {}
    for l in clos:
        by_facet.setdefault(l[0].facet, []).append(l)
    follow = {}
    for l in clos:
        ex = l[1]
        j, v = ex.facet
        d = tuple((1 if v else -1) if i == j else 0 for i in range(dim))
        moved = sets.Box(tuple(x - y for x, y in zip(ex.lo, d)), tuple(x - y for x, y in zip(ex.hi, d)))
        follow[l] = [(d, n) for n in by_facet.get((j, 1 - v), []) if sets.meet(moved, n[0])]
    out, nodes = [], [0]

    def rec(path, used):
        nodes[0] += 1
        if nodes[0] > budget or len(out) > 3000:
            return
        cube, l = path[-1]
        if len(path) == G:
            if finish_ok(cube, l):
                out.append(tuple(path))
            return
        for d, n in follow[l]:
            nc = tuple(a + b for a, b in zip(cube, d))
            if nc in used or not all(0 <= v < div for v in nc) or not step_ok(len(path), nc, n):
                continue
            path.append((nc, n))
            used.add(nc)
            rec(path, used)
            used.discard(nc)
            path.pop()
    for c in cubes:
        for l in clos:
            if starts_ok(c, l):
                rec([(c, l)], {c})
    if nodes[0] > budget or len(out) > 3000:
        return None
    return out


def path_key(p):
    return tuple((c, (a.facet, a.cubes), (b.facet, b.cubes)) for c, (a, b) in p)


def real_key(p):
    out = []
    with output('facet path'):
        for c, l in zip(p.proto, p.links, strict=True):
            a, b = sets.from_real(l.entrance), sets.from_real(l.exit)
            out.append((tuple(c), (a.facet, a.cubes), (b.facet, b.cubes)))
    return tuple(out)


def coarser(case, base):
    """links of a coarser parent of the path: nested positions are cut"""
    dim, div, co = case['dim'], case['div'], case['coarse']
    plinks = []
    for i, (c, (a, b)) in enumerate(base):
        ka, kb = co[(2 * i) % 16], co[(2 * i + 1) % 16]
        cut = lambda s, k: sets.mk_facet(dim, div, s.facet, s.cubes[:max(0, len(s.cubes) - k)])
        plinks.append((cut(a, ka), cut(b, kb)))
    return plinks


def facet_link_set(case, clos, gl):
    dim, div = case['dim'], case['div']
    part = lambda s, c: sets.portion(s, [F(v, div) for v in c], F(1, div))

    def inpart(s, c, t):
        q = part(s, c)
        return q is not None and sets.meet(sets.Box(*q), t)
    return facet_set(dim, div, clos, lambda c, l: inpart(gl[0], c, l[0]), lambda i, c, l: True, lambda c, l: inpart(gl[1], c, l[1]), 20000)


def facet_parent_set(case, clos, pc, plinks):
    ok = lambda i, c, l: c == pc[i] and sets.meet(l[0], plinks[i][0]) and sets.meet(l[1], plinks[i][1])
    return facet_set(case['dim'], case['div'], clos, lambda c, l: ok(0, c, l), ok, lambda c, l: ok(len(pc) - 1, c, l), 20000)


def check_facet(case):
    from peano.paths import Path, PathsGenerator, Proto
    dim, div = case['dim'], case['div']
    links = [tuple(sets.from_case(s) for s in l) for l in case['links']]
    gl = tuple(sets.from_case(s) for s in case['glink'])
    clos = facet_closure(links, dim)
    want = facet_link_set(case, clos, gl)
    if want is None:
        return ['capped']
    md = case['max_cdist']
    pg = PathsGenerator(dim, div, [sets.real_link(l) for l in links], **({} if md is None else {'max_cdist': md}))
    rg = sets.real_link(gl)
    wk = sorted(map(path_key, want))
    for kw in [{}] + case['limits']:
        got = []
        for p in pg.generate_paths_generic(link=rg, **kw):
            require(p.is_continuous(), 'generated facet path is not continuous')
            require(p.link.intersects(rg), 'generated facet path does not meet the global link')
            got.append(real_key(p))
        compare(got, wk, 'facet link, limits %s' % kw)
    ex = pg.get_paths_example(links=(rg,))
    require((ex is not None) == bool(want), 'example exists: %s, paths: %d', ex is not None, len(want))
    lab = ['dim%d' % dim, 'some' if want else 'none']
    if not want:
        return lab
    # a coarser parent: cut nested positions of the links of one path
    base = want[case['parent'] % len(want)]
    plinks = coarser(case, base)
    pc = [c for c, _ in base]
    w2 = facet_parent_set(case, clos, pc, plinks)
    if w2 is None:
        return lab + ['nontrivial']
    parent = Path(Proto(dim, div, pc), [sets.real_link(l) for l in plinks])
    k2 = sorted(map(path_key, w2))
    assert path_key(base) in k2
    for kw in case['limits']:
        compare([real_key(p) for p in pg.generate_paths_generic(parent=parent, **kw)], k2, 'parent path')
    ex = pg.get_paths_example(parents=(parent,))
    require(ex is not None and real_key(ex[0]) in k2, 'example for a parent')
    tup = [tuple(map(real_key, t)) for t in pg.generate_paths(parents=[parent])]
    compare([t[0] for t in tup], k2, 'generate_paths with a parent')
    if len(k2) > 1:
        lab.append('branching-parent')
    return lab + ['nontrivial']


TARGETS = [
    Target('points', lambda tier: point_cases(), check_point, 4000, 20000, shards=8),
    Target('patterns', lambda tier: multi_cases(), check_multi, 400, 2000, shards=4),
    Target('facets', lambda tier: facet_cases(), check_facet, 1800, 9000, shards=8),
]
