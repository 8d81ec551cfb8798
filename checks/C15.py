"""C15: standardised path generation."""
from collections import Counter

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output
from checks.C14 import LIMITS, ref_set, coarser, facet_cases, facet_closure, facet_link_set, facet_parent_set, path_key, real_key
from lib import sets

PROPERTY = 'C15'
RULE = ('Cases: point link configurations (images of known gates, symmetric and repeated links, foreign global links, step limits), 1..3 patterns; classes under the stabiliser of the global link are computed from the independent full path set; '
        'non-trivial: the stabiliser is not trivial or several patterns, and at least one path exists.')
ASSUMPTIONS = ['configurations whose reference search exceeds its node budget are skipped (label capped)']


@st.composite
def cases(draw):
    multi = draw(st.integers(0, 2)) == 0
    pool = draw(gen.pick(gen.pick_pools(max_genus=9 if multi else 16, max_dim=3, max_gates=3)))
    dim, div = pool.dim, pool.div
    links = []
    for g in pool.gates:
        co, rv = draw(gen.isos(dim))
        links.append(ref.act_link(co, rv, g))
    if draw(st.integers(0, 3)) == 0:
        links.append(draw(st.sampled_from(links)))
    glinks = []
    for _ in range(draw(st.integers(2, 3)) if multi else 1):
        if glinks and draw(st.booleans()):
            glinks.append(draw(st.sampled_from(glinks)))
            continue
        g = draw(st.sampled_from(links))
        co, rv = draw(gen.isos(dim))
        glinks.append(ref.act_link(co, rv, g))
    return {'dim': dim, 'div': div, 'links': [ref.link_str(l) for l in links],
            'glinks': None if draw(st.integers(0, 4)) == 0 else [ref.link_str(g) for g in glinks],
            'max_cdist': draw(st.sampled_from([None, None, None, 1, 2])), 'limits': draw(LIMITS)}


def classes(dim, div, glink, paths):
    """path -> class representative under the isometries that keep the link"""
    stab = [(co, rv) for co in ref.all_coords(dim) for rv in (False, True) if ref.act_link(co, rv, glink) == glink]
    full = set(paths)
    rep = {}
    for p in paths:
        if p in rep:
            continue
        orbit = {tuple(gen.map_path(co, rv, div, p)) for co, rv in stab}
        assert orbit <= full
        for o in orbit:
            rep[o] = p
    return rep, len(stab)


def check(case):
    from peano.paths import PathsGenerator
    dim, div = case['dim'], case['div']
    links = [ref.parse_link(t) for t in case['links']]
    gl = [ref.parse_link(t) for t in case['glinks']] if case['glinks'] else links
    clos = ref.link_closure(links)
    reps, sizes = [], []
    cache = {}
    for g in gl:
        if g not in cache:
            w = ref_set(dim, div, g, clos, case['max_cdist'], 30000)
            if w is None:
                return ['capped']
            cache[g] = classes(dim, div, g, w)
        reps.append(cache[g][0])
        sizes.append(cache[g][1])
    pg = PathsGenerator(dim, div, [conv.link(l) for l in links], **({} if case['max_cdist'] is None else {'max_cdist': case['max_cdist']}))
    kw = case['limits']
    lab = ['mult%d' % len(gl), 'dim%d' % dim]
    for g, rep in zip(gl, reps):
        got = [tuple(conv.from_path(p)) for p in pg.generate_paths_generic(link=conv.link(g), std=True, **kw)]
        require(all(p in rep for p in got), 'std: a path outside of the full set')
        if got:
            par = got[len(got) // 2]
            one = [tuple(conv.from_path(p)) for p in pg.generate_paths_generic(parent=conv.path(dim, div, par), std=True, **kw)]
            same(one, [par], 'std, pointed parent')
        cnt = Counter(rep[p] for p in got)
        require(all(v == 1 for v in cnt.values()), 'std: a symmetry class is represented more than once (link %s)', ref.link_str(g))
        same(set(cnt), set(rep.values()), 'std: classes represented (link %s)' % ref.link_str(g))
    # number of tuples: product over distinct links of multisets
    import math
    total = 1
    for g, m in Counter(gl).items():
        n = len(set(cache[g][0].values()))
        total *= math.comb(n + m - 1, m)
    if total > 4000:
        return lab + ['big']
    arg = {} if case['glinks'] is None else {'links': [conv.link(g) for g in gl]}
    got = [tuple(tuple(conv.from_path(p)) for p in t) for t in pg.generate_paths(std=True, **arg, **kw)]
    seen = set()
    for t in got:
        same(len(t), len(gl), 'tuple length')
        key = {}
        for g, rep, p in zip(gl, reps, t):
            require(p in rep, 'std tuple: a path outside of the full set of its link')
            key.setdefault(g, []).append(rep[p])
        key = tuple(sorted((g, tuple(sorted(v))) for g, v in key.items()))
        require(key not in seen, 'std: a combination of classes occurs twice')
        seen.add(key)
    same(len(seen), total, 'std: number of combinations of classes')
    if total and (len(gl) > 1 or max(sizes) > 1):
        lab.append('nontrivial')
    if max(sizes) > 1:
        lab.append('symmetric')
    if len(set(gl)) < len(gl):
        lab.append('equal-links')
    return lab


# ---------------------------------------------------------------- links that are sets, parents

def act_fpath(co, rv, div, path):
    out = []
    for c, (a, b) in path:
        a, b = sets.act_facet(co, a), sets.act_facet(co, b)
        out.append((ref.act_cube(co, div, c), (b, a) if rv else (a, b)))
    return tuple(out[::-1] if rv else out)


def check_sets(case):
    from peano.paths import Path, PathsGenerator, Proto
    dim, div = case['dim'], case['div']
    links = [tuple(sets.from_case(s) for s in l) for l in case['links']]
    gl = tuple(sets.from_case(s) for s in case['glink'])
    clos = facet_closure(links, dim)
    want = facet_link_set(case, clos, gl)
    if want is None:
        return ['capped']
    isos = [(co, rv) for co in ref.all_coords(dim) for rv in (False, True)]
    pg = PathsGenerator(dim, div, [sets.real_link(l) for l in links], **({} if case['max_cdist'] is None else {'max_cdist': case['max_cdist']}))
    kw = case['limits'][0]
    lab = ['sets', 'dim%d' % dim]

    def compare(got, full, stab, what):
        keys = {path_key(p) for p in full}
        require(set(got) <= keys, '%s: a path outside of the full set', what)
        require(len(set(got)) == len(got), '%s: a path occurs twice', what)
        got = set(got)
        for p in full:
            orbit = {path_key(act_fpath(co, rv, div, p)) for co, rv in stab}
            require(orbit & got, '%s: the class of %s is not represented', what, path_key(p))
        if len(full) > 1 and len(stab) > 1:
            lab.append('nontrivial')
    act = lambda co, rv, l: tuple(sets.act_facet(co, s) for s in (l[::-1] if rv else l))
    stab = [i for i in isos if act(*i, gl) == gl]
    compare([real_key(p) for p in pg.generate_paths_generic(link=sets.real_link(gl), std=True, **kw)], want, stab, 'std, set link')
    if not want:
        return lab
    # parents: a random one, and one whose prototype has a symmetry (if there is such a path), cut down to facets
    protos = [[c for c, _ in p] for p in want]
    symm = [n for n, pc in enumerate(protos) if any([ref.act_cube(co, div, c) for c in (pc[::-1] if rv else pc)] == pc for co, rv in isos[1:])]
    for cand, coarse in [(range(len(want)), case['coarse']), (symm, [2] * 16)]:
        if not cand:
            continue
        base = want[cand[case['parent'] % len(cand)]]
        plinks, pc = coarser(dict(case, coarse=coarse), base), [c for c, _ in base]
        w2 = facet_parent_set(case, clos, pc, plinks)
        if w2 is None:
            continue
        pp = tuple(zip(pc, plinks))
        stab = [(co, rv) for co, rv in isos if act_fpath(co, rv, div, pp) == pp]
        parent = Path(Proto(dim, div, pc), [sets.real_link(l) for l in plinks])
        compare([real_key(p) for p in pg.generate_paths_generic(parent=parent, std=True, **kw)], w2, stab, 'std, parent')
        got = list(pg.generate_paths(parents=[parent], std=True, **kw))
        require(all(len(t) == 1 for t in got), 'std, parents: tuple length')
        compare([real_key(t[0]) for t in got], w2, stab, 'std, generate_paths with a parent')
        if len(w2) > 1:
            lab.append('branching-parent')
        if len(stab) > 1:
            lab.append('symmetric-parent')
    return sorted(set(lab))


TARGETS = [Target('std', lambda tier: cases(), check, 2000, 16000, shards=8),
           Target('sets', lambda tier: facet_cases(), check_sets, 2000, 16000, shards=8)]
