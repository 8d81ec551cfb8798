"""C11: fuzzy curves as classes."""
import itertools

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output, raises

PROPERTY = 'C11'
RULE = ('Cases: pointed prototypes (dim 1..5, 1..5 patterns), a group of base maps (all, without reversal, generated subgroups), a sequence of operations (specify allowed/forbidden specs, apply base maps or specs, forget a member); '
        'non-trivial: at least two operations changed the class and more than one curve remained at some point, or the group is a proper subgroup.')
ASSUMPTIONS = ['base_maps_group is a group, as documented']


def closure(gens, dim, limit=800):
    e = (ref.ident(dim), False)
    seen = [e]
    known = {e}
    for x in seen:
        for g in gens:
            y = (ref.comp(g[0], x[0]), g[1] ^ x[1])
            if y not in known:
                known.add(y)
                seen.append(y)
                if len(seen) > limit:
                    return None
    return seen


@st.composite
def cases(draw):
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=32, max_dim=5), max_extra=2))
    case = gen.paths_to_case(dim, div, paths)
    mode = draw(st.sampled_from(['all', 'all', 'all', 'derived', 'derived', 'gens', 'space', 'proper'])) if dim <= 4 else 'all'
    case['group'] = mode
    if mode == 'derived':
        # group generated by one admissible map per fraction: the class is not empty
        links = tuple(gen.path_link(div, p) for p in paths)
        gs = set()
        easy = draw(st.booleans())
        for p in paths:
            for _, e, x in p:
                opts = gen.specs_for(links, (e, x))
                if easy:
                    old = [o for o in opts if ref.iso_str(o[0], o[1]) in gs]
                    if old:
                        continue
                o = opts[draw(st.integers(0, len(opts) - 1))]
                gs.add(ref.iso_str(o[0], o[1]))
        case['gens'] = sorted(gs)
    if mode == 'gens':
        case['gens'] = draw(st.lists(gen.iso_texts(dim), max_size=3))
    case['no_rev'] = draw(st.integers(0, 5)) == 0
    ops = []
    for _ in range(draw(st.integers(0, 6 if dim <= 3 else 2))):
        k = draw(st.sampled_from(['specify', 'specify', 'specify', 'image', 'spec-image', 'wrong', 'again', 'forget']))
        op = {'op': k, 'p': draw(st.integers(0, 4)), 'c': draw(st.integers(0, 31)), 'n': draw(st.integers(0, 1000))}
        if k in ('image', 'spec-image'):
            op['iso'] = draw(gen.iso_texts(dim))
        if k == 'wrong':
            op['iso'] = draw(gen.iso_texts(dim))
        ops.append(op)
    case['ops'] = ops
    return case


def allowed_table(links, paths, group):
    """[[sorted allowed specs]]; None if some fraction has no allowed spec"""
    idx = [{} for _ in links]
    for q, gl in enumerate(links):
        for co, rv in group:
            idx[q].setdefault(ref.act_link(co, rv, gl), []).append((co, rv, q))
    res = []
    for p in paths:
        row = []
        for _, e, x in p:
            row.append(sorted(s for t in idx for s in t.get((e, x), ())))
        res.append(row)
    return res


class Model:
    def __init__(self, paths, table, defined):
        self.paths, self.table, self.defined = paths, table, defined

    def allowed(self, p, c):
        return [self.defined[p, c]] if (p, c) in self.defined else self.table[p][c]

    def image(self, co, rv, div):
        ci = ref.inv(co)
        conj = lambda s: (ref.comp(ref.comp(co, s[0]), ci), s[1], s[2])
        paths = [gen.map_path(co, rv, div, p) for p in self.paths]
        n = len(self.paths[0])
        table = [[sorted(conj(s) for s in row) for row in (t[::-1] if rv else t)] for t in self.table]
        defined = {(p, n - 1 - c if rv else c): conj(s) for (p, c), s in self.defined.items()}
        return Model(paths, table, defined)

    def count(self):
        r = 1
        for p, path in enumerate(self.paths):
            for c in range(len(path)):
                r *= len(self.allowed(p, c))
        return r


def compare(m, fz, dim, div, what, full):
    G, mult = div ** dim, len(m.paths)
    same((fz.dim, fz.div, fz.mult, fz.genus), (dim, div, mult, G), '%s: dimensions' % what)
    for p in range(mult):
        with output(what):
            same(conv.from_proto(fz.patterns[p].proto), [c for c, _, _ in m.paths[p]], '%s: prototype %d' % (what, p))
            cs = range(G)
            for c in cs:
                got = [conv.from_spec(s) for s in fz.gen_allowed_specs(p, c)]
                same(sorted(got), m.allowed(p, c), '%s: allowed specs at %d,%d' % (what, p, c))
    with output(what):
        same(sorted((int(p), int(c), conv.from_spec(s)) for p, c, s in fz.gen_defined_specs()),
             sorted((p, c, s) for (p, c), s in m.defined.items()), '%s: defined specs' % what)
        for p in range(mult):
            same([None if s is None else conv.from_spec(s) for s in fz.patterns[p].specs], [m.defined.get((p, c)) for c in range(G)], '%s: specs of pattern %d' % (what, p))
    same(int(fz.count_possible_curves()), m.count(), '%s: number of curves' % what)
    ex = conv.from_curve(fz.get_curve_example())
    for p in range(mult):
        same(ex.patterns[p][0], [c for c, _, _ in m.paths[p]], '%s: prototype of the example' % what)
        for c in range(G):
            require(ex.patterns[p][1][c] in m.allowed(p, c), '%s: example curve has a forbidden spec at %d,%d', what, p, c)
    if m.count() <= 60 or full:
        members = []
        objs = []
        for cur in itertools.islice(fz.gen_possible_curves(), 100):
            rc = conv.from_curve(cur)
            members.append(tuple(tuple(s) for _, s in rc.patterns))
            for p in range(mult):
                same(rc.patterns[p][0], [c for c, _, _ in m.paths[p]], '%s: prototype of a member' % what)
            objs.append((cur, rc))
        if m.count() <= 60:
            want = sorted(tuple(t) for t in itertools.product(*[itertools.product(*[m.allowed(p, c) for c in range(G)]) for p in range(mult)]))
            same(sorted(members), want, '%s: enumerated curves' % what)
        else:
            same(len(set(members)), len(members), '%s: repeated members' % what)
            for mem in members:
                for p in range(mult):
                    require(all(mem[p][c] in m.allowed(p, c) for c in range(G)), '%s: member with a forbidden spec', what)
        for cur, rc in objs[:2]:
            require(rc.is_continuous(), '%s: member is not continuous', what)
            cur.check()
            same([conv.from_path(x) for x in cur.get_paths()], m.paths, '%s: pointed prototypes of a member' % what)
    return ex


def check(case):
    from peano.curves import PathFuzzyCurve
    dim, div, paths = gen.paths_from_case(case)
    G, mult = div ** dim, len(paths)
    links = [gen.path_link(div, p) for p in paths]
    everything = [(co, rv) for co in ref.all_coords(dim) for rv in (False, True)]
    mode = case['group']
    kw = {}
    group = everything
    if mode in ('gens', 'derived'):
        group = closure([ref.parse_iso(t) for t in case['gens']], dim) or everything
    elif mode == 'space':
        group = [g for g in everything if not g[1]]
    elif mode == 'proper':
        group = [g for g in everything if not sum(b for _, b in g[0]) % 2]
    if mode != 'all':
        maps = [conv.bm(*g) for g in group]
        kw['base_maps_group'] = maps if case['ops'] else iter(maps)
    if case['no_rev']:
        kw['disable_time_rev'] = True
        group = [g for g in group if not g[1]]
    table = allowed_table(links, paths, group)
    labels = {'group-' + mode, 'mult%d' % mult, 'dim%d' % dim}
    make = lambda: PathFuzzyCurve.init_from_paths([conv.path(dim, div, p) for p in paths], **kw)
    if any(not row for t in table for row in t):
        require(raises((KeyError, ValueError), make), 'class created although some fraction has no allowed spec')
        return sorted(labels | {'impossible'})
    fz = make()
    m = Model(paths, table, {})
    compare(m, fz, dim, div, 'class', full=not case['ops'])
    changes = 0
    rich = m.count() > 1
    for n, op in enumerate(case['ops']):
        k, p, c = op['op'], op['p'] % mult, op['c'] % G
        before = fz
        what = 'after %s (step %d)' % (k, n)
        if k == 'specify':
            opts = m.allowed(p, c)
            s = opts[op['n'] % len(opts)]
            fz = fz.specify(p, c, conv.spec(s))
            changes += (p, c) not in m.defined
            nm = Model(m.paths, m.table, {**m.defined, (p, c): s})
        elif k == 'again':
            if not m.defined:
                continue
            (p, c), s = sorted(m.defined.items())[op['n'] % len(m.defined)]
            fz = fz.specify(p, c, conv.spec(s))
            nm = m
        elif k == 'wrong':
            co, rv = ref.parse_iso(op['iso'])
            s = (co, rv, op['n'] % mult)
            if s in m.allowed(p, c):
                continue
            require(raises(ValueError, lambda: fz.specify(p, c, conv.spec(s))), 'forbidden spec %s accepted at %d,%d', ref.spec_str(s), p, c)
            nm = m
            labels.add('rejected')
        elif k in ('image', 'spec-image'):
            co, rv = ref.parse_iso(op['iso'])
            b = conv.bm(co, rv)
            if k == 'spec-image':
                from peano.base_maps import Spec
                fz = Spec(b, p) * fz
                same(fz.pnum, p, 'selected pattern')
            else:
                fz = b * fz
            nm = m.image(co, rv, div)
            changes += 1
            labels.add('image')
        else:
            # the class of a member, all base maps again
            mem = next(iter(fz.gen_possible_curves()))
            fz = mem.forget()
            t2 = allowed_table([gen.path_link(div, q) for q in m.paths], m.paths, everything)
            nm = Model(m.paths, t2, {})
            changes += 1
            labels.add('forget')
        compare(m, before, dim, div, 'original ' + what, full=False) if n == 0 else None
        m = nm
        compare(m, fz, dim, div, what, full=n == len(case['ops']) - 1)
        rich = rich or m.count() > 1
    if (changes >= 2 and rich) or (mode != 'all' and len(group) < len(everything)):
        labels.add('nontrivial')
    return sorted(labels)


TARGETS = [Target('class', lambda tier: cases(), check, 2000, 15000, shards=8)]
