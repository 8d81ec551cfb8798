"""C25: immutable values with exact equality."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv, sets
from lib.engine import Target, require, same, output

PROPERTY = 'C25'
RULE = ('Cases (equality): groups of 2 to 4 objects of one kind, each a rebuilt copy, a copy with one datum changed or an independent one, built in different ways; ==, !=, hash, set membership and < are compared with the data. '
        'Cases (immutability): a history of operations on a curve, class of curves, path, link or prototype; the data of every operand are read again after each step and repeated queries must agree; '
        'non-trivial: the group contains different objects of the same shape, or the history has at least three operations.')
ASSUMPTIONS = ['prototypes list all cubes of the grid, so the cubes determine dimension and division',
               'order among different objects is only required to be a strict total order']


# ------------------------------------------------------------------ data of the kinds (JSON) and builders

def mutate_curve(draw, rc):
    pats = [(list(c), list(s)) for c, s in rc.patterns]
    pnum = rc.pnum
    p = draw(st.integers(0, rc.mult - 1))
    i = draw(st.integers(0, rc.genus - 1))
    k = draw(st.sampled_from(['map', 'rev', 'pnum', 'cubes', 'specs', 'cur', 'dup', 'reorder', 'reverse']))
    co, rv, q = pats[p][1][i]
    if k == 'map':
        pats[p][1][i] = (draw(gen.isos(rc.dim))[0], rv, q)
    elif k == 'rev':
        pats[p][1][i] = (co, not rv, q)
    elif k == 'pnum':
        pats[p][1][i] = (co, rv, draw(st.integers(0, rc.mult - 1)))
    elif k == 'cubes':
        j = draw(st.integers(0, rc.genus - 1))
        c = pats[p][0]
        c[i], c[j] = c[j], c[i]
    elif k == 'specs':
        j = draw(st.integers(0, rc.genus - 1))
        s = pats[p][1]
        s[i], s[j] = s[j], s[i]
    elif k == 'cur':
        pnum = draw(st.integers(0, rc.mult - 1))
    elif k == 'dup':
        pats.append(pats[p])
    elif k == 'reorder':
        pats.reverse()
    else:
        pats[p] = (pats[p][0][::-1], pats[p][1])
    return ref.RCurve(rc.dim, rc.div, pats, pnum)


@st.composite
def curve_group(draw):
    base = draw(gen.wild_curves(max_dim=3, max_genus=9)) if draw(st.booleans()) else draw(gen.rcurves(gen.pick_pools(max_genus=9, max_dim=3)))
    out = [base]
    for _ in range(draw(st.integers(1, 3))):
        src = draw(st.sampled_from(out))
        k = draw(st.integers(0, 3))
        out.append(src if k == 0 else mutate_curve(draw, src) if k < 3 else draw(gen.wild_curves(max_dim=2, max_genus=4)))
    return {'kind': 'curve', 'items': [c.to_case() for c in out], 'how': [draw(st.integers(0, 9)) for _ in out], 'map': draw(gen.iso_texts(base.dim))}


@st.composite
def tuple_group(draw, kind):
    """kinds made of a few independent fields"""
    dim = draw(st.integers(1, 4))
    iso = gen.iso_texts(dim)
    pt = gen.points(dim).map(ref.point_str)
    small = st.integers(0, 3)
    dx = st.tuples(*[st.integers(-1, 1)] * dim).map(list)
    fields = {
        'basemap': [iso], 'spec': [iso, small], 'point': [pt], 'link': [pt, pt], 'cpoint': [pt, gen.rationals(6).map(str)],
        'junction': [iso, small, iso, small, dx], 'auto': [small],
        'facet': [st.integers(2, 3), st.tuples(st.integers(0, dim - 1), st.integers(0, 1)).map(list),
                  st.lists(st.tuples(*[st.integers(0, 1)] * (dim - 1)).map(list), max_size=3)],
    }[kind]
    base = [draw(f) for f in fields]
    out = [base]
    for _ in range(draw(st.integers(1, 3))):
        src = list(draw(st.sampled_from(out)))
        k = draw(st.integers(0, 3))
        if k == 0:
            pass
        elif k < 3:
            i = draw(st.integers(0, len(fields) - 1))
            src[i] = draw(fields[i])
        elif kind == 'link':
            src = src[::-1]
        out.append(src)
    return {'kind': kind, 'dim': dim, 'items': out, 'how': [draw(st.integers(0, 9)) for _ in out], 'map': draw(iso)}


@st.composite
def path_group(draw):
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=9, max_dim=3), max_extra=1))
    out = list(paths)
    for _ in range(draw(st.integers(1, 3))):
        src = list(draw(st.sampled_from(out)))
        k = draw(st.integers(0, 4))
        i, j = draw(st.integers(0, len(src) - 1)), draw(st.integers(0, len(src) - 1))
        if k == 1:
            c, e, x = src[i]
            src[i] = (c, x, e)
        elif k == 2:
            src[i] = (src[i][0],) + src[j][1:]
        elif k == 3:
            a, b = src[i], src[j]
            src[i], src[j] = (b[0],) + a[1:], (a[0],) + b[1:]
        elif k == 4:
            co, rv = draw(gen.isos(dim))
            src = gen.map_path(co, rv, div, src)
        out.append(src)
    return {'kind': draw(st.sampled_from(['path', 'proto'])), **gen.paths_to_case(dim, div, out), 'how': [draw(st.integers(0, 9)) for _ in out], 'map': draw(gen.iso_texts(dim))}


def groups():
    return st.one_of(curve_group(), curve_group(), path_group(), *[tuple_group(k) for k in ('basemap', 'spec', 'point', 'link', 'cpoint', 'junction', 'auto', 'facet')])


def build(case):
    """[(object, comparable data)]"""
    from peano.base_maps import BaseMap, Spec
    from peano.curves import Curve, CurvePoint, RegularJunction, AutoJunction
    from peano.paths import Path, Proto
    from peano.subsets import Point, Link, FacetDivSubset
    kind = case['kind']
    out = []
    bm = conv.bm_text(case['map'])

    def there_and_back(o, how):
        # an equal object obtained by operations
        if how == 1:
            return bm ** -1 * (bm * o)
        if how == 2 and kind in ('curve', 'path', 'proto', 'link'):
            return ~~o
        return o

    if kind == 'curve':
        for it, how in zip(case['items'], case['how']):
            rc = ref.RCurve.from_case(it)
            c = conv.curve(rc)
            if how in (1, 2) and rc.dim == bm.dim:
                c = there_and_back(c, how)
                if how == 2 and rc.pnum != 0:
                    c = conv.curve(rc) if conv.from_curve(c).pnum != rc.pnum else c
            elif how == 3:
                c = Curve(rc.dim, rc.div, [(Proto(rc.dim, rc.div, [list(x) for x in cubes]), (conv.spec(s) for s in specs)) for cubes, specs in rc.patterns], pnum=rc.pnum)
            elif how == 4:
                c = Curve(rc.dim, rc.div, c.patterns, pnum=rc.pnum)
            out.append((c, conv.data(conv.from_curve(c))))
            same(out[-1][1], conv.data(rc), 'data of a rebuilt curve')
    elif kind in ('path', 'proto'):
        dim, div, paths = gen.paths_from_case(case)
        for p, how in zip(paths, case['how']):
            if kind == 'path':
                o = there_and_back(conv.path(dim, div, p), how)
                same(conv.from_path(o), p, 'data of a rebuilt path')
                out.append((o, tuple(p)))
            else:
                o = there_and_back(Proto(dim, div, [x[0] for x in p]), how)
                same(conv.from_proto(o), [x[0] for x in p], 'data of a rebuilt prototype')
                out.append((o, tuple(x[0] for x in p)))
    else:
        dim = case['dim']
        for it, how in zip(case['items'], case['how']):
            if kind == 'basemap':
                o, d = conv.bm_text(it[0]), ref.parse_iso(it[0])
                if how == 1:
                    o = bm ** -1 * (bm * o)
                elif how == 2:
                    o = BaseMap.parse(str(o))
                elif how == 3:
                    o = BaseMap([list(x) if False else x for x in o.coords], 1 if o.time_rev else 0)
            elif kind == 'spec':
                o, d = Spec(conv.bm_text(it[0]), it[1]), (ref.parse_iso(it[0]), it[1])
                if how == 1:
                    o = bm ** -1 * (bm * o)
                elif how == 2:
                    o = Spec(base_map=conv.bm_text(it[0]), pnum=it[1])
            elif kind == 'point':
                o, d = conv.point(ref.parse_point(it[0])), ref.parse_point(it[0])
                o = there_and_back(o, how) if not bm.time_rev else o
                if how == 3:
                    o = Point.parse(it[0])
            elif kind == 'link':
                d = (ref.parse_point(it[0]), ref.parse_point(it[1]))
                o = there_and_back(conv.link(d), how)
                if how == 3:
                    o = Link.parse_gates(it[0] + '->' + it[1])
            elif kind == 'cpoint':
                d = (ref.parse_point(it[0]), F(it[1]))
                o = CurvePoint(x=conv.point(d[0]), t=conv.q(d[1]))
                if how == 1:
                    o = bm ** -1 * (bm * o)
            elif kind == 'junction':
                s1, s2 = Spec(conv.bm_text(it[0]), it[1]), Spec(conv.bm_text(it[2]), it[3])
                o = RegularJunction(s1, s2, tuple(it[4]), depth=how)
                if how == 1:
                    o = RegularJunction(o.spec1, o.spec2, o.delta_x)
                d = (conv.from_spec(o.spec1), conv.from_spec(o.spec2), tuple(int(x) for x in o.delta_x), int(o.delta_t))
            elif kind == 'auto':
                o, d = AutoJunction(dim=dim, pnum=it[0]), it[0]
            elif kind == 'facet':
                o = FacetDivSubset(dim, it[0], tuple(it[1]), [tuple(c) for c in it[2]])
                if how == 1:
                    o = bm ** -1 * (bm * o)
                elif how == 2:
                    o = FacetDivSubset(dim=dim, div=it[0], facet=list(it[1]), cubes=iter(it[2]))
                d = (it[0], tuple(it[1]), tuple(tuple(c) for c in it[2]))
            out.append((o, d))
    return out


ORDERED = ('point', 'link', 'path', 'cpoint', 'facet')


def check_groups(case):
    kind = case['kind']
    objs = build(case)
    lab = {kind}
    for (a, da), (b, db) in itertools.product(objs, repeat=2):
        eq = da == db
        same(bool(a == b), eq, '%s: %s == %s' % (kind, a, b))
        same(bool(a != b), not eq, '%s: %s != %s' % (kind, a, b))
        if eq:
            require(hash(a) == hash(b), '%s: equal objects have different hashes: %s', kind, a)
        else:
            lab.add('nontrivial')
    with output('set'):
        n = len({o for o, _ in objs})
    same(n, len({d for _, d in objs}), '%s: size of the set of objects' % kind)
    table = {o: d for o, d in objs}
    for o, d in objs:
        same(table[o], d, '%s: dictionary lookup' % kind)
    if kind in ORDERED:
        for (a, da), (b, db) in itertools.product(objs, repeat=2):
            lt, gt = bool(a < b), bool(b < a)
            require(lt + gt == (da != db), '%s: %s < %s is %s, the converse is %s', kind, a, b, lt, gt)
        for (a, _), (b, _), (c, _) in itertools.product(objs, repeat=3):
            if a < b and b < c:
                require(a < c, '%s: the order is not transitive', kind)
        lists = [[d for _, d in sorted(perm, key=lambda x: x[0])] for perm in itertools.permutations(objs)]
        require(all(l == lists[0] for l in lists), '%s: sorting depends on the initial order', kind)
        lab.add('ordered')
    return sorted(lab)


# ------------------------------------------------------------------ immutability

CURVE_OPS = ['map', 'inv', 'sub', 'entrance', 'exit', 'forget', 'juncs', 'moments', 'face', 'depth', 'check', 'paths', 'estimate', 'specmul', 'str', 'deep', 'eq', 'templates', 'possible']
FUZZY_OPS = ['map', 'inv', 'specify', 'example', 'possible', 'count', 'templates', 'allowed', 'estimate', 'sat']


@st.composite
def histories(draw):
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=9, max_dim=3), max_mult=3))
    ops = [{'op': draw(st.sampled_from(CURVE_OPS)), 'f': draw(st.sampled_from(FUZZY_OPS)), 'map': draw(gen.iso_texts(rc.dim)), 'n': draw(st.integers(0, 1000)), 'on': draw(st.integers(0, 5))}
           for _ in range(draw(st.integers(1, 12)))]
    return {'curve': rc.to_case(), 'ops': ops}


def fuzzy_data(fz):
    with output('fuzzy curve'):
        pats = []
        for p, pat in enumerate(fz.patterns):
            specs = tuple(None if s is None else conv.from_spec(s) for s in pat.specs)
            allowed = tuple(frozenset(conv.from_spec(s) for s in fz.gen_allowed_specs(p, c)) for c in range(fz.genus))
            pats.append((tuple(conv.from_proto(pat.proto)), specs, allowed))
        return tuple(pats), fz.pnum, fz.dim, fz.div


def curve_op(c, rc, op):
    """returns (comparable answer or None, new object or None)"""
    from peano.base_maps import Spec
    k, n = op['op'], op['n']
    p = n % rc.mult
    if k == 'map':
        r = conv.bm_text(op['map']) * c
        return conv.data(conv.from_curve(r)), r
    if k == 'inv':
        r = ~c
        return conv.data(conv.from_curve(r)), r
    if k == 'specmul':
        r = Spec(conv.bm_text(op['map']), p) * c
        return conv.data(conv.from_curve(r)), r
    if k == 'sub':
        if rc.genus > 9:
            return None, None
        r = c.get_subdivision(1)
        return conv.data(conv.from_curve(r)), r
    if k == 'entrance':
        return conv.from_point(c.get_entrance(p)), None
    if k == 'exit':
        return conv.from_point(c.get_exit(p)), None
    if k == 'forget':
        return fuzzy_data(c.forget()), None
    if k == 'juncs':
        return frozenset(str(j) for j in c.gen_regular_junctions()), None
    if k == 'moments':
        return sorted((v, conv.f(t)) for v, t in c.get_vertex_moments(p).items()), None
    if k == 'face':
        face = tuple([None, 0, 1][(n >> (2 * j)) % 3] for j in range(rc.dim))
        if all(x is None for x in face):
            face = (0,) + face[1:]
        return conv.f(c.get_face_moment(face, pnum=p, last=bool(n % 2))), None
    if k == 'depth':
        return c.get_depth(), None
    if k == 'check':
        c.check()
        return None, None
    if k == 'paths':
        return [conv.from_path(x) for x in c.get_paths()], None
    if k == 'estimate':
        if rc.genus > 9:
            return None, None
        from peano.dilation import Estimator
        from peano.utils import ratio_linf
        r = Estimator(ratio_linf).estimate_dilation_regular(c, rel_tol_inv=1, max_iter=5)
        return (r['lo'], r['up']), None
    if k == 'str':
        return str(c), None
    if k == 'deep':
        cn = [n % rc.genus, (n // 7) % rc.genus]
        return conv.from_spec(c.get_deep_spec(p, cn)), None
    if k == 'eq':
        return (c == conv.curve(rc), hash(c) == hash(conv.curve(rc))), None
    if k == 'templates':
        if rc.genus > 9:
            return None, None
        fz = c.forget()
        d0 = fuzzy_data(fz)
        t = fz.get_junction_templates() if rc.mult == 1 and rc.genus <= 4 else {}
        keys = frozenset(str(j) for j in t)
        same(fuzzy_data(fz), d0, 'class of curves after its junction templates')
        return keys, None
    if k == 'possible':
        return [conv.data(conv.from_curve(x)) for x in itertools.islice(c.gen_possible_curves(), 3)], None
    raise AssertionError(k)


def check_curves(case):
    rc0 = ref.RCurve.from_case(case['curve'])
    objs = [(conv.curve(rc0), rc0)]
    lab = set()
    hashes = [hash(objs[0][0])]
    for step, op in enumerate(case['ops']):
        c, rc = objs[op['on'] % len(objs)]
        ans, new = curve_op(c, rc, op)
        fresh, _ = curve_op(conv.curve(rc), rc, op)
        same(ans, fresh, 'step %d: %s on a used curve and on a fresh one' % (step, op['op']))
        for i, (o, r) in enumerate(objs):
            same(conv.data(conv.from_curve(o)), conv.data(r), 'curve %d after %s' % (i, op['op']))
            same((o.dim, o.div, o.mult, o.genus), (r.dim, r.div, r.mult, r.genus), 'attributes of curve %d after %s' % (i, op['op']))
            require(hash(o) == hashes[i], 'hash of curve %d changed after %s', i, op['op'])
        if new is not None and len(objs) < 4:
            objs.append((new, conv.from_curve(new)))
            hashes.append(hash(new))
        lab.add(op['op'])
    if len(case['ops']) >= 3:
        lab.add('nontrivial')
    return sorted(lab)


def check_fuzzy(case):
    rc = ref.RCurve.from_case(case['curve'])
    c = conv.curve(rc)
    fz = c.forget()
    objs = [(fz, fuzzy_data(fz))]
    lab = set()
    for step, op in enumerate(case['ops']):
        f, d = objs[op['on'] % len(objs)]
        k, n = op['f'], op['n']
        new = None
        if k == 'map':
            new = conv.bm_text(op['map']) * f
        elif k == 'inv':
            new = ~f
        elif k == 'specify':
            p, cn = n % f.mult, (n // 3) % f.genus
            al = sorted(d[0][p][2][cn])
            new = f.specify(p, cn, conv.spec(al[n % len(al)]))
        elif k == 'example':
            f.get_curve_example()
        elif k == 'possible':
            for x in itertools.islice(f.gen_possible_curves(), 4):
                pass
        elif k == 'count':
            f.count_possible_curves()
        elif k == 'templates':
            if f.mult == 1 and f.genus <= 8:
                f.get_junction_templates()
        elif k == 'allowed':
            list(f.gen_allowed_specs(n % f.mult, n % f.genus))
            list(f.gen_defined_specs())
        elif k == 'estimate':
            if f.genus <= 4 and f.mult == 1:
                from peano.dilation import Estimator
                from peano.utils import ratio_l1
                Estimator(ratio_l1).estimate_dilation_fuzzy(f, rel_tol_inv=2, max_iter=30)
        elif k == 'sat':
            if f.mult == 1 and f.genus <= 8:
                from peano._sat_adapters import CurveSATAdapter
                ad = CurveSATAdapter(curve=f)
                ad.add_forbid_clause(next(iter(f.gen_auto_junctions())), f.get_curve_example())
                if ad.solve():
                    ad.get_model_curve()
        for i, (o, dd) in enumerate(objs):
            same(fuzzy_data(o), dd, 'class %d after %s' % (i, k))
        same(conv.data(conv.from_curve(c)), conv.data(rc), 'the original curve after %s' % k)
        if new is not None and len(objs) < 5:
            objs.append((new, fuzzy_data(new)))
        lab.add(k)
    if len(case['ops']) >= 3:
        lab.add('nontrivial')
    return sorted(lab)


@st.composite
def path_histories(draw):
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=9, max_dim=3), max_extra=0))
    ops = [{'op': draw(st.sampled_from(['map', 'inv', 'std', 'cont', 'neigh', 'divide', 'argmul', 'generate', 'point', 'str'])), 'map': draw(gen.iso_texts(dim)), 'n': draw(st.integers(0, 1000))}
           for _ in range(draw(st.integers(1, 12)))]
    return {**gen.paths_to_case(dim, div, paths), 'ops': ops}


def check_paths(case):
    from peano.paths import PathsGenerator
    dim, div, paths = gen.paths_from_case(case)
    objs = [conv.path(dim, div, p) for p in paths]
    lab = set()
    for op in case['ops']:
        n = op['n']
        o = objs[n % len(objs)]
        l = o.links[n % len(o.links)]
        b = conv.bm_text(op['map'])
        k = op['op']
        if k == 'map':
            b * o, b * l, b * o.proto
        elif k == 'inv':
            ~o, ~l, ~o.proto
        elif k == 'std':
            l.std(), o.link.std(), l.entrance.std()
        elif k == 'cont':
            o.is_continuous()
        elif k == 'neigh':
            list(l.exit.gen_neighbours())
        elif k == 'divide':
            list(o.link.entrance.divide(div))
        elif k == 'argmul':
            list(l.argmul_intersect(o.link)), list(l.entrance.argstd())
        elif k == 'generate':
            if len(objs) == 1 and o.proto.div ** dim <= 4:
                list(itertools.islice(PathsGenerator(dim, div, [x.link for x in objs]).generate_paths(), 3))
        elif k == 'point':
            l.entrance.transform(shift=[1] * dim), l.transform(scale=conv.q(F(1, 2))), l.exit.map_to_cube(div, o.proto[0])
        else:
            str(l), str(o.proto), str(b)
        for i, (x, p) in enumerate(zip(objs, paths)):
            same(conv.from_path(x), list(p), 'path %d after %s' % (i, k))
            require(x == conv.path(dim, div, p) and hash(x) == hash(conv.path(dim, div, p)), 'path %d differs from a fresh one after %s', i, k)
            same(conv.from_link(x.link), gen.path_link(div, p), 'link of path %d after %s' % (i, k))
        same(conv.from_bm(b), ref.parse_iso(op['map']), 'base map after %s' % k)
        lab.add(k)
    if len(case['ops']) >= 3:
        lab.add('nontrivial')
    return sorted(lab)


TARGETS = [Target('equality', lambda tier: groups(), check_groups, 20000, 150000, shards=4),
           Target('curves', lambda tier: histories(), check_curves, 3000, 12000, shards=3),
           Target('classes', lambda tier: histories(), check_fuzzy, 1800, 6000, shards=2),
           Target('paths', lambda tier: path_histories(), check_paths, 2000, 8000, shards=1)]
