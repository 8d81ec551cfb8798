"""C12: junction templates."""
import itertools

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C12'
RULE = ('Cases: a class of curves (pointed prototypes, possibly partially specified or transformed) and up to 12 members picked by the generator (all members if there are few); '
        'every junction of the class against every member; non-trivial: some junction occurs in one member and not in another.')
ASSUMPTIONS = ['agreement with a template means equality at every position where the template is specified']


def key_of(j):
    with output('junction'):
        return ref.junction_key(conv.from_spec(j.spec1), conv.from_spec(j.spec2), tuple(int(v) for v in j.delta_x))


@st.composite
def cases(draw):
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=16, max_dim=3, max_gates=3), max_extra=1, max_mult=2))
    links = tuple(gen.path_link(div, p) for p in paths)
    G, mult = div ** dim, len(paths)
    opts = [[gen.specs_for(links, (e, x)) for _, e, x in p] for p in paths]
    # the templates enumerate products of the gate specs: keep the product small by specifying some of them
    defined = {}
    budget = 600 if mult == 1 else 200
    order = draw(st.permutations([(p, c) for p in range(mult) for c in (0, G - 1)]))

    def size():
        r = 1
        for p in range(mult):
            for c in (0, G - 1):
                r *= 1 if (p, c) in defined else len(opts[p][c])
        mid = sum((1 if (p, c) in defined else len(opts[p][c])) * (1 if (p, c + 1) in defined else len(opts[p][c + 1])) for p in range(mult) for c in range(G - 1))
        return r * mid
    pend = list(order) + draw(st.permutations([(p, c) for p in range(mult) for c in range(1, G - 1)]))
    keep = draw(st.integers(0, 2 * mult))
    first = pend[:keep]
    for p, c in first:
        defined[p, c] = draw(st.integers(0, len(opts[p][c]) - 1))
    for p, c in pend[keep:]:
        if size() <= budget * 4:
            break
        defined[p, c] = draw(st.integers(0, len(opts[p][c]) - 1))
    case = gen.paths_to_case(dim, div, paths)
    case['defined'] = sorted([p, c, n] for (p, c), n in defined.items())
    free = [(p, c) for p in range(mult) for c in range(G) if (p, c) not in defined]
    case['members'] = [[draw(st.integers(0, len(opts[p][c]) - 1)) for p, c in free] for _ in range(draw(st.integers(2, 8)))]
    case['iso'] = draw(st.one_of(st.none(), gen.iso_texts(dim)))
    return case


def check(case):
    from peano.curves import Curve, PathFuzzyCurve
    dim, div, paths = gen.paths_from_case(case)
    G, mult = div ** dim, len(paths)
    links = tuple(gen.path_link(div, p) for p in paths)
    opts = [[gen.specs_for(links, (e, x)) for _, e, x in p] for p in paths]
    fz = PathFuzzyCurve.init_from_paths([conv.path(dim, div, p) for p in paths])
    defined = {}
    for p, c, n in case['defined']:
        defined[p, c] = opts[p][c][n % len(opts[p][c])]
        fz = fz.specify(p, c, conv.spec(defined[p, c]))
    free = [(p, c) for p in range(mult) for c in range(G) if (p, c) not in defined]
    total = 1
    for p, c in free:
        total *= len(opts[p][c])
    if total <= 24:
        picks = list(itertools.product(*[range(len(opts[p][c])) for p, c in free]))
    else:
        picks = case['members']
    members = []
    for pk in picks:
        val = dict(defined)
        for (p, c), n in zip(free, pk):
            val[p, c] = opts[p][c][n % len(opts[p][c])]
        members.append(ref.RCurve(dim, div, [([x[0] for x in paths[p]], [val[p, c] for c in range(G)]) for p in range(mult)]))
    if case['iso']:
        co, rv = ref.parse_iso(case['iso'])
        fz = conv.bm(co, rv) * fz
        members = [m.transformed(co, rv) for m in members]
    templates = fz.get_junction_templates()
    table = []
    with output('templates'):
        for j, curves in templates.items():
            table.append((key_of(j), [{(int(p), int(c)): conv.from_spec(s) for p, c, s in t.gen_defined_specs()} for t in curves], j))
        require(all(tl for _, tl, _ in table), 'junction without templates')
        same(sorted(map(str, fz.gen_regular_junctions())), sorted(str(j) for j in templates), 'gen_regular_junctions of the class')
    nt = set()
    have_all = []
    for m in members:
        have = {ref.junction_key(*j) for _, j in m.level_junctions()}
        have_all.append(have)
        by = {}
        for k, tl, j in table:
            agrees = any(all(m.patterns[p][1][c] == s for (p, c), s in t.items()) for t in tl)
            if agrees:
                require(k in have, 'a curve agrees with a template of junction %s but does not have it', j)
            by[k] = by.get(k, False) or agrees
            nt.add((k, k in have))
        for k in have:
            require(k in by, 'a curve of the class has a junction that is not listed: %s', k)
            require(by[k], 'a curve has a junction but agrees with none of its templates: %s', k)
        # per-form exactness against the member's own listing
        own = set(conv.curve(m).gen_regular_junctions())
        for k, tl, j in table:
            agrees = any(all(m.patterns[p][1][c] == s for (p, c), s in t.items()) for t in tl)
            same(j in own, agrees, 'junction %s in the listing of the member, agreement with a template' % j)
    if total <= 24:
        union = set().union(*have_all)
        same({k for k, _, _ in table}, union, 'possible junctions of the class and the union over its members')
    mixed = {k for k, b in nt if b} & {k for k, b in nt if not b}
    lab = ['mult%d' % mult, 'dim%d' % dim]
    if mixed:
        lab.append('nontrivial')
    if total <= 24:
        lab.append('all-members')
    return lab


TARGETS = [Target('templates', lambda tier: cases(), check, 5000, 50000, shards=8)]
