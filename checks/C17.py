"""C17: SAT encoding."""
import itertools

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C17'
RULE = ('Cases: a class with at most 400 members (pointed prototypes with some specs fixed) and a history of operations: forbid (junction, partial curve), forbid part of the current model, solve, copy an adapter; '
        'after every solve the answer is compared with brute force over all members; non-trivial: some solve had to exclude members and members remained, or the answer became "no model".')
ASSUMPTIONS = ['an adapter is copied before its first solve, as its code demands; which members have a junction is taken from their own junction listing (C10)']


@st.composite
def cases(draw):
    dim, div, paths = draw(gen.rpaths(gen.pick_pools(max_genus=9, max_dim=3, max_gates=3), max_extra=1, max_mult=3))
    links = tuple(gen.path_link(div, p) for p in paths)
    G, mult = div ** dim, len(paths)
    opts = [[gen.specs_for(links, (e, x)) for _, e, x in p] for p in paths]
    pos = [(p, c) for p in range(mult) for c in range(G)]
    order = draw(st.permutations(pos))
    limit = draw(st.sampled_from([4, 30, 120, 400]))
    defined, total = [], 1
    for p, c in order:
        n = len(opts[p][c])
        if total * n <= limit:
            total *= n
        else:
            defined.append([p, c, draw(st.integers(0, n - 1))])
    case = gen.paths_to_case(dim, div, paths)
    case['defined'] = sorted(defined)
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['forbid', 'forbid', 'model', 'model', 'model', 'solve', 'copy']))
        op = {'op': k, 'a': draw(st.integers(0, 3)), 'j': draw(st.integers(0, 10 ** 6)), 'auto': draw(st.integers(0, 4)) == 0}
        if k in ('forbid', 'model'):
            op['pos'] = draw(st.lists(st.integers(0, 10 ** 6), max_size=3))
            op['all'] = draw(st.integers(0, 5)) == 0
            op['n'] = draw(st.integers(0, 10 ** 6))
        ops.append(op)
    case['ops'] = ops
    return case


def check(case):
    from peano._sat_adapters import CurveSATAdapter
    from peano.curves import PathFuzzyCurve
    dim, div, paths = gen.paths_from_case(case)
    G, mult = div ** dim, len(paths)
    links = tuple(gen.path_link(div, p) for p in paths)
    opts = [[gen.specs_for(links, (e, x)) for _, e, x in p] for p in paths]
    fz0 = PathFuzzyCurve.init_from_paths([conv.path(dim, div, p) for p in paths])
    fz = fz0
    defined = {}
    for p, c, n in case['defined']:
        defined[p, c] = opts[p][c][n % len(opts[p][c])]
        fz = fz.specify(p, c, conv.spec(defined[p, c]))
    free = [(p, c) for p in range(mult) for c in range(G) if (p, c) not in defined]
    members = []
    for pk in itertools.product(*[opts[p][c] for p, c in free]):
        val = dict(defined)
        val.update(zip(free, pk))
        rc = ref.RCurve(dim, div, [([x[0] for x in paths[p]], [val[p, c] for c in range(G)]) for p in range(mult)])
        juncs = set(conv.curve(rc).gen_regular_junctions())
        members.append((val, juncs))
    index = {tuple(sorted(v.items())): i for i, (v, _) in enumerate(members)}
    juncs = sorted(set().union(*[j for _, j in members]), key=str)
    autos = list(fz.gen_auto_junctions())
    # adapters with the reference set of remaining members
    adapters = [[CurveSATAdapter(curve=fz), set(range(len(members))), False]]
    lab = {'mult%d' % mult, 'members%d' % (3 if len(members) > 100 else 2 if len(members) > 20 else 1)}

    def sub_curve(positions, val):
        cur = fz
        cond = dict(defined)
        for p, c in positions:
            cond[p, c] = val[p, c]
            cur = cur.specify(p, c, conv.spec(val[p, c]))
        return cur, cond

    def forbid(ad, junc, auto, positions, val):
        cur, cond = sub_curve(positions, val)
        ad[0].add_forbid_clause(junc, cur)
        ad[1] = {i for i in ad[1] if not ((auto or junc in members[i][1]) and all(members[i][0][k] == s for k, s in cond.items()))}

    def solve(ad):
        got = bool(ad[0].solve())
        ad[2] = True
        same(got, bool(ad[1]), 'solver answer; %d of %d members remain' % (len(ad[1]), len(members)))
        if len(ad[1]) < len(members):
            lab.add('nontrivial')
        if not got:
            lab.add('unsat')
            return None
        rc = conv.from_curve(ad[0].get_model_curve())
        for p in range(mult):
            same(rc.patterns[p][0], [x[0] for x in paths[p]], 'prototype of the model curve')
        key = tuple(sorted(((p, c), rc.patterns[p][1][c]) for p in range(mult) for c in range(G)))
        require(key in index, 'model curve is not a member of the class')
        i = index[key]
        require(i in ad[1], 'model curve violates the forbidden configurations')
        return i

    for op in case['ops']:
        ad = adapters[op['a'] % len(adapters)]
        k = op['op']
        if k == 'solve':
            solve(ad)
        elif k == 'copy':
            if ad[2]:
                continue        # only fresh adapters may be copied
            adapters.append([CurveSATAdapter(adapter=ad[0]), set(ad[1]), False])
            lab.add('copy')
        elif k == 'forbid':
            val, own = members[op['n'] % len(members)]
            junc = autos[op['j'] % len(autos)] if op['auto'] or not juncs else juncs[op['j'] % len(juncs)]
            positions = free if op['all'] else [free[x % len(free)] for x in op['pos']] if free else []
            forbid(ad, junc, op['auto'] or not juncs, sorted(set(positions)), val)
        else:
            i = solve(ad)
            if i is None:
                continue
            val, own = members[i]
            own = sorted(own, key=str)
            junc = autos[op['j'] % len(autos)] if op['auto'] else own[op['j'] % len(own)]
            positions = free if op['all'] else [free[x % len(free)] for x in op['pos']] if free else []
            forbid(ad, junc, op['auto'], sorted(set(positions)), val)
    for ad in adapters:
        # run the last adapter states to the end: every remaining member is produced exactly once
        solve(ad)
    ad = adapters[-1]
    for _ in range(12):
        i = solve(ad)
        if i is None:
            break
        forbid(ad, autos[0], True, free, members[i][0])
    return sorted(lab)


TARGETS = [Target('sat', lambda tier: cases(), check, 10000, 80000, shards=8)]
