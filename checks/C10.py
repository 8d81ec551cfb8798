"""C10: regular junctions."""
from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C10'
RULE = ('Cases: a continuous curve (dim 1..5, mult 1..5), also transformed and subdivided presentations; all junctions and depths compared; '
        'non-trivial: some junction first appears at level >= 2.')
ASSUMPTIONS = ['a junction that reads the same after exchanging its fractions with time reversal may be listed in either of its two standard forms or in both; depth may be counted with or without this identification']


@st.composite
def cases(draw):
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=32, max_dim=5)))
    return {'curve': rc.to_case(), 'iso': draw(gen.iso_texts(rc.dim)), 'sub': draw(st.integers(0, 1)) if rc.genus <= 9 else 0}


def key_of(j):
    with output('junction'):
        o1, o2 = conv.from_spec(j.spec1), conv.from_spec(j.spec2)
        dx = tuple(int(v) for v in j.delta_x)
        same([int(v) for v in dx], [int(v) for v in j.delta_x], 'delta_x')
        same(int(j.delta_t), 1, 'delta_t of a regular junction')
        return ref.junction_key(o1, o2, dx), ref.junction_rep(o1, o2, dx)


def std_rep(o1, o2, dx):
    """the documented standard form: pnum1 <= pnum2, first cube map is the identity"""
    if o1[2] > o2[2] or (o1[2] == o2[2] and o1[1] and o2[1]):
        o1, o2, dx = (o2[0], not o2[1], o2[2]), (o1[0], not o1[1], o1[2]), tuple(-v for v in dx)
    return ref.junction_rep(o1, o2, dx)


def std_levels(r):
    """level of first occurrence of every standard form when each form is derived from standard forms"""
    cur = []
    for p in range(r.mult):
        ch = r.children(ref.ident(r.dim), False, p)
        for a, b in zip(ch, ch[1:]):
            cur.append(std_rep(a[1:], b[1:], tuple(y - x for x, y in zip(a[0], b[0]))))
    level, out = 1, {}
    while cur:
        nxt = []
        for j in cur:
            if j in out:
                continue
            out[j] = level
            a, b = r.children(*j[0])[-1], r.children(*j[1])[0]
            nxt.append(std_rep(a[1:], b[1:], tuple(cb + d * r.div - ca for ca, cb, d in zip(a[0], b[0], j[2]))))
        cur = nxt
        level += 1
    return out


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    co, rv = ref.parse_iso(case['iso'])
    labels = set()
    variants = [('curve', rc, conv.curve(rc)), ('image', rc.transformed(co, rv), conv.bm(co, rv) * conv.curve(rc))]
    if case['sub']:
        sub = conv.curve(rc).get_subdivision()
        variants.append(('subdivision', conv.from_curve(sub), sub))
    for name, r, c in variants:
        want = {}
        for level, (o1, o2, dx) in r.level_junctions():
            k = ref.junction_key(o1, o2, dx)
            want[k] = min(want.get(k, level), level)
        reps = std_levels(r)
        # the reference itself against plain enumeration of adjacent fractions of a deeper subdivision
        if name == 'curve' and r.genus ** 2 <= 256:
            for p in range(r.mult):
                fr = r.fractions(p, 2)
                for a, b in zip(fr, fr[1:]):
                    assert ref.junction_key(a[1:], b[1:], tuple(y - x for x, y in zip(a[0], b[0]))) in want
        juncs = list(c.gen_regular_junctions())
        require(len(set(juncs)) == len(juncs), '%s: a junction is listed twice', name)
        got = {}
        for j in juncs:
            k, rep = key_of(j)
            require(rep[0][0] == ref.ident(r.dim) and conv.from_spec(j.spec1)[0] == ref.ident(r.dim), '%s: first cube map of a junction is not the identity', name)
            require(conv.from_spec(j.spec1)[2] <= conv.from_spec(j.spec2)[2], '%s: junction pattern order', name)
            require(k in want, '%s: listed junction does not occur: %s', name, j)
            ok = {want[k], reps.get(rep, want[k])}
            require(j.depth in ok, '%s: junction %s appears at level %s, listed depth %s', name, j, sorted(ok), j.depth)
            got.setdefault(k, []).append(j)
        missing = [k for k in want if k not in got]
        require(not missing, '%s: junction is not listed: %s', name, missing[:1])
        for k, js in got.items():
            require(len(js) <= 2, '%s: one junction in more than two forms', name)
            same(min(j.depth for j in js), want[k], '%s: first level of a junction' % name)
        same(c.get_depth() in {max(want.values()), max(reps.values())}, True, '%s: get_depth %s, expected %d' % (name, c.get_depth(), max(want.values())))
        autos = list(c.gen_auto_junctions())
        with output('auto junctions'):
            same(sorted((conv.from_spec(j.spec1), conv.from_spec(j.spec2), tuple(int(v) for v in j.delta_x), int(j.delta_t)) for j in autos),
                 sorted(((ref.ident(r.dim), False, p),) * 2 + ((0,) * r.dim, 0) for p in range(r.mult)), 'auto junctions')
        if max(want.values()) > 1:
            labels.add('nontrivial')
        labels.add('depth%d' % min(max(want.values()), 6))
        if len(juncs) > len(want):
            labels.add('double-form')
    return sorted(labels) + ['mult%d' % rc.mult, 'dim%d' % rc.dim]


TARGETS = [Target('junctions', lambda tier: cases(), check, 2500, 16000, shards=8)]
