"""C23: the search command, end to end."""
import contextlib
import functools
import io
import json
import logging
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, refdil, gen, conv, dil
from lib.engine import REPO, ROOT, Target, Violation, require, same, output

PROPERTY = 'C23'
RULE = ('Cases: gate tuples with independently computed minima (mapped, reversed, permuted; several per run, also tuples without curves), or no gates for small configurations; metric, tolerance, multiplier, '
        'step limit, a-priori upper bound around the minimum, grouping, cache size, finish count; run as function and as script (gates on the command line or in a file); '
        'non-trivial: the run reports bounds that are judged against a known minimum, or its gate list is judged.')
ASSUMPTIONS = ['minima in corpus/minima.json were computed by tools/make_minima.py (own path search, brute force or hill climbing, own dilation), which does not use the code under test; for hill climbing only the upper estimate is used',
               'with an a-priori upper bound below the minimum only the lower bound and the reported curves themselves are judged',
               'printed bounds are read from the "lower bound (float)" / "upper bound (float)" lines, curves from the lines after "Curves:"']
EPS = 1e-9
CALLS = 60000
METRICS = ['l1', 'l2', 'l2_squared', 'linf']


@functools.lru_cache(maxsize=None)
def table():
    with open(os.path.join(ROOT, 'corpus', 'minima.json')) as fh:
        rows = json.load(fh)
    confs, mins = {}, {}
    for r in rows:
        key = (r['dim'], r['div'], tuple(r['gates']))
        confs.setdefault((r['dim'], r['div'], len(r['gates'])), [])
        if tuple(r['gates']) not in confs[r['dim'], r['div'], len(r['gates'])]:
            confs[r['dim'], r['div'], len(r['gates'])].append(tuple(r['gates']))
        mins[key + (r['cdist'], r['norm'])] = r
    return confs, mins


def minimum(dim, div, gates, cdist, norm):
    """None: no curves; else (lo or None, up)"""
    if dim == 1:
        r = table()[1][dim, div, gates, None, 'l1']
    else:
        r = table()[1][dim, div, gates, cdist if cdist == 1 else None, 'l2' if norm == 'l2_squared' else norm]
    if r['kind'] == 'none':
        return None
    lo, up = r.get('lo'), r['up']
    # the table stores bounds with small gaps; widen by rounding
    if norm == 'l2_squared':
        lo, up = lo and lo ** 2, up ** 2
    return lo, up


# (paths of the whole run) * options; larger ones are for the thorough tier
def weight(dim, div, gates, cdist):
    r = table()[1][(dim, div, gates, cdist if cdist == 1 and dim > 1 else None, 'l1')]
    if len(gates) > 1 and r.get('members', 0) > 10 ** 7:
        return 10 ** 6
    w = 1
    for n in r.get('paths', [0]):
        w *= n
    return w * div ** dim * len(gates)


@st.composite
def cases(draw, tier, script):
    confs, _ = table()
    want = 1 if draw(st.integers(0, 15)) == 0 else draw(st.sampled_from([2, 2, 2, 2, 3]))
    key = draw(st.sampled_from(sorted(k for k in confs if k[0] == want)))
    dim, div, mult = key
    cdist = draw(st.sampled_from([None, None, 1, dim, 3]))      # dim: no restriction
    lim = (400 if tier == 'quick' else 6000) if dim < 3 else 250
    tuples = [g for g in confs[key] if weight(dim, div, g, cdist) <= lim]
    if not tuples:
        cdist = 1
        tuples = [g for g in confs[key] if weight(dim, div, g, cdist) <= lim] or confs[key][:1]
    n = draw(st.sampled_from([1, 1, 2, 3]))
    gl = []
    for _ in range(n):
        i = draw(st.integers(0, len(tuples) - 1))
        perm = draw(st.permutations(range(mult)))
        gl.append({'gates': list(tuples[i]), 'perm': list(perm), 'maps': [draw(gen.iso_texts(dim)) if draw(st.integers(0, 2)) == 0 else None for _ in range(mult)]})
    norm = draw(st.sampled_from([m for m in METRICS if dim % 2 == 0 or m != 'l2']))
    return {'dim': dim, 'div': div, 'mult': mult, 'list': gl, 'cdist': cdist, 'norm': norm,
            'tol': draw(st.sampled_from({1: [1, 3], 2: [3, 10, 20, 50] if mult == 1 and div == 2 else [3, 6, 12], 3: [2, 4, 8]}[dim])), 'mu': draw(st.sampled_from([None, 2, 5, 20])),
            'ub': draw(st.sampled_from([None, None, '9/10', '101/100', '11/10', '2'])),
            'finish': draw(st.sampled_from([None, None, 1, 50])), 'cache': draw(st.sampled_from([None, None, 0, 100])),
            'group': draw(st.booleans()), 'script': script and draw(st.sampled_from(['gates', 'file', 'file'])),
            'kind': draw(st.sampled_from(['list', 'tuple']))}


# --------------------------------------------------------------------------- own parser of the output

class Block:
    def __init__(self):
        self.found, self.lo, self.up, self.curves = True, None, None, []


def parse_output(text, dim, div, mult):
    """blocks of the report"""
    with output('report %r' % text[:2000]):
        blocks = []
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            if lines[i].startswith('======'):
                blocks.append(Block())
                i += 1
                continue
            if not blocks:
                if lines[i].strip():
                    raise ValueError('text before the first block')
                i += 1
                continue
            b = blocks[-1]
            if lines[i].startswith('NOT FOUND'):
                b.found = False
            m = re.match(r'(lower|upper) bound \(float\): (.*)$', lines[i])
            if m:
                setattr(b, 'lo' if m.group(1) == 'lower' else 'up', float(m.group(2)))
            if lines[i].startswith('@0:'):
                if len(lines) < i + mult:
                    raise ValueError('truncated curve')
                b.curves.append(parse_curve(lines[i:i + mult], dim, div))
                i += mult
                continue
            i += 1
        for b in blocks:
            if b.found and (b.lo is None or b.up is None):
                raise ValueError('no bounds')
        return blocks


def parse_curve(lines, dim, div):
    pats = []
    for p, line in enumerate(lines):
        m = re.match(r'@(\d+): (\S*) \| (.*)$', line)
        if int(m.group(1)) != p:
            raise ValueError('pattern number in %r' % line)
        pos, cubes = (0,) * dim, [(0,) * dim]
        for step in re.findall(r'\(\w+\)|\w', m.group(2)):
            v = [0] * dim
            for ch in step.strip('()'):
                v[ref.LETTERS.index(ch.lower())] = -1 if ch.isupper() else 1
            pos = tuple(a + b for a, b in zip(pos, v))
            cubes.append(pos)
        low = [min(c[j] for c in cubes) for j in range(dim)]
        cubes = [tuple(a - b for a, b in zip(c, low)) for c in cubes]
        specs = []
        for tok in m.group(3).split(','):
            tok = tok.strip()
            co, rv = ref.parse_iso(tok.lstrip('0123456789'))
            specs.append((co, rv, int(tok[0]) if tok[0].isdigit() else 0))
        if len(specs) != div ** dim or sorted(cubes) != sorted(gen.all_cubes(dim, div)):
            raise ValueError('not a curve of this configuration: %r' % line)
        pats.append((cubes, specs))
    return ref.RCurve(dim, div, pats)


@functools.lru_cache(maxsize=20000)
def orbit(link):
    return min(ref.act_link(co, rv, link) for co in ref.all_coords(len(link[0])) for rv in (False, True))


# --------------------------------------------------------------------------- judging

def judge(b, dim, div, mult, tuples, mins, cdist, norm, mu, ub, what):
    """tuples: gate tuples (reference links) of the block, None if not restricted; mins: list of (lo, up), None for tuples without curves"""
    lab = set()
    have = [m for m in mins if m is not None]
    mup = min((m[1] for m in have), default=None)
    mlo = min((m[0] for m in have), default=None) if all(m[0] is not None for m in have) else None
    if not b.found:
        if have:
            require(ub is not None and mup * (1 + EPS) >= float(ub), '%s: nothing is found, but there is a curve with dilation at most %.6f', what, mup)
        same(len(b.curves), 0, what + ': NOT FOUND with curves')
        return {'not-found'}
    require(have, '%s: bounds are reported, but there are no curves', what)
    lo, up = b.lo, b.up
    true_ub = ub is None or mup * (1 + EPS) < float(ub)
    require(lo <= up, '%s: lo %s > up %s', what, lo, up)
    if ub is not None:
        require(up <= float(ub) * (1 + EPS), '%s: upper bound %s exceeds the given one %s', what, up, ub)
    require(lo <= mup * (1 + EPS), '%s: lower bound %.6f exceeds the minimum, which is at most %.6f', what, lo, mup)
    if true_ub and mlo is not None:
        require(up >= mlo * (1 - EPS), '%s: upper bound %.6f is below the minimum, which is at least %.6f', what, up, mlo)
    require(b.curves, '%s: no curves are printed', what)
    best = float('inf')
    for rc in b.curves:
        with output(what):
            ok = rc.is_continuous()
        require(ok, '%s: a printed curve is not continuous', what)
        links = [rc.link(p) for p in range(mult)]
        if tuples is not None:
            got = [orbit(l) for l in links]
            require(any(got == [orbit(g) for g in t] for t in tuples), '%s: a printed curve has other gates: %s', what, [ref.link_str(l) for l in links])
        require(all(ref.is_gate_boundary(x) for l in links for x in l), '%s: a printed curve is internal', what)
        if cdist is not None:
            for cubes, _ in rc.patterns:
                require(all(sum(abs(x - y) for x, y in zip(c1, c2)) <= cdist for c1, c2 in zip(cubes, cubes[1:])), '%s: a printed curve has steps longer than %d', what, cdist)
        lim = up * (1 + 1 / (mu or 4)) * (1 + EPS)
        rlo, rup = refdil.dilation(rc, norm, tol=1e-3, cutoff=lim, max_work=1_500_000)
        best = min(best, rlo)
        if true_ub:
            require(rlo <= lim, '%s: a printed curve has dilation at least %.6f, bounds are [%.6f, %.6f]', what, rlo, lo, up)
            lab.add('curve-judged')
    if ub is None:
        require(best <= up * (1 + EPS), '%s: no printed curve attains the upper bound %.6f, the best has dilation %.6f', what, up, best)
    lab.add('nontrivial')
    lab.add('bracketed' if mlo is not None else 'upper')
    return lab


def run_function(**kw):
    import search
    lg = logging.getLogger()
    old = lg.level
    lg.setLevel(logging.CRITICAL)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            search.run_search(**kw)
    finally:
        lg.setLevel(old)
    return out.getvalue()


def run_script(args, timeout=600):
    env = dict(os.environ, PYTHONPATH=REPO)
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(REPO, 'search.py')] + args, cwd=REPO, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def gate_tuples(case):
    out, mins = [], []
    for e in case['list']:
        gs = [ref.parse_link(g) for g in e['gates']]
        gs = [ref.act_link(*ref.parse_iso(m), g) if m else g for g, m in zip(gs, e['maps'])]
        out.append(tuple(gs[i] for i in e['perm']))
        mins.append(minimum(case['dim'], case['div'], tuple(e['gates']), case['cdist'], case['norm']))
    return out, mins


def check_gates(case):
    dim, div, mult, norm = case['dim'], case['div'], case['mult'], case['norm']
    tuples, mins = gate_tuples(case)
    ub = None
    have = [m[1] for m in mins if m is not None]
    if case['ub'] and have:
        base = min(have)
        if F(case['ub']) > 1 or all(m is None or m[0] is not None for m in mins):
            if F(case['ub']) < 1:
                base = min(m[0] for m in mins if m is not None)
            ub = F(base).limit_denominator(10 ** 4) * F(case['ub'])
    ratio = dil.BudgetRatio(norm, CALLS)
    gl = [[conv.link(g) for g in t] for t in tuples]
    if case['kind'] == 'tuple':
        gl = tuple(tuple(t) for t in gl)
    kw = {'ratio_func': ratio, 'gate_list': gl, 'rel_tol_inv': case['tol'], 'group_by_gates': case['group']}
    for name, k in (('cdist', 'max_cdist'), ('mu', 'rel_tol_inv_mult'), ('finish', 'finish_max_count'), ('cache', 'cache_max_size')):
        if case[name] is not None:
            kw[k] = case[name]
    if ub is not None:
        kw['upper_bound'] = conv.q(ub)
    try:
        text = run_function(dim=dim, div=div, mult=mult, **kw)
    except dil.Budget:
        return ['slow', 'dim%d' % dim]
    lab = {norm, 'dim%d' % dim, 'mult%d' % mult, 'genus%d' % div ** dim}
    what = 'run_search(%d, %d, %d, %s)' % (dim, div, mult, {k: case[k] for k in ('norm', 'tol', 'mu', 'cdist', 'group', 'finish')})
    texts = [(what, text)]
    if case['script']:
        args = ['--dim', str(dim), '--div', str(div), '--mult', str(mult), '--metric', norm, '--rel-tol-inv', str(case['tol'])]
        for name, k in (('cdist', '--max-cdist'), ('mu', '--rel-tol-inv_mult'), ('finish', '--finish-max-count'), ('cache', '--cache-max-size')):
            if case[name] is not None:
                args += [k, str(case[name])]
        if ub is not None:
            args += ['--upper-bound', str(ub)]
        if case['group']:
            args += ['--group-by-gates']
        rows = ['|'.join(ref.link_str(g) for g in t) for t in tuples]
        tmp = tempfile.mkdtemp(prefix='verif-C23-')
        try:
            if case['script'] == 'gates':
                rows, tuples, mins = rows[:1], tuples[:1], mins[:1]
                rc, out, err = run_script(args + ['--gates', rows[0]])
                texts = []      # the function was run on the whole list
                if ub is not None and mins[0] is not None and mins[0][0] is None and float(ub) <= mins[0][1] * 1.001:
                    return sorted(lab | {'unknown-bound'})
            else:
                fn = os.path.join(tmp, 'gates.txt')
                with open(fn, 'w') as fh:
                    fh.write(''.join(r + '\n' for r in rows))
                rc, out, err = run_script(args + ['--gates-file', fn])
        finally:
            subprocess.call(['rm', '-rf', tmp])
        require(rc == 0, 'search.py %s: exit %s: %s', args, rc, err[-800:])
        texts.append(('search.py ' + ' '.join(args), out))
        lab.add('script-' + case['script'])
    for what, text in texts:
        blocks = parse_output(text, dim, div, mult)
        if case['group']:
            same(len(blocks), len(tuples), what + ': number of reports')
            lab.add('group')
            for b, t, m in zip(blocks, tuples, mins):
                lab |= judge(b, dim, div, mult, [t], [m], case['cdist'], norm, case['mu'], ub, what)
        else:
            same(len(blocks), 1, what + ': number of reports')
            lab |= judge(blocks[0], dim, div, mult, tuples, mins, case['cdist'], norm, case['mu'], ub, what)
    return sorted(lab)


# --------------------------------------------------------------------------- all gates of a configuration

def whole_cases(tier):
    out = []
    for norm in METRICS:
        out.append({'dim': 2, 'div': 2, 'tol': 30, 'norm': norm, 'ub': None})
        out.append({'dim': 2, 'div': 2, 'tol': 10, 'norm': norm, 'ub': '21/20'})
        if norm != 'l2':
            out.append({'dim': 1, 'div': 3, 'tol': 2, 'norm': norm, 'ub': None})
    out.append({'dim': 2, 'div': 3, 'tol': 5, 'norm': 'linf', 'ub': '11/10'})
    out.append({'dim': 2, 'div': 3, 'tol': 5, 'norm': 'l2', 'ub': '11/10'})
    if tier == 'thorough':
        out.append({'dim': 2, 'div': 3, 'tol': 20, 'norm': 'l1', 'ub': '11/10'})
        out.append({'dim': 2, 'div': 3, 'tol': 20, 'norm': 'l2', 'ub': None})
    return out


# all gates of the configuration, cf. C16
WHOLE = {(2, 2): [('(0,0)->(0,1)',)], (2, 3): [('(0,0)->(0,1)',), ('(0,0)->(1,1)',)], (1, 3): [('(0)->(1)',)]}


def check_whole(case):
    dim, div, norm = case['dim'], case['div'], case['norm']
    mins = [minimum(dim, div, g, None, norm) for g in WHOLE[dim, div]]
    args = ['--dim', str(dim), '--div', str(div), '--mult', '1', '--metric', norm, '--rel-tol-inv', str(case['tol'])]
    ub = None
    if case['ub']:
        ub = F(min(m[1] for m in mins)).limit_denominator(1000) * F(case['ub'])
        args += ['--upper-bound', str(ub)]
    rc, out, err = run_script(args)
    what = 'search.py ' + ' '.join(args)
    require(rc == 0, '%s: exit %s: %s', what, rc, err[-800:])
    blocks = parse_output(out, dim, div, 1)
    same(len(blocks), 1, what + ': number of reports')
    tuples = [tuple(ref.parse_link(g) for g in t) for t in WHOLE[dim, div]]
    return sorted(judge(blocks[0], dim, div, 1, tuples, mins, None, norm, None, ub, what))


def output_cases(tier):
    out = [{'dim': d, 'div': n, 'mult': m, 'facet': f, 'gates': None} for d, n, m, f in
           [(1, 2, 1, False), (1, 3, 1, False), (2, 2, 1, False), (2, 3, 1, False), (2, 2, 1, True), (2, 3, 1, True), (2, 2, 2, True), (2, 4, 1, False), (2, 5, 1, False), (3, 2, 1, False), (3, 2, 1, True), (2, 5, 1, True)]]
    out.append({'dim': 2, 'div': 2, 'mult': 2, 'facet': False, 'gates': ['(0,1/3)->(1/3,1)', '(1,0)->(1,1)']})
    return out


def check_output(case):
    from peano.gates import GatesGenerator
    dim, div, mult = case['dim'], case['div'], case['mult']
    args = ['--dim', str(dim), '--div', str(div), '--mult', str(mult), '--output-gates'] + (['--facet-gated'] if case['facet'] else [])
    if case['gates']:
        args += ['--gates', ' | '.join(case['gates'])]
        want = [tuple(ref.parse_link(g) for g in case['gates'])]
    else:
        want = [tuple(conv.from_link(g) for g in t) for t in GatesGenerator(dim, div, mult, only_facet=case['facet']).gen_gates()]
    rc, out, err = run_script(args)
    what = 'search.py ' + ' '.join(args)
    require(rc == 0, '%s: exit %s: %s', what, rc, err[-800:])
    with output(what):
        got = [tuple(ref.parse_link(tok.replace(' ', '')) for tok in line.split('|')) for line in out.split('\n') if line.strip()]
    same(sorted(got), sorted(want), what)
    return ['nontrivial']


# exact minima (agree with corpus/minima.json and the literature)
EXACT = {(2, 2, '(0,0)->(0,1)', 'l2'): F(6), (2, 2, '(0,0)->(0,1)', 'linf'): F(6), (2, 2, '(0,0)->(0,1)', 'l1'): F(9), (2, 2, '(0,0)->(0,1)', 'l2_squared'): F(36)}


@st.composite
def tight_cases(draw, tier):
    key = draw(st.sampled_from(sorted(EXACT)))
    k = draw(st.integers(2, 7))
    n = draw(st.integers(1, 9))
    return {'key': list(key), 'num': n * draw(st.sampled_from([1, 1, -1])), 'den': 10 ** k + draw(st.sampled_from([0, 0, 1, 7, -3])), 'tol': draw(st.sampled_from([10, 1000, 10 ** 5, 10 ** 7])), 'script': draw(st.integers(0, 3)) > 0}


def check_tight(case):
    """an a-priori upper bound very close to the minimum"""
    dim, div, gate, norm = case['key']
    v = EXACT[dim, div, gate, norm]
    lo, up = minimum(dim, div, (gate,), None, norm)
    if not lo * (1 - EPS) <= v <= up * (1 + EPS):
        raise AssertionError('table of minima: %s' % case)
    ub = v * (1 + F(case['num'], case['den']))
    what = 'search for %s, %s, upper bound %s, tolerance %d' % (gate, norm, ub, case['tol'])
    if case['script']:
        rc, out, err = run_script(['--dim', str(dim), '--div', str(div), '--mult', '1', '--metric', norm, '--rel-tol-inv', str(case['tol']), '--gates', gate, '--upper-bound', str(ub)])
        require(rc == 0, '%s: exit %s: %s', what, rc, err[-800:])
    else:
        ratio = dil.BudgetRatio(norm, 10 * CALLS)
        try:
            out = run_function(dim=dim, div=div, mult=1, ratio_func=ratio, gate_list=[[conv.link(ref.parse_link(gate))]], rel_tol_inv=case['tol'], upper_bound=conv.q(ub))
        except dil.Budget:
            return ['slow']
    blocks = parse_output(out, dim, div, 1)
    same(len(blocks), 1, what + ': number of reports')
    b = blocks[0]
    if b.found:
        require(b.lo <= b.up <= float(ub) * (1 + EPS), '%s: bounds [%s, %s]', what, b.lo, b.up)
    if ub > v:
        require(b.found, '%s: nothing is found, but the minimum is %s', what, v)
        require(b.lo <= float(v) * (1 + EPS), '%s: lower bound %s', what, b.lo)
        require(b.up >= float(v) * (1 - EPS), '%s: upper bound %s', what, b.up)
        return ['nontrivial', 'above', norm]
    if b.found:
        require(b.lo <= float(v) * (1 + EPS), '%s: lower bound %s', what, b.lo)
    return ['below', norm, 'found' if b.found else 'not-found']


def error_cases(tier):
    return [{'args': ['--dim', '3', '--div', '2', '--mult', '1', '--metric', 'l2']}, {'args': ['--dim', '2', '--div', '2', '--mult', '1']},
            {'args': ['--dim', '2', '--div', '2', '--mult', '2', '--gates', '(0,0)->(0,1)', '--metric', 'l1']}]


def check_error(case):
    """unusable requests are refused rather than answered"""
    rc, out, err = run_script(case['args'])
    require(rc != 0 and 'bound (float)' not in out, 'search.py %s: accepted, output %s', case['args'], out[:300])
    return ['nontrivial']


TARGETS = [Target('function', lambda tier: cases(tier, False), check_gates, 120, 3000, shards=8, cpu_s=400),
           Target('script', lambda tier: cases(tier, True), check_gates, 48, 800, shards=8, cpu_s=400),
           Target('tight', tight_cases, check_tight, 128, 1600, shards=8, cpu_s=300),
           Target('whole', lambda tier: st.nothing(), check_whole, 0, 0, shards=4, fixed=whole_cases),
           Target('output', lambda tier: st.nothing(), check_output, 0, 0, shards=2, fixed=output_cases),
           Target('refused', lambda tier: st.nothing(), check_error, 0, 0, fixed=error_cases)]
