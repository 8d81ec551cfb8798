#!/usr/bin/env python3
"""
Minimal dilation for small configurations with given gates: corpus/minima.json.
Independent of the code under test (lib/ref.py, lib/refdil.py only): own path search,
brute force over all curves (bracket), or hill climbing (upper estimate only) for larger sets.
"""
import itertools
import json
import os
import random
import sys
import time
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from lib import gen, ref, refdil     # noqa: E402

BRUTE = 70000
CLIMB_S = 60


def configs():
    seen = set()
    for p in gen.pools():
        if p.dim == 1 or p.genus <= 9:
            seen.add((p.dim, p.div, tuple(ref.link_str(g) for g in p.gates)))
    h, d = '(0,0)->(0,1)', '(0,0)->(1,1)'
    seen.add((2, 2, (h, h)))
    seen.add((2, 2, ('(0,1/3)->(1/3,1)', '(0,1/3)->(1/3,1)', '(0,1/3)->(1,1/3)')))
    seen.add((2, 2, ('(0,0)->(0,1/2)', '(0,0)->(1/2,1)', '(0,0)->(1/2,1)')))
    seen.add((2, 3, (h, h)))
    return sorted(seen)


def path_sets(dim, div, links, cdist):
    clos = ref.link_closure(links)
    out = []
    for g in links:
        ps = []
        for path in ref.gen_ref_paths(dim, div, g, clos, max_cdist=cdist):
            ps.append(path)
            if len(ps) > 4000:
                break
        out.append(ps)
    return out


def solve(job):
    dim, div, gates, cdist, norm = job
    links = tuple(ref.parse_link(g) for g in gates)
    sets = path_sets(dim, div, links, cdist)
    key = dict(dim=dim, div=div, gates=list(gates), cdist=cdist, norm=norm)
    if not all(sets):
        return dict(key, kind='none')
    if dim == 1:
        return dict(key, kind='brute', lo=1.0, up=1.0, paths=[1] * len(gates))
    opts = {}

    def specs(e, x):
        return gen.specs_for(links, (e, x))
    total = 1
    for ps in sets:
        s = 0
        for path in ps:
            m = 1
            for c, e, x in path:
                m *= len(specs(e, x))
            s += m
        total *= s

    def make(paths, flat):
        it = iter(flat)
        return ref.RCurve(dim, div, [([c for c, _, _ in path], [next(it) for _ in path]) for path in paths])

    best = (float('inf'), float('inf'))
    key['members'] = total
    key['paths'] = [len(s) for s in sets]
    if total <= BRUTE:
        blo, bup = float('inf'), float('inf')
        for paths in itertools.product(*sets):
            for flat in itertools.product(*[specs(e, x) for path in paths for c, e, x in path]):
                lo, up = refdil.dilation(make(paths, flat), norm, tol=1e-4, cutoff=bup if bup < 1e9 else None)
                blo, bup = min(blo, lo), min(bup, up)
        return dict(key, kind='brute', lo=blo, up=bup)
    rnd = random.Random(str(job))
    t0 = time.time()
    bup = float('inf')
    while time.time() - t0 < CLIMB_S:
        paths = [rnd.choice(s) for s in sets]
        o = [specs(e, x) for path in paths for c, e, x in path]
        cur = [rnd.choice(a) for a in o]
        val = refdil.dilation(make(paths, cur), norm, tol=1e-3)[1]
        stale = 0
        while stale < 3 * len(o) and time.time() - t0 < CLIMB_S * 1.2:
            nxt = list(cur)
            for _ in range(rnd.choice([1, 1, 2, 3])):
                i = rnd.randrange(len(o))
                nxt[i] = rnd.choice(o[i])
            v = refdil.dilation(make(paths, nxt), norm, tol=1e-3, cutoff=val)[1]
            if v < val * (1 - 1e-9):
                stale = 0
            else:
                stale += 1
            if v <= val:
                cur, val = nxt, v
        bup = min(bup, val)
    return dict(key, kind='climb', up=bup)


def main():
    jobs = [(d, n, g, c, norm) for d, n, g in configs() for c in ((None,) if d == 1 else (None, 1)) for norm in ('l1', 'l2', 'linf')]
    random.Random(1).shuffle(jobs)
    out = []
    with Pool(7) as pool:
        for i, r in enumerate(pool.imap_unordered(solve, jobs, chunksize=1)):
            out.append(r)
            print(i, len(jobs), r, flush=True)
    out.sort(key=lambda r: json.dumps([r['dim'], r['div'], r['gates'], r['cdist'] or 0, r['norm']]))
    with open(os.path.join(ROOT, 'corpus', 'minima.json'), 'w') as f:
        json.dump(out, f, indent=0)
        f.write('\n')


if __name__ == '__main__':
    main()
