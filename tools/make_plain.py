#!/usr/bin/env python3
"""
corpus/plain.json: all pointed paths (one for each symmetry class) of plain monofractals considered by YE-proof.py.
Own depth-first search with connectivity pruning (lib/ref.py geometry only), not the code under test.
"""
import json
import os
import sys
import time
from fractions import Fraction as F
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib import ref     # noqa: E402

CONFIGS = [(2, '(0,0)->(0,1)', None), (3, '(0,0)->(0,1)', None), (3, '(0,0)->(1,1)', None), (4, '(0,0)->(0,1)', None), (4, '(0,0)->(1/2,1)', None),
           (5, '(0,0)->(0,1)', 1), (5, '(0,0)->(1,1)', 1), (5, '(0,0)->(1/2,1)', 1), (6, '(0,0)->(0,1)', 1), (6, '(0,0)->(1/2,1)', 1)]


def paths(div, glink, cdist):
    clos = ref.link_closure([glink])
    G = div * div
    target = set(ref.cubes_of_point(glink[1], div))
    tc = {c for c, _ in target}
    if cdist == 1:
        adj = [(1, 0), (-1, 0), (0, 1), (0, -1)]
    else:
        adj = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]
    cells = [(i, j) for i in range(div) for j in range(div)]
    nb = {c: [(c[0] + a, c[1] + b) for a, b in adj if 0 <= c[0] + a < div and 0 <= c[1] + b < div] for c in cells}

    def steps(cube, pt):
        o = []
        for c, p in zip(cube, pt):
            q = [(c, p)]
            if p == 0 and c > 0:
                q.append((c - 1, F(1)))
            if p == 1 and c < div - 1:
                q.append((c + 1, F(0)))
            o.append(q)
        for x in o[0]:
            for y in o[1]:
                n = (x[0], y[0])
                if n != cube and (cdist is None or abs(n[0] - cube[0]) + abs(n[1] - cube[1]) <= cdist):
                    yield n, (x[1], y[1])
    cache = {}

    def rec(path, used):
        cube, _, ex = path[-1]
        if len(path) == G:
            if (cube, ex) in target:
                yield list(path)
            return
        if all(c in used for c in tc):
            return
        # connectivity, dead ends
        stack, seen = [c for c in nb[cube] if c not in used], set()
        while stack:
            c = stack.pop()
            if c not in seen:
                seen.add(c)
                stack.extend(n for n in nb[c] if n not in used)
        if len(seen) < G - len(path):
            return
        if cdist == 1:
            dead = 0
            for c in seen:
                if c not in tc and sum(1 for n in nb[c] if n not in used or n == cube) < 2:
                    return
        key = (cube, ex)
        if key not in cache:
            cache[key] = [(n, e, x) for n, e in steps(cube, ex) for x in clos[e]]
        for n, e, x in cache[key]:
            if n not in used:
                path.append((n, e, x))
                used.add(n)
                yield from rec(path, used)
                used.discard(n)
                path.pop()
    for c, r in ref.cubes_of_point(glink[0], div):
        for x in clos[r]:
            yield from rec([(c, r, x)], {c})


def images(div, path):
    for co in ref.all_coords(2):
        for rv in (False, True):
            p = [(ref.act_cube(co, div, c),) + ref.act_link(co, rv, (e, x)) for c, e, x in path]
            yield tuple(p[::-1] if rv else p)


def solve(job):
    div, g, cdist = job
    t = time.time()
    seen, out, total = set(), [], 0
    for p in paths(div, ref.parse_link(g), cdist):
        total += 1
        if tuple(p) not in seen:
            out.append(p)
            seen.update(images(div, p))
    print(job, total, len(out), '%.0f s' % (time.time() - t), flush=True)
    return out


def main():
    with Pool(8) as pool:
        res = pool.map(solve, CONFIGS, chunksize=1)
    links, rows = [], []
    for (div, g, cdist), ps in zip(CONFIGS, res):
        enc = []
        for p in ps:
            toks = []
            for c, e, x in p:
                l = ref.link_str((e, x))
                if l not in links:
                    links.append(l)
                toks.append('%d%d%s' % (c + (chr(33 + links.index(l) + (links.index(l) >= 1) + (links.index(l) >= 58)),)))
            enc.append(''.join(toks))
        rows.append({'div': div, 'gate': g, 'cdist': cdist, 'paths': enc})
    with open(os.path.join(ROOT, 'corpus', 'plain.json'), 'w') as fh:
        json.dump({'links': links, 'rows': rows}, fh, indent=0)
        fh.write('\n')


if __name__ == '__main__':
    main()
