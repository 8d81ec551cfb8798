"""
Offline tool: builds corpus/pools.json, the pool of gate configurations and pointed paths
from which the checks assemble continuous curves.  Inputs only; everything in the pool is
found by the reference DFS (lib/ref.py), not by the code under test.
Usage: /opt/venv/bin/python tools/make_pools.py
"""
import json
import os
import random
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.ref import parse_link, link_str, link_closure, gen_ref_paths   # noqa

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CONFIGS = '''
1 2 | (0)->(1)
1 3 | (0)->(1)
1 4 | (0)->(1)
1 5 | (0)->(1)
1 7 | (0)->(1)
2 2 | (0,0)->(0,1)
2 2 | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3)
2 2 | (0,0)->(0,1/2) | (0,0)->(1/2,1)
2 2 | (0,0)->(0,1) | (0,0)->(1/2,1)
2 2 | (0,0)->(0,1) | (0,1/2)->(1,1/2)
2 2 | (0,0)->(0,1) | (0,1/2)->(1/2,0)
2 2 | (0,0)->(0,1) | (0,1/2)->(0,1/2)
2 2 | (0,0)->(0,1) | (0,0)->(1,1)
2 2 | (0,0)->(0,1) | (0,0)->(2/3,1)
2 2 | (0,1/6)->(1,1/6) | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3)
2 2 | (0,1/6)->(0,5/6) | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3)
2 2 | (0,1/12)->(1,1/12) | (0,1/6)->(1/6,1) | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3)
2 2 | (0,1/5)->(1/5,1) | (0,1/5)->(1,1/5) | (0,2/5)->(2/5,1) | (0,2/5)->(1,2/5)
2 2 | (0,1/6)->(1/6,1) | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3) | (0,5/12)->(1,5/12)
2 3 | (0,0)->(0,1)
2 3 | (0,0)->(1,1)
2 3 | (0,0)->(0,1) | (0,0)->(1,1)
2 3 | (0,0)->(0,1/2) | (0,0)->(0,1)
2 3 | (0,0)->(0,1/3) | (0,0)->(0,1)
2 3 | (0,0)->(0,1) | (0,1/3)->(1/3,1)
2 3 | (0,0)->(0,1) | (0,0)->(2/3,1)
2 3 | (0,1/4)->(1/4,1) | (0,1/4)->(1,1/4)
2 3 | (0,1/4)->(1/4,1) | (0,1/4)->(1,3/4)
2 3 | (0,0)->(1/4,1) | (0,0)->(3/4,1)
2 3 | (0,1/12)->(0,3/4) | (0,1/4)->(1/4,1) | (0,1/4)->(1,3/4)
2 3 | (0,1/10)->(7/10,0) | (0,1/10)->(7/10,1) | (0,1/10)->(1,7/10)
2 4 | (0,0)->(0,1)
2 4 | (0,0)->(1/2,1)
2 4 | (0,0)->(0,1) | (0,0)->(1/2,1)
2 4 | (0,1/5)->(1/5,1) | (0,1/5)->(1,1/5)
2 4 | (0,1/3)->(1/3,1) | (0,1/3)->(1,1/3)
2 5 | (0,0)->(0,1)
2 5 | (0,0)->(1/2,1)
2 5 | (0,0)->(1,1)
2 6 | (0,0)->(0,1)
3 2 | (0,0,0)->(1/2,1/2,1)
3 2 | (0,1/3,1/3)->(1/3,1/3,1)
3 2 | (0,0,0)->(0,1/2,1)
3 2 | (0,0,0)->(0,0,1)
3 2 | (0,0,1/3)->(1/3,1,1)
3 2 | (0,0,0)->(0,1,1)
3 2 | (0,1/3,1/3)->(1/3,1/3,1) | (0,1/3,1/3)->(1,1/3,1/3)
3 2 | (0,0,0)->(1/2,1/2,1) | (0,1/2,1/2)->(1/2,0,1/2)
3 2 | (0,0,1/3)->(1/3,1/2,0) | (0,0,1/3)->(1/2,1,1/3)
3 2 | (0,1/5,2/5)->(1/5,2/5,1) | (0,1/5,2/5)->(3/5,1,4/5)
3 2 | (0,1/6,1/3)->(1/3,1/6,1) | (0,1/3,1/3)->(1/3,1/3,1)
3 2 | (0,0,0)->(0,0,1) | (0,0,0)->(0,1,1)
3 3 | (0,0,0)->(0,0,1)
3 3 | (0,0,0)->(1,1,1)
4 2 | (0,0,0,0)->(0,0,0,1)
4 2 | (0,1/3,1/3,1/3)->(1/3,1/3,1/3,1)
4 2 | (0,1/3,1/3,1/3)->(1/3,2/3,2/3,1)
5 2 | (0,0,0,0,0)->(0,0,0,0,1)
1 9 | (0)->(1)
2 2 | (0,0)->(0,1) | (1/2,1/2)->(0,1)
2 2 | (0,0)->(0,1) | (0,0)->(1,1) | (1/2,1/2)->(1/2,1/2)
2 2 | (0,0)->(0,1) | (1/3,1/3)->(0,1)
2 2 | (0,0)->(0,1) | (0,0)->(1/2,1) | (0,0)->(1,1) | (0,1/2)->(1/2,1)
2 3 | (0,0)->(0,1) | (0,0)->(1,1) | (1/3,1/3)->(1,1)
2 7 | (0,0)->(0,1)
2 7 | (0,0)->(1,1)
3 2 | (0,0,0)->(0,0,1) | (0,0,0)->(0,1,1) | (0,0,0)->(1,1,1)
2 4 | (0,0)->(0,1) | (0,1/4)->(1,3/4)
2 4 | (0,0)->(1/4,1) | (0,0)->(3/4,1)
2 4 | (0,0)->(4/5,1) | (0,1/5)->(1/5,1)
2 4 | (0,0)->(0,1) | (0,1/2)->(1/2,0)
2 4 | (0,2/5)->(2/5,1) | (0,2/5)->(1,2/5)
2 5 | (0,1/6)->(1/6,1) | (0,1/6)->(1,1/6)
2 5 | (0,1/6)->(1/2,0) | (0,1/6)->(1,1/2)
2 5 | (0,1/2)->(1/2,0) | (0,1/2)->(1,1/2)
2 5 | (0,0)->(0,1) | (0,0)->(1,1)
4 2 | (0,1/3,1/3,1/3)->(1/3,0,1/3,2/3)
4 2 | (0,0,0,0)->(0,0,0,1) | (0,0,0,0)->(0,0,1,1)
3 2 | (0,0,0)->(0,0,1) | (0,0,0)->(0,0,1/2) | (0,0,0)->(0,1/2,1)
3 3 | (0,0,0)->(0,0,1) | (0,0,0)->(1,1,1)
4 2 | (0,0,0,0)->(0,0,0,1) | (0,0,0,0)->(0,1,1,1)
4 2 | (0,0,0,0)->(0,1,1,1)
'''


def sample_paths(dim, div, gl, clos, want, rnd):
    """all paths if there are at most `want`, else random ones (restarted random DFS)."""
    G = div ** dim
    out = {}
    it = gen_ref_paths(dim, div, gl, clos, node_limit=200000)
    exhausted = True
    for p in it:
        out[repr(p)] = p
        if len(out) > want:
            exhausted = False
            break
    if exhausted and len(out) > 0 and G <= 9:
        return list(out.values())
    out = {}
    tries = 0
    while len(out) < want and tries < want * 6:
        tries += 1
        p = next(gen_ref_paths(dim, div, gl, clos, max_cdist=(1 if tries % 3 == 0 else None), rnd=rnd, node_limit=40 * G * G), None)
        if p is not None:
            out[repr(p)] = p
    return list(out.values())


def main():
    pools = []
    for line in CONFIGS.strip().splitlines():
        head, *gates = [s.strip() for s in line.split('|')]
        dim, div = map(int, head.split())
        gl = [parse_link(g) for g in gates]
        clos = link_closure(gl)
        rnd = random.Random(line)
        G = div ** dim
        want = 60 if G <= 16 else 24
        entry = {'dim': dim, 'div': div, 'gates': [link_str(l) for l in gl], 'paths': []}
        ok = True
        for l in gl:
            ps = sample_paths(dim, div, l, clos, want, rnd)
            if not ps:
                print('NO PATHS', line, link_str(l))
                ok = False
                break
            enc = []
            for p in ps:
                enc.append(' '.join(','.join(map(str, c)) + ':' + link_str((e, x)) for c, e, x in p))
            entry['paths'].append(sorted(set(enc)))
        if ok:
            print(line, [len(p) for p in entry['paths']])
            pools.append(entry)
    # intern link texts
    links = sorted({t.split(':')[1] for e in pools for ps in e['paths'] for p in ps for t in p.split(' ')})
    idx = {l: i for i, l in enumerate(links)}
    for e in pools:
        e['paths'] = [[' '.join(t.split(':')[0].replace(',', '') + ':' + str(idx[t.split(':')[1]]) for t in p.split(' ')) for p in ps] for ps in e['paths']]
    with open(os.path.join(ROOT, 'corpus', 'pools.json'), 'w') as f:
        json.dump({'links': links, 'pools': pools}, f, indent=0)
        f.write('\n')


if __name__ == '__main__':
    main()
