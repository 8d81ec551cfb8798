"""C09: face moments."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C09'
RULE = ('Cases: a continuous curve and faces (0/1/None per coordinate); every pattern, first and last moments are checked; '
        'non-trivial: the moment is not 0 or 1 and the curve uses several orientations or patterns.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    rc = draw(gen.rcurves(gen.pick_pools(max_genus=32, max_dim=5)))
    faces = draw(st.lists(st.tuples(*[st.sampled_from([0, 1, None])] * rc.dim).map(list), min_size=2, max_size=5))
    return {'curve': rc.to_case(), 'faces': faces}


def check(case):
    rc = ref.RCurve.from_case(case['curve'])
    c = conv.curve(rc)
    nt = False
    depth = 2 if rc.genus <= 16 else 1
    if rc.genus <= 4:
        depth = 4
    for p in range(rc.mult):
        cells = rc.cells(p, depth)
        n = rc.div ** depth
        for face in case['faces']:
            face = tuple(face)
            touch = [i for i, cell in enumerate(cells) if all(f is None or x == f * (n - 1) for x, f in zip(cell, face))]
            for last in (False, True):
                t, x = rc.first_touch(p, face, last)
                # the reference moment lies in the first/last cell touching the face (cell images are full cubes)
                i = touch[-1] if last else touch[0]
                assert F(i, rc.genus ** depth) <= t <= F(i + 1, rc.genus ** depth)
                assert all(f is None or v == f for v, f in zip(x, face))
                with output('get_face_moment'):
                    g = c.get_face_moment(face, pnum=p, last=last)
                    same(conv.f(g), t, 'face %s moment, pattern %d, last=%s' % (face, p, last))
                    cp = c.get_face_moment(face, pnum=p, last=last, find_point=True)
                    same(conv.f(cp.t), t, 'moment with point, face %s' % (face,))
                    same(conv.from_point(cp.x), x, 'point of face %s, pattern %d, last=%s' % (face, p, last))
                    same(rc.eval(p, t), conv.from_point(cp.x), 'curve at the reported moment')
                    if p == rc.pnum:
                        same(conv.f(c.get_face_moment(face, last=last)), t, 'default pattern')
                nt = nt or (0 < t < 1)
        with output('get_vertex_moments'):
            vm = c.get_vertex_moments(p)
            got = {tuple(int(v) for v in k): conv.f(v) for k, v in vm.items()}
            want = {v: rc.first_touch(p, v)[0] for v in itertools.product((0, 1), repeat=rc.dim)}
            same(got, want, 'vertex moments of pattern %d' % p)
            if p == rc.pnum:
                same({tuple(k): conv.f(v) for k, v in c.get_vertex_moments().items()}, want, 'vertex moments, default pattern')
    rich = len({s for _, sp in rc.patterns for s in sp}) > 1
    return (['nontrivial'] if nt and rich else []) + ['mult%d' % rc.mult, 'dim%d' % rc.dim]


TARGETS = [Target('faces', lambda tier: cases(), check, 2000, 16000, shards=8)]
