"""C28: plots."""
import contextlib
import importlib
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from lib import ref, gen, conv
from lib.engine import Target, require, same, output

PROPERTY = 'C28'
RULE = ('Cases: continuous 2d and 3d curves with up to 4 patterns (every map and pattern number), subdivision 0..2, options grid, separate and output file; '
        'non-trivial: at least two patterns, or subdivision, or a fraction with a non-identity map.')
ASSUMPTIONS = ['lines are read back from the matplotlib axes, in the order the axes were created (one per pattern, or prototype axis and detail axis per pattern)',
               'line widths, the size of arrow heads and label offsets inside a cube are not judged']
TOL = 1e-9
NAMES = 'abcd'
COLORS = ['tab:cyan', 'orange', 'green', 'pink']


@st.composite
def cases(draw, tier):
    sub = draw(st.sampled_from([0, 0, 1, 1, 2]))
    dim = draw(st.sampled_from([2, 2, 3]))
    mg = {0: 27, 1: 16 if dim == 2 else 8, 2: 9 if dim == 2 else 8}[sub]
    pools = gen.pick_pools(max_genus=mg, dims=[dim], max_gates=4)
    c = draw(gen.curve_cases(pools, max_mult=4))
    return {'curve': c, 'sub': sub, 'grid': draw(st.booleans()), 'separate': draw(st.booleans()), 'file': draw(st.integers(0, 11)) == 0,
            'defaults': draw(st.booleans())}


def close(a, b):
    return len(a) == len(b) and all(len(p) == len(q) and all(abs(x - y) < TOL for x, y in zip(p, q)) for p, q in zip(a, b))


def drawn(ax, dim):
    from matplotlib.colors import to_rgba
    out = []
    for l in ax.get_lines():
        cols = l.get_data_3d() if dim == 3 else l.get_data()
        pts = [tuple(float(v) for v in p) for p in zip(*cols, strict=True)]
        out.append((pts, to_rgba(l.get_color())))
    return out


def take(lines, pts, color, what, arrow):
    """remove one line that runs through pts (followed by an arrow head, if arrow)"""
    for i, (got, col) in enumerate(lines):
        if len(got) >= len(pts) and (arrow or len(got) == len(pts)) and close(got[:len(pts)], pts) and (color is None or all(abs(a - b) < 1e-6 for a, b in zip(col, color))):
            tail = got[len(pts):]
            # arrow head: short strokes at the end of the line
            step = max(abs(a - b) for a, b in zip(pts[-1], pts[-2]))
            if all(max(abs(a - b) for a, b in zip(p, pts[-1])) <= step + TOL for p in tail):
                if arrow:
                    check_arrow(tail, pts, what)
                del lines[i]
                return
    require(False, '%s: no line of that colour through %s (%d points)', what, pts[:3], len(pts))


def check_arrow(tail, pts, what):
    """strokes from the tip of the line back to both sides of it"""
    tip, step = pts[-1], [a - b for a, b in zip(pts[-1], pts[-2])]
    offs = [[a - b for a, b in zip(p, tip)] for p in tail]
    offs = [o for o in offs if max(map(abs, o)) > TOL]
    require(len(offs) >= 2, '%s: no arrow head', what)
    require(all(sum(a * b for a, b in zip(o, step)) < 0 for o in offs), '%s: the arrow head does not point along the line', what)
    n2 = sum(x * x for x in step)
    side = []
    for o in offs:
        k = sum(a * b for a, b in zip(o, step)) / n2
        side.append([a - k * b for a, b in zip(o, step)])
    require(any(sum(a * b for a, b in zip(s, side[0])) < -TOL * n2 for s in side[1:]), '%s: the arrow head does not have two sides', what)


def check_frame(ax, dim, div, grid, what):
    for name in 'xyz'[:dim]:
        with output(what):
            lim = [float(v) for v in getattr(ax, 'get_%slim' % name)()]
            ticks = sorted(float(v) for v in getattr(ax, 'get_%sticks' % name)() if TOL < v < 1 - TOL)
        require(close([lim], [(0, 1)]), '%s: range of the %s axis: %s', what, name, lim)
        want = [j / div for j in range(1, div)] if grid else []
        require(close([ticks], [want]), '%s: grid lines of the %s axis: %s', what, name, ticks)


def check(case):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from matplotlib.colors import to_rgba
    plots = importlib.import_module('plots')
    rc = ref.RCurve.from_case(case['curve'])
    curve = conv.curve(rc)
    before = conv.data(conv.from_curve(curve))
    dim, div, sub, sep = rc.dim, rc.div, case['sub'], case['separate']
    kw = {'grid': case['grid'], 'separate': sep, 'subdivision': sub}
    if case['defaults']:
        kw = {k: v for k, v in kw.items() if v != {'grid': True, 'separate': False, 'subdivision': 0}[k]}
    tmp = tempfile.mkdtemp(prefix='verif-plot-') if case['file'] else None
    plt.close('all')
    try:
        if tmp:
            kw['output_file'] = os.path.join(tmp, 'x.png')
        with contextlib.redirect_stdout(io.StringIO()):
            plots.plot_curve(curve, **kw)
        if tmp:
            with output('plot file'):
                with open(kw['output_file'], 'rb') as fh:
                    if fh.read(8) != b'\x89PNG\r\n\x1a\n':
                        raise ValueError('not a PNG file')
        require(len(plt.get_fignums()) == 1, 'number of figures: %d', len(plt.get_fignums()))
        axes = plt.gcf().axes
        same(len(axes), rc.mult * (2 if sep else 1), 'number of axes')
        for p in range(rc.mult):
            what = 'pattern %d of %d, subdivision %d, separate %s' % (p, rc.mult, sub, sep)
            glob, det = (axes[2 * p], axes[2 * p + 1]) if sep else (axes[p], axes[p])
            with output(what):
                dl = drawn(det, dim)
                gl = drawn(glob, dim) if sep else dl
            for ax in {id(a): a for a in (glob, det)}.values():
                check_frame(ax, dim, div, case['grid'], what)
            if rc.mult > 1:
                with output(what):
                    title = glob.get_title()
                require('(%s)' % NAMES[p] in title, '%s: title %s', what, title)
            # prototype line through the cube centres
            cubes, specs = rc.patterns[p]
            take(gl, [tuple((c + 0.5) / div for c in cube) for cube in cubes], to_rgba(COLORS[p]) if sep else None, what + ': prototype line', True)
            # every fraction: cells of the subdivision in time order
            side = div ** (sub + 2)
            fine = rc.genus ** (sub + 1)
            cells = rc.cells(p, sub + 2)
            centres = [tuple((c + 0.5) / side for c in cell) for cell in cells]
            parts = [centres[i * fine:(i + 1) * fine] for i in range(rc.genus)]
            cols = [to_rgba(COLORS[s[2]]) for s in specs]
            for i, part in enumerate(parts):
                # the line of a fraction follows the prototype of the fraction in its own time (a reversed fraction is drawn in the time of the whole curve)
                take(dl, part, cols[i], what + ': fraction %d' % i, i == rc.genus - 1)
            for i in range(rc.genus - 1):
                a, b = parts[i][-1], parts[i + 1][0]
                med = tuple((x + y) / 2 for x, y in zip(a, b))
                take(dl, [a, med], cols[i], what + ': link after fraction %d' % i, False)
                take(dl, [med, b], cols[i + 1], what + ': link before fraction %d' % (i + 1), False)
            require(not dl and not gl, '%s: %d further lines', what, len(dl) + len(gl))
            if rc.mult > 1:
                with output(what):
                    texts = []
                    for t in glob.texts:
                        pos = t.get_position_3d() if dim == 3 else t.get_position()
                        texts.append((tuple(int(float(x) * div // 1) for x in pos), t.get_text()))
                same(len(texts), rc.genus, what + ': number of labels')
                look = dict(texts)
                for cube, s in zip(cubes, specs):
                    t = look.get(tuple(cube))
                    require(t is not None, '%s: no label in cube %s', what, cube)
                    name = t.replace(r'$\overline{\mathrm{', '').replace('}}$', '')
                    same((name, 'overline' in t), (NAMES[s[2]], s[1]), what + ': label in cube %s' % (cube,))
        same(conv.data(conv.from_curve(curve)), before, 'curve after plotting')
    finally:
        plt.close('all')
        if tmp:
            shutil.rmtree(tmp)
    lab = {'dim%d' % dim, 'mult%d' % rc.mult, 'sub%d' % sub, 'separate' if sep else 'joint'}
    if case['file']:
        lab.add('file')
    if rc.mult > 1 or sub or any(s[0] != ref.ident(dim) for s in rc.patterns[0][1]):
        lab.add('nontrivial')
    return sorted(lab)


TARGETS = [Target('plot', lambda tier: cases(tier), check, 2000, 12000, shards=8)]
