"""C24: bounded items heap, model-based histories."""
from collections import Counter
from dataclasses import dataclass
from fractions import Fraction as F

from hypothesis import strategies as st

from lib import conv
from lib.engine import Target, require, same, output, raises

PROPERTY = 'C24'
RULE = ('Cases: histories of up to 60 operations (push, pushes of up to 400 items, pop, top, threshold raise, retrieval of bad items, cleaned copy) on a family of heaps, with few distinct bounds so that ties and equality with thresholds are frequent; '
        'each step is compared with a list model; non-trivial: at least one pop, and at least one good or bad item or a threshold raise.')
ASSUMPTIONS = ['items with equal upper bounds may be popped in any order; bad items may be handed out in any order']


def bound():
    return st.one_of(st.integers(0, 4).map(lambda n: str(F(n, 2))), st.integers(0, 60).map(lambda n: str(F(n, 7))))


@st.composite
def cases(draw):
    th = st.one_of(st.none(), bound())
    heaps = [{'good': draw(th), 'bad': draw(th), 'keep': draw(st.booleans())}, {'good': None, 'bad': None, 'keep': False}]
    ops = []
    for _ in range(draw(st.integers(1, 60))):
        k = draw(st.sampled_from(['push'] * 12 + ['pop'] * 4 + ['top', 'raise', 'bad', 'copy', 'lower'] * 2 + ['bulk']))
        op = {'op': k, 'h': draw(st.integers(0, 3))}
        if k == 'push':
            op['lo'], op['up'] = sorted([draw(bound()), draw(bound())], key=F)
        elif k == 'bulk':
            op['n'], op['seed'], op['den'] = draw(st.integers(2, 400)), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([1, 2, 7, 101]))
        elif k in ('raise', 'lower'):
            op['by'] = draw(bound())
        elif k == 'copy':
            op['good'], op['bad'] = draw(th), draw(th)
        ops.append(op)
    return {'heaps': heaps, 'ops': ops}


def fr(x):
    return None if x is None else F(x)


def qq(x):
    return None if x is None else conv.q(F(x))


class Model:
    def __init__(self, good, bad, keep):
        self.good, self.bad, self.keep = good, bad, keep
        self.active, self.out, self.maxlo, self.pushed = [], [], None, set()

    def push(self, it):
        n, lo, up = it
        if self.keep:
            if self.maxlo is None or lo > self.maxlo:
                self.maxlo = lo
            self.pushed.add(it)
        if self.good is not None and up <= self.good:
            return 'good'
        if self.bad is not None and lo >= self.bad:
            self.out.append(it)
            return 'bad'
        self.active.append(it)
        return 'active'


def check(case):
    try:
        from peano._bounded_items_heap import BoundedItem, BoundedItemsHeap
    except ImportError:
        return ['absent']

    @dataclass(frozen=True)
    class Item(BoundedItem):
        n: int

    def key(it):
        with output('item'):
            return it.n, conv.f(it.lo), conv.f(it.up)

    pairs = []
    for h in case['heaps']:
        kw = {'keep_max_lo_item': True} if h['keep'] else {}
        pairs.append((BoundedItemsHeap(good_threshold=qq(h['good']), bad_threshold=qq(h['bad']), **kw), Model(fr(h['good']), fr(h['bad']), h['keep'])))
    lab = set()
    n = 0
    for step, op in enumerate(case['ops']):
        heap, m = pairs[op['h'] % len(pairs)]
        k = op['op']
        what = 'step %d (%s)' % (step, k)
        if k == 'push':
            n += 1
            it = Item(lo=qq(op['lo']), up=qq(op['up']), n=n)
            heap.push(it)
            lab.add(m.push((n, F(op['lo']), F(op['up']))))
        elif k == 'bulk':
            x = op['seed']
            for _ in range(op['n']):
                x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
                a, b = sorted([F((x >> 20) % (8 * op['den']), op['den']), F((x >> 40) % (8 * op['den']), op['den'])])
                n += 1
                heap.push(Item(lo=qq(a), up=qq(b), n=n))
                lab.add(m.push((n, a, b)))
            lab.add('bulk')
        elif k == 'pop' or k == 'top':
            if not m.active:
                same(heap.size(), 0, what + ': size')
                continue
            got = key(heap.pop() if k == 'pop' else heap.top())
            require(got in m.active, '%s: item %s is not active', what, got)
            same(got[2], max(i[2] for i in m.active), what + ': upper bound of the top item')
            if k == 'pop':
                m.active.remove(got)
                lab.add('pop')
        elif k == 'raise':
            t = F(op['by']) + (m.good or 0)
            heap.update_good_threshold(qq(t))
            m.good = t
            before = len(m.active)
            m.active = [i for i in m.active if i[2] > t]
            lab.add('raise' if len(m.active) < before else 'raise-idle')
        elif k == 'lower':
            if m.good is None or F(op['by']) == 0:
                continue
            t = m.good - F(op['by'])
            require(raises(ValueError, lambda: heap.update_good_threshold(qq(t))), '%s: the good threshold was lowered', what)
            lab.add('lower')
        elif k == 'bad':
            with output('bad items'):
                got = [key(i) for i in heap.pop_bad_items()]
            same(sorted(got), sorted(m.out), what + ': bad items')
            if m.out:
                lab.add('bad-out')
            m.out = []
        elif k == 'copy':
            if m.good is not None or m.bad is not None or m.keep:
                continue
            if len(pairs) > 5:
                continue
            h2 = heap.copy_and_cleanup(good_threshold=qq(op['good']), bad_threshold=qq(op['bad']))
            m2 = Model(fr(op['good']), fr(op['bad']), False)
            for i in m.active:
                m2.push(i)
            pairs.append((h2, m2))
            lab.add('copy')
        for hp, mm in pairs:
            same(hp.size(), len(mm.active), what + ': size')
            with output('items'):
                got = Counter(key(i) for i in hp.items())
            same(got, Counter(mm.active), what + ': active items')
            if mm.keep and mm.maxlo is not None:
                with output('max_lo_item'):
                    same(conv.f(hp.max_lo_item.lo), mm.maxlo, what + ': largest lower bound')
                    require(key(hp.max_lo_item) in mm.pushed, '%s: the item with the largest lower bound was never pushed', what)
    # drain: order of pops
    for hp, mm in pairs:
        got = []
        while hp.size():
            got.append(key(hp.pop()))
            require(len(got) <= len(mm.active), 'drain: more items than pushed')
        same([g[2] for g in got], sorted((i[2] for i in mm.active), reverse=True), 'drain: upper bounds')
        same(sorted(got), sorted(mm.active), 'drain: items')
        with output('bad items'):
            same(sorted(key(i) for i in hp.pop_bad_items()), sorted(mm.out), 'drain: bad items')
    if 'pop' in lab and lab & {'good', 'bad', 'raise'}:
        lab.add('nontrivial')
    return sorted(lab)


TARGETS = [Target('heap', lambda tier: cases(), check, 4000, 60000, shards=8)]
