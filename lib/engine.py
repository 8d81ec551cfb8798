"""
Check driver: property-based testing with Hypothesis, sharded over worker processes.

A check module (checks/Cxx.py) defines
    PROPERTY, RULE, ASSUMPTIONS, TARGETS = [Target(...), ...]
A Target draws a JSON-able case from a Hypothesis strategy and decides it with
check(case): it raises Violation when the oracle refutes the property.
It may return an iterable of labels (classification), the label 'nontrivial'
marks the case as non-trivial by RULE.

Exit codes of run_check.py: 0 held, 1 VIOLATION, 2 error of the check itself.
"""
import contextlib
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter
from dataclasses import dataclass
from typing import Any, Callable

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CASE_CPU_S = 150          # user CPU seconds of one case; typical cases take well below a few seconds
SHRINK_S = 45             # wall seconds spent on shrinking after the first failure
MEM_LIMIT = 5 << 30
DEADLINE_S = {'quick': 600, 'thorough': 6 * 3600}    # wall seconds; a run that is cut short says so in its evidence


class Violation(Exception):
    """The property is broken for this case."""


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, brief(got), brief(want)))


def brief(x, n=300):
    s = str(x) if not isinstance(x, (list, tuple, set, dict)) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


@contextlib.contextmanager
def output(what):
    """Reading a value produced by the code under test: a malformed value is a violation."""
    try:
        yield
    except (Violation, CaseTimeout):
        raise
    except Exception as e:
        raise Violation('%s: malformed result (%s: %s)' % (what, type(e).__name__, e))


def raises(exc, fn):
    """True iff fn() raises exc; other exceptions propagate."""
    try:
        fn()
    except exc:
        return True
    return False


@dataclass
class Target:
    name: str
    strategy: Callable[[str], Any]      # tier -> Hypothesis strategy of cases
    check: Callable[[Any], Any]
    quick: int                          # total number of generated cases, all shards together
    thorough: int
    shards: int = 1                     # quick tier shards
    fixed: Callable[[str], Any] | None = None    # tier -> iterable of fixed cases, run by shard 0.. (round robin)
    cpu_s: int = CASE_CPU_S


# --------------------------------------------------------------------------- worker

def _frames_in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


def run_case(target, case):
    """Returns (violation message or None, labels); other exceptions are harness errors."""
    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, target.cpu_s)
    try:
        labels = target.check(case)
        return None, tuple(labels or ())
    except Violation as e:
        return str(e), ()
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return 'TIMEOUT: the code did not return within %d s of CPU time' % target.cpu_s, ()
    except ImportError:
        raise
    except MemoryError:
        return 'MEMORY: the code exhausted %d MB' % (MEM_LIMIT >> 20), ()
    except Exception as e:
        if _frames_in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            return 'unexpected %s: %s at %s:%s' % (type(e).__name__, brief(str(e)), tb[-1].filename, tb[-1].name), ()
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.failure = None
        self.first_fail = None
        self.max_cpu = 0.0
        self.slowest = None
        self.failing = 0

    def out(self, done, **kw):
        return dict(evaluations=self.evaluations, nontrivial=sorted(self.nontrivial), labels=dict(self.labels),
                    samples=self.samples, failure=self.failure, max_cpu=self.max_cpu, slowest=self.slowest, done=done, **kw)


def worker(mod, tname, shard, nshards, tier, seed, outfile):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    target = next(t for t in mod.TARGETS if t.name == tname)
    rec = Recorder()
    deadline = float(os.environ.get('VERIF_DEADLINE') or time.time() + DEADLINE_S[tier])

    def flush(done=False, **kw):
        tmp = outfile + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(rec.out(done, **kw), f)
        os.replace(tmp, outfile)

    class Found(Exception):
        pass

    def one(case):
        if rec.first_fail is None and time.time() > deadline:
            flush(True, truncated=True)
            os._exit(0)
        if rec.first_fail is not None and time.time() - rec.first_fail > SHRINK_S:
            return  # shrinking budget is used up; the recorded failure stands
        rec.evaluations += 1
        c0 = time.process_time()
        msg, labels = run_case(target, case)
        cpu = time.process_time() - c0
        if cpu > rec.max_cpu:
            rec.max_cpu, rec.slowest = cpu, case
        if msg is None:
            for l in labels:
                rec.labels[l] += 1
            if 'nontrivial' in labels:
                h = digest(case)
                if h not in rec.nontrivial:
                    rec.nontrivial.add(h)
                    if len(rec.samples) < 2:
                        rec.samples.append(case)
            return
        size = len(json.dumps(case))
        if rec.failure is None or size <= rec.failure['size']:
            rec.failure = {'target': tname, 'case': case, 'message': msg, 'size': size}
        if rec.first_fail is None:
            rec.first_fail = time.time()
        flush()
        if msg.startswith(('TIMEOUT', 'MEMORY')):
            flush(True)
            os._exit(0)     # shrinking would repeat the hang
        raise Found(msg)

    if target.fixed is not None:
        for i, case in enumerate(target.fixed(tier)):
            if i % nshards == shard:
                try:
                    one(case)
                except Found:
                    flush(True)
                    return
    total = target.quick if tier == 'quick' else target.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = int(total * scale) // nshards + (1 if shard < int(total * scale) % nshards else 0)
    if n > 0:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        sd = zlib.crc32(('%s/%s/%d/%d' % (mod.PROPERTY, tname, shard, seed)).encode())

        @hypothesis.seed(sd)
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
        @given(target.strategy(tier))
        def test(case):
            one(case)

        try:
            test()
        except Exception:
            if rec.failure is None:
                raise
    flush(True)


# --------------------------------------------------------------------------- parent

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--worker', nargs=4, metavar=('TARGET', 'SHARD', 'NSHARDS', 'OUT'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='only this target')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    mod = importlib.import_module('checks.' + a.property)

    if a.worker:
        tname, shard, nshards, out = a.worker
        worker(mod, tname, int(shard), int(nshards), a.tier, a.seed, out)
        return 0

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        target = next(t for t in mod.TARGETS if t.name == rep['target'])
        msg, labels = run_case(target, rep['case'])
        if msg is None:
            print('replay: property held', labels)
            return 0
        print('replay:', msg)
        print('VIOLATION property=%s replay=%s' % (a.property, a.replay))
        return 1

    return parent(mod, a)


def parent(mod, a):
    t0 = time.time()
    os.environ['VERIF_DEADLINE'] = str(t0 + DEADLINE_S[a.tier])
    prop = mod.PROPERTY
    targets = [t for t in mod.TARGETS if a.only is None or t.name == a.only]
    tasks = []
    for t in targets:
        k = t.shards if a.tier == 'quick' else max(8, t.shards)
        for s in range(k):
            tasks.append((t.name, s, k))
    # interleave so that long targets start first
    tasks.sort(key=lambda x: x[1])
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    running, results, failures, errors = {}, [], [], []
    try:
        pending = list(tasks)
        while pending or running:
            while pending and len(running) < JOBS:
                tn, s, k = pending.pop(0)
                out = os.path.join(tmp, '%s.%d.json' % (tn, s))
                err = open(out + '.err', 'w')
                cmd = [sys.executable, '-W', 'ignore', os.path.join(ROOT, 'run_check.py'), prop, '--tier', a.tier, '--seed', str(a.seed),
                       '--worker', tn, str(s), str(k), out]
                p = subprocess.Popen(cmd, stdout=err, stderr=err, cwd=ROOT)
                running[p] = (tn, s, out)
                err.close()
            time.sleep(0.05)
            for p in list(running):
                if p.poll() is None:
                    continue
                tn, s, out = running.pop(p)
                res = None
                if os.path.exists(out):
                    with open(out) as f:
                        res = json.load(f)
                if res is not None:
                    results.append((tn, s, res))
                    if res['failure']:
                        failures.append(res['failure'])
                if (p.returncode != 0 or res is None or not res['done']) and not (res and res['failure']):
                    with open(out + '.err') as f:
                        errors.append((tn, s, p.returncode, f.read()[-3000:]))
            if failures or errors:
                # no need to go on; keep the failures that were already flushed by other workers
                pending = []
                for p in list(running):
                    p.kill()
                    p.wait()
                    tn, s, out = running.pop(p)
                    if os.path.exists(out):
                        with open(out) as f:
                            res = json.load(f)
                        results.append((tn, s, res))
                        if res['failure']:
                            failures.append(res['failure'])
    finally:
        for p in running:
            p.kill()
        subprocess.call(['rm', '-rf', tmp])

    nontrivial = set()
    labels = Counter()
    samples, evals, max_cpu = [], 0, 0.0
    per_target = Counter()
    per_nt = {}
    for tn, s, r in results:
        evals += r['evaluations']
        per_target[tn] += r['evaluations']
        max_cpu = max(max_cpu, r['max_cpu'])
        per_nt.setdefault(tn, set()).update(r['nontrivial'])
        nontrivial.update(tn + h for h in r['nontrivial'])
        for l, c in r['labels'].items():
            labels[tn + ':' + l] += c
        if s == 0:
            samples += [{'target': tn, 'case': c} for c in r['samples'][:1]]
    wall = time.time() - t0
    if os.environ.get('VERIF_SLOW') and results:
        for tn, s, r in sorted(results, key=lambda x: -x[2]['max_cpu'])[:3]:
            print('slow: %s %.1fs %s' % (tn, r['max_cpu'], json.dumps(r['slowest'])))
    evid = {
        'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'evaluations_by_target': dict(per_target),
            'nontrivial_by_target': {k: len(v) for k, v in per_nt.items()},
            'labels': dict(sorted(labels.items())),
            'max_case_cpu_s': round(max_cpu, 2),
            'truncated_shards': sum(1 for _, _, r in results if r.get('truncated')),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
        f.write('\n')

    if failures:
        fl = min(failures, key=lambda x: x['size'])
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%s.json' % (prop, digest(fl['case'])))
        with open(path, 'w') as f:
            json.dump({'property': prop, **fl}, f, indent=1)
            f.write('\n')
        print('%s/%s: %s' % (prop, fl['target'], fl['message']))
        print('case: %s' % brief(json.dumps(fl['case']), 1500))
        print('re-run: python run_check.py %s --replay %s' % (prop, path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for tn, s, rc, text in errors[:3]:
            print('ERROR in %s shard %d (exit %s)\n%s' % (tn, s, rc, text), file=sys.stderr)
        print('CHECK-ERROR property=%s' % prop)
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs max_case_cpu=%.2fs' % (prop, a.tier, a.seed, evals, len(nontrivial), wall, max_cpu))
    return 0
