"""Runner shared by every check.

A check module defines
    PROPERTY = 'C01'
    SUBS = [Sub(name, strategy, check, quick=N, thorough=M, rule='...'), ...]
where `strategy` is a zero-argument function returning a Hypothesis strategy of
pure data (ints/str/bytes/floats/lists/tuples/dicts) and `check(case, ctx)`
builds the input, drives the real code and compares with the oracle.  Input
construction happens inside `with ctx.building():` so that a mistake of the
harness is an error of the check (exit 2) and never a VIOLATION.

Exit 0: held.  Exit 1: `VIOLATION property=.. replay=..`.  Exit 2: harness error.
"""
import base64
import contextlib
import gc
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import pprint
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XV_REPO', '/repo')
CPU_LIMIT = 30.0      # user-CPU seconds for one case (normal: milliseconds)
SHRINK_WALL = float(os.environ.get('XV_SHRINK_WALL', '45'))    # seconds allowed for shrinking


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class NoTermination(BaseException):
    """a case exceeded its CPU allowance (BaseException, so that neither xlrd nor a check swallows it)"""


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=None, rule='', shards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.shards = shards


class Ctx:
    """Per-case context: labels, non-triviality, building guard, assertions."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.build_error = None

    def label(self, *names):
        for n in names:
            self.labels.add(n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    @contextlib.contextmanager
    def building(self):
        try:
            yield
        except Violation:
            raise
        except Exception as e:
            raise HarnessError('while building a case: %s\n%s' % (e, traceback.format_exc()))

    def eq(self, got, want, what=''):
        if type(got) is float and type(want) is float:
            if got == want and (got != 0 or str(got) == str(want)):
                return
            if got != got and want != want:
                return
            raise Violation('%s: got %r, expected %r' % (what, got, want))
        if got != want:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))

    def true(self, cond, what=''):
        if not cond:
            raise Violation(what)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def import_repo():
    """Import xlrd from /repo's working tree, without writing bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/xv'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import xlrd
    f = os.path.abspath(xlrd.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('xlrd imported from %s' % f)
    return xlrd


def digest(case):
    return hashlib.sha1(repr(case).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def _alarm(signum, frame):
    raise NoTermination('no result after %.0f CPU seconds (such a case normally takes milliseconds)' % CPU_LIMIT)


def run_case(sub, case):
    """-> (ctx, None) or (ctx, violation text). HarnessError propagates."""
    r = _run_case(sub, case)
    if r[1] is not None:
        gc.collect()        # a failed case may have left gigabytes in reference cycles
    return r


def _run_case(sub, case):
    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 5.0)
    try:
        sub.check(case, ctx)
        return ctx, None
    except HarnessError:
        raise
    except (Exception, NoTermination) as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        tb = traceback.format_exc()
        return ctx, ('%s: %s' % (type(e).__name__, e), tb)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shard(modname, subidx, n, seed, q):
    try:
        os.nice(0)
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
        sys.setrecursionlimit(1000)
        res = _shard(modname, subidx, n, seed)
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
        q.put(('ok', subidx, res))
    except BaseException as e:
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
        q.put(('err', subidx, '%s\n%s' % (e, traceback.format_exc())))


def _shard(modname, subidx, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = importlib.import_module(modname)
    sub = mod.SUBS[subidx]
    st = dict(evals=0, labels={}, nontrivial=set(), distinct=set(), samples=[], failure=None)
    fail = dict(first=None, best=None, t0=None, text=None)

    class _Fail(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], print_blob=False)
    @given(sub.strategy())
    def test(case):
        if fail['t0'] is not None and time.monotonic() - fail['t0'] > SHRINK_WALL:
            if case_key(case) == fail['best_key']:
                raise _Fail()
            return
        ctx, bad = run_case(sub, case)
        if fail['t0'] is None:
            st['evals'] += 1
            h = digest(case)
            st['distinct'].add(h)
            for l in ctx.labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if ctx.nontrivial:
                if h not in st['nontrivial'] and len(st['samples']) < 2 and st['evals'] > 3:
                    st['samples'].append(short(case, 700))
                st['nontrivial'].add(h)
        if bad:
            if fail['t0'] is None:
                fail['t0'] = time.monotonic()
            fail['best'] = case
            fail['best_key'] = case_key(case)
            fail['text'] = bad
            raise _Fail()

    def case_key(case):
        return repr(case)

    try:
        test()
    except HarnessError:
        raise
    except _Fail:
        pass
    except BaseException as e:
        if fail['best'] is None:
            raise
    if fail['best'] is not None:
        st['failure'] = (fail['best'], fail['text'])
    return st


def main(argv=None):
    argv = argv or sys.argv[1:]
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args(argv)
    try:
        return _main(a)
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print('HARNESS ERROR: %s' % e)
        return 2


def _main(a):
    t0 = time.monotonic()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    import_repo()
    modname = None
    for fn in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
        if fn.lower().startswith(a.property.lower() + '_') and fn.endswith('.py'):
            modname = 'checks.' + fn[:-3]
    if modname is None:
        raise HarnessError('no check for %s' % a.property)
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        case = pickle.loads(base64.b64decode(rp['pickle']))
        sub = [s for s in mod.SUBS if s.name == rp['sub']][0]
        ctx, bad = run_case(sub, case)
        if bad:
            print(bad[1])
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay: no violation')
        return 0

    for line in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, line))

    jobs = []
    for si, sub in enumerate(mod.SUBS):
        if a.only and sub.name != a.only:
            continue
        total = int((sub.quick if tier == 'quick' else sub.thorough) * a.scale)
        if total < sub.shards:
            sh = max(1, total)
        else:
            sh = sub.shards
        for k in range(sh):
            n = max(1, total // sh)
            jobs.append((si, n, (seed * 7919 + si * 131 + k) % (2 ** 32)))
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    nproc = int(os.environ.get('XV_PROCS', os.cpu_count() or 4))
    pending = list(jobs)
    # interleave so that a failing sub-check is found early
    running = {}
    results = []
    error = None
    while pending or running:
        while pending and len(running) < nproc and not error:
            si, n, sd = pending.pop(0)
            p = ctxm.Process(target=shard, args=(modname, si, n, sd, q))
            p.daemon = True
            p.start()
            running[p.pid] = p
        try:
            results.append(q.get(timeout=1.0))
        except Exception:
            for pid, p in list(running.items()):
                if p.exitcode is not None:
                    # give the queue a moment, then account for a dead worker
                    try:
                        while True:
                            results.append(q.get(timeout=0.5))
                    except Exception:
                        pass
                    del running[pid]
                    if p.exitcode != 0:
                        error = error or 'worker died with exit code %r' % p.exitcode
            if error:
                pending = []
            continue
        for pid, p in list(running.items()):
            if p.exitcode is not None:
                p.join()
                del running[pid]
        if results[-1][0] == 'err':
            error = results[-1][2]
            pending = []
        elif results[-1][2]['failure'] is not None:
            pending = []
            # let shards already running finish briefly, then stop
            tend = time.monotonic() + 1.0
            while running and time.monotonic() < tend:
                time.sleep(0.05)
                for pid, p in list(running.items()):
                    if p.exitcode is not None:
                        del running[pid]
            for p in running.values():
                p.terminate()
            running = {}
    failures = [(mod.SUBS[si], r['failure']) for tag, si, r in results if tag == 'ok' and r['failure']]
    if error and not failures:
        print(error)
        print('HARNESS ERROR in %s' % prop)
        return 2

    # ---- evidence
    evals = 0
    distinct = set()
    nontriv = set()
    labels = {}
    samples = []
    per = {}
    for tag, si, r in results:
        if tag != 'ok':
            continue
        sub = mod.SUBS[si]
        evals += r['evals']
        d = per.setdefault(sub.name, dict(cases=0, nontrivial=0, labels={}))
        d['cases'] += r['evals']
        for h in r['nontrivial']:
            if (sub.name, h) not in nontriv:
                d['nontrivial'] += 1
                nontriv.add((sub.name, h))
        for l, c in r['labels'].items():
            d['labels'][l] = d['labels'].get(l, 0) + c
        if len([s for s in samples if s['sub'] == sub.name]) < 2:
            for s in r['samples']:
                samples.append(dict(sub=sub.name, case=s))
    for d in per.values():
        d['labels'] = dict(sorted(d['labels'].items()))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(nontriv),
            rule=' | '.join('%s: %s' % (s.name, s.rule) for s in mod.SUBS if s.name in per),
            samples=samples, sub_checks=per),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(failures))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if os.environ.get('XV_VERBOSE'):
        print(json.dumps(per, indent=1))
    if failures:
        failures.sort(key=lambda x: len(repr(x[1][0])))
        sub, (case, (msg, tb)) = failures[0]
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, sub.name, digest(case)))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, sub=sub.name, message=msg, traceback=tb,
                           case=short(case, 20000), pickle=base64.b64encode(pickle.dumps(case)).decode(),
                           how='./run %s --replay <this file>' % prop), f, indent=1)
        print('sub-check %s: %s' % (sub.name, msg))
        print('case: %s' % short(case, 1500))
        print(tb[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1fs' % (prop, tier, evals, len(nontriv), time.monotonic() - t0))
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    sys.exit(main())
