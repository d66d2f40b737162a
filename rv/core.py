"""Monitor framework: workload driver, verdicts, evidence and replay files.

Every check module in rv/checks/ supplies
    ID, TECHNIQUE, RULE
    BUDGET = {'quick': n, 'thorough': n}    number of generated cases
    gen(rng, i, tier) -> JSON-able case
    run(case, mon)                          drives the real code; the oracle raises Violation
    fixed(tier) -> iterable of cases        (optional) enumerated cases run before the generated ones
    shrink(case) -> iterable of cases       (optional)
    NEED = {counter: minimum}               (optional) counters that must be reached, else inconclusive

Verdicts: exit 0 held, exit 1 violated (VIOLATION line), exit 3 inconclusive.
"""
import faulthandler
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
NPROC = int(os.environ.get('RV_PROCS', '8'))
CASE_CPU_S = float(os.environ.get('RV_CASE_CPU', '40'))


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Skip(Exception):
    """The case lies outside the property's domain; counted, not judged."""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """What the oracle actually observed."""

    def __init__(self):
        self.counters = {}
        self.distinct = set()
        self.skips = {}
        self.samples = []
        self.auto = []
        self.cases = 0
        self.timeouts = 0
        self.slowest = 0

    def obs(self, kind, key=None, n=1):
        """One deciding comparison of the oracle was made; key identifies a non-trivial observation."""
        self.counters[kind] = self.counters.get(kind, 0) + n
        if key is not None:
            h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest()
            self.distinct.add(h)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def case_rng(seed, pid, i):
    return random.Random("{}/{}/{}".format(seed, pid, i))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, mon, cpu=None):
    """-> None | dict violation.  A case that burns CASE_CPU_S of CPU time is recorded as a timeout violation
    (cases cost milliseconds; CPU time does not depend on machine load)."""
    cpu = cpu or getattr(mod, 'CASE_CPU', CASE_CPU_S)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
    try:
        try:
            mod.run(case, mon)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_IGN)
        return None
    except Skip as s:
        k = str(s) or 'skip'
        mon.skips[k] = mon.skips.get(k, 0) + 1
        return None
    except Violation as v:
        return {'message': v.msg, 'detail': v.detail, 'case': case}
    except CaseTimeout:
        mon.timeouts += 1
        return {'message': 'no termination: {} s of CPU used by one case'.format(cpu), 'detail': {}, 'case': case, 'timeout': True}
    except MemoryError:
        return {'message': 'memory exhausted (limit {} GB)'.format(MEM_GB), 'detail': {}, 'case': case}
    except Exception as e:
        # an exception raised inside the code under test that the monitor did not expect is a violation;
        # one raised in the harness is a harness error
        tb = traceback.extract_tb(e.__traceback__)
        if any('modularcalculator' in f.filename for f in tb):
            return {'message': 'unexpected {} out of the code under test: {}'.format(type(e).__name__, str(e)[:300]),
                    'detail': {'at': str(tb[-1])}, 'case': case}
        raise


MEM_GB = 3


def _case_stream(mod, seed, tier, w, nw, budget):
    if hasattr(mod, 'fixed'):
        for i, case in enumerate(mod.fixed(tier)):
            if i % nw == w:
                yield case
    for i in range(w, budget, nw):
        yield mod.gen(case_rng(seed, mod.ID, i), i, tier)


def _worker(mod, seed, tier, w, nw, budget, wall, conn):
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (MEM_GB << 30, MEM_GB << 30))
    sys.setrecursionlimit(1000)
    devnull = open(os.devnull, 'w')
    real_out = sys.stdout
    sys.stdout = devnull     # the code under test prints diagnostics; monitors observe them explicitly where needed
    mon = Monitor()
    out = {'violations': [], 'error': None, 'truncated': False}
    t0 = time.time()
    try:
        v = run_setup(mod)
        if v is not None:
            out['violations'].append(v)
            budget, mod = 0, _Nothing
        for case in _case_stream(mod, seed, tier, w, nw, budget):
            if time.time() - t0 > wall:
                out['truncated'] = True
                break
            mon.cases += 1
            t1 = time.process_time()
            v = run_case(mod, case, mon)
            mon.slowest = max(mon.slowest, time.process_time() - t1)
            if mon.cases in (5, 50, 100) and not mon.samples:
                mon.auto.append(str(case)[:300])
            if v is not None:
                # confirm once: the verdict must be reproducible
                v2 = run_case(mod, case, Monitor(), cpu=3 * (getattr(mod, 'CASE_CPU', CASE_CPU_S)) if v.get('timeout') else None)
                if v.get('timeout') and v2 is None:
                    mon.skips['a slow case that ends in time when given three times as much'] = \
                        mon.skips.get('a slow case that ends in time when given three times as much', 0) + 1
                    continue
                v['reproduced'] = v2 is not None
                v = shrink(mod, v, time.time() + 20)
                out['violations'].append(v)
                if len(out['violations']) >= 3 or v.get('timeout'):
                    break
    except BaseException:
        out['error'] = traceback.format_exc()
    sys.stdout = real_out
    out['mon'] = {'counters': mon.counters, 'distinct': mon.distinct, 'skips': mon.skips, 'samples': mon.samples or mon.auto,
                  'cases': mon.cases, 'timeouts': mon.timeouts, 'slowest': mon.slowest}
    conn.send(out)
    conn.close()


class _Nothing:
    ID = ''


def run_setup(mod):
    """The module's own setup builds calculators: a failure inside the code under test is a violation."""
    if not hasattr(mod, 'setup'):
        return None
    try:
        mod.setup()
    except Violation as v:
        return {'message': v.msg, 'detail': v.detail, 'case': 'setup', 'reproduced': True}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('modularcalculator' in f.filename for f in tb):
            return {'message': 'unexpected {} while building a calculator: {}'.format(type(e).__name__, str(e)[:300]),
                    'detail': {'at': str(tb[-1])}, 'case': 'setup', 'reproduced': True}
        raise
    return None


def shrink(mod, v, deadline):
    if not hasattr(mod, 'shrink') or v.get('timeout'):
        return v
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for c in mod.shrink(v['case']):
            if time.time() > deadline:
                break
            try:
                v2 = run_case(mod, c, Monitor(), cpu=5)
            except Exception:
                continue
            if v2 is not None and not v2.get('timeout'):
                v2['shrunk'] = True
                v2['reproduced'] = True
                v = v2
                improved = True
                break
    return v


def jdefault(o):
    return repr(o)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path))['findings']


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--seed':
            seed = int(a.pop(0))
        elif x == '--replay':
            replay = a.pop(0)
    if replay:
        return do_replay(mod, replay)
    t0 = time.time()
    scale = float(os.environ.get('RV_SCALE', '1'))
    budget = int(mod.BUDGET[tier] * scale)
    wall = getattr(mod, 'WALL', {'quick': 420, 'thorough': 5400})[tier]
    ctx = multiprocessing.get_context('fork')
    procs = []
    if hasattr(mod, 'preload'):
        try:
            mod.preload()
        except Exception:
            pass        # comes back in every worker's setup, where it is judged
    for w in range(NPROC):
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(mod, seed, tier, w, NPROC, budget, wall, s))
        p.start()
        s.close()
        procs.append((p, r))
    mon = Monitor()
    violations, errors, truncated = [], [], False
    for p, r in procs:
        try:
            out = r.recv()
        except EOFError:
            out = None
        p.join()
        if out is None:
            errors.append('worker died with exit code {}'.format(p.exitcode))
            continue
        m = out['mon']
        for k, n in m['counters'].items():
            mon.counters[k] = mon.counters.get(k, 0) + n
        for k, n in m['skips'].items():
            mon.skips[k] = mon.skips.get(k, 0) + n
        mon.distinct |= m['distinct']
        mon.samples.extend(m['samples'])
        mon.cases += m['cases']
        mon.slowest = max(mon.slowest, m['slowest'])
        violations.extend(out['violations'])
        truncated |= out['truncated']
        if out['error']:
            errors.append(out['error'])

    # known findings of this property: specific inputs, re-executed on every run
    for f in load_known():
        if f.get('property') != mod.ID or f.get('status') == 'fixed':
            continue
        still = mod.known_still_fails(f) if hasattr(mod, 'known_still_fails') else default_known(mod, f)
        if still:
            print('KNOWN-FINDING: property={} {}'.format(mod.ID, f['what']))
        mon.obs('known_finding_probe')

    need = dict(getattr(mod, 'NEED', {}))
    missing = {k: (mon.counters.get(k, 0), n) for k, n in need.items() if mon.counters.get(k, 0) < n}
    if not need and sum(mon.counters.values()) == 0:
        missing = {'any': (0, 1)}

    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': mon.cases,
            'distinct_nontrivial': len(mon.distinct),
            'rule': mod.RULE,
            'samples': (mon.samples or ['(none)'])[:12],
            'oracle_comparisons': mon.counters,
            'skipped_outside_domain': mon.skips,
            'stopped_by_wall_limit': truncated,
            'slowest_case_cpu_s': round(mon.slowest, 2),
            'workers': NPROC,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, mod.ID + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=jdefault, ensure_ascii=True)

    print('{} {} seed={} cases={} comparisons={} distinct={} skipped={} wall={:.1f}s'.format(
        mod.ID, tier, seed, mon.cases, sum(mon.counters.values()), len(mon.distinct), sum(mon.skips.values()), time.time() - t0))
    if violations:
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for v in violations[:8]:
            blob = json.dumps(v['case'], sort_keys=True, default=jdefault)
            name = '{}-{}.json'.format(mod.ID, hashlib.sha1(blob.encode('utf-8', 'surrogatepass')).hexdigest()[:10])
            if name in shown:
                continue
            shown.add(name)
            path = os.path.join(rdir, name)
            with open(path, 'w') as fh:
                json.dump({'property': mod.ID, 'seed': seed, 'tier': tier, 'case': v['case'], 'message': v['message'],
                           'detail': v['detail'], 'reproduced': v.get('reproduced')}, fh, indent=1, default=jdefault)
            print('  ' + v['message'][:600].replace('\n', '\\n'))
            for k, d in v['detail'].items():
                print('    {}: {}'.format(k, str(d)[:400].replace('\n', '\\n')))
            print('VIOLATION property={} replay={}'.format(mod.ID, path))
        return 1
    if errors:
        print('INCONCLUSIVE: harness error')
        for e in errors[:2]:
            print(e)
        return 3
    if missing:
        print('INCONCLUSIVE: the deciding monitor was not reached often enough:', missing)
        return 3
    return 0


def default_known(mod, f):
    v = run_case(mod, f['case'], Monitor())
    return v is not None


def do_replay(mod, path):
    d = json.load(open(path))
    v = run_setup(mod)
    if v is None and d['case'] != 'setup':
        v = run_case(mod, d['case'], Monitor())
    if v is None:
        print('replay: held')
        return 0
    print('replay:', v['message'])
    for k, x in v['detail'].items():
        print('   {}: {}'.format(k, x))
    print('VIOLATION property={} replay={}'.format(mod.ID, path))
    return 1
