"""C22: calculators are isolated from each other and work from any thread."""
import contextlib
import io
import multiprocessing
import os
import pickle
import random
import signal
import struct
import sys
import threading
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *
from modularcalculator.objects.items import LiteralItem, OperandResult
from modularcalculator.objects.operators import OperationResult, OperatorDefinition
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.units import UnitDefinition

ID = 'C22'
TECHNIQUE = ('runtime monitor, differential: the operations of several calculators (create, configure, define, calculate, display, in 2-4 histories) are executed interleaved call by call, handed between '
             'threads, and preemptively concurrent with a tiny switch interval; every output must equal that of the same history executed alone in a pristine process forked before any calculator existed')
RULE = ('2-4 histories of 6-16 operations each (preset or feature set, number size, decimal places, rounding, options, unit system preference, custom functions, constants, units, operators and parsers; '
        'generated programs and setting-sensitive statements; delayed displays); random merges of the histories; distinct by history and merge')
BUDGET = {'quick': 1500, 'thorough': 22000}
NEED = {'interleaved': 360, 'handoff': 180, 'concurrent': 200, 'op': 30000, 'overlap': 3000, 'create': 2300, 'config': 2500, 'delayed': 1500}
ASSUMPTIONS = ['one calculator is not used by two threads at the same time']
CASE_CPU = 90

SENSITIVE = ['2/3', '-2/3', '1/7', '22/7 * 10^20', '10^50/3', '1/3 + 1/6', '5/8', '1.005 * 1.005', 'round(2.345, 2)', 'sqrt = 2^(1/2)', '2^(1/2)', 'log(7, 3)', 'exp(1)', 'sin(1 radian)', 'mean(1, 2, 4)',
             'stdev(1, 2, 5)', '1 pint to liters', '1 gallon to liters', '2 tons to kg', '1 ton to kg', 'compact(123456 m)', 'format(5.432 hours)', 'format(12345.678 feet)', '3 m * 4 m', '5 N * 2 m', '10 m / 4 s', '1/3 as scientific',
             'hex(1/3)', '2/3 as percentage', '0b101 & 3', "'2020-01-31' +% 1.5 days", "dateformat('2020-02-29')", "'a' +$ 2/3", 'length(2/3)', '100 celsius to fahrenheit', 'pi * 2', 'abc', 'xx', 'hello', 'hello * 2',
             'twist(5)', 'twist(2/3)', '5 zorgs', '10 zorgs to meters', '10 %% 3' if False else '7 ?? 2', 'kappa', 'kappa + 1', '[1, 2] * 2/3', '1/3 to hours', 'sp_gamma(5.5)', '@ff(3)', 'gg = { PARAM1 / 3 }', '@gg(2)',
             'ff = { PARAM1 * 2/3 }', 'abc = 2/3', 'abc ||= 7/11', 'abc += 1/3', 'xx = 5', 'xx++', 'xx', 'delete(xx)', 'reset()', '5; 6', '5 ; 7 # x', '3 # 4', '4 ~~ 5', '1e3 + 1', '1E3 + 1', 'now = 5' if False else '1 == 1.0',
             '1 mile to km', '1 nauticalmile to km', '12.5 gb to mb', '5 | 2', "'\"'", 'c * 2', 'g * 2', '2 h', 'speedoflight', '1 week to days', "split('a b', ' ')", "'ab' =~ 'a.'", 'true and 1 < 2']

ROUND = ['ROUND_HALF_UP', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_HALF_EVEN', 'ROUND_FLOOR', 'ROUND_CEILING']
PRESETS = ['Basic', 'Advanced', 'Scientific', 'Computing', 'Computing', 'Computing', 'Computing', 'Scientific']
FEATURES = ['strings.strings', 'boolean.booleans', 'arrays.arrayfunctions', 'numerical.hexadecimalnumbers', 'unitdefinitions.distance', 'units.unitsymbols', 'state.assignment', 'structure.terminator',
            'nonfunctional.comments', 'nonfunctional.space', 'numerical.numericalfunctions', 'dates.datefunctions']


OPTIONS = {
    ('structure.terminator', 'Symbol'): ['\n', ';', '|||', '!', '.'],
    ('structure.functionpointers', 'Symbol'): ['@', '$', '&&', '?'],
    ('nonfunctional.comments', 'Symbol'): ['#', '$', '?', '"', '!'],
    ('numerical.expnumbers', 'Symbol'): ['E', 'T', 'P', 'e', 'exp', 'pow', 'X'],
    ('strings.strings', 'Symbol'): ["'", '"', '`', '|'],
    ('strings.strings', 'Escape Char'): ['\\', '^', '/', '%'],
    ('arrays.arrays', 'Open'): ['[', '<', '[[', '<<'],
    ('arrays.arrays', 'Close'): [']', '>', ']]', '>>'],
    ('arrays.arrays', 'Param'): [',', '|', ':', ',,'],
    ('arrays.arrays', 'Range'): ['..', '::', 'to..', '...'],
    ('arrays.arrays', 'Step'): ['step', 'with', 'by', 'stride'],
    ('dates.dates', 'Date Format'): ['%Y-%m-%d', '%d/%m/%Y', '%m/%d/%Y'],
    ('dates.dates', 'Date + Time Format'): ['%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S'],
    ('dates.datefunctions', 'Human Readable Date Format'): ['%A, %d-%b-%Y', '%d %B %Y', '%j %Y'],
    ('dates.datefunctions', 'Human Readable Date + Time Format'): ['%A, %d-%b-%Y at %H:%M:%S', '%H %M %S'],
}
DEFAULT = {k: v[0] for k, v in OPTIONS.items()}

# statements written with a calculator's option symbols
STYLED = ['2{numerical.expnumbers:Symbol}3 + 1', '5.5{numerical.expnumbers:Symbol}-2', '{q}ab{q} +$ {q}c{strings.strings:Escape Char}{q}d{q}', 'length({q}x{strings.strings:Escape Char}{strings.strings:Escape Char}{q})',
          '{arrays.arrays:Open}1{arrays.arrays:Param} 2{arrays.arrays:Close} * 2/3', '{arrays.arrays:Open}1 {arrays.arrays:Range} 9 {arrays.arrays:Step} 2{arrays.arrays:Close}',
          'sum({arrays.arrays:Open}1 {arrays.arrays:Range} 4{arrays.arrays:Param} 2/3{arrays.arrays:Close})', '{structure.functionpointers:Symbol}ff(3)', '5 {nonfunctional.comments:Symbol} 6',
          '7{structure.terminator:Symbol}8', 'ff = {{ PARAM1 * 2/3 }}', 'dateformat({q}2020-02-29{q})', 'dateformat({q}02/03/2020{q})', 'dateadd({q}03/02/2020{q}, 1.5 days)', 'dateadd({q}2020-02-03{q}, 36 hours)',
          'datedifference({q}02/03/2020{q}, {q}03/02/2020{q})', '123456 m * 3 m', 'compact(0.004 kg m / s^2)', '2000000 J / 1 hour', '({q}2{numerical.expnumbers:Symbol}3{q} + 1)', 'scientific(12345)', '2/3 as scientific']


def styled(rng, own, anyone):
    t = rng.choice(STYLED)
    src = own if rng.random() < .65 else {k: rng.choice([anyone[k], rng.choice(OPTIONS[k])]) for k in OPTIONS}
    t = t.replace('{q}', src['strings.strings', 'Symbol'])
    for (f, n), v in src.items():
        t = t.replace('{' + f + ':' + n + '}', v)
    return t.replace('{{', '{').replace('}}', '}')


def config_op(rng):
    k = rng.randrange(24)
    if k == 0:
        return ['size', rng.choice([40, 60, 80, 150])]
    if k in (1, 2):
        return ['prec', rng.choice([2, 3, 5, 10, 20, 35])]
    if k in (3, 4):
        return ['round', rng.choice(ROUND)]
    if k in (5, 6, 7, 8):
        feature, name = rng.choice(sorted(OPTIONS))
        return ['option', feature, name, rng.choice(OPTIONS[feature, name])]
    if k == 9:
        return ['systems', rng.random()]
    if k == 10:
        return ['simplify', rng.random() < .5]
    if k == 11:
        return ['func', rng.randint(2, 99)]
    if k == 12:
        return ['const', rng.randint(2, 99)]
    if k == 13:
        return ['unit', rng.randint(2, 99)]
    if k in (16, 17):
        return ['simplifier', rng.randrange(4), rng.choice([0, 1, 2, 4, 7])]
    if k == 20:
        return ['preset', rng.choice(['Basic', 'Advanced', 'Scientific', 'Computing']), rng.choice(FEATURES + ['dates.dates', 'bases'])]
    if k == 21:
        return ['oplevel', rng.random(), rng.randint(2, 99)]
    if k == 22:
        return ['restrict', rng.choice(['abs', 'round', 'log', 'sin', 'length', 'mean', 'dateformat', 'compact', 'split']), rng.choice(['string', 'number', 'boolean', 'array'])]
    if k == 23:
        return ['restrictop', rng.choice(['+', '*', '/', '+$', 'to', '=~', '&', '<']), rng.choice(['string', 'number', 'boolean', 'unit'])]
    if k in (18, 19):
        return ['unitsys', rng.choice(['metre', 'foot', 'mile', 'gram', 'pound', 'ounce', 'hour', 'inch', 'joule', 'newton', 'week', 'yard']), rng.choice(['si', 'uk', 'us', 'gregorian', 'nautical', 'mine']), rng.random() < .5,
                rng.random() < .5]
    if k == 14:
        return ['parser', rng.randint(2, 99)]
    return ['operator', rng.randint(2, 99)]


def history(rng, tier, anyone):
    own = dict(DEFAULT)
    if rng.random() < .8:
        ops = [['create', rng.choice(PRESETS)]]
    else:
        ops = [['create', rng.sample(FEATURES, rng.randint(1, 6)) + ['numerical.decimalnumbers', 'numerical.basicarithmetic', 'nonfunctional.space']]]
    n = rng.randint(7, 18)
    g = progs.Gen(rng, errors=.05)
    calcs = 0
    first = rng.choice([0, 0, 1, 2, 4])
    for j in range(n):
        r = rng.random() if j >= first else 0
        if r < .25:
            ops.append(config_op(rng))
            while j < first and ops[-1][0] in ('simplifier', 'func', 'const') and rng.random() < .7:
                ops[-1] = config_op(rng)
            if ops[-1][0] == 'option':
                own[ops[-1][1], ops[-1][2]] = anyone[ops[-1][1], ops[-1][2]] = ops[-1][3]
        elif r < .4:
            ops.append(['calc', own['structure.terminator', 'Symbol'].join(styled(rng, own, anyone) for _ in range(rng.choice([1, 1, 2])))])
            calcs += 1
        elif r < .66:
            ops.append(['calc', '\n'.join(rng.choice(SENSITIVE) for _ in range(rng.choice([1, 1, 1, 2, 3])))])
            calcs += 1
        elif r < .8:
            ops.append(['calc', progs.render_program(g.program(rng.randint(1, 3), 2), rng, 'spaced')])
            calcs += 1
        elif calcs:
            ops.append(['show', rng.randrange(calcs)])
        if rng.random() < .05:
            ops.append(['install', rng.sample(FEATURES, rng.randint(1, 3))])
        if rng.random() < .05:
            ops.append(['stateless', rng.choice(SENSITIVE)])
    ops += [['show', k] for k in range(calcs) if rng.random() < .3]
    ops.append(['vars'])
    return ops


def gen(rng, i, tier):
    k = rng.choice([2, 2, 3, 3, 4])
    anyone = dict(DEFAULT)
    hs = [history(rng, tier, anyone) for _ in range(k)]
    if rng.random() < .3:
        # the same history twice at once
        hs[-1] = hs[0]
    r = rng.random()
    kind = 'interleaved' if r < .45 else 'handoff' if r < .7 else 'concurrent'
    case = {'kind': kind, 'h': hs, 'seed': rng.randint(0, 10 ** 9)}
    if kind == 'concurrent':
        case['interval'] = rng.choice([1e-6, 1e-5, 1e-5, 1e-4, 5e-3])
        case['made'] = rng.choice(['own', 'main'])
    else:
        order = [j for j, h in enumerate(hs) for _ in h]
        if rng.random() < .8:
            rng.shuffle(order)
        case['order'] = order
    return case


def layout(c):
    """What a host can see of a calculator that has just been made."""
    out = [sorted((n, list(f)) for n, f in c.preset_list.items()), sorted(c.feature_list), sorted(c.features_to_install), sorted(c.feature_options)]
    for a in ('op_map', 'parser_map', 'validators', 'number_types', 'funcs', 'constants', 'vars', 'ops_list'):
        v = getattr(c, a, None)
        out.append(None if v is None else [sorted(x) if isinstance(x, (set, frozenset)) else str(x) for x in (sorted(v) if isinstance(v, dict) else v)])
    return out


class Actor:
    """One calculator and its history."""

    def __init__(self):
        self.c = None
        self.done = []

    def do(self, op):
        try:
            return self._do(op)
        except Exception as e:
            # the outcome of a configuration that does not apply (eg an option of a feature that is not there) is that error
            return ('raised', type(e).__name__, str(e)[:200])

    def _do(self, op):
        c, k = self.c, op[0]
        if k == 'create':
            if isinstance(op[1], str):
                self.c = ModularCalculator(op[1])
            else:
                self.c = ModularCalculator()
                self.c.install_features(op[1])
            return ('created', sorted(self.c.installed_features), layout(self.c))
        if k == 'install':
            c.install_features(op[1])
            return ('installed', sorted(c.installed_features))
        if k == 'calc' or k == 'stateless':
            o = calc(c, op[1], {'stateless': True} if k == 'stateless' else None)
            if k == 'calc':
                self.done.append(o)
            return ('calc', plain_out(c, o, True))
        if k == 'show':
            o = self.done[op[1]]
            return ('show', [show(c, x) for x in o.results if x.has_result()])
        if k == 'vars':
            return ('vars', sorted(vars_plain(c).items()))
        if k == 'size':
            c.number_size_set(op[1])
        elif k == 'prec':
            c.number_prec_set(op[1])
        elif k == 'round':
            c.number_set_rounding(op[1])
        elif k == 'option':
            c.feature_options[op[1]][op[2]] = op[3]
        elif k == 'simplify':
            c.unit_simplification_set(op[1])
        elif k == 'simplifier':
            n = c.unit_normaliser
            if op[1] == 0:
                n.simplify_allow_prefixed_units = op[2] % 2 == 0
            elif op[1] == 1:
                n.simplify_preferred_magnitude = op[2]
            elif op[1] == 2:
                n.simplify_penalise_below = Number(op[2])
            else:
                n.simplify_penalty = op[2]
        elif k == 'systems':
            random.Random(op[1]).shuffle(c.unit_normaliser.systems_preference)
        elif k == 'func':
            f = op[1]
            c.funcs['twist'] = FunctionDefinition('Custom', 'twist', 'Multiplies', ['x'], lambda self, vals, units, refs, flags: OperationResult(vals[0] * Number(f)), 1, 1, 'number')
        elif k == 'const':
            c.constants['kappa'] = Number(op[1])
        elif k == 'unit':
            n = op[1]

            class Zorg(UnitDefinition):
                namelist = ['zorgs', 'zorg']
                unitscale = Number(n)
                systems = []
            c.unit_normaliser.add_unit('distance', Zorg())
        elif k == 'unitsys':
            for u in c.unit_normaliser.list_units():
                if op[1] in u.names() and getattr(u, 'systems', None) is not None:
                    lst = u.systems if op[4] else u.relevant_to_systems
                    if op[3]:
                        lst.insert(0, op[2])
                    else:
                        del lst[:]
        elif k == 'preset':
            c.preset_list[op[1]].append(op[2])
        elif k == 'oplevel':
            n = op[2]
            if not any('??' in p for p in c.op_map):
                level = c.op_map[int(op[1] * len(c.op_map))]
                if not any(o.rtl for s, o in c.ops_list.items() if s in level):
                    level.add('??')
                    c.add_op(OperatorDefinition('Custom', '??', 'Custom', lambda self, vals, units, refs, flags: OperationResult(vals[0] * Number(n) + vals[1]), 1, 1, 'number'))
                    c.setup()
        elif k == 'restrict':
            c.funcs[op[1]].add_value_restriction(0, 0, op[2])
        elif k == 'restrictop':
            c.ops_list[op[1]].add_value_restriction(0, 0, op[2])
        elif k == 'parser':
            n = op[1]
            if 'hello' not in c.parser_map:
                c.parser_map.insert(c.parser_map.index('var'), 'hello')

            def parse_hello(self, expr, i, items, flags):
                if expr[i:i + 5] == 'hello':
                    return [LiteralItem('hello', Number(n))], 5, None
                return None, None, None
            c.add_parser('hello', parse_hello)
        elif k == 'operator':
            n = op[1]
            if not any('??' in p for p in c.op_map):
                c.op_map.insert(n % len(c.op_map), {'??'})
            c.add_op(OperatorDefinition('Custom', '??', 'Custom', lambda self, vals, units, refs, flags: OperationResult(vals[0] * Number(n) + vals[1]), 1, 1, 'number'))
            c.setup()
        return ('config', k)


# --- the pristine process -----------------------------------------------------------------------------------------
def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('>Q', len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    n = struct.unpack('>Q', h)[0]
    return pickle.loads(f.read(n))


_Z = {}


def _zygote(rf, wf):
    while True:
        h = _recv(rf)
        if h is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(60)
                a = Actor()
                with contextlib.redirect_stdout(io.StringIO()):
                    out = [a.do(op) for op in h]
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(out))
            except BaseException as e:
                try:
                    os.write(2, repr(e).encode())
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        _send(wf, pickle.loads(data) if data else None)


def setup():
    """Forked before this worker makes its first calculator."""
    if _CACHE_USED():
        raise RuntimeError('calculators already exist')
    a, b = os.pipe()
    c, d = os.pipe()
    # all modules are imported in the zygote, but no calculator was ever there
    import_features()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        signal.setitimer(signal.ITIMER_PROF, 0)
        _zygote(os.fdopen(a, 'rb'), os.fdopen(d, 'wb'))
    os.close(a)
    os.close(d)
    _Z['w'], _Z['r'] = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')


def import_features():
    import importlib
    import modularcalculator.modularcalculator as m
    top = os.path.join(os.path.dirname(m.__file__), 'features')
    for d in sorted(os.listdir(top)):
        p = os.path.join(top, d)
        if os.path.isdir(p) and d != '__pycache__':
            for n in sorted(os.listdir(p)):
                if n.endswith('.py') and not n.startswith('__'):
                    importlib.import_module('modularcalculator.features.{}.{}'.format(d, n[:-3]))


def _CACHE_USED():
    from rv import lib
    return bool(lib._CACHE)


_ALONE = {}


def alone(h):
    key = repr(h)
    if key not in _ALONE:
        if len(_ALONE) > 200:
            _ALONE.clear()
        _send(_Z['w'], h)
        r = _recv(_Z['r'])
        if r is None:
            raise Skip('the history alone does not finish')
        _ALONE[key] = r
    return _ALONE[key]


class Pool(threading.Thread):
    """A thread that executes what it is handed."""

    def __init__(self):
        super().__init__(daemon=True)
        self.go, self.ready = threading.Semaphore(0), threading.Semaphore(0)
        self.job = None
        self.out = None
        self.start()

    def run(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            try:
                self.out = self.job()
            except BaseException as e:
                self.out = ('harness', repr(e))
            self.ready.release()

    def call(self, f):
        self.job = f
        self.go.release()
        self.ready.acquire()
        return self.out

    def stop(self):
        self.job = None
        self.go.release()
        self.join()


CONFIG = {'size', 'prec', 'round', 'option', 'simplify', 'systems', 'func', 'const', 'unit', 'unitsys', 'parser', 'operator', 'preset', 'oplevel', 'restrict', 'restrictop'}


def judge(case, j, k, op, got, want, mon, how):
    mon.obs('op')
    if op[0] == 'create':
        mon.obs('create')
    elif op[0] in CONFIG:
        mon.obs('config')
    elif op[0] == 'show':
        mon.obs('delayed')
    if got != want:
        raise Violation('a calculator gives other results when others are used {}'.format(how), operation=op, position='history {} operation {}'.format(j, k), history=case['h'][j][:k + 1], got=str(got)[:900],
                        alone=str(want)[:900])


def run(case, mon):
    reset_context()
    hs = case['h']
    want = [alone(h) for h in hs]
    kind = case['kind']
    rng = random.Random(case['seed'])
    mon.obs(kind, (kind, case.get('order'), hs))
    real = sys.stdout
    if kind in ('interleaved', 'handoff'):
        actors = [Actor() for _ in hs]
        at = [0] * len(hs)
        pool = [Pool() for _ in range(3)] if kind == 'handoff' else None
        try:
            for j in case['order']:
                k = at[j]
                at[j] += 1
                if k >= len(hs[j]):
                    continue
                op = hs[j][k]
                if pool is None:
                    got = actors[j].do(op)
                else:
                    w = rng.randrange(4)
                    got = actors[j].do(op) if w == 3 else pool[w].call(lambda: actors[j].do(op))
                judge(case, j, k, op, got, want[j][k], mon, 'in between' if pool is None else 'in between and it is called from several threads')
        finally:
            for p in pool or []:
                p.stop()
        return
    outs = [[] for _ in hs]
    log = []
    actors = [Actor() for _ in hs]
    start = [0] * len(hs)
    if case['made'] == 'main':
        for j, h in enumerate(hs):
            outs[j].append(actors[j].do(h[0]))
            start[j] = 1
    gate = threading.Barrier(len(hs))

    def go(j):
        gate.wait()
        for op in hs[j][start[j]:]:
            log.append((j, 0))
            outs[j].append(actors[j].do(op))
            log.append((j, 1))
    old = sys.getswitchinterval()
    ts = [threading.Thread(target=go, args=(j,), daemon=True) for j in range(len(hs))]
    try:
        sys.setswitchinterval(case['interval'])
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    # how much really ran at the same time
    open_ = set()
    for j, e in log:
        if e == 0:
            if open_:
                mon.obs('overlap')
            open_.add(j)
        else:
            open_.discard(j)
    mon.obs('schedule', tuple(j for j, _ in log))
    for j, h in enumerate(hs):
        if len(outs[j]) != len(h):
            raise Violation('a thread did not finish its history', history=h)
        for k, op in enumerate(h):
            judge(case, j, k, op, outs[j][k], want[j][k], mon, 'at the same time')


def shrink(case):
    """Fewer operations, keeping creations."""
    if case['kind'] == 'concurrent':
        return
    hs = case['h']
    if len(hs) > 2:
        for j in range(len(hs)):
            m = [x for x in case['order'] if x != j]
            yield dict(case, h=[h for i, h in enumerate(hs) if i != j], order=[x - (x > j) for x in m])
    for j, h in enumerate(hs):
        for k in range(len(h) - 1, 0, -1):
            if h[k][0] == 'calc' and any(o[0] == 'show' for o in h):
                continue
            o, seen, out = case['order'], 0, []
            for x in o:
                if x == j:
                    if seen == k:
                        seen += 1
                        continue
                    seen += 1
                out.append(x)
            yield dict(case, h=hs[:j] + [h[:k] + h[k + 1:]] + hs[j + 1:], order=out)
