"""C01: expressions evaluate to the exact rational the documented grouping gives."""
import random
from rv import arith
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C01'
TECHNIQUE = 'runtime monitor: results of generated programs compared online with an exact-rational reference evaluator'
RULE = ('random flat/nested operator sequences over decimal, percentage and scientific literals, all presets and layouts; '
        'non-trivial = has at least one operator, distinct by (preset, text)')
BUDGET = {'quick': 150000, 'thorough': 1200000}
NEED = {'value': 20000, 'long': 500, 'error': 100}
ASSUMPTIONS = ['intermediates beyond 97 digits and non-integer powers are outside the property and skipped']


def gen(rng, i, tier):
    preset = rng.choice(['Basic', 'Advanced', 'Advanced', 'Scientific', 'Computing', 'Computing'])
    f = arith.FEATS[preset]
    depth = rng.choice([0, 1, 1, 2, 2, 3])
    size = rng.randint(8, 24) if rng.random() < .08 else None
    node = arith.gen_seq(rng, f, depth, size)
    if rng.random() < .008:
        node = long_seq(rng, f, rng.randint(25, 150))
    if f['brackets'] and rng.random() < .03:
        node = nest(rng, f)
    return {'preset': preset, 'node': node, 'sp': rng.randint(0, 10 ** 6), 'simplify': rng.random() < .3}


def long_seq(rng, f, n):
    """many small operands: the value stays within the number size"""
    seq = []
    for i in range(n):
        if i:
            seq.append(rng.choice(['+', '-', '+', '-', '+', '-', '*'] + ([' % ', '\\'] if f['adv'] and rng.random() < .3 else ['+'])).strip())
        r = rng.random()
        t = str(rng.randint(1, 99)) if r < .6 else '{}.{}'.format(rng.randint(0, 9), rng.randint(1, 9))
        if seq and seq[-1] in '*%\\':
            t = str(rng.randint(2, 9))
        elif r > .9 and 'pct' in f['forms']:
            t += '%'
        elif r > .8 and f['brackets']:
            seq.append(['br', ['seq', [['lit', t], rng.choice('+-'), ['lit', str(rng.randint(1, 9))]]]])
            continue
        seq.append(['lit', t])
    return ['seq', seq]


def nest(rng, f):
    node = arith.gen_seq(rng, f, 0)
    for _ in range(rng.randint(3, 12)):
        node = ['seq', [['br', node]]]
        if rng.random() < .7:
            node[1] += [rng.choice('+-*'), arith.gen_literal(rng, (), True)]
    return node


def run(case, mon):
    f = arith.FEATS[case['preset']]
    text = arith.render(case['node'], random.Random(case['sp']), f)
    try:
        want = arith.evaluate(case['node'])
    except arith.ModelError:
        want = None
    except arith.Undefined:
        raise Skip('undefined')
    except Big:
        raise Skip('beyond number size')
    c = shared_calc(case['preset'], case.get('simplify', False))
    o = calc(c, text)
    key = (case['preset'], text) if len(case['node'][1]) > 1 else None
    if want is None:
        mon.obs('error', key)
        if not o.failed:
            raise Violation('division by zero must be an error', text=text, got=o.describe(c))
        return
    mon.obs('value', key)
    if len(case['node'][1]) > 60:
        mon.obs('long', key)
    mon.sample(text)
    if not o.ok:
        raise Violation('expression has a value but failed', text=text, expected=str(want), got=o.describe(c), preset=case['preset'])
    r = o.last()
    if r is None or not isinstance(r.value, Number):
        raise Violation('no numeric result', text=text, expected=str(want), preset=case['preset'])
    if frac(r.value) != want or r.unit is not None or len(o.results) != 1:
        raise Violation('wrong value', text=text, expected=str(want), got=repr(r.value), preset=case['preset'])


def shrink(case):
    for s in arith.shrink_seq(case['node']):
        d = dict(case)
        d['node'] = s
        yield d
