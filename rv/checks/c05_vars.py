"""C05: the variable store behaves as a map under assignments and compound assignments."""
import re

from rv import progs
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C05'
TECHNIQUE = ('runtime monitor: online reference-model checker - a map of plain values updated by the specified effect of each statement, every '
             'variable read back through evaluation after every step; exact rational model for the arithmetic, plain operator as second oracle')
RULE = ('histories of 8-20 assignments, compound assignments, increments, conditional assignments, deletes, resets and failing statements over '
        'six variables holding numbers in any representation, quantities, strings, booleans, dates, arrays and functions; distinct by (statement, store)')
BUDGET = {'quick': 6000, 'thorough': 80000}
NEED = {'readback': 50000, 'assign': 5000, 'compound': 5000, 'failed_unchanged': 2500, 'model_value': 3000, 'delete': 800, 'unset_error': 1000, 'many': 400}

NAMES = ['aa', 'bb', 'a', 'aaa', 'PIx', 'e_1', 'm2', 'AA', 'Aa', 'BB', 'e_10', 'a_rather_long_name_for_a_variable_with_all_sorts_of_0123456789_in_it', 'a_rather_long_name_for_a_variable_with_all_sorts_of_0123456789_in_ix']
MORE = ['_', '__', '_1', '__x', 'x', 'X', 'z9', 'andy', 'nota', 'orx', 'xora', 'truex', 'falsey', 'steps', 'toy', 'asx', 'thena', 'elsea', 'sinx', 'pix', 'meterx', 'kmx', 'ex', 'PARAMx', 'PARAM', 'b1', 'o7', 'x_x', 'camelCase', 'Zz', 'sum_', 'maxi', 'nowx', 'E5', 'resetx', 'deletex']
OPS = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '^=': '^', '%=': '%', '\\=': '\\'}


def lit(rng):
    k = rng.randint(0, 11) if rng.random() < .7 else 0
    if k <= 3:
        return str(rng.choice([rng.randint(-20, 20), rng.randint(0, 10 ** 6), 1, 2]))
    if k == 4:
        return '{}.{}'.format(rng.randint(0, 99), rng.choice(['5', '25', '125']))
    if k == 5:
        return rng.choice(['0x{:X}', '0b{:b}', '0o{:o}', '{}%', '{}e2', '7z{}']).format(rng.randint(0, 6))
    if k == 6:
        return '({}/{})'.format(rng.randint(-9, 9), rng.randint(1, 9))
    if k <= 8:
        return '({} {})'.format(rng.randint(1, 30), rng.choice(['m', 'km', 'cm', 's', 'hours', 'kg', 'm/s', 'm s', 'm^2']))
    if k == 9:
        return '[{}, {}, {}]'.format(rng.randint(0, 9), rng.choice(["'q'", '2 m', '1', '[4]']), rng.randint(0, 9))
    if k == 10:
        return rng.choice(["'txt'", "''", "'12'", "'it\\'s'"])
    return rng.choice(['true', 'false', "'2020-02-28'", '{PARAM1 + 1}', '{aa = 99\naa}', '[]'])


def expr(rng, NAMES=NAMES):
    k = rng.random()
    if k < .55:
        return lit(rng)
    if k < .75:
        return rng.choice(NAMES)
    if k < .8:
        return rng.choice(NAMES) + " +$ 'zz'"
    return '{} {} {}'.format(rng.choice(NAMES), rng.choice(['+', '-', '*']), rng.choice([lit(rng), rng.choice(NAMES)]))


def gen(rng, i, tier):
    steps = []
    pool = NAMES if rng.random() < .6 else rng.sample(NAMES + MORE * 2, 12)
    pool = list(dict.fromkeys(pool))
    names = rng.sample(pool, 6)
    for n in names[:3]:
        steps.append(['set', n, lit(rng)])
    for _ in range(rng.randint(8, 20)):
        n = rng.choice(names)
        k = rng.random()
        if k < .34:
            steps.append(['set', n, expr(rng, pool)])
        elif k < .64:
            steps.append(['op', n, rng.choice(list(OPS)), rng.choice([str(rng.randint(1, 4)), lit(rng), expr(rng, pool)])])
        elif k < .74:
            steps.append(['inc', n, rng.choice(['++', '--'])])
        elif k < .80:
            steps.append(['cond', n, expr(rng, pool)])
        elif k < .86:
            steps.append(['del', n])
        elif k < .875:
            steps.append(['reset'])
        elif k < .95:
            steps.append(['bad', n, rng.choice(['= 1/0', "= 'a' * 2", '= fact(-1)', '+= 1/0', '/= 0', "-= 'zz'", '= [1, 1/0]', '= (5 m) + (3 s)', '= unsetv + 1',
                                                '= element([1], 5)', '= (3 m) to s'])])
        else:
            steps.append(['unset', n])
    if rng.random() < .02:
        # many variables at once
        n = rng.randint(20, 80)
        extra = ['w{}'.format(j) for j in range(n)]
        rng.shuffle(extra)
        steps = [['set', e, lit(rng)] for e in extra] + [s for s in steps if s[0] != 'reset'] + [['op', e, '+=', '1'] for e in rng.sample(extra, 4)] + [['del', e] for e in rng.sample(extra, 3)]
        return {'steps': steps, 'simp': rng.random() < .5, 'join': False, 'extra': n}
    return {'steps': steps, 'simp': rng.random() < .5, 'join': rng.random() < .3}


def read(c, n):
    o = calc(c, n, None)
    if not o.ok:
        raise Violation('reading a variable failed', name=n, got=o.describe(c))
    return plain_result(c, o.last(), True)


def power_big(old, rhs):
    """outside the exactness and size domain: huge powers"""
    def mx(p):
        if p[0] == 'num':
            return max(abs(p[1].numerator), p[1].denominator)
        if p[0] == 'list':
            return max([mx(x) for x in p[1]] or [0])
        if p[0] == 'str':
            return 100
        return 1
    return mx(rhs) > 12 or mx(old) > 10 ** 9


def run(case, mon):
    c = shared_calc(simplify=case['simp'])
    c.vars.clear()
    model = {}
    hist = []
    for no, st in enumerate(case['steps']):
        kind = st[0]
        changed = set()
        if kind == 'set' or kind == 'cond':
            n, e = st[1], st[2]
            t = '{} {} {}'.format(n, '=' if kind == 'set' else '||=', e)
            hist.append(t)
            want = calc(c, '(' + e + ')' if not e.startswith('{') else e)
            o = calc(c, t)
            if want.ok and want.last() is not None and want.last().value is not None:
                if not o.ok:
                    raise Violation('assignment of a valid expression failed', history=hist, got=o.describe(c))
                w = plain_result(c, want.last(), True)
                if kind == 'set' or n not in model:
                    model[n] = w
                    if plain_result(c, o.last(), True) != w:
                        raise Violation('an assignment returns another value than its right-hand side', history=hist, got=plain_result(c, o.last(), True), expected=w)
                mon.obs('assign', (t, w))
            elif want.ok:
                # right-hand side is an unset variable: the target is then as good as unset
                if kind == 'set' or n not in model:
                    model.pop(n, None)
                    if 'None' not in repr(read(c, n)) and 'none' not in repr(read(c, n)):
                        raise Violation('assigning an unset variable gave a value', history=hist, got=read(c, n))
                    calc(c, 'delete({})'.format(n))
            else:
                if o.ok:
                    raise Violation('assignment of a failing expression succeeded', history=hist)
                mon.obs('failed_unchanged', t)
        elif kind in ('op', 'inc'):
            n = st[1]
            if kind == 'op':
                sym, e = st[2], st[3]
                t = '{} {} {}'.format(n, sym, e)
                op = OPS[sym]
                pe = '{} {} ({})'.format(n, op, e)
            else:
                t = n + st[2]
                op = st[2][0]
                e = '1'
                pe = '{} {} 1'.format(n, op)
            if n in model and op in '^%\\*' and e.startswith('{') is False:
                rhs = calc(c, '(' + e + ')')
                if rhs.ok and rhs.last() is not None and power_big(model[n], plain_result(c, rhs.last())):
                    continue
            hist.append(t)
            if e.startswith('{'):
                o = calc(c, t)
                if not o.failed:
                    raise Violation('compound assignment of a function succeeded', history=hist)
                mon.obs('failed_unchanged')
            elif n not in model:
                o = calc(c, t)
                if not o.failed:
                    raise Violation('compound assignment to an unset variable succeeded', history=hist, got=o.describe(c))
                mon.obs('unset_error')
            else:
                rhs = calc(c, '(' + e + ')')
                if kind == 'op' and rhs.ok and rhs.last().value is None:
                    o = calc(c, t)       # unset operand
                    if o.ok and 'error' not in repr(plain_result(c, o.last())):
                        raise Violation('compound assignment of an unset variable succeeded', history=hist, got=o.describe(c))
                    if o.ok:
                        model[n] = plain_result(c, o.last(), True)
                    mon.obs('unset_error')
                    continue
                want = calc(c, pe)
                old = model[n]
                o = calc(c, t)
                if want.ok and o.failed and hopeless(plain_result(c, want.last())):
                    mon.obs('failed_unchanged', (t, old))       # not one element could be computed
                elif want.ok != o.ok:
                    raise Violation('compound assignment and plain operator disagree about failing', history=hist, got=o.describe(c), expected=want.describe(c))
                elif want.ok:
                    w = plain_result(c, want.last(), True)
                    g = plain_result(c, o.last(), True)
                    mon.obs('compound', (t, old))
                    if w != g:
                        raise Violation('compound assignment returns another value than the plain operator', history=hist, got=g, expected=w)
                    model[n] = w
                    ex = exact(c, old, op, e)
                    if ex is not None:
                        mon.obs('model_value')
                        if w[0] != 'num' or w[1] != ex:
                            raise Violation('compound assignment gives a wrong number', history=hist, got=w, expected=str(ex))
                else:
                    mon.obs('failed_unchanged', (t, old))
        elif kind == 'del':
            t = 'delete({})'.format(st[1])
            hist.append(t)
            o = calc(c, t)
            mon.obs('delete')
            if st[1] in model:
                if not o.ok:
                    raise Violation('delete of a set variable failed', history=hist, got=o.describe(c))
                del model[st[1]]
            elif o.ok and st[1] not in model:
                pass
        elif kind == 'reset':
            hist.append('reset()')
            o = calc(c, 'reset()')
            if not o.ok:
                raise Violation('reset failed', history=hist, got=o.describe(c))
            model = {}
        elif kind == 'bad':
            t = '{} {}'.format(st[1], st[2])
            hist.append(t)
            o = calc(c, t)
            if o.ok and st[2] == '/= 0' and st[1] in model and model[st[1]] == ('list', (), ''):
                continue       # an empty array has no element to fail
            if o.ok and st[1] in model and model[st[1]][0] == 'list':
                # element by element: the errors sit in the elements
                if 'error' not in repr(plain_result(c, o.last())):
                    raise Violation('a failing element is not marked', history=hist, got=o.describe(c))
                model[st[1]] = plain_result(c, o.last(), True)
            elif not o.failed:
                raise Violation('a failing assignment succeeded', history=hist, got=o.describe(c))
            else:
                mon.obs('failed_unchanged', t)
        elif kind == 'unset':
            if st[1] not in model:
                t = '{} + 1'.format(st[1])
                hist.append(t)
                o = calc(c, t)
                mon.obs('unset_error')
                if not o.failed:
                    raise Violation('using an unset variable did not fail', history=hist, got=o.describe(c))
        # read every variable back
        extra = ['w{}'.format(j) for j in range(case.get('extra', 0))] if no % 9 == 8 or no >= len(case['steps']) - 2 else []
        if extra:
            mon.obs('many')
        for n in dict.fromkeys(NAMES + [s[1] for s in case['steps'] if len(s) > 1 and s[1] in MORE] + sorted(m for m in model if m in MORE) + extra):
            got = read(c, n)
            mon.obs('readback')
            if n in model:
                if got != model[n]:
                    raise Violation('variable {} does not read as last stored'.format(n), history=hist, got=got, expected=model[n])
            elif got != ('none', ''):
                raise Violation('unset variable {} has a value'.format(n), history=hist, got=got)
    if set(c.vars) != set(model):
        raise Violation('the store holds other variables', history=hist, got=sorted(c.vars), expected=sorted(model))
    mon.sample(hist)


def hopeless(p):
    if p[0] == 'list':
        return all(hopeless(x) for x in p[1])
    return p[0] == 'error'


def exact(c, old, op, e):
    """Exact result for unit-less numbers."""
    if old[0] != 'num' or old[2] != '':
        return None
    r = calc(c, '(' + e + ')')
    if any(w in NAMES or w in MORE for w in re.findall(r'[A-Za-z_][A-Za-z_0-9]*', e)):
        return None
    p = plain_result(c, r.last())
    if p[0] != 'num' or p[2] != '':
        return None
    a, b = old[1], p[1]
    try:
        if op == '+':
            v = a + b
        elif op == '-':
            v = a - b
        elif op == '*':
            v = a * b
        elif op == '/':
            v = a / b
        elif op == '^':
            if b.denominator != 1 or abs(b) > 30:
                return None
            v = a ** int(b)
        elif op == '%':
            q = a / b
            q = -((-q.numerator) // q.denominator) if q < 0 else q.numerator // q.denominator
            v = a - b * q
        else:
            v = a // b
        guard(v.numerator * 10, v.denominator * 10)
        guard(a.numerator * b.denominator, b.numerator * a.denominator, a.denominator * b.denominator)
        return Fraction(v)
    except (Big, ZeroDivisionError):
        return None


def shrink(case):
    n = len(case['steps'])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            d = dict(case)
            d['steps'] = case['steps'][:i] + case['steps'][i + size:]
            if d['steps']:
                yield d
