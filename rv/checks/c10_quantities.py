"""C10: arithmetic on quantities conserves physical value and dimension."""
import random
from fractions import Fraction
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C10'
TECHNIQUE = ('runtime monitor: conservation oracle - every result is converted to base units with an independent table of published factors and compared with the '
             'same operations on base-unit rationals and dimension vectors, with unit simplification on and off')
RULE = ('random expressions over quantities in any unit or unit product, constants, variables, all arithmetic and comparison operators, integer powers, '
        'conversions and aggregates; mismatched dimensions; temperatures; distinct by text')
BUDGET = {'quick': 28000, 'thorough': 250000}
NEED = {'conserved': 7800, 'dimension': 6000, 'compared': 610, 'rejected': 530, 'simplified': 530, 'temperature': 500, 'roots': 200}
ASSUMPTIONS = ['offset temperatures: + - * / take the numbers as differences, comparisons and aggregates convert absolutely',
               'expressions that mix more than about ten different units are not generated: merging them is exponential',
               'adding or comparing results whose dimensions cancelled out is not specified']


def setup():
    ut.bind(shared_calc())


def preload():
    ut.bind(shared_calc())


CONSTS = {'G': (Fraction('6.67408e-11'), ut.dim(L=3, M=-1, T=-2)), 'earthgravity': (Fraction('9.80665'), ut.dim(L=1, T=-2)),
          'speedoflight': (Fraction(299792458), ut.dim(L=1, T=-1)), 'Planck': (Fraction('6.62607015e-34'), ut.dim(M=1, L=2, T=-1))}
VALS = ['1', '2', '3', '0', '-7', '1/3', '0.1', '12.5', '-0.025', '1000', '60', '99.5', '4', '5', '22/7']
SEED_N = 10 ** 9


def leaf(rng, prod=None):
    if prod is None:
        prod = ut.r_prod(rng) if rng.random() < .85 else []
    return ['q', rng.choice(VALS) if rng.random() < .7 else str(Fraction(rng.randint(-500, 500), rng.choice([1, 2, 5, 10, 100]))), prod, rng.randint(0, SEED_N),
            rng.random() < .15]


def g(rng, d):
    """-> (tree, dims)"""
    r = rng.random()
    if d <= 0 or r < .25:
        if rng.random() < .05:
            n = rng.choice(list(CONSTS))
            return ['c', n], CONSTS[n][1]
        l = leaf(rng)
        return l, ut.p_dims(l[2])
    if r < .6:
        a, da = g(rng, d - 1)
        b, db = g(rng, d - 1)
        op = rng.choice(['*', '*', '/', '/', ' '])
        return ['b', op, a, b], ut.radd(da, db, -1 if op == '/' else 1)
    if r < .78:
        a, da = g(rng, d - 1)
        op = rng.choice(['+', '-', '+', '-', '%'])
        b = like(rng, da, d - 1)
        if rng.random() < .15:
            # the floor of a quotient is only independent of the units when they cancel out
            u, w = leaf(rng, [[ut.pick_unit(rng), 1]]), None
            if not ut.BY[u[2][0][0]].offset:
                w = leaf(rng, [[rng.choice(ut.BYDIM[ut.BY[u[2][0][0]].dims]).singular, 1]])
                if not ut.BY[w[2][0][0]].offset:
                    return ['b', '\\', u, w], ut.dim()
        return ['b', op, a, b], (ut.dim() if op == '\\' else da)
    if r < .84:
        a, da = g(rng, d - 1)
        n = rng.choice([2, 2, 3, -1, -2, 1, 0])
        return ['^', a, n], tuple(x * n for x in da)
    if r < .9:
        a, da = g(rng, d - 1)
        p = ut.same_dims(rng, ut.base_prod(da)) if any(da) else None
        if p and any(ut.BY[n].offset for n, _ in p):
            p = None
        return (['to', a, p], da) if p else (a, da)
    if r < .94:
        a, da = g(rng, d - 1)
        return ['f', 'abs', [a], 0], da
    a, da = g(rng, d - 1)
    return ['f', rng.choice(['sum', 'min', 'max', 'mean', 'median']), [a] + [like(rng, da, 0) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 5, 7]))], rng.randint(0, 1)], da


def like(rng, d, depth):
    if rng.random() < .08:
        return g(rng, depth)[0]
    if not any(d):
        return leaf(rng, [])
    for _ in range(4):
        p = ut.same_dims(rng, ut.base_prod(d))
        if p and not any(ut.BY[n].offset for n, _ in p):
            return leaf(rng, p)
    return leaf(rng, ut.base_prod(d))


def gen(rng, i, tier):
    r = rng.random()
    if r < .1:
        us = ['Celsius', 'Fahrenheit', 'kelvin', 'millikelvin', 'kilokelvin']
        return {'k': 'temp', 'op': rng.choice(['+', '-', '*', '/', 'cmp', 'max', 'min', 'mul2']), 'a': [rng.choice(VALS), rng.choice(us)], 'b': [rng.choice(VALS), rng.choice(us)],
                'cmp': rng.choice(CMP), 'simp': rng.random() < .5, 'seed': rng.randint(0, SEED_N)}
    if r < .13:
        p = [[n, q] for n, q in ut.r_prod(rng) if not ut.BY[n].offset] or [['metre', 1]]
        how = rng.choice(['', '+', '-', '*', '/', 'to', '==', 'mixed', 'mixed'])
        return {'k': 'root', 'q': [rng.choice(['2', '8', '27', '1/3', '64', '0.001', '5', '1', '12.5', '10']), p], 'n': rng.choice([2, 3, 3, 3, 4, 5, 6, 7, 9, 11]),
                'm': rng.choice([1, 1, 1, 2, -1]), 'how': how, 'b': rng.choice(['1', '3', '0.5', '7']), 'simp': rng.random() < .5, 'seed': rng.randint(0, SEED_N)}
    if r < .28:
        a, da = g(rng, 1)
        b = like(rng, da, 1)
        if rng.random() < .25 and a[0] == 'q' and any(da):
            b = ['to', a, ut.same_dims(rng, a[2]) or a[2]]
        return {'k': 'cmp', 'op': rng.choice(CMP), 'a': a, 'b': b, 'simp': rng.random() < .5}
    return {'k': 'expr', 't': g(rng, rng.choice([1, 1, 2, 2, 3]))[0]}


CMP = ['<', '>', '<=', '>=', '==', '!=']


def combos(t, n=1):
    """size of the search for units that can be merged: exponential in the number of different units"""
    k = t[0]
    if k == 'q':
        out = 1
        for _, p in t[2]:
            out *= abs(p * n) + 1
        return out
    if k == 'c':
        return 8
    if k == 'b':
        return combos(t[2], n) * combos(t[3], n)
    if k == '^':
        return combos(t[1], n * max(1, abs(t[2])))
    if k == 'to':
        out = combos(t[1], n)
        for _, p in t[2]:
            out *= abs(p * n) + 1
        return out
    out = 1
    for a in t[2]:
        out = max(out, combos(a, n))
    return out


class Err(Exception):
    pass


class Unknown(Exception):
    pass


def fits(*fs):
    for f in fs:
        if digits(f.numerator) > 60 or digits(f.denominator) > 60:
            raise Unknown('more digits than judged exactly')


def check_same(x, y):
    if x[1] != y[1]:
        raise Err('different dimensions')
    if not any(x[1]) and not (x[2] and y[2]):
        raise Unknown('dimensions cancelled out')


def model(t):
    """-> (base value, dims, pure: no unit anywhere)"""
    k = t[0]
    if k == 'q':
        v = Fraction(t[1])
        return v * ut.p_scale(t[2]), ut.p_dims(t[2]), not t[2]
    if k == 'c':
        return CONSTS[t[1]] + (False,)
    if k == 'b':
        x, y = model(t[2]), model(t[3])
        op = t[1]
        fits(x[0], y[0])
        if op in '* ':
            return x[0] * y[0], ut.radd(x[1], y[1]), x[2] and y[2]
        if op == '/':
            if y[0] == 0:
                raise Err('division by zero')
            return x[0] / y[0], ut.radd(x[1], y[1], -1), x[2] and y[2]
        check_same(x, y)
        if op == '+':
            return x[0] + y[0], x[1], x[2]
        if op == '-':
            return x[0] - y[0], x[1], x[2]
        if y[0] == 0:
            raise Err('division by zero')
        n = abs(x[0]) // abs(y[0])
        if n > 10 ** 40:
            raise Unknown('more digits than judged exactly')
        if op == '\\':
            return Fraction((x[0] / y[0]).__floor__()), ut.dim(), True
        rem = abs(x[0]) - n * abs(y[0])
        return (-rem if x[0] < 0 else rem), x[1], x[2]
    if k == '^':
        x, n = model(t[1]), t[2]
        fits(x[0])
        if x[0] == 0 and n <= 0:
            raise Err('') if n else Unknown('0^0')
        if any(abs(p * n) > 9 for p in x[1]):
            raise Unknown('large power')
        return x[0] ** n, tuple(p * n for p in x[1]), x[2]
    if k == 'to':
        x = model(t[1])
        if x[2]:
            raise Err('no unit')
        if x[1] != ut.p_dims(t[2]):
            raise Err('different dimensions')
        return x
    xs = [model(a) for a in t[2]]
    if t[1] == 'abs':
        return abs(xs[0][0]), xs[0][1], xs[0][2]
    for y in xs[1:]:
        check_same(xs[0], y)
    vs = sorted(x[0] for x in xs)
    fits(*vs)
    n = len(vs)
    v = {'sum': sum(vs), 'min': vs[0], 'max': vs[-1], 'mean': sum(vs) / n, 'median': vs[n // 2] if n % 2 else (vs[n // 2 - 1] + vs[n // 2]) / 2}[t[1]]
    return v, xs[0][1], all(x[2] for x in xs)


def vtext(s):
    f = Fraction(s)
    return dec_literal(f) or '({} / {})'.format(f.numerator, f.denominator)


def text_of(t, held):
    k = t[0]
    if k == 'q':
        rng = random.Random(t[3])
        s = vtext(t[1]) + (' ' + ut.p_text(rng, t[2]) if t[2] else '')
        if t[4]:
            held.append(s)
            return 'held{}'.format(len(held))
        return '(' + s + ')'
    if k == 'c':
        return t[1]
    if k == 'b':
        return '({}{}{})'.format(text_of(t[2], held), t[1] if t[1] == ' ' else ' ' + t[1] + ' ', text_of(t[3], held))
    if k == '^':
        return '({} ^ {})'.format(text_of(t[1], held), '(' + str(t[2]) + ')' if t[2] < 0 else t[2])
    if k == 'to':
        return '({} to {})'.format(text_of(t[1], held), ut.p_text(random.Random(len(held)), t[2]))
    xs = ', '.join(text_of(a, held) for a in t[2])
    return '{}([{}])'.format(t[1], xs) if t[3] else '{}({})'.format(t[1], xs)


def r_prod(r):
    """unit of a result as [[singular name, power]]"""
    if r.unit is None:
        return []
    out = []
    for up in r.unit.list():
        p = frac(up.power)
        if p.denominator != 1:
            raise Violation('the unit of a result has a fractional power', got=str(p))
        out.append([up.unit.singular(), int(p)])
    return out


def close(a, b):
    if a == b:
        return True
    m = max(abs(a), abs(b))
    return abs(a - b) <= m / 10 ** 40


def evaluate(c, text, held):
    set_vars(c)
    for k, h in enumerate(held):
        o = calc(c, 'held{} = {}'.format(k + 1, h))
        if not o.ok:
            raise Violation('a quantity is rejected', text=h, got=o.describe(c))
    return calc(c, text)


def judge(c, text, held, want, mon, simp):
    o = evaluate(c, text, held)
    full = '{} (simplification {}{})'.format(text, 'on' if simp else 'off', ', held = {}'.format(held) if held else '')
    if want is None:
        mon.obs('rejected', text)
        if not o.failed:
            raise Violation('{}: should be an error'.format(full), got=o.describe(c))
        return None
    if not o.ok:
        raise Violation('{}: fails'.format(full), got=o.describe(c))
    r = o.last()
    if not isinstance(r.value, Number):
        raise Violation('{}: not a number'.format(full), got=show(c, r))
    prod = r_prod(r)
    for n, p in prod:
        if n not in ut.BY:
            raise Violation('{}: the result has an unknown unit {}'.format(full, n))
    mon.obs('dimension', ut.p_dims(prod))
    if ut.p_dims(prod) != want[1]:
        raise Violation('{}: the result has another dimension'.format(full), got=show(c, r), expected=str(ut.base_prod(want[1])))
    got = frac(r.value) * ut.p_scale(prod)
    mon.obs('conserved', (text, simp))
    if not close(got, want[0]):
        raise Violation('{}: the physical value is not conserved'.format(full), got='{} = {} in base units'.format(show(c, r), got), expected=str(want[0]))
    return prod


def run(case, mon):
    if case['k'] == 'temp':
        return run_temp(case, mon)
    if case['k'] == 'cmp':
        return run_cmp(case, mon)
    if case['k'] == 'root':
        return run_root(case, mon)
    t = case['t']
    if combos(t) > 1500:
        raise Skip('too many different units')
    try:
        want = model(t)
        fits(want[0])
    except Err:
        want = None
    except Unknown as e:
        raise Skip(str(e))
    held = []
    text = text_of(t, held)
    prods = []
    for simp in (False, True):
        c = shared_calc(simplify=simp)
        prods.append(judge(c, text, held, want, mon, simp))
    if want is not None and prods[0] != prods[1]:
        mon.obs('simplified', text)


def run_root(case, mon):
    """a root raised back (and further to the power m) is a quantity of the same dimension again"""
    rng = random.Random(case['seed'])
    v, prod = case['q']
    n, m = case['n'], case['m']
    simp, how = case['simp'], case['how']
    p = [[u, k * m] for u, k in prod]
    dims = ut.p_dims(p)
    c = shared_calc(simplify=simp)
    if how == 'mixed':
        return run_mixed(case, shared_calc(simplify=False), rng, mon)
    x = Fraction(v) ** m
    text = '((({}) ^ (1/{})) ^ {})'.format(vtext(v) + ' ' + ut.p_text(rng, prod), n, n * m if n * m > 0 else '(%d)' % (n * m))
    want = x * ut.p_scale(p)
    tol = 1
    if how in ('+', '-', '=='):
        b = Fraction(case['b'])
        other = ut.same_dims(rng, p) or p
        if any(ut.BY[u].offset for u, _ in other):
            other = p
        text += ' {} ({} {})'.format(how, vtext(case['b']), ut.p_text(rng, other))
        y = b * ut.p_scale(other)
        if how == '==':
            o = calc(c, text)
            mon.obs('roots', text)
            if o.failed:
                raise Violation('{!r}: a root raised back cannot be compared'.format(text), got=o.describe(c))
            return
        tol = (abs(want) + abs(y))
        want = want + y if how == '+' else want - y
    elif how in ('*', '/'):
        text += ' {} ({} {})'.format(how, vtext(case['b']), ut.p_text(rng, prod))
        q = Fraction(case['b']) * ut.p_scale(prod)
        want = want * q if how == '*' else want / q
        dims = ut.radd(dims, ut.p_dims(prod), 1 if how == '*' else -1)
    elif how == 'to':
        other = ut.same_dims(rng, p) or p
        text += ' to ' + ut.p_text(rng, other)
    if how not in ('+', '-'):
        tol = abs(want)
    mon.obs('roots', text)
    o = calc(c, text)
    if not o.ok:
        raise Violation('{!r} (simplification {}): fails'.format(text, simp), got=o.describe(c))
    r = o.last()
    got_prod = r_prod(r)
    if ut.p_dims(got_prod) != dims:
        raise Violation('{!r} (simplification {}): the result has another dimension'.format(text, simp), got=show(c, r), expected=str(ut.base_prod(dims)))
    got = frac(r.value) * ut.p_scale(got_prod)
    if abs(got - want) > tol / 10 ** 12:
        raise Violation('{!r} (simplification {}): the physical value is not conserved'.format(text, simp), got=show(c, r), expected=str(want))


POWERS = ['0.5', '1.5', '1.25', '1.4', '2.5', '0.75', '1.6', '0.9', '1', '2', '3', '2.4', '-0.5', '-1.5', '-1', '1.125']


def run_mixed(case, c, rng, mon):
    """quantities whose units have fractional powers: of one dimension only if the powers are equal"""
    u = rng.choice(case['q'][1])[0]
    w = rng.choice([x for x in (ut.same_dims(rng, [[u, 1]]) or [[u, 1]]) if not ut.BY[x[0]].offset] or [[u, 1]])
    w = w[0] if w[1] == 1 and ut.p_dims([w]) == ut.p_dims([[u, 1]]) else u
    a, b = rng.sample(POWERS, 2)
    x, y = rng.choice(['3', '0.5', '12']), case['b']

    def q(v, unit, power):
        return '({} {} ^ {})'.format(v, ut.BY[unit].names[0], power if power[0] != '-' else '(%s)' % power)
    op = rng.choice(['+', '-', '<', '>=', '==', '!=', 'to', 'max', 'sum'])
    one, two = q(x, u, a), q(y, rng.choice([u, w]), b)
    text = {'to': '{} to {} ^ {}'.format(one, ut.BY[w].names[0], b if b[0] != '-' else '(%s)' % b), 'max': 'max({}, {})'.format(one, two), 'sum': 'sum([{}, {}])'.format(one, two)}.get(op) or '{} {} {}'.format(one, op, two)
    o = calc(c, text)
    mon.obs('rejected', text)
    if not o.failed:
        raise Violation('{!r}: different dimensions are accepted'.format(text), got=o.describe(c))
    text = '{} + {}'.format(q(x, u, a), q(y, u, a))
    o = calc(c, text)
    mon.obs('roots', text)
    if not o.ok:
        raise Violation('{!r}: fails'.format(text), got=o.describe(c))
    r = o.last()
    if r.unit is None or [str(frac(up.power)) for up in r.unit.list()] != [str(Fraction(a))]:
        raise Violation('{!r}: the result has another dimension'.format(text), got=show(c, r))
    if r.unit.list()[0].unit.singular() == u and frac(r.value) != Fraction(x) + Fraction(y):
        raise Violation('{!r}: the physical value is not conserved'.format(text), got=show(c, r))


def run_cmp(case, mon):
    if combos(case['a']) * combos(case['b']) > 1500:
        raise Skip('too many different units')
    held = []
    a, b, op = text_of(case['a'], held), text_of(case['b'], held), case['op']
    c = shared_calc(simplify=case['simp'])
    text = '{} {} {}'.format(a, op, b)
    try:
        x, y = model(case['a']), model(case['b'])
        check_same(x, y)
        fits(x[0], y[0])
        want = {'<': x[0] < y[0], '>': x[0] > y[0], '<=': x[0] <= y[0], '>=': x[0] >= y[0], '==': x[0] == y[0], '!=': x[0] != y[0]}[op]
    except Err:
        want = None
    except Unknown as e:
        raise Skip(str(e))
    o = evaluate(c, text, held)
    if want is None:
        mon.obs('rejected', text)
        if not o.failed:
            raise Violation('{!r}: should be an error'.format(text), got=o.describe(c), held=str(held))
        return
    mon.obs('compared', text)
    if not o.ok or o.last().value is not want:
        raise Violation('{!r}: wrong comparison of quantities'.format(text), got=o.describe(c), expected=str(want), held=str(held))


def run_temp(case, mon):
    (av, au), (bv, bu) = case['a'], case['b']
    rng = random.Random(case['seed'])
    A, B = ut.BY[au], ut.BY[bu]
    a, b = Fraction(av), Fraction(bv)
    ta, tb = '({} {})'.format(vtext(av), ut.u_text(rng, au)), '({} {})'.format(vtext(bv), ut.u_text(rng, bu))
    op = case['op']
    simp = case['simp']
    c = shared_calc(simplify=simp)
    aa, ba = a * A.scale + A.offset, b * B.scale + B.offset
    if op == 'cmp':
        o = calc(c, '{} {} {}'.format(ta, case['cmp'], tb))
        want = {'<': aa < ba, '>': aa > ba, '<=': aa <= ba, '>=': aa >= ba, '==': aa == ba, '!=': aa != ba}[case['cmp']]
        mon.obs('temperature', (ta, tb, case['cmp']))
        if not o.ok or o.last().value is not want:
            raise Violation('wrong comparison of temperatures', text='{} {} {}'.format(ta, case['cmp'], tb), got=o.describe(c), expected=str(want))
        return
    if op in ('max', 'min'):
        text = '{}({}, {})'.format(op, ta, tb)
        w = max(aa, ba) if op == 'max' else min(aa, ba)
        r = value_of(c, text)
        p = r_prod(r)
        if not ut.p_single(p) or ut.BY[p[0][0]].dims != A.dims or ut.to_base(frac(r.value), p) != w:
            raise Violation('{!r}: wrong temperature'.format(text), got=show(c, r), expected='{} K'.format(w))
        mon.obs('temperature', text)
        return
    if op == 'mul2':
        text = '{} * 2'.format(ta)
        r = value_of(c, text)
        mon.obs('temperature', text)
        if frac(r.value) != a * 2 or r_prod(r) != [[au, 1]]:
            raise Violation('{!r}: wrong temperature'.format(text), got=show(c, r), expected='{} {}'.format(a * 2, au))
        return
    text = '{} {} {}'.format(ta, op, tb)
    if op in '+-':
        r = value_of(c, text)
        d = b * B.scale / A.scale
        w = a + d if op == '+' else a - d
        mon.obs('temperature', text)
        if r_prod(r) != [[au, 1]] or frac(r.value) != w:
            raise Violation('{!r}: wrong temperature'.format(text), got=show(c, r), expected='{} {}'.format(w, au))
        return
    want = None
    if op == '/':
        if b:
            want = (a * A.scale / (b * B.scale), ut.dim(), True)
    else:
        want = (a * A.scale * b * B.scale, ut.dim(K=2), False)
    mon.obs('temperature', text)
    judge(c, text, [], want, mon, simp)


def shrink(case):
    if case['k'] == 'expr':
        for t in sub(case['t']):
            yield dict(case, t=t)
    elif case['k'] == 'cmp':
        for t in sub(case['a']):
            yield dict(case, a=t)
        for t in sub(case['b']):
            yield dict(case, b=t)


def sub(t):
    k = t[0]
    if k == 'q':
        if t[1] not in ('1', '2'):
            yield ['q', '2'] + t[2:]
        if t[4]:
            yield t[:4] + [False]
        return
    if k == 'c':
        return
    if k == 'b':
        yield t[2]
        yield t[3]
        for x in sub(t[2]):
            yield t[:2] + [x, t[3]]
        for x in sub(t[3]):
            yield t[:3] + [x]
    elif k in ('^', 'to'):
        yield t[1]
        for x in sub(t[1]):
            yield [k, x, t[2]]
    else:
        for i, a in enumerate(t[2]):
            yield a
            for x in sub(a):
                yield t[:2] + [t[2][:i] + [x] + t[2][i + 1:], t[3]]
