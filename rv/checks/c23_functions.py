"""C23: numeric, statistical and trigonometric functions match their definition."""
import math
import random
from rv import hp
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C23'
TECHNIQUE = ('runtime monitor with reference oracles: exact rational definitions of the numeric and statistical functions, 50-digit series evaluation of the elementary functions, '
             'permutation and splitting metamorphs of the aggregates, inverse pairs, and domain edges that must be errors')
RULE = 'random arguments (integers, decimals, fractions, text numbers, quantities; signs, zeros, ties, 1-12 values as arguments, array literals or variables); every domain edge of every function; distinct by program text'
BUDGET = {'quick': 130000, 'thorough': 900000}
NEED = {'abs': 500, 'floor': 500, 'ceil': 500, 'round': 800, 'tie': 200, 'fact': 200, 'gcd': 400, 'lcm': 400, 'sum': 800, 'mean': 800, 'min': 800, 'max': 800, 'median': 800, 'mode': 800, 'stdev': 800,
        'exp': 500, 'log': 800, 'trig': 3000, 'angle': 1000, 'inverse': 500, 'domain': 2000, 'mixed units': 2000, 'order': 2000}
ASSUMPTIONS = ['values whose exact result has at most 90 digits in numerator and denominator', 'accuracy of elementary functions is that of double precision with the argument rounded to a double',
               'number of places is an integer from 0 up']

SCALE = {'m': Fraction(1), 'km': Fraction(1000), 'cm': Fraction(1, 100), 'mm': Fraction(1, 1000), 'inches': Fraction(254, 10000), 'feet': Fraction(3048, 10000), 'miles': Fraction(1609344, 1000)}
TIME = {'seconds': Fraction(1), 'minutes': Fraction(60), 'hours': Fraction(3600), 'ms': Fraction(1, 1000)}
AGG = ['sum', 'mean', 'min', 'max', 'median', 'mode', 'stdev']
TRIG = ['sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh']


def dec_text(x):
    """Exact decimal text of a fraction that has one."""
    x = Fraction(x)
    s = '-' if x < 0 else ''
    x = abs(x)
    i, r = divmod(x.numerator, x.denominator)
    out = ''
    while r:
        r *= 10
        out += str(r // x.denominator)
        r %= x.denominator
        if len(out) > 60:
            raise ValueError
    return s + str(i) + ('.' + out if out else '')


def number(rng, big=True):
    """(value, text) of a number."""
    r = rng.random()
    sg = rng.choice([1, 1, -1])
    if r < .3:
        v = Fraction(sg * rng.choice([0, 1, 2, 3, 5, 7, 10, rng.randint(0, 100), rng.randint(0, 10 ** 6)]))
    elif r < .65:
        p = rng.choice([1, 1, 2, 3, 4, 6, 12])
        v = Fraction(sg * rng.randint(0, 10 ** rng.randint(1, p + 3)), 10 ** p)
    elif r < .72:
        v = Fraction(sg * (2 * rng.randint(0, 500) + 1), 2)
    elif r < .78:
        # closer to another value than a float could tell
        v = Fraction(sg * rng.randint(0, 40), rng.choice([1, 2])) + rng.choice([1, -1]) * Fraction(rng.randint(1, 3), 10 ** rng.randint(16, 27))
    elif r < .88 or not big:
        v = Fraction(sg * rng.randint(1, 99), rng.choice([3, 7, 9, 11, 13, 6]))
        if v.denominator != 1:
            return v, '({}/{})'.format(v.numerator, v.denominator)
    else:
        v = Fraction(sg * rng.randint(0, 10 ** rng.randint(10, 40)), 10 ** rng.randint(0, 10))
    t = dec_text(v)
    if rng.random() < .05:
        t = "'" + t + "'"
    elif rng.random() < .1:
        t = '(' + t + ')'
    return v, t


def gen(rng, i, tier):
    r = rng.random()
    if r < .22:
        return gen_exact(rng)
    if r < .55:
        return gen_agg(rng)
    if r < .66:
        return gen_explog(rng)
    if r < .88:
        return gen_trig(rng)
    return gen_domain(rng)


def gen_exact(rng):
    f = rng.choice(['abs', 'floor', 'ceil', 'round', 'round', 'fact', 'gcd', 'lcm', 'floor', 'ceil'])
    if f in ('gcd', 'lcm'):
        k = rng.choice([2, 4, 10, 30])
        g = rng.randint(1, 10 ** rng.choice([0, 2, 5]))
        a, b = [rng.choice([1, 1, -1]) * g * (rng.randint(0, 10 ** k) if rng.random() < .9 else rng.choice([0, 0, 1])) for _ in range(2)]
        if rng.random() < .1:
            a, b = [rng.choice([0, 0, 0, 1, -1, 2, -6, 12]) for _ in range(2)]
        return {'k': 'exact', 'f': f, 'a': [str(a), str(b)], 'v': [str(a), str(b)], 'u': None}
    if f == 'fact':
        n = rng.choice([0, 1, 2, 3, rng.randint(4, 30), rng.randint(30, 60)])
        return {'k': 'exact', 'f': f, 'a': [rng.choice(['{}', '{}.0', "'{}'", '(2*{}/2)']).format(n)], 'v': [str(n)], 'u': None}
    v, t = number(rng)
    places = None
    if f != 'abs' and rng.random() < .6:
        places = rng.choice([0, 1, 2, 3, 4, 8, 15])
        if rng.random() < .35:
            # ties and their neighbours
            v = (rng.randint(-10 ** 4, 10 ** 4) + Fraction(1, 2) + rng.choice([0, 0, Fraction(1, 1000), -Fraction(1, 1000)])) / 10 ** places
            t = dec_text(v)
    u = rng.choice([None, None, None, 'm', 'feet', 'hours'])
    if u and t[0] not in "('":
        a = '{} {}'.format(t, u)
    else:
        u, a = None, t
    return {'k': 'exact', 'f': f, 'a': [a] + ([str(places)] if places is not None else []), 'v': [str(v)] + ([str(places)] if places is not None else []), 'u': u}


def gen_agg(rng):
    f = rng.choice(AGG)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12])
    if f == 'stdev':
        n = max(n, 2)
    units = None
    if rng.random() < .5:
        units = rng.choice([SCALE, SCALE, TIME])
    vals, texts, us = [], [], []
    near = rng.random() < .12
    pool = [number(rng, False) for _ in range(1 if near else rng.choice([2, 3, n]))]
    for _ in range(n):
        v, t = rng.choice(pool) if rng.random() < .6 else number(rng, False)
        if near:
            v += Fraction(rng.randint(-9, 9), 10 ** rng.randint(17, 26))
            try:
                t = dec_text(v)
            except ValueError:
                t = '({}/{})'.format(v.numerator, v.denominator)
        if units:
            u = rng.choice(sorted(units)) if rng.random() < .8 else us[-1] if us else 'm' if units is SCALE else 'seconds'
            if vals and rng.random() < .3:
                # an equal quantity in another unit
                w = rng.choice(vals) / units[u]
                try:
                    s = dec_text(w)
                except ValueError:
                    s = None
                if s and len(s) < 40:
                    v, t = w, s
            if t[0] == "'":
                t = t[1:-1]
            vals.append(v * units[u])
            texts.append('{} {}'.format(t, u))
            us.append(u)
        else:
            if t[0] == "'" and f in ('min', 'max', 'mode'):
                t = t[1:-1]     # these give the value as it was written, text included
            vals.append(v)
            texts.append(t)
    return {'k': 'agg', 'f': f, 'v': [str(v) for v in vals], 'a': texts, 'u': us or None, 'how': rng.choice(['args', 'args', 'array', 'var']) if n > 1 else rng.choice(['array', 'var']), 'seed': rng.randint(0, 10 ** 9)}


def gen_explog(rng):
    f = rng.choice(['exp', 'log', 'log', 'log2'])
    v, t = number(rng, f != 'exp')
    if f == 'exp':
        if abs(v) > 150:
            v = Fraction(rng.randint(-1500, 1500), 10)
            t = dec_text(v)
        return {'k': 'elem', 'f': 'exp', 'a': [t], 'v': [str(v)]}
    v = abs(v)
    t = t.replace('-', '')
    if v == 0:
        v, t = Fraction(1), '1'
    if f == 'log':
        return {'k': 'elem', 'f': 'log', 'a': [t], 'v': [str(v)]}
    b = rng.choice([Fraction(2), Fraction(10), Fraction(3), Fraction(1, 2), Fraction(1, 10), Fraction(5, 2), Fraction(rng.randint(2, 1000)), Fraction(rng.randint(1, 999), 1000), Fraction(1001, 1000)])
    if rng.random() < .3:
        k = rng.randint(-5, 12)
        if len(str(b ** k)) < 60:
            try:
                t, v = dec_text(b ** k), b ** k
            except ValueError:
                pass
    return {'k': 'elem', 'f': 'logb', 'a': [t, dec_text(b)], 'v': [str(v), str(b)]}


def gen_trig(rng):
    f = rng.choice(TRIG)
    v, t = number(rng, False)
    if f in ('sinh', 'cosh', 'tanh', 'sin', 'cos', 'tan') and rng.random() < .5:
        # angles with units
        u = rng.choice(['degrees', 'degree', 'deg', 'radians', 'rad'])
        if f[-1] == 'h' and abs(v) > 200:
            v = v % 200
        v = Fraction(rng.choice([0, 30, 45, 60, 90, 120, 180, 270, 360, -90, -30, rng.randint(-720, 720)])) if rng.random() < .5 else v
        if f[-1] == 'h' and abs(v) > 600:
            v = v % 600
        try:
            t = dec_text(v)
        except ValueError:
            v = Fraction(45)
            t = '45'
        if rng.random() < .15:
            return {'k': 'angle', 'f': f, 'a': '({} {} + {} degrees)'.format(t, u, 30), 'v': str(v), 'u': u, 'plus': 1}
        return {'k': 'angle', 'f': f, 'a': '{} {}'.format(t, u), 'v': str(v), 'u': u}
    if f in ('asin', 'acos', 'atanh'):
        v = Fraction(rng.randint(-1000, 1000), 1000) if rng.random() < .7 else Fraction(rng.randint(-10 ** 15, 10 ** 15), 10 ** 15)
        if f == 'atanh' and abs(v) == 1:
            v = Fraction(0)
        t = dec_text(v)
    elif f == 'acosh':
        v = 1 + abs(v)
        if len(str(v)) > 30:
            v = Fraction(3)
        t = '({}/{})'.format(v.numerator, v.denominator)
    elif f in ('sinh', 'cosh') and abs(v) > 700:
        v, t = Fraction(699), '699'
    if rng.random() < .2:
        # a function and its inverse
        inv = {'sin': 'asin', 'cos': 'acos', 'tan': 'atan', 'sinh': 'asinh', 'cosh': 'acosh', 'tanh': 'atanh', 'asin': 'sin', 'acos': 'cos', 'atan': 'tan', 'asinh': 'sinh', 'acosh': 'cosh', 'atanh': 'tanh'}[f]
        lo, hi = {'sin': (-15, 15), 'cos': (1, 30), 'tan': (-15, 15), 'sinh': (-50, 50), 'cosh': (1, 50), 'tanh': (-20, 20), 'asin': (-9, 9), 'acos': (-9, 9), 'atan': (-300, 300), 'asinh': (-300, 300), 'acosh': (11, 300),
                  'atanh': (-9, 9)}[f]
        v = Fraction(rng.randint(lo * 100, hi * 100), 1000)
        return {'k': 'inverse', 'f': f, 'g': inv, 'a': dec_text(v), 'v': str(v)}
    return {'k': 'elem', 'f': f, 'a': [t], 'v': [str(v)]}


def gen_domain(rng):
    f = rng.choice(['fact', 'log', 'logb', 'asin', 'acos', 'acosh', 'atanh', 'gcd', 'lcm', 'stdev', 'unit', 'huge', 'mixed', 'text', 'nothing', 'exp'])
    x = rng.randint(1, 50)
    y = dec_text(Fraction(rng.randint(1, 99), 100))
    neg = rng.choice(['-{}', '(0-{})', '-{}.5']).format(x)
    off = rng.choice(['{}.' + '9' * rng.randint(1, 40), '{}.' + '0' * rng.randint(1, 40) + '1', '({} + 1E-' + str(rng.randint(1, 40)) + ')', '{}.5', '{}000000000000000000000.5']).format(x)
    t = {
        'fact': lambda: 'fact({})'.format(rng.choice([neg, off, off, '{}.5'.format(x), '(1/3)', '-1', '0.001'])),
        'log': lambda: 'log({})'.format(rng.choice([neg, '0', '(1-1)', '0.0'])),
        'logb': lambda: 'log({}, {})'.format(rng.choice([str(x), y, '1', '0', neg]), rng.choice(['0', '1', neg, '(2-2)', '1.0'])),
        'asin': lambda: 'asin({})'.format(rng.choice(['1.001', '-1.001', str(x + 1), neg.replace('1', '2')])),
        'acos': lambda: 'acos({})'.format(rng.choice(['1.001', '-1.001', str(x + 1)])),
        'acosh': lambda: 'acosh({})'.format(rng.choice(['0.999', '0', neg, y])),
        'atanh': lambda: 'atanh({})'.format(rng.choice(['1', '-1', '1.5', str(x), neg])),
        'gcd': lambda: 'gcd({})'.format(rng.choice([off + ', 3', '3, ' + off, '{}.5, 2'.format(x), '2, (1/3)', '0.1, 0.2'])),
        'lcm': lambda: 'lcm({})'.format(rng.choice([off + ', 3', '3, ' + off, '{}.5, 2'.format(x), '2, (1/3)', '0.1, 0.2'])),
        'stdev': lambda: 'stdev([{}])'.format(x),
        'unit': lambda: '{}({} {})'.format(rng.choice(['sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh']), x, rng.choice(['m', 'seconds', 'kg', 'm^2', 'rad^2', 'degrees/s'])),
        'huge': lambda: '{}({}{})'.format(rng.choice(['sinh', 'cosh']), rng.choice(['1', '2', '9']), '0' * rng.randint(3, 12)),
        'mixed': lambda: '{}({})'.format(rng.choice(AGG), rng.choice(['{} m, {} seconds', '{} m, {}', '{}, {} kg', '{} m, {} m^2', '[{} m, {} seconds]']).format(x, x + 1)) if True else '',
        'text': lambda: '{}({})'.format(rng.choice(['abs', 'floor', 'ceil', 'round', 'fact', 'exp', 'log'] + TRIG), rng.choice(["'abc'", "''", "'1 2'", "'--1'", 'nosuchvar'])),
        'nothing': lambda: '{}()'.format(rng.choice(['abs', 'floor', 'ceil', 'round', 'fact', 'exp', 'log', 'gcd', 'lcm'] + AGG + TRIG)),
        'exp': lambda: 'round({}, {})'.format(x, rng.choice(["'a'", 'true and false' if False else "'x'"])),
    }[f]()
    return {'k': 'domain', 'f': f, 'a': t}


def fixed(tier):
    return [{'k': 'domain', 'f': 'edge', 'a': a} for a in (
        'fact(-1)', 'fact(0.5)', 'log(0)', 'log(-1)', 'log(5, 1)', 'log(5, 0)', 'log(5, -2)', 'log(0, 2)', 'asin(1.0000000001)', 'acos(-1.0000000001)', 'acosh(0.9999999999)', 'atanh(1)', 'atanh(-1)',
        'gcd(1.5, 3)', 'lcm(1.5, 3)', 'stdev([1])', 'sin(1 m)', 'sinh(100000)', 'sum(1 m, 2)', 'max(1 s, 2 m)', 'mean(1, 2 kg)')]


def the_number(c, text, o=None):
    o = o or calc(c, text)
    if not o.ok:
        raise Violation('{!r} is rejected'.format(text), outcome=o.describe(c))
    r = o.last()
    if r is None or not isinstance(r.value, Number):
        raise Violation('{!r} does not give a number'.format(text), got=o.describe(c))
    return r


def close(got, want, tol, text):
    if abs(got - want) > tol:
        raise Violation('{!r} is wrong'.format(text), got='%.25g' % float(got), expected='%.25g' % float(want), error='%.3g' % float(abs(got - want)))


def half_up(x):
    return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)


def size_ok(*xs):
    if any(digits(x.numerator) > 85 or digits(x.denominator) > 60 for x in xs):
        raise Skip('beyond the number size')


EPS = Fraction(1, 2 ** 50)


def elementary(f, v, got, text):
    """got must be f(v) to double precision."""
    if f in ('sin', 'cos'):
        close(got, hp.f(f, v), abs(v) * EPS + Fraction(1, 10 ** 15), text)
        return
    lo, hi = v - abs(v) * EPS, v + abs(v) * EPS
    if f in ('asin', 'acos'):
        lo, hi = max(lo, Fraction(-1)), min(hi, Fraction(1))
    if f == 'acosh':
        lo = max(lo, Fraction(1))
    if f == 'tan':
        c = hp.f('cos', v)
        if abs(c) < abs(v) * EPS * 16 + Fraction(1, 10 ** 14):
            return      # at a pole
        w = hp.f('tan', v)
        close(got, w, abs(v) * EPS * 2 / (c * c) + abs(w) * EPS + Fraction(1, 10 ** 15), text)
        return
    w = hp.f(f, v)
    a, b = hp.f(f, lo), hp.f(f, hi)
    tol = abs(w) * EPS * 4 + Fraction(1, 10 ** 30)
    for x in (a, b):
        if x is not None:
            tol += abs(x - w)
    if a is None or b is None:
        tol += Fraction(1, 10 ** 6) * (abs(w) + 1)
    close(got, w, tol, text)


def run(case, mon):
    reset_context()
    c = shared_calc(simplify=False)
    c.vars.clear()
    k = case['k']
    if k == 'domain':
        o = calc(c, case['a'])
        mon.obs('domain', case['a'])
        if not o.failed:
            raise Violation('{!r} lies outside the function\'s domain but gives a value'.format(case['a']), got=o.describe(c))
        return
    if k == 'exact':
        f = case['f']
        v = [Fraction(x) for x in case['v']]
        text = '{}({})'.format(f, ', '.join(case['a']))
        if f == 'abs':
            want = abs(v[0])
        elif f in ('floor', 'ceil', 'round'):
            p = 10 ** int(v[1]) if len(v) > 1 else 1
            size_ok(v[0] * p)
            y = v[0] * p
            want = Fraction({'floor': math.floor, 'ceil': math.ceil, 'round': half_up}[f](y), p)
            if f == 'round' and (y * 2).denominator == 1 and y.denominator == 2:
                mon.obs('tie', text)
        elif f == 'fact':
            want = Fraction(math.factorial(int(v[0])))
        else:
            want = Fraction(getattr(math, f)(int(v[0]), int(v[1])))
        size_ok(want, *v)
        mon.obs(f, text)
        r = the_number(c, text)
        if frac(r.value) != want:
            raise Violation('{!r} is wrong'.format(text), got=str(frac(r.value)), expected=str(want))
        if case['u']:
            w = value_of(c, '1 ' + case['u'])
            if r.unit is None or not unit_key(r.unit) == unit_key(w.unit):
                raise Violation('{!r} has a wrong unit'.format(text), got=unit_key(r.unit))
        elif r.unit is not None:
            raise Violation('{!r} has a unit'.format(text), got=unit_key(r.unit))
        return
    if k == 'agg':
        run_agg(case, mon, c)
        return
    if k == 'elem':
        f = case['f']
        v = [Fraction(x) for x in case['v']]
        text = '{}({})'.format('log' if f == 'logb' else f, ', '.join(case['a']))
        r = the_number(c, text)
        got = frac(r.value)
        if f == 'exp':
            mon.obs('exp', text)
            w = hp.f('exp', v[0])
            close(got, w, abs(w) * Fraction(1, 10 ** 13), text)
        elif f == 'log':
            mon.obs('log', text)
            w = hp.f('log', v[0])
            close(got, w, abs(w) * Fraction(1, 10 ** 13) + Fraction(1, 10 ** 40), text)
        elif f == 'logb':
            mon.obs('log', text)
            lb = hp.f('log', v[1])
            w = hp.f('log', v[0]) / lb
            close(got, w, abs(w) * (Fraction(1, 10 ** 13) + EPS * 4 / abs(lb)) + Fraction(1, 10 ** 40), text)
        else:
            mon.obs('trig', text)
            elementary(f, v[0], got, text)
        if r.unit is not None:
            raise Violation('{!r} has a unit'.format(text), got=unit_key(r.unit))
        return
    if k == 'angle':
        f = case['f']
        text = '{}({})'.format(f, case['a'])
        deg = hp.f('pi', 0) / 180
        v = Fraction(case['v']) * (deg if case['u'].startswith('deg') else 1)
        if case.get('plus'):
            v += 30 * deg
        r = the_number(c, text)
        mon.obs('angle', text)
        elementary(f, v, frac(r.value), text)
        if r.unit is not None:
            raise Violation('{!r} has a unit'.format(text), got=unit_key(r.unit))
        return
    if k == 'inverse':
        text = '{}({}({}))'.format(case['g'], case['f'], case['a'])
        v = Fraction(case['v'])
        mon.obs('inverse', text)
        got = frac(the_number(c, text).value)
        # the conditioning of the outer function at the inner value
        inner = hp.f(case['f'], v)
        tol = Fraction(1, 10 ** 13) * (abs(v) + 1)
        for s in (-1, 1):
            x = hp.f(case['g'], inner + s * (abs(inner) * EPS * 8 + Fraction(1, 10 ** 20)))
            tol = None if x is None else tol + abs(x - v) * 4
            if tol is None:
                break
        if tol is None:
            tol = Fraction(1, 10 ** 6) * (abs(v) + 1)
        close(got, v, tol, text)
        return


def run_agg(case, mon, c):
    f = case['f']
    vals = [Fraction(x) for x in case['v']]
    args = case['a']
    rng = random.Random(case['seed'])
    us = case['u']
    scale = None
    if us:
        table = SCALE if us[0] in SCALE else TIME
        scale = [table[u] for u in us]
        if len(set(us)) > 1:
            mon.obs('mixed units')
    size_ok(*vals)

    def ask(idx, how):
        a = [args[i] for i in idx]
        if how == 'args':
            text = '{}({})'.format(f, ', '.join(a))
        elif how == 'array':
            text = '{}([{}])'.format(f, ', '.join(a))
        else:
            text = 'arr1 = [{}]\n{}(arr1)'.format(', '.join(a), f)
        c.vars.clear()
        r = the_number(c, text)
        got = frac(r.value)
        if us:
            if r.unit is None:
                raise Violation('{!r} lost its unit'.format(text), got=show(c, r))
            name = unit_key(r.unit)
            one = value_of(c, '1 ' + us[idx[0]])
            # min and max give the value as it was written, the others the first one's unit
            s = unit_scale(c, r.unit, table)
            if s is None:
                raise Violation('{!r} has a unit of another dimension'.format(text), got=name)
            got *= s
        elif r.unit is not None:
            raise Violation('{!r} has a unit'.format(text), got=unit_key(r.unit))
        return got, text, r
    order = list(range(len(vals)))
    got, text, r = ask(order, case['how'])
    mon.obs(f, text)
    n = len(vals)
    s = sorted(vals)
    if f == 'sum':
        want = sum(vals)
    elif f == 'mean':
        want = sum(vals) / n
    elif f == 'min':
        want = s[0]
    elif f == 'max':
        want = s[-1]
    elif f == 'median':
        want = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    elif f == 'mode':
        top = max(vals.count(v) for v in vals)
        if vals.count(got) != top:
            raise Violation('{!r} is not a most frequent value'.format(text), got=str(got), values=[str(v) for v in vals])
        return
    else:
        m = sum(vals) / n
        var = sum((v - m) ** 2 for v in vals) / (n - 1)
        # squares of small differences of large values: judged relative to the spread
        if var == 0:
            big = max(abs(v) for v in vals)
            if abs(got) > big * Fraction(1, 10 ** 40):
                raise Violation('{!r} of equal values is not zero'.format(text), got='%.17g' % float(got))
        else:
            if got <= 0:
                raise Violation('{!r} is not positive'.format(text), got='%.17g' % float(got))
            if abs(got * got / var - 1) > Fraction(1, 10 ** 12):
                raise Violation('{!r} is not the sample standard deviation'.format(text), got='%.17g' % float(got), expected='%.17g' % math.sqrt(var))
        want = None
    if want is not None:
        size_ok(want)
        if got != want:
            raise Violation('{!r} is wrong'.format(text), got=str(got), expected=str(want))
    # any other order and way of passing the values
    if n > 1:
        rng.shuffle(order)
        mon.obs('order')
        g2, t2, _ = ask(order, rng.choice(['args', 'array', 'var']))
        if (g2 != got) if want is not None else abs(g2 - got) > abs(got) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 30):
            raise Violation('{} depends on the order of the values'.format(f), one=text, other=t2, results=[str(got), str(g2)])


_NAMES = {}


def unit_scale(c, unit, table):
    if not _NAMES:
        for t in (SCALE, TIME):
            for u in t:
                _NAMES[unit_key(value_of(c, '1 ' + u).unit)] = t[u]
    return _NAMES.get(unit_key(unit))
