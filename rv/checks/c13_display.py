"""C13: displayed numbers are the exact value correctly rounded."""
import random
import re
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *
from rv import lib

ID = 'C13'
TECHNIQUE = ('runtime monitor: every displayed decimal text is compared with an exact rounding of the exact rational value computed independently; '
             'read-back and settings-independence as further oracles')
RULE = ('values with chosen digits around rounding boundaries (ties, carries, all nines, tiny, huge) times number of places 0-60 times the 8 rounding modes, '
        'shown alone, in arrays, with units and inside text; distinct by (value, places, mode)')
BUDGET = {'quick': 50000, 'thorough': 700000}
NEED = {'text': 20000, 'readback': 5000, 'exact': 5000, 'same_value': 15000, 'array': 1300, 'unit': 2000, 'string': 2000}
ASSUMPTIONS = ['values whose integer part, places and denominator together exceed the number size are outside the domain']


def gen(rng, i, tier):
    return {'v': value(rng), 'places': rng.choice([0, 1, 2, 3, 5, 10, 10, 10, 30, 30, 30, rng.randint(0, 60)]), 'mode': rng.choice(lib.MODES),
            'how': rng.randint(0, 9), 'seed': rng.randint(0, 10 ** 9)}


def value(rng):
    """A fraction as [num, den] with digits chosen around rounding boundaries."""
    k = rng.random()
    sign = rng.choice([1, -1])
    if k < .3:
        # decimal with an interesting tail
        ip = rng.choice(['0', '1', '9', '99', '10', str(rng.randint(0, 10 ** rng.randint(1, 20)))])
        p = rng.randint(0, 34)
        head = ''.join(rng.choice('0123456789') for _ in range(p)) if rng.random() < .6 else rng.choice('09') * p
        tail = rng.choice(['5', '50', '49', '51', '4999999', '5000001', '95', '05', '9', '1', '99', '995', '500', '', '0', '00'])
        f = Fraction(ip + '.' + (head + tail or '0'))
    elif k < .55:
        f = Fraction(rng.randint(0, 10 ** rng.randint(1, 12)), rng.randint(1, rng.choice([9, 99, 9999, 10 ** 8])))
    elif k < .65:
        f = Fraction(10 ** rng.randint(0, 60) + rng.randint(-2, 2), 10 ** rng.randint(0, 40))
    elif k < .75:
        f = Fraction(rng.randint(1, 99), 10 ** rng.randint(1, 60))
    elif k < .85:
        f = Fraction(rng.randint(0, 10 ** rng.randint(1, 60)))
    else:
        f = Fraction(rng.randint(1, 10 ** 6), 2 ** rng.randint(0, 30) * 5 ** rng.randint(0, 10))
    f *= sign
    return [str(f.numerator), str(f.denominator)]


def literal(f, rng):
    """An expression denoting f exactly."""
    d = dec_literal(f)
    r = rng.random()
    if d is not None and (r < .6 or f.denominator == 1):
        return d
    return '{} / {}'.format(f.numerator, f.denominator)


def dec_text(f):
    """Expected decimal text of a fraction that has one."""
    t = dec_literal(f)
    if '.' in t:
        t = t.rstrip('0').rstrip('.')
    return '0' if t in ('-0', '') else t


def run(case, mon):
    rng = random.Random(case['seed'])
    f = Fraction(int(case['v'][0]), int(case['v'][1]))
    places, mode = case['places'], case['mode']
    if max(0, digits(f.numerator) - digits(f.denominator) + 1) + places + digits(f.denominator) > 92 or digits(f.numerator) > 90:
        raise Skip('beyond number size')
    c = shared_calc()
    c.vars.clear()
    try:
        go(c, case, f, places, mode, rng, mon)
    finally:
        c.number_prec_set(30)
        c.number_set_rounding('ROUND_HALF_UP')


def go(c, case, f, places, mode, rng, mon):
    expr = literal(f, rng)
    how = case['how']
    base = value_of(c, expr)        # with the default settings
    c.number_prec_set(places)
    c.number_set_rounding(mode)
    r = value_of(c, expr)
    mon.obs('same_value')
    if frac(r.value) != f or frac(base.value) != f:
        raise Violation('the settings changed the value of exact arithmetic', text=expr, places=places, mode=mode, got=str(frac(r.value)), expected=str(f))
    want_f = round_frac(f, places, mode)
    want = dec_text(want_f)
    key = (str(f), places, mode)
    got = r.value.to_string(c)
    check(mon, 'text', key, got, want, expr, places, mode)
    if not re.fullmatch(r'-?\d+(\.\d*[1-9])?', got):
        raise Violation('a number is not displayed in plain form', text=expr, places=places, mode=mode, got=got)
    check(mon, 'text', None, base.value.to_string(c), want, expr, places, mode)
    if want_f == f:
        mon.obs('exact')
        c.calculate('')
        back = value_of(c, got)
        mon.obs('readback', key)
        if frac(back.value) != f or back.value != r.value:
            raise Violation('a printed number reads back as another value', text=expr, printed=got, places=places, got=str(frac(back.value)))
    if how == 0:
        g = Fraction(f.numerator + 1, f.denominator)
        e2 = literal(g, rng)
        a = value_of(c, '[{}, {}, 7]'.format(expr, e2))
        check(mon, 'array', key, show(c, a), '[{}, {}, 7]'.format(want, dec_text(round_frac(g, places, mode))), expr, places, mode)
    elif how == 1:
        for u, s, p in (('m', 'meter', 'meters'), ('kg', 'kilogram', 'kilograms')):
            c.unit_simplification_set(False)
            try:
                q = value_of(c, '({}) {}'.format(expr, u))
            finally:
                c.unit_simplification_set(True)
            t = show(c, q)
            mon.obs('unit', key)
            if t.split(' ')[0] != want or not (s in t or p in t):
                raise Violation('a quantity is displayed with a wrong number', text=expr, unit=u, places=places, mode=mode, got=t, expected=want)
    elif how == 2:
        s = value_of(c, "'<' +$ ({}) +$ '>'".format(expr))
        check(mon, 'string', key, s.value, '<' + want + '>', expr, places, mode)
        s = value_of(c, "length({})".format(expr))
        check(mon, 'string', None, s.value.to_string(c), str(len(want)), expr, places, mode)
    elif how == 3:
        # stored, then read with other settings: the display follows the settings, the value stays
        calc(c, 'vv = ' + expr)
        p2, m2 = rng.randint(0, 20), rng.choice(lib.MODES)
        c.number_prec_set(p2)
        c.number_set_rounding(m2)
        r2 = value_of(c, 'vv')
        mon.obs('same_value')
        if frac(r2.value) != f:
            raise Violation('changing the settings changed a stored value', text=expr, got=str(frac(r2.value)))
        check(mon, 'text', key, r2.value.to_string(c), dec_text(round_frac(f, p2, m2)), expr, p2, m2)
        check(mon, 'text', key, r.value.to_string(c), dec_text(round_frac(f, p2, m2)), expr, p2, m2)
    elif how == 4:
        o = calc(c, 'vw = {}; vw + 1; vw * 2'.replace(';', '\n').format(expr))
        if not o.ok:
            raise Violation('arithmetic failed', text=expr, got=o.describe(c))
        for rr, w in zip(o.results, (f, f + 1, f * 2)):
            check(mon, 'text', (str(w), places, mode), rr.value.to_string(c), dec_text(round_frac(w, places, mode)), expr, places, mode)
    mon.sample('{} places={} {} -> {}'.format(expr, places, mode, got))


def check(mon, what, key, got, want, expr, places, mode):
    mon.obs(what, key)
    if got != want:
        raise Violation('a number is displayed wrongly', text=expr, places=places, mode=mode, got=got, expected=want)


def shrink(case):
    n, d = int(case['v'][0]), int(case['v'][1])
    for f in (Fraction(abs(n), d), Fraction(n // 10, d), Fraction(n, max(1, d // 10)), Fraction(n, d) - n // d):
        if f != Fraction(n, d):
            yield dict(case, v=[str(f.numerator), str(f.denominator)])
    if case['how'] < 5:
        yield dict(case, how=9)
    if case['places'] > 0:
        yield dict(case, places=case['places'] - 1)
