"""C15: arrays, ranges and array functions follow sequence semantics."""
import random
import signal
from fractions import Fraction
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C15'
TECHNIQUE = ('runtime monitor: arrays, ranges and compositions of array functions compared element by element (value, unit, order) with a list model over exact '
             'rationals')
RULE = ('random nested compositions of literals, ranges (both directions, fractional steps, mixed units, expressions, text numbers), variables, concat, reverse, '
        'filter, sort, element, count; impossible ranges; distinct by text')
BUDGET = {'quick': 60000, 'thorough': 350000}
NEED = {'array': 6000, 'range': 4000, 'element': 1500, 'count': 1500, 'sorted': 600, 'reject': 1500, 'source_kept': 1200, 'long': 1200, 'long_range': 50, 'zero': 25}
ASSUMPTIONS = ['what a range of step 0 contains, non-integer indexes, index 0 and negative indexes are not specified and not generated']


def setup():
    ut.bind(shared_calc())


UNITS = {'L': ['meter', 'kilometer', 'centimeter', 'inch', 'foot', 'mile'], 'T': ['second', 'minute', 'hour', 'millisecond', 'day'], 'M': ['gram', 'kilogram', 'pound']}


def q(f, u):
    """Model number: ('n', num, den, unit)"""
    return ['n', str(f.numerator), str(f.denominator), u]


def fr(v):
    return Fraction(int(v[1]), int(v[2]))


def lit_num(rng, f):
    d = dec_literal(f)
    r = rng.random()
    if d is None or r < .1:
        return '({} / {})'.format(f.numerator, f.denominator)
    if r < .2:
        return dec_literal(f * 100) + '%'
    if r < .3 and f.denominator == 1 and f >= 0:
        return rng.choice(['0x{:X}', '0b{:b}', '0o{:o}']).format(int(f))
    if r < .38:
        return "'{}'".format(d)
    if r < .48:
        return '({} + {})'.format(dec_literal(f - 1), 1) if dec_literal(f - 1) else d
    return d


def num_text_of(rng, f, u):
    if u is None:
        return lit_num(rng, f)
    d = dec_literal(f)
    t = d if d else '({} / {})'.format(f.numerator, f.denominator)
    return t + rng.choice([' ', ' ', '']) + ut.u_text(rng, u) if d and rng.random() < .0 else t + ' ' + rng.choice(ut.BY[u].names[:2])


TINY = Fraction(1, 10 ** 20)


def g_val(rng):
    if rng.random() < .15:
        # values closer to each other than binary floating point can tell
        return rng.choice([Fraction(1), Fraction(5, 2), Fraction(10 ** 20), Fraction(1, 3), Fraction(-7)]) + rng.choice([TINY, Fraction(1), 0]) * rng.randint(-3, 3)
    return rng.choice([Fraction(rng.randint(-9, 9)), Fraction(rng.randint(-999, 999), 10), Fraction(rng.randint(-50, 50), rng.choice([1, 2, 3, 4, 7]))])


def g_range(rng):
    """-> (text, model elements or None when it must be rejected)"""
    fam = rng.choice([None, None, None, 'L', 'T', 'M', 'K'])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    if fam is None:
        a = g_val(rng)
        step = rng.choice([Fraction(1), Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 3), Fraction(3, 10), Fraction(7), Fraction(1, 10), Fraction(1, 100), Fraction(7, 10), Fraction(11, 10), Fraction(1, 7), TINY])
        if rng.random() < .15:
            n = rng.randint(14, 150) if rng.random() > .12 else rng.randint(150, 3000)
        if rng.random() < .4:
            step = -step
        over = rng.choice([Fraction(0), Fraction(0), step / 2, step * Fraction(9, 10), step * Fraction(1, 1000), step * TINY, step - step * TINY])
        b = a + n * step + over
        if n == 0 and over == 0 and rng.random() < .5:
            step = -step
        texts = lit_num(rng, a), lit_num(rng, b), lit_num(rng, step)
        if abs(step) == 1 and rng.random() < .7 and (b - a) * step >= 0:
            t = '{} .. {}'.format(*texts[:2])
            if a == b:
                step = Fraction(1)
        else:
            t = '{} .. {} step {}'.format(*texts)
        if rng.random() < .12:
            # impossible: away from the end
            if b == a:
                b = a + step
            return '{} .. {} step {}'.format(texts[0], lit_num(rng, b), lit_num(rng, -step if (b - a) * step > 0 else step)), None
        out, x = [], a
        while (step > 0 and x <= b) or (step < 0 and x >= b):
            out.append(q(x, None))
            x += step
        return t, out
    if fam == 'K':
        u = rng.choice(['Celsius', 'Fahrenheit', 'kelvin'])
        ub, us = rng.choice(['Celsius', 'Fahrenheit', 'kelvin']), rng.choice(['Celsius', 'Fahrenheit', 'kelvin'])
    else:
        u, ub, us = (rng.choice(UNITS[fam]) for _ in range(3))
    U, UB, US = ut.BY[u], ut.BY[ub], ut.BY[us]
    a = Fraction(rng.randint(-20, 20))
    step_in_u = rng.choice([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(5)]) * rng.choice([1, 1, -1])
    over = rng.choice([Fraction(0), Fraction(0), step_in_u / 2])
    b_in_u = a + n * step_in_u + over
    b = (b_in_u * U.scale + U.offset - UB.offset) / UB.scale
    step = step_in_u * U.scale / US.scale
    if any(digits(x.numerator) + digits(x.denominator) > 30 for x in (b, step)):
        return None
    r = rng.random()
    ta, tb, ts = num_text_of(rng, a, u), num_text_of(rng, b, ub), num_text_of(rng, step, us)
    if r < .08:
        return '{} .. {} step {}'.format(ta, lit_num(rng, b), ts), None
    if r < .16:
        return '{} .. {} step {}'.format(ta, tb, lit_num(rng, step)), None
    if r < .22:
        return '{} .. {} step {}'.format(lit_num(rng, a), tb, ts), None
    if r < .28:
        other = rng.choice([x for f in UNITS for x in UNITS[f] if f != fam])
        return ('{} .. {}'.format(ta, num_text_of(rng, b, other)) if rng.random() < .5 else '{} .. {} step {}'.format(ta, tb, num_text_of(rng, step, other))), None
    if r < .34 and b_in_u != a:
        return '{} .. {} step {}'.format(ta, tb, num_text_of(rng, -step, us)), None
    if step_in_u in (1, -1) and (b_in_u != a or step_in_u == 1) and rng.random() < .5:
        t = '{} .. {}'.format(ta, tb)
    else:
        t = '{} .. {} step {}'.format(ta, tb, ts)
    out, x = [], a
    while (step_in_u > 0 and x <= b_in_u) or (step_in_u < 0 and x >= b_in_u):
        out.append(q(x, u))
        x += step_in_u
    return t, out


def g_scalar(rng, fam):
    r = rng.random()
    if fam == 'any' and r < .12:
        s = rng.choice(['a', 'b c', '', 'X', '10', 'caf\u00e9'])
        return "'{}'".format(s), ['s', s]
    if fam == 'any' and r < .2:
        b = rng.random() < .5
        return str(b).lower(), ['b', b]
    if fam == 'any' and r < .35:
        u = rng.choice([x for f in UNITS.values() for x in f])
        f = Fraction(rng.randint(-99, 99), rng.choice([1, 2, 10]))
        return num_text_of(rng, f, u), q(f, u)
    if fam in UNITS:
        u = rng.choice(UNITS[fam])
        f = Fraction(rng.randint(-99, 99), rng.choice([1, 2, 10]))
        return num_text_of(rng, f, u), q(f, u)
    f = g_val(rng)
    t = lit_num(rng, f)
    if t.startswith("'"):
        return t, ['s', t[1:-1]]
    return t, q(f, None)


def g_array(rng, d, fam):
    """-> tree: ['lit', text, model] ['var', tree] [fn, ...]"""
    r = rng.random()
    if d == 0 or r < .35:
        texts, model = [], []
        for _ in range(rng.choice([1, 1, 2, 3, 4, 6]) if rng.random() > .03 else rng.randint(20, 150)):
            if rng.random() < .25 and fam in ('any', 'num'):
                for _ in range(9):
                    g = g_range(rng)
                    if g and g[1] is not None and (fam == 'any' or not g[1] or g[1][0][3] is None):
                        texts.append(g[0])
                        model += g[1]
                        break
                continue
            if fam == 'any' and rng.random() < .1 and d:
                sub = g_array(rng, 0, 'any')
                texts.append(sub[1])
                model.append(['l', sub[2]])
                continue
            t, m = g_scalar(rng, fam)
            texts.append(t)
            model.append(m)
        if not texts:
            texts, model = ['1'], [q(Fraction(1), None)]
        return ['lit', '[' + rng.choice([', ', ',', ' , ']).join(texts) + ']', model]
    if r < .45:
        return ['var', g_array(rng, d - 1, fam)]
    if r < .6:
        return ['concat', g_array(rng, d - 1, fam), g_array(rng, d - 1, fam)]
    if r < .72:
        return ['reverse', g_array(rng, d - 1, fam)]
    if r < .86:
        return ['filter', g_array(rng, d - 1, fam), rng.randint(0, 2 ** 30)]
    if fam != 'any':
        return ['sort', g_array(rng, d - 1, fam)]
    return ['concat', g_array(rng, d - 1, fam), g_array(rng, d - 1, fam)]


def base(m):
    if m[0] == 's':
        return Fraction(m[1])
    f = fr(m)
    return f * ut.BY[m[3]].scale if m[3] else f


class St:
    def __init__(self):
        self.pre, self.n = [], 0
        self.sorts = 0


def build(t, st):
    """-> (text, model list)"""
    k = t[0]
    if k == 'lit':
        return t[1], list(t[2])
    if k == 'var':
        s, m = build(t[1], st)
        st.n += 1
        v = 'arr_{}'.format(st.n)
        st.pre.append((v, s, m))
        return v, m
    if k == 'concat':
        s1, m1 = build(t[1], st)
        s2, m2 = build(t[2], st)
        return 'concat({}, {})'.format(s1, s2), m1 + m2
    s, m = build(t[1], st)
    if k == 'reverse':
        return 'reverse({})'.format(s), m[::-1]
    if k == 'filter':
        if not m:
            raise Skip('empty')
        bits = [bool(t[2] >> i & 1) for i in range(len(m))]
        return 'filter({}, [{}])'.format(s, ', '.join(str(b).lower() for b in bits)), [x for x, b in zip(m, bits) if b]
    if k == 'sort':
        if any(x[0] == 'l' for x in m):
            raise Skip('nested')
        st.sorts += 1
        return 'sort({})'.format(s), sorted(m, key=base)
    raise AssertionError(k)


def plain_model(m):
    if m[0] == 'n':
        return ('num', fr(m), m[3] or '')
    if m[0] == 's':
        return ('str', m[1], '')
    if m[0] == 'b':
        return ('bool', m[1], '')
    return ('list', tuple(plain_model(x) for x in m[1]), '')


def gen(rng, i, tier):
    r = rng.random()
    if r < .3:
        g = None
        while g is None:
            g = g_range(rng)
        return {'kind': 'range', 't': g[0], 'm': g[1]}
    if r < .301:
        return {'kind': 'zero', 'seed': rng.randint(0, 10 ** 9)}
    if r < .36:
        return {'kind': 'reject', 'seed': rng.randint(0, 10 ** 9)}
    if r < .4:
        b, u = rng.choice([Fraction(1), Fraction(5, 2), Fraction(10 ** 20), Fraction(1, 3), Fraction(-7), Fraction(0)]), rng.choice([None, None, 'meter'])
        vs = [b + rng.choice([TINY, TINY, Fraction(1), Fraction(1, 10 ** 8)]) * rng.randint(-3, 3) for _ in range(rng.randint(2, 8) if rng.random() < .8 else rng.randint(9, 200))]
        t = ['lit', '[' + ', '.join('({})'.format(num_text_of(rng, v, u)) if u else dec_literal(v) or '({} / {})'.format(v.numerator, v.denominator) for v in vs) + ']', [q(v, u) for v in vs]]
        t = ['sort', ['reverse', t] if rng.random() < .3 else t]
        return {'kind': rng.choice(['array', 'array', 'element', 'count']), 't': t, 'fam': 'num', 'seed': rng.randint(0, 10 ** 9), 'simp': rng.random() < .5}
    fam = rng.choice(['any', 'any', 'num', 'L', 'T'])
    return {'kind': rng.choice(['array', 'array', 'array', 'element', 'count', 'eq']), 't': g_array(rng, rng.choice([0, 1, 1, 2, 2, 3]), fam), 'fam': fam,
            'seed': rng.randint(0, 10 ** 9), 'simp': rng.random() < .5}


def check(c, text, r, m):
    got = plain(c, r.value, r.unit)
    want = ('list', tuple(plain_model(x) for x in m), '')
    if got != want:
        raise Violation('an array does not have the right elements', text=text, got=show(c, r), expected=str(want))


class TooLong(BaseException):
    pass


def zero_step(c, rng, mon):
    """What a step of zero gives is open, but it must end."""
    a, b = (rng.choice(['0', '1', '5', '-3', '2.5', '10', '1/3', '7']) for _ in range(2))
    z = rng.choice(['0', '(1 - 1)', '0.0', '0%', "'0'", '0x0', '-0', '(0 / 7)', '0e5'])
    u = rng.choice(['', '', ' m', ' s'])
    text = rng.choice(['[{}{u} .. {}{u} step {}{u}]', 'count([{}{u} .. {}{u} step {}{u}])', '[9{u}, {}{u} .. {}{u} step {}{u}, 4{u}]']).format(
        *[x if not u else '(' + x + ')' for x in (a, b)], z if not u or z[0] in '(0' else '(' + z + ')', u=u)

    def late(*_):
        raise TooLong()
    old = signal.signal(signal.SIGVTALRM, late)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, 1.5, .3)
        try:
            o = calc(c, text)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except TooLong:
        o = None
    finally:
        signal.signal(signal.SIGVTALRM, old)
    mon.obs('zero', text)
    if o is None:
        raise Violation('a range with a step of zero does not end', text=text)
    if o.kind in ('raw', 'parse'):
        raise Violation('unexpected failure of a range', text=text, got=repr(o.exc))


def run(case, mon):
    k = case['kind']
    c = shared_calc('Computing', case.get('simp', True))
    c.vars.clear()
    if k == 'range':
        text = '[' + case['t'] + ']'
        o = calc(c, text)
        if case['m'] is None:
            mon.obs('reject', text)
            if not o.failed:
                raise Violation('an impossible range is accepted', text=text, got=o.describe(c))
            return
        mon.obs('range', text)
        if len(case['m']) > 200:
            mon.obs('long_range', text)
        mon.sample(text)
        if not o.ok:
            raise Violation('a range fails', text=text, got=o.describe(c))
        check(c, text, o.last(), case['m'])
        return
    rng = random.Random(case['seed'])
    if k == 'zero':
        return zero_step(c, rng, mon)
    if k == 'reject':
        n = rng.randint(1, 5)
        a = '[' + ', '.join(str(rng.randint(0, 9)) for _ in range(n)) + ']'
        s = rng.choice(['element({}, {})'.format(a, n + rng.randint(1, 3)), 'concat({}, 5)'.format(a), 'concat({})'.format(a), 'filter({}, [1])'.format(a),
                        "filter({}, 'x')".format(a), 'element(5, 1)', "sort(['a', 'b'])", 'sort([1 m, 2 s])', 'sort([1 m, 2])', "['a' .. 5]", '[1 .. nosuch]', "[1 .. 'b']", '[1 .. 5 step true then 1]',
                        '[1 .. 5 step -1]', '[5 .. 1 step 1]', '[1 .. 2 .. 3]', '[1 m .. 5]', '[1 .. 5 m]', '[1 m .. 5 s]', '[1 m .. 5 m step 1]', '[1, 1/0]', '[1 .. 1/0]', '[1/0 .. 5]',
                        "filter({}, [true, 'a'])".format(a), 'concat([1], [2], [3])', '[1, 2', '[.. 3]', '[1 ..]', '[, 1]'])
        expect_fail(c, s, 'not a possible array operation')
        mon.obs('reject', s)
        return
    st = St()
    text, m = build(case['t'], st)
    if len(m) > 4000:
        raise Skip('long')
    for v, s, mm in st.pre:
        if not mm:
            raise Skip('empty')
        o = calc(c, '{} = {}'.format(v, s))
        if not o.ok:
            raise Violation('storing an array fails', text=s, got=o.describe(c))
        check(c, s, o.last(), mm)
    if len(m) > 40:
        mon.obs('long', text)
    if k == 'array':
        o = calc(c, text)
        if not o.ok:
            raise Violation('an array expression fails', text=text, pre=st.pre, got=o.describe(c))
        mon.obs('array', text)
        mon.sample(text)
        if st.sorts:
            mon.obs('sorted')
        check(c, text, o.last(), m)
    elif k == 'count':
        t = 'count({})'.format(text)
        r = value_of(c, t)
        mon.obs('count', t)
        if frac(r.value) != len(m) or r.unit is not None:
            raise Violation('count() is wrong', text=t, got=show(c, r), expected=len(m))
    elif k == 'element':
        if not m:
            raise Skip('empty')
        i = rng.randint(1, len(m))
        t = 'element({}, {})'.format(text, i)
        r = value_of(c, t)
        mon.obs('element', t)
        if plain(c, r.value, r.unit) != plain_model(m[i - 1]):
            raise Violation('element() gives the wrong element', text=t, got=show(c, r), expected=str(plain_model(m[i - 1])))
    else:
        # laws: concat of parts, double reverse, sort is a permutation that does not depend on order
        if not m:
            raise Skip('empty')
        bits = [rng.random() < .5 for _ in m]
        laws = ['reverse(reverse({0}))', 'concat(filter({0}, [' + ', '.join('true' for _ in m) + ']), filter({0}, [' + ', '.join('false' for _ in m) + ']))']
        for law in laws:
            t = law.format(text)
            r = value_of(c, t)
            mon.obs('array', t)
            check(c, t, r, m)
    for v, s, mm in st.pre:
        r = value_of(c, v)
        mon.obs('source_kept')
        check(c, v, r, mm)


def shrink(case):
    if 't' not in case or not isinstance(case['t'], list):
        return

    def subs(t):
        for x in t[1:]:
            if isinstance(x, list) and x and x[0] in ('lit', 'var', 'concat', 'reverse', 'filter', 'sort'):
                yield x
    for x in subs(case['t']):
        yield dict(case, t=x)
