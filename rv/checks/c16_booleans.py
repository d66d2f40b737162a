"""C16: comparisons, boolean logic and conditionals."""
import random
from fractions import Fraction
from rv import unittab as ut
from rv.checks.c12_bases import g_lit
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C16'
TECHNIQUE = ('runtime monitor: generated boolean programs with planted failing sub-expressions compared with a lazy reference evaluator over exact rationals and '
             'unit scales; order laws checked on triples of values')
RULE = ('random trees of comparisons, and/or/xor/not and nested conditionals over numbers in all literal forms, quantities, booleans and failing operands; '
        'triples of close and equal values in different notations and units; distinct by text')
BUDGET = {'quick': 50000, 'thorough': 500000}
NEED = {'bool': 4500, 'cond': 1400, 'error': 2300, 'lazy': 1000, 'order': 30000, 'incompatible': 800}

BAD = ['(1 / 0)', '(5 m + 3 s)', "('abc' * 2)", '(nosuch9 + 1)', 'fact(-1)', 'element([1, 2], 5)', '(3 to m)', '@nofn(1)', "(true + 'x')", '(7 % 0)', 'sum(1 m, 2 s)', '(1 == 1 m)']
UNITS = [('m', 'meter'), ('km', 'kilometer'), ('inches', 'inch'), ('s', 'second'), ('hours', 'hour'), ('kg', 'kilogram'), ('pounds', 'pound'), ('ms', 'millisecond')]


# ---- generation: tree nodes ['num', text, n, d] ['q', text, n, d, unit] ['bool', text, value] ['bad', text] [op, a, b] ['not', a] ['cond', c, a, b] ['br', x] ['txt', s]

def g_num(rng, q=None):
    r = rng.random()
    if q or (q is None and r < .2):
        u = q or rng.choice(UNITS)
        v = rng.choice([Fraction(0), Fraction(1), Fraction(rng.randint(-50, 50)), Fraction(rng.randint(-999, 999), 100)])
        return ['q', '({} {})'.format(dec_literal(v), u[0]), str(v.numerator), str(v.denominator), u[1]]
    if r < .45:
        l = g_lit(rng)
        return ['num', l['t'], l['n'], l['d']]
    v = rng.choice([0, 1, 2, -1, rng.randint(-9, 9)])
    return ['num', str(v), str(v), '1']


def g_bool(rng, d, bad):
    r = rng.random()
    if bad and r < .12:
        return ['bad', rng.choice(BAD)]
    if bad and rng.random() < .05:
        # no truth value, however it reads
        return ['txt', rng.choice(["'true'", "'false'", "'TRUE'", "''", "'1'"])] if rng.random() < .6 else ['num', '1', '1', '1'] if rng.random() < .5 else ['num', '0', '0', '1']
    if d == 0 or r < .2:
        v = rng.random() < .5
        t = 'true' if v else 'false'
        return ['bool', rng.choice([t, t, t.upper(), t.capitalize()]), v]
    if r < .5:
        a = g_num(rng)
        u = next((x for x in UNITS if a[0] == 'q' and ut.BY[x[1]].dims == ut.BY[a[4]].dims and rng.random() < .5), None)
        b = ['bad', rng.choice(BAD)] if bad and rng.random() < .12 else g_num(rng, u) if u else a if rng.random() < .15 else g_num(rng, None if a[0] == 'q' and rng.random() < .3 else False if a[0] != 'q' else (a and next(x for x in UNITS if x[1] == a[4])))
        return [rng.choice(['<', '>', '<=', '>=', '==', '!=']), a, b]
    if r < .6:
        return ['not', g_bool(rng, d - 1, bad)]
    if r < .85:
        n = [rng.choice(['and', 'or', 'xor']), g_bool(rng, d - 1, bad), g_bool(rng, d - 1, bad)]
        return n
    return ['cond', g_bool(rng, d - 1, bad), g_bool(rng, d - 1, bad), g_bool(rng, d - 1, bad)]


def g_any(rng, d, bad):
    r = rng.random()
    if bad and r < .3:
        return ['bad', rng.choice(BAD)]
    if r < .5:
        return g_num(rng)
    if r < .6:
        return ['txt', rng.choice(["'yes'", "'no'", "''","'a b'", '[1, 2]', '[1, [2, 3]]'])]
    if r < .8 and d:
        return ['cond', g_bool(rng, d - 1, bad), g_any(rng, d - 1, bad), g_any(rng, d - 1, bad)]
    return g_bool(rng, d, bad)


LV = {'<': 6, '>': 6, '<=': 6, '>=': 6, '==': 5, '!=': 5, 'and': 3, 'or': 3, 'xor': 3, 'cond': 2, 'not': 8}


def lv(t):
    return LV.get(t[0], 10)


def text(t, rng):
    def sub(x, minimum):
        s = text(x, rng)
        if lv(x) < minimum or (rng.random() < .1 and x[0] not in ('txt',)):
            s = '(' + s + ')'
        return s
    k = t[0]
    if k in ('num', 'q', 'bool', 'bad', 'txt'):
        return t[1]
    if k == 'not':
        return 'not ' + sub(t[1], 8)
    if k == 'cond':
        # a branch stands between then and else, or extends to the end: array branches must not be stepped through
        return '{} then {} else {}'.format(sub(t[1], 3), sub(t[2], 3), sub(t[3], 3))
    return '{} {} {}'.format(sub(t[1], lv(t)), k, sub(t[2], lv(t) + 1))


class Err(Exception):
    pass


def ev(t, st):
    k = t[0]
    if k == 'num':
        return ('n', Fraction(int(t[2]), int(t[3])), None)
    if k == 'q':
        u = ut.BY[t[4]]
        return ('n', Fraction(int(t[2]), int(t[3])) * u.scale, u.dims)
    if k == 'bool':
        return ('b', t[2])
    if k == 'txt':
        return ('t', t[1])
    if k == 'bad':
        raise Err()
    if k == 'not':
        v = ev(t[1], st)
        if v[0] != 'b':
            raise Err()
        return ('b', not v[1])
    if k in ('and', 'or', 'xor'):
        a = ev(t[1], st)
        try:
            b = ev(t[2], st)
        except Err:
            b = None
        if a[0] != 'b' or (b is not None and b[0] != 'b'):
            raise Err()
        if b is None:
            if k == 'xor' or a[1] == (k == 'and'):
                raise Err()
            st['lazy'] += 1
            return ('b', a[1])
        return ('b', {'and': a[1] and b[1], 'or': a[1] or b[1], 'xor': a[1] != b[1]}[k])
    if k == 'cond':
        c = ev(t[1], st)
        if c[0] != 'b':
            raise Err()
        st['cond'] += 1
        other = t[3] if c[1] else t[2]
        try:
            ev(other, {'lazy': 0, 'cond': 0})
        except Err:
            st['lazy'] += 1
        return ev(t[2] if c[1] else t[3], st)
    a, b = ev(t[1], st), ev(t[2], st)
    a, b = num(a), num(b)
    if a[2] != b[2]:
        raise Err()
    return ('b', {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1]}[t[0]])


def num(v):
    if v[0] == 'n':
        return v
    if v[0] == 'b':
        return ('n', Fraction(int(v[1])), None)
    raise Err()


def has_array(t):
    return (t[0] == 'txt' and t[1][0] == '[') or any(isinstance(x, list) and has_array(x) for x in t[1:])


def gen(rng, i, tier):
    r = rng.random()
    if r < .14:
        return {'kind': 'order', 'seed': rng.randint(0, 10 ** 9)}
    if r < .22:
        return {'kind': 'incompatible', 'seed': rng.randint(0, 10 ** 9)}
    d = rng.choice([1, 2, 2, 3, 3, 4])
    bad = rng.random() < .6
    return {'kind': 'tree', 't': g_bool(rng, d, bad) if r < .65 else ['cond', g_bool(rng, d - 1, bad), g_any(rng, d - 1, bad), g_any(rng, d - 1, bad)],
            'seed': rng.randint(0, 10 ** 9)}


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    rng = random.Random(case['seed'])
    if case['kind'] == 'order':
        return order(c, rng, mon)
    if case['kind'] == 'incompatible':
        a = rng.choice(['5', '5 m', '0', '0 m', '3 s', 'true', "'5'"])
        b = rng.choice(['5 s', '0 s', '5 kg', "'abc'", "''", "'1 2'", 'nosuch9', "'2020-01-01x'", '2 m^2', '1 m/s'])
        op = rng.choice(['<', '>', '<=', '>=', '==', '!='])
        if 's' in a and b.endswith(' s'):
            raise Skip('compatible')
        if rng.random() < .5:
            a, b = b, a
        s = '{} {} {}'.format(a, op, b)
        o = calc(c, s)
        mon.obs('incompatible', s)
        if o.kind == 'raw' or (o.ok and o.last().value is not False):
            raise Violation('comparing incompatible values gives neither an error nor false', text=s, got=o.describe(c) + repr(o.exc))
        return
    t = case['t']
    s = text(t, rng)
    if has_array(t):
        if t[0] != 'cond' or any(has_array(x) for x in t[1:] if x[0] != 'txt'):
            raise Skip('arrays are stepped through')
        if any(x[0] == 'txt' and x[1][0] == '[' for x in (t[2], t[3])):
            raise Skip('arrays are stepped through')
    st = {'lazy': 0, 'cond': 0}
    try:
        want = ev(t, st)
    except Err:
        want = None
    o = calc(c, s)
    if st['lazy']:
        mon.obs('lazy', s)
    if want is None:
        mon.obs('error', s)
        if not o.failed:
            raise Violation('a failing condition, operand or selected branch gives a value', text=s, got=o.describe(c))
        return
    if not o.ok:
        raise Violation('an expression whose needed parts all have values fails', text=s, got=o.describe(c), expected=str(want))
    r = o.last()
    mon.sample(s)
    if want[0] == 'b':
        mon.obs('bool', s)
        if r.value is not want[1] or r.unit is not None:
            raise Violation('wrong truth value', text=s, got=show(c, r), expected=want[1])
    elif want[0] == 't':
        mon.obs('cond', s)
        if "'{}'".format(r.value) != want[1] and '"{}"'.format(r.value) != want[1]:
            raise Violation('a conditional does not give the selected text', text=s, got=show(c, r), expected=want[1])
    else:
        mon.obs('cond', s)
        if not isinstance(r.value, Number):
            raise Violation('a conditional does not give the selected number', text=s, got=show(c, r), expected=str(want[1]))
        sel = selected(t)
        direct = value_of(c, sel[1])
        if frac(r.value) != Fraction(int(sel[2]), int(sel[3])) or plain_result(c, r, True) != plain_result(c, direct, True):
            raise Violation('a conditional does not give the selected branch with its value and unit', text=s, got=plain_result(c, r, True), expected=plain_result(c, direct, True))


def selected(t):
    while t[0] == 'cond':
        t = t[2] if ev(t[1], {'lazy': 0, 'cond': 0})[1] else t[3]
    return t


def forms(rng, f):
    """Different notations of one number."""
    out = []
    d = dec_literal(f)
    if d:
        out.append(d)
        out.append(d + ('00' if '.' in d else '.00'))
        out.append("'{}'".format(d))
        p = dec_literal(f * 100)
        out.append(p + '%')
        out.append(d + 'E0')
        e = rng.randint(-4, 4)
        out.append(dec_literal(f / Fraction(10) ** e) + 'E' + str(e))
    out.append('({} / {})'.format(f.numerator, f.denominator))
    out.append('({} / {})'.format(f.numerator * 3, f.denominator * 3))
    if f.denominator == 1:
        n = abs(int(f))
        s = '-' if f < 0 else ''
        out += [s + x.format(n) for x in ('0b{:b}', '0x{:X}', '0o{:o}', '0b000{:b}')]
    return out


def order(c, rng, mon):
    base = Fraction(rng.randint(-10 ** rng.randint(1, 20), 10 ** rng.randint(1, 20)), rng.choice([1, 1, 2, 3, 7, 10, 16, 1000, 10 ** 12]))
    eps = rng.choice([Fraction(0), Fraction(0), Fraction(1, 10 ** rng.randint(0, 35)), Fraction(1), base])
    vals = [base, base + eps, base + rng.choice([Fraction(0), eps, -eps, 2 * eps])]
    fam = rng.random()
    texts, key = [], []
    if fam < .5:
        for v in vals:
            texts.append(rng.choice(forms(rng, v)))
            key.append(v)
    else:
        d = rng.choice([x for x in ut.BYDIM if len(ut.BYDIM[x]) > 1 and x != ut.DEGREE.dims])
        us = [u for u in ut.BYDIM[d]]
        for v in vals:
            u = rng.choice(us)
            # the same physical amount written in another unit
            w = (v - u.offset) / u.scale
            if digits(w.numerator) + digits(w.denominator) > 45:
                raise Skip('beyond number size')
            texts.append('({} / {}) {}'.format(w.numerator, w.denominator, ut.u_text(rng, u.singular)))
            key.append(v)
        texts = ['(' + t + ')' for t in texts]
    ops = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
    for i in range(3):
        for j in range(3):
            if i == j and rng.random() < .6:
                continue
            for op in ops:
                s = '{} {} {}'.format(texts[i], op, texts[j])
                r = value_of(c, s)
                mon.obs('order', s)
                if r.value is not ops[op](key[i], key[j]) or r.unit is not None:
                    raise Violation('numbers or quantities are compared wrongly', text=s, got=show(c, r), expected=ops[op](key[i], key[j]))


def shrink(case):
    if case['kind'] != 'tree':
        return

    def subs(t):
        for x in t[1:]:
            if isinstance(x, list):
                yield x
        for i in range(1, len(t)):
            if isinstance(t[i], list):
                for x in subs(t[i]):
                    yield t[:i] + [x] + t[i + 1:]
    for x in subs(case['t']):
        yield dict(case, t=x)
