"""C12: representations parse, propagate and print without changing the number."""
import random
import re
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C12'
TECHNIQUE = ('runtime monitor: literals of every form compared with positional notation evaluated independently; every printed representation is re-entered '
             'and decoded by an independent decoder')
RULE = ('random literals of every base, scientific and percentage form with signs, fractions, leading zeros and letter case; conversions between all forms; '
        'operations on mixed forms; malformed mutants; distinct by text')
BUDGET = {'quick': 40000, 'thorough': 500000}
NEED = {'literal': 6000, 'printed': 6000, 'readback': 6000, 'convert': 4000, 'op': 2500, 'malformed': 860, 'width': 610, 'array': 3000}
ASSUMPTIONS = ['fractions with no finite expansion in the target base are printed to the configured number of places (30): compared within one unit of the last place']

DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
FORMS = ['binary', 'octal', 'hexadecimal', 'arbitrary', 'scientific', 'percentage', 'decimal']
PLACES = 30


def base_int(v, b):
    s = ''
    while v:
        s = DIG[v % b] + s
        v //= b
    return s or '0'


def g_lit(rng, form=None):
    """-> dict(text, form, base, num, den, width)"""
    form = form or rng.choice(FORMS + ['arbitrary', 'binary', 'hexadecimal', 'octal'])
    sign = '-' if rng.random() < .3 else ''
    if form in ('decimal', 'percentage', 'scientific'):
        ip = rng.choice(['0', '00', '1', '7', '10', '99', '100', '007', str(rng.randint(0, 10 ** rng.randint(1, 25)))])
        fp = '' if rng.random() < .45 else '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 12)))
        v = Fraction(ip + fp)
        t = ip + fp
        if form == 'percentage':
            t += '%'
            v /= 100
        elif form == 'scientific':
            e = rng.choice([0, 1, 3, -1, -3, rng.randint(-25, 25)])
            t += rng.choice('eE') + str(e)
            v *= Fraction(10) ** e
        if sign:
            v = -v
        return {'t': sign + t, 'form': form, 'base': 10, 'n': str(v.numerator), 'd': str(v.denominator), 'w': None}
    b = {'binary': 2, 'octal': 8, 'hexadecimal': 16}.get(form) or rng.choice([2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 20, 32, 35, 36, rng.randint(2, 36)])
    pre = {'binary': '0b', 'octal': '0o', 'hexadecimal': '0x'}.get(form) or '{}z'.format(b)
    n = rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 24)])
    dg = [rng.randrange(b) for _ in range(n)]
    r = rng.random()
    if r < .15:
        dg = [b - 1] * n
    elif r < .3:
        dg = [0] * rng.randint(1, 4) + dg
    elif r < .36:
        dg = [0] * n
    fr = [] if rng.random() < .5 else [rng.randrange(b) for _ in range(rng.randint(1, 10))]
    v = Fraction(0)
    for x in dg:
        v = v * b + x
    for i, x in enumerate(fr):
        v += Fraction(x, b ** (i + 1))
    if sign:
        v = -v
    t = ''.join(DIG[x] for x in dg) + ('.' + ''.join(DIG[x] for x in fr) if fr else '')
    c = rng.randint(0, 3)
    if c == 1:
        t = t.lower()
    elif c == 2:
        t = ''.join(rng.choice([x, x.lower()]) for x in t)
    if rng.random() < .1:
        pre = pre.upper()
    return {'t': sign + pre + t, 'form': form, 'base': b, 'n': str(v.numerator), 'd': str(v.denominator), 'w': len(dg) if form == 'binary' else None}


MAL = ['0b{d}2{d}', '0b{d}{D}', '0o{d}8', '0o9{d}', '0x', '0b', '0o', '0b{d}.', '0x{d}..1', '0b1.1.1', '0b-101', '{b}z-1', '{b}z', '{b}z1.', '{b}z{x}', '1z{d}', '0z{d}', '37z{d}', '99z1',
       '1.{d}.{d}', '{D}..{D}', '0b1 0b1', '{D} {D}', "'0b102' + 1", "'0xG1' + 1", "'{b}z{x}' + 1", "'37z1' + 1", "'1.' + 1", "'1.2.3' + 1", "'0b' + 1", "'--5' + 1", "'5%%' + 1",
       "'1E' + 1", "'1E1.5' + 1", "'E5' + 1", "'0x-1' + 1", "'{D}z' + 1", "' ' + 1", "'0b1 ' + 1", "'+{D}' + 1", "'{D},{D}' + 1", "'0b{d}%' + 1", "'0xFE%' + 1", '{D}.e3', "'1z0' + 1", "'0z0' + 1"]


def gen(rng, i, tier):
    k = rng.random()
    if k < .1:
        b = rng.randint(2, 34)
        if rng.random() < .35:
            # one digit too large, anywhere in an otherwise good literal, whatever its sign
            form, b = rng.choice([('0b', 2), ('0o', 8), ('z', 0), ('z', 0), ('z', 0)])
            b = b or rng.randint(2, 35)
            w = [DIG[rng.randrange(b)] for _ in range(rng.randint(0, 5))]
            w.insert(rng.randint(0, len(w)), DIG[rng.choice([b, b, rng.randint(b, 35)])])
            if rng.random() < .4:
                w.insert(rng.randint(1, len(w)), '.')
                if w[-1] == '.':
                    w.append('1')
            t = rng.choice(['-', '']) + (str(b) + 'z' if form == 'z' else form) + ''.join(w)
            if rng.random() < .3:
                t = t.lower()
            if form == 'z' or not t[-1].isalpha():
                return {'kind': 'mal', 't': rng.choice(['{}', '{}', "'{}' + 1", '1 + ({})']).format(t)}
        return {'kind': 'mal', 't': rng.choice(MAL).format(d=rng.choice('01'), D=rng.randint(2, 9), b=b, x=rng.choice('01') * rng.randint(0, 2) + DIG[rng.randint(b, 35)] + rng.choice(['', '0', '1.1']))}
    if k < .55:
        return {'kind': 'lit', 'l': g_lit(rng), 'n': rng.randint(2, 36)}
    if k < .8:
        return {'kind': 'conv', 'l': g_lit(rng) if rng.random() < .8 else g_frac(rng), 'to': rng.choice(FORMS), 'b': rng.randint(2, 36), 'p': rng.randint(0, 14), 'unit': rng.random() < .15}
    return {'kind': 'op', 'ls': [g_lit(rng) for _ in range(rng.randint(2, 4))], 'ops': [rng.choice('+-*/') for _ in range(3)], 'seed': rng.randint(0, 10 ** 9)}


def g_frac(rng):
    n, d = rng.randint(-10 ** 6, 10 ** 6), rng.randint(1, 999)
    f = Fraction(n, d)
    return {'t': '({} / {})'.format(n, d), 'form': 'decimal', 'base': 10, 'n': str(f.numerator), 'd': str(f.denominator), 'w': None}


def decode(text):
    """Independent decoder of every printed form -> (fraction, form) or None."""
    m = re.fullmatch(r"(-?)(0b|0o|0x|(\d+)z)([0-9A-Z]+)(?:\.([0-9A-Z]+))?", text)
    if m:
        b = {'0b': 2, '0o': 8, '0x': 16}.get(m[2]) or int(m[3])
        v = Fraction(0)
        for x in m[4]:
            if DIG.index(x) >= b:
                return None
            v = v * b + DIG.index(x)
        for i, x in enumerate(m[5] or ''):
            if DIG.index(x) >= b:
                return None
            v += Fraction(DIG.index(x), b ** (i + 1))
        return (-v if m[1] else v), {'0b': 'binary', '0o': 'octal', '0x': 'hexadecimal'}.get(m[2], 'arbitrary'), b, len(m[4])
    m = re.fullmatch(r'(-?\d+(?:\.\d+)?)E(-?\d+)', text)
    if m:
        return Fraction(m[1]) * Fraction(10) ** int(m[2]), 'scientific', 10, 0
    m = re.fullmatch(r'(-?\d+(?:\.\d+)?)%', text)
    if m:
        return Fraction(m[1]) / 100, 'percentage', 10, 0
    m = re.fullmatch(r'-?\d+(?:\.\d+)?', text)
    if m:
        return Fraction(text), 'decimal', 10, 0
    return None


def printed(mon, c, text, shown, f, form, base):
    """The text shown denotes f in the given form, as exactly as its places allow."""
    if form in ('binary', 'octal', 'hexadecimal', 'arbitrary') and digits(f.numerator) + 2 * digits(f.denominator) > 45:
        return      # working out 30 places in a base would need more digits than the number size
    d = decode(shown)
    mon.obs('printed')
    if d is None or d[1] != form or (form == 'arbitrary' and d[2] != base):
        raise Violation('a number is not printed in its representation', text=text, got=shown, expected=(form, base))
    if form == 'scientific':
        tol = Fraction(10) ** (mag(f) - PLACES) / 2 if f else 0
    elif form == 'percentage':
        tol = Fraction(1, 2 * 10 ** (PLACES + 2))
    elif form == 'decimal':
        tol = Fraction(1, 2 * 10 ** PLACES)
    else:
        tol = Fraction(1, d[2] ** PLACES)
    if abs(d[0] - f) > tol or (d[0] != f and exact_in(f, form, d[2])):
        raise Violation('a printed representation does not denote the number', text=text, got=shown, expected=str(f))
    r = value_of(c, shown)
    mon.obs('readback', shown)
    slack = 2 * tol if digits(d[0].numerator) + digits(d[0].denominator) > 88 else 0    # beyond the number size
    if not isinstance(r.value, Number) or abs(frac(r.value) - d[0]) > slack:
        raise Violation('a printed representation reads back as another number', text=text, printed=shown, got=show(c, r), expected=str(d[0]))
    again = r.value.to_string(c)
    if again != shown and d[0] != 0 and d[0] == f and not slack:
        raise Violation('a printed representation prints differently after reading it back', text=text, printed=shown, got=again)


def mag(f):
    """floor(log10(|f|))"""
    f = abs(f)
    e = len(str(f.numerator)) - len(str(f.denominator))
    while Fraction(10) ** e > f:
        e -= 1
    while Fraction(10) ** (e + 1) <= f:
        e += 1
    return e


def exact_in(f, form, base):
    if form == 'scientific':
        return f == 0 or (f / Fraction(10) ** mag(f) * 10 ** PLACES).denominator == 1
    if form == 'percentage':
        return (f * 100 * 10 ** PLACES).denominator == 1
    return (f * Fraction(base) ** PLACES).denominator == 1


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    k = case['kind']
    if k == 'mal':
        t = case['t']
        o = calc(c, t)
        mon.obs('malformed', t)
        if not o.failed:
            raise Violation('a malformed literal is accepted', text=t, got=o.describe(c))
        return
    if k == 'lit':
        l = case['l']
        f = Fraction(int(l['n']), int(l['d']))
        if digits(f.numerator) + digits(f.denominator) > 70:
            raise Skip('beyond number size')
        t = l['t']
        r = value_of(c, t)
        mon.obs('literal', t)
        mon.sample(t)
        if not isinstance(r.value, Number) or frac(r.value) != f or r.unit is not None:
            raise Violation('a literal does not denote its positional value', text=t, got=show(c, r), expected=str(f))
        shown = r.value.to_string(c)
        printed(mon, c, t, shown, f, l['form'], l['base'])
        if l['w'] is not None and f:
            mon.obs('width')
            if decode(shown)[3] != l['w']:
                raise Violation('a binary literal does not keep its written width', text=t, got=shown)
        # the same literal as text, stored in a variable, in an array
        for e in ("'{}' + 0".format(t), 'x12 = {}\nx12'.format(t)):
            r = value_of(c, e)
            mon.obs('literal')
            if not isinstance(r.value, Number) or frac(r.value) != f:
                raise Violation('a literal used as text or through a variable has another value', text=e, got=show(c, r), expected=str(f))
            printed(mon, c, e, r.value.to_string(c), f, l['form'], l['base'])
        return
    if k == 'conv':
        l = case['l']
        f = Fraction(int(l['n']), int(l['d']))
        if digits(f.numerator) + digits(f.denominator) > 60:
            raise Skip('beyond number size')
        t, to = l['t'], case['to']
        if to == 'arbitrary':
            e = 'base({}, {})'.format(t, case['b'])
            r = value_of(c, e)
            mon.obs('convert', e)
            if not isinstance(r.value, str):
                raise Violation('base() does not return a text', text=e, got=show(c, r))
            printed(mon, c, e, r.value, f, 'arbitrary', case['b'])
            return
        fns = {'binary': 'bin', 'octal': 'oct', 'hexadecimal': 'hex', 'decimal': 'dec', 'scientific': 'scientific'}
        es = ['({}) as {}'.format(t, to)]
        if to in fns:
            es.append('{}({})'.format(fns[to], t))
        for e in es:
            r = value_of(c, e)
            mon.obs('convert', e)
            if not isinstance(r.value, Number) or frac(r.value) != f:
                raise Violation('a conversion of representation changes the number', text=e, got=show(c, r), expected=str(f))
            printed(mon, c, e, r.value.to_string(c), f, to, 10)
        if to == 'scientific':
            p = case['p']
            e = 'scientific({}, {})'.format(t, p)
            r = value_of(c, e)
            mon.obs('convert', e)
            d = decode(r.value.to_string(c))
            want = round_frac(f, p - mag(f), 'ROUND_HALF_UP') if f else 0
            # how an exact tie is rounded is not specified for this function
            tie = f and (f / Fraction(10) ** (mag(f) - p) * 2).denominator == 1
            ok = abs(frac(r.value) - f) <= Fraction(10) ** (mag(f) - p) / 2 if tie else frac(r.value) == want
            if d is None or d[1] != 'scientific' or not ok or d[0] != frac(r.value):
                raise Violation('scientific() with places is wrong', text=e, got=show(c, r), expected=str(want))
        if case['unit']:
            e = '(({}) m) as {}'.format(t, to)
            r = value_of(c, e)
            mon.obs('convert', e)
            if frac(r.value) != f or 'meter' not in unit_key(r.unit):
                raise Violation('a conversion of representation changes a quantity', text=e, got=show(c, r))
        return
    ls, ops = case['ls'], case['ops']
    v, text = None, ''
    vals = [Fraction(int(l['n']), int(l['d'])) for l in ls]
    if sum(digits(x.numerator) + digits(x.denominator) for x in vals) > 80:
        raise Skip('beyond number size')
    rep = next(((l['form'], l['base']) for l in ls if l['form'] != 'decimal'), ('decimal', 10))
    # grouped left to right with brackets, so precedence plays no role here
    text, v = ls[0]['t'], vals[0]
    first = ls[0]['form'] != 'decimal'
    for l, x, op in zip(ls[1:], vals[1:], ops):
        if op == '/' and x == 0:
            op = '+'
        text = '({}) {} {}'.format(text, op, l['t'])
        v = v + x if op == '+' else v - x if op == '-' else v * x if op == '*' else v / x
    r = value_of(c, text)
    mon.obs('op', text)
    if not isinstance(r.value, Number) or frac(r.value) != v:
        raise Violation('an operation on mixed representations has a wrong value', text=text, got=show(c, r), expected=str(v))
    if digits(v.numerator) + digits(v.denominator) < 60:
        printed(mon, c, text, r.value.to_string(c), v, *rep)
    rng = random.Random(case['seed'])
    # functions keep the number and the representation too
    for fn, g in rng.sample([('abs({})', abs), ('floor({})', lambda x: Fraction(x.__floor__())), ('ceil({})', lambda x: Fraction(x.__ceil__())),
                             ('sum({0}, 1)', lambda x: x + 1), ('max({0}, {0})', lambda x: x), ('+0 {}', None), ('({}) ^ 2', lambda x: x * x)], 2):
        if g is None:
            continue
        l, x = ls[0], vals[0]
        if l['form'] == 'percentage' and ('floor' in fn or 'ceil' in fn):
            g = (lambda h: lambda x: h(x * 100) / 100)(g)        # whole percents
        if digits(x.numerator) + digits(x.denominator) > 30:
            continue
        e = fn.format(l['t'])
        r = value_of(c, e)
        mon.obs('op', e)
        w = g(x)
        if frac(r.value) != w:
            raise Violation('a function on a representation has a wrong value', text=e, got=show(c, r), expected=str(w))
        printed(mon, c, e, r.value.to_string(c), w, l['form'], l['base'])
    # an array of mixed representations
    e, w = rng.choice([('sum({})', sum(vals)), ('max({})', max(vals)), ('min({})', min(vals)), ('mean({})', sum(vals) / len(vals))])
    e = e.format(rng.choice(['[{}]', '{}']).format(', '.join(l['t'] for l in ls)))
    if len(ls) > 1 and digits(w.numerator) + digits(w.denominator) < 60:
        r = value_of(c, e)
        mon.obs('array', e)
        if frac(r.value) != w:
            raise Violation('a function of mixed representations has a wrong value', text=e, got=show(c, r), expected=str(w))
        printed(mon, c, e, r.value.to_string(c), w, *rep)
