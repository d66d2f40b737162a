"""C25: bitwise operators act on the bits of the integers."""
import random
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C25'
TECHNIQUE = ('runtime monitor: bitwise expressions over all literal forms compared with an integer reference model carrying representation and written width; '
             'algebraic identities evaluated by the calculator itself as second oracle')
RULE = 'random expression trees of & | ^^ << >> ~ over decimal, binary (with leading zeros), octal, hexadecimal and scientific integers up to 300 bits; distinct by text'
BUDGET = {'quick': 12000, 'thorough': 600000}
NEED = {'value': 4100, 'width': 1500, 'twice': 800, 'identity': 5000, 'reject': 780, 'rep': 3000}
ASSUMPTIONS = ['integers beyond the number size (97 digits) are outside the property', 'negative and fractional operands of & | ^^ are outside it; of ~ and as shift amounts they are errors']

MAXV = 10 ** 90


def integer(rng, small=False):
    r = rng.random()
    if r < .3 or small:
        return rng.randint(0, 20)
    if r < .6:
        return rng.randint(0, 2 ** rng.randint(1, 70))
    if r < .85:
        return max(0, 2 ** rng.randint(0, 280) + rng.choice([-1, 0, 1, -2, 2]))
    return rng.randint(0, 2 ** 280)


def lit(rng, v=None, binary=False, text=True):
    """[kind, text, value, width or None]"""
    v = integer(rng) if v is None else v
    k = rng.choice(['dec', 'dec', 'bin', 'bin', 'bin', 'hex', 'oct', 'exp', 'base'] + ['str'] * text)
    if binary:
        k = 'bin'
    if k == 'bin':
        t = '{:b}'.format(v)
        t = '0' * rng.choice([0, 0, 1, 2, 4, 9]) + t
        return ['bin', '0b' + t, str(v), len(t)]
    if k == 'hex':
        return ['hex', '0x' + '0' * rng.choice([0, 0, 1, 3]) + rng.choice(['{:X}', '{:x}']).format(v), str(v), None]
    if k == 'oct':
        return ['oct', '0o{:o}'.format(v), str(v), None]
    if k == 'exp':
        n = len(str(v)) - len(str(v).rstrip('0')) if v else 0
        return ['exp', '{}E{}'.format(v // 10 ** n, n), str(v), None]
    if k == 'str':
        return ['text', "'{}'".format(v), str(v), None]
    if k == 'base':
        return ['base', '7z' + to_base(v, 7), str(v), None]
    return ['dec', str(v), str(v), None]


def to_base(v, b):
    s = ''
    while v:
        s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[v % b] + s
        v //= b
    return s or '0'


def tree(rng, d, binary):
    if d == 0 or rng.random() < .1:
        return ['lit'] + lit(rng, binary=binary)
    op = rng.choice(['&', '|', '^^', '&', '|', '^^', '<<', '>>', '~'])
    if op == '~':
        return ['~', tree(rng, 0 if not binary else d - 1, binary)]
    if op in ('<<', '>>'):
        n = rng.choice([0, 1, 2, 3, 7, 31, 32, 33, 63, 64, 65, rng.randint(0, 120)])
        return [op, tree(rng, d - 1, binary), ['lit'] + (lit(rng, n) if not binary else lit(rng, n, True))]
    return [op, tree(rng, d - 1, binary), tree(rng, d - 1, binary)]


LEVEL = {'~': 9, '<<': 5, '>>': 5, '&': 3, '|': 2, '^^': 2, 'lit': 10}


def text(t, rng):
    if t[0] == 'lit':
        return t[2]
    sp = lambda: rng.choice(['', ' ', ' ', '  '])
    if t[0] == '~':
        a = text(t[1], rng)
        if LEVEL[t[1][0]] < 9 or rng.random() < .1:
            a = '(' + a + ')'
        return '~' + sp() + a
    a, b = text(t[1], rng), text(t[2], rng)
    if LEVEL[t[1][0]] < LEVEL[t[0]] or rng.random() < .1:
        a = '(' + a + ')'
    if LEVEL[t[2][0]] <= LEVEL[t[0]] or rng.random() < .1:
        b = '(' + b + ')'
    return a + sp() + t[0] + ' ' + sp() + b


def ev(t):
    """-> value, width (None unless everything below is a binary literal), representation of the first non-decimal literal"""
    if t[0] == 'lit':
        return int(t[3]), t[4], t[1] if t[1] != 'dec' else None
    if t[0] == '~':
        v, w, r = ev(t[1])
        if w is None:
            if t[1][0] != 'lit' or v == 0:
                raise Skip('width of a mixed result is not specified')
            return v ^ ((1 << v.bit_length()) - 1), None, r
        return v ^ ((1 << w) - 1), w, r
    a, wa, ra = ev(t[1])
    b, wb, rb = ev(t[2])
    if t[0] in ('<<', '>>') and b > 400:
        raise Skip('large shift')
    v = {'&': lambda: a & b, '|': lambda: a | b, '^^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[t[0]]()
    if v > MAXV or a > MAXV or b > MAXV:
        raise Skip('beyond number size')
    r = ra or rb
    w = None
    if wa is not None and wb is not None and t[0] in ('&', '|', '^^'):
        w = max(wa, wb)
    return v, w, r


def gen(rng, i, tier):
    k = rng.random()
    if k < .12:
        return {'kind': 'reject', 'seed': rng.randint(0, 10 ** 9)}
    if k < .35:
        return {'kind': 'identity', 'a': lit(rng, text=False), 'b': lit(rng, text=False), 'c': lit(rng, text=False), 'n': rng.randint(0, 90), 'm': rng.randint(0, 60), 'seed': rng.randint(0, 10 ** 9)}
    return {'kind': 'tree', 't': tree(rng, rng.choice([0, 1, 1, 1, 2, 2, 3]), rng.random() < .4), 'seed': rng.randint(0, 10 ** 9), 'var': rng.random() < .25}


def number(c, text):
    r = value_of(c, text)
    if not isinstance(r.value, Number):
        raise Violation('not a number', text=text, got=show(c, r))
    return r


REP = {'bin': r'0b', 'hex': '0x', 'oct': '0o', 'base': '7z'}


def run(case, mon):
    rng = random.Random(case['seed'])
    c = shared_calc()
    c.vars.clear()
    k = case['kind']
    if k == 'tree':
        t = case['t']
        if t[0] == 'lit' and t[2][0] == "'":
            raise Skip('text')
        want, w, rep = ev(t)
        s = text(t, rng)
        if case['var']:
            # literals read from variables
            n = 0
            pre = []

            def sub(t):
                nonlocal n
                if t[0] == 'lit':
                    if t[2][0] == "'":
                        return t
                    n += 1
                    pre.append('bv{} = {}'.format(n, t[2]))
                    return ['lit', t[1], 'bv{}'.format(n), t[3], t[4]]
                return [t[0]] + [sub(x) for x in t[1:]]
            s = text(sub(t), rng)
            if pre:
                o = calc(c, '\n'.join(pre))
                if not o.ok:
                    raise Violation('storing integers failed', text=pre, got=o.describe(c))
        r = number(c, s)
        mon.obs('value', s if t[0] != 'lit' else None)
        mon.sample(s)
        if frac(r.value) != want or r.unit is not None:
            raise Violation('wrong bitwise result', text=s, got=str(frac(r.value)), expected=want)
        shown = r.value.to_string(c)
        if t[0] != 'lit':
            mon.obs('rep')
            if rep in (None, 'text'):
                if shown != str(want) and want < 10 ** 60:
                    raise Violation('the result is not shown as a decimal', text=s, got=shown, expected=want)
            elif rep in REP:
                p = {'bin': 2, 'hex': 16, 'oct': 8, 'base': 7}[rep]
                if shown[:2] != REP[rep] or int(shown[2:], p) != want:
                    raise Violation('the result is not shown in the representation of its first operand', text=s, got=shown, expected=rep)
        if w is not None:
            mon.obs('width')
            if len(shown) - 2 != max(w, want.bit_length()):
                raise Violation('the result does not keep the written width', text=s, got=shown, expected=w)
            if t[0] != '~':
                r2 = number(c, '~(~({}))'.format(s))
                mon.obs('twice')
                if frac(r2.value) != want or len(r2.value.to_string(c)) - 2 != max(w, want.bit_length()):
                    raise Violation('~ twice does not restore the number', text=s, got=r2.value.to_string(c), expected=shown)
        return
    if k == 'identity':
        a, b, d = case['a'][1], case['b'][1], case['c'][1]
        n, m = case['n'], case['m']
        A, B, D = (int(case[x][2]) for x in 'abc')
        eqs = [('{a} & {b}', '{b} & {a}'), ('{a} | {b}', '{b} | {a}'), ('{a} ^^ {b}', '{b} ^^ {a}'),
               ('({a} & {b}) & {d}', '{a} & ({b} & {d})'), ('({a} ^^ {b}) ^^ {d}', '{a} ^^ ({b} ^^ {d})'), ('({a} | {b}) | {d}', '{a} | ({b} | {d})'),
               ('{a} & ({b} | {d})', '({a} & {b}) | ({a} & {d})'), ('{a} | ({b} & {d})', '({a} | {b}) & ({a} | {d})'),
               ('{a} ^^ {a}', '0'), ('{a} & {a}', '{a}'), ('{a} | {a}', '{a}'), ('{a} ^^ {b} ^^ {b}', '{a}'), ('{a} & 0', '0'), ('{a} | 0', '{a}'),
               ('({a} | {b}) - ({a} & {b})', '{a} ^^ {b}'), ('({a} | {b}) + ({a} & {b})', '({a}) + ({b})'), ('({a}) << 0', '{a}')]
        if A << (n + m) < MAXV:
            eqs += [('{a} << {n}', '({a}) * 2 ^ {n}'), ('{a} << {n} >> {n}', '{a}'), ('{a} << {n} << {m}', '{a} << ({n} + {m})')]
        eqs += [('{a} >> {n}', '({a}) \\ 2 ^ {n}'), ('{a} >> {n} >> {m}', '{a} >> ({n} + {m})')]
        for l, r in rng.sample(eqs, 6):
            l, r = (x.format(a=a, b=b, d=d, n=n, m=m) for x in (l, r))
            x, y = number(c, l), number(c, r)
            mon.obs('identity', (l, r))
            if frac(x.value) != frac(y.value):
                raise Violation('a bitwise identity does not hold', left=l, right=r, got=str(frac(x.value)), expected=str(frac(y.value)))
        w = rng.randint(1, 40)
        x, y = (rng.getrandbits(w) for _ in 'ab')
        bx, by = '0b' + format(x, 'b').rjust(w, '0'), '0b' + format(y, 'b').rjust(w, '0')
        for l, r in (('~({} & {})', '~{} | ~{}'), ('~({} | {})', '~{} & ~{}')):
            l, r = l.format(bx, by), r.format(bx, by)
            p, q = number(c, l), number(c, r)
            mon.obs('identity', (l, r))
            if frac(p.value) != frac(q.value) or p.value.to_string(c) != q.value.to_string(c):
                raise Violation('De Morgan does not hold within the width', left=l, right=r, got=p.value.to_string(c), expected=q.value.to_string(c))
        return
    bad = rng.choice(["'abc'", "''", '[1, 2] ^^ [1, 2, 3]', '5 m', "'2020-01-01'", 'nosuchvariable'])
    good = lit(rng, integer(rng, True), text=False)[1]
    op = rng.choice(['&', '|', '^^', '<<', '>>'])
    if bad.startswith('['):
        s = bad
    elif rng.random() < .5:
        s = '{} {} {}'.format(bad, op, good)
    else:
        s = '{} {} {}'.format(good, op, bad)
    expect_fail(c, s, 'an operand is not an integer')
    s = rng.choice(['~ {}'.format(x) for x in ("'abc'", '2.5', '(0 - 5)', '(1/3)', "''")] +
                   ['{} {} {}'.format(good, o, x) for o in ('<<', '>>') for x in ('2.5', '(0 - 1)', '(1/3)', '0b1.1')])
    expect_fail(c, s, 'an operand is not a non-negative integer')
    mon.obs('reject', s)


def shrink(case):
    if case['kind'] != 'tree':
        return
    t = case['t']
    if case.get('var'):
        yield dict(case, var=False)

    def subs(t):
        if t[0] == 'lit':
            return
        for x in t[1:]:
            yield x
        for i in range(1, len(t)):
            for x in subs(t[i]):
                yield t[:i] + [x] + t[i + 1:]
    for x in subs(t):
        yield dict(case, t=x)
