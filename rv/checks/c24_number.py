"""C24: the exact number type obeys rational algebra."""
import math
import random
from decimal import Decimal
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *
from rv import lib

ID = 'C24'
TECHNIQUE = ('runtime monitor: an online checker shadows every number of random operation histories with an exact fraction, checking value, canonical form, '
             'hash and that no operand changed after each step')
RULE = 'histories of 30 operations on a pool of numbers built in all supported ways, number sizes 30-300 and all rounding modes; distinct by (operation, operands)'
BUDGET = {'quick': 14000, 'thorough': 150000}
NEED = {'step': 50000, 'canonical': 50000, 'order': 12000, 'hash': 5000, 'construct': 20000, 'reject': 500}
ASSUMPTIONS = ['operations needing more digits than the number size are outside the property']


def gen(rng, i, tier):
    return {'seed': rng.randint(0, 10 ** 12), 'prec': rng.choice([100, 100, 100, 30, 50, 200, 300]), 'mode': rng.choice(lib.MODES), 'n': 30}


def setup():
    new_calc()


def integer(rng, big):
    r = rng.random()
    if r < .25:
        return rng.randint(-12, 12)
    if r < .6:
        return rng.randint(-10 ** 4, 10 ** 4)
    if r < .75:
        return rng.choice([1, -1]) * 10 ** rng.randint(0, big) + rng.choice([0, 0, 1, -1])
    return rng.choice([1, -1]) * rng.randint(0, 10 ** rng.randint(1, big))


def construct(rng, big):
    """-> (Number, Fraction, description) in one of the supported ways."""
    a, b = integer(rng, big), integer(rng, big)
    k = rng.randint(0, 7)
    if k == 0:
        return Number(a), Fraction(a), a
    if k == 1:
        return Number(str(a)), Fraction(a), str(a)
    if k == 2 and b:
        return Number(a, b), Fraction(a, b), (a, b)
    if k == 3 and b:
        s, t = dec_text(rng, a), dec_text(rng, b)
        return Number(s, t), Fraction(s) / Fraction(t), (s, t)
    if k == 4 and b:
        s, t = dec_text(rng, a), dec_text(rng, b)
        return Number(Decimal(s), Decimal(t)), Fraction(s) / Fraction(t), (s, t, 'Decimal')
    if k == 5 and b:
        return Number(str(a), str(b)), Fraction(a, b), (str(a), str(b))
    s = dec_text(rng, a)
    if k == 6:
        return Number(Decimal(s)), Fraction(s), ('Decimal', s)
    return Number(s), Fraction(s), s


def dec_text(rng, a):
    s = str(abs(a))
    sign = '-' if a < 0 else rng.choice(['', '', '+'])
    p = rng.randint(0, min(len(s), 8))
    if p:
        s = s[:-p] + '.' + s[-p:] if len(s) > p else '0.' + s.rjust(p, '0')
    if rng.random() < .2:
        s += '0' * rng.randint(1, 3) if '.' in s else '.' + '0' * rng.randint(1, 3)
    if rng.random() < .2:
        s = '0' * rng.randint(1, 3) + s
    if rng.random() < .2:
        s += rng.choice('eE') + str(rng.randint(-6, 6))
    return sign + s


def check(n, f, what, mon):
    mon.obs('canonical')
    num, den = n.num, n.den
    if num != int(num) or den != int(den) or den <= 0 or math.gcd(int(num), int(den)) != 1:
        raise Violation('a number is not in canonical form', op=what, num=str(num), den=str(den))
    if Fraction(int(num), int(den)) != f:
        raise Violation('a number operation gives a wrong value', op=what, got='{}/{}'.format(num, den), expected=str(f))


def dg(x):
    return digits(x)


def run(case, mon):
    rng = random.Random(case['seed'])
    prec, mode = case['prec'], case['mode']
    limit = prec - 4
    big = max(3, prec // 8)
    Number.set_precision(prec, 30)
    Number.set_rounding(mode)
    try:
        history(case, rng, prec, mode, limit, big, mon)
    finally:
        Number.set_precision(100, 30)
        Number.set_rounding('ROUND_HALF_UP')


def intdig(f):
    return max(0, dg(f.numerator) - dg(f.denominator) + 1)


def history(case, rng, prec, mode, limit, big, mon):
    pool = []
    for _ in range(5):
        n, f, how = construct(rng, big)
        mon.obs('construct', how)
        check(n, f, 'construct {!r}'.format(how), mon)
        pool.append((n, f))
    for bad in ((1, 0), ('1', '0'), (1.5,), ('0', '0.0')):
        if rng.random() < .1:
            mon.obs('reject')
            try:
                x = Number(*bad)
            except Exception:
                continue
            raise Violation('an impossible number is accepted', args=bad, got=repr(x))
    for step in range(case['n']):
        (a, fa), (b, fb) = rng.choice(pool), rng.choice(pool)
        before = [(id(x), x.num, x.den, x.number_cast) for x in (a, b)]
        op = rng.choice(['+', '-', '*', '/', '//', '%', '**', 'neg', 'abs', 'round', 'floor', 'ceil', 'trunc', 'int', 'cmp', 'cmp', 'cmp', 'hash',
                         'pos', 'copy', 'divmod', 'frac', 'new'])
        what = '{} {} {}'.format(fa, op, fb)
        fits = max(dg(fa.numerator), dg(fa.denominator)) + max(dg(fb.numerator), dg(fb.denominator)) * 2 < limit
        res = None
        try:
            if op == 'new':
                n, f, how = construct(rng, big)
                mon.obs('construct', how)
                check(n, f, 'construct {!r}'.format(how), mon)
                pool[rng.randrange(len(pool))] = (n, f)
                continue
            if op in '+-*':
                if not fits:
                    continue
                res = (a + b, fa + fb) if op == '+' else (a - b, fa - fb) if op == '-' else (a * b, fa * fb)
            elif op in ('/', '//', '%', 'divmod'):
                if not fits:
                    continue
                if fb == 0:
                    mon.obs('reject')
                    try:
                        r = a / b if op == '/' else a // b if op == '//' else a % b if op == '%' else divmod(a, b)
                    except Exception:
                        continue
                    raise Violation('division by zero gives a value', op=what, got=repr(r))
                q = fa / fb
                rem = abs(fa) % abs(fb)
                rem = -rem if fa < 0 else rem
                if op == '/':
                    res = (a / b, q)
                elif op == '//':
                    res = (a // b, Fraction(math.floor(q)))
                elif op == '%':
                    if intdig(q) * 2 > limit:
                        continue
                    res = (a % b, rem)
                else:
                    if intdig(q) * 2 > limit:
                        continue
                    d, m = divmod(a, b)
                    check(m, rem, 'remainder of divmod ' + what, mon)
                    res = (d, Fraction(math.floor(q)))
            elif op == '**':
                e = rng.randint(-6, 6)
                if max(dg(fa.numerator), dg(fa.denominator)) * abs(e) > limit or (fa == 0 and e <= 0):
                    continue
                what = '{} ** {}'.format(fa, e)
                res = (a ** Number(e), fa ** e)
            elif op == 'neg':
                res = (-a, -fa)
            elif op == 'pos':
                res = (+a, fa)
            elif op == 'abs':
                res = (abs(a), abs(fa))
            elif op == 'copy':
                res = (a.copy(), fa)
            elif op == 'round':
                k = rng.randint(-4, 8)
                if intdig(fa) + dg(fa.denominator) + abs(k) + 2 > limit:
                    continue
                what = 'round({}, {}) {}'.format(fa, k, mode)
                res = (round(a, k), round_frac(fa, k, mode))
                if k == 0:
                    res2 = round(a)
                    check(res2, round_frac(fa, 0, mode), 'round({}) {}'.format(fa, mode), mon)
            elif op in ('floor', 'ceil', 'trunc', 'int'):
                if dg(fa.numerator) + 2 > limit or dg(fa.denominator) > limit:
                    continue
                f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'int': int}[op]
                g = f(a)
                w = Fraction(f(fa))
                if op == 'int':
                    if g != w or type(g) is not int:
                        raise Violation('int() is wrong', number=str(fa), got=g)
                else:
                    res = (g, w)
            elif op == 'frac':
                whole, num, den = a.as_fraction()
                mon.obs('step', what)
                if den <= 0 or Fraction(int(whole)) + Fraction(int(num), int(den)) != fa or abs(num) >= den:
                    raise Violation('as_fraction does not denote the number', number=str(fa), got=[str(whole), str(num), str(den)])
            elif op == 'cmp':
                if rng.random() < .3:
                    b, fb = (Number(a.num, a.den), fa) if rng.random() < .5 else (a + Number(1, 10 ** rng.randint(1, 20)), None)
                    if fb is None:
                        fb = frac(b)
                    before[1] = (id(b), b.num, b.den, b.number_cast)
                if dg(fa.numerator) + dg(fb.denominator) + dg(fa.denominator) > limit or dg(fb.numerator) + dg(fa.denominator) + dg(fb.denominator) > limit:
                    continue
                got = (a < b, a <= b, a == b, a != b, a > b, a >= b)
                want = (fa < fb, fa <= fb, fa == fb, fa != fb, fa > fb, fa >= fb)
                mon.obs('order', (fa, fb))
                if got != want:
                    raise Violation('numbers are compared wrongly', a=str(fa), b=str(fb), got=got, expected=want)
                if fa == fb:
                    mon.obs('hash')
                    if hash(a) != hash(b):
                        raise Violation('equal numbers hash differently', a=repr(a), b=repr(b))
            elif op == 'hash':
                m = Number(str(fa.numerator * 6), str(fa.denominator * 6)) if dg(fa.numerator) < limit else a
                mon.obs('hash', fa)
                if hash(m) != hash(a) or len({m, a}) != 1:
                    raise Violation('equal numbers hash differently', a=repr(a), b=repr(m))
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation('a number operation fails', op=what, got='{}: {}'.format(type(e).__name__, e), prec=prec)
        if res is not None:
            mon.obs('step', what)
            mon.sample(what)
            check(res[0], res[1], what, mon)
            if max(dg(res[1].numerator), dg(res[1].denominator)) < prec // 3:
                pool[rng.randrange(len(pool))] = res
        for x, bf in zip((a, b), before):
            if (id(x), x.num, x.den, x.number_cast) != bf:
                raise Violation('an operation changed its operand', op=what, got=repr(x))
    for n, f in pool:
        check(n, f, 'after the history', mon)


def shrink(case):
    for n in (1, 2, 4, 8, 16):
        if n < case['n']:
            yield dict(case, n=n)
