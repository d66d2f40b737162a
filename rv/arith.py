"""Generator and independent model of arithmetic expressions over exact rationals."""
from fractions import Fraction
import random
from rv.lib import Big, guard, LIMIT

# grouping, tightest first; all left to right.  ' ' stands for implicit multiplication.
LEVELS = [('^',), (' ',), ('*', '/', '%', '\\'), ('+', '-')]
SMALL = 10 ** 47


class ModelError(Exception):
    """The model says this expression has no value."""


class Undefined(Exception):
    """The property does not say (0^0, non-integer powers)."""


def apply(op, a, b):
    if op in ('*', ' '):
        guard(a.numerator * b.numerator, a.denominator * b.denominator)
        return a * b
    if op == '/':
        guard(a.numerator * b.denominator, a.denominator * b.numerator)
        if b == 0:
            raise ModelError()
        return a / b
    if op in '+-':
        l = _lcm(a.denominator, b.denominator)
        guard(l, a.numerator * l, b.numerator * l, a.numerator * (l // a.denominator) + 0, l * 1)
        return a + b if op == '+' else a - b
    if op == '%':
        if b == 0:
            raise ModelError()
        l = _lcm(a.denominator, b.denominator)
        guard(l, a.numerator * l, b.numerator * l)
        q = abs(a) // abs(b)
        r = abs(a) - q * abs(b)
        return -r if a < 0 else r
    if op == '\\':
        if b == 0:
            raise ModelError()
        guard(a.numerator * b.denominator, a.denominator * b.numerator)
        q = a / b
        if abs(q.numerator) > SMALL or q.denominator > SMALL:
            raise Big()
        return Fraction(q.numerator // q.denominator)
    if op == '^':
        if b.denominator != 1:
            raise Undefined()
        n = b.numerator
        if a == 0 and n == 0:
            raise Undefined()
        if a == 0 and n < 0:
            raise ModelError()
        if abs(n) > 320 and abs(a) not in (0, 1):
            raise Big()
        if abs(a) not in (0, 1):
            if n != 0 and (len(str(abs(a.numerator))) - 1) * abs(n) > 97 or (len(str(a.denominator)) - 1) * abs(n) > 97:
                raise Big()
        else:
            n = n % 2 if n % 2 else (0 if n == 0 else 2)
        r = a ** n
        guard(r.numerator, r.denominator)
        return Fraction(r)
    raise AssertionError(op)


def _lcm(a, b):
    import math
    return math.lcm(a, b)


def literal_value(text):
    t = text
    pct = t.endswith('%')
    if pct:
        t = t[:-1]
    neg = t.startswith('-')
    if neg:
        t = t[1:]
    exp = 0
    if 'e' in t.lower():
        t, e = t.lower().split('e')
        exp = int(e)
    ip, _, fp = t.partition('.')
    v = Fraction(int(ip + fp), 10 ** len(fp))
    v *= Fraction(10) ** exp
    if pct:
        v /= 100
    return -v if neg else v


def evaluate(node):
    v = ev(node)
    if v is None:
        raise ModelError()
    return v


def ev(node):
    """the value, None for an error"""
    kind = node[0]
    if kind == 'lit':
        return literal_value(node[1])
    if kind == 'br':
        return ev(node[1])
    seq = node[1]
    vals = [ev(x) for x in seq[0::2]]
    ops = list(seq[1::2])
    for level in LEVELS:
        i = 0
        while i < len(ops):
            if ops[i] in level:
                # an erroneous part makes the whole an error, but the rest is still evaluated (it may be out of bounds)
                try:
                    bad = vals[i] is None or vals[i + 1] is None
                    vals[i] = None if bad else apply(ops[i], vals[i], vals[i + 1])
                except ModelError:
                    vals[i] = None
                del vals[i + 1], ops[i]
            else:
                i += 1
    return vals[0]


def gen_literal(rng, forms, signed):
    k = rng.random()
    if k < .45:
        t = str(rng.choice([0, 1, 2, 3, 5, 7, 9, 10, 12, 60, 97, 100, 255, 1000, rng.randint(0, 99), rng.randint(0, 10 ** 6)]))
    elif k < .75:
        t = '{}.{}'.format(rng.randint(0, 10 ** rng.randint(0, 4)), ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 7))))
    elif k < .82:
        t = ('0' * rng.randint(1, 3)) + str(rng.randint(0, 999))
    elif k < .9:
        t = str(rng.randint(10 ** 9, 10 ** rng.randint(10, 28)))
    else:
        t = rng.choice(['0', '1', '0.1', '0.25', '0.000001', '999999999', '1.000000000000000000001'])
    if signed and rng.random() < .2:
        t = '-' + t
    k = rng.random()
    if 'exp' in forms and k < .12:
        t += rng.choice('Ee') + str(rng.randint(-12, 12))
    elif 'pct' in forms and k < .24:
        t += '%'
    return ['lit', t]


def gen_seq(rng, feats, depth, size=None):
    """feats: dict(brackets, adv (%, \\), forms)"""
    n = size or rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    seq = []
    ops = ['+', '-', '*', '/'] * 3 + ['^'] * 2
    if feats['adv']:
        ops += ['%', '\\'] * 2
    for i in range(n):
        if i:
            op = rng.choice(ops)
            br = feats['brackets'] and depth > 0 and rng.random() < .35
            if br and rng.random() < .3:
                op = ' '
            seq.append(op)
            if op == '^' and rng.random() < .85:
                e = ['lit', str(rng.choice([0, 1, 2, 2, 3, 4, 5, 7, -1, -2, -3]))]
                seq.append(['br', ['seq', [e]]] if feats['brackets'] and rng.random() < .3 else e)
                continue
        else:
            br = feats['brackets'] and depth > 0 and rng.random() < .35
        if br:
            seq.append(['br', gen_seq(rng, feats, depth - 1)])
        else:
            seq.append(gen_literal(rng, feats['forms'], True))
    return ['seq', seq]


def render(node, rng, feats):
    if node[0] == 'lit':
        return node[1]
    if node[0] == 'br':
        return '(' + _sp(rng, feats) + render(node[1], rng, feats) + _sp(rng, feats) + ')'
    out = ''
    for i, x in enumerate(node[1]):
        if i % 2:
            if x == ' ':
                out += _sp(rng, feats)
            elif x == '%':
                out += ' % '       # without the space "5%" would be a percentage
            else:
                out += _sp(rng, feats) + x + _sp(rng, feats)
        else:
            t = render(x, rng, feats)
            if t.startswith('-') and out and not out[-1].isspace() and feats['space']:
                out += ' '             # "--" would be the decrement operator
            out += t
    return out


def _sp(rng, feats):
    if not feats['space']:
        return ''
    return rng.choice(['', ' ', ' ', '  ', '\t'])


FEATS = {
    'Basic': {'brackets': False, 'adv': False, 'forms': (), 'space': False},
    'Advanced': {'brackets': True, 'adv': True, 'forms': (), 'space': True},
    'Scientific': {'brackets': True, 'adv': True, 'forms': ('exp', 'pct'), 'space': True},
    'Computing': {'brackets': True, 'adv': True, 'forms': ('exp', 'pct'), 'space': True},
}


def shrink_seq(node):
    """smaller variants of a sequence node"""
    seq = node[1]
    n = (len(seq) + 1) // 2
    if n > 1:
        for k in range(n):
            if k == 0:
                if seq[1] == ' ' and seq[2][0] == 'lit':
                    continue
                yield ['seq', seq[2:]]
            else:
                yield ['seq', seq[:2 * k - 1] + seq[2 * k + 1:]]
    for i in range(0, len(seq), 2):
        x = seq[i]
        if x[0] == 'br':
            if n == 1:
                yield x[1]
            for s in shrink_seq(x[1]):
                yield ['seq', seq[:i] + [['br', s]] + seq[i + 1:]]
            if i == 0 or seq[i - 1] != ' ':
                yield ['seq', seq[:i] + [['lit', '3']] + seq[i + 1:]]
        elif len(x[1]) > 1:
            for t in ('1', '2', '7', x[1][:len(x[1]) // 2 + 1]):
                if len(t) < len(x[1]) and t[-1].isdigit():
                    yield ['seq', seq[:i] + [['lit', t]] + seq[i + 1:]]
