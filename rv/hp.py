"""Elementary functions to 50 significant digits, from their series: an oracle independent of math and of the calculator."""
from decimal import Decimal, localcontext
from fractions import Fraction

P = 70


def D(x):
    x = Fraction(x)
    return Decimal(x.numerator) / Decimal(x.denominator)


def _exp(x):
    n = 0
    while abs(x) > Decimal('0.5'):
        x /= 2
        n += 1
    t = s = Decimal(1)
    k = 1
    while abs(t) > Decimal(10) ** -(P + 8):
        t = t * x / k
        s += t
        k += 1
    for _ in range(n):
        s = s * s
    return s


def _atan_series(x):
    s, t, k, xx = x, x, 1, x * x
    while abs(t) > Decimal(10) ** -(P + 8):
        t = -t * xx
        k += 2
        s += t / k
        if t == 0:
            break
    return s


def _atan(x):
    if x < 0:
        return -_atan(-x)
    n = 0
    while x > Decimal('0.2'):
        x = x / (1 + (1 + x * x).sqrt())
        n += 1
    return _atan_series(x) * 2 ** n


def _pi():
    return 4 * (4 * _atan_series(Decimal(1) / 5) - _atan_series(Decimal(1) / 239))


def _ln(x):
    # ln(m * 2^k) by atanh series
    k = 0
    while x > Decimal('1.5'):
        x /= 2
        k += 1
    while x < Decimal('0.7'):
        x *= 2
        k -= 1
    return _lns(x) + k * _lns(Decimal(2))


def _lns(x):
    y = (x - 1) / (x + 1)
    s, t, n, yy = y, y, 1, y * y
    while abs(t) > Decimal(10) ** -(P + 8):
        t *= yy
        n += 2
        s += t / n
    return 2 * s


def _sincos(x):
    pi = _pi()
    q = (x / (pi / 2)).to_integral_value()
    r = x - q * (pi / 2)
    s, t, k = r, r, 1
    while abs(t) > Decimal(10) ** -(P + 8):
        t = -t * r * r / ((k + 1) * (k + 2))
        k += 2
        s += t
    c, t, k = Decimal(1), Decimal(1), 0
    while abs(t) > Decimal(10) ** -(P + 8):
        t = -t * r * r / ((k + 1) * (k + 2))
        k += 2
        c += t
    m = int(q) % 4
    return ((s, c), (c, -s), (-s, -c), (-c, s))[m]


def f(name, x):
    """name(x) for a rational x, as a Fraction; None outside the domain."""
    with localcontext() as ctx:
        ctx.prec = P + 30
        ctx.Emax, ctx.Emin = 10 ** 9, -10 ** 9
        x = Fraction(x)
        d = D(x)
        r = None
        if name == 'exp':
            r = _exp(d)
        elif name == 'log':
            r = _ln(d) if x > 0 else None
        elif name == 'sin':
            r = _sincos(d)[0]
        elif name == 'cos':
            r = _sincos(d)[1]
        elif name == 'tan':
            s, c = _sincos(d)
            r = s / c if c else None
        elif name == 'asin':
            r = None if abs(x) > 1 else _pi() / 2 * (1 if x > 0 else -1) if abs(x) == 1 else _atan(d / (1 - d * d).sqrt())
        elif name == 'acos':
            a = f('asin', x)
            r = None if a is None else _pi() / 2 - D(a)
        elif name == 'atan':
            r = _atan(d)
        elif name == 'sinh':
            r = (_exp(d) - _exp(-d)) / 2
        elif name == 'cosh':
            r = (_exp(d) + _exp(-d)) / 2
        elif name == 'tanh':
            e = _exp(2 * d)
            r = (e - 1) / (e + 1)
        elif name == 'asinh':
            r = _ln(d + (d * d + 1).sqrt()) if d >= 0 else -_ln(-d + (d * d + 1).sqrt())
        elif name == 'acosh':
            r = _ln(d + (d * d - 1).sqrt()) if x >= 1 else None
        elif name == 'atanh':
            r = _ln((1 + d) / (1 - d)) / 2 if abs(x) < 1 else None
        elif name == 'pi':
            r = _pi()
        else:
            raise KeyError(name)
        return None if r is None else Fraction(r)
