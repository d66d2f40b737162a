"""Driving the calculator at its public boundary and turning what comes back into plain data."""
from fractions import Fraction
import datetime
import decimal
import re

from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import (CalculatorException, CalculatingException, ParsingException,
                                                  ExecutionException)
from modularcalculator.objects.number import Number
from modularcalculator.objects.items import OperandResult
from rv.core import Violation, Skip

_CACHE = {}


def new_calc(preset='Computing', simplify=True):
    c = ModularCalculator(preset)
    c.unit_simplification_set(bool(simplify))
    return c


def shared_calc(preset='Computing', simplify=True):
    """A per-process calculator; the caller clears its variables with reset_vars."""
    k = (preset, simplify)
    if k not in _CACHE:
        _CACHE[k] = new_calc(preset, simplify)
    return _CACHE[k]


def renew(preset='Computing', simplify=True):
    _CACHE.pop((preset, simplify), None)
    return shared_calc(preset, simplify)


# some messages contain the repr of an object with its address
ADDRESS = re.compile(r'0x[0-9a-f]{8,}')


class Out:
    """Outcome of one calculate() call."""
    __slots__ = ('kind', 'results', 'exc', 'message', 'response')

    def __init__(self, kind, results, exc=None, response=None):
        self.kind = kind          # 'ok' | 'parse' | 'exec' | 'raw'
        self.results = results
        self.exc = exc
        self.message = ADDRESS.sub('0x?', str(getattr(exc, 'message', str(exc)))) if exc is not None else None
        self.response = response

    @property
    def ok(self):
        return self.kind == 'ok'

    @property
    def failed(self):
        return self.kind in ('parse', 'exec')

    def last(self):
        r = [x for x in self.results if x.has_result()]
        return r[-1] if r else None

    def describe(self, c):
        if self.kind == 'ok':
            return ' ; '.join(show(c, x) for x in self.results if x.has_result())
        return '{}: {}: {}'.format(self.kind, type(self.exc).__name__, self.message)


def calc(c, text, flags=None):
    try:
        r = c.calculate(text, flags)
        return Out('ok', r.results, response=r)
    except ParsingException as e:
        return Out('parse', e.response.results if e.has_response() else [], e)
    except ExecutionException as e:
        return Out('exec', e.response.results if e.has_response() else [], e)
    except Exception as e:
        return Out('raw', [], e)


def frac(n):
    return Fraction(int(n.num), int(n.den))


def unit_key(unit):
    """Unit as text ('' when there is none), via the public display."""
    if unit is None:
        return ''
    try:
        return unit.singular()
    except Exception as e:
        return '<unit error {}>'.format(e)


def plain(c, value, unit=None, text=False):
    """Comparable plain structure of a value; text=True also includes the displayed text of numbers."""
    u = unit_key(unit)
    if isinstance(value, Number):
        if text:
            return ('num', frac(value), u, num_text(c, value))
        return ('num', frac(value), u)
    if isinstance(value, bool):
        return ('bool', value, u)
    if isinstance(value, str):
        return ('str', value, u)
    if isinstance(value, list):
        return ('list', tuple(plain(c, x.value, x.unit, text) if isinstance(x, OperandResult) else ('bare', repr(x)) for x in value), u)
    if isinstance(value, datetime.datetime):
        return ('date', value.isoformat(), u)
    if isinstance(value, Exception):
        return ('error',)
    if value is None:
        return ('none', u)
    if hasattr(value, 'desc') and hasattr(value, 'text'):
        return ('item', value.desc(), value.text, u)
    if hasattr(value, 'singular'):
        return ('unit', unit_key(value), u)
    return ('other', type(value).__name__, repr(value), u)


def plain_result(c, r, text=False):
    return plain(c, r.value, r.unit, text)


def plain_out(c, o, text=False):
    """Whole outcome: values of completed statements and the kind (and message) of a failure."""
    vals = tuple(plain_result(c, r, text) if r.has_result() else None for r in o.results)
    if o.ok:
        return ('ok', vals)
    return (o.kind, vals, o.message)


def num_text(c, n):
    try:
        return n.to_string(c)
    except Exception as e:
        return '<{}: {}>'.format(type(e).__name__, e)


def show(c, r):
    try:
        return OperandResult(r.value, r.unit, None).to_string(c)
    except Exception as e:
        return '<{}>'.format(type(e).__name__)


def value_of(c, text, what='value', flags=None):
    """Evaluate text expecting success; returns the last result."""
    o = calc(c, text, flags)
    if not o.ok:
        raise Violation('{}: {!r} failed'.format(what, text), outcome=o.describe(c))
    r = o.last()
    if r is None:
        raise Violation('{}: {!r} gave no result'.format(what, text))
    return r


def expect_num(c, text, want, unit=None):
    r = value_of(c, text)
    if not isinstance(r.value, Number):
        raise Violation('{!r}: expected a number'.format(text), got=show(c, r), expected=str(want))
    got = frac(r.value)
    if got != want:
        raise Violation('{!r} evaluates to a wrong value'.format(text), got=str(got), expected=str(want))
    if unit is not None and unit_key(r.unit) != unit:
        raise Violation('{!r} has a wrong unit'.format(text), got=unit_key(r.unit), expected=unit)
    return r


def expect_fail(c, text, why):
    o = calc(c, text)
    if not o.failed:
        raise Violation('{!r} should be rejected: {}'.format(text, why), got=o.describe(c))
    return o


def vars_plain(c, text=True):
    """The variable store as plain data."""
    v = getattr(c, 'vars', {})
    return {k: plain(c, x[0], x[1], text) for k, x in v.items()}


def set_vars(c, values=None):
    c.vars.clear()
    if values:
        c.vars.update(values)


def reset_context():
    decimal.getcontext().prec = 100
    decimal.getcontext().rounding = decimal.ROUND_HALF_UP


def digits(n):
    return len(str(abs(n)))


class Big(Exception):
    """An intermediate exceeds the number size: outside the exactness domain."""


LIMIT = 10 ** 97


def guard(*ints):
    for x in ints:
        if abs(x) >= LIMIT:
            raise Big()


def dec_literal(f):
    """A decimal literal text for a fraction with a terminating decimal expansion, else None."""
    d = f.denominator
    k = 0
    while d % 10 == 0:
        d //= 10
    t = f.denominator
    twos = fives = 0
    while t % 2 == 0:
        t //= 2
        twos += 1
    while t % 5 == 0:
        t //= 5
        fives += 1
    if t != 1:
        return None
    k = max(twos, fives)
    n = f.numerator * 10 ** k // f.denominator
    s = str(abs(n)).rjust(k + 1, '0')
    if k:
        s = s[:-k] + '.' + s[-k:]
    return ('-' if n < 0 else '') + s


def round_frac(f, places, mode):
    """Exact rounding of a fraction to a number of decimal places, as a fraction."""
    s = f * Fraction(10) ** places
    sign = -1 if s < 0 else 1
    s = abs(s)
    lo = s.numerator // s.denominator
    rem = s - lo
    up = False
    if rem:
        half = Fraction(1, 2)
        up = {'ROUND_UP': True, 'ROUND_DOWN': False, 'ROUND_CEILING': sign > 0, 'ROUND_FLOOR': sign < 0,
              'ROUND_HALF_UP': rem >= half, 'ROUND_HALF_DOWN': rem > half,
              'ROUND_HALF_EVEN': rem > half or (rem == half and lo % 2 == 1),
              'ROUND_05UP': lo % 10 in (0, 5)}[mode]
    return sign * Fraction(lo + (1 if up else 0)) / Fraction(10) ** places


MODES = ['ROUND_HALF_UP', 'ROUND_HALF_DOWN', 'ROUND_HALF_EVEN', 'ROUND_UP', 'ROUND_DOWN', 'ROUND_CEILING', 'ROUND_FLOOR', 'ROUND_05UP']
