"""C30: what a host application adds to its calculator behaves exactly as declared."""
import os
import random
import shutil
import sys
import tempfile
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.features.structure.operators import OperatorsFeature
from modularcalculator.objects.operators import OperatorDefinition, OperationResult
from modularcalculator.objects.items import LiteralItem, NonFunctionalItem
from modularcalculator.objects.units import UnitDefinition, AmbiguousUnitDefinition
from modularcalculator.features.feature import Feature
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C30'
TECHNIQUE = ('runtime monitor inside host code: random functions, operators, parsers, number types, units, constants, finalizers and feature files are added to a calculator the way a host application does it; '
             'their callables record every call they get, and an online checker compares calls, arguments, grouping, results and installation order with what the declarations say')
RULE = ('random declarations (parameter counts, value and dimension restrictions, the five flags, result kinds) x argument lists (representations, quantities, text, arrays, errors); operator tables of 2-7 operators at '
        'random levels x random expressions; parser orders; unit systems with prefixes; feature graphs; distinct by declaration and program text')
BUDGET = {'quick': 22000, 'thorough': 400000}
NEED = {'grouping': 10270, 'prefix': 2500, 'mixed operators': 2210, 'parser': 3420, 'call': 25620, 'broadcast': 5410, 'logged': 18250, 'host error': 770, 'rejected call': 10580, 'normalised': 1010, 'units': 8480, 'collected': 1840, 'finalizer': 2490, 'constants': 3140, 'cast': 1250, 'number type': 3140, 'error input': 400, 'features': 390, 'postfix': 2770, 'ternary': 2870, 'rtl': 4180, 'dimension': 860}
ASSUMPTIONS = ['restrictions are declared in parameter order, and at most one parameter is an array of numbers with units',
               'in an expression that mixes operators of several arities the monitor judges those in which every operand is complete when its operator is reached']

UNITS = {'meters': ('distance', Fraction(1)), 'feet': ('distance', Fraction(381, 1250)), 'kilometers': ('distance', Fraction(1000)),
         'seconds': ('time', Fraction(1)), 'hours': ('time', Fraction(3600)), 'kilograms': ('mass', Fraction(1000)), 'grams': ('mass', Fraction(1))}
SINGULAR = {'meters': 'meter', 'feet': 'foot', 'kilometers': 'kilometer', 'seconds': 'second', 'hours': 'hour', 'kilograms': 'kilogram', 'grams': 'gram'}
PLURAL = {v: k for k, v in SINGULAR.items()}
LITERALS = [('5', 5), ('2.5', Fraction(5, 2)), ('0', 0), ('-3', -3), ('12', 12), ('0x1F', 31), ('0b101', 5), ('0o17', 15), ('12%', Fraction(3, 25)), ('3E2', 300), ('100', 100), ('0.125', Fraction(1, 8)), ('7z16', 13)]
CAST = {}


class Err(Exception):
    pass


class Arg:
    """A value as the model sees it."""
    __slots__ = ('kind', 'val', 'unit', 'cast', 'text', 'var')

    def __init__(self, kind, val=None, unit=None, cast=None, text=None, var=False):
        self.kind, self.val, self.unit, self.cast, self.text, self.var = kind, val, unit, cast, text, var

    def __repr__(self):
        return '{}:{}{}'.format(self.kind, self.val, ' ' + self.unit if self.unit else '')


def cast_name(n):
    k = getattr(n, 'number_cast', None)
    if not k:
        return None
    return (getattr(k.get('to_string'), '__qualname__', '?'), tuple(str(x) for x in k.get('args', [])))


def setup():
    c = shared_calc('Computing')
    for t, v in LITERALS:
        r = value_of(c, t)
        if frac(r.value) != v:
            raise Violation('literal {!r} has a wrong value'.format(t), got=str(frac(r.value)))
        CAST[t] = cast_name(r.value)


# ---------------------------------------------------------------- declared operations

class Spec:
    pass


def make_spec(rng, operator=False):
    s = Spec()
    s.name = rng.choice(['hostop', 'shout', 'blend', 'fetch2', 'x_y'])
    s.min = rng.choice([None, 0, 1, 1, 2, 2, 3])
    s.max = rng.choice([None, 1, 1, 2, 2, 3, 4])
    if s.min is not None and s.max is not None and s.max < s.min:
        s.min, s.max = s.max, s.min
    types = [['number'], ['number'], ['number'], ['string'], ['array'], ['array[number]'], ['number', 'string'], ['array', 'number'], None, ['array[string]'], ['exception', 'number'], ['boolean'], ['string', 'array']]
    s.restrictions = []
    if operator:
        s.min = s.max = 2
        for i in range(2):
            t = rng.choice(types)
            if t is not None:
                s.restrictions.append((i, i, t))
    else:
        k = rng.random()
        if k < .25:
            at = 0
            while at < 4:
                to = rng.choice([at, at, at + 1, at + 2])
                s.restrictions.append((at, to, rng.choice([['number'], ['number'], ['array', 'number'], ['string', 'number']])))
                at = to + 1
            s.min, s.max = rng.choice([(1, 3), (3, 3), (2, 4), (2, None)])
        elif k < .45:
            t = rng.choice(types)
            if t is not None:
                s.restrictions.append((0, None, t))
        else:
            at = 0
            while at < 4 and rng.random() < .8:
                to = rng.choice([at, at, at + 1, None])
                t = rng.choice(types)
                if t is not None:
                    s.restrictions.append((at, to, t))
                if to is None:
                    break
                at = to + 1
        if rng.random() < .16:
            s.max = 1
            s.min = rng.choice([None, 1])
            s.restrictions = [(0, 0, rng.choice([['array'], ['array[number]'], ['array[number]'], ['array', 'number'], ['number', 'array'], ['string', 'array[number]']]))]
    s.dims = []
    if rng.random() < .2:
        lo = rng.choice([0, 0, 1])
        s.dims.append((lo, rng.choice([lo, lo, None]), rng.choice([['distance', 1], ['time', 1], ['mass', 1]])))
    s.normalise = rng.random() < .75
    s.multi = rng.random() < .2
    s.relative = rng.random() < .3
    s.ice = rng.random() < .25 or any('exception' in t for _, _, t in s.restrictions)
    s.auto_in = rng.random() < .8
    s.auto_out = rng.random() < .8
    s.body = rng.choice(['first', 'first', 'sum', 'sum', 'fresh', 'text', 'text', 'unit', 'nounit', 'list', 'refuse', 'break', 'vandal', 'count', 'count'])
    s.operator = operator
    return s


def describe(s):
    return {k: v for k, v in vars(s).items()}


def types_at(s, i):
    return [t for lo, hi, t in s.restrictions if i >= lo and (hi is None or i <= hi)]


def can(s, i, t, sub=None):
    want = t if sub is None else '{}[{}]'.format(t, sub)
    for ts in types_at(s, i):
        for x in ts:
            if (x == want) if sub is not None else x.split('[')[0] == t:
                return True
    return False


def must(s, i, t, sub=None):
    ts = types_at(s, i)
    want = t if sub is None else '{}[{}]'.format(t, sub)
    return bool(ts) and all(len(x) == 1 and (x[0] == want if sub is not None else x[0].split('[')[0] == t) for x in ts)


def is_number(a):
    return a.kind in ('num', 'bool') or a.kind == 'str' and a.val in NUMERIC


NUMERIC = {'12': Fraction(12), '4.5': Fraction(9, 2)}


def of_type(a, t):
    if t == 'number':
        return is_number(a)
    if t == 'string':
        return a.kind != 'none'
    if t == 'boolean':
        return a.kind == 'bool'
    if t == 'array':
        return a.kind == 'list'
    if t.startswith('array['):
        return a.kind == 'list' and all(of_type(x, t[6:-1]) for x in a.val)
    if t == 'exception':
        return a.kind == 'err'
    raise KeyError(t)


def to_number(a):
    if a.kind == 'num':
        return a
    if a.kind == 'str':
        return Arg('num', NUMERIC[a.val], a.unit, ('DecimalNumericalRepresentation.to_string', ()))
    return Arg('num', Fraction(1 if a.val else 0), a.unit)


def convert(a, unit, relative):
    if a.unit == unit:
        return a
    if a.unit is None or unit is None or UNITS[a.unit][0] != UNITS[unit][0]:
        raise Err()
    return Arg('num', a.val * UNITS[a.unit][1] / UNITS[unit][1], unit, a.cast)


def normalise(s, values):
    """-> values in one unit, unit of the result"""
    units = [v.unit for v in values if v.unit is not None]
    if not units:
        return values, None
    if len(values) > 1:
        if s.multi:
            done = []
            for v in values:
                for w in done:
                    if v.unit and w.unit and UNITS[v.unit][0] == UNITS[w.unit][0]:
                        v = convert(v, w.unit, s.relative)
                        break
                done.append(v)
            values = done
        else:
            values = [convert(v, values[0].unit, s.relative) for v in values]
    return values, (None if s.multi else units[0])


def model(s, args, log, counters):
    over = [i for i, a in enumerate(args) if a.kind == 'list' and not can(s, i, 'array')]
    if over:
        counters.add('broadcast')
        n = set(len(args[i].val) for i in over)
        if len(n) > 1:
            raise Err('same length')
        out = []
        for k in range(n.pop()):
            row = [a.val[k] if i in over else a for i, a in enumerate(args)]
            try:
                out.append(model(s, row, log, counters))
            except Err:
                out.append(Arg('err'))
        return Arg('list', out)
    if s.max == 1 and must(s, 0, 'array') and len(args) > 1:
        counters.add('collected')
        n = set(len(a.val) for a in args if a.kind == 'list')
        if len(n) > 1:
            raise Err('same length')
        if not n:
            return model(s, [Arg('list', list(args))], log, counters)
        out = []
        for k in range(n.pop()):
            r = model(s, [Arg('list', [a.val[k] if a.kind == 'list' else a for a in args])], log, counters)
            if r.kind == 'list':
                raise Err()
            out.append(r)
        return Arg('list', out)
    if not s.ice:
        for a in args:
            if a.kind == 'err':
                return a
    if s.min is not None and len(args) < s.min or s.max is not None and len(args) > s.max:
        raise Err()
    for lo, hi, ts in s.restrictions:
        for i in range(lo, len(args) if hi is None else min(len(args), hi + 1)):
            if not any(of_type(args[i], t) for t in ts):
                raise Err()
    for lo, hi, d in s.dims:
        for i in range(lo, len(args) if hi is None else min(len(args), hi + 1)):
            if args[i].unit is None or UNITS[args[i].unit][0] != d[0]:
                raise Err()
            counters.add('dimension')
    values, cast = list(args), None
    if s.auto_in:
        for i, a in enumerate(args):
            if any('number' in ts for ts in types_at(s, i)) and is_number(a):
                values[i] = to_number(a)
                cast = cast or values[i].cast
    unit = None
    if all(can(s, i, 'number') and is_number(a) for i, a in enumerate(values)):
        if s.normalise:
            if any(v.unit for v in values) and any(v.kind != 'num' for v in values):
                raise Skip('raw value beside a quantity')
            values, unit = normalise(s, values)
            if unit and len(values) > 1:
                counters.add('normalised')
    else:
        for i, a in enumerate(values):
            if a.kind == 'list' and must(s, i, 'array', 'number'):
                items = [to_number(x) for x in a.val]
                for x in items:
                    cast = cast or x.cast
                if s.normalise:
                    items, unit = normalise(s, items)
                    counters.add('normalised')
                values[i] = Arg('list', items)
    log.append([(v, v.unit) for v in values])
    b = s.body
    if b == 'refuse' or b == 'break':
        raise Err('host says no' if b == 'refuse' else None)
    if b in ('text', 'vandal'):
        return Arg('str', 'R' + str(len(values)), unit)
    if b == 'count':
        return Arg('num', Fraction(len(values)), unit, cast if s.auto_out else None)
    if b == 'list':
        for v, a in zip(values, args):
            if v.kind == 'list':
                return Arg('list', a.val[::-1], unit)
        return Arg('list', list(values), unit)
    if b == 'fresh' or not values or any(v.kind != 'num' for v in values):
        if b in ('unit', 'nounit'):
            return Arg('num', Fraction(7, 2), 'hours' if b == 'unit' else None, cast if s.auto_out else None)
        return Arg('num', Fraction(7, 2), unit, cast if s.auto_out else None)
    if b in ('first', 'nounit', 'unit'):
        return Arg('num', values[0].val, 'hours' if b == 'unit' else None if b == 'nounit' else unit, cast if s.auto_out and cast else values[0].cast)
    return Arg('num', sum((v.val for v in values), Fraction(0)), unit, cast if s.auto_out else None)


class Host:
    """The host application's callable."""

    def __init__(self, s):
        self.s = s
        self.log = []
        self.flags = []
        self.calcs = []

    def __call__(self, calculator, values, units, refs, flags):
        s = self.s
        self.log.append([(snapshot(calculator, v), unit_key(u)) for v, u in zip(values, units)] + ([] if len(values) == len(units) == len(refs) else ['lengths differ']))
        self.flags.append(dict(flags))
        self.calcs.append(calculator)
        b = s.body
        if b == 'refuse':
            raise CalculatorException('host says no')
        if b == 'break':
            return {}['missing']
        if b == 'vandal':
            n = len(values)
            values.clear()
            units.clear()
            refs.clear()
            flags['parse_only'] = True
            flags['seen'] = True
            return OperationResult('R' + str(n))
        if b == 'text':
            return OperationResult('R' + str(len(values)))
        if b == 'count':
            return OperationResult(Number(len(values)))
        if b == 'list':
            for v in values:
                if type(v) == list:
                    return OperationResult(v[::-1])
            return OperationResult([OperandResult(v, u, None) for v, u in zip(values, units)])
        if b == 'fresh' or not values or any(not isinstance(v, Number) for v in values):
            r = OperationResult(Number(7, 2))
        elif b == 'sum':
            t = Fraction(0)
            for v in values:
                t += frac(v)
            r = OperationResult(Number(t.numerator, t.denominator))
        else:
            r = OperationResult(values[0])
        if b == 'unit':
            r.set_unit(HOURS(calculator))
        if b == 'nounit':
            r.set_unit(None)
        return r


def HOURS(c):
    from modularcalculator.objects.units import UnitPowerList
    return UnitPowerList.new([c.unit_normaliser.get_unit('hours'), Number(1)])


def snapshot(c, v):
    if isinstance(v, Number):
        return ('num', frac(v))
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, Exception):
        return ('err', None)
    if isinstance(v, list):
        return ('list', [(snapshot(c, x.value), unit_key(x.unit)) for x in v])
    if v is None:
        return ('none', None)
    return (type(v).__name__, None)


def expected_snapshot(a):
    if a.kind == 'list':
        return ('list', [(expected_snapshot(x), SINGULAR.get(x.unit, '')) for x in a.val])
    return (a.kind, a.val if a.kind not in ('err', 'none') else None)


def make_arg(rng, c, vars, depth=0, numeric=.7, unit=None):
    k = rng.random()
    if depth == 0 and k < .22 or depth == 1 and k < .06:
        n = rng.choice([1, 1, 2, 3, 3]) if rng.random() < .3 else 2
        u = unit if rng.random() < .6 else None
        items = [make_arg(rng, c, vars, depth + 1, rng.choice([.3, .95, 1]), u) for _ in range(n)]
        text = '[' + ', '.join(x.text for x in items) + ']'
        a = Arg('list', items, text=text)
        if any(x.kind == 'err' for x in items):
            a = Arg('err', text=text)
        if rng.random() < .12:
            ds = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
            a = Arg('list', [Arg('num', Fraction(6, d)) if d else Arg('err') for d in ds], text='(6 / {})'.format(ds))
    elif rng.random() < numeric:
        t, v = rng.choice(LITERALS) if rng.random() < .75 else rng.choice([('3', 3), ('8', 8), ('(2 + 1)', 3), ('(-4)', -4)])
        u = None
        if rng.random() < (.7 if unit else .12):
            u = unit if unit and rng.random() < .5 else rng.choice(['meters', 'feet', 'kilometers'] if not unit or UNITS[unit][0] == 'distance' else [x for x in UNITS if UNITS[x][0] == UNITS[unit][0]])
            if rng.random() < .07:
                u = rng.choice(sorted(UNITS))
        a = Arg('num', Fraction(v), u, CAST.get(t), '({} {})'.format(t, u) if u else t)
    else:
        k = rng.random()
        if k < .35:
            v = rng.choice(['abc', '', '12', '4.5', 'x y'])
            a = Arg('str', v, text=quote_text(v))
        elif k < .55:
            v = rng.random() < .5
            a = Arg('bool', v, text=str(v).lower())
        elif k < .75:
            a = Arg('err', text='(1 / 0)')
        elif k < .85 and depth == 0:
            a = Arg('none', text='neverset')
        else:
            a = Arg('str', 'abc', text="('a' +$ 'bc')")
    if depth == 0 and rng.random() < .15 and a.kind not in ('err', 'none'):
        name = 'v' + str(len(vars))
        vars.append((name, a.text))
        a.text = name
        a.var = True
    return a


def quote_text(v):
    return "'" + v + "'"


def has_err(a):
    return a.kind == 'err' or a.kind == 'list' and any(has_err(x) for x in a.val)


def same(c, want, value, unit, path='result'):
    """Compare a delivered value with the model's; -> message or None"""
    if want.kind == 'err':
        return None if isinstance(value, Exception) else '{} should be an error'.format(path)
    if unit_key(unit) != SINGULAR.get(want.unit, '') and not (want.kind in ('list', 'str') and want.unit is None):
        return '{} has unit {!r} instead of {!r}'.format(path, unit_key(unit), SINGULAR.get(want.unit, ''))
    if want.kind == 'num':
        if not isinstance(value, Number) or frac(value) != want.val:
            return '{} is {} instead of {}'.format(path, snapshot(c, value), want.val)
        if cast_name(value) != want.cast:
            return '{} is shown as {} instead of {}'.format(path, cast_name(value), want.cast)
        return None
    if want.kind == 'list':
        if type(value) != list or len(value) != len(want.val):
            return '{} is {} instead of {}'.format(path, snapshot(c, value), want)
        for k, (w, v) in enumerate(zip(want.val, value)):
            m = same(c, w, v.value, v.unit, '{}[{}]'.format(path, k))
            if m:
                return m
        return None
    if want.kind == 'none':
        return None if value is None else '{} should be empty'.format(path)
    if type(value) != {'str': str, 'bool': bool}[want.kind] or value != want.val:
        return '{} is {} instead of {}'.format(path, snapshot(c, value), want)
    return None


def run_op(rng, mon, operator):
    c = shared_calc('Computing')
    reset_context()
    set_vars(c)
    s = make_spec(rng, operator)
    host = Host(s)
    if operator:
        # the calculator keeps the operators added before; a new one now and then
        c = operator_calc()
        set_vars(c)
        USED[0] += 1
        sym = rng.choice(['@', '<+>', '?!']) + str(USED[0]) + '@' if rng.random() < .7 else 'blendwith' + chr(97 + USED[0] // 26) + chr(97 + USED[0] % 26)
        level = rng.choice([lv for lv in c.op_map if '*' in lv or '+' in lv or '<' in lv or '&' in lv])
        level.add(sym)
        ts = [None, None]
        for i, _, t in s.restrictions:
            ts[i] = t if rng.random() < .5 or len(t) > 1 else t[0]
        d = OperatorDefinition('Host', sym, 'host operator', host, 1, 1, ts)
    else:
        one = len(s.restrictions) == 1 and s.restrictions[0][0] == 0 and s.restrictions[0][1] is None
        ts = s.restrictions[0][2] if one else None
        d = FunctionDefinition('Host', s.name, 'host function', ['a'], host, s.min, s.max, ts)
        if not one:
            for lo, hi, t in s.restrictions:
                d.add_value_restriction(lo, hi, t if rng.random() < .5 or len(t) > 1 else t[0])
    for lo, hi, dim in s.dims:
        d.add_unit_restriction(lo, hi, list(dim))
    d.units_normalise, d.units_multi, d.units_relative = s.normalise, s.multi, s.relative
    d.inputs_can_be_exceptions, d.auto_convert_numerical_inputs, d.auto_convert_numerical_result = s.ice, s.auto_in, s.auto_out
    if operator:
        c.add_op(d)
        c.setup()
    else:
        c.funcs[s.name] = d
    try:
        for _ in range(4):
            one_call(rng, mon, c, s, host, sym if operator else None)
    finally:
        if not operator:
            c.funcs.pop(s.name, None)


USED = [0]
OPERATORS = []


def operator_calc():
    if not OPERATORS or USED[0] >= 40:
        OPERATORS[:] = [new_calc('Computing')]
        USED[0] = 0
    return OPERATORS[0]


def one_call(rng, mon, c, s, host, sym):
    set_vars(c)
    vars = []
    unit = rng.choice(sorted(UNITS)) if rng.random() < .45 else None
    numeric = rng.choice([.7, .7, 1])
    if s.dims and rng.random() < .75:
        unit = {'distance': 'feet', 'time': 'hours', 'mass': 'grams'}[s.dims[0][2][0]]
    lo = s.min or 0
    hi = s.max if s.max is not None else 4
    if sym:
        n = 2
    elif rng.random() < .15:
        n = rng.randint(0, 5)
    elif s.max == 1 and must(s, 0, 'array') and rng.random() < .7:
        n = rng.randint(2, 4)
    else:
        n = rng.randint(min(lo, hi), hi)
    args = []
    for i in range(n):
        # mostly something the parameter is declared to take
        for _ in range(rng.choice([1, 3, 6, 8])):
            mark = len(vars)
            a = make_arg(rng, c, vars, numeric=numeric, unit=unit)
            probe = a.val if a.kind == 'list' and not can(s, i, 'array') and a.val else [a]
            if all(not types_at(s, i) or all(any(of_type(x, t) for t in ts) for ts in types_at(s, i)) for x in probe) and (s.ice or not has_err(a) or rng.random() < .2):
                break
            if _ < 7 and len(vars) > mark:
                del vars[mark:]
                a.text = None
        if a.text is None:
            a = Arg('num', Fraction(5), None, None, '5')
        args.append(a)
    pre = ''
    for name, text in vars:
        o = calc(c, '{} = {}'.format(name, text))
        if not o.ok:
            raise Skip('assignment failed')
    if sum(1 for i, a in enumerate(args) if a.kind == 'list' and must(s, i, 'array', 'number') and any(x.unit for x in a.val)) > 1:
        raise Skip('several arrays of quantities')
    if any(a.kind == 'list' and any(x.kind == 'bool' for x in a.val) and must(s, i, 'array', 'number') and any(x.unit for x in a.val) for i, a in enumerate(args)):
        raise Skip('raw value beside a quantity')
    if sym:
        text = '({}) {} ({})'.format(args[0].text, sym, args[1].text)
    else:
        text = '{}({})'.format(s.name, ', '.join(a.text for a in args))
    want_log, counters = [], set()
    before = vars_plain(c)
    del host.log[:], host.flags[:], host.calcs[:]
    failing = None
    try:
        if not sym and not s.ice and any(a.kind == 'err' for a in args):
            raise Err()
        want = model(s, args, want_log, counters)
        if want.kind == 'err':
            raise Err()
    except Err as e:
        want, failing = None, e
    simplify = rng.random() < .5
    c.unit_simplification_set(simplify)
    o = calc(c, text)
    c.unit_simplification_set(True)
    info = {'declared': describe(s), 'variables': vars, 'program': text}
    mon.sample('{} declared {} called {!r} with {}'.format('operator' if sym else 'function', describe(s), text, vars))
    mon.obs('call', (str(sorted(describe(s).items(), key=str)), text, str(vars)))
    for k in counters:
        mon.obs(k)
    if 'lengths differ' in str(host.log):
        raise Violation('the operation got differing numbers of values, units and references', log=host.log, **info)
    got_log = host.log
    wlog = [[(expected_snapshot(v), SINGULAR.get(u, '')) for v, u in row] for row in want_log]
    if got_log != wlog:
        raise Violation('the operation was not called as declared', called=str(got_log)[:1500], expected=str(wlog)[:1500], outcome=o.describe(c), **info)
    mon.obs('logged', n=len(wlog))
    if any('seen' in f for f in host.flags):
        raise Violation('flags changed by one call reached another', **info)
    if any(x is not c for x in host.calcs):
        raise Violation('the operation was called with another calculator', **info)
    if any(a.kind == 'err' for row in want_log for a, _ in row):
        mon.obs('error input')
    if want is None:
        if o.ok:
            raise Violation('a call that does not satisfy the declaration was accepted', outcome=o.describe(c), **info)
        if o.kind != 'exec':
            raise Violation('a rejected call is not an execution error', outcome=o.describe(c), **info)
        if s.body in ('refuse', 'break') and want_log and failing.args and failing.args[0] == 'host says no' and 'broadcast' not in counters:
            mon.obs('host error')
            if 'host says no' not in o.message or (sym or s.name) not in o.message:
                raise Violation('the error of the operation is not reported', message=o.message, **info)
        mon.obs('rejected call')
    else:
        if not o.ok:
            raise Violation('a call that satisfies the declaration was rejected', outcome=o.describe(c), **info)
        r = o.last()
        m = same(c, want, r.value, r.unit)
        if m:
            raise Violation('the result is not what the operation returned: ' + m, outcome=o.describe(c), **info)
        if want.kind == 'num' and want.cast:
            mon.obs('cast')
    if vars_plain(c) != before:
        raise Violation('calling the operation changed variables', before=before, after=vars_plain(c), **info)


# ---------------------------------------------------------------- operator tables

SYMS = ['@', '@@', '@=', '$$', '?', '¬', '<>', '<+>', 'plus', 'over', 'mod', 'andalso', ':=', '=>', '->', '¦', '..>', '€', '~~', 'is', 'isnot']


def run_table(rng, mon):
    feats = ['structure.operators', 'strings.strings', 'nonfunctional.space', 'structure.innerexpressions', 'numerical.basicarithmetic', 'numerical.decimalnumbers']
    extra = rng.random() < .4
    if extra:
        feats += ['boolean.booleans', 'numerical.bitwiseoperators', 'strings.stringcomparison']
    c = ModularCalculator()
    c.install_features(rng.sample(feats, len(feats)))
    ops = {}
    pool = [x for x in SYMS if not (extra and x in ('~~',))]
    syms = rng.sample(pool, rng.randint(2, 7))
    base = [list(lv) for lv in c.op_map]
    tern = None
    # a level is (rtl); new levels go anywhere, existing levels keep their direction
    places = []
    for sym in syms:
        kind = rng.choice(['binary', 'binary', 'binary', 'prefix', 'postfix', 'ternary'])
        if kind == 'ternary':
            if tern:
                kind = 'binary'
            else:
                seps = rng.sample([x for x in [':', '|:', 'otherwise', '!:', ';'] if x not in syms], 3)
                tern = rng.choice([[1, sym, 1, seps[0], 1], [1, sym, 1, seps[0], 1], [1, sym, 1, seps[0], 1, seps[1], 1], [1, sym, seps[0], 1, seps[1], 1], [1, seps[0], 1, sym, 1], [sym, 1, seps[0], 1],
                                   [1, sym, 1, seps[0]], [1, seps[0], 1, seps[1], 1, sym, 1, seps[2], 1], [sym, 1, seps[0]]])
        if sym in ('?',) and kind == 'prefix':
            kind = 'binary'
        mode = rng.random()
        if mode < .3 and ops:
            other = rng.choice(sorted(ops))
            level, rtl = ops[other][1], ops[other][2]
            level.add(sym)
        elif mode < .5:
            level = rng.choice([lv for lv in c.op_map if ('+' in lv or '*' in lv or '&' in lv or '=' in lv)])
            rtl = False
            level.add(sym)
        else:
            level, rtl = {sym}, rng.random() < .4
            c.op_map.insert(rng.randint(0, len(c.op_map)), level)
        ops[sym] = (kind, level, rtl)
    log = []
    order = list(syms)
    rng.shuffle(order)
    for sym in order:
        kind, level, rtl = ops[sym]
        if rng.random() < .25:
            # an earlier definition of the symbol: the later one replaces it
            old = OperatorDefinition('Host', sym, 'replaced', lambda calc, v, u, r, fl: (log.append('replaced'), OperationResult('replaced'))[1],
                                     *rng.choice([(1, 1), (0, 1), (1, 0)]), 'string')
            c.add_op(old, {'rtl': True} if rtl else None)
            if rng.random() < .5:
                c.setup()
            mon.obs('replaced_operator')
        if kind == 'binary':
            f = (lambda sym: lambda calc, v, u, r, fl: (log.append(sym), OperationResult('({}{}{})'.format(v[0], sym, v[1])))[1])(sym)
            d = OperatorDefinition('Host', sym, 'host', f, rng.choice([1, [1]]), 1, rng.choice(['string', ['string', 'string']]))
        elif kind == 'ternary':
            f = (lambda sym: lambda calc, v, u, r, fl: (log.append(sym), OperationResult(mixfix(tern, v)))[1])(sym)
            at = tern.index(sym)
            n = tern.count(1)
            d = OperatorDefinition('Host', sym, 'host', f, tern[:at], tern[at + 1:], rng.choice(['string', ['string'] + [rng.choice([None, 'string'])] * (n - 1)]))
        elif kind == 'prefix':
            f = (lambda sym: lambda calc, v, u, r, fl: (log.append(sym), OperationResult('({}{})'.format(sym, v[0])))[1])(sym)
            d = OperatorDefinition('Host', sym, 'host', f, 0, 1, 'string')
        else:
            f = (lambda sym: lambda calc, v, u, r, fl: (log.append(sym), OperationResult('({}{})'.format(v[0], sym)))[1])(sym)
            d = OperatorDefinition('Host', sym, 'host', f, 1, 0, 'string')
        if rtl:
            c.add_op(d, {'rtl': True})
        else:
            c.add_op(d)
        if rng.random() < .3:
            c.setup()
    c.setup()
    rank = {}
    for k, lv in enumerate(c.op_map):
        for x in lv:
            rank[x] = k
    table = {x: (ops[x][0], rank[x], ops[x][2]) for x in ops}
    builtin = {'+$': ('binary', rank['+$'], False)}
    for _ in range(12):
        expression(rng, mon, c, table, builtin if rng.random() < .4 else {}, tern, log)


def mixfix(pattern, values):
    it = iter(values)
    return '({})'.format(''.join(next(it) if x == 1 else x for x in pattern))


def expression(rng, mon, c, table, builtin, tern, log):
    both = dict(table)
    both.update(builtin)
    binary = [x for x in both if both[x][0] in ('binary', 'ternary')]
    joins = [x for x in both if both[x][0] == 'binary']
    pre = [x for x in both if both[x][0] == 'prefix']
    post = [x for x in both if both[x][0] == 'postfix']
    letters = iter('abcdefghijklmnopqrstuvwxyz')
    toks = []

    def operand(depth):
        if pre and rng.random() < .25:
            toks.append(('op', rng.choice(pre)))
        if depth < 2 and rng.random() < .12:
            toks.append(('open', '('))
            chain(rng.randint(1, 3), depth + 1)
            toks.append(('close', ')'))
        else:
            toks.append(('val', next(letters)))
        if post and rng.random() < .25:
            toks.append(('op', rng.choice(post)))

    def chain(n, depth):
        operand(depth)
        for _ in range(n - 1):
            if not binary:
                return
            x = rng.choice(binary)
            if both[x][0] == 'ternary':
                # the first operand of the pattern is the one before, unless the pattern starts with a symbol
                if tern[0] != 1:
                    if not joins:
                        return
                    toks.append(('op', rng.choice(joins)))
                for y in tern[1 if tern[0] == 1 else 0:]:
                    if y == 1:
                        operand(depth)
                    else:
                        toks.append(('op', y) if y == x else ('sym', y))
                continue
            toks.append(('op', x))
            operand(depth)
    try:
        chain(rng.choice([2, 3, 3, 4, 5, 6]), 0)
    except StopIteration:
        raise Skip('too long')
    seps = []
    text = ''
    for k, (t, x) in enumerate(toks):
        if t == 'val':
            text += quote_text(x)
        elif t in ('open', 'close'):
            text += x
        else:
            text += ' ' + x + ' '
    text = text.strip()
    try:
        want, calls = group(toks, both, tern)
    except Err:
        want = None
    del log[:]
    o = calc(c, text)
    info = {'program': text, 'operators': {k: v for k, v in both.items()}}
    if want is None:
        if o.kind in ('raw',):
            raise Violation('operators in an impossible order: not a calculating error', outcome=o.describe(c), **info)
        return
    mon.sample('{} with operators {}'.format(text, both))
    mon.obs('grouping', (text, str(sorted(both.items()))))
    used = [x for t, x in toks if t == 'op']
    for k in ('prefix', 'postfix', 'ternary'):
        if any(both[x][0] == k for x in used):
            mon.obs(k)
    if any(both[x][2] for x in used):
        mon.obs('rtl')
    if any(x in builtin for x in used):
        mon.obs('mixed operators')
    if not o.ok:
        raise Violation('an expression with added operators failed', outcome=o.describe(c), expected=want, **info)
    r = o.last()
    if r.value != want:
        raise Violation('added operators group differently from their levels', got=str(r.value), expected=want, **info)
    if sorted(log) != sorted(calls):
        raise Violation('added operators were not called exactly once each', called=list(log), expected=calls, **info)
    if ''.join(str(i) for i in o.results[-1].items) != text:
        raise Violation('the items of the expression are not its text', items=[str(i) for i in o.results[-1].items], **info)


def group(toks, ops, tern):
    """Tree text by levels: the loosest operator is applied last."""
    calls = []

    def parse(ts):
        # strip brackets into values
        out, depth, start = [], 0, 0
        k = 0
        while k < len(ts):
            t, x = ts[k]
            if t == 'open':
                d, j = 1, k + 1
                while d:
                    d += (ts[j][0] == 'open') - (ts[j][0] == 'close')
                    j += 1
                out.append(('val', parse(ts[k + 1:j - 1])))
                k = j
            else:
                out.append(ts[k])
                k += 1
        return reduce(out)

    def reduce(items):
        items = list(items)
        while True:
            cand = [(ops[x][1], k) for k, (t, x) in enumerate(items) if t == 'op']
            if not cand:
                break
            level = min(l for l, _ in cand)
            ks = [k for l, k in cand if l == level]
            k = ks[-1] if ops[items[ks[0]][1]][2] else ks[0]
            sym = items[k][1]
            kind = ops[sym][0]
            shape = {'binary': [1, sym, 1], 'ternary': tern, 'prefix': [sym, 1], 'postfix': [1, sym]}[kind]
            lo = shape.index(sym)
            hi = len(shape) - lo - 1
            if k - lo < 0 or k + hi >= len(items):
                raise Err()
            ns = items[k - lo:k] + items[k + 1:k + 1 + hi]
            for p, (t, x) in zip(shape[:lo] + shape[lo + 1:], ns):
                if p == 1 and t != 'val' or p != 1 and (t, x) != ('sym', p):
                    raise Err()
            vs = [x for t, x in ns if t == 'val']
            v = vs[0] + vs[1] if sym == '+$' else mixfix(shape, vs)
            if sym != '+$':
                calls.append(sym)
            items[k - lo:k + hi + 1] = [('val', v)]
        if len(items) != 1 or items[0][0] != 'val':
            raise Err()
        return items[0][1]
    return parse(toks), calls


# ---------------------------------------------------------------- parsers, constants, number types, finalizers

class Mark(NonFunctionalItem):
    def desc(self):
        return 'mark'

    def category(self):
        return 'structural'

    def copy(self, classtype=None):
        return super().copy(classtype or self.__class__)


def run_parsers(rng, mon):
    c = ModularCalculator(rng.choice(['Computing', 'Scientific']))
    words = rng.sample(['hello', 'hell', 'helloworld', 'answer', 'zork', 'zorkmid', 'µx', '§1', 'pix', 'sumx', 'threefold'], rng.randint(2, 5))
    # an earlier parser wins; a longer word placed later than its prefix is cut, so the model tokenises too
    at = c.parser_map.index(rng.choice(['var', 'number', 'constant', 'boolean', 'operator', 'function']))
    at = min(at, c.parser_map.index('var'))
    names, meaning = [], {}
    shared = rng.random() < .5
    rng.shuffle(words)
    entries = []
    for k, w in enumerate(words):
        entries.append((w, Fraction(rng.randint(1, 50), rng.choice([1, 2, 4]))))
    if shared:
        entries.append((rng.choice(words), Fraction(999)))
    rng.shuffle(entries)
    parsers = []
    for k, (w, v) in enumerate(entries):
        name = 'host{}'.format(k)
        names.append(name)

        def parse(self, expr, i, items, flags, w=w, v=v):
            if expr[i:].startswith(w):
                return [LiteralItem(w, Number(v.numerator, v.denominator))], len(w), None
            return None, None, None
        parsers.append((name, parse))
    for k, name in enumerate(names):
        c.parser_map.insert(at + k, name)
    mark = rng.random() < .5
    if mark:
        c.parser_map.insert(rng.randint(0, at), 'mark')
        parsers.append(('mark', lambda self, expr, i, items, flags: ([Mark('¤')], 1, None) if expr[i:].startswith('¤') else (None, None, None)))
    rng.shuffle(parsers)
    for name, f in parsers:
        if rng.random() < .2:
            # an earlier parser of the same name: the later one replaces it
            c.add_parser(name, lambda self, expr, i, items, flags: ([LiteralItem(expr[i:], Number(777))], len(expr) - i, None))
            mon.obs('replaced_parser')
    for name, f in parsers:
        c.add_parser(name, f)
    c.setup()

    def token(word):
        # words the added parsers make of a text, in their order
        out = []
        while word:
            for w, v in entries:
                if word.startswith(w):
                    out.append((w, v))
                    word = word[len(w):]
                    break
            else:
                return None
        return out

    for _ in range(6):
        n = rng.randint(1, 4)
        text, total, parts = '', None, []
        for k in range(n):
            if rng.random() < .7:
                w = rng.choice(words)
                toks = token(w)
                if toks is None or len(toks) != 1:
                    raise Skip('cut word')
                t, v = w, toks[0][1]
            else:
                v = Fraction(rng.randint(0, 20))
                t = str(v)
            op = rng.choice(['+', '-', '*']) if k else None
            sp = rng.choice(['', ' ', ' ¤', '¤ ', ' ¤¤ ']) if mark else ' '
            if sp == '' and op:
                sp = ' '
            if k:
                text += ' ' + op + (sp or ' ')
                parts.append(op)
            text += t
            parts.append(v)
        acc = evaluate(parts)
        r = value_of(c, text, 'custom parsers')
        if not isinstance(r.value, Number) or frac(r.value) != acc:
            raise Violation('text taken by an added parser has a wrong meaning', program=text, got=show(c, r), expected=str(acc), parsers=[(n, w, str(v)) for n, (w, v) in zip(names, entries)])
        o = calc(c, text)
        if ''.join(str(i) for i in o.results[-1].items) != text:
            raise Violation('the items of the expression are not its text', program=text, items=[str(i) for i in o.results[-1].items])
        mon.obs('parser', text)


def evaluate(parts):
    terms, sign = [], 1
    acc, k = Fraction(0), 0
    cur = parts[0]
    total = Fraction(0)
    s = 1
    for op, v in zip(parts[1::2], parts[2::2]):
        if op == '*':
            cur *= v
        else:
            total += s * cur
            cur, s = v, 1 if op == '+' else -1
    return total + s * cur


def run_constants(rng, mon):
    c = shared_calc('Computing')
    reset_context()
    set_vars(c)
    from modularcalculator.objects.units import UnitPowerList
    added = {}
    for name in rng.sample(['gamma', 'Kappa', 'zeta', 'fortytwo', 'hostvalue', 'truex', 'piz'], rng.randint(1, 4)):
        v = Fraction(rng.randint(-99, 99), rng.choice([1, 3, 8]))
        u = rng.choice([None, None, 'meters', 'hours'])
        n = Number(v.numerator, v.denominator)
        added[name] = (v, u)
        c.constants[name] = n if u is None and rng.random() < .5 else (n, UnitPowerList.new([c.unit_normaliser.get_unit(u), Number(1)]) if u else None)
    try:
        for _ in range(6):
            name = rng.choice(sorted(added))
            v, u = added[name]
            k = rng.choice(['{}', '{} * 2', '({})', '{} + {}', 'x = {}', '[{}, 1][0]' if False else '{}', 'sum({}, {})'])
            text = k.format(name, name)
            want = v * 2 if k in ('{} * 2', '{} + {}', 'sum({}, {})') else v
            r = value_of(c, text, 'constants')
            if not isinstance(r.value, Number) or frac(r.value) != want or unit_key(r.unit) != SINGULAR.get(u, ''):
                raise Violation('an added constant has a wrong value', program=text, got=show(c, r), expected='{} {}'.format(want, u))
            mon.obs('constants', (text, str(added)))
            # a longer name is not the constant
            o = calc(c, name + 'er')
            if o.ok and o.last() is not None and o.last().value is not None:
                raise Violation('a name that only begins like a constant is taken for it', program=name + 'er', got=show(c, o.last()))
    finally:
        for name in added:
            del c.constants[name]


DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def to_base(n, b):
    s, k = '', abs(n)
    while True:
        s = DIGITS[k % b] + s
        k //= b
        if k == 0:
            return ('-' if n < 0 else '') + s


def run_number_type(rng, mon):
    c = ModularCalculator('Computing')
    b = rng.randint(2, 20)
    letter = rng.choice(['s', 'q', 'k', 'w'])
    prefix = '0' + letter
    name = rng.choice(['septal', 'hostbase', 'clicks', 'decimalish', 'binaryish'])
    import re as _re
    rx = _re.compile(r'(-?)' + prefix + r'([0-9a-j]+)')

    class HostNumber:
        @staticmethod
        def name():
            return name

        @staticmethod
        def desc():
            return name

        @staticmethod
        def parse(calculator, val):
            if isinstance(val, str) and rx.fullmatch(val):
                m = rx.fullmatch(val)
                if any(DIGITS.index(x) >= b for x in m.group(2)):
                    return None
                return HostNumber.convert_to(calculator, Number((-1 if m.group(1) else 1) * int(m.group(2), b)))
            return None

        @staticmethod
        def to_string(calculator, val):
            f = frac(val)
            if f.denominator != 1:
                return 'frac {}/{}'.format(f.numerator, f.denominator)
            return ('-' if f < 0 else '') + prefix + to_base(abs(int(f)), b)

        @staticmethod
        def convert_to(calculator, val):
            if isinstance(val, Number):
                val = val.copy()
                val.number_cast = {'to_string': HostNumber.to_string}
                return val
            return None

    def parse(self, expr, i, items, flags):
        from modularcalculator.objects.items import previous_functional_item
        prev = previous_functional_item(items)
        if prev is None or prev.isop():
            m = rx.match(expr[i:])
            if m and all(DIGITS.index(x) < b for x in m.group(2)):
                return [LiteralItem(m.group(0), HostNumber.parse(self, m.group(0)))], len(m.group(0)), None
        return None, None, None
    c.parser_map.insert(c.parser_map.index('number'), 'host_number')
    c.add_parser('host_number', parse)
    c.add_number_type(HostNumber)
    c.setup()

    def lit(n):
        return ('-' if n < 0 else '') + prefix + to_base(abs(n), b)

    def shown(n):
        return lit(n)
    for _ in range(6):
        x, y = rng.randint(-300, 300), rng.randint(-30, 300)
        k = rng.randrange(8)
        if k == 0:
            text, want, disp = lit(x), x, shown(x)
        elif k == 1:
            text, want, disp = '{} + {}'.format(lit(x), y), x + y, shown(x + y)
        elif k == 2:
            text, want, disp = '{} * {}'.format(y, lit(x)), x * y, shown(x * y)
        elif k == 3:
            text, want, disp = '{} as {}'.format(x, name), x, shown(x)
        elif k == 4:
            text, want, disp = '{} as decimal'.format(lit(x)), x, str(x)
        elif k == 5:
            text, want, disp = "'{}' - {}".format(lit(x), y), x - y, shown(x - y)
        elif k == 6:
            text, want, disp = 'abs({})'.format(lit(x)), abs(x), shown(abs(x))
        else:
            text, want, disp = '0x1F + {}'.format(lit(x)), 31 + x, ('-' if 31 + x < 0 else '') + '0x' + '{:x}'.format(abs(31 + x)).upper()
        r = value_of(c, text, 'number type')
        if not isinstance(r.value, Number) or frac(r.value) != want:
            raise Violation('a number of an added type has a wrong value', program=text, got=show(c, r), expected=want, base=b)
        if r.value.to_string(c).upper() != disp.upper():
            raise Violation('a number of an added type is shown wrongly', program=text, got=r.value.to_string(c), expected=disp, base=b)
        mon.obs('number type', text)


def leaves(res):
    return [z for v in res.value for z in leaves(v)] if type(res.value) == list else [res]


def run_finalizers(rng, mon):
    c = ModularCalculator('Computing')
    steps = []
    calls = []
    hours = rng.random() < .4
    for k in range(rng.randint(1, 3)):
        m, a = rng.choice([1, 2, -1, 3]), rng.randint(-5, 5)
        steps.append((m, a))
        give = HOURS(c) if hours and k == 0 else None

        def fin(calculator, answer, m=m, a=a, k=k, give=give):
            calls.append(k)
            if isinstance(answer.value, Number):
                return OperandResult(answer.value * Number(m) + Number(a), give or answer.unit, answer.ref)
            return answer
        c.finalizers.append({'ref': fin})

    def final(v):
        for m, a in steps:
            v = v * m + a
        return v
    env = {}
    for _ in range(6):
        x, y = rng.randint(-20, 20), rng.randint(1, 9)
        k = rng.randrange(8)
        del calls[:]
        if k == 0:
            text, want = '{} + {}'.format(x, y), [[final(Fraction(x + y))]]
        elif k == 1:
            text, want = '[{}, {}, {}]'.format(x, y, x), [[final(Fraction(v)) for v in (x, y, x)]]
        elif k == 2:
            text, want = 'nn1 = {}\nnn1 + 1'.format(x), [[final(Fraction(x))], [final(Fraction(x + 1))]]
        elif k == 3:
            text, want = '[1..3] * {}'.format(y), [[final(Fraction(v * y)) for v in (1, 2, 3)]]
        elif k == 4:
            text, want = "arr1 = [{}, {}]\narr1".format(x, y), [[final(Fraction(x)), final(Fraction(y))]] * 2
        elif k == 5:
            # The same elements several times in one result
            text = "arr2 = [{}, {}]\nconcat(arr2, {})".format(x, y, rng.choice(['arr2', 'reverse(arr2)', 'concat(arr2, arr2)']))
            one = [final(Fraction(x)), final(Fraction(y))]
            want = [one, one + (one if 'reverse' not in text else one[::-1]) * (2 if text.count('concat') > 1 else 1)]
        elif k == 6:
            text, want = 'nn2 = {}\n[nn2, nn2, nn2]'.format(x), [[final(Fraction(x))], [final(Fraction(x))] * 3]
        else:
            text, want = '[[{0}, {1}], [{1}]]'.format(x, y), [[final(Fraction(v)) for v in (x, y, y)]]
        o = calc(c, text)
        if not o.ok:
            raise Violation('finalizers: a valid program failed', program=text, outcome=o.describe(c))
        got = []
        for r in o.results:
            got.append([frac(v.value) for v in leaves(r)])
        units = set(unit_key(v.unit) for r in o.results for v in leaves(r))
        if units != {'hour' if hours else ''}:
            raise Violation('the unit a finalizer gives does not arrive', program=text, got=sorted(units), expected='hour' if hours else '')
        if got != want:
            raise Violation('finalizers are not applied once to each result', program=text, got=str(got), expected=str(want), steps=steps)
        if calls != list(range(len(steps))) * sum(len(w) for w in want):
            raise Violation('finalizers are not called once per value in the order they were added', program=text, calls=calls)
        for name in ('nn1', 'arr1'):
            if name in c.vars:
                v = c.vars[name][0]
                raw = [frac(z.value) for z in v] if type(v) == list else frac(v)
                exp = Fraction(x) if name == 'nn1' else [Fraction(x), Fraction(y)]
                if (k == 2 and name == 'nn1' or k == 4 and name == 'arr1') and raw != exp:
                    raise Violation('a finalizer changed a stored variable', program=text, got=str(raw), expected=str(exp))
        mon.obs('finalizer', (text, str(steps)))


# ---------------------------------------------------------------- units

def run_units(rng, mon):
    c = ModularCalculator(rng.choice(['Computing', 'Scientific']))
    c.unit_simplification_set(rng.random() < .5)
    un = c.unit_normaliser
    stems = rng.sample(['blorp', 'blorple', 'zintar', 'quaffle', 'wugget', 'dreeb', 'snark', 'vorpal'], 5)
    system = rng.choice(['hostsys', 'martian', 'sizz'])

    class HostSystem:
        name = 'Host system'
    un.systems[system] = HostSystem()
    un.systems_preference.insert(rng.randint(0, len(un.systems_preference)), system)
    dim = rng.choice(['credit', 'mana', 'flux2'])
    un.add_dimension(dim, dim.title())
    rel = rng.random() < .5
    table = {}      # name -> (dims dict, factor)
    for name, sym in [('bigly', rng.choice([None, 'Q'])), ('tinyly', rng.choice([None, 'ß']))][:rng.choice([0, 1, 2])]:
        un.prefixes.insert(rng.randint(0, len(un.prefixes)), (name, sym, Number(rng.choice([7, 12, 144]))))

    refused = []

    def add(d, stem, scale, dims, factor, prefixed=False, symbol=None):
        names = [stem + 's', stem]
        cls = type('U', (UnitDefinition,), {'namelist': names, 'symbollist': [symbol] if symbol else [], 'unitscale': Number(scale.numerator, scale.denominator), 'systems': [system]})
        if prefixed:
            lo, hi = rng.choice([(None, None), (None, None), (Number(1), None), (Number('0.001'), Number(1000)), (None, Number(144))])
            un.add_prefixed_unit(d, cls, lo, hi)
            allowed = [p for p in un.prefixes if (lo is None or frac(lo) <= frac(p[2])) and (hi is None or frac(p[2]) <= frac(hi))]
            refused[:] = [p[0] + stem for p in un.prefixes if p not in allowed and p[0]]
            for p in allowed:
                f = factor * frac(p[2])
                for n in names:
                    table[(p[0] or '') + n] = (dims, f, (p[0] or '') + stem)
                if symbol and (p[1] is not None or p[0] is None):
                    table[(p[1] or '') + symbol] = (dims, f, (p[0] or '') + stem)
            if not any(p[0] in (None, '') for p in allowed):
                un.add_unit(d, cls())
        else:
            un.add_unit(d, cls())
        for n in names:
            table[n] = (dims, factor, stem)
        if symbol:
            table[symbol] = (dims, factor, stem)
    D = {dim: 1}
    prefixed = rng.random() < .5
    add(dim, stems[0], Fraction(1), D, Fraction(1), prefixed, rng.choice([None, 'Bq' + 'x', 'zq']))
    s1 = Fraction(rng.randint(1, 40), rng.choice([1, 3, 7, 8]))
    add(dim, stems[1], s1, D, s1, False, rng.choice([None, 'Qw', 'zqz']))
    s2 = Fraction(rng.randint(1, 900), rng.choice([1, 11, 100]))
    add(dim, stems[2], s2, D, s2)
    if rel:
        un.add_dimension('host2', 'Host2', [dim, 1, 'time', -1] if rng.random() < .5 else [dim, 2, 'distance', -1])
        r = un.relationships['host2']
        dims2 = {p.dimension: int(frac(p.power)) for p in r.list()}
        s3 = Fraction(rng.randint(1, 60), rng.choice([1, 9]))
        add('host2', stems[3], s3, dims2, s3)
    base = {'seconds': ({'time': 1}, Fraction(1)), 'hours': ({'time': 1}, Fraction(3600)), 'meters': ({'distance': 1}, Fraction(1)), 'feet': ({'distance': 1}, Fraction(381, 1250))}

    def info(u):
        return (table.get(u) or base[u])[:2]
    names = [u for u in table]
    same = [u for u in names if table[u][0] == D]
    for _ in range(10):
        k = rng.randrange(6)
        x = Fraction(rng.randint(-50, 99), rng.choice([1, 2, 4, 5]))
        xt = dec_literal(x)
        if k <= 1:
            a, b = rng.choice(same), rng.choice(same)
            text = '{} {} to {}'.format(xt, a, b)
            want = x * table[a][1] / table[b][1]
            r = value_of(c, text, 'units')
            if frac(r.value) != want:
                raise Violation('an added unit converts wrongly', program=text, got=show(c, r), expected=str(want))
            if unit_key(r.unit).lower() != table[b][2].lower():
                raise Violation('an added unit resolves to another unit', program=text, got=unit_key(r.unit), expected=table[b][2])
        elif k == 2:
            a, b = rng.choice(same), rng.choice(same)
            y = Fraction(rng.randint(0, 30))
            text = '{} {} + {} {}'.format(xt, a, y, b)
            r = value_of(c, text, 'units')
            if frac(r.value) != x + y * table[b][1] / table[a][1] or unit_key(r.unit).lower() != table[a][2].lower():
                raise Violation('adding quantities in added units is wrong', program=text, got=show(c, r), expected='{} {}'.format(x + y * table[b][1] / table[a][1], a))
        elif k == 3:
            a = rng.choice(same)
            bad = rng.choice(['meters', 'seconds', 'feet'])
            expect_fail(c, '{} {} to {}'.format(xt, a, bad), 'the dimensions differ')
            expect_fail(c, '{} {} + 1 {}'.format(xt, a, bad), 'the dimensions differ')
        elif k == 4 and rel:
            # the related dimension as a product of its parts
            z = stems[3] + 's'
            a = rng.choice(same)
            if 'time' in dims2:
                t = rng.choice(['seconds', 'hours'])
                text = '{} {} to {} / {}'.format(xt, z, a, t)
                want = x * table[z][1] / table[a][1] * base[t][1]
            else:
                t = rng.choice(['meters', 'feet'])
                text = '{} {} to {} {} / {}'.format(xt, z, a, a, t)
                want = x * table[z][1] / table[a][1] ** 2 * base[t][1]
            r = value_of(c, text, 'units')
            if frac(r.value) != want:
                raise Violation('a unit of an added derived dimension converts wrongly', program=text, got=show(c, r), expected=str(want))
        else:
            # format in the added system adds up, and uses only its units
            a = rng.choice(same)
            if x == 0:
                continue
            text = '{} {} < {} {}'.format(xt, a, dec_literal(x + 1), a)
            r = value_of(c, text, 'units') if 'boolean.booleans' in c.installed_features else None
            if r is not None and r.value is not True:
                raise Violation('quantities in added units compare wrongly', program=text, got=show(c, r))
            text = 'abs({} {}) / (1 {})'.format(xt, a, rng.choice(same))
            b = text.split()[-1].rstrip(')')
            r = value_of(c, text, 'units')
            if r.unit is not None or frac(r.value) != abs(x) * table[a][1] / table[b][1]:
                raise Violation('the ratio of quantities in added units is wrong', program=text, got=show(c, r), expected=str(abs(x) * table[a][1] / table[b][1]))
        mon.obs('units', (k, str(x), str(sorted(table)[:3])))
    for name in refused[:3]:
        if name not in table:
            expect_fail(c, '2 {} to {}'.format(name, stems[1]), 'the unit has no such prefix')
            mon.obs('units', (name, 'refused'))
    if rng.random() < .6:
        # a name that stands for different units in different systems: the preferred system decides
        class Amb(AmbiguousUnitDefinition):
            namelist = ['thingies', 'thingy']
            symbollist = []
        other = 'othersys'
        un.systems[other] = HostSystem()
        un.systems_preference.append(other)
        f = Fraction(rng.randint(2, 9))
        cls = type('V', (UnitDefinition,), {'namelist': ['othings', 'othing'], 'symbollist': [], 'unitscale': Number(f.numerator, f.denominator), 'systems': [other]})
        un.add_unit(dim, cls())
        un.add_ambiguous_unit(Amb(), [stems[1], 'othing'])
        for _ in range(3):
            rng.shuffle(un.systems_preference)
            first = un.systems_preference.index(system) < un.systems_preference.index(other)
            a = rng.choice(same)
            text = '6 thingies to {}'.format(a)
            want = 6 * (s1 if first else f) / table[a][1]
            r = value_of(c, text, 'units')
            if frac(r.value) != want:
                raise Violation('an ambiguous unit is not that of the preferred system', program=text, got=show(c, r), expected=str(want), preference=list(un.systems_preference))
            mon.obs('units', (text, str(want)))


# ---------------------------------------------------------------- feature files

FILE = '''from modularcalculator.features.feature import Feature, MetaFeature

class {cls}({base}):
    def id():
        return {id!r}
    def category():
        return 'Host'
    def title():
        return {id!r}
    def desc():
        return ''
    def dependencies():
        return {deps!r}
    def after():
        return {after!r}
{subs}
    @classmethod
    def install(cls, calculator):
        calculator.hostlog.append(({id!r}, sorted(calculator.installed_features)))
{body}
'''


def run_features(rng, mon):
    d = tempfile.mkdtemp(prefix='rv30-')
    path = list(sys.path)
    mods = []
    try:
        n = rng.randint(3, 8)
        ids = ['host.{}{}'.format(rng.choice('abcdefgh'), k) for k in range(n)]
        builtin = ['numerical.basicarithmetic', 'numerical.decimalnumbers', 'state.assignment', 'nonfunctional.space', 'strings.strings', 'structure.functions', 'boolean.booleans']
        info = {}
        tag = '{:x}'.format(rng.getrandbits(48))
        for k, fid in enumerate(ids):
            earlier = ids[:k]
            deps = rng.sample(earlier, min(len(earlier), rng.choice([0, 0, 1, 2]))) + rng.sample(builtin, rng.choice([0, 0, 1]))
            after = rng.sample(earlier, min(len(earlier), rng.choice([0, 1, 2])))
            subs = rng.sample(earlier, min(len(earlier), rng.choice([1, 2]))) if rng.random() < .2 and earlier else None
            rng.shuffle(deps)
            info[fid] = (deps, after, subs)
        # one to three features per file, each file in its own order
        order = list(ids)
        rng.shuffle(order)
        files, k = [], 0
        while k < len(order):
            m = rng.randint(1, 3)
            files.append(order[k:k + m])
            k += m
        c = ModularCalculator()
        c.hostlog = []
        samename = rng.random() < .3
        for k, members in enumerate(files):
            sub = os.path.join(d, 'p{}'.format(k))
            os.mkdir(sub)
            # host applications keep files of the same name in different folders
            mod = 'rvhost_{}_{}'.format(tag, 0 if samename else k)
            src = ''
            for fid in members:
                deps, after, subs = info[fid]
                meta = subs is not None
                src += FILE.format(cls='F' + fid.replace('.', '_'), base='MetaFeature' if meta else 'Feature', id=fid, deps=deps, after=after,
                                   subs='    def subfeatures():\n        return {!r}\n'.format(subs) if meta else '', body='        super().install(calculator)' if meta else '        pass')
            p = os.path.join(sub, mod + '.py')
            with open(p, 'w') as f:
                f.write(src)
            mods.append(mod)
            back = c.import_feature_file(p)
            if sorted(back) != sorted(members):
                raise Violation('importing a feature file does not report its features', got=back, expected=members)
        ask = rng.sample(ids, rng.randint(1, n))
        if rng.random() < .3:
            ask = ask + [rng.choice(ask)]
        if rng.random() < .5:
            ask += rng.sample(builtin, rng.randint(0, 3))
        how = rng.choice(['list', 'preset', 'skip'])
        if how == 'preset':
            c.preset_list['Mine'] = list(ask)
            c.load_preset('Mine')
            if 'Mine' in ModularCalculator().list_presets():
                raise Violation('a preset added to one calculator appears in another')
        elif how == 'skip':
            asked = list(ask)
            asked.insert(rng.randint(0, len(asked)), 'host.missing')
            c.install_features(asked, skipMissing=True)
        else:
            c.install_features(ask)
        need, todo = set(), list(ask)
        while todo:
            f = todo.pop()
            if f in need:
                continue
            need.add(f)
            if f in info:
                todo += info[f][0] + (info[f][2] or [])
        want = sorted(f for f in need if f in info)
        log = c.hostlog
        detail = {'asked': ask, 'features': info, 'log': [x for x, _ in log]}
        if sorted(x for x, _ in log) != want:
            raise Violation('added features are not installed exactly once each with their dependencies', expected=want, **detail)
        pos = {x: k for k, (x, _) in enumerate(log)}
        for f, have in log:
            deps, after, subs = info[f]
            for x in deps:
                if x not in have:
                    raise Violation('{} was installed before its dependency {}'.format(f, x), **detail)
            for x in after:
                if x in pos and pos[x] > pos[f]:
                    raise Violation('{} was installed before {}, which it is to follow'.format(f, x), **detail)
        for f in need:
            if f not in c.installed_features:
                raise Violation('{} is not listed as installed'.format(f), **detail)
        c.install_features(ask)
        if len(log) != len(want):
            raise Violation('installing again repeats an installation', **detail)
        try:
            ModularCalculator().install_features([ids[0]])
            raise Violation('a feature imported into one calculator is known to another', **detail)
        except CalculatorException:
            pass
        mon.obs('features', str(info))
    finally:
        sys.path[:] = path
        for m in mods:
            sys.modules.pop(m, None)
        if os.path.basename(d).startswith('rv30-'):
            shutil.rmtree(d, ignore_errors=True)


KINDS = {'function': (lambda r, m: run_op(r, m, False), 46), 'operator': (lambda r, m: run_op(r, m, True), 16), 'table': (run_table, 12), 'parser': (run_parsers, 6), 'constants': (run_constants, 5),
         'numtype': (run_number_type, 5), 'finalizers': (run_finalizers, 4), 'units': (run_units, 7), 'features': (run_features, 4)}


def gen(rng, i, tier):
    k = rng.choices(list(KINDS), weights=[w for _, w in KINDS.values()])[0]
    return {'kind': k, 'seed': rng.getrandbits(40)}


def run(case, mon):
    KINDS[case['kind']][0](random.Random(case['seed']), mon)
