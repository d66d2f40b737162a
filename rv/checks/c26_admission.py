"""C26: every operation admits exactly the argument counts, types and dimensions it documents."""
import random
from rv.core import Violation, Skip
from rv.lib import *
from rv.progs import quote

ID = 'C26'
TECHNIQUE = ('runtime monitor over calls around every documented signature: admissible calls must give a value; calls with one argument too few or too many, one argument of a wrong type or one '
             'quantity of a wrong dimension must fail with an execution error naming the operation, leave every variable as it was and give no value')
RULE = 'every documented function and operator x argument counts from 0 to maximum + 2 x each argument position x every value kind it does not document; random values; distinct by program text'
BUDGET = {'quick': 140000, 'thorough': 2000000}
NEED = {'admitted': 8000, 'count': 5000, 'type': 9000, 'dimension': 1500, 'operands': 3000, 'no effect': 10000, 'covered': 90}
ASSUMPTIONS = ['the signatures are those the functions and operators document (frozen in this file)', 'booleans and text that reads as a number count as numbers; every value counts as text']

UNSET = 'nosuchvar'


def num(r):
    k = r.random()
    if k < .4:
        return str(r.randint(-20, 30))
    if k < .7:
        return '{}.{}'.format(r.randint(0, 9), r.choice(['5', '25', '125', '01']))
    return r.choice(['0x1F', '0b101', '12%', '3E2', 'n', '(1 + 2)', 'abs(-3)', "'4'", 'true'])


def pos(r):
    return r.choice(['1', '2', '0.5', '10', '3.25', 'n', '(2 + 5)', "'7'", '0x1F'])


def nat(r):
    return r.choice(['1', '2', '3', '7', 'n', "'4'", '(1 + 2)', '0b101', '12'])


def unit1(r):
    return r.choice(['0', '1', '0.5', '-0.25', '-0.75', "'0.125'"])


def inner(r):
    return r.choice(['0', '0.5', '-0.25', '-0.75'])


def geone(r):
    return r.choice(['1', '1.5', '2', '30'])


def places(r):
    return r.choice(['0', '1', '2', '5', "'3'"])


def base(r):
    return str(r.choice([2, 3, 8, 10, 16, 36]))


def text(r):
    return r.choice([quote(x) for x in ('abc', 'Hello', 'a,b', 'x y', '12')] + ['t', 'n', '5', '2.5', 'true', "('a' +$ 'b')"])


def char(r):
    return quote(r.choice('abc,x'))


def pattern(r):
    return quote(r.choice(['a', '[a-c]+', '.', 'x*', '\\d', 'b$']))


def date(r):
    return r.choice([quote(x) for x in ('2020-01-31', '2024-02-29T12:00:00', '1999-12-31T23:59:59')] + ['d'])


def dur(r):
    return '{} {}'.format(r.choice([1, 2, 5, 30]), r.choice(['seconds', 'hours', 'days', 'minutes', 'ms']))


def durunit(r):
    return r.choice(['hours', 'seconds', 'days', 'minutes', 'ms'])


def qty(r):
    return '{} {}'.format(r.choice([1, 2, 5, 1.5, 100]), r.choice(['m', 'km', 'feet', 'inches']))


def anyqty(r):
    return '{} {}'.format(r.choice([1, 2, 5, 1.5, 100]), r.choice(['m', 'km', 'feet', 'seconds', 'hours', 'kg', 'km/hour', 'm^2', 'Celsius']))


def numqty(r):
    return num(r) if r.random() < .7 else qty(r)


def angle(r):
    return r.choice(['0', '1', '0.5', '-0.25', '45 degrees', '2 radians', 'n'])


def boolean(r):
    return r.choice(['true', 'false', 'b', '(1 < 2)', 'not b'])


def several(f, lo=1):
    return lambda r: '[{}]'.format(', '.join(f(r) for _ in range(r.randint(lo, 4))))


def anyarray(r):
    return r.choice([several(num), several(text), several(anyqty), several(boolean), lambda r: 'a', lambda r: '[1, \'x\', 5 m]'])(r)


def numarray(r):
    return r.choice([several(num), several(qty), lambda r: 'a'])(r)


def manynums(r):
    return several(num, 2)(r)


def index(r):
    return '1'


def variable(r):
    return r.choice(['v', 'w'])


def system(r):
    return r.choice(['si', 'us', 'uk'])


BASE = "n = 5\nt = 'text'\nd = '2020-06-15'\nb = true\na = [4, 5, 6]\nv = 11\nw = 12\nx = 'before'\n"
NAMES = ['n', 't', 'd', 'b', 'a', 'v', 'w', 'x']

# what is never admitted where the type is documented
WRONG = {
    'number': ['text', 'empty', 'date', 'unit', 'unset'],
    'string': ['unset'],
    'date': ['text', 'empty', 'number', 'boolean', 'unit', 'quantity', 'unset'],
    'boolean': ['number', 'text', 'true text', 'quantity', 'date', 'unset', 'unit'],
    'array': ['number', 'text', 'boolean', 'quantity', 'date', 'unset', 'unit'],
    'array[number]': ['number', 'text', 'boolean', 'quantity', 'date', 'unset', 'unit', 'array of text', 'array with text'],
    'array[string]': ['number', 'text', 'boolean', 'quantity', 'date', 'unset', 'unit'],
    'array[boolean]': ['number', 'text', 'boolean', 'quantity', 'unset', 'array of numbers', 'array with number', 'array of text'],
    'variable': ['number', 'text', 'boolean', 'quantity', 'date', 'expression'],
    'quantity': ['number', 'text', 'boolean', 'date', 'unset'],
    'unit': ['number', 'text', 'boolean', 'quantity', 'unset'],
    'unitsystem': ['number', 'text', 'boolean', 'quantity', 'unset', 'unit'],
    'time': ['text', 'empty', 'date', 'unit', 'unset', 'dim:'],
    'angle': ['text', 'empty', 'date', 'unit', 'unset', 'dim:angle'],
    'durunit': ['number', 'text', 'boolean', 'quantity', 'unset', 'dimunit'],
}


def spoilt(r, good, bad):
    """An array with one unsuitable element anywhere."""
    items = [good(r) for _ in range(r.randint(1, 7))]
    items.insert(r.randint(0, len(items)), bad)
    return '[{}]'.format(', '.join(items))


BADVAL = {
    'text': lambda r: quote(r.choice(['abc', 'x1', '--1', '1 2', '5 m', 'twelve', '1.2.3'])),
    'empty': lambda r: "''",
    'date': lambda r: quote(r.choice(['2020-01-31', '1999-12-31T23:59:59'])),
    'number': lambda r: r.choice(['0', '1', '5', '-2.5', '0x1F']),
    'boolean': lambda r: r.choice(['true', 'false']),
    'true text': lambda r: quote(r.choice(['true', 'false'])),
    'quantity': lambda r: r.choice(['5 m', '2 seconds', '3 kg']),
    'unit': lambda r: r.choice(['metres', 'seconds', 'km']),
    'unset': lambda r: UNSET,
    'expression': lambda r: r.choice(['(v + 1)', '[v]', 'abs(v)', "(v +$ w)"]),
    'array of text': lambda r: r.choice(["['a', 'b']", "['abc']", "['x', '', 'y']"]),
    'array with text': lambda r: r.choice(["[1, 'abc']", "['abc', 2, 3]", "[1, 2, '']"]) if r.random() < .3 else spoilt(r, num, quote(r.choice(['x', '', '1 2']))),
    'array of numbers': lambda r: r.choice(['[1, 0, 1]', '[1, 1]', '[0, 0, 1, 1]', '[1]']),
    'array with number': lambda r: r.choice(['[true, 1]', '[0, false, true]', "[true, 'true']"]) if r.random() < .3 else spoilt(r, boolean, r.choice(['0', '1', "'true'", '5 m', 'n'])),
    'dim:': lambda r: r.choice(['5', '5 m', '2 s^2', '3/s', '5 km/hour', '0', '2 m s']),
    'dim:angle': lambda r: r.choice(['5 m', '2 seconds', '1 kg', '3 m^2', '2 degrees^2', '1 degree/s']),
    'dimunit': lambda r: r.choice(['metres', 's^2', 'km/hour', 'kg']),
}

# name: (least, most, [(documented type, sample of admissible values)])
S = ('string', text)
FUNCTIONS = {
    'concat': (2, 2, [('array', anyarray), ('array', anyarray)]),
    'element': (2, 2, [('array', anyarray), ('number', index)]),
    'filter': (2, 2, [('array', lambda r: '[1, 2, 3]'), ('array[boolean]', lambda r: '[true, b, {}]'.format(boolean(r)))]),
    'count': (1, None, [('array', anyarray)]), 'sort': (1, None, [('array[number]', numarray)]), 'reverse': (1, None, [('array', anyarray)]),
    'dec': (1, 1, [('number', num)]), 'scientific': (1, 2, [('number', num), ('number', places)]), 'abs': (1, 1, [('number', numqty)]),
    'floor': (1, 2, [('number', numqty), ('number', places)]), 'ceil': (1, 2, [('number', numqty), ('number', places)]), 'round': (1, 2, [('number', numqty), ('number', places)]),
    'fact': (1, 1, [('number', nat)]), 'exp': (1, 1, [('number', num)]), 'log': (1, 2, [('number', pos), ('number', base)]), 'lcm': (2, 2, [('number', nat), ('number', nat)]), 'gcd': (2, 2, [('number', nat), ('number', nat)]),
    'asin': (1, 1, [('number', unit1)]), 'acos': (1, 1, [('number', unit1)]), 'atan': (1, 1, [('number', num)]), 'asinh': (1, 1, [('number', num)]), 'acosh': (1, 1, [('number', geone)]), 'atanh': (1, 1, [('number', inner)]),
    'reset': (0, 0, []), 'now': (0, 0, []), 'delete': (1, 1, [('variable', variable)]),
    'format': (1, 2, [('quantity', qty), ('unitsystem', system)]), 'compact': (1, 1, [('quantity', qty)]),
    'dateformat': (1, 1, [('date', date)]), 'dateadd': (2, 2, [('date', date), ('time', dur)]), 'datesubtract': (2, 2, [('date', date), ('time', dur)]), 'datedifference': (2, 3, [('date', date), ('date', date), ('durunit', durunit)]),
    'base': (2, 2, [('number', nat), ('number', base)]), 'bin': (1, 1, [('number', nat)]), 'hex': (1, 1, [('number', nat)]), 'oct': (1, 1, [('number', nat)]),
    'regexget': (2, 3, [S, ('string', lambda r: quote(r.choice(['.', '[^,]', '.+']))), ('number', index)]), 'regexsplit': (2, 2, [S, ('string', pattern)]), 'regexsub': (3, 4, [S, ('string', pattern), S, ('number', index)]), 'regexcount': (2, 2, [S, ('string', pattern)]),
    'split': (2, 2, [S, ('string', char)]), 'join': (1, 2, [('array[string]', anyarray), ('string', char)]), 'length': (1, 1, [S]), 'lower': (1, 1, [S]), 'upper': (1, 1, [S]),
    'lstrip': (2, 2, [S, ('string', char)]), 'rstrip': (2, 2, [S, ('string', char)]), 'strip': (2, 2, [S, ('string', char)]), 'find': (2, 2, [S, S]), 'replace': (3, 3, [S, ('string', char), S]), 'substr': (2, 3, [S, ('number', index), ('number', index)]),
    'sp_gamma': (1, 1, [('number', pos)]), 'sp_beta': (2, 2, [('number', pos), ('number', pos)]), 'sp_elliprf': (3, 3, [('number', pos), ('number', pos), ('number', pos)]), 'sp_kn': (2, 2, [('number', nat), ('number', pos)]),
}
for _n in ('sum', 'min', 'max', 'mean', 'median', 'mode', 'stdev'):
    FUNCTIONS[_n] = (1, None, [('array[number]', manynums if _n == 'stdev' else numarray)])
for _n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
    FUNCTIONS[_n] = (1, 1, [('angle', angle)])

# name: (template, [(documented type, sample)])
N, L, T = ('number', num), ('length', qty), ('string', text)
OPS = []
for _o in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!='):
    OPS.append((_o, '{} ' + _o + ' {}', [N, N]))
for _o in ('/', '%', '\\'):
    OPS.append((_o, '{} ' + _o + ' {}', [N, ('number', pos)]))
for _o in ('&', '|', '^^', '<<', '>>'):
    OPS.append((_o, '{} ' + _o + ' {}', [('number', nat), ('number', nat)]))
for _o in ('+', '-', '<', '>', '<=', '>=', '==', '!='):
    OPS.append((_o, '{} ' + _o + ' {}', [('length', qty), ('length', qty)]))
for _o in ('<', '>', '<=', '>=', '==', '!='):
    for _v in '$~':
        OPS.append((_o + _v, '{} ' + _o + _v + ' {}', [T, T]))
OPS += [('+$', '{} +$ {}', [T, T]), ('*$', '{} *$ {}', [T, ('number', nat)]), ('^', '{} ^ {}', [('number', pos), ('number', nat)]), ('~', '~{}', [('number', nat)]),
        ('=~', '{} =~ {}', [T, ('string', pattern)]), ('!~', '{} !~ {}', [T, ('string', pattern)]),
        ('+%', '{} +% {}', [('date', date), ('time', dur)]), ('-%', '{} -% {}', [('date', date), ('time', dur)]),
        ('not', 'not {}', [('boolean', boolean)]), ('and', '{} and {}', [('boolean', boolean), ('boolean', boolean)]), ('or', '{} or {}', [('boolean', boolean), ('boolean', boolean)]),
        ('xor', '{} xor {}', [('boolean', boolean), ('boolean', boolean)]), ('then', '{} then {} else {}', [('boolean', boolean), ('any', text), ('any', text)]),
        ('to', '{} to {}', [('quantity', qty), ('lengthunit', lambda r: r.choice(['m', 'cm', 'miles', 'feet']))]),
        ('as', '{} as {}', [('number', nat), ('representation', lambda r: r.choice(['decimal', 'hexadecimal', 'binary', 'octal', 'percentage', 'scientific']))])]
for _o in ('+=', '-=', '*=', '/=', '%=', '^='):
    OPS.append((_o, '{} ' + _o + ' {}', [('variable', variable), ('number', pos)]))
for _o in ('++', '--'):
    OPS.append((_o, '{}' + _o, [('variable', variable)]))
WRONG['length'] = ['text', 'empty', 'date', 'unit', 'unset', 'otherdim']
BADVAL['otherdim'] = lambda r: r.choice(['5', '0', '2 seconds', '3 kg', '1 m^2', '2 km/hour', '1/m', '5 radians'])
WRONG['lengthunit'] = ['number', 'text', 'quantity', 'unset', 'boolean', 'otherunit']
BADVAL['otherunit'] = lambda r: r.choice(['seconds', 'kg', 'm^2', 'km/hour', 's^2'])
WRONG['representation'] = ['number', 'text', 'unit', 'unset', 'quantity', 'boolean']
WRONG['any'] = []
# plain numbers and quantities do not mix in these; the exponent of a power is never a quantity
MIXED = {'gcd', 'lcm', 'log', 'base', 'sp_beta', '+', '-', '<', '>', '<=', '>=', '==', '!=', '%', '\\', '&', '|', '^^', '<<', '>>', '^', '+=', '-=', '%=', '^='}
BADVAL['mixed'] = lambda r: r.choice(['(5 m)', '(2 seconds)', '(3 kg)', '(1 km/hour)', '(2 / s)'])
DIMS = ('dim:', 'dim:angle', 'dimunit', 'otherdim', 'otherunit', 'mixed')

FNAMES = sorted(FUNCTIONS)


HELD = {'text': 't', 'date': 'd', 'boolean': 'b', 'number': 'n'}


def wrong(rng, ptype, kinds=None, mixed=False):
    kinds = kinds or WRONG[ptype]
    if mixed and ptype == 'number' and rng.random() < .3:
        return 'mixed', BADVAL['mixed'](rng)
    dims = [k for k in kinds if k in DIMS]
    kind = rng.choice(dims) if dims and rng.random() < .55 else rng.choice(kinds)
    if kind in HELD and ptype != 'variable' and rng.random() < .2:
        return kind, HELD[kind]
    return kind, BADVAL[kind](rng)


def gen(rng, i, tier):
    r = rng.random()
    if r < .6:
        f = FNAMES[i % len(FNAMES)]
        lo, hi, params = FUNCTIONS[f]
        q = rng.random()
        many = hi is None
        top = 1 if many else hi
        n = rng.randint(lo, top)
        args = [params[k][1](rng) for k in range(n)]
        if q < .3:
            return {'k': 'good', 'f': f, 't': '{}({})'.format(f, ', '.join(args))}
        if q < .55 or not params:
            n = rng.choice([x for x in range(0, top + 3) if x < lo or (x > top and not many)] or [0])
            args = [params[min(k, len(params) - 1)][1](rng) if params else rng.choice(['1', "'a'", 'v']) for k in range(n)]
            return {'k': 'count', 'f': f, 't': '{}({})'.format(f, ', '.join(args)), 'n': n}
        if many and rng.random() < .4 and params[0][0] == 'array[number]':
            # the values given one by one
            n = rng.randint(2, 4)
            args = [num(rng) for _ in range(n)]
            if q < .65:
                return {'k': 'good', 'f': f, 't': '{}({})'.format(f, ', '.join(args))}
            kind, args[rng.randrange(n)] = wrong(rng, 'number')
            return {'k': 'type', 'f': f, 't': '{}({})'.format(f, ', '.join(args)), 'kind': kind}
        k = rng.randrange(n)
        kind, args[k] = wrong(rng, params[k][0], None, f in MIXED and n > 1)
        return {'k': 'type', 'f': f, 't': '{}({})'.format(f, ', '.join(args)), 'kind': kind}
    o, t, params = OPS[i % len(OPS)]
    args = [p[1](rng) for p in params]
    q = rng.random()
    if q < .35:
        return {'k': 'good', 'f': o, 't': t.format(*args), 'op': 1}
    if q < .45:
        # an operand is missing
        parts = t.split('{}')
        k = rng.randrange(len(params))
        args[k] = ''
        if o in ('-', '~', 'not', '++', '--', '+') or (o in ('*', '/', '%', '\\', '<', '>') and k == 0) or (o == 'then' and k == 0):
            k = len(args) - 1
            args = [p[1](rng) for p in params]
            args[k] = ''
        return {'k': 'missing', 'f': o, 't': t.format(*args), 'op': 1}
    k = rng.randrange(len(params))
    kinds = WRONG[params[k][0]]
    if o in ('*', '/', '^'):
        kinds = [x for x in kinds if x != 'unit']
    if not kinds:
        return {'k': 'good', 'f': o, 't': t.format(*args), 'op': 1}
    kind, args[k] = wrong(rng, params[k][0], kinds, o in MIXED and (o[0] != '^' or o == '^^' or k == 1))
    return {'k': 'type', 'f': o, 't': t.format(*args), 'kind': kind, 'op': 1}


def run(case, mon):
    reset_context()
    c = shared_calc(simplify=False)
    start(c)
    t, f = case['t'], case['f']
    seen = mon.__dict__.setdefault('seen_ops', set())
    if case['k'] == 'good':
        o = calc(c, 'y = ' + t if case.get('op') is None and f not in ('delete', 'reset') else t)
        if not o.ok:
            raise Violation('{!r} is an admissible use of {} but is rejected'.format(t, f), outcome=o.describe(c))
        r = o.last()
        if f not in ('delete', 'reset') and (r is None or r.value is None or has_error(r.value)):
            raise Violation('{!r} is an admissible use of {} but gives no value'.format(t, f), outcome=o.describe(c))
        mon.obs('admitted', t)
        if f not in seen:
            seen.add(f)
            mon.obs('covered')
        return
    before = vars_plain(c)
    whole = 'x = (' + t + ')' if case.get('op') and f not in ('++', '--') and not f.endswith('=') or f in ('<=', '>=', '==', '!=') else t if case.get('op') else 'x = ' + t
    if case['k'] == 'missing':
        whole = t
    o = calc(c, whole)
    mon.obs({'count': 'count', 'missing': 'operands', 'type': 'dimension' if case.get('kind') in DIMS else 'type'}[case['k']], t)
    if not o.failed:
        r = o.last()
        # a call broadcast over an array fails element by element
        if o.ok and r is not None and isinstance(r.value, list) and r.value and all(has_error(x.value) for x in r.value):
            return
        raise Violation('{!r} is not an admissible use of {} ({}) but is accepted'.format(t, f, case.get('kind') or case['k']), got=o.describe(c))
    if o.kind == 'exec' and case['k'] != 'missing' and (f[:-1] if case.get('kind') == 'mixed' and len(f) == 2 and f[1] == '=' and f[0] not in '<>=!' else f) not in (o.message or ''):
        raise Violation('{!r} is rejected without naming {}'.format(t, f), message=o.message)
    if o.kind == 'parse' and case['k'] == 'type':
        raise Violation('{!r} is rejected by a parsing error'.format(t, f), message=o.message)
    if any(x.has_result() for x in o.results):
        raise Violation('{!r} is rejected but gives a value'.format(t), got=o.describe(c))
    after = vars_plain(c)
    mon.obs('no effect')
    if after != before:
        raise Violation('{!r} is rejected but changed the variables'.format(t), before=str({k: v for k, v in before.items() if after.get(k) != v}), after=str({k: v for k, v in after.items() if before.get(k) != v}))


_START = {}


def start(c):
    c.vars.clear()
    if id(c) not in _START:
        c.calculate(BASE)
        _START[id(c)] = dict(c.vars)
    for k, (v, u) in _START[id(c)].items():
        c.vars[k] = (list(v) if isinstance(v, list) else v, u)


def has_error(v):
    if isinstance(v, Exception):
        return True
    return isinstance(v, list) and any(has_error(x.value) for x in v)
