"""Documented signatures of the operators and functions of the Computing preset, with sample arguments of every kind."""
from rv.progs import quote


def s_num(r):
    k = r.random()
    if k < .45:
        return str(r.randint(-20, 30))
    if k < .65:
        return '{}.{}'.format(r.randint(-9, 9), r.choice(['5', '25', '125', '1', '01']))
    if k < .72:
        return '{}%'.format(r.randint(0, 200))
    if k < .8:
        return r.choice(['0x{:X}', '0b{:b}', '0o{:o}']).format(r.randint(0, 99))
    if k < .86:
        return '{}E{}'.format(r.randint(1, 9), r.randint(-3, 4))
    if k < .92:
        return "'{}'".format(r.randint(-5, 12))
    if k < .96:
        return 'pi'
    return '(1 / 3)'


def s_int(r):
    return str(r.randint(0, 12)) if r.random() < .7 else r.choice(['0x{:X}', '0b{:b}', "'{}'", '0o{:o}']).format(r.randint(0, 40))


def s_sint(r):
    return str(r.choice([0, 1, 2, 3, -1, -2, 1, 2]))


def s_idx(r):
    return str(r.randint(1, 3))


def s_unitnum(r):
    return '{} {}'.format(r.choice([1, 2, 5, 1.5, 100, -3]), r.choice(['metres', 'km', 'feet', 'inches', 'seconds', 'hours', 'grams', 'kg', 'km/hour', 'Celsius']))


def s_len(r):
    return '{} {}'.format(r.choice([1, 2, 5, 1.5, 100, -3]), r.choice(['metres', 'km', 'feet', 'inches', 'miles']))


def s_dur(r):
    return '{} {}'.format(r.choice([1, 2, 5, 30, 90]), r.choice(['seconds', 'hours', 'days', 'minutes', 'weeks']))


def s_numu(r):
    return s_num(r) if r.random() < .7 else s_unitnum(r)


def s_str(r):
    return quote(r.choice(['abc', 'Hello', '', 'a,b,c', 'x', 'XyZ', 'aab', ' pad ', '12', '\u00e9\u00f1', 'bab', 'a b']))


def s_ch(r):
    return quote(r.choice([',', 'a', 'b', ' ', 'x', 'ab', 'c']))


def s_pat(r):
    return quote(r.choice(['a', '[a-c]+', 'b$', '^a', '.', '(a|b)', 'x*', '\\d', ',']))


def s_bool(r):
    return r.choice(['true', 'false'])


def s_date(r):
    return quote(r.choice(['2020-01-31', '2024-02-29T12:00:00', '1999-12-31T23:59:59', '2021-06-15', '2000-01-01']))


def s_any(r):
    return r.choice([s_num, s_str, s_bool, s_unitnum])(r)


def s_angle(r):
    return r.choice(['0', '1', '0.5', '-2', '45 degrees', '2 radians', '30 degrees', 'pi'])


def s_unit1(r):
    return r.choice(['0', '1', '0.5', '-0.25', '-1', '0.75'])


def s_pos(r):
    return r.choice(['1', '2', '0.5', '10', '3.25', '7'])


def s_base(r):
    return str(r.choice([2, 3, 8, 10, 16, 36]))


def s_fact(r):
    return str(r.randint(0, 20))


SAMPLE = {k[2:]: v for k, v in list(globals().items()) if k.startswith('s_')}

# values of the wrong kind for most operations
BAD = ["'abc'", '5 seconds', 'true', '0', "''", '3 kg', "'2020-01-01'", '-1', '2.5']

# operators that expect scalars: (name, template, kinds of the operands)
OPERATORS = [
    ('+', '{} + {}', ['numu', 'numu']), ('-', '{} - {}', ['numu', 'numu']), ('*', '{} * {}', ['numu', 'numu']), ('/', '{} / {}', ['numu', 'numu']),
    ('%', '{} % {}', ['num', 'num']), ('\\', '{} \\ {}', ['num', 'num']), ('^', '{} ^ {}', ['numu', 'sint']),
    ('not', 'not {}', ['bool']), ('~', '~{}', ['int']), ('=~', '{} =~ {}', ['str', 'pat']), ('!~', '{} !~ {}', ['str', 'pat']),
    ('UNIT_ASSIGNMENT', '{} metres', ['num']), ('UNIT_ASSIGNMENT', '{} km/hour', ['num']), ('*$', '{} *$ {}', ['str', 'idx']),
    ('+$', '{} +$ {}', ['str', 'str']), ('+%', '{} +% {}', ['date', 'dur']), ('-%', '{} -% {}', ['date', 'dur']),
    ('<<', '{} << {}', ['int', 'idx']), ('>>', '{} >> {}', ['int', 'idx']), ('&', '{} & {}', ['int', 'int']), ('|', '{} | {}', ['int', 'int']),
    ('^^', '{} ^^ {}', ['int', 'int'])]
OPERATORS += [(o, '{} ' + o + ' {}', ['numu', 'numu']) for o in ('<', '>', '<=', '>=', '==', '!=')]
OPERATORS += [(o + v, '{} ' + o + v + ' {}', ['str', 'str']) for o in ('<', '>', '<=', '>=', '==', '!=') for v in '$~']
LAZY = [(o, '{} ' + o + ' {}', ['bool', 'bool']) for o in ('and', 'or', 'xor')] + [('then', '{} then {} else {}', ['bool', 'any', 'any'])]
OPERATORS += LAZY
OPERATORS += [('as', '{} as ' + t, ['int']) for t in ('decimal', 'hexadecimal', 'binary', 'octal', 'percentage', 'scientific')]
OPERATORS += [('to', '{} to ' + t, ['len']) for t in ('metres', 'km', 'miles')]

# functions that expect scalars: (name, template, kinds of the arguments that are not arrays)
FUNCTIONS = [(n, n + '({})', ['numu']) for n in ('abs', 'floor', 'ceil', 'round')]
FUNCTIONS += [(n, n + '({})', ['int']) for n in ('bin', 'oct', 'hex', 'dec')]
FUNCTIONS += [(n, n + '({})', ['angle']) for n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh')]
FUNCTIONS += [(n, n + '({})', ['unit1']) for n in ('asin', 'acos', 'atan', 'asinh', 'atanh')]
FUNCTIONS += [('acosh', 'acosh({})', ['pos']), ('exp', 'exp({})', ['unit1']), ('log', 'log({})', ['pos']), ('log', 'log({}, {})', ['pos', 'base']),
              ('fact', 'fact({})', ['fact']), ('lcm', 'lcm({}, {})', ['fact', 'fact']), ('gcd', 'gcd({}, {})', ['fact', 'fact']),
              ('base', 'base({}, {})', ['int', 'base']), ('scientific', 'scientific({})', ['num']), ('scientific', 'scientific({}, {})', ['num', 'idx']),
              ('floor', 'floor({}, {})', ['numu', 'sint']), ('ceil', 'ceil({}, {})', ['numu', 'sint']), ('round', 'round({}, {})', ['numu', 'sint']),
              ('compact', 'compact({})', ['len']), ('format', 'format({})', ['unitnum']), ('element', 'element([5, 6 metres, \'x\'], {})', ['idx']),
              ('dateadd', 'dateadd({}, {})', ['date', 'dur']), ('datesubtract', 'datesubtract({}, {})', ['date', 'dur']),
              ('datedifference', 'datedifference({}, {})', ['date', 'date']), ('datedifference', 'datedifference({}, {}, hours)', ['date', 'date']),
              ('dateformat', 'dateformat({})', ['date']),
              ('length', 'length({})', ['str']), ('lower', 'lower({})', ['str']), ('upper', 'upper({})', ['str']),
              ('find', 'find({}, {})', ['str', 'ch']), ('split', 'split({}, {})', ['str', 'ch']), ('strip', 'strip({}, {})', ['str', 'ch']),
              ('lstrip', 'lstrip({}, {})', ['str', 'ch']), ('rstrip', 'rstrip({}, {})', ['str', 'ch']), ('replace', 'replace({}, {}, {})', ['str', 'ch', 'str']),
              ('substr', 'substr({}, {}, {})', ['str', 'idx', 'idx']), ('substr', 'substr({}, {})', ['str', 'idx']), ('join', "join(['a', 'b', 'c'], {})", ['ch']),
              ('regexcount', 'regexcount({}, {})', ['str', 'pat']), ('regexsplit', 'regexsplit({}, {})', ['str', 'pat']),
              ('regexget', 'regexget({}, {})', ['str', 'pat']), ('regexsub', 'regexsub({}, {}, {})', ['str', 'pat', 'str']),
              ('sp_gamma', 'sp_gamma({})', ['pos']), ('sp_ndtr', 'sp_ndtr({})', ['unit1']), ('sp_beta', 'sp_beta({}, {})', ['pos', 'pos'])]

SCALAR_OPS = OPERATORS + FUNCTIONS

# functions that aggregate one array
AGGREGATES = ['sum', 'min', 'max', 'mean', 'median', 'mode', 'stdev', 'count']
