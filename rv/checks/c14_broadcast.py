"""C14: scalar operations on arrays act element by element."""
from rv import sigs
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C14'
TECHNIQUE = ('runtime monitor: array results of every scalar operator and function compared, element by element, with the calculator\'s own result for the scalar '
             'expression of that position (differential oracle over index substitution)')
RULE = ('random compositions of all operators and scalar functions over scalars, arrays, nested and empty arrays, literal or held in variables, with failing elements '
        'and length mismatches; aggregate functions with several arguments; distinct by text')
BUDGET = {'quick': 36000, 'thorough': 200000}
NEED = {'array': 4000, 'element': 13000, 'error_element': 1500, 'mismatch': 240, 'nested': 800, 'aggregate': 520, 'positional': 700, 'long': 60}
ASSUMPTIONS = ['what each operation gives on scalars is decided by the other properties', 'an array given to an aggregate that fails at one position is not specified']


class Mismatch(Exception):
    pass


class Fail(Exception):
    pass


class Lazy(Exception):
    pass


LAZY = {o[0] for o in sigs.LAZY}


def g_el(rng, kind):
    if rng.random() < .1:
        return rng.choice(sigs.BAD)
    return sigs.SAMPLE[kind](rng)


def g_shape(rng, d=0):
    """a shape: None = scalar, list of shapes"""
    n = rng.choice([1, 2, 2, 3, 3, 4])
    if d == 0 and rng.random() < .012:
        return [None] * rng.randint(12, 120)
    return [g_shape(rng, d + 1) if d < 2 and rng.random() < .12 else None for _ in range(n)]


def fill(rng, shape, kind, p):
    """leaf of at most this shape; p = chance that it is kept at every level"""
    if shape is None or rng.random() > p:
        return g_el(rng, kind)
    return [fill(rng, s, kind, .9) for s in shape]


def g_tree(rng, shape, kind, d, mism):
    c = []
    if d > 0 and rng.random() < .35:
        ops = [o for o in sigs.SCALAR_OPS if result_kind(o) == kind or kind == 'any']
        if ops:
            o = rng.choice(ops)
            return ['o', o[0], o[1], [g_tree(rng, shape, k, d - 1, mism) for k in o[2]]]
    if rng.random() < mism and shape:
        shape = shape + [None] if rng.random() < .5 or len(shape) < 2 else shape[:-1]
    return ['l', fill(rng, shape, kind, .7)]


RESULT = {'num': 'numu', 'numu': 'numu'}


def result_kind(o):
    n = o[0]
    if n in ('+', '-', '*', '/', '^', 'abs', 'floor', 'ceil', 'round', 'UNIT_ASSIGNMENT'):
        return 'numu'
    if n in ('%', '\\', 'gcd', 'fact', 'as', 'length', 'find', 'regexcount'):
        return 'num'
    if n in ('&', '|', '^^', '<<', '>>'):
        return 'int'
    if n in ('=~', '!~', 'not', 'and', 'or', 'xor') or n[0] in '<>=!':
        return 'bool'
    if n in ('+$', '*$', 'lower', 'upper', 'replace', 'strip', 'substr', 'regexsub', 'join'):
        return 'str'
    if n in ('+%', '-%', 'dateadd'):
        return 'date'
    if n == 'to':
        return 'len'
    return None


def gen(rng, i, tier):
    if rng.random() < .25:
        f = rng.choice(sigs.AGGREGATES)
        kind = rng.choice(['num', 'num', 'len', 'dur', 'numu'])
        n = rng.randint(2, 4)
        m = rng.choice([1, 2, 3])
        if rng.random() < .02:
            n, m = rng.choice([(2, rng.randint(20, 80)), (rng.randint(5, 30), 2)])
        args = []
        for _ in range(n):
            if rng.random() < .4:
                args.append([g_el(rng, kind) for _ in range(m if rng.random() > .06 else m + 1)])
            else:
                args.append(g_el(rng, kind))
        return {'agg': f, 'args': args}
    o = rng.choice(sigs.SCALAR_OPS)
    shape = g_shape(rng)
    mism = .25 if rng.random() < .12 else 0
    t = ['o', o[0], o[1], [g_tree(rng, shape, k, 2, mism) for k in o[2]]]
    case = {'tree': t, 'held': rng.random() < .3}
    if rng.random() < .05:
        case['empty'] = rng.randrange(9)
    return case


def leaf_text(v):
    if isinstance(v, list):
        return '[' + ', '.join(leaf_text(x) for x in v) + ']' if v else 'filter([1], [false])'
    return v


def atom(t):
    return t if t.replace('.', '').isalnum() else '(' + t + ')'


def build(t, held):
    """text of the array expression; leaves may be kept in variables"""
    if t[0] == 'l':
        v = t[1]
        if isinstance(v, list):
            if held is not None:
                held.append(leaf_text(v))
                return 'held{}'.format(len(held))
            return leaf_text(v)
        return atom(v)
    args = [build(x, held) for x in t[3]]
    if t[2].find('(') < 0 or t[1] in LAZY:
        args = [a if x[0] == 'l' else '(' + a + ')' for a, x in zip(args, t[3])]
    return t[2].format(*args)


def lists(args):
    return [a for a in args if isinstance(a, list)]


def apply(c, tmpl, args, top, lazy):
    ls = lists(args)
    if not ls:
        text = tmpl.format(*[atom(a) for a in args])
        return text
    if len({len(x) for x in ls}) > 1:
        raise Mismatch()
    out = []
    for k in range(len(ls[0])):
        row = [a[k] if isinstance(a, list) else a for a in args]
        if any(r is ERR for r in row) and not lazy:
            out.append(ERR)
            continue
        try:
            out.append(apply(c, tmpl, row, False, lazy))
        except Mismatch:
            out.append(ERR)
    return out


class _Err:
    pass


ERR = _Err()


def model(c, t):
    if t[0] == 'l':
        return t[1]
    args = [model(c, x) for x in t[3]]
    lazy = t[1] in LAZY
    if lazy and has_err(args):
        raise Lazy()
    for a, x in zip(args, t[3]):
        if x[0] == 'o' and not isinstance(a, list):
            o = calc(c, a)
            if not o.ok:
                raise Lazy() if lazy else Fail()
            if isinstance(o.last().value, list):
                raise Lazy()
    return apply(c, t[2], args, True, lazy)


def has_err(v):
    if isinstance(v, list):
        return any(has_err(x) for x in v)
    return v is ERR


def contains_lazy(t):
    return t[0] == 'o' and (t[1] in LAZY or any(contains_lazy(x) for x in t[3]))


def depth(v):
    return 1 + max([depth(x) for x in v] or [0]) if isinstance(v, list) else 0


def compare(c, text, want, value, unit, mon, path):
    if isinstance(want, list):
        if not isinstance(value, list):
            raise Violation('{!r}: expected an array of {} elements{}'.format(text, len(want), path), got=show1(c, value, unit))
        if len(value) != len(want):
            raise Violation('{!r}: wrong number of elements{}'.format(text, path), got=len(value), expected=len(want))
        for k, (w, x) in enumerate(zip(want, value)):
            compare(c, text, w, x.value, x.unit, mon, '{} element {}'.format(path, k + 1))
        return
    got = plain(c, value, unit, True)
    if want is ERR:
        exp = ('error',)
        src = None
    else:
        o = calc(c, want)
        src = want
        exp = plain_result(c, o.last(), True) if o.ok else ('error',)
    mon.obs('error_element' if exp == ('error',) else 'element', (text, path))
    if want is not ERR and not o.ok and isinstance(value, Exception) and 'to boolean' not in value.message:
        mon.obs('error_message')
        if value.message != o.message:
            raise Violation('{!r}:{} has another error than the operation on those values'.format(text, path), scalar=src, got=value.message, expected=o.message)
    if got != exp:
        raise Violation('{!r}:{} differs from what the operation gives on those values'.format(text, path), scalar=src, got=str(got), expected=str(exp))


def show1(c, v, u):
    return str(plain(c, v, u, True))


def run(case, mon):
    c = shared_calc()
    set_vars(c)
    if 'agg' in case:
        return run_agg(c, case, mon)
    t = case['tree']
    if 'empty' in case:
        t = with_empty(t, case['empty'])
    held = [] if case['held'] else None
    text = build(t, held)
    lazy = contains_lazy(t)
    try:
        want = model(c, t)
        bad = None
    except Mismatch:
        bad = 'arrays of different lengths'
    except Fail:
        bad = 'one of its scalar operands fails'
    except Lazy:
        raise Skip('failing operand of a lazy operator')
    if held:
        for k, h in enumerate(held):
            o = calc(c, 'held{} = {}'.format(k + 1, h))
            if not o.ok:
                raise Skip('an array literal fails')
    elif not literals_ok(c, t):
        raise Skip('an array literal fails')
    before = vars_plain(c)
    o = calc(c, text)
    if vars_plain(c) != before:
        raise Violation('{!r} altered an array it only reads'.format(text))
    if bad:
        if lazy:
            raise Skip('failing operand of a lazy operator')
        mon.obs('mismatch', text)
        # an operand that fails as a whole may also be an error in every position
        if not o.failed and not (operand_bad(c, t) and all_errors(o.last().value)):
            raise Violation('{!r} should be rejected: {}'.format(text, bad), got=o.describe(c))
        return
    if not isinstance(want, list):
        raise Skip('no array')
    if not o.ok:
        raise Violation('{!r} fails as a whole instead of element by element'.format(text), outcome=o.describe(c), held=str(held))
    r = o.last()
    compare(c, text if not held else '{} with held = {}'.format(text, held), want, r.value, r.unit, mon, '')
    if r.unit is not None:
        raise Violation('{!r}: the array itself was given a unit'.format(text), got=unit_key(r.unit))
    mon.obs('array', text)
    if len(want) > 10:
        mon.obs('long', text)
    if depth(want) > 1:
        mon.obs('nested')


def all_errors(v):
    if isinstance(v, list):
        return all(all_errors(x.value) for x in v)
    return isinstance(v, Exception)


def operand_bad(c, t):
    """does one of the operands, rather than the outermost operation itself, fail as a whole?"""
    for x in t[3]:
        try:
            if x[0] == 'o':
                model(c, x)
                if not calc(c, build(x, None)).ok:
                    return True
        except (Mismatch, Fail):
            return True
    return False


def literals_ok(c, t):
    if t[0] == 'l':
        return not isinstance(t[1], list) or calc(c, leaf_text(t[1])).ok
    return all(literals_ok(c, x) for x in t[3])


def with_empty(t, n):
    leaves = []

    def walk(x):
        if x[0] == 'l':
            leaves.append(x)
        else:
            for y in x[3]:
                walk(y)
    import copy
    t = copy.deepcopy(t)
    walk(t)
    for x in leaves:
        if isinstance(x[1], list):
            x[1] = []
    return t


def run_agg(c, case, mon):
    f, args = case['agg'], case['args']
    texts = [leaf_text(a) if isinstance(a, list) else a for a in args]
    text = '{}({})'.format(f, ', '.join(texts))
    ls = lists(args)
    o = calc(c, text)
    if not ls:
        ref = '{}([{}])'.format(f, ', '.join(texts))
        p = calc(c, ref)
        mon.obs('aggregate', text)
        if plain_out(c, o, True)[:2] != plain_out(c, p, True)[:2]:
            raise Violation('{!r} differs from {!r}'.format(text, ref), got=o.describe(c), expected=p.describe(c))
        return
    if len({len(x) for x in ls}) > 1:
        mon.obs('mismatch', text)
        if not o.failed:
            raise Violation('{!r} should be rejected: arrays of different lengths'.format(text), got=o.describe(c))
        return
    outs = []
    for k in range(len(ls[0])):
        row = [a[k] if isinstance(a, list) else a for a in args]
        p = calc(c, '{}([{}])'.format(f, ', '.join(row)))
        if not p.ok:
            raise Skip('an aggregate fails at one position')
        outs.append(p.last())
    if not o.ok:
        raise Violation('{!r} fails although every position can be aggregated'.format(text), outcome=o.describe(c))
    v = o.last().value
    want = [plain_result(c, x, True) for x in outs]
    got = [plain_result(c, x, True) for x in v] if isinstance(v, list) else show(c, o.last())
    mon.obs('positional', text)
    if got != want:
        raise Violation('{!r} does not aggregate position by position'.format(text), got=str(got), expected=str(want))


def shrink(case):
    if 'agg' in case:
        a = case['args']
        for i in range(len(a)):
            if len(a) > 2:
                yield dict(case, args=a[:i] + a[i + 1:])
        return
    t = case['tree']
    for k, x in enumerate(t[3]):
        if x[0] == 'o':
            yield dict(case, tree=x)
            for y in x[3]:
                yield dict(case, tree=t[:3] + [t[3][:k] + [y] + t[3][k + 1:]])
        elif isinstance(x[1], list) and len(x[1]) > 1:
            for j in range(len(x[1])):
                yield dict(case, tree=t[:3] + [[['l', y[1][:j] + y[1][j + 1:]] if y[0] == 'l' and isinstance(y[1], list) and len(y[1]) > j else y for y in t[3]]])
    if case['held']:
        yield dict(case, held=False)
