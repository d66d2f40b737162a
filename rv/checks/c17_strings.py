"""C17: string literals and string functions against a character-sequence model."""
import random
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C17'
TECHNIQUE = ('runtime monitor: generated trees of string operations over arbitrary text (escapes, line breaks, comment and terminator characters, non-ASCII, '
             'numbers used as text, arrays of strings) judged by a character-sequence reference model; literal round trip and split/join inversion laws')
RULE = ('random typed trees of depth 1-5 over random and structured text, operands written as escaped literals, numbers, variables or array elements; '
        'distinct by program text')
BUDGET = {'quick': 120000, 'thorough': 1200000}
NEED = {'tree': 15000, 'literal': 5000, 'inverse': 3000, 'array': 3000, 'reject': 500}
ASSUMPTIONS = ['upper/lower case mapping of single texts is taken from the Unicode tables of the Python runtime']

ALPHA = list('abcABC012 ') * 3 + list(",;:.#'\\\"()[]{}+-*/%^&|<>=!~@_$?\t\n\r") + list('äßÉñĳłЖжΣσς中文日本🙂é\u0301\u00a0\u2028İıﬀ')
WORDS = ['', 'a', 'ab', 'aa', 'aaa', 'abab', ', ', ' ', '  ', "'", '\\', "\\'", '# no comment', 'a;b', 'x = 1', 'true', '5', '1.50', '007', '0x1F', '12%', '1 m', 'null', 'to', '\n', 'a\nb', '[1,2]', "it's", 'Straße', 'NaN', '2020-01-02']
NUMS = ['0', '7', '42', '1.5', '-3', '-0.25', '100', '1000000', '0xFF', '0b101', '50%', '1/3', '2E3', '3z2101', '10.00', '0o17']


def g_text(rng, short=False):
    r = rng.random()
    if r < .3:
        return rng.choice(WORDS)
    n = rng.choice([0, 1, 1, 2, 3]) if short else rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20])
    al = rng.sample(ALPHA, rng.randint(1, 6)) if rng.random() < .7 else ALPHA
    return ''.join(rng.choice(al) for _ in range(n))


def quote(s, rng):
    out = []
    for ch in s:
        if ch in "'\\" or rng.random() < .06:
            out.append('\\')
        out.append(ch)
    return "'" + ''.join(out) + "'"


# tree nodes: ['s', text] ['n', numtext] ['i', int] ['l', [S...]] [fn, args...]

def S(rng, d):
    """A tree whose value is text (or a number standing for text)."""
    r = rng.random()
    if d <= 0 or r < .12:
        if rng.random() < .12:
            return ['n', rng.choice(NUMS)]
        return ['s', g_text(rng)]
    k = rng.choice(['+$', '+$', '*$', 'lower', 'upper', 'lstrip', 'rstrip', 'strip', 'replace', 'substr2', 'substr3', 'join', 'join1', 'element'])
    if k == '+$':
        return [k, S(rng, d - 1), S(rng, d - 1)]
    if k == '*$':
        return [k, S(rng, d - 2), ['i', rng.choice([0, 1, 2, 3])]]
    if k in ('lower', 'upper'):
        return [k, S(rng, d - 1)]
    if k in ('lstrip', 'rstrip', 'strip'):
        a = S(rng, d - 1)
        ch = rng.choice(ALPHA) if rng.random() < .9 else ''
        try:
            v = ev(a)
            if isinstance(v, str) and v and rng.random() < .8:
                ch = rng.choice([v[0], v[-1]])
                if ch not in 'Ii' and rng.random() < .5:
                    q = ch * rng.randint(1, 3)
                    a = ['+$', ['s', q], ['+$', a, ['s', q]]]
        except (Err, Unclear):
            pass
        return [k, a, ['n', ch] if ch.isascii() and ch.isdigit() and rng.random() < .5 else ['s', ch]]
    if k == 'replace':
        a = S(rng, d - 1)
        return [k, a, piece(rng, a, d), S(rng, d - 2)]
    if k == 'substr2':
        return [k, S(rng, d - 1), ['i', pos(rng)]]
    if k == 'substr3':
        return [k, S(rng, d - 1), ['i', pos(rng)], ['i', pos(rng)]]
    if k == 'join':
        return [k, L(rng, d - 1), S(rng, d - 2)]
    if k == 'join1':
        return [k, L(rng, d - 1)]
    l = L(rng, d - 1)
    n = 1
    try:
        n = len(ev(l))
    except (Err, Unclear):
        pass
    return ['element', l, ['i', rng.randint(1, n)]]


def pos(rng):
    return rng.choice([0, 0, 1, 2, -1, -1, -2, 3, 5, rng.randint(-8, 25)])


def piece(rng, a, d):
    """Something that occurs in a's value with good probability."""
    try:
        v = ev(a)
        if isinstance(v, str) and v and rng.random() < .75:
            i = rng.randrange(len(v))
            return ['s', v[i:i + rng.choice([1, 1, 1, 2, 3])]]
    except (Err, Unclear):
        pass
    return ['s', g_text(rng, True)]


def L(rng, d):
    r = rng.random()
    if d > 0 and r < .55:
        a = S(rng, d - 1)
        return ['split', a, piece(rng, a, d)]
    if d > 0 and r < .75:
        k = rng.choice(['lower', 'upper', '+$', '+$r'])
        if k in ('lower', 'upper'):
            return [k, L(rng, d - 1)]
        return ['+$', L(rng, d - 1), S(rng, d - 2)] if k == '+$' else ['+$', S(rng, d - 2), L(rng, d - 1)]
    return ['l', [S(rng, d - 2) for _ in range(rng.choice([1, 2, 2, 3, 4]))]]


def top(rng, d):
    r = rng.random()
    if r < .2:
        return ['length', S(rng, d)]
    if r < .4:
        a = S(rng, d)
        return ['find', a, piece(rng, a, d)]
    if r < .55:
        return L(rng, d)
    if r < .62:
        return [rng.choice(['length']), L(rng, d)]
    if r < .66:
        return ['find', L(rng, d), ['s', g_text(rng, True)]]
    return S(rng, d)


class Err(Exception):
    pass


class Unclear(Exception):
    """The documentation does not say what this gives."""


NUMTEXT = {}


def shown(v):
    if isinstance(v, tuple):
        return v[1]
    if isinstance(v, int):
        return str(v)
    if isinstance(v, list):
        raise Unclear('array as text')
    return v


def bc(f, *args):
    """Apply f element by element over arrays."""
    ls = [len(a) for a in args if isinstance(a, list)]
    if not ls:
        return f(*args)
    if len(set(ls)) > 1:
        raise Err()
    return [bc(f, *[a[i] if isinstance(a, list) else a for a in args]) for i in range(ls[0])]


def chars_strip(s, ch, left, right):
    i, j = 0, len(s)
    while left and i < j and s[i] == ch:
        i += 1
    while right and j > i and s[j - 1] == ch:
        j -= 1
    return ''.join(s[i:j])


def split_seq(s, sep):
    out, cur, i = [], [], 0
    while i < len(s):
        if s[i:i + len(sep)] == sep:
            out.append(''.join(cur))
            cur = []
            i += len(sep)
        else:
            cur.append(s[i])
            i += 1
    return out + [''.join(cur)]


def find_seq(s, sub):
    for i in range(len(s) - len(sub) + 1):
        if all(s[i + j] == sub[j] for j in range(len(sub))):
            return i
    return -1


def substr_seq(s, a, b):
    n = len(s)
    first = a if a >= 0 else max(0, n + a)
    last = b if b >= 0 else n + b
    return ''.join(s[i] for i in range(n) if first <= i <= last)


def ev(t):
    k = t[0]
    if k == 's':
        return t[1]
    if k == 'n':
        return ('num', NUMTEXT.get(t[1], t[1]))
    if k == 'i':
        return t[1]
    if k == 'l':
        return [ev(x) for x in t[1]]
    a = [ev(x) for x in t[1:]]
    if k == '+$':
        return bc(lambda x, y: shown(x) + shown(y), *a)
    if k == '*$':
        return bc(lambda x, n: ''.join([shown(x)] * n), *a)
    if k == 'length':
        return bc(lambda x: len(shown(x)), *a)
    if k == 'lower':
        return bc(lambda x: shown(x).lower(), *a)
    if k == 'upper':
        return bc(lambda x: shown(x).upper(), *a)
    if k in ('lstrip', 'rstrip', 'strip'):
        return bc(lambda x, ch: chars_strip(shown(x), shown(ch), k != 'rstrip', k != 'lstrip'), *a)
    if k == 'find':
        return bc(lambda x, y: find_seq(shown(x), shown(y)), *a)
    if k == 'replace':
        def rep(x, y, z):
            if shown(y) == '':
                raise Unclear('replacing the empty text')
            return shown(z).join(split_seq(shown(x), shown(y)))
        return bc(rep, *a)
    if k == 'substr2':
        return bc(lambda x, i: substr_seq(shown(x), i, len(shown(x))), *a)
    if k == 'substr3':
        return bc(lambda x, i, j: substr_seq(shown(x), i, j), *a)
    if k == 'split':
        if shown(a[1]) == '':
            raise Err()
        return split_seq(shown(a[0]), shown(a[1]))
    if k in ('join', 'join1'):
        return (shown(a[1]) if k == 'join' else '').join([shown(x) for x in a[0]])
    if k == 'element':
        return a[0][a[1] - 1]
    raise AssertionError(k)


def text(t, rng, pre):
    k = t[0]
    if k in ('s', 'n', 'i', 'l'):
        if k == 's':
            s = quote(t[1], rng)
        elif k == 'n':
            s = t[1] if t[1][0] != '-' else '(' + t[1] + ')'
            s = '(' + s + ')' if '/' in s else s
        elif k == 'i':
            s = str(t[1]) if t[1] >= 0 else ' ' + str(t[1])
        else:
            s = '[' + (',' if rng.random() < .5 else ', ').join(text(x, rng, pre) for x in t[1]) + ']'
        if k != 'i' and rng.random() < .12:
            name = 'v{}x'.format(len(pre))
            pre.append('{} = {}'.format(name, s))
            return name
        return s
    if k in ('+$', '*$'):
        a, b = text(t[1], rng, pre), text(t[2], rng, pre)
        if t[1][0] == '*$' or (t[1][0] == '+$' and (k == '*$' or rng.random() < .4)):
            a = '(' + a + ')'
        if t[2][0] in ('+$', '*$'):
            b = '(' + b + ')'
        return '{} {} {}'.format(a, k, b)
    name = {'substr2': 'substr', 'substr3': 'substr', 'join1': 'join'}.get(k, k)
    return '{}({})'.format(name, (', ' if rng.random() < .7 else ',').join(text(x, rng, pre) for x in t[1:]))


def gen(rng, i, tier):
    r = rng.random()
    if r < .2:
        return {'kind': 'literal', 's': g_text(rng) + g_text(rng), 'seed': rng.randint(0, 10 ** 9)}
    if r < .32:
        s = g_text(rng) + g_text(rng)
        return {'kind': 'inverse', 's': s, 'd': (s[rng.randrange(len(s)):][:rng.randint(1, 3)] if s and rng.random() < .8 else g_text(rng, True)) or ',', 'seed': rng.randint(0, 10 ** 9)}
    if r < .35:
        return {'kind': 'reject', 'seed': rng.randint(0, 10 ** 9)}
    for _ in range(20):
        t = top(rng, rng.choice([1, 2, 2, 3, 3, 4, 5] if tier == 'quick' else [2, 3, 4, 5, 6]))
        try:
            v = ev(t)
        except (Err, Unclear):
            return {'kind': 'tree', 't': t, 'seed': rng.randint(0, 10 ** 9)}
        if len(repr(v)) < 3000:
            break
    return {'kind': 'tree', 't': t, 'seed': rng.randint(0, 10 ** 9)}


def fixed(tier):
    # long strings
    for n in [64, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 10000, 20001]:
        for s in ['a', 'ab', "x'é"]:
            t = ['*$', ['s', s], ['i', n]]
            for e in (['length', t], t, ['length', ['+$', t, ['s', 'end']]], ['find', ['+$', t, ['s', 'end']], ['s', 'e']]):
                yield {'kind': 'tree', 't': e, 'seed': n}
    for w in WORDS:
        yield {'kind': 'literal', 's': w, 'seed': 1}
    for ch in sorted(set(ALPHA)):
        for s in (ch, ch * 2, 'a' + ch, ch + "'", '\\' + ch, ch + '\\'):
            yield {'kind': 'literal', 's': s, 'seed': 2}
    for s in ('', 'a', 'abc', 'héllo'):
        for a in range(-5, 7):
            yield {'kind': 'tree', 't': ['substr2', ['s', s], ['i', a]], 'seed': 1}
            for b in range(-6, 7):
                yield {'kind': 'tree', 't': ['substr3', ['s', s], ['i', a], ['i', b]], 'seed': 1}
    if tier == 'thorough':
        for cp in list(range(1, 0xd800, 3)) + list(range(0xe000, 0x1ffff, 31)):
            yield {'kind': 'literal', 's': 'a' + chr(cp) + 'b' + chr(cp), 'seed': cp}


def setup():
    c = shared_calc()
    for n in NUMS:
        o = calc(c, n)
        if o.ok and o.last() is not None:
            NUMTEXT[n] = show(c, o.last())
    # independent anchors: plain integers and short decimals display as written
    for n, s in (('0', '0'), ('7', '7'), ('42', '42'), ('1.5', '1.5'), ('-3', '-3'), ('-0.25', '-0.25'), ('100', '100'), ('10.00', '10'), ('1000000', '1000000')):
        NUMTEXT[n] = s


def norm(v):
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return ('numtext', v[1])
    if isinstance(v, int):
        return ('num', Fraction(v))
    return v


def got_of(c, v):
    if isinstance(v, list):
        return [got_of(c, x.value) for x in v]
    if isinstance(v, Number):
        return ('num', frac(v))
    return v if isinstance(v, str) else ('other', repr(v))


def same(c, want, value):
    if isinstance(want, list):
        return isinstance(value, list) and len(value) == len(want) and all(same(c, w, x.value) for w, x in zip(want, value))
    if isinstance(want, tuple):
        return isinstance(value, Number) and num_text(c, value) == want[1]
    if isinstance(want, int):
        return isinstance(value, Number) and frac(value) == want
    return isinstance(value, str) and value == want


REJECTS = ['lower()', 'length()', "length('a', 'b')", "split('a')", "split('a', 'b', 'c')", "strip('a')", "find('a')", "replace('a', 'b')",
           "substr('abc')", "substr('abc', 1, 2, 3)", "substr('abc', 'x')", "substr('abc', 1, 'y')", "join('a', ',')", "'a' *$ 'b'", "'abc", "'abc\\'", "'", "'\\\\\\'", "split('abc', '')",
           "substr('abc', [1,2], [1,2,3])", "'a' 'b'", "'a' +$", "+$ 'a'", "'a' + 'b'", "'a' *$ (1/0)"]


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    rng = random.Random(case['seed'])
    k = case['kind']
    if k == 'literal':
        s = case['s']
        q = quote(s, rng)
        forms = [q, '({})'.format(q), "{} +$ ''".format(q), "v1 = {}\nv1".format(q), 'element([{}], 1)'.format(q)]
        f = rng.choice(forms)
        r = value_of(c, f)
        mon.obs('literal', (s, f))
        if r.value != s or not isinstance(r.value, str) or r.unit is not None:
            raise Violation('a string literal does not denote its characters', text=f, got=repr(r.value), expected=repr(s))
        if not any(ch in s for ch in "'\\") and show(c, r) != "'" + s + "'":
            raise Violation('a string is displayed with other characters', text=f, got=repr(show(c, r)), expected=repr(s))
        return
    if k == 'inverse':
        s, d = case['s'], case['d']
        f = 'join(split({}, {}), {})'.format(quote(s, rng), quote(d, rng), quote(d, rng))
        r = value_of(c, f)
        mon.obs('inverse', f)
        if r.value != s:
            raise Violation('joining what was split does not give the text back', text=f, got=repr(r.value), expected=repr(s))
        # splitting what was joined, when no piece interferes with the delimiter
        parts = [p for p in split_seq(s, d)]
        if split_seq(d.join(parts), d) == parts:
            f = 'split(join([{}], {}), {})'.format(', '.join(quote(p, rng) for p in parts), quote(d, rng), quote(d, rng))
            r = value_of(c, f)
            mon.obs('inverse', f)
            if not same(c, parts, r.value):
                raise Violation('splitting what was joined does not give the pieces back', text=f, got=got_of(c, r.value), expected=parts)
        return
    if k == 'reject':
        f = rng.choice(REJECTS)
        o = calc(c, f)
        mon.obs('reject', f)
        if not o.failed:
            raise Violation('a wrong string operation is not an error', text=f, got=o.describe(c) + repr(o.exc))
        return
    t = case['t']
    pre = []
    body = text(t, rng, pre)
    prog = '\n'.join(pre + [body])
    try:
        want = ev(t)
    except Unclear as e:
        raise Skip(str(e))
    except Err:
        o = calc(c, prog)
        mon.obs('reject', prog)
        if o.kind == 'raw':
            raise Violation('a wrong string operation is not reported as a calculation error', text=prog, got=repr(o.exc))
        if o.ok and 'error' not in repr(plain_result(c, o.last())):
            raise Violation('a wrong string operation gives a value', text=prog, got=o.describe(c))
        return
    r = value_of(c, prog)
    mon.obs('array' if isinstance(want, list) else 'tree', prog)
    if not same(c, want, r.value):
        raise Violation('a string expression gives a wrong value', text=prog, got=got_of(c, r.value), expected=norm(want))
    if r.unit is not None:
        raise Violation('a string expression has a unit', text=prog, got=unit_key(r.unit))


def shrink(case):
    if case['kind'] == 'tree':
        def subs(t):
            for x in t[1:]:
                if isinstance(x, list) and x and isinstance(x[0], str) and x[0] != 'i':
                    yield x
                    yield from subs(x)
        for x in subs(case['t']):
            yield {**case, 't': x}

        def smaller(t):
            if t[0] == 's' and len(t[1]) > 1:
                yield ['s', t[1][:len(t[1]) // 2]]
                yield ['s', t[1][1:]]
            for i, x in enumerate(t[1:], 1):
                if isinstance(x, list) and x and isinstance(x[0], str):
                    for y in smaller(x):
                        yield t[:i] + [y] + t[i + 1:]
        for x in smaller(case['t']):
            yield {**case, 't': x}
    elif case['kind'] in ('literal', 'inverse'):
        s = case['s']
        for i in range(len(s)):
            yield {**case, 's': s[:i] + s[i + 1:]}
