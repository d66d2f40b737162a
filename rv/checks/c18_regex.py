"""C18: regular expressions and text comparison."""
import random
import re
from fractions import Fraction
from rv.checks.c17_strings import quote, g_text, NUMS, NUMTEXT, same, got_of, norm, setup as setup17
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C18'
TECHNIQUE = ('runtime monitor: generated patterns and texts (escaped literals, classes, anchors, quantifiers, groups, numbers as text, arrays) judged against the standard '
             'regular-expression engine and cross-checked by complement, counting and rejoining laws; order and equality laws on triples of texts')
RULE = ('random patterns built from atoms, classes, quantifiers and groups over texts biased to match, including invalid patterns; '
        'triples of close texts in mixed case for the comparison operators; distinct by program text')
BUDGET = {'quick': 60000, 'thorough': 1000000}
NEED = {'match': 5000, 'get': 2000, 'split': 1500, 'sub': 1500, 'count': 1500, 'invalid': 800, 'compare': 40000, 'array': 2000, 'true_match': 1000}
ASSUMPTIONS = ["Python's re module is the definition of the standard regular-expression engine; patterns with more than one capturing group are not exercised"]

CH = 'abAB01_ -.#;'
INVALID = ['(', ')', '[', 'a{2,1}', '*a', '+', '?x', '(?P<n', 'a**', '(?<a)', '[b-a]', '\\', 'x(?:', '(?P=n)', '\\1']


def g_atom(rng):
    r = rng.random()
    if r < .45:
        return re.escape(rng.choice(CH)) if rng.random() < .7 else re.escape(rng.choice("é中'\"\n%"))
    if r < .55:
        return '.'
    if r < .7:
        return rng.choice(['\\d', '\\w', '\\s', '\\D', '\\W', '\\S'])
    if r < .9:
        return rng.choice(['[ab]', '[a-z]', '[A-Z0-9]', '[^a]', '[^a-c0]', '[_.-]', "[']", '[\\\\]', '[0-9a-fA-F]'])
    return rng.choice(['\\b', '^', '$', '(?=a)', '(?!b)'])


def g_pat(rng, group):
    """A pattern with at most one capturing group and no nested quantifiers."""
    out = []
    used = not group
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        if r < .12:
            a = '(?:' + g_atom(rng) + '|' + g_atom(rng) + ')'
        elif r < .3 and not used:
            used = True
            out.append('(' + g_atom(rng) + g_atom(rng) + ')' + rng.choice(['', '', '?']))
            continue
        else:
            a = g_atom(rng)
        if rng.random() < .4 and a not in ('^', '$', '\\b') and not a.startswith('(?=') and not a.startswith('(?!'):
            a += rng.choice(['*', '+', '?', '{2}', '{1,2}', '+?', '*?'])
        out.append(a)
    p = ''.join(out)
    if rng.random() < .12:
        p = rng.choice(['^', '\\A', '\\b', '^']) + p
    if rng.random() < .12:
        p += rng.choice(['$', '\\Z', '\\b', '$'])
    if rng.random() < .08:
        p += '|' + g_atom(rng)
    if rng.random() < .05:
        p = rng.choice(['(?i)', '(?i)', '(?m)', '(?s)', '(?a)', '(?x)']) + p
    return p


def g_from(rng, s):
    """A pattern that matches some part of a text, or just misses it."""
    i = rng.randrange(len(s))
    j = min(len(s), i + rng.choice([1, 1, 2, 3, 5]))
    out = []
    for c in s[i:j]:
        r = rng.random()
        if r < .6:
            a = re.escape(c)
        elif r < .7:
            a = re.escape(c.swapcase())
        elif r < .8:
            a = '.'
        else:
            a = '\\d' if c.isdigit() else '\\s' if c.isspace() else '\\w' if c.isalnum() else '[^a]'
        if rng.random() < .15:
            a += rng.choice(['?', '+', '*', '{2}'])
        out.append(a)
    p = ''.join(out)
    if rng.random() < .3:
        p = rng.choice(['^', '\\A', '\\b']) + p
    if rng.random() < .3:
        p += rng.choice(['$', '\\Z', '\\b'])
    return p


def g_subject(rng):
    if rng.random() < .25:
        return g_text(rng)
    if rng.random() < .3:
        return '\n'.join(''.join(rng.choice(CH) for _ in range(rng.choice([0, 1, 2, 3]))) for _ in range(rng.choice([2, 2, 3])))
    return ''.join(rng.choice(CH) for _ in range(rng.choice([0, 1, 2, 4, 6, 10])))


def gen(rng, i, tier):
    r = rng.random()
    if r < .1:
        return {'kind': 'invalid', 'p': rng.choice(INVALID), 's': g_subject(rng), 'f': rng.choice(['=~', '!~', 'get', 'get1', 'split', 'sub', 'count']), 'seed': rng.randint(0, 10 ** 9)}
    if r < .2:
        return {'kind': 'compare', 'seed': rng.randint(0, 10 ** 9)}
    f = rng.choice(['=~', '=~', 'get', 'get1', 'split', 'sub', 'count'])
    p = g_pat(rng, f != '=~')
    s = g_subject(rng)
    if s and rng.random() < .35:
        p = g_from(rng, s)
    if r < .38:
        return {'kind': 'array', 'p': p, 's': [s] + [g_subject(rng) for _ in range(rng.randint(0, 3))], 'f': rng.choice(['=~', '!~', 'count', 'sub']), 'seed': rng.randint(0, 10 ** 9),
                'r': rng.choice(['', 'x', '<>', "'"])}
    return {'kind': 're', 'p': p, 's': s, 'f': f, 'seed': rng.randint(0, 10 ** 9), 'r': rng.choice(['', 'x', '<>', "'", '\\\\', ' - ', '\\g<0>'])}


def setup():
    setup17()


def operand(s, rng, pre):
    q = quote(s, rng)
    if rng.random() < .15:
        pre.append('v{}q = {}'.format(len(pre), q))
        return 'v{}q'.format(len(pre) - 1)
    if rng.random() < .1 and s:
        k = rng.randint(0, len(s))
        return '({} +$ {})'.format(quote(s[:k], rng), quote(s[k:], rng))
    return q


def check(c, text, want, mon, kind):
    r = value_of(c, text)
    mon.obs(kind, text)
    ok = (r.value is want) if isinstance(want, bool) else same_b(c, want, r.value)
    if not ok or r.unit is not None:
        raise Violation('a regular-expression operation gives another result than the standard engine', text=text, got=repr(got_of(c, r.value)), expected=repr(want))
    return r


def same_b(c, want, value):
    if want is None:
        return value is None
    if isinstance(want, list):
        return isinstance(value, list) and len(value) == len(want) and all(same_b(c, w, x.value) for w, x in zip(want, value))
    if isinstance(want, bool):
        return value is want
    return same(c, want, value)


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    rng = random.Random(case['seed'])
    if case['kind'] == 'compare':
        return compare(c, rng, mon)
    if case['kind'] == 'array':
        return array(c, case, rng, mon)
    s, p, f = case['s'], case['p'], case['f']
    pre = []
    S, P = operand(s, rng, pre), operand(p, rng, pre)
    prog = lambda body: '\n'.join(pre + [body])
    if case['kind'] == 'invalid':
        body = {'=~': '{} =~ {}', '!~': '{} !~ {}', 'get': 'regexget({}, {})', 'get1': 'regexget({}, {}, 1)', 'split': 'regexsplit({}, {})',
                'sub': "regexsub({}, {}, 'x')", 'count': 'regexcount({}, {})'}[f].format(S, P)
        o = calc(c, prog(body))
        mon.obs('invalid', body)
        if not o.failed:
            raise Violation('an invalid pattern is not an error', text=prog(body), got=o.describe(c) + repr(o.exc))
        return
    rx = re.compile(p)
    if f == '=~':
        m = rx.search(s) is not None
        if m:
            mon.obs('true_match')
        check(c, prog('{} =~ {}'.format(S, P)), m, mon, 'match')
        check(c, prog('{} !~ {}'.format(S, P)), not m, mon, 'match')
        check(c, prog('({} =~ {}) xor ({} !~ {})'.format(S, P, S, P)), True, mon, 'match')
        check(c, prog("{} !~ {} then 'n' else 'y'".format(S, P)), 'y' if m else 'n', mon, 'match')
        return
    found = [(m.group(1) or '') if rx.groups else m.group(0) for m in rx.finditer(s)]
    if f == 'get':
        check(c, prog('regexget({}, {})'.format(S, P)), found, mon, 'get')
        check(c, prog('regexcount({}, {}) == {}'.format(S, P, len(found))), True, mon, 'count')
    elif f == 'get1':
        for k in range(1, len(found) + 1):
            check(c, prog('regexget({}, {}, {})'.format(S, P, k)), found[k - 1], mon, 'get')
        bad = prog('regexget({}, {}, {})'.format(S, P, len(found) + 1))
        o = calc(c, bad)
        mon.obs('get', bad)
        if not o.failed:
            raise Violation('an occurrence that does not exist is returned', text=bad, got=o.describe(c))
    elif f == 'split':
        want = rx.split(s)      # a group that took no part gives no value
        check(c, prog('regexsplit({}, {})'.format(S, P)), want, mon, 'split')
        if not rx.groups:
            # pieces and separators rebuild the text
            seps = [m.group(0) for m in rx.finditer(s)]
            r1 = value_of(c, prog('regexsplit({}, {})'.format(S, P))).value
            if len(r1) == len(seps) + 1:
                back = ''.join(x.value + y for x, y in zip(r1, seps + ['']))
                if back != s:
                    raise Violation('splitting loses characters', text=prog('regexsplit({}, {})'.format(S, P)), got=repr(back), expected=repr(s))
    elif f == 'sub':
        R = case['r']
        if rx.groups and rng.random() < .5:
            R = '[\\1]'
        try:
            want = rx.sub(R, s)
        except re.error:
            raise Skip('replacement')
        check(c, prog('regexsub({}, {}, {})'.format(S, P, operand_after(R, rng))), want, mon, 'sub')
        if rng.random() < .4:
            # with the most replacements to make
            n = rng.choice([0, 1, 1, 2, 3, 5])      # 0: all of them
            check(c, prog('regexsub({}, {}, {}, {})'.format(S, P, operand_after(R, rng), rng.choice([str(n), "'{}'".format(n), '({} + 1)'.format(n - 1)]))), rx.sub(R, s, count=n), mon, 'sub')
    elif f == 'count':
        check(c, prog('regexcount({}, {})'.format(S, P)), len(found), mon, 'count')


def operand_after(s, rng):
    return quote(s, rng)


def array(c, case, rng, mon):
    ss, p, f = case['s'], case['p'], case['f']
    rx = re.compile(p)
    A = '[' + ', '.join(quote(x, rng) for x in ss) + ']'
    P = quote(p, rng)
    if f in ('=~', '!~'):
        want = [(rx.search(s) is not None) == (f == '=~') for s in ss]
        body = '{} {} {}'.format(A, f, P)
    elif f == 'count':
        want = [len(list(rx.finditer(s))) for s in ss]
        body = 'regexcount({}, {})'.format(A, P)
    else:
        R = re.sub(r'\\', '', case['r'])
        want = [rx.sub(R, s) for s in ss]
        body = 'regexsub({}, {}, {})'.format(A, P, quote(R, rng))
    check(c, body, want, mon, 'array')


WORDS = ['', 'a', 'A', 'b', 'B', 'ab', 'aB', 'Ab', 'AB', 'abc', 'a b', 'a_b', 'z', 'Z', '_', '[', '0', '10', '2', '9', '09', 'é', 'É', 'e', 'ж', 'Ж', 'ü', 'Ü', 'aé', 'true', 'True', "'", '\n', ' ', '中', 'a\\', 'ß', 'ẞ', 'ss', 'SS', 'ſ', 's', 'S', 'ς', 'σ', 'Σ', 'İ', 'i', 'I', 'ı', 'ﬁ', 'FI', 'K', 'k']


def flip(s, rng):
    return ''.join(ch.swapcase() if rng.random() < .5 and ch.swapcase().swapcase() == ch and len(ch.swapcase()) == 1 else ch for ch in s)


def compare(c, rng, mon):
    vals = []
    base = rng.choice(WORDS) + rng.choice(['', '', rng.choice(WORDS)])
    for _ in range(3):
        r = rng.random()
        if r < .12:
            n = rng.choice([x for x in NUMS if x in NUMTEXT])
            vals.append((n if n[0] != '-' and '/' not in n else '(' + n + ')', NUMTEXT[n]))
            continue
        s = base if r < .35 else flip(base, rng) if r < .65 else base + rng.choice(WORDS) if r < .8 else rng.choice(WORDS)
        vals.append((quote(s, rng), s))
    for x, a in vals:
        for y, b in vals:
            for suf, fold in (('$', lambda s: s), ('~', str.lower)):
                p, q = [ord(ch) for ch in fold(a)], [ord(ch) for ch in fold(b)]
                for op, want in (('<', p < q), ('>', p > q), ('<=', p <= q), ('>=', p >= q), ('==', p == q), ('!=', p != q)):
                    t = '{} {}{} {}'.format(x, op, suf, y)
                    r = value_of(c, t)
                    mon.obs('compare', t)
                    if r.value is not want or r.unit is not None:
                        raise Violation('texts are compared wrongly', text=t, got=show(c, r), expected=want)
    # arrays compare element by element, and the operators bind looser than concatenation
    (x, a), (y, b), (z, d) = vals
    t = '[{}, {}] <=$ {}'.format(x, y, z)
    r = value_of(c, t)
    mon.obs('array', t)
    if [e.value for e in r.value] != [a <= d, b <= d]:
        raise Violation('texts in an array are compared wrongly', text=t, got=show(c, r), expected=[a <= d, b <= d])
    t = '{} +$ {} ==$ {} +$ {}'.format(x, y, y, x)
    r = value_of(c, t)
    if r.value is not (a + b == b + a):
        raise Violation('concatenation does not bind tighter than comparison', text=t, got=show(c, r), expected=a + b == b + a)
    t = "{} <~ {} and {} >=$ {} then 'p' else 'q'".format(x, y, y, z)
    r = value_of(c, t)
    want = 'p' if a.lower() < b.lower() and b >= d else 'q'
    if r.value != want:
        raise Violation('text comparisons in a condition choose the wrong branch', text=t, got=show(c, r), expected=want)


def shrink(case):
    if case['kind'] in ('re', 'invalid'):
        s, p = case['s'], case['p']
        for i in range(len(s)):
            yield {**case, 's': s[:i] + s[i + 1:]}
        for i in range(len(p)):
            q = p[:i] + p[i + 1:]
            try:
                if re.compile(q).groups <= 1:
                    yield {**case, 'p': q}
            except re.error:
                pass
