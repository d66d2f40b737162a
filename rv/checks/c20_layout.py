"""C20: layout never changes meaning."""
import random
from rv import progs
from rv.progs import GLUE, Gen
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C20'
TECHNIQUE = ('runtime monitor, metamorphic: one generated token sequence rendered in several layouts (minimal, single-spaced, tabs, comments, broken lines, blank and comment-only lines, '
             'doubled brackets, other terminator and comment symbols); all executions must have the same values, units, errors and final variables, and as many statements as were generated')
RULE = 'random programs of 1-5 statements over all operators, functions, arrays, units, strings, inline functions and planted failures; 5-7 layouts each; distinct by program text'
BUDGET = {'quick': 22000, 'thorough': 300000}
NEED = {'tight': 2000, 'tight_value': 300, 'layout': 25000, 'brackets': 3000, 'statements': 4000, 'ends': 1500, 'comment': 1500, 'symbols': 3000, 'failing': 1500}
ASSUMPTIONS = ['spaces are only removed where the neighbouring characters cannot form a longer token']


def unit_group(rng):
    """Products of units written token by token."""
    a, b = rng.choice(progs.UNITS['length']), rng.choice(progs.UNITS['time'])
    m = rng.choice(progs.UNITS['mass'])
    return rng.choice([
        [str(rng.randint(1, 40)), '(', a, '/', b, ')'], ['(', str(rng.randint(1, 40)), a, '/', str(rng.randint(2, 9)), b, ')'],
        [str(rng.randint(1, 40)), '(', m, a, '/', b, '^', '2', ')'], ['(', str(rng.randint(1, 40)), a, '*', '3', a, ')', 'to', '(', 'km', '^', '2', ')'],
        ['(', str(rng.randint(1, 40)), '(', a, '/', b, ')', '*', str(rng.randint(1, 40)), b, ')', 'to', 'm']])


def statements(rng, tier):
    g = Gen(rng, errors=rng.choice([0, 0, .03, .1]))
    d = rng.choice([1, 2, 3, 3] if tier == 'quick' else [2, 3, 4])
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
        r = rng.random()
        if r < .08:
            s = unit_group(rng)
        elif r < .14:
            # calls of user functions and functions taking functions
            s = ['filter', GLUE, '(', '[', '1', '..', '6', ']', ',', '@', GLUE, 'xfil', ')']
            out.append(['xfil', '=', '{', '(', 'PARAM1', '*', '2', ')', '>', '5', '}'])
        else:
            s = g.statement(d)
        out.append(s)
    return out


def double(tokens, rng, p=.5):
    """Extra brackets around what already is a bracketed group."""
    out, stack = [], []
    prev = None
    for t in tokens:
        if t == '(' and prev != GLUE:
            k = rng.choice([1, 1, 2]) if rng.random() < p else 0
            stack.append(k)
            out += ['('] * k
        elif t in ('(',):
            stack.append(0)
        out.append(t)
        if t == ')':
            out += [')'] * stack.pop()
        prev = t
    return out


def gen(rng, i, tier):
    r = rng.random()
    if r < .75:
        return {'kind': 'program', 's': statements(rng, tier), 'seed': rng.randint(0, 10 ** 9)}
    if r < .80:
        return {'kind': 'tight', 'seed': rng.randint(0, 10 ** 9)}
    if r < .88:
        return {'kind': 'ends', 'seed': rng.randint(0, 10 ** 9)}
    return {'kind': 'comment', 'seed': rng.randint(0, 10 ** 9)}


_SYM = {}


def symbols_calc():
    if 'c' not in _SYM:
        c = new_calc()
        c.feature_options['structure.terminator']['Symbol'] = ';'
        c.feature_options['nonfunctional.comments']['Symbol'] = '\u00a7'
        _SYM['c'] = c
    return _SYM['c']


def setup():
    symbols_calc()


def strip_text(v):
    """The value of a function is its own text, which carries its layout."""
    if isinstance(v, tuple):
        return v[:2] if v[:1] == ('item',) else tuple(strip_text(x) for x in v)
    return v


def observe(c, text):
    c.vars.clear()
    o = calc(c, text)
    vals = tuple(plain_result(c, r, True) for r in o.results if r.has_result())
    msg = o.message
    if msg and ' - Cannot cast' in msg:
        msg = msg[:msg.index(' - Cannot cast')]       # shows the failing part as a Python object
    if o.kind == 'parse' or (msg and '{' in msg):
        msg = None          # quotes the text itself
    return o, strip_text((o.kind, vals, msg, tuple(sorted(vars_plain(c).items()))))


def brief(obs):
    return str(obs)[:300]


def run(case, mon):
    rng = random.Random(case['seed'])
    c = shared_calc()
    if case['kind'] == 'ends':
        return ends(c, rng, mon)
    if case['kind'] == 'comment':
        return comment(c, rng, mon)
    if case['kind'] == 'tight':
        return tight(c, rng, mon)
    st = case['s']
    base_text = progs.render_program(st, rng, 'spaced')
    o, base = observe(c, base_text)
    if base[0] == 'raw':
        raise Violation('an exception that is no calculation error escapes', text=base_text, got=repr(o.exc))
    if base[0] != 'ok':
        mon.obs('failing')
    else:
        n = sum(1 for r in o.results if r.has_result())
        mon.obs('statements', base_text)
        if n != len(st):
            raise Violation('the program has another number of results than statements', text=base_text, got=n, expected=len(st))
    texts = [('layout', progs.render_program(st, rng, 'plain'))]
    texts += [('layout', progs.render_program(st, rng, 'wild')) for _ in range(3)]
    texts.append(('layout', '\n \n# c\n' + progs.render_program(st, rng, 'spaced').replace('\n', '  \n') if not any("\n" in t for s in st for t in s) else base_text + '\n'))
    dbl = [double(s, rng) for s in st]
    if dbl != st:
        texts.append(('brackets', progs.render_program(dbl, rng, rng.choice(['spaced', 'wild', 'plain']))))
    for kind, t in texts:
        o2, got = observe(c, t)
        mon.obs(kind, t)
        if got != base:
            raise Violation('another layout of the same program means something else' if kind == 'layout' else 'extra brackets around a group change the outcome',
                            one=base_text, other=t, gives=brief(base), and_gives=brief(got))
    if not any(any(ch in t for ch in ';\u00a7#\n') for s in st for t in s):
        cs = symbols_calc()
        t = ''
        for k, s in enumerate(st):
            body = progs.render(s, rng, 'wild')
            if '#' in body:
                body = progs.render(s, rng, 'spaced')
            body = ''.join(ch if ch != ' ' or rng.random() < .8 else rng.choice(['\n', ' \u00a7 note\n', '\n\n']) for ch in body) if "'" not in body else body
            t += ('' if k == 0 else rng.choice([';', ' ;', '; ', ';;', ';\n'])) + body
        o2, got = observe(cs, t)
        mon.obs('symbols', t)
        if got != base:
            raise Violation('with another terminator and comment symbol the same program means something else', one=base_text, other=t, gives=brief(base), and_gives=brief(got))


COMPLETE = [('5', '5'), ('2 + 3', '5'), ('(2 + 3) * 4', '20'), ('max(1, 7)', '7'), ('element([1, 2], 2)', '2'), ('0x10 - 1', '15'), ('vx = 9', '9'), ('3 ^ 2', '9'),
            ('true then 1 else 2', '1'), ("length('a b')", '3'), ('12', '12'), ('(7)', '7')]
OPS = ['+', '-', '*', '/', '^', '\\', '%', '+', '-']
INT = {'+': lambda a, b: Fraction(a + b), '-': lambda a, b: Fraction(a - b), '*': lambda a, b: Fraction(a * b), '/': lambda a, b: Fraction(a, b), '^': lambda a, b: Fraction(a) ** b,
       '\\': lambda a, b: Fraction(a // b), '%': lambda a, b: Fraction(a % b)}


def brk(rng):
    return rng.choice(['\n', ' \n', '\n  ', '\n\n', '\n# c\n', '  # why + (\n', '\n \t\n', " # it's\n\n"])


def ends(c, rng, mon):
    """Where statements end, and where a broken line goes on, with independently known values."""
    want, parts = [], []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .35:
            t, v = rng.choice(COMPLETE)
            parts.append(t)
            want.append(Fraction(v))
        elif r < .7:
            a, b, op = rng.randint(0, 50), rng.randint(1, 9), rng.choice(OPS)
            parts.append('{} {}{}{}'.format(a, op, brk(rng), b))
            want.append(INT[op](a, b))
        else:
            a, b, k, op = rng.randint(0, 50), rng.randint(1, 9), rng.randint(1, 9), rng.choice(OPS)
            n = [brk(rng) if rng.random() < .4 else ' ' for _ in range(6)]
            shape = rng.choice(['({0}{1}{2}{3} {4}{5})', 'sum({0}{1}{2}{3} {4}{5},{6}0{7})', 'element([{6}9,{0}{1}{2}{3} {4}{5}],{7}2{6})', 'abs({0}({1}{2}{3} {4}{5}){6})'])
            v = INT[op](a, b)
            if shape.startswith('abs'):
                v = abs(v)
            parts.append(shape.format(n[0], a, n[1], op, b, n[2], n[3], n[4]))
            want.append(v)
    text = rng.choice(['', '\n', '# head\n', ' \n']) + ''.join(p + rng.choice(['\n', ' # end\n', '\n\n', '\n# line\n', '  \n', '\r\n']) for p in parts[:-1]) + parts[-1] + rng.choice(['', '\n', ' # end', '\n\n# bye', ' '])
    c.vars.clear()
    o = calc(c, text)
    mon.obs('ends', text)
    got = [frac(r.value) for r in o.results if r.has_result() and isinstance(r.value, Number)]
    if not o.ok or got != want:
        raise Violation('statements do not end exactly where a line completes them', text=text, got=o.describe(c), expected=[str(w) for w in want])
    # a line that starts with an operator is a statement of its own (and a wrong one)
    t, v = rng.choice(COMPLETE)
    text = t + '\n' + rng.choice(['* 3', '/ 2', '== 1', 'then 1 else 2', ', 1', 'to m', '^ 2'])
    o = calc(c, text)
    mon.obs('ends', text)
    got = [frac(r.value) for r in o.results if r.has_result()]
    if not o.failed or (o.kind == 'exec' and got != [Fraction(v)]) or len(got) > 1:
        raise Violation('a complete statement goes on in the next line', text=text, got=o.describe(c), completed=[str(g) for g in got])
    # missing operand at the end of the text
    text = rng.choice(['5 +', '(2) *', 'vx =', 'not', '1 <', 'true and', '3 m to', '[1, 2] +']) + rng.choice(['', ' ', '\n', '\n\n# x\n', ' # c'])
    o = calc(c, text)
    mon.obs('ends', text)
    if not o.failed:
        raise Violation('a statement without its last operand is accepted', text=text, got=o.describe(c))


# operands by type, none of which begins or ends with a letter or digit
SHUT = {'num': ['(7)', '(2 + 1)', '(-4)', '(0x11)', '(50%)', '((12))'], 'str': ["'a'", "'abc'", "('b' +$ 'c')", "''", "'5'"], 'bool': ['(true)', '(1 < 2)', '(false)', '([true] == [false])'],
        'arr': ['[1, 2]', '[5]', "['a', 'b']", '([1 .. 3])', '[true, false]'], 'fn': ['{PARAM1 + 1}', '({2})'], 'bools': ['[true]', '[false, true]', '([true, true])'],
        'unit': ['(m)', '(km / h)', '[m]', '[s, h]'], 'qty': ['(5 m)', '(3 km)', '[4 m]', '[1 s, 2 h]'], 'bases': ['(binary)', '[octal]', '(hexadecimal)', '[binary, decimal]'],
        'date': ["'2020-02-03'", "('2021-01-01T10:20:30')"]}
WORDOPS = [(['V', 'then', 'A', 'else', 'A'], 6), (['B', 'and', 'B'], 3), (['B', 'or', 'B'], 3), (['B', 'xor', 'B'], 3), (['not', 'B'], 3), (['Q', 'to', 'U'], 3), (['N', 'as', 'S'], 3),
           (['not', 'B', 'and', 'B'], 2), (['V', 'then', 'Q', 'else', 'Q', 'to', 'U'], 1), (['A', '=~', 'T'], 1), (['A', '==', 'A'], 2), (['N', '+', 'A'], 1), (['A', '+$', 'A'], 1),
           (['A', '&', 'A'], 1), (['A', '>>', 'A'], 1)]


def tight(c, rng, mon):
    """Operators (those made of letters above all) right next to brackets, strings, arrays and functions."""
    kinds = {'V': ['bool', 'bool', 'bools'], 'B': ['bool', 'bool', 'bools', 'str', 'num'], 'A': list(SHUT), 'Q': ['qty', 'qty', 'date', 'num'], 'U': ['unit'], 'N': ['num', 'str', 'arr'], 'S': ['bases'],
             'T': ['str'], }
    shape = rng.choices([t for t, _ in WORDOPS], weights=[w for _, w in WORDOPS])[0]
    toks = [rng.choice(SHUT[rng.choice(kinds[t])]) if t in kinds else t for t in shape]
    one = ' '.join(toks)
    other = ''.join(toks)
    third = ''.join(t + rng.choice(['', '', ' ', '\t', ' # c\n'] if t in shape else ['', '', ' ', '\t']) for t in toks[:-1]) + toks[-1]
    fourth = '(' + ''.join(t + rng.choice(['', '# c\n', '\n', ' ']) for t in toks) + ')'
    o, base = observe(c, one)
    for t in (other, third, fourth):
        o2, got = observe(c, t)
        mon.obs('tight', t)
        if got != base:
            raise Violation('operands written directly next to an operator mean something else', one=one, other=t, gives=brief(base), and_gives=brief(got))
    if not o.failed:
        mon.obs('tight_value')


def comment(c, rng, mon):
    """A comment reaches to the end of its line, and only there."""
    body = ''.join(rng.choice(list("ab1 +-*/()[]{},'\"\\#@=;:\t%") + ['then ', 'x = 7', '5 m', '..', 'é']) for _ in range(rng.randint(0, 14)))
    a, b = rng.randint(0, 99), rng.randint(0, 99)
    progs_ = [
        ('{} #{}'.format(a, body), [a]),
        ('#{}\n{}'.format(body, a), [a]),
        ('{} #{}\n{}'.format(a, body, b), [a, b]),
        ('{} + #{}\n{}'.format(a, body, b), [a + b]),
        ('({} #{}\n + #{}\n {})'.format(a, body, body, b), [a + b]),
        ('sum([{}, #{}\n{} #{}\n])'.format(a, body, b, body), [a + b]),
        ('max({} #{}\n, {})'.format(a, body, b), [max(a, b)]),
        ('fu = {{ #{}\n loc = PARAM1 #{}\n # {}\n loc + {} }}\n@fu({})'.format(body, body, body, b, a), [a + b]),
        ("length('#{}')".format('ab'), [3]),
        ("length('a # b') + {} # 'x".format(a), [5 + a]),
        ('#{}'.format(body), []),
        ('{}#{}'.format(a, body), [a]),
        ('vx = {}#{}\nvx #{}\n#\n'.format(a, body, body), [a, a]),
    ]
    for text, want in rng.sample(progs_, 4):
        c.vars.clear()
        o = calc(c, text)
        mon.obs('comment', text)
        got = [frac(r.value) for r in o.results if r.has_result() and isinstance(r.value, Number)]
        if not o.ok or got != want:
            raise Violation('a comment changes the meaning of the program', text=text, got=o.describe(c) + ' ' + str(o.message), expected=want)


def shrink(case):
    if case['kind'] != 'program':
        return
    s = case['s']
    for i in range(len(s)):
        if len(s) > 1:
            yield {**case, 's': s[:i] + s[i + 1:]}
