"""Generator of whole programs for the Computing preset, as token lists so that layout can be varied.

A statement is a list of tokens; GLUE between two tokens means nothing may be put there.
"""
import re

GLUE = '\0'

OPCHARS = set("+-*/\\%^~=<>!&|$@")
BINOPS = {'+', '-', '*', '/', '%', '\\', '^', '<', '>', '<=', '>=', '==', '!=', '==$', '!=$', '<$', '>$', '<=$', '>=$',
          '<~', '>~', '<=~', '>=~', '==~', '!=~', '=~', '!~', '+$', '*$', '+%', '-%', '&', '|', '^^', '<<', '>>', 'and', 'or',
          'xor', 'then', 'else', 'as', 'to', '=', '||=', '+=', '-=', '*=', '/=', '^=', '%=', '\\='}
PREOPS = {'not', '~'}
COMPOUND = ['+=', '-=', '*=', '/=', '^=', '%=', '\\=']

WORDS = ['', 'abc', 'Hello World', 'x', 'a,b,c', 'tab\there', 'sharp # hash', "it's", 'back\\slash', '(paren', '] } ,', '{', 'é ñ', 'line\nbreak',
         '漢字', '12', '0x1F', 'aXbXc', '  pad  ', 'UPPER lower', '@f(1)', "''", '\\', 'e', '5 m', '2020-01-01']
UNITS = {
    'length': ['metre', 'meters', 'm', 'km', 'cm', 'inch', 'inches', 'feet', 'miles', 'kilometres', 'Meters', 'KiloMetres'],
    'mass': ['g', 'kg', 'grams', 'pound', 'ounces', 'kilograms', 'Pounds'],
    'time': ['s', 'seconds', 'minute', 'hours', 'days', 'milliseconds', 'Hours'],
}
VARNAMES = ['xx', 'yy', 'zz', 'foo', 'bar_1', '_tmp', 'Value', 'f0o', 'aVeryLongVariableName', 'stepper', 'tok', 'ander', 'metreish', 'pix']


def quote(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


class Gen:
    def __init__(self, rng, errors=0.0, units=True, dates=True, multiline_strings=True):
        self.rng = rng
        self.vars = {}           # name -> type
        self.errors = errors     # chance that an atom is replaced by something that fails
        self.units = units
        self.dates = dates
        self.mls = multiline_strings
        self.infn = False

    # -- helpers
    def pick(self, *fs):
        return self.rng.choice(fs)

    def var_of(self, t):
        c = [n for n, k in self.vars.items() if k == t]
        return self.rng.choice(c) if c else None

    def call(self, name, *args):
        toks = [name, GLUE, '(']
        for i, a in enumerate(args):
            if i:
                toks.append(',')
            toks += a
        return toks + [')']

    def br(self, e):
        return ['('] + e + [')']

    def arg(self, e):
        """operand position: always safe as an operand of anything"""
        if len(e) == 1 or (e[0] == '(' and _closes(e)) or (len(e) > 2 and e[1] == GLUE and e[2] == '(' and _closes(e[2:])):
            return e
        return self.br(e)

    def bad(self, t):
        """an expression of about type t that fails when executed"""
        r = self.rng
        c = [['1', '/', '0'], ["'abc'", '+', '1'], self.call('element', ['[', '1', ']'], ['9']), ['unsetvar', '+', '1'],
             self.call('fact', ['-1']), ['5', 'metres', '+', '3', 'seconds'], ['true', '+', "'x'"], self.call('abs', ["'q'"]),
             self.call('floor', ['1'], ['2'], ['3']), self.call('sum'), ['5', 'to', 'metres'], ['@', GLUE, 'nofunc', GLUE, '(', '1', ')'],
             ['[', '1', ',', '2', '..', "'a'", ']'], ['3', 'then', '1', 'else', '2'], ["'abc'", '=~', "'('"], self.call('regexget', ["'abc'"], ["'z'"], ['1'])]
        return self.br(r.choice(c))

    # -- typed expressions
    def num_lit(self):
        r = self.rng
        k = r.random()
        if k < .5:
            t = str(r.choice([0, 1, 2, 3, 5, 7, 10, 12, 60, 100, r.randint(0, 999)]))
        elif k < .7:
            t = '{}.{}'.format(r.randint(0, 99), r.choice(['5', '25', '125', '1', '001']))
        elif k < .76:
            t = '{}%'.format(r.randint(0, 200))
        elif k < .82:
            t = '{}{}{}'.format(r.randint(1, 9), r.choice('eE'), r.randint(-4, 6))
        elif k < .94:
            t = r.choice(['0x{:X}', '0b{:b}', '0o{:o}', '7z{}', '0x{:x}']).format(r.randint(0, 6))
        else:
            t = str(r.randint(0, 9))
        if r.random() < .12:
            t = '-' + t
        return [t]

    def int_lit(self, lo=0, hi=20):
        return [str(self.rng.randint(lo, hi))]

    def num(self, d):
        r = self.rng
        if self.errors and r.random() < self.errors:
            return self.bad('num')
        v = self.var_of('num')
        if v and r.random() < .3:
            return [v]
        if self.infn and r.random() < .4:
            return ['PARAM1']
        f = self.var_of('fn')
        if f and d > 0 and r.random() < .2:
            e = ['@', GLUE, f, GLUE, '('] + self.num(d - 1)
            if r.random() < .2:
                e += [','] + self.num(0)
            return e + [')']
        if d <= 0 or r.random() < .2:
            k = r.random()
            if k < .85:
                return self.num_lit()
            return [r.choice(['pi', 'e', 'tau'])]
        d -= 1
        k = r.randint(0, 15)
        if k <= 4:
            out = self.arg(self.num(d)) if r.random() < .5 else self.num_lit()
            for _ in range(r.choice([1, 1, 2, 3])):
                op = r.choice(['+', '-', '*', '+', '-', '*', '/', '%', '\\'])
                rhs = self.arg(self.num(d))
                if op in '/%\\':
                    rhs = [str(r.choice([2, 3, 5, 7, 10]))]
                out = out + [op] + rhs
            return out
        if k == 5:
            return self.arg(self.num(d)) + ['^'] + [str(r.choice([1, 2, 3]))]
        if k == 6:
            return self.br(self.num(d))
        if k == 7:
            return self.br(self.num(d)) + self.br(self.num(d))
        if k == 8:
            f = r.choice(['abs', 'floor', 'ceil', 'round', 'sin', 'cos'])
            return self.call(f, self.num(d))
        if k == 9:
            f = r.choice(['max', 'min', 'sum', 'mean', 'median'])
            if r.random() < .5:
                return self.call(f, self.arr(d))
            return self.call(f, *[self.num(d) for _ in range(r.randint(2, 4))])
        if k == 10:
            return r.choice([lambda: self.call('length', self.str_(d)), lambda: self.call('find', self.str_(d), self.str_(0)),
                             lambda: self.call('count', self.arr(d)), lambda: self.call('gcd', self.int_lit(1, 90), self.int_lit(1, 90))])()
        if k == 11:
            return self.arg(self.bool_(d)) + ['then'] + self.arg(self.num(d)) + ['else'] + self.arg(self.num(d))
        if k == 12:
            return self.int_lit() + [r.choice(['&', '|', '^^', '<<'])] + self.int_lit(0, 9)
        if k == 13:
            return self.int_lit() + ['as', r.choice(['hexadecimal', 'binary', 'octal', 'decimal', 'percentage', 'scientific'])]
        if k == 14:
            f = self.var_of('fn')
            if f:
                return ['@', GLUE, f, GLUE, '('] + self.num(d) + [')']
            return self.num(d)
        return self.call('element', ['['] + self.num(d) + [','] + self.num(d) + [']'], self.int_lit(1, 2))

    def qty(self, d, dim=None):
        r = self.rng
        dim = dim or r.choice(list(UNITS))
        if self.errors and r.random() < self.errors:
            return self.bad('qty')
        v = self.var_of('qty:' + dim)
        if v and r.random() < .3:
            return [v]
        if d <= 0 or r.random() < .3:
            return [str(r.randint(1, 50)), r.choice(UNITS[dim])]
        d -= 1
        k = r.randint(0, 5)
        if k <= 1:
            return self.arg(self.qty(d, dim)) + [r.choice('+-')] + self.arg(self.qty(d, dim))
        if k == 2:
            return self.arg(self.qty(d, dim)) + ['*', str(r.randint(1, 9))]
        if k == 3:
            return self.arg(self.qty(d, dim)) + ['to', r.choice(UNITS[dim])]
        if k == 4:
            return self.br(self.qty(d, dim))
        return self.call(r.choice(['max', 'min', 'sum']), self.qty(d, dim), self.qty(d, dim))

    def bool_(self, d):
        r = self.rng
        if self.errors and r.random() < self.errors:
            return self.bad('bool')
        v = self.var_of('bool')
        if v and r.random() < .3:
            return [v]
        if d <= 0 or r.random() < .2:
            return [r.choice(['true', 'false', 'True', 'FALSE'])]
        d -= 1
        k = r.randint(0, 6)
        if k <= 1:
            return self.arg(self.num(d)) + [r.choice(['<', '>', '<=', '>=', '==', '!='])] + self.arg(self.num(d))
        if k == 2:
            return self.arg(self.str_(d)) + [r.choice(['==$', '!=$', '<$', '>=$', '==~', '<~'])] + self.arg(self.str_(d))
        if k == 3:
            return ['not'] + self.arg(self.bool_(d))
        if k == 4:
            return self.arg(self.str_(d)) + [r.choice(['=~', '!~']), r.choice(["'a'", "'^x'", "'[0-9]+'", "'b|c'"])]
        if k == 5 and self.units:
            dim = r.choice(list(UNITS))
            return self.arg(self.qty(d, dim)) + [r.choice(['<', '>='])] + self.arg(self.qty(d, dim))
        return self.arg(self.bool_(d)) + [r.choice(['and', 'or', 'xor'])] + self.arg(self.bool_(d))

    def str_lit(self):
        w = self.rng.choice(WORDS)
        if not self.mls:
            w = w.replace('\n', ' ')
        return [quote(w)]

    def str_(self, d):
        r = self.rng
        if self.errors and r.random() < self.errors:
            return self.bad('str')
        v = self.var_of('str')
        if v and r.random() < .3:
            return [v]
        if d <= 0 or r.random() < .3:
            return self.str_lit()
        d -= 1
        k = r.randint(0, 5)
        if k <= 1:
            return self.arg(self.str_(d)) + ['+$'] + self.arg(self.str_(d))
        if k == 2:
            return self.call(r.choice(['upper', 'lower']), self.str_(d))
        if k == 3:
            return self.call('join', ['['] + self.str_(d) + [','] + self.str_(d) + [']'], self.str_lit())
        if k == 4:
            return self.call('replace', self.str_(d), self.str_lit(), self.str_lit())
        return self.call('substr', self.str_(d), self.int_lit(0, 3), self.int_lit(0, 5))

    def arr(self, d):
        r = self.rng
        if self.errors and r.random() < self.errors:
            return self.bad('arr')
        v = self.var_of('arr')
        if v and r.random() < .3:
            return [v]
        k = r.randint(0, 6) if d > 0 else r.choice([0, 1, 3])
        d -= 1
        if k <= 2:
            out = ['[']
            for i in range(r.randint(1, 4)):
                if i:
                    out.append(',')
                if r.random() < .15:
                    out += self.int_lit(0, 3) + ['..'] + self.int_lit(4, 7)
                else:
                    out += self.num(d)
            return out + [']']
        if k == 3:
            out = ['['] + self.int_lit(0, 5) + ['..'] + self.int_lit(6, 12)
            if r.random() < .5:
                out += ['step'] + self.int_lit(1, 4)
            return out + [']']
        if k == 4:
            return self.call('concat', self.arr(d), self.arr(d))
        if k == 5:
            return self.call(r.choice(['reverse', 'sort']), self.arr(d))
        return self.br(self.arr(d)) + [r.choice(['+', '*'])] + self.int_lit(1, 9)

    def date(self, d):
        r = self.rng
        v = self.var_of('date')
        if v and r.random() < .3:
            return [v]
        lit = ["'{:04d}-{:02d}-{:02d}{}'".format(r.randint(1950, 2060), r.randint(1, 12), r.randint(1, 28),
                                                r.choice(['', 'T12:34:56', 'T00:00:00', 'T23:59:59.125']))]
        if d <= 0 or r.random() < .4:
            return lit
        if r.random() < .5:
            return lit + [r.choice(['+%', '-%'])] + self.br(self.qty(d - 1, 'time'))
        return self.call(r.choice(['dateadd', 'datesubtract']), lit, self.qty(d - 1, 'time'))

    TYPES = ['num', 'num', 'num', 'qty', 'bool', 'str', 'arr', 'date']

    def expr(self, t, d):
        if t == 'num':
            return self.num(d)
        if t.startswith('qty'):
            return self.qty(d, t[4:] or None)
        return {'bool': self.bool_, 'str': self.str_, 'arr': self.arr, 'date': self.date}[t](d)

    def anytype(self):
        while True:
            t = self.rng.choice(self.TYPES)
            if t == 'qty':
                if not self.units:
                    continue
                return 'qty:' + self.rng.choice(list(UNITS))
            if t == 'date' and not self.dates:
                continue
            return t

    def statement(self, d=3):
        """-> list of tokens"""
        r = self.rng
        k = r.random()
        if k < .35:
            t = self.anytype()
            return self.expr(t, r.randint(0, d))
        if k < .7:
            t = self.anytype()
            e = self.expr(t, r.randint(0, d))
            n = r.choice(VARNAMES)
            self.vars[n] = t
            return [n, '='] + e
        if k < .85:
            v = self.var_of('num')
            if v:
                if r.random() < .3:
                    return [v, r.choice(['++', '--'])]
                op = r.choice(COMPOUND)
                rhs = self.arg(self.num(r.randint(0, d - 1)))
                if op in ('/=', '%=', '\\='):
                    rhs = [str(r.choice([2, 3, 5]))]
                if op == '^=':
                    rhs = [str(r.choice([1, 2]))]
                return [v, op] + rhs
            return self.num(d)
        if k < .9:
            n = r.choice(VARNAMES)
            e = self.fn(d)
            self.vars[n] = 'fn'
            return [n, '='] + e
        if k < .93:
            n = r.choice(VARNAMES)
            if n not in self.vars:
                e = self.num(r.randint(0, d))
                self.vars[n] = 'num'
                return [n, '||='] + e
        if k < .96 and self.vars:
            n = r.choice(list(self.vars))
            del self.vars[n]
            return self.call('delete', [n])
        return self.num(d)

    def fn(self, d):
        saved, self.vars, infn = self.vars, {}, self.infn
        self.infn = True
        body = ['{']
        for i in range(self.rng.randint(0, 2)):
            n = 'loc{}'.format(i)
            body += [n, '='] + self.num(1) + ['\n']
            self.vars[n] = 'num'
        body += self.num(min(d, 2))
        self.vars, self.infn = saved, infn
        return body + ['}']

    def program(self, n, d=3):
        out = []
        if n and self.rng.random() < .012:
            n, d = self.rng.randint(12, 45), 1
        if n > 1 and self.rng.random() < .2:
            f, e = self.rng.choice(VARNAMES), self.fn(d)
            self.vars[f] = 'fn'
            out.append([f, '='] + e)
        while len(out) < n:
            f = self.var_of('fn')
            if f and self.rng.random() < .25:
                out.append(['@', GLUE, f, GLUE, '('] + self.num(d - 1) + [')'])
            else:
                out.append(self.statement(d))
        return out


def _closes(e):
    """True when the bracket opening e closes at the very end"""
    depth = 0
    for i, t in enumerate(e):
        if t == '(':
            depth += 1
        elif t == ')':
            depth -= 1
            if depth == 0:
                return i == len(e) - 1
    return False


def _word(c):
    return c.isalnum() or c in "_.%"


def need_space(a, b):
    """Must these two adjacent tokens be separated?"""
    x, y = a[-1], b[0]
    if _word(x) and (_word(y)):
        return True
    if x in OPCHARS and y in OPCHARS:
        return True
    if x.isdigit() and y == '%':
        return True
    return False


BLANK = [' ', ' ', '  ', '\t', '   '] * 6 + ['\r', ' \x0c', '\xa0']
COMMENTS = ['# note', '#', "# it's 1 + (", '## x = 5', '# } ] )', '# note', '# a\x0c+ 3', '# b \x85 \u2028 2 *', '# c\r', '# d\x0b\x1c ]']


def gap(rng, style, must, nl):
    """Text for a gap; nl: may contain newlines (and comments)."""
    if style == 'plain':
        return ' ' if must else ''
    if style == 'spaced':
        return ' '
    out = ''
    if must or rng.random() < .6:
        out = rng.choice(BLANK)
    if nl and rng.random() < .25:
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .5:
                out += rng.choice(COMMENTS)
            out += '\n' + rng.choice(['', ' ', '\t'])
    return out


def render(tokens, rng, style='wild'):
    """style: plain (as little as possible), spaced (single spaces), wild"""
    out = ''
    stack = []
    prev = None
    glue = False
    for t in tokens:
        if t == GLUE:
            glue = True
            continue
        if prev is not None and not glue:
            inside = any(b in '([' for b in stack)
            if t == '\n' or prev == '\n':
                out += '' if style != 'wild' else rng.choice(['', ' ', '\t'])
            else:
                nl = inside or ((prev in BINOPS or prev in PREOPS) and True)
                if prev == '{' or t == '}':
                    nl = False
                out += gap(rng, style, need_space(prev, t), nl)
        glue = False
        if t in ('(', '[', '{'):
            stack.append(t)
        elif t in (')', ']', '}'):
            stack.pop()
        out += t
        prev = t
    return out


def render_program(stmts, rng, style='wild', blanks=True):
    out = ''
    for i, s in enumerate(stmts):
        if i:
            if style == 'wild':
                out += rng.choice(['', '', ' ', '\t'])
                if rng.random() < .2:
                    out += rng.choice(COMMENTS)
            out += '\n'
        if style == 'wild' and blanks:
            while rng.random() < .12:
                out += rng.choice(['', ' ', rng.choice(COMMENTS)]) + '\n'
            out += rng.choice(['', '', ' '])
        out += render(s, rng, style)
    return out


def make_program(rng, nmax=4, d=3, errors=0.0, style=None, **kw):
    g = Gen(rng, errors=errors, **kw)
    stmts = g.program(rng.randint(1, nmax), d)
    return stmts, render_program(stmts, rng, style or rng.choice(['plain', 'spaced', 'wild', 'wild']))


SOUP = ['1', '2.5', '50%', '1e3', '0x1F', '0b101', '0o17', '7z12', '+', '-', '*', '/', '\\', '^', '%', '(', ')', '[', ']', '{', '}', ',', '..', 'step',
        "'", "'abc'", '\\', '@', '@f(', 'sin(', 'max(', 'regexget(', 'element(', 'f', 'xx', '=', '==', '<', '>=', '+$', '*$', '==$', '=~', '!~', 'and', 'or',
        'xor', 'not', 'true', 'false', 'then', 'else', 'to', 'as', 'metres', 'km', 's', 'hours', 'hexadecimal', 'si', 'pi', 'e', '\n', ' ', ' ', '\t', '#', '# c\n',
        '++', '--', '+=', '||=', '<<', '>>', '&', '|', '^^', '~', '+%', '-%', "'2020-01-01'", '.', '$', '?', '"', 'é', '漢', '\x00', '0', '-1', 'now()', 'delete(xx)',
        'reset()', 'format(', 'compact(', 'round(', 'join(', 'substr(', 'PARAM1', ';', ':', '!', '%%', '1.2.3', '0x', '0bz', '1e', '9999999999999999999999999999999999']


GROWS = re.compile(r"\.\.|<<|>>|\^|\*\$|fact|lcm|perm|comb|chr|round|as\b")
LARGE = re.compile(r"\d{5}|[eE]\d\d|[\d)] *\^|\d *\*|\*\s*\d|\d\s\d+\s\d")


def tame(text):
    """False for damaged texts that may ask for an astronomically large result (ranges, shifts, powers, repetition of
    large numbers): they exhaust time or memory, which no property speaks about."""
    return not (GROWS.search(text) and LARGE.search(text))


def soup(rng):
    while True:
        t = _soup(rng)
        if tame(t):
            return t


def _soup(rng):
    return ''.join(rng.choice(SOUP) + rng.choice(['', '', ' ']) for _ in range(rng.randint(1, 14)))


def mutate(rng, text):
    """A few random edits of a program text."""
    for _ in range(5):
        t = _mutate(rng, text)
        if tame(t):
            return t
    return soup(rng)


def _mutate(rng, text):
    t = text
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not t:
            break
        k = rng.randint(0, 6)
        i = rng.randrange(len(t))
        if k == 0:
            t = t[:i]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        elif k == 2:
            t = t[:i] + rng.choice(SOUP) + t[i:]
        elif k == 3:
            j = rng.randrange(len(t))
            a, b = min(i, j), max(i, j)
            t = t[:a] + t[b:]
        elif k == 4:
            j = min(len(t), i + rng.randint(1, 6))
            t = t[:i] + t[i:j] + t[i:]
        elif k == 5:
            t = t[i:]
        else:
            t = t[:i] + rng.choice("()[]{},'\\@#+-*/=.%") + t[i + 1:]
    return t
