"""C08: user functions see their own parameters and leave the caller's state untouched."""
import os
import random
import tempfile
from fractions import Fraction
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C08'
TECHNIQUE = ('runtime monitor: reference interpreter of inline and external calls (dynamic scope, parameter binding, restore) run in lock-step with '
             'the calculator; the whole variable store compared after every top-level statement')
RULE = ('programs of 2-5 generated functions (inline, nested inline, external files, arrays of functions, functions passed as arguments, recursion) '
        'whose bodies assign, compound-assign, delete, reset, call each other and fail at chosen depths, called from 6-10 statements; declared '
        'external inputs against every kind of argument; external files rewritten, replaced and removed between calls; distinct by program text')
BUDGET = {'quick': 9000, 'thorough': 150000}
NEED = {'call_result': 4000, 'store_after_call': 8000, 'failed_call_store': 1500, 'declared_accept': 400, 'declared_reject': 400, 'runaway': 20,
        'broadcast': 300, 'external_isolated': 500, 'file_version': 1000, 'file_missing': 100, 'many': 60, 'no_value': 60, 'last_value': 15}

GV = ['va', 'vb', 'vc', 'PARAM1', 'PARAM2']
UNSET = ('unset',)


class Err(Exception):
    pass


class Unspec(Exception):
    pass


class Fn:
    def __init__(self, text, body):
        self.text, self.body = text, body


# ---- generation: JSON-able ASTs -----------------------------------------------------------------

def g_expr(rng, d, fns, params, scope):
    k = rng.random()
    if d <= 0 or k < .25:
        return ['num', rng.randint(-9, 20)] if rng.random() < .4 else ['var', rng.choice(scope)]
    if k < .6:
        return ['bin', rng.choice(['+', '-', '*', '+', '-', '/']), g_expr(rng, d - 1, fns, params, scope), g_expr(rng, d - 1, fns, params, scope)]
    if k < .9 and fns:
        return ['call', rng.choice(fns), [g_arg(rng, d - 1, fns, params, scope) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]]
    return ['cond', g_expr(rng, d - 2, fns, params, scope), rng.choice(['<', '>', '==']), g_expr(rng, d - 2, fns, params, scope),
            g_expr(rng, d - 1, fns, params, scope), g_expr(rng, d - 1, fns, params, scope)]


def g_arg(rng, d, fns, params, scope):
    if fns and rng.random() < .12:
        return ['var', rng.choice(fns)]
    return g_expr(rng, d, fns, params, scope)


def g_body(rng, fns, depth, ext):
    scope = ['PARAM1', 'PARAM1', 'PARAM2', 'va', 'vb', 'loc']
    out = []
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        if k < .35:
            out.append(['set', rng.choice(['va', 'vb', 'loc', 'PARAM1', 'PARAM2', 'PARAM3', 'vn']), g_expr(rng, 2, fns, 1, scope)])
        elif k < .5:
            out.append(['op', rng.choice(['va', 'vb', 'loc', 'PARAM1', 'PARAM2']), rng.choice('+-*'), g_expr(rng, 1, fns, 1, scope)])
        elif k < .58:
            out.append(['or', rng.choice(['va', 'loc', 'PARAM1', 'PARAM2', 'vz']), g_expr(rng, 1, fns, 1, scope)])
        elif k < .64:
            out.append(['del', rng.choice(['va', 'vb', 'PARAM1', 'loc'])])
        elif k < .67:
            out.append(['reset'])
        elif k < .72:
            out.append(['boom', rng.choice(['1/0', "'x' * 2", 'fact(-1)', 'unsetq + 1', '@unsetq(1)', 'element([1], 9)'])])
        elif k < .84 and depth > 0:
            n = rng.choice(['ina', 'inb'])
            out.append(['def', n, g_body(rng, fns, depth - 1, ext)])
            fns = fns + [n]
        elif k < .92:
            out.append(['inc', rng.choice(['va', 'vb', 'PARAM1', 'loc']), rng.choice(['++', '--'])])
        else:
            out.append(['expr', g_expr(rng, 2, fns, 1, scope)])
    out.append(['expr', g_expr(rng, 2, fns, 1, scope)])
    return out


RECURSIVE = [
    [['expr', ['cond', ['var', 'PARAM1'], '<', ['num', 1], ['num', 0], ['bin', '+', ['call', 'SELF', [['bin', '-', ['var', 'PARAM1'], ['num', 1]]]], ['var', 'PARAM1']]]]],
    [['set', 'va', ['bin', '+', ['var', 'va'], ['num', 1]]],
     ['expr', ['cond', ['var', 'PARAM1'], '<', ['num', 1], ['var', 'va'], ['call', 'SELF', [['bin', '-', ['var', 'PARAM1'], ['num', 1]], ['var', 'va']]]]]],
    [['set', 'loc', ['var', 'PARAM1']],
     ['expr', ['cond', ['var', 'PARAM1'], '<', ['num', 1], ['bin', '/', ['num', 1], ['num', 0]], ['call', 'SELF', [['bin', '-', ['var', 'PARAM1'], ['num', 1]]]]]],
     ['expr', ['bin', '+', ['var', 'loc'], ['var', 'PARAM1']]]],
    [['set', 'loc', ['cond', ['var', 'PARAM1'], '<', ['num', 1], ['num', 0], ['call', 'SELF', [['bin', '-', ['var', 'PARAM1'], ['num', 1]]]]]],
     ['expr', ['bin', '+', ['var', 'PARAM1'], ['bin', '*', ['num', 10], ['var', 'loc']]]]],
]


def subst(x, a, b):
    if isinstance(x, list):
        return [subst(y, a, b) for y in x]
    return b if x == a else x


def gen(rng, i, tier):
    if rng.random() < .3:
        return g_declared(rng)
    if rng.random() < .1:
        return g_rewrite(rng)
    if rng.random() < .02:
        # many parameters
        n = rng.randint(4, 25)
        return {'kind': 'many', 'args': [rng.choice([str(rng.randint(-99, 999)), "'s{}'".format(rng.randint(0, 99)), '{} m'.format(rng.randint(1, 99))]) for _ in range(n)],
                'pick': [rng.randint(1, n) for _ in range(5)], 'local': rng.randint(1, n + 2), 'ext': rng.random() < .4, 'fail': rng.random() < .3,
                'outer': sorted(rng.sample(range(1, n + 4), min(n, 6))), 'declared': rng.random() < .3}
    if rng.random() < .02:
        return {'kind': 'runaway', 'which': rng.randint(0, 4)}
    if rng.random() < .04:
        return {'kind': 'novalue', 'seed': rng.getrandbits(30)}
    defs, fns = [], []
    for k in range(rng.randint(2, 5)):
        n = 'f{}'.format(k)
        ext = rng.random() < .3
        if rng.random() < .2:
            body = subst(rng.choice(RECURSIVE), 'SELF', n if not ext else 'PARAM3')
            ext_calls = []
            ext = False
        else:
            body = g_body(rng, ['PARAM3'] if ext else list(fns), 1, ext)
        defs.append([n, 'ext' if ext else 'inl', body])
        fns.append(n)
    top = []
    for v in ('va', 'vb', 'vc', 'PARAM1', 'PARAM2'):
        if rng.random() < .75:
            top.append(['set', v, ['num', rng.randint(-9, 30)]])
    for _ in range(rng.randint(6, 10)):
        k = rng.random()
        if k < .55:
            top.append(['expr', ['call', rng.choice(fns), [g_arg(rng, 1, fns, 0, GV) for _ in range(rng.choice([0, 1, 2, 2, 3]))]]])
        elif k < .7:
            top.append(['set', rng.choice(GV + ['vr']), g_expr(rng, 3, fns, 0, GV)])
        elif k < .8:
            n = rng.randint(1, 3)
            top.append(['expr', ['call', rng.choice(fns), [['list', [['num', rng.randint(-3, 5)] for _ in range(n)]]]
                                 + ([['list', [['num', rng.randint(-3, 5)] for _ in range(n if rng.random() < .8 else n + 1)]]] if rng.random() < .3 else [['var', rng.choice(GV)]] if rng.random() < .4 else [])]])
        elif k < .88:
            top.append(['set', 'flist', ['list', [['var', f] for f in rng.sample(fns, min(len(fns), rng.randint(1, 3)))]]])
            top.append(['expr', ['call', 'flist', [['num', rng.randint(0, 5)]]]])
        else:
            top.append(['expr', g_expr(rng, 3, fns, 0, GV)])
    return {'kind': 'prog', 'defs': defs, 'top': top, 'lay': rng.randint(0, 10 ** 9)}


# ---- rendering -----------------------------------------------------------------------------------

def r_expr(e):
    k = e[0]
    if k == 'num':
        return str(e[1])
    if k == 'var':
        return e[1]
    if k == 'bin':
        return '({} {} {})'.format(r_expr(e[2]), e[1], r_expr(e[3]))
    if k == 'call':
        return '@{}({})'.format(e[1], ', '.join(r_expr(a) for a in e[2]))
    if k == 'list':
        return '[' + ', '.join(r_expr(a) for a in e[1]) + ']'
    return '(({} {} {}) then ({}) else ({}))'.format(r_expr(e[1]), e[2], r_expr(e[3]), r_expr(e[4]), r_expr(e[5]))


def r_stmt(s, rng):
    k = s[0]
    if k == 'set':
        return '{} = {}'.format(s[1], r_expr(s[2]))
    if k == 'op':
        return '{} {}= {}'.format(s[1], s[2], r_expr(s[3]))
    if k == 'or':
        return '{} ||= {}'.format(s[1], r_expr(s[2]))
    if k == 'del':
        return 'delete({})'.format(s[1])
    if k == 'reset':
        return 'reset()'
    if k == 'boom':
        return s[1]
    if k == 'inc':
        return s[1] + s[2]
    if k == 'def':
        return '{} = {}'.format(s[1], r_inline(s[2], rng))
    return r_expr(s[1])


TEXTS = {}


def r_block(body, rng):
    out = []
    for s in body:
        t = r_stmt(s, rng)
        if s[0] == 'def':
            s.append(t.split(' = ', 1)[1])
        if rng.random() < .15:
            t += ' # note {x'
        out.append(t)
        if rng.random() < .1:
            out.append(rng.choice(['', '  ', '# a comment, with = } signs'.replace('}', ')')]))
    return '\n'.join(out)


def r_inline(body, rng):
    t = r_block(body, rng)
    if rng.random() < .5 or '#' in t.split('\n')[-1]:
        return '{' + rng.choice(['\n', '\n ', '']) + t + '\n}'
    return '{' + t + rng.choice(['', ' ']) + '}'


# ---- reference interpreter -------------------------------------------------------------------------

class Model:
    def __init__(self, files):
        self.files = files
        self.steps = 0
        self.depth = 0

    def ev(self, e, env):
        self.steps += 1
        if self.steps > 400:
            raise Skip('program too long')
        k = e[0]
        if k == 'num':
            return Fraction(e[1])
        if k == 'var':
            return env.get(e[1], UNSET)
        if k == 'list':
            vs = [self.ev(x, env) for x in e[1]]
            if any(v is UNSET for v in vs):
                raise Unspec()
            return vs
        if k == 'bin':
            a = self.num(e[2], env)
            b = self.num(e[3], env)
            return self.arith(e[1], a, b)
        if k == 'cond':
            a = self.num(e[1], env)
            b = self.num(e[3], env)
            t = {'<': a < b, '>': a > b, '==': a == b}[e[2]]
            v = self.ev(e[4] if t else e[5], env)
            if v is UNSET:
                raise Unspec()
            return v
        if k == 'call':
            if e[1] not in env:
                raise Err()
            f = env[e[1]]
            args = [self.ev(a, env) for a in e[2]]
            if any(a is UNSET for a in args):
                raise Unspec()
            if isinstance(f, list):
                return [self.call(x, args, env) for x in f]
            return self.call(f, args, env)
        raise AssertionError(e)

    def arith(self, o, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if o == '/':
                if b == 0:
                    raise Err()
                r = a / b
            else:
                r = {'+': a + b, '-': a - b, '*': a * b}[o]
            if digits(r.numerator) > 60 or digits(r.denominator) > 60:
                raise Skip('big')
            return r
        if isinstance(a, list) or isinstance(b, list):
            raise Unspec()
        raise Err()

    def num(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, list):
            raise Unspec()
        if v is UNSET or isinstance(v, Fn):
            raise Err()
        if isinstance(v, str):
            raise Err()
        return v

    def call(self, f, args, env):
        if not isinstance(f, (Fn, str)) or isinstance(f, str) and f not in self.files:
            # the function is looked up before arrays are stepped through
            raise Err()
        arr = [i for i, a in enumerate(args) if isinstance(a, list)]
        if arr:
            n = {len(args[i]) for i in arr}
            if len(n) > 1:
                raise Err()
            out = []
            for k in range(n.pop()):
                row = [a[k] if i in arr else a for i, a in enumerate(args)]
                if any(r == 'ERR' for r in row):
                    out.append('ERR')
                    continue
                try:
                    out.append(self.call(f, row, env))
                except Err:
                    out.append('ERR')
            return out
        if isinstance(f, Fn):
            inner = dict(env)
            body = f.body
        else:
            inner = {}
            body = self.files[f]
        for i, a in enumerate(args):
            inner['PARAM{}'.format(i + 1)] = a
        self.depth += 1
        if self.depth > 12:
            raise Skip('deep')
        try:
            val = UNSET
            for s in body:
                r = self.stmt(s, inner)
                if r is not None:
                    val = r
                elif isinstance(f, Fn):
                    val = UNSET
            if val is UNSET:
                raise Unspec()
            return val
        finally:
            self.depth -= 1

    def stmt(self, s, env):
        k = s[0]
        if k == 'boom':
            raise Err()
        if k == 'def':
            env[s[1]] = Fn(s[3], s[2])
            return env[s[1]]
        if k == 'del':
            if s[1] not in env:
                raise Err()
            del env[s[1]]
            return None
        if k == 'reset':
            env.clear()
            return None
        if k == 'expr':
            v = self.ev(s[1], env)
            if v is UNSET:
                raise Unspec()
            return v
        if k == 'set':
            v = self.ev(s[2], env)
            if v is UNSET or isinstance(v, list) and 'ERR' in v:
                raise Unspec()
            env[s[1]] = v
            return v
        if k == 'inc':
            v = env.get(s[1], UNSET)
            if v is UNSET or isinstance(v, list):
                raise Unspec()
            env[s[1]] = self.arith('+' if s[2] == '++' else '-', v, Fraction(1))
            return env[s[1]]
        if k == 'op':
            b = self.ev(s[3], env)
            v = env.get(s[1], UNSET)
            if b is UNSET or v is UNSET:
                if not isinstance(v, list) and not isinstance(b, list):
                    raise Err()
                raise Unspec()
            env[s[1]] = self.arith(s[2], v, b)
            return env[s[1]]
        if k == 'or':
            v = self.ev(s[2], env)
            if v is UNSET or isinstance(v, list) or isinstance(env.get(s[1]), list):
                raise Unspec()
            if s[1] not in env:
                env[s[1]] = v
            return env[s[1]]
        raise AssertionError(s)


def m_plain(v):
    if isinstance(v, Fraction):
        return ('num', v, '')
    if isinstance(v, Fn):
        return ('item', 'inline_function', v.text, '')
    if isinstance(v, str):
        return ('error',) if v == 'ERR' else ('str', v, '')
    return ('list', tuple(m_plain(x) for x in v), '')


def has_ext(f, files):
    return isinstance(f, str) and f in files


# ---- running ---------------------------------------------------------------------------------------

def run(case, mon):
    with tempfile.TemporaryDirectory(prefix='rvc08') as d:
        {'prog': run_prog, 'declared': run_declared, 'runaway': run_runaway, 'rewrite': run_rewrite, 'novalue': run_novalue, 'many': run_many}[case['kind']](case, mon, d)


def run_prog(case, mon, d):
    import copy
    case = copy.deepcopy(case)
    c = shared_calc()
    c.vars.clear()
    rng = random.Random(case['lay'])
    files, env, prog = {}, {}, []
    for n, kind, body in case['defs']:
        if kind == 'ext':
            p = os.path.join(d, n)
            with open(p, 'w') as fh:
                fh.write(r_block(body, rng) + rng.choice(['', '\n', '\n\n# end\n']))
            files[p] = body
            env[n] = p
            text = "{} = '{}'".format(n, p)
        else:
            t = r_inline(body, rng)
            env[n] = Fn(t, body)
            text = '{} = {}'.format(n, t)
        prog.append(text)
        o = calc(c, text)
        if not o.ok:
            raise Violation('a function definition fails', text=text, got=o.describe(c))
    mon.sample('\n'.join(prog)[:300])
    m = Model(files)
    for s in case['top']:
        text = r_stmt(s, rng)
        prog.append(text)
        m.steps = 0
        saved = dict(env)
        try:
            want = ('ok', m_plain(m.stmt(s, env)))
        except Err:
            want = ('err',)
            env.clear()
            env.update(saved)
        except Unspec:
            # what the statement yields is not specified (unset arguments, ...): end of the judged history
            mon.obs('ended_unspecified')
            return
        o = calc(c, text)
        hist = '\n'.join(prog)
        if o.kind in ('raw', 'parse'):
            raise Violation('unexpected failure of a call', program=hist, got=repr(o.exc))
        if want[0] == 'err':
            if not o.failed:
                raise Violation('a call that must fail gives a result', program=hist, got=o.describe(c))
            mon.obs('failed_call_store', hist)
        else:
            if not o.ok:
                raise Violation('a call fails', program=hist, got=o.describe(c), expected=want[1])
            got = plain_result(c, o.last())
            mon.obs('call_result', hist)
            if want[1][0] == 'list':
                mon.obs('broadcast')
            if any(k in text for k in ("@f", "@PARAM")) and files:
                mon.obs('external_isolated')
            if got != want[1]:
                raise Violation('a function call gives a wrong result', program=hist, got=got, expected=want[1])
        got = vars_plain(c, False)
        exp = {k: m_plain(v) for k, v in env.items()}
        mon.obs('store_after_call', (hist, 's'))
        if got != exp:
            raise Violation("the caller's variables are not as they should be after a call", program=hist,
                            got={k: (got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)})


def run_novalue(case, mon, d):
    """A function returns what its last statement gives: nothing when that has no value, whatever came before."""
    rng = random.Random(case['seed'])
    c = new_calc()
    k = rng.randint(-50, 50)
    before = rng.sample(['lw = {}'.format(k), '{}'.format(k), "'text'", 'lq = [1, 2]', 'lw = 3 m', 'lc = 1; lc = 2'.replace('; ', '\n'), 'true'], rng.randint(0, 3))
    last = rng.choice(['delete(ld)', 'reset()', 'unsetname', 'value'])
    if last == 'delete(ld)':
        before.append('ld = {}'.format(k))
    want = None
    if last == 'value':
        last, want = rng.choice([('{} + 1'.format(k), Fraction(k + 1)), ('le = {}'.format(k), Fraction(k)), ('PARAM1 + PARAM1', Fraction(2 * (k + 60)))])
    body = '\n'.join(x + rng.choice(['', '', ' # c', '\n# 9', '\n\n']) for x in before + [last])
    if rng.random() < .5:
        p = os.path.join(d, 'fn')
        with open(p, 'w') as fh:
            fh.write(body + rng.choice(['', '\n', '\n\n# end\n']))
        define = "fu = '{}'".format(p)
    else:
        define = 'fu = {{{}\n}}'.format(body)
    o = calc(c, define + '\nkeep = 41')
    if not o.ok:
        raise Violation('a function definition fails', text=define, got=o.describe(c))
    call = '@fu({})'.format(k + 60)
    o = calc(c, call)
    mon.obs('no_value' if want is None else 'last_value', body)
    if not o.ok or o.last() is None:
        raise Violation('a call of a function fails', text=define, body=body, call=call, got=o.describe(c) + ' ' + str(o.message))
    got = o.last().value
    if want is None:
        if got is not None:
            raise Violation('a function whose last statement has no value returns an earlier one', text=define, body=body, call=call, got=o.describe(c))
        if not calc(c, '1 + ' + call).failed:
            raise Violation('the missing value of a function is accepted as an operand', text=define, body=body, call='1 + ' + call)
    elif frac(got) != want:
        raise Violation('a function does not return the value of its last statement', text=define, body=body, call=call, got=o.describe(c), expected=str(want))
    if set(c.vars) != {'fu', 'keep'}:
        raise Violation("the caller's variables are not as they should be after a call", text=define, body=body, call=call, got=sorted(c.vars))


def run_runaway(case, mon, d):
    """Recursion without end is an error, and the state survives it."""
    c = new_calc()
    p = os.path.join(d, 'rec')
    with open(p, 'w') as fh:
        fh.write('loc = PARAM1\n@PARAM2(PARAM1 + 1, PARAM2)\n')
    w = case['which']
    setup = ["va = 3", "PARAM1 = 'outer'", "f = {va = va + 1\nPARAM2 = 4\n@f(PARAM1)}".replace('f', 'ff'), "ex = '{}'".format(p), "hh = {@ff(PARAM1) + 1}"]
    for t in setup:
        o = calc(c, t)
        if not o.ok:
            raise Violation('set-up fails', text=t, got=o.describe(c))
    before = vars_plain(c)
    text = ['@ff(1)', '@ex(1, ex)', '@hh(1)', '@ff([1, 2])', '@ex(1, {@ex(1, PARAM2)})'][w]
    o = calc(c, text)
    mon.obs('runaway', w)
    if o.kind == 'raw' or (o.ok and w != 3 and not (o.last() is not None and isinstance(o.last().value, Exception))):
        raise Violation('endless recursion is not an error', text=text, got=repr(o.exc) if o.exc else o.describe(c))
    if vars_plain(c) != before:
        raise Violation("endless recursion left the caller's variables altered", text=text, got=vars_plain(c), expected=before)


def run_many(case, mon, d):
    """Functions of many parameters: every one is seen by its own number, and the caller's are as before."""
    c = shared_calc()
    c.vars.clear()
    args, n = case['args'], len(case['args'])
    refs = ['PARAM{}'.format(i) for i in range(1, n + 1)]
    body = 'PARAM{} = 7777\nPARAM{} = 8888\n'.format(n + 1, n + 2) if case['fail'] else ''
    body += '[' + ', '.join(refs + ['PARAM{}'.format(i) for i in case['pick']]) + ']'
    for i in case['outer']:
        calc(c, "PARAM{} = 'outer{}'".format(i, i))
    if case['ext']:
        p = os.path.join(d, 'many')
        with open(p, 'w') as fh:
            if case['declared']:
                fh.write('#INPUT ' + ' '.join('number' if not a.startswith("'") else 'string' for a in args) + '\n')
            fh.write(body + '\n')
        text = "ff = '{}'".format(p)
    else:
        text = 'ff = {\n' + body + '\n}'
    before = vars_plain(c)
    calc(c, text)
    before = vars_plain(c)
    call = '@ff({})'.format(', '.join(args))
    r = value_of(c, call)
    mon.obs('many', (text, call))
    exp = plain_result(c, value_of(c, '[' + ', '.join(args + [args[i - 1] for i in case['pick']]) + ']'))
    if plain_result(c, r) != exp:
        raise Violation('a function of many parameters does not see them by their numbers', text=text, call=call, got=show(c, r), expected=exp)
    if vars_plain(c) != before:
        raise Violation("the caller's variables changed", text=text, call=call, got=vars_plain(c), expected=before)


# ---- declared inputs ---------------------------------------------------------------------------------

# argument text, the kinds it has, and its dimension
ARGS = [
    ('5', {'number'}, {}), ('-2.5', {'number'}, {}), ('0x1F', {'number'}, {}), ("'abc'", {'string'}, {}), ("'x y'", {'string'}, {}),
    ("'2020-02-29'", {'string', 'date'}, {}),
    ('5 m', {'number', 'q'}, {'length': 1}), ('3 s', {'number', 'q'}, {'time': 1}), ('2 km/hour', {'number', 'q'}, {'length': 1, 'time': -1}),
    ('7 m/s^2', {'number', 'q'}, {'length': 1, 'time': -2}), ('4 m^2', {'number', 'q'}, {'length': 2}), ('1 acre', {'number', 'q'}, {'length': 2}),
    ('9 kg', {'number', 'q'}, {'mass': 1}), ('3 litres', {'number', 'q'}, {'length': 3}), ('2 newtons', {'number', 'q'}, {'mass': 1, 'length': 1, 'time': -2}),
    ('7 s^-2 m', {'number', 'q'}, {'length': 1, 'time': -2}), ('2 m kg / s^2', {'number', 'q'}, {'mass': 1, 'length': 1, 'time': -2}),
    ('4 s^-1 km', {'number', 'q'}, {'length': 1, 'time': -1}),
    ('6 hertz', {'number', 'q'}, {'time': -1}),
]
# anything counts as text
ARRAYS = [
    ('[1, 2, 3]', {'array', 'array[number]', 'array[string]'}), ("['a', 'b']", {'array', 'array[string]'}), ("[1, 'b']", {'array', 'array[string]'}), ('[1 m, 2 km]', {'array', 'array[number]', 'array[string]'}),
    ("['2020-01-01', '1999-12-31']", {'array', 'array[string]', 'array[date]'}),
]
DIMS = [({'length': 1}, 'distance'), ({'time': 1}, 'time'), ({'length': 1, 'time': -1}, 'distance,time^-1'), ({'length': 1, 'time': -2}, 'distance,time^-2'),
        ({'length': 2}, 'distance^2'), ({'mass': 1}, 'mass'), ({'length': 3}, 'distance^3'), ({'time': -1}, 'time^-1'),
        ({'mass': 1, 'length': 1, 'time': -2}, 'mass,distance,time^-2')]


def g_declared(rng):
    n = rng.randint(1, 4)
    decl, args = [], []
    for k in range(n):
        r = rng.random()
        if r < .4:
            decl.append(['number', rng.choice(DIMS) if rng.random() < .75 else None])
        elif r < .8:
            decl.append([rng.choice(['array', 'array[number]', 'array[string]', 'array[date]']), None])
        elif r < .9:
            decl.append(['date', None])
        else:
            decl.append(['number', None])
    for k in range(rng.choice([n, n, n, n + 1, max(0, n - 1)])):
        fit = rng.random() < .6
        pool = [list(a) for a in ARGS] + [[a, b, {}] for a, b in ARRAYS]
        if fit and k < n:
            pool = [a for a in pool if ok_arg(decl[k], a)] or pool
        a = rng.choice(pool)
        args.append([a[0], sorted(a[1]), a[2]])
    return {'kind': 'declared', 'decl': decl, 'args': args, 'sep': rng.choice([' ', '  ', '\t'])}


def ok_arg(decl, a):
    kind, dim = decl
    if kind not in a[1]:
        return False
    return dim is None or dict(a[2]) == dim[0]


def run_declared(case, mon, d):
    decl, args = case['decl'], case['args']
    # an array passed where no array is declared is stepped through: only judged when every declared array position is fine
    c = shared_calc()
    c.vars.clear()
    p = os.path.join(d, 'ext')
    head = '#INPUT' + ''.join(case['sep'] + k + (':' + dm[1] if dm else '') for k, dm in decl)
    with open(p, 'w') as fh:
        fh.write(head + '\n\nmine = 5\n[{}]\n'.format(', '.join('PARAM{}'.format(i + 1) for i in range(len(args))) or '0'))
    calc(c, "ff = '{}'\nPARAM1 = 77\nother = 8 m".format(p))
    before = vars_plain(c)
    text = '@ff({})'.format(', '.join(a[0] for a in args))
    for i, a in enumerate(args):
        if a[0].startswith('[') and not (i < len(decl) and decl[i][0].startswith('array')):
            raise Skip('stepped through')
    good = all(ok_arg(dc, a) for dc, a in zip(decl, args))
    o = calc(c, text)
    if o.kind in ('raw', 'parse'):
        raise Violation('unexpected failure', header=head, text=text, got=repr(o.exc))
    if good:
        mon.obs('declared_accept', (head, text))
        if not o.ok:
            raise Violation('arguments that fit the declared inputs are rejected', header=head, text=text, got=o.describe(c))
        got = plain_result(c, o.last())
        exp = plain_result(c, value_of(c, '[{}]'.format(', '.join(a[0] for a in args) or '0')))
        if got != exp:
            raise Violation('the function does not see its arguments', header=head, text=text, got=got, expected=exp)
    else:
        mon.obs('declared_reject', (head, text))
        if not o.failed:
            raise Violation('an argument that does not fit its declared input is accepted', header=head, text=text, got=o.describe(c))
    if vars_plain(c) != before:
        raise Violation("the caller's variables changed", header=head, text=text, got=vars_plain(c), expected=before)


# --- files that change between calls ---------------------------------------------------------------

HEADS = ['', '', '', '{s}INPUT number', '{s}INPUT number number', '{s}INPUT number:time', '{s}INPUT number:distance', '{s}INPUT array', '{s}INPUT date', '{s} note', '{s}INPUT  number\tnumber']
R_ARGS = [('5', 'number', None), ('3 s', 'number', 'time'), ("'ab'", 'string', None), ('2 m', 'number', 'distance'), ("'2020-01-01'", 'date', None), ('8', 'number', None)]


def g_rewrite(rng):
    steps = []
    for _ in range(rng.randint(3, 8)):
        w = rng.choice(['ea', 'ea', 'eb'])
        r = rng.random()
        if not steps or r < .4:
            # the size and the time of the file may stay as they were
            steps.append(['write', w, rng.choice(HEADS), rng.randint(10, 99), rng.choice(['over', 'over', 'replace', 'append']), rng.random() < .5])
        elif r < .48:
            steps.append(['remove', w])
        steps.append(['call', w, rng.choice(R_ARGS), rng.choice(['var', 'var', 'home', 'array', 'fn'])])
    return {'kind': 'rewrite', 'steps': steps, 'symbol': rng.choice(['#', '#', '#', '$', '?', '//', '.'])}


def run_rewrite(case, mon, d):
    """Every call works with the content the file has at that moment."""
    c = new_calc()
    sym = case['symbol']
    c.feature_options['nonfunctional.comments']['Symbol'] = sym
    home = os.environ.get('HOME')
    files, hist = {}, []
    mon.sample(case['steps'])
    try:
        os.environ['HOME'] = d
        for s in case['steps']:
            p = os.path.join(d, s[1])
            if s[0] == 'write':
                head = s[2].format(s=sym)
                body = '[{}, PARAM1]'.format(s[3])
                text = head + '\n' + body + '\n'
                if s[4] == 'append' and s[1] in files:
                    with open(p, 'a') as fh:
                        fh.write('\n' + body + '\n')
                    files[s[1]] = (files[s[1]][0], s[3])
                elif s[4] == 'replace':
                    with open(p + '.new', 'w') as fh:
                        fh.write(text)
                    os.replace(p + '.new', p)
                    files[s[1]] = (head, s[3])
                else:
                    with open(p, 'w') as fh:
                        fh.write(text)
                    files[s[1]] = (head, s[3])
                if s[5]:
                    os.utime(p, (10 ** 9, 10 ** 9))
                hist.append(['write', s[1], s[4], text])
                continue
            if s[0] == 'remove':
                if s[1] in files:
                    os.remove(p)
                    del files[s[1]]
                hist.append(s)
                continue
            arg, kind, dim = s[2]
            ref = {'var': "f = '{}'".format(p), 'home': "f = '~/{}'".format(s[1]), 'array': "f = ['{}']".format(p), 'fn': "gg = '{}'\nf = {{ @gg(PARAM1) }}".format(p)}[s[3]]
            text = '{}\n@f({})'.format(ref, arg)
            hist.append(text)
            good = s[1] in files
            if good:
                m = files[s[1]][0].replace(sym, '', 1).split()
                if m and m[0] == 'INPUT':
                    want = m[1].split(':')
                    good = want[0] == kind or want[0] == 'string' and kind == 'date'
                    if len(want) > 1:
                        good = good and want[1] == dim
                mon.obs('file_version', (str(hist),))
            else:
                mon.obs('file_missing', (str(hist),))
            o = calc(c, text)
            if o.kind in ('raw', 'parse'):
                raise Violation('unexpected failure of a call', history=hist, got=repr(o.exc))
            got = o.describe(c)
            if good:
                exp = plain_result(c, value_of(c, '[{}, {}]'.format(files[s[1]][1], arg)))
                if not o.ok:
                    raise Violation('a call of an external function fails', history=hist, got=got)
                res = plain_result(c, o.last())
                if s[3] == 'array':
                    exp = ('list', (exp,), '')
                if res != exp:
                    raise Violation('a call does not use what the file holds now', history=hist, got=res, expected=exp)
            else:
                if o.ok and not (s[3] == 'array' and isinstance(o.last().value, list) and isinstance(o.last().value[0].value, Exception)):
                    raise Violation('a call succeeds that the file as it is now does not allow', history=hist, got=got)
    finally:
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home


def shrink(case):
    if case['kind'] == 'rewrite':
        for i in range(len(case['steps'])):
            yield dict(case, steps=case['steps'][:i] + case['steps'][i + 1:])
    if case['kind'] != 'prog':
        return
    for key in ('top', 'defs'):
        for k in range(len(case[key])):
            yield dict(case, **{key: case[key][:k] + case[key][k + 1:]})
    for k, (n, kind, body) in enumerate(case['defs']):
        for j in range(len(body) - 1):
            nb = body[:j] + body[j + 1:]
            yield dict(case, defs=case['defs'][:k] + [[n, kind, nb]] + case['defs'][k + 1:])
