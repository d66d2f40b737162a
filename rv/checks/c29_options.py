"""C29: configured symbols and formats replace the default ones everywhere and mean the same."""
import datetime
import random
import re
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C29'
TECHNIQUE = ('runtime monitor, metamorphic: a generated program in the default notation on a default calculator, and the same program token by token in the configured notation on a calculator with '
             'other symbols, escape, array notation, exponent sign and date formats; values, displayed texts, failures, items and variables compared; the replaced notation must be refused')
RULE = ('every subset of the symbol options with one- and several-character symbols (regular expression characters included), set before first use or on a calculator already in use, set again; typed '
        'programs over every construct; date formats in all six variants; distinct by options and program')
BUDGET = {'quick': 9000, 'thorough': 200000}
NEED = {'program': 2900, 'failed': 120, 'items': 2700, 'store': 2900, 'old_refused': 1200, 'date': 1500, 'readback': 200, 'exponent': 400, 'reset': 710}
ASSUMPTIONS = ['the configured symbols differ from each other and from the beginnings of operators, names and literals', 'string and escape symbols are one character, and date formats keep the width of the default ones']

TERM = ('structure.terminator', 'Symbol')
PTR = ('structure.functionpointers', 'Symbol')
COM = ('nonfunctional.comments', 'Symbol')
EXP = ('numerical.expnumbers', 'Symbol')
QUOTE = ('strings.strings', 'Symbol')
ESC = ('strings.strings', 'Escape Char')
OPEN, CLOSE, PARAM, RANGE, STEP = (('arrays.arrays', n) for n in ('Open', 'Close', 'Param', 'Range', 'Step'))
DEFAULT = {TERM: '\n', PTR: '@', COM: '#', EXP: 'E', QUOTE: "'", ESC: '\\', OPEN: '[', CLOSE: ']', PARAM: ',', RANGE: '..', STEP: 'step'}
CHARS = [';', '"', '`', '?', ':', '\u00a7', '\u00ac', '\u20ac', '\u00a3', '\u00b7', '\u00bf', '\u00ab', '\u00bb', '#', "'", '@', ',', '[', ']', '$']


def g_options(rng, only=None):
    """A consistent set of symbols: no two begin with the same character."""
    free = [x for x in CHARS if x not in ("'", '@', ',', '[', ']', '#', '$')]
    rng.shuffle(free)
    keys = [only] if only else [k for k in DEFAULT if rng.random() < .5] or [EXP]
    out = {}
    for k in keys:
        if k == EXP:
            out[k] = rng.choice(['T', 'P', 'e', 'exp', 'pow', '*^', 'EE', '\u00d710^', 't', '.e'])
        elif k == ESC:
            out[k] = rng.choice(['/', '%', '!', '~', '|', '^', '+'])
        elif k == QUOTE:
            out[k] = free.pop()
        elif k == STEP:
            out[k] = rng.choice(['by', 'stride', 'with', free.pop()])
        elif k == RANGE:
            out[k] = rng.choice([free.pop(), '...'])
        elif k == OPEN:
            out[k] = rng.choice([free.pop(), '[[', '[:'])
        elif k == CLOSE:
            out[k] = rng.choice([free.pop(), ']]', ':]'])
        else:
            x = free.pop()
            out[k] = rng.choice([x, x, x * 2, x + rng.choice('-*/|&') if k != TERM else x * 3, x + rng.choice(['!!', '/*', '-' + x, '=' + x + x])])
    if ':]' in out.values() or '[:' in out.values():
        for k, v in out.items():
            if v.startswith(':') and v != ':]':
                return g_options(rng, only)
    return out


EXPLIT = re.compile(r'(-?\d+(?:\.\d+)?)[eE](-?\d+)')
SHOWN = re.compile(r'(-?\d+(?:\.\d+)?)E(-?\d+)')


def requote(t, o):
    raw = re.sub(r'\\(.)', r'\1', t[1:-1], flags=re.S)
    q, e = o[QUOTE], o[ESC]
    return q + ''.join(e + x if x in (q, e) else x for x in raw) + q


def translate(tokens, o, rng):
    out, stack = [], []
    for t in tokens:
        if t in ('(', '[', '{'):
            stack.append(t)
        elif t in (')', ']', '}'):
            stack.pop()
        if t == progs.GLUE:
            out.append(t)
        elif t[0] == "'" and len(t) > 1:
            out.append(requote(t, o))
        elif t == '[':
            out.append(o[OPEN])
        elif t == ']':
            out.append(o[CLOSE])
        elif t == ',' and stack and stack[-1] == '[':
            out.append(o[PARAM])
        elif t == '..':
            out.append(o[RANGE])
        elif t == 'step':
            out.append(o[STEP])
        elif t == '@':
            out.append(o[PTR])
        elif t == '\n':
            out.append(o[TERM])
        elif EXPLIT.fullmatch(t):
            m = EXPLIT.fullmatch(t)
            s = o[EXP]
            if s.isalpha() and rng.random() < .3:
                s = s.swapcase()
            out.append(m[1] + s + m[2])
        else:
            out.append(t)
    return out


def join(tokens):
    out, glue = '', True
    for t in tokens:
        if t == progs.GLUE:
            glue = True
            continue
        out += t if glue or not out else ' ' + t
        glue = False
    return out


def program(stmts, o, seed):
    rng = random.Random(seed)
    parts = []
    for s in stmts:
        t = join(translate(s, o, rng))
        r = rng.random()
        if r < .2:
            # a comment to the end of the line
            t += ' ' + o[COM] + rng.choice([' note', '', ' 1 + (', ' x = 5', ' a long note' * rng.choice([10, 40, 100]), ' ' + o[COM] + " it's"])
            t += o[TERM] if o[TERM] == '\n' else '\n' + o[TERM]
        else:
            t += o[TERM]
        parts.append(t)
    return ''.join(parts)


FAMILIES = [
    ('%d/%m/%Y', 'T%H:%M:%S', '.%f', '%z'), ('%m-%d-%Y', ' %H:%M:%S', '.%f', '%z'), ('%Y.%m.%d', '@%H-%M-%S', ',%f', '%z'), ('%Y/%d/%m', ' %S:%M:%H', ';%f', '%z'), ('%m %d %Y', '|%H:%M:%S', '_%f', '%z'),
]
KEYS = ['Date Format', 'Date + Time Format', 'Date + Hi Res Time Format', 'Date + Timezone Format', 'Date + Time + Timezone Format', 'Date + Hi Res Time + Timezone Format']
HUMAN = [['%A, %d-%b-%Y', '%j of %Y', '%d %B %Y', 'week %W %a'], [' at %H:%M:%S', ' %I:%M:%S %p', '/%S %M %H']]


def g_dates(rng):
    d, t, f, z = rng.choice(FAMILIES)
    fm = dict(zip(KEYS, [d, d + t, d + t + f, d + z, d + t + z, d + t + f + z]))
    h, ht = rng.choice(HUMAN[0]), rng.choice(HUMAN[1])
    hm = dict(zip(['Human Readable ' + k for k in KEYS], [h, h + ht, h + ht + '.%f', h + ' %z', h + ht + ' %z', h + ht + '.%f %z']))
    if rng.random() < .3:
        hm = {}
    mom = []
    for _ in range(2):
        us = rng.choice([0, 0, rng.randint(1, 999999)])
        tm = (0, 0, 0) if not us and rng.random() < .4 else (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
        mom.append([rng.randint(1500, 8000), rng.randint(1, 12), rng.randint(1, 28)] + list(tm) + [us])
    return {'kind': 'date', 'fm': fm, 'hm': hm, 'm': mom, 'tz': rng.choice([None, None, 0, 120, -330]), 'q': [rng.randint(-9999, 9999), rng.choice(['days', 'hours', 'minutes', 'seconds', 'weeks', 'milliseconds'])],
            'used': rng.random() < .5, 'sym': {'|'.join(k): v for k, v in (g_options(rng) if rng.random() < .3 else {}).items() if k in (QUOTE, ESC, OPEN, CLOSE, PARAM)}}


OLD = {TERM: ['5\n6', 'xx = 5\nxx'], PTR: ['@f(1)', '@f([1, 2])'], COM: ['5 # 6', '# x', '5 #'], EXP: ["2e3", '-5E12', '1.5e7', "'2e3' + 1"], QUOTE: ["'abc'", "''", "length('a')"],
       OPEN: ['[1, 2]', 'count([1])'], CLOSE: ['[1, 2]', 'count([1])'], PARAM: ['[1, 2]', 'sum([1, 2])'], RANGE: ['[1 .. 5]', 'count([1 .. 5, 7])'], STEP: ['[1 .. 9 step 2]', '[9 .. 1 step -2]']}


def gen(rng, i, tier):
    r = rng.random()
    if r < .2:
        return g_dates(rng)
    if r < .4:
        k = rng.choice(sorted(OLD))
        o = g_options(rng, k)
        if EXP in o and o[EXP].lower() == 'e':
            o[EXP] = 'T'
        if RANGE in o and o[RANGE].startswith('.'):
            o[RANGE] = ':'
        if OPEN in o and o[OPEN].startswith('['):
            o[OPEN] = '\u00ab'
        return {'kind': 'old', 'o': {'|'.join(k): v for k, v in o.items()}, 't': rng.choice(OLD[k]), 'used': rng.random() < .5}
    g = progs.Gen(rng, errors=rng.choice([0, 0, 0, .04]), dates=False)
    stmts = g.program(rng.randint(1, 5), rng.choice([1, 2, 2, 3]))
    if rng.random() < .35:
        stmts.insert(rng.randint(0, len(stmts)), [rng.choice(['{}e{}', '{}.5E{}', '{}e-{}', '-{}e{}']).format(rng.randint(1, 99), rng.randint(0, 12))] + rng.choice([[], ['+', '1'], ['as', 'scientific'], ['*', '3e2'], ['km']]))
    if rng.random() < .2:
        stmts.append(['scientific', progs.GLUE, '(', str(rng.randint(1, 10 ** 6)), rng.choice(['/', '*']), '7', ')'])
    return {'kind': 'sym', 'o': {'|'.join(k): v for k, v in g_options(rng).items()}, 'stmts': stmts, 'seed': rng.randint(0, 10 ** 9), 'used': rng.choice([0, 0, 1, 2]),
            'first': {'|'.join(k): v for k, v in g_options(rng).items()}}


def opts(d):
    return {tuple(k.split('|')): v for k, v in d.items()}


def apply(c, o):
    for (f, n), v in o.items():
        c.feature_options[f][n] = v


WARM = "xx = [1, 2e3, 'a']\nff = { PARAM1 + 1 } # c\n@ff(5)\n[1 .. 9 step 3]\n'2e3' + 1\n2e3 as scientific\ndateadd('2020-01-01', 1 day)\nreset()"


def mapped(p, o, text):
    """What a plain value of the default calculator looks like on the configured one."""
    k = p[0]
    if k == 'num':
        m = SHOWN.fullmatch(p[3]) if len(p) > 3 else None
        return p[:3] + (m[1] + o[EXP] + m[2] if m else p[3],) if len(p) > 3 else p
    if k == 'list':
        return (k, tuple(mapped(x, o, text) for x in p[1]), p[2])
    if k == 'item':
        return (k, p[1])
    return p


def own(p):
    if p[0] == 'list':
        return (p[0], tuple(own(x) for x in p[1]), p[2])
    return p[:2] if p[0] == 'item' else p


def bodies(p):
    if p[0] == 'item':
        yield p[2]
    elif p[0] == 'list':
        for x in p[1]:
            yield from bodies(x)


def run(case, mon):
    {'sym': run_sym, 'old': run_old, 'date': run_date}[case['kind']](case, mon)


def run_sym(case, mon):
    o = {**DEFAULT, **opts(case['o'])}
    a, b = shared_calc(), new_calc()
    a.vars.clear()
    if case['used']:
        calc(b, WARM)
        if case['used'] == 2:
            # configured in another way in between
            apply(b, {**DEFAULT, **opts(case['first'])})
            calc(b, program([['xx', '=', '[', '1', ',', '2e3', ',', "'a'", ']'], ['[', '1', '..', '9', 'step', '3', ']'], ['5e1', 'as', 'scientific']], {**DEFAULT, **opts(case['first'])}, 1))
            calc(b, 'reset()')
            apply(b, DEFAULT)
            mon.obs('reset')
    apply(b, opts(case['o']))
    ta, tb = program(case['stmts'], DEFAULT, case['seed']), program(case['stmts'], o, case['seed'])
    mon.sample([case['o'], tb])
    key = (tuple(sorted(case['o'].items())), tb)
    oa, ob = calc(a, ta), calc(b, tb)
    info = dict(options=case['o'], default=ta, configured=tb)
    if oa.kind in ('raw', 'parse'):
        raise Violation('a generated program does not parse', got=oa.describe(a), **info)
    mon.obs('program', key)
    if oa.kind != ob.kind:
        raise Violation('a program has another outcome in the configured notation', got=ob.describe(b), expected=oa.describe(a), **info)
    if not oa.ok:
        mon.obs('failed')
    ra, rb = [x for x in oa.results if x.has_result()], [x for x in ob.results if x.has_result()]
    pa, pb = [plain_result(a, x, True) for x in ra], [plain_result(b, x, True) for x in rb]
    if [mapped(p, o, tb) for p in pa] != [own(p) for p in pb]:
        raise Violation('a program has other results in the configured notation', got=pb, expected=pa, **info)
    for p in pb:
        for t in bodies(p):
            if t not in tb:
                raise Violation('the text of a function is not what was written', got=t, **info)
    for r, p in zip(rb, pb):
        if p[0] == 'num' and len(p) > 3 and SHOWN.fullmatch(p[3].replace(o[EXP], 'E')) and o[EXP] in p[3]:
            mon.obs('exponent')
            x = calc(b, p[3], {'stateless': True})
            mon.obs('readback')
            if not x.ok or not isinstance(x.last().value, Number) or x.last().value.to_string(b) != p[3]:
                raise Violation('a number displayed with the configured symbol does not read back', got=x.describe(b), shown=p[3], **info)
    va, vb = vars_plain(a), vars_plain(b)
    mon.obs('store')
    if {k: mapped(v, o, tb) for k, v in va.items()} != {k: own(v) for k, v in vb.items()}:
        raise Violation('the variables are not the same in the configured notation', got=vb, expected=va, **info)
    if ob.ok:
        mon.obs('items')
        t = ''.join(i.text for r in ob.results for i in r.items)
        if t != tb:
            raise Violation('the items do not make up the text in the configured notation', got=t, **info)


def run_old(case, mon):
    o = opts(case['o'])
    c = new_calc()
    if case['used']:
        calc(c, WARM)
        calc(c, case['t'])
        calc(c, 'reset()')
    apply(c, o)
    calc(c, 'f = { PARAM1 + 1 }')
    r = calc(c, case['t'])
    mon.obs('old_refused', (str(o), case['t']))
    if not r.failed:
        raise Violation('the replaced notation is still accepted', options=case['o'], text=case['t'], got=r.describe(c))


def run_date(case, mon):
    a, b = shared_calc(), new_calc()
    a.vars.clear()
    o = {**DEFAULT, **opts(case['sym'])}
    if case['used']:
        calc(b, WARM)
    apply(b, opts(case['sym']))
    b.feature_options['dates.dates'].update(case['fm'])
    b.feature_options['dates.datefunctions'].update(case['hm'])
    default = new_calc() if 'fm' not in _D else None
    if default:
        _D['fm'] = dict(default.feature_options['dates.dates'])
        _D['hm'] = dict(default.feature_options['dates.datefunctions'])
    tz = None if case['tz'] is None else datetime.timezone(datetime.timedelta(minutes=case['tz']))
    ms = [datetime.datetime(*m, tzinfo=tz) for m in case['m']]

    def which(m):
        t = 2 if m.microsecond else 1 if (m.hour or m.minute or m.second) else 0
        return KEYS[t + (3 if m.tzinfo else 0)]
    wa = [m.strftime(_D['fm'][which(m)]) for m in ms]
    wb = [m.strftime(case['fm'][which(m)]) for m in ms]
    n, u = case['q']
    hm = dict(_D['hm'], **case['hm'])
    for form, res in (('dateadd({0}, {2} {3})', 'date'), ('datesubtract({0}, {2} {3})', 'date'), ('{0} +% ({2} {3})', 'date'), ('{0} -% ({2} {3})', 'date'), ('datedifference({0}, {1})', 'num'), ('dateformat({0})', 'human'),
                      ('dateformat(dateadd({0}, {2} {3}))', 'human'), ('datedifference(dateadd({0}, {2} {3}), {0})', 'num'), ('dateadd(dateadd({0}, {2} {3}), {2} {3})', 'date'), ('dateadd([{0}, {1}], {2} {3})', 'dates')):
        ea = form.format(progs.quote(wa[0]), progs.quote(wa[1]), n, u)
        eb = form.replace('[', o[OPEN]).replace(']', o[CLOSE]).replace('{0}, {1}', '{0}' + o[PARAM] + ' {1}' if res == 'dates' else '{0}, {1}').format(requote(progs.quote(wb[0]), o), requote(progs.quote(wb[1]), o), n, u)
        xa, xb = value_of(a, ea), value_of(b, eb)
        mon.obs('date', (str(case['fm']), eb))

        def moment(s):
            for k in KEYS:
                try:
                    return datetime.datetime.strptime(s, _D['fm'][k])
                except ValueError:
                    pass
            raise Violation('a date is not shown in the default notation', text=ea, got=s)

        def human(s):
            for k in KEYS:
                try:
                    return datetime.datetime.strptime(s, _D['hm']['Human Readable ' + k])
                except ValueError:
                    pass
            return None
        if res == 'num':
            want, got = plain_result(a, xa, True), plain_result(b, xb, True)
        elif res == 'date':
            m = moment(xa.value)
            want, got = m.strftime(case['fm'][which(m)]), xb.value
        elif res == 'dates':
            want = [m.strftime(case['fm'][which(m)]) for m in (moment(x.value) for x in xa.value)]
            got = [x.value for x in xb.value]
        else:
            m = human(xa.value)
            if m is None:
                continue
            want, got = m.strftime(hm['Human Readable ' + which(m)]), xb.value
        if got != want:
            raise Violation('a date calculation is not the same in the configured formats', options=case['fm'], human=case['hm'], default=ea, configured=eb, got=got, expected=want)
    # the replaced format is no date any more
    e = 'dateadd({}, 1 day)'.format(requote(progs.quote(wa[0]), o))
    r = calc(b, e)
    mon.obs('old_refused', (str(case['fm']), e))
    if not r.failed:
        raise Violation('a date in the replaced format is still accepted', options=case['fm'], text=e, got=r.describe(b))


_D = {}


def shrink(case):
    if case['kind'] == 'sym':
        for i in range(len(case['stmts'])):
            if len(case['stmts']) > 1:
                yield dict(case, stmts=case['stmts'][:i] + case['stmts'][i + 1:])
        if case['used']:
            yield dict(case, used=0)
        for k in case['o']:
            if len(case['o']) > 1:
                yield dict(case, o={x: v for x, v in case['o'].items() if x != k})
