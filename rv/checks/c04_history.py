"""C04: results depend only on the text and stored variables, not on earlier calls."""
import random
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *
from rv.checks import c22_isolation as cfg

ID = 'C04'
TECHNIQUE = ('runtime monitor: differential history checker - a calculator with a long mixed history against a fresh one that executed only the '
             'effective statements, one per call; every outcome and the whole variable store compared')
RULE = ('histories of 3-9 calls: generated programs (with failing statements), unparsable and damaged texts, stateless/parse-only calls and '
        'a small pool of probe expressions repeated under changing variables; failing statements holding a completed nested assignment, alone '
        'and after other statements; histories mixing configuration changes with a small pool of setting-sensitive texts, every text also run by a '
        'fresh calculator with the same configuration and variables; distinct by history text')
BUDGET = {'quick': 4000, 'thorough': 120000}
NEED = {'outcome': 8000, 'store': 4000, 'failed_call': 1500, 'parse_failed_call': 800, 'probe': 4000, 'split_call': 3000, 'nested': 800, 'configured': 2500, 'config': 1000}

PROBES = ['{a} + {b}', '{a}', '({a}) == ({b})', 'max({a}, {b})', '{a} +$ {b}', "[{a}, {b}]", '{a} then 1 else 2', 'count([{a}, 5])', '{a} * 2', '-{n}',
          '@{a}(3)', '{a}{b}', '{a} then', '{a}then 5', 'element({a}, 1)', '{a} to metres', 'length({a})', '{a} as hexadecimal', 'format({a})', '2 {a}']


# a failing statement in which assignments complete before what uses their value fails: text, what they stored
NESTED = [('({x} = {n}) / 0', 'x'), ('{y} = ({x} = {n}) / 0', 'x'), ("'abc' + ({x} = {n})", 'x'), ('{m} / ({x} = 0)', 'x0'), ('{y} = {m} / ({x} = 0)', 'x0'),
          ("({x} = {n}) metres + 5 seconds", 'x'), ('fact(({x} = -{n}))', 'x-'), ('element([1], ({x} = {n}) + 10)', 'x'), ('({y} = ({x} = {n}) + 1) / 0', 'xy'),
          ("{z} = ({y} = ({x} = {n}) + 1) + 'abc'", 'xy'), ('abs(({x} = {n}), 2, 3)', 'x'), ('not ({x} = {n})', 'x'), ('({x} = {n}) then 1 else 2', 'x'),
          ("{y} = (({x} = {n}) ^ 2) +% 'q'", 'x'), ('{x} = {n} + 1/0', ''), ('{y} = {unset} + {n}', '')]


def gen_nested(rng, names):
    v = {}
    texts = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        n, k = rng.choice(names), rng.randint(0, 99)
        texts.append('{} = {}'.format(n, k))
        v[n] = k
    x, y, z = rng.sample(progs.VARNAMES, 3)
    n = rng.randint(1, 50)
    t, eff = rng.choice(NESTED)
    texts.append(t.format(x=x, y=y, z=z, n=n, m=rng.randint(1, 9), unset='neverset'))
    if eff.startswith('x'):
        v[x] = 0 if '0' in eff else -n if '-' in eff else n
    if 'y' in eff:
        v[y] = n + 1
    return {'t': 'nested', 'texts': texts, 'effect': v}


TEXTS = cfg.SENSITIVE + ["'1e3'", '2e3', '5 # 6', '[1, 2]', "'it'", "length('a#b')", '[1 .. 3]', '{ 5 }', '(1/3) as percentage', "xx = 2e2", 'yy = [1, 2/3]', "zz = 'a' +$ 'b'", 'xx + 1', 'yy * 2', 'yy', 'zz', 'xx = (yy = 3) / 0']


def gen_config(rng):
    own = dict(cfg.DEFAULT)
    anyone = dict(cfg.DEFAULT)
    pool = [rng.choice(TEXTS) for _ in range(rng.randint(2, 4))]
    k = rng.choice(sorted(cfg.OPTIONS))
    pool += [cfg.styled(rng, own, anyone) for _ in range(rng.randint(2, 3))]
    steps = []
    for _ in range(rng.randint(4, 9)):
        if rng.random() < .4:
            op = cfg.config_op(rng)
            if rng.random() < .4:
                # one option changed again and again
                op = ['option', k[0], k[1], rng.choice(cfg.OPTIONS[k])]
            if op[0] == 'option':
                own[op[1], op[2]] = op[3]
                pool.append(cfg.styled(rng, own, anyone))
            steps.append({'t': 'cfg', 'op': op})
        steps.append({'t': 'text', 'text': rng.choice(pool), 'flags': {'stateless': True} if rng.random() < .1 else None})
    return {'steps': steps}


def gen(rng, i, tier):
    if i % 5 == 4:
        return gen_config(rng)
    g = progs.Gen(rng, errors=0)
    names = rng.sample(progs.VARNAMES, 3)
    probes = [rng.choice(PROBES).format(a=rng.choice(names), b=rng.choice(names), n=rng.randint(0, 9)) for _ in range(3)]
    steps = []
    for _ in range(rng.randint(3, 8)):
        k = rng.random()
        if rng.random() < .1:
            steps.append(gen_nested(rng, names))
            for n in steps[-1]['effect']:
                g.vars[n] = 'num'
            continue
        if k < .35:
            g.errors = rng.choice([0, 0, .12])
            st = g.program(rng.randint(1, 4), 2)
            g.errors = 0
            steps.append({'t': 'prog', 'stmts': st, 'lay': rng.randint(0, 10 ** 9), 'style': rng.choice(['plain', 'spaced', 'wild'])})
        elif k < .5:
            t = progs.soup(rng) if rng.random() < .4 else progs.mutate(rng, progs.make_program(rng, 3, 2)[1])
            steps.append({'t': 'junk', 'text': t.replace('now', 'noww')})
        elif k < .6:
            t = progs.make_program(rng, 3, 2, errors=.05)[1]
            steps.append({'t': 'flagged', 'text': t, 'flags': {rng.choice(['stateless', 'parse_only']): True}})
        elif k < .75:
            # a variable changes its type
            n = rng.choice(names)
            ty = rng.choice(['num', 'bool', 'str', 'arr', 'qty:length', 'fn', 'del'])
            if ty == 'del':
                g.vars.pop(n, None)
                st = [g.call('delete', [n])]
            elif ty == 'fn':
                g.vars[n] = 'fn'
                st = [[n, '='] + rng.choice([['{', 'PARAM1', '*', '2', '}'], ['{', 'PARAM1', '/', '0', '}'], ['{', 'unsetq', '+', '1', '}']])]
            else:
                st = [[n, '='] + g.expr(ty, 1)]
                g.vars[n] = ty
            steps.append({'t': 'prog', 'stmts': st, 'lay': 0, 'style': 'spaced'})
        else:
            steps.append({'t': 'probe', 'text': rng.choice(probes)})
    steps.append({'t': 'probe', 'text': rng.choice(probes)})
    return {'steps': steps}


def unset_effects(text):
    return not any(w in text for w in ('=', '++', '--', '{', 'delete', 'reset'))


def texts(s):
    return [progs.render(st, random.Random('{}/{}'.format(s['lay'], j)), s['style']) for j, st in enumerate(s['stmts'])]


def outcome(c, o):
    return plain_out(c, o, True)


def run_config(case, mon):
    """Every text, on the calculator with the history and on a fresh one that was only configured and given the variables."""
    a = cfg.Actor()
    a.do(['create', 'Computing'])
    done, hist = [], []
    mon.sample([s.get('text', s.get('op')) for s in case['steps']])
    for s in case['steps']:
        if s['t'] == 'cfg':
            mon.obs('config', tuple(map(str, s['op'])))
            hist.append('<{}>'.format(' '.join(map(str, s['op']))))
            done.append(s['op'])
            a.do(s['op'])
            continue
        if any(x[1] is not None or hasattr(x[0], 'desc') for x in a.c.vars.values()):
            # units and functions belong to the calculator that made them
            mon.obs('bound_variable')
            return
        f = cfg.Actor()
        f.do(['create', 'Computing'])
        for op in done:
            f.do(op)
        f.c.vars.update(a.c.vars)
        hist.append(s['text'])
        oa, of = calc(a.c, s['text'], s['flags']), calc(f.c, s['text'], s['flags'])
        x, y = outcome(a.c, oa), outcome(f.c, of)
        mon.obs('configured', tuple(hist))
        if x != y:
            raise Violation('the outcome is not that of a fresh calculator with this configuration and these variables', history=hist, got=x, expected=y)
        store_same(a.c, f.c, hist, mon)


def run(case, mon):
    if any(s['t'] in ('cfg', 'text') for s in case['steps']):
        return run_config(case, mon)
    a, b = new_calc(), new_calc()
    mon.sample([s['text'] if 'text' in s else '\n'.join(s['texts'] if 'texts' in s else texts(s)) for s in case['steps']])
    hist = []
    for s in case['steps']:
        if s['t'] == 'nested':
            mon.obs('nested', tuple(s['texts']))
            text = '\n'.join(s['texts'])
            hist.append(text)
            want = vars_plain(a)
            for n, v in s['effect'].items():
                want[n] = ('num', Fraction(v), '', str(v))
            oa = calc(a, text)
            if oa.kind != 'exec':
                raise Violation('a statement that must fail does not', history=hist, got=oa.describe(a))
            got = vars_plain(a)
            if got != want:
                raise Violation('a failing call did not leave the effects of the completed statements and nested assignments', history=hist,
                                got={k: v for k, v in got.items() if want.get(k) != v}, expected={k: v for k, v in want.items() if got.get(k) != v})
            for t in s['texts']:
                mon.obs('split_call')
                calc(b, t)
        elif s['t'] in ('probe', 'junk', 'flagged'):
            text = s['text']
            hist.append(text)
            oa = calc(a, text, s.get('flags'))
            if oa.kind == 'raw':
                raise Violation('unexpected exception', history=hist, got=repr(oa.exc))
            if s['t'] == 'flagged':
                pass
            elif s['t'] == 'junk':
                mon.obs('failed_call' if oa.failed else 'junk_ok')
                if oa.kind == 'parse':
                    mon.obs('parse_failed_call')
                elif oa.ok or unset_effects(text):
                    ob = calc(b, text)
                    compare(a, b, oa, ob, hist, mon)
                else:
                    # side effects of completed parts of the failing statement are not specified: replay them
                    calc(b, text)
            else:
                mon.obs('probe', text)
                ob = calc(b, text)
                compare(a, b, oa, ob, hist, mon)
        else:
            parts = texts(s)
            text = '\n'.join(parts)
            hist.append(text)
            oa = calc(a, text)
            if oa.kind in ('raw', 'parse'):
                raise Violation('a generated program does not parse', history=hist, got=oa.describe(a))
            va = [plain_result(a, r, True) for r in oa.results if r.has_result()]
            # one call per statement
            vb = []
            ob = None
            for t in parts:
                mon.obs('split_call')
                ob = calc(b, t)
                if not ob.ok:
                    break
                vb += [plain_result(b, r, True) for r in ob.results if r.has_result()]
            if not oa.ok:
                mon.obs('failed_call')
            if (oa.kind, oa.message) != (ob.kind, ob.message) or va != vb:
                raise Violation('one call and one call per statement give different outcomes', history=hist,
                                got=(oa.kind, oa.message, va), expected=(ob.kind, ob.message, vb))
            mon.obs('outcome', tuple(hist))
        store_same(a, b, hist, mon)


def compare(a, b, oa, ob, hist, mon):
    x, y = outcome(a, oa), outcome(b, ob)
    mon.obs('outcome', tuple(hist))
    if x != y:
        raise Violation('the outcome depends on the history', history=hist, got=x, expected=y)


def store_same(a, b, hist, mon):
    mon.obs('store')
    x, y = vars_plain(a), vars_plain(b)
    if x != y:
        raise Violation('the variables differ from those of the effective statements', history=hist,
                        got={k: v for k, v in x.items() if y.get(k) != v}, expected={k: v for k, v in y.items() if x.get(k) != v})


def shrink(case):
    n = len(case['steps'])
    for i in range(n):
        if n > 1:
            yield {'steps': case['steps'][:i] + case['steps'][i + 1:]}
    for i, s in enumerate(case['steps']):
        if s['t'] == 'prog':
            for j in range(len(s['stmts'])):
                if len(s['stmts']) > 1:
                    d = dict(s)
                    d['stmts'] = s['stmts'][:j] + s['stmts'][j + 1:]
                    yield {'steps': case['steps'][:i] + [d] + case['steps'][i + 1:]}
            if s['style'] != 'spaced':
                d = dict(s)
                d['style'] = 'spaced'
                yield {'steps': case['steps'][:i] + [d] + case['steps'][i + 1:]}
