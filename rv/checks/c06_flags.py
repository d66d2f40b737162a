"""C06: the stateless, parse-only and state-snapshot options do exactly what they say."""
import random
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *
from rv.checks.c02_lossless import leaves

ID = 'C06'
TECHNIQUE = ('runtime monitor: store compared deeply before/after every stateless or parse-only call; state snapshots checked online against a '
             'statement-by-statement twin and again after later mutations')
RULE = ('a generated set-up program, then a generated, damaged or hostile program run under each option; distinct by (option, text)')
BUDGET = {'quick': 3600, 'thorough': 120000}
NEED = {'stateless_unchanged': 1900, 'parse_only_same_items': 1000, 'parse_only_error': 310, 'snapshot': 2800, 'snapshot_later': 2000,
        'stateless_snapshot': 800, 'writes_attempted': 1600, 'options_off': 1200}

MUTATORS = ['{v} = 5', '{v}++', '{v} += 1', '{v} *= 2', 'delete({v})', 'reset()', '{v} ||= 9', 'newv ||= 9', '{v} = [{v}, 1]', '({v} = 7) + 1',
            'delete({v})\n{v} = 4', '@ff({v})', '@gg(1)', '{v} = @ff(2)', '[{v}++, {v}]', 'max({v} = 3, 4)', '{v}--', '{v} = 1/0', 'reset()\n1/0',
            '{v} = {{ {v} = 3 }}', '[1, {v} = 2]', '{v} -= 1\n{v} += unsetq', 'true then ({v} = 1) else ({v} = 2)', '@hh(5)']


def gen(rng, i, tier):
    g = progs.Gen(rng, errors=0)
    setup = g.program(rng.randint(2, 5), 2)
    names = list(g.vars) or ['xx']
    setup.append(['ff', '=', '{', 'xx', '=', '3', '\n', 'PARAM1', '=', '9', '\n', 'delete', '\0', '(', 'yy', ')', '\n', 'PARAM1', '}'])
    setup.append(['gg', '=', '{', 'reset', '\0', '(', ')', '\n', '4', '}'])
    setup.append(['hh', '=', '{', 'xx', '++', '\n', '1', '/', '0', '}'])
    k = rng.random()
    if k < .4:
        stmts = g.program(rng.randint(1, 4), 2)
        text = None
    elif k < .75:
        stmts = None
        text = '\n'.join(rng.choice(MUTATORS).format(v=rng.choice(names + ['yy', 'zz'])) for _ in range(rng.randint(1, 4)))
    elif k < .9:
        stmts = None
        text = progs.mutate(rng, progs.render_program(g.program(rng.randint(1, 3), 2), rng, 'wild'))
    else:
        stmts = None
        text = progs.soup(rng)
    if text is not None:
        text = text.replace('now', 'noww')
    return {'setup': setup, 'stmts': stmts, 'text': text, 'lay': rng.randint(0, 10 ** 9), 'style': rng.choice(['plain', 'spaced', 'wild'])}


def off(rng, *names):
    """Options given but off."""
    return {n: rng.choice([False, False, None]) for n in names if rng.random() < .3}


def sig(o):
    return [[(i.desc(), i.text) for i in leaves(r.items, [])] for r in o.results]


def run(case, mon):
    a = shared_calc()
    a.vars.clear()
    rs = random.Random(case['lay'])
    setup = [progs.render(s, rs, 'spaced') for s in case['setup']]
    for t in setup:
        calc(a, t)
    if case['stmts']:
        parts = [progs.render(s, random.Random('{}/{}'.format(case['lay'], j)), case['style']) for j, s in enumerate(case['stmts'])]
        text = '\n'.join(parts)
    else:
        text = case['text']
    mon.sample(text[:200])
    before = vars_plain(a)

    # parse-only
    p = calc(a, text, {'parse_only': True, **off(rs, 'stateless', 'include_state')})
    if p.kind in ('raw', 'exec'):
        raise Violation('parse-only raised something else than a parsing error', text=text, got=p.describe(a))
    if vars_plain(a) != before:
        raise Violation('parse-only changed the variables', setup=setup, text=text)
    for r in p.results:
        if r.has_result():
            raise Violation('parse-only produced a result', text=text)

    # stateless: results are not judged, the store is
    o = calc(a, text, {'stateless': True, **off(rs, 'parse_only', 'include_state')})
    mon.obs('stateless_unchanged', ('stateless', text))
    if any(m in text for m in ('=', '++', '--', 'delete', 'reset', '@')):
        mon.obs('writes_attempted')
    if o.kind == 'raw':
        raise Violation('unexpected exception', text=text, got=repr(o.exc))
    if vars_plain(a) != before:
        raise Violation('a stateless calculation changed the variables', setup=setup, text=text, got=diff(vars_plain(a), before))
    # stateless with snapshots: every snapshot is the unchanged store
    o2 = calc(a, text, {'stateless': True, 'include_state': True, **off(rs, 'parse_only')})
    for r in o2.results:
        mon.obs('stateless_snapshot')
        if not r.has_state() or snap(a, r) != before:
            raise Violation('the snapshot of a stateless calculation is not the stored variables', setup=setup, text=text)
    if vars_plain(a) != before:
        raise Violation('a stateless calculation changed the variables', setup=setup, text=text, got=diff(vars_plain(a), before))
    if plain_out(a, o, True) != plain_out(a, o2, True):
        raise Violation('asking for snapshots changes the results', text=text)

    # normal run with snapshots
    n = calc(a, text, {'include_state': True, **off(rs, 'parse_only', 'stateless')})
    after = vars_plain(a)
    if n.kind == 'parse' or p.kind == 'parse':
        mon.obs('parse_only_error', ('p', text))
        if (n.kind, n.message) != (p.kind, p.message) or n.exc.next != p.exc.next:
            raise Violation('parse-only and normal calculation report different parsing errors', text=text, got=(p.kind, p.message), expected=(n.kind, n.message))
        if after != before:
            raise Violation('an unparsable text changed the variables', setup=setup, text=text)
        return
    if n.ok:
        mon.obs('parse_only_same_items', ('i', text))
        if sig(p) != sig(n) or [r.expression for r in p.results] != [r.expression for r in n.results]:
            raise Violation('parse-only gives other items', text=text, got=sig(p), expected=sig(n))
    elif [r.expression for r in p.results][:len(n.results)] != [r.expression for r in n.results]:
        raise Violation('parse-only gives other statements', text=text)

    # twin: same set-up, one call per statement
    b = new_calc()
    for t in setup:
        calc(b, t)
    snaps = []
    first = [snap(a, r) for r in n.results]
    for r, got in zip(n.results, first):
        flags = off(rs, 'parse_only', 'stateless', 'include_state')
        ob = calc(b, r.expression, flags)
        if not ob.ok:
            raise Violation('a completed statement fails when run alone', setup=setup, text=text, statement=r.expression, got=ob.describe(b))
        if flags:
            mon.obs('options_off')
            if any(x.has_state() for x in ob.results):
                raise Violation('a snapshot is given though the option is off', text=r.expression, flags=flags)
            alone = [plain_result(b, x, True) for x in ob.results if x.has_result()]
            within = [plain_result(a, r, True)] if r.has_result() else []
            if alone != within:
                raise Violation('an option that is off changes the result', setup=setup, text=r.expression, flags=flags, got=alone, expected=within)
        mon.obs('snapshot', ('s', text))
        if not r.has_state():
            raise Violation('a result lacks its snapshot', text=text)
        if got != vars_plain(b):
            raise Violation('a snapshot differs from the variables after its statement', setup=setup, text=text, statement=r.expression,
                            got=diff(got, vars_plain(b)))
    # whatever happens later, the snapshots stay
    for v in list(after)[:4]:
        calc(a, '{0} += 1\n{0} = [{0}, 2]'.format(v))
        calc(a, '@ff({})'.format(v))
    calc(a, '\n'.join(v for v in after))
    calc(a, 'reset()')
    for r, got in zip(n.results, first):
        mon.obs('snapshot_later')
        if snap(a, r) != got:
            raise Violation('a snapshot changed afterwards', setup=setup, text=text, statement=r.expression, got=diff(snap(a, r), got))


def snap(c, r):
    return {k: plain(c, v[0], v[1], True) for k, v in r.state.items()}


def diff(x, y):
    return {k: (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)}


def shrink(case):
    for key in ('setup', 'stmts'):
        if case[key]:
            for k in range(len(case[key])):
                d = dict(case)
                d[key] = case[key][:k] + case[key][k + 1:]
                if d['stmts'] or d['text']:
                    yield d
    if case['text']:
        ls = case['text'].split('\n')
        for k in range(len(ls)):
            if len(ls) > 1:
                d = dict(case)
                d['text'] = '\n'.join(ls[:k] + ls[k + 1:])
                yield d
