"""C07: evaluating an expression never alters what it only reads."""
import random
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C07'
TECHNIQUE = ('runtime monitor: deep snapshots of every variable, every constant and every result already handed out, compared after each '
             'read-only evaluation; every evaluation repeated')
RULE = ('variables of every kind of value, then 12-25 read-only expressions over all operators and functions reading them (well-typed programs, '
        'arbitrary operation x variable combinations, conversions); distinct by expression text')
BUDGET = {'quick': 4000, 'thorough': 100000}
NEED = {'vars_unchanged': 15000, 'repeat': 15000, 'constants_unchanged': 15000, 'results_unchanged': 15000}

SETUP = {
    'na': ['5', '0x1F', '0b0101', '0o17', '7z12', '50%', '1.5e3', '1/3', '-2.50', '0', '345.5'],
    'nb': ['3', '0xA', '0b11', '25%', '2e-3', '4/6', '-1', '0.125'],
    'qa': ['5 m', '2 km', '3.5 inches', '1 mile', '20 celsius', '3 m/s', '2 kg m^2', '4 hours', '1500 g', '6 m s', '300 kelvin', '5 MB'],
    'qb': ['7 cm', '3 m', '1 foot', '70 fahrenheit', '10 km/hour', '30 minutes', '2 kg', '12 inches', '1 GB'],
    'sa': ["'hello'", "''", "'12'", "'a,b,c'", "'A b'", "'2020-01-31'"],
    'ba': ['true', 'false'],
    'da': ["'2020-02-29'", "'1999-12-31T23:59:59'"],
    'xa': ['[3, 1, 2]', "['b', 'a']", '[5 m, 2 km, 30 cm]', '[0xF, 0b11, 7]', '[[1, 2], [3, [4 m]]]', '[1 .. 5]', '[50%, 1e2]', "[1] + 'a'", '[true, false, true]'],
    'xb': ['[4, 6, 5]', '[1 s, 2 hours]', "['x', 'y', 'z']", '[2, 2, 9 / 4]', '[10 celsius, 50 fahrenheit]', '[6 km, 7 m, 1 inch]'],
    'fa': ['{PARAM1 * 2}', '{na + nb}', '{PARAM1 = 3\nna = 9\nPARAM1}', '{sort(xa)}', '{1/0}', '{[PARAM1, xa]}'],
}
UN = ['m', 'km', 'inches', 's', 'minutes', 'kelvin', 'fahrenheit', 'm/s', 'kg', 'MB', 'KiB', 'km/hour']
CONV = ['decimal', 'hexadecimal', 'binary', 'octal', 'scientific', 'percentage']


def atom(rng, vs):
    k = rng.random()
    if k < .75:
        return rng.choice(vs)
    if k < .85:
        return rng.choice(['pi', 'e', 'tau'])
    if k < .93:
        return str(rng.randint(0, 9))
    return 'element({}, {})'.format(rng.choice(['xa', 'xb']), rng.randint(1, 3))


NAMES = {}


def gen(rng, i, tier):
    c = shared_calc()
    if not NAMES:
        NAMES['f'] = sorted(f for f in c.funcs if f not in ('delete', 'reset', 'now') and not f.startswith('sp_'))
        NAMES['o'] = sorted(s for s in c.ops_list if not s.isupper() and s not in ('then', 'not', '~', '<<', '*$') and not (s.endswith('=') and s not in ('==', '<=', '>=', '!='))
                            and s not in ('++', '--', '=', '^'))
    setup = {k: rng.choice(v) for k, v in SETUP.items()}
    vs = list(setup)
    exprs = []
    for _ in range(rng.randint(12, 25)):
        k = rng.random()
        if k < .4:
            n = rng.choice([1, 1, 1, 2, 2, 3])
            e = rng.choice(NAMES['f']) + '(' + ', '.join(atom(rng, vs) for _ in range(n)) + ')'
        elif k < .75:
            e = atom(rng, vs) + ' ' + rng.choice(NAMES['o']) + ' ' + atom(rng, vs)
        elif k < .82:
            e = '{} to {}'.format(rng.choice(['qa', 'qb', 'xa', 'xb', 'na']), rng.choice(UN))
        elif k < .88:
            e = '{} as {}'.format(rng.choice(vs), rng.choice(CONV))
        elif k < .92:
            e = '[{}, {}, {} .. {}]'.format(atom(rng, vs), atom(rng, vs), rng.choice(['na', 'qa', '1']), rng.choice(['nb', 'qb', '9']))
            if '.. n' in e or '.. q' in e or 'na ..' in e:
                e = '[{}, {}]'.format(atom(rng, vs), atom(rng, vs))
        elif k < .96:
            e = '@fa({})'.format(atom(rng, vs))
        else:
            e = rng.choice(['{a} then {b} else {c}', 'not {a}', '{a} {b}', '-1 * ({a})', '~ {a}', '{a} ^ 2', '{a}', '({a})', '{a} m', 'format({a}, si)',
                            'format({a}, us)', '({a} + {b}) * {c}', 'ba then {a} else {b}', 'element(sort({a}), 1) + {b}', '[{a}] + [{b}]',
                            'max({a}, {b}, {c})', 'sum({a}) / count({a})']).format(a=atom(rng, vs), b=atom(rng, vs), c=atom(rng, vs))
        exprs.append(e)
    return {'setup': setup, 'exprs': exprs, 'simp': rng.random() < .7}


def constants_plain(c):
    out = {}
    for k, v in c.constants.items():
        val, unit = v if isinstance(v, tuple) else (v, None)
        out[k] = plain(c, val, unit, True)
    return out


def run(case, mon):
    c = shared_calc(simplify=case['simp'])
    c.vars.clear()
    for k, v in case['setup'].items():
        o = calc(c, '{} = {}'.format(k, v))
        if not o.ok:
            raise Violation('set-up assignment failed', text=(k, v), got=o.describe(c))
    base = vars_plain(c)
    if 'k' not in NAMES:
        # the constants' values cannot have changed before the first evaluation of a fresh calculator
        NAMES['k'] = constants_plain(new_calc())
    consts = NAMES['k']
    handed = []
    for e in case['exprs']:
        o1 = calc(c, e)
        p1 = plain_out(c, o1, True)
        if o1.kind == 'raw':
            raise Violation('unexpected exception', setup=case['setup'], text=e, got=repr(o1.exc))
        after = vars_plain(c)
        mon.obs('vars_unchanged', e)
        if after != base:
            raise Violation('evaluation altered a variable it only reads', setup=case['setup'], text=e,
                            got={k: (base.get(k), v) for k, v in after.items() if v != base.get(k)})
        mon.obs('constants_unchanged')
        if constants_plain(c) != consts:
            raise Violation('evaluation altered a constant', text=e, got=constants_plain(c))
        o2 = calc(c, e)
        p2 = plain_out(c, o2, True)
        mon.obs('repeat')
        if p1 != p2:
            raise Violation('the same expression gives another result the second time', setup=case['setup'], text=e, got=p2, expected=p1)
        for (te, r, p) in handed:
            mon.obs('results_unchanged')
            q = plain_result(c, r, True)
            if q != p:
                raise Violation('a result handed out earlier changed', setup=case['setup'], earlier=te, text=e, got=q, expected=p)
        if o1.ok and o1.last() is not None:
            handed.append((e, o1.last(), p1[1][-1] if p1[1] and p1[1][-1] is not None else plain_result(c, o1.last(), True)))
            if len(handed) > 6:
                handed.pop(0)
    # results survive the variables being reassigned and dropped
    for k in case['setup']:
        calc(c, '{0} = [{0}, 1]\n{0} += 1'.format(k))
    for (te, r, p) in handed:
        mon.obs('results_unchanged')
        if plain_result(c, r, True) != p:
            raise Violation('a result handed out earlier changed when its variables were reassigned', earlier=te, got=plain_result(c, r, True), expected=p)
    mon.sample(case['exprs'][:4])


def shrink(case):
    n = len(case['exprs'])
    for size in (n // 2, n // 4, 1):
        if size >= 1:
            for i in range(0, n, size):
                d = dict(case)
                d['exprs'] = case['exprs'][:i] + case['exprs'][i + size:]
                if d['exprs']:
                    yield d
