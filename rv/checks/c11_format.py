"""C11: unit reformatting functions preserve the quantity."""
import random
import re
from fractions import Fraction
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C11'
TECHNIQUE = ('runtime monitor: the parts printed by format() and the quantity returned by compact() are read back with an independent table of published units and '
             'systems and must add up to the input quantity; ambiguous names checked under every order of preference')
RULE = ('every unit of the calculator and random unit products with values of all magnitudes, signs and zero, with and without a target system, in arrays and '
        'variables, simplification on and off; every ambiguous name under random system preferences; distinct by text')
BUDGET = {'quick': 22000, 'thorough': 200000}
NEED = {'formatted': 2700, 'parts': 360, 'system': 1200, 'compacted': 1400, 'no_unit_in_system': 400, 'ambiguous': 570, 'negative': 200, 'zero': 64, 'greedy': 1500}
ASSUMPTIONS = ['displayed parts are rounded to 30 decimal places', 'results kept in another number type are not read back']
PLACES = 30


def setup():
    ut.bind(shared_calc())


def preload():
    ut.bind(shared_calc())


VALS = ['1', '0', '5', '61', '3600', '0.001', '123456.789', '1000000001', '-90', '1/3', '0.000000046', '2/7', '59.999', '1e15', '1e-16', '365.2425', '-0.5', '1023', '1024',
        '86399', '86400', '12.5', '3661', '-1', '99.5', '1759', '1760', '5279.999', '0.9999']


def fixed(tier):
    for j, u in enumerate(ut.TABLE):
        for k in range(2 if tier == 'quick' else len(VALS)):
            yield {'k': 'format', 'v': VALS[(j * 5 + k * 3) % len(VALS)], 'p': [[u.singular, 1]], 'sys': None, 'seed': j, 'form': 0}
        for i, s in enumerate(ut.SYSTEMS):
            if tier == 'thorough' or (i + j) % 3 == 0:
                yield {'k': 'format', 'v': VALS[(j * 3 + i) % len(VALS)], 'p': [[u.singular, 1]], 'sys': s, 'seed': j, 'form': 0}


def g_val(rng):
    if rng.random() < .5:
        return rng.choice(VALS)
    if rng.random() < .2:
        return str(rng.randint(-10 ** rng.randint(1, 12), 10 ** rng.randint(1, 12)))
    return str(Fraction(rng.randint(0, 10 ** rng.randint(1, 9)), 10 ** rng.randint(0, 12)))


def gen(rng, i, tier):
    r = rng.random()
    if r < .12:
        order = list(ut.SYSTEMS)
        rng.shuffle(order)
        return {'k': 'amb', 'name': rng.choice(list(ut.AMBIG)), 'order': order if rng.random() < .7 else ut.SYSTEMS, 'v': g_val(rng), 'seed': rng.randint(0, 10 ** 9)}
    if r < .4:
        p = ut.r_prod(rng)
        return {'k': 'compact', 'v': g_val(rng), 'p': p, 'seed': rng.randint(0, 10 ** 9), 'form': rng.choice([0, 0, 1, 2]), 'simp': rng.random() < .5}
    p = [[ut.pick_unit(rng), 1]] if rng.random() < .85 else ut.r_prod(rng)
    s = rng.choice([None] + ut.SYSTEMS) if rng.random() < .7 else None
    if s and len(p) == 1 and rng.random() < .6:
        c = [t for t in ut.SYSTEMS if any(t in ut.systems_of(w) for w in ut.BYDIM[ut.BY[p[0][0]].dims])]
        s = rng.choice(c) if c else s
    return {'k': 'format', 'v': g_val(rng), 'p': p, 'sys': s, 'seed': rng.randint(0, 10 ** 9), 'form': rng.choice([0, 0, 0, 1, 2]), 'simp': rng.random() < .5}


def vtext(s):
    f = Fraction(s)
    return dec_literal(f) or '({} / {})'.format(f.numerator, f.denominator)


PART = re.compile(r'(-?\d+(?:\.\d+)?) (.+)')


def build(c, case, fn):
    """-> (text, number of copies)"""
    rng = random.Random(case['seed'])
    q = '{} {}'.format(vtext(case['v']), ut.p_text(rng, case['p']))
    extra = ', ' + case['sys'] if case.get('sys') else ''
    set_vars(c)
    if case['form'] == 1:
        o = calc(c, 'qq = {}'.format(q))
        if not o.ok:
            raise Violation('a quantity is rejected', text=q, got=o.describe(c))
        return '{}(qq{})'.format(fn, extra), q
    if case['form'] == 2:
        return 'element({}([1 metre, {}]{}), 2)'.format(fn, q, extra), q
    return '{}({}{})'.format(fn, q, extra), q


def run(case, mon):
    if case['k'] == 'amb':
        return run_amb(case, mon)
    c = shared_calc(simplify=case.get('simp', True))
    v = Fraction(case['v'])
    prod = case['p']
    base = ut.to_base(v, prod)
    dims = ut.p_dims(prod)
    size = 1
    for _, p in prod:
        size *= abs(p) + 1
    if size > 1500:
        raise Skip('too many different units')
    if case['k'] == 'compact':
        text, q = build(c, case, 'compact')
        r = value_of(c, text)
        p = []
        for up in (r.unit.list() if r.unit is not None else []):
            pw = frac(up.power)
            if pw.denominator != 1 or up.unit.singular() not in ut.BY:
                raise Violation('compact() gave an odd unit', text=text, got=show(c, r))
            p.append([up.unit.singular(), int(pw)])
        mon.obs('compacted', (text, q))
        if not isinstance(r.value, Number) or ut.p_dims(p) != dims:
            raise Violation('compact() changed the dimension', text=text, q=q, got=show(c, r))
        got = ut.to_base(frac(r.value), p)
        if abs(got - base) > abs(base) / 10 ** 40:
            raise Violation('compact() changed the quantity', text=text, q=q, got='{} = {} in base units'.format(show(c, r), got), expected=str(base))
        return
    text, q = build(c, case, 'format')
    o = calc(c, text)
    system = case['sys']
    single = ut.p_single(prod)
    if not o.ok:
        if o.kind == 'raw':
            raise Violation('format() broke', text=text, q=q, got=o.describe(c))
        if single and possible(prod, system):
            raise Violation('format() fails on a quantity it can format', text=text, q=q, got=o.describe(c))
        mon.obs('no_unit_in_system', (text, q))
        return
    r = o.last()
    if isinstance(r.value, Exception):
        # an element of an array
        if single and possible(prod, system):
            raise Violation('format() fails on a quantity it can format', text=text, q=q, got=str(r.value))
        mon.obs('no_unit_in_system', (text, q))
        return
    if not isinstance(r.value, str) or r.unit is not None:
        raise Violation('format() did not return text', text=text, q=q, got=show(c, r))
    total, tol, units = Fraction(0), Fraction(0), []
    pieces = r.value.split(', ')
    for piece in pieces:
        m = PART.fullmatch(piece)
        if not m:
            raise Violation('format() printed something that is not a quantity', text=text, q=q, got=r.value)
        n = Fraction(m.group(1))
        # "1" may be displayed for a value that only rounds to one
        name = m.group(2)
        u = ut.NAMES.get(name)
        if u is None or (n != 1 and name != u.plural) or (n == 1 and name not in (u.singular, u.plural)):
            raise Violation('format() names an unknown unit or the wrong form of it', text=text, q=q, got=r.value)
        units.append(u)
        if u.dims != dims:
            raise Violation('format() changed the dimension', text=text, q=q, got=r.value)
        total += n * u.scale
        tol += u.scale / 10 ** PLACES
    if any(u.offset for u in units) or (single and ut.BY[prod[0][0]].offset):
        if len(units) != 1:
            raise Violation('format() split a temperature into parts that do not add up', text=text, q=q, got=r.value)
        total += units[0].offset
    mon.obs('formatted', (text, q))
    if len(units) > 1:
        mon.obs('parts', (text, q))
    if v == 0:
        mon.obs('zero')
    if v < 0:
        mon.obs('negative')
    if abs(total - base) > tol + abs(base) / 10 ** 40:
        raise Violation('format() changed the quantity', text=text, q=q, got='{} = {} in base units'.format(r.value, total), expected=str(base))
    if system:
        mon.obs('system', system)
        if any(system not in ut.systems_of(u) for u in units):
            raise Violation('format() used a unit that is not of the system asked for', text=text, q=q, got=r.value)
    else:
        common = set.intersection(*[ut.systems_of(u) for u in units])
        if not common:
            raise Violation('format() mixed units of different systems', text=text, q=q, got=r.value)
    if len(set(u.singular for u in units)) != len(units):
        raise Violation('format() printed the same unit twice', text=text, q=q, got=r.value)
    if base > 0 and not any(u.offset for u in units):
        counts = [Fraction(PART.fullmatch(piece).group(1)) for piece in pieces]
        why = [greedy(base, counts, units, t) for t in ([system] if system else sorted(set.intersection(*[ut.systems_of(u) for u in units])))]
        mon.obs('greedy')
        if all(why):
            raise Violation('format() does not print the largest units first: ' + why[0], text=text, q=q, got=r.value)


_STEM = {}


def stem(u):
    """The unit without its decimal or binary prefix."""
    if u.singular not in _STEM:
        _STEM[u.singular] = u
        for p, e in [(x[0], Fraction(10) ** x[2]) for x in ut.PREF + [ut._CENTI, ('zetta', 'Z', 21), ('yotta', 'Y', 24)] if x[0]] + [(x[0], Fraction(1024) ** x[2]) for x in ut.IEC]:
            if u.singular.startswith(p):
                w = ut.BY.get(u.singular[len(p):])
                if w is not None and w.dims == u.dims and w.scale * e == u.scale:
                    _STEM[u.singular] = w
    return _STEM[u.singular]


def greedy(base, counts, units, system):
    """-> what is wrong with the choice of units, or None: each part is of the largest unit, prefixes aside, that fits at least once
    into what is left, and of its prefixed forms the largest that does."""
    mine = [w for w in ut.TABLE if w.kind == units[0].kind and w.dims == units[0].dims and not w.offset and system in ut.systems_of(w) and w.singular not in UNUSED]
    stems = [w for w in mine if stem(w) is w]
    left = base
    for k, (n, u) in enumerate(zip(counts, units)):
        fit = [w for w in stems if w.scale <= left]
        want = max(fit, key=lambda w: w.scale) if fit else min(stems, key=lambda w: w.scale)
        if stem(u).scale != want.scale:
            return '{} where {} fits'.format(u.plural, want.plural)
        last = want.scale == min(w.scale for w in stems)
        amount = left if last else left // want.scale * want.scale
        forms = [w for w in mine if stem(w) is stem(u)]
        fit = [w for w in forms if w.scale <= amount]
        if fit and max(w.scale for w in fit) != u.scale:
            return '{} where {} fits'.format(u.plural, max(fit, key=lambda w: w.scale).plural)
        if not last and abs(n * u.scale - amount) > u.scale / 10 ** PLACES:
            return 'not a whole count of {}'.format(want.plural)
        left -= amount
    return None


def possible(prod, system):
    """a single unit can be formatted when the system has a unit of its kind"""
    u = ut.BY[prod[0][0]]
    if system is None:
        return bool(ut.systems_of(u))
    return any(system in ut.systems_of(w) for w in ut.TABLE if w.kind == u.kind and w.singular not in UNUSED)


# never used to format
UNUSED = {'week', 'lightweek', 'UK gill', 'UK quart', 'US gill'}


def run_amb(case, mon):
    c = new_calc_for_amb()
    pref = c.unit_normaliser.systems_preference
    old = list(pref)
    pref[:] = case['order']
    try:
        names, (syms, units) = case['name'], ut.AMBIG[case['name']]
        rng = random.Random(case['seed'])
        forms = names.split('|') + (syms.split('|') if syms else [])
        f = rng.choice(forms)
        if f in names.split('|') and rng.random() < .3:
            f = rng.choice([f.upper(), f.capitalize()])
        want = next(ut.BY[units[s]] for s in case['order'] if s in units)
        to = ut.BYDIM[want.dims][0]
        v = Fraction(case['v'])
        text = '({} {}) to {}'.format(vtext(case['v']), f, to.plural)
        r = value_of(c, text)
        mon.obs('ambiguous', (f, tuple(case['order'])))
        if frac(r.value) * to.scale != v * want.scale:
            raise Violation('an ambiguous unit name does not resolve to the preferred system', text=text, order=case['order'], expected=want.singular, got=show(c, r))
        text = '(1 {}) to {}'.format(to.plural, f)
        r = value_of(c, text)
        if frac(r.value) != to.scale / want.scale or unit_key(r.unit) != want.singular:
            raise Violation('an ambiguous unit name does not resolve to the preferred system', text=text, order=case['order'], expected=want.singular, got=show(c, r))
    finally:
        pref[:] = old


_AMB = []


def new_calc_for_amb():
    if not _AMB:
        _AMB.append(new_calc())
    return _AMB[0]


def shrink(case):
    if case.get('form'):
        yield dict(case, form=0)
    if case['k'] != 'amb' and len(case['p']) > 1:
        for j in range(len(case['p'])):
            yield dict(case, p=case['p'][:j] + case['p'][j + 1:])
    for v in ('1', '0', '-1'):
        if case['v'] != v and len(case['v']) > 2:
            yield dict(case, v=v)
