"""C27: unit names and symbols resolve to the documented unit, longest match first, and are displayed by names that read back."""
import random
import re
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *
from rv.checks import c11_format as c11

ID = 'C27'
TECHNIQUE = ('runtime monitor driving every documented name, plural, symbol and prefix of every unit in every kind of letter case, surroundings and configuration; '
             'reference oracle: an independent unit table (scale, offset, dimension); displayed names re-entered; identifiers that merely begin with a unit word must stay identifiers')
RULE = 'enumeration of all names and symbols x letter cases; random values, surroundings, products and identifiers built from unit words; distinct by program text'
BUDGET = {'quick': 80000, 'thorough': 1200000}
NEED = {'resolved': 6000, 'symbol': 600, 'wrong case': 300, 'singular': 1200, 'plural': 3000, 'read back': 2500, 'identifier': 3000, 'surroundings': 4000, 'function': 300, 'no symbols': 150, 'ambiguous': 400}
ASSUMPTIONS = ["the symbol 'as' of the attosecond is taken by the operator of that name", 'ambiguous names (pint, gallon ...) resolve by the preferred measuring system']

AMB = {}
for _names in ut.AMBIG:
    for _n in _names.split('|'):
        AMB[_n] = ut.AMBIG[_names]
    for _s in ut.AMBIG[_names][0].split('|'):
        if _s:
            AMB[_s] = ut.AMBIG[_names]

# texts in lower case -> unit for names, exact -> unit for symbols
BYNAME, BYSYM = {}, {}
for _u in ut.TABLE:
    for _n in _u.names:
        BYNAME.setdefault(_n.lower(), _u)
    for _s in _u.symbols:
        if _s not in ut.NO_SYMBOL:
            BYSYM.setdefault(_s, _u)
WORDS = sorted([n for u in ut.TABLE for n in u.names]) + sorted(BYSYM)
PLAINWORDS = [w for w in WORDS if re.fullmatch('[A-Za-z]+', w)]
RESERVED = set('pi e tau true false and or xor not then else to as c g na h k phi dec decimal bin binary hex hexadecimal oct octal percentage percent scientific'.split())
FUNCTIONS = [('min(3, 4)', 3), ('max(3, 4)', 4), ('mean(3, 5)', 4), ('mode(3, 5, 3)', 3), ('median(3, 5, 9)', 5), ('gcd(4, 6)', 2), ('lcm(4, 6)', 12), ('log(1)', 0), ('hex(5)', 5), ('sin(0)', 0),
             ('sum(1, 2)', 3), ('count([1, 2])', 2), ('floor(2.5)', 2), ('ceil(2.5)', 3), ('fact(3)', 6), ('abs(-2)', 2), ('cos(0)', 1), ('length(\'ab\')', 2), ('bin(2)', 2), ('oct(8)', 8), ('dec(7)', 7),
             ('tan(0)', 0), ('acos(1)', 0), ('asin(0)', 0), ('atan(0)', 0), ('sinh(0)', 0), ('element([7, 8], 2)', 8), ('round(2.5)', 3), ('exp(0)', 1)]


def setup():
    ut.bind(shared_calc(simplify=False))


def resolve(text):
    """The unit a text denotes, by the documented rules; None when it denotes none."""
    return BYNAME.get(text.lower()) or BYSYM.get(text)


def cases_of(rng, w):
    k = rng.randint(0, 4)
    return [w.upper(), w.lower(), w.capitalize(), w.title(), ''.join(rng.choice([ch.upper(), ch.lower()]) for ch in w)][k]


def value(rng):
    r = rng.random()
    if r < .25:
        return rng.choice(['1', '1.0', '1', '01', '0x1', '(1)', '(2 - 1)'])
    if r < .75:
        return str(rng.choice([0, 2, 3, 7, 12, 100, rng.randint(2, 10 ** 6)]))
    if r < .9:
        return '{}.{}'.format(rng.randint(0, 50), rng.choice(['5', '25', '125', '001']))
    return rng.choice(['-1', '-2.5', '(1/3)', '0.5', '1E3', '10%'])


def fixed(tier):
    for n, w in enumerate(WORDS):
        yield {'k': 'word', 't': w, 'v': '7'}
        yield {'k': 'word', 't': w, 'v': '1'}
        if w.lower() in BYNAME and w not in BYSYM:
            yield {'k': 'word', 't': w.upper(), 'v': '7'}
            yield {'k': 'word', 't': w.title(), 'v': '2.5'}
        else:
            yield {'k': 'case', 't': w, 's': n}
        yield {'k': 'nosym', 't': w}
    for names, (sym, units) in ut.AMBIG.items():
        for n in names.split('|') + [s for s in sym.split('|') if s]:
            yield {'k': 'amb', 't': n, 'u': units['us'], 'v': '3'}
            if n in names.split('|'):
                yield {'k': 'amb', 't': n.upper(), 'u': units['us'], 'v': '1'}


def gen(rng, i, tier):
    r = rng.random()
    if r < .012:
        order = list(ut.SYSTEMS)
        rng.shuffle(order)
        return {'k': 'pref', 'name': rng.choice(list(ut.AMBIG)), 'order': order, 'v': c11.g_val(rng), 'seed': rng.randint(0, 10 ** 9)}
    if r < .35:
        w = rng.choice(WORDS)
        sym = w in BYSYM and w.lower() not in BYNAME
        return {'k': 'word', 't': w if sym or rng.random() < .3 else cases_of(rng, w) if w not in BYSYM else w, 'v': value(rng)}
    if r < .42:
        return {'k': 'case', 't': rng.choice(sorted(BYSYM)), 's': rng.randint(0, 10 ** 6)}
    if r < .6:
        return {'k': 'product', 'p': ut.r_prod(rng, rng.choice([1, 2, 2, 3])), 'v': value(rng), 'seed': rng.randint(0, 10 ** 9)}
    if r < .78:
        return {'k': 'around', 't': rng.choice(WORDS), 'n': rng.randint(0, 99)}
    if r < .97:
        w = rng.choice(PLAINWORDS)
        q = rng.random()
        if q < .3:
            w = rng.choice([w.upper(), w.lower(), w.capitalize()])
        suffix = rng.choice(['x', '_', '_1', '2', 'y', 'X', 'ing', 'es', 's', 'ness', '0', 'a', 'z9', rng.choice(PLAINWORDS), rng.choice('bcdefghijklmnopqrtuvw')])
        ident = w + suffix if rng.random() < .75 else rng.choice(['x', 'y', 'my', '_', 'a', 'zz', 'q']) + w + rng.choice(['', suffix])
        return {'k': 'ident', 'id': ident, 'n': rng.randint(0, 99)}
    return {'k': 'func', 'i': rng.randrange(len(FUNCTIONS)), 't': rng.choice(WORDS)}


def base_text(u):
    b = ut.base_prod(u.dims)
    return ' '.join(n if p == 1 else '{}^{}'.format(n, p) for n, p in b)


def want_base(v, u):
    return v * u.scale + u.offset


def near(a, b):
    return a == b or abs(a - b) <= abs(b) * Fraction(1, 10 ** 28)


VALUES = {'(1)': 1, '(2 - 1)': 1, '0x1': 1, '01': 1, '(1/3)': Fraction(1, 3), '10%': Fraction(1, 10), '1E3': 1000}


def val(t):
    return Fraction(VALUES.get(t, t))


def resolved(c, r, u, v, text):
    """The result r of text must be v of the unit u."""
    if not isinstance(r.value, Number) or frac(r.value) != v:
        raise Violation('{!r} changes the number it is written with'.format(text), got=show(c, r), expected=str(v))
    if r.unit is None or unit_key(r.unit) != u.singular:
        raise Violation('{!r} does not denote {}'.format(text, u.singular), got=unit_key(r.unit))


def run(case, mon):
    reset_context()
    c = shared_calc(simplify=False)
    c.vars.clear()
    k = case['k']
    if k in ('word', 'amb'):
        t = case['t']
        u = resolve(t) if k == 'word' else ut.BY[case['u']]
        v = val(case['v'])
        text = '{} {}'.format(case['v'], t)
        r = value_of(c, text)
        resolved(c, r, u, v, text)
        mon.obs('resolved', text)
        if t in BYSYM:
            mon.obs('symbol')
        display(c, r, u, v, text, mon)
        if any(u.dims):
            b = value_of(c, '({}) to {}'.format(text, base_text(u)))
            if not near(frac(b.value), want_base(v, u)):
                raise Violation('{!r} has a wrong size'.format(text), got=str(frac(b.value)) + ' ' + unit_key(b.unit), expected=str(want_base(v, u)))
        return
    if k == 'case':
        # a symbol in another letter case is another word
        rng = random.Random(case['s'])
        t = case['t']
        alts = sorted({t.upper(), t.lower(), t.capitalize(), t.swapcase(), ''.join(rng.choice([x.upper(), x.lower()]) for x in t)} - {t})
        for a in alts:
            u = resolve(a)
            text = '7 ' + a
            if a in AMB or a.lower() in AMB or a in ut.NO_SYMBOL or a.lower() in RESERVED:
                continue
            mon.obs('wrong case', text)
            o = calc(c, text)
            if u is not None:
                if not o.ok:
                    raise Violation('{!r} is rejected'.format(text), outcome=o.describe(c))
                resolved(c, o.last(), u, Fraction(7), text)
            elif o.ok and o.last() is not None and o.last().unit is not None:
                raise Violation('{!r} is accepted as a unit though no unit has that symbol'.format(text), got=o.describe(c))
        return
    if k == 'pref':
        # a name that units of several systems share, the preference being changed on a calculator in use
        return c11.run_amb(case, mon)
    if k == 'product':
        return product(case, mon, c)
    if k == 'around':
        return around(case, mon, c)
    if k == 'ident':
        return identifier(case, mon, c)
    if k == 'func':
        f, want = FUNCTIONS[case['i']]
        mon.obs('function', (f, case['t']))
        for text, w in ((f, want), ('{} + 1'.format(f), want + 1), ('2 * {}'.format(f), 2 * want), ('({})'.format(f), want)):
            r = value_of(c, text)
            if frac(r.value) != w or r.unit is not None:
                raise Violation('{!r} is not read as a function call'.format(text), got=show(c, r) + ' ' + unit_key(r.unit), expected=str(w))
        u = resolve(case['t'])
        if not u.offset:
            text = '{} {} * {}'.format(3, case['t'], f)
            r = value_of(c, text)
            if frac(r.value) != 3 * want or unit_key(r.unit) != u.singular:
                raise Violation('{!r} is wrong'.format(text), got=show(c, r) + ' ' + unit_key(r.unit))
        return
    if k == 'nosym':
        # without the symbols only the names are units
        n = nosymbols()
        n.vars.clear()
        t = case['t']
        text = '7 ' + t
        o = calc(n, text)
        u = BYNAME.get(t.lower())
        mon.obs('no symbols', text)
        if u is not None:
            if not o.ok:
                raise Violation('{!r} is rejected without the symbols feature'.format(text), outcome=o.describe(n))
            resolved(n, o.last(), u, Fraction(7), text)
        elif t not in AMB and o.ok and o.last() is not None and o.last().unit is not None:
            raise Violation('{!r} is read as a unit though symbols are not installed'.format(text), got=o.describe(n))


_NOSYM = []


def nosymbols():
    """A calculator with all units but without their symbols."""
    if not _NOSYM:
        c = ModularCalculator()
        full = ModularCalculator('Computing')
        want = [f for f in full.installed_features if f != 'units.unitsymbols']
        c.install_features(want)
        c.unit_simplification_set(False)
        if any('unitsymbols' in f for f in c.installed_features):
            raise Skip('symbols cannot be left out')
        _NOSYM.append(c)
    return _NOSYM[0]


def display(c, r, u, v, text, mon):
    """Singular for one, plural otherwise; the displayed name denotes the unit again."""
    name = r.unit.get_name(r.value)
    want = u.singular if v == 1 else u.plural
    mon.obs('singular' if v == 1 else 'plural')
    if name != want:
        raise Violation('{!r} is displayed with {!r} instead of {!r}'.format(text, name, want), value=str(v))
    back = '{} {}'.format(num_text(c, r.value) if len(str(v)) < 12 else '7', name)
    b = value_of(c, back)
    mon.obs('read back')
    if unit_key(b.unit) != u.singular:
        raise Violation('the displayed {!r} does not read back as {}'.format(back, u.singular), got=unit_key(b.unit))
    if r.unit.has_symbols():
        s = r.unit.symbol()
        if s in ut.NO_SYMBOL:
            return
        b = value_of(c, '7 ' + s)
        if unit_key(b.unit) != u.singular:
            raise Violation('the symbol {!r} displayed for {} does not read back'.format(s, u.singular), got=unit_key(b.unit))


def product(case, mon, c):
    rng = random.Random(case['seed'])
    prod = case['p']
    v = val(case['v'])
    t = ut.p_text(rng, prod)
    text = '{} {}'.format(case['v'], t)
    r = value_of(c, text)
    want = {}
    for n, p in prod:
        want[n] = want.get(n, 0) + p
    got = parts(r.unit)
    mon.obs('resolved', text)
    if got != want or frac(r.value) != v:
        raise Violation('{!r} is not read as {}'.format(text, want), got=str(got), value=str(frac(r.value)))
    # every displayed form reads back as the same unit
    forms = [r.unit.get_name(r.value), r.unit.singular(), r.unit.plural()]
    if r.unit.has_symbols() and not any(s in ut.NO_SYMBOL for n in want for s in ut.BY[n].symbols):
        forms.append(r.unit.symbol())
    for f in forms:
        b = value_of(c, '7 ' + f)
        mon.obs('read back', f)
        if parts(b.unit) != want or frac(b.value) != 7:
            raise Violation('{!r}, displayed for {!r}, reads back as another unit'.format(f, text), got=str(parts(b.unit)), expected=str(want))
    if v == 1:
        mon.obs('singular')
        if forms[0] != forms[1]:
            raise Violation('{!r} is displayed in the plural'.format(text), got=forms[0])
    else:
        mon.obs('plural')
        if forms[0] != forms[2]:
            raise Violation('{!r} is displayed in the singular'.format(text), got=forms[0])


def parts(unit):
    return {up.unit.singular(): int(frac(up.power)) for up in unit.list()} if unit is not None else {}


AROUND = [('7 {}+3 {}', 10), ('7 {} + 3 {}', 10), ('(7 {})', 7), ('( 7 {} )', 7), ('7 {}\n', 7), ('7 {} # note', 7), ('7 {}# note', 7), ('7 {}*2', 14), ('7 {}/2', Fraction(7, 2)), ('2*7 {}', 14), ('\t7\t{}', 7),
          ('7 {}-3 {}', 4), ('sum(7 {},3 {})', 10), ('sum([7 {},3 {}])', 10), ('abs(7 {})', 7), ('7 {} * 2', 14), ('9 {} -2 {}', 7), ('7    {}', 7), ('true then 7 {} else 3', 7), ('7 ({})', 7), ('x = 7 {}', 7)]


def around(case, mon, c):
    t = case['t']
    u = resolve(t)
    n = case['n']
    tmpl, want = AROUND[n % len(AROUND)]
    if u.offset or (tmpl == '7 {}# note' and False):
        tmpl, want = '(7 {})', 7
    text = tmpl.replace('{}', t)
    r = value_of(c, text)
    mon.obs('surroundings', text)
    if frac(r.value) != want or unit_key(r.unit) != u.singular:
        raise Violation('{!r} is wrong'.format(text), got='{} {}'.format(show(c, r), unit_key(r.unit)), expected='{} {}'.format(want, u.singular))
    if tmpl == '7 {}+3 {}':
        # comparisons and array elements, written tightly
        b = value_of(c, '7 {0}>3 {0}'.format(t))
        if b.value is not True:
            raise Violation('{!r} is wrong'.format('7 {0}>3 {0}'.format(t)), got=show(c, b))
        a = value_of(c, '[7 {0},3 {0}]'.format(t))
        if [(frac(x.value), unit_key(x.unit)) for x in a.value] != [(7, u.singular), (3, u.singular)]:
            raise Violation('{!r} is wrong'.format('[7 {0},3 {0}]'.format(t)), got=show(c, a))


def identifier(case, mon, c):
    ident = case['id']
    low = ident.lower()
    if resolve(ident) or ident in AMB or low in AMB or low in RESERVED or ident in ut.NO_SYMBOL or ident in getattr(c, 'constants', {}) or low in [s.lower() for s in ut.SYSTEMS]:
        raise Skip('itself a word of the language')
    if re.match(r'(z|0|\d)', ident):
        raise Skip('not an identifier')
    n = case['n']
    mon.obs('identifier', (ident, n % 4))
    text, want = [('{0} = {1}\n{0} + 1', n + 1), ('{0} = {1}\n2 * {0}', 2 * n), ('{0} = {1}\nsum({0}, 1)', n + 1), ('{0} = {1}\n({0})*3', 3 * n)][n % 4]
    text = text.format(ident, n)
    r = value_of(c, text)
    if frac(r.value) != want or r.unit is not None:
        raise Violation('the variable {!r} is not read as one word'.format(ident), program=text, got='{} {}'.format(show(c, r), unit_key(r.unit)), expected=str(want))
