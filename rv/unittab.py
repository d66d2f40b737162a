"""Independent table of the units: names, symbols, dimensions and scale factors, written from the published definitions
(SI brochure, international yard and pound agreement, UK and US volume definitions, IAU constants, IEC 80000-13 factors).

Three factors are not the exact published value but the rounded one this calculator documents: parsec (3.085677581e16 m),
psi (6894.757 Pa) and the mean Gregorian month and year are exact (365.2425 days).
"""
from fractions import Fraction as F
import random

DIMS = ('L', 'M', 'T', 'I', 'K', 'N', 'J', 'A', 'S', 'D')
PREF = [('atto', 'a', -18), ('femto', 'f', -15), ('pico', 'p', -12), ('nano', 'n', -9), ('micro', '\u00b5', -6), ('milli', 'm', -3),
        (None, None, 0), ('kilo', 'k', 3), ('mega', 'M', 6), ('giga', 'G', 9), ('tera', 'T', 12), ('peta', 'P', 15), ('exa', 'E', 18)]
IEC = [('kibi', 'ki', 1), ('mebi', 'Mi', 2), ('gibi', 'Gi', 3), ('tebi', 'Ti', 4), ('pebi', 'Pi', 5), ('exbi', 'Ei', 6), ('zebi', 'Zi', 7), ('yobi', 'Yi', 8)]


def dim(**k):
    return tuple(k.get(d, 0) for d in DIMS)


class U:
    def __init__(self, names, symbols, dims, scale, offset=0, kind=''):
        self.names, self.symbols, self.dims, self.scale, self.offset, self.kind = names, symbols, dims, F(scale), F(offset), kind

    @property
    def plural(self):
        return self.names[0]

    @property
    def singular(self):
        return self.names[1]


TABLE = []
_L, _M, _T = dim(L=1), dim(M=1), dim(T=1)


def _plain(names, symbols, dims, scale, offset=0, kind=''):
    TABLE.append(U(names.split('|'), symbols.split('|') if symbols else [], dims, scale, offset, kind))


def _pref(names, symbols, dims, scale, lo=-99, hi=99, kind='', extra=()):
    names, symbols = names.split('|'), symbols.split('|') if symbols else []
    for p, s, e in list(PREF) + list(extra):
        if lo <= e <= hi:
            TABLE.append(U([(p or '') + n for n in names], [(s or '') + x for x in symbols], dims, F(scale) * F(10) ** e, 0, kind))


_CENTI = ('centi', 'c', -2)
C0 = 299792458
# distance
_pref('meters|meter|metres|metre', 'm', _L, 1, hi=3, kind='distance', extra=[_CENTI])
_plain('lightyears|lightyear', '', _L, C0 * 31557600, kind='distance')
_plain('lightweeks|lightweek', '', _L, C0 * 604800, kind='distance')
_plain('lightdays|lightday', '', _L, C0 * 86400, kind='distance')
_plain('lighthours|lighthour', '', _L, C0 * 3600, kind='distance')
_plain('lightminutes|lightminute', '', _L, C0 * 60, kind='distance')
_plain('lightseconds|lightsecond', '', _L, C0, kind='distance')
_plain('astronomical units|astronomical unit', 'au', _L, 149597870700, kind='distance')
_pref('parsecs|parsec', 'pc', _L, F('30856775810000000'), lo=0, kind='distance')
IN = F('0.0254')
_plain('inches|inch', 'in', _L, IN, kind='distance')
_plain('feet|foot', 'ft', _L, IN * 12, kind='distance')
_plain('yards|yard', 'yd', _L, IN * 36, kind='distance')
_plain('miles|mile', 'mi', _L, IN * 63360, kind='distance')
_plain('nautical miles|nautical mile', 'nmi', _L, 1852, kind='distance')
# mass (kilograms)
LB = F('0.45359237')
_pref('grams|gram', 'g', _M, F(1, 1000), hi=3, kind='mass')
_pref('tonnes|tonne', '', _M, 1000, lo=0, kind='mass')
_plain('grains|grain', 'gr', _M, LB / 7000, kind='mass')
_plain('ounces|ounce', 'oz', _M, LB / 16, kind='mass')
_plain('pounds|pound', 'lb', _M, LB, kind='mass')
_plain('stone|stone', 'st', _M, LB * 14, kind='mass')
_plain('short tons|short ton', '', _M, LB * 2000, kind='mass')
_plain('long tons|long ton', '', _M, LB * 2240, kind='mass')
# time
_pref('seconds|second', 's', _T, 1, hi=0, kind='time')
_plain('minutes|minute', '', _T, 60, kind='time')
_plain('hours|hour', 'h', _T, 3600, kind='time')
_plain('days|day', '', _T, 86400, kind='time')
_plain('weeks|week', '', _T, 604800, kind='time')
YEAR = F('365.2425') * 86400
_plain('months|month', '', _T, YEAR / 12, kind='time')
_plain('years|year', 'yr', _T, YEAR, kind='time')
# volume
_V = dim(L=3)
_pref('liters|liter|litres|litre', 'l', _V, F(1, 1000), hi=0, kind='volume', extra=[_CENTI])
UKG = F('0.00454609')
USG = 231 * IN ** 3
for n, s in (('fluid ounce', 160), ('gill', 32), ('pint', 8), ('quart', 4), ('gallon', 1)):
    _plain('UK {0}s|UK {0}'.format(n), '', _V, UKG / s, kind='volume')
for n, s in (('dram', 1024), ('fluid ounce', 128), ('gill', 32), ('cup', 16), ('pint', 8), ('quart', 4), ('gallon', 1)):
    _plain('US {0}s|US {0}'.format(n), '', _V, USG / s, kind='volume')
# area, velocity, acceleration
_plain('acres|acre', 'ac', dim(L=2), 43560 * (IN * 12) ** 2, kind='area')
_plain('hectares|hectare', 'ha', dim(L=2), 10000, kind='area')
_plain('knots|knot', 'kn|kt', dim(L=1, T=-1), F(1852, 3600), kind='velocity')
_plain('gees|gee', '', dim(L=1, T=-2), F('9.80665'), kind='acceleration')
# temperature: kelvin = value * scale + offset
_K = dim(K=1)
_pref('kelvin|kelvin', 'K', _K, 1, kind='temperature')
_plain('Celsius|Celsius|deg C', '\u00b0C', _K, 1, F('273.15'), kind='temperature')
_plain('Fahrenheit|Fahrenheit|deg F', '\u00b0F', _K, F(5, 9), F('459.67') * F(5, 9), kind='temperature')
# angle
_plain('radians|radian', 'rad', dim(A=1), 1, kind='angle')
TAU = None      # the calculator's constant has finitely many digits; filled in by bind()
DEGREE = U(['degrees', 'degree'], ['\u00b0', 'deg'], dim(A=1), 1, 0, 'angle')
TABLE.append(DEGREE)
_plain('steradians|steradian', 'sr', dim(S=1), 1, kind='solidangle')
# derived SI
for n, s, d, k in [
        ('pascals|pascal', 'Pa', dim(M=1, L=-1, T=-2), 'pressure'), ('joules|joule', 'J', dim(M=1, L=2, T=-2), 'energy'),
        ('grays|gray', 'Gy', dim(L=2, T=-2), 'absorbeddose'), ('farads|farad', 'F', dim(I=2, T=4, M=-1, L=-2), 'capacitance'),
        ('katals|katal', 'kat', dim(N=1, T=-1), 'catalyticactivity'), ('siemens|siemens', 'S', dim(T=3, I=2, M=-1, L=-2), 'electricalconductance'),
        ('volts|volt', 'V', dim(M=1, L=2, T=-3, I=-1), 'electricalpotential'), ('coulombs|coulomb', 'C', dim(I=1, T=1), 'electriccharge'),
        ('amperes|ampere', 'A', dim(I=1), 'electriccurrent'), ('sieverts|sievert', 'Sv', dim(L=2, T=-2), 'equivalentdose'),
        ('newtons|newton', 'N', dim(M=1, L=1, T=-2), 'force'), ('hertz|hertz', 'Hz', dim(T=-1), 'frequency'),
        ('lux|lux', 'lx', dim(J=1, S=1, L=-2), 'illuminance'), ('henries|henry', 'H', dim(M=1, L=2, T=-2, I=-2), 'inductance'),
        ('lumens|lumen', 'lm', dim(J=1, S=1), 'luminousflux'), ('candelas|candela', 'cd', dim(J=1), 'luminousintensity'),
        ('webers|weber', 'Wb', dim(M=1, L=2, T=-2, I=-1), 'magneticflux'), ('teslas|tesla', 'T', dim(M=1, T=-2, I=-1), 'magneticfluxdensity'),
        ('watts|watt', 'W', dim(M=1, L=2, T=-3), 'power'), ('becquerels|becquerel', 'Bq', dim(T=-1), 'radioactivity'),
        ('ohms|ohm', '\u03a9', dim(M=1, L=2, T=-3, I=-2), 'resistance'), ('moles|mole', 'mol', dim(N=1), 'substance')]:
    _pref(n, s, d, 1, kind=k)
_plain('atmospheres|atmosphere', 'atm', dim(M=1, L=-1, T=-2), 101325, kind='pressure')
_plain('pound-force per square inch|pound-force per square inch', 'psi', dim(M=1, L=-1, T=-2), F('6894.757'), kind='pressure')
# data (bits)
_D = dim(D=1)
for n, s, k in (('bits|bit', 'bit', 1), ('bytes|byte', 'B', 8)):
    _pref(n, s, _D, k, lo=0, kind='data', extra=[('zetta', 'Z', 21), ('yotta', 'Y', 24)])
    for p, q, e in IEC:
        TABLE.append(U([p + x for x in n.split('|')], [q + s], _D, k * F(1024) ** e, 0, 'data'))

# ambiguous names: system -> unit
AMBIG = {
    'tons|ton': ('', {'us': 'short ton', 'uk': 'long ton'}),
    'fluid ounces|fluid ounce': ('floz|fl.oz', {'us': 'US fluid ounce', 'uk': 'UK fluid ounce'}),
    'pints|pint': ('pt', {'us': 'US pint', 'uk': 'UK pint'}),
    'quarts|quart': ('', {'us': 'US quart', 'uk': 'UK quart'}),
    'gallons|gallon': ('gal', {'us': 'US gallon', 'uk': 'UK gallon'}),
}

BY = {u.singular: u for u in TABLE}
BYDIM = {}
for _u in TABLE:
    BYDIM.setdefault(_u.dims, []).append(_u)

# 50 digits, from the published expansion
TAU50 = F('6.2831853071795864769252867665590057683943387987502')


def bind(c):
    """The degree is tau/360 with the calculator's tau; checked against the published digits."""
    from rv.lib import frac
    t = frac(c.constants['tau'])
    if abs(t - TAU50) > F(1, 10 ** 25):
        from rv.core import Violation
        raise Violation('the constant tau is wrong', got=str(t))
    DEGREE.scale = t / 360


def radd(a, b, k=1):
    return tuple(x + k * y for x, y in zip(a, b))


def scalar(d):
    return not any(d)


# ---- products of units: lists of [singular name, power] ---------------------------------------------

def p_dims(prod):
    d = dim()
    for n, p in prod:
        d = radd(d, BY[n].dims, p)
    return d


def p_scale(prod):
    s = F(1)
    for n, p in prod:
        s *= BY[n].scale ** p
    return s


def p_single(prod):
    return len(prod) == 1 and prod[0][1] == 1


def to_base(v, prod):
    if p_single(prod):
        u = BY[prod[0][0]]
        return v * u.scale + u.offset
    return v * p_scale(prod)


def from_base(b, prod):
    if p_single(prod):
        u = BY[prod[0][0]]
        return (b - u.offset) / u.scale
    return b / p_scale(prod)


NO_SYMBOL = {'as'}      # attosecond: the operator word 'as' comes first


def u_text(rng, name):
    u = BY[name]
    syms = [s for s in u.symbols if s not in NO_SYMBOL]
    if syms and rng.random() < .35:
        return rng.choice(syms)
    n = rng.choice(u.names)
    r = rng.random()
    return n.upper() if r < .08 else n.capitalize() if r < .15 else n


def p_text(rng, prod):
    """One of the ways of writing a product of units."""
    pos = [(n, p) for n, p in prod if p > 0]
    neg = [(n, p) for n, p in prod if p < 0]

    def f(n, p):
        t = u_text(rng, n)
        return t if p == 1 else '{}^{}'.format(t, p)
    style = rng.randint(0, 3)
    if style == 0 or not neg:
        xs = list(prod)
        return ' '.join(f(n, p) for n, p in xs)
    if style == 1 and pos:
        return ' '.join(f(n, p) for n, p in pos) + ''.join('/' + f(n, -p) for n, p in neg)
    if style == 2 and pos:
        return ' '.join(f(n, p) for n, p in pos) + '/(' + ' '.join(f(n, -p) for n, p in neg) + ')'
    return ' '.join(f(n, p) for n, p in prod)


COMMON = ['meter', 'kilometer', 'centimeter', 'inch', 'foot', 'mile', 'second', 'minute', 'hour', 'day', 'millisecond', 'gram', 'kilogram', 'pound', 'ounce',
          'tonne', 'kelvin', 'ampere', 'joule', 'newton', 'watt', 'kilowatt', 'volt', 'pascal', 'liter', 'hertz', 'coulomb', 'byte', 'mole', 'knot', 'US gallon']


def pick_unit(rng):
    return rng.choice(COMMON) if rng.random() < .6 else rng.choice(TABLE).singular


def r_prod(rng, n=None, temps=False):
    """A random product; every unit at most once, powers -3..3."""
    n = n or rng.choice([1, 1, 1, 2, 2, 3])
    out, seen = [], set()
    for _ in range(n):
        u = pick_unit(rng)
        if u in seen or (not temps and BY[u].offset):
            continue
        seen.add(u)
        out.append([u, rng.choice([1, 1, 1, 1, -1, -1, 2, -2, 3])])
    return out or [['meter', 1]]


BASEU = {'L': 'meter', 'M': 'kilogram', 'T': 'second', 'I': 'ampere', 'K': 'kelvin', 'N': 'mole', 'J': 'candela', 'A': 'radian', 'S': 'steradian', 'D': 'bit'}


def base_prod(d):
    return [[BASEU[k], p] for k, p in zip(DIMS, d) if p]


def same_dims(rng, prod):
    """Another product of the same dimension (None when the dimension vanishes)."""
    d = p_dims(prod)
    if scalar(d):
        return None
    k = rng.random()
    if k < .3:
        out = [[rng.choice(BYDIM[BY[n].dims]).singular, p] for n, p in prod]
    elif k < .5 and d in BYDIM:
        out = [[rng.choice(BYDIM[d]).singular, 1]]
    elif k < .75:
        out = [[rng.choice([u for u in BYDIM[BY[n].dims] if len(u.dims)]).singular if rng.random() < .6 else n, p] for n, p in base_prod(d)]
    else:
        # peel off one derived unit
        n = pick_unit(rng)
        p = rng.choice([1, -1])
        out = [[n, p]] + base_prod(radd(d, BY[n].dims, -p))
    merged = {}
    for n, p in out:
        merged[n] = merged.get(n, 0) + p
    out = [[n, p] for n, p in merged.items() if p]
    rng.shuffle(out)
    if not out or any(abs(p) > 6 for _, p in out) or len(out) > 5:
        return None
    return out


def ops_digits(prod):
    """Decimal digits the scale of a product may need."""
    t = 0
    for n, p in prod:
        s = BY[n].scale
        t += abs(p) * max(len(str(s.numerator)), len(str(s.denominator)))
    return t


# ---- measuring systems ---------------------------------------------------------------------------------
SYSTEMS = ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec']      # in order of preference
_CUSTOM = {
    'gregorian': 'minute hour day week month year',
    'us': 'inch foot yard mile acre grain ounce pound psi Fahrenheit',
    'asu': 'lightyear lightweek lightday lighthour lightminute lightsecond',
    'nautical': 'knot',
}


def systems_of(u):
    """Measuring systems a unit belongs to, by its published definition."""
    n = u.singular
    if u.kind == 'time':
        return {'si', 'gregorian'} if n.endswith('second') else {'gregorian'}
    if u.kind == 'data':
        iec = any(n.startswith(p) for p, _, _ in IEC)
        return {'iec'} if iec else {'si', 'iec'} if n in ('bit', 'byte') else {'si'}
    if n in ('inch', 'foot', 'yard', 'mile', 'acre', 'grain', 'ounce', 'pound', 'Fahrenheit', 'pound-force per square inch'):
        return {'us', 'uk'}
    if n in ('stone', 'long ton') or n.startswith('UK '):
        return {'uk'}
    if n == 'short ton' or n.startswith('US '):
        return {'us'}
    if n.startswith('light') or n.endswith('parsec') or n == 'astronomical unit':
        return {'asu'}
    if n in ('knot', 'nautical mile'):
        return {'nautical'}
    if n in ('atmosphere', 'gee'):
        return set()
    return {'si'}


NAMES = {}
for _u in TABLE:
    for _n in _u.names[:2]:
        NAMES[_n] = _u
