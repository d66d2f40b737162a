"""C28: the special functions give the library's value for their documented arguments, and obey their mathematical identities."""
import math
import random
import warnings
from rv import hp
from rv.core import Violation, Skip
from rv.lib import *
from rv.sptab import functions

ID = 'C28'
TECHNIQUE = ('runtime differential monitor of every special function against the scientific library called with the documented argument order, '
             'plus identities that do not use the library (recurrences, complements, inverses, Wronskians, closed forms from a 50-digit series oracle); '
             'points outside the domain must be errors')
RULE = 'every documented special function x random argument lists (grid points, integers, probabilities, small and moderate reals, poles and domain edges); distinct by program text'
BUDGET = {'quick': 330000, 'thorough': 2500000}
NEED = {'value': 15000, 'outside': 3000, 'identity': 8000, 'functions with a value': 150, 'count': 300}
ASSUMPTIONS = ['the installed scipy.special is the library meant', 'arguments of moderate size (up to 60 in absolute value, orders up to 20)',
               'where the library gives a complex number with a non-zero imaginary part, the real part or an error is accepted']

FUNCS = functions()
_LIB = {}


def lib(name):
    if not _LIB:
        import scipy.special
        import numpy
        numpy.seterr(all='ignore')
        _LIB['m'] = scipy.special
    return getattr(_LIB['m'], name)


def preload():
    import scipy.special


def setup():
    shared_calc(simplify=False)


PROB = set('p y'.split())


def argument(rng, name, integer, order):
    r = rng.random()
    if integer:
        return str(rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(-3, 40)]))
    if order and r < .7:
        return str(rng.choice([0, 1, 2, 3, rng.randint(0, 10), .5, 1.5]))
    if name in PROB and r < .75:
        return dec(rng.randint(0, 1000), 3)
    if r < .15:
        return rng.choice(['-1', '0', '0.5', '1'])
    if r < .3:
        return str(rng.randint(-3, 12))
    if r < .5:
        return dec(rng.randint(0, 10 ** 4), 4)
    if r < .8:
        return dec(rng.randint(0, 10 ** 4), 3)
    if r < .93:
        return dec(rng.randint(-500, 500), 2)
    return dec(rng.randint(-600, 600), 1)


def dec(n, places):
    s = str(abs(n)).rjust(places + 1, '0')
    return ('-' if n < 0 else '') + s[:-places] + '.' + s[-places:]


ORDERS = {'mathieu_a': 'm', 'mathieu_b': 'm', 'smirnov': 'n', 'smirnovi': 'n', 'yn': 'n', 'kn': 'n', 'polygamma': 'n', 'expn': 'n', 'lpmv': 'm', 'sph_harm': 'mn', 'jvp': 'v', 'yvp': 'v', 'ivp': 'v',
          'h1vp': 'v', 'h2vp': 'v', 'jv': 'v', 'yv': 'v', 'kv': 'v', 'iv': 'v', 'bdtrc': 'kn', 'bdtri': 'kn', 'bdtrik': 'n', 'nbdtr': 'kn', 'nbdtrc': 'kn', 'nbdtri': 'kn', 'pdtr': 'k', 'pdtrc': 'k', 'pdtri': 'k'}
ONLY_INT = {'smirnov': 'n', 'smirnovi': 'n', 'yn': 'n', 'sph_harm': 'mn', 'mathieu_a': 'm', 'mathieu_b': 'm', 'expn': 'n', 'polygamma': 'n', 'lpmv': 'm', 'nbdtr': 'kn', 'nbdtrc': 'kn', 'pdtri': 'k', 'bdtrik': 'n'}


def gen(rng, i, tier):
    r = rng.random()
    if r < .22:
        return gen_identity(rng)
    # every function gets the same share
    name, libname, params, k, ints = FUNCS[i % len(FUNCS)]
    if r < .24:
        n = rng.choice([len(params) - 1, len(params) + 1])
        return {'k': 'count', 'f': name, 'n': n, 'a': [rng.choice(['1', '0.5', '2']) for _ in range(n)]}
    only = ONLY_INT.get(libname, '')
    order = ORDERS.get(libname, '')
    args = [argument(rng, p, (ints and p is not params[-1]) or p in only, p in order) for p in params]
    if ints and rng.random() < .3:
        # counts and orders are truncated
        args = [a + rng.choice(['.7', '.5', '.25', '.999']) if n < len(params) - 1 and a.lstrip('-').isdigit() else a for n, a in enumerate(args)]
    if rng.random() < .04:
        args = ["'{}'".format(a) if rng.random() < .5 else a for a in args]
    return {'k': 'value', 'f': FUNCS.index((name, libname, params, k, ints)), 'a': args}


def fixed(tier):
    # the grid the documentation's examples are drawn from, every function at every point with at most three arguments
    grid = ['-1', '0', '0.5', '1']
    for n, (name, libname, params, k, ints) in enumerate(FUNCS):
        pts = [[]]
        for p in params[:3]:
            gg = ['0', '1', '2'] if (ints and p != params[-1]) or p in ONLY_INT.get(libname, '') else grid
            pts = [a + [x] for a in pts for x in gg]
        for a in pts:
            yield {'k': 'value', 'f': n, 'a': a + ['0.5'] * (len(params) - len(a))}


def run(case, mon):
    reset_context()
    c = shared_calc(simplify=False)
    c.vars.clear()
    if case['k'] == 'identity':
        return run_identity(case, mon, c)
    if case['k'] == 'count':
        text = '{}({})'.format(case['f'], ', '.join(case['a']))
        mon.obs('count', text)
        o = calc(c, text)
        if not o.failed:
            raise Violation('{!r} has the wrong number of arguments but is accepted'.format(text), got=o.describe(c))
        return
    name, libname, params, k, ints = FUNCS[case['f']]
    documented = getattr(getattr(c, 'funcs', {}).get(name), 'syntax', None)
    if isinstance(documented, (list, tuple)) and list(documented) != params:
        raise Violation('{} documents its arguments in another order than the library takes them'.format(name), documented=list(documented), library=params)
    text = '{}({})'.format(name, ', '.join(case['a']))
    plain_args = [a.strip("'") for a in case['a']]
    args = [int(Fraction(a)) if ints and n < len(params) - 1 else float(Fraction(a)) for n, a in enumerate(plain_args)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            want = lib(libname)(*args)
        except Exception as e:
            want = None
    if k is not None and want is not None:
        want = want[k]
    o = calc(c, text)
    if want is None or not finite(want):
        mon.obs('outside', text)
        if not o.failed:
            raise Violation('{!r} has no real finite value but is not an error'.format(text), got=o.describe(c), library=repr(want))
        return
    want = complex(want)
    if want.imag != 0 and o.failed:
        return
    got = number_of(c, text, o)
    kind = 'value' if want.imag == 0 else 'real part of a complex value'
    mon.obs(kind, text)
    once(mon, name)
    if abs(got - want.real) > 1e-13 * abs(want.real):
        raise Violation('{!r} differs from the library'.format(text), got=repr(got), library=repr(want), function=libname, arguments=str(args))


def once(mon, name):
    seen = mon.__dict__.setdefault('seen_functions', set())
    if name not in seen:
        seen.add(name)
        mon.obs('functions with a value')


def finite(x):
    x = complex(x)
    return math.isfinite(x.real) and math.isfinite(x.imag)


def number_of(c, text, o=None):
    o = o or calc(c, text)
    if not o.ok:
        raise Violation('{!r} has a value but is rejected'.format(text), outcome=o.describe(c))
    r = o.last()
    if r is None or not isinstance(r.value, Number):
        raise Violation('{!r} does not give a number'.format(text), got=o.describe(c))
    if r.unit is not None:
        raise Violation('{!r} has a unit'.format(text), got=unit_key(r.unit))
    f = frac(r.value)
    return f.numerator / f.denominator


# ---- identities -----------------------------------------------------------------------------------

def ex(f, x):
    """An elementary function from the series oracle."""
    return float(hp.f(f, Fraction(x)))


PI = math.pi
IDS = []


def ident(*kinds):
    def deco(fn):
        IDS.append((fn, kinds))
        return fn
    return deco


def draw(rng, kind):
    if kind == 'n':
        return rng.randint(1, 12)
    if kind == 'n0':
        return rng.randint(0, 8)
    if kind == 'x':         # moderate positive
        return rng.randint(5, 2000) / 100
    if kind == 's':         # small positive
        return rng.randint(10, 500) / 100
    if kind == 't':         # shape parameters that keep an inverse well conditioned
        return rng.randint(80, 500) / 100
    if kind == 'r':         # real
        return rng.randint(-400, 400) / 100
    if kind == 'u':         # inside (0, 1)
        return rng.randint(20, 980) / 1000
    if kind == 'v':         # order
        return rng.randint(0, 600) / 100
    raise KeyError(kind)


@ident('x')
def gamma_recurrence(S, x):
    return S('gamma', x + 1), x * S('gamma', x)


@ident('n')
def gamma_factorial(S, n):
    return S('gamma', n), float(math.factorial(n - 1))


@ident('u')
def gamma_reflection(S, x):
    return S('gamma', x) * S('gamma', 1 - x), PI / ex('sin', Fraction(x) * hp.f('pi', 0))


@ident('x')
def gammaln_is_log(S, x):
    return S('gammaln', x) , S('loggamma', x)


@ident('s')
def exp_gammaln(S, x):
    return ex('exp', S('gammaln', x)), S('gamma', x)


@ident('x')
def rgamma_reciprocal(S, x):
    return S('rgamma', x) * S('gamma', x), 1.0


@ident('r')
def gamma_sign(S, x):
    if x <= 0 and x == int(x):
        return None
    return S('gammasgn', x), math.copysign(1.0, S('gamma', x))


@ident('x', 's')
def beta_from_gamma(S, a, b):
    return S('beta', a, b), S('gamma', a) * S('gamma', b) / S('gamma', a + b)


@ident('x', 's')
def betaln_from_gammaln(S, a, b):
    return S('betaln', a, b), S('gammaln', a) + S('gammaln', b) - S('gammaln', a + b), 1e-9


@ident('x', 's')
def beta_symmetric(S, a, b):
    return S('beta', a, b), S('beta', b, a)


@ident('x')
def digamma_recurrence(S, x):
    return S('psi', x + 1), S('digamma', x) + 1 / x, 1e-9


@ident('n0', 's')
def polygamma_recurrence(S, n, x):
    return S('polygamma', n, x + 1) - S('polygamma', n, x), (-1) ** n * math.factorial(n) / x ** (n + 1), 1e-7


@ident('s', 'n')
def pochhammer(S, z, m):
    w = 1.0
    for i in range(m):
        w *= z + i
    return S('poch', z, m), w


@ident('s', 'x')
def gammainc_complement(S, a, x):
    return S('gammainc', a, x) + S('gammaincc', a, x), 1.0


@ident('x')
def gammainc_one(S, x):
    return S('gammainc', 1, x), 1 - ex('exp', -x), 1e-11


@ident('t', 'u')
def gammainc_inverse(S, a, y):
    return S('gammainc', a, S('gammaincinv', a, y)), y


@ident('t', 'u')
def gammaincc_inverse(S, a, y):
    return S('gammaincc', a, S('gammainccinv', a, y)), y


@ident('s', 's', 'u')
def betainc_complement(S, a, b, x):
    return S('betainc', a, b, x) + S('betaincc', a, b, x), 1.0


@ident('s', 'u')
def betainc_power(S, a, x):
    return S('betainc', a, 1, x), x ** a


@ident('s', 'u')
def betainc_power2(S, b, x):
    return S('betainc', 1, b, x), 1 - (1 - x) ** b, 1e-10


@ident('t', 't', 'u')
def betainc_inverse(S, a, b, y):
    return S('betainc', a, b, S('betaincinv', a, b, y)), y, 1e-6


@ident('t', 't', 'u')
def betaincc_inverse(S, a, b, y):
    return S('betaincc', a, b, S('betainccinv', a, b, y)), y, 1e-6


@ident('r')
def ndtr_symmetric(S, x):
    return S('ndtr', x) + S('ndtr', -x), 1.0


@ident('u')
def ndtri_inverse(S, y):
    return S('ndtr', S('ndtri', y)), y


@ident('r')
def log_ndtr(S, x):
    return ex('exp', S('log_ndtr', x)), S('ndtr', x)


@ident('u')
def ndtri_exp(S, y):
    return S('ndtri_exp', ex('log', y)), S('ndtri', y), 1e-8


@ident('r')
def expit_definition(S, x):
    return S('expit', x), 1 / (1 + ex('exp', -x))


@ident('u')
def logit_inverse(S, p):
    return S('expit', S('logit', p)), p


@ident('r')
def log_expit(S, x):
    return ex('exp', S('log_expit', x)), S('expit', x)


@ident('s', 'v')
def boxcox_definition(S, x, l):
    return S('boxcox', x, l), (x ** l - 1) / l if l else ex('log', x), 1e-9


@ident('s', 'v')
def boxcox_inverse(S, x, l):
    return S('inv_boxcox', S('boxcox', x, l), l), x, 1e-9


@ident('s', 'v')
def boxcox1p(S, x, l):
    return S('boxcox1p', x, l), S('boxcox', 1 + x, l), 1e-9


@ident('s', 'v')
def boxcox1p_inverse(S, x, l):
    return S('inv_boxcox1p', S('boxcox1p', x, l), l), x, 1e-8


@ident('n', 'n0', 'u')
def binomial_tail(S, n, k, p):
    k = min(k, n)
    return S('bdtrc', k, n, p), sum(math.comb(n, i) * p ** i * (1 - p) ** (n - i) for i in range(k + 1, n + 1)), 1e-9, 1e-12


@ident('n', 'n0', 'u')
def binomial_inverse_p(S, n, k, y):
    if k >= n:
        return None
    return S('bdtrc', k, n, S('bdtri', k, n, y)), 1 - y, 1e-7


@ident('n', 'n0', 'u')
def negative_binomial_inverse_p(S, n, k, y):
    return S('nbdtr', k, n, S('nbdtri', k, n, y)), y, 1e-7


@ident('n0', 'x')
def bessel_k_integer_recurrence(S, n, x):
    return S('kn', n + 2, x), S('kn', n, x) + 2 * (n + 1) / x * S('kn', n + 1, x), 1e-9


@ident('r', 'u', 's')
def normal_deviation(S, m, p, x):
    sd = S('nrdtrisd', m, p, m + x)
    return (S('ndtr', x / sd) if abs(p - .5) > .02 else p), p, 1e-7


@ident('n', 'u', 'u')
def binomial_inverse_k(S, n, y, p):
    n += 3
    k = S('bdtrik', y, n, p)
    if not 0.05 < k < n - 0.05:
        return None
    return S('betaincc', k + 1, n - k, p), y, 1e-5


@ident('n0', 's', 's')
def poisson_tail(S, k, m, _):
    w = sum(math.exp(-m) * m ** i / math.factorial(i) for i in range(k + 1))
    return S('pdtr', k, m), w


@ident('n0', 's')
def poisson_complement(S, k, m):
    return S('pdtr', k, m) + S('pdtrc', k, m), 1.0


@ident('n0', 'u')
def poisson_inverse(S, k, y):
    return S('pdtr', k, S('pdtri', k, y)), y, 1e-8


@ident('n', 'n', 'u')
def negative_binomial(S, k, n, p):
    w = sum(math.comb(n + i - 1, i) * p ** n * (1 - p) ** i for i in range(k + 1))
    return S('nbdtr', k, n, p), w


@ident('n', 'n', 'u')
def negative_binomial_complement(S, k, n, p):
    return S('nbdtr', k, n, p) + S('nbdtrc', k, n, p), 1.0


@ident('x', 's')
def chi_square(S, v, x):
    return S('chdtr', v, x), S('gammainc', v / 2, x / 2)


@ident('x', 's')
def chi_square_complement(S, v, x):
    return S('chdtr', v, x) + S('chdtrc', v, x), 1.0


@ident('x', 'u')
def chi_square_inverse(S, v, p):
    return S('chdtrc', v, S('chdtri', v, p)), p


@ident('x', 'u')
def chi_square_inverse_v(S, x, p):
    if p < .05 or p > .95:
        return None
    v = S('chdtriv', p, x)
    if v < .05:
        return None
    return S('chdtr', v, x), p, 1e-6


@ident('s', 's', 's')
def f_complement(S, a, b, x):
    return S('fdtr', a, b, x) + S('fdtrc', a, b, x), 1.0


@ident('s', 's', 's')
def f_from_beta(S, a, b, x):
    return S('fdtr', a, b, x), S('betainc', a / 2, b / 2, a * x / (a * x + b)), 1e-9


@ident('t', 't', 'u')
def f_inverse(S, a, b, p):
    return S('fdtr', a, b, S('fdtri', a, b, p)), p, 1e-6


@ident('s', 's', 's')
def gamma_distribution(S, a, b, x):
    return S('gdtr', a, b, x), S('gammainc', b, a * x), 1e-10


@ident('s', 's', 's')
def gamma_distribution_complement(S, a, b, x):
    return S('gdtr', a, b, x) + S('gdtrc', a, b, x), 1.0


@ident('t', 't', 'u')
def gamma_distribution_inverse(S, a, b, p):
    return S('gdtr', a, b, S('gdtrix', a, b, p)), p, 1e-7


@ident('x', 'r')
def student_symmetric(S, df, t):
    return S('stdtr', df, t) + S('stdtr', df, -t), 1.0


@ident('r')
def student_cauchy(S, t):
    return S('stdtr', 1, t), .5 + ex('atan', t) / PI, 1e-10


@ident('x', 'u')
def student_inverse(S, df, p):
    return S('stdtr', df, S('stdtrit', df, p)), p, 1e-7


@ident('u', 'r', 's')
def normal_mean(S, p, x, sd):
    m = S('nrdtrimn', p, sd, x)
    return S('ndtr', (x - m) / sd), p, 1e-7


@ident('u', 's')
def kolmogorov_inverse(S, p, _):
    return S('kolmogorov', S('kolmogi', p)), p, 1e-8


@ident('n', 'u')
def smirnov_inverse(S, n, p):
    return S('smirnov', n, S('smirnovi', n, p)), p, 1e-7


@ident('v', 'x')
def bessel_j_recurrence(S, v, x):
    return S('jv', v, x) + S('jv', v + 2, x), 2 * (v + 1) / x * S('jv', v + 1, x), None, 1e-9


@ident('v', 'x')
def bessel_wronskian(S, v, x):
    return S('jv', v + 1, x) * S('yv', v, x) - S('jv', v, x) * S('yv', v + 1, x), 2 / (PI * x), 1e-8


@ident('v', 'x')
def bessel_modified_wronskian(S, v, x):
    return S('iv', v, x) * S('kv', v + 1, x) + S('iv', v + 1, x) * S('kv', v, x), 1 / x, 1e-9


@ident('x')
def bessel_half(S, x):
    return S('jv', .5, x), math.sqrt(2 / (PI * x)) * ex('sin', x), None, 1e-11


@ident('x')
def bessel_k_half(S, x):
    return S('kv', .5, x), math.sqrt(PI / (2 * x)) * ex('exp', -x), 1e-10


@ident('n0', 'x')
def bessel_integer_order(S, n, x):
    return S('yn', n, x), S('yv', n, x), None, 1e-9


@ident('n0', 'n')
def bessel_k_integer_order(S, n, x):
    return S('kn', n, x), S('kv', n, x), 1e-9


@ident('v', 'x')
def bessel_scaled(S, v, x):
    return S('ive', v, x), S('iv', v, x) * ex('exp', -x), 1e-9


@ident('v', 'x')
def bessel_k_scaled(S, v, x):
    return S('kve', v, x), S('kv', v, x) * ex('exp', x), 1e-9


@ident('v', 'x')
def bessel_derivative(S, v, x):
    return S('jvp', v + 1, x), (S('jv', v, x) - S('jv', v + 2, x)) / 2, None, 1e-9


@ident('v', 'x')
def bessel_i_derivative(S, v, x):
    return S('ivp', v + 1, x), (S('iv', v, x) + S('iv', v + 2, x)) / 2, 1e-9


@ident('v', 'x')
def bessel_y_derivative(S, v, x):
    y = S('yv', v, x)
    if abs(y) > 1e5:
        return None
    return S('yvp', v + 1, x), (y - S('yv', v + 2, x)) / 2, 1e-8


@ident('v', 'x')
def hankel_real_part(S, v, x):
    return S('hankel1', v, x), S('jv', v, x), 1e-9, 1e-11 * (1 + abs(S('yv', v, x)))


@ident('r')
def airy_wronskian(S, z):
    return S('airy_ai', z) * S('airy_bip', z) - S('airy_aip', z) * S('airy_bi', z), 1 / PI, 1e-9


@ident('s')
def airy_scaled(S, z):
    return S('airye_eai', z), S('airy_ai', z) * ex('exp', 2 * z * math.sqrt(z) / 3), 1e-9


@ident('r', 'u')
def jacobi_circle(S, u, m):
    return S('ellipj_sn', u, m) ** 2 + S('ellipj_cn', u, m) ** 2, 1.0


@ident('r', 'u')
def jacobi_dn(S, u, m):
    return S('ellipj_dn', u, m) ** 2 + m * S('ellipj_sn', u, m) ** 2, 1.0


@ident('r', 'u')
def jacobi_amplitude(S, u, m):
    return S('ellipkinc', S('ellipj_ph', u, m), m), u, 1e-9


@ident('u')
def elliptic_legendre(S, m):
    k, e, k2, e2 = S('ellipk', m), S('ellipe', m), S('ellipk', 1 - m), S('ellipe', 1 - m)
    return e * k2 + e2 * k - k * k2, PI / 2


@ident('u')
def elliptic_agm(S, m):
    return S('ellipk', m), PI / 2 / S('agm', 1, math.sqrt(1 - m))


@ident('u')
def elliptic_near_one(S, p):
    return S('ellipkm1', p), S('ellipk', 1 - p)


@ident('u')
def elliptic_complete(S, m):
    return S('ellipkinc', PI / 2, m), S('ellipk', m), 1e-9


@ident('u')
def elliptic_complete_e(S, m):
    return S('ellipeinc', PI / 2, m), S('ellipe', m), 1e-9


@ident('u')
def carlson_complete(S, m):
    return S('elliprf', 0, 1 - m, 1), S('ellipk', m)


@ident('u')
def carlson_second(S, m):
    return 2 * S('elliprg', 0, 1 - m, 1), S('ellipe', m)


@ident('s')
def carlson_equal(S, x):
    return S('elliprf', x, x, x), 1 / math.sqrt(x)


@ident('s', 's')
def carlson_degenerate(S, x, y):
    return S('elliprc', x, y), S('elliprf', x, y, y)


@ident('s', 's', 's')
def carlson_third(S, x, y, z):
    return S('elliprj', x, y, z, z), S('elliprd', x, y, z), 1e-9


@ident('x', 's')
def agm_step(S, a, b):
    return S('agm', a, b), S('agm', (a + b) / 2, math.sqrt(a * b))


@ident('n', 's')
def expn_recurrence(S, n, x):
    return n * S('expn', n + 1, x), ex('exp', -x) - x * S('expn', n, x), 1e-7


@ident('s')
def exp1_is_expn(S, x):
    return S('exp1', x), S('expn', 1, x)


@ident('s')
def expi_series(S, x):
    t, s, k = 1.0, 0.5772156649015328606 + math.log(x), 1
    while k < 200:
        t *= x / k
        s += t / k
        k += 1
    return S('expi', x), s, None, 1e-9


@ident('s')
def si_series(S, x):
    x2, t, s, k = Fraction(x) ** 2, Fraction(x), Fraction(x), 1
    for _ in range(25):
        t = -t * x2 / ((k + 1) * (k + 2))
        k += 2
        s += t / k
    return S('sici_si', x), float(s), 1e-9


@ident('s')
def shi_series(S, x):
    x2, t, s, k = Fraction(x) ** 2, Fraction(x), Fraction(x), 1
    for _ in range(25):
        t = t * x2 / ((k + 1) * (k + 2))
        k += 2
        s += t / k
    return S('shichi_si', x), float(s), 1e-9


@ident('s')
def chi_expi(S, x):
    return S('shichi_si', x) + S('shichi_ci', x), S('expi', x), None, 1e-9


@ident('n')
def zeta_sum(S, n):
    s = n + 1
    w = sum(k ** -s for k in range(1, 200)) + 200.0 ** (1 - s) / (s - 1) + 200.0 ** -s / 2 + s * 200.0 ** (-s - 1) / 12
    return S('zeta', s), w, 1e-9


@ident('x')
def zetac_definition(S, x):
    if abs(x - 1) < .05:
        return None
    return S('zetac', x) + 1, S('zeta', x) if x > 1 else S('zetac', x) + 1


@ident('x')
def lambertw_inverse(S, x):
    w = S('lambertw', x)
    return w * ex('exp', w), x


@ident('r')
def wright_omega(S, x):
    w = S('wrightomega', x)
    return w + ex('log', w), x, None, 1e-10


@ident('u')
def hypergeometric_log(S, z):
    return S('hyp2f1', 1, 1, 2, z), -ex('log', 1 - Fraction(z)) / z, 1e-9


@ident('s', 's', 'u')
def hypergeometric_power(S, a, b, z):
    return S('hyp2f1', a, b, b, z * .9), (1 - z * .9) ** -a, 1e-8


@ident('s', 's')
def kummer(S, a, x):
    return S('hyp1f1', a, a, x), ex('exp', x), 1e-9


@ident('s', 's', 's')
def kummer_transformation(S, a, b, x):
    return S('hyp1f1', a, b, x), ex('exp', x) * S('hyp1f1', b - a, b, -x) if b > a else S('hyp1f1', a, b, x), 1e-7


@ident('s', 's')
def hyperu_power(S, a, x):
    return S('hyperu', a, a + 1, x), x ** -a, 1e-7


@ident('s')
def hyp0f1_cosh(S, x):
    return S('hyp0f1', .5, x * x / 4), ex('cosh', x), 1e-9


@ident('u')
def legendre_low(S, x):
    return S('lpmv', 0, 2, x), (3 * x * x - 1) / 2, None, 1e-12


@ident('u')
def legendre_associated(S, x):
    return S('lpmv', 1, 2, x), -3 * x * math.sqrt(1 - x * x), 1e-11


@ident('r', 'u')
def spherical_harmonic(S, theta, phi):
    # arguments: order, degree, azimuth, polar angle
    return S('sph_harm', 0, 1, theta, phi), math.sqrt(3 / (4 * PI)) * ex('cos', phi), 1e-11


@ident('r', 'u')
def spherical_harmonic_azimuth(S, theta, phi):
    return S('sph_harm', 1, 1, theta, phi), -math.sqrt(3 / (8 * PI)) * ex('sin', phi) * ex('cos', theta), None, 1e-12


@ident('s')
def parabolic_zero(S, x):
    return S('pbdv_d', 0, x), ex('exp', -x * x / 4), 1e-8


@ident('s')
def parabolic_derivative(S, x):
    return S('pbdv_dp', 0, x), -x / 2 * ex('exp', -x * x / 4), 1e-8


@ident('s')
def kelvin_parts(S, x):
    return S('kelvin_be', x), S('ber', x), None, 1e-10


@ident('s')
def kelvin_k_parts(S, x):
    return S('kelvin_ke', x), S('ker', x), None, 1e-10


@ident('s')
def kelvin_derivative_parts(S, x):
    return S('kelvin_bep', x), S('berp', x), None, 1e-10


@ident('s')
def kelvin_kd_parts(S, x):
    return S('kelvin_kep', x), S('kerp', x), None, 1e-10


@ident('s')
def bei_series(S, x):
    t, s, k = x * x / 4, x * x / 4, 1
    q = (x / 2) ** 4
    for k in range(1, 25):
        t = -t * q / ((2 * k) * (2 * k + 1)) ** 2
        s += t
    return S('bei', x), s, None, 1e-9


@ident('s')
def ber_series(S, x):
    t = s = 1.0
    q = (x / 2) ** 4
    for k in range(1, 25):
        t = -t * q / ((2 * k) * (2 * k - 1)) ** 2
        s += t
    return S('ber', x), s, None, 1e-9


@ident('u')
def entropy(S, x):
    return S('entr', x), -x * ex('log', x)


@ident('u', 's')
def relative_entropy(S, x, y):
    return S('rel_entr', x, y), x * ex('log', Fraction(x) / Fraction(y)) if x != y else 0.0, None, 1e-12


@ident('u', 's')
def kullback(S, x, y):
    return S('kl_div', x, y), S('rel_entr', x, y) - x + y, None, 1e-11


@ident('s', 'r')
def huber(S, d, r):
    return S('huber', d, r), r * r / 2 if abs(r) <= d else d * (abs(r) - d / 2), None, 1e-12


@ident('s', 'r')
def pseudo_huber(S, d, r):
    return S('pseudo_huber', d, r), d * d * (math.sqrt(1 + (r / d) ** 2) - 1), None, 1e-10


@ident('r', 's')
def owens_t_even(S, h, a):
    return S('owens_t', h, a), S('owens_t', -h, a)


@ident('r')
def owens_t_one(S, h):
    p = S('ndtr', h)
    return S('owens_t', h, 1), p * (1 - p) / 2, 1e-9


@ident('r')
def tukey_logistic(S, x):
    return S('tklmbda', x, 0), S('expit', x)


@ident('s', 'r')
def noncentral_t_central(S, df, t):
    return S('nctdtr', df, 0, t), S('stdtr', df, t), 1e-6


@ident('s', 's')
def wright_bessel_exponential(S, b, x):
    # a = 0: exp(x) / gamma(b)
    return S('wright_bessel', 0, b, x), ex('exp', x) / S('gamma', b), 1e-9


@ident('s')
def integral_airy_b(S, x):
    h = .02
    return (S('itairy_bpt', x + h) - S('itairy_bpt', x - h)) / (2 * h), S('airy_bi', x), None, 5e-3


@ident('s')
def integral_airy_negative(S, x):
    h = .02
    return (S('itairy_ant', x + h) - S('itairy_ant', x - h)) / (2 * h), S('airy_ai', -x), None, 5e-3


@ident('s')
def integral_airy_b_negative(S, x):
    h = .02
    return (S('itairy_bnt', x + h) - S('itairy_bnt', x - h)) / (2 * h), S('airy_bi', -x), None, 5e-3


@ident('s')
def integral_bessel_derivative(S, x):
    h = .02
    return (S('itj0y0_ij0', x + h) - S('itj0y0_ij0', x - h)) / (2 * h), S('jv', 0, x), None, 5e-3


@ident('s')
def integral_bessel_y(S, x):
    h = .02
    return (S('itj0y0_iy0', x + h) - S('itj0y0_iy0', x - h)) / (2 * h), S('yv', 0, x), None, 5e-3


@ident('s')
def integral_modified(S, x):
    h = .02
    return (S('iti0k0_ii0', x + h) - S('iti0k0_ii0', x - h)) / (2 * h), S('iv', 0, x), None, 5e-3


@ident('s')
def integral_modified_k(S, x):
    h = .02
    return (S('iti0k0_ik0', x + h) - S('iti0k0_ik0', x - h)) / (2 * h), S('kv', 0, x), None, 5e-3


@ident('s')
def integral_airy(S, x):
    h = .02
    return (S('itairy_apt', x + h) - S('itairy_apt', x - h)) / (2 * h), S('airy_ai', x), None, 5e-3


def gen_identity(rng):
    k = rng.randrange(len(IDS))
    return {'k': 'identity', 'i': k, 'a': [draw(rng, x) for x in IDS[k][1]]}


class Undefined(Exception):
    pass


def run_identity(case, mon, c):
    fn, kinds = IDS[case['i']]
    asked = []

    def S(name, *args):
        text = 'sp_{}({})'.format(name, ', '.join(literal(a) for a in args))
        v = number_of(c, text)
        asked.append('{} = {!r}'.format(text, v))
        return v
    r = fn(S, *case['a'])
    if r is None:
        raise Skip('identity does not apply')
    got, want = r[0], r[1]
    rel = r[2] if len(r) > 2 else 1e-10
    ab = r[3] if len(r) > 3 else 0
    mon.obs('identity', (fn.__name__, tuple(case['a'])))
    scale = max(abs(got), abs(want))
    if abs(got - want) > (rel or 0) * scale + ab * (1 + scale if rel is None else 1):
        raise Violation('identity {} does not hold for {}'.format(fn.__name__, case['a']), left=repr(got), right=repr(want), evaluated='; '.join(asked))


def literal(x):
    f = Fraction(x)
    if f.denominator == 1:
        return str(f.numerator)
    return dec_literal(f)
