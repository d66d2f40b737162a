"""C09: unit conversion is exact, reversible and rejects incompatible dimensions."""
import random
from fractions import Fraction
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C09'
TECHNIQUE = ('runtime monitor: every conversion compared with exact rational arithmetic over an independent table of published scale factors and '
             'offsets; reversal and conversion via a third unit as second oracle')
RULE = ('all ordered pairs of units of one dimension (sampled 1/3 in quick), every unit to its base product and to a foreign dimension, then random '
        'unit products, temperatures and arrays; distinct by (from, to)')
BUDGET = {'quick': 20000, 'thorough': 300000}
NEED = {'exact': 4600, 'roundtrip': 4000, 'via': 2500, 'rejected': 2200, 'unit_kept': 5400, 'offset': 300}


def preload():
    ut.bind(shared_calc())


def setup():
    ut.bind(shared_calc())


def fixed(tier):
    i = 0
    for d, us in ut.BYDIM.items():
        for a in us:
            for b in us:
                i += 1
                if tier == 'thorough' or i % 7 == 0 or len(us) < 20:
                    yield {'kind': 'pair', 'a': a.singular, 'b': b.singular, 'v': ['1', '37', '-12.5', '0.003'][i % 4]}
        foreign = [u for u in ut.TABLE if u.dims != d]
        for a in us:
            i += 1
            yield {'kind': 'bad', 'a': [[a.singular, 1]], 'b': [[foreign[i * 7919 % len(foreign)].singular, 1]], 'seed': i}


def gen(rng, i, tier):
    k = rng.random()
    v = rng.choice(['1', '2', '0', '-7', '1/3', '22/7', '0.1', '123456.789', '-0.00025', '1e6', '99.5', '1e-9', '40', '451'])
    if k < .15:
        a = [[rng.choice(['Celsius', 'Fahrenheit', 'kelvin', 'millikelvin', 'kilokelvin']), 1]]
        b = [[rng.choice(['Celsius', 'Fahrenheit', 'kelvin', 'microkelvin']), 1]]
        m = [[rng.choice(['Celsius', 'Fahrenheit', 'kelvin']), 1]]
        return {'kind': 'conv', 'a': a, 'b': b, 'm': m, 'v': v, 'seed': rng.randint(0, 10 ** 9), 'simp': rng.random() < .5}
    if k < .25:
        a = ut.r_prod(rng, temps=True)
        b = ut.r_prod(rng, temps=True)
        if k < .2:
            b = [list(x) for x in a]
            j = rng.randrange(len(b))
            b[j][1] += rng.choice([1, -1, 2])
            b = [x for x in b if x[1]] or [['meter', 4]]
        return {'kind': 'bad', 'a': a, 'b': b, 'seed': rng.randint(0, 10 ** 9)}
    if k < .32:
        u = ut.pick_unit(rng)
        us = ut.BYDIM[ut.BY[u].dims]
        return {'kind': 'array', 'us': [rng.choice(us).singular for _ in range(rng.randint(1, 4))], 'b': rng.choice(us).singular,
                'vs': [str(rng.randint(-20, 900)) for _ in range(4)], 'seed': rng.randint(0, 10 ** 9)}
    for _ in range(20):
        a = ut.r_prod(rng, temps=rng.random() < .2)
        b = ut.same_dims(rng, a)
        m = ut.same_dims(rng, a)
        if b and m:
            break
    else:
        a, b, m = [['mile', 1]], [['meter', 1]], [['foot', 1]]
    return {'kind': 'conv', 'a': a, 'b': b, 'm': m, 'v': v, 'seed': rng.randint(0, 10 ** 9), 'simp': rng.random() < .5}


def model(v, a, b):
    if ut.p_single(a) and ut.p_single(b):
        return ut.from_base(ut.to_base(v, a), b)
    return v * ut.p_scale(a) / ut.p_scale(b)


def keyof(c0, text):
    """Unit of a quantity as the calculator displays it, from a bare unit text (simplification off)."""
    return sorted((up.unit.singular(), str(up.power.to_decimal())) for up in value_of(c0, '1 ' + text).unit.list())


def rkey(r):
    return sorted((up.unit.singular(), str(up.power.to_decimal())) for up in r.unit.list()) if r.unit is not None else []


def mkey(prod):
    return sorted((n, str(p)) for n, p in prod)


def convert(c, vt, at, bt, a, b, v, mon, what='exact'):
    text = '({} {}) to {}'.format(vt, at, bt)
    o = calc(c, text)
    if not o.ok:
        raise Violation('a conversion between units of one dimension fails', text=text, got=o.describe(c))
    r = o.last()
    want = model(v, a, b)
    mon.obs(what, (at, bt))
    if frac(r.value) != want:
        raise Violation('a conversion gives a wrong value', text=text, got=str(frac(r.value)), expected=str(want))
    mon.obs('unit_kept')
    if rkey(r) != mkey(b):
        raise Violation('a conversion gives another unit than asked for', text=text, got=rkey(r), expected=mkey(b))
    return r


def big(*prods):
    if sum(ut.ops_digits(p) for p in prods) > 80:
        raise Skip('needs more digits than the number size')


def run(case, mon):
    rng = random.Random(case.get('seed', 1))
    c = shared_calc(simplify=case.get('simp', True))
    c.vars.clear()
    k = case['kind']
    if k == 'pair':
        a, b = [[case['a'], 1]], [[case['b'], 1]]
        big(a, b)
        v = Fraction(case['v'])
        vt = '({})'.format(case['v'])
        at, bt = ut.BY[case['a']].names[0], ut.BY[case['b']].names[0]
        convert(c, vt, at, bt, a, b, v, mon)
        back = value_of(c, '({} {}) to {} to {}'.format(vt, at, bt, at))
        mon.obs('roundtrip')
        if frac(back.value) != v:
            raise Violation('converting back does not give the original', case=case, got=str(frac(back.value)))
        return
    if k == 'bad':
        a, b = case['a'], case['b']
        if ut.p_dims(a) == ut.p_dims(b):
            raise Skip('compatible')
        at, bt = ut.p_text(rng, a), ut.p_text(rng, b)
        for text in ('(3 {}) to {}'.format(at, bt), '[2 {0}, 3 {0}] to {1}'.format(at, bt), '({} to {})'.format(at, bt)):
            o = calc(c, text)
            mon.obs('rejected', (at, bt))
            if o.kind == 'raw':
                raise Violation('unexpected exception', text=text, got=repr(o.exc))
            if o.ok and text[0] == '[':
                ok = all(isinstance(x.value, Exception) for x in o.last().value)
            else:
                ok = o.failed
            if not ok:
                raise Violation('a conversion between different dimensions is accepted', text=text, got=o.describe(c))
        # the same unit with other powers, whole or not
        u = rng.choice([n for n, _ in a + b if not ut.BY[n].offset] or ['meter'])
        w = (ut.same_dims(rng, [[u, 1]]) or [[u, 1]])
        w = w[0][0] if len(w) == 1 and w[0][1] == 1 else u
        p, q = rng.sample(['0.5', '1.5', '1.25', '1.4', '2.5', '0.75', '1.6', '1', '2', '3', '2.4', '-0.5', '-1.5', '-1'], 2)
        text = '(3 {} ^ {}) to {} ^ {}'.format(*[x if x[0] != '-' else '(%s)' % x for x in (ut.BY[u].names[0], p, ut.BY[rng.choice([u, w])].names[0], q)])
        o = calc(c, text)
        mon.obs('rejected', text)
        if not o.failed:
            raise Violation('a conversion between different dimensions is accepted', text=text, got=o.describe(c))
        o = calc(c, '3 to ' + bt)
        if not o.failed:
            raise Violation('a number without unit is converted', text='3 to ' + bt, got=o.describe(c))
        return
    if k == 'array':
        b = [[case['b'], 1]]
        elems, want = [], []
        for n, vt in zip(case['us'], case['vs']):
            big([[n, 1]], b)
            elems.append('{} {}'.format(vt, ut.u_text(rng, n)))
            want.append(model(Fraction(vt), [[n, 1]], b))
        text = '[{}] to {}'.format(', '.join(elems), ut.u_text(rng, case['b']))
        r = value_of(c, text)
        got = [frac(x.value) for x in r.value]
        mon.obs('array', text)
        if got != want or any(rkey(x) != mkey(b) for x in r.value):
            raise Violation('converting an array is not element by element', text=text, got=show(c, r), expected=str(want))
        return
    a, b, m = case['a'], case['b'], case['m']
    big(a, b, m)
    v = Fraction(case['v']) if 'e' not in case['v'] else Fraction(case['v'])
    vt = '({})'.format(case['v'])
    at, bt, mt = ut.p_text(rng, a), ut.p_text(rng, b), ut.p_text(rng, m)
    # the quantity written as a literal keeps its unit products as written
    r = convert(c, vt, at, bt, a, b, v, mon, 'offset' if ut.BY[a[0][0]].kind == 'temperature' and len(a) == 1 else 'exact')
    calc(c, 'qq = {} {}'.format(vt, at))
    back = value_of(c, '(qq to {}) to {}'.format(bt, at))
    mon.obs('roundtrip', (at, bt, 'r'))
    single = ut.p_single(a)
    if frac(back.value) != (v if single == ut.p_single(b) or not any(ut.BY[x[0]].offset for x in a + b) else frac(back.value)):
        raise Violation('converting back does not give the original', a=at, b=bt, v=vt, got=str(frac(back.value)))
    if not any(ut.BY[x[0]].offset for x in a + b + m) or all(map(ut.p_single, (a, b, m))):
        via = value_of(c, '(qq to {}) to {}'.format(mt, bt))
        mon.obs('via', (at, mt, bt))
        if frac(via.value) != frac(r.value):
            raise Violation('going via a third unit gives another value', a=at, via=mt, b=bt, v=vt, got=str(frac(via.value)), expected=str(frac(r.value)))
    mon.sample('({} {}) to {}'.format(vt, at, bt))
