"""C19: date arithmetic against an independent proleptic Gregorian calendar in exact microseconds."""
import random
import time
from fractions import Fraction
from rv import unittab as ut
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C19'
TECHNIQUE = ('runtime monitor: dateadd/datesubtract/+%/-%/datedifference/dateformat/now on generated moments (month, year, leap and calendar-end boundaries, time zones, microseconds) '
             'judged by an independent day-count calendar in exact microseconds; inversion, composition and consistency laws; planted invalid dates and durations')
RULE = ('moments biased to calendar boundaries over years 1-9999 written in every accepted notation; durations in every time unit from exact integer microseconds up to millennia; '
        'distinct by program text')
BUDGET = {'quick': 90000, 'thorough': 1000000}
NEED = {'add': 10000, 'undo': 3000, 'difference': 5300, 'compose': 2000, 'reject': 2000, 'range': 1000, 'format': 1100, 'array': 1000, 'now': 50, 'text_order': 500}
ASSUMPTIONS = ['durations are a whole number of microseconds (or judged to within one microsecond)', 'dateformat is judged for years 1000-9999 in its default formats']

DAY = 86400 * 10 ** 6
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
TIME = None


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return 29 if m == 2 and leap(y) else MONTHS[m - 1]


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def to_us(y, mo, d, h=0, mi=0, s=0, us=0):
    days = days_before_year(y) + sum(mlen(y, k) for k in range(1, mo)) + d - 1
    return ((days * 24 + h) * 60 + mi) * 60 * 10 ** 6 + s * 10 ** 6 + us


END = to_us(10000, 1, 1)


def from_us(t):
    days, r = divmod(t, DAY)
    y = days // 366 + 1
    while days_before_year(y + 1) <= days:
        y += 1
    days -= days_before_year(y)
    m = 1
    while days >= mlen(y, m):
        days -= mlen(y, m)
        m += 1
    s, us = divmod(r, 10 ** 6)
    return y, m, days + 1, s // 3600, s // 60 % 60, s % 60, us


def tz_text(off):
    if off is None:
        return ''
    a = abs(off)
    return '{}{:02d}{:02d}'.format('-' if off < 0 else '+', a // 60, a % 60)


def canon(t, off):
    y, mo, d, h, mi, s, us = from_us(t)
    out = '{:04d}-{:02d}-{:02d}'.format(y, mo, d)
    if h or mi or s or us:
        out += 'T{:02d}:{:02d}:{:02d}'.format(h, mi, s)
        if us:
            out += '.{:06d}'.format(us)
    return out + tz_text(off)


def written(rng, t, off):
    """The moment in some accepted notation."""
    y, mo, d, h, mi, s, us = from_us(t)
    out = '{:04d}-{:02d}-{:02d}'.format(y, mo, d)
    if h or mi or s or us or rng.random() < .15:
        out += 'T{:02d}:{:02d}:{:02d}'.format(h, mi, s)
        if us or rng.random() < .1:
            f = '{:06d}'.format(us)
            if rng.random() < .5:
                f = f.rstrip('0') or '0'
            out += '.' + f
    if off is not None:
        z = tz_text(off)
        if off == 0 and rng.random() < .5:
            z = 'Z'
        elif rng.random() < .3:
            z = z[:3] + ':' + z[3:]
        out += z
    return out


def g_moment(rng):
    r = rng.random()
    if r < .35:
        y = rng.choice([1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2004, 2016, 2020, 2024, 2038, 2100, 2400, 9996, 9999])
    else:
        y = rng.randint(1, 9999) if r < .7 else rng.randint(1900, 2100)
    mo = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
    d = rng.choice([1, mlen(y, mo), mlen(y, mo), rng.randint(1, mlen(y, mo))])
    h = mi = s = us = 0
    r = rng.random()
    if r > .35:
        h, mi, s = rng.choice([(0, 0, 1), (23, 59, 59), (12, 0, 0), (0, 1, 0), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    if r > .65:
        us = rng.choice([1, 999999, 500000, 10, 100, 123456, rng.randint(0, 999999)])
    off = None
    if rng.random() < .25:
        off = rng.choice([0, 60, -60, 330, 345, -570, 720, 840, -720, 1439, -1439, rng.randint(-900, 900)])
    return to_us(y, mo, d, h, mi, s, us), off


SPANS = [1, 10, 10 ** 3, 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, DAY, 7 * DAY, 28 * DAY, 29 * DAY, 30 * DAY, 31 * DAY, 365 * DAY, 366 * DAY, 1461 * DAY, 36524 * DAY, 146097 * DAY]


def g_span(rng):
    """A duration in whole microseconds (signed)."""
    r = rng.random()
    if r < .5:
        v = rng.choice(SPANS) * rng.choice([1, 1, 2, 3, rng.randint(1, 400)])
    elif r < .7:
        v = rng.randint(0, 10 ** rng.randint(1, 17))
    elif r < .9:
        v = rng.choice(SPANS) + rng.choice([-1, 1, 10 ** 6, -10 ** 6])
    else:
        v = rng.choice([0, 1])
    return v if rng.random() < .6 else -v


def g_dur(rng, us):
    """Text of a duration of exactly us microseconds, in some unit."""
    u = rng.choice(TIME if rng.random() < .85 else [ut.BY['second']])
    f = Fraction(us, 10 ** 6) / u.scale
    lit = dec_literal(f)
    name = ut.u_text(rng, u.singular)
    if lit is None or len(lit) > 60:
        t = '({} / {}) {}'.format(f.numerator, f.denominator, name)
        return '(' + t + ')'
    t = '{} {}'.format(lit, name)
    r = rng.random()
    if r < .08 and us:
        return '({} {} {} {})'.format(lit, name, rng.choice(['+', '-']), '0 ' + name)
    if r < .14:
        return '({} m / 1 (m / {}))'.format(lit, name)
    return t if lit[0] != '-' or rng.random() < .5 else '(' + t + ')'


def setup():
    global TIME
    ut.bind(shared_calc())
    TIME = [u for u in ut.BYDIM[ut.BY['second'].dims] if u.offset == 0]


def gen(rng, i, tier):
    k = rng.choices(['add', 'undo', 'difference', 'compose', 'reject', 'format', 'array', 'now', 'fine', 'range'], [30, 10, 25, 8, 9, 6, 5, .5, 4, 4])[0]
    return {'kind': k, 'seed': rng.randint(0, 10 ** 12)}


def fixed(tier):
    for y in [1, 3, 4, 100, 400, 900, 1000, 1900, 1999, 2000, 2023, 2024, 9999]:
        for m in range(1, 13):
            yield {'kind': 'month', 'y': y, 'm': m, 'seed': 1}
    if tier == 'thorough':
        for y in range(1, 10000):
            yield {'kind': 'month', 'y': y, 'm': 2, 'seed': 1}
            yield {'kind': 'month', 'y': y, 'm': 12, 'seed': 1}


def q(s):
    return "'" + s + "'"


def expect_date(c, prog, want, mon, kind):
    r = value_of(c, prog)
    mon.obs(kind, prog)
    if r.value != want or r.unit is not None:
        raise Violation('date arithmetic gives a wrong moment', text=prog, got=show(c, r), expected=want)


def add_text(rng, d, us, g=None):
    """Some spelling of 'd moved by us microseconds'."""
    form = rng.choice(['dateadd({}, {})', '{} +% {}', 'datesubtract({}, {})', '{} -% {}'])
    if 'subtract' in form or '-%' in form:
        us = -us
    return form.format(d, g_dur(rng, us))


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    rng = random.Random(case['seed'])
    k = case['kind']
    if k == 'month':
        y, m = case['y'], case['m']
        t = to_us(y, m, mlen(y, m))
        expect_date(c, "{} +% 0 days".format(q(canon(t, None))), canon(t, None), mon, 'add')
        if (y, m) != (9999, 12):
            expect_date(c, "{} +% 1 day".format(q(canon(t, None))), canon(t + DAY, None), mon, 'add')
            expect_date(c, "{} -% 1 day".format(q(canon(t + DAY, None))), canon(t, None), mon, 'add')
        n = mlen(y, m) + 1
        bad = '{:04d}-{:02d}-{:02d}'.format(y, m, n)
        expect_fail(c, "{} +% 1 day".format(q(bad)), 'no such day')
        mon.obs('reject', bad)
        return
    t, off = g_moment(rng)
    d = q(written(rng, t, off))
    pre = ''
    if rng.random() < .1:
        pre, d = 'dt = {}\n'.format(d), 'dt'
    if k in ('add', 'undo', 'range'):
        us = g_span(rng) if k != 'range' else rng.choice([-1, 1]) * rng.choice([(t if rng.random() < .5 else END - 1 - t) + rng.choice([-1, 0, 1, 2, DAY]), rng.randint(0, 2 * END), 10 ** 30])
        prog = pre + add_text(rng, d, us)
        if not 0 <= t + us < END:
            o = calc(c, prog)
            mon.obs('range', prog)
            if not o.failed:
                raise Violation('a date outside the calendar is not an error', text=prog, got=o.describe(c))
            return
        expect_date(c, prog, canon(t + us, off), mon, 'range' if k == 'range' else 'add')
        if k == 'undo':
            x = g_dur(rng, us)
            prog = pre + rng.choice(['datesubtract(dateadd({}, {}), {})', '{} +% {} -% {}']).format(d, x, x)
            expect_date(c, prog, canon(t, off), mon, 'undo')
    elif k == 'fine':
        # parts of a microsecond: the nearest representable moments
        f = Fraction(rng.randint(1, 10 ** 9), rng.choice([3, 7, 10 ** 7, 10 ** 9]))
        u = rng.choice(TIME)
        us = f * u.scale * 10 ** 6
        if not 0 <= t + us < END - 1:
            raise Skip('range')
        r = value_of(c, 'dateadd({}, ({} / {}) {})'.format(q(written(rng, t, off)), f.numerator, f.denominator, ut.u_text(rng, u.singular)))
        mon.obs('add', (t, str(f), u.singular))
        lo = us.numerator // us.denominator
        if r.value not in (canon(t + lo, off), canon(t + lo + 1, off)):
            raise Violation('adding a fraction of a microsecond moves a date elsewhere', moment=canon(t, off), microseconds=str(us), got=show(c, r))
    elif k == 'compose':
        a, b = g_span(rng), g_span(rng)
        if not (0 <= t + a < END and 0 <= t + a + b < END):
            raise Skip('range')
        inner = add_text(rng, d, a)
        prog = pre + add_text(rng, '(' + inner + ')', b)
        expect_date(c, prog, canon(t + a + b, off), mon, 'compose')
        prog = pre + '{} +% ({} + {})'.format(d, g_dur(rng, a).replace('(-', '( -'), '(' + g_dur(rng, b) + ')')
        expect_date(c, prog, canon(t + a + b, off), mon, 'compose')
    elif k == 'difference':
        t2, off2 = g_moment(rng)
        if rng.random() < .5:
            t2 = min(max(t + g_span(rng), 0), END - 1)
        if off is None:
            off2 = None
        elif off2 is None:
            off2 = rng.choice([off, 0, -60])
        d2 = q(written(rng, t2, off2))
        us = abs((t - (off or 0) * 60 * 10 ** 6) - (t2 - (off2 or 0) * 60 * 10 ** 6))
        u = rng.choice(TIME)
        base = rng.random() < .3
        name = ut.u_text(rng, u.singular)
        prog = pre + ('datedifference({}, {})'.format(d, d2) if base else 'datedifference({}, {}, {})'.format(d, d2, name))
        r = value_of(c, prog)
        mon.obs('difference', prog)
        if base:
            u = ut.BY['second']
        want = Fraction(us, 10 ** 6) / u.scale
        if not isinstance(r.value, Number) or frac(r.value) != want or unit_key(r.unit) != u.singular:
            raise Violation('datedifference is not the exact duration in the unit asked for', text=prog, got=show(c, r), expected='{} {}'.format(want, u.singular))
        if off is None:
            lo, hi = min(t, t2), max(t, t2)
            prog = '{} +% datedifference({}, {})'.format(q(canon(lo, None)), q(canon(hi, None)), q(canon(lo, None)))
            expect_date(c, prog, canon(hi, None), mon, 'undo')
            day1, day2 = t - t % DAY, t2 - t2 % DAY
            prog = '({} +% 0 s) <$ ({} +% 0 s)'.format(q(canon(day1, None)), q(canon(day2, None)))
            r = value_of(c, prog)
            mon.obs('text_order', prog)
            if r.value is not (day1 < day2):
                raise Violation('the texts of dates do not order like the dates', text=prog, got=show(c, r), expected=day1 < day2)
    elif k == 'reject':
        good = g_dur(rng, 10 ** 6)
        y, mo, dd, h, mi, s, us = from_us(t)
        bads = ['{:04d}-13-01'.format(y), '{:04d}-00-10'.format(y), '{:04d}-{:02d}-00'.format(y, mo), '{:04d}-{:02d}-{:02d}'.format(y, mo, mlen(y, mo) + 1),
                '{:04d}-{:02d}-{:02d}T24:00:00'.format(y, mo, dd), '{:04d}-{:02d}-{:02d}T10:60:00'.format(y, mo, dd), '{:04d}-{:02d}-{:02d}T10:00:62'.format(y, mo, dd),
                '0000-01-01', '{:04d}/{:02d}/{:02d}'.format(y, mo, dd), canon(t, None) + 'x', 'x' + canon(t, None), '', 'today', '{:04d}-{:02d}'.format(y, mo), '10:00:00',
                '10000-01-01', '{:04d}-{:02d}-{:02d} 25:00:00'.format(y, mo, dd)]
        badd = ['5', '5 m', '5 s^2', '(5 / (1 s))', "'5'", "'x'", 'true', '1 kg', 'seconds', '5 (m/s)', 'nosuch9', '(1 s / 0)']
        r = rng.random()
        b = q(rng.choice(bads))
        if r < .4:
            prog = rng.choice(['dateadd({}, {})', '{} +% {}', 'datesubtract({}, {})', '{} -% {}']).format(b, good)
        elif r < .6:
            prog = rng.choice(['datedifference({}, {})', 'datedifference({1}, {0})', 'datedifference({}, {}, hours)', 'dateformat({})']).format(b, d)
        elif r < .9:
            prog = rng.choice(['dateadd({}, {})', '{} +% {}', 'datesubtract({}, {})', '{} -% {}']).format(d, rng.choice(badd))
        elif r < .95:
            prog = 'datedifference({}, {}, {})'.format(d, d, rng.choice(['m', 'kg', "'hours'", '5', 'm/s', '5 s']))
        else:
            prog = 'datedifference({}, {})'.format(q(canon(t, None)), q(canon(t, 60)))
        o = calc(c, pre + prog)
        mon.obs('reject', prog)
        if not o.failed:
            raise Violation('an invalid date or duration is not an error', text=pre + prog, got=o.describe(c) + repr(o.exc))
    elif k == 'format':
        y, mo, dd, h, mi, s, us = from_us(t)
        if y < 1000:
            raise Skip('year')
        wd = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday'][(t // DAY) % 7]
        mn = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[mo - 1]
        want = '{}, {:02d}-{}-{:04d}'.format(wd, dd, mn, y)
        if h or mi or s or us:
            want += ' at {:02d}:{:02d}:{:02d}'.format(h, mi, s)
            if us:
                want += '.{:06d}'.format(us)
        if off is not None:
            want += ' ({})'.format(tz_text(off))
        expect_date(c, pre + 'dateformat({})'.format(d), want, mon, 'format')
    elif k == 'array':
        spans = [s for s in (g_span(rng) for _ in range(rng.randint(1, 4))) if 0 <= t + s < END]
        if not spans:
            raise Skip('range')
        op = rng.choice(['dateadd({}, [{}])', '{} +% [{}]'])
        prog = pre + op.format(d, ', '.join(g_dur(rng, s) for s in spans))
        r = value_of(c, prog)
        mon.obs('array', prog)
        want = [canon(t + s, off) for s in spans]
        if [x.value for x in r.value] != want:
            raise Violation('adding an array of durations gives wrong moments', text=prog, got=show(c, r), expected=want)
        prog = 'datedifference([{}], {}, seconds)'.format(', '.join(q(canon(t + s, off)) for s in spans), q(canon(t, off)))
        r = value_of(c, prog)
        if [frac(x.value) for x in r.value] != [Fraction(abs(s), 10 ** 6) for s in spans]:
            raise Violation('differences of an array of dates are wrong', text=prog, got=show(c, r), expected=[s / 10 ** 6 for s in spans])
    elif k == 'now':
        def clock():
            n = time.time_ns() // 1000
            l = time.localtime(n // 10 ** 6)
            return to_us(l.tm_year, l.tm_mon, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec, n % 10 ** 6)
        a = clock()
        r = value_of(c, 'now()')
        b = clock()
        mon.obs('now', r.value)
        if not (isinstance(r.value, str) and canon(a, None)[:10] <= r.value and r.value <= canon(b, None) + '~'):
            if len(canon(a, None)) == len(canon(b, None)) == len(r.value):
                raise Violation('now() is not the current moment', got=show(c, r), before=canon(a, None), after=canon(b, None))
        if len(canon(a, None)) == len(canon(b, None)) == len(r.value) and not canon(a, None) <= r.value <= canon(b, None):
            raise Violation('now() is not the current moment', got=show(c, r), before=canon(a, None), after=canon(b, None))
        expect_date(c, q(r.value) + ' +% 0 s', r.value, mon, 'now')
