"""C21: any set of features composes, in any order, with the documented presets."""
import contextlib
import io
import random
from modularcalculator.features.presets import presets as PRESETS
from rv.featsamples import S
from rv.core import Violation, Skip
from rv.lib import *

ID = 'C21'
TECHNIQUE = ('runtime monitor over configurations: random feature sets are installed in several random orders (in one call, together with repeated installs); the monitor compares operator levels, functions, '
             'units and the outcomes of all sample programs between orders, with the full calculator and before/after repeated or rejected installs')
RULE = ('random subsets (1 feature to all) and permutations of the feature list; every sample program on exactly the features it is written with; random operator chains; presets against each other; '
        'unknown names in random places; distinct by feature list and order')
BUDGET = {'quick': 5000, 'thorough': 40000}
NEED = {'alone': 200, 'orders': 700, 'chain': 2000, 'again': 300, 'unknown': 100, 'presets': 100, 'samples_run': 100000, 'dependency': 5000, 'stepwise': 100}
ASSUMPTIONS = ['the names of one install_features call may come in any order; in separate calls, a feature that the documentation says is installed after another comes after it']

# what each preset adds to the one before it, as documented; a preset may grow but not shrink
DOCUMENTED = {
    'Basic': ['numerical.basicarithmetic', 'numerical.decimalnumbers', 'structure.operators'],
    'Advanced': ['nonfunctional.space', 'numerical.advancedarithmetic', 'state.assignment', 'state.assignmentoperators', 'structure.innerexpressions', 'structure.terminator'],
    'Scientific': ['arrays.arrays', 'arrays.arrayfunctions', 'numerical.decimalfunction', 'numerical.numericalrepresentation', 'numerical.expnumbers', 'numerical.percentagenumbers', 'numerical.numericalconstants', 'numerical.numericalfunctions', 'numerical.specialfunctions', 'numerical.statisticalfunctions', 'numerical.trigonometryfunctions', 'state.assignmentfunctions', 'state.constants', 'structure.functions', 'unitdefinitions.allunitdefinitions', 'units.advancedunitprefixes', 'units.basicunitprefixes', 'units.systems', 'units.unitconstants', 'units.unitfunctions', 'units.units', 'units.unitsymbols'],
    'Computing': ['boolean.booleans', 'numerical.bitwiseoperators', 'dates.datefunctions', 'dates.dateoperators', 'dates.dates', 'nonfunctional.comments', 'numerical.arbitrarybasenumbers', 'numerical.bases', 'numerical.binarynumbers', 'numerical.hexadecimalnumbers', 'numerical.octalnumbers', 'strings.regex', 'strings.stringarrayfunctions', 'strings.stringcomparison', 'strings.stringfunctions', 'strings.strings', 'structure.externalfunctions', 'structure.inlinefunctions'],
}

# features and their documented dependencies that must at least exist
IDS = sorted(set(f for fs, _ in S for f in fs))
REP = 'numerical.numericalrepresentation'
DEC, SP, AR, OP = 'numerical.decimalnumbers', 'nonfunctional.space', 'numerical.basicarithmetic', 'structure.operators'
BINARY = {AR: ['+', '-', '*', '/', '^'], 'numerical.advancedarithmetic': ['%', '\\'], 'numerical.bitwiseoperators': ['&', '|', '^^', '<<', '>>'],
          'boolean.booleans': ['<', '>', '<=', '>=', '==', '!=', 'and', 'or', 'xor', 'then'], 'strings.strings': ['+$', '*$'],
          'strings.stringcomparison': ['<$', '>$', '<=$', '>=$', '==$', '!=$', '==~', '!=~', '<~', '>~'], 'strings.regex': ['=~', '!~']}
PREFIX = {'numerical.bitwiseoperators': ['~ '], 'boolean.booleans': ['not ']}
SUFFIX = {REP: [' as decimal'], 'numerical.hexadecimalnumbers': [' as hexadecimal'], 'numerical.percentagenumbers': [' as percentage']}
OPERAND = {'numerical.binarynumbers': ['0b101', '0b0011'], 'numerical.hexadecimalnumbers': ['0x1F'], 'numerical.octalnumbers': ['0o17'], 'numerical.percentagenumbers': ['50%'],
           'numerical.expnumbers': ['2E1'], 'numerical.arbitrarybasenumbers': ['7z16'], 'boolean.booleans': ['true', 'false'], 'arrays.arrays': ['[1, 2]', '[3..5]'],
           'numerical.numericalconstants': ['pi', 'e'], 'strings.strings': ["'3'", "'ab'"], 'structure.innerexpressions': ['(4)', '(2) (3)'],
           'unitdefinitions.distance': ['2 meters', '5 feet'], 'unitdefinitions.time': ['3 seconds', '1 hour'], 'numerical.numericalfunctions': ['abs(-3)', 'floor(2.5)'],
           'numerical.statisticalfunctions': ['max(2, 5)']}


def chain(rng, feats, units=False):
    ops = [o for f in feats for o in BINARY.get(f, [])]
    pre = [o for f in feats for o in PREFIX.get(f, [])]
    suf = [o for f in feats for o in SUFFIX.get(f, [])] if REP in feats else []
    lits = [o for f in feats if units or not f.startswith('unit') for o in OPERAND.get(f, []) if AR in feats or o != '(2) (3)']
    if not ops:
        return None
    out, powers = [], 0
    n = rng.choice([2, 3, 3, 4, 5])
    for k in range(n):
        lit = rng.choice(lits) if lits and rng.random() < .35 else str(rng.choice([1, 2, 3, 4, 5, 7, 12])) if rng.random() < .8 else rng.choice(['2.5', '0', '100'])
        if pre and rng.random() < .12:
            lit = rng.choice(pre) + lit
        out.append(lit)
        if k < n - 1:
            op = rng.choice(ops)
            if op in ('^', '<<', '*$') and powers:
                op = '+' if '+' in ops else None
            if op is None:
                return None
            powers += op in ('^', '<<', '*$')
            out.append(op)
            if op == 'then' and rng.random() < .7:
                out += [str(rng.randint(1, 9)), 'else']
    text = ' '.join(out)
    if suf and rng.random() < .15:
        text += rng.choice(suf)
    return text


def closure_text(feats):
    return frozenset(feats)


def needs(c, f, seen=None):
    seen = set() if seen is None else seen
    if f in seen:
        return seen
    seen.add(f)
    cls = c.feature_list[f]
    for d in list(cls.dependencies()) + list(cls.subfeatures() if hasattr(cls, 'subfeatures') else []):
        needs(c, d, seen)
    return seen


def hinted(c, feats):
    """The same features in an order that respects the declared installation order hints, dependencies included."""
    need = {f: needs(c, f) for f in feats}
    everything = set().union(*need.values()) if need else set()
    hints = {f: set(c.feature_list[f].after()) & everything for f in everything}
    out, done, left = [], set(), list(feats)
    while left:
        for f in left:
            # nothing it brings along is to be installed after something that is not there yet
            if all(h in done or h in need[f] for x in need[f] - done for h in hints[x]):
                break
        else:
            raise Skip('no order of separate installs satisfies the hints')
        left.remove(f)
        out.append(f)
        done |= need[f]
    return out


def install(feats, how='together', rng=None):
    c = ModularCalculator()
    feats = list(feats)
    order = None if how == 'together' else hinted(c, feats)
    try:
        if how == 'together':
            c.install_features(feats)
        elif how == 'stepwise':
            for f in order:
                c.install_features(f if rng.random() < .5 else [f])
        else:
            k = rng.randint(0, len(order))
            if order[:k]:
                c.install_features(order[:k])
            c.install_features(order)
    except Exception as e:
        raise Violation('installing features failed', features=feats, how=how, error='{}: {}'.format(type(e).__name__, e))
    want = set().union(*[needs(c, f) for f in feats]) if feats else set()
    if set(c.installed_features) != want:
        raise Violation('what is installed is not the features asked for and what they depend on', features=feats, how=how,
                        missing=sorted(want - set(c.installed_features)), too_many=sorted(set(c.installed_features) - want))
    c.unit_simplification_set(True)
    return c


def shape(c):
    """What the calculator offers."""
    out = {}
    out['operators'] = [sorted(level) for level in getattr(c, 'ops', [])]
    out['functions'] = sorted(getattr(c, 'funcs', {}) or {})
    out['constants'] = sorted(getattr(c, 'constants', {}) or {})
    out['parsers'] = [p['name'] for p in getattr(c, 'parsers', [])]
    out['number types'] = sorted(getattr(c, 'number_types', {}) or {})
    out['validators'] = sorted(getattr(c, 'validators', {}) or {})
    out['options'] = {k: dict(v) for k, v in getattr(c, 'feature_options', {}).items() if isinstance(v, dict)}
    out['installed'] = sorted(getattr(c, 'installed_features', ()))
    n = getattr(c, 'unit_normaliser', None)
    if n is not None and hasattr(n, 'units'):
        try:
            out['units'] = sorted((dim, u.singular()) for dim, us in n.units.items() for u in us)
        except Exception:
            pass
    return out


def outcome(c, text):
    if getattr(c, 'vars', None) is not None:
        c.vars.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        o = calc(c, text)
    if o.kind == 'raw':
        import traceback; raise Violation('{!r} raises {} instead of a calculating error'.format(text, type(o.exc).__name__), error=str(o.message), tb=''.join(traceback.format_exception(o.exc))[-700:], features=sorted(c.installed_features))
    return o


def brief(c, o):
    """(value,..) or failed."""
    return plain_out(c, o, True) if o.ok else ('failed', plain_out(c, o, True)[1])


_FULL = {}


def full():
    if 'c' not in _FULL:
        _FULL['c'] = new_calc()
        _FULL['S'] = {}
    return _FULL['c']


def full_sample(text):
    c = full()
    if text not in _FULL['S']:
        o = outcome(c, text)
        _FULL['S'][text] = brief(c, o)
    return _FULL['S'][text]


def usable(feats, have):
    return set(feats) <= have


def random_set(rng):
    r = rng.random()
    if r < .3:
        k = rng.randint(1, 6)
    elif r < .8:
        k = rng.randint(5, 30)
    else:
        k = rng.randint(30, len(IDS))
    fs = rng.sample(IDS, min(k, len(IDS)))
    for f in (DEC, SP, AR, REP, 'structure.innerexpressions', 'numerical.advancedarithmetic', 'state.assignment', 'structure.terminator'):
        if rng.random() < .6 and f not in fs:
            fs.append(f)
    return fs


def gen(rng, i, tier):
    r = rng.random()
    seed = rng.randint(0, 10 ** 9)
    if r < .3:
        feats, text = S[rng.randrange(len(S))]
        fs = list(feats)
        rng.shuffle(fs)
        return {'kind': 'alone', 'features': fs, 'text': text}
    if r < .62:
        return {'kind': 'orders', 'features': random_set(rng), 'seed': seed}
    if r < .74:
        return {'kind': 'again', 'features': random_set(rng), 'seed': seed}
    if r < .82:
        return {'kind': 'stepwise', 'features': random_set(rng), 'seed': seed}
    if r < .9:
        return {'kind': 'unknown', 'features': random_set(rng)[:8], 'seed': seed}
    if r < .95:
        return {'kind': 'reject', 'features': random_set(rng)[:8], 'seed': seed}
    return {'kind': 'presets', 'seed': seed}


def fixed(tier):
    out = [{'kind': 'alone', 'features': list(f), 'text': t} for f, t in S]
    out += [{'kind': 'single', 'feature': f} for f in IDS]
    out += [{'kind': 'presets', 'seed': k} for k in range(100)]
    return out


def check_dependencies(c, mon):
    for f in list(c.installed_features):
        for d in c.feature_list[f].dependencies():
            mon.obs('dependency')
            if d not in c.installed_features:
                raise Violation('feature {} is installed without its dependency {}'.format(f, d))


def compare(a, b, ta, tb, texts, mon):
    sa, sb = shape(a), shape(b)
    for k in sa:
        if sa[k] != sb.get(k):
            raise Violation('the {} depend on {}'.format(k, tb), one=str(sa[k])[:700], other=str(sb.get(k))[:700], features=str(ta))
    for t in texts:
        mon.obs('samples_run')
        ra, rb = outcome(a, t), outcome(b, t)
        if brief(a, ra) != brief(b, rb):
            raise Violation('the result of {!r} depends on {}'.format(t, tb), one=ra.describe(a), other=rb.describe(b), features=str(ta))


def against_full(c, rng, mon, n):
    """What this calculator can do, it does like the full one."""
    have = set(c.installed_features)
    ok = [t for f, t in S if usable(f, have)]
    for t in rng.sample(ok, min(n, len(ok))):
        mon.obs('samples_run')
        o = outcome(c, t)
        if brief(c, o) != full_sample(t):
            raise Violation('{!r} gives another result than with all features'.format(t), got=o.describe(c), expected=str(full_sample(t)), features=sorted(have))
    if not {DEC, SP, OP} <= have:
        return
    for _ in range(n):
        t = chain(rng, sorted(have))
        if t is None:
            continue
        o = outcome(c, t)
        w = outcome(full(), t)
        if o.ok and w.ok:
            mon.obs('chain', t)
            if brief(c, o) != brief(full(), w):
                raise Violation('{!r} gives another result than with all features'.format(t), got=o.describe(c), expected=w.describe(full()), features=sorted(have))
        elif o.ok != w.ok and not (o.kind == 'parse' or w.kind == 'parse'):
            mon.obs('chain', t)
            raise Violation('{!r} fails with one set of features only'.format(t), got=o.describe(c), expected=w.describe(full()), features=sorted(have))


def run(case, mon):
    reset_context()
    k = case['kind']
    mon.obs(k)
    if k == 'alone':
        mon.obs('config', ' '.join(sorted(case['features'])))
        c = install(case['features'])
        o = outcome(c, case['text'])
        if brief(c, o) != full_sample(case['text']):
            raise Violation('{!r} does not work with exactly the features it needs'.format(case['text']), features=case['features'], got=o.describe(c), expected=str(full_sample(case['text'])))
        check_dependencies(c, mon)
        return
    if k == 'single':
        c = ModularCalculator()
        if case['feature'] not in c.list_features():
            raise Violation('feature {} is gone'.format(case['feature']))
        c = install([case['feature']])
        check_dependencies(c, mon)
        if case['feature'] not in c.installed_features:
            raise Violation('feature {} is not installed'.format(case['feature']))
        for f, t in S[::7]:
            outcome(c, t)
        return
    rng = random.Random(case['seed'])
    if k == 'presets':
        names = ['Basic', 'Advanced', 'Scientific', 'Computing']
        if sorted(ModularCalculator().list_presets()) != sorted(names):
            for n in names:
                if n not in ModularCalculator().list_presets():
                    raise Violation('preset {} is gone'.format(n))
        cs = []
        for n in names:
            try:
                if rng.random() < .5:
                    c = ModularCalculator(n)
                else:
                    c = ModularCalculator()
                    if rng.random() < .5 and cs:
                        c.load_preset(rng.choice(names[:len(cs)]))
                    c.load_preset(n)
            except Exception as e:
                raise Violation('preset {} does not install'.format(n), error='{}: {}'.format(type(e).__name__, e))
            c.unit_simplification_set(True)
            for f in PRESETS[n]:
                if f not in c.installed_features:
                    raise Violation('preset {} lacks {}'.format(n, f))
            for m in names[:names.index(n) + 1]:
                for f in DOCUMENTED[m]:
                    if f not in c.installed_features:
                        raise Violation('preset {} lacks {}'.format(n, f))
            check_dependencies(c, mon)
            cs.append(c)
        for a, b in zip(cs, cs[1:]):
            have = set(a.installed_features)
            if not have <= set(b.installed_features):
                raise Violation('a bigger preset lacks features of the smaller one', missing=sorted(have - set(b.installed_features)))
            texts = [t for f, t in S if usable(f, have)]
            texts = rng.sample(texts, min(12, len(texts)))
            texts += [t for t in (chain(rng, sorted(have)) for _ in range(8)) if t]
            if SP not in have:
                texts = [t.replace(' ', '') for t in texts if '-' not in t]
            for t in texts:
                mon.obs('samples_run')
                x, y = outcome(a, t), outcome(b, t)
                if x.kind == 'parse' or y.kind == 'parse':
                    continue
                if brief(a, x) != brief(b, y):
                    raise Violation('{!r} differs between presets'.format(t), smaller=x.describe(a), bigger=y.describe(b))
        return
    feats = list(case['features'])
    mon.obs('config', ' '.join(sorted(feats)))
    if k in ('unknown', 'reject'):
        bad = rng.choice(['no.such', 'numerical', '', 'numerical.nothing', 'Numerical.BasicArithmetic', 'structure.operator'])
        names = list(feats) if k == 'unknown' else []
        names.insert(rng.randint(0, len(names)), bad)
        c = ModularCalculator()
        try:
            c.install_features(names)
        except CalculatorException:
            pass
        except Exception as e:
            raise Violation('an unknown feature raises {} instead of the calculator\'s own error'.format(type(e).__name__), names=names)
        else:
            raise Violation('an unknown feature is accepted', names=names, installed=sorted(c.installed_features))
        # it can be skipped on request, and the calculator is still usable
        d = ModularCalculator()
        try:
            d.install_features(names, skipMissing=True)
            c.install_features(feats)
        except Exception as e:
            raise Violation('features cannot be installed around an unknown one', names=names, error='{}: {}'.format(type(e).__name__, e))
        e = install(feats)
        for x in (c, d):
            x.unit_simplification_set(True)
            if k == 'unknown' or x is c:
                compare(e, x, feats, 'a rejected or skipped unknown feature', [t for _, t in rng.sample(S, 10)], mon)
        return
    rng.shuffle(feats)
    a = install(feats)
    check_dependencies(a, mon)
    for f in feats:
        if f not in a.installed_features:
            raise Violation('{} is not installed'.format(f))
    texts = [t for _, t in rng.sample(S, 40)]
    texts += [t for t in (chain(rng, sorted(a.installed_features), True) for _ in range(10)) if t]
    if k == 'orders':
        against_full(a, rng, mon, 15)
        for _ in range(2):
            rng.shuffle(feats)
            b = install(feats)
            compare(a, b, feats, 'the order of installation', texts, mon)
    elif k == 'stepwise':
        b = install(feats, 'stepwise', rng)
        compare(a, b, feats, 'installing one by one', texts, mon)
    elif k == 'again':
        before = shape(a)
        res = [brief(a, outcome(a, t)) for t in texts]
        if 'state.assignment' in a.installed_features:
            a.vars.clear()
            calc(a, 'keepme = 5')
        kept = vars_plain(a)
        again = rng.sample(feats, rng.randint(1, len(feats)))
        try:
            a.install_features(again)
            a.install_features(again[0])
        except Exception as e:
            raise Violation('installing features again failed', features=again, error='{}: {}'.format(type(e).__name__, e))
        if vars_plain(a) != kept:
            raise Violation('installing features again changes the variables', before=str(kept), after=str(vars_plain(a)))
        after = shape(a)
        for key in before:
            if before[key] != after.get(key):
                raise Violation('installing features again changes the {}'.format(key), before=str(before[key])[:600], after=str(after.get(key))[:600])
        for t, want in zip(texts, res):
            mon.obs('samples_run')
            got = brief(a, outcome(a, t))
            if got != want:
                raise Violation('installing features again changes the result of {!r}'.format(t), before=str(want), after=str(got), features=again)
        b = install(feats, 'parts', rng)
        compare(a, b, feats, 'installing a part first', texts, mon)
