"""C03: every bad input is a calculating error with an exact position."""
import contextlib
import io
import random
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *
from rv.checks.c02_lossless import shrink_text

ID = 'C03'
TECHNIQUE = ('runtime monitor: exception type, completed results and reported position of every failing call checked online against the '
             'fault planted by the generator (failing operation or junk at a known offset), plus damaged and random texts')
RULE = ('(a) programs with one planted failing operation, wrapped in brackets/calls/arrays/operators, at a known offset; (b) programs with '
        'junk planted at a known token gap; (c) mutated programs and token soup; distinct by text and failure message')
BUDGET = {'quick': 65000, 'thorough': 800000}
NEED = {'exec_position': 3000, 'parse_position': 3000, 'completed_results': 3000, 'damaged_failed': 3000}

MARK = '\1'    # marks the failing token inside a token list

# failing operations: tokens with MARK before the token the error is reported at
FAILS = [['1', MARK, '/', '0'], ['7', MARK, '%', '0'], ['8', MARK, '\\', '0'], ["'abc'", MARK, '+', '1'], ['2', MARK, '*', "'x'"],
         [MARK, 'fact', '\0', '(', '-1', ')'], [MARK, 'element', '\0', '(', '[', '1', ']', ',', '9', ')'],
         [MARK, 'abs', '\0', '(', "'q'", ')'], [MARK, 'floor', '\0', '(', '1', ',', '2', ',', '3', ')'],
         ['(', '5', 'metres', ')', MARK, '+', '(', '3', 'seconds', ')'], ['(', '5', 'metres', ')', MARK, 'to', 'hours'],
         [MARK, 'regexsplit', '\0', '(', "'abc'", ',', "'('", ')'], ["'abc'", MARK, '=~', "'('"], [MARK, 'gcd', '\0', '(', '1', ',', "'b'", ')'],
         ['2', MARK, 'and', 'true'], [MARK, 'dateadd', '\0', '(', "'zzz'", ',', '1', 's', ')'],
         ['5', MARK, '&', "'z'"], ['(', '4', 'grams', ')', MARK, '<', '(', '2', 'hours', ')'], ['(', '1', MARK, 'else', '2', ')'], ['(', '1', MARK, 'else', '2', 'else', '3', ')'],
         ['(', '4', MARK, 'else', '2', '+', '1', 'else', '(', '3', ')', ')'], ['(', '2', '+', '1', MARK, 'else', '7', 'else', '0', 'else', '5', ')']]

WRAPS = ['br', 'br', 'left', 'right', 'call1', 'callN', 'arr', 'neg', 'assign']


def wrap(rng, e, kind):
    br = ['('] + e + [')']
    if kind == 'br':
        return br
    if kind == 'left':
        return ['2', rng.choice(['+', '-', '*'])] + br
    if kind == 'right':
        return br + [rng.choice(['+', '-', '*']), '3']
    if kind == 'call1':
        return [rng.choice(['abs', 'floor', 'ceil', 'upper', 'length', 'reverse']), '\0', '('] + e + [')']
    if kind == 'callN':
        pre = ['4', ','] * rng.randint(0, 2)
        post = [',', '5'] * rng.randint(0, 2)
        return [rng.choice(['max', 'sum', 'mean', 'concat', 'join']), '\0', '('] + pre + e + post + [')']
    if kind == 'arr':
        pre = ['4', ','] * rng.randint(0, 2)
        post = [',', '5'] * rng.randint(0, 2)
        return ['['] + pre + e + post + [']']
    if kind == 'neg':
        return ['6', '-'] + br + ['*', '2']
    return e


def gen(rng, i, tier):
    k = i % 4
    lay = rng.randint(0, 10 ** 9)
    style = rng.choice(['plain', 'spaced', 'wild', 'wild'])
    if k == 0:
        g = progs.Gen(rng)
        before = g.program(rng.randint(0, 3), rng.choice([1, 2, 3]))
        e = list(rng.choice(FAILS))
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            e = wrap(rng, e, rng.choice(WRAPS))
        if rng.random() < .4:
            e = [rng.choice(progs.VARNAMES), rng.choice(['=', '=', '||='])] + e
        after = progs.Gen(rng).program(rng.randint(0, 2), 2)
        return {'k': 'exec', 'before': before, 'bad': e, 'after': after, 'lay': lay, 'style': style}
    if k == 1:
        g = progs.Gen(rng)
        before = g.program(rng.randint(0, 3), 2)
        s = g.statement(3)
        gaps = [j for j in range(len(s) + 1) if not (j > 0 and s[j - 1] in (progs.GLUE, '@')) and not (j < len(s) and s[j] == progs.GLUE)
                and not in_fn(s, j)]
        j = rng.choice(gaps)
        bad = s[:j] + [MARK, rng.choice(['?', '$', '"', '`', ';', '€', '!', '?x', '??'])] + s[j:]
        return {'k': 'parse', 'before': before, 'bad': bad, 'after': g.program(rng.randint(0, 1), 2), 'lay': lay, 'style': style}
    if k == 2:
        return {'k': 'text', 'text': progs.mutate(rng, progs.make_program(rng, errors=rng.choice([0, .1]))[1])}
    if rng.random() < .4:
        return {'k': 'text', 'text': progs.soup(rng)}
    return {'k': 'text', 'text': 'vv = 3\n' + hostile_call(rng)}


ATOMS = ['1', '0', '-1', '2.5', '1e3', '1e-30', '-7', '100', "'abc'", "''", "'5'", "'x y'", '[1,2,3]', '[]', "[1,[2,'q']]", "['a','b']", 'true',
         'false', '5 m', '3 s', '2 kg m', "'2020-01-01'", 'unsetv', 'vv', '{1}', '[5 m, 2 km]', "[1]+'a'", 'metre', '50%', '0b101', '0xFF', '1/3',
         "'('", 'pi', '[1]+(1/0)', '[[]]', '@vv()', 'hexadecimal', 'si', 'vv++']
NAMES = {}


def hostile_call(rng):
    """Any operation of the calculator on any kinds of values."""
    c = shared_calc()
    if not NAMES:
        NAMES['f'] = sorted(c.funcs)
        NAMES['o'] = sorted(s for s in c.ops_list if not s.isupper())
    if rng.random() < .7:
        n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5])
        return rng.choice(NAMES['f']) + '(' + ', '.join(rng.choice(ATOMS) for _ in range(n)) + ')'
    return rng.choice(ATOMS) + ' ' + rng.choice(NAMES['o']) + ' ' + rng.choice(ATOMS)


def in_fn(s, j):
    d = 0
    for t in s[:j]:
        if t == '{':
            d += 1
        elif t == '}':
            d -= 1
    return d > 0


def split_mark(tokens):
    """tokens without the mark, index of the marked token"""
    j = tokens.index(MARK)
    return tokens[:j] + tokens[j + 1:], j


def locate(text, tokens, j, start):
    """offset in text of tokens[j], the token texts being laid out from start"""
    pos = start
    n = 0
    for t in tokens[:j + 1]:
        if t == progs.GLUE:
            continue
        while True:
            # skip layout: blanks, newlines and comments
            if text[pos] in ' \t\n\r\x0c\xa0' and t[0] != text[pos]:
                pos += 1
            elif text[pos] == '#':
                pos = text.index('\n', pos)
            else:
                break
        if not text.startswith(t, pos):
            raise Exception('harness: token {!r} not found at {} in {!r}'.format(t, pos, text))
        off = pos
        pos += len(t)
    return off


def layout(case):
    rng = random.Random(case['lay'])
    before = progs.render_program(case['before'], rng, case['style'], blanks=False)
    bad, j = split_mark(case['bad'])
    if before:
        before += '\n'
    btext = progs.render(bad, rng, case['style'])
    after = progs.render_program(case['after'], rng, case['style'], blanks=False)
    text = before + btext + ('\n' + after if after else '')
    return text, before, btext, locate(text, bad, j, len(before))


def position(o, text):
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            pos = o.exc.find_pos(text)
            tr = o.exc.truncate(text)
    except Exception as e:
        raise Violation('the error does not locate a position in the input', text=text, error=o.message, got=repr(e))
    if buf.getvalue():
        raise Violation('the error\'s items do not match the input', text=text, error=o.message, got=buf.getvalue()[:300])
    if tr != text[:pos] or not 0 <= pos <= len(text):
        raise Violation('truncating at the error is not a prefix of the input', text=text, got=tr)
    return pos


def general(c, o, text, mon):
    """What holds for every outcome of every text."""
    if o.kind == 'raw':
        raise Violation('an exception other than a calculating error escaped', text=text, got='{}: {}'.format(type(o.exc).__name__, str(o.exc)[:300]))
    for r in o.results:
        if r.has_result() and isinstance(r.value, Exception):
            raise Violation('a failed statement yielded a result', text=text, got=show(c, r))
    if o.ok:
        return None
    e = o.exc
    if not isinstance(e.message, str) or not e.message:
        raise Violation('the error has no message', text=text)
    done = ''.join(i.text for s in e.statements for i in s)
    if not text.startswith(done):
        raise Violation('the error\'s statements are not a prefix of the input', text=text, got=done)
    pos = position(o, text)
    if pos != len(done):
        raise Violation('the error position is not where its statements end', text=text, got=(pos, len(done)), error=o.message)
    if e.next and not text[pos:].startswith(e.next):
        raise Violation('the remainder does not continue the input at the error position', text=text, got=e.next, rest=text[pos:])
    if o.kind == 'parse':
        if o.results:
            raise Violation('an input that does not parse produced results', text=text)
    else:
        if len(o.results) != len(e.statements) - 1:
            raise Violation('completed results do not match the statements before the failing one', text=text, got=len(o.results),
                            expected=len(e.statements) - 1)
        pre = ''.join(r.expression for r in o.results)
        if not text.startswith(pre) or pos < len(pre):
            raise Violation('the error position is before the failing statement', text=text, got=pos, expected='>= {}'.format(len(pre)))
    return pos


def run(case, mon):
    c = shared_calc()
    c.vars.clear()
    if case['k'] == 'text':
        text = case['text']
        o = calc(c, text)
        general(c, o, text, mon)
        if not o.ok:
            mon.obs('damaged_failed', (text, o.message))
            if o.kind == 'exec':
                check_completed(c, o, text, mon)
        else:
            mon.obs('damaged_ok')
        return
    text, before, btext, at = layout(case)
    mon.sample(text[:200])
    # the statements before must work by themselves
    if before:
        c.vars.clear()
        ob = calc(c, before)
        if not ob.ok:
            raise Skip('generated prefix fails')
        want = [plain_result(c, r, True) if r.has_result() else None for r in ob.results]
        nbefore = len(case['before'])
        wvars = vars_plain(c)
    else:
        want, nbefore, wvars = [], 0, {}
    c.vars.clear()
    o = calc(c, text)
    pos = general(c, o, text, mon)
    if case['k'] == 'exec':
        if o.kind != 'exec':
            raise Violation('a failing operation was not reported as an execution error', text=text, got=o.describe(c))
        got = [plain_result(c, r, True) if r.has_result() else None for r in o.results]
        # the text before, evaluated alone, ends with an empty statement after its last newline
        if got != want[:len(got)] or len(got) != nbefore:
            raise Violation('the completed results are not those of the statements before the failing one', text=text, got=got, expected=want)
        mon.obs('completed_results')
        if vars_plain(c) != wvars:
            raise Violation('the failing statement or a later one left effects', text=text, got=vars_plain(c), expected=wvars)
        mon.obs('exec_position', text)
        if pos != at:
            raise Violation('execution error position is not at the failing operation', text=text, got=pos, expected=at, error=o.message)
    else:
        if o.kind != 'parse':
            raise Violation('junk was not reported as a parsing error', text=text, got=o.describe(c), at=at)
        if vars_plain(c) != {}:
            raise Violation('an input that does not parse changed the variables', text=text, got=vars_plain(c))
        mon.obs('parse_position', text)
        if not len(before) <= pos <= at:
            raise Violation('parsing error position is not in the failing statement up to the junk', text=text, got=pos, expected=(len(before), at),
                            error=o.message)


def check_completed(c, o, text, mon):
    """The completed statements, run alone, give the same results."""
    if not o.results:
        return
    pre = ''.join(r.expression for r in o.results)
    if 'now' in pre or 'rand' in pre:
        return
    got = [plain_result(c, r, True) if r.has_result() else None for r in o.results]
    c.vars.clear()
    o2 = calc(c, pre)
    if not o2.ok:
        raise Violation('statements reported as completed fail when run alone', text=text, prefix=pre, got=o2.describe(c))
    want = [plain_result(c, r, True) if r.has_result() else None for r in o2.results][:len(got)]
    mon.obs('completed_results')
    if got != want:
        raise Violation('completed statements give other results when run alone', text=text, got=got, expected=want)


def shrink(case):
    if case['k'] == 'text':
        yield from shrink_text(case['text'], 'text', case)
        return
    for key in ('before', 'after'):
        for k in range(len(case[key])):
            d = dict(case)
            d[key] = case[key][:k] + case[key][k + 1:]
            yield d
    for st in ('plain', 'spaced'):
        if case['style'] != st:
            d = dict(case)
            d['style'] = st
            yield d
