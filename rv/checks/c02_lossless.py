"""C02: items, statements and highlighting tile the input text."""
import io
import contextlib
from rv import progs
from rv.core import Violation, Skip
from rv.lib import *
from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter
from modularcalculator.objects.items import RecursiveOperandItem

ID = 'C02'
TECHNIQUE = 'runtime monitor: tiling of every item tree, statement list and highlight list re-checked online, token stream compared with the generator\'s'
RULE = ('generated multi-statement programs over all syntactic constructs with random layout (tokens known to the generator), '
        'mutated programs and token soup; distinct by text; non-trivial = more than two items')
BUDGET = {'quick': 60000, 'thorough': 600000}
NEED = {'tiled_items': 5000, 'tiled_recursive': 5000, 'token_stream': 3000, 'highlight': 5000, 'failed_prefix': 1500, 'variant': 10000}
CAT = {'comment': 'comment', 'space': 'whitespace'}


def gen(rng, i, tier):
    k = i % 4
    if k <= 1:
        stmts = progs.Gen(rng, errors=rng.choice([0, 0, .05])).program(rng.randint(1, 4), rng.choice([1, 2, 3, 4]))
        lay = rng.randint(0, 10 ** 9)
        return {'stmts': stmts, 'lay': lay, 'style': rng.choice(['plain', 'spaced', 'wild', 'wild'])}
    if k == 2:
        return {'text': progs.mutate(rng, progs.make_program(rng)[1])}
    return {'text': progs.soup(rng)}


def text_of(case):
    import random
    if 'text' in case:
        return case['text']
    return progs.render_program(case['stmts'], random.Random(case['lay']), case['style'])


def tile(items, text, where, mon):
    got = ''.join(i.text for i in items)
    if got != text:
        raise Violation('item texts do not concatenate to the text of the {}'.format(where), text=text, got=got)
    for it in items:
        if isinstance(it, RecursiveOperandItem):
            mon.obs('tiled_recursive')
            tile(it.items, it.text, it.desc(), mon)


def leaves(items, out):
    for it in items:
        if isinstance(it, RecursiveOperandItem):
            leaves(it.items, out)
        else:
            out.append(it)
    return out


def check_results(text, o, mon):
    if ''.join(r.expression for r in o.results) != text:
        raise Violation('statement texts do not concatenate to the input', text=text, got=[r.expression for r in o.results])
    for r in o.results:
        mon.obs('tiled_items', text if len(r.items) > 2 else None)
        tile(r.items, r.expression, 'statement', mon)


def check_highlight(statements, text, mon):
    buf = io.StringIO()
    hl = SyntaxHighlighter()
    with contextlib.redirect_stdout(buf):
        parts = hl.highlight_statements(statements)
    mon.obs('highlight')
    got = ''.join(p[1] for part in parts for p in part)
    if got != text:
        raise Violation('highlighting does not reproduce the text', text=text, got=got)
    if len(parts) != len(statements):
        raise Violation('highlighting has a different number of statements', text=text)
    for part, items in zip(parts, statements):
        lv = [(i.category(), i.text) for i in leaves(items, [])]
        if part != lv:
            raise Violation('highlight pieces are not the leaf items in order', text=text, got=part, expected=lv)
    if buf.getvalue():
        raise Violation('highlighter reports a gap in the items', text=text, got=buf.getvalue()[:300])


def run(case, mon):
    text = text_of(case)
    c = shared_calc()
    c.vars.clear()
    po = calc(c, text, {'parse_only': True})
    if po.ok:
        before = [[(i.desc(), i.text) for i in leaves(r.items, [])] for r in po.results]
        check_results(text, po, mon)
        check_highlight([r.items for r in po.results], text, mon)
        # parsing again yields the same statements
        po2 = calc(c, text, {'parse_only': True})
        if len(text) % 3 == 0:
            # nearly the same text, then the same one again
            for other in (text + ' ', ' ' + text, text + '\n', text + ' #x', text[:-1]):
                p3 = calc(c, other, {'parse_only': True})
                if p3.ok:
                    mon.obs('variant')
                    check_results(other, p3, mon)
            po2 = calc(c, text, {'parse_only': True})
        again = [[(i.desc(), i.text) for i in leaves(r.items, [])] for r in po2.results]
        mon.obs('reparsed')
        if again != before:
            raise Violation('parsing the same text again gives other statements', text=text, first=before, second=again)
    o = calc(c, text)
    if o.kind == 'raw':
        raise Violation('unexpected exception', text=text, got=repr(o.exc))
    if o.ok:
        if not po.ok:
            raise Violation('text executes but does not parse', text=text)
        check_results(text, o, mon)
        check_highlight([r.items for r in o.results], text, mon)
        if [[(i.desc(), i.text) for i in leaves(r.items, [])] for r in o.results] != before:
            raise Violation('execution gives other statements than parsing', text=text)
    else:
        stmts = o.exc.statements
        done = ''.join(i.text for s in stmts for i in s)
        mon.obs('failed_prefix', text)
        if not text.startswith(done):
            raise Violation('items of a failed input are not a prefix of it', text=text, got=done)
        for s in stmts:
            lv = leaves(s, [])
            if ''.join(i.text for i in lv) != ''.join(i.text for i in s) and not any(i.truncated for i in s):
                raise Violation('inner items of a failed input do not tile it', text=text, got=[i.text for i in lv])
        check_highlight_failed(o, stmts, done, text, mon)
        for r in o.results:
            tile(r.items, r.expression, 'completed statement', mon)
    if 'stmts' in case and po.ok:
        check_tokens(case, text, po, mon)
    mon.sample(text[:200])


def check_highlight_failed(o, stmts, done, text, mon):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        parts = SyntaxHighlighter().highlight_statements(stmts)
    mon.obs('highlight')
    got = ''.join(p[1] for part in parts for p in part)
    if got != done:
        raise Violation('highlighting of a failed input does not reproduce its items', text=text, got=got, expected=done)


def check_tokens(case, text, po, mon):
    """Each generated token must come back as exactly one leaf, in order."""
    want, glue = [], False
    flat = []
    for s in case['stmts']:
        flat += s
    i = 0
    while i < len(flat):
        t = flat[i]
        if t == '@':
            want.append('@' + flat[i + 2])
            i += 3
            continue
        if t not in (progs.GLUE, '\n'):
            want.append(t)
        i += 1
    lv = [i for r in po.results for i in leaves(r.items, []) if i.desc() not in ('space', 'comment', 'terminator')]
    got = [i.text for i in lv]
    mon.obs('token_stream', text)
    if got != want:
        raise Violation('the text is split into other tokens', text=text, got=got, expected=want)


def shrink(case):
    if 'stmts' in case:
        for k in range(len(case['stmts'])):
            if len(case['stmts']) > 1:
                d = dict(case)
                d['stmts'] = case['stmts'][:k] + case['stmts'][k + 1:]
                yield d
        for st in ('plain', 'spaced'):
            if case['style'] != st:
                d = dict(case)
                d['style'] = st
                yield d
        yield {'text': text_of(case)}
    else:
        yield from shrink_text(case['text'], 'text', case)


def shrink_text(t, key, case):
    n = len(t)
    step = max(1, n // 2)
    while step >= 1:
        for i in range(0, n, step):
            s = t[:i] + t[i + step:]
            if s:
                d = dict(case)
                d[key] = s
                yield d
        step //= 2
