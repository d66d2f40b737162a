"""Author-side tool: write, confirm and measure planted bugs (never run by a check).

  plant.py SPEC.py [ID...]      SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]

For each bug: scratch copy of /repo, patch, the 1080 stable tests, demo on both trees, then the property's check.
"""
import json, os, subprocess, sys, shutil, re
REPO = '/repo'
VERIF = '/verif'
PRELUDE = '''import sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import *
from modularcalculator.objects.number import Number


def calc(preset='Computing'):
    return ModularCalculator(preset)


def vals(c, text, flags=None):
    """Outcome of every statement with a value, as displayed text."""
    def show(v, u=None):
        if isinstance(v, list):
            return [show(x.value, x.unit) for x in v]
        if isinstance(v, Exception):
            return 'error'
        s = v.to_string(c) if isinstance(v, Number) else v
        return s if u is None else str(s) + ' ' + u.get_name(v)
    try:
        r = c.calculate(text, flags or {})
    except CalculatingException as e:
        return 'error'
    return [show(x.value, x.unit) for x in r.results if x.has_result()]


def one(c, text, flags=None):
    r = vals(c, text, flags)
    return r if r == 'error' else r[-1]


def expect(got, want):
    if got != want:
        print('FAILED: got', repr(got), 'expected', repr(want))
        sys.exit(1)


'''
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: broken
exec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def tests(tree):
    """Stable tests on a scratch tree; returns the names that should pass but did not."""
    s = open('/opt/vp/test.sh').read().replace('PYTHONPATH=/repo:/repo/tests', 'PYTHONPATH={0}:{0}/tests'.format(tree)).replace('cd /repo', 'cd ' + tree).replace('--rootdir=/repo', '--rootdir=' + tree)
    script = tree + '.test.sh'
    open(script, 'w').write(s)
    out = tree + '.json'
    sh(['bash', script, out])
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    os.remove(script)
    return res, base


def bad_tests(tree):
    res, base = tests(tree)
    return sorted(set(base['stable']) - set(res['passed']))


def original_lines(tree, patch):
    """Lines the patch removes that one of my own commits added."""
    mine = []
    for f, start, removed in hunks(patch):
        bl = sh(['git', '-C', REPO, 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
        for n in removed:
            if not bl[n - 1].startswith('^'):
                mine.append((f, n, bl[n - 1][:100]))
    return mine


def hunks(patch):
    f = None
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)); continue
        if f and not l.startswith(('---', '+++', 'diff', 'index')):
            if l.startswith('-'):
                yield f, n, [n]
                n += 1
            elif l.startswith(' '):
                n += 1


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        tree = '/tmp/sb/' + b['id']
        shutil.rmtree(tree, ignore_errors=True)
        os.makedirs('/tmp/sb', exist_ok=True)
        sh(['cp', '-a', REPO, tree])
        try:
            plant(b, tree)
        finally:
            shutil.rmtree(tree, ignore_errors=True)
            if os.path.exists(tree + '.json'):
                os.remove(tree + '.json')


def plant(b, tree):
    for f, old, new in b['edits']:
        p = tree + '/modularcalculator/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'EDIT matches', s.count(old), 'times in', f); return
        open(p, 'w').write(s.replace(old, new))
    patch = sh(['git', '-C', tree, 'diff']).stdout
    d = '/tmp/sb/' + b['id'] + '.d'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(PRELUDE + b['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    for n, t in b.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(['bash', d + '/demo.sh'], cwd=REPO)
    c = sh(['bash', d + '/demo.sh'], cwd=tree)
    ok = a.returncode == 0 and c.returncode not in (0, 124)
    mine = original_lines(tree, patch)
    print('==', b['id'], b['prop'], 'demo', a.returncode, c.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else c.stdout.strip()[-150:], 'MINE {}'.format(mine) if mine else '', flush=True)
    if not ok:
        print(c.stderr[-300:]); return
    bad = bad_tests(tree)
    if bad:
        print('   tests fail:', len(bad), bad[:3], flush=True); return
    caught = None
    for pid in [b['prop']] + b.get('also', []):
        r = sh(['./run.sh', pid, '--tier', 'quick'], cwd=VERIF, env=dict(os.environ, RV_REPO=tree, VERIF_SEED='1', RV_EVIDENCE='/tmp/sb/ev'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('   check {} exit {} {}'.format(pid, r.returncode, r.stdout.strip()[:400] if r.returncode else 'MISSED'), flush=True)
    dst = VERIF + '/seeded/' + b['id']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    shutil.rmtree(d)


main()
