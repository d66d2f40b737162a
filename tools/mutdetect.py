"""Author-side tool: run the checks on the mutants that survive the tests (never run by a check).

  mutdetect.py RES.jsonl OUT.jsonl PROCS [SCALE]
"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import apply
MAP = [('unitnormaliser', 'C10 C09 C11 C27'), ('objects/units', 'C09 C10 C11 C27'), ('unitdefinitions/', 'C09 C11 C27'), ('units/', 'C09 C11 C27 C10'), ('arrays', 'C15 C14'), ('boolean', 'C16'), ('dates', 'C19 C29'),
       ('regex', 'C18'), ('stringcomp', 'C18'), ('strings', 'C17'), ('basicarith', 'C01 C10 C24'), ('advancedarith', 'C01 C24'), ('bitwise', 'C25'), ('special', 'C28'), ('statist', 'C23'), ('trigono', 'C23'), ('numericalfunctions', 'C23 C12 C26'),
       ('numerical/', 'C12 C13 C29'), ('number.py', 'C24 C13 C01'), ('numericalengine', 'C13 C12 C01'), ('state/', 'C05 C06 C07'), ('structure/', 'C08 C02 C03 C20 C29'), ('operators.py', 'C30 C14 C26 C10 C07'), ('engine', 'C30 C02 C03 C04 C06'),
       ('exceptions', 'C03'), ('items', 'C02 C03'), ('modularcalculator.py', 'C21 C30 C22'), ('feature', 'C21'), ('comments', 'C20 C02 C29'), ('space', 'C20 C02'), ('presets', 'C21'), ('layout', 'C21 C01')]
WIDE = ['C26', 'C02', 'C14', 'C03', 'C20', 'C05', 'C08', 'C01', 'C12']


def order(f):
    out = []
    for k, v in MAP:
        if k in f:
            out += [x for x in v.split() if x not in out]
    return (out + [x for x in WIDE if x not in out])[:9]


def main():
    res, outp, procs = sys.argv[1:4]
    scale = sys.argv[4] if len(sys.argv) > 4 else '0.2'
    ms = [json.loads(l) for l in open(res)]
    ms = [m for m in ms if m['survived']]
    done = {json.loads(l)['n'] for l in open(outp)} if os.path.exists(outp) else set()
    ms = [m for m in ms if m['n'] not in done]
    print(len(ms), 'to do', flush=True)

    def one(m):
        tree = '/tmp/mut/d%d' % m['n']
        ver = '/tmp/mut/v%d' % m['n']
        for t in (tree, ver):
            shutil.rmtree(t, ignore_errors=True)
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git', '__pycache__', 'tests'))
        try:
            apply(tree, m)
        except AssertionError:
            shutil.rmtree(tree)
            return
        os.makedirs(ver)
        for n in ('rv', 'run.sh', 'known_findings.json', 'properties.jsonl'):
            p = '/verif/' + n
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, ver + '/' + n)
        by, what, t0 = None, '', time.time()
        for c in order(m['file']):
            env = dict(os.environ, RV_REPO=tree, RV_SCALE=scale, RV_PROCS='2')
            try:
                r = subprocess.run(['nice', '-n', '10', './run.sh', c, '--tier', 'quick', '--seed', '1'], cwd=ver, env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                by, what = c, 'timeout'
                break
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                by, what = c, r.stdout.split('\n')[1][:200]
                break
            if r.returncode not in (0, 1) and not what:
                what = '%s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-150:])
        for t in (tree, ver):
            shutil.rmtree(t, ignore_errors=True)
        with open(outp, 'a') as f:
            f.write(json.dumps(dict(m, by=by, what=what, wall=round(time.time() - t0))) + '\n')
    with ThreadPoolExecutor(int(procs)) as ex:
        list(ex.map(one, ms))


if __name__ == '__main__':
    main()
