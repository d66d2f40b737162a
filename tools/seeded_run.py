"""Author-side tool: run each planted bug's own check (and the ones in meta 'also'), write tools/seeded.json (never run by a check)."""
import glob, json, os, shutil, subprocess, sys
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))
path = '/verif/tools/seeded.json'
out = json.load(open(path)) if os.path.exists(path) else {}
out = {k: v for k, v in out.items() if os.path.isdir('/verif/seeded/' + k)}
for i in ids:
    d = '/verif/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    tree, ver = '/tmp/sb/s_' + i, '/tmp/sb/sv_' + i
    for t in (tree, ver):
        shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('__pycache__', 'tests'))
    if subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=tree).returncode:
        print(i, 'DOES NOT APPLY', flush=True)
        continue
    os.makedirs(ver)
    for n in ('rv', 'run.sh', 'known_findings.json', 'properties.jsonl'):
        p = '/verif/' + n
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, ver + '/' + n)
    res = {}
    for c in [m['property']] + [x for x in m.get('also', [])]:
        r = subprocess.run(['./run.sh', c, '--tier', 'quick', '--seed', '1'], cwd=ver, env=dict(os.environ, RV_REPO=tree), capture_output=True, text=True)
        l = r.stdout.split('\n')
        cases = [w for w in l[0].split() if w.startswith('cases=')]
        res[c] = {'caught': r.returncode == 1 and 'VIOLATION property=' + c in r.stdout, 'cases': cases[0][6:] if cases else '', 'first': l[1].strip()[:140] if r.returncode == 1 else ''}
    out[i] = {'property': m['property'], 'needs': m['needs'], 'breaks': m['what_it_breaks'], 'results': res}
    print(i, {c: (v['caught'], v['cases']) for c, v in res.items()}, flush=True)
    for t in (tree, ver):
        shutil.rmtree(t, ignore_errors=True)
    json.dump(out, open(path, 'w'), indent=1, sort_keys=True)
