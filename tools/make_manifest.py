"""Writes /verif/MANIFEST.json from the check modules present and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, '/repo')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na, have = [], [], {}
for f in sorted(os.listdir(V + '/rv/checks')):
    if f.startswith('c') and f.endswith('.py'):
        m = importlib.import_module('rv.checks.' + f[:-3])
        have[m.ID] = m
for p in props:
    m = have.get(p['id'])
    if m is None:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh %s --tier quick' % p['id'],
        'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
        'technique': m.TECHNIQUE,
        'level': 'exploration',
        'level_note': getattr(m, 'LEVEL_NOTE', 'Bounded runtime exploration: holds on the executions observed (counts in the evidence file); '
                              'trusts CPython, its fractions/decimal/re/datetime modules used by the oracle, and the generator\'s reach.'),
    })
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: everything is observed through the public interface.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
