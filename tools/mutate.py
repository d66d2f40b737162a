"""Author-side tool: generic source mutants of /repo, filtered by the stable tests (never run by a check).

  mutate.py gen OUT.json                    enumerate mutants
  mutate.py tests OUT.json RES.jsonl SEED N PROCS   run the tests on N mutants drawn at random, log survivors
"""
import ast, glob, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo/modularcalculator/'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    tree = ast.parse(src)
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def rep(n, new, kind):
        if n.lineno != n.end_lineno:
            return
        l = lines[n.lineno - 1].encode()
        nl = (l[:n.col_offset] + new.encode() + l[n.end_col_offset:]).decode()
        if nl != lines[n.lineno - 1]:
            out.append(dict(file=path[len(REPO):], line=n.lineno, old=lines[n.lineno - 1], new=nl, kind=kind))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('id', 'category', 'title', 'desc', 'dependencies'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if isinstance(m, ast.Constant):
                    skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '{} {} {}'.format(seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            rep(n, '{} {} {}'.format(seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vs = [seg(v) for j, v in enumerate(n.values) if j != i]
                rep(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % v for v in vs), 'booldrop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const'); rep(n, str(n.value - 1), 'const')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'reverse', 'lower', 'check_empty', 'strip', 'remove_zeros') and not n.args:
                rep(n, seg(f.value), 'dropcall')
            elif isinstance(f, ast.Name) and f.id in ('abs', 'sorted', 'set', 'copy_items', 'list', 'int', 'str') and len(n.args) >= 1:
                rep(n, seg(n.args[0]), 'dropcall')
            if len(n.args) >= 2 and not isinstance(n.args[1], ast.Starred):
                a = [seg(x) for x in n.args] + [seg(k) for k in n.keywords]
                a[0], a[1] = a[1], a[0]
                rep(n, '{}({})'.format(seg(f), ', '.join(a)), 'argswap')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                rep(n, 'pass', 'del')
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.IfExp):
            rep(n, seg(n.body), 'ifexp'); rep(n, seg(n.orelse), 'ifexp')
    seen = set(); res = []
    for m in out:
        k = (m['line'], m['new'])
        if k not in seen:
            seen.add(k); res.append(m)
    return res


def apply(tree, m):
    p = tree + '/modularcalculator/' + m['file']
    l = open(p).read().split('\n')
    assert l[m['line'] - 1] == m['old'], m
    l[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(l))


def run_tests(tree, timeout=120):
    env = dict(os.environ, PYTHONPATH='{0}:{0}/tests'.format(tree), PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run('ulimit -v 6000000; exec nice -n 19 timeout -k 5 %d /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist --rootdir=%s --import-mode=importlib -o python_files=*.py --ignore=tests/tests.py -W ignore --tb=no --timeout=10 --timeout-method=signal tests' % (timeout, tree), shell=True, cwd=tree, env=env, capture_output=True, text=True)
    except Exception as e:
        return False, repr(e)
    return r.returncode == 0, r.stdout.strip().split('\n')[-1][:150]


def main():
    if sys.argv[1] == 'gen':
        out = []
        for f in sorted(glob.glob(REPO + '**/*.py', recursive=True)):
            out += mutants(f)
        for i, m in enumerate(out):
            m['n'] = i
        json.dump(out, open(sys.argv[2], 'w'))
        print(len(out))
    else:
        ms = json.load(open(sys.argv[2])); res = sys.argv[3]
        done = set()
        if os.path.exists(res):
            done = {json.loads(l)['n'] for l in open(res)}
        r = random.Random(int(sys.argv[4]))
        r.shuffle(ms)
        todo = [m for m in ms if m['n'] not in done and ('unitdef' not in m['file'] or m['n'] % 20 == 0)][:int(sys.argv[5])]

        def one(m):
            tree = '/tmp/mut/t%d' % m['n']
            shutil.rmtree(tree, ignore_errors=True)
            subprocess.run(['cp', '-a', '/repo', tree])
            try:
                try:
                    apply(tree, m)
                    ok, msg = run_tests(tree)
                except AssertionError:
                    ok, msg = False, 'stale'  
                m = dict(m, survived=ok, msg=msg)
            finally:
                shutil.rmtree(tree, ignore_errors=True)
            with open(res, 'a') as f:
                f.write(json.dumps(m) + '\n')
        with ThreadPoolExecutor(int(sys.argv[6])) as ex:
            list(ex.map(one, todo))


if __name__ == '__main__':
    main()
