"""Mutation campaign: which automatically made changes of xlrd pass the repository's tests and every relevant check?

  python3-vt tools/mutate.py --map FILE              (once) which check executes which line
  python3-vt tools/mutate.py --run FILE N SEED LOG   N random mutants; survivors are listed in LOG
"""
import ast
import collections
import importlib
import multiprocessing as mp
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
FILES = ['book', 'sheet', 'formula', 'formatting', 'biffh', 'compdoc', 'xldate', '__init__']


def cov_map(out):
    import cov
    from xv import runner
    runner.import_repo()
    jobs, owner = [], []
    for fn in sorted(os.listdir('checks')):
        if fn[0] == 'c' and fn.endswith('.py'):
            m = importlib.import_module('checks.' + fn[:-3])
            for si, s in enumerate(m.SUBS):
                for k in range(3):
                    jobs.append(('checks.' + fn[:-3], si, min(250, s.quick), 5 + k))
                    owner.append(fn[:3].upper())
    m = collections.defaultdict(set)
    with mp.get_context('spawn').Pool(8, maxtasksperchild=1) as p:
        for o, hit in zip(owner, p.imap(cov.work, jobs)):
            for x in hit:
                m[x].add(o)
    pickle.dump(dict(m), open(out, 'wb'))
    print(len(m), 'lines')


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//'}


def mutants(path, fn, covered):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def add(n, new, what):
        a, b = pos(n)
        out.append((n.lineno, a, b, new, what))
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef,)):
            continue
        if f.name in ('dump', 'REPR', 'fprintf', 'nop', 'dump_formula'):
            continue
        for n in ast.walk(f):
            if not hasattr(n, 'lineno') or (fn + '.py', n.lineno) not in covered:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                add(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
            elif isinstance(n, ast.BoolOp):
                add(n, '(%s)' % ((' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % seg(v) for v in n.values)), 'bool')
                for k in range(len(n.values)):
                    add(n, '(%s)' % ((' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for i, v in enumerate(n.values) if i != k)), 'drop')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, '(%s)' % seg(n.operand), 'not')
            elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                for d in (1, -1):
                    add(n, str(n.value + d), 'const')
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, str(not n.value), 'const')
            elif isinstance(n, ast.If):
                add(n.test, 'True', 'true')
                add(n.test, 'False', 'false')
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Return)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                s = seg(n)
                if 'print' in s or 'fprintf' in s or '.dump' in s:
                    continue
                add(n, 'pass', 'delete')
    res = []
    for no, a, b, new, what in out:
        s = lines[no - 1]
        if any(w in s for w in ('print', 'fprintf', 'verbosity', 'DEBUG', 'blah', 'logfile', 'verbose')):
            continue
        m = raw[:a] + new.encode() + raw[b:]
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            continue
        res.append((no, what, raw[a:b].decode(), new, m))
    return res


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -9, ''


def run(mapfile, n, seed, log, only=()):
    m = pickle.load(open(mapfile, 'rb'))
    size = collections.Counter(c for v in m.values() for c in v)
    rnd = random.Random(seed)
    pool = []
    for fn in (only or FILES):
        for x in mutants(os.path.join('/repo/xlrd', fn + '.py'), fn, m):
            pool.append((fn,) + x)
    rnd.shuffle(pool)
    wins = collections.defaultdict(collections.Counter)
    stat = collections.Counter()
    for fn, no, what, old, new, text in pool[:n]:
        t = tempfile.mkdtemp(prefix='xvmut')
        try:
            d = os.path.join(t, 'repo')
            shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__', '.git'))
            open(os.path.join(d, 'xlrd', fn + '.py'), 'wb').write(text)
            rc, out = sh(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], d, dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'), 60)
            if rc != 0:
                stat['tests'] += 1
                continue
            cand = sorted(m.get((fn + '.py', no), ()), key=lambda c: (-wins[fn, no // 40][c], size[c]))
            got = None
            odd = []
            for c in cand:
                rc, out = sh(['./run', c, '--tier', 'quick', '--scale', os.environ.get('XV_SCALE', '0.35')], VERIF, dict(os.environ, XV_REPO=d, XV_SHRINK_WALL='1', XV_EVIDENCE=t, XV_PROCS=os.environ.get('XV_PROCS', '6')), 600)
                if rc == 1:
                    got = c
                    break
                if rc != 0:
                    odd.append('%s rc=%d' % (c, rc))
            if got:
                wins[fn, no // 40][got] += 1
                stat['caught'] += 1
            else:
                stat['survived'] += 1
            with open(log, 'a') as f:
                line = text.decode().split('\n')[no - 1].strip()
                f.write('%s %s:%d %s | %r -> %r | %s%s\n' % ('caught by %s' % got if got else 'SURVIVED', fn, no, what, old[:70], new[:70], line[:110], ' '.join([''] + odd)))
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with open(log, 'a') as f:
        f.write('%r\n' % dict(stat))


if __name__ == '__main__':
    os.chdir(VERIF)
    if sys.argv[1] == '--map':
        cov_map(sys.argv[2])
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6:])
