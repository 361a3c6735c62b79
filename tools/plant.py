#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the table in plants*.py and confirms every entry in a scratch copy of /repo.

  plant.py [ID ...]       (re)make and confirm (default: those not there yet)
  plant.py --catch [ID]   which checks catch them (writes seeded/CATCH.txt)
"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def table():
    out = []
    for fn in sorted(glob.glob(os.path.join(HERE, 'plants[0-9].py'))):
        ns = dict(__file__=fn)
        exec(compile(open(fn).read(), fn, 'exec'), ns)
        out += ns['PLANTS']
    assert len(set(p['id'] for p in out)) == len(out), 'duplicate ids'
    return out


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy(d):
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('__pycache__'))


def edit(d, edits):
    for e in edits:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(d, f)
        s = open(p).read()
        parts = s.split(old)
        if nth is None and len(parts) != 2:
            raise SystemExit('%s: %d matches of %r' % (f, len(parts) - 1, old))
        n = nth or 0
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)


def tests(d):
    r = sh(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], d, dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
    last = r.stdout.strip().splitlines()[-1]
    return last.startswith('84 passed') and 'failed' not in last, last


def make(p):
    dst = os.path.join(VERIF, 'seeded', p['id'])
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.join(dst, 'xv'))
    for m in ('__init__', 'biff', 'legacy', 'ole'):
        shutil.copy(os.path.join(VERIF, 'xv', m + '.py'), os.path.join(dst, 'xv'))
    for m in p.get('mods', ()):
        shutil.copy(os.path.join(VERIF, 'xv', m + '.py'), os.path.join(dst, 'xv'))
    shutil.copy(os.path.join(HERE, 'demolib.py'), dst)
    open(os.path.join(dst, 'demo.py'), 'w').write('from demolib import *  # noqa\n' + p['demo'].strip('\n') + '\n')
    open(os.path.join(dst, 'demo.sh'), 'w').write('#!/bin/sh\n# run with the repository as current directory\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
    json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='xvplant')
    try:
        d = os.path.join(t, 'repo')
        copy(d)
        a = sh(['sh', os.path.join(dst, 'demo.sh')], d)
        edit(d, p['edits'])
        diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        base = {}
        notmine = True
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                base[cur] = subprocess.run(['git', '-C', '/repo', 'show', '1b4fe79:' + cur], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            elif line.startswith('-') and line[1:] not in base[cur]:
                notmine = False
        if '\n-' not in diff.replace('\n---', ''):
            notmine = False
        ok, last = tests(d)
        b = sh(['sh', os.path.join(dst, 'demo.sh')], d)
        msgs = []
        if a.returncode != 0:
            msgs.append('demo fails on the unchanged tree: ' + a.stdout[-600:])
        if b.returncode == 0:
            msgs.append('demo passes with the patch')
        if b.returncode != 0 and 'WRONG' not in b.stdout:
            msgs.append('(note) demo ends with: ' + (b.stdout.strip().splitlines() or [''])[-1][:200])
        if not ok:
            msgs.append('tests: ' + last)
        ap = sh(['git', '-C', '/repo', 'apply', '--check', os.path.join(dst, 'patch.diff')], '/')
        if ap.returncode:
            msgs.append('patch does not apply: ' + ap.stdout)
        if not notmine:
            msgs.append('not (only) lines of the original repository')
        bad = [m for m in msgs if not m.startswith('(note)')]
        print(p['id'], p['prop'], 'OK' if not bad else 'BAD', '|', '; '.join(msgs), flush=True)
        if bad:
            shutil.rmtree(dst)
    finally:
        shutil.rmtree(t)


def catch(p):
    t = tempfile.mkdtemp(prefix='xvcatch')
    try:
        d = os.path.join(t, 'repo')
        copy(d)
        edit(d, p['edits'])
        env = dict(os.environ, XV_REPO=d)
        r = sh(['./run', p['prop'], '--tier', 'quick'], VERIF, env)
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'held' in l]
        return r.returncode, (line or r.stdout.strip().splitlines() or [''])[-1]
    finally:
        shutil.rmtree(t)


def main():
    a = sys.argv[1:]
    pl = table()
    if a and a[0] == '--catch':
        for p in pl:
            if os.path.isdir(os.path.join(VERIF, 'seeded', p['id'])) and (not a[1:] or p['id'] in a[1:] or p['prop'] in a[1:]):
                rc, line = catch(p)
                print(p['id'], p['prop'], 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, '|', line[:110], flush=True)
        return
    for p in pl:
        if p['id'] in a or p['prop'] in a or (not a and not os.path.isdir(os.path.join(VERIF, 'seeded', p['id']))):
            make(p)


main()
