"""Writes DESIGN.md: tools/design_head.md, the table of sub-checks, the table of planted bugs, tools/design_tail.md."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.chdir(VERIF)
sys.path.insert(0, VERIF)
out = [open('tools/design_head.md').read()]
out.append('## 3. Sub-checks, case counts and non-triviality rules\n\n| check | sub-check | quick | thorough | what; when a case counts as non-trivial |\n|---|---|---|---|---|\n')
for f in sorted(glob.glob('checks/c*.py')):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    for s in m.SUBS:
        out.append('| %s | %s | %d | %d | %s |\n' % (m.PROPERTY, s.name, s.quick, s.thorough, s.rule.replace('|', '/')))
out.append('\n## 4. Planted bugs and the checks that catch them\n\nEach is in `seeded/<id>/` (patch, demonstration, meta). "caught" = the quick check of the property exits 1 with the patch applied.\n\n| id | needs | breaks | caught |\n|---|---|---|---|\n')
c = {}
if os.path.exists('tools/catch.txt'):
    for l in open('tools/catch.txt'):
        w = l.split()
        if len(w) > 2:
            c[w[0]] = '%s %s' % (w[1], 'yes' if w[2] == 'CAUGHT' else 'NO')
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s |\n' % (i, d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/'), c.get(i, '?')))
if os.path.exists('tools/design_mut.md'):
    out.append('\n' + open('tools/design_mut.md').read())
out.append(open('tools/design_tail.md').read())
open('DESIGN.md', 'w').write(''.join(out))
