"""Which lines of xlrd do the checks execute?  python3-vt tools/cov.py [--n CASES] [C01 C02 ...] -> lines never executed"""
import importlib
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from xv import runner

TID = 3


def work(args):
    modname, si, n, seed = args
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(TID, 'xvcov')
    root = os.path.join(os.path.abspath(runner.REPO), 'xlrd') + os.sep

    def line(code, no):
        if code.co_filename.startswith(root):
            hit.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.register_callback(TID, mon.events.LINE, line)
    mon.set_events(TID, mon.events.LINE)
    try:
        runner._shard(modname, si, n, seed)
    except BaseException as e:
        print('!', modname, si, e)
    mon.set_events(TID, 0)
    mon.free_tool_id(TID)
    return hit


def lines_of(code, out):
    for _, _, no in code.co_lines():
        if no:
            out.add(no)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            lines_of(c, out)


def main():
    av = sys.argv[1:]
    n = 400
    if av and av[0] == '--n':
        n = int(av[1])
        av = av[2:]
    runner.import_repo()
    jobs = []
    for fn in sorted(os.listdir('checks')):
        if fn[0] == 'c' and fn.endswith('.py') and (not av or fn[:3].upper() in av):
            m = importlib.import_module('checks.' + fn[:-3])
            for si, s in enumerate(m.SUBS):
                for k in range(2):
                    jobs.append(('checks.' + fn[:-3], si, min(n, s.quick), 77 + k))
    with mp.get_context('spawn').Pool(8, maxtasksperchild=1) as p:
        hit = set().union(*p.imap_unordered(work, jobs))
    for fn in ('book', 'sheet', 'formula', 'formatting', 'biffh', 'compdoc', 'xldate', '__init__', 'timemachine', 'info'):
        path = os.path.join(runner.REPO, 'xlrd', fn + '.py')
        if not os.path.exists(path):
            continue
        src = open(path).read()
        want = set()
        lines_of(compile(src, path, 'exec'), want)
        bad = sorted(x for x in want if (fn + '.py', x) not in hit)
        sl = src.split('\n')
        # module-level statements ran at import
        bad = [b for b in bad if sl[b - 1][:1] in (' ', '\t')]
        print('== %s: %d of %d lines not executed' % (fn, len(bad), len(want)))
        for b in bad:
            print('%5d %s' % (b, sl[b - 1].rstrip()[:110]))


if __name__ == '__main__':
    main()
