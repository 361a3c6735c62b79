"""C32: a pickled or copied Book (or Sheet) is the same book, in any process (round-trip)."""
import atexit
import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from xv import biff as B
from xv import rich
from xv import snap
from xv import unpick
from xv.runner import Sub, import_repo, Violation, HarnessError, VERIF

xlrd = import_repo()
PROPERTY = 'C32'


class PlainLog:
    """a log file of a class that every pickle protocol supports"""
    def write(self, s):
        pass

    def flush(self):
        pass


def strategy():
    return st.fixed_dictionaries(dict(
        blob=rich.blob(), fi=st.booleans(), ragged=st.booleans(), on_demand=st.booleans(), by_name=st.booleans(),
        load=st.lists(st.tuples(st.sampled_from(['load', 'load', 'unload']), st.integers(0, 7)), max_size=4),
        first=st.booleans(), how=st.sampled_from(['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'deepcopy', 'deepcopy']), what=st.sampled_from(['book', 'book', 'sheet']), sheet=st.integers(0, 7),
        place=st.sampled_from(['here', 'here', 'fresh']), twice=st.booleans(), release=st.booleans()))


def big_strategy():
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 2500), rows=st.integers(1, 70), seed=st.integers(0, 2 ** 32 - 1), on_demand=st.booleans(), ragged=st.booleans(), fi=st.booleans(), nsheets=st.integers(1, 3), keep=st.integers(0, 7),
        proto=st.integers(2, 5)))


def check_big(case, ctx):
    """books with many shared strings, XFs and rows; on demand, the sheets are loaded from the copy"""
    import random
    rnd = random.Random(case['seed'])
    with ctx.building():
        strs = ['s%d' % i if i % 7 else '\u0416%d' % i for i in range(case['n'])]
        sst, _ = B.sst_records([dict(s=s, wide=1, runs=[(0, 1)] if i % 5 == 0 else None) for i, s in enumerate(strs)], [8000])
        model, sheets = [], []
        for k in range(case['nsheets']):
            cells = {}
            for i in rnd.sample(range(case['n']), min(case['n'], rnd.randint(1, 400))):
                cells[rnd.randrange(case['rows']), rnd.randrange(256)] = i
            model.append(cells)
            sheets.append(dict(name='S%d' % k, body=b''.join(B.r_labelsst(r, c, 15, i) for (r, c), i in sorted(cells.items()))))
        data = B.assemble(80, B.globals8(extra=sst), sheets)
    bk = xlrd.open_workbook(file_contents=data, on_demand=case['on_demand'], ragged_rows=case['ragged'], formatting_info=case['fi'], logfile=io.StringIO())
    for k in range(case['nsheets']):
        if case['keep'] >> k & 1:
            bk.sheet_by_index(k)
    c = pickle.loads(pickle.dumps(bk, case['proto']))
    for k, cells in enumerate(model):
        sh = c.sheet_by_index(k)
        got = {}
        for r in range(sh.nrows):
            for x, (t, v) in enumerate(zip(sh.row_types(r), sh.row_values(r))):
                if t != 0:
                    got[r, x] = (t, v)
        ctx.eq(got, dict((k2, (1, strs[i])) for k2, i in cells.items()), 'cells of sheet %d of the copy' % k)
        if case['fi']:
            ctx.eq(sh.rich_text_runlist_map, dict((k2, [(0, 1)]) for k2, i in cells.items() if i % 5 == 0), 'rich text of sheet %d of the copy' % k)
    ctx.label('on demand' if case['on_demand'] else 'whole')
    ctx.nt(case['n'] > 300)


_child = []


def stop():
    while _child:
        p = _child.pop()
        try:
            p.stdin.close()
            p.kill()
        except Exception:
            pass
        p.wait()


def ask(what, blob, loaded):
    if not _child or _child[0].pid is None or getattr(_child[0], 'owner', None) != os.getpid():
        del _child[:]
        env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen([sys.executable, '-c', 'from xv.unpick import serve; serve()'], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        p.owner = os.getpid()
        _child.append(p)
        atexit.register(stop)
    p = _child[0]
    try:
        unpick.write(p.stdin, pickle.dumps((what, blob, loaded)))
        b = unpick.read(p.stdout)
    except OSError:
        b = None
    if b is None:
        stop()
        raise HarnessError('the process that unpickles died')
    return pickle.loads(b)


def check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], versions=rich.ALL)
        data = R.bytes()
    fresh = case['place'] == 'fresh' and case['how'] != 'deepcopy'
    log = PlainLog() if case['how'] in ('p0', 'p1') and not fresh else io.StringIO()
    how = case['how']
    if how in ('p0', 'p1') and fresh:
        how = 'p2'
    kw = dict(formatting_info=case['fi'], ragged_rows=case['ragged'], on_demand=case['on_demand'], logfile=log, use_mmap=0)
    tmp = None
    try:
        if case['by_name']:
            with tempfile.NamedTemporaryFile(suffix='.xls', delete=False) as f:
                tmp = f.name
                f.write(data)
            bk = xlrd.open_workbook(tmp, **kw)
        else:
            bk = xlrd.open_workbook(file_contents=data, **kw)
        # what the book must answer, from another opening of the same bytes
        want = unpick.probe(xlrd, xlrd.open_workbook(file_contents=data, formatting_info=case['fi'], ragged_rows=case['ragged'], logfile=io.StringIO()))
    finally:
        if tmp:
            os.unlink(tmp)
    ctx.label('v%d' % bk.biff_version, how, case['what'])
    n = bk.nsheets
    if case['on_demand'] and n:
        for op, i in case['load']:
            if op == 'load':
                bk.sheet_by_index(i % n)
            elif bk.biff_version >= 50:
                bk.unload_sheet(i % n)
    released = bool(case['release'] and case['on_demand'] and n)
    if released:
        bk.sheets()
        bk.release_resources()
        ctx.label('released')
    if case['first'] and not case['on_demand']:
        d = snap.diff(want, unpick.probe(xlrd, bk))
        if d:
            raise Violation('two openings of the same file differ: %s' % d)
    o = bk
    what = case['what'] if n else 'book'
    if what == 'sheet':
        o = bk.sheet_by_index(case['sheet'] % n)
    loaded = [bool(bk.sheet_loaded(i)) for i in range(n)]
    if False in loaded:
        ctx.label('partly loaded')
    for again in range(2 if case['twice'] else 1):
        if how == 'deepcopy':
            c = copy.deepcopy(o)
        else:
            blob = pickle.dumps(o, int(how[1]))
            if fresh and again == (1 if case['twice'] else 0):
                r = ask(what, blob, loaded)
                if r[0] != 'ok':
                    raise Violation('%s unpickled in another process: %s: %s' % ((what,) + tuple(r[1:])))
                d = snap.diff(want, r[1])
                if d:
                    raise Violation('%s unpickled in another process: original vs copy: %s' % (what, d))
                ctx.label('fresh')
                break
            c = pickle.loads(blob)
        o2 = c
        if what == 'sheet':
            cb = c.book
            ctx.true(cb.sheet_by_index(c.number) is c, 'the copied sheet is not the sheet of its book')
        else:
            cb = c
        ctx.true(type(c) is type(o) and c is not o and cb is not bk, 'the copy is the original')
        ctx.eq([bool(cb.sheet_loaded(i)) for i in range(n)], loaded, 'loaded sheets of the copy')
        if again == (1 if case['twice'] else 0):
            for k in ('font_list', 'format_list'):
                a, b = getattr(bk, k), getattr(cb, k)
                ctx.true(len(a) == len(b) and all(x == y and not (x != y) for x, y in zip(a, b)), '%s entries of the copy compare unequal' % k)
            for x, y in zip(bk.xf_list, cb.xf_list):
                for k in ('alignment', 'border', 'background', 'protection'):
                    ctx.true(getattr(x, k) == getattr(y, k), '%s of an XF of the copy compares unequal' % k)
            d = snap.diff(want, unpick.probe(xlrd, cb))
            if d:
                raise Violation('%s copied with %s: original vs copy: %s' % (what, how, d))
            cb.release_resources()
        o = o2
    d = snap.diff(want, unpick.probe(xlrd, bk))
    if d:
        raise Violation('the original after copying: expected vs got %s' % d)
    ctx.nt(n >= 1 and any(s['grid'] for s in want['sheets']))


SUBS = [
    Sub('roundtrip', strategy, check, quick=1600, thorough=60000, rule='generated workbook of any version x options x load history; non-trivial = at least one sheet with cells'),
    Sub('big', big_strategy, check_big, quick=300, thorough=10000, rule='up to 2500 shared strings in 1-3 sheets, any loaded before pickling; non-trivial = more than 300 strings'),
]
