"""C06: on_demand loading obeys the documented sheet lifecycle (model-based, stateful)."""
import gc
import io
import os
import tempfile

from hypothesis import strategies as st

from xv import rich
from xv import snap
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C06'
OPS = ['index', 'index', 'name', 'item', 'itemname', 'iter', 'loaded', 'unload', 'unload', 'unloadname', 'sheets', 'names', 'badname', 'badindex', 'release', 'forget', 'with', 'list', 'index', 'name', 'scribble', 'scribble']


def strategy():
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 5))
    return st.fixed_dictionaries(dict(blob=rich.blob(), versions=st.sampled_from(['new', 'new', 'new', 'new', 'old']), ops=st.lists(op, min_size=1, max_size=25), source=st.sampled_from(['bytes', 'mmap', 'read', 'bytes']),
                                      on_demand=st.sampled_from([True, True, True, True, False]), fi=st.booleans(), ragged=st.booleans(), unlink=st.booleans(), verb=st.integers(0, 1)))


def refuse(f, exc, what):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: %s (%s) instead of %s' % (what, type(e).__name__, e, exc.__name__))
    raise Violation('%s: returned %r instead of raising %s' % (what, r, exc.__name__))


def check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], versions=(80, 80, 50, 70) if case['versions'] == 'new' else (45, 45, 40, 30, 20), maxsheets=6)
        data = R.bytes()
        v = R.v
    log = io.StringIO()
    kw = dict(formatting_info=case['fi'], ragged_rows=case['ragged'], logfile=log, verbosity=case['verb'])
    ref = xlrd.open_workbook(file_contents=data, **kw)
    want = [snap.snap_sheet(s) for s in ref.sheets()]
    refbook = snap.snap_book(ref, sheets=False)
    n = ref.nsheets
    names = ref.sheet_names()
    fn = None
    if case['source'] == 'bytes':
        bk = xlrd.open_workbook(file_contents=data, on_demand=case['on_demand'], **kw)
    else:
        fd, fn = tempfile.mkstemp(suffix='.xls')
        with os.fdopen(fd, 'wb') as f:
            f.write(data)
        try:
            bk = xlrd.open_workbook(fn, use_mmap=case['source'] == 'mmap', on_demand=case['on_demand'], **kw)
        finally:
            if case['unlink']:
                os.unlink(fn)
                fn = None
    lazy = case['on_demand'] and v >= 50
    model = [None if lazy else True] * n     # None, True = loaded but not yet seen, or the Sheet object
    released = not lazy
    reloads = [0] * n
    held = []
    lists = []
    if v < 50:
        ctx.eq(bool(bk.on_demand), False, 'on_demand of a BIFF%d book' % v)
    else:
        ctx.eq(bool(bk.on_demand), case['on_demand'], 'on_demand')
    ctx.label('v%d' % v, 'lazy' if lazy else 'eager')

    def got(sh, i, how):
        if model[i] in (None, True):
            ctx.true(all(sh is not h for h, k in held), '%s gives an object that was unloaded or belongs to another sheet' % how) if model[i] is None else None
            model[i] = sh
            d = snap.diff(want[i], snap.snap_sheet(sh))
            ctx.true(d is None, 'sheet %d got by %s differs from the fully loaded book: %s' % (i, how, d))
            if not any(sh is h for h, k in held):
                held.append((sh, i))
            reloads[i] += 1
        else:
            ctx.true(sh is model[i], '%s gives another object for loaded sheet %d' % (how, i))
        ctx.true(sh.book is bk, 'book of sheet %d' % i)

    def access(i, how, f):
        if model[i] is None and released:
            refuse(f, xlrd.XLRDError, '%s of unloaded sheet %d after release_resources' % (how, i))
            ctx.label('refused')
        else:
            got(f(), i, how)
    try:
        for op, a in case['ops']:
            i = a % n
            if op == 'index':
                access(i, 'sheet_by_index', lambda: bk.sheet_by_index(i))
            elif op == 'name':
                access(i, 'sheet_by_name', lambda: bk.sheet_by_name(names[i]))
            elif op == 'item':
                access(i, '[index]', lambda: bk[i])
            elif op == 'itemname':
                access(i, '[name]', lambda: bk[names[i]])
            elif op == 'iter':
                it = iter(bk)
                for k in range(min(a, n)):
                    if model[k] is None and released:
                        refuse(lambda: next(it), xlrd.XLRDError, 'iteration reaching unloaded sheet %d after release_resources' % k)
                        break
                    got(next(it), k, 'iteration')
            elif op in ('sheets', 'list'):
                f = bk.sheets if op == 'sheets' else lambda: list(bk)
                if released and None in model:
                    refuse(f, xlrd.XLRDError, '%s with unloaded sheets after release_resources' % op)
                else:
                    l = f()
                    ctx.eq(len(l), n, 'length of %s' % op)
                    lists.append((l, list(l)))
                    for k in range(n):
                        got(l[k], k, op)
            elif op == 'loaded':
                ctx.eq(bk.sheet_loaded(names[i]), model[i] is not None, 'sheet_loaded(%r)' % names[i])
            elif op in ('unload', 'unloadname'):
                bk.unload_sheet(i if op == 'unload' else names[i])
                model[i] = None
            elif op == 'badname':
                for f in (bk.sheet_by_name, bk.sheet_loaded, bk.unload_sheet, bk.__getitem__):
                    refuse(lambda: f('no such \u263a'), xlrd.XLRDError, '%s of an unknown name' % f.__name__)
            elif op == 'badindex':
                for f in (bk.sheet_by_index, bk.sheet_loaded, bk.unload_sheet, bk.__getitem__):
                    refuse(lambda: f(n + a), IndexError, '%s(%d) with %d sheets' % (f.__name__, n + a, n))
            elif op == 'release':
                bk.release_resources()
                released = True
            elif op == 'with':
                with bk as b2:
                    ctx.true(b2 is bk, 'object bound by with')
                    if not released:
                        got(bk.sheet_by_index(i), i, 'sheet_by_index in a with block')
                released = True
            elif op == 'scribble':
                # lists that were returned belong to the caller
                for l, was in lists:
                    ctx.true(len(l) == len(was) and all(x is y for x, y in zip(l, was)), 'a list of sheets changed after it was returned')
                    l[:] = l[1:] + [None]
                lists[:] = []
                l = bk.sheet_names()
                l[0] = 'changed'
                l.append('more')
            elif op == 'forget':
                held[:] = [(h, k) for h, k in held if h in model]
                gc.collect(1)
            # whatever was done: the directory is there, and exactly the sheets asked for are loaded
            ctx.eq((bk.nsheets, bk.sheet_names()), (n, names), 'nsheets and sheet_names after %s' % op)
            ctx.eq([bk.sheet_loaded(k) for k in range(n)], [m is not None for m in model], 'sheets loaded after %s(%d)' % (op, a))
        for l, was in lists:
            ctx.true(len(l) == len(was) and all(x is y for x, y in zip(l, was)), 'a list of sheets changed after it was returned')
        # everything obtained on the way is still usable, and as it was
        for h, k in held:
            d = snap.diff(want[k], snap.snap_sheet(h))
            ctx.true(d is None, 'sheet %d changed after it was loaded: %s' % (k, d))
        d = snap.diff(refbook, snap.snap_book(bk, sheets=False))
        ctx.true(d is None, 'book data differ from the fully loaded book: %s' % d)
        if max(reloads) > 1:
            ctx.label('reloaded')
        ctx.nt(lazy and n > 1 and sum(1 for r in reloads if r) >= 1)
    finally:
        bk.release_resources()
        if fn:
            os.unlink(fn)


SUBS = [
    Sub('lifecycle', strategy, check, quick=2500, thorough=80000, rule='BIFF2-8 workbooks and up to 25 access operations; non-trivial = a lazily opened book of several sheets of which at least one was loaded'),
]
