"""C26: the sheet list is the worksheets, in tab order, each with its own contents."""
import io

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import ole
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C26'

CH = st.sampled_from(list('abABSheet 1234567890_-.!#$%&()+,;=@^{}~é\xdfЖ日') + ['\U0001f600'])
CH5 = st.sampled_from(list('abABSheet 1234567890_-.!#$%&()+,;=@^{}~é\xdf'))


class Index(int):
    """an integer of another type, as enumerations are"""


def strategy():
    def mk(v):
        n = st.text(CH if v >= 80 else CH5, min_size=1, max_size=12)
        sheet = st.fixed_dictionaries(dict(name=st.one_of(n, n, st.sampled_from(['Sheet1', 'sheet1', 'SHEET1', 'Sheet2', '0', '1', '-1'])), type=st.sampled_from([0, 0, 0, 0, 2, 1, 6, 3, 0x10 if v < 80 else 5]),
                                           vis=st.sampled_from([0, 0, 0, 1, 2]), order=st.integers(0, 9), wide=st.sampled_from([None, True]) if v >= 80 else st.none(), ncells=st.integers(0, 4), sub=st.integers(0, 3)))
        return st.fixed_dictionaries(dict(v=st.just(v), sheets=st.lists(sheet, min_size=1, max_size=9, unique_by=lambda s: s['name']), gap=st.integers(0, 3), wrap=st.booleans(), on_demand=st.booleans(),
                                          fi=st.booleans(), unknown=n, probe=st.lists(st.integers(0, 30), max_size=8), split=st.booleans(), wide_base=st.booleans()))
    return st.sampled_from([80, 80, 70, 50]).flatmap(mk)


def cells(v, i, n):
    """marks that identify the substream"""
    out = B.r_number(0, 0, 15, 1000.0 + i)
    for k in range(n):
        out += B.r_number(k + 1, i % 5, 15, 100.0 * i + k)
    return out


def build(case):
    v = case['v']
    sl = []
    for i, s in enumerate(case['sheets']):
        body = cells(v, i, s['ncells'])
        if s['sub'] == 1:
            body += B.bof(v, 0x20) + B.r_number(0, 0, 15, -1.0) + B.EOF
        elif s['sub'] == 2 and v >= 80:
            body = B.dimension(v, 0, 5, 0, 5) + body
        sl.append(dict(name=s['name'] if v >= 80 else s['name'].encode('latin-1'), type=s['type'], vis=s['vis'], body=body, order=s['order'], wide=s['wide']))
    gap = b''
    if case['gap'] == 1:
        gap = bytes(7)
    elif case['gap'] == 2:
        gap = B.rec(0x1FF, b'junk')
    elif case['gap'] == 3:
        gap = B.bof(v, 0x10) + B.r_number(0, 0, 15, -5.0) + B.EOF
    data = B.assemble(v, B.globals8() if v >= 80 else B.globals5(), sl, gap=gap)
    if case.get('far'):
        # the same book with its substreams far into the file
        data = B.assemble(v, B.globals8() if v >= 80 else B.globals5(), sl, gap=bytes(case['far']))
    if case['wrap']:
        data = ole.wrap(data, 'Workbook' if v >= 80 else 'Book', perm=[5, 1, 4] if case['split'] else [])
    return data


def verify(bk, want, ctx, case, released=False):
    """want: [(name, visibility, first cell value, number of further cells)]"""
    n = len(want)
    names = [w[0] for w in want]
    ctx.eq(bk.nsheets, n, 'nsheets')
    ctx.eq(bk.sheet_names(), names, 'sheet_names()')

    def one(sh, i, how):
        w = want[i]
        ctx.eq(sh.number, i, 'number of the sheet got by %s' % how)
        ctx.eq(sh.name, w[0], 'name of the sheet got by %s' % how)
        ctx.eq(sh.visibility, w[1], 'visibility of the sheet got by %s' % how)
        ctx.eq(sh.cell_value(0, 0), w[2], 'contents of sheet %d got by %s' % (i, how))
        ctx.eq(sh.nrows, 1 + w[3], 'rows of sheet %d got by %s' % (i, how))
        for k in range(w[3]):
            ctx.eq(sh.cell_value(k + 1, w[4] % 5), 100.0 * w[4] + k, 'cell of sheet %d got by %s' % (i, how))

    def refuse(f, exc, what):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: %s instead of %s' % (what, type(e).__name__, exc.__name__))
        raise Violation('%s: returned %r instead of raising %s' % (what, r, exc.__name__))
    for p in case['probe']:
        if not n:
            break
        i = p % n
        k = p % 4
        sh = [lambda: bk.sheet_by_index(i), lambda: bk.sheet_by_name(names[i]), lambda: bk[i if (i + len(names)) % 3 else Index(i)], lambda: bk[names[i]]][k]()
        one(sh, i, ['sheet_by_index', 'sheet_by_name', '[index]', '[name]'][k])
    all_ = list(bk)
    ctx.eq(len(all_), n, 'length of the iteration')
    for i, sh in enumerate(all_):
        one(sh, i, 'iteration')
    l = bk.sheets()
    ctx.eq(len(l), n, 'len(sheets())')
    for i in range(n):
        ctx.true(l[i] is all_[i] and bk.sheet_by_index(i) is l[i] and bk.sheet_by_name(names[i]) is l[i] and bk[i] is l[i] and bk[names[i]] is l[i], 'the ways of access give different objects for sheet %d' % i)
    l.append(None)                      # the caller's own list
    ctx.eq(len(bk.sheets()), n, 'len(sheets()) after the caller changed its list')
    x = bk.sheet_names()
    x.append('zz')
    ctx.eq(bk.sheet_names(), names, 'sheet_names() after the caller changed its list')
    for u in (case['unknown'], names[0].swapcase() if n else 'x', 'no such sheet', '', names[0] + ' ' if n else 'y'):
        if u not in names:
            refuse(lambda: bk.sheet_by_name(u), xlrd.XLRDError, 'sheet_by_name(%r)' % u)
            refuse(lambda: bk[u], xlrd.XLRDError, 'book[%r]' % u)
    for ix in (n, n + 1, n + 100):
        refuse(lambda: bk.sheet_by_index(ix), IndexError, 'sheet_by_index(%d)' % ix)
        refuse(lambda: bk[ix], IndexError, 'book[%d]' % ix)


def check(case, ctx):
    with ctx.building():
        data = build(case)
        want = [(s['name'], s['vis'], 1000.0 + i, s['ncells'], i) for i, s in enumerate(case['sheets']) if s['type'] == 0]
    log = io.StringIO()
    ctx.label('v%d' % case['v'], 'sheets%d' % len(want))
    orders = [s['order'] for s in case['sheets']]
    ctx.nt(len(want) > 1 and (orders != sorted(orders) or len(want) < len(orders)))
    if len(want) < len(orders):
        ctx.label('others')
    if any(s['vis'] for s in case['sheets']):
        ctx.label('hidden')
    with xlrd.open_workbook(file_contents=data, logfile=log, on_demand=case['on_demand'], formatting_info=case['fi']) as bk:
        verify(bk, want, ctx, case)


def far_strategy():
    far = st.one_of(st.sampled_from([0xFFFF, 0x10000, 0x800000, 0x1000000, 0x1000001, 0x1FFFFFF]), st.integers(0x8000, 0x1400000))
    return st.tuples(strategy(), far).map(lambda t: dict(t[0], far=t[1], sheets=t[0]['sheets'][:4], gap=0, wrap=t[0]['wrap'] and t[1] < 0x400000))


# ---- BIFF4 workbooks and single-sheet files
def old_strategy():
    sheet = st.fixed_dictionaries(dict(name=st.text(CH5, min_size=1, max_size=12), ncells=st.integers(0, 4)))
    return st.fixed_dictionaries(dict(v=st.sampled_from([45, 45, 45, 40, 30, 21, 20]), sheets=st.lists(sheet, min_size=1, max_size=6, unique_by=lambda s: s['name']), pad=st.integers(0, 2), on_demand=st.booleans(),
                                      fi=st.booleans(), unknown=st.text(CH5, max_size=5), probe=st.lists(st.integers(0, 30), max_size=6), cp=st.sampled_from([1252, 1252, 1250, 1257])))


def old_check(case, ctx):
    with ctx.building():
        v = case['v']
        lv = 40 if v == 45 else v
        bodies = []
        for i, s in enumerate(case['sheets']):
            pre = b''
            if lv >= 30:
                pre = L.r_font(lv) + b''.join(L.r_xf(lv) for _ in range(16))
            if lv >= 30:
                bodies.append(pre + cells(v, i, s['ncells']))
            else:
                b = L.b2_number(0, 0, bytes(3), 1000.0)
                for k in range(s['ncells']):
                    b += L.b2_number(k + 1, 0, bytes(3), float(k))
                bodies.append(b)
        if v == 45:
            want = [(s['name'], 0, 1000.0 + i, s['ncells'], i) for i, s in enumerate(case['sheets'])]
            # ASCII names under any code page; others need the matching one
            cp = 1252 if any(ord(ch) > 127 for s in case['sheets'] for ch in s['name']) else case['cp']
            data = L.book4w([(s['name'].encode('latin-1'), b) for s, b in zip(case['sheets'], bodies)], glob=B.codepage(cp), pad=[b'', b'', B.rec(0x1FF, b'xx')][case['pad']])
        else:
            want = [('Sheet 1', 0, 1000.0, case['sheets'][0]['ncells'], 0)]
            data = L.sheet(v, bodies[0])
    log = io.StringIO()
    ctx.label('v%d' % v, 'sheets%d' % len(want))
    ctx.nt(len(want) > 1 or v != 45)
    with xlrd.open_workbook(file_contents=data, logfile=log, on_demand=case['on_demand'], formatting_info=case['fi']) as bk:
        verify(bk, want, ctx, case)


SUBS = [
    Sub('books', strategy, check, quick=3000, thorough=100000, rule='BIFF5/7/8 books of mixed sheet types, visibility, physical order; non-trivial = several worksheets, reordered or mixed with others'),
    Sub('far', far_strategy, check, quick=60, thorough=1200, rule='the same books with up to 32 MB between their substreams (64 KB, 16 MB and other boundaries); non-trivial as in books'),
    Sub('old', old_strategy, old_check, quick=1200, thorough=30000, rule='BIFF4W workbooks and single-sheet files; non-trivial = several sheets or a single-sheet version'),
]
