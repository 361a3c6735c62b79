"""C16: merged ranges, label ranges and page breaks are complete and exact."""
from hypothesis import strategies as st

from checks import c01_cells8 as C1
from xv import biff as B
from xv import legacy as L
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C16'


def strategy(farsub=False):
    def mk(v):
        rmax = 65535 if v >= 80 else 16383
        small = st.integers(0, 9)
        far = st.one_of(small, st.sampled_from([rmax, rmax - 1, 1000])) if farsub else st.one_of(small, st.integers(0, 70))
        r2 = st.tuples(far, st.integers(0, 5)).map(lambda t: (t[0], min(t[0] + t[1], rmax)))
        c2 = st.tuples(st.one_of(small, small, small, st.sampled_from([250, 255])), st.integers(0, 5)).map(lambda t: (t[0], min(t[0] + t[1], 255)))
        rng = st.tuples(r2, c2)
        anyr = st.tuples(st.tuples(st.integers(0, rmax), st.integers(0, rmax)).map(sorted), st.tuples(st.integers(0, 255), st.integers(0, 255)).map(sorted))
        cell = st.tuples(small, st.integers(0, 7), st.sampled_from([15, 16, 18]), st.sampled_from(['num', 'label', 'bool', 'blank']))
        big = st.tuples(st.integers(0, 3), st.integers(100, 1026)).map(lambda t: [((i * 2 % 40 + t[0], i * 2 % 40 + t[0] + 1), (i % 5, i % 5)) for i in range(t[1])])
        brk = st.lists(st.tuples(st.integers(0, 65535), st.integers(0, 255), st.integers(0, 65535)), max_size=5)
        return st.fixed_dictionaries(dict(
            v=st.just(v), cells=st.lists(cell, max_size=10), merged=st.lists(st.one_of(*[st.lists(rng, max_size=5)] * 12, big), min_size=0, max_size=3),
            labels=st.lists(st.tuples(st.lists(anyr, max_size=3), st.lists(anyr, max_size=3)), max_size=2),
            hbr=st.lists(brk, max_size=2), vbr=st.lists(brk, max_size=2), order=st.permutations(range(5)), ragged=st.booleans(), dims=st.booleans(),
            other=st.booleans()))
    return st.sampled_from([80] * 7 + [70, 50, 40, 30]).flatmap(mk)


def far_strategy():
    return strategy(True)


def rngs(lst):
    return B.P('<H', len(lst)) + b''.join(B.P('<HHHH', r[0], r[1], c[0], c[1]) for r, c in lst)


def half(lst):
    return [(r[0], r[1] + 1, c[0], c[1] + 1) for r, c in lst]


def build(case):
    v = case['v']
    xfo = 0 if v >= 50 else -15
    cells = {}
    groups = [b'', b'', b'', b'', b'']
    for r, c, xf, kind in case['cells']:
        if (r, c) in cells:
            continue
        xf += xfo
        lab = B.r_label8(r, c, xf, 'txt') if v >= 80 else B.r_label5(r, c, xf, b'txt')
        rec, val = {'num': (B.r_number(r, c, xf, r + c / 8.0), (2, r + c / 8.0)), 'label': (lab, (1, 'txt')), 'bool': (B.r_boolerr(r, c, xf, 1, 0), (4, 1)),
                    'blank': (B.r_blank(r, c, xf), (6, ''))}[kind]
        groups[0] += rec
        cells[(r, c)] = val + (xf,)
    merged, rowl, coll, hb, vb = [], [], [], [], []
    if v >= 80:
        for lst in case['merged']:
            groups[1] += B.rec(0xE5, rngs(lst))
            merged += half(lst)
        for a, b in case['labels']:
            groups[2] += B.rec(0x15F, rngs(a) + rngs(b))
            rowl += half(a)
            coll += half(b)
    for lst in case['hbr']:
        if v >= 80:
            groups[3] += B.rec(0x1B, B.P('<H', len(lst)) + b''.join(B.P('<HHH', *t) for t in lst))
            hb += lst
        else:
            groups[3] += B.rec(0x1B, B.P('<H', len(lst)) + b''.join(B.P('<H', t[0]) for t in lst))
            hb += [(t[0], 0, 255) for t in lst]
    for lst in case['vbr']:
        if v >= 80:
            groups[4] += B.rec(0x1A, B.P('<H', len(lst)) + b''.join(B.P('<HHH', *t) for t in lst))
            vb += lst
        else:
            groups[4] += B.rec(0x1A, B.P('<H', len(lst)) + b''.join(B.P('<H', t[0]) for t in lst))
            vb += [(t[0], 0, 65535) for t in lst]
    body = b''
    if case['dims']:
        body += B.dimension(v, 0, max([r + 1 for r, _ in cells] or [0]), 0, max([c + 1 for _, c in cells] or [0]))
    body += b''.join(groups[i] for i in case['order'])
    if v >= 50:
        xfs = B.std_xfs(v, [(0, 0)] * 4)
        sheets = [dict(name='S' if v >= 80 else b'S', body=body)]
        if case['other']:
            sheets.append(dict(name='T' if v >= 80 else b'T', body=B.r_number(0, 0, 15, 1.0)))
        data = B.assemble(v, B.globals8(xfs=xfs) if v >= 80 else B.globals5(xfs=xfs), sheets)
    else:
        data = L.sheet(v, L.r_font(v) + L.r_format(v, b'General') + L.r_xf(v) * 20 + body)
    return data, cells, merged, rowl, coll, hb, vb


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data, cells, merged, rowl, coll, hb, vb = build(case)
    ctx.label('v%d' % case['v'], 'merged' if merged else 'no-merged')
    nr0 = max([r + 1 for r, _ in cells] or [0])
    nc0 = max([c + 1 for _, c in cells] or [0])
    nr = max([nr0] + [m[1] for m in merged])
    nc = max([nc0] + [m[3] for m in merged])
    if nr > nr0 or nc > nc0:
        ctx.label('extends')
    ctx.nt((len(merged) > 1 or len(hb) + len(vb) > 1) and len(cells) > 1)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, ragged_rows=case['ragged'], logfile=Sink())
    sh = bk.sheet_by_index(0)
    ctx.eq([tuple(m) for m in sh.merged_cells], merged, 'merged_cells')
    ctx.eq([tuple(m) for m in sh.row_label_ranges], rowl, 'row_label_ranges')
    ctx.eq([tuple(m) for m in sh.col_label_ranges], coll, 'col_label_ranges')
    ctx.eq([tuple(m) for m in sh.horizontal_page_breaks], hb, 'horizontal_page_breaks')
    ctx.eq([tuple(m) for m in sh.vertical_page_breaks], vb, 'vertical_page_breaks')
    ctx.eq((sh.nrows, sh.ncols), (nr, nc), 'nrows, ncols')
    rows = {}
    for (r, c), x in cells.items():
        rows.setdefault(r, {})[c] = x
    probe = range(nr) if nr < 100 else list(range(20)) + [nr - 2, nr - 1]
    for r in probe:
        n = sh.row_len(r)
        row = rows.get(r, {})
        if case['ragged']:
            ctx.true((max(row) + 1 if row else 0) <= n <= nc, 'length of ragged row %d' % r)
        else:
            ctx.eq(n, nc, 'length of row %d' % r)
        want = [row.get(c, (0, '', 15)) for c in range(n)]
        ctx.eq(list(sh.row_types(r)), [w[0] for w in want], 'types of row %d' % r)
        ctx.eq(sh.row_values(r), [w[1] for w in want], 'values of row %d' % r)
        ctx.eq([sh.cell_xf_index(r, c) for c in range(min(n, 12))], [w[2] for w in want[:12]], 'XFs of row %d' % r)
    if case['other'] and case['v'] >= 50:
        t = bk.sheet_by_index(1)
        ctx.eq((t.merged_cells, t.row_label_ranges, t.col_label_ranges, t.horizontal_page_breaks, t.vertical_page_breaks, t.nrows, t.ncols),
               ([], [], [], [], [], 1, 1), 'ranges of another sheet')
    s2 = xlrd.open_workbook(file_contents=data, ragged_rows=case['ragged'], logfile=Sink()).sheet_by_index(0)
    vis = {k: x for k, x in cells.items() if x[0] != 6}
    C1.compare_sheet(s2, vis, False, case['ragged'], ctx, 'without formatting_info: ')
    ctx.eq((s2.merged_cells, s2.horizontal_page_breaks, s2.vertical_page_breaks), ([], [], []), 'formatting lists without formatting_info')


RULE = 'MERGEDCELLS, LABELRANGES and page break records among cells, any order; non-trivial = several ranges or breaks and several cells'
SUBS = [Sub('ranges', strategy, check, quick=3500, thorough=100000, rule=RULE),
        Sub('far', far_strategy, check, quick=64, thorough=2000, rule=RULE + '; ranges reaching the last row')]
