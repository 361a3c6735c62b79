"""C08: sheet accessors agree with each other and with slice semantics."""
from struct import pack as P

from hypothesis import strategies as st

from checks import c01_cells8 as C1
from xv import biff as B
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C08'


def strategy():
    arg = st.one_of(st.integers(-12, 12), st.sampled_from([-300, -256, -255, 255, 256, 70000, -70000]))
    end = st.one_of(st.none(), arg)
    return st.fixed_dictionaries(dict(
        sheet=C1.sheet_strategy('small'), sst=st.lists(st.text('ab', max_size=3), min_size=1, max_size=3),
        fmt=st.booleans(), ragged=st.booleans(),
        rowxf=st.dictionaries(st.integers(0, 9), st.tuples(st.integers(0, 25), st.booleans()), max_size=4),
        colxf=st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3), st.integers(0, 25)), max_size=3),
        queries=st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9), arg, end), min_size=3, max_size=10)))


def check(case, ctx):
    with ctx.building():
        extra = b''
        rowd, cold = {}, {}
        for a, n, x in case['colxf']:
            extra += B.rec(0x7D, P('<HHHHHH', a, a + n, 2048, x, 0, 0))
            cold.update((c, x) for c in range(a, a + n + 1))
        for r, (x, flag) in sorted(case['rowxf'].items()):
            extra += B.rec(0x208, P('<HHHHHHI', r, 0, 256, 255, 0, 0, 0x100 | flag << 7 | x << 16))
            if flag:
                rowd[r] = x
        data, models = C1.build(dict(sheets=[dict(case['sheet'], extra=extra)], sst=case['sst'], mode=None))
        fmt, ragged = case['fmt'], case['ragged']
        model = {k: v for k, v in models[0].items() if fmt or v[0] != 6}
        nr = max([r + 1 for r, c in model] or [0])
        nc = max([c + 1 for r, c in model] or [0])
        grid = []
        for r in range(nr):
            w = max([c + 1 for rr, c in model if rr == r] or [0]) if ragged else nc
            grid.append([model[(r, c)] if (r, c) in model else (0, '', rowd.get(r, cold.get(c, 15))) for c in range(w)])
    sh = xlrd.open_workbook(file_contents=data, formatting_info=fmt, ragged_rows=ragged).sheet_by_index(0)
    ctx.eq((sh.nrows, sh.ncols), (nr, nc), 'nrows, ncols')
    ctx.nt(nr >= 2 and nc >= 2)
    ctx.label('rowdef' if rowd else '', 'coldef' if cold else '')
    ctx.label('ragged' if ragged else 'rect', 'fmt' if fmt else 'nofmt')

    def same(cells, want, what):
        ctx.eq(len(cells), len(want), what + ' length')
        for i, (c, (t, v, x)) in enumerate(zip(cells, want)):
            ctx.eq(c.ctype, t, '%s [%d] ctype' % (what, i))
            ctx.eq(c.value, v, '%s [%d] value' % (what, i))
            ctx.eq(c.xf_index, x if fmt else None, '%s [%d] xf_index' % (what, i))

    def raises(fn, what):
        try:
            got = fn()
        except IndexError:
            return
        ctx.true(False, '%s: no IndexError, got %r' % (what, got))

    for rows, what in ((list(sh), 'iteration'), (list(sh.get_rows()), 'get_rows'), ([sh.row(r) for r in range(nr)], 'row'),
                       ([sh[r] for r in range(nr)], 'sheet[r]')):
        ctx.eq(len(rows), nr, what)
        for r in range(nr):
            same(rows[r], grid[r], '%s %d' % (what, r))
    for r, c, s, e in case['queries']:
        sl = slice(s, e)
        ctx.label('neg' if s < 0 or (e is not None and e < 0) else 'pos')
        if -nr <= r < nr:
            row = grid[r]
            q = '(%d, %d, %r)' % (r, s, e)
            same(sh.row_slice(r, s, e), row[sl], 'row_slice' + q)
            ctx.eq(list(sh.row_types(r, s, e)), [x[0] for x in row[sl]], 'row_types' + q)
            ctx.eq(list(sh.row_values(r, s, e)), [x[1] for x in row[sl]], 'row_values' + q)
            ctx.eq(sh.row_len(r), len(row), 'row_len(%d)' % r)
            same(sh.row_slice(r, s), row[s:], 'row_slice(%d, %d)' % (r, s))
            ctx.eq(list(sh.row_types(r, s)), [x[0] for x in row[s:]], 'row_types(%d,%d)' % (r, s))
            ctx.eq(list(sh.row_values(r, s)), [x[1] for x in row[s:]], 'row_values(%d,%d)' % (r, s))
            ctx.eq(list(sh.row_values(r)), [x[1] for x in row], 'row_values(%d)' % r)
            if -len(row) <= c < len(row):
                t, v, x = row[c]
                ctx.eq(sh.cell_type(r, c), t, 'cell_type(%d,%d)' % (r, c))
                ctx.eq(sh.cell_value(r, c), v, 'cell_value(%d,%d)' % (r, c))
                if fmt:
                    ctx.eq(sh.cell_xf_index(r, c), x, 'cell_xf_index(%d,%d)' % (r, c))
                same([sh.cell(r, c), sh[r, c]], [row[c]] * 2, 'cell(%d,%d)' % (r, c))
            else:
                for nm, fn in (('cell', lambda: sh.cell(r, c)), ('cell_type', lambda: sh.cell_type(r, c)),
                               ('cell_value', lambda: sh.cell_value(r, c)), ('sheet[r, c]', lambda: sh[r, c])):
                    raises(fn, '%s(%d,%d)' % (nm, r, c))
        else:
            for nm, fn in (('cell', lambda: sh.cell(r, c)), ('cell_type', lambda: sh.cell_type(r, c)), ('cell_value', lambda: sh.cell_value(r, c)),
                           ('row', lambda: sh.row(r)), ('row_slice', lambda: sh.row_slice(r, s, e)), ('row_types', lambda: sh.row_types(r, s, e)),
                           ('row_values', lambda: sh.row_values(r, s, e)), ('row_len', lambda: sh.row_len(r)), ('sheet[r]', lambda: sh[r]),
                           ('sheet[r, c]', lambda: sh[r, c])):
                raises(fn, '%s row %d' % (nm, r))
        rows = grid[sl]
        q = '(%d, %d, %r)' % (c, s, e)
        if all(-len(g) <= c < len(g) for g in rows):
            col = [g[c] for g in rows]
            same(sh.col_slice(c, s, e), col, 'col_slice' + q)
            ctx.eq(list(sh.col_types(c, s, e)), [x[0] for x in col], 'col_types' + q)
            ctx.eq(list(sh.col_values(c, s, e)), [x[1] for x in col], 'col_values' + q)
        else:
            raises(lambda: sh.col_slice(c, s, e), 'col_slice' + q)
            raises(lambda: sh.col_types(c, s, e), 'col_types' + q)
            raises(lambda: sh.col_values(c, s, e), 'col_values' + q)
        if all(-len(g) <= c < len(g) for g in grid):
            same(sh.col(c), [g[c] for g in grid], 'col(%d)' % c)
            ctx.eq(list(sh.col_values(c)), [g[c][1] for g in grid], 'col_values(%d)' % c)
            ctx.eq(list(sh.col_types(c, s)), [g[c][0] for g in grid[s:]], 'col_types(%d,%d)' % (c, s))


SUBS = [Sub('accessors', strategy, check, quick=4000, thorough=100000,
            rule='generated grid up to 7x11 with blanks/ragged rows, 3-10 (row, col, start, end) queries including negative and huge '
                 'values, compared with a list-of-lists model; non-trivial = at least 2x2')]
