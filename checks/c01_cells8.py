"""C01: BIFF8 worksheet cells are read back exactly."""
from hypothesis import strategies as st

from xv import biff as B
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C01'

# extra XFs: index 16.. -> (format key, expected type of a number)
XFMT = [(0, 2), (14, 3), (49, 2), (164, 2), (165, 3), (2, 2), (22, 3), (46, 3)]
FORMATS = [(164, '#,##0.00'), (165, 'yyyy-mm-dd')]
xfs = st.integers(15, 15 + len(XFMT))


def numtype(xf):
    return 2 if xf == 15 else XFMT[xf - 16][1]


def payload():
    runs = st.lists(st.tuples(st.integers(0, 40), st.integers(0, 3)), max_size=3)
    return st.one_of(
        st.tuples(st.just('num'), S.numbers, st.just(0)),
        st.tuples(st.just('rk'), S.rk_ints, st.just(0)),
        st.tuples(st.just('mulrk'), st.lists(st.tuples(xfs, S.rk_ints), min_size=1, max_size=5), st.just(0)),
        st.tuples(st.just('sst'), st.integers(0, 30), st.just(0)),
        st.tuples(st.just('label'), S.any_text(), st.booleans()),
        st.tuples(st.just('rstring'), S.any_text(), runs),
        st.tuples(st.just('bool'), st.integers(0, 1), st.just(0)),
        st.tuples(st.just('err'), S.errs, st.just(0)),
        st.tuples(st.just('blank'), st.just(0), st.just(0)),
        st.tuples(st.just('mulblank'), st.lists(xfs, min_size=1, max_size=5), st.just(0)),
        st.tuples(st.just('fnum'), S.numbers, st.just(0)),
        st.tuples(st.just('fstr'), S.any_text(), st.sampled_from([None, True])),
        st.tuples(st.just('fbool'), st.integers(0, 1), st.just(0)),
        st.tuples(st.just('ferr'), S.errs, st.just(0)),
        st.tuples(st.just('fempty'), st.just(0), st.just(0)),
    )


def sheet_strategy(profile):
    r, c = S.positions(profile)
    n = {'small': 25, 'wide': 15, 'tall': 6}[profile]
    return st.fixed_dictionaries(dict(
        prof=st.just(profile),
        cells=st.lists(st.tuples(r, c, xfs, payload()), max_size=n),
        dims=st.sampled_from(['right', 'none', 'wrong', 'zero', 'big']),
        sort=st.sampled_from(['row', 'none', 'none', 'col', 'revrow'])))


def strategy():
    sh = st.one_of(*[sheet_strategy(p) for p in ["small"] * 5 + ["wide"] * 2 + ["tall"]])
    return st.fixed_dictionaries(dict(
        sheets=st.lists(sh, min_size=1, max_size=3),
        sst=st.lists(S.any_text(), min_size=1, max_size=6),
        fmt=st.booleans(), ragged=st.booleans(), mode=st.sampled_from([0, 1, None])))


def place(cells):
    """-> list of (r, c, xf, payload) whose covered positions do not overlap."""
    used = set()
    out = []
    for r, c, xf, p in cells:
        if p[0] in ('mulrk', 'mulblank'):
            items = list(p[1])[:256 - c]
            while items and any((r, c + i) in used for i in range(len(items))):
                items.pop()
            if not items:
                continue
            p = (p[0], items, 0)
            cov = [(r, c + i) for i in range(len(items))]
        else:
            cov = [(r, c)]
            if cov[0] in used:
                continue
        used.update(cov)
        out.append((r, c, xf, p))
    return out


def emit(r, c, xf, p, sst):
    k, v, x = p
    if k == 'num':
        return B.r_number(r, c, xf, v), [(c, numtype(xf), v, xf)]
    if k == 'rk':
        return B.r_rk(r, c, xf, v), [(c, numtype(xf), B.rk_value(v), xf)]
    if k == 'mulrk':
        return B.r_mulrk(r, c, v), [(c + i, numtype(f), B.rk_value(q), f) for i, (f, q) in enumerate(v)]
    if k == 'sst':
        return B.r_labelsst(r, c, xf, v % len(sst)), [(c, 1, sst[v % len(sst)], xf)]
    if k == 'label':
        return B.r_label8(r, c, xf, v, True if x else None), [(c, 1, v, xf)]
    if k == 'rstring':
        return B.r_rstring8(r, c, xf, v, x), [(c, 1, v, xf)]
    if k == 'bool':
        return B.r_boolerr(r, c, xf, v, 0), [(c, 4, v, xf)]
    if k == 'err':
        return B.r_boolerr(r, c, xf, v, 1), [(c, 5, v, xf)]
    if k == 'blank':
        return B.r_blank(r, c, xf), [(c, 6, '', xf)]
    if k == 'mulblank':
        return B.r_mulblank(r, c, v), [(c + i, 6, '', f) for i, f in enumerate(v)]
    if k == 'fnum':
        return B.r_formula(80, r, c, xf, B.fres_num(v)), [(c, numtype(xf), v, xf)]
    if k == 'fstr':
        return B.r_formula(80, r, c, xf, B.fres_str()) + B.r_string8(v, x), [(c, 1, v, xf)]
    if k == 'fbool':
        return B.r_formula(80, r, c, xf, B.fres_bool(v)), [(c, 4, v, xf)]
    if k == 'ferr':
        return B.r_formula(80, r, c, xf, B.fres_err(v)), [(c, 5, v, xf)]
    if k == 'fempty':
        return B.r_formula(80, r, c, xf, B.fres_empty()), [(c, 1, '', xf)]
    raise KeyError(k)


def build(case):
    sheets = []
    models = []
    for i, sh in enumerate(case['sheets']):
        cells = place(sh['cells'])
        if sh['sort'] == 'row':
            cells.sort(key=lambda x: (x[0], x[1]))
        elif sh['sort'] == 'col':
            cells.sort(key=lambda x: (x[1], x[0]))
        elif sh['sort'] == 'revrow':
            cells.sort(key=lambda x: (-x[0], x[1]))
        body = sh.get('extra', b'')
        model = {}
        for r, c, xf, p in cells:
            data, got = emit(r, c, xf, p, case['sst'])
            body += data
            for cc, ty, v, f in got:
                model[(r, cc)] = (ty, v, f)
        nr = max([r + 1 for r, c in model] or [0])
        nc = max([c + 1 for r, c in model] or [0])
        d = sh['dims']
        dim = {'right': (nr, nc), 'none': None, 'wrong': (max(0, nr - 2), nc + 3), 'zero': (0, 0), 'big': (65536, 256)}[d]
        if dim:
            body = B.dimension(80, 0, dim[0], 0, dim[1]) + body
        sheets.append(dict(name='S%d' % i, body=body))
        models.append(model)
    sst, _ = B.sst_records([dict(s=s) for s in case['sst']], [])
    glob = B.globals8(formats=FORMATS, xfs=B.std_xfs(80, [(0, k) for k, _ in XFMT]), dmode=case['mode'])
    return B.assemble(80, glob, sheets, glob_after=sst), models


def compare_sheet(sh, model, fmt, ragged, ctx, what='', xfeq=None):
    vis = {k: v for k, v in model.items() if fmt or v[0] != 6}
    nr = max([r + 1 for r, c in vis] or [0])
    nc = max([c + 1 for r, c in vis] or [0])
    ctx.eq((sh.nrows, sh.ncols), (nr, nc), what + 'nrows, ncols')
    rows = {}
    for (r, c), v in vis.items():
        rows.setdefault(r, {})[c] = v
    probe = range(nr) if nr < 400 else sorted(set(list(rows) + [r - 1 for r in rows] + [r + 1 for r in rows] + [0, nr - 1]) & set(range(nr)))
    for r in probe:
        row = rows.get(r, {})
        n = (max(row) + 1 if row else 0) if ragged else nc
        types = list(sh.row_types(r))
        values = sh.row_values(r)
        ctx.eq((len(types), len(values), sh.row_len(r)), (n, n, n), '%srow %d length' % (what, r))
        want = [0] * n
        for c in row:
            want[c] = row[c][0]
        ctx.eq(types, want, '%srow %d types' % (what, r))
        empty = [c for c in range(n) if values[c] != '' and c not in row]
        ctx.eq(empty, [], '%srow %d columns that should be empty' % (what, r))
        for c in row:
            ty, v, f = row[c]
            w = '%scell (%d,%d)' % (what, r, c)
            ctx.eq(type(values[c]) in (float, int, str), True, w + ' value class')
            ctx.eq(values[c], v, w + ' value')
            ctx.eq(isinstance(values[c], str), isinstance(v, str), w + ' value class')
            ctx.eq(sh.cell_type(r, c), ty, w + ' cell_type')
            ctx.eq(sh.cell_value(r, c), v, w + ' cell_value')
            if fmt and xfeq:
                xfeq(sh.cell_xf_index(r, c), f, w)
            elif fmt:
                ctx.eq(sh.cell_xf_index(r, c), f, w + ' xf index')


def check(case, ctx):
    with ctx.building():
        data, models = build(case)
        kinds = set(p[0] for s in case['sheets'] for _, _, _, p in place(s['cells']))
    ctx.label(*kinds)
    ctx.label('fmt' if case['fmt'] else 'nofmt', 'ragged' if case['ragged'] else 'rect')
    for s in case['sheets']:
        ctx.label('profile:' + s['prof'], 'order:' + s['sort'], 'dims:' + s['dims'])
    ctx.nt(sum(len(m) for m in models) >= 3 and len(kinds) >= 2)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fmt'], ragged_rows=case['ragged'])
    ctx.eq(bk.biff_version, 80, 'biff_version')
    ctx.eq(bk.datemode, case['mode'] or 0, 'datemode')
    ctx.eq(bk.nsheets, len(models), 'nsheets')
    ctx.eq(bk.sheet_names(), ['S%d' % i for i in range(len(models))], 'sheet names')
    for i, model in enumerate(models):
        compare_sheet(bk.sheet_by_index(i), model, case['fmt'], case['ragged'], ctx, 'sheet %d ' % i)


SUBS = [Sub('cells', strategy, check, quick=4800, thorough=120000,
            rule='1-3 BIFF8 sheets of generated cell records of 15 kinds in arbitrary record order, '
                 'positions over the whole 65536x256 grid; non-trivial = at least 3 cells of at least 2 record kinds')]
