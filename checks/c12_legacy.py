"""C12: BIFF2-7 worksheets are read back exactly."""
from hypothesis import strategies as st

from checks import c01_cells8 as C1
from xv import biff as B
from xv import legacy as L
from xv import ole
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C12'
XFMT = C1.XFMT
# NUL, tab and newline are ordinary characters of the text
LATIN = st.one_of(*[st.text(st.characters(min_codepoint=32, max_codepoint=255, exclude_categories=['Cc']), max_size=12)] * 3,
                  st.tuples(st.text(st.sampled_from('ab \n\r\t\0\x7f\xa0'), max_size=5), st.sampled_from(['', '\0', '\0\0', '\n', ' '])).map(''.join))
SHORT = st.one_of(LATIN, LATIN, st.tuples(st.text(st.characters(min_codepoint=160, max_codepoint=255), min_size=1, max_size=5), st.integers(1, 51)).map(lambda t: t[0] * t[1]))
LONG = st.one_of(LATIN, LATIN, st.tuples(SHORT, st.integers(1, 40)).map(lambda t: t[0] * t[1]))


# choice of formatting: often nearly the same as another cell's
SEL = st.one_of(st.integers(0, 200), st.integers(0, 200), st.tuples(st.integers(0, 3), st.sampled_from([0, 1, 2, 4, 8, 16, 32, 64, 128, 0x41, 0x61])).map(lambda t: t[0] | t[1] << 8), st.integers(0, 0xFFFF))


def payload(v):
    txt = SHORT if v <= 21 else LONG
    alts = [st.tuples(st.just('num'), S.numbers, st.just(0)),
            st.tuples(st.just('label'), txt, st.just(0)),
            st.tuples(st.just('bool'), st.integers(0, 1), st.just(0)),
            st.tuples(st.just('err'), S.errs, st.just(0)),
            st.tuples(st.just('blank'), st.just(0), st.just(0)),
            st.tuples(st.just('fnum'), S.numbers, st.just(0)),
            st.tuples(st.just('fstr'), txt, st.lists(st.integers(1, 60), max_size=3)),
            st.tuples(st.just('fbool'), st.integers(0, 1), st.just(0)),
            st.tuples(st.just('ferr'), S.errs, st.just(0))]
    if v <= 21:
        alts.append(st.tuples(st.just('int'), st.integers(0, 65535), st.just(0)))
    else:
        alts.append(st.tuples(st.just('rk'), S.rk_ints, st.just(0)))
        alts.append(st.tuples(st.just('fempty'), st.just(0), st.just(0)))
    if v >= 50:
        runs = st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)), max_size=4)
        xfi = st.integers(0, 60)
        alts += [st.tuples(st.just('mulrk'), st.lists(st.tuples(xfi, S.rk_ints), min_size=1, max_size=4), st.just(0)),
                 st.tuples(st.just('mulblank'), st.lists(xfi, min_size=1, max_size=4), st.just(0)),
                 st.tuples(st.just('rstring'), txt, runs)]
    return st.one_of(*alts)


def sheet_strategy(v):
    r = st.one_of(*[st.integers(0, 8)] * 7, st.integers(0, 300) if v != 45 else st.integers(0, 12))
    c = st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([254, 255, 30, 9, 12, 20]))
    return st.fixed_dictionaries(dict(
        cells=st.lists(st.tuples(r, c, SEL, payload(v)), max_size=20),
        dims=st.sampled_from(['right', 'none', 'wrong']), sort=st.sampled_from(['row', 'none', 'col']),
        edge=st.integers(0, 300), nx=st.one_of(st.integers(1, 12), st.integers(60, 100), st.integers(1, 12), st.integers(60, 100), st.integers(250, 700) if v == 21 else st.integers(60, 100)),
        fmts=st.one_of(*[st.lists(st.integers(0, len(L.FMTS) - 1), min_size=1, max_size=8)] * 3, st.tuples(st.lists(st.integers(0, len(L.FMTS) - 1), min_size=3, max_size=7), st.integers(17, 64)).map(lambda t: (t[0] * 22)[:t[1]])),
        xff=st.lists(st.tuples(st.integers(0, 200), st.integers(0, 3)), min_size=1, max_size=6)))


def strategy():
    def mk(v):
        n = 1 if v <= 40 else 3
        return st.fixed_dictionaries(dict(
            v=st.just(v), sheets=st.lists(sheet_strategy(v), min_size=1, max_size=n), fmt=st.booleans(), ragged=st.booleans(),
            mode=st.sampled_from([0, 1, None]), cp=st.sampled_from([1252, 0x8001, 'none']), names=st.permutations(['Alpha', 'Beta \xe9', 'G']),
            pad=st.integers(0, 9), on_demand=st.booleans()))
    return st.sampled_from([20, 21, 30, 40, 45, 50, 70]).flatmap(mk)


def emit2(v, r, c, sel, sh, p):
    """BIFF2 record(s) -> (bytes, type, value, xf expectation)"""
    k, x, _ = p
    if v == 21:
        n = sh['nx']
        idx = sel % n
        if sel % 5 == 0 and sh.get('_ixfe') is not None:
            idx = sh['_ixfe']
        pre = b''
        if idx >= 63 or sel % 7 == 0:
            # an IXFE record applies until the next one
            if not (sh.get('_ixfe') == idx and sel % 3):
                pre = L.ixfe(idx)
            sh['_ixfe'] = idx
            a = L.attr3(xf=63)
        else:
            a = L.attr3(xf=idx)
        nt = fmt_of(sh, idx)[1]
        want = idx
    else:
        prot, font, fm, al = sel & 3, (sel >> 2) & 3, (sel & 255) % len(sh['fmts']), ((sel & 255) * 37) & 0xFF ^ sel >> 8
        pre = b''
        a = L.attr3(prot=prot, font=font, fmt=fm, align=al)
        nt = L.FMTS[sh['fmts'][fm]][1]
        want = (prot, font, fm, al)
    e = lambda s: s.encode('latin-1')
    d = {'int': lambda: (L.b2_integer(r, c, a, x), nt, float(x)), 'num': lambda: (L.b2_number(r, c, a, x), nt, x),
         'label': lambda: (L.b2_label(r, c, a, e(x)), 1, x), 'bool': lambda: (L.b2_boolerr(r, c, a, x, 0), 4, x),
         'err': lambda: (L.b2_boolerr(r, c, a, x, 1), 5, x), 'blank': lambda: (L.b2_blank(r, c, a), 6, ''),
         'fnum': lambda: (B.r_formula2(r, c, a, B.fres_num(x)), nt, x),
         'fstr': lambda: (B.r_formula2(r, c, a, B.fres_str()) + L.b2_string(e(x)), 1, x),
         'fbool': lambda: (B.r_formula2(r, c, a, B.fres_bool(x)), 4, x), 'ferr': lambda: (B.r_formula2(r, c, a, B.fres_err(x)), 5, x)}[k]()
    return pre + d[0], [(c, d[1], d[2], want)]


def fmt_of(sh, idx):
    """format of XF idx of a BIFF2(1)-4 sheet"""
    f = sh['xff'][idx % len(sh['xff'])]
    return L.FMTS[sh['fmts'][f[0] % len(sh['fmts'])]]


def emit(v, r, c, sel, sh, p):
    k, x, y = p
    if v >= 50:
        n = 1 + len(XFMT)
        xf = 15 + sel % n
        nt = C1.numtype
        fix = lambda i: 15 + i % n
    else:
        xf = sel % sh['nx']
        nt = lambda i: fmt_of(sh, i)[1]
        fix = lambda i: i % sh['nx']
    e = lambda s: s.encode('latin-1')
    if k == 'num':
        return B.r_number(r, c, xf, x), [(c, nt(xf), x, xf)]
    if k == 'rk':
        return B.r_rk(r, c, xf, x), [(c, nt(xf), B.rk_value(x), xf)]
    if k == 'mulrk':
        items = [(fix(i), q) for i, q in x]
        return B.r_mulrk(r, c, items), [(c + i, nt(f), B.rk_value(q), f) for i, (f, q) in enumerate(items)]
    if k == 'mulblank':
        items = [fix(i) for i in x]
        return B.r_mulblank(r, c, items), [(c + i, 6, '', f) for i, f in enumerate(items)]
    if k == 'label':
        return B.r_label5(r, c, xf, e(x)), [(c, 1, x, xf)]
    if k == 'rstring':
        return B.r_rstring5(r, c, xf, e(x), y), [(c, 1, x, xf)]
    if k == 'bool':
        return B.r_boolerr(r, c, xf, x, 0), [(c, 4, x, xf)]
    if k == 'err':
        return B.r_boolerr(r, c, xf, x, 1), [(c, 5, x, xf)]
    if k == 'blank':
        return B.r_blank(r, c, xf), [(c, 6, '', xf)]
    f = lambda res: B.r_formula(v, r, c, xf, res)
    if k == 'fnum':
        return f(B.fres_num(x)), [(c, nt(xf), x, xf)]
    if k == 'fstr':
        return f(B.fres_str()) + L.r_string5(e(x), y), [(c, 1, x, xf)]
    if k == 'fbool':
        return f(B.fres_bool(x)), [(c, 4, x, xf)]
    if k == 'ferr':
        return f(B.fres_err(x)), [(c, 5, x, xf)]
    if k == 'fempty':
        return f(B.fres_empty()), [(c, 1, '', xf)]
    raise KeyError(k)


def legacy_globals(v, sh, mode, cp):
    """the records that precede the cells of a BIFF2-4 sheet"""
    out = b''
    if cp != 'none':
        out += B.codepage(cp)
    if mode is not None:
        out += B.datemode(mode)
    for i in range(4):
        out += L.r_font(v, b'F%d' % i)
        if v <= 21:
            out += B.rec(0x45, B.P('<H', 8 + i))
    for i in sh['fmts']:
        out += L.r_format(v, L.FMTS[i][0].encode())
    if v != 20:
        for i in range(sh['nx']):
            fm, font = sh['xff'][i % len(sh['xff'])]
            out += L.r_xf(v, font=font, fmt=fm % len(sh['fmts']), prot=i & 3)
    return out


def build(case):
    v = case['v']
    bodies = []
    models = []
    for sh in case['sheets']:
        cells = C1.place(sh['cells'])
        if sh['edge'] == 0:
            cells = C1.place([(16383, c, x, p) for r, c, x, p in cells[:2]] + cells)
        if sh['sort'] == 'row':
            cells.sort(key=lambda t: (t[0], t[1]))
        elif sh['sort'] == 'col':
            cells.sort(key=lambda t: (t[1], t[0]))
        body = b''
        sh = dict(sh)
        model = {}
        for r, c, sel, p in cells:
            data, got = emit2(v, r, c, sel, sh, p) if v <= 21 else emit(v, r, c, sel, sh, p)
            body += data
            for cc, ty, val, xf in got:
                model[(r, cc)] = (ty, val, xf)
        nr = max([r + 1 for r, c in model] or [0])
        nc = max([c + 1 for r, c in model] or [0])
        if sh['dims'] == 'right':
            body = B.dimension(v, 0, nr, 0, nc) + body
        elif sh['dims'] == 'wrong':
            body = B.dimension(v, 0, max(nr - 2, 0), 0, nc + 3) + body
        bodies.append(body)
        models.append(model)
    cp, mode = case['cp'], case['mode']
    names = case['names'][:len(bodies)]
    if v <= 40:
        data = L.sheet(v, legacy_globals(v, case['sheets'][0], mode, cp) + bodies[0])
        names = ['Sheet 1']
    elif v == 45:
        glob = B.codepage(1252) if cp != 'none' else b''
        data = L.book4w([(n.encode('latin-1'), legacy_globals(40, sh, mode, 'none') + b) for n, sh, b in zip(names, case['sheets'], bodies)], glob, b'')
    else:
        glob = B.globals5(formats=[(k, s.encode()) for k, s in C1.FORMATS], xfs=B.std_xfs(50, [(0, k) for k, _ in XFMT]), dmode=mode, cp=None if cp == 'none' else cp)
        data = B.assemble(v, glob, [dict(name=n.encode('latin-1'), body=b) for n, b in zip(names, bodies)], gap=b'\0' * case['pad'])
    return data, models, names


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data, models, names = build(case)
        kinds = set(p[0] for s in case['sheets'] for _, _, _, p in s['cells'])
    v, fmt = case['v'], case['fmt']
    ctx.label('v%d' % v, *['v%d:%s' % (v, k) for k in kinds])
    ctx.nt(sum(len(m) for m in models) >= 3 and len(kinds) >= 2)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=fmt, ragged_rows=case['ragged'], on_demand=case['on_demand'], logfile=Sink())
    if v in (20, 21):
        # 20 and 21 differ by the presence of XF records, found out at the first cell
        ctx.true(bk.biff_version in (20, 21), 'biff_version %r' % bk.biff_version)
    else:
        ctx.eq(bk.biff_version, v, 'biff_version')
    ctx.eq(bk.datemode, case['mode'] or 0, 'datemode')
    ctx.eq(bk.nsheets, len(models), 'nsheets')
    ctx.eq(bk.sheet_names(), names, 'sheet names')
    xfeq = None
    if v == 20:
        def xfeq(got, want, w):
            x = bk.xf_list[got]
            prot, font, fm, al = want
            b = x.border
            ctx.eq((x.protection.cell_locked, x.protection.formula_hidden, x.font_index, x.format_key, x.alignment.hor_align,
                    b.left_line_style, b.right_line_style, b.top_line_style, b.bottom_line_style, x.background.fill_pattern),
                   (prot & 1, prot >> 1, font, fm, al & 7, (al >> 3) & 1, (al >> 4) & 1, (al >> 5) & 1, (al >> 6) & 1, 17 * (al >> 7)),
                   w + ' attributes of xf %d' % got)
            ctx.eq(x.xf_index, got, w + ' xf_index')
    for i, model in enumerate(models):
        sh = bk.sheet_by_index(i)
        ctx.eq(sh.name, names[i], 'sheet name')
        C1.compare_sheet(sh, model, fmt, case['ragged'], ctx, 'v%d sheet %d ' % (v, i), xfeq)


# ---- forms of the BOF record
def bof_strategy():
    form = st.fixed_dictionaries(dict(n=st.one_of(st.integers(4, 20), st.sampled_from([4, 6, 8, 16, 20])), build=st.one_of(st.sampled_from([2412, 3218, 3321, 0, 4330, 0x0DBB]), st.integers(0, 65535)),
                                      year=st.one_of(st.sampled_from([0, 1993, 1994, 1992, 1996, 65535]), st.integers(0, 65535)), word=st.sampled_from([0, 2, 3, 4, 7, 0x200, 0x300, 0x400, 0x104, 0xFFFF]), modern=st.booleans(), fill=st.integers(0, 255)))
    return st.fixed_dictionaries(dict(v=st.sampled_from([80, 70, 50, 45, 40, 30, 21, 20]), forms=st.lists(form, min_size=1, max_size=3), mode=st.sampled_from([None, 0, 1]), n=st.integers(1, 3), fmt=st.booleans(), on_demand=st.booleans(), wrap=st.booleans(), x=st.floats(-1e9, 1e9)))


def bof_of(v, kind, f):
    """a BOF record of version v; bytes 4-7 (build, year) decide between 5.0 and 7.0 only"""
    n, build, year = f['n'], f['build'], f['year']
    old = (2412, 3218, 3321)
    if v == 70:
        n = max(n, 8)
        if year < 1994:
            year = 1994 + year
        if build in old:
            build += 1
    elif v == 50 and n >= 8 and not (year < 1994 or build in old):
        if f['fill'] & 1:
            year %= 1994
        else:
            build = old[year % 3]
    if v == 80:
        code, word = 0x809, 0x600
    elif v >= 50:
        code, word = 0x809, 0x500
    else:
        lv = 40 if v == 45 else v
        code = {40: 0x409, 30: 0x209, 21: 0x009, 20: 0x009}[lv]
        word = f['word']
        if f['modern']:
            # BIFF2-4 contents under a BIFF5-8 record id, as third-party programs write
            code, word = 0x809, {40: 0x400, 30: 0x300}.get(lv, [0, 7, 0x200][f['fill'] % 3])
    return B.rec(code, (B.P('<HHHH', word, kind, build, year) + bytes([f['fill']] * 12))[:n])


def bof_check(case, ctx):
    v = case['v']
    with ctx.building():
        k = [0]

        def form(biff, kind):
            k[0] += 1
            return bof_of(biff, kind, case['forms'][(k[0] - 1) % len(case['forms'])])
        num = lambda r, c, x: (B.r_number(r, c, 15, x) if v >= 50 else B.r_number(r, c, 0, x) if v >= 30 else L.b2_number(r, c, bytes(3), x))
        glob = B.datemode(case['mode']) if case['mode'] is not None else b''
        n = case['n'] if v >= 45 else 1
        bodies = [num(0, 0, float(i)) + num(3, 2, case['x']) for i in range(n)]
        if v in (30, 40, 45):
            bodies = [L.r_font(min(v, 40)) + L.r_xf(min(v, 40)) + b for b in bodies]
        B.BOF_FORM = L.bof.__globals__['BOF_FORM'] = form
        try:
            if v >= 50:
                data = B.assemble(v, (B.globals8 if v == 80 else B.globals5)(dmode=case['mode']), [dict(name='S%d' % i if v == 80 else b'S%d' % i, body=b) for i, b in enumerate(bodies)])
            elif v == 45:
                data = L.book4w([(b'S%d' % i, b) for i, b in enumerate(bodies)], glob)
            else:
                data = L.sheet(v, glob + bodies[0])
        finally:
            B.BOF_FORM = None
        if case['wrap'] and v >= 50:
            data = ole.wrap(data, 'Workbook' if v == 80 else 'Book')
    ctx.label('v%d' % v, 'modern' if v < 50 and case['forms'][0]['modern'] else 'native')
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fmt'], on_demand=case['on_demand'], logfile=Sink())
    if v in (20, 21):
        ctx.true(bk.biff_version in (20, 21), 'biff_version %r' % bk.biff_version)
    else:
        ctx.eq(bk.biff_version, v, 'biff_version')
    ctx.eq(bk.datemode, case['mode'] or 0, 'datemode')
    ctx.eq(bk.nsheets, n, 'nsheets')
    for i in range(n):
        sh = bk.sheet_by_index(i)
        ctx.eq((sh.nrows, sh.ncols), (4, 3), 'size of sheet %d' % i)
        ctx.eq([(t, x) for r in range(4) for t, x in zip(sh.row_types(r), sh.row_values(r)) if t], [(2, float(i)), (2, case['x'])], 'cells of sheet %d' % i)
    ctx.nt()


SUBS = [Sub('cells', strategy, check, quick=5000, thorough=200000,
            rule='generated cells of every record kind of BIFF2 (with and without XF/IXFE), 3, 4, 4W, 5 and 7 in arbitrary order; '
                 'non-trivial = at least 3 cells of at least 2 kinds'),
    Sub('bof', bof_strategy, bof_check, quick=2000, thorough=50000, rule='every version under BOF records of every length, build, year and (BIFF2-4) record id; all non-trivial'),
]
