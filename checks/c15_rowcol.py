"""C15: row, column and cell formatting is resolved by the documented hierarchy."""
from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C15'
NXF = 70        # extra XFs (sometimes many more)


def strategy():
    def mk(p):
        v, nxf = p
        xf = st.one_of(st.integers(0, 40), st.sampled_from([15, 63, 64, 69]))
        if nxf > NXF:
            xf = st.one_of(xf, st.integers(0, nxf), st.sampled_from([k for k in (127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4000) if k <= nxf]))
        rmax = 16383 if v < 80 else 65535
        r = st.one_of(st.integers(0, 7), st.integers(0, 7), st.integers(0, 7), st.sampled_from([8, 9, rmax, rmax + 1 if v < 80 else 31]))
        c = st.one_of(st.integers(0, 7), st.integers(0, 7), st.sampled_from([8, 254, 255]))
        row = st.fixed_dictionaries(dict(r=r, height=st.integers(0, 0x7FFF), dflt=st.integers(0, 1), lev=st.integers(0, 7), grp=st.integers(0, 1),
                                         hid=st.integers(0, 1), mis=st.integers(0, 1), has=st.integers(0, 1), xf=xf, above=st.integers(0, 1), below=st.integers(0, 1),
                                         junk=st.sampled_from([0, 1]), kind=st.integers(0, 2), al=st.integers(0, 255),
                                         like=st.none() | st.none() | st.tuples(st.integers(0, 7), st.integers(0, 15), st.integers(0, 5))))
        col = st.fixed_dictionaries(dict(a=c, n=st.one_of(st.integers(1, 4), st.sampled_from([1, 256])), width=st.one_of(st.integers(0, 65535), st.just(0)), xf=xf,
                                         flags=st.one_of(st.integers(0, 0x1FFF), st.sampled_from([0, 1, 2, 0x100, 0x200, 0x400, 0x1000])), over=st.booleans(),
                                         kind=st.integers(0, 1), al=st.integers(0, 255)))
        cell = st.tuples(st.integers(0, 9), st.one_of(st.integers(0, 8), st.integers(0, 8), st.just(255)), xf, st.integers(0, 3))
        part = st.fixed_dictionaries(dict(
            v=st.just(v), rows=st.lists(row, max_size=8), cols=st.lists(col, max_size=5), cells=st.lists(cell, max_size=8),
            order=st.permutations(range(3)), gcw=st.none() | st.lists(st.integers(0, 255), max_size=12), gcwinv=st.booleans(),
            std=st.none() | st.integers(0, 65535), dcw=st.none() | st.integers(0, 255),
            probe=st.lists(st.integers(0, 255), max_size=4)))
        return st.fixed_dictionaries(dict(v=st.just(v), nxf=st.just(nxf), ragged=st.booleans(), on_demand=st.booleans(),
                                          parts=st.lists(part, min_size=1, max_size=3 if v >= 45 else 1)))
    return st.tuples(st.sampled_from([80, 80, 70, 50, 40, 45, 30, 21, 20]), st.integers(0, 29), st.integers(0, 1)).map(lambda t: (t[0], [600, 4050][t[2]] if t[1] < (8 if t[0] == 21 else 2) else NXF)).flatmap(mk)


def b2attr(v, x, al):
    """BIFF2 cell attributes standing for XF number x -> (records before, attr, expectation)"""
    if v == 21:
        if x >= 63 or al & 1:
            return L.ixfe(x), L.attr3(xf=63), x
        return b'', L.attr3(xf=x), x
    prot, font, fmt = x & 3, (x >> 2) & 3, x % 5
    return b'', L.attr3(prot=prot, font=font, fmt=fmt, align=al), (prot, font, fmt, al)


def build_sheet(case):
    """-> (bytes of the three groups, model)"""
    v = case['v']
    rows, cols, cells = {}, {}, {}
    out = [b'', b'', b'']
    xfb = 0
    for q in case['cols']:
        last = min(q['a'] + q['n'] - 1, 255)
        if v >= 30:
            wr = 256 if q['over'] and last == 255 else last
            out[0] += B.rec(0x7D, B.P('<HHHHHH', q['a'], wr, q['width'], q['xf'], q['flags'], 0))
            for c in range(q['a'], last + 1):
                cols[c] = dict(width=q['width'], xf_index=q['xf'], hidden=q['flags'] & 1, bit1_flag=(q['flags'] >> 1) & 1,
                               outline_level=(q['flags'] >> 8) & 7, collapsed=(q['flags'] >> 12) & 1)
        elif q['kind']:
            out[0] += B.rec(0x24, B.P('<BBH', q['a'], last, q['width']))
            for c in range(q['a'], last + 1):
                cols.setdefault(c, dict(width=0, xf_index=-1))['width'] = q['width']
        else:
            if last - q['a'] > 20:
                last = q['a'] + 20
            pre, a, w = b2attr(v, q['xf'], q['al'])
            out[0] += pre + B.rec(0x20, B.P('<HH', q['a'], last + 1) + a * (last - q['a'] + 1) + B.P('<H', 0))
            for c in range(q['a'], last + 1):
                cols.setdefault(c, dict(width=0, xf_index=-1))['xf_index'] = w
    limit = 65536 if v >= 80 else 16384
    made = []
    for q in case['rows']:
        b1 = q['height'] | (q['dflt'] << 15)
        q = dict(q)
        if q['like'] is not None and made:
            # almost the same as an earlier row
            i, bit, how = q['like']
            o = made[i % len(made)]
            b1 = o['b1']
            for k in 'lev grp hid mis has xf above below junk'.split():
                q[k] = o[k]
            if how in (0, 1):
                b1 ^= 1 << bit
            if how in (1, 2):
                q['xf'] = min(q['xf'] ^ (1 << bit), case['nxf']) if 1 << bit < 0x1000 else q['xf']
            elif how == 3:
                k = 'grp hid mis has above below'.split()[bit % 6]
                q[k] ^= 1
            elif how == 4:
                q['lev'] = bit & 7
            q['height'], q['dflt'] = b1 & 0x7FFF, b1 >> 15
        q['b1'] = b1
        made.append(q)
        if v >= 30:
            b2 = q['lev'] | (q['grp'] << 4) | (q['hid'] << 5) | (q['mis'] << 6) | (q['has'] << 7) | (q['xf'] << 16) | (q['above'] << 28) | (q['below'] << 29)
            if q['junk']:
                b2 |= 0xC0000100
            out[1] += B.rec(0x208, B.P('<HHHHHHI', q['r'], 0, 256, b1, 0, 0, b2))
            if q['r'] < limit:
                rows[q['r']] = dict(height=q['height'], has_default_height=q['dflt'], outline_level=q['lev'], outline_group_starts_ends=q['grp'],
                                    hidden=q['hid'], height_mismatch=q['mis'], has_default_xf_index=q['has'], xf_index=q['xf'] if q['has'] else -1,
                                    additional_space_above=q['above'], additional_space_below=q['below'])
        else:
            d = B.P('<HHHHHB', q['r'], 0, 256, b1, 0, q['has'])
            pre = b''
            w = -1
            if not q['has']:
                if q['kind']:
                    d += B.P('<H', 0)
            elif q['kind'] == 2 and v == 21:
                d += B.P('<H', 0) + b'\x3f\x00\x00' + B.P('<H', q['xf'])
                w = q['xf']
            else:
                pre, a, w = b2attr(v, q['xf'], q['al'])
                d += B.P('<H', 0) + a
            out[1] += pre + B.rec(0x08, d)
            if q['r'] < limit:
                rows[q['r']] = dict(height=q['height'], has_default_height=q['dflt'], has_default_xf_index=q['has'], xf_index=w)
    for r, c, x, kind in case['cells']:
        if (r, c) in cells:
            continue
        if v <= 21:
            pre, a, w = b2attr(v, x, (x * 7) & 0xFF)
            out[2] += pre + [L.b2_number(r, c, a, 1.5), L.b2_blank(r, c, a), L.b2_label(r, c, a, b'x'), L.b2_boolerr(r, c, a, 1, 0)][kind]
        else:
            w = x
            lab = B.r_label8(r, c, x, 'x') if v >= 80 else B.r_label5(r, c, x, b'x')
            out[2] += [B.r_number(r, c, x, 1.5), B.r_blank(r, c, x), lab, B.r_boolerr(r, c, x, 1, 0)][kind]
        cells[(r, c)] = (w, [2, 6, 1, 4][kind])
    extra = b''
    gcw = None
    if case['dcw'] is not None:
        extra += B.rec(0x55, B.P('<H', case['dcw']))
    if v >= 40:
        if case['std'] is not None:
            extra += B.rec(0x99, B.P('<H', case['std']))
        if case['gcw'] is not None and v < 80:
            bits = set(case['gcw'])
            if case['gcwinv']:
                bits = set(range(256)) - bits
            gcw = bits
            n = sum(1 << b for b in bits)
            extra += B.rec(0xAB, b'\x20\x00' + n.to_bytes(32, 'little'))
    body = extra + b''.join(out[i] for i in case['order'])
    return body, rows, cols, cells, gcw


def wrap(case, bodies):
    v = case['v']
    if v >= 50:
        xfs = B.std_xfs(v, [(0, 0)] * case['nxf'])
        if v >= 80:
            glob = B.globals8(xfs=xfs)
            sheets = [dict(name='S%d' % i, body=b) for i, b in enumerate(bodies)]
        else:
            glob = B.globals5(xfs=xfs)
            sheets = [dict(name=b'S%d' % i, body=b) for i, b in enumerate(bodies)]
        return B.assemble(v, glob, sheets)
    lv = 40 if v == 45 else v
    pre = L.r_font(lv) * 4 + b''.join(L.r_format(lv, f) for f in (b'General', b'0', b'0.0', b'0.00', b'#'))
    if v != 20:
        pre += L.r_xf(lv) * (case['nxf'] + 16)
    return L.book4w([(b'S%d' % i, pre + b) for i, b in enumerate(bodies)]) if v == 45 else L.sheet(v, pre + bodies[0])


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    v = case['v']
    with ctx.building():
        built = [build_sheet(dict(p, nxf=case['nxf'])) for p in case['parts']]
        data = wrap(case, [b[0] for b in built])
    ctx.label('v%d' % v, 'xfs:%d' % case['nxf'], 'sheets:%d' % len(built))
    ctx.nt(any(rows and cols and cells for _, rows, cols, cells, _ in built))
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, ragged_rows=case['ragged'], on_demand=case['on_demand'], logfile=Sink())
    if case['on_demand']:
        for sx in reversed(range(len(built))):
            bk.sheet_by_index(sx)
    for sx, (p, b) in enumerate(zip(case['parts'], built)):
        check_sheet(p, b, bk, bk.sheet_by_index(sx), v, ctx)
    # without formatting_info the features are refused
    bk2 = xlrd.open_workbook(file_contents=data, logfile=Sink())
    for s2 in bk2:
        ctx.eq((s2.rowinfo_map, s2.colinfo_map), ({}, {}), 'row/column info without formatting_info')
        for f in (lambda: s2.cell_xf_index(0, 0), lambda: s2.computed_column_width(0)):
            try:
                f()
            except xlrd.XLRDError:
                continue
            ctx.true(False, 'formatting query answered without formatting_info')


def check_sheet(case, built, bk, sh, v, ctx):
    body, rows, cols, cells, gcw = built

    def same(got, want, w):
        if type(want) is tuple:
            x = bk.xf_list[got]
            prot, font, fm, al = want
            b = x.border
            got = (x.protection.cell_locked, x.protection.formula_hidden, x.font_index, x.format_key, x.alignment.hor_align, b.left_line_style,
                   b.right_line_style, b.top_line_style, b.bottom_line_style, x.background.fill_pattern)
            want = (prot & 1, prot >> 1, font, fm, al & 7, (al >> 3) & 1, (al >> 4) & 1, (al >> 5) & 1, (al >> 6) & 1, 17 * (al >> 7))
        ctx.eq(got, want, w)

    ctx.eq(sorted(sh.rowinfo_map), sorted(rows), 'rows in rowinfo_map')
    for r, d in rows.items():
        for k, x in d.items():
            same(getattr(sh.rowinfo_map[r], k), x, 'rowinfo_map[%d].%s' % (r, k))
    ctx.eq(sorted(sh.colinfo_map), sorted(cols), 'columns in colinfo_map')
    for c, d in cols.items():
        for k, x in d.items():
            same(getattr(sh.colinfo_map[c], k), x, 'colinfo_map[%d].%s' % (c, k))
    used = set()
    for r in range(sh.nrows):
        for c in range(sh.row_len(r)):
            if (r, c) in cells:
                want, via = cells[(r, c)][0], 'own'
                ctx.eq(sh.cell_type(r, c), cells[(r, c)][1], 'type of cell (%d,%d)' % (r, c))
            elif r in rows and rows[r]['xf_index'] != -1:
                want, via = rows[r]['xf_index'], 'row'
            elif c in cols:
                want, via = cols[c]['xf_index'], 'col'
                if want == -1:
                    want = 15
            else:
                want, via = 15, 'default'
            used.add(via)
            same(sh.cell_xf_index(r, c), want, 'cell_xf_index(%d,%d) [%s]' % (r, c, via))
            if c < 12 and sh.cell_xf_index(r - sh.nrows, c - sh.row_len(r)) != sh.cell_xf_index(r, c):
                ctx.eq(sh.cell_xf_index(r - sh.nrows, c - sh.row_len(r)), sh.cell_xf_index(r, c),
                       'cell_xf_index with negative indices for (%d,%d)' % (r, c))
            if via == 'own':
                same(sh.cell(r, c).xf_index, want, 'cell(%d,%d).xf_index' % (r, c))
    ctx.label(*['xf-from:' + u for u in used])
    if v >= 30:
        for c in set(case['probe']) | set(range(9)) | {254, 255}:
            ci = cols.get(c)
            want = None
            if v >= 80:
                want = ci['width'] if ci else case['std']
            elif v >= 40:
                if gcw and c in gcw:
                    want = case['std']
                elif ci:
                    want = ci['width']
            elif ci:
                want = ci['width']
            if want is None:
                want = 256 * (8 if case['dcw'] is None else case['dcw'])
            ctx.eq(sh.computed_column_width(c), want, 'computed_column_width(%d)' % c)
        ctx.eq(sh.defcolwidth, case['dcw'], 'defcolwidth')
        if v >= 40:
            ctx.eq(sh.standardwidth, case['std'], 'standardwidth')
            ctx.eq(tuple(sh.gcw), tuple(int(bool(gcw) and i in gcw) for i in range(256)), 'gcw')


SUBS = [Sub('hierarchy', strategy, check, quick=4000, thorough=100000,
            rule='random ROW, COLINFO (COLWIDTH/COLUMNDEFAULT in BIFF2), GCW, width and cell records in any order; non-trivial = rows, columns and cells all present')]
