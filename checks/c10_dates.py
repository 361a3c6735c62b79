"""C10: a number cell is a date exactly when its number format is a date format."""
from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C10'
DATE = set(range(14, 23)) | set(range(27, 37)) | {45, 46, 47} | set(range(50, 59)) | set(range(71, 82))
KNOWN = DATE | set(range(0, 14)) | set(range(37, 45)) | {48, 49} | set(range(59, 63)) | set(range(67, 71))

# every character that may appear in generated formats is in latin-1, so that one strategy serves all versions
plain = 'abcefgijklnopqrtuvwxzABCEFGIJKLNOPQRTUVWXZ123456789.,%E@!&=^~<>{}\xa3\xe9\xdf\xa5' + '$-+/(): '
anych = st.characters(min_codepoint=32, max_codepoint=255, exclude_categories=['Cc'])
quoted = st.one_of(st.sampled_from(['day', 'yyyy-mm-dd', '0.00', '#', ';', '\\', '[h]', '[', ']', '_', '*', '']),
                   st.text(anych.filter(lambda c: c != '"'), max_size=6)).map(lambda s: ('q', '"' + s + '"'))
esc = st.tuples(st.sampled_from('\\_*'), st.one_of(st.sampled_from('dmyhsDMYHS0#?"[];\\_*'), anych)).map(lambda t: ('e', t[0] + t[1]))
brack = st.one_of(st.sampled_from(['Red', 'Blue', 'Color 3', 'h', 'mm', 'ss', '>=100', '<0', '$-409', '$\xa3-809', 'h0', 'dd', '$a long symbol, ymdhs-409', 'yyyy-mm-dd hh:mm:ss' * 3]),
                  st.text(anych.filter(lambda c: c not in '"\\_*[]'), max_size=5)).map(lambda s: ('b', '[' + s + ']'))
dates = st.tuples(st.sampled_from('ymdhsYMDHS'), st.integers(1, 4)).map(lambda t: ('d', t[0] * t[1]))
ampm = st.sampled_from([('d', 'AM/PM'), ('d', 'am/pm')])
nums = st.one_of(st.sampled_from(['0', '#', '?', '0.00', '#,##0', '0.00E+00', '##0.0E+0', '# ??/??']).map(lambda s: ('n', s)),
                 st.text('0#?', min_size=1, max_size=5).map(lambda s: ('n', s)))
lits = st.text(plain, min_size=1, max_size=3).map(lambda s: ('l', s))
sepr = st.just(('s', ';'))
gen = st.sampled_from([('g', 'General'), ('g', 'GENERAL'), ('g', 'general'), ('g', '@')])
noise = [quoted, quoted, esc, brack, lits]
fmts = st.one_of(
    st.tuples(st.lists(st.one_of(dates, *noise), max_size=4), dates, st.lists(st.one_of(dates, sepr, *noise), max_size=4)).map(lambda t: t[0] + [t[1]] + t[2]),
    st.tuples(st.lists(st.one_of(dates, *noise), max_size=4), dates, st.lists(st.one_of(dates, sepr, *noise), max_size=4)).map(lambda t: t[0] + [t[1]] + t[2]),
    st.lists(st.one_of(nums, nums, sepr, *noise), max_size=7),
    st.lists(st.one_of(dates, nums, ampm, sepr, *noise), max_size=8),
    st.lists(st.one_of(dates, nums, sepr, gen, *noise), max_size=8),
    st.tuples(st.lists(st.one_of(*noise), min_size=1, max_size=4), st.integers(2, 20), st.lists(st.one_of(dates, nums), min_size=1, max_size=3)).map(lambda t: t[0] * t[1] + t[2]),
    st.lists(st.one_of(gen, sepr, *noise), max_size=5),
    st.lists(st.one_of(*noise), max_size=5),
    st.tuples(quoted, gen, quoted).map(list),
)


def is_date(toks):
    """reference classification, from the token structure"""
    d = n = 0
    for k, s in toks:
        if k in 'dnlg':
            d += sum(c in 'ymdhsYMDHS' for c in s)
            n += sum(c in '0#?' for c in s)
    return d > n


def strategy():
    key = st.one_of(st.integers(164, 400), st.integers(0, 163), st.sampled_from(sorted(KNOWN)), st.sampled_from([164, 0xFFFF, 0x7FFF, 255, 256, 63, 64]))

    def mk(v):
        return st.fixed_dictionaries(dict(
            v=st.just(v), fmts=st.lists(st.tuples(key, fmts), min_size=1, max_size=14),
            xfs=st.lists(st.tuples(st.integers(0, 200), st.one_of(st.none(), st.none(), st.integers(0, 170))), min_size=1, max_size=14),
            cells=st.lists(st.tuples(st.sampled_from(['num', 'num', 'rk', 'mulrk', 'fnum', 'int', 'label', 'bool', 'err', 'fstr', 'fbool', 'ferr', 'blank']),
                                     st.integers(0, 100), S.numbers, S.rk_ints), min_size=1, max_size=14),
            fi=st.booleans(), nofmt=st.sampled_from([False] * 7 + [True]), dim=st.booleans()))
    return st.sampled_from([80, 80, 80, 50, 70, 45, 40, 30, 21, 20]).flatmap(mk)


def build(case):
    v = case['v']
    if v >= 50:
        table = {}
        for k, toks in case['fmts']:
            if v < 80 and sum(len(s) for _, s in toks) > 255:
                continue          # a byte holds the length
            if k == 0 and is_date(toks):
                continue          # General (0) also stands for the formats a file does not define
            table.setdefault(k, toks)
        want = {k: is_date(t) for k, t in table.items()}
        keys = list(table) or [0]
        cells = [(0, ks[1]) if ks[1] is not None else (0, keys[ks[0] % len(keys)]) for ks in case['xfs']]
        dates = [want[k] if k in want else k in DATE for _, k in cells]
        first = 16
    else:
        toks = [t for _, t in case['fmts'] if sum(len(s) for _, s in t) < 256] or [[('n', '0')]]
        table = dict(enumerate(toks))
        want = {i: is_date(t) for i, t in table.items()}
        cells = [(0, ks[0] % len(toks)) for ks in case['xfs']]
        dates = [want[k] for _, k in cells]
        if case['nofmt']:
            # no FORMAT records at all: nothing is a date
            table, want, dates = {}, {}, [False] * len(cells)
        first = 0
    strs = {k: ''.join(s for _, s in t) for k, t in table.items()}
    recs = []
    model = {}
    for r, (kind, sel, x, rk) in enumerate(case['cells']):
        i = sel % len(cells)
        xf = first + i
        isd = 3 if dates[i] else 2
        if v <= 21:
            if v == 21:
                a = L.attr3(xf=xf)
            else:
                a = L.attr3(fmt=cells[i][1])
            table2 = {
                'num': lambda: (L.b2_number(r, 0, a, x), isd, x), 'int': lambda: (L.b2_integer(r, 0, a, sel), isd, float(sel)),
                'fnum': lambda: (B.r_formula2(r, 0, a, B.fres_num(x)), isd, x), 'label': lambda: (L.b2_label(r, 0, a, b'txt'), 1, 'txt'),
                'bool': lambda: (L.b2_boolerr(r, 0, a, 1, 0), 4, 1), 'err': lambda: (L.b2_boolerr(r, 0, a, 7, 1), 5, 7),
                'fstr': lambda: (B.r_formula2(r, 0, a, B.fres_str()) + L.b2_string(b'q'), 1, 'q'),
                'fbool': lambda: (B.r_formula2(r, 0, a, B.fres_bool(0)), 4, 0), 'ferr': lambda: (B.r_formula2(r, 0, a, B.fres_err(42)), 5, 42),
                'blank': lambda: (L.b2_blank(r, 0, a), 6, '')}
            f = table2.get(kind) or table2['num']
            d, ty, val = f()
            recs.append(d)
            model[(r, 0)] = (ty, val)
            continue
        if kind == 'mulrk' and v >= 50:
            j = (i + 1) % len(cells)
            recs.append(B.r_mulrk(r, 0, [(xf, rk), (first + j, rk)]))
            model[(r, 0)] = (isd, B.rk_value(rk))
            model[(r, 1)] = (3 if dates[j] else 2, B.rk_value(rk))
            continue
        f = {'rk': lambda: (B.r_rk(r, 0, xf, rk), isd, B.rk_value(rk)), 'fnum': lambda: (B.r_formula(v, r, 0, xf, B.fres_num(x)), isd, x),
             'label': lambda: (B.r_label8(r, 0, xf, 'txt') if v >= 80 else B.r_label5(r, 0, xf, b'txt'), 1, 'txt'),
             'bool': lambda: (B.r_boolerr(r, 0, xf, 1, 0), 4, 1), 'err': lambda: (B.r_boolerr(r, 0, xf, 7, 1), 5, 7),
             'fstr': lambda: (B.r_formula(v, r, 0, xf, B.fres_str()) + (B.r_string8('q') if v >= 80 else L.r_string5(b'q')), 1, 'q'),
             'fbool': lambda: (B.r_formula(v, r, 0, xf, B.fres_bool(0)), 4, 0), 'ferr': lambda: (B.r_formula(v, r, 0, xf, B.fres_err(42)), 5, 42),
             'blank': lambda: (B.r_blank(r, 0, xf), 6, '')}.get(kind) or (lambda: (B.r_number(r, 0, xf, x), isd, x))
        d, ty, val = f()
        recs.append(d)
        model[(r, 0)] = (ty, val)
    body = b''.join(recs)
    if case['dim']:
        body = B.dimension(40 if v == 45 else v, 0, len(recs), 0, 2) + body
    if v >= 80:
        glob = B.globals8(formats=list(strs.items()), xfs=B.std_xfs(80, cells))
        data = B.assemble(80, glob, [dict(name='S', body=body)])
    elif v >= 50:
        glob = B.globals5(formats=[(k, s.encode('latin-1')) for k, s in strs.items()], xfs=B.std_xfs(50, cells), cp=None)
        data = B.assemble(v, glob, [dict(name=b'S', body=body)])
    else:
        lv = 40 if v == 45 else v
        pre = b''.join(L.r_format(lv, strs[k].encode('latin-1')) for k in sorted(strs))
        if v != 20:
            pre += b''.join(L.r_xf(lv, fmt=k) for _, k in cells)
        if v == 45:
            data = L.book4w([(b'S', pre + body)])
        else:
            data = L.sheet(v, L.r_font(v) + pre + body)
    return data, model, strs, want


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data, model, strs, want = build(case)
    v = case['v']
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fi'], logfile=Sink())
    kinds = set(k for _, t in case['fmts'] for k, _ in t)
    ctx.label('v%d' % v, *['tok:' + k for k in kinds])
    if any(m[0] == 3 for m in model.values()):
        ctx.label('has-date')
    ctx.nt(len(kinds) >= 2 and any(m[0] in (2, 3) for m in model.values()))
    sh = bk.sheet_by_index(0)
    for (r, c), (ty, val) in model.items():
        if ty == 6 and not case['fi']:
            continue
        ctx.eq(sh.cell_type(r, c), ty, 'type of cell (%d,%d) formats %r' % (r, c, strs))
        ctx.eq(sh.cell_value(r, c), val, 'value of cell (%d,%d)' % (r, c))
    for k, s in strs.items():
        ctx.eq(bk.format_map[k].format_str, s, 'format_map[%d]' % k)
        ctx.eq(bk.format_map[k].type == 1, want[k], 'format_map[%d].type is FDT for %r' % (k, s))


SUBS = [Sub('formats', strategy, check, quick=6000, thorough=150000,
            rule='workbooks of every BIFF version with generated format strings (quoted, escaped, padding, fill, bracketed, date, digit, '
                 'literal tokens) and built-in codes; non-trivial = at least 2 token kinds and a numeric cell')]
