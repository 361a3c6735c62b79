"""C13: XF records are decoded field by field in every version."""
import struct

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C13'
USED = ['_format_flag', '_font_flag', '_alignment_flag', '_border_flag', '_background_flag', '_protection_flag']

# (record layout) attribute -> (byte offset, byte size, first bit, width); from the file format documentation
COMMON_TP = lambda o: [('protection.cell_locked', o, 2, 0, 1), ('protection.formula_hidden', o, 2, 1, 1), ('is_style', o, 2, 2, 1),
                       ('lotus_123_prefix', o, 2, 3, 1), ('parent_style_index', o, 2, 4, 12)]
used = lambda o: [(a, o, 1, 2 + i, 1) for i, a in enumerate(USED)]
BRD34 = [('border.top_line_style', 8, 4, 0, 3), ('border.top_colour_index', 8, 4, 3, 5), ('border.left_line_style', 8, 4, 8, 3),
         ('border.left_colour_index', 8, 4, 11, 5), ('border.bottom_line_style', 8, 4, 16, 3), ('border.bottom_colour_index', 8, 4, 19, 5),
         ('border.right_line_style', 8, 4, 24, 3), ('border.right_colour_index', 8, 4, 27, 5)]
BKG34 = [('background.fill_pattern', 6, 2, 0, 6), ('background.pattern_colour_index', 6, 2, 6, 5), ('background.background_colour_index', 6, 2, 11, 5)]
LAYOUT = {
    80: (20, [('font_index', 0, 2, 0, 16), ('format_key', 2, 2, 0, 16)] + COMMON_TP(4) + [
        ('alignment.hor_align', 6, 1, 0, 3), ('alignment.text_wrapped', 6, 1, 3, 1), ('alignment.vert_align', 6, 1, 4, 3),
        ('alignment.rotation', 7, 1, 0, 8), ('alignment.indent_level', 8, 1, 0, 4), ('alignment.shrink_to_fit', 8, 1, 4, 1),
        ('alignment.text_direction', 8, 1, 6, 2)] + used(9) + [
        ('border.left_line_style', 10, 4, 0, 4), ('border.right_line_style', 10, 4, 4, 4), ('border.top_line_style', 10, 4, 8, 4),
        ('border.bottom_line_style', 10, 4, 12, 4), ('border.left_colour_index', 10, 4, 16, 7), ('border.right_colour_index', 10, 4, 23, 7),
        ('border.diag_down', 10, 4, 30, 1), ('border.diag_up', 10, 4, 31, 1),
        ('border.top_colour_index', 14, 4, 0, 7), ('border.bottom_colour_index', 14, 4, 7, 7), ('border.diag_colour_index', 14, 4, 14, 7),
        ('border.diag_line_style', 14, 4, 21, 4), ('background.fill_pattern', 14, 4, 26, 6),
        ('background.pattern_colour_index', 18, 2, 0, 7), ('background.background_colour_index', 18, 2, 7, 7)]),
    50: (16, [('font_index', 0, 2, 0, 16), ('format_key', 2, 2, 0, 16)] + COMMON_TP(4) + [
        ('alignment.hor_align', 6, 1, 0, 3), ('alignment.text_wrapped', 6, 1, 3, 1), ('alignment.vert_align', 6, 1, 4, 3),
        ('ORIENT', 7, 1, 0, 2)] + used(7) + [
        ('background.pattern_colour_index', 8, 4, 0, 7), ('background.background_colour_index', 8, 4, 7, 7), ('background.fill_pattern', 8, 4, 16, 6),
        ('border.bottom_line_style', 8, 4, 22, 3), ('border.bottom_colour_index', 8, 4, 25, 7),
        ('border.top_line_style', 12, 4, 0, 3), ('border.left_line_style', 12, 4, 3, 3), ('border.right_line_style', 12, 4, 6, 3),
        ('border.top_colour_index', 12, 4, 9, 7), ('border.left_colour_index', 12, 4, 16, 7), ('border.right_colour_index', 12, 4, 23, 7)]),
    40: (12, [('font_index', 0, 1, 0, 8), ('format_key', 1, 1, 0, 8)] + COMMON_TP(2) + [
        ('alignment.hor_align', 4, 1, 0, 3), ('alignment.text_wrapped', 4, 1, 3, 1), ('alignment.vert_align', 4, 1, 4, 2),
        ('ORIENT', 4, 1, 6, 2)] + used(5) + BKG34 + BRD34),
    30: (12, [('font_index', 0, 1, 0, 8), ('format_key', 1, 1, 0, 8), ('protection.cell_locked', 2, 1, 0, 1), ('protection.formula_hidden', 2, 1, 1, 1),
              ('is_style', 2, 1, 2, 1), ('lotus_123_prefix', 2, 1, 3, 1)] + used(3) + [
        ('alignment.hor_align', 4, 2, 0, 3), ('alignment.text_wrapped', 4, 2, 3, 1), ('parent_style_index', 4, 2, 4, 12)] + BKG34 + BRD34),
    21: (4, [('font_index', 0, 1, 0, 8), ('format_key', 2, 1, 0, 6), ('protection.cell_locked', 2, 1, 6, 1), ('protection.formula_hidden', 2, 1, 7, 1),
             ('alignment.hor_align', 3, 1, 0, 3), ('LEFT', 3, 1, 3, 1), ('RIGHT', 3, 1, 4, 1), ('TOP', 3, 1, 5, 1), ('BOTTOM', 3, 1, 6, 1), ('SHADED', 3, 1, 7, 1)]),
}
LAYOUT[70] = LAYOUT[50]
LAYOUT[45] = LAYOUT[40]
ALL = sorted(set('protection.cell_locked protection.formula_hidden'.split()) | set(f[0] for v in (80, 50) for f in LAYOUT[v][1]) - {'ORIENT'})
RECCODE = {80: 0xE0, 70: 0xE0, 50: 0xE0, 45: 0x443, 40: 0x443, 30: 0x243, 21: 0x43}
STDKEYS = list(range(0, 50))
NFMT = 20


def pack(v, vals):
    size, fields = LAYOUT[v]
    buf = bytearray(size)
    for name, off, nbytes, bit, width in fields:
        x = int.from_bytes(buf[off:off + nbytes], 'little') | ((vals[name] & ((1 << width) - 1)) << bit)
        buf[off:off + nbytes] = x.to_bytes(nbytes, 'little')
    return bytes(buf)


def strategy():
    def mk(v):
        d = {}
        for name, off, nbytes, bit, width in LAYOUT[v][1]:
            top = (1 << width) - 1
            if name == 'format_key':
                s = st.one_of(st.integers(0, NFMT - 1), st.sampled_from([164 + i for i in range(NFMT)] + [21, 22, 37, 49] if v >= 50 else [0, 1]),
                              st.integers(0, top))
            elif name == 'parent_style_index':
                s = st.one_of(st.integers(0, 3), st.just(top), st.integers(0, top))
            elif width == 1:
                s = st.integers(0, 1)
            else:
                s = st.one_of(st.integers(0, top), st.integers(0, width - 1).map(lambda b: 1 << b), st.sampled_from([0, top]))
            d[name] = s
        return st.fixed_dictionaries(dict(v=st.just(v), xfs=st.lists(st.fixed_dictionaries(d), min_size=1, max_size=8), nf=st.integers(1, NFMT)))
    return st.sampled_from([80, 80, 80, 70, 50, 45, 40, 30, 21]).flatmap(mk)


def expected(v, vals, n, keys, i):
    w = {'alignment.indent_level': 0, 'alignment.shrink_to_fit': 0, 'alignment.text_direction': 0, 'border.diag_up': 0, 'border.diag_down': 0,
         'border.diag_colour_index': 0, 'border.diag_line_style': 0}
    for name, off, nbytes, bit, width in LAYOUT[v][1]:
        w[name] = vals[name] & ((1 << width) - 1)
    if 'ORIENT' in w:
        w['alignment.rotation'] = [0, 255, 90, 180][w.pop('ORIENT')]
    if v == 30:
        w.update({'alignment.vert_align': 2, 'alignment.rotation': 0})
    if v == 21:
        for side in ('left', 'right', 'top', 'bottom'):
            b = w.pop(side.upper())
            w['border.%s_line_style' % side] = 1 if b else 0
            w['border.%s_colour_index' % side] = 8 if b else 0
        w['background.fill_pattern'] = 17 if w.pop('SHADED') else 0
        w.update({'background.background_colour_index': 9, 'background.pattern_colour_index': 8, 'alignment.vert_align': 2, 'alignment.rotation': 0,
                  'alignment.text_wrapped': 0, 'is_style': 0, 'parent_style_index': 0})
        for a in USED:
            w[a] = 1
    if w['format_key'] not in keys:
        w['format_key'] = 0
    if not w['is_style'] and w['parent_style_index'] >= n:
        w['parent_style_index'] = 0
    return w


class Sink:
    def write(self, s):
        pass


STD = set(range(0, 23)) | set(range(27, 63)) | set(range(67, 82))


def build(case):
    v = case['v']
    xfs = case['xfs']
    blob = b''.join(B.rec(RECCODE[v], pack(v, x)) for x in xfs)
    first = 0
    if v >= 50:
        # 16 standard XFs first, as every file has them
        blob = B.std_xfs(v, []) + blob
        first = 16
    nf = case['nf']
    cells = b''
    if v >= 50:
        keys = STD | set(164 + i for i in range(nf))
        if v >= 80:
            glob = B.globals8(formats=[(164 + i, '0.%d' % i) for i in range(nf)], xfs=blob)
            data = B.assemble(80, glob, [dict(name='S', body=B.r_number(0, 0, first, 1.0))])
        else:
            glob = B.globals5(formats=[(164 + i, b'0.%d' % i) for i in range(nf)], xfs=blob)
            data = B.assemble(v, glob, [dict(name=b'S', body=B.r_number(0, 0, first, 1.0))])
    else:
        lv = 40 if v == 45 else v
        keys = set(range(nf))
        pre = L.r_font(lv) + b''.join(L.r_format(lv, b'0.%d' % i) for i in range(nf)) + blob
        pre += B.dimension(lv, 0, 1, 0, 1)
        pre += B.r_number(0, 0, 0, 1.0) if lv >= 30 else L.b2_number(0, 0, L.attr3(xf=0), 1.0)
        data = L.book4w([(b'S', pre)]) if v == 45 else L.sheet(v, pre)
    return data, first, keys


def get(xf, name):
    for part in name.split('.'):
        xf = getattr(xf, part)
    return xf


def check(case, ctx):
    with ctx.building():
        data, first, keys = build(case)
    v = case['v']
    ctx.label('v%d' % v)
    ctx.nt(any(len(set(x.values())) > 3 for x in case['xfs']))
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, logfile=Sink())
    n = first + len(case['xfs'])
    ctx.eq(len(bk.xf_list), n, 'len(xf_list)')
    for i, vals in enumerate(case['xfs']):
        xf = bk.xf_list[first + i]
        ctx.eq(xf.xf_index, first + i, 'xf_index')
        for name, want in expected(v, vals, n, keys, i).items():
            ctx.eq(get(xf, name), want, 'BIFF%d xf %d %s' % (v, first + i, name))
    for part in ('border', 'background', 'alignment', 'protection'):
        l = [getattr(xf, part) for xf in bk.xf_list]
        for a in l[-3:]:
            for b in l[-6:]:
                same = vars(a) == vars(b)
                ctx.true((a == b) is same and (a != b) is (not same), '%s objects with attributes %r and %r: == is %r, != is %r' % (part, vars(a), vars(b), a == b, a != b))
                if a is not b:
                    ctx.label('equal parts' if same else 'unequal parts')


SUBS = [Sub('bits', strategy, check, quick=6000, thorough=200000,
            rule='XF tables with every bit field of BIFF2.1, 3, 4, 4W, 5, 7 and 8 generated independently; non-trivial = an XF with more than 3 distinct field values')]
