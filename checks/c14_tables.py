"""C14: fonts, number formats, palette and styles are reported as stored."""
from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C14'


def _pal(s):
    return [tuple(bytes.fromhex(x)) for x in s.split()]


# default palettes (colour indexes 8 onwards), as documented for Excel 97+ and Excel 5
PAL8 = _pal("""
    000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF
    800000 008000 000080 808000 800080 008080 C0C0C0 808080
    9999FF 993366 FFFFCC CCFFFF 660066 FF8080 0066CC CCCCFF
    000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF
    00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC CC99FF FFCC99
    3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696
    003366 339966 003300 333300 993300 993366 333399 333333
""")
PAL5 = _pal("""
    000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF
    800000 008000 000080 808000 800080 008080 C0C0C0 808080
    9999FF 993366 FFFFCC CCFFFF 660066 FF8080 0066CC CCCCFF
    000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF
    00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC CC99FF E3E3E3
    3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696
    003366 339966 003300 333300 993300 993366 333399 333333
""")
FIXED = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (255, 0, 255), (0, 255, 255)]
STDSTR = {0: 'General', 1: '0', 2: '0.00', 3: '#,##0', 4: '#,##0.00', 5: '$#,##0_);($#,##0)', 6: '$#,##0_);[Red]($#,##0)', 7: '$#,##0.00_);($#,##0.00)', 8: '$#,##0.00_);[Red]($#,##0.00)', 9: '0%', 10: '0.00%', 11: '0.00E+00', 12: '# ?/?', 13: '# ??/??', 14: 'm/d/yy', 15: 'd-mmm-yy', 16: 'd-mmm', 17: 'mmm-yy', 18: 'h:mm AM/PM', 19: 'h:mm:ss AM/PM', 20: 'h:mm', 21: 'h:mm:ss', 22: 'm/d/yy h:mm', 37: '#,##0_);(#,##0)', 38: '#,##0_);[Red](#,##0)', 39: '#,##0.00_);(#,##0.00)', 40: '#,##0.00_);[Red](#,##0.00)', 41: '_(* #,##0_);_(* (#,##0);_(* "-"_);_(@_)', 42: '_($* #,##0_);_($* (#,##0);_($* "-"_);_(@_)', 43: '_(* #,##0.00_);_(* (#,##0.00);_(* "-"??_);_(@_)', 44: '_($* #,##0.00_);_($* (#,##0.00);_($* "-"??_);_(@_)', 45: 'mm:ss', 46: '[h]:mm:ss', 47: 'mm:ss.0', 48: '##0.0E+0', 49: '@'}
STDKEYS = set(range(0, 23)) | set(range(27, 63)) | set(range(67, 82))
BUILTIN = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent', 'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink']
LATIN = st.text(st.characters(min_codepoint=32, max_codepoint=255, exclude_categories=['Cc']), max_size=10)


def strategy():
    def mk(v):
        txt = S.texts(10) if v >= 80 else LATIN
        txt = st.one_of(txt, txt, txt, st.tuples(txt, st.sampled_from([' ', '  ', '\0', '\xa0'])).map(lambda t: t[0] + t[1]), st.tuples(st.just(' '), txt).map(''.join))
        long = st.one_of(txt, txt, txt, st.tuples(S.texts(3, 1), st.sampled_from([254, 255, 256, 257, 300, 600])).map(lambda t: (t[0] * t[1])[:t[1]]) if v >= 80 else st.text('aZ\xe9', min_size=240, max_size=255))
        byte = st.integers(0, 255)
        opt = st.one_of(st.integers(0, 63), st.integers(0, 5).map(lambda b: 1 << b))
        colour = st.one_of(st.integers(0, 63), st.just(0x7FFF), S.u16)
        font = st.fixed_dictionaries(dict(h=S.u16, o=opt, c=colour, w=st.one_of(st.integers(100, 1000), S.u16), e=st.integers(0, 2),
                                          u=st.sampled_from([0, 1, 2, 0x21, 0x22]), fam=byte, cs=byte, name=txt))
        key = st.one_of(st.integers(164, 400), st.integers(0, 163), S.u16)
        style = st.one_of(st.tuples(st.just('b'), st.integers(0, len(BUILTIN) - 1), st.one_of(st.integers(0, 6), st.integers(0, 254)), st.integers(0, 0xFFF)),
                          st.sampled_from([('z', 0, 0, 0), ('b', 0, 0, 0)]),
                          st.tuples(st.just('u'), long.filter(bool), st.integers(0, 15), st.integers(0, 0xFFF)))
        pal = st.one_of(st.none(), st.lists(st.tuples(byte, byte, byte, st.sampled_from([0, 0, 255])), min_size=4, max_size=8).flatmap(
            lambda cs: st.tuples(st.just(cs), st.sampled_from([16, 56] if v >= 50 else [16, 16, 8]), st.integers(0, 1).map(lambda x: 4 * x))))
        sheet = st.fixed_dictionaries(dict(fonts=st.lists(font, min_size=1, max_size=8), formats=st.lists(st.tuples(key, long), min_size=1, max_size=6),
                                           styles=st.lists(style, max_size=5), pal=pal))
        return st.fixed_dictionaries(dict(v=st.just(v), cp=st.just(0) if v >= 80 else st.sampled_from([0, 0, 437, 866, 1256, 10000, 10007]), wide=st.sampled_from([None, True]),
                                          sheets=st.lists(sheet, min_size=1, max_size=3 if v == 45 else 1), efont=st.lists(S.u16, min_size=8, max_size=8)))
    return st.sampled_from([80, 80, 80, 70, 50, 45, 45, 40, 30, 21]).flatmap(mk)


CODECS = {0: 'latin-1', 1252: 'cp1252', 437: 'cp437', 866: 'cp866', 1256: 'cp1256', 10000: 'mac_roman', 10007: 'mac_cyrillic'}


def enc(t):
    return t.encode('latin-1')


def dec(case, t):
    """what the bytes enc(t) mean in the workbook's code page"""
    return t if case['v'] >= 80 or not case['cp'] else enc(t).decode(CODECS[case['cp']])


def records(v, sh, w, efont):
    """-> fonts, formats, styles, palette as bytes"""
    lv = 40 if v == 45 else v
    fonts = b''
    for i, f in enumerate(sh['fonts']):
        if v >= 80:
            fonts += B.font8(f['name'], f['h'], f['o'], f['c'], f['w'], f['e'], f['u'], f['fam'], f['cs'], w)
        elif v >= 50:
            fonts += B.font5(enc(f['name']), f['h'], f['o'], f['c'], f['w'], f['e'], f['u'], f['fam'], f['cs'])
        else:
            fonts += L.r_font(lv, enc(f['name']), f['h'], f['o'], f['c'])
            if v <= 21 and efont[i] & 1:
                fonts += B.rec(0x45, B.P('<H', efont[i]))
    formats = b''
    for k, s in sh['formats']:
        formats += B.format8(k, s, w) if v >= 80 else B.format5(k, enc(s)) if v >= 50 else L.r_format(lv, enc(s))
    styles = b''
    if v >= 30:
        for kind, a, b, xf in sh['styles']:
            if kind == 'z':         # a defective record of some writers: "Normal" without the built-in flag
                styles += B.rec(0x293, B.P('<HBB', 0, 0, 0))
            elif kind == 'b':
                styles += B.rec(0x293, B.P('<HBB', xf | 0x8000, a, b if a in (1, 2) else 255))
            else:
                styles += B.rec(0x293, B.P('<H', xf) + (B.ustr(a, 2, w) if v >= 80 else B.bstr(enc(a), 1)))
    pal = b''
    if sh['pal'] and v >= 30:
        cs, n, slack = sh['pal']
        pal = B.rec(0x92, B.P('<H', n) + b''.join(bytes(cs[i % len(cs)]) for i in range(n)) + b'\0' * slack)
    return fonts, formats, styles, pal


def build(case):
    v = case['v']
    shs = case['sheets'] if v == 45 else case['sheets'][:1]
    parts = [records(v, sh, case['wide'], case['efont']) for sh in shs]
    if v >= 50:
        fonts, formats, styles, pal = parts[0]
        if v >= 80:
            glob = B.codepage(1200) + fonts + formats + B.std_xfs(80, []) + styles + pal
            return B.assemble(80, glob, [dict(name='S', body=b'')])
        glob = B.codepage(1252) + fonts + formats + B.std_xfs(50, []) + styles + pal
        if case['cp']:
            return B.assemble(v, glob.replace(B.codepage(1252), B.codepage(case['cp']), 1), [dict(name=b'S', body=b'')])
        return B.assemble(v, B.datemode(0) + glob.replace(B.codepage(1252), b'', 1), [dict(name=b'S', body=b'')])
    lv = 40 if v == 45 else v
    bodies = []
    for fonts, formats, styles, pal in parts:
        bodies.append((B.codepage(case['cp']) if case['cp'] else b'') + fonts + formats + L.r_xf(lv) + styles + pal + B.dimension(lv, 0, 0, 0, 0))
    if v == 45:
        return L.book4w([(b'S%d' % i, b) for i, b in enumerate(bodies)])
    return L.sheet(v, bodies[0])


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data = build(case)
    v = case['v']
    sh = case['sheets'][-1] if v == 45 else case['sheets'][0]
    ctx.label('v%d' % v, 'palette' if sh['pal'] else 'no-palette', 'fonts>4' if len(sh['fonts']) > 4 else 'fonts<=4')
    shfmts = [(k, dec(case, s)) for k, s in sh['formats']]
    ctx.nt(len(sh['fonts']) > 1 and (len(sh['styles']) > 0 or sh['pal'] is not None))
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, logfile=Sink())
    # ---- fonts
    n = len(sh['fonts'])
    ctx.eq(len(bk.font_list), n + (1 if n > 4 else 0), 'len(font_list)')
    for i, f in enumerate(sh['fonts']):
        k = i + (i >= 4)
        g = bk.font_list[k]
        want = dict(font_index=k, height=f['h'], bold=f['o'] & 1, italic=(f['o'] >> 1) & 1, underlined=(f['o'] >> 2) & 1, struck_out=(f['o'] >> 3) & 1, name=dec(case, f['name']))
        if v >= 50:
            want.update(colour_index=f['c'], weight=f['w'], escapement=f['e'], underline_type=f['u'], family=f['fam'], character_set=f['cs'],
                        outline=(f['o'] >> 4) & 1, shadow=(f['o'] >> 5) & 1)
        elif v >= 30:
            want.update(colour_index=f['c'], outline=(f['o'] >> 4) & 1, shadow=(f['o'] >> 5) & 1, weight=700 if f['o'] & 1 else 400,
                        escapement=0, underline_type=(f['o'] >> 2) & 1)
        else:
            want.update(colour_index=case['efont'][i] if case['efont'][i] & 1 else 0x7FFF, weight=700 if f['o'] & 1 else 400, underline_type=(f['o'] >> 2) & 1)
        for a, x in want.items():
            ctx.eq(getattr(g, a), x, 'font %d %s' % (k, a))
    # ---- formats
    if v >= 50:
        want = dict(shfmts)
        keys = STDKEYS | set(want)
        ctx.eq(sorted(bk.format_map), sorted(keys), 'format_map keys')
        for k in keys:
            if k in want:
                ctx.eq(bk.format_map[k].format_str, want[k], 'format_map[%d]' % k)
            else:
                ctx.eq(bk.format_map[k].format_str, STDSTR.get(k), 'built-in format %d' % k)
            ctx.eq(bk.format_map[k].format_key, k, 'format_map[%d].format_key' % k)
        ctx.eq([(x.format_key, x.format_str) for x in bk.format_list], shfmts, 'format_list')
    else:
        got = {k: x.format_str for k, x in bk.format_map.items()}
        ctx.eq(got, {i: s for i, (_, s) in enumerate(shfmts)}, 'format_map')
        ctx.eq([(x.format_key, x.format_str) for x in bk.format_list], [(i, s) for i, (_, s) in enumerate(shfmts)], 'format_list')
    # ---- palette
    cm = {i: c for i, c in enumerate(FIXED)}
    dflt = PAL8 if v >= 80 else PAL5 if v >= 50 else PAL5[:16]
    cm.update({8 + i: c for i, c in enumerate(dflt)})
    rec = []
    if sh['pal'] and v >= 30:
        cs, npal, _ = sh['pal']
        rec = [tuple(cs[i % len(cs)][:3]) for i in range(npal)]
        cm.update({8 + i: c for i, c in enumerate(rec)})
    ctx.eq([tuple(c) for c in bk.palette_record], rec, 'palette_record')
    for i, c in cm.items():
        ctx.true(i in bk.colour_map, 'colour_map has no entry %d' % i)
        ctx.eq(bk.colour_map[i], c, 'colour_map[%d]' % i)
    for i in ([0x40, 0x41] if v >= 50 else [0x18, 0x19]) + [0x51, 0x7FFF]:
        ctx.true(i in bk.colour_map, 'colour_map has no entry %#x' % i)
        ctx.eq(bk.colour_map[i], None, 'colour_map[%#x]' % i)
    # ---- comparison by attribute values
    bk2 = xlrd.open_workbook(file_contents=data, formatting_info=True, logfile=Sink())
    for one, two in ((bk.font_list, bk2.font_list), (bk.format_list, bk2.format_list)):
        ctx.true(one == two and not one != two, 'objects of two books from the same bytes are unequal')
        l, m = one[:6] + one[-3:], two[:6] + two[-3:]
        for a in l:
            for b in m:
                same = vars(a) == vars(b)
                ctx.true((a == b) is same and (a != b) is (not same), '%r and %r: == is %r' % (vars(a), vars(b), a == b))
    # ---- styles
    want = {}
    if v >= 30:
        for kind, a, b, xf in sh['styles']:
            if kind == 'z':
                if 'Normal' not in want:
                    ctx.label('defective Normal')
                    want['Normal'] = (1, 0)
            elif kind == 'b':
                want[BUILTIN[a] + (str(b + 1) if a in (1, 2) else '')] = (1, xf)
            else:
                want[dec(case, a)] = (0, xf)
    ctx.eq({k: x for k, x in bk.style_name_map.items() if k}, want, 'style_name_map')


SUBS = [Sub('tables', strategy, check, quick=5000, thorough=120000,
            rule='FONT/EFONT, FORMAT, PALETTE and STYLE tables of every BIFF version; non-trivial = several fonts and a style or palette')]
