"""C27: a formula cell gets its cached result whatever records accompany the formula."""
import io
import struct

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import ole
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C27'
P = struct.pack
ENC = {1252: 'cp1252', 932: 'cp932', 1251: 'cp1251', 936: 'gbk', 10000: 'mac_roman'}
CHARS = {1252: 'ab Z\xe9\xdf\u20ac\x80'.replace('\x80', '\u2122'), 932: 'ab\u65e5\u672c\u8a9e\uff71\u8868', 1251: 'ab\u0416\u0449\u044f', 936: 'a\u4e2d\u6587\u56fd', 10000: 'ab\xe9\xdf\u2260\u221e'}
FMTS = [0, 0, 2, 14, 49, 22]


def strategy():
    def mk(v, cp):
        if v >= 80:
            piece = st.text(st.one_of(st.sampled_from('abcXYZ 019'), st.sampled_from('abc\xe9\xff'), st.sampled_from('\u0416\u65e5\u20ac\u0100'), st.sampled_from('\U0001f600\U0002000b')), max_size=12)
            text = st.one_of(piece, piece, st.tuples(piece, st.integers(1, 40), piece).map(lambda t: t[0] * t[1] + t[2]), st.tuples(st.sampled_from(['ab', '\u0416x', '\U0001f600']), st.integers(1000, 8000)).map(lambda t: (t[0] * t[1])[:8190]))
        else:
            piece = st.text(st.sampled_from(CHARS[cp]), max_size=12)
            text = piece if v == 20 else st.one_of(piece, piece, st.tuples(piece, st.integers(1, 60)).map(lambda t: t[0] * t[1]))
        kinds = [('str', text)] * 5 + [('num', S.numbers)] * 2 + [('bool', st.integers(0, 1)), ('err', S.errs)] + ([('empty', st.just(''))] if v >= 30 else [])
        res = st.one_of(*[st.tuples(st.just(k), s) for k, s in kinds])
        between = st.one_of(st.just(None), st.just(None), st.fixed_dictionaries(dict(
            k=st.sampled_from((['shr'] if v >= 50 else []) + ['array', 'table'] + (['table2'] if v == 20 else [])), r=st.tuples(st.integers(0, 300), st.integers(0, 300)), c=st.tuples(st.integers(0, 255), st.integers(0, 255)),
            flags=st.integers(0, 65535), toks=st.binary(max_size=40), lie=st.sampled_from([0, 0, 0, 3, 60000]), junk=st.integers(0, 2 ** 32 - 1))))
        cell = st.fixed_dictionaries(dict(
            res=res, xf=st.integers(0, 5), between=between, junk=st.binary(min_size=5, max_size=5), flags=st.integers(0, 255 if v == 20 else 65535), chn=st.one_of(st.just(0), st.integers(0, 2 ** 32 - 1)),
            toks=st.one_of(st.just(B.TOK_1), st.binary(max_size=60), st.binary(min_size=1, max_size=12).map(lambda b: b * 300 if v > 20 else b * 20), st.sampled_from([b'\x01\x00\x00\x00\x00', b'\x02\x05\x00\x01\x00'])),
            lie=st.sampled_from([0, 0, 0, -1, 5, 60000]), splits=st.one_of([st.lists(st.one_of(st.integers(1, 40), st.integers(1, 9000)), max_size=5)] * 6 + [st.integers(2, 30).map(lambda n: list(range(1, n)))]), wide=st.lists(st.booleans(), min_size=1, max_size=4), hiflag=st.sampled_from([0] * 9 + [0xF0, 0x80, 2]), noopt=st.booleans(), gap=st.sampled_from([1, 1, 1, 2, 3])))
        return st.fixed_dictionaries(dict(v=st.just(v), cp=st.just(cp), rows=st.lists(st.lists(cell, min_size=1, max_size=5), min_size=1, max_size=4), fi=st.booleans(), ragged=st.booleans(), wrap=st.booleans(), verb=st.integers(0, 2), plain=st.lists(st.integers(0, 20), max_size=4)))
    return st.one_of(st.just((80, 1200)), st.just((80, 1200)), st.tuples(st.sampled_from([70, 50, 45, 40, 30, 20]), st.sampled_from(sorted(ENC)))).flatmap(lambda t: mk(*t))


def string_records(v, x, c):
    """the STRING record and its CONTINUEs"""
    if v >= 80:
        units = x.encode('utf-16-le')
        n = len(units) // 2
        if not n:
            return B.rec(0x207, P('<H', 0) + (b'' if c['noopt'] else bytes([c['wide'][0]])))
        cuts = sorted({i for i in c['splits'] if 0 < i < n})
        # no record may exceed the format's limit
        pieces, prev = [], 0
        for z in cuts + [n]:
            while z - prev > 4000:
                pieces.append(units[2 * prev:2 * prev + 8000])
                prev += 4000
            if z > prev:
                pieces.append(units[2 * prev:2 * z])
            prev = z
        out = b''
        for k, p in enumerate(pieces):
            w = any(p[1::2]) or c['wide'][k % len(c['wide'])]
            body = b'\x01' + p if w else b'\x00' + p[::2]
            if c['hiflag']:
                body = bytes([body[0] | c['hiflag']]) + body[1:]       # reserved bits
            out += B.rec(0x207, P('<H', n) + body) if k == 0 else B.rec(0x3C, body)
        return out
    b = x
    if v == 20:
        return L.b2_string(b)
    return L.r_string5(b, c['splits'])


def between_record(v, b, r, c):
    if b is None:
        return b''
    r1, r2 = sorted(b['r'])
    c1, c2 = sorted(b['c'])
    n = len(b['toks']) + b['lie']
    box = P('<HHBB', r1, r2, c1, c2)
    if b['k'] == 'shr':
        return B.rec(0x4BC, box + P('<BBH', b['flags'] & 255, b['flags'] >> 8, n & 0xFFFF) + b['toks'])
    if b['k'] == 'array':
        if v == 20:
            return B.rec(0x21, box + P('<BB', b['flags'] & 255, n & 255) + b['toks'])
        if v < 50:
            return B.rec(0x221, box + P('<HH', b['flags'], n & 0xFFFF) + b['toks'])
        return B.rec(0x221, box + P('<HIH', b['flags'], b['junk'], n & 0xFFFF) + b['toks'])
    if v == 20:
        return B.rec(0x36 if b['k'] == 'table' else 0x37, box + (P('<BB', b['flags'] & 1, b['flags'] >> 8 & 1) if b['k'] == 'table' else P('<H', b['flags'])) + P('<HH' if b['k'] == 'table' else '<HHHH', *([b['junk'] & 255] * (2 if b['k'] == 'table' else 4))))
    return B.rec(0x236, box + P('<HHHHH', b['flags'], b['junk'] & 0xFFFF, 3, b['junk'] >> 16, 4))


def check(case, ctx):
    v, cp = case['v'], case['cp']
    lv = 40 if v == 45 else v
    isdate = [False, False, False, True, False, True]
    with ctx.building():
        body, want, kinds = b'', {}, set()
        for ri, row in enumerate(case['rows']):
            r = ri * 3 + 1
            ci = 0
            for c in row:
                ci += c['gap']
                k, x = c['res']
                j = c['junk']
                kinds.add(k)
                xf = c['xf']
                t = {'str': 1, 'empty': 1, 'bool': 4, 'err': 5}.get(k)
                val = x
                if k == 'str' and v < 80:
                    x = x.encode(ENC[cp])
                    if v == 20:
                        x = x[:255]
                        while True:
                            try:
                                val = x.decode(ENC[cp])
                                break
                            except UnicodeDecodeError:
                                x = x[:-1]
                if k == 'num':
                    res = B.fres_num(x)
                    t = 3 if isdate[xf] else 2
                else:
                    code = {'str': 0, 'bool': 1, 'err': 2, 'empty': 3}[k]
                    res = bytes([code, j[0], x if k in ('bool', 'err') else j[1], j[2], j[3], j[4], 0xFF, 0xFF])
                toks = c['toks']
                cce = len(toks) + c['lie']
                if v == 20:
                    rec = B.rec(0x06, P('<HH3s8sBB', r, ci, L.attr3(fmt=0, xf=0), res, c['flags'] & 255, cce & 255) + toks)
                    t = 2 if k == 'num' else t
                elif v < 50:
                    rec = B.rec({30: 0x206}.get(lv, 0x406), P('<HHH8sHH', r, ci, xf, res, c['flags'], cce & 0xFFFF) + toks)
                else:
                    rec = B.rec(0x06, P('<HHH8sHIH', r, ci, xf, res, c['flags'], c['chn'], cce & 0xFFFF) + toks)
                body += rec + between_record(v, c['between'], r, ci)
                if k == 'str':
                    s = string_records(v, x, c)
                    body += s
                    if s.count(b'\x3c\x00') and c['splits']:
                        ctx.label('continued')
                    if c['between']:
                        ctx.label('between-' + c['between']['k'])
                want[(r, ci)] = (t, val, xf if v != 20 else 0)
            for p in case['plain']:
                if (r, p + 40) not in want:
                    body += B.r_number(r, p + 40, 0, p + 0.5) if v != 20 else L.b2_number(r, p + 40, L.attr3(), p + 0.5)
                    want[(r, p + 40)] = (2, p + 0.5, 0)
        if v >= 80:
            data = B.assemble(v, B.globals8(xfs=b''.join(B.xf8(fmt=f) for f in FMTS)), [dict(name='S', body=body)])
        elif v >= 50:
            data = B.assemble(v, B.globals5(xfs=b''.join(B.xf5(fmt=f) for f in FMTS), cp=cp), [dict(name=b'S', body=body)])
        else:
            pre = B.codepage(cp)
            if lv >= 30:
                fm = {0: b'General', 2: b'0.00', 14: b'd/m/yy', 49: b'@', 22: b'd/m/yy h:mm'}
                recs = b''.join(L.r_format(lv, fm[f]) for f in FMTS)
                pre = B.codepage(cp) + L.r_font(lv) + recs + b''.join(L.r_xf(lv, fmt=i) for i in range(len(FMTS)))
            data = L.sheet(lv, pre + body) if v != 45 else L.book4w([(b'S', pre + body)], glob=B.codepage(cp))
        if case['wrap'] and v >= 50:
            data = ole.wrap(data, 'Workbook' if v >= 80 else 'Book')
    ctx.label('v%d' % v, *['res-' + k for k in kinds])
    ctx.nt(any(c['res'][0] == 'str' and (c['between'] or c['splits']) for row in case['rows'] for c in row))
    log = io.StringIO()
    bk = xlrd.open_workbook(file_contents=data, logfile=log, formatting_info=case['fi'], ragged_rows=case['ragged'], verbosity=case['verb'])
    sh = bk.sheet_by_index(0)
    got = {}
    for r in range(sh.nrows):
        for c in range(sh.row_len(r)):
            if sh.cell_type(r, c) != 0:
                got[(r, c)] = (sh.cell_type(r, c), sh.cell_value(r, c))
    ctx.eq(sorted(got), sorted(want), 'cells present')
    for (r, c), (t, x, xf) in want.items():
        ctx.eq(got[(r, c)], (t, x), 'cell (%d, %d)' % (r, c))
        ctx.true(type(got[(r, c)][1]) is (str if t == 1 else int if t in (4, 5) else float), 'value type of (%d, %d)' % (r, c))
        if case['fi'] and v != 20:
            ctx.eq(sh.cell_xf_index(r, c), xf, 'xf of (%d, %d)' % (r, c))


SUBS = [
    Sub('results', strategy, check, quick=4000, thorough=150000, rule='BIFF2-8 sheets of formula cells with random tokens; non-trivial = a string result with a record between or a split STRING'),
]
