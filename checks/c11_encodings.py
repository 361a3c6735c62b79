"""C11: text of pre-Excel-97 files is decoded with the right encoding."""
import codecs

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C11'
# CODEPAGE value -> Python codec (independent table)
CPS = {437: 'cp437', 737: 'cp737', 775: 'cp775', 850: 'cp850', 852: 'cp852', 855: 'cp855', 857: 'cp857', 858: 'cp858', 860: 'cp860',
       861: 'cp861', 862: 'cp862', 863: 'cp863', 864: 'cp864', 865: 'cp865', 866: 'cp866', 869: 'cp869', 874: 'cp874',
       932: 'cp932', 936: 'gbk', 949: 'cp949', 950: 'cp950', 1250: 'cp1250', 1251: 'cp1251', 1252: 'cp1252', 1253: 'cp1253',
       1254: 'cp1254', 1255: 'cp1255', 1256: 'cp1256', 1257: 'cp1257', 1258: 'cp1258', 1361: 'johab', 10000: 'mac_roman',
       10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2', 10079: 'mac_iceland', 10081: 'mac_turkish',
       32768: 'mac_roman', 32769: 'cp1252'}
OVERRIDES = ['cp1251', 'cp1252', 'utf-8', 'koi8_r', 'shift_jis', 'gb18030', 'euc_kr', 'big5', 'iso8859_7', 'latin-1', 'mac_greek', 'cp437']
BADCP = [0, 5, 299, 301, 1999, 2000, 57002, 65535, 28591, 9999]
BADOV = ['no_such_codec', 'cp99999', 'windows-nope']
_alpha = {}


def alphabet(enc):
    """printable BMP characters that survive a round trip through enc: (below 128, the others)"""
    if enc not in _alpha:
        lo, hi = [], []
        for i in list(range(32, 0xD800)) + list(range(0xE000, 0xFFF0)):
            c = chr(i)
            if not c.isprintable():
                continue
            try:
                if c.encode(enc).decode(enc) == c:
                    (lo if i < 128 else hi).append(c)
            except UnicodeError:
                pass
        if len(hi) > 2000:
            hi = hi[::len(hi) // 1000]
        _alpha[enc] = (lo, hi)
    return _alpha[enc]


def mktext(enc, spec, maxbytes):
    """turn a list of (kind, index) into a text that enc encodes to at most maxbytes bytes and decodes back"""
    lo, hi = alphabet(enc)
    out = ''
    for k, i in spec:
        pool = hi if k and hi else lo
        c = pool[i % len(pool)]
        t = out + c
        b = t.encode(enc)
        if len(b) > maxbytes:
            break
        if b.decode(enc) == t:
            out = t
    return out


def strategy():
    spec = st.lists(st.tuples(st.sampled_from([0, 1, 1, 1]), st.integers(0, 3000)), min_size=1, max_size=10)
    long = st.tuples(spec, st.integers(8, 60)).map(lambda t: t[0] * t[1])
    enc = st.one_of(
        st.tuples(st.just('cp'), st.sampled_from(sorted(CPS)), st.none()),
        st.tuples(st.just('cp'), st.sampled_from(sorted(CPS)), st.sampled_from(OVERRIDES)),
        st.tuples(st.just('none'), st.none(), st.none()),
        st.tuples(st.just('none'), st.none(), st.sampled_from(OVERRIDES)),
        st.tuples(st.just('bad'), st.one_of(st.none(), st.sampled_from(sorted(CPS))), st.sampled_from(BADOV)),
        st.tuples(st.just('bad'), st.sampled_from(BADCP), st.none()),
        st.tuples(st.just('cp'), st.sampled_from(BADCP + [1200] * 6), st.sampled_from(OVERRIDES)),
    )
    return st.fixed_dictionaries(dict(
        v=st.sampled_from([20, 21, 30, 40, 45, 50, 70, 70]), enc=enc,
        cells=st.lists(st.tuples(st.sampled_from(['label', 'rstring', 'fstr', 'note']), st.one_of(spec, spec, long), st.lists(st.integers(1, 40), max_size=3)), min_size=1, max_size=5),
        sheet=st.lists(spec, min_size=1, max_size=2), font=spec, fmt=spec, name=spec, style=spec, user=st.none() | spec, lead=st.sampled_from(['', '', ' ', '  ', '\t', '\n ']),
        early=st.booleans(), fi=st.booleans(), on_demand=st.booleans(), scope=st.booleans(), first=st.booleans()))


def r_note5(r, c, b, chunk):
    out = B.rec(0x1C, B.P('<HHH', r, c, len(b)) + b[:chunk])
    for i in range(chunk, len(b), chunk):
        p = b[i:i + chunk]
        out += B.rec(0x1C, B.P('<HHH', 0xFFFF, 0, len(p)) + p)
    return out


def r_style5(v, xf, b):
    return B.rec(0x293, B.P('<H', xf) + B.bstr(b, 1))


def r_name5(b, tokens, ext=0, itab=0, flags=0):
    return B.rec(0x18, B.P('<HBBHHH4B', flags, 0, len(b), len(tokens), ext, itab, 0, 0, 0, 0) + b + tokens)


def r_user(b, v):
    # 31 characters padded with spaces
    body = B.bstr(b, 1)
    return B.rec(0x5C, body + b' ' * (32 - len(body)))


def build(case):
    v = case['v']
    _, cp, ov = case['enc']
    enc = ov or (CPS.get(cp) if cp is not None else 'iso-8859-1')
    ok = case['enc'][0] != 'bad'
    if not ok:
        enc = 'ascii'
    T = lambda spec, n: mktext(enc, spec, n)
    e = lambda s: s.encode(enc)
    names = []
    for i, sp in enumerate(case['sheet'] if v >= 45 else case['sheet'][:1]):
        t = T(sp, 28) + '%d' % i
        names.append(t)
    if len(set(names)) < len(names):
        names = names[:1]
    want = dict(cells={}, notes={})
    body = b''
    for r, (kind, spec, cuts) in enumerate(case['cells']):
        if v <= 21:
            if kind == 'rstring':
                kind = 'label'
            t = T(spec, 255)
        else:
            t = T(spec, 1500)
        if kind == 'note':
            if v < 30:
                kind = 'label'
        if kind == 'note':
            body += r_note5(r, 1, e(t), (cuts or [2048])[0] * 7)
            want['notes'][(r, 1)] = t
            continue
        if v <= 21:
            a = L.attr3()
            body += {'label': lambda: L.b2_label(r, 0, a, e(t)), 'fstr': lambda: B.r_formula2(r, 0, a, B.fres_str()) + L.b2_string(e(t))}[kind]()
        elif kind == 'fstr':
            if not t:
                t = 'x'
            xf = 15 if v >= 50 else 0
            body += B.r_formula(v, r, 0, xf, B.fres_str()) + L.r_string5(e(t), cuts)
        elif kind == 'rstring' and v >= 50:
            body += B.r_rstring5(r, 0, 15, e(t), [(1, 1)])
        else:
            body += B.r_label5(r, 0, 15 if v >= 50 else 0, e(t))
        want['cells'][(r, 0)] = t
    font, fmt, name, style = T(case['font'], 200), T(case['fmt'], 200), T(case['name'], 100) or T([(0, 65)], 4), T(case['style'], 200)
    user = None if case['user'] is None else (case['lead'] + T(case['user'], 27)).rstrip()
    want.update(font=font, fmt=fmt, name=name, style=style, user=user, names=names)
    cprec = B.codepage(cp) if cp is not None else b''
    urec = b'' if user is None or v < 30 else r_user(e(user), v)
    pre = (urec + cprec) if case['early'] else (cprec + urec)
    if v >= 50:
        glob = pre + B.font5(e(font)) * 4 + B.format5(164, e(fmt)) + B.std_xfs(50, []) + r_style5(v, 1, e(style))
        loc = case['scope']
        ext = b''
        if loc:
            ext = B.rec(0x16, B.P('<H', 1)) + B.rec(0x17, bytes([len(e(names[-1])), 3]) + e(names[-1]))
        want['scope'] = len(names) - 1 if loc else -1
        st_ = e('abc' + name)[:200]
        tok = b'\x17' + B.bstr(e(name), 1)          # tStr
        nrec = ext + r_name5(e(name), tok, 1 if loc else 0)
        glob = pre + nrec + glob[len(pre):] if case['first'] else glob + nrec      # the name may be the first text of the file
        data = B.assemble(v, glob, [dict(name=e(n), body=body) for n in names])
    else:
        lv = 40 if v == 45 else v
        pre2 = L.r_font(lv, e(font)) * 2 + L.r_format(lv, e(fmt)) * 2
        if v != 20:
            pre2 += L.r_xf(lv) * 2
        if v >= 30:
            pre2 += r_style5(lv, 1, e(style))
        if v == 45:
            data = L.book4w([(e(n), pre2 + body) for n in names], pre)
        else:
            data = L.sheet(v, pre + pre2 + body)
    return data, want, enc, ok


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data, want, enc, ok = build(case)
    v, (how, cp, ov) = case['v'], case['enc']
    fi = case['fi']
    ctx.label('v%d' % v, 'enc:' + (enc if ok else 'unknown'), how)
    try:
        bk = xlrd.open_workbook(file_contents=data, formatting_info=fi, on_demand=case['on_demand'], encoding_override=ov, logfile=Sink())
        sheets = bk.sheets()
    except Exception as e:
        if ok:
            raise
        ctx.nt()
        ctx.true(isinstance(e, (LookupError, xlrd.XLRDError)), 'unknown encoding reported by %r' % e)
        return
    ctx.true(ok, 'unknown encoding accepted: codepage %r override %r -> %r' % (cp, ov, bk.encoding))
    ctx.nt(any(ord(c) > 127 for t in want['cells'].values() for c in t))
    ctx.eq(codecs.lookup(bk.encoding).name, codecs.lookup(enc).name, 'Book.encoding')
    ctx.eq(bk.codepage, cp, 'Book.codepage')
    if v >= 45:
        ctx.eq(bk.sheet_names(), want['names'], 'sheet names')
    for sh in sheets:
        for (r, c), t in want['cells'].items():
            ctx.eq((sh.cell_type(r, c), sh.cell_value(r, c)), (1, t), 'cell (%d,%d)' % (r, c))
        ctx.eq({k: n.text for k, n in sh.cell_note_map.items()}, want['notes'], 'notes')
    if fi:
        ctx.eq(bk.font_list[1].name, want['font'], 'font name')
        if v >= 30:
            ctx.eq([n for n in bk.style_name_map if n != 'Normal'] or ['Normal'], [want['style']], 'style name')
    ctx.eq(bk.format_map[164 if v >= 50 else 1].format_str, want['fmt'], 'format string')
    if v >= 50:
        ctx.eq(len(bk.name_obj_list), 1, 'number of names')
        n = bk.name_obj_list[0]
        ctx.eq(n.name, want['name'], 'defined name')
        ctx.eq(n.scope, want['scope'], 'scope of a name local to sheet %r' % want['names'][-1])
        ctx.eq(n.result.value, want['name'], 'string constant of a name')
    if want['user'] is not None and v >= 30:
        ctx.eq(bk.user_name, want['user'], 'user name')


def strategy8():
    txt = S.texts(10)
    return st.fixed_dictionaries(dict(
        cp=st.one_of(st.sampled_from(sorted(CPS)), st.just(1200), st.none(), st.sampled_from([0, 5, 65001, 57002, 2000])),
        ov=st.one_of(st.none(), st.sampled_from(OVERRIDES)), cell=txt, sst=txt, fstr=txt, name=S.texts(10, 1), font=txt, fmt=txt, style=txt, user=txt,
        wide=st.sampled_from([None, True])))


def check8(case, ctx):
    with ctx.building():
        w = case['wide']
        sstrec, _ = B.sst_records([dict(s=case['sst'], wide=bool(w))], [])
        body = B.r_label8(0, 0, 15, case['cell'], w) + B.r_labelsst(1, 0, 15, 0)
        fs = case['fstr'] or 'x'
        body += B.r_formula(80, 2, 0, 15, B.fres_str()) + B.r_string8(fs, w)
        ur = B.rec(0x5C, B.ustr(case['user'], 2, w) + b'  ')
        glob = ur + (B.codepage(case['cp']) if case['cp'] is not None else b'') + B.font8(case['font'], wide=w) * 4
        glob += B.format8(164, case['fmt'], w) + B.std_xfs(80, []) + B.rec(0x293, B.P('<H', 1) + B.ustr(case['style'], 2, w))
        data = B.assemble(80, glob, [dict(name=case['name'][:31], body=body, wide=w)], glob_after=sstrec)
    ctx.nt(any(ord(c) > 127 for k in ('cell', 'sst', 'fstr', 'name') for c in case[k]))
    ctx.label('cp:%s' % ('unicode' if case['cp'] in (None, 1200) else 'other'), 'override' if case['ov'] else 'no-override')
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, encoding_override=case['ov'], logfile=Sink())
    sh = bk.sheet_by_index(0)
    ctx.eq([sh.cell_value(r, 0) for r in range(3)], [case['cell'], case['sst'], fs], 'cells')
    ctx.eq(bk.sheet_names(), [case['name'][:31]], 'sheet name')
    ctx.eq(bk.font_list[0].name, case['font'], 'font name')
    ctx.eq(bk.format_map[164].format_str, case['fmt'], 'format')
    ctx.eq([n for n in bk.style_name_map if n != 'Normal'] or ['Normal'], [case['style']], 'style')
    ctx.eq(bk.user_name, case['user'].rstrip(), 'user name')


def strategy_cps():
    return st.fixed_dictionaries(dict(
        v=st.sampled_from([30, 50, 70]), start=st.integers(0, len(CPS) - 1), spec=st.lists(st.tuples(st.just(1), st.integers(0, 3000)), min_size=1, max_size=20)))


def check_cps(case, ctx):
    """13 codepages per case"""
    v = case['v']
    cps = sorted(CPS)
    ctx.nt()
    for i in range(0, len(cps), 3):
        cp = cps[(case['start'] + i) % len(cps)]
        enc = CPS[cp]
        with ctx.building():
            ctx.label(enc)
            t = mktext(enc, case['spec'], 200)
            rec = B.r_label5(0, 0, 15 if v >= 50 else 0, t.encode(enc))
            if v >= 50:
                data = B.assemble(v, B.globals5(cp=cp), [dict(name=b'S', body=rec)])
            else:
                data = L.sheet(v, B.codepage(cp) + L.r_font(v) + L.r_format(v, b'General') + L.r_xf(v) + rec)
        bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
        ctx.eq(bk.sheet_by_index(0).cell_value(0, 0), t, 'cell in codepage %d' % cp)
        ctx.eq(codecs.lookup(bk.encoding).name, codecs.lookup(enc).name, 'Book.encoding for codepage %d' % cp)


SUBS = [Sub('legacy', strategy, check, quick=4000, thorough=100000,
            rule='BIFF2-7 files in 39 codepages, with and without CODEPAGE, override or unknown encodings; non-trivial = a cell with non-ASCII text, or an unknown encoding'),
        Sub('biff8', strategy8, check8, quick=1500, thorough=30000,
            rule='BIFF8 texts under any codepage/override; non-trivial = non-ASCII text'),
        Sub('codepages', strategy_cps, check_cps, quick=300, thorough=6000, rule='every documented codepage, 13 per case; all non-trivial')]
