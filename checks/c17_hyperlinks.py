"""C17: hyperlinks are reported with exact range, kind, target and texts."""
from hypothesis import strategies as st

from xv import biff as B
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C17'

GUID0 = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
URLMON = bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
TAILGUID = bytes.fromhex('795881F43B1D7F48AF2C825DC4852763')   # URLMoniker.serialGUID
FILEMON = bytes.fromhex('0303000000000000C000000000000046')


def txt(max_size=20):
    return S.texts(max_size, 0).map(lambda s: s.replace('\0', ''))


def strategy():
    pos = st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.sampled_from([65535, 300])), st.integers(0, 3),
                    st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.just(255)), st.integers(0, 3))
    counted = st.tuples(txt(8), txt(8)).map(lambda t: t[0] + '\0' + t[1])      # a counted string: a NUL inside is a character like any other
    opt = st.one_of(st.none(), st.none(), st.none(), txt(), txt(), counted)
    tips = st.one_of(st.none(), txt(), st.tuples(txt(6), st.integers(30, 60)).map(lambda t: (t[0] + 'x') * t[1]).map(lambda s: s[:255]))
    short = st.binary(max_size=12).map(lambda b: b.replace(b'\0', b'a'))
    link = st.fixed_dictionaries(dict(
        pos=pos, kind=st.sampled_from(['url', 'url', 'file', 'file', 'unc', 'workbook', 'unknown']),
        desc=st.one_of(opt, S.long_texts().map(lambda s: s.replace('\0', ''))), target=opt, mark=opt, tip=tips, dflag=st.sampled_from([0x14, 0x14, 0x10]), oflag=st.sampled_from([0, 0, 0x200]),
        path=st.one_of(txt(), txt(), S.long_texts()).map(lambda s: s.replace('\0', '')), absolute=st.booleans(), tail24=st.booleans(), up=st.one_of(st.integers(0, 3), st.integers(0, 40), st.sampled_from([255, 256, 300])), short=short,
        ext=st.booleans(), guid=st.none() | st.binary(min_size=16, max_size=16), ctime=st.none() | st.binary(min_size=8, max_size=8),
        extra=st.one_of(st.just(b''), st.just(b''), st.binary(max_size=4)), tail=st.integers(0, 0x7FFF).map(lambda f: TAILGUID + B.P('<II', 0, f))))
    sheet = st.lists(link, max_size=6)
    return st.fixed_dictionaries(dict(sheets=st.lists(sheet, min_size=1, max_size=2), fi=st.booleans(), between=st.integers(0, 3), cells=st.booleans(),
                                      ragged=st.booleans()))


def nts(s):
    b = (s + '\0').encode('utf-16-le', 'surrogatepass')
    return B.P('<L', len(b) // 2) + b


def hlink(q):
    """-> (record data, quick tip record data or None, expected attributes)"""
    r, dr, c, dc = q['pos']
    lr, lc = min(r + dr, 65535), min(c + dc, 255)
    kind = q['kind']
    o = q.get('oflag', 0)
    body = b''
    mark = q['mark']
    if kind == 'workbook' and mark is None:
        mark = 'Sheet1!A1'
    if kind == 'unknown':
        mark = None
    if q['desc'] is not None:
        o |= q.get('dflag', 0x14)
        body += nts(q['desc'])
    if q['target'] is not None:
        o |= 0x80
        body += nts(q['target'])
    path = q['path']
    if kind == 'url':
        o |= 1 | (2 if q['absolute'] else 0)
        u = (path + '\0').encode('utf-16-le', 'surrogatepass')
        if q['tail24']:
            u += q['tail']
        body += URLMON + B.P('<L', len(u)) + u
        want = ('url', path)
    elif kind == 'file':
        o |= 1 | (2 if q['absolute'] else 0)
        sp = q['short'] + b'\0'
        body += FILEMON + B.P('<Hi', q['up'], len(sp)) + sp + b'\xff\xff\xad\xde' + b'\0' * 20
        if q['ext']:
            e = path.encode('utf-16-le', 'surrogatepass')
            body += B.P('<iiH', len(e) + 6, len(e), 3) + e
            want = ('local file', path)
        else:
            body += B.P('<i', 0)
            want = ('local file', b'..\\' * q['up'] + q['short'])
    elif kind == 'unc':
        o |= 0x103
        body += nts(path)
        want = ('unc', path)
    elif kind == 'workbook':
        want = ('workbook', None)
    else:
        want = ('unknown', None)
    if mark is not None:
        o |= 8
        body += nts(mark)
    if kind in ('url', 'file'):
        if q['guid'] is not None:
            o |= 0x20
            body += q['guid']
        if q['ctime'] is not None:
            o |= 0x40
            body += q['ctime']
    rng = B.P('<HHHH', r, lr, c, lc)
    d = rng + GUID0 + B.P('<II', 2, o) + body + q['extra']
    tip = None if q['tip'] is None else B.P('<H', 0x800) + rng + (q['tip'] + '\0').encode('utf-16-le', 'surrogatepass')
    exp = dict(frowx=r, lrowx=lr, fcolx=c, lcolx=lc, type=want[0], url_or_path=want[1], desc=q['desc'], target=q['target'], textmark=mark, quicktip=q['tip'])
    return d, tip, exp


class Sink:
    def write(self, s):
        pass


def build(case):
    sheets, exps = [], []
    for k, links in enumerate(case['sheets']):
        body = B.dimension(80, 0, 3, 0, 3)
        if case['cells']:
            body += B.r_number(0, 0, 15, 1.5) + B.r_label8(1, 1, 15, 'x')
        ex = []
        for q in links:
            d, tip, e = hlink(q)
            assert len(d) <= 8224
            body += B.rec(0x1B8, d)
            if tip is not None:
                if case['between'] == 1:
                    body += B.rec(0x863, b'\0' * 6)
                body += B.rec(0x800, tip)
            if case['between'] == 2:
                body += B.r_blank(2, 2, 15)
            ex.append(e)
        sheets.append(dict(name='S%d' % k, body=body))
        exps.append(ex)
    return B.assemble(80, B.globals8(), sheets), exps


ATTRS = ('frowx', 'lrowx', 'fcolx', 'lcolx', 'type', 'url_or_path', 'desc', 'target', 'textmark', 'quicktip')


def check(case, ctx):
    with ctx.building():
        data, exps = build(case)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fi'], ragged_rows=case['ragged'], logfile=Sink())
    n = sum(map(len, exps))
    for ex in exps:
        for e in ex:
            ctx.label(e['type'], *['has-' + a for a in ATTRS[6:] if e[a] is not None])
    ctx.nt(n > 1 and any(e['url_or_path'] or e['textmark'] for ex in exps for e in ex))
    for sh, ex in zip(bk.sheets(), exps):
        ctx.eq(len(sh.hyperlink_list), len(ex), 'number of hyperlinks of %s' % sh.name)
        mp = {}
        for i, (h, e) in enumerate(zip(sh.hyperlink_list, ex)):
            for a in ATTRS:
                ctx.eq(getattr(h, a), e[a], 'hyperlink %d of %s: %s' % (i, sh.name, a))
            for r in range(e['frowx'], e['lrowx'] + 1):
                for c in range(e['fcolx'], e['lcolx'] + 1):
                    mp[r, c] = i
        ctx.eq(set(sh.hyperlink_map), set(mp), 'cells in hyperlink_map')
        for k, i in mp.items():
            ctx.true(sh.hyperlink_map[k] is sh.hyperlink_list[i], 'hyperlink_map[%r] is not link %d' % (k, i))
        if case['cells']:
            ctx.eq((sh.cell_value(0, 0), sh.cell_value(1, 1)), (1.5, 'x'), 'cells')


SUBS = [Sub('links', strategy, check, quick=4000, thorough=150000,
            rule='HLINK/QUICKTIP records of every kind, overlapping ranges, several sheets; non-trivial = several links and at least one with a target or text mark')]
