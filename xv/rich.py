"""Feature-rich workbooks of every BIFF version, decoded from a byte string.

A workbook is a Rich object: groups of records that must stay together, so that
a check can insert records between groups, reorder the substreams and so on.
Nothing here predicts what xlrd should report: these workbooks are the inputs of
metamorphic and differential checks.
"""
from hypothesis import strategies as st

from xv import biff as B
from xv import expr as X
from xv import fmla as F
from xv import legacy as L
from xv import ole

P = B.P
WORDS = ['', 'a', 'Total', 'été', '日本', '\U0001f600x', 'x' * 40, "it's", '"q"', 'Ωmega', '1.5', ' lead', 'tab\t', 'line\nbreak']
LWORDS = [w for w in WORDS if B.is_latin1(w)]
FMTS = ['General', '0.00', 'yyyy-mm-dd', 'h:mm', '[Red]0', '"d"0', '#,##0', 'mmm', '0%', '@', '[h]:mm', '\\y0']
VALUES = [0.0, 1.0, -1.5, 1e300, 36526.0, 0.1, 60.0, 2958465.0, 123456789.0, 5e-324, -0.0, 3.25, 42.0]


class D:
    """byte-string decoder"""

    def __init__(self, data):
        self.d, self.p = data, 0

    def b(self, n=256):
        if self.p >= len(self.d):
            return 0
        x = self.d[self.p]
        self.p += 1
        return x % n

    def w(self, n=65536):
        return (self.b() * 256 + self.b()) % n

    def flag(self):
        return self.b(2)

    def pick(self, l):
        return l[self.b(len(l))]

    def word(self, v):
        return self.pick(WORDS if v >= 80 else LWORDS)


class Sheet:
    def __init__(self, name, type_=0, vis=0, groups=(), order=None):
        self.name, self.type, self.vis, self.groups, self.order = name, type_, vis, list(groups), order


class Rich:
    """ghead: groups of the globals before the BOUNDSHEETs, gtail: after them"""

    def __init__(self, v):
        self.v, self.ghead, self.gtail, self.sheets = v, [], [], []
        self.wrap = False
        self.features = set()

    def bytes(self, ins=None, gap=b'', trailer=b'', sheets=None, raw=False):
        """ins(where, i) -> bytes inserted before group i of `where` ('h', 't', sheet index); i = len at the end"""
        def join(where, groups):
            if ins is None:
                return b''.join(groups)
            out = b''
            for i, g in enumerate(groups):
                out += ins(where, i) + g
            return out + ins(where, len(groups))
        v = self.v
        shs = self.sheets if sheets is None else sheets
        if v >= 50:
            sl = [dict(name=s.name, type=s.type, vis=s.vis, body=join(i, s.groups), **({} if s.order is None else {'order': s.order})) for i, s in enumerate(shs)]
            data = B.assemble(v, join('h', self.ghead), sl, trailer=trailer, gap=gap, glob_after=join('t', self.gtail))
        elif v == 45:
            data = L.book4w([(s.name, join(i, s.groups)) for i, s in enumerate(shs)], glob=join('h', self.ghead), pad=gap) + trailer
        else:
            data = L.sheet(v if v != 20 else 20, join(0, shs[0].groups)) + trailer
        if self.wrap and not raw:
            data = ole.wrap(data, 'Workbook' if v >= 80 else 'Book')
        return data


def xfs_of(d, v):
    """-> (groups, number of XFs, first cell XF)"""
    n = 16 + d.b(5)
    out = []
    for i in range(n):
        if v >= 80:
            out.append(B.xf8(font=d.pick([0, 1, 2, 3, 5]) if i >= 16 else 0, fmt=d.pick([0, 1, 2, 9, 14, 20, 164, 165, 49]) if i > 15 else 0, style=i < 15,
                             align=d.b() if i > 15 else 0x20, used=d.b() & 0xFC if i > 15 else 0, bord1=d.w() if i > 15 else 0, patt=d.w() if i > 15 else 0x20C0))
        else:
            out.append(B.xf5(font=d.pick([0, 1, 2, 3]) if i >= 16 else 0, fmt=d.pick([0, 1, 2, 9, 14, 20, 164, 165, 49]) if i > 15 else 0, style=i < 15))
    return out, n, 15


def cells_of(d, v, xf, nsst, lim, feats, rnd=None):
    """-> groups of cell records; xf(): an XF index or BIFF2 attributes"""
    out, used = [], set()
    for _ in range(d.b(14)):
        r, c = d.pick([0, 1, 2, 3, 4, 7, 12]), d.b(7)
        if d.b(40) == 39:
            r = d.pick([200, 300, 1000])
        if d.b(40) == 39:
            c = d.pick([255, 100])
        if (r, c) in used:
            continue
        k = d.b(13)
        used.add((r, c))
        x = d.pick(VALUES)
        if v <= 21:
            a = xf()
            t = d.pick(LWORDS)[:30].encode('latin-1')
            k %= 10
            g = [L.b2_number(r, c, a, x), L.b2_integer(r, c, a, d.w()), L.b2_label(r, c, a, t), L.b2_boolerr(r, c, a, d.b(2), 0), L.b2_boolerr(r, c, a, d.pick([0, 7, 15, 42]), 1), L.b2_blank(r, c, a),
                 B.r_formula2(r, c, a, B.fres_num(x)), B.r_formula2(r, c, a, B.fres_str()) + L.b2_string(t), B.r_formula2(r, c, a, B.fres_bool(1)), B.r_formula2(r, c, a, B.fres_err(7))][k]
            out.append(g)
            feats.add('b2-%d' % k)
            continue
        t = d.word(v)
        e = lambda s: s.encode('latin-1')
        lab = B.r_label8(r, c, xf(), t) if v >= 80 else B.r_label5(r, c, xf(), e(t))
        if k == 0:
            g = B.r_number(r, c, xf(), x)
        elif k == 1:
            g = B.r_rk(r, c, xf(), (d.w() << 16 | d.w()) if d.b(2) else d.b() << 2 | 2)
        elif k == 2 and v >= 50:
            n = 1 + d.b(3)
            n = min(n, 256 - c)
            for i in range(n):
                if (r, c + i) in used and i:
                    n = i
                    break
                used.add((r, c + i))
            g = B.r_mulrk(r, c, [(xf(), d.b() << 2 | 2) for _ in range(n)])
        elif k == 3:
            g = B.r_labelsst(r, c, xf(), d.b(nsst)) if v >= 80 and nsst else lab
        elif k == 4:
            g = lab
        elif k == 5 and v >= 50:
            t2 = t or 'z'
            runs = [(d.b(len(t2)), 1 + d.b(3))] if d.b(2) else []
            g = B.r_rstring8(r, c, xf(), t2, runs) if v >= 80 else B.r_rstring5(r, c, xf(), e(t2), runs)
        elif k == 6:
            g = B.r_boolerr(r, c, xf(), d.b(2), 0) if d.b(2) else B.r_boolerr(r, c, xf(), d.pick([0, 7, 15, 23, 29, 36, 42]), 1)
        elif k == 7:
            g = B.r_blank(r, c, xf())
        elif k == 8 and v >= 50:
            n = min(1 + d.b(3), 256 - c)
            for i in range(n):
                if (r, c + i) in used and i:
                    n = i
                    break
                used.add((r, c + i))
            g = B.r_mulblank(r, c, [xf() for _ in range(n)])
        elif k in (9, 10):
            res = [B.fres_num(x), B.fres_bool(d.b(2)), B.fres_err(42), B.fres_empty()][d.b(4)]
            g = B.r_formula(v, r, c, xf(), res)
        elif k in (11, 12):
            s = t or 'res'
            mid = b''
            if k == 12 and v >= 50:
                mid = B.rec(0x4BC, P('<HHBBBBH', r, r, c, c, 0, 1, 3) + B.TOK_1) if d.b(2) else B.rec(0x221, P('<HHBBHIH', r, r, c, c, 0, 0, 3) + B.TOK_1)
            g = B.r_formula(v, r, c, xf(), B.fres_str()) + mid + (B.r_string8(s, splits=[1] if d.b(2) else ()) if v >= 80 else L.r_string5(e(s)))
        else:
            g = B.r_number(r, c, xf(), x)
        out.append(g)
        feats.add('c%d' % k)
    return out


def rows_of(d, v, xf):
    out = []
    for _ in range(d.b(3)):
        r = d.pick([0, 1, 2, 5, 9])
        if v >= 30:
            w = d.w()
            b2 = (w & 0xFF) | (d.b(2) << 7) | (xf() << 16) | (w >> 8 & 3) << 28
            out.append(B.rec(0x208, P('<HHHHHHI', r, 0, 256, d.w(), 0, 0, b2)))
        else:
            out.append(B.rec(0x08, P('<HHHHHBH', r, 0, 256, d.w(), 0, 0, 0)))
    return out


def tail_of(d, v, feats, nfmt, sheetix):
    """groups that may follow the cells in any order"""
    out = []
    e = lambda s: s.encode('latin-1')

    def rng():
        r, c = d.b(6), d.b(5)
        return r, r + d.b(3), c, c + d.b(3)
    mask = d.w()
    if mask & 1:
        o = d.w()
        if v >= 80:
            out.append(B.rec(0x23E, P('<HHHHHHHI', o, d.b(20), d.b(20), d.b(64), 0, d.pick([0, 60, 100]), d.pick([0, 85, 100]), 0)))
        elif v >= 30:
            out.append(B.rec(0x23E, P('<HHHBBBx', o, d.b(20), d.b(20), d.b(), d.b(), d.b())))
        else:
            out.append(B.rec(0x3E, P('<5BHHB3Bx'[:-1], *([d.b(2) for _ in range(5)] + [d.b(9), d.b(9), d.b(2), d.b(), d.b(), d.b()]))))
        feats.add('window2')
    if mask & 2 and v >= 40:
        out.append(B.rec(0xA0, P('<HH', 1 + d.b(8), d.b(5))))
    if mask & 4:
        out.append(B.rec(0x41, P('<HHHHB', d.b(9), d.b(9), d.b(9), d.b(9), d.b(4)) + b'\0'))
    if mask & 8 and v >= 80:
        rs = [rng() for _ in range(1 + d.b(3))]
        out.append(B.rec(0xE5, P('<H', len(rs)) + b''.join(P('<HHHH', *x) for x in rs)))
        feats.add('merged')
    if mask & 16 and v >= 80:
        from checks import c17_hyperlinks as H
        u = d.pick(['http://x.org/', 'mailto:a@b.c', 'file.xls'])
        r1, r2, c1, c2 = rng()
        body = P('<HHHH', r1, r2, c1, c2) + bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B') + P('<II', 2, 3) + bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
        ub = (u + '\0').encode('utf-16-le')
        g = B.rec(0x1B8, body + P('<I', len(ub)) + ub)
        if d.b(2):
            g += B.rec(0x800, P('<HHHHH', 0x800, r1, r2, c1, c2) + 'tip\0'.encode('utf-16-le'))
        out.append(g)
        feats.add('hlink')
    if mask & 32 and v >= 80:
        from checks import c18_notes as N
        t = d.word(80)
        n = B.u16len(t)
        tx, _ = N.txo(t, [(0, 1), (n, 0)] if n else [], wide=bool(d.b(2)))
        oid = 1 + d.b(200)
        out.append(N.obj(oid, 0x19, 0, (), 0, P('<HH', 0x0D, 22) + bytes(22)) + tx)
        out.append(B.rec(0x1C, P('<HHHH', d.b(6), d.b(6), d.b(4), oid) + B.ustr(d.word(80)[:20], 2)))
        feats.add('note')
    elif mask & 32:
        t = e(d.pick(LWORDS))
        out.append(B.rec(0x1C, P('<HHH', d.b(6), d.b(6), len(t)) + t))
        feats.add('note')
    if mask & 64:
        n = d.b(3)
        out.append(B.rec(0x1B, P('<H', n) + b''.join(P('<HHH', i + d.b(9), 0, 255) if v >= 80 else P('<H', i + d.b(9)) for i in range(n))))
        n = d.b(3)
        out.append(B.rec(0x1A, P('<H', n) + b''.join(P('<HHH', i + d.b(9), 0, 65535) if v >= 80 else P('<H', i + d.b(9)) for i in range(n))))
    if mask & 128 and v >= 80:
        out.append(B.rec(0x15F, P('<H', 1) + P('<HHHH', *rng()) + P('<H', 0)))
    if mask & 256 and v >= 80:
        r = rng()
        fm = d.pick([F.t_ref(80, 'V', 0, 0, 1, 1), F.t_ref(80, 'V', 2, 3), F.t_ref(80, 'V', -1, 2, 1, 1, base=0x0C), F.t_area(80, 'R', 0, 0, 3, 3, (1, 1, 1, 1)) + F.t_funcvar('V', 4, 1), F.t_ref(80, 'R', 0, 0, 1, 1) + F.t_ref(80, 'R', 2, 2, 1, 1) + b'\x11' + F.t_funcvar('V', 4, 1)]) + F.t_int(3) + b'\x0d'
        fm2 = d.pick([b'', F.t_str(80, 'a'), F.t_num(1.5)])
        fb, bb, pb = d.b(2), d.b(2), d.b(2)
        # number format (2: a string of the user's), alignment and protection parts
        nb, ab, lb = d.pick([(0, 0, 0)] * 4 + [(1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 1, 1)])
        num = (b'', P('<BB', 0, 14), P('<HHB', 9, 4, 0) + b'0.00')[nb]
        cf = P('<BBHHIH', 1 + d.b(2), 1 + d.b(8), len(fm), len(fm2), bool(nb) << 25 | fb << 26 | ab << 27 | bb << 28 | pb << 29 | lb << 30, nb // 2) + num + bytes(118 * fb + 8 * ab + 8 * bb + 4 * pb + 2 * lb) + fm + fm2
        out.append(B.rec(0x1B0, P('<6H', 1, d.b(2), *r) + P('<H', 1) + P('<HHHH', *r)) + B.rec(0x1B1, cf))
        feats.add('condfmt')
    if mask & 512 and v >= 50:
        out.append(chart_stream(v))
        feats.add('chart')
    if mask & 1024 and v >= 50:
        out.append(B.rec(0x5D, P('<HHHHH', 0x15, 18, 5, 1, 0) + bytes(12) + P('<HH', 0, 0)) if v >= 80 else B.rec(0x5D, bytes(40)))
    if mask & 2048 and v >= 80:
        out.append(B.rec(0xEC, P('<HHI', 0xF, 0xF002, 8) + bytes(8)))
    # order of the groups; text boxes stay before the notes
    keys = [(d.b(8), i) for i in range(len(out))]
    idx = [i for _, i in sorted(keys)]
    out2 = [out[i] for i in idx]
    if v >= 80 and 'note' in feats and mask & 32:
        objs = [g for g in out2 if g[:2] == b'\x5d\x00' and b'\xb6\x01' in g]
        notes = [g for g in out2 if g[:2] == b'\x1c\x00']
        rest = [g for g in out2 if g not in objs and g not in notes]
        out2 = objs + rest + notes
    return out2


def chart_stream(v):
    return B.bof(v, 0x20) + B.rec(0x1002, bytes(16)) + B.rec(0x203, P('<HHHd', 0, 0, 0, 99.0)) + B.EOF


def sheet_head(d, v, xf):
    out = []
    lo = d.b(3)
    out.append(B.dimension(v, lo, lo + d.b(20), 0, d.b(9)))
    k = d.w()
    if k & 1 and v >= 30:
        out.append(B.rec(0x225, P('<HH', d.b(16), d.w())))
    elif k & 1:
        out.append(B.rec(0x25, P('<H', d.w())))
    if k & 2 and v >= 30:
        out.append(B.rec(0x55, P('<H', d.b(40))))
    if k & 4 and v >= 40:
        out.append(B.rec(0x99, P('<H', d.w())))
    if k & 8 and v >= 30:
        for _ in range(1 + d.b(2)):
            a = d.b(6)
            out.append(B.rec(0x7D, P('<HHHHHH', a, a + d.b(4), d.w(), xf(), d.w(), 0)))
    if k & 16 and v <= 21:
        out.append(B.rec(0x24, P('<BBH', 1, 3, d.w())))
    if k & 32:
        out += rows_of(d, v, xf)
    return out


def vba_types(d, v, n):
    return [d.pick([0, 0, 0, 0, 0, 2, 1, 6]) for _ in range(n)]


def names_of(d, v, n, feats):
    """NAME records and what they need -> groups"""
    k = d.b(5)
    if not k:
        return []
    sup_first = d.b(2)
    if v >= 80:
        em = X.Emit(80, sup_first, 1 - sup_first)
    else:
        em = X.Emit(v, 0, 1)
    recs = []
    wsn = list(range(n))
    g = X.Gen(bytes(d.b() for _ in range(60)), v, n, 0, mode='name', worksheets=wsn)
    for i in range(k):
        g.nn = i
        ex = g.top(3)
        t = em.toks(ex)
        if len(t) > 400:
            t = F.t_int(1)
        if d.b(6) == 5:
            nm, fl = chr(6 + d.b(2)), 0x20
        else:
            nm, fl = 'Nm_%d' % i, d.pick([0, 0, 1, 2])
        recs.append(F.r_name(v, nm, t if d.b(8) else b'', fl, itab=d.b(n + 1) if v >= 80 else 0))
    if v >= 80:
        sups = [F.supbook_ext('\x01o.xls', ['X']), F.supbook_self(n)]
        if not sup_first:
            sups.reverse()
        ext = sups + [F.externsheet8(em.refs or [(em.selfidx, 0, 0)])]
    else:
        ext = [B.rec(0x16, P('<H', 1)) + F.externsheet5(4, b'')]
    feats.add('names')
    return ext + recs


def make(data, versions=(80,), maxsheets=3):
    d = D(data)
    v = d.pick(list(versions))
    R = Rich(v)
    wrap = d.b(4) == 3
    ft = R.features
    ft.add('v%d' % v)
    if v >= 50:
        h = R.ghead
        if v >= 80:
            h.append(B.codepage(1200))
        else:
            h.append(B.codepage(1252))
        if d.b(2):
            u = d.pick(['me', 'é', 'someone else'])
            h.append(B.rec(0x5C, (B.ustr(u, 2) + b' ' * 20) if v >= 80 else B.bstr(u.encode('latin-1') + b' ' * 4, 1)))
        if d.b(2):
            h.append(B.rec(0x8C, P('<HH', 1 + d.b(50), 1 + d.b(50))))
        if d.b(2):
            h.append(B.datemode(d.b(2)))
        for i in range(4 + d.b(3)):
            h.append((B.font8('F%d' % i, d.w(), d.b(), d.b(64), d.pick([400, 700])) if v >= 80 else B.font5(b'F%d' % i, d.w(), d.b(), d.b(64), d.pick([400, 700]))))
        for i in range(1 + d.b(3)):
            s = d.pick(FMTS)
            h.append(B.format8(164 + i, s) if v >= 80 else B.format5(164 + i, s.encode('latin-1')))
        xg, nxf, x0 = xfs_of(d, v)
        h += xg
        h.append(B.rec(0x293, P('<HBB', 0x8000, 0, 0xFF)))
        if d.b(2):
            t = d.pick(['My style', 'x'])
            h.append(B.rec(0x293, P('<H', d.b(15)) + (B.ustr(t, 2) if v >= 80 else B.bstr(t.encode('latin-1'), 1))))
        if d.b(3) == 2:
            h.append(B.rec(0x92, P('<H', 56) + bytes((i * 7 + d.p) % 256 if i % 4 < 3 else 0 for i in range(224))))
        n = 1 + d.b(maxsheets)
        types = vba_types(d, v, n)
        if 0 not in types:
            types[0] = 0
        R.gtail += names_of(d, v, n, ft)
        sst = []
        if v >= 80:
            sst = [dict(s=d.word(80), wide=d.b(2), runs=[(0, 1 + d.b(3))] if d.b(3) == 2 else None) for _ in range(d.b(7))]
            sst = [x if x['s'] else dict(s='', wide=0) for x in sst]
            recs, _ = B.sst_records(sst, [30 + d.b(60)] if d.b(2) else [8000])
            if sst:
                R.gtail.append(recs)
        xf = lambda: x0 + d.b(nxf - x0)
        orders = [d.b(4) for _ in range(n)]
        for i in range(n):
            nm = d.pick(['Sheet%d', 'S %d', 'Été%d', '%d']) % (i + 1)
            s = Sheet(nm if v >= 80 else nm.encode('latin-1'), types[i], d.pick([0, 0, 1, 2]), order=orders[i])
            if types[i] == 0:
                s.groups = sheet_head(d, v, xf) + cells_of(d, v, xf, len(sst), 65536 if v >= 80 else 16384, ft) + tail_of(d, v, ft, 2, i)
            else:
                s.groups = [B.rec(0x1002, bytes(16)), B.r_number(0, 0, 15, 77.0)]
            R.sheets.append(s)
        R.wrap = wrap
        ft.add('sheets%d' % types.count(0))
        return R
    n = 1 + d.b(maxsheets) if v == 45 else 1
    lv = 40 if v == 45 else v
    if v == 45:
        R.ghead.append(B.codepage(1252))
        if d.b(2):
            R.ghead.append(B.datemode(d.b(2)))
    for i in range(n):
        g = []
        if v != 45:
            if d.b(2):
                g.append(B.codepage(d.pick([1252, 1251, 437, 0x8000])))
            if d.b(2):
                g.append(B.rec(0x5C, B.bstr(b'user' + b' ' * 5, 1)))
            if d.b(2):
                g.append(B.datemode(d.b(2)))
        for j in range(1 + d.b(3)):
            g.append(L.r_font(lv, b'F%d' % j, d.w(), d.b(), d.b(64)))
        nf = 1 + d.b(4)
        if lv >= 30:
            g.append(B.rec(0x56, P('<H', nf)))
        for j in range(nf):
            g.append(L.r_format(lv, d.pick(FMTS).encode('latin-1')))
        nxf = 1
        if v != 20:
            nxf = 2 + d.b(4)
            for j in range(nxf):
                g.append(L.r_xf(lv, font=0, fmt=d.b(nf)))
        if lv >= 30 and d.b(2):
            g.append(B.rec(0x293, P('<HBB', 0x8000, 0, 0xFF)))
        if lv >= 30 and d.b(3) == 2:
            g.append(B.rec(0x92, P('<H', 16) + bytes((j * 5 + i) % 256 if j % 4 < 3 else 0 for j in range(64))))
        if v <= 21:
            xf = lambda: L.attr3(xf=d.b(nxf) if v == 21 else 0, fmt=d.b(nf), font=0, align=d.b(2))
        else:
            xf = lambda: d.b(nxf)
        head = sheet_head(d, lv, xf)
        g += head + cells_of(d, lv, xf, 0, 16384, ft) + tail_of(d, lv, ft, nf, i)
        R.sheets.append(Sheet(b'Sheet %d' % i, 0, 0, g))
    return R


ALL = (80, 80, 80, 80, 50, 70, 45, 40, 30, 21, 20)


def blob(lo=300, hi=500):
    return st.binary(min_size=lo, max_size=hi)
