"""Independent BIFF record writer (nothing here imports xlrd).

Every function returns bytes.  Layouts follow the OpenOffice "Excel File
Format" document / [MS-XLS]; they are the *specification side* of the checks.
"""
import struct

P = struct.pack
MAXREC = {80: 8224}


def rec(code, data=b''):
    assert len(data) <= 0xFFFF, (hex(code), len(data))
    return P('<HH', code, len(data)) + data


def rec_cont(code, data, limit=8224):
    """A record whose data is blindly chopped into CONTINUE records."""
    out = rec(code, data[:limit])
    data = data[limit:]
    while data:
        out += rec(0x3C, data[:limit])
        data = data[limit:]
    return out


# ---------------------------------------------------------------- strings

def u16len(s):
    return len(s.encode('utf-16-le', 'surrogatepass')) // 2


def is_latin1(s):
    return all(ord(c) < 256 for c in s)


def ustr(s, lenlen=2, wide=None, opt_on_empty=True, runs=None, pho=None, lenpos=True):
    """BIFF8 unicode string.  wide None = compress when possible."""
    if wide is None:
        wide = not is_latin1(s)
    n = u16len(s)
    out = b''
    if lenpos:
        out += P('<' + 'BH'[lenlen - 1], n)
    if n == 0 and not opt_on_empty and not runs and not pho:
        return out
    flags = 1 if wide else 0
    if runs:
        flags |= 8
    if pho:
        flags |= 4
    out += bytes([flags])
    if runs:
        out += P('<H', len(runs))
    if pho:
        out += P('<i', len(pho))
    out += s.encode('utf-16-le', 'surrogatepass') if wide else s.encode('latin-1')
    if runs:
        for a, b in runs:
            out += P('<HH', a, b)
    if pho:
        out += pho
    return out


def bstr(b, lenlen=1):
    return P('<' + 'BH'[lenlen - 1], len(b)) + b


# ---------------------------------------------------------------- BOF / EOF

EOF = rec(0x0A)


BOF_FORM = None      # a function (biff, kind) -> BOF record that replaces the usual ones


def bof(biff, kind, build=0x0DBB, year=1996):
    """kind: 5 globals, 0x10 worksheet, 0x20 chart, 0x100 workspace/4W, 6 vb, 0x40 macro"""
    if BOF_FORM is not None:
        return BOF_FORM(biff, kind)
    if biff == 80:
        return rec(0x809, P('<HHHHII', 0x0600, kind, 0x18AF, 0x07CD, 0xC1, 6))
    if biff == 70:
        return rec(0x809, P('<HHHH', 0x0500, kind, 0x0A00, 1996))
    if biff == 50:
        return rec(0x809, P('<HHHH', 0x0500, kind, 0x0A00, 1993))
    if biff in (40, 45):
        return rec(0x409, P('<HHH', 0x0400, kind, 0))
    if biff == 30:
        return rec(0x209, P('<HHH', 0x0300, kind, 0))
    if biff in (20, 21):
        return rec(0x009, P('<HH', 0x0200, kind))
    raise ValueError(biff)


# ---------------------------------------------------------------- RK encoding

def rk_candidates(value):
    """All 32-bit RK encodings (ints) that denote exactly `value` per the spec."""
    out = []
    import math
    for div in (0, 1):
        v = value * 100 if div else value
        # integer form
        if v == v and abs(v) < 2 ** 29 + 1 and v == int(v):
            i = int(v)
            if -2 ** 29 <= i < 2 ** 29:
                if repr(rk_value(((i & 0x3FFFFFFF) << 2) | 2 | div)) == repr(value):
                    out.append(((i & 0x3FFFFFFF) << 2) | 2 | div)
        b = struct.unpack('<Q', P('<d', v))[0]
        if b & 0x3FFFFFFFF == 0:
            r = (b >> 32) | div
            if repr(rk_value(r)) == repr(value):
                out.append(r)
    return out


def rk_value(r):
    """The double that a 32-bit RK value denotes (reference implementation)."""
    if r & 2:
        i = r >> 2
        if i & 0x20000000:
            i -= 0x40000000
        v = float(i)
    else:
        v = struct.unpack('<d', P('<Q', (r & 0xFFFFFFFC) << 32))[0]
    if r & 1:
        v = v / 100.0
    return v


# ---------------------------------------------------------------- cell records (BIFF3+)

def r_number(r, c, xf, v):
    return rec(0x203, P('<HHHd', r, c, xf, v))


def r_rk(r, c, xf, rk):
    return rec(0x27E, P('<HHHI', r, c, xf, rk))


def r_mulrk(r, c0, items):
    d = P('<HH', r, c0)
    for xf, rk in items:
        d += P('<HI', xf, rk)
    return rec(0xBD, d + P('<H', c0 + len(items) - 1))


def r_labelsst(r, c, xf, i):
    return rec(0xFD, P('<HHHI', r, c, xf, i))


def r_label8(r, c, xf, s, wide=None):
    return rec(0x204, P('<HHH', r, c, xf) + ustr(s, 2, wide))


def r_label5(r, c, xf, b):
    return rec(0x204, P('<HHH', r, c, xf) + bstr(b, 2))


def r_rstring8(r, c, xf, s, runs, wide=None):
    d = P('<HHH', r, c, xf) + ustr(s, 2, wide) + P('<H', len(runs))
    for a, b in runs:
        d += P('<HH', a, b)
    return rec(0xD6, d)


def r_rstring5(r, c, xf, b, runs):
    d = P('<HHH', r, c, xf) + bstr(b, 2) + P('<B', len(runs))
    for a, f in runs:
        d += P('<BB', a, f)
    return rec(0xD6, d)


def r_boolerr(r, c, xf, v, is_err):
    return rec(0x205, P('<HHHBB', r, c, xf, v, is_err))


def r_blank(r, c, xf):
    return rec(0x201, P('<HHH', r, c, xf))


def r_mulblank(r, c0, xfs):
    return rec(0xBE, P('<HH', r, c0) + b''.join(P('<H', x) for x in xfs) + P('<H', c0 + len(xfs) - 1))


def fres_num(v):
    return P('<d', v)


def fres_str():
    return b'\x00\x00\x00\x00\x00\x00\xff\xff'


def fres_bool(b):
    return bytes([1, 0, b, 0, 0, 0, 0xff, 0xff])


def fres_err(e):
    return bytes([2, 0, e, 0, 0, 0, 0xff, 0xff])


def fres_empty():
    return b'\x03\x00\x00\x00\x00\x00\xff\xff'


TOK_1 = b'\x1e\x01\x00'   # tInt 1


def r_formula(biff, r, c, xf, res8, tokens=TOK_1, flags=0):
    if biff >= 50:
        return rec(0x06, P('<HHH8sHIH', r, c, xf, res8, flags, 0, len(tokens)) + tokens)
    code = {30: 0x206, 40: 0x406, 45: 0x406}[biff]
    return rec(code, P('<HHH8sHH', r, c, xf, res8, flags, len(tokens)) + tokens)


def r_formula2(r, c, attr3, res8, tokens=TOK_1, flags=0):
    return rec(0x06, P('<HH3s8sBB', r, c, attr3, res8, flags, len(tokens)) + tokens)


def r_string8(s, wide=None, splits=()):
    """STRING record, optionally chopped at character positions `splits`
    (each CONTINUE starts with its own option byte)."""
    units = s.encode('utf-16-le', 'surrogatepass')
    n = len(units) // 2
    cuts = sorted(set(x for x in splits if 0 < x < n))
    pieces = []
    prev = 0
    for x in cuts + [n]:
        pieces.append(units[2 * prev:2 * x])
        prev = x
    out = b''
    for k, p in enumerate(pieces):
        can = all(p[i + 1] == 0 for i in range(0, len(p), 2))
        w = (not can) if wide is None else (True if wide else not can)
        body = bytes([1]) + p if w else bytes([0]) + p[::2]
        if k == 0:
            out += rec(0x207, P('<H', n) + body)
        else:
            out += rec(0x3C, body)
    return out


def dimension(biff, r0, r1, c0, c1):
    if biff >= 80:
        return rec(0x200, P('<IIHHH', r0, r1, c0, c1, 0))
    if biff >= 30:
        return rec(0x200, P('<HHHHH', r0, r1, c0, c1, 0))
    return rec(0x000, P('<HHHH', r0, r1, c0, c1))


# ---------------------------------------------------------------- BIFF8 / BIFF5 globals

def font8(name='Arial', height=200, options=0, colour=0x7FFF, weight=400, esc=0, ul=0, family=2, charset=0, wide=None):
    return rec(0x31, P('<HHHHHBBBB', height, options, colour, weight, esc, ul, family, charset, 0) + ustr(name, 1, wide))


def font5(name=b'Arial', height=200, options=0, colour=0x7FFF, weight=400, esc=0, ul=0, family=2, charset=0):
    return rec(0x31, P('<HHHHHBBBB', height, options, colour, weight, esc, ul, family, charset, 0) + bstr(name, 1))


def format8(key, s, wide=None):
    return rec(0x41E, P('<H', key) + ustr(s, 2, wide))


def format5(key, b):
    return rec(0x41E, P('<H', key) + bstr(b, 1))


def xf8(font=0, fmt=0, style=False, parent=0, prot=1, align=0x20, rot=0, indent=0, used=0,
        bord1=0, bord2=0, patt=0x20C0):
    ptype = (prot & 3) | (4 if style else 0) | ((0xFFF if style else parent) << 4)
    return rec(0xE0, P('<HHHBBBBIIH', font, fmt, ptype, align, rot, indent, used, bord1, bord2, patt))


def xf5(font=0, fmt=0, style=False, parent=0, prot=1, align=0x20, orient=0, used=0, b1=0x20C0, b2=0):
    ptype = (prot & 3) | (4 if style else 0) | ((0xFFF if style else parent) << 4)
    return rec(0xE0, P('<HHHBBII', font, fmt, ptype, align, orient | used, b1, b2))


def std_xfs(biff, extra):
    """15 style XFs + default cell XF + extra cell XFs [(font, fmt)]; index of first extra = 16."""
    f = xf8 if biff >= 80 else xf5
    out = b''.join(f(style=True) for _ in range(15)) + f()
    for font, fmt in extra:
        out += f(font=font, fmt=fmt)
    return out


def assemble(biff, glob, sheets, trailer=b'', gap=b'', glob_after=b''):
    """BIFF5/7/8 workbook stream.
    glob: bytes of globals records after BOF and before the BOUNDSHEETs;
    glob_after: after the BOUNDSHEETs.  sheets: list of
    dict(name, vis, type, body(bytes, without BOF/EOF), kind, wide)
    `name` is str for BIFF8, bytes before. Optionally 'order': physical order."""
    head = bof(biff, 5) + glob
    bs_sizes = []
    for sh in sheets:
        nm = ustr(sh['name'], 1, sh.get('wide')) if biff >= 80 else bstr(sh['name'], 1)
        bs_sizes.append(4 + 6 + len(nm))
    pos = len(head) + sum(bs_sizes) + len(glob_after) + len(EOF)
    kinds = {0: 0x10, 1: 0x40, 2: 0x20, 6: 0x06}
    subs = []
    for sh in sheets:
        kind = sh.get('kind', kinds.get(sh.get('type', 0), 0x10))
        subs.append(bof(sh.get('biff', biff), kind) + sh['body'] + EOF)
    order = list(range(len(sheets)))
    perm = sorted(order, key=lambda i: sheets[i].get('order', i))
    offs = {}
    blob = b''
    for i in perm:
        blob += gap
        offs[i] = pos + len(blob)
        blob += subs[i]
    bs = b''
    for i, sh in enumerate(sheets):
        nm = ustr(sh['name'], 1, sh.get('wide')) if biff >= 80 else bstr(sh['name'], 1)
        bs += rec(0x85, P('<iBB', offs[i], sh.get('vis', 0), sh.get('type', 0)) + nm)
    return head + bs + glob_after + EOF + blob + trailer


def codepage(cp):
    return rec(0x42, P('<H', cp))


def datemode(m):
    return rec(0x22, P('<H', m))


# ---------------------------------------------------------------- SST with explicit CONTINUE control

def sst_records(strings, splits, total=None, limit=8224):
    """strings: list of dict(s, wide, runs, pho); splits: iterator-like list of
    piece sizes (bytes of payload per record, applied cyclically, min 1).

    A break inside character data re-emits an option byte (with the string's
    remaining characters possibly re-encoded: `rewide` list toggles).
    Breaks may fall: between strings; inside character data (at a character
    boundary); between rich-text runs; anywhere in phonetic data.  Never inside
    a string header, never inside a run (that is what Excel writes).
    """
    pieces = [bytearray(P('<II', total if total is not None else len(strings), len(strings)))]
    sizes = list(splits) or [limit]
    k = [0]

    def cap():
        # the first record always keeps the table header and the first string header together
        return min(max(sizes[k[0] % len(sizes)], 16 if k[0] else 24), limit)

    def room():
        return cap() - len(pieces[-1])

    def newpiece():
        k[0] += 1
        pieces.append(bytearray())

    stats = dict(in_chars=0, in_runs=0, in_pho=0, between=0)
    for st in strings:
        s = st['s']
        units = s.encode('utf-16-le', 'surrogatepass')
        n = len(units) // 2
        runs = st.get('runs') or []
        pho = st.get('pho') or b''
        wide = bool(st.get('wide')) or not is_latin1(s)
        flags = (1 if wide else 0) | (8 if runs else 0) | (4 if pho else 0)
        hdr = P('<HB', n, flags)
        if runs:
            hdr += P('<H', len(runs))
        if pho:
            hdr += P('<i', len(pho))
        # Excel keeps the header together with at least one character
        if room() < len(hdr) + (2 if n else 0):
            newpiece()
            stats['between'] += 1
        pieces[-1] += hdr
        i = 0
        rew = list(st.get('rewide') or [])
        while i < n:
            step = 2 if wide else 1
            take = min(room() // step, n - i)
            if take > 0:
                chunk = units[2 * i:2 * (i + take)]
                pieces[-1] += chunk if wide else chunk[::2]
                i += take
            if i < n:
                rest = units[2 * i:]
                can = all(rest[j + 1] == 0 for j in range(0, len(rest), 2))
                w = rew.pop(0) if rew else wide
                # a later part may switch encodings if its own chars allow it
                wide = True if (w or not can) else False
                newpiece()
                stats['in_chars'] += 1
                # only the low bit is meaningful on continuation option bytes
                pieces[-1] += bytes([1 if wide else 0])
        for a, b in runs:
            if room() < 4:
                newpiece()
                stats['in_runs'] += 1
            pieces[-1] += P('<HH', a, b)
        j = 0
        while j < len(pho):
            if room() <= 0:
                newpiece()
                stats['in_pho'] += 1
            take = min(room(), len(pho) - j)
            pieces[-1] += pho[j:j + take]
            j += take
    out = rec(0xFC, bytes(pieces[0]))
    for p in pieces[1:]:
        out += rec(0x3C, bytes(p))
    return out, stats


# ---------------------------------------------------------------- BIFF8 minimal book helper

def globals8(fonts=None, formats=(), xfs=None, dmode=None, cp=1200, extra=b'', pre=b''):
    out = pre + codepage(cp)
    if dmode is not None:
        out += datemode(dmode)
    out += fonts if fonts is not None else font8() * 4
    for key, s in formats:
        out += format8(key, s)
    out += xfs if xfs is not None else std_xfs(80, [])
    return out + extra


def globals5(fonts=None, formats=(), xfs=None, dmode=None, cp=1252, extra=b'', pre=b''):
    out = pre
    if cp is not None:
        out += codepage(cp)
    if dmode is not None:
        out += datemode(dmode)
    out += fonts if fonts is not None else font5() * 4
    for key, b in formats:
        out += format5(key, b)
    out += xfs if xfs is not None else std_xfs(50, [])
    return out + extra
