"""Independent writer of NAME / EXTERNSHEET / SUPBOOK records and formula tokens (BIFF5/7/8)."""
import struct

from xv import biff as B

P = struct.pack

BUILTIN = {0: 'Consolidate_Area', 1: 'Auto_Open', 2: 'Auto_Close', 3: 'Extract', 4: 'Database', 5: 'Criteria', 6: 'Print_Area', 7: 'Print_Titles',
           8: 'Recorder', 9: 'Data_Form', 10: 'Auto_Activate', 11: 'Auto_Deactivate', 12: 'Sheet_Title', 13: '_FilterDatabase'}


def r_name(v, name, tokens, flags=0, ext=0, itab=0, key=0, wide=None, extra=b'', menu=(0, 0, 0, 0), enc='latin-1'):
    """`name` is str.  menu: the four (unused) text lengths; `extra` follows the tokens (array data, menu texts...)"""
    if v >= 80:
        body = B.ustr(name, 1, wide, lenpos=False)
        n = B.u16len(name)
    else:
        body = name.encode(enc)
        n = len(body)
    return B.rec(0x18, P('<HBBHHH4B', flags, key, n, len(tokens), ext, itab, *menu) + body + tokens + extra)


def supbook_self(nsheets):
    return B.rec(0x1AE, P('<H', nsheets) + b'\x01\x04')


def supbook_addin():
    return B.rec(0x1AE, P('<H', 1) + b'\x01\x3A')


def externname8(name, opts=0, other=0, tail=b'\x02\x00\x1c\x17'):
    return B.rec(0x23, P('<HI', opts, other) + B.ustr(name, 1) + tail)


def supbook_ext(url, sheets, wide=None, limit=8224):
    d = P('<H', len(sheets)) + B.ustr(url, 2)
    for s in sheets:
        d += B.ustr(s, 2, wide)
    return B.rec(0x1AE, d[:limit]) + b''.join(B.rec(0x3C, d[p:p + limit]) for p in range(limit, len(d), limit))


def externsheet8(refs, limit=8224):
    d = P('<H', len(refs)) + b''.join(P('<HHH', *(x & 0xFFFF for x in r)) for r in refs)
    # a CONTINUE break falls between two entries
    cut = 2 + (limit - 2) // 6 * 6
    out = B.rec(0x17, d[:cut])
    d = d[cut:]
    while d:
        out += B.rec(0x3C, d[:limit // 6 * 6])
        d = d[limit // 6 * 6:]
    return out


def externsheet5(ty, b):
    if ty == 3:
        return B.rec(0x17, bytes([len(b), 3]) + b)
    if ty > 4:          # a name that is not encoded
        return B.rec(0x17, bytes([len(b) + 1, ty]) + b)
    if ty == 2:
        return B.rec(0x17, b'\x01\x02')
    if ty == 4:
        return B.rec(0x17, b'\x01\x04')
    return B.rec(0x17, bytes([len(b) + 1, 1]) + b)


# ---------------------------------------------------------------- tokens
CLS = {'R': 0x20, 'V': 0x40, 'A': 0x60}


def t_int(n):
    return b'\x1e' + P('<H', n)


def t_num(x):
    return b'\x1f' + P('<d', x)


def t_bool(b):
    return b'\x1d' + bytes([b])


def t_err(e):
    return b'\x1c' + bytes([e])


def t_str(v, s, wide=None, enc='latin-1'):
    if v >= 80:
        return b'\x17' + B.ustr(s, 1, wide)
    b = s.encode(enc)
    return b'\x17' + bytes([len(b)]) + b


def addr(v, r, c, rr, cr):
    """(row word, column field) with relative flags; r/c may be negative offsets"""
    if v >= 80:
        return P('<H', r & 0xFFFF), P('<H', (c & 0xFF) | (cr << 14) | (rr << 15))
    return P('<H', (r & 0x3FFF) | (cr << 14) | (rr << 15)), P('<B', c & 0xFF)


def t_ref(v, cls, r, c, rr=0, cr=0, base=0x04):
    a, b = addr(v, r, c, rr, cr)
    return bytes([CLS[cls] + base]) + a + b


def t_area(v, cls, r1, c1, r2, c2, f=(0, 0, 0, 0), base=0x05):
    """f = (row1 rel, row2 rel, col1 rel, col2 rel)"""
    a1, b1 = addr(v, r1, c1, f[0], f[2])
    a2, b2 = addr(v, r2, c2, f[1], f[3])
    return bytes([CLS[cls] + base]) + a1 + a2 + b1 + b2


def sheetpart(v, ref):
    """ref: BIFF8 index into EXTERNSHEET; before: (ixals, first, last)"""
    if v >= 80:
        return P('<H', ref)
    return P('<h8xhh', *ref)


def t_ref3d(v, cls, ref, r, c, rr=0, cr=0):
    a, b = addr(v, r, c, rr, cr)
    return bytes([CLS[cls] + 0x1A]) + sheetpart(v, ref) + a + b


def t_area3d(v, cls, ref, r1, c1, r2, c2, f=(0, 0, 0, 0)):
    a1, b1 = addr(v, r1, c1, f[0], f[2])
    a2, b2 = addr(v, r2, c2, f[1], f[3])
    return bytes([CLS[cls] + 0x1B]) + sheetpart(v, ref) + a1 + a2 + b1 + b2


def t_name(v, cls, n):
    """n: 1-based name index"""
    return bytes([CLS[cls] + 3]) + P('<H', n) + (b'\0\0' if v >= 80 else b'\0' * 12)


def t_namex(v, cls, ref, n):
    if v >= 80:
        return bytes([CLS[cls] + 0x19]) + P('<HHH', ref, n, 0)
    return bytes([CLS[cls] + 0x19]) + P('<h8xH12x', ref, n)


def t_func(cls, fid):
    return bytes([CLS[cls] + 1]) + P('<H', fid)


def t_funcvar(cls, fid, n):
    return bytes([CLS[cls] + 2]) + P('<BH', n, fid)


def t_attr(sub, w=0, tail=b''):
    return b'\x19' + bytes([sub]) + P('<H', w) + tail


PAREN = b'\x15'
MISSARG = b'\x16'
ISECT, UNION, RANGE = b'\x0f', b'\x10', b'\x11'
BIN = {'+': 3, '-': 4, '*': 5, '/': 6, '^': 7, '&': 8, '<': 9, '<=': 10, '=': 11, '>=': 12, '>': 13, '<>': 14}
UPLUS, UMINUS, PERCENT = b'\x12', b'\x13', b'\x14'
