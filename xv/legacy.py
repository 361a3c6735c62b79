"""Independent writer for BIFF2-BIFF4W worksheets and BIFF2 specifics."""
import struct

from xv.biff import EOF, P, bof, bstr, rec

# number formats stored (by ordinal) in BIFF2-4 files, with the cell type of a number
FMTS = [('General', 2), ('0', 2), ('0.00', 2), ('#,##0', 2), ('d-mmm-yy', 3), ('h:mm', 3), ('0%', 2), ('m/d/yy h:mm', 3),
        ('@', 2), ('0.00E+00', 2), ('yyyy', 3), ('"day" 0', 2)]


def r_format(biff, s):
    """FORMAT record; s: bytes"""
    if biff <= 30:
        return rec(0x1E, bstr(s, 1))
    return rec(0x41E, b'\0\0' + bstr(s, 1))


def r_font(biff, name=b'Arial', height=200, options=0, colour=0x7FFF):
    if biff <= 21:
        return rec(0x31, P('<HH', height, options) + bstr(name, 1))
    return rec(0x231, P('<HHH', height, options, colour) + bstr(name, 1))


def r_xf(biff, font=0, fmt=0, style=False, parent=0, prot=1, hor=0, wrap=0, vert=0, orient=0, used=0, bkg=0, brd=0):
    if biff == 21:
        return rec(0x43, P('<BBBB', font, 0, (fmt & 0x3F) | ((prot & 3) << 6), hor))
    par = 0xFFF if style else parent
    if biff == 30:
        return rec(0x243, P('<BBBBHHI', font, fmt, (prot & 3) | (4 if style else 0), used << 2, hor | (wrap << 3) | (par << 4), bkg, brd))
    return rec(0x443, P('<BBHBBHI', font, fmt, (prot & 3) | (4 if style else 0) | (par << 4), hor | (wrap << 3) | (vert << 4) | (orient << 6),
                        used << 2, bkg, brd))


def attr3(prot=1, font=0, fmt=0, align=0, xf=0):
    """BIFF2 cell attributes; prot: 1 locked, 2 hidden"""
    return bytes([(xf & 0x3F) | ((prot & 3) << 6), (fmt & 0x3F) | ((font & 3) << 6), align])


# ---- BIFF2 cell records

def b2_blank(r, c, a):
    return rec(0x01, P('<HH3s', r, c, a))


def b2_integer(r, c, a, v):
    return rec(0x02, P('<HH3sH', r, c, a, v))


def b2_number(r, c, a, v):
    return rec(0x03, P('<HH3sd', r, c, a, v))


def b2_label(r, c, a, b):
    return rec(0x04, P('<HH3s', r, c, a) + bstr(b, 1))


def b2_boolerr(r, c, a, v, e):
    return rec(0x05, P('<HH3sBB', r, c, a, v, e))


def b2_string(b):
    return rec(0x07, bstr(b, 1))


def ixfe(i):
    return rec(0x44, P('<H', i))


def r_string5(b, splits=()):
    """STRING record of BIFF3-7, optionally continued"""
    cuts = sorted(set(x for x in splits if 0 < x < len(b))) + [len(b)]
    out = rec(0x207, P('<H', len(b)) + b[:cuts[0]])
    for a, z in zip(cuts, cuts[1:]):
        out += rec(0x3C, b[a:z])
    return out


def sheet(biff, body):
    """a single-sheet BIFF2/3/4 file"""
    return bof(biff, 0x10) + body + EOF


def book4w(sheets, glob=b'', pad=b''):
    """BIFF4W workbook; sheets: [(name bytes, body)]; pad: bytes between sheet substreams"""
    head = bof(45, 0x100) + glob
    names = b''.join(rec(0x85, bstr(n, 1)) for n, _ in sheets)
    off = len(head) + 8 + len(names)
    out = head + rec(0x8E, P('<i', off)) + names
    for n, body in sheets:
        sub = bof(40, 0x10) + body + EOF
        out += rec(0x8F, P('<i', len(sub)) + bstr(n, 1)) + sub + pad
    return out + EOF
