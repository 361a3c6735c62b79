"""Formula expressions: generation from a byte string, token emission, reference evaluation,
and an independent parser of formula text (Excel precedence).

An expression is a tuple:
  ('num', float) ('int', n) ('str', s) ('bool', b) ('err', code) ('miss',)
  ('ref', sheet, cls, r, c, rr, cr)             sheet None = 2D
  ('area', sheet, cls, r1, c1, r2, c2, f)       f = (row1, row2, col1, col2) relative flags
  ('un', op, a) ('pct', a) ('bin', op, a, b) ('rop', 'isect'|'union'|'range', a, b)
  ('name', k) ('namex', k) ('fn', id, args) ('sum1', a) ('attr', kind, a) ('par', a) ('memf', a)
sheet is ('s', i, j) (BOUNDSHEET indexes), ('del',), ('ext',) or ('any',).
"""
import re
import struct

from xv import biff as B
from xv import fmla as F
from xv.ftab import FUNCS

ERRS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}
STRS = ['', 'a', 'A', 'abc', 'ABC', 'b', '12', '-3.5', '1e3', '"', 'say "hi"', "it's", ' ', 'TRUE', 'x,y', 'é', 'nan', '7x', '1,5', 'A1', '#N/A', '%', 'a\0', ' a', 'a ', 'L' * 200 + 'a', 'L' * 200 + 'b']
NUMS = [0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 10.0, 100.0, 0.1, 0.25, 1e10, 1e300, -2.5, 1e-5, 1e16, 123456.789, 1 / 3.0, -0.0, 5e-324, 1.5, 2.75]
HAZARDS = [('bin', '^', ('num', 1e300), ('num', 2.0)), ('bin', '/', ('int', 1), ('int', 0)), ('bin', '*', ('str', 'x'), ('int', 2)), ('err', 7),
           ('bin', '^', ('un', '-', ('int', 8)), ('num', 0.5)), ('pct', ('str', '7x')), ('un', '-', ('str', '')), ('bin', '*', ('num', 1e300), ('num', 1e300)),
           ('sum1', ('int', 4)), ('un', '-', ('miss',)), ('bin', '+', ('err', 7), ('int', 1)), ('un', '-', ('err', 42)), ('fn', 65, (('int', 1),) * 3)]
NARGS0 = sorted(k for k, v in FUNCS.items() if v[1] == v[2])
NVAR = sorted(k for k, v in FUNCS.items() if v[1] != v[2] and k not in (1, 100))
BINOPS = ['+', '-', '*', '/', '^', '&', '<', '<=', '=', '>=', '>', '<>']


ADDINS = ['EDATE', 'NETWORKDAYS', 'X', 'My.Func_2', 'Summe\u00c4', '\u65e5\u672c', 'a"b']


class Gen:
    """Decodes a byte string into expressions (out of bytes: the simplest choice)."""

    def __init__(self, data, v, nsheets, nnames, mode='name', bad=True, worksheets=None, base=(0, 0), two_d=False):
        self.two_d = two_d
        self.d, self.p = data, 0
        self.v, self.ns, self.nn, self.mode, self.bad, self.ws, self.base = v, nsheets, nnames, mode, bad, worksheets, base
        self.nadd = 0

    def b(self, n=256):
        if self.p >= len(self.d):
            return 0
        x = self.d[self.p]
        self.p += 1
        return x % n

    def w(self):
        return self.b() * 256 + self.b()

    def sheet(self):
        k = self.b(16) if self.bad else self.b(12)
        ws = self.ws if self.ws is not None else list(range(self.ns))
        if k < 8:
            i = ws[self.b(len(ws))]
            return ('s', i, i)
        if k < 12:
            i, j = sorted((ws[self.b(len(ws))], ws[self.b(len(ws))]))
            return ('s', i, j)
        if k < 14:
            i, j = sorted((self.b(self.ns), self.b(self.ns)))
            return ('s', i, j)
        return [('del',), ('ext',), ('any',)][self.b(3 if self.v >= 80 else 2)]

    def rows(self):
        return 65536 if self.v >= 80 else 16384

    def row(self, rel):
        k = self.b(4)
        h = self.rows() // 2
        if self.b(24) == 23:
            return [0, h - 1, -h if rel else 2 * h - 1, -1 if rel else h][self.b(4)]
        r = self.b(6) if k < 3 else self.w() % self.rows()
        if rel:
            r = self.b(13) - 6 if k < 3 else (r + h) % self.rows() - h
        return r

    def col(self, rel):
        k = self.b(4)
        if self.b(24) == 23:
            return [0, 127, -128 if rel else 255, -1 if rel else 128][self.b(4)]
        c = self.b(5) if k < 3 else self.b()
        if rel:
            c = self.b(9) - 4 if k < 3 else (c + 128) % 256 - 128
        return c

    def cellpos(self):
        """row, column, flags of a cell formula: coordinates are absolute"""
        return self.row(0), self.col(0), self.b(2), self.b(2)

    def relf(self):
        k = self.b(8)
        return (0, 0) if k < 5 else [(1, 1), (1, 0), (0, 1)][k - 5]

    def ref(self, sheet):
        cls = 'R' if self.b(8) < 6 else 'VA'[self.b(2)]
        two = self.b(5) < 2
        if self.mode == 'name':
            if not two:
                rr, cr = self.relf()
                return ('ref', sheet, cls, self.row(rr), self.col(cr), rr, cr)
            k = self.b(8)
            f = [(0, 0, 0, 0)] * 4 + [(1, 1, 1, 1), (1, 1, 0, 0), (0, 0, 1, 1)]
            f = f[k] if k < 7 else tuple(self.b(2) for _ in range(4))
            r1, r2, c1, c2 = self.row(f[0]), self.row(f[1]), self.col(f[2]), self.col(f[3])
            if f[0] == f[1] and r1 > r2:
                r1, r2 = r2, r1
            if f[2] == f[3] and c1 > c2:
                c1, c2 = c2, c1
            return ('area', sheet, cls, r1, c1, r2, c2, f)
        if not two:
            r, c, rr, cr = self.cellpos()
            return ('ref', sheet, cls, r, c, rr, cr)
        a, b = self.cellpos(), self.cellpos()
        r1, r2 = sorted((a[0], b[0]))
        c1, c2 = sorted((a[1], b[1]))
        return ('area', sheet, cls, r1, c1, r2, c2, (a[2], b[2], a[3], b[3]))

    def anysheet(self):
        return None if self.mode == 'cell' and self.b(2) or self.two_d and self.b(8) == 7 else self.sheet()

    def near(self, e):
        """an operand close to the reference e: the same markers, other coordinates, perhaps another sheet"""
        cell = self.mode == 'cell'      # there the coordinates are absolute whatever the flags
        d = lambda x, rel, n: x if self.b(3) else min(max(x + self.b(5) - 2, -n // 2 if rel and not cell else 0),
                                                      (n // 2 if rel and not cell else n) - 1)
        n = self.rows()
        sh = e[1]
        k = self.b(8)
        if k == 7 and sh is not None:
            sh = self.sheet()
        elif k == 6 and (self.two_d or self.mode == 'cell'):
            sh = ('s', self.ws[0], self.ws[0]) if sh is None and self.ws else None
        if e[0] == 'ref':
            return ('ref', sh, e[2], d(e[3], e[5], n), d(e[4], e[6], 256), e[5], e[6])
        f = e[7]
        r1, r2, c1, c2 = d(e[3], f[0], n), d(e[5], f[1], n), d(e[4], f[2], 256), d(e[6], f[3], 256)
        if (cell or f[0] == f[1]) and r1 > r2:
            r1, r2 = r2, r1
        if (cell or f[2] == f[3]) and c1 > c2:
            c1, c2 = c2, c1
        return ('area', sh, e[2], r1, c1, r2, c2, f)

    def refexpr(self, d):
        k = self.b(16)
        if d <= 0 or k < 8:
            if k == 7 and self.nn:
                return ('namex' if self.b(8) == 7 else 'name', self.b(self.nn))
            return self.ref(self.anysheet())
        if k < 10:
            return ('rop', 'union', self.refexpr(d - 1), self.refexpr(d - 1))
        if k < 12:
            a = self.refexpr(d - 1)
            if a[0] in ('ref', 'area') and self.b(2):
                return ('rop', 'isect', a, self.near(a))
            return ('rop', 'isect', a, self.refexpr(d - 1))
        if k < 14:
            # one sheet for both operands
            sh = self.anysheet()
            return ('rop', 'range', self.rangeop(d - 1, sh), self.rangeop(d - 1, sh))
        if k == 14:
            return ('memf' if self.b(2) else 'par', self.refexpr(d - 1))
        if self.b(2) == 0:
            return ('fn', 78, (self.refexpr(d - 1), self.expr(d - 2), self.expr(d - 2)))
        return ('fn', 1, (self.expr(d - 2), self.refexpr(d - 1), self.refexpr(d - 1)))

    def rangeop(self, d, sh):
        k = self.b(8)
        if d <= 0 or k < 6:
            return self.ref(sh)
        if k == 6:
            return ('rop', 'range', self.rangeop(d - 1, sh), self.rangeop(d - 1, sh))
        return ('rop', 'isect', self.ref(sh), self.ref(sh))

    def const(self):
        k = self.b(16)
        if k < 4:
            return ('int', self.w() if k == 3 else self.b(5))
        if k < 8:
            if k == 7:
                x = struct.unpack('<d', bytes(self.b() for _ in range(8)))[0]
                return ('num', x if x - x == 0 else 1.5)
            return ('num', NUMS[self.b(len(NUMS))])
        if k < 12:
            return ('str', STRS[self.b(len(STRS))])
        if k < 14:
            return ('bool', self.b(2))
        if k == 14:
            return ('err', sorted(ERRS)[self.b(7)])
        return ('name', self.b(self.nn)) if self.nn else ('int', 7)

    def expr(self, d):
        k = self.b(32)
        if d <= 0 or k < 6:
            return self.const()
        if k < 8:
            return self.refexpr(d - 1)
        if k < 17:
            return ('bin', BINOPS[self.b(12)], self.expr(d - 1), self.expr(d - 1))
        if k < 20:
            return ('un', '-+'[self.b(4) == 3], self.expr(d - 1))
        if k < 21:
            return ('pct', self.expr(d - 1))
        if k < 22:
            return ('par', self.expr(d - 1))
        if k < 23:
            if self.nadd and self.b(2):
                return ('addin', self.b(self.nadd), tuple(self.arg(d - 1) for _ in range(self.b(4)))) if self.b(8) < 7 else ('addin', self.b(self.nadd), tuple(self.const() for _ in range(26 + self.b(4))))
            return ('attr', self.b(3), self.expr(d - 1))
        if k < 24:
            return ('sum1', self.arg(d - 1))
        if k < 26:
            f = NARGS0[self.w() % len(NARGS0)]
            return ('fn', f, tuple(self.arg(d - 1) for _ in range(FUNCS[f][1])))
        if k < 28:
            f = NVAR[self.w() % len(NVAR)]
            lo, hi = FUNCS[f][1:]
            n = lo + self.b(min(hi, lo + 3) - lo + 1)
            if self.b(40) == 39:
                n = hi
            return ('fn', f, tuple(self.arg(d - 1 if n < 6 else 0) for _ in range(n)))
        if k < 30:
            return ('fn', 1, (self.test(d - 1),) + tuple(self.arg(d - 1) for _ in range(1 + self.b(2))))
        n = 1 + self.b(4)
        i = ('int', self.b(n + 2)) if self.b(3) < 2 else self.expr(d - 1)
        return ('fn', 100, (i,) + tuple(self.arg(d - 1) for _ in range(n)))

    # constants only, mostly of the type the operator wants
    def typed(self, want, d):
        if self.b(16) == 15:
            return self.expr(d) if self.b(2) else self.typed('nsb'[self.b(3)], d)
        k = self.b(16)
        if k == 15 and self.nn:
            return ('name', self.b(self.nn))
        if d > 0 and k >= 13:
            if k == 13:
                return ('par', self.typed(want, d - 1))
            t = ('miss',) if want == 'n' and self.b(8) == 7 else self.typed(want, d - 1)
            if self.b(5) == 4:      # an argument without a value: of importance only when it is chosen
                t = HAZARDS[self.b(len(HAZARDS))]
            if self.b(2):
                args = (self.typed('b', d - 1), t) + ((self.typed(want, d - 1),) if self.b(3) else ())
                return ('fn', 1, args)
            n = 1 + self.b(4)
            if self.b(12) == 11:
                n = 29
            args = [self.typed(want, d - 2 if n < 29 else 0) for _ in range(n)]
            args[self.b(n)] = t
            return ('fn', 100, (('int', n if n == 29 and self.b(2) else 1 + self.b(n)) if self.b(4) else self.typed('n', d - 1),) + tuple(args))
        if want == 'n':
            if d <= 0 or k < 4:
                return ('int', self.b(6)) if k & 1 else ('num', NUMS[self.b(len(NUMS))])
            if k < 6:
                return ('un', '-' if self.b(4) else '+', self.typed('n', d - 1))
            if k < 7:
                return ('pct', self.typed('n', d - 1))
            if k < 8:
                return ('str', ['12', '-3.5', '1e3', '0', '7x', ''][self.b(6)])
            op = '+-*/^'[self.b(5)]
            if op == '^':
                return ('bin', op, self.typed('n', d - 1), ('int', self.b(4)) if self.b(3) else self.typed('n', d - 1))
            return ('bin', op, self.typed('n', d - 1), self.typed('n', d - 1))
        if want == 's':
            if d <= 0 or k < 5:
                return ('str', STRS[self.b(len(STRS))])
            return ('bin', '&', self.typed('sn'[self.b(4) == 3], d - 1), self.typed('sn'[self.b(4) == 3], d - 1))
        if d <= 0 or k < 2:
            return ('bool', self.b(2))
        op = BINOPS[6 + self.b(6)]
        j = self.b(8)
        if j < 3:
            a = self.typed('n', 0)
            return ('bin', op, a, a if self.b(2) else self.typed('n', 0))
        if j == 7 and self.b(2):
            w = ['', 'a', 'b', 'A']
            long = ('str', 'k' * 150)
            return ('bin', op, ('bin', '&', ('bin', '&', long, long), ('str', w[self.b(4)])), ('bin', '&', ('bin', '&', long, long), ('str', w[self.b(4)])))
        if j < 6 and self.b(4) == 3:
            w = ['a', ' a', 'a ', ' ', '', 'A', 'a\0', 'a  ']
            return ('bin', ('=', '<>')[self.b(2)], ('str', w[self.b(8)]), ('str', w[self.b(8)]))
        if j < 6:
            w = ['a', 'A', 'abc', 'ABC', 'aBc', 'b', 'B', 'Z', '', '1', '9', '10']
            return ('bin', op, ('str', w[self.b(12)]), ('str', w[self.b(12)]))
        return ('bin', op, self.typed('sn'[self.b(2)], d - 1), self.typed('sn'[self.b(2)], d - 1))

    def test(self, d):
        k = self.b(4)
        if k == 0:
            return ('bool', self.b(2))
        if k == 1:
            return ('bin', BINOPS[6 + self.b(6)], self.expr(d - 1), self.expr(d - 1))
        return self.expr(d)

    def arg(self, d):
        k = self.b(8)
        if k == 0:
            return ('miss',)
        if k < 3:
            return self.refexpr(d)
        return self.expr(d)

    def top(self, d):
        return self.refexpr(d) if self.b(2) else self.expr(d)


# ------------------------------------------------------------------ tokens
class Emit:
    """Token writer.  ext: the (BIFF8) EXTERNSHEET table under construction."""

    def __init__(self, v, selfidx=0, extidx=None, base=(0, 0), kind='name'):
        self.v, self.selfidx, self.extidx, self.base, self.kind = v, selfidx, extidx, base, kind
        self.refs = []
        self.addidx = None

    def sheetref(self, s):
        if self.v >= 80:
            if s[0] == 'addin':
                e = (self.addidx, 0xFFFE, 0xFFFE)
            elif s[0] == 's':
                e = (self.selfidx, s[1], s[2])
            elif s[0] == 'del':
                e = (self.selfidx, 0xFFFF, 0xFFFF)
            elif s[0] == 'any':
                e = (self.selfidx, 0xFFFE, 0xFFFE)
            else:
                e = (self.extidx, 0, 0)
            if e not in self.refs:
                self.refs.append(e)
            return self.refs.index(e)
        if s[0] == 's':
            return (-1, s[1], s[2])
        if s[0] == 'del':
            return (-1, -1, -1)
        return (1, 0, 0)

    def toks(self, e):
        v, t = self.v, e[0]
        if t == 'num':
            return F.t_num(e[1])
        if t == 'int':
            return F.t_int(e[1])
        if t == 'str':
            return F.t_str(v, e[1])
        if t == 'bool':
            return F.t_bool(e[1])
        if t == 'err':
            return F.t_err(e[1])
        if t == 'miss':
            return F.MISSARG
        if t == 'ref':
            _, s, cls, r, c, rr, cr = e
            if self.kind == 'shared':        # tRefN: signed offsets from the base cell
                r, c = (r - self.base[0] if rr else r), (c - self.base[1] if cr else c)
            if s is None:
                return F.t_ref(v, cls, r, c, rr, cr, base=0x0C if self.kind == 'shared' else 0x04)
            return F.t_ref3d(v, cls, self.sheetref(s), r, c, rr, cr)
        if t == 'area':
            _, s, cls, r1, c1, r2, c2, f = e
            if self.kind == 'shared':
                r1, r2 = (r1 - self.base[0] if f[0] else r1), (r2 - self.base[0] if f[1] else r2)
                c1, c2 = (c1 - self.base[1] if f[2] else c1), (c2 - self.base[1] if f[3] else c2)
            if s is None:
                return F.t_area(v, cls, r1, c1, r2, c2, f, base=0x0D if self.kind == 'shared' else 0x05)
            return F.t_area3d(v, cls, self.sheetref(s), r1, c1, r2, c2, f)
        if t == 'un':
            return self.toks(e[2]) + (F.UMINUS if e[1] == '-' else F.UPLUS)
        if t == 'pct':
            return self.toks(e[1]) + F.PERCENT
        if t == 'par':
            return self.toks(e[1]) + F.PAREN
        if t == 'bin':
            return self.toks(e[2]) + self.toks(e[3]) + bytes([F.BIN[e[1]]])
        if t == 'rop':
            return self.toks(e[2]) + self.toks(e[3]) + {'isect': F.ISECT, 'union': F.UNION, 'range': F.RANGE}[e[1]]
        if t == 'memf':
            x = self.toks(e[1])
            return b'\x29' + B.P('<H', len(x)) + x
        if t == 'name':
            return F.t_name(v, 'R', e[1] + 1)
        if t == 'namex':
            return F.t_namex(v, 'R', self.sheetref(('any',)) if v >= 80 else -self.extidx, e[1] + 1)
        if t == 'attr':
            return [F.t_attr(0x01), F.t_attr(0x40, 0x0300), F.t_attr(0x41, 0x0101)][e[1]] + self.toks(e[2])
        if t == 'sum1':
            return self.toks(e[1]) + F.t_attr(0x10)
        if t == 'addin':
            return F.t_namex(v, 'R', self.sheetref(('addin',)), e[1] + 1) + b''.join(self.toks(a) for a in e[2]) + F.t_funcvar('V', 255, len(e[2]) + 1)
        assert t == 'fn', e
        _, f, args = e
        ts = [self.toks(a) for a in args]
        if f == 1:
            ts[0] += F.t_attr(0x02, len(ts[1]) + 4)
            ts[1] += F.t_attr(0x08, 3 + (len(ts[2]) + 4 if len(ts) > 2 else 0))
            if len(ts) > 2:
                ts[2] += F.t_attr(0x08, 3)
        elif f == 100:
            n = len(ts) - 1
            ts[0] += F.t_attr(0x04, n, b'\0' * (2 * n + 2))
            ts[1:] = [x + F.t_attr(0x08, 3) for x in ts[1:]]
        x = b''.join(ts)
        if FUNCS[f][1] == FUNCS[f][2]:
            return x + F.t_func('V', f)
        return x + F.t_funcvar('V', f, len(args) | (0x80 if (f + len(args)) % 6 == 0 else 0))      # 0x80: the user was prompted for the arguments


# ------------------------------------------------------------------ reference evaluation
oBOOL, oERR, oMSNG, oNUM, oREF, oREL, oSTRG, oUNK = 3, 4, 5, 2, -1, -2, 1, 0


class Out:
    """tag: 'val' (kind, value), 'none' (no value may be given, or an error), 'any' (unspecified).
    opt: a missing value is acceptable too."""
    __slots__ = ('tag', 'kind', 'value', 'opt')

    def __init__(self, tag, kind=None, value=None, opt=False):
        self.tag, self.kind, self.value, self.opt = tag, kind, value, opt

    def __repr__(self):
        return 'Out(%s, %s, %r%s)' % (self.tag, self.kind, self.value, ', opt' if self.opt else '')


NONE, ANY = Out('none'), Out('any')
NONLOCAL = Out('any', 'nonlocal')     # a reference to something that is not a worksheet of this workbook
SIMPLE = re.compile(r'[+-]?[0-9]{1,15}(\.[0-9]{1,10})?([eE][+-]?[0-9]{1,2})?\Z')


def to_num(o):
    """-> float, None (#VALUE!) or 'any'"""
    if o.kind in (oNUM, oBOOL):
        return float(o.value)
    if SIMPLE.match(o.value):
        return float(o.value)
    if not any(ch.isdigit() for ch in o.value) and o.value.strip() == o.value:
        return None
    return 'any'


def to_text(o):
    if o.kind == oSTRG:
        return o.value
    if o.kind == oBOOL:
        return 'TRUE' if o.value else 'FALSE'
    x = o.value
    if x == 0:
        return '0' if str(x) == '0.0' else 'any'
    if x == int(x) and abs(x) < 1e15:
        return '%d' % x
    r = repr(x)
    if 1e-4 <= abs(x) < 1e15 and 'e' not in r and sum(ch.isdigit() for ch in r.lstrip('-0.')) <= 15:
        return r
    return 'any'


def num_result(x, opt):
    if isinstance(x, complex) or x - x != 0:
        return NONE
    if 0 < abs(x) < 2.3e-308:
        return ANY
    return Out('val', oNUM, x, opt)


def ev_bin(op, a, b):
    for o in (a, b):
        if o.tag == 'any':
            return ANY
    for o in (a, b):
        if o.tag == 'none' or o.kind in (oERR, oREF, oREL, oMSNG):
            return NONE
    opt = a.opt or b.opt or oBOOL in (a.kind, b.kind)
    if op == '&':
        x, y = to_text(a), to_text(b)
        if (a.kind != oSTRG and x == 'any') or (b.kind != oSTRG and y == 'any'):
            return ANY
        if B.u16len(x + y) > 32767:
            return NONE
        return Out('val', oSTRG, x + y, opt)
    if op in '+-*/^':
        x, y = to_num(a), to_num(b)
        if x == 'any' or y == 'any':
            return ANY
        if x is None or y is None:
            return NONE
        try:
            if op == '^':
                if x == 0 and y <= 0:
                    return ANY
                return num_result(x ** y, opt)
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
        except (ZeroDivisionError, OverflowError):
            return NONE
        if op in '+-' and r != 0 and abs(r) < 1e-13 * max(abs(x), abs(y)):
            return ANY
        return num_result(r, opt)
    rank = {oNUM: 0, oSTRG: 1, oBOOL: 2}
    x, y = rank[a.kind], rank[b.kind]
    if x == y:
        x, y = a.value, b.value
        if a.kind == oNUM and x != y and abs(x - y) <= 1e-13 * max(abs(x), abs(y)):
            return ANY
        if a.kind == oSTRG:
            if x != y and not (re.match(r'[A-Za-z0-9]*\Z', x) and re.match(r'[A-Za-z0-9]*\Z', y)):
                if op in ('=', '<>') and all(ord(ch) < 128 for ch in x + y):
                    pass
                else:
                    return ANY
            x, y = x.lower(), y.lower()
    r = {'<': x < y, '<=': x <= y, '=': x == y, '>=': x >= y, '>': x > y, '<>': x != y}[op]
    return Out('val', oBOOL, int(r), opt)


class Eval:
    """env.resolve(sheet) -> (lo, hi) worksheet index range or None; env.name(k) -> Out"""

    def __init__(self, resolve, name):
        self.resolve, self.name = resolve, name

    def ref(self, s, cls, box, f):
        if s is None:
            sh, sf = (0, 1), (1, 1)
        else:
            sh, sf = self.resolve(s), (0, 0)
            if sh is None:
                return NONLOCAL
        rel = any(f) or s is None
        if cls != 'R':
            return NONE
        return Out('val', oREL if rel else oREF, [tuple(sh) + tuple(box) + sf + tuple(f)])

    def ev(self, e):
        t = e[0]
        if t == 'num':
            return Out('val', oNUM, e[1])
        if t == 'int':
            return Out('val', oNUM, float(e[1]))
        if t == 'str':
            return Out('val', oSTRG, e[1])
        if t == 'bool':
            return Out('val', oBOOL, e[1])
        if t == 'err':
            return Out('val', oERR, e[1])
        if t == 'miss':
            return Out('val', oMSNG, None)
        if t == 'ref':
            _, s, cls, r, c, rr, cr = e
            return self.ref(s, cls, (r, r + 1, c, c + 1), (rr, rr, cr, cr))
        if t == 'area':
            _, s, cls, r1, c1, r2, c2, f = e
            return self.ref(s, cls, (r1, r2 + 1, c1, c2 + 1), f)
        if t in ('par', 'memf'):
            return self.ev(e[1])
        if t == 'attr':
            return self.ev(e[2])
        if t in ('name', 'namex'):
            return self.name(e[1])
        if t == 'sum1':
            self.ev(e[1])
            return NONE
        if t == 'un':
            a = self.ev(e[2])
            if a.tag != 'val':
                return a
            if a.kind in (oREF, oREL):
                return ANY if e[1] == '+' else NONE
            if a.kind in (oERR, oMSNG):
                return NONE
            if e[1] == '+':
                return Out('val', a.kind, a.value, a.opt)
            x = to_num(a)
            if x == 'any':
                return ANY
            return NONE if x is None else num_result(-x, a.opt)
        if t == 'pct':
            a = self.ev(e[1])
            if a.tag != 'val':
                return a
            if a.kind not in (oNUM, oSTRG, oBOOL):
                return NONE
            x = to_num(a)
            if x == 'any':
                return ANY
            return NONE if x is None else num_result(x / 100.0, a.opt)
        if t == 'bin':
            return ev_bin(e[1], self.ev(e[2]), self.ev(e[3]))
        if t == 'rop':
            return self.rop(e[1], self.ev(e[2]), self.ev(e[3]))
        _, f, args = e
        vals = [self.ev(a) for a in args]
        if f == 1:
            return self.f_if(vals)
        if f == 100:
            return self.f_choose(vals)
        return NONE

    def pick(self, o, opt):
        if o.tag != 'val':
            return o
        if o.kind == oMSNG:
            return Out('val', oNUM, 0, opt)
        return Out('val', o.kind, o.value, o.opt or opt)

    def f_if(self, vals):
        t = vals[0]
        if t.tag != 'val':
            return t
        if t.kind not in (oNUM, oBOOL):
            return ANY if t.kind in (oSTRG, oMSNG) else NONE
        opt = t.opt or t.value not in (0, 1)
        if t.value:
            return self.pick(vals[1], opt)
        if len(vals) == 2:
            return Out('val', oBOOL, 0, opt)
        return self.pick(vals[2], opt)

    def f_choose(self, vals):
        t = vals[0]
        if t.tag != 'val':
            return t
        if t.kind in (oERR, oREF, oREL):
            return NONE
        if t.kind == oMSNG:
            return NONE
        x = to_num(t)
        if x == 'any':
            return ANY
        if x is None or not 1 <= x < len(vals):
            return NONE
        return self.pick(vals[int(x)], t.opt or t.kind != oNUM)

    def rop(self, op, a, b):
        if a.tag == 'any' or b.tag == 'any':
            return ANY
        if a.tag == 'none' or b.tag == 'none':
            return NONE
        if a.kind not in (oREF, oREL) or b.kind not in (oREF, oREL):
            return NONE
        opt = a.opt or b.opt
        if op == 'union':
            return Out('val', oREL if oREL in (a.kind, b.kind) else oREF, a.value + b.value, opt)
        if len(a.value) != 1 or len(b.value) != 1:
            # several areas: no value, or the value of every pair
            l = [self.rop(op, Out('val', a.kind, [x]), Out('val', b.kind, [y])) for x in a.value for y in b.value]
            if op != 'isect' or ANY in l or len(l) > 64:
                return ANY
            l = [o.value[0] for o in l if o.tag == 'val']
            return Out('val', a.kind, l, True) if l and a.kind == b.kind else NONE
        x, y = a.value[0], b.value[0]
        f = x[6:]
        if f != y[6:]:
            return NONE
        if f[2] != f[3] or f[4] != f[5]:
            return ANY
        if x[1] - x[0] != 1 or y[1] - y[0] != 1:
            return ANY
        if op == 'isect':
            box = tuple((max, min)[i % 2](x[i], y[i]) for i in range(6))
            if any(box[i] >= box[i + 1] for i in (0, 2, 4)):
                return NONE
        else:
            if x[:2] != y[:2]:
                return ANY
            box = tuple((min, max)[i % 2](x[i], y[i]) for i in range(6))
        return Out('val', a.kind, [box + f], opt)


# ------------------------------------------------------------------ formula text
def walk(e):
    yield e
    t = e[0]
    kids = {'un': e[2:3], 'pct': e[1:2], 'par': e[1:2], 'memf': e[1:2], 'attr': e[2:3], 'sum1': e[1:2], 'bin': e[2:4], 'rop': e[2:4]}.get(t, ())
    if t in ('fn', 'addin'):
        kids = e[2]
    for k in kids:
        for x in walk(k):
            yield x


def norm_num(x):
    return ('un', '-', ('num', -x)) if x < 0 or (x == 0 and str(x)[0] == '-') else ('num', x)


def norm(e, sheetname, nametext):
    """expression -> canonical tree comparable with parse()"""
    t = e[0]
    n = lambda x: norm(x, sheetname, nametext)
    if t in ('num', 'int'):
        return norm_num(float(e[1]))
    if t in ('str', 'bool'):
        return e
    if t == 'err':
        return ('err', ERRS[e[1]])
    if t == 'miss':
        return e
    if t == 'ref':
        _, s, cls, r, c, rr, cr = e
        sh = sheetname(s)
        return ('rng', [(sh, (r, rr), (c, cr))])
    if t == 'area':
        _, s, cls, r1, c1, r2, c2, f = e
        sh = sheetname(s)
        a, b = (sh, (r1, f[0]), (c1, f[2])), (sh, (r2, f[1]), (c2, f[3]))
        return ('rng', [a] if a == b else [a, b])
    if t in ('par', 'memf'):
        return n(e[1])
    if t == 'attr':
        return n(e[2])
    if t in ('name', 'namex'):
        return ('name',) + nametext(e[1])
    if t == 'sum1':
        return ('fn', 'SUM', [n(e[1])] if e[1] != ('miss',) else [])
    if t == 'un':
        return ('un', e[1], n(e[2]))
    if t == 'pct':
        return ('pct', n(e[1]))
    if t == 'bin':
        return ('bin', e[1], n(e[2]), n(e[3]))
    if t == 'rop':
        a, b = n(e[2]), n(e[3])
        if e[1] == 'range':
            return mk_range(a, b)
        return ('rop', e[1], a, b)
    _, f, args = e
    args = [n(a) for a in args]
    if t == 'addin':
        return ('fn', 'CALL_ADDIN', [('str', ADDINS[f])] + args)
    return ('fn', FUNCS[f][0], [] if args == [('miss',)] else args)


def chain(t):
    return t[1] if t[0] == 'chain' else [('pt', x) for x in t[1]] if t[0] == 'rng' else [t]


def mk_range(a, b):
    """the range operator is associative: chains are flattened"""
    l = chain(a) + chain(b)
    l = [x for i, x in enumerate(l) if i == 0 or x[0] != 'pt' or x != l[i - 1]]
    if all(x[0] == 'pt' for x in l):
        return ('rng', [x[1] for x in l])
    return ('chain', l)


class BadText(Exception):
    pass


def colnum(s):
    n = 0
    for ch in s:
        n = n * 26 + ord(ch) - 64
    return n - 1


R_NUM = re.compile(r'[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?')
R_STR = re.compile(r'"((?:[^"]|"")*)"')
R_ERR = re.compile(r'#(?:NULL!|DIV/0!|VALUE!|REF!|NAME\?|NUM!|N/A)')
R_FUN = re.compile(r"([A-Z][A-Z0-9.]*|CALL_ADDIN)\(")
R_QUO = r"'(?:[^']|'')*'"
R_WORD = r"[^\W\d][\w.]*"
R_SHEET = re.compile(r"(%s|%s)(?::(%s|%s))?!" % (R_QUO, R_WORD, R_QUO, R_WORD))
R_CELLISH = re.compile(r'(?:[A-Za-z]{1,3}[0-9]+|[Rr][0-9]*(?:[Cc][0-9]*)?|[Cc][0-9]*|TRUE|FALSE)\Z', re.I)
R_A1 = re.compile(r'(\$?)([A-Z]{1,2})(\$?)([0-9]{1,5})(?![\w.(])')
R_RC = re.compile(r'R(?:([0-9]+)|\[(-?[0-9]+)\])?C(?:([0-9]+)|\[(-?[0-9]+)\])?(?![\w.(\[])')
R_NAME = re.compile(r'[^\W\d][\w.\\?]*')
CMP = ('<=', '>=', '<>', '<', '>', '=')


class Parser:
    """sheets: set of known sheet names; rc: relative references are in R1C1 notation, absolute ones in either"""

    def __init__(self, text, sheets, rc):
        self.s, self.p, self.sheets, self.rc = text, 0, sheets, rc

    def fail(self, msg):
        raise BadText('%s at %d in %r' % (msg, self.p, self.s))

    def at(self, x):
        return self.s.startswith(x, self.p)

    def parse(self):
        e = self.cmp(True)
        if self.p != len(self.s):
            self.fail('unexpected text')
        return e

    def left(self, ops, sub, u):
        a = sub(u)
        while True:
            for o in ops:
                if self.at(o):
                    self.p += len(o)
                    a = ('bin', o, a, sub(u))
                    break
            else:
                return a

    def cmp(self, u):
        return self.left(CMP, self.cat, u)

    def cat(self, u):
        return self.left(('&',), self.add, u)

    def add(self, u):
        return self.left(('+', '-'), self.mul, u)

    def mul(self, u):
        return self.left(('*', '/'), self.pow, u)

    def pow(self, u):
        return self.left(('^',), self.pct, u)

    def pct(self, u):
        a = self.un(u)
        while self.at('%'):
            self.p += 1
            a = ('pct', a)
        return a

    def un(self, u):
        if self.at('-') or self.at('+'):
            o = self.s[self.p]
            self.p += 1
            return ('un', o, self.un(u))
        return self.union(u)

    def union(self, u):
        a = self.isect()
        while u and self.at(','):
            self.p += 1
            a = ('rop', 'union', a, self.isect())
        return a

    def isect(self):
        a = self.range()
        while self.at(' '):
            self.p += 1
            a = ('rop', 'isect', a, self.range())
        return a

    def range(self):
        a, par = self.prim(None)
        last, lastpar = a, par
        while self.at(':'):
            self.p += 1
            sh = last[1][-1][0] if last[0] == 'rng' and not lastpar else None
            last, lastpar = self.prim(sh)
            a = mk_range(a, last)
        return a

    def sheetname(self, w):
        return w[1:-1].replace("''", "'") if w[0] == "'" else w

    def prim(self, sh):
        """-> (tree, parenthesised); sh: sheet of the preceding end of a range"""
        s, p = self.s, self.p
        if self.at('('):
            self.p += 1
            e = self.cmp(True)
            if not self.at(')'):
                self.fail('missing )')
            self.p += 1
            return e, True
        for rx, mk in ((R_NUM, lambda m: ('num', float(m.group()))), (R_STR, lambda m: ('str', m.group(1).replace('""', '"'))), (R_ERR, lambda m: ('err', m.group()))):
            m = rx.match(s, p)
            if m:
                self.p = m.end()
                return mk(m), False
        m = R_FUN.match(s, p)
        if m:
            self.p = m.end()
            args = []
            if self.at(')'):
                self.p += 1
                return ('fn', m.group(1), []), False
            while True:
                args.append(('miss',) if self.at(',') or self.at(')') else self.cmp(False))
                if self.at(','):
                    self.p += 1
                    continue
                if self.at(')'):
                    self.p += 1
                    return ('fn', m.group(1), args), False
                self.fail('missing , or )')
        sheet = None
        m = R_SHEET.match(s, p)
        if m:
            words = [w for w in m.groups() if w]
            ok = all(w[0] == "'" or not R_CELLISH.match(w) for w in words)
            names = [self.sheetname(w) for w in words]
            if len(words) == 1 and words[0][0] == "'" and ':' in names[0] and names[0] not in self.sheets:
                names = names[0].split(':')
            if ok and all(x in self.sheets for x in names):
                sheet = tuple(names) if len(names) == 2 and names[0] != names[1] else (names[0],)
                p = m.end()
        m = R_A1.match(s, p)
        if m and (not self.rc or m.group(1) and m.group(3)):
            self.p = m.end()
            return ('rng', [(sheet or sh, (int(m.group(4)) - 1, int(not m.group(3))), (colnum(m.group(2)), int(not m.group(1))))]), False
        m = R_RC.match(s, p)
        if m and self.rc:
            self.p = m.end()
            g = m.groups()
            row = (int(g[0]) - 1, 0) if g[0] else (int(g[1] or 0), 1)
            col = (int(g[2]) - 1, 0) if g[2] else (int(g[3] or 0), 1)
            return ('rng', [(sheet or sh, row, col)]), False
        m = R_NAME.match(s, p)
        if m:
            self.p = m.end()
            if sheet is None and m.group() in ('TRUE', 'FALSE'):
                return ('bool', int(m.group() == 'TRUE')), False
            return ('name', sheet[0] if sheet else None, m.group()), False
        self.fail('unexpected text')


def parse(text, sheets, rc=False):
    t = Parser(text, sheets, rc).parse()
    return canon(t)


def canon(t):
    """drop repeated ends of single-cell areas"""
    if t[0] == 'rng':
        l = t[1]
        return ('rng', [x for i, x in enumerate(l) if i == 0 or x != l[i - 1]])
    if t[0] in ('num', 'str', 'bool', 'err', 'miss', 'name'):
        return t
    if t[0] == 'pt':
        return t
    if t[0] == 'chain':
        return ('chain', [canon(x) for x in t[1]])
    if t[0] == 'fn':
        return ('fn', t[1], [canon(x) for x in t[2]])
    if t[0] == 'un':
        return ('un', t[1], canon(t[2]))
    if t[0] == 'pct':
        return ('pct', canon(t[1]))
    return (t[0], t[1], canon(t[2]), canon(t[3]))
