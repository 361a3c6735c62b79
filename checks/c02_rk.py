"""C02: RK decoding."""
import struct

from hypothesis import strategies as st

from xv import biff as B
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C02'


def strategy():
    return st.fixed_dictionaries(dict(
        blob=st.binary(min_size=0, max_size=1200),
        ints=st.lists(S.rk_ints, max_size=20),
        vals=st.lists(st.one_of(st.integers(-2 ** 29, 2 ** 29 - 1).map(float),
                                st.integers(-2 ** 29, 2 ** 29 - 1).map(lambda i: i / 100.0),
                                S.finite.map(lambda f: struct.unpack('<d', struct.pack('<Q', struct.unpack('<Q', struct.pack('<d', f))[0] & ~0x3FFFFFFFF))[0])), max_size=20),
        biff=st.sampled_from([80, 80, 70, 50, 40, 30]),
        layout=st.lists(st.integers(1, 200), min_size=1, max_size=6)))


def build(case):
    b = case['blob']
    rks = [struct.unpack('<I', b[i:i + 4])[0] for i in range(0, len(b) // 4 * 4, 4)] + list(case['ints'])
    want = [B.rk_value(r) for r in rks]
    for v in case['vals']:
        for r in B.rk_candidates(v):
            rks.append(r)
            want.append(v)     # round trip: encoder must come back to v itself
    body = b''
    cells = {}
    i = row = k = 0
    biff = case['biff']
    xf = 0 if biff < 50 else 15
    while i < len(rks):
        n = min(case['layout'][k % len(case['layout'])], len(rks) - i)
        k += 1
        if n == 1 or biff < 50:
            for j in range(n):
                body += B.r_rk(row, j, xf, rks[i + j])
                cells[(row, j)] = want[i + j]
        else:
            c0 = (k * 7) % (257 - n)
            body += B.r_mulrk(row, c0, [(xf, q) for q in rks[i:i + n]])
            for j in range(n):
                cells[(row, c0 + j)] = want[i + j]
        i += n
        row += 1
    if biff == 80:
        data = B.assemble(80, B.globals8(), [dict(name='a', body=body)])
    elif biff >= 50:
        data = B.assemble(biff, B.globals5(), [dict(name=b'a', body=body)])
    else:
        data = B.bof(biff, 0x10) + body + B.EOF
    return data, cells, rks


def check(case, ctx):
    with ctx.building():
        data, cells, rks = build(case)
    for r in rks:
        ctx.label('int' if r & 2 else 'float', 'div100' if r & 1 else 'plain', 'neg' if r & 0x80000000 else 'pos')
    ctx.label('biff%d' % case['biff'])
    ctx.nt(len(set(rks)) >= 4)
    sh = xlrd.open_workbook(file_contents=data, logfile=NULL).sheet_by_index(0)
    for (r, c), v in cells.items():
        got = sh.cell_value(r, c)
        ctx.eq(type(got), float, 'class of RK value')
        ctx.eq(got, v, 'RK value at %r' % ((r, c),))
        ctx.eq(sh.cell_type(r, c), 2, 'type')


class _Null:
    def write(self, s):
        pass


NULL = _Null()
SUBS = [Sub('rk', strategy, check, quick=6000, thorough=200000,
            rule='sheets of up to 340 RK/MULRK values: uniformly random 32-bit patterns, boundary integers, and encodings '
                 'of chosen doubles, laid out as RK or MULRK in BIFF3-8; non-trivial = at least 4 distinct RK patterns')]
