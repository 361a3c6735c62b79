"""C31: arbitrary damage to a file never hangs the reader or leaks the file (mutation fuzzing)."""
import gc
import io
import os
import resource
import time

from hypothesis import strategies as st

from checks.c24_refusal import Scratch, records
from xv import biff as B
from xv import fmla as F
from xv import ole
from xv import rich
from xv.quiet import Quiet
from xv.runner import Sub, import_repo, Violation, REPO

xlrd = import_repo()
PROPERTY = 'C31'
SAMPLES = []
for _n in ('Formate.xls', 'biff4_no_format_no_window2.xls', 'formula_test_names.xls', 'formula_test_sjmachin.xls', 'issue20.xls', 'namesdemo.xls', 'picture_in_cell.xls', 'profiles.xls', 'ragged.xls', 'xf_class.xls', 'invalid_formula.xls'):
    try:
        with open(os.path.join(REPO, 'tests', 'samples', _n), 'rb') as _f:
            SAMPLES.append(_f.read())
    except OSError:
        pass
CPU = 20.0            # seconds for one file of at most some ten kilobytes
KINDS = ['flip', 'flip', 'byte', 'byte', 'u16', 'u16', 'u32', 'cut', 'del', 'ins', 'dup', 'swap', 'rlen', 'rcode', 'rdel', 'rdup', 'rbody', 'rbody', 'rbody', 'rtrunc', 'rinsert', 'rmove', 'rfield', 'rfield', 'rfield']
U16 = [0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 255, 256, 16384, 65534, 0x0A, 0x3C]
U32 = [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 65536, 0x1000000, 512]
CODES = [0x203, 0xFD, 0x204, 0xD6, 0x27E, 0xBD, 0x208, 0x06, 0x205, 0x7D, 0x55, 0x99, 0xAB, 0x201, 0xBE, 0x200, 0x1B8, 0x800, 0x0A, 0x5D, 0x1B6, 0x1C, 0x8C, 0x15F, 0x221, 0x4BC, 0x1B0, 0x1B1, 0x225, 0xE5, 0x23E, 0xA0, 0x41, 0x1B, 0x1A,
         0x207, 0xFC, 0x31, 0x41E, 0xE0, 0x85, 0x22, 0x42, 0x23, 0x17, 0x2F, 0x5C, 0x1AE, 0x18, 0x92, 0x293, 0x3C, 0x809, 0x09, 0x02, 0x03, 0x04, 0x44, 0x24, 0x25, 0x43, 0x243, 0x443, 0x1E, 0x56, 0x8E, 0x8F, 0x3E, 0x08]


def strategy():
    mut = st.tuples(st.sampled_from(KINDS), st.integers(0, 1 << 20), st.integers(0, 1 << 20), st.integers(0, 1 << 16))
    src = st.one_of(rich.blob(), rich.blob(), rich.blob(), st.integers(0, len(SAMPLES) - 1)) if SAMPLES else rich.blob()
    return st.fixed_dictionaries(dict(src=src, muts=st.lists(mut, min_size=1, max_size=8), opt=st.fixed_dictionaries(dict(formatting_info=st.booleans(), ragged_rows=st.booleans(), on_demand=st.booleans(), ignore_workbook_corruption=st.booleans(), verbosity=st.sampled_from([0, 0, 0, 1, 2, 3, 4]))),
                                      supply=st.sampled_from(['bytes', 'mmap', 'mmap', 'read']), raw=st.sampled_from([True, True, False])))


def mutate(data, muts):
    """data: bytes of a bare stream or a container"""
    d = bytearray(data)
    for kind, a, b, c in muts:
        if not d:
            return b''
        if kind[0] == 'r' and d[:2] not in (b'\xd0\xcf',):
            rs = [r for r in records(bytes(d)) if r[0] + 4 + r[2] <= len(d)]
            if not rs:
                continue
            p, code, n = rs[a % len(rs)]
            q = p + 4 + n
            if kind == 'rlen':
                d[p + 2:p + 4] = B.P('<H', [n + 1, max(n - 1, 0), 0, c, n + 4, 0xFFFF, 8224, max(n - 2, 0)][b % 8] & 0xFFFF)
            elif kind == 'rcode':
                d[p:p + 2] = B.P('<H', CODES[c % len(CODES)] if b % 4 else c & 0xFFFF)
            elif kind == 'rdel':
                del d[p:q]
            elif kind == 'rdup':
                d[q:q] = d[p:q] * (1 + b % 3)
            elif kind == 'rtrunc':
                k = b % (n + 1)
                d[p:q] = B.rec(code, bytes(d[p + 4:p + 4 + k]))
            elif kind == 'rbody' and n:
                d[p + 4 + b % n] = [c & 255, 0, 255, d[p + 4 + b % n] ^ (1 << c % 8), 128, 127][c // 256 % 6]
            elif kind == 'rfield' and n > 1:
                k = p + 4 + b % (n - 1)
                d[k:k + 2] = B.P('<H', U16[c % len(U16)])
            elif kind == 'rinsert':
                d[p:p] = B.rec(CODES[c % len(CODES)], bytes((b + i * c) & 255 for i in range(c // 64 % 40)))
            elif kind == 'rmove':
                x = d[p:q]
                del d[p:q]
                rs = records(bytes(d)) or [(0, 0, 0)]
                k = rs[b % len(rs)][0]
                d[k:k] = x
            continue
        k = a % len(d)
        if kind == 'flip':
            d[k] ^= 1 << b % 8
        elif kind in ('byte', 'rbody'):
            d[k] = c & 255
        elif kind in ('u16', 'rfield'):
            d[k & ~1:(k & ~1) + 2] = B.P('<H', U16[b % len(U16)])
        elif kind == 'u32':
            d[k & ~3:(k & ~3) + 4] = B.P('<I', U32[b % len(U32)])
        elif kind == 'cut':
            del d[k:]
        elif kind == 'del':
            del d[k:k + 1 + b % 64]
        elif kind == 'ins':
            d[k:k] = bytes((c + i) & 255 for i in range(1 + b % 64))
        elif kind == 'dup':
            d[k:k] = d[k:k + 1 + b % 600]
        elif kind == 'swap':
            j = b % len(d)
            n = 1 + c % 512
            x, y = bytes(d[k:k + n]), bytes(d[j:j + n])
            d[k:k + len(y)] = y
            d[j:j + len(x)] = x
    return bytes(d[:200000])


def hlink_area(data):
    """cells covered by hyperlinks: hyperlink_map has an entry for each, so they are part of the output"""
    area, i = 0, data.find(b'\xb8\x01')
    while i >= 0:
        if i + 12 <= len(data):
            r1, r2, c1, c2 = (data[i + 4 + 2 * k] | data[i + 5 + 2 * k] << 8 for k in range(4))
            area += max(0, r2 - r1 + 1) * max(0, c2 - c1 + 1)
        i = data.find(b'\xb8\x01', i + 1)
    return area


def walk(bk):
    n = 0
    for sh in bk.sheets():
        rows = sh.nrows
        for r in range(rows):
            sh.row_len(r)
        some = range(rows) if rows <= 60 else list(range(30)) + list(range(rows - 30, rows))
        for r in some:
            t, v = sh.row_types(r), sh.row_values(r)
            if len(t) != len(v) or len(t) != sh.row_len(r):
                raise Violation('row %d of %d cells has %d types and %d values' % (r, sh.row_len(r), len(t), len(v)))
            for x, y in zip(t, v):
                if x not in (0, 1, 2, 3, 4, 5, 6):
                    raise Violation('cell type %r' % (x,))
                if x in (0, 1, 6) and not isinstance(y, str):
                    raise Violation('cell of type %d with value %r' % (x, y))
                n += 1
            for c in list(range(min(len(t), 5))) + list(range(max(0, len(t) - 3), len(t))):
                sh.cell(r, c)
        if sh.ncols and sh.nrows and not sh.ragged_rows:
            sh.col_values(sh.ncols - 1, 0, 50)
    return n


def check(case, ctx):
    with ctx.building():
        if isinstance(case['src'], int):
            data = SAMPLES[case['src']]
        else:
            R = rich.make(case['src'], versions=rich.ALL)
            data = R.bytes(raw=case['raw'])
        data = mutate(data, case['muts'])
    judge(data, case, ctx)


def judge(data, case, ctx):
    if hlink_area(data) > 300000:
        ctx.label('huge hyperlink')
        return
    if data[:2] == b'PK':
        return
    log = io.StringIO()
    kw = dict(case['opt'], logfile=log)
    t0 = time.process_time()
    bk = exc = None
    with Scratch(data) as s:
        with Quiet() as q:
            try:
                if case['supply'] == 'bytes':
                    bk = xlrd.open_workbook(file_contents=data, **kw)
                else:
                    bk = xlrd.open_workbook(s.p, use_mmap=case['supply'] == 'mmap', **kw)
            except Exception as e:
                exc = e
                held = s.held()
        ctx.true(q.data == b'', 'written to stdout or stderr: %r' % q.data)
        ctx.true(not isinstance(exc, MemoryError), 'opening a file of %d bytes runs out of memory' % len(data))
        if exc is not None:
            ctx.label('refused')
            ctx.true(not held, 'after %s: %s the file is still held: %s' % (type(exc).__name__, exc, held))
            ctx.nt()
        else:
            ctx.label('opened')
            with Quiet() as q:
                if bk.on_demand:
                    for i in range(bk.nsheets):
                        try:
                            bk.sheet_by_index(i)
                        except MemoryError:
                            raise Violation('loading a sheet of a file of %d bytes runs out of memory' % len(data))
                        except Exception:
                            ctx.label('sheet refused')
                    if all(bk.sheet_loaded(i) for i in range(bk.nsheets)):
                        walk(bk)
                else:
                    ctx.eq(s.held(), [], 'the file is still held by a book not opened on demand')
                    n = walk(bk)
                    ctx.label('cells' if n else 'no cells')
            ctx.true(q.data == b'', 'written to stdout or stderr: %r' % q.data)
            bk.release_resources()
            ctx.true(not s.held(), 'the file is still held after release_resources: %s' % s.held())
            ctx.nt()
    t = time.process_time() - t0
    ctx.true(t < CPU, 'a file of %d bytes takes %.0f CPU seconds' % (len(data), t))
    if t > 1:
        ctx.label('slow')
        gc.collect()


OPT = st.fixed_dictionaries(dict(formatting_info=st.booleans(), ragged_rows=st.booleans(), on_demand=st.booleans(), ignore_workbook_corruption=st.booleans(), verbosity=st.sampled_from([0, 0, 0, 1, 2, 3, 4])))
SUPPLY = st.sampled_from(['bytes', 'mmap', 'mmap', 'read'])


# ---- defined names with arbitrary token sequences
def token(v):
    cls = st.sampled_from('RVA')
    small = st.integers(0, 6)
    word = st.one_of(small, st.sampled_from(U16))
    fid = st.one_of(st.sampled_from([0, 1, 4, 100, 255, 9999, 0x8001, 0x7FFF]), st.integers(0, 400))
    if v >= 80:
        part = word.map(lambda n: B.P('<H', n))
    else:
        part = st.tuples(st.sampled_from([-1, 0, 1, -2, 5]), st.integers(-1, 3), st.integers(-1, 3)).map(lambda t: B.P('<h8xhh', *t))
    leaf = [word.map(F.t_int), st.sampled_from([0.0, 1.5, -2.0, 1e300]).map(F.t_num), st.integers(0, 255).map(F.t_bool), st.integers(0, 255).map(F.t_err),
            st.text('a"\xe9', max_size=5).map(lambda x: F.t_str(v, x)), st.just(b'\x16'),
            st.tuples(cls, word).map(lambda t: F.t_name(v, t[0], t[1])), st.tuples(cls, small, word).map(lambda t: F.t_namex(v, *t)) if v >= 80 else st.just(F.MISSARG),
            st.tuples(cls, st.sampled_from([4, 0x0C, 0x0A]), word, st.integers(0, 255), st.booleans(), st.booleans()).map(lambda t: F.t_ref(v, t[0], t[2], t[3], t[4], t[5], base=t[1])),
            st.tuples(cls, st.sampled_from([5, 0x0D, 0x0B]), word, word, st.integers(0, 255)).map(lambda t: F.t_area(v, t[0], t[2], t[4], t[3], t[4], base=t[1])),
            st.tuples(cls, st.sampled_from([0x1A, 0x1B, 0x1C, 0x1D]), part, st.binary(min_size=10, max_size=10)).map(lambda t: bytes([F.CLS[t[0]] + t[1]]) + t[2] + t[3][:(4, 8, 4, 8)[t[1] - 0x1A] if v >= 80 else (3, 6, 3, 6)[t[1] - 0x1A]]),
            st.tuples(cls, st.sampled_from([0, 6, 7, 8, 9, 0x0E, 0x0F, 0x10]), st.binary(min_size=8, max_size=8)).map(lambda t: bytes([F.CLS[t[0]] + t[1]]) + t[2][:7 if t[1] == 0 else 6 if t[1] in (6, 7, 8) else 2])]
    ops = [st.sampled_from(list(range(3, 0x16))).map(lambda x: bytes([x])), st.tuples(cls, fid).map(lambda t: F.t_func(*t)), st.tuples(cls, fid, st.integers(0, 5)).map(lambda t: F.t_funcvar(*t)),
           st.tuples(st.integers(0, 255), word).map(lambda t: F.t_attr(*t)), st.tuples(st.just(4), small).map(lambda t: F.t_attr(4, t[1], bytes(2 * t[1] + 2))), st.just(b'\x19\x10\0\0')]
    return st.one_of(st.one_of(*leaf), st.one_of(*leaf), st.one_of(*ops), st.one_of(*ops), st.binary(min_size=1, max_size=4))


def names_strategy():
    def mk(v):
        # mostly enough operands first
        seq = st.tuples(st.lists(token(v), max_size=12), st.integers(0, 4), st.integers(0, 3)).map(lambda t: b''.join(F.t_int(i) for i in range(t[1])) + b''.join(t[0]))
        return st.fixed_dictionaries(dict(v=st.just(v), toks=st.lists(st.tuples(seq, st.sampled_from([0, 0, 0, 0x20, 8, 0x1000, 2, 0xFFFF])), min_size=1, max_size=5), noise=st.integers(0, 3), opt=OPT, supply=SUPPLY))
    return st.sampled_from([80, 80, 80, 70, 50]).flatmap(mk)


def names_check(case, ctx):
    with ctx.building():
        v = case['v']
        if v >= 80:
            sup = [F.supbook_self(3), F.supbook_ext('\x01o.xls', ['X']), F.supbook_addin()]
            ext = b''.join(sup[case['noise']:] + sup[:case['noise']]) + F.externsheet8([(0, 0, 0), (1, 1, 2), (2, 0xFFFE, 0xFFFE), (0, 0xFFFE, 0xFFFE), (1, 0xFFFF, 0xFFFF), (5, 0, 9)])
        else:
            ext = B.rec(0x16, B.P('<H', 3)) + F.externsheet5(4, b'') + F.externsheet5(3, b'S1') + F.externsheet5(1, b'o')
        recs = b''.join(F.r_name(v, '\x06' if fl & 0x20 else 'n%d' % i, t, fl) for i, (t, fl) in enumerate(case['toks']))
        names = ['S0', 'S1', 'S2']
        sheets = [dict(name=n if v >= 80 else n.encode(), type=2 if i == 1 and case['noise'] == 3 else 0, body=B.r_number(0, 0, 15, 1.0)) for i, n in enumerate(names)]
        data = B.assemble(v, B.globals8() if v >= 80 else B.globals5(), sheets, glob_after=ext + recs)
    judge(data, case, ctx)


# ---- damaged containers
SIDS = st.one_of(st.integers(-5, 12), st.integers(0, 60), st.sampled_from([127, 128, 255, 1 << 16, 0x7FFFFFFF, -0x80000000]))


def ole_strategy():
    hdr = st.tuples(st.just('hdr'), st.sampled_from([44, 48, 56, 60, 64, 68, 72, 76, 80, 84, 24, 28, 30, 32]), SIDS)
    sat = st.tuples(st.just('sat'), st.integers(0, 127), SIDS)
    dir_ = st.tuples(st.just('dir'), st.tuples(st.integers(0, 4), st.sampled_from([64, 66, 67, 68, 72, 76, 76, 116, 120])), SIDS)
    ssat = st.tuples(st.just('ssat'), st.integers(0, 127), SIDS)
    cyc = st.tuples(st.just('msatx'), st.tuples(st.integers(0, 8), st.integers(0, 8)), st.integers(0, 8))
    return st.fixed_dictionaries(dict(src=rich.blob(), ops=st.lists(st.one_of(hdr, sat, dir_, ssat, cyc), min_size=1, max_size=5), extra=st.integers(0, 3), cut=st.sampled_from([None] * 6 + [100, 511, 512, 1000, 1536, 3000]), opt=OPT, supply=SUPPLY))


def ole_check(case, ctx):
    with ctx.building():
        R = rich.make(case['src'], versions=[80, 70, 50])
        stream = R.bytes(raw=True)
        if case['extra'] == 1:
            stream = stream[:3000]
        d = bytearray(ole.wrap(stream, 'Workbook' if R.v >= 80 else 'Book'))
        n = len(d)

        def put(off, fmt, val):
            m = {'i': 1 << 32, 'H': 1 << 16, 'B': 256}[fmt]
            val %= m
            if fmt == 'i' and val >= 1 << 31:
                val -= 1 << 32
            if 0 <= off and off + 4 <= n:
                d[off:off + B.struct.calcsize('<' + fmt)] = B.P('<' + fmt, val)

        def get(off):
            return B.struct.unpack_from('<i', bytes(d), off)[0] if 0 <= off and off + 4 <= n else 0
        sat0, dir0, ssat0 = get(76), get(48), get(60)
        for op, a, x in case['ops']:
            if op == 'hdr':
                put(a, 'i' if a > 40 else 'H', x)
            elif op == 'sat':
                put(512 + 512 * sat0 + 4 * a, 'i', x)
            elif op == 'ssat':
                put(512 + 512 * ssat0 + 4 * a, 'i', x)
            elif op == 'dir':
                put(512 + 512 * dir0 + 128 * a[0] + a[1], 'H' if a[1] == 64 else 'B' if a[1] < 68 else 'i', x)
            else:
                put(68, 'i', a[0])
                put(72, 'i', 1)
                put(512 + 512 * a[0] + 508, 'i', a[1])
                put(512 + 512 * a[1] + 508, 'i', x)
        if case['cut'] is not None:
            d = d[:case['cut']]
    judge(bytes(d), case, ctx)


# ---- one field of one record, every kind of record being equally likely
HOW = st.sampled_from(['u16', 'u16', 'u16', 'u32', 'u32', 'len', 'len', 'pad', 'add', 'insert', 'insert', 'dup', 'sst'])


def field_strategy():
    return st.fixed_dictionaries(dict(src=rich.blob(), kind=st.integers(0, 1 << 16), which=st.integers(0, 1 << 16), how=HOW, at=st.integers(0, 1 << 10), x=st.integers(0, 1 << 10),
                                      opt=st.fixed_dictionaries(dict(formatting_info=st.sampled_from([True, True, False]), ragged_rows=st.booleans(), on_demand=st.booleans(), ignore_workbook_corruption=st.just(False), verbosity=st.sampled_from([0, 0, 1, 2, 3]))),
                                      supply=SUPPLY))


def field_mutant(case, ctx):
    R = rich.make(case['src'], versions=rich.ALL)
    d = bytearray(R.bytes(raw=True))
    size = len(d)
    kinds = {}
    for r in records(bytes(d)):
        if r[0] + 4 + r[2] <= len(d):
            kinds.setdefault(r[1], []).append(r)
    l = kinds[sorted(kinds)[case['kind'] % len(kinds)]]
    p, code, n = l[case['which'] % len(l)]
    how, at, x = case['how'], case['at'], case['x']
    at = at % max(1, min(n, 24) if at % 4 else n)
    ctx.label('record %04x' % code)
    if how == 'sst' and 0xFC in kinds and kinds[0xFC][0][2] > 7:
        p = kinds[0xFC][0][0]
        d[p + 8:p + 12] = B.P('<I', [0x7FFFFFFF, 0x20000000, 0xFFFFFFFF, 0x7FFFFFF0, 1000, at][x % 6])
    elif how == 'len':
        k = (0, n // 2, n - 1, at)[x % 4] if n else 0
        d[p:p + 4 + n] = B.rec(code, bytes(d[p + 4:p + 4 + k]))
    elif how == 'pad':
        d[p:p + 4 + n] = B.rec(code, bytes(d[p + 4:p + 4 + n]) + bytes([(0, 255, 1)[x % 3]]) * (1 + at))
    elif how == 'add' and n > 1:
        k = p + 4 + at % (n - 1)
        d[k:k + 2] = B.P('<H', d[k] + d[k + 1] * 256 + (1, -1, 2, 100)[x % 4] & 0xFFFF)
    elif how == 'insert':
        d[p:p] = B.rec((CODES + [0x809, 0x409, 0x209] * 2)[x % (len(CODES) + 6)], (bytes(24), bytes(range(24)), b'\xff' * 24)[at % 3][:at % 25])
    elif how == 'dup':
        d[p:p] = d[p:p + 4 + n]
    elif how == 'u32' and n > 11 and x % 2:
        k = p + 4 + at // 8 % 3 * 4
        d[k:k + 4] = B.P('<I', U32[x // 2 % len(U32)])
    elif how == 'u32' and n > 3:
        k = p + 4 + at % (n - 3)
        d[k:k + 4] = B.P('<I', U32[x % len(U32)])
    elif n > 1:
        k = p + 4 + at % (n - 1)
        d[k:k + 2] = B.P('<H', U16[x % len(U16)])
    if len(d) != size and R.v >= 50:
        # the sheets have moved
        for q, c, m in records(bytes(d)):
            if c == 0x85 and m >= 4 and q + 8 <= len(d):
                pos, = B.struct.unpack_from('<I', d, q + 4)
                if pos > p:
                    d[q + 4:q + 8] = B.P('<I', pos + len(d) - size & 0xFFFFFFFF)
            elif c in (0x0A, 0x809) and q > p:
                break
    return bytes(d)


def field_check(case, ctx):
    with ctx.building():
        data = field_mutant(case, ctx)
    judge(data, case, ctx)


SUBS = [
    Sub('fields', field_strategy, field_check, quick=4000, thorough=250000, rule='generated workbooks of which one field of one record is set to a boundary value, or one record is cut or padded, all kinds of record being equally likely'),
    Sub('names', names_strategy, names_check, quick=2500, thorough=150000, rule='workbooks whose defined names hold arbitrary token sequences (unknown functions, sheets, names, operands missing), any options; non-trivial = opened or refused'),
    Sub('container', ole_strategy, ole_check, quick=2500, thorough=150000, rule='OLE2 workbooks with damaged header fields, allocation tables, MSAT chains and directory entries, or cut short; non-trivial = opened or refused'),
    Sub('mutations', strategy, check, quick=5000, thorough=300000, rule='generated and sample workbooks with 1-8 byte or record mutations; non-trivial = opened or refused (files announcing more than 300000 hyperlinked cells are skipped)'),
]
