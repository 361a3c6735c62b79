"""C25: records xlrd does not interpret never change what is read (metamorphic: insert, compare)."""
import io

from hypothesis import strategies as st

from xv import biff as B
from xv import rich
from xv import snap
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C25'
P = B.P

# codes with a meaning for cells, names, formats or sheet attributes, by place
SHEET = {0x203, 0xFD, 0x204, 0xD6, 0x27E, 0xBD, 0x208, 0x06, 0x406, 0x206, 0x205, 0x7D, 0x55, 0x99, 0xAB, 0x201, 0xBE, 0x200, 0x00, 0x1B8, 0x800, 0x0A, 0x5D, 0x1B6, 0x1C, 0x8C,
         0x15F, 0x221, 0x21, 0x4BC, 0xBC, 0x1B0, 0x1B1, 0x225, 0x25, 0xE5, 0x23E, 0xA0, 0x41, 0x1B, 0x1A, 0x207, 0x07, 0x236, 0x36, 0x37, 0x2F}
OLD = SHEET | {0x41E, 0x1E, 0x31, 0x231, 0x293, 0x92, 0x56, 0x443, 0x243, 0x43, 0x22, 0x42, 0x5C, 0x44, 0x03, 0x02, 0x04, 0x05, 0x01, 0x45, 0x08, 0x24, 0x20, 0x3E}
GLOB = {0xFC, 0x31, 0x231, 0x41E, 0x1E, 0xE0, 0x443, 0x243, 0x43, 0x85, 0x22, 0x42, 0x8C, 0x23, 0x223, 0x17, 0x16, 0x2F, 0x5C, 0x8E, 0x8F, 0x1AE, 0x18, 0x218, 0x92, 0x293, 0x0A, 0x44, 0x45}
BOFS = {0x809, 0x409, 0x209, 0x009}
# records every Excel file is full of
COMMON = [0x0B, 0x20B, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x19, 0x1D, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x33, 0x3D, 0x40, 0x4D, 0x51, 0x50, 0x5B, 0x5E, 0x5F, 0x60, 0x61, 0x62, 0x63, 0x64,
          0x80, 0x81, 0x82, 0x83, 0x84, 0x86, 0x8D, 0x90, 0x91, 0x94, 0x95, 0x96, 0x97, 0x98, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0xA1, 0xA9, 0xAE, 0xAF, 0xB0, 0xB1, 0xB6, 0xBF, 0xC1, 0xC5, 0xD3, 0xD7, 0xDA, 0xDC, 0xDD,
          0xE1, 0xE2, 0xE3, 0xE9, 0xEB, 0xEC, 0xED, 0xEF, 0xFF, 0x12F, 0x13D, 0x160, 0x161, 0x19, 0x1AF, 0x1B2, 0x1B5, 0x1B7, 0x1B9, 0x1BA, 0x1BC, 0x1BD, 0x1BE, 0x1C0, 0x1C1, 0x862, 0x863, 0x867, 0x868, 0x872,
          0x87C, 0x87D, 0x88B, 0x88C, 0x88D, 0x88E, 0x892, 0x896, 0x89A, 0x89B, 0x8A3, 0x1002, 0x1033, 0x1034, 0x105F]
# codes of other versions, which mean nothing in a BIFF5-8 worksheet
FOREIGN = [0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x20, 0x24, 0x3E, 0x44, 0x45, 0x43, 0x243, 0x443, 0x56, 0x1E, 0x41E, 0x31, 0x231, 0xE0, 0x293, 0x92, 0x22, 0x42, 0xFC, 0x18, 0x85, 0x17, 0x1AE, 0x23, 0x5C]
TAILS = [b'', b'\0\0', bytes(4), bytes(18), B.EOF, b'\xff' * 9, bytes(range(40)), B.r_number(1, 1, 0, 99.0), B.bof(80, 5), B.bof(80, 0x10) + B.EOF]


def payload():
    return st.one_of(st.binary(max_size=24), st.sampled_from(TAILS), st.integers(0, 8224).map(lambda n: bytes(n)), st.sampled_from([B.r_number(0, 0, 15, 12345.0), B.EOF * 3, B.bof(80, 0x20), b'\xff' * 30]))


def item():
    return st.tuples(st.sampled_from(['common', 'common', 'code', 'alias', 'alias', 'foreign', 'zeros', 'chart', 'cont']), st.integers(0, 65535), payload(), st.integers(0, 3))


def strategy():
    return st.fixed_dictionaries(dict(blob=rich.blob(), ins=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1000), item()), max_size=8), everywhere=st.one_of(st.none(), st.none(), item()), fi=st.booleans(), ragged=st.booleans(), verb=st.sampled_from([0, 0, 0, 1, 2]),
                                      gap=st.sampled_from(TAILS), trailer=st.sampled_from(TAILS), extra=st.lists(st.tuples(st.sampled_from([1, 2, 6, 1, 2, 6, 3, 4, 5, 0x10]), st.integers(0, 5), st.integers(0, 5), st.integers(0, 2)), max_size=3)))


def render(it, place, v, ctx):
    """the bytes of one inserted item, given where it goes ('h', 't' or a sheet number)"""
    kind, code, data, k = it
    insheet = not isinstance(place, str)
    if kind == 'chart':
        # an embedded chart: any records between its BOF and EOF
        if not insheet or v < 30 and v != 21 and v != 20:
            return b''
        inner = [b'', B.rec(0x1002, bytes(16)), B.rec(0x203, P('<HHHd', 0, 0, 0, 99.0)), B.rec(0x204, bytes(9)) + B.rec(0x55, b'\x07\0') + B.rec(0x23E, bytes(18)), B.rec(0xE5, P('<H4H', 1, 0, 3, 0, 3))][(code + k) % 5]
        if code % 7 == 0:
            inner += B.rec(0x1033, b'') + B.rec(0x100, data) + B.rec(0x1034, b'')
        ctx.label('chart')
        # a chart, or something else that does not belong to the sheet
        return B.bof(45 if v == 45 else v, (0x20, 0x20, 0x20, 0x06, 0x40, 0x10)[(code >> 4) % 6]) + inner + B.EOF
    if kind == 'zeros':
        # four zero bytes are padding in a worksheet; elsewhere they are an empty record of no known kind
        ctx.label('zeros')
        return bytes(4) * (k + 1)
    if kind == 'common':
        code = COMMON[code % len(COMMON)]
    elif kind == 'foreign':
        code = FOREIGN[code % len(FOREIGN)]
    elif kind == 'alias':
        # differs from a known code in one or two bits
        known = sorted(OLD if v < 45 or (v == 45 and insheet) else SHEET if insheet else GLOB)
        code = known[code % len(known)] ^ [0x1000, 0x200, 0x100, 0x400, 0x800, 0x2000, 0x8000, 1, 2, 0x80][code // 256 % 10]
    bad = OLD if v < 45 or (v == 45 and insheet) else SHEET if insheet else GLOB
    if code in bad or code in BOFS or code == 0x3C or (code & 0xFF == 9 and not insheet):
        return b''
    out = B.rec(code, data)
    if kind == 'cont':
        out += B.rec(0x3C, data[:k * 9]) * (k + 1)
    ctx.label(kind)
    return out


def check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], versions=rich.ALL)
        v = R.v
        plain = R.bytes()
        n = [0]
        where = {}
        for p, i, it in case['ins']:
            places = (['h'] if v >= 45 else []) + (['t'] if v >= 50 else []) + [j for j, s in enumerate(R.sheets) if s.type == 0]
            place = places[p % len(places)]
            groups = R.ghead if place == 'h' else R.gtail if place == 't' else R.sheets[place].groups
            where.setdefault((place, i % (len(groups) + 1)), []).append(it)

        def ins(place, i):
            if not isinstance(place, str) and R.sheets[place].type != 0:
                return b''
            out = b''.join(render(it, place, v, ctx) for it in where.get((place, i), ()))
            if case['everywhere'] is not None:
                out += render(case['everywhere'], place, v, ctx)
            n[0] += bool(out)
            return out
        sheets = list(R.sheets)
        if v >= 50:
            for t, at, order, vis in case['extra']:
                nm = 'Extra %d' % len(sheets)
                # where references by sheet number exist the new sheets go to the end of the list
                at = len(sheets) if 'names' in R.features else at % (len(sheets) + 1)
                sh = rich.Sheet(nm if v >= 80 else nm.encode(), t, vis, [B.rec(0x1002, bytes(16)), B.r_number(0, 0, 15, 77.0)], order=order)
                sheets.insert(at, sh)
                ctx.label('extra%d' % t)
            # the inserted sheets shift the numbering by which ins() knows the sheets
            idx = dict((id(s), i) for i, s in enumerate(R.sheets))
            ins2 = lambda p, i: ins(p, i) if isinstance(p, str) else ins(idx[id(sheets[p])], i) if id(sheets[p]) in idx else b''
        else:
            ins2 = ins
        gap = case['gap'] if v >= 50 else b''
        changed = R.bytes(ins=ins2, gap=gap, trailer=case['trailer'], sheets=sheets)
    kw = dict(formatting_info=case['fi'], ragged_rows=case['ragged'], verbosity=case['verb'])
    a = snap.snap_book(xlrd.open_workbook(file_contents=plain, logfile=io.StringIO(), **kw))
    b = snap.snap_book(xlrd.open_workbook(file_contents=changed, logfile=io.StringIO(), **kw))
    ctx.label('v%d' % v)
    d = snap.diff(a, b)
    ctx.true(d is None, 'inserting records, sheets or padding that mean nothing changed what was read: %s' % d)
    ctx.nt(changed != plain and n[0] > 0 and any(len(r) for s in a['sheets'] for r in s['grid']))


SUBS = [
    Sub('insert', strategy, check, quick=3500, thorough=100000, rule='BIFF2-8 workbooks with uninterpreted records, charts, other sheets and padding inserted; non-trivial = at least one record inserted into a book with cells'),
]
