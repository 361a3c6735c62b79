"""C22: cell and range reference text is exact for every coordinate."""
import re

from hypothesis import strategies as st

from checks.c20_nameval import make_book, Sink
from xv import expr as X
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
import xlrd.formula as FM
PROPERTY = 'C22'

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
ROW = st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 8, 9, 10, 98, 99, 998, 999, 9998, 9999, 16383, 16384, 32767, 32768, 65534, 65535]))
COL = st.one_of(st.integers(0, 255), st.sampled_from([0, 24, 25, 26, 27, 50, 51, 52, 53, 77, 78, 127, 128, 254, 255]))


def col_text(c):
    """bijective base 26"""
    s, c = '', c + 1
    while c:
        c, d = divmod(c - 1, 26)
        s = LETTERS[d] + s
    return s


# ---- single cells and all columns
def cell_strategy():
    return st.fixed_dictionaries(dict(row=ROW, col=COL))


def cell_check(case, ctx):
    r, c = case['row'], case['col']
    ctx.nt(c > 25 or r > 8)
    ctx.label('col%d' % len(col_text(c)), 'row%d' % len(str(r + 1)))
    a = col_text(c)
    ctx.eq(xlrd.colname(c), a, 'colname(%d)' % c)
    ctx.eq(xlrd.cellname(r, c), a + str(r + 1), 'cellname(%d, %d)' % (r, c))
    ctx.eq(xlrd.cellnameabs(r, c), '$%s$%d' % (a, r + 1), 'cellnameabs(%d, %d)' % (r, c))
    ctx.eq(xlrd.cellnameabs(r, c, r1c1=1), 'R%dC%d' % (r + 1, c + 1), 'cellnameabs(%d, %d, r1c1=1)' % (r, c))


def grid_strategy():
    return st.fixed_dictionaries(dict(start=st.integers(0, 255)))


def grid_check(case, ctx):
    """every column: exact, and no two alike"""
    ctx.nt()
    seen = {}
    for i in range(702):          # A to ZZ
        c = (case['start'] + i) % 702
        t = xlrd.colname(c)
        ctx.eq(t, col_text(c), 'colname(%d)' % c)
        ctx.true(t not in seen, 'colname(%d) and colname(%r) are both %r' % (c, seen.get(t), t))
        seen[t] = c
    for c in range(702 + case['start'], 20000, 257):    # a damaged file can name any column; xlsx sheets have 16384
        ctx.eq(xlrd.colname(c), col_text(c), 'colname(%d)' % c)


# ---- ranges
def span(ix, n):
    return st.one_of(ix.map(lambda a: (a, a + 1)), st.tuples(ix, ix).map(lambda t: (min(t), max(t) + 1)))


def flags():
    return st.one_of(st.sampled_from([(0, 0, 0, 0), (1, 1, 1, 1), (1, 1, 0, 0), (0, 0, 1, 1)]), st.tuples(*[st.integers(0, 1)] * 4))


OFFR = st.one_of(st.integers(-65535, 65535), st.integers(-32768, 32767), st.integers(-3, 3))
OFFC = st.one_of(st.integers(-128, 127), st.integers(-3, 3))


def range_strategy():
    return st.fixed_dictionaries(dict(rows=span(ROW, 65536), cols=span(COL, 256), f=flags(), offs=st.tuples(OFFR, OFFR, OFFC, OFFC),
                                      browx=st.one_of(st.none(), ROW), bcolx=st.one_of(st.none(), COL), r1c1=st.sampled_from([0, 1]), kw=st.booleans()))


def rel_case(case):
    """-> (rlo, rhi, clo, chi), notation, expected ends"""
    f, o = case['f'], case['offs']
    rlo = o[0] if f[0] else case['rows'][0]
    rhi = o[1] + 1 if f[1] else case['rows'][1]
    clo = o[2] if f[2] else case['cols'][0]
    chi = o[3] + 1 if f[3] else case['cols'][1]
    rc = bool(case['r1c1'] or ((f[0] or f[1]) and case['browx'] is None) or ((f[2] or f[3]) and case['bcolx'] is None))

    def row(x, fl):
        return ((case['browx'] + x) % 65536, 1) if fl and not rc else (x, int(fl))

    def col(x, fl):
        return ((case['bcolx'] + x) % 256, 1) if fl and not rc else (x, int(fl))
    ends = [(row(rlo, f[0]), col(clo, f[2])), (row(rhi - 1, f[1]), col(chi - 1, f[3]))]
    return (rlo, rhi, clo, chi), rc, ends


def end_text(end, rc):
    (r, rr), (c, cr) = end
    if rc:
        part = lambda n, x, rel: n + ('' if rel and x == 0 else '[%d]' % x if rel else str(x + 1))
        return part('R', r, rr) + part('C', c, cr)
    return ('' if cr else '$') + col_text(c) + ('' if rr else '$') + str(r + 1)


def texts(ends, rc):
    """accepted renderings: both ends, or one of them for a single cell"""
    a, b = end_text(ends[0], rc), end_text(ends[1], rc)
    return [a + ':' + b] + ([a] if ends[0] == ends[1] else [])


def range_check(case, ctx):
    (r1, r2), (c1, c2) = case['rows'], case['cols']
    single = r2 == r1 + 1 and c2 == c1 + 1
    for rc in (0, 1):
        ends = [((r1, 0), (c1, 0)), ((r2 - 1, 0), (c2 - 1, 0))]
        want = end_text(ends[0], rc) if single else texts(ends, rc)[0]
        ctx.eq(FM.rangename2d(r1, r2, c1, c2, r1c1=rc), want, 'rangename2d(%d, %d, %d, %d, r1c1=%d)' % (r1, r2, c1, c2, rc))
    box, rc, ends = rel_case(case)
    ctx.nt(any(case['f']) or not single)
    ctx.label('rc%d' % rc, 'rel%d' % sum(case['f']), 'base%d' % ((case['browx'] is not None) * 2 + (case['bcolx'] is not None)))
    got = FM.rangename2drel(box, case['f'], browx=case['browx'], bcolx=case['bcolx'], r1c1=case['r1c1'])
    ctx.true(got in texts(ends, rc), 'rangename2drel(%r, %r, browx=%r, bcolx=%r, r1c1=%r): %r, expected %r' % (box, case['f'], case['browx'], case['bcolx'], case['r1c1'], got, texts(ends, rc)))


def relcell_strategy():
    return st.fixed_dictionaries(dict(row=ROW, col=COL, offs=st.tuples(OFFR, OFFC), f=st.tuples(st.integers(0, 1), st.integers(0, 1)), browx=st.one_of(st.none(), ROW), bcolx=st.one_of(st.none(), COL), r1c1=st.sampled_from([0, 0, 1])))


def relcell_check(case, ctx):
    rr, cr = case['f']
    r = case['offs'][0] if rr else case['row']
    c = case['offs'][1] if cr else case['col']
    # a cell that cannot be told in A1 notation for want of a base is told in R1C1 notation altogether
    rc = bool(case['r1c1'] or rr and case['browx'] is None or cr and case['bcolx'] is None)
    ctx.nt(bool(rr or cr))
    ctx.label('rel%d%d' % (rr, cr), 'base%d%d' % (case['browx'] is not None, case['bcolx'] is not None))
    end = ((case['browx'] + r) % 65536 if rr and not rc else r, rr), ((case['bcolx'] + c) % 256 if cr and not rc else c, cr)
    got = FM.cellnamerel(r, c, rr, cr, browx=case['browx'], bcolx=case['bcolx'], r1c1=case['r1c1'])
    ctx.eq(got, end_text(end, rc), 'cellnamerel(%d, %d, %d, %d, browx=%r, bcolx=%r, r1c1=%d)' % (r, c, rr, cr, case['browx'], case['bcolx'], case['r1c1']))


# ---- 3D references of a real book
CHARS = st.sampled_from(list("ABRCabcrc0123456789 _.-'!,;()&+=<>@#$%^~`{}|\"éßЖ日") + ['\U0001f600'])
SPECIAL = st.sampled_from(["A1", "XFD1", "R1C1", "RC", "R", "C", "r2", "c", "TRUE", "FALSE", "Sheet1", "Data 2019", "It's", "a'b''c", "x!y", "_a", "a.b", "1st", "2019", "Q1", "IV65536", "ABCD1", "Ünï", "日本", "a-b", "rc1", "R1", "C3", "AB12C", ".x", "a,b", "Tax", "Line\n", "A\nb"])


def name_ok(s):
    return s and len(s) <= 31 and s[0] != "'" and s[-1] != "'"


NAME = st.one_of(SPECIAL, st.text(CHARS, min_size=1, max_size=8)).filter(name_ok)


def sheet_strategy():
    return st.fixed_dictionaries(dict(
        names=st.lists(NAME, min_size=1, max_size=5, unique_by=lambda s: s.lower()), types=st.tuples(*[st.sampled_from([0, 0, 0, 2])] * 5),
        lo=st.integers(0, 4), n=st.sampled_from([1, 1, 1, 2, 3, 5]),
        rows=span(ROW, 65536), cols=span(COL, 256), f=flags(), offs=st.tuples(OFFR, OFFR, OFFC, OFFC),
        browx=st.one_of(st.none(), ROW), bcolx=st.one_of(st.none(), COL), r1c1=st.sampled_from([0, 1]), cur=st.booleans(), kw=st.booleans(), kind=st.sampled_from(['abs', 'rel', 'cur'])))


def split_prefix(text, names):
    """independent reading of a sheet prefix -> (first, last, rest)"""
    def word(p):
        if text[p:p + 1] == "'":
            m = re.compile(X.R_QUO).match(text, p)
            if not m:
                raise Violation('unterminated quote in %r' % text)
            return m.group()[1:-1].replace("''", "'"), m.end(), True
        m = re.compile(X.R_WORD).match(text, p)
        if not m:
            raise Violation('no sheet name in %r' % text)
        if X.R_CELLISH.match(m.group()):
            raise Violation('sheet name %r must be quoted in %r' % (m.group(), text))
        return m.group(), m.end(), False
    a, p, q = word(0)
    b = a
    if text[p:p + 1] == ':':
        b, p, q = word(p + 1)
    elif q and ':' in a:          # sheet names never hold a colon
        a, b = a.split(':')
    if text[p:p + 1] != '!':
        raise Violation('no ! after the sheet name(s) in %r' % text)
    return a, b, text[p + 1:]


def sheet_check(case, ctx):
    with ctx.building():
        shn = case['names']
        types = list(case['types'][:len(shn)])
        if 0 not in types:
            types[0] = 0
        data, wsmap = make_book(80, types, [], shnames=shn)
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    names = [n for n, t in zip(shn, types) if t == 0]
    ctx.eq(bk.sheet_names(), names, 'sheet_names()')
    lo = case['lo'] % len(names)
    hi = min(lo + case['n'], len(names))
    quoted = [n for n in (names[lo], names[hi - 1]) if not re.match(r'[A-Za-z_]\w*\Z', n)]
    ctx.nt(bool(quoted) or hi - lo > 1)
    ctx.label('sheets%d' % (hi - lo), 'quoted%d' % len(quoted), case['kind'])

    (r1, r2), (c1, c2) = case['rows'], case['cols']
    if case['kind'] == 'abs':
        ref = FM.Ref3D((lo, hi, r1, r2, c1, c2))
        text = xlrd.rangename3d(bk, ref)
        rc, ends = 0, [((r1, 0), (c1, 0)), ((r2 - 1, 0), (c2 - 1, 0))]
        a, b, rest = split_prefix(text, names)
        ctx.eq((a, b), (names[lo], names[hi - 1]), 'sheet names in %r' % text)
    else:
        box, rc, ends = rel_case(case)
        if case['kind'] == 'cur':
            ref = FM.Ref3D((0, 1) + box + (1, 1) + tuple(case['f']))
        else:
            ref = FM.Ref3D((lo, hi) + box + (0, 0) + tuple(case['f']))
        if case['kw']:
            text = xlrd.rangename3drel(bk, ref, browx=case['browx'], bcolx=case['bcolx'], r1c1=case['r1c1'])
        else:
            text = xlrd.rangename3drel(bk, ref, case['browx'], case['bcolx'], case['r1c1'])
        rest = text
        if case['kind'] == 'rel':
            a, b, rest = split_prefix(text, names)
            ctx.eq((a, b), (names[lo], names[hi - 1]), 'sheet names in %r' % text)
    ctx.true(rest in texts(ends, rc), '%s of %r (base %r, r1c1=%r): %r, expected the range %r' % (case['kind'], ref.coords + ref.relflags, (case['browx'], case['bcolx']), case['r1c1'], text, texts(ends, rc)))
    # the record keeps its parts
    ctx.eq((ref.shtxlo, ref.shtxhi, ref.rowxlo, ref.rowxhi, ref.colxlo, ref.colxhi), tuple(ref.coords), 'Ref3D attributes')


SUBS = [
    Sub('cells', cell_strategy, cell_check, quick=3000, thorough=200000, rule='colname, cellname, cellnameabs (A1 and R1C1) of one cell; non-trivial = beyond Z or row 9'),
    Sub('columns', grid_strategy, grid_check, quick=64, thorough=512, rule='all 256 columns, pairwise different'),
    Sub('ranges', range_strategy, range_check, quick=4000, thorough=300000, rule='rangename2d and relative forms; non-trivial = not a single absolute cell'),
    Sub('relcell', relcell_strategy, relcell_check, quick=3000, thorough=200000, rule='relative form of one cell, with and without a base; non-trivial = some part relative'),
    Sub('sheets', sheet_strategy, sheet_check, quick=3000, thorough=100000, rule='rangename3d / rangename3drel over generated sheet names; non-trivial = quoting or several sheets'),
]
