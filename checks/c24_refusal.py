"""C24: unreadable workbooks are refused cleanly and resources are released."""
import builtins
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import ole
from xv import rich
from xv import snap
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C24'


def opts():
    return st.fixed_dictionaries(dict(formatting_info=st.booleans(), on_demand=st.booleans(), ragged_rows=st.booleans(), use_mmap=st.booleans(), verbosity=st.sampled_from([0, 0, 1, 2, 3]),
                                      ignore_workbook_corruption=st.booleans()))


class Scratch:
    """a file in a directory of its own; knows which handles and mappings of it are open"""

    def __init__(self, data):
        self.data = data

    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='xv24'))
        self.p = os.path.join(self.d, 'book.xls')
        with open(self.p, 'wb') as f:
            f.write(self.data)
        return self

    def held(self):
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.d):
                out.append('file handle')
        with open('/proc/self/maps') as f:
            if any(self.d in line for line in f):
                out.append('mapping')
        return out

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def records(data):
    """offsets of the records of a BIFF stream"""
    out, p = [], 0
    while p + 4 <= len(data):
        n = data[p + 2] | data[p + 3] << 8
        out.append((p, data[p] | data[p + 1] << 8, n))
        p += 4 + n
    return out


# ---- kinds of file that must be refused with XLRDError
FILEPASS8 = [B.P('<HHH', 0, 0x1234, 0xABCD), B.P('<HHH', 1, 1, 1) + bytes(range(48)), B.P('<HHH', 1, 2, 2) + bytes(100), B.P('<HHH', 1, 4, 2) + bytes(180)]
BADBOF = st.one_of(
    st.tuples(st.just(0x809), st.sampled_from([0x0600, 0x0500]), st.sampled_from([0x10, 0x20, 0x40, 0x06, 0x100, 0, 0xFFFF, 7]), st.sampled_from([8, 16])),
    st.tuples(st.just(0x809), st.sampled_from([0x0700, 0x0601, 0x0100, 0x5000, 0xFFFF]), st.sampled_from([5, 0x10]), st.sampled_from([8, 16])),
    st.tuples(st.sampled_from([0x209, 0x009]), st.sampled_from([0x300, 0x200]), st.sampled_from([0x20, 0x40, 0x100, 0, 6]), st.sampled_from([4, 6])),
    st.tuples(st.just(0x409), st.just(0x400), st.sampled_from([0x20, 0x40, 0, 6]), st.sampled_from([4, 6])),
    st.tuples(st.sampled_from([0x809, 0x409, 0x209, 0x009]), st.just(0x0600), st.just(5), st.sampled_from([0, 2, 3, 21, 64, 8224])))


def refuse_strategy():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(['encrypted', 'encrypted', 'encrypted', 'workspace', 'bof', 'bof', 'nobof', 'nostream', 'empty', 'sheetbof']), blob=rich.blob(), at=st.integers(0, 60), scramble=st.integers(0, 255),
        fp=st.integers(0, 3), bof=BADBOF, first=st.one_of(st.binary(max_size=30), st.sampled_from([b'\0', b'\x09', b'\x09\x08', b'\x09\x08\x10', b'\x09\x08\x10\0', b'<html>', b'ID;PWXL\r\n', bytes(40)])),
        names=st.lists(st.sampled_from(['Worksheet', 'Book1', 'WordDocument', 'Workbook2', '\x05SummaryInformation', 'Contents', 'Booker', ' Workbook', 'orkbook', 'EncryptedPackage']), max_size=3, unique=True),
        storage=st.booleans(), opt=opts(), path=st.booleans(), wrap=st.booleans()))


def refused_file(case):
    k = case['kind']
    R = rich.make(case['blob'], rich.ALL)
    R.wrap = False
    v = R.v
    if k == 'encrypted':
        if v >= 80:
            fp = FILEPASS8[case['fp']]
        else:
            fp = B.P('<HH', 0x55AA, 0x1234)
        rec = B.rec(0x2F, fp)
        where = 'h' if v >= 45 else 0
        groups = R.ghead if v >= 45 else R.sheets[0].groups
        if v == 45 and case['at'] % 2:
            where, groups = len(R.sheets) - 1, R.sheets[-1].groups
        at = case['at'] % (len(groups) + 1)
        data = R.bytes(ins=lambda w, i: rec if w == where and i == at else b'')
        # what follows is encrypted, apart from the record headers
        out, seen = bytearray(data), False
        for p, code, n in records(data):
            if seen and code not in (0x09, 0x209, 0x409, 0x809):
                for q in range(p + 4, min(p + 4 + n, len(out))):
                    out[q] ^= case['scramble']
            if code == 0x2F and not seen:
                seen = True
        if not seen:
            raise AssertionError('no FILEPASS')
        return bytes(out), v >= 50
    if k == 'workspace':
        return B.bof([80, 70, 50][case['at'] % 3], 0x100) + B.rec(0x0C, b'\1') + B.EOF, True
    if k == 'bof':
        op, ver, typ, n = case['bof']
        body = (B.P('<HHHH', ver, typ, 0x0DBB, 1996) + bytes(9000))[:n]
        return B.rec(op, body) + B.rec(0x42, b'\xe4\4') + B.EOF + bytes(20), True
    if k == 'nobof':
        f = case['first']
        if f[:8] == ole_sig() or f[:2] in (b'\x09\0', b'\x09\2', b'\x09\4', b'\x09\x08') and len(f) > 8:
            f = b'x' + f
        return f, len(f) > 0
    if k == 'empty':
        return b'', False
    if k == 'sheetbof':
        # BOUNDSHEET of the first worksheet points at something else than a worksheet BOF
        if v < 50:
            R = rich.make(case['blob'], (80, 50))
            R.wrap = False
        data = bytearray(R.bytes())
        i = [s.type for s in R.sheets].index(0)
        bs = [r for r in records(bytes(data)) if r[1] == 0x85][i]
        off = [0, 4, len(data), len(data) + 1000, len(data) - 4, len(data) - 1][case['at'] % 6]
        data[bs[0] + 4:bs[0] + 8] = B.P('<i', off)
        return bytes(data), True
    if k == 'nostream':
        names = case['names'] or ['Other']
        return ole.Doc([(n, R.bytes()) for n in names]).bytes(), False
    raise AssertionError(k)


def ole_sig():
    return bytes([0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1])


def refuse_check(case, ctx):
    with ctx.building():
        data, wrappable = refused_file(case)
        if case['wrap'] and wrappable:
            data = ole.wrap(data, ['Workbook', 'Book'][case['at'] % 2])
    ctx.label(case['kind'])
    ctx.nt(case['kind'] != 'empty')
    opt = dict(case['opt'])
    if case['kind'] == 'sheetbof':
        opt['on_demand'] = False
    log = io.StringIO()
    with Scratch(data) as s:
        try:
            if case['path']:
                xlrd.open_workbook(s.p, logfile=log, **opt)
            else:
                xlrd.open_workbook(file_contents=data, logfile=log, **opt)
        except xlrd.XLRDError as e:
            if case['kind'] == 'encrypted':
                ctx.true('encrypt' in str(e).lower(), 'encrypted workbook refused with %r' % str(e))
            if case['kind'] == 'workspace':
                ctx.true('workspace' in str(e).lower(), 'workspace refused with %r' % str(e))
            h = s.held()
            ctx.true(not h, '%s: refused, but %s left open' % (case['kind'], h))
        except Exception as e:
            raise Violation('%s file refused with %s instead of XLRDError: %s' % (case['kind'], type(e).__name__, e))
        else:
            raise Violation('%s file was opened' % case['kind'])


# ---- first records that are not the beginning of a workbook
def bof_strategy():
    ver = st.one_of(st.sampled_from([0x600, 0x500, 0x500, 0x500, 0x400, 0x300, 0x200, 7, 0]), st.integers(0, 0xFFFF))
    return st.fixed_dictionaries(dict(op=st.sampled_from([0x809, 0x809, 0x809, 0x409, 0x209, 0x009]), ver=ver, year=st.one_of(st.sampled_from([0, 1992, 1993, 1994, 1995, 1996, 0xFFFF]), st.integers(0, 0xFFFF)),
                                      build=st.one_of(st.sampled_from([0, 2412, 3218, 3321, 0x0DBB]), st.integers(0, 0xFFFF)), types=st.lists(st.integers(0, 0xFFFF), max_size=20), more=st.integers(0, 3), opt=opts()))


def bof_check(case, ctx):
    op, ver = case['op'], case['ver']
    # a workbook starts with the BOF of the globals (5), or BIFF2-4 with that of a worksheet (0x10); 0x100 is a workspace, except in BIFF4
    if op == 0x809:
        old = ver in (0x400, 0x300, 0x200, 7, 0)
        known = ver in (0x600, 0x500) or old
    else:
        old = known = True
    fine = {5} | ({0x10} if old else set()) | ({0x100} if op == 0x409 or ver == 0x400 else set())
    tail = [B.EOF, B.rec(0x42, b'\xe4\4') + B.EOF, B.rec(0, bytes(2)), B.dimensions(80, 0, 1, 0, 1) + B.EOF if hasattr(B, 'dimensions') else B.EOF][case['more']] + bytes(20)
    n = 0
    for typ in list(range(0x24)) + [0x40, 0x80, 0xFF, 0x100, 0x101, 0x105, 0x110, 0x200, 0x500, 0x1000, 0x8005, 0x8010, 0xFFFF] + case['types']:
        for ln in (4, 6, 8, 16, 20, 0, 2, 3, 21):
            if known and 4 <= ln <= 20 and typ in fine:
                continue
            body = (B.P('<HHHH', ver, typ, case['build'], case['year']) + bytes(16))[:ln]
            if op == 0x809 and ln < 8:
                continue
            try:
                xlrd.open_workbook(file_contents=B.rec(op, body) + tail, logfile=io.StringIO(), **case['opt'])
            except xlrd.XLRDError:
                n += 1
            except Exception as e:
                raise Violation('BOF 0x%x with data %r refused with %r instead of XLRDError' % (op, body, e))
            else:
                raise Violation('file starting with BOF 0x%x, data %r was opened' % (op, body))
    ctx.label('op%x' % op, 'known' if known else 'unknown')
    ctx.nt(n > 100)


# ---- truncated files
def trunc_strategy():
    return st.fixed_dictionaries(dict(blob=rich.blob(), cut=st.integers(0, 10 ** 6), how=st.sampled_from(['any', 'any', 'record', 'header', 'tail']), opt=opts(), path=st.booleans()))


def trunc_check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], rich.ALL)
        data = R.bytes()
        n = len(data)
        if case['how'] == 'tail':
            cut = n - 1 - case['cut'] % min(n - 1, 40)
        elif case['how'] == 'any' or R.wrap:
            cut = case['cut'] % n
        else:
            recs = records(data)
            p, _, ln = recs[case['cut'] % len(recs)]
            cut = p if case['how'] == 'record' else p + min(case['cut'] % 5, n - p)
        part = data[:cut]
    opt = case['opt']
    log = io.StringIO()
    full = xlrd.open_workbook(file_contents=data, logfile=log, **dict(opt, on_demand=False, verbosity=0))
    ref = snap.snap_book(full)
    ctx.label(case['how'], 'v%d' % R.v, 'ole' if R.wrap else 'bare')
    ctx.nt(cut > 20)
    with Scratch(part) as s:
        try:
            if case['path']:
                bk = xlrd.open_workbook(s.p, logfile=log, **opt)
            else:
                bk = xlrd.open_workbook(file_contents=part, logfile=log, **opt)
        except Exception as e:
            ctx.label('refused')
            ctx.true(cut or isinstance(e, xlrd.XLRDError), 'empty file: %r' % e)
            h = s.held()
            ctx.true(not h, 'truncated at %d of %d: refused, but %s left open' % (cut, n, h))
            return
        # accepted: nothing that was read may be missing
        ctx.label('accepted')
        try:
            ctx.eq(bk.sheet_names(), full.sheet_names(), 'sheet names after truncation at %d of %d' % (cut, n))
            if not bk.on_demand:
                got = snap.snap_book(bk)
                r = snap.diff(ref, got)
                ctx.true(r is None, 'truncated at %d of %d: opened, but partial: %s' % (cut, n, r))
            else:
                for i in range(bk.nsheets):
                    try:
                        sh = bk.sheet_by_index(i)
                    except Exception:
                        ctx.label('sheet refused')
                        continue
                    r = snap.diff(ref['sheets'][i], snap.snap_sheet(sh))
                    ctx.true(r is None, 'truncated at %d of %d: sheet %d loaded, but partial: %s' % (cut, n, i, r))
        finally:
            bk.release_resources()
        h = s.held()
        ctx.true(not h, '%s left open after release_resources' % h)


# ---- handles and mappings
class Stopper(io.StringIO):
    """a log file that raises at its n-th write"""

    def __init__(self, n, exc):
        io.StringIO.__init__(self)
        self.left, self.exc = n, exc

    def write(self, s):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise self.exc('stop')
        return io.StringIO.write(self, s)


def res_strategy():
    return st.fixed_dictionaries(dict(blob=rich.blob(), damage=st.sampled_from(['none', 'none', 'none', 'byte', 'byte', 'filepass', 'cut']), at=st.integers(0, 10 ** 6), val=st.integers(1, 255), opt=opts(), stop=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 40), st.sampled_from(['KeyboardInterrupt', 'SystemExit', 'OSError', 'MemoryError', 'GeneratorExit']))),
                                      wrap=st.sampled_from([None, {}, dict(perm=[3, 1, 2]), dict(cutoff=1)]), how=st.sampled_from(['plain', 'with', 'with error', 'release', 'release twice', 'load then release'])))


def res_check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], rich.ALL)
        R.wrap = False
        ins = None
        if case['damage'] == 'filepass' and R.v >= 50:
            ins = lambda w, i: B.rec(0x2F, bytes(6)) if w == 't' and i == 0 else b''
        data = R.bytes(ins=ins)
        if case['wrap'] is not None and R.v >= 50:
            data = ole.wrap(data, 'Workbook' if R.v >= 80 else 'Book', **case['wrap'])
        if case['damage'] == 'byte':
            a = bytearray(data)
            a[case['at'] % len(a)] ^= case['val']
            data = bytes(a)
        elif case['damage'] == 'cut':
            data = data[:1 + case['at'] % len(data)]
    opt = case['opt']
    log = io.StringIO()
    if case['stop']:
        # whatever ends the opening, be it an interrupt while a message is written
        log = Stopper(case['stop'][0], getattr(builtins, case['stop'][1]))
        opt = dict(opt, verbosity=1 + case['at'] % 3)
    ctx.nt(opt['use_mmap'])
    with Scratch(data) as s:
        try:
            bk = xlrd.open_workbook(s.p, logfile=log, **opt)
        except BaseException as e:
            if not isinstance(e, Exception) and not (case['stop'] and type(e).__name__ == case['stop'][1]):
                raise
            ctx.label('failed' if isinstance(e, Exception) else 'interrupted')
            if case['stop']:
                log.left = None
            ctx.nt()
            h = s.held()
            ctx.true(not h, 'opening failed (%s), but %s left open' % (type(e).__name__, h))
            os.remove(s.p)
            return
        how = case['how']
        if case['stop']:
            log.left = None
        ctx.label('opened' + (', on demand' if bk.on_demand else ''), how)
        if not bk.on_demand:
            h = s.held()
            ctx.true(not h, 'opened, but %s left open' % h)
            os.remove(s.p)
            # everything stays readable
            for sh in bk.sheets():
                for r in range(sh.nrows):
                    sh.row_values(r)
            bk.release_resources()
            ctx.true(not s.held(), 'handles after release_resources')
            return
        try:
            if how.startswith('with'):
                try:
                    with bk as b2:
                        ctx.true(b2 is bk, '__enter__ returned another object')
                        if bk.nsheets:
                            bk.sheet_by_index(0)
                        if how == 'with error':
                            raise KeyError('mine')
                except KeyError as e:
                    ctx.true(how == 'with error', 'KeyError from loading a sheet: %r' % e)
                else:
                    ctx.true(how == 'with', 'with block swallowed the exception')
            else:
                if how == 'load then release':
                    bk.sheets()
                bk.release_resources()
                if how == 'release twice':
                    bk.release_resources()
        except Violation:
            raise
        except Exception as e:
            if case['damage'] == 'none':
                raise
            bk.release_resources()
        h = s.held()
        ctx.true(not h, '%s left open (%s)' % (h, how))
        os.remove(s.p)


SUBS = [
    Sub('refused', refuse_strategy, refuse_check, quick=2500, thorough=80000, rule='encrypted, workspace, no BOF, no workbook stream, empty, misplaced sheets: XLRDError and nothing left open; non-trivial = not the empty file'),
    Sub('bof', bof_strategy, bof_check, quick=120, thorough=4000, rule='BOF records of every version with some 60 substream types and lengths that do not begin a workbook (about 300 files per case); non-trivial = more than 100 files were refused'),
    Sub('truncated', trunc_strategy, trunc_check, quick=2500, thorough=80000, rule='rich workbooks of every version cut short: refused, or equal to the whole; non-trivial = cut after byte 20'),
    Sub('resources', res_strategy, res_check, quick=2000, thorough=60000, rule='handles and mappings after success, failure, with blocks and release; non-trivial = mmap or failure'),
]
