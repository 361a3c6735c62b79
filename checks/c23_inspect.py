"""C23: file formats are recognised from the content, and unsupported ones refused by name."""
import io
import mmap
import os
import pathlib
import shutil
import tempfile
import warnings
import zipfile

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import ole
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C23'

MARK = {'xlsx': ['xl', 'workbook.xml'], 'xlsb': ['xl', 'workbook.bin'], 'ods': ['content.xml']}
# names that hold a marker as a part, or look like one
DECOYS = ['xl/workbook.xml.rels', 'xl/_rels/workbook.xml.rels', 'xl/_rels/workbook.bin.rels', 'content.xml.bak', 'docs/content.xml', 'workbook.xml', 'workbook.bin',
          'xl/workbook.xm', 'xl/workbook', 'axl/workbook.xml', 'xl/xl/workbook.xml', 'xl/workbook.binx', 'acontent.xml', 'xl/content.xml', '/xl/workbook.xml',
          'xl//workbook.xml', 'mimetype', '[Content_Types].xml', 'META-INF/manifest.xml', 'xl/worksheets/sheet1.xml', 'a b', 'é.txt', 'xl/', 'content.xml/', 'xl/workbook.xml/',
          'word/document.xml', 'content', 'workbook.xls', 'xl_workbook.xml', 'xl.workbook.xml', 'xl/workbook2.xml', 'xl/workbook.xml.xml', 'xl/workbook.bin.bin', 'xl/workbooks.bin', 'content.xml.xml', 'content2.xml', '.content.xml', 'xl/workbook.xmlx']
FILENAMES = ['a.xls', 'b.xlsx', 'c.ods', 'd.zip', 'noext', 'e.XLS', 'é ü.xlsb', 'trailing.', 'x.xlsx.xls', 'q~', '~tilde.xls', 'a b.txt', '.hidden', "quote'.xlsb"]


def zip_strategy():
    member = st.tuples(st.sampled_from(DECOYS + ['r%d' % i for i in range(4)]), st.sampled_from([0, 0, 1, 2]))
    return st.fixed_dictionaries(dict(
        kinds=st.sampled_from([(), (), ('xlsx',), ('xlsx',), ('xlsb',), ('xlsb',), ('ods',), ('ods',), ('xlsx', 'xlsb'), ('xlsx', 'ods'), ('xlsb', 'ods')]),
        case=st.integers(0, 2 ** 17 - 1), spell=st.sampled_from(['lower', 'random', 'upper', 'title']), slash=st.tuples(st.booleans(), st.booleans()), others=st.lists(member, max_size=6),
        perm=st.lists(st.integers(0, 50), max_size=9), deflate=st.booleans(), comment=st.sampled_from([b'', b'c', b'PK\x03\x04 xl/workbook.xml']),
        many=st.sampled_from([0] * 15 + [60, 300, 70000]), body=st.sampled_from([b'', b'<x/>', b'PK\x03\x04', bytes(300)]), tail=st.sampled_from([b'', b'', b'\0'])
    , fname=st.sampled_from(FILENAMES)))


def spelling(parts, case, how, back):
    s = ('\\' if back else '/').join(parts)
    if how == 'upper':
        return s.upper()
    if how == 'title':
        return s.title()
    if how == 'random':
        return ''.join(ch.upper() if case >> i & 1 else ch for i, ch in enumerate(s))
    return s


def make_zip(case):
    names = []
    for i, k in enumerate(case['kinds']):
        names.append(spelling(MARK[k], case['case'] >> (3 * i), case['spell'], case['slash'][i]))
    for n, how in case['others']:
        names.append(n if how == 0 else n.upper() if how == 1 else n.replace('/', '\\'))
    seen, uniq = set(), []
    for n in names:
        if n not in seen:
            seen.add(n)
            uniq.append(n)
    # a long list of parts, or one large part, before and after
    uniq += ['xl/worksheets/sheet%d.xml' % i for i in range(case['many'] if case['many'] < 1000 else 0)]
    big = bytes(range(256)) * 1000 if case['many'] >= 1000 else None
    if big:
        uniq += ['xl/media/a.png', 'xl/media/z.png']
    perm = case['perm']
    order = sorted(range(len(uniq)), key=lambda i: (perm[i % len(perm)] if perm else 0, i))
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED if case['deflate'] else zipfile.ZIP_STORED) as z:
        for i in order:
            z.writestr(zipfile.ZipInfo(uniq[i]), big if big and uniq[i].startswith('xl/media/') else case['body'])
        if case['comment']:
            z.comment = case['comment']
    return f.getvalue(), [uniq[i] for i in order]


def expected_zip(names):
    """the first of xlsx, xlsb, ods whose component is present"""
    low = set(n.replace('\\', '/').lower() for n in names)
    for k in ('xlsx', 'xlsb', 'ods'):
        if '/'.join(MARK[k]) in low:
            return k
    return 'zip'


NAMED = {'xlsx': 'xlsx', 'xlsb': 'xlsb', 'ods': 'ods', 'zip': 'zip'}


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='xv23')
        return self

    def put(self, name, data):
        p = os.path.join(self.d, name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def inspect_all(ctx, data, name, want):
    """every way to hand the content over gives the same answer"""
    with Scratch() as s:
        p = s.put(name, data)
        home = os.environ.get('HOME')
        os.environ['HOME'] = s.d
        try:
            ways = [('path', (p,), {}), ('path keyword', (), dict(path=p)), ('Path object', (pathlib.Path(p),), {}), ('content', (), dict(content=data)),
                    ('content, positional', (None, data), {}), ('content with the path of another file', ('/nonexistent/other.zip', data), {}), ('~ path', ('~/' + name,), {})]
            for what, a, kw in ways:
                got = xlrd.inspect_format(*a, **kw)
                ctx.true(got == want and type(got) == type(want), 'inspect_format(%s) of file %r: %r, expected %r' % (what, name, got, want))
            ctx.true(want in xlrd.FILE_FORMAT_DESCRIPTIONS, 'no description of %r' % (want,))
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home


def zip_check(case, ctx):
    with ctx.building():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            data, names = make_zip(case)
        if not data.startswith(b'PK\x03\x04'):
            want = None            # archive without members
        else:
            want = expected_zip(names)
    ctx.label(str(want), 'members%d' % min(len(names), 5))
    ctx.nt(want not in ('zip', None) or any(n in DECOYS for n in names))
    inspect_all(ctx, data, case['fname'], want)
    if want is None:
        return
    with Scratch() as s:
        p = s.put(case['fname'], data)
        log = io.StringIO()
        mm = None
        calls = [('path', dict(filename=p)), ('contents', dict(file_contents=data)), ('path, on_demand', dict(filename=p, on_demand=True, formatting_info=True)),
                 ('path, no mmap', dict(filename=p, use_mmap=False, ragged_rows=True)), ('contents and name', dict(filename='x.xls', file_contents=data, ignore_workbook_corruption=True))]
        with open(p, 'rb') as f:
            mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        calls.append(('mmap contents', dict(file_contents=mm)))
        try:
            for what, kw in calls:
                try:
                    xlrd.open_workbook(logfile=log, **kw)
                except xlrd.XLRDError as e:
                    msg = str(e).lower()
                    ok = NAMED[want] in msg and not any(o in msg for o in ('xlsx', 'xlsb', 'ods') if o != want)
                    ctx.true(ok, 'open_workbook(%s) of a %s file refused with %r' % (what, want, str(e)))
                else:
                    raise Violation('open_workbook(%s) accepted a %s file' % (what, want))
        finally:
            mm.close()


# ---- other contents
def junk_strategy():
    sig = SIG
    pk = [b'PK\x05\x06' + bytes(18), b'PK\x07\x08abcd', b'PK\x03\x05', b'PK\x03', b'PK', b' PK\x03\x04', b'pk\x03\x04', b'MZPK\x03\x04']
    near = [sig[:7], sig[:4], b'', b'\0' + sig, sig[:7] + b'\xe0', b'<?xml version="1.0"?>', b'{\\rtf1', b'a,b,c\n1,2,3\n', b'<html>', b'\x09\x08\x10\x00\x00\x06\x05\x00', bytes(600)]
    return st.fixed_dictionaries(dict(fname=st.sampled_from(FILENAMES), data=st.one_of(st.sampled_from(pk + near), st.binary(max_size=40), st.binary(max_size=30).map(lambda b: sig + b),
                                      st.tuples(st.sampled_from([sig, b'PK\x03\x04']), st.integers(0, 7), st.integers(1, 255), st.binary(max_size=20)).map(
                                          lambda t: t[0][:t[1] % len(t[0])] + bytes([t[0][t[1] % len(t[0])] ^ t[2]]) + t[0][t[1] % len(t[0]) + 1:] + t[3]))))


SIG = bytes([0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1])


def junk_check(case, ctx):
    d = case['data']
    if d.startswith(b'PK\x03\x04'):
        return            # a broken ZIP file: not claimed
    want = 'xls' if d.startswith(SIG) else None
    ctx.label(str(want))
    ctx.nt(len(d) > 0)
    inspect_all(ctx, d, case['fname'], want)
    try:
        xlrd.open_workbook(file_contents=d, logfile=io.StringIO())
    except Exception as e:
        if want is None and d:
            ctx.true(not any(w in str(e) for w in ('not supported',)), 'unknown content refused as %r' % str(e))
    else:
        raise Violation('junk was opened: %r' % (d[:60],))


# ---- workbooks open whatever their name and whichever way they are supplied
def book_strategy():
    return st.fixed_dictionaries(dict(fname=st.sampled_from(FILENAMES), v=st.sampled_from([80, 50, 45, 40, 30, 21]), wrap=st.booleans(), value=st.integers(0, 1000),
                                      fake=st.sampled_from([None, 'xlsx', 'xlsb', 'ods'])))


def book_check(case, ctx):
    with ctx.building():
        v, x = case['v'], float(case['value'])
        num = B.r_number(1, 1, 15 if v >= 45 else 0, x) if v > 21 else L.b2_number(1, 1, bytes(3), x)
        if v >= 50:
            data = B.assemble(v, B.globals8() if v >= 80 else B.globals5(), [dict(name='S' if v >= 80 else b'S', body=num)])
        elif v == 45:
            xfs = L.r_font(40) + b''.join(L.r_xf(40, style=i < 15) for i in range(16))
            data = L.book4w([(b'S', xfs + num)])
        else:
            pre = b'' if v == 21 else L.r_font(v) + L.r_xf(v)
            data = L.sheet(v, pre + num)
        wrapped = case['wrap'] and v >= 50
        # a ZIP file appended to the workbook does not make it one
        if case['fake']:
            f = io.BytesIO()
            with zipfile.ZipFile(f, 'w') as z:
                z.writestr('/'.join(MARK[case['fake']]), 'x')
            tail = f.getvalue()
        else:
            tail = b''
        if wrapped:
            data = ole.wrap(data, 'Workbook' if v >= 80 else 'Book')
        data += tail
    ctx.nt()
    ctx.label('v%d' % v, 'wrapped' if wrapped else 'bare')
    want = 'xls' if wrapped else None
    inspect_all(ctx, data, case['fname'], want)
    with Scratch() as s:
        p = s.put(case['fname'], data)
        home = os.environ.get('HOME')
        os.environ['HOME'] = s.d
        try:
            for what, kw in (('path', dict(filename=p)), ('Path', dict(filename=pathlib.Path(p))), ('contents', dict(file_contents=data)), ('no mmap', dict(filename=p, use_mmap=False)),
                             ('~ path', dict(filename='~/' + case['fname'])), ('contents and a misleading name', dict(filename='x.xlsx', file_contents=data))):
                with xlrd.open_workbook(logfile=io.StringIO(), **kw) as bk:
                    ctx.eq(bk.sheet_by_index(0).cell_value(1, 1), x, 'value (%s)' % what)
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home


SUBS = [
    Sub('zip', zip_strategy, zip_check, quick=1500, thorough=40000, rule='ZIP files with permuted, respelt, decoy members; non-trivial = a format marker or a decoy'),
    Sub('junk', junk_strategy, junk_check, quick=2000, thorough=60000, rule='signatures, near-signatures, random bytes; non-trivial = not empty'),
    Sub('books', book_strategy, book_check, quick=400, thorough=10000, rule='valid workbooks under misleading names'),
]
