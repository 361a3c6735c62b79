"""C04: contents do not depend on the OLE2 container or on the way the file is supplied."""
import mmap
import os
import shutil
import struct
import tempfile

from hypothesis import strategies as st

from xv import biff as B
from xv import ole
from xv import snap
from xv.runner import Sub, Violation, import_repo

xlrd = import_repo()
PROPERTY = 'C04'
ASSUMPTIONS = ['sectors start at file offset 512 for every sector size (the OpenOffice compound document layout xlrd documents); '
               'MS v4 files with a 4096-byte header block are outside the generated domain']
NAMES = ['Workbook', 'Book', 'WORKBOOK', 'workbook', 'BOOK', 'book', 'WorkBook']


def body(seed, n):
    out = b''
    for i in range(n):
        k = (seed + i) % 4
        out += [B.r_number(i, 0, 15, i * 1.25 + seed), B.r_label8(i, 1, 15, 'row %d \u20ac %d' % (i, seed)),
                B.r_boolerr(i, 2, 15, 7, 1), B.r_rk(i, 3, 15, (i << 2) | 2)][k]
    return out


def make_stream(biff, seed, size):
    """A workbook stream of exactly max(size, minimum) bytes; padding sits in an ignored record in the globals."""
    def mk(pad):
        filler = b''
        while pad > 0:
            n = min(pad, 8000)
            if pad - n in (1, 2, 3):
                n -= 4
            filler += B.rec(0x1FF1, bytes((seed + i) % 251 for i in range(n - 4)))
            pad -= n
        if biff == 80:
            return B.assemble(80, B.globals8(extra=filler), [dict(name='One', body=body(seed, 9)), dict(name='Tw\u00f6', body=body(seed + 1, 4))])
        return B.assemble(50, B.globals5(extra=filler), [dict(name=b'One', body=B.r_number(0, 0, 15, seed + .5) + B.r_label5(3, 2, 15, b'abc%d' % seed))])
    base = len(mk(0))
    if size >= base + 4:
        s = mk(size - base)
        assert len(s) == size, (len(s), size)
        return s
    return mk(0)


def strategy():
    size = st.one_of(st.integers(600, 5000), st.sampled_from([4094, 4095, 4096, 4097, 4608, 4607, 8192, 0]), st.integers(5000, 40000))
    return st.fixed_dictionaries(dict(
        biff=st.sampled_from([80, 80, 50]), size=size, seed=st.integers(0, 50), huge=st.integers(0, 80),
        ssz=st.sampled_from([9, 9, 9, 9, 9, 7, 7, 8, 8, 10, 11, 12, 13, 14, 15, 16]), sssz=st.sampled_from([6, 6, 6, 4, 5, 7]),
        cutoff=st.sampled_from([4096, 4096, 4096, 512, 1, 8192, 65536]),
        perm=st.one_of(st.just([]), st.lists(st.integers(0, 50), min_size=1, max_size=25)),
        sperm=st.one_of(st.just([]), st.lists(st.integers(0, 9), min_size=1, max_size=12)),
        free=st.integers(0, 6), sfree=st.integers(0, 4),
        dirmode=st.sampled_from(['balanced', 'balanced', 'right', 'left']),
        name=st.sampled_from(NAMES), both=st.booleans(), decoy=st.booleans(), first=st.booleans(),
        others=st.lists(st.tuples(st.sampled_from(['\x05SummaryInformation', '\x05DocumentSummaryInformation', 'Ctls', 'zz', 'A', '_VBA_PROJECT_CUR/VBA/dir', 'MBD00/Ole']),
                                  st.one_of(st.integers(0, 300), st.integers(4000, 9000))), max_size=4),
        ndirs=st.one_of(st.just(0), st.integers(0, 12), st.integers(230, 320), st.sampled_from([1200, 3000])),
        extra_after=st.booleans(),
        sat_pad=st.one_of(st.just(0), st.just(0), st.integers(1, 3), st.integers(105, 140), st.integers(105, 140), st.sampled_from([200, 300, 520])),
        lead=st.sampled_from([None] * 6 + ['st', 'sscs', 'ssat', 'dir', 'free', 'sat', 'msatx', 'msatx']), nofirst=st.sampled_from([-2, -2, -1, 0]),
        xcount=st.sampled_from([None, None, 0, 1, 2, 1000]), claim=st.sampled_from([None] * 12 + [(21, 6), (30, 6), (65535, 6), (9, 10), (9, 30), (9, 65535), (64, 64)]),
        holes=st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 108), st.sampled_from([-1, -1, -2, 0x7FFFFFF0])), max_size=4)),
        fat_first=st.booleans(), msatx_term=st.sampled_from([-2, -1]),
        tail=st.one_of(st.just(0), st.just(0), st.integers(1, 600)), trim=st.booleans(),
        supply=st.sampled_from(['bytes', 'bytes', 'mmap', 'file_mmap', 'file_nommap']),
        fname=st.sampled_from(['a.xls', 'b.xlsx', 'noext', 'c.zip', 'w\u00e4.ods']),
        on_demand=st.booleans()))


def layout(case):
    case = dict(case)
    if case['huge'] in (0, 2, 3):
        case['claim'] = None
    if case['huge'] == 0:
        case['ssz'] = 7
        case['perm'] = case['perm'] + [7, 3]
    elif case['huge'] in (2, 3):
        # the sectors of the streams are described only by the extension of the master table
        case.update(ssz=7, free=3700, sat_pad=case['sat_pad'] % 40)
        if case['huge'] == 2:
            case['lead'] = 'free'
        else:
            case.update(lead='msatx', perm=case['perm'] + [5, 1, 3])
    elif case['huge'] == 1:
        case['ssz'] = 20
    if case['ssz'] > 12:
        case['sat_pad'] = 0
    if case['claim']:
        case['ssz'], case['sssz'] = 9, 6
    stream = make_stream(case['biff'], case['seed'], 400000 + case['size'] if case['huge'] == 0 else case['size'])
    want_name = case['name']
    streams = [(want_name, stream)]
    label = want_name.lower()
    ref = stream
    if case['both']:
        other = make_stream(80 if case['biff'] == 50 else 50, case['seed'] + 7, 700)
        if label == 'workbook':
            streams.append(('Book', other))
        else:
            streams.append(('Workbook', other))
            ref = other
        if case['first']:
            streams.reverse()
    if case['decoy']:
        d = make_stream(80, case['seed'] + 13, 900)
        streams.insert(0 if case['first'] else len(streams), ('Emb/Workbook', d))
        streams.append(('Emb/Book', d[:]))
    seen = set(n.lower() for n, _ in streams)
    for n, ln in case['others']:
        if n.lower() not in seen:
            seen.add(n.lower())
            streams.insert(0 if ln % 2 else len(streams), (n, bytes((ln + i) % 256 for i in range(ln))))
    extra = [('after' if case['extra_after'] else 'before', 'x%d' % i, 2 if i % 3 else 1) for i in range(case['ndirs'])]
    extra = [(a, n, 2) for a, n, e in extra]
    doc = ole.Doc(streams, ssz=case['ssz'], sssz=min(case['sssz'], case['ssz']), cutoff=case['cutoff'], perm=case['perm'],
                  sperm=case['sperm'], free=case['free'], sfree=case['sfree'], dirmode=case['dirmode'], extra=extra,
                  sat_pad=case['sat_pad'], fat_first=case['fat_first'], msatx_term=case['msatx_term'], holes=case['holes'],
                  lead=case['lead'], nofirst=case['nofirst'])
    doc.claim = case['claim']
    return ref, doc


REF = {}


def reference(stream):
    if stream not in REF:
        if len(REF) > 400:
            REF.clear()
        REF[stream] = snap.snap_book(xlrd.open_workbook(file_contents=stream, formatting_info=True))
    return REF[stream]


SCRATCH = {}


def scratch():
    d = SCRATCH.get(os.getpid())
    if d is None:
        import atexit
        d = tempfile.mkdtemp(prefix='xv04')
        SCRATCH[os.getpid()] = d
        atexit.register(shutil.rmtree, d, True)
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
    return d


class Sink:
    def write(self, s):
        pass

    def flush(self):
        pass


def open_by(how, data, fname, **kw):
    """-> Book; the file (if any) is gone afterwards unless on_demand"""
    kw.setdefault('logfile', Sink())
    if how == 'bytes':
        return xlrd.open_workbook(file_contents=data, **kw)
    path = os.path.join(scratch(), fname)
    with open(path, 'wb') as f:
        f.write(data)
    try:
        if how == 'mmap':
            with open(path, 'rb') as f:
                m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            return xlrd.open_workbook(file_contents=m, **kw)
        return xlrd.open_workbook(path, use_mmap=(how == 'file_mmap'), **kw)
    finally:
        os.unlink(path)


def check(case, ctx):
    with ctx.building():
        ref, doc = layout(case)
        data = doc.bytes()
        if doc.claim:
            # impossible sector sizes: 512 and 64 are assumed
            data = data[:30] + struct.pack('<HH', *doc.claim) + data[34:]
            ctx.label('preposterous sector size')
        if case['xcount'] is not None and doc.nx and not (case['xcount'] == 0 and doc.pos['msatx', 0] == 0):
            # the recorded number of MSAT extension sectors does not matter, their chain does
            data = data[:72] + struct.pack('<i', case['xcount']) + data[76:]
            ctx.label('MSATX count')
        if case['tail']:
            # a partial sector after the last one
            data += b'\x55' * (case['tail'] % doc.sec)
        elif case['trim']:
            # some writers cut the unused part of the last sector
            for n, ids in doc.chains.items():
                if n[0] != '<' and ids and ids[-1] == doc.nsec - 1:
                    used = len([d for m, d in doc.streams if m == n][0]) % doc.sec
                    if used:
                        data = data[:len(data) - doc.sec + used]
                        ctx.label('trimmed')
    want = reference(ref)
    target = [n for n, d in doc.streams if d is ref][0]
    ctx.label('ssz:%d' % (doc.sec.bit_length() - 1), 'supply:' + case['supply'], 'dir:' + case['dirmode'], 'name:' + target.lower())
    mini = len(ref) < case['cutoff']
    ctx.label('mini-stream' if mini else 'standard')
    if doc.nx:
        ctx.label('MSATX:%d' % min(doc.nx, 5))
        if any(i // doc.nent >= 109 for i in doc.chains.get(target, [])):
            ctx.label('workbook sectors in the MSAT extension')
    ids = doc.chains.get(target, [])
    frag = any(b != a + 1 for a, b in zip(ids, ids[1:]))
    if frag:
        ctx.label('fragmented')
    elif ids:
        ctx.label('contiguous')
    if doc.dids[target] >= 250:
        ctx.label('DID>=250')
    if case['ndirs'] > 1000:
        ctx.label('>1000 directory entries')
    if case['lead']:
        ctx.label('lead:' + case['lead'])
    if sum(b != a + 1 for a, b in zip(ids, ids[1:])) > 1000:
        ctx.label('>1000 fragments')
    if case['both']:
        ctx.label('both names')
    if case['decoy']:
        ctx.label('nested decoy')
    ctx.nt(frag or mini or doc.nx or case['decoy'] or case['both'] or doc.sec != 512)
    bk = open_by(case['supply'], data, case['fname'], formatting_info=True, on_demand=case['on_demand'])
    got = snap.snap_book(bk)
    d = snap.diff(got, want)
    bk.release_resources()
    ctx.true(d is None, 'book differs from the same stream opened bare: %s' % d)


def bare_strategy():
    return st.fixed_dictionaries(dict(
        biff=st.sampled_from([80, 50]), size=st.integers(0, 9000), seed=st.integers(0, 50),
        supply=st.sampled_from(['mmap', 'file_mmap', 'file_nommap']), fname=st.sampled_from(['a.xls', 'b', 'c.ods']),
        on_demand=st.booleans()))


def bare_check(case, ctx):
    with ctx.building():
        stream = make_stream(case['biff'], case['seed'], case['size'])
    ctx.nt()
    ctx.label(case['supply'])
    want = reference(stream)
    bk = open_by(case['supply'], stream, case['fname'], formatting_info=True, on_demand=case['on_demand'])
    d = snap.diff(snap.snap_book(bk), want)
    bk.release_resources()
    ctx.true(d is None, 'book differs from file_contents: %s' % d)


# ---- the compound-document API itself: any stream, any number of times, in any order
def streams_strategy():
    seg = st.sampled_from(['a', 'B', 'Stream', '\x01x', '\u00c4', 'long name of a stream', 'Workbook'])
    size = st.one_of(st.integers(0, 200), st.integers(500, 9000), st.sampled_from([4095, 4096, 4097, 0]))
    return st.fixed_dictionaries(dict(
        streams=st.lists(st.tuples(st.lists(seg, min_size=1, max_size=3), size), min_size=1, max_size=7),
        ssz=st.sampled_from([9, 9, 7, 8, 10, 12]), sssz=st.sampled_from([6, 6, 4, 7]), cutoff=st.sampled_from([4096, 4096, 512, 1]),
        perm=st.one_of(st.just([]), st.lists(st.integers(0, 50), min_size=1, max_size=20)), sperm=st.one_of(st.just([]), st.lists(st.integers(0, 9), min_size=1, max_size=12)),
        free=st.integers(0, 4), dirmode=st.sampled_from(['balanced', 'right', 'left']), ndirs=st.one_of(st.just(0), st.integers(0, 12), st.integers(230, 320)),
        ops=st.lists(st.tuples(st.sampled_from('gl'), st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=14)))


def streams_check(case, ctx):
    with ctx.building():
        streams, storages = {}, set()
        for path, n in case['streams']:
            keys = ['/'.join(path[:k + 1]).lower() for k in range(len(path))]
            have = {k.lower() for k in streams}
            if any(k in have for k in keys) or keys[-1] in storages:
                continue
            storages.update(keys[:-1])
            streams['/'.join(path)] = bytes((7 * n + 13 * i + i // 251) % 256 for i in range(n))
        doc = ole.Doc(list(streams.items()), ssz=case['ssz'], sssz=min(case['sssz'], case['ssz']), cutoff=case['cutoff'], perm=case['perm'], sperm=case['sperm'],
                      free=case['free'], dirmode=case['dirmode'], extra=[('before', 'x%d' % i, 2) for i in range(case['ndirs'])])
        data = doc.bytes()
        names = list(streams)
    ctx.nt(len(case['ops']) > 3 and len(names) > 1)
    cd = xlrd.compdoc.CompDoc(data, logfile=Sink())
    done = set()
    for op, k, how in case['ops']:
        q = names[k % len(names)]
        want = streams[q]
        if how == 7:
            q = q.swapcase() if q.swapcase().lower() == q.lower() else q
            ctx.label('other case')
        elif how == 8:
            q, want = q + 'z', None
            ctx.label('missing')
        elif how == 9:
            q, want = ('nope/' + q, None) if k % 2 else (q + '/nope', None)
            ctx.label('missing')
        if want is not None and q.lower() in done:
            ctx.label('again')
        done.add(q.lower())
        if op == 'g':
            got = cd.get_named_stream(q)
            ctx.true(got == want, 'get_named_stream(%r) after %r: %s' % (q, done, None if got is None else len(got)))
        else:
            mem, off, n = cd.locate_named_stream(q)
            if want is None:
                ctx.eq((mem, off, n), (None, 0, 0), 'locate_named_stream(%r)' % q)
            else:
                ctx.true(n == len(want) and mem[off:off + n] == want, 'locate_named_stream(%r): %r, wanted %d bytes' % (q, (off, n), len(want)))
    for q in sorted(storages):
        for m in (cd.get_named_stream, cd.locate_named_stream):
            try:
                m(q)
            except xlrd.compdoc.CompDocError:
                ctx.label('storage refused')
            else:
                raise Violation('the storage %r was returned as a stream' % q)


SUBS = [Sub('streams', streams_strategy, streams_check, quick=1500, thorough=60000,
            rule='compound documents with nested storages: any stream read any number of times in any order through get/locate_named_stream; non-trivial = several streams and more than 3 reads'),
        Sub('layouts', strategy, check, quick=4000, thorough=100000,
            rule='a workbook stream (BIFF5/8, 600 B-40 KB) inside a generated OLE2 layout, opened 4 ways, whole-Book snapshot compared with '
                 'the bare stream; non-trivial = fragmented, mini-stream, MSAT extension, decoy/both streams or sector size other than 512'),
        Sub('bare', bare_strategy, bare_check, quick=400, thorough=10000,
            rule='bare stream by file name/mmap vs bytes; all non-trivial')]
