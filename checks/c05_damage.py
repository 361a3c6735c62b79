"""C05: damaged OLE2 containers are detected."""
import struct

from hypothesis import strategies as st

from checks import c04_container as C
from xv import ole, snap
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C05'
TABLES = ['<dir>', '<sscs>', '<ssat>', 'sat', 'msatx']


def base():
    return dict(
        biff=st.sampled_from([80, 50]), size=st.sampled_from([1500, 2600, 3333, 5000, 9000, 14000, 2048, 4096, 8192]), seed=st.integers(0, 9),
        ssz=st.sampled_from([9, 9, 7, 8, 10, 12]), cutoff=st.sampled_from([512, 512, 1024, 4096]),
        perm=st.one_of(st.just([]), st.lists(st.integers(0, 50), min_size=1, max_size=20)),
        sperm=st.one_of(st.just([]), st.lists(st.integers(0, 9), min_size=1, max_size=9)),
        free=st.integers(0, 4), mini=st.integers(100, 500), other=st.integers(1024, 5000),
        endpad=st.sampled_from([0, 0, 1, 2, 5]), sat_pad=st.sampled_from([0, 0, 0, 112]), ndirs=st.integers(0, 20), first=st.booleans(),
        name=st.sampled_from(['Workbook', 'Book']))


def make(case):
    stream = C.make_stream(case['biff'], case['seed'], case['size'])
    stream += bytes(case['endpad'] << case['ssz'])     # nothing is lost when its last sectors are
    streams = [(case['name'], stream), ('Small', bytes(range(256)) * 2), ('Tiny', b'x' * case['mini']), ('Other', b'o' * max(case['other'], case['cutoff']))]
    if case['first']:
        streams.reverse()
    doc = ole.Doc(streams, ssz=case['ssz'], cutoff=case['cutoff'], perm=case['perm'], sperm=case['sperm'], free=case['free'],
                  sat_pad=case['sat_pad'], extra=[('before', 'e%d' % i, 2) for i in range(case['ndirs'])])
    return stream, doc


def table_sectors(doc):
    out = {k: list(doc.chains[k]) for k in TABLES[:3]}
    out['sat'] = list(doc.satsids)
    out['msatx'] = [doc.pos['msatx', k] for k in range(doc.nx)]    # in chain order
    return out


def poke(data, off, val):
    return data[:off] + struct.pack('<i', val) + data[off + 4:]


def attempt(data, **kw):
    """-> (book or None, exception or None)"""
    try:
        return xlrd.open_workbook(file_contents=data, logfile=C.Sink(), formatting_info=True, **kw), None
    except Exception as e:
        return None, e


def must_raise(ctx, data, what, **kw):
    bk, e = attempt(data, **kw)
    ctx.true(e is not None, 'damaged container accepted: %s %s' % (what, kw or ''))


# ------------------------------------------------------------------ strict: the workbook stream's chain

def wb_strategy():
    d = base()
    d.update(where=st.sampled_from(['sat', 'sat', 'first', 'size']),
             k=st.integers(0, 300),
             to=st.sampled_from(['loop', 'self', 'table', 'table', 'outside', 'far', 'short', 'neg', 'long', 'skip', 'splice', 'splice']),
             pick=st.integers(0, 10 ** 6), ignore=st.booleans())
    return st.fixed_dictionaries(d)


def wb_check(case, ctx):
    with ctx.building():
        case = dict(case)
        if C.make_stream(case['biff'], case['seed'], case['size']).__len__() < case['cutoff']:
            case['cutoff'] = 512
        stream, doc = make(case)
        data = doc.bytes()
        ids = doc.chains[case['name']]
        n = len(ids)
        k = case['k'] % n
        pick = case['pick']
        tables = table_sectors(doc)
        flat = [(t, s) for t in TABLES for s in tables[t]]
        to = case['to']
        allow_when_ignored = False
        # places where the chain can turn into a chain of the container and still have the recorded length
        splices = [(n - 1 - (len(tables[t]) - j), t, s) for t in TABLES[:3] for j, s in enumerate(tables[t]) if n - 1 - (len(tables[t]) - j) >= -1]
        if to == 'splice' and splices:
            at, t, val = splices[pick % len(splices)]
            off = doc.off_sat(ids[at]) if at >= 0 else doc.off_dir(doc.dids[case['name']]) + 116
            bad = poke(data, off, val)
            what = 'entry %d of the chain -> sector %d of %s, total length as recorded' % (at, val, t)
            allow_when_ignored = True
            ctx.label('splice ' + t, 'splice at the start' if at < 0 else 'splice later')
        elif case['where'] == 'size':
            secs = n
            delta = [1, -1, 2, -2, 5, 1000, 400000][pick % 7]
            new = len(stream) + delta * doc.sec
            if new < case['cutoff']:
                new = len(stream) + doc.sec
            assert (new + doc.sec - 1) // doc.sec != secs
            bad = poke(data, doc.off_dir(doc.dids[case['name']]) + 120, new)
            what = 'recorded size %d for %d sectors' % (new, n)
            to = 'size'
        else:
            if case['where'] == 'first':
                off = doc.off_dir(doc.dids[case['name']]) + 116
                orig = ids[0]
                at = -1
            else:
                off = doc.off_sat(ids[k])
                orig = ids[k + 1] if k + 1 < n else -2
                at = k
            if to == 'loop' and at >= 0:
                val = ids[pick % (at + 1)]
            elif to == 'self' and at >= 0:
                val = ids[at]
            elif to in ('table', 'loop', 'self'):
                t, val = flat[pick % len(flat)]
                ctx.label('into ' + t)
                to = 'table'
                allow_when_ignored = True
            elif to == 'outside':
                val = doc.nsec + pick % 50
            elif to == 'far':
                val = [len(doc.sat), len(doc.sat) + pick, 0x7FFFFFFF][pick % 3]
            elif to == 'short' and at + 1 < n:
                val = -2
            elif to == 'neg':
                val = [-1, -3, -4, -5, -1000, -2 ** 31][pick % 6]
            elif to == 'skip' and at + 2 < n:
                val = ids[at + 2 + pick % (n - at - 2)]
            else:
                # the chain goes on after its last sector, into free space or into its own start
                to = 'long'
                off = doc.off_sat(ids[-1])
                fr = [i for i, q in enumerate(doc.order) if q[0] == 'free']
                val = fr[pick % len(fr)] if fr else ids[0]
                orig = -2
            if val == orig:
                val = doc.nsec + 1
                allow_when_ignored = False
                to = 'outside'
            bad = poke(data, off, val)
            what = '%s entry %d of the chain -> %d (%s)' % (case['where'], at, val, to)
        ctx.label('fault:' + to, case['where'])
    ctx.nt()
    must_raise(ctx, bad, what)
    if not allow_when_ignored:
        must_raise(ctx, bad, what, ignore_workbook_corruption=True)
    else:
        attempt(bad, ignore_workbook_corruption=True)
    # and the undamaged file is read alike with and without the option
    if case['ignore']:
        bk, e = attempt(data, ignore_workbook_corruption=True)
        ctx.true(e is None, 'undamaged file refused with ignore_workbook_corruption: %r' % e)
        d = snap.diff(snap.snap_book(bk), C.reference(stream))
        ctx.true(d is None, 'undamaged file read differently with ignore_workbook_corruption: %s' % d)


# ------------------------------------------------------------------ strict: chains of the container's own structures

def own_strategy():
    d = base()
    d.update(which=st.sampled_from(['dir', 'sscs', 'ssat', 'msat', 'msatx', 'ssatchain', 'tree', 'dirout', 'firstdir', 'firstssat', 'firstsscs', 'msatent', 'msatxout', 'msatneg', 'sscsout', 'ssatout', 'minichain', 'minichain']), k=st.integers(0, 300), pick=st.integers(0, 10 ** 6),
             ignore=st.booleans())
    return st.fixed_dictionaries(d)


def own_check(case, ctx):
    with ctx.building():
        case = dict(case)
        which = case['which']
        if which in ('msatx', 'msatent', 'msatxout') and (which != 'msatent' or case['k'] % 2):
            case['sat_pad'] = 115 + case['k'] % 40
        if which in ('ssatchain', 'minichain'):
            case['cutoff'] = 1 << 20
        stream, doc = make(case)
        data = doc.bytes()
        pick, k = case['pick'], case['k']
        tables = table_sectors(doc)
        if which == 'dir':
            ids = tables['<dir>']
            used = tables['msatx'] + tables['sat'] + ids[:k % len(ids) + 1]
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), used[pick % len(used)])
            what = 'directory chain re-enters a used sector'
        elif which == 'dirout':
            ids = tables['<dir>']
            val = [doc.nsec + 3, len(doc.sat), 0x7FFFFFF0, -1, -3, -77][pick % 6]
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), val)
            what = 'directory chain -> %d' % val
        elif which == 'sscs':
            ids = tables['<sscs>']
            used = tables['msatx'] + tables['sat'] + tables['<dir>'] + ids[:k % len(ids) + 1]
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), used[pick % len(used)])
            what = 'mini-stream container chain re-enters a used sector'
        elif which == 'ssat':
            ids = tables['<ssat>']
            used = tables['msatx'] + tables['sat'] + tables['<dir>'] + tables['<sscs>'] + ids[:k % len(ids) + 1]
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), used[pick % len(used)])
            what = 'short-sector table chain re-enters a used sector'
        elif which == 'msat':
            # two MSAT slots name the same SAT sector
            s = tables['sat'][:109]
            i = min(len(s), 108)
            bad = poke(data, 76 + 4 * i, s[pick % i]) if i and len(s) < 109 else poke(data, 76, s[1 + pick % 100])
            what = 'SAT sector listed twice'
        elif which == 'msatx':
            xs = tables['msatx']
            x = xs[k % len(xs)]
            used = xs[:k % len(xs) + 1]
            bad = poke(data, doc.off_sid(x) + doc.sec - 4, used[pick % len(used)])
            what = 'MSAT extension chain loops'
        elif which == 'ssatchain':
            # the workbook lives in the mini-stream and its short-sector chain loops
            cur = doc.ssat_chain[case['name']]
            ch = []
            while cur >= 0:
                ch.append(cur)
                cur = doc.ssat[cur]
            at = k % len(ch)
            bad = poke(data, doc.off_ssat(ch[at]), ch[pick % (at + 1)])
            what = 'short-sector chain of the workbook loops'
        elif which == 'minichain':
            # the short-sector chain of the workbook leaves the mini-stream or ends early or not properly
            cur, ch = doc.ssat_chain[case['name']], []
            while cur >= 0:
                ch.append(cur)
                cur = doc.ssat[cur]
            at = k % len(ch)
            val = [-1, -3, -4, -77, -2 ** 31, len(doc.ssat), len(doc.ssat) + 9, 0x7FFFFFF0, -2][pick % 9]
            # (inside the mini-stream a chain that ends early is told by the records that are missing)
            if val == -2 and (at + 1) * 64 >= len(stream) - (case['endpad'] << case['ssz']):
                val = -1
            bad = poke(data, doc.off_ssat(ch[at]), val)
            what = 'short-sector chain of the workbook: entry %d of %d -> %d' % (at, len(ch), val)
        elif which == 'msatxout':
            x = tables['msatx'][k % doc.nx]
            val = [-3, -5, -1000, -2 ** 31, doc.nsec, doc.nsec + 7, 0x7FFFFFFF][pick % 7]
            bad = poke(data, doc.off_sid(x) + doc.sec - 4, val)
            what = 'MSAT extension chain -> %d' % val
        elif which == 'msatneg':
            val = [-3, -4, -5, -1000, -2 ** 31][pick % 5]
            bad = poke(data, 76 + 4 * (k % 109), val)
            what = 'MSAT slot %d -> %d' % (k % 109, val)
        elif which in ('sscsout', 'ssatout'):
            ids = tables['<sscs>' if which == 'sscsout' else '<ssat>']
            val = [-1, -3, -77, len(doc.sat), len(doc.sat) + 9, 0x7FFFFFF0][pick % 6]
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), val)
            what = '%s chain -> %d' % (which[:4], val)
        elif which == 'msatent':
            # an MSAT slot names a sector of the MSAT extension or a sector twice
            used = tables['msatx'] + tables['sat'][:1]
            bad = poke(data, 76 + 4 * max(1, k % min(109, len(tables['sat']))), used[pick % len(used)])
            what = 'MSAT slot -> sector in use'
        elif which.startswith('first'):
            # a structure starts in a sector that belongs to one read before
            used = tables['msatx'] + tables['sat']
            if which == 'firstdir':
                off = 48
            elif which == 'firstsscs':
                off = doc.off_dir(0) + 116
                used = used + tables['<dir>']
            else:
                off = 60
                used = used + tables['<dir>'] + tables['<sscs>']
            bad = poke(data, off, used[pick % len(used)])
            what = '%s: starts in a sector in use' % which
        else:
            # directory tree with a cycle: some entry on the root's left/right spine points back at the top
            did = struct.unpack('<i', data[doc.off_dir(0) + 76:doc.off_dir(0) + 80])[0]
            path = [did]
            while True:
                l, r = struct.unpack('<ii', data[doc.off_dir(path[-1]) + 68:doc.off_dir(path[-1]) + 76])
                nxt = [x for x in ((l, r) if (pick >> len(path)) & 1 else (r, l)) if x >= 0]
                if not nxt:
                    break
                path.append(nxt[0])
            i = k % len(path)
            bad = poke(data, doc.off_dir(path[i]) + 68 + 4 * (pick & 1), path[pick % (i + 1)])
            what = 'directory tree has a cycle'
        ctx.label(which)
    ctx.nt()
    must_raise(ctx, bad, what)
    if case['ignore']:
        must_raise(ctx, bad, what, ignore_workbook_corruption=True)


# ------------------------------------------------------------------ any single damage terminates; damage elsewhere is harmless

VALS = [-1, -2, -3, -4, -5, 0, 1, 2, 3, 108, 109, 110, 127, 128, 255, 4096, 0x7FFFFFFF, -2 ** 31, 0x10000, 0x00FFFFFF]


def any_strategy():
    d = base()
    d.update(area=st.sampled_from(['hdr', 'sat', 'ssat', 'dir', 'dirlink', 'msat', 'msatx']), k=st.integers(0, 10 ** 6), field=st.integers(0, 31),
             val=st.one_of(st.sampled_from(VALS), st.integers(0, 60), st.integers(-2 ** 31, 2 ** 31 - 1)), ignore=st.booleans())
    return st.fixed_dictionaries(d)


def any_check(case, ctx):
    with ctx.building():
        case = dict(case)
        if case['area'] == 'msatx':
            case['sat_pad'] = 112
        stream, doc = make(case)
        data = doc.bytes()
        k = case['k']
        t = table_sectors(doc)
        a = case['area']
        if a == 'hdr':
            off = (case['field'] * 4 + 28) % 76
        elif a == 'sat':
            off = doc.off_sat(k % doc.nsec)
        elif a == 'ssat':
            off = doc.off_ssat(k % len(doc.ssat))
        elif a == 'dir':
            off = doc.off_dir(k % (len(doc.dids) + 1 + case['ndirs'])) + case['field'] * 4
        elif a == 'dirlink':
            off = doc.off_dir(k % (len(doc.dids) + 1 + case['ndirs'])) + [64, 68, 72, 76, 116, 120][case['field'] % 6]
        elif a == 'msat':
            off = 76 + 4 * (k % 109)
        else:
            off = doc.off_sid(t['msatx'][k % len(t['msatx'])]) + 4 * (case['field'] % doc.nent)
        bad = poke(data, off, case['val'])
        changed = bad != data
    ctx.label(a)
    ctx.nt(changed)
    bk, e = attempt(bad, ignore_workbook_corruption=case['ignore'])
    ctx.label('refused' if e is not None else 'opened')
    if not changed:
        ctx.true(e is None, 'undamaged file refused: %r' % e)


def other_strategy():
    d = base()
    d.update(k=st.integers(0, 10 ** 6), val=st.one_of(st.sampled_from(VALS), st.integers(0, 60)), kind=st.sampled_from(['chain', 'free', 'ministream', 'payload']))
    return st.fixed_dictionaries(d)


def other_check(case, ctx):
    """damage to parts that hold neither the workbook nor a table: refused, or read unaltered"""
    with ctx.building():
        stream, doc = make(case)
        data = doc.bytes()
        k = case['k']
        mini_wb = case['name'] not in doc.chains
        if case['kind'] == 'chain':
            ids = doc.chains['Other']
            bad = poke(data, doc.off_sat(ids[k % len(ids)]), case['val'])
        elif case['kind'] == 'free':
            fr = [i for i, q in enumerate(doc.order) if q[0] == 'free']
            bad = poke(data, doc.off_sat(fr[k % len(fr)]), case['val']) if fr else data
        elif case['kind'] == 'ministream' and not mini_wb:
            bad = poke(data, doc.off_ssat(k % len(doc.ssat)), case['val'])
        else:
            ids = doc.chains['Other']
            bad = poke(data, doc.off_sid(ids[k % len(ids)]), case['val'])
    ctx.label(case['kind'])
    ctx.nt(bad != data)
    bk, e = attempt(bad)
    if e is None:
        d = snap.diff(snap.snap_book(bk), C.reference(stream))
        ctx.true(d is None, 'damage outside the workbook changed it: %s' % d)
    else:
        ctx.label('refused')


def share_strategy():
    d = base()
    d.update(k=st.integers(0, 300), full=st.booleans())
    return st.fixed_dictionaries(d)


def share_check(case, ctx):
    """the mini-stream container claims sectors of the workbook: refused by default, readable with ignore_workbook_corruption"""
    with ctx.building():
        case = dict(case)
        if len(C.make_stream(case['biff'], case['seed'], case['size'])) < case['cutoff']:
            case['cutoff'] = 512
        stream, doc = make(case)
        data = doc.bytes()
        ids = doc.chains[case['name']]
        k = 0 if case['full'] else case['k'] % len(ids)
        bad = poke(data, doc.off_dir(0) + 116, ids[k])
        need = len(doc.chains['<ssat>'])
    ctx.nt()
    must_raise(ctx, bad, 'mini-stream container shares the workbook chain from sector %d' % k)
    bk, e = attempt(bad, ignore_workbook_corruption=True)
    ctx.true(e is None, 'shared sectors refused although ignore_workbook_corruption is set: %r' % e)
    d = snap.diff(snap.snap_book(bk), C.reference(stream))
    ctx.true(d is None, 'workbook read differently: %s' % d)


SUBS = [
    Sub('workbook-chain', wb_strategy, wb_check, quick=3000, thorough=80000,
        rule='one fault in the workbook stream chain (SAT entry, first sector, recorded size) that loops, enters a table/directory/mini-stream '
             'sector, leaves the file, or changes the length: must raise; every case is a fault'),
    Sub('own-chains', own_strategy, own_check, quick=2000, thorough=50000,
        rule='one fault making a chain of the container itself (directory, mini-stream, SSAT, MSAT, MSAT extension, directory tree, short-sector '
             'chain of the workbook) loop or re-enter a used sector: must raise; every case is a fault'),
    Sub('anywhere', any_strategy, any_check, quick=3000, thorough=100000,
        rule='one 32-bit field of header/SAT/SSAT/MSAT/directory replaced: must terminate; non-trivial = bytes changed'),
    Sub('elsewhere', other_strategy, other_check, quick=1500, thorough=40000,
        rule='damage confined to other streams, free sectors or the mini-stream: refused or read unaltered; non-trivial = bytes changed'),
    Sub('shared', share_strategy, share_check, quick=800, thorough=20000,
        rule='root entry points into the workbook chain: refused, unless ignore_workbook_corruption; every case is a fault'),
]
