"""Independent OLE2 compound-document writer with full control of layout."""
import struct

P = struct.pack
SIG = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'
END, FREE, SATM, MSATM = -2, -1, -3, -4


def dirent(name, etype, first, size, left=-1, right=-1, root=-1, colour=1):
    nm = name.encode('utf-16-le')
    if name:
        nm += b'\0\0'
    assert len(nm) <= 64
    return (nm.ljust(64, b'\0') + P('<HBBiii', len(nm), etype, colour, left, right, root)
            + b'\0' * 16 + P('<I', 0) + b'\0' * 16 + P('<ii', first, size) + P('<I', 0))


class Doc:
    """streams: list of (path, bytes).  Layout knobs:

    ssz, sssz  log2 of the sector / short sector size
    cutoff     minimum size of a standard stream (spec: 4096)
    perm,sperm sort keys (cycled) that shuffle the physical order of the sectors / short sectors
    free,sfree number of free (short) sectors interspersed
    dirmode    'balanced' | 'right' | 'left' sibling tree shape
    extra      further directory entries [('before'|'after', name, etype)]
    lead       kind of sector that comes first in the file: st, sscs, ssat, dir, free, sat, msatx
    nofirst    first MSAT extension sector recorded when there is none
    sat_pad    surplus SAT sectors (cheap way to need MSAT extension sectors)
    """

    def __init__(self, streams, ssz=9, sssz=6, cutoff=4096, perm=(), sperm=(), free=0, sfree=0, dirmode='balanced',
                 extra=(), sat_pad=0, version=3, fat_first=False, msatx_term=END, holes=(), lead=None, nofirst=END):
        sec = 1 << ssz
        ssec = 1 << sssz
        streams = self.streams = list(streams)
        # ---- short streams
        shorts = [(n, d) for n, d in streams if len(d) < cutoff]
        longs = [(n, d) for n, d in streams if len(d) >= cutoff]
        # assign short sectors
        nss = []
        for n, d in shorts:
            for k in range((len(d) + ssec - 1) // ssec):
                nss.append((n, k))
        for k in range(sfree):
            nss.append((None, k))
        sorder = _permute(nss, sperm)
        spos = {key: i for i, key in enumerate(sorder)}
        sscs = bytearray(len(sorder) * ssec)
        ssat = [FREE] * len(sorder)
        sfirst = {}
        for n, d in shorts:
            cnt = (len(d) + ssec - 1) // ssec
            chain = [spos[(n, k)] for k in range(cnt)]
            for k, sid in enumerate(chain):
                sscs[sid * ssec:(sid + 1) * ssec] = d[k * ssec:(k + 1) * ssec].ljust(ssec, b'\xAA')
                ssat[sid] = chain[k + 1] if k + 1 < cnt else END
            sfirst[n] = chain[0] if chain else END
        self.ssat_chain = sfirst
        sscs = bytes(sscs)
        nent = sec // 4
        ssat_bytes = b''
        if ssat:
            nssat = (len(ssat) + nent - 1) // nent
            ssat = ssat + [FREE] * (nssat * nent - len(ssat))
            ssat_bytes = P('<%di' % len(ssat), *ssat)
        # ---- directory: nodes of a tree; stream names may be paths 'Storage/Stream'
        root = {}
        for e in extra:
            if e[0] == 'before':
                root[e[1]] = ('x', e[2])
        for n, _ in streams:
            d = root
            parts = n.split('/')
            for q in parts[:-1]:
                d = d.setdefault(q, ('d', {}))[1]
            d[parts[-1]] = ('s', n)
        for e in extra:
            if e[0] == 'after':
                root[e[1]] = ('x', e[2])
        nodes = []     # (name, kind, payload) in DID order, DID = index + 1

        def number(d):
            mine = []
            for nm, (kind, pl) in d.items():
                nodes.append([nm, kind, pl, None])
                mine.append(len(nodes))
            for did in mine:
                if nodes[did - 1][1] == 'd':
                    nodes[did - 1][3] = number(nodes[did - 1][2])
            return mine
        rootkids = number(root)
        ndirs = 1 + len(nodes)
        ndirsec = (ndirs * 128 + sec - 1) // sec
        # ---- logical sectors
        logical = []
        for n, d in longs:
            logical += [('st', n, k) for k in range((len(d) + sec - 1) // sec)]
        logical += [('sscs', k) for k in range((len(sscs) + sec - 1) // sec)]
        logical += [('ssat', k) for k in range(len(ssat_bytes) // sec)]
        logical += [('dir', k) for k in range(ndirsec)]
        logical += [('free', k) for k in range(free)]
        # number of SAT and MSATX sectors
        nsat = 1
        while True:
            nx = max(0, -(-(nsat - 109) // (nent - 1))) if nsat > 109 else 0
            total = len(logical) + nsat + nx
            need = -(-total // nent) + sat_pad
            if need <= nsat:
                break
            nsat = need
        logical += [('sat', k) for k in range(nsat)] + [('msatx', k) for k in range(nx)]
        if fat_first:
            logical = [k for k in logical if k[0] == 'sat'] + [k for k in logical if k[0] != 'sat']
        order = _permute(logical, perm)
        if lead:
            order = [k for k in order if k[0] == lead] + [k for k in order if k[0] != lead]
        pos = {key: i for i, key in enumerate(order)}
        self.pos = pos
        self.nsat, self.nx, self.nsec = nsat, nx, len(order)
        sat = [FREE] * (nsat * nent)

        def chain(keys):
            ids = [pos[k] for k in keys]
            for a, b in zip(ids, ids[1:] + [END]):
                sat[a] = b
            return ids
        self.chains = {}
        first = dict(sfirst)
        data = {}
        for n, d in longs:
            keys = [('st', n, k) for k in range((len(d) + sec - 1) // sec)]
            ids = chain(keys)
            self.chains[n] = ids
            first[n] = ids[0] if ids else END
            for k, key in enumerate(keys):
                data[key] = d[k * sec:(k + 1) * sec].ljust(sec, b'\xBB')
        keys = [k for k in logical if k[0] == 'sscs']
        ids = chain(keys)
        self.chains['<sscs>'] = ids
        sscs_first = ids[0] if ids else END
        for k, key in enumerate(keys):
            data[key] = sscs[k * sec:(k + 1) * sec].ljust(sec, b'\xCC')
        keys = [k for k in logical if k[0] == 'ssat']
        ids = chain(keys)
        self.chains['<ssat>'] = ids
        ssat_first = ids[0] if ids else END
        for k, key in enumerate(keys):
            data[key] = ssat_bytes[k * sec:(k + 1) * sec]
        # ---- directory
        kids = {}

        def link(ids):
            return _link(_tree(ids, dirmode, key=lambda did: (len(nodes[did - 1][0]), nodes[did - 1][0].upper())), kids)
        rootkid = link(rootkids)
        subroot = {}
        for i, nd in enumerate(nodes):
            if nd[1] == 'd':
                subroot[i + 1] = link(nd[3])
        size = {n: len(d) for n, d in streams}
        dbytes = dirent('Root Entry', 5, sscs_first, len(sscs), -1, -1, rootkid)
        self.dids = {}
        for i, (nm, kind, pl, _) in enumerate(nodes):
            l, r = kids[i + 1]
            if kind == 's':
                self.dids[pl] = i + 1
                dbytes += dirent(nm, 2, first[pl], size[pl], l, r, -1)
            elif kind == 'd':
                dbytes += dirent(nm, 1, 0, 0, l, r, subroot[i + 1])
            else:
                dbytes += dirent(nm, pl, END if pl == 2 else 0, 0, l, r, -1)
        dbytes = dbytes.ljust(ndirsec * sec, b'\0')
        # unused entries should have -1 DIDs
        if ndirs * 128 < len(dbytes):
            unused = dirent('', 0, 0, 0)
            dbytes = dbytes[:ndirs * 128] + unused * ((len(dbytes) - ndirs * 128) // 128)
        keys = [('dir', k) for k in range(ndirsec)]
        ids = chain(keys)
        self.chains['<dir>'] = ids
        dir_first = ids[0]
        for k, key in enumerate(keys):
            data[key] = dbytes[k * sec:(k + 1) * sec]
        for k in range(free):
            data[('free', k)] = b'\xEE' * sec
        satsids = [pos[('sat', k)] for k in range(nsat)]
        for s in satsids:
            sat[s] = SATM
        xs = [pos[('msatx', k)] for k in range(nx)]
        for s in xs:
            sat[s] = MSATM
        self.sat = sat
        self.satsids = satsids
        self.ssat = ssat
        satb = P('<%di' % len(sat), *sat)
        for k in range(nsat):
            data[('sat', k)] = satb[k * sec:(k + 1) * sec]
        rest = satsids[109:]
        for k in range(nx):
            part = rest[k * (nent - 1):(k + 1) * (nent - 1)]
            part = part + [FREE] * (nent - 1 - len(part))
            part.append(xs[k + 1] if k + 1 < nx else msatx_term)
            data[('msatx', k)] = P('<%di' % nent, *part)
        m = satsids[:109]
        for at, v in holes:     # unused entries between the used ones
            if len(m) < 109:
                m.insert(at % (len(m) + 1), v)
        m = (m + [FREE] * 109)[:109]
        hdr = (SIG + b'\0' * 16 + P('<HH', 0x3E, version) + b'\xFE\xFF' + P('<HH', ssz, sssz) + b'\0' * 10
               + P('<iiiiiiii', nsat, dir_first, 0, cutoff, ssat_first, len(ssat_bytes) // sec,
                   xs[0] if xs else nofirst, nx) + P('<109i', *m))
        assert len(hdr) == 512
        self.sec = sec
        self.ssec = ssec
        self.hdr = hdr
        self.nent = nent
        self.body = [data[k] for k in order]
        self.order = order

    def off_sid(self, sid):
        return 512 + sid * self.sec

    def off_sat(self, i):
        """file offset of SAT entry i"""
        return self.off_sid(self.satsids[i // self.nent]) + 4 * (i % self.nent)

    def off_ssat(self, i):
        return self.off_sid(self.chains['<ssat>'][i // self.nent]) + 4 * (i % self.nent)

    def off_dir(self, did):
        per = self.sec // 128
        return self.off_sid(self.chains['<dir>'][did // per]) + 128 * (did % per)

    def bytes(self, tail=b''):
        return self.hdr + b''.join(self.body) + tail


def _permute(seq, perm):
    """Stable reorder of seq by the sort keys `perm` (cycled); empty = identity."""
    if not perm:
        return list(seq)
    return [seq[i] for i in sorted(range(len(seq)), key=lambda i: (perm[i % len(perm)], i))]


def _tree(ids, mode, key):
    ids = sorted(ids, key=key)
    if mode == 'balanced':
        def build(a):
            if not a:
                return None
            m = len(a) // 2
            return (a[m], build(a[:m]), build(a[m + 1:]))
        return build(ids)
    t = None
    if mode == 'right':
        for i in reversed(ids):
            t = (i, None, t)
    else:
        for i in ids:
            t = (i, t, None)
    return t


def _link(t, kids):
    if t is None:
        return -1
    # iterative to survive long chains
    stack = [t]
    while stack:
        n, l, r = stack.pop()
        kids[n] = (l[0] if l else -1, r[0] if r else -1)
        if l:
            stack.append(l)
        if r:
            stack.append(r)
    return t[0]


def wrap(stream, name='Workbook', **kw):
    return Doc([(name, stream)], **kw).bytes()
