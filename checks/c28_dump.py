"""C28: diagnostic dumps account for every record."""
import contextlib
import io
import os
import re
import struct
import tempfile

from hypothesis import strategies as st

from xv import biff as B
from xv import ole
from xv import rich
from xv import snap
from xv.recnames import NAMES
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C28'
P = struct.pack
TMP = tempfile.mkdtemp(prefix='xv28')
import atexit
import shutil
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
UNK = [0x0A2B, 0x1FF, 0xFFFF, 0x300, 0x7D1, 0x1007, 0x40A]


def strategy():
    code = st.one_of(st.sampled_from(sorted(NAMES)), st.sampled_from(sorted(NAMES)), st.sampled_from(UNK), st.integers(0, 65535), st.sampled_from([0, 0x3C, 0x809, 0x0A]))
    data = st.one_of(st.binary(max_size=40), st.binary(max_size=40), st.just(b''), st.sampled_from([1, 15, 16, 17, 31, 32, 33, 48]).flatmap(lambda n: st.binary(min_size=n, max_size=n)), st.integers(0, 60).map(bytes),
                     st.tuples(st.binary(min_size=1, max_size=16), st.integers(1, 600)).map(lambda t: (t[0] * t[1])[:9000]), st.text(st.sampled_from('~? aZ\x7f\x80\x1f'), max_size=20).map(lambda s: s.encode('latin-1')))
    item = st.one_of(st.tuples(st.just('rec'), code, data), st.tuples(st.just('rec'), code, data), st.tuples(st.just('rec'), code, data), st.tuples(st.just('zero'), st.one_of(st.integers(1, 6), st.integers(1, 6), st.sampled_from([64, 127, 128, 129, 255, 256, 257, 300, 1024, 1025])), st.just(b'')))
    tail = st.one_of(st.tuples(st.just('none'), st.just(0)), st.tuples(st.just('zeros'), st.integers(1, 40)), st.tuples(st.just('zeros'), st.integers(3000, 9000)), st.tuples(st.just('misc'), st.binary(min_size=1, max_size=3)),
                     st.tuples(st.just('cut'), st.tuples(code, st.binary(max_size=40), st.integers(1, 8000))))
    return st.fixed_dictionaries(dict(items=st.lists(item, max_size=14), tail=tail, layout=st.sampled_from(['bare', 'bare', 'ole', 'ole-frag', 'ole-book', 'ole-big', 'direct']), unnum=st.booleans(), base=st.integers(0, 5000), off=st.integers(0, 50), seed=st.integers(0, 20)))


def model(data):
    """[(offset, kind, ...)]: records, runs of zero dummies, and the leftover"""
    out, pos, end = [], 0, len(data)
    while end - pos >= 4:
        rc, n = struct.unpack_from('<HH', data, pos)
        if rc == 0 and n == 0:
            rest = data[pos:]
            if not any(rest):
                out.append((pos, 'pad', len(rest)))
                return out
            out.append((pos, 'dummy', 4))
            pos += 4
        else:
            out.append((pos, 'rec', rc, n, data[pos + 4:pos + 4 + n]))
            pos += 4 + n
    if pos < end:
        out.append((pos, 'misc', data[pos:]))
    return out


HEAD = re.compile(r'^(?: *(\d+): )?([0-9a-f]{4}) (\S+) len = ([0-9a-f]{4,}) \((\d+)\)$')
ZERO = re.compile(r'^(?: *(\d+): )?---- (\d+) zero bytes skipped ----$')
MISC = re.compile(r'^(?: *(\d+): )?---- Misc bytes at end ----$')
LONG = re.compile(r'^Last dumped record has length \((\d+)\) that is too large$')


def parse(text, unnum, ctx):
    """dump text -> list of entries with their bytes"""
    out = []
    for line in text.split('\n')[:-1]:
        for rx, kind in ((HEAD, 'rec'), (ZERO, 'zero'), (MISC, 'misc'), (LONG, 'long')):
            m = rx.match(line)
            if m:
                break
        if m:
            if kind == 'long':
                out.append(dict(kind='long', n=int(m.group(1))))
                continue
            g = m.groups()
            ctx.true((g[0] is None) == unnum, 'offset shown or not as asked: %r' % line)
            e = dict(kind=kind, off=None if g[0] is None else int(g[0]), data=b'', at=[])
            if kind == 'rec':
                e.update(rc=int(g[1], 16), name=g[2], hexlen=int(g[3], 16), n=int(g[4]))
            if kind == 'zero':
                e.update(n=int(g[1]))
            out.append(e)
            continue
        if not out or out[-1]['kind'] not in ('rec', 'misc'):
            raise Violation('unexpected line %r' % line)
        m = re.match(r'^(?: *(\d+): )?     ((?:[0-9a-f]{2} )*) *', line)
        ctx.true(m and (m.group(1) is None) == unnum, 'offset of a data line shown or not as asked: %r' % line)
        h = m.group(2).split()
        chars = ''.join(chr(int(x, 16)) if 32 <= int(x, 16) <= 126 else '~' if x == '00' else '?' for x in h)
        want = '     %-48s %s' % (''.join(x + ' ' for x in h), chars)
        ctx.true(line.endswith(want), 'characters of the data line %r do not go with its bytes' % line)
        ctx.true(0 < len(h) <= 16, 'number of bytes in a line')
        if not unnum:
            out[-1]['at'].append((int(m.group(1)), len(out[-1]['data'])))
        out[-1]['data'] += bytes(int(x, 16) for x in h)
    return out


def check(case, ctx):
    with ctx.building():
        data = b''
        for kind, a, d in case['items']:
            data += B.rec(a, d) if kind == 'rec' else bytes(4 * a)
        k, x = case['tail']
        if k == 'zeros':
            data += bytes(x)
        elif k == 'misc':
            data += x
        elif k == 'cut':
            data += P('<HH', x[0], len(x[1]) + x[2]) + x[1]
        if case['layout'] in ('ole', 'ole-frag', 'ole-big') and len(data) < 4096 and case['layout'] != 'ole':
            data = B.rec(0x1C1, bytes(range(1, 200)) * 21) + data
        if not data:
            data = B.EOF
        if data[:8] == b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
            data = data[1:]
        lay = case['layout']
        if lay in ('bare', 'direct'):
            raw = data
        else:
            raw = ole.wrap(data, 'Book' if lay == 'ole-book' else 'Workbook', perm=[3, 1, 4, 1, 5, case['seed']] if lay == 'ole-frag' else [])
        fd, fn = tempfile.mkstemp(dir=TMP)
        with os.fdopen(fd, 'wb') as f:
            f.write(raw)
    m = model(data)
    shift = 0
    so, se = io.StringIO(), io.StringIO()
    dump, count = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
        if lay == 'direct':
            from xlrd import biffh
            shift = case['base']
            mem = b'\x55' * case['off'] + data + b'\xAA' * 9
            biffh.biff_dump(mem, case['off'], len(data), shift, dump, case['unnum'])
            biffh.biff_count_records(mem, case['off'], len(data), count)
        else:
            xlrd.dump(fn, dump, case['unnum'])
            xlrd.count_records(fn, count)
    os.unlink(fn)
    ctx.eq(so.getvalue() + se.getvalue(), '', 'written to stdout or stderr')
    recs = [e for e in m if e[1] == 'rec']
    ctx.label(lay, 'tail-' + k, *(['dummies'] if any(e[1] == 'dummy' for e in m) else []))
    ctx.nt(len(recs) >= 3)
    # ---- count
    tally = {}
    for e in m:
        if e[1] == 'rec':
            nm = NAMES.get(e[2], 'Unknown_0x%04X' % e[2])
        elif e[1] == 'dummy':
            nm = '<Dummy (zero)>'
        else:
            continue
        tally[nm] = tally.get(nm, 0) + 1
    got = []
    for line in count.getvalue().splitlines():
        mm = re.match(r'^ *(\d+) (.*)$', line)
        ctx.true(mm is not None, 'line of count_records: %r' % line)
        got.append((mm.group(2), int(mm.group(1))))
    ctx.eq(got, sorted(tally.items()), 'count_records')
    # ---- dump
    es = parse(dump.getvalue(), case['unnum'], ctx)
    want = []
    for e in m:
        if e[1] == 'rec':
            want.append(dict(kind='rec', off=e[0] + shift, rc=e[2], name=NAMES.get(e[2], '<UNKNOWN>'), n=e[3], data=e[4]))
            if len(e[4]) < e[3]:
                want.append(dict(kind='long', n=e[3]))
        elif e[1] == 'misc':
            want.append(dict(kind='misc', off=e[0] + shift, data=e[2]))
        elif want and want[-1]['kind'] == 'zero':
            want[-1]['n'] += e[2]
        else:
            want.append(dict(kind='zero', off=e[0] + shift, n=e[2]))
    ctx.eq([e['kind'] for e in es], [e['kind'] for e in want], 'entries of the dump')
    for g, w in zip(es, want):
        if g['kind'] != 'long' and not case['unnum']:
            ctx.eq(g['off'], w['off'], 'offset of the %s entry' % w['kind'])
            if 'data' in w:
                ctx.eq(g['at'], [(w['off'] + (4 if w['kind'] == 'rec' else 0) + i, i) for i in range(0, len(w['data']), 16)], 'offsets of the data lines')
        if w['kind'] == 'rec':
            ctx.eq((g['rc'], g['name'], g['hexlen'], g['n']), (w['rc'], w['name'], w['n'], w['n']), 'record line')
        if w['kind'] in ('zero', 'long'):
            ctx.eq(g['n'], w['n'], 'count of the %s entry' % w['kind'])
        else:
            ctx.eq(g['data'], w['data'], 'bytes of the %s entry at %d' % (w['kind'], w['off']))


# ---- obj.dump(f, header, footer, indent) of every object the library hands out
def objects_strategy():
    txt = st.sampled_from([None, 'HEAD', '=== x ===', ''])
    return st.fixed_dictionaries(dict(blob=rich.blob(), fi=st.sampled_from([True, True, False]), header=txt, footer=txt, indent=st.integers(0, 6), ragged=st.booleans(), skip=st.integers(0, 3)))


def attributes(o):
    return {a: getattr(o, a) for a in o.__slots__} if hasattr(o, '__slots__') else dict(o.__dict__)


def objects(o, seen, out, d=0):
    if id(o) in seen or d > 7:
        return
    seen.add(id(o))
    if callable(getattr(o, 'dump', None)):
        out.append(o)
        kids = attributes(o).values()
    elif isinstance(o, dict):
        kids = o.values()
    elif isinstance(o, (list, tuple)):
        kids = o
    else:
        return
    for k in list(kids)[:400]:
        objects(k, seen, out, d + 1)


def read_dump(ctx, lines, pos, o, indent, what):
    """consume the entries of one object: one per attribute"""
    want = attributes(o)
    pad = ' ' * indent
    while want:
        ctx.true(pos < len(lines), '%s: no entry for %s' % (what, sorted(want)))
        line = lines[pos]
        pos += 1
        m = re.match(r'^( *)(\w+)(?:: | \()', line)
        ctx.true(m is not None and m.group(1) == pad and m.group(2) in want, '%s: line %r, attributes left: %s' % (what, line[:80], sorted(want)))
        v = want.pop(m.group(2))
        rest = line[m.end() - 2:]
        if callable(getattr(v, 'dump', None)) and m.group(2) != 'book':
            ctx.eq(rest, ' (%s object):' % type(v).__name__, '%s.%s' % (what, m.group(2)))
            pos = read_dump(ctx, lines, pos, v, indent + 4, what + '.' + m.group(2))
        elif rest not in (': ' + repr(v), ': ' + ascii(v)):
            ctx.true(isinstance(v, (list, dict)) and rest == ': %s, len = %d' % (type(v), len(v)), '%s.%s: %r is dumped as %r' % (what, m.group(2), repr(v)[:80], rest[:80]))
    return pos


def objects_check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], versions=rich.ALL)
        data = R.bytes()
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fi'], ragged_rows=case['ragged'], logfile=io.StringIO())
    before = snap.snap_book(bk)
    objs = []
    objects(bk, set(), objs)
    for sh in bk.sheets():
        if sh.nrows:
            objs += sh.row(0)
    ctx.nt(len(objs) > 10)
    kw = dict(header=case['header'], footer=case['footer'], indent=case['indent'])
    for o in objs[:80] + objs[80::1 + case['skip']]:
        f, out, err = io.StringIO(), io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            r = o.dump(f, **kw)
        what = type(o).__name__
        ctx.label(what)
        ctx.true(out.getvalue() == '' and err.getvalue() == '', '%s.dump(f) wrote elsewhere: %r %r' % (what, out.getvalue()[:80], err.getvalue()[:80]))
        text = f.getvalue()
        ctx.true(text.endswith('\n'), '%s: text ends with %r' % (what, text[-20:]))
        lines = text.split('\n')[:-1]
        pos = 0
        if case['header'] is not None:
            ctx.eq(lines[0], case['header'], '%s: header' % what)
            pos = 1
        pos = read_dump(ctx, lines, pos, o, case['indent'], what)
        if case['footer'] is not None:
            ctx.eq(lines[pos:], [case['footer']], '%s: footer' % what)
        else:
            ctx.eq(lines[pos:], [], '%s: text after the entries' % what)
    d = snap.diff(snap.snap_book(bk), before)
    ctx.true(d is None, 'the book changed when its objects were dumped: %s' % d)


SUBS = [
    Sub('objects', objects_strategy, objects_check, quick=250, thorough=8000, rule='dump(f, header, footer, indent) of every object of generated books; non-trivial = more than 10 objects'),
    Sub('dump', strategy, check, quick=4000, thorough=150000, rule='record streams with zero runs and cut tails, bare, in OLE2 or in memory; non-trivial = at least 3 records'),
]
