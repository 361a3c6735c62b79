"""C18: cell notes and rich-text runs are attached to the right cells."""
from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C18'


def runs8():
    return st.lists(st.tuples(st.integers(0, 300), st.integers(0, 65535)), max_size=5)


def strategy():
    pos = st.tuples(st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([65535, 300])), st.one_of(st.integers(0, 6), st.integers(0, 6), st.just(255)))
    text = st.one_of(S.texts(15), S.texts(15), S.texts(15), S.long_texts(), st.tuples(S.texts(5, 1), st.integers(1000, 3000)).map(lambda t: t[0] * t[1]))
    note = st.fixed_dictionaries(dict(
        pos=pos, text=text, author=S.any_text(10), flags=st.one_of(st.integers(0, 0xFFFF), st.sampled_from([2, 0x80, 0x100])), pad=st.booleans(),
        id=st.integers(1, 0xFFFF), runs=runs8(), splits=st.lists(st.integers(1, 40), max_size=4), wide=st.booleans(), runsplit=st.booleans(),
        opt=st.integers(0, 0xFFFF), fmla=st.sampled_from([b'', b'', b'\0\0']), subs=st.lists(st.integers(0, 8), max_size=2), tail=st.integers(0, 4), own=st.booleans(),
        many=st.one_of([st.just(0)] * 19 + [st.integers(100, 2600)]), dup=st.integers(0, 9)))
    other = st.fixed_dictionaries(dict(kind=st.integers(0, 6), id=st.integers(1, 0xFFFF), text=S.texts(8, 1)))
    sheet = st.fixed_dictionaries(dict(notes=st.lists(note, max_size=4), others=st.lists(other, max_size=3), order=st.randoms(use_true_random=False).map(lambda r: r.random()),
                                       norder=st.booleans(), orphan=st.none() | st.none() | st.integers(1, 0xFFFF), early=st.booleans(), cells=st.booleans(), drawing=st.booleans()))
    return st.fixed_dictionaries(dict(sheets=st.lists(sheet, min_size=1, max_size=2), fi=st.booleans(), ragged=st.booleans()))


SUBREC = [B.P('<HH', 6, 2) + b'\1\0', B.P('<HH', 7, 2) + b'\2\0', B.P('<HH', 8, 2) + b'\1\0', B.P('<HH', 4, 4) + b'\0\0\0\0', B.P('<HH', 0x0A, 12) + b'\0' * 12,
          B.P('<HH', 0x0B, 6) + b'\0' * 6, B.P('<HH', 4, 300) + b'\x15\0\x12\0' * 75, B.P('<HH', 0x14, 0x1200) + b'\0\1' * 0x900, B.P('<HH', 0x0C, 20) + bytes(range(20))]


def obj(oid, typ, opt=0, subs=(), tail=0, mid=b''):
    d = B.P('<HHHHH', 0x15, 18, typ, oid, opt) + b'\x11\x22' * 6
    for s in subs:
        d += SUBREC[s]
    d += mid + B.P('<HH', 0, 0) + b'\0' * tail
    return B.rec(0x5D, d)


def txo(text, runs, splits=(), wide=False, fmla=b'', opt=0, runsplit=False):
    u = text.encode('utf-16-le', 'surrogatepass')
    n = len(u) // 2
    cuts = []
    p = 0
    for s in splits:
        p += s
        if p < n:
            cuts.append(p)
    bounds = [0] + cuts + [n]
    # no piece beyond the record limit
    full = []
    for a, b in zip(bounds, bounds[1:]):
        while b - a > 4111:
            full.append((a, a + 4111))
            a += 4111
        full.append((a, b))
    out = b''
    for a, b in full:
        piece = u[2 * a:2 * b]
        if not piece:
            continue
        can = all(piece[i] == 0 for i in range(1, len(piece), 2))
        w = wide or not can
        out += B.rec(0x3C, (b'\1' + piece) if w else (b'\0' + piece[::2]))
    rb = [B.P('<HHI', a, f, 0x11223344) for a, f in runs]
    if runsplit and len(rb) > 1:
        out += B.rec(0x3C, rb[0])
        for i in range(1, len(rb), 1028):
            out += B.rec(0x3C, b''.join(rb[i:i + 1028]))
    elif rb:
        # a record holds 1028 runs
        for i in range(0, len(rb), 1028):
            out += B.rec(0x3C, b''.join(rb[i:i + 1028]))
    return B.rec(0x1B6, B.P('<HH6sHHH', opt, 0, b'\0' * 6, n, 8 * len(rb), 0) + fmla) + out, len(full) > 1


def build(case):
    sheets, exps, stats = [], [], set()
    for k, sh in enumerate(case['sheets']):
        body = B.dimension(80, 0, 2, 0, 2)
        if sh['cells']:
            body += B.r_number(0, 0, 15, 1.5) + B.r_label8(1, 1, 15, 'x')
        objs, notes, exp, ids = [], [], {}, set()
        msd = lambda: B.rec(0xEC, B.P('<HHI', 0xF, 0xF004, 0)) if sh['drawing'] else b''
        for q in sh['notes']:
            if q['id'] in ids:
                continue
            ids.add(q['id'])
            if q['many']:
                q = dict(q, text=(q['text'] or 'x') * (q['many'] // max(len(q['text']), 1) + 1))
                q['text'] = q['text'][:q['many'] + 1]
                stats.add('many-runs')
            n = B.u16len(q['text'])
            if q['many']:
                q['runs'] = [(i, (7 * i) % 500) for i in range(min(n, q['many']))]
            runs = sorted((min(a, n), f) for a, f in q['runs'] if n)
            if runs:
                runs = [(0, runs[0][1])] + runs[1:] + [(n, 0)]
            t, split = txo(q['text'], runs, q['splits'], q['wide'], q['fmla'], q['opt'], q['runsplit'])
            if split:
                stats.add('split-text')
            rec = msd() + obj(q['id'], 0x19, q['opt'], q['subs'], q['tail'], B.P('<HH', 0x0D, 22) + b'\x33' * 22) + msd() + t
            if not q['dup']:
                rec += txo('not the text of the note', [(0, 2), (24, 0)])[0]       # a text that belongs to no object
            r, c = q['pos']
            nr = B.rec(0x1C, B.P('<HHHH', r, c, q['flags'], q['id']) + B.ustr(q['author'], 2) + (b'\x77' if q['pad'] else b''))
            e = dict(rowx=r, colx=c, text=q['text'], author=q['author'], show=(q['flags'] >> 1) & 1, row_hidden=(q['flags'] >> 7) & 1,
                     col_hidden=(q['flags'] >> 8) & 1, rich_text_runlist=[x for x in runs if x[0] != n])
            if (r, c) in exp:
                continue
            exp[r, c] = e
            if sh['early'] and q['own']:
                objs.append(rec + nr)
            else:
                objs.append(rec)
                notes.append(nr)
        for q in sh['others']:
            if q['id'] in ids:
                continue
            ids.add(q['id'])
            if q['kind'] == 0:      # text box with text
                objs.append(msd() + obj(q['id'], 6) + msd() + txo(q['text'], [(0, 1), (B.u16len(q['text']), 0)])[0])
            elif q['kind'] == 1:    # picture, no text
                objs.append(msd() + obj(q['id'], 8, 0, [1, 2]))
            elif q['kind'] == 2:    # embedded chart, with a text object inside its substream
                objs.append(msd() + obj(q['id'], 5) + B.bof(80, 0x20) + txo('chart', [(0, 1), (5, 0)])[0] + B.rec(0x1001, b'\0\0') + B.EOF)
            elif q['kind'] == 3:    # autofilter drop-down: non-standard list box data
                objs.append(msd() + B.rec(0x5D, B.P('<HHHHH', 0x15, 18, 20, q['id'], 0x2101) + b'\0' * 12 + B.P('<HH', 0x0C, 20) + b'\0' * 20
                                          + B.P('<HH', 0x13, 0x1FEE) + b'\0\0\0\0\1\3\0\0\2\0\x08\0\x57\0'))
            elif q['kind'] == 4:    # scrollbar
                objs.append(msd() + obj(q['id'], 17, 0, [], 0, B.P('<HH', 0x0C, 20) + bytes(range(20))))
            elif q['kind'] == 6:    # OBJ of an older kind with a text
                objs.append(B.rec(0x5D, b'\1\0\0\0' + b'\0' * 22) + txo(q['text'], [(0, 1), (B.u16len(q['text']), 0)])[0])
            else:                   # OBJ of an older kind, ignored
                objs.append(B.rec(0x5D, b'\1\0\0\0' + b'\0' * 22))
        # deterministic shuffle
        key = int(sh['order'] * 1e6)
        objs = [o for _, o in sorted(enumerate(objs), key=lambda t: ((t[0] + 1) * 7919 * (key | 1)) % 1009)]
        if sh['orphan'] is not None and (9, 9) not in exp:
            # a NOTE for an object of another sheet, or of none
            i = sh['orphan']
            if k and case['sheets'][0]['notes']:
                i = case['sheets'][0]['notes'][0]['id']
            if i not in ids:
                notes.append(B.rec(0x1C, B.P('<HHHH', 9, 9, 0, i) + B.ustr('nobody', 2)))
                stats.add('orphan-note')
        if sh['norder']:
            notes.reverse()
        body += b''.join(objs) + b''.join(notes)
        sheets.append(dict(name='S%d' % k, body=body))
        exps.append(exp)
        if len(objs) > 1:
            stats.add('several-objects')
    return B.assemble(80, B.globals8(), sheets), exps, stats


class Sink:
    def write(self, s):
        pass


NATTR = ('rowx', 'colx', 'text', 'author', 'show', 'row_hidden', 'col_hidden', 'rich_text_runlist')


def cmp_notes(sh, exp, ctx):
    ctx.eq(set(sh.cell_note_map), set(exp), 'cells with notes in %s' % sh.name)
    for k, e in exp.items():
        for a in NATTR:
            ctx.eq(getattr(sh.cell_note_map[k], a), e[a], 'note at %r of %s: %s' % (k, sh.name, a))


def check(case, ctx):
    with ctx.building():
        data, exps, stats = build(case)
    ctx.label(*stats)
    ctx.nt('several-objects' in stats and any(exps))
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fi'], ragged_rows=case['ragged'], logfile=Sink())
    for sh, exp, q in zip(bk.sheets(), exps, case['sheets']):
        cmp_notes(sh, exp, ctx)
        if q['cells']:
            ctx.eq((sh.nrows, sh.ncols, sh.cell_value(0, 0), sh.cell_value(1, 1)), (2, 2, 1.5, 'x'), 'cells of %s' % sh.name)


# ------------------------------------------------------------------ older NOTE chains

# characters of each code page; the records may be split inside one of them
ALPHA = {1252: '\xe9\xdf\u20ac\u2019', 1251: '\u0416\u044f\u0401', 932: '\u3042\u30bd\u8868\uff76\u65e5'}
ENC = {None: 'latin-1', 1252: 'cp1252', 1251: 'cp1251', 932: 'cp932'}


def strategy5():
    def mk(v):
        cp = st.sampled_from([None, 1252, 1251, 932, 932])
        return cp.flatmap(lambda c: mk2(v, c))

    def mk2(v, cp):
        pos = st.tuples(st.one_of(st.integers(0, 6), st.just(16383)), st.one_of(st.integers(0, 6), st.just(255)))
        ch = st.one_of(st.sampled_from('ab \n\r\t'), st.sampled_from(ALPHA[cp]), st.sampled_from(ALPHA[cp])) if cp else S.ASCII
        text = st.one_of(st.text(ch, max_size=20), st.tuples(st.text(ch, min_size=1, max_size=9), st.integers(100, 900)).map(lambda t: t[0] * t[1]))
        note = st.tuples(pos, text, st.one_of(st.just(2048), st.integers(1, 3000)), st.booleans())
        return st.fixed_dictionaries(dict(v=st.just(v), cp=st.just(cp), notes=st.lists(note, max_size=5), cells=st.booleans()))
    return st.sampled_from([70, 50, 45, 40, 30, 21, 20]).flatmap(mk)


def note5(r, c, b, chunk):
    out = B.rec(0x1C, B.P('<HHH', r, c, len(b)) + b[:chunk])
    for i in range(chunk, len(b), chunk):
        p = b[i:i + chunk]
        out += B.rec(0x1C, B.P('<HHH', 0xFFFF, 0, len(p)) + p)
    return out


def check5(case, ctx):
    v = case['v']
    with ctx.building():
        exp, body, chained = {}, b'', 0
        for (r, c), t, chunk, cell in case['notes']:
            if (r, c) in exp:
                continue
            exp[r, c] = dict(rowx=r, colx=c, text=t, author='', show=0, row_hidden=0, col_hidden=0, rich_text_runlist=[(0, 0)])
            b = t.encode(ENC[case['cp']])
            body += note5(r, c, b, max(chunk, len(b) // 20 + 1))
            chained += len(b) > chunk
            if case['cells'] and cell and r < 20:
                body += B.r_number(r, c, 15, 2.5) if v >= 30 else B.rec(0x03, B.P('<HH3sd', r, c, b'\0\0\0', 2.5))
        cpr = B.codepage(case['cp']) if case['cp'] else b''
        if v >= 50:
            data = B.assemble(v, B.globals5(cp=case['cp']), [dict(name=b'A', body=body), dict(name=b'B', body=b'')])
        elif v == 45:
            data = L.sheet(40, cpr + L.r_font(40) + L.r_format(40, b'General') + L.r_xf(40) * 20 + body)
        else:
            data = L.sheet(v, cpr + L.r_font(v) + L.r_format(v, b'General') + (L.r_xf(v) * 20 if v >= 30 else b'') + body)
    ctx.label('v%d' % v)
    ctx.nt(len(exp) > 1 and chained)
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    cmp_notes(bk.sheet_by_index(0), exp, ctx)
    if v >= 50:
        cmp_notes(bk.sheet_by_index(1), {}, ctx)


# ------------------------------------------------------------------ rich text runs

def strategy_rich():
    def mk(v):
        pos = st.tuples(st.integers(0, 7), st.integers(0, 7))
        fmax = 255 if v < 80 else 65535
        run = st.tuples(st.integers(0, min(fmax, 300)), st.integers(0, fmax))
        longer = st.one_of([st.just(1)] * 15 + [st.integers(30, 60 if v < 80 else 400)])
        cell = st.tuples(pos, st.sampled_from(['sst', 'sst', 'rstring', 'rstring', 'label', 'num', 'blank', 'formula']), st.integers(0, 6), st.tuples(st.lists(run, min_size=1, max_size=4), longer).map(lambda t: (t[0] * t[1])[:255 if v < 80 else 1900]),
                         st.one_of(S.texts(10, 1) if v >= 80 else st.text(S.ASCII, min_size=1, max_size=10)))
        sst = st.lists(st.tuples(S.any_text(), st.tuples(st.lists(st.tuples(S.u16, S.u16), max_size=4), longer).map(lambda t: t[0] * t[1]), st.one_of(st.just(b''), st.binary(max_size=9))), min_size=1, max_size=5)
        sheets = st.lists(st.lists(cell, max_size=10), min_size=1, max_size=2)
        return st.fixed_dictionaries(dict(v=st.just(v), sst=sst, sheets=sheets, ragged=st.booleans(), splits=st.lists(st.integers(20, 60), max_size=3)))
    return st.sampled_from([80, 80, 70, 50]).flatmap(mk)


def check_rich(case, ctx):
    v = case['v']
    with ctx.building():
        sheets, exps = [], []
        for k, cells in enumerate(case['sheets']):
            exp, body, seen = {}, b'', set()
            for (r, c), kind, idx, runs, text in cells:
                if (r, c) in seen:
                    continue
                seen.add((r, c))
                if kind == 'sst' and v >= 80:
                    i = idx % len(case['sst'])
                    body += B.r_labelsst(r, c, 15, i)
                    if case['sst'][i][1]:
                        exp[r, c] = case['sst'][i][1]
                elif kind == 'rstring':
                    runs = sorted(runs)
                    body += B.r_rstring8(r, c, 15, text, runs) if v >= 80 else B.r_rstring5(r, c, 15, text.encode(), runs)
                    exp[r, c] = runs
                elif kind == 'label':
                    body += B.r_label8(r, c, 15, text) if v >= 80 else B.r_label5(r, c, 15, text.encode())
                elif kind == 'num':
                    body += B.r_number(r, c, 15, 3.5)
                elif kind == 'formula':
                    body += B.r_formula(v, r, c, 15, B.fres_num(2.0))
                else:
                    body += B.r_blank(r, c, 15)
            sheets.append(dict(name='S%d' % k if v >= 80 else b'S%d' % k, body=body))
            exps.append(exp)
        if v >= 80:
            sst, _ = B.sst_records([dict(s=s, runs=rn, pho=ph, wide=False) for s, rn, ph in case['sst']], case['splits'])
            data = B.assemble(v, B.globals8(), sheets, glob_after=sst)
        else:
            data = B.assemble(v, B.globals5(), sheets)
    ctx.label('v%d' % v)
    ctx.nt(any(exps) and sum(map(len, case['sheets'])) > 1)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=True, ragged_rows=case['ragged'], logfile=Sink())
    for sh, exp in zip(bk.sheets(), exps):
        ctx.eq({k: [tuple(x) for x in rl] for k, rl in sh.rich_text_runlist_map.items()}, exp, 'rich_text_runlist_map of %s' % sh.name)


SUBS = [Sub('notes8', strategy, check, quick=3000, thorough=100000,
            rule='BIFF8 OBJ/TXO/NOTE groups among other objects, charts and several sheets; non-trivial = several objects and at least one note'),
        Sub('notes5', strategy5, check5, quick=1500, thorough=30000, rule='BIFF2-7 NOTE chains; non-trivial = several notes, one of them chained'),
        Sub('rich', strategy_rich, check_rich, quick=2500, thorough=60000, rule='LABELSST and RSTRING runs among other cells; non-trivial = a rich cell among others')]
