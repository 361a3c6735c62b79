"""C34: workbooks of any size, up to the limits of the file format, are read completely."""
import random

from hypothesis import strategies as st

from checks.c17_hyperlinks import TAILGUID, hlink
from checks.c18_notes import note5, obj, txo
from xv import biff as B
from xv import legacy as L
from xv import fmla as F
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C34'

# kind -> (versions, sizes around which something could wrap or be cut, largest size)
KINDS = {
    'sst': ((80,), [255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 65800], 70000),
    'text': ((80,), [254, 255, 256, 257, 4095, 4096, 8191, 8223, 8224, 8225, 16384, 32766, 32767, 32768, 65535], 65535),
    'runs': ((80,), [1, 255, 256, 257, 2055, 2056, 2057, 4096, 8000, 16383, 16384, 32768, 65530], 65530),
    'sheets': ((80, 50), [126, 127, 128, 129, 254, 255, 256, 257, 300], 400),
    'xfs': ((80, 50), [238, 239, 240, 241, 255, 256, 257, 2000, 4034], 4034),
    'fonts': ((80, 50), [4, 5, 6, 255, 256, 257, 300, 512], 700),
    'formats': ((80, 50), [91, 92, 93, 255, 256, 300, 800], 1000),
    'merged': ((80,), [255, 256, 257, 1026, 1027, 1028, 2054, 5000], 6000),
    'links': ((80,), [255, 256, 257, 1000], 1200),
    'names': ((80, 50), [127, 128, 129, 255, 256, 257, 1000, 4096], 5000),
    'notes': ((80, 50), [254, 255, 256, 257, 600], 900),
    'rows': ((80, 50), [255, 256, 257, 4095, 4096, 8192, 16383, 16384], 16384),
    'deep': ((80,), [16385, 32767, 32768, 32769, 65534, 65535, 65536], 65536),
    'wide': ((80, 50), [1, 2, 127, 128, 129, 254, 255, 256], 256),
    'breaks': ((80, 50), [255, 256, 257, 1026], 1026),
    'labels': ((80,), [255, 256, 257, 500], 1000),
    'w4': ((45,), [2000, 2300, 3000, 6000, 16384], 16384),
    'cols': ((80, 50), [127, 128, 255, 256], 256),
}


def strategy():
    def one(k):
        vs, at, top = KINDS[k]
        return st.fixed_dictionaries(dict(kind=st.just(k), v=st.sampled_from(vs), n=st.one_of(st.sampled_from(at), st.sampled_from(at), st.integers(1, top)), seed=st.integers(0, 2 ** 32 - 1),
                                          od=st.booleans(), rag=st.booleans()))
    return st.sampled_from(sorted(KINDS)).flatmap(one)


def text(rnd, n, wide):
    base = ''.join(chr(rnd.choice([65, 97, 48, 0xE9]) + rnd.randrange(10)) for _ in range(97))
    s = (base * (n // 97 + 1))[:n]
    if wide and n:
        s = s[:n // 2] + '\u4e2d' + s[n // 2 + 1:]
    return s


def book(v, sheets, glob=None, after=b''):
    for i, s in enumerate(sheets):
        s.setdefault('name', 'S%d' % i)
        if v < 80:
            s['name'] = s['name'].encode('latin-1')
    g = glob if glob is not None else (B.globals8() if v >= 80 else B.globals5())
    return B.assemble(v, g, sheets, glob_after=after)


class Sink:
    def write(self, s):
        pass


def op(data, case, fi=True):
    return xlrd.open_workbook(file_contents=data, formatting_info=fi, on_demand=case['od'], ragged_rows=case['rag'], logfile=Sink())


def cells_are(ctx, sh, want, what):
    """want: {(r, c): value}; every other cell of the sheet is empty"""
    left = dict(want)
    for r in range(sh.nrows):
        for c, (t, x) in enumerate(zip(sh.row_types(r), sh.row_values(r))):
            if t == 0:
                continue
            if (r, c) not in left:
                ctx.true(False, '%s: unexpected cell (%d, %d) = %r' % (what, r, c, x))
            w = left.pop((r, c))
            if x != w:
                ctx.true(False, '%s: cell (%d, %d) is %s, expected %s' % (what, r, c, repr(x)[:60], repr(w)[:60]))
    ctx.true(not left, '%s: %d cells missing, first %r' % (what, len(left), sorted(left)[:1]))


def label(v, r, c, xf, s):
    return B.r_label8(r, c, xf, s) if v >= 80 else B.r_label5(r, c, xf, s.encode('latin-1'))


def check(case, ctx):
    k, v, n = case['kind'], case['v'], case['n']
    rnd = random.Random(case['seed'])
    ctx.label('%s v%d' % (k, v))
    ctx.nt(n > 255)
    globals()['k_' + k](case, ctx, v, n, rnd)


def sample(rnd, n, m):
    s = {0, n - 1, n // 2} | {x for x in (255, 256, 257, 32767, 32768, 65535, 65536) if x < n}
    return sorted(s | set(rnd.sample(range(n), min(n, m))))


def k_sst(case, ctx, v, n, rnd):
    with ctx.building():
        salt = rnd.randrange(1000)
        strs = [('t%d-%d' % (i, salt) if i % 3 else '\u0416%d' % i) for i in range(n)]
        runs = {i for i in range(n) if i % 1009 == salt % 1009}
        rec, _ = B.sst_records([dict(s=s, wide=i % 3 == 0, runs=[(0, i % 5), (1, 3)] if i in runs else None) for i, s in enumerate(strs)], [])
        want, body, rich = {}, b'', {}
        for j, i in enumerate(sample(rnd, n, 300) + sorted(runs)):
            want[j, i % 5] = strs[i]
            body += B.r_labelsst(j, i % 5, 15, i)
            if i in runs:
                rich[j, i % 5] = [(0, i % 5), (1, 3)]
        data = book(v, [dict(body=body)], after=rec)
    sh = op(data, case).sheet_by_index(0)
    cells_are(ctx, sh, want, 'strings of a table of %d' % n)
    ctx.eq({p: [tuple(x) for x in l] for p, l in sh.rich_text_runlist_map.items()}, rich, 'rich text')


def k_text(case, ctx, v, n, rnd):
    with ctx.building():
        s = [text(rnd, n, i % 2) for i in range(4)]
        rec, _ = B.sst_records([dict(s=s[0]), dict(s=s[1], wide=1)], [])
        body = B.r_labelsst(0, 0, 15, 0) + B.r_labelsst(1, 0, 15, 1)
        want = {(0, 0): s[0], (1, 0): s[1]}
        for r, x in ((2, s[2]), (3, s[3])):
            lim = 4100 if r == 3 else 8200
            body += B.r_formula(80, r, 0, 15, B.fres_str()) + B.r_string8(x, None, list(range(lim, n, lim)))
            want[r, 0] = x
        short = s[2][:8200]
        body += B.r_label8(4, 0, 15, short)
        want[4, 0] = short
        body += B.rec(0xEC, b'\x0f\0\4\xf0\0\0\0\0') + obj(1, 0x19) + B.rec(0xEC, b'\x0f\0\4\xf0\0\0\0\0') + txo(s[3], [(0, 1), (n, 0)])[0]
        body += B.rec(0x1C, B.P('<HHHH', 5, 1, 0, 1) + B.ustr('me', 2))
        data = book(v, [dict(body=body)], after=rec)
    sh = op(data, case).sheet_by_index(0)
    cells_are(ctx, sh, want, 'texts of %d characters' % n)
    ctx.true(sh.cell_note_map[5, 1].text == s[3], 'note text of %d characters: %d returned' % (n, len(sh.cell_note_map[5, 1].text)))


def k_runs(case, ctx, v, n, rnd):
    with ctx.building():
        s = text(rnd, n + 5, 1)
        runs = [(i + 2, rnd.randrange(5)) for i in range(n)]
        rec, _ = B.sst_records([dict(s='a'), dict(s=s, runs=runs, wide=1), dict(s='b')], [])
        data = book(v, [dict(body=b''.join(B.r_labelsst(i, 0, 15, i) for i in range(3)))], after=rec)
    sh = op(data, case).sheet_by_index(0)
    cells_are(ctx, sh, {(0, 0): 'a', (1, 0): s, (2, 0): 'b'}, 'cells')
    ctx.eq({p: [tuple(x) for x in l] for p, l in sh.rich_text_runlist_map.items()}, {(1, 0): runs}, '%d runs' % n)


def k_sheets(case, ctx, v, n, rnd):
    with ctx.building():
        types = [0 if rnd.random() < .97 else 2 for _ in range(n)]
        types[0] = types[-1] = 0
        data = book(v, [dict(name='Tab %d' % i, type=t, body=B.r_number(i % 7, i % 5, 15, i + .5) if t == 0 else b'') for i, t in enumerate(types)])
    bk = op(data, case)
    ix = [i for i, t in enumerate(types) if t == 0]
    ctx.eq(bk.sheet_names(), ['Tab %d' % i for i in ix], 'names of %d sheets' % n)
    ctx.eq(bk.nsheets, len(ix), 'nsheets')
    for j, i in enumerate(ix):
        sh = bk.sheet_by_index(j) if i % 2 else bk.sheet_by_name('Tab %d' % i)
        ctx.true(sh.name == 'Tab %d' % i and sh.number == j, 'sheet %d' % j)
        cells_are(ctx, sh, {(i % 7, i % 5): i + .5}, 'sheet %d of %d' % (j, n))


def k_xfs(case, ctx, v, n, rnd):
    with ctx.building():
        extra = [(rnd.choice([0, 1, 2, 3, 5]), rnd.choice([0, 14, 2])) for _ in range(n)]
        fonts = (B.font8() if v >= 80 else B.font5()) * 5
        xfs = B.std_xfs(v, extra)
        nst = 0
        for i in range(min(40, 4050 - n)):       # style XFs at the end, and cell XFs that refer to them
            xfs += (B.xf8 if v >= 80 else B.xf5)(style=True, fmt=2)
            nst += 1
        parents = [16 + n + rnd.randrange(nst) for _ in range(5)] if nst else []
        for p in parents:
            xfs += (B.xf8 if v >= 80 else B.xf5)(parent=p)
        glob = (B.globals8 if v >= 80 else B.globals5)(fonts=fonts, xfs=xfs)
        pick = sample(rnd, n, 200)
        body = b''.join(B.r_number(j, 0, 16 + i, 5.0 + i) for j, i in enumerate(pick))
        body += b''.join(B.r_mulblank(len(pick) + j, 0, [16 + (i + q) % n for q in range(3)]) for j, i in enumerate(pick[:20]))
        data = book(v, [dict(body=body)], glob)
    bk = op(data, case)
    ctx.eq(len(bk.xf_list), 16 + n + nst + len(parents), 'len(xf_list)')
    for i, (f, k) in enumerate(extra):
        xf = bk.xf_list[16 + i]
        ctx.true((xf.xf_index, xf.font_index, xf.format_key, xf.is_style) == (16 + i, f, k, 0), 'xf %d: %r' % (16 + i, vars(xf)))
    for j, p in enumerate(parents):
        ctx.eq(bk.xf_list[16 + n + nst + j].parent_style_index, p, 'parent style')
    sh = bk.sheet_by_index(0)
    for j, i in enumerate(pick):
        ctx.eq((sh.cell_xf_index(j, 0), sh.cell_type(j, 0), sh.cell_value(j, 0)), (16 + i, 3 if extra[i][1] == 14 else 2, 5.0 + i), 'cell with xf %d' % (16 + i))
    for j, i in enumerate(pick[:20]):
        ctx.eq([sh.cell_xf_index(len(pick) + j, q) for q in range(3)], [16 + (i + q) % n for q in range(3)], 'blank cells')


def k_fonts(case, ctx, v, n, rnd):
    with ctx.building():
        names = ['F%d' % i for i in range(n)]
        hs = [rnd.randrange(20, 8000) for _ in range(n)]
        fonts = b''.join(B.font8(x, h) if v >= 80 else B.font5(x.encode(), h) for x, h in zip(names, hs))
        idx = [i if i < 4 else i + 1 for i in sample(rnd, n, 50)]
        glob = (B.globals8 if v >= 80 else B.globals5)(fonts=fonts, xfs=B.std_xfs(v, [(i, 0) for i in idx]))
        data = book(v, [dict(body=b''.join(B.r_number(j, 0, 16 + j, 1.0) for j in range(len(idx))))], glob)
    bk = op(data, case)
    sh = bk.sheet_by_index(0)
    for j, i in enumerate(idx):
        f = bk.font_list[bk.xf_list[sh.cell_xf_index(j, 0)].font_index]
        k = i if i < 4 else i - 1
        ctx.eq((f.name, f.height, f.font_index), (names[k], hs[k], i), 'font %d of %d' % (i, n))


def k_formats(case, ctx, v, n, rnd):
    with ctx.building():
        keys = rnd.sample(range(164, 164 + n + n // 2 + 1), n)
        date = [rnd.random() < .5 for _ in range(n)]
        txt = ['yyyy-mm-dd "%d"' % i if d else '0.00 "%d"' % i for i, d in enumerate(date)]
        pick = sample(rnd, n, 80)
        glob = (B.globals8 if v >= 80 else B.globals5)(formats=[(k, t if v >= 80 else t.encode()) for k, t in zip(keys, txt)], xfs=B.std_xfs(v, [(0, keys[i]) for i in pick]))
        data = book(v, [dict(body=b''.join(B.r_number(j, 0, 16 + j, 40000.0 + j) for j in range(len(pick))))], glob)
    bk = op(data, case)
    for k, t in zip(keys, txt):
        ctx.true(bk.format_map[k].format_str == t, 'format %d of %d' % (k, n))
    sh = bk.sheet_by_index(0)
    ctx.eq([sh.cell_type(j, 0) for j in range(len(pick))], [3 if date[i] else 2 for i in pick], 'cell types')


def k_merged(case, ctx, v, n, rnd):
    with ctx.building():
        rng = [(r, r + 1 + rnd.randrange(2), 4 * (i % 3), 4 * (i % 3) + 1 + rnd.randrange(3)) for i, r in ((i, 3 * (i // 3)) for i in range(n))]
        body = B.r_number(0, 0, 15, 1.0)
        i = 0
        while i < n:
            m = min(rnd.choice([1027, 1027, 1026, 1000, 300]), n - i)
            body += B.rec(0xE5, B.P('<H', m) + b''.join(B.P('<HHHH', a, b - 1, c, d - 1) for a, b, c, d in rng[i:i + m]))
            i += m
        data = book(v, [dict(body=body)])
    sh = op(data, case).sheet_by_index(0)
    ctx.true([tuple(x) for x in sh.merged_cells] == rng, '%d merged ranges: %d returned' % (n, len(sh.merged_cells)))
    ctx.eq((sh.nrows, sh.ncols), (max(x[1] for x in rng), max(x[3] for x in rng)), 'dimensions with merged cells')


def k_links(case, ctx, v, n, rnd):
    with ctx.building():
        ex, body = [], b''
        for i in range(n):
            d, tip, e = hlink(dict(pos=(i % 40000, 0, i % 200, 0), kind='url', desc='d%d' % i if i % 3 else None, target=None, mark='m%d' % i if i % 2 else None, tip='t%d' % i if i % 5 == 0 else None,
                                   path='http://x/%d' % i, absolute=True, tail24=bool(i & 1), up=0, short=b'', ext=False, guid=None, ctime=None, extra=b'', tail=TAILGUID + B.P('<II', 0, 0)))
            body += B.rec(0x1B8, d) + (B.rec(0x800, tip) if tip is not None else b'')
            ex.append(e)
        data = book(v, [dict(body=B.r_number(0, 0, 15, 1.0) + body)])
    sh = op(data, case).sheet_by_index(0)
    ctx.eq(len(sh.hyperlink_list), n, 'number of links')
    for i, (h, e) in enumerate(zip(sh.hyperlink_list, ex)):
        for a in ('frowx', 'fcolx', 'url_or_path', 'desc', 'textmark', 'quicktip'):
            ctx.true(getattr(h, a) == e[a], 'link %d of %d: %s = %r' % (i, n, a, getattr(h, a)))
        ctx.true(sh.hyperlink_map.get((i % 40000, i % 200)) is h, 'hyperlink_map of link %d' % i)


def k_names(case, ctx, v, n, rnd):
    with ctx.building():
        recs, want = b'', []
        for i in range(n):
            r, c = rnd.randrange(16384), rnd.randrange(256)
            k = rnd.randrange(n) if rnd.random() < .3 else None
            if k is not None and k % 3 == 0 and i % 3:        # a name that stands for another name (never a chain)
                toks = F.t_name(v, 'R', k + 1)
                want.append(k)
            else:
                toks = F.t_ref3d(v, 'R', 0 if v >= 80 else (-1, 0, 0), r, c)
                want.append((r, c))
            recs += F.r_name(v, 'Name_%d' % i, toks)
        ext = F.supbook_self(1) + F.externsheet8([(0, 0, 0)]) if v >= 80 else B.rec(0x16, B.P('<H', 1)) + F.externsheet5(4, b'')
        data = book(v, [dict(body=B.r_number(0, 0, 15, 1.0))], after=ext + recs)
    bk = op(data, case)
    ctx.eq(len(bk.name_obj_list), n, 'number of names')
    ctx.eq(len(bk.name_map), n, 'entries of name_map')
    for i, nm in enumerate(bk.name_obj_list):
        w = want[i] if isinstance(want[i], tuple) else want[want[i]]
        ctx.true(nm.name == 'Name_%d' % i and nm.name_index == i and bk.name_map['name_%d' % i] == [nm] and bk.name_and_scope_map['name_%d' % i, -1] is nm, 'name %d of %d' % (i, n))
        ctx.true(nm.result is not None and nm.result.kind == -1 and tuple(nm.result.value[0].coords) == (0, 1, w[0], w[0] + 1, w[1], w[1] + 1), 'value of name %d of %d (%r): %r' % (i, n, want[i], nm.result))


def k_notes(case, ctx, v, n, rnd):
    with ctx.building():
        body, want = B.r_number(0, 0, 15, 1.0), {}
        ids = rnd.sample(range(1, 65536), n) if rnd.random() < .5 else list(range(1, n + 1))
        order = list(range(n))
        if rnd.random() < .5:
            rnd.shuffle(order)
        tail = b''
        for i in range(n):
            p, t = (i * 7 % 16384, i % 256), 'note %d' % i
            want[p] = t
            if v < 80:
                body += note5(p[0], p[1], t.encode(), 2048)
            else:
                body += B.rec(0xEC, b'\x0f\0\4\xf0\0\0\0\0') + obj(ids[i], 0x19) + B.rec(0xEC, b'\x0f\0\4\xf0\0\0\0\0') + txo(t, [(0, 1), (len(t), 0)])[0]
        for i in order if v >= 80 else ():
            tail += B.rec(0x1C, B.P('<HHHH', i * 7 % 16384, i % 256, 0, ids[i]) + B.ustr('me', 2))
        data = book(v, [dict(body=body + tail)])
    sh = op(data, case).sheet_by_index(0)
    got = {p: x.text for p, x in sh.cell_note_map.items()}
    ctx.true(got == want, '%d notes: %s' % (n, sorted(set(got.items()) ^ set(want.items()))[:4]))


def k_rows(case, ctx, v, n, rnd):
    with ctx.building():
        body, want, rows = b'', {}, {}
        gap = rnd.choice([1, 1, 2, 4]) if n <= 4096 else 1
        for i in range(n):
            r = i * gap
            h = 200 + i % 700
            rows[r] = h
            body += B.rec(0x208, B.P('<HHHHHHI', r, 0, 2, h, 0, 0, 0x100))
            k = i % 4
            want[r, 0] = float(i)
            body += B.r_rk(r, 0, 15, (i << 2) | 2)
            if k == 1:
                want[r, 1] = 'x%d' % i
                body += label(v, r, 1, 15, 'x%d' % i)
            elif k == 2:
                want[r, 2] = i / 7
                body += B.r_formula(v, r, 2, 15, B.fres_num(i / 7))
        data = book(v, [dict(body=body)])
    sh = op(data, case).sheet_by_index(0)
    ctx.eq(sh.nrows, (n - 1) * gap + 1, 'nrows')
    cells_are(ctx, sh, want, '%d rows' % n)
    ctx.eq(len(sh.rowinfo_map), n, 'rowinfo_map')
    for r, h in rows.items():
        ctx.true(sh.rowinfo_map[r].height == h, 'height of row %d' % r)
    if n <= 2000:
        ctx.true(sh.col_values(0, 0, 1) == [0.0] and len(sh.col_values(0)) == sh.nrows if not case['rag'] or gap == 1 else True, 'column')


def k_deep(case, ctx, v, n, rnd):
    with ctx.building():
        body, want = [], {}
        down = rnd.random() < .2
        for i in (range(n - 1, -1, -1) if down else range(n)):
            body.append(B.r_rk(i, 0, 15, (i << 2) | 2))
        body = b''.join(body)
        data = book(v, [dict(body=body)])
    sh = op(data, case, fi=False).sheet_by_index(0)
    ctx.eq((sh.nrows, sh.ncols), (n, 1), 'dimensions')
    got = sh.col_values(0)
    ctx.true(got == [float(i) for i in range(n)], '%d rows: first wrong row %s' % (n, next((i for i, x in enumerate(got) if x != i), None)))
    ctx.true([sh.cell_value(i, 0) for i in range(n - 1, max(-1, n - 5), -1)] == [float(i) for i in range(n - 1, max(-1, n - 5), -1)], 'last cells')


def k_wide(case, ctx, v, n, rnd):
    with ctx.building():
        body, want = b'', {}
        for r in range(6):
            c = 0
            while c < n:
                m = min(rnd.choice([1, 2, 100, 256]), n - c)
                kind = rnd.choice(['rk', 'blank', 'num', 'label'])
                if kind == 'rk' and m > 1:
                    body += B.r_mulrk(r, c, [(15, ((1000 * r + c + q) << 2) | 2) for q in range(m)])
                    want.update({(r, c + q): float(1000 * r + c + q) for q in range(m)})
                elif kind == 'blank' and m > 1:
                    body += B.r_mulblank(r, c, [15] * m)
                    want.update({(r, c + q): '' for q in range(m)})
                else:
                    m = 1
                    if kind == 'label':
                        want[r, c] = 'c%d' % c
                        body += label(v, r, c, 15, 'c%d' % c)
                    else:
                        want[r, c] = c + .25
                        body += B.r_number(r, c, 15, c + .25)
                c += m
        data = book(v, [dict(body=body)])
    sh = op(data, case).sheet_by_index(0)
    ctx.eq(sh.ncols, n, 'ncols')
    cells_are(ctx, sh, want, '%d columns' % n)


def k_breaks(case, ctx, v, n, rnd):
    with ctx.building():
        h = [(60 * i + rnd.randrange(60) + 1, 0, 255) for i in range(n)] if v >= 80 else [(15 * i + 1, 0, 255) for i in range(n)]
        w = [(i + 1, 0, 65535) for i in range(min(n, 255))]
        fmt = '<HHH' if v >= 80 else '<H'
        k = 3 if v >= 80 else 1
        body = B.rec(0x1B, B.P('<H', n) + b''.join(B.P(fmt, *t[:k]) for t in h)) + B.rec(0x1A, B.P('<H', len(w)) + b''.join(B.P(fmt, *t[:k]) for t in w))
        data = book(v, [dict(body=body)])
    sh = op(data, case).sheet_by_index(0)
    ctx.true([t[:k] for t in sh.horizontal_page_breaks] == [t[:k] for t in h], '%d row breaks: %d' % (n, len(sh.horizontal_page_breaks)))
    ctx.true([t[:k] for t in sh.vertical_page_breaks] == [t[:k] for t in w], 'column breaks')


def k_labels(case, ctx, v, n, rnd):
    with ctx.building():
        a = [(i, i + 1, i % 200, i % 200 + 2) for i in range(n)]
        b = [(i, i + 2, 3, 4) for i in range(min(n, 20))]
        e = lambda l: B.P('<H', len(l)) + b''.join(B.P('<HHHH', q, w - 1, x, y - 1) for q, w, x, y in l)
        data = book(v, [dict(body=B.rec(0x15F, e(a) + e(b)))])
    sh = op(data, case).sheet_by_index(0)
    ctx.true([tuple(x) for x in sh.row_label_ranges] == a and [tuple(x) for x in sh.col_label_ranges] == b, '%d label ranges' % n)


def k_cols(case, ctx, v, n, rnd):
    with ctx.building():
        ws = [rnd.randrange(1, 65536) for _ in range(n)]
        data = book(v, [dict(body=b''.join(B.rec(0x7D, B.P('<HHHHHH', i, i, x, 15, i & 1, 0)) for i, x in enumerate(ws)))])
    sh = op(data, case).sheet_by_index(0)
    ctx.eq({c: (i.width, i.hidden) for c, i in sh.colinfo_map.items()}, {i: (x, i & 1) for i, x in enumerate(ws)}, '%d columns' % n)


def k_w4(case, ctx, v, n, rnd):
    """sheets of a BIFF4W workbook of more than 64 KiB"""
    with ctx.building():
        sheets, wants = [], []
        for i, m in enumerate([n, 3, n // 2, 5]):
            body, want = [L.r_xf(40)], {}
            for r in range(m):
                want[r, 0] = x = float(r * 4 + i)
                body.append(B.r_number(r, 0, 0, x))
                if r % 3 == 0:
                    want[r, 1] = 'x%d' % r
                    body.append(B.r_label5(r, 1, 0, b'x%d' % r))
            sheets.append((b'S%d' % i, b''.join(body)))
            wants.append(want)
        data = L.book4w(sheets)
    bk = op(data, case)
    ctx.eq(bk.sheet_names(), ['S%d' % i for i in range(4)], 'sheet names')
    for i in rnd.sample(range(4), 4):
        cells_are(ctx, bk.sheet_by_index(i), wants[i], 'sheet %d of a BIFF4W workbook' % i)


SUBS = [Sub('limits', strategy, check, quick=900, thorough=20000,
            rule='one thing of a workbook (strings, text length, runs, sheets, XFs, fonts, formats, ranges, links, names, notes, rows, columns, breaks) at or around 8-, 12-, 15- and 16-bit and record-size boundaries; non-trivial = more than 255 of it')]
