"""Child process of C32: unpickles objects in a process where no workbook was ever opened.

Protocol: 4-byte length + pickle of (what, blob) in; 4-byte length + pickle of the answer out."""
import io
import pickle
import struct
import sys

from xv import snap


def call(f):
    try:
        return ('ok', f())
    except Exception as e:
        return ('exc', type(e).__name__, str(e))


def where(xlrd, bk, r):
    """a Cell or an (sheet, rowlo, ...) area, with the sheet replaced by its number; the sheet must be the book's own"""
    if isinstance(r, tuple):
        sh = r[0]
        return ['area', sh.number, sh is bk.sheet_by_index(sh.number)] + list(r[1:])
    return ['cell', r.ctype, repr(r.value), r.xf_index]


def probe(xlrd, bk):
    """everything the book answers: stored data and what is computed from them"""
    d = snap.snap_book(bk)
    d['repr'] = [repr(sh) for sh in bk.sheets()]
    d['iter'] = [sh.number for sh in bk]
    d['own'] = [sh.book is bk and bk.sheet_by_name(sh.name) is bk.sheet_by_index(bk.sheet_names().index(sh.name)) for sh in bk.sheets()]
    d['nameref'] = []
    for nm in bk.name_obj_list:
        d['nameref'].append((call(lambda: where(xlrd, bk, nm.cell())), call(lambda: where(xlrd, bk, nm.area2d())), call(lambda: where(xlrd, bk, nm.area2d(clipped=False))), nm.book is bk))
    d['samename'] = [all(x is bk.name_obj_list[x.name_index] for x in l) for l in bk.name_map.values()] + [x is bk.name_obj_list[x.name_index] for x in bk.name_and_scope_map.values()]
    d['fontix'] = [f.font_index for f in bk.font_list]
    d['xfix'] = [x.xf_index for x in bk.xf_list]
    d['fmtmap'] = sorted((k, f.format_key, f.type, f.format_str) for k, f in bk.format_map.items())
    d['cells'] = []
    d['width'] = []
    for sh in bk.sheets():
        rows = list(sh.get_rows())
        d['cells'].append([len(rows), [repr(c) for r in rows[:5] for c in r[:20]], call(lambda: [repr(c) for c in sh.col(0)[:20]]), call(lambda: snap.plain(sh.row_slice(0, 0, 5)))])
        d['width'].append([call(lambda: sh.computed_column_width(c)) for c in (0, 1, 2, 7, 255)])
        d['cells'][-1].append(sorted((r, c, repr(snap.plain(h))) for (r, c), h in list(sh.hyperlink_map.items())[:50]))
        d['cells'][-1].append([h is sh.hyperlink_map.get((h.frowx, h.fcolx)) for h in sh.hyperlink_list[:1]] if len(sh.hyperlink_list) == 1 else None)
    return d


def read(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    n, = struct.unpack('<I', h)
    return f.read(n)


def write(f, b):
    f.write(struct.pack('<I', len(b)) + b)
    f.flush()


def serve():
    from xv.runner import import_repo
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    xlrd = import_repo()
    while True:
        b = read(sys.stdin.buffer)
        if b is None:
            return
        what, blob, loaded = pickle.loads(b)

        def f():
            o = pickle.loads(blob)
            if what == 'sheet':
                bk = o.book
                if bk.sheet_by_index(o.number) is not o:
                    raise ValueError('the unpickled sheet is not the sheet of its book')
            else:
                bk = o
            if loaded is not None:
                now = [bool(bk.sheet_loaded(i)) for i in range(bk.nsheets)]
                if now != loaded:
                    raise ValueError('loaded sheets %r instead of %r' % (now, loaded))
            return probe(xlrd, bk)
        write(out, pickle.dumps(call(f)))
