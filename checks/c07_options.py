"""C07: options do not change the data that is read (metamorphic)."""
import io
import os
import tempfile

from hypothesis import strategies as st

from checks.c31_mutations import HOW, field_mutant, hlink_area
from xv import rich
from xv import snap
from xv.quiet import Quiet
from xv.runner import Sub, Violation, import_repo

xlrd = import_repo()
PROPERTY = 'C07'
EMPTY, BLANK = 0, 6


def strategy():
    opts = st.fixed_dictionaries(dict(fi=st.booleans(), ragged=st.booleans(), on_demand=st.booleans(), verb=st.sampled_from([0, 0, 1, 2, 3, 4, -1]), source=st.sampled_from(['bytes', 'bytes', 'mmap', 'read', 'mmapped']), log=st.sampled_from(['str', 'file', 'duck']), ignore=st.booleans(), order=st.booleans()))
    return st.fixed_dictionaries(dict(blob=rich.blob(), opts=st.lists(opts, min_size=1, max_size=3)))


class Duck:
    """a logfile with nothing but write()"""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def getvalue(self):
        return ''.join(self.parts)


class TooBig(Exception):
    """a sheet has more cells than the check wants to hold"""


def opened(data, o, ctx):
    """open under the options, walk every sheet; the book, with all output accounted for"""
    fn = None
    log = Duck() if o['log'] == 'duck' else io.StringIO() if o['log'] == 'str' else tempfile.TemporaryFile('w+', encoding='utf-8', errors='backslashreplace')
    kw = dict(formatting_info=o['fi'], ragged_rows=o['ragged'], on_demand=o['on_demand'], verbosity=o['verb'], logfile=log, ignore_workbook_corruption=o['ignore'])
    import mmap
    with Quiet() as q:
        if o['source'] in ('mmap', 'read'):
            fd, fn = tempfile.mkstemp(suffix='.xls')
            with os.fdopen(fd, 'wb') as f:
                f.write(data)
            try:
                bk = xlrd.open_workbook(fn, use_mmap=o['source'] == 'mmap', **kw)
            finally:
                os.unlink(fn)
        elif o['source'] == 'mmapped':
            m = mmap.mmap(-1, len(data))
            m.write(data)
            bk = xlrd.open_workbook(file_contents=m, **kw)
        else:
            bk = xlrd.open_workbook(file_contents=data, **kw)
        idx = list(range(bk.nsheets))
        if o['order']:
            idx.reverse()
        for i in idx:
            sh = bk.sheet_by_index(i)
            if 'cap' in o and sh.nrows * sh.ncols > o['cap']:
                raise TooBig
        s = snap.snap_book(bk)
        bk.release_resources()
    ctx.eq(q.data, b'', 'written to stdout or stderr with a logfile given')
    if o['log'] == 'file':
        log.seek(0)
        txt = log.read()
        log.close()
    else:
        txt = log.getvalue()
    return s, txt


def plain_opts(fi=False, ragged=False):
    return dict(fi=fi, ragged=ragged, on_demand=False, verb=0, source='bytes', log='str', ignore=False, order=False)


def check(case, ctx):
    with ctx.building():
        R = rich.make(case['blob'], versions=rich.ALL)
        data = R.bytes()
    ctx.label('v%d' % R.v)
    base, _ = opened(data, plain_opts(), ctx)
    canon = {(False, False): base}
    for o in case['opts']:
        key = (o['fi'], o['ragged'])
        if key not in canon:
            canon[key], _ = opened(data, plain_opts(*key), ctx)
        c = canon[key]
        got, txt = opened(data, o, ctx)
        d = snap.diff(c, got)
        ctx.true(d is None, 'on_demand, verbosity, logfile, use_mmap or ignore_workbook_corruption changed what was read: %s' % d)
        if o['verb'] >= 2:
            ctx.label('verbose')
            ctx.true(txt != '', 'nothing was logged at verbosity %d' % o['verb'])
    for fi, ragged in list(canon):
        if (fi, not ragged) not in canon:
            canon[fi, not ragged], _ = opened(data, plain_opts(fi, not ragged), ctx)
        for a, b in zip(canon[fi, False]['sheets'], canon[fi, True]['sheets']):
            ctx.eq((b['nrows'], b['ncols']), (a['nrows'], a['ncols']), 'nrows and ncols with ragged_rows, formatting_info=%r' % fi)
    full = canon.get((True, True)) or canon.get((True, False))
    ctx.nt(full is not None and any(len(r) for s in base['sheets'] for r in s['grid']))
    for (fi, ragged), c in canon.items():
        # BIFF2.1 is told from 2.0 by its XF records, which are formatting information
        for k in (() if R.v <= 21 else ('biff_version',)) + ('datemode', 'codepage', 'encoding', 'countries', 'user_name', 'nsheets', 'sheet_names', 'names', 'name_obj_list', 'addin_func_names'):
            d = snap.diff(base[k], c[k], k)
            ctx.true(d is None, 'formatting_info=%r, ragged_rows=%r changed %s' % (fi, ragged, d))
        for i, (a, b) in enumerate(zip(base['sheets'], c['sheets'])):
            w = 'sheet %d with formatting_info=%r, ragged_rows=%r: ' % (i, fi, ragged)
            ctx.eq((b['name'], b['number'], b['visibility']), (a['name'], a['number'], a['visibility']), w + 'name, number and visibility')
            if not fi:
                ctx.eq((b['nrows'], b['ncols']), (a['nrows'], a['ncols']), w + 'nrows and ncols')
            ctx.true(b['nrows'] >= a['nrows'] and b['ncols'] >= a['ncols'], w + 'fewer rows or columns')
            for r in range(b['nrows']):
                want = a['grid'][r] if r < a['nrows'] else []
                have = b['grid'][r]
                if not ragged:
                    ctx.eq(len(have), b['ncols'], w + 'length of row %d' % r)
                for col in range(max(len(want), len(have))):
                    x = tuple(want[col]) if col < len(want) else (EMPTY, '')
                    y = tuple(have[col]) if col < len(have) else (EMPTY, '')
                    if x[0] == EMPTY and fi and y[0] == BLANK:
                        ctx.label('blank')
                        y = (EMPTY, y[1])
                    ctx.eq(y, x, w + 'cell (%d, %d)' % (r, col))
                if ragged and have:
                    ctx.true(have[-1][0] != EMPTY, w + 'row %d ends with an empty cell' % r)
                    ctx.label('ragged')
            for k in VIEW:
                ctx.eq(b[k], a[k], w + k)


# ---- damaged workbooks: a message is all that verbosity adds
def damaged_strategy():
    ways = st.tuples(st.sampled_from([1, 1, 2, 3, 3, 4]), st.booleans(), st.sampled_from(['bytes', 'mmap', 'read']), st.sampled_from(['str', 'duck', 'file']))
    return st.fixed_dictionaries(dict(ways=st.lists(ways, min_size=1, max_size=2), fi=st.sampled_from([True, True, False]), ragged=st.booleans(), wrap=st.sampled_from([False, False, True]),
                                      src=rich.blob(), kind=st.integers(0, 1 << 16), which=st.integers(0, 1 << 16), how=HOW, at=st.integers(0, 1 << 10), x=st.integers(0, 1 << 10)))


def outcome(data, o, ctx):
    """('ok', snapshot, log) or ('raised', class name, ...); nothing may reach stdout or stderr"""
    with Quiet() as q:
        try:
            s, txt = opened(data, o, ctx)
            return 'ok', s, txt
        except (Violation, TooBig):
            raise
        except Exception as e:
            r = 'raised', type(e).__name__, ''
    ctx.eq(q.data, b'', 'written to stdout or stderr with a logfile given, by a call raising %s' % r[1])
    return r


def damaged_check(case, ctx):
    with ctx.building():
        data = field_mutant(case, ctx)
        if hlink_area(data) > 5000:
            ctx.label('huge hyperlink')
            return
    o = plain_opts(case['fi'], case['ragged'])
    o['cap'] = 200000
    try:
        compare(data, o, case['ways'], ctx)
        ctx.nt()
    except TooBig:
        # damage can place a cell anywhere: a snapshot of a vast sheet is not worth its cost
        ctx.label('vast sheet')


def compare(data, o, ways, ctx):
    base = outcome(data, o, ctx)
    ctx.label(base[0])
    for verb, on_demand, source, log in ways:
        got = outcome(data, dict(o, verb=verb, on_demand=on_demand, source=source, log=log), ctx)
        w = 'verbosity %d, on_demand=%r, %s: ' % (verb, on_demand, source)
        ctx.eq(got[0], base[0], w + 'outcome (%s, %s)' % (got[1] if got[0] == 'raised' else '', base[1] if base[0] == 'raised' else ''))
        # which of several faults is met first may depend on what is dumped, whether one is met may not
        if base[0] == 'ok':
            d = snap.diff(base[1], got[1])
            ctx.true(d is None, w + 'what was read changed: %s' % d)
            if 'WARNING' in base[2]:
                ctx.label('warned')
                ctx.true('WARNING' in got[2], w + 'a warning given at verbosity 0 is missing from the logfile')


VIEW = [k for k in snap.SHEET_ATTRS if k in ('defcolwidth', 'standardwidth', 'default_row_height', 'default_row_hidden', 'default_row_height_mismatch', 'default_additional_space_above', 'default_additional_space_below', 'hyperlink_list',
                                             'hyperlink_map', 'cell_note_map', 'scl_mag_factor', 'cooked_normal_view_mag_factor', 'cooked_page_break_preview_mag_factor', 'first_visible_rowx', 'first_visible_colx', 'vert_split_pos',
                                             'horz_split_pos', 'has_pane_record', 'gridline_colour_rgb') or k.startswith('show_') or k.startswith('sheet_')]


SUBS = [
    Sub('options', strategy, check, quick=1500, thorough=50000, rule='BIFF2-8 workbooks opened under 1-3 random option sets; non-trivial = a set with formatting_info on a book with cells'),
    Sub('damaged', damaged_strategy, damaged_check, quick=6000, thorough=100000, rule='workbooks of which one field of one record is damaged, opened at verbosity 0 and again at verbosity 1-4, on demand or not, from bytes or a file; non-trivial = all'),
]
