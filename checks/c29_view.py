"""C29: sheet view settings and default sizes are reported as stored."""
import io
import struct
from fractions import Fraction

from hypothesis import strategies as st

from xv import biff as B
from xv import legacy as L
from xv import ole
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C29'
P = struct.pack
# option bit -> attribute, default (Excel's own defaults when the record is absent)
OPTS = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values', 'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
        'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview']
DEFAULTS = dict.fromkeys(OPTS, 0)
DEFAULTS.update(show_grid_lines=1, show_sheet_headers=1, show_zero_values=1, automatic_grid_line_colour=1, show_outline_symbols=1)


def strategy():
    def opt(s):
        return st.one_of(s, s, s, st.none())
    u16 = st.one_of(st.integers(0, 65535), st.integers(0, 300))

    def sheet(v):
        nbits = 12 if v >= 80 else 11 if v >= 50 else 9 if v > 20 else 6
        mag = st.one_of(st.integers(10, 400), st.sampled_from([0, 0, 9, 10, 11, 60, 100, 399, 400, 401, 65535]))
        d = dict(
            w2=opt(st.fixed_dictionaries(dict(bits=st.one_of(st.integers(0, (1 << nbits) - 1), st.integers(0, nbits - 1).map(lambda b: 1 << b), st.integers(0, (1 << nbits) - 1).map(lambda b: b ^ ((1 << nbits) - 1))), row=u16, col=st.integers(0, 255), rgb=st.tuples(*[st.one_of(st.integers(0, 255), st.sampled_from([0, 255, 128]))] * 3),
                                              ci=st.one_of(st.integers(0, 65), st.integers(0, 65535)), pbp=mag, normal=mag, nz=st.integers(1, 255), high=st.booleans(), long=st.integers(0, 4)))),
            pane=opt(st.fixed_dictionaries(dict(x=u16, y=u16, row=u16, col=st.integers(0, 255), act=st.integers(0, 3)))),
            defcol=opt(st.integers(0, 255)), rowh=opt(st.tuples(st.one_of(st.integers(0, 15), st.integers(0, 15), st.integers(0, 0xFFFF)), st.integers(0, 0x7FFF), st.integers(0, 9))) if v > 20 else st.none(),
            std=opt(u16) if v >= 40 else st.none(),
            scl=opt(st.one_of(st.integers(10, 400).map(lambda p: (Fraction(p, 100).numerator, Fraction(p, 100).denominator)), st.integers(10, 400).map(lambda p: (p, 100)), st.tuples(st.integers(1, 20), st.integers(1, 20)),
                              st.sampled_from([(0, 1), (1, 0), (0, 0), (5, 1), (1, 11), (401, 100), (1, 10), (4, 1), (32767, 100), (801, 200), (19, 200), (2, 3), (799, 200)]))) if v >= 40 else st.none(),
            perm=st.permutations([0, 1, 2, 3, 4, 5]), cells=st.integers(0, 3), late=st.booleans())
        return st.fixed_dictionaries(d)

    def mk(v):
        n = 3 if v >= 45 else 1
        return st.fixed_dictionaries(dict(v=st.just(v), sheets=st.lists(sheet(v), min_size=1, max_size=n), fi=st.booleans(), wrap=st.booleans(), on_demand=st.booleans(), verb=st.integers(0, 1),
                                          near=st.one_of(st.none(), st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255), st.lists(st.tuples(*[st.integers(0, 2)] * 3), min_size=16, max_size=16), st.tuples(*[st.integers(0, 2)] * 3))),
                                          palette=st.one_of(st.none(), st.lists(st.tuples(*[st.integers(0, 255)] * 3), min_size=16, max_size=16)) if v >= 30 else st.none()))
    return st.sampled_from([80, 80, 80, 70, 50, 45, 40, 30, 20]).flatmap(mk)


def records(v, s):
    recs = []
    w = s['w2']
    if w is not None:
        if v == 20:
            flags = [w['nz'] if w['bits'] >> i & 1 else 0 for i in range(5)] + []
            recs.append(B.rec(0x3E, bytes(flags) + P('<HHB', w['row'], w['col'], w['bits'] >> 5 & 1) + bytes(w['rgb']) + b'\0'))
        else:
            bits = w['bits']
            if v >= 80 and w['high']:
                bits |= 0xF000          # not defined: not to be reported anywhere
            if v >= 80:
                recs.append(B.rec(0x23E, P('<HHHHHHHI', bits, w['row'], w['col'], w['ci'], 0, w['pbp'], w['normal'], 0)[:[18, 18, 18, 14, 16][w['long']]]))
            else:
                recs.append(B.rec(0x23E, P('<HHH', bits, w['row'], w['col']) + bytes(w['rgb']) + b'\0'))
    p = s['pane']
    if p is not None:
        recs.append(B.rec(0x41, P('<HHHHB', p['x'], p['y'], p['row'], p['col'], p['act']) + (b'\0' if v >= 80 else b'')))
    if s['defcol'] is not None:
        recs.append(B.rec(0x55, P('<H', s['defcol'])))
    if s['std'] is not None:
        recs.append(B.rec(0x99, P('<H', s['std'])))
    if s['scl'] is not None:
        recs.append(B.rec(0xA0, P('<HH', *s['scl'])))
    if s['rowh'] is not None:
        bits, h, short = s['rowh']
        recs.append(B.rec(0x225, P('<H', h) if short == 9 else P('<HH', bits, h)))
    order = sorted(range(len(recs)), key=lambda i: s['perm'][i])
    return [recs[i] for i in order]


def near_colours(case):
    """a palette of colours one or two steps apart, and gridline colours among them"""
    if case['palette'] is None or case['near'] is None:
        return case
    r, g, b, deltas, grid = case['near']
    shade = lambda d: tuple(min(255, x + y) for x, y in zip((r, g, b), d))
    return dict(case, palette=[shade(d) for d in deltas], sheets=[s if s['w2'] is None else dict(s, w2=dict(s['w2'], rgb=shade(grid))) for s in case['sheets']])


def check(case, ctx):
    case = near_colours(case)
    v = case['v']
    lv = 40 if v == 45 else v
    with ctx.building():
        pal = B.rec(0x92, P('<H', 16) + b''.join(bytes(c) + b'\0' for c in case['palette'])) if case['palette'] else b''
        bodies = []
        for s in case['sheets']:
            rs = records(v, s)
            cells = b''.join(B.r_number(i, 1, 15 if v >= 50 else 0, float(i)) if v != 20 else L.b2_number(i, 1, bytes(3), float(i)) for i in range(s['cells']))
            h = len(rs) // 2
            body = b''.join(rs[:h]) + cells + b''.join(rs[h:]) if s['late'] else b''.join(rs) + cells
            if lv in (30, 40):
                body = L.r_font(lv) + pal + L.r_xf(lv) + body
            bodies.append(body)
        if v >= 50:
            g = B.globals8(extra=pal) if v >= 80 else B.globals5(extra=pal)
            data = B.assemble(v, g, [dict(name='S%d' % i if v >= 80 else b'S%d' % i, body=b) for i, b in enumerate(bodies)])
            if case['wrap']:
                data = ole.wrap(data, 'Workbook' if v >= 80 else 'Book')
        elif v == 45:
            data = L.book4w([(b'S%d' % i, b) for i, b in enumerate(bodies)], glob=B.codepage(1252))
        else:
            data = L.sheet(v, bodies[0])
    ctx.label('v%d' % v)
    ctx.nt(any(s['w2'] and (s['scl'] or s['pane'] or v < 80) for s in case['sheets']))
    log = io.StringIO()
    bk = xlrd.open_workbook(file_contents=data, logfile=log, formatting_info=case['fi'], on_demand=case['on_demand'], verbosity=case['verb'])
    for i, s in enumerate(case['sheets']):
        sh = bk.sheet_by_index(i)
        ctx.eq(sh.nrows, s['cells'], 'rows')
        w = s['w2']
        want = dict(DEFAULTS)
        if w is None:
            want.update(first_visible_rowx=0, first_visible_colx=0, gridline_colour_index=0x40, gridline_colour_rgb=None)
        else:
            for k, name in enumerate(OPTS[:6] if v == 20 else OPTS):
                want[name] = w['bits'] >> k & 1
            want.update(first_visible_rowx=w['row'], first_visible_colx=w['col'])
            if v >= 80:
                want.update(gridline_colour_index=w['ci'], gridline_colour_rgb=None)
            else:
                want['gridline_colour_rgb'] = w['rgb']
                gi = sh.gridline_colour_index
                cm = bk.colour_map
                dist = lambda rgb: sum((a - b) ** 2 for a, b in zip(rgb, w['rgb']))
                # BIFF4W: the colour table in force was that sheet's own, which the Book no longer has
                if v != 45 and case['fi']:     # the colour table is formatting information
                    ctx.true(cm.get(gi) is not None, 'gridline_colour_index %r names no colour' % gi)
                    ctx.eq(dist(cm[gi]), min(dist(c) for c in cm.values() if c is not None), 'distance of the colour picked for the gridlines')
        cp, cn = (w['pbp'], w['normal']) if w and v >= 80 else (0, 0)
        want.update(cached_page_break_preview_mag_factor=cp, cached_normal_view_mag_factor=cn)
        # ---- zoom
        scl = None
        if s['scl'] is not None:
            n, d = s['scl']
            scl = n * 100 // d if d else 0          # whole per cents
            if not 10 <= scl <= 400:
                scl = 100
            ctx.eq(sh.scl_mag_factor, scl, 'scl_mag_factor of %d/%d' % (n, d))
        else:
            ctx.eq(sh.scl_mag_factor, None, 'scl_mag_factor without SCL')
        active = 100 if scl is None else scl
        if want['show_in_page_break_preview']:
            ctx.label('pbp')
            want.update(cooked_page_break_preview_mag_factor=active, cooked_normal_view_mag_factor=cn if 10 <= cn <= 400 else active)
        else:
            want.update(cooked_normal_view_mag_factor=active, cooked_page_break_preview_mag_factor=60 if cp == 0 else cp if 10 <= cp <= 400 else active)
        # ---- pane
        p = s['pane'] or dict(x=0, y=0, row=0, col=0, act=0)
        want.update(vert_split_pos=p['x'], horz_split_pos=p['y'], horz_split_first_visible=p['row'], vert_split_first_visible=p['col'], split_active_pane=p['act'], has_pane_record=int(s['pane'] is not None))
        # ---- sizes
        bits, h, short = s['rowh'] or (0, None, 0)
        if short == 9:
            bits = 0
        want.update(default_row_height=h, default_row_height_mismatch=bits & 1, default_row_hidden=bits >> 1 & 1, default_additional_space_above=bits >> 2 & 1, default_additional_space_below=bits >> 3 & 1,
                    defcolwidth=s['defcol'], standardwidth=s['std'])
        for name in sorted(want):
            ctx.eq(getattr(sh, name), want[name], '%s of sheet %d' % (name, i))


SUBS = [
    Sub('view', strategy, check, quick=4000, thorough=150000, rule='BIFF2-8 sheets with optional WINDOW2, PANE, SCL and size records in any order; non-trivial = WINDOW2 together with a zoom, pane or RGB gridline colour'),
]
