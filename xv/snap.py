"""Plain-data snapshot of everything a Book exposes (used by metamorphic and differential checks)."""
import itertools


def plain(o, seen=None):
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return repr(o)
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, dict):
        return dict((repr(plain(k)), plain(v)) for k, v in o.items())
    if type(o).__module__ == 'array':
        return list(o)
    if hasattr(o, '__dict__') and type(o).__module__.startswith('xlrd'):
        skip = ('book', 'logfile', 'stack')
        attrs = dict(vars(o))
        for k in getattr(type(o), '__slots__', ()):
            if hasattr(o, k):
                attrs[k] = getattr(o, k)
        d = dict((k, plain(v)) for k, v in attrs.items() if not (k.startswith('_') and not k.endswith('_flag')) and k not in skip)
        d['class'] = type(o).__name__
        if hasattr(o, 'stack'):
            d['stack'] = [plain(x) for x in (o.stack or [])]
        return d
    return repr(o)


SHEET_ATTRS = (
    'automatic_grid_line_colour', 'cached_normal_view_mag_factor', 'cached_page_break_preview_mag_factor', 'cell_note_map', 'col_label_ranges', 'colinfo_map',
    'columns_from_right_to_left', 'cooked_normal_view_mag_factor', 'cooked_page_break_preview_mag_factor', 'default_additional_space_above', 'default_additional_space_below',
    'default_row_height', 'default_row_height_mismatch', 'default_row_hidden', 'defcolwidth', 'first_visible_colx', 'first_visible_rowx', 'gridline_colour_index',
    'gridline_colour_rgb', 'gcw', 'horizontal_page_breaks', 'horz_split_first_visible', 'horz_split_pos', 'has_pane_record', 'hyperlink_list', 'hyperlink_map', 'merged_cells', 'name',
    'ncols', 'nrows', 'number', 'panes_are_frozen', 'remove_splits_if_pane_freeze_is_removed', 'rich_text_runlist_map', 'row_label_ranges', 'rowinfo_map', 'scl_mag_factor', 'sheet_selected',
    'sheet_visible', 'show_formulas', 'show_grid_lines', 'show_in_page_break_preview', 'show_outline_symbols', 'show_sheet_headers', 'show_zero_values', 'split_active_pane', 'standardwidth',
    'vert_split_first_visible', 'vert_split_pos', 'vertical_page_breaks', 'visibility')


def snap_sheet(sh, fmt=None):
    fmt = sh.formatting_info if fmt is None else fmt
    d = dict((k, plain(getattr(sh, k))) for k in SHEET_ATTRS)
    # rows of unequal numbers of types and values show up as such
    d['grid'] = [[(t, plain(v)) for t, v in itertools.zip_longest(sh.row_types(r), sh.row_values(r), fillvalue='missing')] for r in range(sh.nrows)]
    if fmt:
        d['xf'] = [[sh.cell_xf_index(r, c) for c in range(sh.row_len(r))] for r in range(sh.nrows)]
    return d


BOOK_ATTRS = ('biff_version', 'datemode', 'codepage', 'encoding', 'countries', 'user_name', 'nsheets', 'name_obj_list', 'font_list',
              'format_map', 'format_list', 'xf_list', 'colour_map', 'palette_record', 'style_name_map', 'addin_func_names')


def snap_names(bk):
    return dict(objs=plain(bk.name_obj_list),
                m=dict((k, [n.name_index for n in v]) for k, v in bk.name_map.items()),
                s=dict((repr(k), n.name_index) for k, n in bk.name_and_scope_map.items()))


def snap_book(bk, sheets=True):
    d = dict((k, plain(getattr(bk, k))) for k in BOOK_ATTRS)
    d['names'] = snap_names(bk)
    d['sheet_names'] = bk.sheet_names()
    d['sheets'] = [snap_sheet(bk.sheet_by_index(i)) for i in range(bk.nsheets)] if sheets else None
    return d


def diff(a, b, path=''):
    """first difference between two snapshots, or None"""
    if type(a) != type(b):
        return '%s: %r vs %r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                return '%s.%s: only in %s' % (path, k, 'first' if k in a else 'second')
            r = diff(a[k], b[k], '%s.%s' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    return None if a == b else '%s: %.200r vs %.200r' % (path, a, b)
