import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C14-dummy', 'C14', [(F, "    if k == 4:\n        f = Font()", "    if k == 4 and bv >= 40:\n        f = Font()")],
  '''
from xv import legacy
d = L.sheet(30, b''.join(L.r_font(30) for _ in range(6)) + L.r_xf(30) * 16)
eq([f.font_index for f in op(d, formatting_info=True).font_list], list(range(7)), 'fonts of a BIFF3 file')
''', 'an Excel 3 file with more than four fonts', 'fonts from the fifth on have an index too low')
P('C14-level', 'C14', [(F, "            name += str(level + 1)", "            name += str(level % 4 + 1)")],
  '''
st = b''.join(B.rec(0x293, B.P('<HBB', 0x8000 | k, 1 + k // 7, k % 7)) for k in range(14))
m = op(B.assemble(80, B.globals8(extra=st), [dict(name='S', body=b'')]), formatting_info=True).style_name_map
eq(m, dict([('RowLevel_%d' % (k + 1), (1, k)) for k in range(7)] + [('ColLevel_%d' % (k + 1), (1, 7 + k)) for k in range(7)]), 'styles')
''', 'outline styles RowLevel_5 to RowLevel_7', 'named as levels 1 to 3, hiding those')
P('C14-pal', 'C14', [(F, "        red   =  c        & 0xff\n", "        red   =  c        & (0xff, 0xfe)[c < 0]\n")],
  '''
pal = B.rec(0x92, B.P('<H', 56) + b''.join(bytes([k + 1, 5, 6, 0x80 + k]) for k in range(56)))
bk = op(B.assemble(80, B.globals8(extra=pal), [dict(name='S', body=b'')]), formatting_info=True)
eq(bk.palette_record, [(k + 1, 5, 6) for k in range(56)], 'palette')
''', 'a PALETTE record whose fourth (unused) bytes are 0x80 or more', 'the red component loses its lowest bit')
P('C16-many', 'C16', [(S, "            if nr > self.nrows:\n", "            if nr > self.nrows and len(self.merged_cells) < 1027:\n")],
  '''
body = B.r_number(0, 0, 15, 1.0)
for k in range(2):
    n = 600
    body += B.rec(0xE5, B.P('<H', n) + b''.join(B.P('<4H', 2 * (n * k + i), 2 * (n * k + i) + 1, 0, 0) for i in range(n)))
sh = one(body, formatting_info=True)
eq((len(sh.merged_cells), sh.nrows), (1200, 2400), 'merged ranges, rows')
''', 'a sheet with more than one full MERGEDCELLS record of ranges, below the data', 'the sheet is not extended to cover them')
P('C17-overlap', 'C17', [(S, "                self.hyperlink_map[rowx, colx] = h", "                if colx == h.fcolx or (rowx, colx) not in self.hyperlink_map: self.hyperlink_map[rowx, colx] = h")],
  '''
def h(r1, r2, c1, c2):
    m = ('B2' + '\\0').encode('utf_16_le')
    return B.rec(0x1B8, B.P('<HHHH', r1, r2, c1, c2) + bytes.fromhex('d0c9ea79f9bace118c8200aa004ba90b') + B.P('<II', 2, 8) + B.P('<I', len(m) // 2) + m)
sh = one(B.r_number(0, 0, 15, 1.0) + h(0, 1, 0, 1) + h(0, 0, 0, 2), formatting_info=True)
l = sh.hyperlink_list
eq({k: l.index(v) for k, v in sh.hyperlink_map.items()}, {(0, 0): 1, (0, 1): 1, (0, 2): 1, (1, 0): 0, (1, 1): 0}, 'hyperlink_map')
''', 'two hyperlinks whose ranges overlap beyond the first column of the second', 'hyperlink_map gives the first there')
P('C18-tail', 'C18', [(S, "        while o.rich_text_runlist and o.rich_text_runlist[-1][0] == cchText:\n", "        if o.rich_text_runlist and o.rich_text_runlist[-1][0] == cchText:\n")],
  '''
obj = B.rec(0x5D, B.P('<HHHHH', 0x15, 18, 0x19, 7, 0) + bytes(12) + bytes(4))
txo = B.rec(0x1B6, B.P('<HH6sHHH', 0, 0, bytes(6), 3, 24, 0)) + B.rec(0x3C, b'\\0abc') + B.rec(0x3C, b''.join(B.P('<HHI', a, f, 0) for a, f in ((0, 5), (3, 6), (3, 0))))
note = B.rec(0x1C, B.P('<4H', 2, 3, 0, 7) + B.ustr('me', 2) + b'\\0')
n = one(obj + txo + note, formatting_info=True).cell_note_map[2, 3]
eq((n.text, n.rich_text_runlist), ('abc', [(0, 5)]), 'note')
''', 'a note whose formatting runs end with two entries at the end of the text', 'one of them stays in rich_text_runlist')
P('C18-b5join', 'C18', [(S, "            o.text = unicode(b''.join(pieces), enc)", "            o.text = UNICODE_LITERAL('').join([piece.decode(enc, 'replace') for piece in pieces])")],
  '''
t = '\\u3042\\u3044\\u3046'.encode('cp932')
body = B.rec(0x1C, B.P('<HHH', 1, 2, 6) + t[:3]) + B.rec(0x1C, B.P('<HHH', 0xFFFF, 0, 3) + t[3:])
sh = op(B.assemble(50, B.globals5(cp=932), [dict(name=b'S', body=body)]), formatting_info=True).sheet_by_index(0)
eq(sh.cell_note_map[1, 2].text, '\\u3042\\u3044\\u3046', 'note')
''', 'an Excel 95 note in a double-byte code page split over records inside a character', 'the character is damaged')
P('C19-order', 'C19', [(BK, "            sort_data = (nobj.scope, namex, nobj)\n", "            sort_data = (nobj.scope % max(1, len(self._sheet_names)), namex, nobj)\n")],
  '''
from xv import fmla as X
g = B.globals8(extra=X.r_name(80, 'x', X.t_int(1), itab=2) + X.r_name(80, 'X', X.t_int(2)) + X.r_name(80, 'x', X.t_int(3), itab=1))
bk = op(B.assemble(80, g, [dict(name='A', body=b''), dict(name='B', body=b'')]))
eq([n.scope for n in bk.name_map['x']], [-1, 0, 1], 'scopes of name_map')
''', 'the same name defined globally and for several sheets', 'name_map lists the global one among the sheets', mods=['fmla'])
P('C19-group', 'C19', [(BK, "            ('funcgroup', 0xFC0, 6),", "            ('funcgroup', 0x7C0, 6),")],
  '''
from xv import fmla as X
bk = op(B.assemble(80, B.globals8(extra=X.r_name(80, 'f', b'', flags=2 | 8 | 33 << 6)), [dict(name='A', body=b'')]))
eq(bk.name_obj_list[0].funcgroup, 33, 'funcgroup')
''', 'a macro name of a function group above 31', 'funcgroup loses its highest bit', mods=['fmla'])
P('C21-alias', 'C21', [(FM, "                res = copy.deepcopy(tgtobj.stack[0])\n", "                res = tgtobj.stack[0]\n", 0)],
  '''
from xv import fmla as X
g = B.globals8(extra=X.r_name(80, 'a', X.t_int(2) + X.t_int(3) + b'\\x03') + X.r_name(80, 'b', X.t_name(80, 'V', 1) + X.t_int(4) + b'\\x05'))
bk = op(B.assemble(80, g, [dict(name='A', body=b'')]))
eq([(n.result.value, n.result.text) for n in bk.name_obj_list], [(5.0, '2.0+3.0'), (20.0, 'a*4.0')], 'results')
''', 'a defined name whose formula another name uses', "its result text becomes its own name", mods=['fmla'])
P('C23-dir', 'C23', [(I, "        if 'xl/workbook.bin' in component_names:", "        if 'xl/workbook.bin' in component_names.values() or 'xl\\\\workbook.bin' in component_names.values():")],
  '''
import zipfile
def z(*names):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as x:
        for n in names:
            x.writestr(n, b'x')
    return f.getvalue()
eq([xlrd.inspect_format(content=z('a', n)) for n in ('xl/workbook.bin', 'xl\\\\workbook.bin', 'XL/Workbook.bin')], ['xlsb'] * 3, 'xlsb in three spellings')
''', 'an xlsb file whose member names have capitals', 'taken for a plain ZIP file')
P('C23-unk', 'C23', [(I, "    if file_format and file_format != 'xls':", "    if file_format and file_format != 'xls' and not (file_contents is not None and file_format == 'zip'):")],
  '''
import zipfile
f = io.BytesIO()
with zipfile.ZipFile(f, 'w') as x:
    x.writestr('a.txt', b'x')
try:
    op(f.getvalue())
except xlrd.XLRDError as e:
    eq('ZIP' in str(e).upper(), True, 'message %s' % e)
else:
    eq(1, 0, 'opened')
''', 'an unknown ZIP file given as file_contents', 'refused as a corrupt workbook, not by name')
P('C24-wsp', 'C24', [(BK, "        if version >= 50 and streamtype == 0x0100:", "        if version == 50 and streamtype == 0x0100:")],
  '''
raises(lambda: op(B.bof(80, 0x100) + B.EOF), xlrd.XLRDError, 'a BIFF8 workspace')
try:
    op(B.bof(80, 0x100) + B.EOF)
except xlrd.XLRDError as e:
    eq('Workspace' in str(e), True, 'message %s' % e)
''', 'a workspace file of Excel 97', 'refused without saying it is a workspace')
P('C24-mm', 'C24', [(BK, "        bk.release_resources()\n        raise\n", "        if not on_demand: bk.release_resources()\n        raise\n")],
  '''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.xls')
    open(p, 'wb').write(B.bof(80, 5) + b'\\x85\\0\\2\\0ab' + B.EOF)
    held = []
    import xlrd.book
    orig = xlrd.book.Book.release_resources
    real = xlrd.book.mmap.mmap
    class M(real):
        def __init__(self, *a, **k):
            held.append(self)
    xlrd.book.mmap.mmap = M
    raises(lambda: xlrd.open_workbook(p, logfile=io.StringIO(), on_demand=True), Exception, 'a broken file')
    eq([m.closed for m in held], [True] * len(held), 'closed')
finally:
    shutil.rmtree(d)
''', 'an unreadable file opened by path with on_demand=True', 'its mapping stays open')
P('C28-zero', 'C28', [(H, "            if dummies:\n                dummies += 4\n            else:\n                savpos = pos\n", "            if dummies:\n                dummies += 4 * (dummies < 1024)\n            else:\n                savpos = pos\n")],
  '''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.xls')
    open(p, 'wb').write(B.bof(80, 5) + bytes(2000) + B.EOF)
    f = io.StringIO()
    xlrd.dump(p, f)
    l = [x for x in f.getvalue().splitlines() if 'zero bytes' in x]
    eq(l, ['%5d: ---- 2000 zero bytes skipped ----' % len(B.bof(80, 5))], 'zero bytes')
finally:
    shutil.rmtree(d)
''', 'more than 1024 zero bytes between records', 'dump tells of too few')

P('C20-sheets', 'C20', [(FM, "    xlrd_sheetx1 = bk._all_sheets_map[ref_first_sheetx]\n    xlrd_sheetx2 = bk._all_sheets_map[ref_last_sheetx]\n    if not(0 <= xlrd_sheetx1 <= xlrd_sheetx2):\n        return (-3, -3) # internal reference, but to a macro sheet\n    return xlrd_sheetx1, xlrd_sheetx2\n\ndef get", "    xlrd_sheetx1 = bk._all_sheets_map[ref_first_sheetx]\n    xlrd_sheetx2 = xlrd_sheetx1 + ref_last_sheetx - ref_first_sheetx\n    if not(0 <= xlrd_sheetx1 <= xlrd_sheetx2):\n        return (-3, -3) # internal reference, but to a macro sheet\n    return xlrd_sheetx1, xlrd_sheetx2\n\ndef get")],
  """
from xv import fmla as X
g = B.globals8(extra=X.supbook_self(4) + X.externsheet8([(0, 0, 3)]) + X.r_name(80, 'n', X.t_area3d(80, 'R', 0, 0, 0, 1, 1)))
bk = op(B.assemble(80, g, [dict(name='A', body=b''), dict(name='Chart', type=2, body=b''), dict(name='B', body=b''), dict(name='C', body=b'')]))
eq(bk.name_obj_list[0].result.value[0].coords, (0, 3, 0, 2, 0, 2), 'coords')
""", 'a 3D reference over several sheets with a chart sheet between them', 'the range of sheets is too long', mods=['fmla'])
P('C20-ext', 'C20', [(FM, "    if ref_recordx != bk._supbook_locals_inx:\n", "    if ref_recordx > bk._supbook_locals_inx:\n")],
  """
from xv import fmla as X
g = B.globals8(extra=X.supbook_ext('\\x01other.xls', ['X', 'Y']) + X.supbook_self(2) + X.externsheet8([(0, 0, 0), (1, 1, 1)]) + X.r_name(80, 'n', X.t_ref3d(80, 'R', 0, 3, 2)) + X.r_name(80, 'm', X.t_ref3d(80, 'R', 1, 3, 2)))
bk = op(B.assemble(80, g, [dict(name='A', body=b''), dict(name='B', body=b'')]))
eq(bk.name_obj_list[1].result.value[0].coords, (1, 2, 3, 4, 2, 3), 'own reference')
eq(bk.name_obj_list[0].result.text.startswith('A!'), False, 'reference to another workbook is reported as one to sheet A: %r' % bk.name_obj_list[0].result)
""", 'a reference to another workbook whose SUPBOOK record precedes the own one', 'it is reported as a reference to a sheet of this workbook', mods=['fmla'])
P('C21-arg', 'C21', [(FM, "    222: ('VDB',              5,  7, 0x04,  7, 'V', 'VVVVVVV'),", "    222: ('VDB',              5,  6, 0x04,  6, 'V', 'VVVVVV'),")],
  """
from xv import fmla as X
g = B.globals8(extra=X.r_name(80, 'n', b''.join(X.t_int(k) for k in range(1, 8)) + X.t_funcvar('V', 222, 7)))
eq(op(B.assemble(80, g, [dict(name='A', body=b'')])).name_obj_list[0].result.text, 'VDB(1.0,2.0,3.0,4.0,5.0,6.0,7.0)', 'text')
""", 'VDB with all seven arguments', 'the formula is not rendered', mods=['fmla'])
P('C21-sect', 'C21', [(FM, "                    '('[:aop.rank < rank],\n                    aop.text,\n                    ')'[:aop.rank < rank],\n                    sym,\n", "                    '('[:aop.rank < rank - 10],\n                    aop.text,\n                    ')'[:aop.rank < rank - 10],\n                    sym,\n", 0)],
  """
from xv import fmla as X
def a(r):
    return X.t_area3d(80, 'R', 0, r, 0, r + 1, 1)
g = B.globals8(extra=X.supbook_self(1) + X.externsheet8([(0, 0, 0)]) + X.r_name(80, 'n', a(0) + a(3) + b'\\x10' + a(6) + b'\\x0f'))
eq(op(B.assemble(80, g, [dict(name='A', body=b'')])).name_obj_list[0].result.text, '(A!$A$1:$B$2,A!$A$4:$B$5) A!$A$7:$B$8', 'text')
""", 'an intersection whose left operand is a union', 'the union is not parenthesised', mods=['fmla'])
P('C22-flip', 'C22', [(FM, "    if (clorel or chirel) and bcolx is None:\n        r1c1 = True", "    if (clorel and chirel) and bcolx is None:\n        r1c1 = True")],
  """
from xlrd.formula import rangename2drel
eq(rangename2drel((0, 3, 1, 5), (0, 0, 1, 0)), 'R1C[1]:R3C5', 'a range with one relative column and no base column')
""", 'a range with one relative and one absolute column and no base cell', 'the halves are in different notations')
P('C22-cell', 'C22', [(FM, "    if (rowxrel and browx is None) or (colxrel and bcolx is None):\n", "    if rowxrel and browx is None and (not colxrel or bcolx is None):\n")],
  """
from xlrd.formula import cellnamerel
eq([cellnamerel(4, 1, 0, 1), cellnamerel(4, 1, 1, 0), cellnamerel(4, 1, 1, 1, None, 3)], ['R5C[1]', 'R[4]C2', 'R[4]C[1]'], 'cells with a relative part and no base for it')
""", 'a cell reference with a relative part and only half a base cell', 'the two halves are in different notations')
P('C25-zero5', 'C25', [(S, "                if data_len == 0:\n                    # Four zero bytes", "                if data_len == 0 and bv >= 80:\n                    # Four zero bytes")],
  """
d = B.assemble(50, B.globals5(), [dict(name=b'S', body=B.r_number(0, 0, 15, 1.0) + bytes(4) + B.r_number(1, 0, 15, 2.0))])
eq(op(d).sheet_by_index(0).col_values(0), [1.0, 2.0], 'cells')
""", 'four zero bytes between the records of an Excel 95 sheet', 'opening fails')
P('C25-embed', 'C25', [(S, "                    if code == XL_EOF:\n                        break\n                if DEBUG: print(\"---> found EOF", "                    if code == XL_EOF or code == XL_NUMBER and boftype != 0x20:\n                        break\n                if DEBUG: print(\"---> found EOF")],
  """
d = B.r_number(0, 0, 15, 1.0) + B.bof(80, 0x06) + B.r_number(5, 0, 15, 2.0) + B.r_number(6, 0, 15, 2.0) + B.EOF + B.r_number(1, 0, 15, 3.0)
eq(one(d).col_values(0), [1.0, 3.0], 'cells')
""", 'an embedded substream that is not a chart and holds cell records', 'its cells are taken for cells of the sheet')
P('C30-types', 'C30', [(BK, "        self._xf_index_to_xl_type_map = {0: XL_CELL_NUMBER}\n", "        self._xf_index_to_xl_type_map = self._default_type_map\n"), (BK, "    nsheets = 0\n", "    nsheets = 0\n    _default_type_map = {0: XL_CELL_NUMBER}\n")],
  """
def book(fmt, **kw):
    return op(B.assemble(80, g8(xfs=[B.xf8(fmt=fmt)]), [dict(name='S', body=B.r_number(0, 0, 16, 5.0))]), **kw)
a = book(14, on_demand=True)
b = book(2)
eq(a.sheet_by_index(0).cell_type(0, 0), 3, 'date cell of a sheet loaded after another book was opened')
""", 'a book opened with on_demand, and another opened before its sheet is loaded', "the sheet's dates are judged by the other book's formats")
P('C30-fmt', 'C30', [(F, "            fmtobj = Format(x, ty, fmt_str)\n            book.format_map[x] = fmtobj\n", "            fmtobj = std_formats.setdefault(x, Format(x, ty, fmt_str))\n            book.format_map[x] = fmtobj\n"), (F, "def fill_in_standard_formats(book):\n", "std_formats = {}\n\ndef fill_in_standard_formats(book):\n")],
  """
d = B.assemble(80, B.globals8(), [dict(name='S', body=b'')])
a = op(d)
a.format_map[14].format_str = 'mine'
eq(op(d).format_map[14].format_str, 'm/d/yy', 'format 14 of another book')
""", 'a caller that changes a standard format of its book', 'the change shows in books opened later')
P('C31-out', 'C31', [(FM, "                print(\"*** formula/tFuncVar unknown FuncID:%d\"\n                      % funcx, file=bk.logfile)", "                print(\"*** formula/tFuncVar unknown FuncID:%d\"\n                      % funcx)", 0)],
  """
import contextlib
from xv import fmla as X
o = io.StringIO()
with contextlib.redirect_stdout(o):
    op(B.assemble(80, B.globals8(extra=X.r_name(80, 'n', X.t_int(1) + X.t_funcvar('V', 9999, 1))), [dict(name='A', body=b'')]))
eq(o.getvalue(), '', 'standard output')
""", 'a defined name that calls an unknown function', 'a message goes to standard output though a logfile is given', mods=['fmla'])
P('C31-loop', 'C31', [(CD, "                if seen[sid]:\n                    raise CompDocError(\"MSAT corruption: seen[%d] == %d\" % (sid, seen[sid]))", "                if seen[sid] > 1:\n                    raise CompDocError(\"MSAT corruption: seen[%d] == %d\" % (sid, seen[sid]))")],
  """
import resource
import signal
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
signal.alarm(120)
d = bytearray(ole.wrap(B.assemble(80, B.globals8(), [dict(name='A', body=b'')]), 'Workbook'))
d[68:76] = B.P('<ii', 3, 1)
d[512 + 3 * 512 + 508:512 + 4 * 512] = B.P('<i', 3)
try:
    op(bytes(d))
except xlrd.XLRDError as e:
    pass
except xlrd.compdoc.CompDocError as e:
    pass
except MemoryError:
    eq('memory exhausted', '', 'opening')
""", 'an OLE2 file whose MSAT extension chain is a cycle', 'opening takes all memory')
