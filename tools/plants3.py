import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C10-key14', 'C10', [(F, "    ty = [FGE, FDT][is_date_s]\n    if not(fmtkey > 163 or bv < 50):", "    ty = [FGE, FDT][is_date_s or (14 <= fmtkey <= 22 and not unistrg)]\n    if not(fmtkey > 163 or bv < 50):"), (F, "        is_date_c = std_ty == FDT\n", "        is_date_c = std_ty == FDT\n        if fmtkey in (27, 50) and is_date_c: ty = FDT\n")],
  '''
glob = g8(formats=[(27, '0.00')], xfs=[B.xf8(fmt=27)])
eq(one(B.r_number(0, 0, 16, 5.5), glob=glob).cell_type(0, 0), 2, 'cell with format key 27 redefined as 0.00')
''', 'a FORMAT record that redefines key 27 or 50 with a number format', 'numbers reported as dates')
P('C10-skip', 'C10', [(F, "            elif c in UNICODE_LITERAL(r\"\\_*\"):\n                state = 2", "            elif c in UNICODE_LITERAL(r\"\\_*\"):\n                state = 2 if c != '*' or s else 0")],
  '''
glob = g8(formats=[(164, '*d0'), (165, '0*d'), (166, '* yyyy')], xfs=[B.xf8(fmt=164), B.xf8(fmt=165), B.xf8(fmt=166)])
sh = one(B.r_number(0, 0, 16, 5.5) + B.r_number(0, 1, 17, 5.5) + B.r_number(0, 2, 18, 5.5), glob=glob)
glob2 = g8(formats=[(164, '*dGeneral')], xfs=[B.xf8(fmt=164)])
eq((list(sh.row_types(0)), one(B.r_number(0, 0, 16, 5.5), glob=glob2).cell_type(0, 0)), ([2, 2, 3], 2), 'types')
''', 'a format that begins with *d, *m, *y, *h or *s (fill character)', 'the fill character is taken for a date character')
P('C10-rk', 'C10', [(S, "                d = unpack_RK(data[6:10])\n                self_put_cell(rowx, colx, None, d, xf_index)", "                d = unpack_RK(data[6:10])\n                self_put_cell(rowx, colx, None if d > 0 else XL_CELL_NUMBER, d, xf_index)")],
  '''
glob = g8(xfs=[B.xf8(fmt=14)])
sh = one(B.r_rk(0, 0, 16, 2) + B.r_number(1, 0, 16, 0.0), glob=glob)
eq([sh.cell_type(0, 0), sh.cell_type(1, 0)], [3, 3], 'zero as RK and as NUMBER in a date format')
''', 'zero or a negative number stored as RK in a cell with a date format', 'reported as a number')
P('C11-extname', 'C11', [(BK, "                sheet_name = unpack_string(data, 6, self.encoding, lenlen=1)\n            else:", "                sheet_name = unpack_string(data, 6, 'latin_1' if self.codepage == 1251 else self.encoding, lenlen=1)\n            else:")],
  '''
d = B.assemble(50, B.globals5(cp=1251), [dict(name='\\u041b\\u0438\\u0441\\u0442'.encode('cp1251'), body=b'')])
eq(op(d).sheet_names(), ['\\u041b\\u0438\\u0441\\u0442'], 'sheet name')
''', 'a Cyrillic (code page 1251) Excel 95 file with a non-ASCII sheet name', 'the sheet name is decoded as latin-1')
P('C11-override', 'C11', [(BK, "        if self.encoding_override:\n            self.encoding = self.encoding_override\n        elif self.codepage is None:", "        if self.encoding_override and self.codepage is None:\n            self.encoding = self.encoding_override\n        elif self.codepage is None:")],
  '''
d = B.assemble(50, B.globals5(cp=1252), [dict(name=b'S', body=B.r_label5(0, 0, 15, '\\u0416'.encode('cp1251')))])
eq(op(d, encoding_override='cp1251').sheet_by_index(0).cell_value(0, 0), '\\u0416', 'label')
''', 'encoding_override given for a file that has a CODEPAGE record', 'the override is ignored')
P('C11-user', 'C11', [(BK, "            strg = unpack_string(self.user_name, 0, self.encoding, lenlen=1)\n            strg = strg.rstrip()\n", "            strg = unpack_string(self.user_name, 0, 'cp1252', lenlen=1)\n            strg = strg.rstrip()\n")],
  '''
u = '\\u0410\\u043d\\u043d\\u0430'.encode('cp1251')
d = B.assemble(50, B.rec(0x5C, bytes([len(u)]) + u + b' ' * 27) + B.globals5(cp=1251), [dict(name=b'S', body=b'')])
eq(op(d).user_name, '\\u0410\\u043d\\u043d\\u0430', 'user name')
''', 'an Excel 95 file whose WRITEACCESS record precedes CODEPAGE and names a Cyrillic user', 'user_name is wrong (or an exception)')
P('C12-b2int', 'C12', [(S, "local_unpack('<HH3sH', data)\n", "local_unpack('<HH3sh', data)\n")],
  '''
d = L.sheet(20, L.b2_integer(0, 0, L.attr3(), 40000))
eq(op(d).sheet_by_index(0).cell_value(0, 0), 40000.0, 'INTEGER cell')
''', 'an Excel 2 INTEGER cell above 32767', 'negative number')
P('C12-b2long', 'C12', [(S, "                    strg = unpack_string(data, 7, bk.encoding or bk.derive_encoding(), lenlen=1)\n", "                    strg = unpack_string(data, 7, bk.encoding or bk.derive_encoding(), lenlen=1).rstrip('\\0')\n")],
  '''
d = L.sheet(20, L.b2_label(0, 0, L.attr3(), b'ab\\0'))
eq(op(d).sheet_by_index(0).cell_value(0, 0), 'ab\\0', 'label ending in NUL')
''', 'an Excel 2 label that ends with a NUL character', 'the character is dropped')
P('C12-rstr', 'C12', [(S, "                        self.put_cell(rowx, colx, XL_CELL_TEXT, strg, xf_index)\n                        # if DEBUG: print \"FORMULA strg", "                        self.put_cell(rowx, colx, XL_CELL_TEXT if strg or bv >= 30 else XL_CELL_EMPTY, strg, xf_index)\n                        # if DEBUG: print \"FORMULA strg")],
  '''
d = L.sheet(20, B.r_formula2(0, 0, L.attr3(), B.fres_str()) + L.b2_string(b''))
eq(op(d).sheet_by_index(0).cell_type(0, 0), 1, 'empty string result')
''', 'an Excel 2 formula whose result is an empty string', 'cell type is EMPTY instead of TEXT')
P('C13-b5rot', 'C13', [(F, "        orientation = pkd_orient_used & 0x03\n        xf.alignment.rotation = [0, 255, 90, 180][orientation]", "        orientation = pkd_orient_used & 0x03\n        xf.alignment.rotation = [0, 255, 90, 270][orientation]")],
  '''
d = B.assemble(50, B.globals5(xfs=B.xf5(style=True) * 15 + B.xf5() + B.xf5(orient=3)), [dict(name=b'S', body=b'')])
eq(op(d, formatting_info=True).xf_list[16].alignment.rotation, 180, 'rotation')
''', 'an Excel 95 XF with text rotated clockwise', 'rotation 270 instead of 180')
P('C13-b4vert', 'C13', [(F, "            (4, 0x30, 'vert_align'),\n        ))\n        orientation = (pkd_align_orient & 0xC0) >> 6", "            (4, 0x70, 'vert_align'),\n        ))\n        orientation = (pkd_align_orient & 0xC0) >> 6")],
  '''
x = b''.join([L.r_xf(40, style=True)] * 15 + [L.r_xf(40), L.r_xf(40, vert=2, orient=1)])
bk = op(L.sheet(40, x + B.dimension(40, 0, 1, 0, 1) + B.r_number(0, 0, 16, 1.0)), formatting_info=True)
a = bk.xf_list[16].alignment
eq((a.vert_align, a.rotation), (2, 255), 'vert_align, rotation')
''', 'an Excel 4 XF with stacked text (orientation odd)', 'vert_align is 4 too large')
P('C13-diag', 'C13', [(F, "            (14, 0x001FC000, 'diag_colour_index'),\n            (21, 0x01E00000, 'diag_line_style'),", "            (14, 0x001FC000, 'diag_colour_index'),\n            (21, 0x00E00000, 'diag_line_style'),")],
  '''
import struct
x = bytearray(B.xf8())
v = struct.unpack('<I', bytes(x[4 + 14:4 + 18]))[0]
x[4 + 14:4 + 18] = struct.pack('<I', (v & ~0x01E00000) | 9 << 21)
bk = op(B.assemble(80, g8(xfs=[bytes(x)]), [dict(name='S', body=b'')]), formatting_info=True)
eq(bk.xf_list[16].border.diag_line_style, 9, 'diagonal line style')
''', 'a diagonal border with line style 8 or more', 'style reported 8 too small')
P('C15-colx256', 'C15', [(S, "                    if colx > 255: break # Excel does 0 to 256 inclusive\n                    self.colinfo_map[colx] = c\n", "                    if colx >= 255 and first_colx < 255: break # Excel does 0 to 256 inclusive\n                    self.colinfo_map[colx] = c\n")],
  '''
ci = B.rec(0x7D, B.P('<HHHHHH', 250, 255, 1234, 15, 0, 0))
sh = one(ci + B.r_number(0, 0, 15, 1.0), formatting_info=True)
eq((sh.computed_column_width(254), sh.computed_column_width(255)), (1234, 1234), 'width')
''', 'a COLINFO record for a range that ends at the last column', 'column IV has no column information')
P('C15-share', 'C15', [(S, "                    r.additional_space_below = (bits2 >> 29) & 1\n                    if not r.has_default_xf_index:\n                        r.xf_index = -1\n", "                    r.additional_space_below = (bits2 >> 29) & 1\n                if not (bits2 >> 7) & 1 and (bits2 >> 16) & 0xfff == 15:\n                        r.xf_index = -1\n")],
  '''
row = B.rec(0x208, B.P('<HHHHHHI', 0, 0, 1, 300, 0, 0, 0x100 | 17 << 16))
sh = one(row + B.r_number(0, 1, 15, 1.0), glob=g8(xfs=[B.xf8(), B.xf8()]), formatting_info=True)
eq(sh.cell_xf_index(0, 0), 15, 'XF of an empty cell in a row without default XF')
''', 'a ROW record without the explicit-format flag but with an XF index other than 15', 'the index is used for empty cells')
P('C15-gcw', 'C15', [(S, "            if self.gcw[colx]:\n                if self.standardwidth is not None:\n                    return self.standardwidth\n            else:", "            if self.gcw[colx] and self.standardwidth is not None:\n                return self.standardwidth\n            else:")],
  '''
g = B.rec(0xAB, b'\\x20\\0' + b'\\xff' * 32)
ci = B.rec(0x7D, B.P('<HHHHHH', 3, 3, 1234, 15, 0, 0))
d = B.assemble(50, B.globals5(), [dict(name=b'S', body=g + ci + B.rec(0x55, B.P('<H', 10)) + B.r_number(0, 0, 15, 1.0))])
eq(op(d, formatting_info=True).sheet_by_index(0).computed_column_width(3), 2560, 'width')
''', 'an Excel 4-95 sheet with the global-column-width bit set for a column with COLINFO, and no STANDARDWIDTH record', 'COLINFO width instead of the default width')
P('C16-brk', 'C16', [(S, "            if nc > self.ncols:\n                self.ncols = nc\n                self._first_full_rowx = -2\n            if nr > self.nrows:", "            if nc > self.ncols:\n                self.ncols = nc\n            if nr > self.nrows:")],
  '''
m = B.rec(0xE5, B.P('<HHHHH', 1, 0, 1, 2, 9))
sh = one(B.r_number(0, 0, 15, 1.0) + B.r_number(1, 1, 15, 2.0) + B.r_number(2, 0, 15, 2.0) + m, formatting_info=True)
eq([sh.row_len(r) for r in range(3)], [10, 10, 10], 'row lengths')
''', 'a merged range wider than the cells of the sheet', 'rows after the widest one are not padded to ncols')
P('C17-up', 'C17', [(S, "                shortpath = b\"..\\\\\" * uplevels + data[offset:offset + nbytes - 1] #### BYTES, not unicode", "                shortpath = b\"..\\\\\" * (uplevels & 1) + data[offset:offset + nbytes - 1] #### BYTES, not unicode")],
  '''
def h(up):
    p = b'a.xls\\0'
    return B.rec(0x1B8, B.P('<HHHH', 0, 0, 0, 0) + bytes.fromhex('d0c9ea79f9bace118c8200aa004ba90b') + B.P('<II', 2, 1) + bytes.fromhex('0303000000000000c000000000000046')
                 + B.P('<HI', up, len(p)) + p + bytes.fromhex('ffffadde') + bytes(20) + B.P('<I', 0))
for up in (0, 1, 2, 3):
    l = one(B.r_number(0, 0, 15, 1.0) + h(up), formatting_info=True).hyperlink_list[0]
    eq(l.url_or_path, b'..\\\\' * up + b'a.xls', 'path, %d levels up' % up)
''', 'a link to a local file two or more folders up', 'path with fewer ..')
P('C27-boolarr', 'C27', [(S, "                        value = BYTES_ORD(result_str[2])\n                        self_put_cell(rowx, colx, XL_CELL_ERROR, value, xf_index)", "                        value = BYTES_ORD(result_str[2]) or BYTES_ORD(result_str[3])\n                        self_put_cell(rowx, colx, XL_CELL_ERROR, value, xf_index)")],
  '''
sh = one(B.r_formula(80, 0, 0, 15, b'\\2\\0\\0\\x2a\\0\\0\\xff\\xff'))
eq(sh.cell_value(0, 0), 0, '#NULL! with junk in the unused bytes')
''', 'a formula with result #NULL! and junk in unused result bytes', 'wrong error code')
P('C27-tableop', 'C27', [(S, "            XL_SHRFMLA, XL_ARRAY, XL_TABLEOP, XL_TABLEOP2,\n            XL_ARRAY2, XL_TABLEOP_B2,\n", "            XL_SHRFMLA, XL_ARRAY, XL_TABLEOP,\n            XL_ARRAY2, XL_TABLEOP_B2,\n")],
  '''
from xlrd.biffh import XL_TABLEOP2
d = L.sheet(20, B.r_formula2(0, 0, L.attr3(), B.fres_str()) + B.rec(XL_TABLEOP2, bytes(12)) + L.b2_string(b'abc'))
eq(op(d).sheet_by_index(0).cell_value(0, 0), 'abc', 'string result')
''', 'a string formula followed by a TABLEOP2 record (two-input table of Excel 2)', 'the workbook is refused')
P('C29-scl', 'C29', [(S, "                    result = (num * 100) // den\n                if not(10 <= result <= 400):", "                    result = (num * 100) // den\n                if not(10 <= result < 400):")],
  '''
sh = one(B.rec(0xA0, B.P('<HH', 4, 1)))
eq(sh.scl_mag_factor, 400, 'zoom 400%')
''', 'a sheet zoomed to exactly 400%', '100% is reported')
P('C29-cook', 'C29', [(S, "            if not zoom:\n                # VALID, defaults to 60\n                zoom = 60", "            if not zoom:\n                # VALID, defaults to 60\n                zoom = 60 if self.scl_mag_factor is None else self.scl_mag_factor")],
  '''
w = B.rec(0x23E, B.P('<HHHHHHHI', 0x6B6, 0, 0, 64, 0, 0, 0, 0))
sh = one(w + B.rec(0xA0, B.P('<HH', 3, 2)))
eq((sh.cooked_normal_view_mag_factor, sh.cooked_page_break_preview_mag_factor), (150, 60), 'zoom factors')
''', 'a sheet with an SCL record and no cached page-break-preview zoom, shown in normal view', 'preview zoom is not the default 60')
P('C29-pane', 'C29', [(S, "                ) = unpack(\"<HHHHB\", data[:9])\n                self.has_pane_record = 1", "                ) = unpack(\"<HHHHB\", data[:9])\n                self.has_pane_record = int(self.vert_split_pos + self.horz_split_pos > 0)")],
  '''
sh = one(B.rec(0x41, B.P('<HHHHH', 0, 0, 1, 1, 3)))
eq(sh.has_pane_record, 1, 'has_pane_record')
''', 'a PANE record with both split positions zero', 'has_pane_record is 0')
P('C26-type', 'C26', [(BK, "            self._sheet_names[sh_number],\n            sh_number,\n", "            self._sheet_names[sh_number],\n            self._all_sheets_map.index(sh_number) if self._all_sheets_map else sh_number,\n")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='A', body=b'', vis=1), dict(name='Ch', type=2, body=b''), dict(name='B', body=b''), dict(name='C', body=b'', vis=2)])
bk = op(d)
eq([(s.number, s.visibility) for s in bk.sheets()], [(0, 1), (1, 0), (2, 2)], 'number and visibility')
''', 'a chart sheet before a worksheet', 'Sheet.number counts charts (and visibility is that of another sheet)')
P('C26-posn', 'C26', [(BK, "            abs_posn = offset + self.base # because global BOF", "            abs_posn = (offset & 0xFFFFFF) + self.base # because global BOF")],
  '''
pad = B.rec(0x1BB, bytes(8000)) * 2200
d = B.assemble(80, B.globals8(), [dict(name='A', body=pad + B.r_number(0, 0, 15, 1.0)), dict(name='B', body=B.r_number(0, 0, 15, 2.0))])
eq([s.cell_value(0, 0) for s in op(d).sheets()], [1.0, 2.0], 'cells')
''', 'a worksheet that starts beyond 16 MB', 'read from the wrong place')
