import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C05-short', 'C05', [(CD, "        assert tot_found == found_limit\n        # print >> self.logfile, \"_locate_stream(", "        assert 0 < tot_found <= found_limit\n        # print >> self.logfile, \"_locate_stream(")],
  '''
import struct
body = b''.join(B.rec(0x1BB, bytes(4000)) for _ in range(4))
d = B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 7.0) + body)])
a = bytearray(ole.wrap(d, 'Workbook'))
sat = struct.unpack('<i', a[76:80])[0]
off = 512 + 512 * sat
t = list(struct.unpack('<128i', a[off:off + 512]))
# the chain of the workbook: the longest one
starts = set(range(128)) - set(x for x in t if x >= 0)
best = []
for s in starts:
    c = []
    while 0 <= s < 128 and t[s] != -1 and s not in c and t[s] > -3:
        c.append(s); s = t[s]
    if len(c) > len(best): best = c
assert len(best) > 20
t[best[-12]] = -2
a[off:off + 512] = struct.pack('<128i', *t)
for kw in ({}, dict(on_demand=True)):
    raises(lambda: op(bytes(a), **kw), Exception, 'truncated chain')
''', 'a workbook stream whose sector chain ends before the size stated in the directory', 'the file is read as if it were complete')
P('C05-sscs', 'C05', [(CD, "                if seen[sid]:\n                    raise CompDocError(\"SSAT corruption: seen[%d] == %d\" % (sid, seen[sid]))\n", "")],
  '''
import struct
d = B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 7.0))])
doc = ole.Doc([('Workbook', d), ('Tiny', b'x' * 300)], ssz=9, cutoff=512)
a = bytearray(doc.bytes())
# SSAT starts where the directory is
a[60:64] = a[48:52]
n = 0; sid = struct.unpack('<i', a[48:52])[0]
sat = struct.unpack('<i', a[76:80])[0]
t = struct.unpack('<128i', a[512 + 512 * sat: 1024 + 512 * sat])
while sid >= 0: n += 1; sid = t[sid]
a[64:68] = struct.pack('<i', n)
raises(lambda: op(bytes(a)), Exception, 'SSAT shares sectors with the directory')
''', 'a container whose short-sector table shares sectors with the directory', 'the overlap is not reported')
P('C06-unload', 'C06', [(BK, "        return bool(self._sheet_list[sheetx])\n", "        sh = self._sheet_list[sheetx]\n        return bool(sh and sh.nrows)\n")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='A', body=b''), dict(name='B', body=B.r_number(0, 0, 15, 1.0))])
bk = op(d, on_demand=True)
eq((bk.sheet_loaded(0), bk.sheet_loaded('B')), (False, False))
bk.sheet_by_index(0); bk.sheet_by_index(1)
eq((bk.sheet_loaded('A'), bk.sheet_loaded(1)), (True, True), 'sheet_loaded')
''', 'a loaded sheet without any cells', 'sheet_loaded() says False')
P('C06-released', 'C06', [(BK, "        return self._sheet_list[sheetx] or self.get_sheet(sheetx)", "        if self.on_demand and self.mem is None:\n            raise XLRDError(\"Can't load sheets after releasing resources.\")\n        sh = self._sheet_list[sheetx]\n        return sh if sh is not None else self.get_sheet(sheetx)")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='A', body=B.r_number(0, 0, 15, 1.0)), dict(name='B', body=B.r_number(0, 0, 15, 1.0))])
bk = op(d, on_demand=True)
bk.sheet_by_index(0)
bk.release_resources()
eq(bk.sheet_by_index(0).cell_value(0, 0), 1.0, 'loaded sheet after release')
raises(lambda: bk.sheet_by_index(1), xlrd.XLRDError)
''', 'a loaded sheet asked for after release_resources()', 'an exception instead of the sheet')
P('C06-reload', 'C06', [(BK, "            if not self._sheet_list[sheetx]:\n                self.get_sheet(sheetx)\n        return self._sheet_list[:]", "            if not self._sheet_list[sheetx] or self.on_demand:\n                self.get_sheet(sheetx)\n        return self._sheet_list[:]")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='A', body=B.r_number(0, 0, 15, 1.0)), dict(name='B', body=B.r_number(0, 0, 15, 1.0))])
bk = op(d, on_demand=True)
a = bk.sheet_by_index(0)
assert bk.sheets()[0] is a, 'sheets() replaced a loaded sheet'
''', 'on_demand=True, a sheet loaded before sheets() is called', 'a second Sheet object takes the place of the loaded one')
P('C07-ragfmt', 'C07', [(S, "            if colx >= self.ncols:\n                self.ncols = colx + 1\n", "            if colx >= self.ncols and ctype != XL_CELL_BLANK:\n                self.ncols = colx + 1\n")],
  '''
body = B.r_blank(0, 3, 15) + B.r_number(1, 0, 15, 1.0)
a = one(body, formatting_info=True)
b = one(body, formatting_info=True, ragged_rows=True)
eq((b.nrows, b.ncols, b.row_len(0)), (2, 4, 4), 'ragged')
eq(list(b.row_types(0)), list(a.row_types(0)), 'types')
''', 'ragged_rows=True with formatting_info=True and a blank cell in the last column', 'ncols is too small')
P('C07-verb', 'C07', [(BK, "            if key in name_and_scope_map and self.verbosity:\n                fprintf(f, 'Duplicate entry %r in name_and_scope_map\\n', key)\n", "            if key in name_and_scope_map and blah:\n                fprintf(f, 'Duplicate entry %r in name_and_scope_map\\n', key)\n                continue\n")],
  '''
def nm(v):
    f = B.P('<BH', 0x1E, v)
    return B.rec(0x18, B.P('<HBBHHHBBBB', 0, 0, 3, len(f), 0, 0, 0, 0, 0, 0) + b'\\0abc' + f)
d = B.assemble(80, B.globals8(extra=nm(1) + nm(2)), [dict(name='S', body=B.r_number(0, 0, 15, 1.0))])
r = [len(op(d, verbosity=v).name_map['abc']) for v in (0, 2)]
eq(r, [2, 2], 'names listed at verbosity 0, 2')
''', 'verbosity >= 2 and a workbook with two names alike in the same scope', 'the second name is missing from name_map')
P('C08-negend', 'C08', [(S, "        elif end_rowx < 0:\n            end_rowx += nr\n        return [\n            self._cell_types[rowx][colx]", "        elif end_rowx < 0:\n            end_rowx += nr - 1\n        return [\n            self._cell_types[rowx][colx]")],
  '''
sh = one(b''.join(B.r_number(i, 0, 15, 1.0) if i % 2 else B.r_boolerr(i, 0, 15, 1, 0) for i in range(5)))
eq(list(sh.col_types(0, 1, -1)), [2, 4, 2], 'col_types(0, 1, -1)')
eq([c.ctype for c in sh.col_slice(0, 1, -1)], [2, 4, 2])
''', 'col_types with a negative end', 'one cell fewer than col_slice and col_values')
P('C08-rowslice', 'C08', [(S, "        if end_colx is None or end_colx > nc:\n            end_colx = nc\n        elif end_colx < 0:\n            end_colx += nc\n        return [\n            self.cell(", "        if end_colx is None or end_colx > nc:\n            end_colx = nc\n        elif end_colx < 0:\n            end_colx = max(end_colx + nc, start_colx + 1)\n        return [\n            self.cell(")],
  '''
sh = one(b''.join(B.r_number(0, i, 15, float(i)) for i in range(5)))
eq([c.value for c in sh.row_slice(0, 3, -4)], [0.0, 1.0, 2.0, 3.0, 4.0][3:-4], 'row_slice(0, 3, -4)')
eq([c.value for c in sh.row_slice(0, 3, -1)], [3.0])
''', 'row_slice with a negative end that lies before its start', 'a cell instead of an empty list')
P('C08-ragcell', 'C08', [(S, "        return len(self._cell_values[rowx])\n\n    def row(self", "        return len(self._cell_values[rowx]) or self.ncols\n\n    def row(self")],
  '''
sh = one(B.r_number(0, 2, 15, 1.0) + B.r_number(2, 0, 15, 1.0), ragged_rows=True)
eq([sh.row_len(i) for i in range(3)], [3, 0, 1], 'row lengths')
''', 'ragged_rows=True and a row without cells', 'row_len() gives ncols')
P('C09-leap', 'C09', [(XD, "    if y % 100: return 1\n    if y % 400: return 0\n", "    if y % 100: return 1\n    if y % 200: return 0\n")],
  '''
from xlrd.xldate import xldate_from_date_tuple, XLDateBadTuple
raises(lambda: xldate_from_date_tuple((2200, 2, 29), 0), XLDateBadTuple, '2200-02-29')
eq(xldate_from_date_tuple((2000, 2, 29), 0), 36585.0)
''', '29 February of 2200, 2600, ...', 'an impossible date is accepted')
P('C09-sec60', 'C09', [(XD, "    if 0 <= hour < 24 and 0 <= minute < 60 and 0 <= second < 60:", "    if 0 <= hour < 24 and 0 <= minute < 60 and 0 <= second <= 60:")],
  '''
from xlrd.xldate import xldate_from_time_tuple, xldate_from_datetime_tuple, XLDateBadTuple
raises(lambda: xldate_from_time_tuple((1, 2, 60)), XLDateBadTuple, '1:02:60')
raises(lambda: xldate_from_datetime_tuple((2000, 1, 1, 1, 2, 60), 0), XLDateBadTuple, '1:02:60')
''', 'a time tuple with 60 seconds', 'accepted')
P('C09-1904', 'C09', [(XD, "    if xldays < 61 and datemode == 0:\n        raise XLDateAmbiguous(\"Before", "    if xldays < 60 and datemode == 0:\n        raise XLDateAmbiguous(\"Before")],
  '''
from xlrd.xldate import xldate_from_date_tuple, XLDateAmbiguous
raises(lambda: xldate_from_date_tuple((1900, 2, 28), 0), XLDateAmbiguous, '1900-02-28')
''', '1900-02-28 exactly', 'a serial is returned instead of XLDateAmbiguous')
