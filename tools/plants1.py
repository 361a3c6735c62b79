import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C01-fullrow', 'C01', [(S, "                if nr < self.nrows:\n                    # cell data is not", "                if nr < self.nrows - 1:\n                    # cell data is not")],
  '''
sh = one(B.r_number(0, 0, 15, 1.0) + B.r_number(1, 0, 15, 2.0) + B.r_number(2, 3, 15, 3.0) + B.r_number(1, 7, 15, 4.0))
eq([sh.row_len(r) for r in range(3)], [8, 8, 8], 'row lengths')
''', 'a cell in the last row but one that widens the sheet after a cell of the last row was stored (records not in row order)', 'rows written before are not padded to ncols: shorter rows in a rectangular sheet')
P('C01-boolerr9', 'C01', [(S, "                cellty = (XL_CELL_BOOLEAN, XL_CELL_ERROR)[is_err]\n                # if DEBUG: print \"XL_BOOLERR\"", "                cellty = (XL_CELL_BOOLEAN, XL_CELL_ERROR)[is_err or value > 1]\n                if is_err and not value: cellty = XL_CELL_BOOLEAN\n                # if DEBUG: print \"XL_BOOLERR\"")],
  '''
sh = one(B.r_boolerr(0, 0, 15, 0, 1) + B.r_boolerr(0, 1, 15, 7, 1) + B.r_boolerr(0, 2, 15, 1, 0))
eq(sh.row_types(0).tolist() if hasattr(sh.row_types(0), 'tolist') else list(sh.row_types(0)), [5, 5, 4], 'types')
''', 'a #NULL! error cell (error code 0)', 'the error is reported as the boolean FALSE')
P('C01-mulblank', 'C01', [(S, "                for colx in xrange(mul_first, mul_last + 1):\n                    self_put_cell(rowx, colx, XL_CELL_BLANK", "                for colx in xrange(mul_first, mul_last + (nitems > 4)):\n                    self_put_cell(rowx, colx, XL_CELL_BLANK")],
  '''
sh = one(B.r_mulblank(0, 2, [15]) + B.r_number(0, 0, 15, 1.0), formatting_info=True)
eq((sh.ncols, list(sh.row_types(0))), (3, [2, 0, 6]), 'columns and types')
''', 'formatting_info=True and a MULBLANK record for a single cell', 'the blank cell is lost')
P('C02-neg', 'C02', [(S, "        i >>= 2 # div by 4 to drop the 2 flag bits\n        if flags & 1:\n            return i / 100.0\n", "        i >>= 2 # div by 4 to drop the 2 flag bits\n        if flags & 1:\n            return i // 100 + i % 100 / 100.0\n")],
  '''
import struct
bad = []
for n in (-744, -731, 100, -12345, -644, -531, 115):
    raw = struct.pack('<i', n << 2 | 3)
    sh = one(B.rec(0x27E, B.P('<HHH', 0, 0, 15) + raw))
    if sh.cell_value(0, 0) != n / 100.0:
        bad.append((n, sh.cell_value(0, 0)))
eq(bad, [], 'RK integers divided by 100')
''', 'an RK integer with the divide-by-100 flag whose hundredths do not add up exactly in floating point', 'the value differs in the last bits')
P('C02-dbl', 'C02', [(S, "            return d / 100.0", "            return d * 0.01")],
  '''
import struct
bad = []
for x in [float(i) for i in range(1, 300)]:
    raw = bytearray(struct.pack('<d', x)[4:])
    raw[0] |= 1
    d = struct.unpack('<d', bytes(4) + bytes([raw[0] & 0xFC]) + bytes(raw[1:]))[0]
    sh = one(B.rec(0x27E, B.P('<HHH', 0, 0, 15) + bytes(raw)))
    if sh.cell_value(0, 0) != d / 100.0:
        bad.append((x, sh.cell_value(0, 0)))
eq(bad, [], 'RK doubles divided by 100')
''', 'an RK double with the divide-by-100 flag', 'the value differs in the last bit')
P('C03-halfpair', 'C03', [(BK, "            charsgot += charsavail\n            if charsgot == nchars:", "            charsgot = len(accstrg)\n            if charsgot == nchars:")],
  '''
s = 'ab\\U0001f600cd'
recs, _ = B.sst_records([dict(s=s, wide=1), dict(s='next', wide=0)], [8 + 3 + 12])
recs2, _ = B.sst_records([dict(s=s, wide=1), dict(s='next', wide=0)], [8000])
for r in (recs2, recs):
    sh = one(B.r_labelsst(0, 0, 15, 0) + B.r_labelsst(0, 1, 15, 1), glob=B.globals8(extra=r))
    eq(sh.row_values(0), [s, 'next'], 'strings')
''', 'a shared string with a character beyond the Basic Multilingual Plane', 'the table cannot be read any more')
P('C03-runs', 'C03', [(BK, "                if pos == datalen:\n                    pos = 0\n                    datainx += 1\n                    data = datatab[datainx]\n                    datalen = len(data)\n                runs", "                if pos == datalen and runindex:\n                    pos = 0\n                    datainx += 1\n                    data = datatab[datainx]\n                    datalen = len(data)\n                runs")],
  '''
s = dict(s='hello hello', wide=0, runs=[(0, 1), (3, 2)])
recs, _ = B.sst_records([s, dict(s='next', wide=0)], [24, 8000])
sh = one(B.r_labelsst(0, 0, 15, 0) + B.r_labelsst(0, 1, 15, 1), glob=B.globals8(extra=recs), formatting_info=True)
eq(sh.row_values(0), ['hello hello', 'next'], 'strings')
eq(sh.rich_text_runlist_map[0, 0], [(0, 1), (3, 2)], 'runs')
''', 'a CONTINUE record that begins exactly between the characters and the formatting runs of a shared string', 'reading the table fails')
P('C03-phonetic', 'C03', [(BK, "        pos += phosz # size", "        if options & 0x04: pos += phosz # size")],
  '''
table = [dict(s='hello, hello, hello', wide=0, pho=bytes(range(1, 17))), dict(s='next', wide=0), dict(s='third', wide=0)]
for split in ([8000], [24, 8000]):
    recs, _ = B.sst_records(table, split)
    sh = one(b''.join(B.r_labelsst(0, i, 15, i) for i in range(3)), glob=B.globals8(extra=recs))
    eq(sh.row_values(0), ['hello, hello, hello', 'next', 'third'], 'strings split %r' % (split,))
''', 'a shared string with phonetic data whose characters are split by a CONTINUE record', 'the phonetic data are not skipped, the following strings are garbage')
P('C04-upper', 'C04', [(CD, "            if dl[child].name.lower() == head.lower():", "            if dl[child].name == head or dl[child].name == head.upper():")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 7.0))])
for name in ('Workbook', 'WORKBOOK', 'workbook', 'WorkBook'):
    eq(op(ole.wrap(d, name)).sheet_by_index(0).cell_value(0, 0), 7.0, name)
''', 'a container whose stream name is spelt in another case (file written by a third-party tool)', 'the workbook is not found')
P('C04-msat', 'C04', [(CD, "                # Toleration: a FREESID or EOCSID entry anywhere in the MSAT array will be ignored.\n                continue", "                # Toleration: a FREESID or EOCSID entry anywhere in the MSAT array will be ignored.\n                break")],
  '''
import struct
body = b''.join(B.rec(0x1BB, bytes(8000)) for _ in range(10)) + B.r_number(0, 0, 15, 7.0)
d = B.assemble(80, B.globals8(), [dict(name='S', body=body)])
a = bytearray(ole.wrap(d, 'Workbook'))
m = list(struct.unpack('<109i', bytes(a[76:512])))
used = [x for x in m if x >= 0]
assert len(used) >= 2, used
m = [used[0], -1] + used[1:] + [-1] * 109
a[76:512] = struct.pack('<109i', *m[:109])
eq(op(bytes(a)).sheet_by_index(0).cell_value(0, 0), 7.0, 'cell')
''', 'a container whose master sector table has an unused entry before a used one', 'the sector table is cut short, the file is refused')
