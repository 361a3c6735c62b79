import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C30-sst', 'C30', [(BK, "        self._sharedstrings, rt_runlist = unpack_SST_table(strlist, uniquestrings)\n", "        key = (nbt, uniquestrings)\n        if key not in _sst_tables:\n            _sst_tables[key] = unpack_SST_table(strlist, uniquestrings)\n        self._sharedstrings, rt_runlist = _sst_tables[key]\n"),
                     (BK, "def unpack_SST_table(", "_sst_tables = {}\n\n\ndef unpack_SST_table(")],
  '''
def book(a, b):
    rec, _ = B.sst_records([dict(s=a, wide=0), dict(s=b, wide=0)], [])
    return op(B.assemble(80, B.globals8(extra=rec), [dict(name='S', body=B.r_labelsst(0, 0, 15, 0) + B.r_labelsst(1, 0, 15, 1))])).sheet_by_index(0).col_values(0)
eq(book('ab', 'cd'), ['ab', 'cd'], 'first book')
eq(book('ef', 'gh'), ['ef', 'gh'], 'second book')
''', 'two workbooks read by one process whose string tables have the same size and number of strings', 'the second shows the strings of the first')
P('C34-b4w', 'C34', [(BK, "        sheet_len = unpack('<i', data[:4])[0]", "        sheet_len = unpack('<H', data[:2])[0]")],
  '''
a = L.r_xf(40) + b''.join(B.r_number(r, 0, 0, float(r)) for r in range(4000))
bk = op(L.book4w([(b'A', a), (b'B', L.r_xf(40) + B.r_number(0, 0, 0, 7.0))]))
eq((bk.sheet_by_index(0).nrows, bk.sheet_by_index(1).cell_value(0, 0)), (4000, 7.0), 'sheets')
''', 'a BIFF4W workbook with a sheet substream of 64 KiB or more', 'the workbook cannot be opened or its sheets are misread')
P('C07-bof', 'C07', [(BK, "                fprintf(self.logfile, \"*** Unexpected BOF", "                import sys\n                fprintf(sys.stderr, \"*** Unexpected BOF")],
  '''
import contextlib
e, o = io.StringIO(), io.StringIO()
with contextlib.redirect_stderr(e), contextlib.redirect_stdout(o):
    op(B.assemble(80, B.globals8(extra=B.rec(0x809, bytes(16))), [dict(name='S', body=b'')]), verbosity=1)
eq((e.getvalue(), o.getvalue()), ('', ''), 'stderr and stdout')
''', 'verbosity 1 or more and a BOF record within the workbook globals', 'a message bypasses the logfile')
P('C03-conts', 'C03', [(BK, "            if code is None:\n                break\n            nbt += nb", "            if code is None or len(strlist) >= 60:\n                break\n            nbt += nb")],
  '''
n = 12000
rec, _ = B.sst_records([dict(s=('%05d' % i) * 9, wide=0) for i in range(n)], [])
sh = op(B.assemble(80, B.globals8(extra=rec), [dict(name='S', body=B.r_labelsst(0, 0, 15, n - 1))])).sheet_by_index(0)
eq(sh.cell_value(0, 0), '11999' * 9, 'last string')
''', 'a string table of more than sixty records (some 490000 bytes)', 'the workbook cannot be opened')
P('C04-msatx2', 'C04', [(CD, "while sid not in (EOCSID, FREESID, MSATSID):", "while sid not in (EOCSID, FREESID, MSATSID) and actual_MSATX_sectors < 1:")],
  '''
d = B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 7.0) + b''.join(B.rec(0x1BB, bytes(8200)) for _ in range(2000)))])
eq(op(ole.Doc([('Workbook', d)], lead='st').bytes()).sheet_by_index(0).cell_value(0, 0), 7.0, 'cell')
''', 'a container whose master sector table continues in two or more sectors (over 15 MB, or tables that are not full)', 'the file is refused or cut short')
P('C08-raglen', 'C08', [(S, "        return len(self._cell_values[rowx])", "        return self.ragged_rows and rowx + 1 == self.nrows and self.ncols or len(self._cell_values[rowx])")],
  '''
sh = one(B.r_number(0, 4, 15, 1.0) + B.r_number(1, 1, 15, 2.0), ragged_rows=True)
eq([sh.row_len(0), sh.row_len(1), len(sh.row(1))], [5, 2, 2], 'row_len')
''', 'ragged_rows and a last row shorter than the longest', 'row_len is too large')
