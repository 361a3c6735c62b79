import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())
RX = 'scripts/runxlrd.py'

P('C32-rowinfo', 'C32', [(S, "            self.additional_space_above,\n            self.additional_space_below,\n        ) = state", "            self.additional_space_below,\n            self.additional_space_above,\n        ) = state")],
  '''
import pickle
sh = one(B.rec(0x208, B.P('<HHHHIHH', 0, 0, 1, 300, 0, 0, 0)[:12] + B.P('<I', 0x100 | 15 << 16 | 1 << 28)) + B.r_number(0, 0, 15, 1.0), formatting_info=True)
f = lambda sh: (sh.rowinfo_map[0].additional_space_above, sh.rowinfo_map[0].additional_space_below)
a = f(sh)
eq(a[0] != a[1], True, 'the row has one of the two flags')
eq(f(pickle.loads(pickle.dumps(sh, 2))), a, 'flags of the row after pickling')
''', 'a row with a thick top or bottom border, pickled', 'the copy has the two flags exchanged')
P('C32-raw', 'C32', [(BK, "class Book(BaseObject):\n", '''class _WithoutRawFile(object):
    # The raw file is not needed once the sheets are loaded
    def __getstate__(self):
        state = self.__dict__.copy()
        if not state.get('on_demand') or state.get('_resources_released') or None not in state.get('_sheet_list', ()):
            state['_rich_text_runlist_map'] = None
            state['name_map'] = dict((k, list(v)) for k, v in self.name_map.items())
        else:
            state['_sharedstrings'] = list(self._sharedstrings[:256])
        return state


class Book(_WithoutRawFile, BaseObject):
''')],
  '''
import pickle
strs = ['s%d' % i for i in range(300)]
glob = B.globals8(extra=B.sst_records([dict(s=s, wide=0) for s in strs], [8000])[0])
bk = op(B.assemble(80, glob, [dict(name='S', body=B.r_labelsst(0, 0, 15, 299)), dict(name='T', body=B.r_labelsst(0, 0, 15, 298))]), on_demand=True)
bk.sheet_by_index(1)
c = pickle.loads(pickle.dumps(bk, 2))
try:
    eq(c.sheet_by_index(0).cell_value(0, 0), 's299', 'a sheet loaded from the copy')
except IndexError as e:
    eq(repr(e), None, 'a sheet loaded from the copy')
''', 'an on-demand book pickled with a sheet not yet loaded that uses a shared string after the 256th', 'the sheet of the copy cannot be loaded')
P('C32-reg', 'C32', [(BK, "        nobj.book = self ### CIRCULAR ###", "        nobj._book_id = id(self)\n        _books_by_id[nobj._book_id] = self"),
                     (BK, "class Name(BaseObject):\n", "_books_by_id = {}\n\n\nclass Name(BaseObject):\n    # the names do not own the book\n    book = property(lambda self: _books_by_id[self._book_id])\n\n"),
                     (BK, "    book = None # parent\n", "")],
  '''
import pickle, subprocess
# the name N refers to S!$A$1
f = bytes([0x3A]) + B.P('<HHH', 0, 0, 0)
nm = B.rec(0x18, B.P('<HBBHHHBBBB', 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0) + b'\\0N' + f)
glob = B.globals8(extra=b'')
tail = B.rec(0x1AE, B.P('<HH', 1, 0x0401)) + B.rec(0x17, B.P('<HHHH', 1, 0, 0, 0)) + nm
bk = op(B.assemble(80, glob, [dict(name='S', body=B.r_number(0, 0, 15, 5.0))], gtail=tail) if 'gtail' in B.assemble.__code__.co_varnames else B.assemble(80, glob + tail, [dict(name='S', body=B.r_number(0, 0, 15, 5.0))]))
eq(bk.name_obj_list[0].cell().value, 5.0, 'the cell the name refers to')
blob = pickle.dumps(bk, 2)
code = 'import sys, pickle; b = pickle.loads(sys.stdin.buffer.read()); print(b.name_obj_list[0].cell().value)'
r = subprocess.run([sys.executable, '-B', '-c', code], input=blob, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
eq(r.stdout.decode().strip().splitlines()[-1:], ['5.0'], 'the same in another process')
''', 'a book with defined names unpickled in another process', 'names cannot be resolved there')
P('C33-next', 'C33', [(RX, '''                    print("*** Open failed: %s: %s" % (type(e).__name__, e))
                    traceback.print_exc(file=sys.stdout)
                    continue''', '''                    print("*** Open failed: %s: %s" % (type(e).__name__, e))
                    traceback.print_exc(file=sys.stdout)
                    break''')],
  '''
import subprocess, tempfile, shutil
d = tempfile.mkdtemp()
try:
    for n in 'ab':
        open(os.path.join(d, n + '.xls'), 'wb').write(B.assemble(80, B.globals8(), [dict(name='S' + n, body=B.r_number(0, 0, 15, 1.0))]))
    open(os.path.join(d, 'a.xls'), 'r+b').truncate(2)
    open(os.path.join(d, 'a.xls'), 'ab').write(b'\\x08')
    os.unlink(os.path.join(d, 'a.xls'))
    open(os.path.join(d, 'a.xls'), 'wb').write(b'PK\\x03\\x04' + bytes(40))
    out = ''
    r = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', 'show', os.path.join(d, '[ab].xls')], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode()
    n = out.count('=== File')
    r2 = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', 'show', os.path.join(d, 'b.xls')], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    eq((r2.stdout.decode().count('cell A1')), 1, 'the good file alone')
    order = sorted(os.listdir(d))
    import glob
    first = os.path.basename(glob.glob(os.path.join(d, '[ab].xls'))[0])
    if first == 'b.xls':
        os.rename(os.path.join(d, 'b.xls'), os.path.join(d, 'c.xls'))
    r = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', 'show'] + [f for f in (os.path.join(d, x) for x in ('a.xls', 'a*.xls', 'b.xls', 'c.xls'))], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    eq(r.stdout.decode().count('=== File'), 3, 'files reported')
    # several files matched by one pattern, the unreadable one before others
    for i in range(12):
        shutil.copy(os.path.join(d, 'a.xls'), os.path.join(d, 'z%02d.xls' % i))
    r = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', 'show', os.path.join(d, 'z*.xls')], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    eq(r.stdout.decode().count('=== File'), 12, 'files of one pattern')
finally:
    shutil.rmtree(d)
''', 'a pattern matching several files, one of which fails with an error that is not XLRDError', 'the files after it are not shown')
P('C33-date', 'C33', [(RX, '''                    showval = "%s:%s" % (type(e).__name__, e)
                    cty = xlrd.XL_CELL_ERROR
''', '''                    showval = "%s:%s" % (type(e).__name__, e)
''')],
  '''
import subprocess, tempfile
f = tempfile.NamedTemporaryFile(suffix='.xls')
f.write(B.assemble(80, g8(formats=[(164, 'yyyy')], xfs=[B.xf8(fmt=164)]), [dict(name='S', body=B.r_number(0, 0, 16, -1.0))]))
f.flush()
r = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', 'show', f.name], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
l = [x for x in r.stdout.decode().splitlines() if x.startswith('cell')]
eq([x.split(',')[0] for x in l], ['cell A1: type=5'], 'the cell with a negative date')
''', 'a date cell whose value is no date', 'it is shown as a date and not as an error')
P('C33-unload', 'C33', [(RX, '''            if anshow and nrows:
                show_row(bk, sh, nrows-1, colrange, printit)''', '''            if anshow > (nshow < 4) and nrows:
                show_row(bk, sh, nrows-1, colrange, printit)''')],
  '''
import subprocess, tempfile
f = tempfile.NamedTemporaryFile(suffix='.xls')
f.write(B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 1.0))]))
f.flush()
r = subprocess.run([sys.executable, '-B', os.path.join(os.getcwd(), 'scripts', 'runxlrd.py'), '-t', '2rows', f.name], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
eq(r.stdout.decode().count('cell A1'), 1, 'cells shown')
''', '2rows or 3rows on a sheet with a single row', 'the row is not shown')
P('C30-scratch', 'C30', [(BK, "def unpack_SST_table(datatab, nstrings):\n", "_strings = []\n\n\ndef unpack_SST_table(datatab, nstrings):\n"), (BK, "    strings = []\n    strappend = strings.append\n    richtext_runs", "    strings = _strings # one list, grown once\n    del strings[:]\n    strappend = strings.append\n    richtext_runs"),
                            (BK, "    return strings, richtext_runs", "    return list(strings), richtext_runs")],
  '''
def book(tag):
    strs = [dict(s='%s%d' % (tag, i), wide=0) for i in range(40)]
    return B.assemble(80, B.globals8(extra=B.sst_records(strs, [8000])[0]), [dict(name='S', body=b''.join(B.r_labelsst(i, 0, 15, i) for i in range(40)))])
a, b = book('a'), book('b')
# a scheduler: when the first book is in the middle of its strings, another thread opens the second
import threading
hits = [0]
def line(frame, event, arg):
    if event == 'line' and frame.f_code.co_filename.endswith('book.py'):
        hits[0] += 1
        if hits[0] % 97 == 0:
            t = threading.Thread(target=lambda: op(b).sheet_by_index(0).cell_value(0, 0))
            t.start()
            t.join()
    return line
sys.settrace(lambda f, e, x: line)
try:
    try:
        bk = op(a)
        got = bk.sheet_by_index(0).col_values(0)
    except Exception as e:
        got = repr(e)
finally:
    sys.settrace(None)
eq(got, ['a%d' % i for i in range(40)], 'strings of a book while others are opened in threads')
''', 'two workbooks opened at the same time in two threads, both with shared strings', 'strings of one book appear in the other, or cannot be found')
