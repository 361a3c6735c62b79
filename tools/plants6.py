import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plantdefs.py')).read())

P('C34-sst', 'C34', [(S, "rowx, colx, xf_index, sstindex = local_unpack('<HHHi', data)", "rowx, colx, xf_index, sstindex = local_unpack('<HHHH', data[:8])")],
  '''
n = 65600
rec, _ = B.sst_records([dict(s='t%d' % i, wide=0) for i in range(n)], [])
sh = op(B.assemble(80, B.globals8(extra=rec), [dict(name='S', body=B.r_labelsst(0, 0, 15, n - 1) + B.r_labelsst(1, 0, 15, 65535) + B.r_labelsst(2, 0, 15, 65536))])).sheet_by_index(0)
eq(sh.col_values(0), ['t%d' % (n - 1), 't65535', 't65536'], 'strings after the 65536th')
''', 'a workbook with more than 65536 different strings', 'cells show another string')
P('C34-objid', 'C34', [(S, "o.type, o.id, option_flags = unpack('<HHH', data[pos+4:pos+10])", "o.type, o.id, option_flags = unpack('<HhH', data[pos+4:pos+10])")],
  '''
def note(oid, r):
    t = 'note %d' % oid
    o = B.rec(0x5D, B.P('<HHHHH', 0x15, 18, 0x19, oid, 0) + bytes(12) + B.P('<HH', 0, 0))
    x = B.rec(0x1B6, B.P('<HH6sHHH', 0, 0, bytes(6), len(t), 16, 0)) + B.rec(0x3C, b'\\0' + t.encode()) + B.rec(0x3C, B.P('<HHIHHI', 0, 0, 0, len(t), 0, 0))
    return o + x, B.rec(0x1C, B.P('<HHHH', r, 0, 0, oid) + B.ustr('me', 2))
l = [note(i, k) for k, i in enumerate((1, 32767, 32768, 65535))]
sh = one(b''.join(a for a, b in l) + b''.join(b for a, b in l), formatting_info=True)
eq(sorted((k, n.text) for k, n in sh.cell_note_map.items()), [((0, 0), 'note 1'), ((1, 0), 'note 32767'), ((2, 0), 'note 32768'), ((3, 0), 'note 65535')], 'notes')
''', 'notes whose drawing object number is 32768 or more', 'their texts are lost')
P('C20-cont', 'C20', [(BK, "            while len(data) < bytes_reqd:", "            for _ in range(2):\n                if len(data) >= bytes_reqd:\n                    break")],
  '''
from xv import fmla as F
n = 5000
recs = F.supbook_self(2) + F.externsheet8([(0, i % 2, i % 2) for i in range(n)]) + F.r_name(80, 'Nm', F.t_ref3d(80, 'R', n - 1, 4, 5))
bk = op(B.assemble(80, B.globals8(), [dict(name='S', body=b''), dict(name='T', body=b'')], glob_after=recs))
eq(tuple(bk.name_obj_list[0].result.value[0].coords), (1, 2, 4, 5, 5, 6), 'reference through the last EXTERNSHEET entry')
''', 'an EXTERNSHEET table that needs more than two CONTINUE records (over 4100 entries)', 'the workbook cannot be opened', mods=['fmla'])
P('C20-extif', 'C20', [(BK, "            while len(data) < bytes_reqd:", "            if len(data) < bytes_reqd:"), (BK, "                info = unpack(\"<HHH\", data[pos:pos+6])", "                info = unpack(\"<HHH\", data[pos:pos+6].ljust(6, b'\\xff'))")],
  '''
from xv import fmla as F
n = 4000
recs = F.supbook_self(2) + F.externsheet8([(0, i % 2, i % 2) for i in range(n)]) + F.r_name(80, 'Nm', F.t_ref3d(80, 'R', n - 1, 4, 5))
bk = op(B.assemble(80, B.globals8(), [dict(name='S', body=b''), dict(name='T', body=b'')], glob_after=recs))
r = bk.name_obj_list[0].result
eq(r.value and tuple(r.value[0].coords), (1, 2, 4, 5, 5, 6), 'reference through the last EXTERNSHEET entry')
''', 'an EXTERNSHEET table that needs more than one CONTINUE record', 'names that use the later entries have no value', mods=['fmla'])
P('C04-leaf', 'C04', [(CD, "        head = path[0]\n        tail = path[1:]\n", "        memo = self.__dict__.setdefault('_found', {})\n        if path[-1].lower() in memo:\n            return memo[path[-1].lower()]\n        head, tail = path[0], path[1:]\n"),
                      (CD, "                    return dl[child]\n", "                    return memo.setdefault(head.lower(), dl[child])\n")],
  '''
from xlrd.compdoc import CompDoc
d = ole.Doc([('Workbook', b'a' * 100), ('Sub/Workbook', b'b' * 200)])
c = CompDoc(d.bytes())
eq(c.get_named_stream('Workbook'), b'a' * 100, 'Workbook')
eq(c.get_named_stream('Sub/Workbook'), b'b' * 200, 'Sub/Workbook')
''', 'two streams of the same name in different storages, both read from one CompDoc', 'the second read returns the first stream')
P('C28-indent', 'C28', [('xlrd/biffh.py', "                    indent=indent+4)", "                    indent=4)")],
  '''
import io
bk = op(B.assemble(80, B.globals8(), [dict(name='S', body=B.r_number(0, 0, 15, 1.0))]), formatting_info=True)
f = io.StringIO()
bk.xf_list[0].dump(f, indent=8)
eq([l for l in f.getvalue().splitlines() if not l.startswith(' ' * 8)], [], 'entries indented less than the object')
''', 'an object with parts dumped at an indentation', 'the parts are not indented below the object')
P('C13-eq', 'C13', [('xlrd/formatting.py', "        return self.__dict__ == other.__dict__\n\n    def __ne__", "        return sorted(map(repr, self.__dict__.items())) == sorted(map(repr, other.__dict__.items()))[:len(self.__dict__)] or \\\n            self.__dict__ is not other.__dict__ and sorted(self.__dict__.values(), key=repr) == sorted(other.__dict__.values(), key=repr)\n\n    def __ne__")],
  '''
xf = lambda b1: B.xf8(bord1=b1)
bk = op(B.assemble(80, B.globals8(xfs=B.std_xfs(80, []) + xf(0x1) + xf(0x10)), [dict(name='S', body=B.r_number(0, 0, 16, 1.0))]), formatting_info=True)
a, b = bk.xf_list[16].border, bk.xf_list[17].border
eq((a.left_line_style, b.left_line_style), (1, 0), 'left lines')
eq(a == b, False, 'a left border is equal to a right border')
''', 'two borders with the same values in different places', 'they compare equal')
P('C14-normal', 'C14', [('xlrd/formatting.py', 'if data == b"\\0\\0\\0\\0" and "Normal" not in book.style_name_map:', 'if data == b"\\0\\0\\0\\0":')],
  '''
st = B.rec(0x293, B.P('<HBB', 0x8000 | 5, 0, 255)) + B.rec(0x293, bytes(4))
bk = op(B.assemble(80, B.globals8(extra=st), [dict(name='S', body=B.r_number(0, 0, 15, 1.0))]), formatting_info=True)
eq(bk.style_name_map['Normal'], (1, 5), 'the Normal style')
''', 'a workbook with a proper Normal style followed by an all-zero STYLE record', 'Normal is mapped to XF 0')
P('C21-extname', 'C21', [(BK, "            if self._supbook_types[-1] == SUPBOOK_ADDIN:", "            if self._supbook_types[-1] in (SUPBOOK_ADDIN, SUPBOOK_EXTERNAL):")],
  '''
from xv import fmla as F
ext = F.supbook_ext('\\x01o.xls', ['X']) + F.externname8('outer') + F.supbook_addin() + F.externname8('EDATE') + F.externname8('EOMONTH') + F.externsheet8([(1, 0xFFFE, 0xFFFE)])
bk = op(B.assemble(80, B.globals8(), [dict(name='S', body=b'')], glob_after=ext))
import xlrd.formula as FM
t = F.t_namex(80, 'R', 0, 1) + F.t_str(80, 'x') + F.t_funcvar('V', 255, 2)
eq(FM.decompile_formula(bk, t, len(t), FM.FMLA_TYPE_CELL, browx=0, bcolx=0), 'CALL_ADDIN("EDATE","x")', 'text of the formula')
''', 'a workbook that uses names of another workbook and add-in functions', 'formula texts name the wrong add-in function', mods=['fmla'])
