"""C33: scripts/runxlrd.py reports what the library reads (differential: script output vs the library's answers)."""
import contextlib
import gc
import glob
import io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from xv import biff as B
from xv import rich
from xv.runner import Sub, import_repo, Violation, REPO

xlrd = import_repo()
PROPERTY = 'C33'
SCRIPT = os.path.join(REPO, 'scripts', 'runxlrd.py')
CMDS = ['show', 'show', 'show', '2rows', '3rows', 'ov', 'bench', 'hdr', 'names', 'name_dump', 'fonts', 'labels', 'labels', 'xfc', 'biff_count', 'biff_dump']


def small(cells):
    """a workbook whose sheets have few rows: cells are (row, column, kind, XF)"""
    g = B.globals8(formats=[(164, 'yyyy')], xfs=B.xf8(style=True) * 15 + B.xf8() + B.xf8(fmt=164))
    mk = dict(num=lambda r, c, x: B.r_number(r, c, x, 1.5), neg=lambda r, c, x: B.r_number(r, c, x, -1.0), zero=lambda r, c, x: B.r_number(r, c, x, 0.0), huge=lambda r, c, x: B.r_number(r, c, x, 1e9),
              date=lambda r, c, x: B.r_number(r, c, x, 40000.25), bool=lambda r, c, x: B.r_boolerr(r, c, x, 1, 0), err=lambda r, c, x: B.r_boolerr(r, c, x, 42, 1), odderr=lambda r, c, x: B.r_boolerr(r, c, x, (0x55, 1, 0x2B, 0xFF)[r % 4], 1), text=lambda r, c, x: B.r_label8(r, c, x, 'a\'"\\\n\u00e9'),
              blank=B.r_blank)
    return B.assemble(80, g, [dict(name='S%d' % i, body=b''.join(mk[k](r, c, x) for (r, c), (k, x) in sorted(dict((z[:2], z[2:]) for z in l).items()))) for i, l in enumerate(cells)])


small_book = st.lists(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3), st.sampled_from(['num', 'neg', 'zero', 'huge', 'date', 'bool', 'err', 'odderr', 'text', 'blank']), st.sampled_from([15, 16])), max_size=6), min_size=1, max_size=3)


def strategy():
    book = st.fixed_dictionaries(dict(blob=rich.blob(), damage=st.sampled_from(['', '', '', '', 'cut', 'junk', 'zip']), at=st.integers(0, 10 ** 6), small=st.one_of(st.none(), st.none(), small_book), name=st.sampled_from(['a.xls', 'b.xls', 'c d.xls', 'x1.bin', 'x2.bin'])))
    return st.fixed_dictionaries(dict(
        books=st.lists(book, min_size=1, max_size=3, unique_by=lambda b: b['name']), cmd=st.sampled_from(CMDS), fi=st.sampled_from([0, 1, 1]), ragged=st.booleans(), on_demand=st.booleans(),
        mmap=st.sampled_from([None, 0, 1, -1]), enc=st.sampled_from(['', '', 'cp1252', 'cp1251']), gc=st.sampled_from([0, 0, 0, 1]), one=st.sampled_from([None, None, 'index', 'name']), which=st.integers(0, 7), verbosity=st.sampled_from([None, 0, 1]),
        log=st.sampled_from([1, 1, 1, 1, 0]), timing=st.booleans(), un=st.booleans(), proc=st.integers(0, 15), pats=st.sampled_from(['each', 'star', 'twice', 'ext'])))


def tall_strategy():
    # sheets up to the last row of the format, nearly all of them empty
    row = st.one_of(st.sampled_from([0, 1, 9999, 10000, 10001, 10002, 20002, 65533, 65534, 65535]), st.integers(0, 65535))
    cells = st.lists(st.tuples(row, st.integers(0, 1), st.sampled_from(['num', 'date', 'text', 'odderr']), st.sampled_from([15, 16])), max_size=5)
    last = st.tuples(st.sampled_from([65535, 65535, 65534, 65533, 20002, 10002]), st.just(0), st.sampled_from(['num', 'text']), st.just(15))
    sheet = st.tuples(last, cells).map(lambda z: [z[0]] + [c for c in z[1] if c[0] <= z[0][0]])
    book = st.fixed_dictionaries(dict(blob=rich.blob(), damage=st.just(''), at=st.just(0), small=st.lists(sheet, min_size=1, max_size=1), name=st.just('a.xls')))
    d = dict(fi=st.integers(0, 1), ragged=st.sampled_from([True, True, True, False]), cmd=st.sampled_from(['show', 'show', 'bench', 'ov', '2rows', '3rows', 'xfc']), mmap=st.none(), enc=st.just(''), gc=st.just(0), one=st.none(), which=st.just(0),
             verbosity=st.none(), log=st.just(1), timing=st.just(False), un=st.just(False), proc=st.just(0), pats=st.just('each'), on_demand=st.booleans())
    return st.fixed_dictionaries(dict(d, books=st.lists(book, min_size=1, max_size=1)))


def run_script(args, cwd, process=False):
    """(stdout text, stderr text, exit code) of runxlrd.py with these arguments"""
    if process:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
        p = subprocess.run([sys.executable, '-X', 'utf8', SCRIPT] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return p.stdout.decode('utf-8', 'surrogatepass'), p.stderr.decode('utf-8', 'surrogatepass'), p.returncode
    out, err = io.StringIO(), io.StringIO()
    argv, old, olddir = sys.argv, gc.isenabled(), os.getcwd()
    code = 0
    try:
        sys.argv = [SCRIPT] + args
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(SCRIPT, run_name='__main__')
            except SystemExit as e:
                code = e.code
    finally:
        os.chdir(olddir)
        sys.argv = argv
        if old:
            gc.enable()
        # the script leaves its file object to the garbage collector
    return out.getvalue(), err.getvalue(), code


def cell_lines(bk, sh, rows):
    l = []
    for r in rows:
        n = sh.row_len(r)
        if not bk.ragged_rows:
            n = sh.ncols
        if not n:
            continue
        l.append('')
        for c in range(n):
            t, v = sh.cell_type(r, c), sh.cell_value(r, c)
            if t == xlrd.XL_CELL_DATE:
                try:
                    v = xlrd.xldate_as_tuple(v, bk.datemode)
                except xlrd.XLDateError as e:
                    v = '%s:%s' % (type(e).__name__, e)
                    t = xlrd.XL_CELL_ERROR
            elif t == xlrd.XL_CELL_ERROR:
                v = xlrd.error_text_from_code[v] if v in xlrd.error_text_from_code else '<Unknown error code 0x%02x>' % v
            s = 'cell %s%d: type=%d, data: %r' % (xlrd.colname(c), r + 1, t, v)
            if bk.formatting_info:
                s += ', xfx: %d' % sh.cell_xf_index(r, c)
            l.append(s)
    return l


def header(bk, case):
    l = ['', 'BIFF version: %s; datemode: %s' % (xlrd.biff_text_from_num[bk.biff_version], bk.datemode),
         'codepage: %r (encoding: %s); countries: %r' % (bk.codepage, bk.encoding, bk.countries),
         'Last saved by: %r' % bk.user_name, 'Number of data sheets: %d' % bk.nsheets,
         'Use mmap: %d; Formatting: %d; On demand: %d' % (bk.use_mmap, bk.formatting_info, bk.on_demand), 'Ragged rows: %d' % bk.ragged_rows]
    if bk.formatting_info:
        l.append('FORMATs: %d, FONTs: %d, XFs: %d' % (len(bk.format_list), len(bk.font_list), len(bk.xf_list)))
    if case['timing']:
        l.append('<T>')
    return l + ['']


def dump_text(f):
    s = io.StringIO()
    f(s)
    return s.getvalue().split('\n')[:-1]


def report(bk, case, one, labels, errs):
    """the lines of the report about one book"""
    cmd = case['cmd']
    l = []
    if cmd in ('show', '2rows', '3rows', 'ov', 'bench'):
        l += header(bk, case)
        for i in (range(bk.nsheets) if one is None else [one]):
            sh = bk.sheet_by_index(i)
            l.append('sheet %d: name = %s; nrows = %d; ncols = %d' % (i, ascii(sh.name), sh.nrows, sh.ncols))
            k = {'2rows': 2, '3rows': 3, 'ov': 0}.get(cmd, sh.nrows)
            k = min(k, sh.nrows)
            if k and sh.nrows and cmd != 'bench':
                rows = list(range(k - 1)) + [sh.nrows - 1]
                c = cell_lines(bk, sh, rows)
                l += c
                if c:
                    labels.add('cells')
            if cmd == 'bench':
                l += ['done %d rows' % (r - 1) for r in range(k - 1) if r % 10000 == 1 and r > 1]
            l.append('')
    elif cmd == 'hdr':
        l += header(bk, case)
    elif cmd == 'fonts':
        l += header(bk, case) + ['Fonts:']
        for i, f in enumerate(bk.font_list):
            # the dump of a font goes to standard error, which is where dump() writes by default
            errs += dump_text(lambda s: f.dump(s, header='== Index %d ==' % i, indent=4))
            labels.add('fonts')
    elif cmd in ('names', 'name_dump'):
        l += header(bk, case)
        if bk.biff_version < 50:
            l.append('Names not extracted in this BIFF version')
        else:
            l.append('Name list: %d entries' % len(bk.name_obj_list))
            for i, nm in enumerate(bk.name_obj_list):
                labels.add('name')
                if cmd == 'names':
                    l += ('[%d]\tName:%r macro:%r scope:%d\n\tresult:%r\n' % (i, nm.name, nm.macro, nm.scope, nm.result)).split('\n')
                else:
                    l += dump_text(lambda s: nm.dump(s, header='\n=== Dump of name_obj_list[%d] ===' % i))
    elif cmd == 'labels':
        for i in range(bk.nsheets):
            sh = bk.sheet_by_index(i)
            if not (sh.col_label_ranges or sh.row_label_ranges):
                continue
            if 'hdr' not in labels:
                labels.add('hdr')
                l += header(bk, case)
            labels.add('label ranges')
            l.append('sheet %d: name = %r; nrows = %d; ncols = %d' % (i, sh.name, sh.nrows, sh.ncols))
            for title, rs in (('Col', sh.col_label_ranges), ('Row', sh.row_label_ranges)):
                for rlo, rhi, clo, chi in rs:
                    l.append('%s label range %s:%s contains:' % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi - 1, chi - 1)))
                    for r in range(rlo, rhi):
                        for c in range(clo, chi):
                            try:
                                v = sh.cell_value(r, c)
                            except IndexError:
                                labels.add('outside')
                                continue
                            l.append('    %s: %r' % (xlrd.cellname(r, c), v))
        labels.discard('hdr')
    elif cmd == 'xfc':
        l += header(bk, case)
        for i in range(bk.nsheets):
            sh = bk.sheet_by_index(i)
            l.append('sheet %d: name = %r; nrows = %d; ncols = %d' % (i, sh.name, sh.nrows, sh.ncols))
            ts = [0] * 7
            for r in range(sh.nrows):
                for c in range(sh.row_len(r)):
                    ts[sh.cell_type(r, c)] += 1
            l += ['XF stats <%d>' % sum(ts), 'type stats %r' % ts, '']
            if sum(ts):
                labels.add('cells')
    return l


def tidy(text):
    """output lines with the parts that vary from run to run made uniform"""
    out = []
    for s in text.split('\n'):
        m = re.match(r'XF stats \[(\d+(?:, \d+)*)\]$', s)
        if re.match(r'(Open took|command took) \d+\.\d\d seconds$', s) or re.match(r'Load time: \d+\.\d\d seconds \(stage 1\) -?\d+\.\d\d seconds \(stage 2\)$', s):
            out.append('<T>')
        elif re.match(r'GC (before open: \d+|post cmd: .* -> \d+) unreachable objects$', s):
            continue
        elif m:
            out.append('XF stats <%d>' % sum(int(x) for x in m.group(1).split(', ')))
        else:
            out.append(re.sub(r' at 0x[0-9a-f]+>', ' at 0x>', s))
    return out


def check(case, ctx):
    d = tempfile.mkdtemp(prefix='xv33')
    try:
        run(case, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(case, ctx, d):
    cmd = case['cmd']
    with ctx.building():
        for b in case['books']:
            if b['small'] is not None:
                data = small(b['small'])
            else:
                data = rich.make(b['blob'], versions=(80,) if cmd == 'labels' else rich.ALL).bytes()
            if b['damage'] == 'cut':
                data = data[:b['at'] % min(len(data), 60)]
            elif b['damage'] == 'junk':
                data = b'not a workbook at all'[b['at'] % 20:]
            elif b['damage'] == 'zip':
                data = b'PK\x03\x04' + b'\0' * 30
            with open(os.path.join(d, b['name']), 'wb') as f:
                f.write(data)
        log = os.path.join(d, 'LOG')
        args = []
        if case['fi']:
            args += ['-f1']
        if case['ragged']:
            args += ['-r']
        if case['on_demand']:
            args += ['-d']
        if not case['timing']:
            args += ['-t']
        if case['enc']:
            args += ['-e', case['enc']]
        if case['mmap'] is not None:
            args += ['-m', str(case['mmap'])] if case['mmap'] >= 0 else ['--mmap=-1']
        if case['gc']:
            args += ['-g', str(case['gc'])]
        if case['verbosity'] is not None:
            args += ['--verbosity=%d' % case['verbosity']]
        names = [b['name'] for b in case['books']]
        pats = {'each': names, 'twice': names + names[:1], 'star': ['*.xls', 'x?.bin', 'none*'], 'ext': ['*.bin', names[0]]}[case['pats']]
    ctx.label(cmd, case['pats'])
    if cmd in ('biff_count', 'biff_dump'):
        ok = [n for b, n in zip(case['books'], names) if not b['damage']]
        if not ok:
            return
        fn = os.path.join(d, ok[0])
        if case['un']:
            args += ['-u']
        out, err, code = run_script(args + [cmd, fn], d, True)
        ctx.eq(code, 0, 'exit code of %s' % cmd)
        want = io.StringIO()
        if cmd == 'biff_dump':
            xlrd.dump(fn, outfile=want, unnumbered=case['un'])
        else:
            xlrd.count_records(fn, outfile=want)
        if out != want.getvalue():
            raise Violation('%s differs from the library function' % cmd)
        ctx.nt(len(out) > 50)
        return
    if case['log']:
        args += ['-l', log]
    elif case['verbosity']:
        return
    one = None
    if case['one'] and cmd in ('show', '2rows', '3rows', 'ov', 'bench'):
        # the option names a sheet of the one file that is shown
        good = [n for b, n in zip(case['books'], names) if not b['damage']]
        if len(good) == 1 and len(names) == 1:
            bk = xlrd.open_workbook(os.path.join(d, good[0]), on_demand=True, logfile=io.StringIO())
            one = case['which'] % bk.nsheets
            nm = bk.sheet_names()[one]
            bk.release_resources()
            if case['one'] == 'name' and not re.match(r'\s*[+-]?[0-9_]+\s*$', nm):
                args += ['-s', nm]
                one = bk.sheet_names().index(nm)
                ctx.label('sheet by name')
            else:
                args += ['-s', str(one)]
                ctx.label('sheet by index')
    labels = set()
    want, errs, nopen = [], [], 0
    here = os.getcwd()
    os.chdir(d)
    try:
        files = [f for p in pats for f in glob.glob(p)]
        for f in files:
            want += ['', '=== File: %s ===' % f]
            lf = io.StringIO()
            try:
                # the script passes its standard output, or the file of -l, as logfile
                kw = dict(formatting_info=case['fi'] | (cmd == 'xfc'), on_demand=case['on_demand'], ragged_rows=case['ragged'], encoding_override=case['enc'], logfile=lf)
                if case['mmap'] in (0, 1):
                    kw['use_mmap'] = case['mmap']
                bk = xlrd.open_workbook(f, **kw)
            except xlrd.XLRDError as e:
                want.append('*** Open failed: %s: %s' % (type(e).__name__, e))
                ctx.label('refused')
                if lf.getvalue() and not case['log']:
                    return
                continue
            except Exception as e:
                want += ['*** Open failed: %s: %s' % (type(e).__name__, e), '<traceback>']
                ctx.label('failed')
                if lf.getvalue() and not case['log']:
                    return
                continue
            nopen += 1
            if case['timing']:
                want.append('<T>')
            r = report(bk, case, one, labels, errs)
            bk.release_resources()
            if lf.getvalue() and not case['log']:
                ctx.label('warned')
                return
            want += r
            if case['timing']:
                want += ['', '<T>', '']
    finally:
        os.chdir(here)
    out, err, code = run_script(args + [cmd] + pats, d, case['proc'] == 1)
    ctx.eq(code, 0, 'exit code')
    got = tidy(out)
    if cmd == 'fonts':
        ctx.eq(err.split('\n'), errs + [''], 'dump of the fonts')
    want = [re.sub(r' at 0x[0-9a-f]+>', ' at 0x>', s) for x in want for s in x.split('\n')] + ['']
    i = j = 0
    while i < len(want):
        if want[i] == '<traceback>':
            ctx.true(j < len(got) and got[j].startswith('Traceback'), 'no traceback after the failed open')
            i += 1
            while j < len(got) and not (got[j] == '' and (j + 1 == len(got) or got[j + 1].startswith('=== File'))):
                j += 1
            continue
        if j >= len(got) or got[j] != want[i]:
            raise Violation('%s, line %d: printed %r instead of %r' % (' '.join(args + [cmd]), j + 1, got[j] if j < len(got) else None, want[i]))
        i += 1
        j += 1
    if j != len(got):
        raise Violation('%s: unexpected line %r' % (' '.join(args + [cmd]), got[j]))
    ctx.label(*labels)
    ctx.label('opened%d' % nopen)
    ctx.nt(nopen and (cmd in ('hdr', 'ov', 'bench') or labels & {'cells', 'name', 'fonts', 'label ranges'}))


SUBS = [
    Sub('commands', strategy, check, quick=1600, thorough=60000, rule='1-3 files x command x options; non-trivial = at least one file opened and something specific to the command printed'),
    Sub('tall', tall_strategy, check, quick=40, thorough=800, rule='one sheet reaching the last rows of the format; non-trivial = cells or rows were printed'),
]
