"""C21: formula text is rendered so that it means the same expression."""
from hypothesis import strategies as st

from checks.c20_nameval import make_book, Sink, MAXLEN
from xv import expr as X
from xv import fmla as F
from xv.ftab import FUNCS
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
import xlrd.formula as FM
PROPERTY = 'C21'

SHEETS = ['S%d', 'Sheet %d', "It's %d", 'A%d', '%dx', 'x-y%d', 'Été%d', 'R%dC1', 'a.b%d', "'q'%d", 'p(%d)', 'e+%d', 'x,y%d', 'Data_%d', '%d', 'C%d', '&%d', 'a!b%d', 'ΩЖ%d', '日本%d']
NAMES = ['Nm_%d', 'Total.%d', '_x%d', 'naïve%d', 'Long_Name_%d_x', 'été.%d']


def strategy(kind):
    def strat():
        return st.fixed_dictionaries(dict(
            v=st.sampled_from([80, 80, 80, 70, 50]), sheets=st.lists(st.sampled_from([0, 0, 0, 0, 2, 6]), min_size=0, max_size=3).map(lambda l: [0] + l),
            rot=st.integers(0, 3), nnames=st.integers(0, 3), noise=st.integers(0, 3), kind=st.just(kind),
            shn=st.tuples(*[st.integers(0, len(SHEETS) - 1)] * 4), names=st.tuples(*[st.integers(0, len(NAMES))] * 5), scopes=st.tuples(*[st.integers(-3, 3)] * 5),
            r1c1=st.booleans(), nadd=st.sampled_from([0, 0, 1, 3, len(X.ADDINS)]), base=st.tuples(st.sampled_from([0, 1, 5, 100, 8191, 16383, 40000, 65535]), st.sampled_from([0, 1, 5, 127, 128, 255])),
            data=st.binary(min_size=80, max_size=240)))
    return strat


def build(case):
    v, kind = case['v'], case['kind']
    types = case['sheets'][case['rot']:] + case['sheets'][:case['rot']]
    n = len(types)
    ws = [i for i, t in enumerate(types) if t == 0]
    shn = []
    for i in range(n):
        k = case['shn'][i]
        if v < 80:
            k %= 18
        shn.append(SHEETS[k] % i)
    cellk = kind in ('cell', 'shared')
    nn = case['nnames'] + (0 if cellk else 1)
    rows = 65536 if v >= 80 else 16384
    base = (case['base'][0] % rows, case['base'][1])
    g = X.Gen(case['data'], v, n, 0, mode='cell' if cellk else 'name', worksheets=ws, bad=False)
    adds = X.ADDINS[:case['nadd']] if v >= 80 and cellk else []
    g.nadd = len(adds)
    exprs, names, scopes, flags, shown = [], [], [], [], []
    for i in range(nn):
        k = case['names'][i]
        if k == len(NAMES):
            names.append(chr(i + 5))
            shown.append(F.BUILTIN[i + 5])
            flags.append(0x20)
        else:
            names.append(NAMES[k] % i)
            shown.append(names[-1])
            flags.append(0)
        sc = case['scopes'][i]
        sc = None if sc < 0 or v < 80 else ws[sc % len(ws)]
        scopes.append(sc)
        if cellk:
            exprs.append(('int', 1))
        else:
            g.nn = i
            e = g.top(5)
            exprs.append(e)
    cells = []
    if cellk:
        g.nn = nn
        if kind == 'shared':
            g.anysheet = lambda: None
        cells = [(fix(g.top(5), kind, base, v), kind, base) for _ in range(2)]
    em = X.Emit(v, 0, 1)
    exprs = [('int', 1) if len(em.toks(e)) > MAXLEN else e for e in exprs]
    cells = [(('int', 1), k, b) if len(em.toks(e)) > MAXLEN else (e, k, b) for e, k, b in cells]
    data, wsmap, toks = make_book(v, types, exprs, case['noise'], scopes=scopes, names=names, flags=flags, shnames=shn, cells=cells, addins=adds)
    names_of = lambda k: (None if scopes[k] is None else shn[scopes[k]], shown[k])
    return v, data, exprs, cells, toks, shn, wsmap, names_of, adds


def fix(e, kind, base, v):
    """shared formulas of BIFF5: keep relative rows within the 14-bit offset"""
    if kind != 'shared' or v >= 80:
        return e
    if isinstance(e, tuple):
        if e and e[0] == 'ref' and e[5] and not -8192 <= e[3] - base[0] < 8192:
            return e[:3] + (base[0],) + e[4:]
        if e and e[0] == 'area' and any(f and not -8192 <= r - base[0] < 8192 for f, r in ((e[7][0], e[3]), (e[7][1], e[5]))):
            return e[:7] + ((0, 0) + e[7][2:],)
        return tuple(fix(x, kind, base, v) for x in e)
    return e


def compare(ctx, text, e, sheetname, names_of, sheets, what, rc=False):
    want = X.canon(X.norm(e, sheetname, names_of))
    try:
        got = X.parse(text, sheets, rc)
    except X.BadText as exc:
        raise Violation('%s: text %r cannot be parsed: %s (expression %r)' % (what, text, exc, e))
    if got != want:
        raise Violation('%s: text %r means %r, tokens mean %r' % (what, text, got, want))


def interesting(e):
    ops = sum(1 for x in X.walk(e) if x[0] in ('bin', 'un', 'pct', 'rop', 'fn', 'sum1'))
    return ops


def check(case, ctx):
    with ctx.building():
        v, data, exprs, cells, toks, shn, wsmap, names_of, adds = build(case)
        sheets = set(shn)

        def sheetname(s):
            if s is None:
                return None
            return (shn[s[1]],) if s[1] == s[2] else (shn[s[1]], shn[s[2]])
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    ctx.label('v%d' % v)
    ctx.eq(list(bk.addin_func_names), adds, 'add-in function names')
    for k, (nm, e) in enumerate(zip(bk.name_obj_list, exprs)):
        if case['kind'] in ('cell', 'shared'):
            break
        r = nm.result
        ctx.true(r is not None, 'v%d name %d: no result for %r' % (v, k, e))
        n = interesting(e)
        ctx.label('ops%d' % min(n, 6))
        ctx.nt(n >= 1)
        compare(ctx, r.text, e, sheetname, names_of, sheets, 'v%d name %d' % (v, k), True)
    for (e, kind, base), t in zip(cells, toks):
        n = interesting(e)
        ctx.label('ops%d' % min(n, 6))
        ctx.nt(n >= 1)
        if any(x[0] == 'addin' for x in X.walk(e)):
            ctx.label('addin')
        ty = FM.FMLA_TYPE_CELL if kind == 'cell' else FM.FMLA_TYPE_SHARED
        text = FM.decompile_formula(bk, t, len(t), ty, browx=base[0], bcolx=base[1], r1c1=int(case['r1c1']))
        ctx.true(isinstance(text, str), 'v%d %s formula: text %r for %r' % (v, kind, text, e))
        w = offsets(e, base) if case['r1c1'] else e
        if case['r1c1'] and kind == 'shared':
            w = wrap(w, v)
        compare(ctx, text, w, sheetname, names_of, sheets, 'v%d %s formula at %r' % (v, kind, base), case['r1c1'])


def offsets(e, base):
    if isinstance(e, tuple):
        if e and e[0] == 'ref':
            return e[:3] + (e[3] - base[0] * e[5], e[4] - base[1] * e[6]) + e[5:]
        if e and e[0] == 'area':
            f = e[7]
            return e[:3] + (e[3] - base[0] * f[0], e[4] - base[1] * f[2], e[5] - base[0] * f[1], e[6] - base[1] * f[3], f)
        return tuple(offsets(x, base) for x in e)
    return e


def wrap(e, v):
    """relative offsets as stored: signed 16-bit (14-bit) rows and 8-bit columns"""
    m = 65536 if v >= 80 else 16384
    R = lambda r, f: (r + m // 2) % m - m // 2 if f else r
    C = lambda c, f: (c + 128) % 256 - 128 if f else c
    if isinstance(e, tuple):
        if e and e[0] == 'ref':
            return e[:3] + (R(e[3], e[5]), C(e[4], e[6])) + e[5:]
        if e and e[0] == 'area':
            f = e[7]
            return e[:3] + (R(e[3], f[0]), C(e[4], f[2]), R(e[5], f[1]), C(e[6], f[3]), f)
        return tuple(wrap(x, v) for x in e)
    return e


# ---- every function of the table, with every allowed number of arguments
def func_strategy():
    return st.fixed_dictionaries(dict(v=st.sampled_from([80, 50]), f=st.sampled_from(sorted(FUNCS)), n=st.integers(0, 30), miss=st.integers(0, 3), cls=st.sampled_from('RVA'), where=st.booleans()))


def func_check(case, ctx):
    with ctx.building():
        v, f = case['v'], case['f']
        name, lo, hi = FUNCS[f]
        n = lo + case['n'] % (hi - lo + 1)
        args = [('miss',) if case['miss'] == 3 and i % 3 == 1 else ('int', i) for i in range(n)]
        e = ('bin', '+', ('int', 1), ('fn', f, tuple(args)))
        data, ws, toks = make_book(v, [0], [e], cells=[(e, 'cell', (3, 3))])
    ctx.nt(n > 0)
    ctx.label(name)
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    r = bk.name_obj_list[0].result
    ctx.true(r is not None, 'no result for %s' % name)
    compare(ctx, r.text, e, None, None, set(), 'function in a name')
    text = FM.decompile_formula(bk, toks[0], len(toks[0]), FM.FMLA_TYPE_CELL, browx=3, bcolx=3)
    compare(ctx, text, e, None, None, set(), 'function in a cell formula')


SUBS = [
    Sub('names', strategy('name'), check, quick=5000, thorough=200000, rule='names: text parsed with Excel precedence equals the token tree; non-trivial = at least one operator or function'),
    Sub('cells', strategy('cell'), check, quick=4000, thorough=150000, rule='cell formulas (A1 and R1C1) with 2D and 3D references'),
    Sub('shared', strategy('shared'), check, quick=2000, thorough=80000, rule='shared formulas (tRefN/tAreaN offsets)'),
    Sub('functions', func_strategy, func_check, quick=1500, thorough=20000, rule='every function of the table x argument counts'),
]
