"""C20: defined-name formulas evaluate to the right constant or reference."""
from hypothesis import strategies as st

from xv import biff as B
from xv import expr as X
from xv import fmla as F
from xv.runner import Sub, import_repo, Violation

xlrd = import_repo()
PROPERTY = 'C20'
MAXLEN = 60000


class Sink:
    def write(self, s):
        pass


def make_book(v, types, exprs, noise=0, dims=(4, 3), scopes=None, names=None, flags=None, shnames=None, cells=None, addins=None):
    """-> (data, worksheet map).  exprs[i]: expression or raw bytes or None (empty formula)"""
    n = len(types)
    ws = {}
    for i, t in enumerate(types):
        if t == 0:
            ws[i] = len(ws)
    shn = shnames or ['S%d' % i for i in range(n)]
    names = names or ['Nm_%d' % i for i in range(len(exprs))]
    if v >= 80:
        sup = [('ext', F.supbook_ext('\x01other.xls', ['X', 'Y'])), ('self', F.supbook_self(n))]
        if noise & 1:
            sup.reverse()
        sup[[k for k, _ in sup].index('ext')] = ('ext', dict(sup)['ext'] + (F.externname8('outer') if noise & 2 else b''))
        if noise & 2 or addins:
            a = ('addin', F.supbook_addin() + b''.join(F.externname8(x) for x in addins or ()))
            sup.insert(noise % 3 if addins else 2, a)
        order = [k for k, _ in sup]
        em = X.Emit(v, order.index('self'), order.index('ext'))
        em.addidx = order.index('addin') if 'addin' in order else None
    else:
        kinds = [(1, b'other.xls'), (4, b''), (2, b'')][: 1 + (noise & 1) + 1]
        if noise & 2:
            kinds.insert(0, (0x43, b':\\other.xls'))
        em = X.Emit(v, 0, [k for k, _ in kinds].index(4) + 1)
    recs = b''
    for i, e in enumerate(exprs):
        toks = b'' if e is None else e if isinstance(e, bytes) else em.toks(e)
        sc = scopes[i] if scopes else None
        recs += F.r_name(v, names[i], toks, flags[i] if flags else 0, itab=0 if sc is None else sc + 1)
    toks = []
    for e, kind, base in cells or ():
        em.kind, em.base = kind, base
        toks.append(em.toks(e))
    if v >= 80:
        refs = em.refs or [(em.selfidx, 0, 0)]
        ext = b''.join(x for _, x in sup) + F.externsheet8(refs)
    else:
        ext = B.rec(0x16, B.P('<H', len(kinds))) + b''.join(F.externsheet5(*k) for k in kinds)
    sheets = []
    for i, t in enumerate(types):
        body = b''
        if t == 0:
            body = b''.join(B.r_number(r, c, 15, 100.0 * i + 10 * r + c) for r in range(dims[0]) for c in range(dims[1]))
        sheets.append(dict(name=shn[i] if v >= 80 else shn[i].encode('latin-1'), type=t, body=body))
    glob = B.globals8() if v >= 80 else B.globals5()
    data = B.assemble(v, glob, sheets, glob_after=ext + recs)
    return (data, ws, toks) if cells is not None else (data, ws)


def strategy(kind):
    def strat():
        return st.fixed_dictionaries(dict(
            v=st.sampled_from([80, 80, 80, 70, 50]), sheets=st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 6]), min_size=0, max_size=3).map(lambda l: [0] + l),
            rot=st.integers(0, 3), nnames=st.integers(0, 4), noise=st.integers(0, 3), kind=st.just(kind), macro=st.integers(0, 40),
            data=st.binary(min_size=80, max_size=240)))
    return strat


def build(case):
    v = case['v']
    types = case['sheets'][case['rot']:] + case['sheets'][:case['rot']]
    ws = [i for i, t in enumerate(types) if t == 0]
    nn = case['nnames'] + 1
    g = X.Gen(case['data'], v, len(types), nn, mode='name', worksheets=ws, two_d=True)
    exprs = []
    for k in range(nn):
        if k and g.b(16) == 15:
            exprs.append(None)
            continue
        if case['kind'] == 'refs':
            e = g.refexpr(4)
        elif case['kind'] == 'consts':
            e = g.typed('nsb'[g.b(3)], 1 + g.b(5))
        else:
            e = g.top(4)
        exprs.append(e)
    exprs = [('int', 1) if e is not None and len(X.Emit(v, 0, 1).toks(e)) > MAXLEN else e for e in exprs]
    return v, types, exprs


def same(got, want):
    if type(got) is float and type(want) is float:
        return got == want and (got != 0 or str(got) == str(want)) or got == want == 0
    return got == want


def got_value(r):
    if r.value is None:
        return None
    if r.kind in (-1, -2):
        return [tuple(x.coords) + tuple(x.relflags) for x in r.value]
    return r.value


def expected(v, types, exprs, wsmap, macro):
    """reference results of all names"""
    n = len(types)

    def resolve(s):
        if s[0] != 's':
            return None
        a, b = wsmap.get(s[1]), wsmap.get(s[2])
        if a is None or b is None:
            return None
        return a, b + 1
    memo, stack, tainted, depth = {}, [], set(), {}

    def name(k):
        if k in memo:
            return memo[k]
        if k in stack:
            tainted.update(stack)
            return X.ANY
        stack.append(k)
        e = exprs[k]
        depth[k] = 0
        bad = k in macro
        if e is None:
            o = X.NONE
        else:
            o = ev.ev(e)
            for x in X.walk(e):
                if x[0] in ('ref', 'area') and x[1] is not None and resolve(x[1]) is None:
                    bad = True
                if x[0] in ('name', 'namex'):
                    depth[k] = max(depth[k], depth.get(x[1], 0) + 1)
                    name(x[1])
                    if x[1] in tainted or x[1] in badset or x[1] in macro:
                        bad = True
                    if x[1] in stack:
                        bad = True
        stack.pop()
        if bad:
            badset.add(k)
            if o.tag == 'val':
                o = X.Out('val', o.kind, o.value, True)
        if k in tainted and o.tag == 'val':
            o = X.ANY
        memo[k] = o
        return o
    badset = set()

    class EV(X.Eval):
        pass

    def refname(k):
        o = name(k)
        if k in macro:           # not a formula of ours: whoever refers to it has no value
            return X.NONE
        if k in badset and o.tag == 'val':
            return X.Out('val', o.kind, o.value, True)
        if k in badset and o.tag == 'none':
            return X.NONE
        return o
    ev = EV(resolve, refname)
    outs = [name(k) for k in range(len(exprs))]
    return outs, badset


def check(case, ctx):
    with ctx.building():
        v, types, exprs = build(case)
        macro = {0} if case['macro'] == 0 and len(exprs) > 1 else set()
        flags = [(0x1000, 0x0008)[case['nnames'] & 1] if k in macro else 0 for k in range(len(exprs))]
        data, ws = make_book(v, types, exprs, case['noise'], flags=flags)
        outs, bad = expected(v, types, exprs, ws, macro)
    ctx.label('v%d' % v)
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    ctx.eq(len(bk.name_obj_list), len(exprs), 'number of names')
    for k, (nm, o) in enumerate(zip(bk.name_obj_list, outs)):
        if k in macro:
            continue
        what = 'v%d name %d %r' % (v, k, exprs[k])
        judge(ctx, bk, nm, o, what)


def judge(ctx, bk, nm, o, what):
    r = nm.result
    if o.tag == 'val':
        size = 'opt' if o.opt else 'kind%d' % o.kind
        ctx.label(size)
        ctx.nt(not o.opt)
    else:
        ctx.label(o.tag)
    if o is X.NONLOCAL and r is not None and r.kind in (-1, -2) and r.value is not None:
        ctx.true(all(x.shtxlo < 0 for x in r.value), '%s: %r refers to a worksheet' % (what, r))
        ctx.label('nonlocal')
    if o.tag == 'none':
        ctx.true(r is None or r.value is None or r.kind == 4, '%s: value %r where none can be given' % (what, r))
    elif o.tag == 'val':
        if r is None or (r.value is None and not (o.kind == 4)):
            ctx.true(o.opt, '%s: no value (%r), expected %r' % (what, r, o))
        else:
            ctx.true(r.kind == o.kind, '%s: %r, expected %r' % (what, r, o))
            got = got_value(r)
            ctx.true(same(got, o.value), '%s: value %r, expected %r' % (what, got, o.value))
    consistent(ctx, bk, nm, what)


def consistent(ctx, bk, nm, what):
    """cell() and area2d() agree with result"""
    r = nm.result
    one = None
    if r is not None and r.kind == -1 and r.value is not None and len(r.value) == 1:
        c = r.value[0].coords
        if 0 <= c[0] == c[1] - 1:
            one = c
    try:
        a = nm.area2d(clipped=False)
    except xlrd.XLRDError:
        ctx.true(one is None, '%s: area2d refused' % what)
        try:
            nm.area2d()
        except xlrd.XLRDError:
            pass
        else:
            raise Violation('%s: area2d() accepted, area2d(clipped=False) refused' % what)
    else:
        ctx.true(one is not None, '%s: area2d accepted' % what)
        ctx.true(a[0] is bk.sheet_by_index(one[0]) and tuple(a[1:]) == tuple(one[2:]), '%s: area2d %r' % (what, a))
        sh = a[0]
        b = nm.area2d()
        ctx.true(b[0] is sh, '%s: area2d sheet' % what)
        rlo, rhi, clo, chi = b[1:]
        ctx.true(0 <= rlo <= rhi <= sh.nrows and 0 <= clo <= chi <= sh.ncols, '%s: area2d bounds %r' % (what, b))
        ctx.eq((list(range(rlo, rhi)), list(range(clo, chi))),
               ([x for x in range(sh.nrows) if one[2] <= x < one[3]], [x for x in range(sh.ncols) if one[4] <= x < one[5]]), '%s: clipped area' % what)
        ctx.label('area2d')
    single = one is not None and one[3] - one[2] == 1 and one[5] - one[4] == 1
    try:
        c = nm.cell()
    except xlrd.XLRDError:
        ctx.true(not single, '%s: cell() refused' % what)
    except IndexError:
        ctx.true(single and (one[2] >= bk.sheet_by_index(one[0]).nrows or one[4] >= bk.sheet_by_index(one[0]).ncols), '%s: cell(): IndexError' % what)
    else:
        ctx.true(single, '%s: cell() accepted' % what)
        w = bk.sheet_by_index(one[0]).cell(one[2], one[4])
        ctx.true((c.ctype, c.value) == (w.ctype, w.value), '%s: cell() %r' % (what, c))
        ctx.label('cell')


# ---- formulas that cannot be evaluated never prevent opening the workbook
def hostile_strategy():
    return st.fixed_dictionaries(dict(
        v=st.sampled_from([80, 80, 70, 50]), raw=st.lists(st.one_of(st.binary(max_size=40), st.integers(0, 9)), min_size=1, max_size=4),
        data=st.binary(min_size=40, max_size=120), mut=st.lists(st.tuples(st.integers(0, 400), st.integers(0, 255)), max_size=3), pick=st.integers(0, 5),
        depth=st.integers(0, 30), verbosity=st.integers(0, 2)))


def hostile_check(case, ctx):
    with ctx.building():
        v = case['v']
        exprs = []
        n = len(case['raw']) + 1
        g = X.Gen(case['data'], v, 2, n, mode='name', worksheets=[0, 1])
        for x in case['raw']:
            if isinstance(x, bytes):
                exprs.append(x)
                continue
            if x == 0:          # chain / cycle of names
                base = len(exprs)
                d = case['depth'] + 1
                for i in range(d):
                    exprs.append(F.t_name(v, 'R', base + i + 2))
                exprs.append(F.t_name(v, 'R', base + 1) if case['pick'] % 2 else F.t_int(3))
            elif x == 1:
                exprs.append(F.t_name(v, 'R', 60000))
            elif x == 2:
                exprs.append(b'\x01\0\0\0\0')
            elif x == 3:
                exprs.append(b'\x60' + b'\0' * 7)
            elif x == 4:
                exprs.append(F.t_int(1) + F.t_int(2))
            elif x == 5:
                exprs.append(F.t_func('V', 4000) + b'\x03')
            elif x == 6:
                exprs.append(F.t_funcvar('V', 255, 2))
            elif x == 7:
                exprs.append(b'\x26' + b'\0' * 6 + b'\x1e\x01')
            else:
                t = bytearray(X.Emit(v, 0, 1).toks(g.top(4))[:MAXLEN])
                for p, b in case['mut']:
                    if t:
                        t[p % len(t)] = b
                exprs.append(bytes(t))
        good = len(exprs)
        exprs.append(('bin', '+', ('int', 40), ('int', 2)))
        exprs.append(('name', good))
        data, ws = make_book(v, [0, 0], exprs, case['pick'])
    ctx.nt()
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink(), verbosity=case['verbosity'])
    ctx.eq(len(bk.name_obj_list), len(exprs), 'number of names')
    for i in (0, 1):
        ctx.eq(bk.sheet_by_index(i).cell_value(2, 1), 100.0 * i + 21, 'cells')
    for k in (good, good + 1):
        r = bk.name_obj_list[k].result
        ctx.true(r is not None and r.kind == 2 and r.value == 42.0, 'evaluable name %d: %r' % (k, r))
    for k in range(good):
        nm = bk.name_obj_list[k]
        if nm.result is None or nm.result.value is None:
            ctx.label('noval')
            for f in (nm.cell, nm.area2d):
                try:
                    f()
                except xlrd.XLRDError:
                    pass
                else:
                    raise Violation('name without a value: %s() succeeded' % f.__name__)
        else:
            ctx.label('val')


# ---- single references at and around every coordinate boundary
def coord_strategy():
    def mk(v):
        h = 32768 if v >= 80 else 8192
        ab = st.one_of(st.integers(0, 2 * h - 1), st.sampled_from([0, 1, h - 1, h, 2 * h - 2, 2 * h - 1, 255, 256]))
        rel = st.one_of(st.integers(-h, h - 1), st.sampled_from([-h, -h + 1, -1, 0, 1, h - 2, h - 1, -256]))
        abc = st.one_of(st.integers(0, 255), st.sampled_from([0, 127, 128, 254, 255]))
        relc = st.one_of(st.integers(-128, 127), st.sampled_from([-128, -127, -1, 0, 1, 126, 127]))

        def row(f):
            return rel if f else ab

        def col(f):
            return relc if f else abc

        def one(f):
            return st.tuples(row(f[0]), col(f[2]), row(f[1]), col(f[3]), st.just(f), st.booleans(), st.sampled_from([None, 0, 1, 2, 3]))
        flags = st.one_of(st.just((0, 0, 0, 0)), st.tuples(*[st.integers(0, 1)] * 4))
        return st.fixed_dictionaries(dict(v=st.just(v), refs=st.lists(flags.flatmap(one), min_size=1, max_size=6)))
    return st.sampled_from([80, 80, 70, 50]).flatmap(mk)


def coord_check(case, ctx):
    with ctx.building():
        v = case['v']
        exprs = []
        for r1, c1, r2, c2, f, area, sh in case['refs']:
            s = None if sh is None else ('s', sh % 2, max(sh % 2, sh // 2))
            if area:
                if f[0] == f[1] and r1 > r2:
                    r1, r2 = r2, r1
                if f[2] == f[3] and c1 > c2:
                    c1, c2 = c2, c1
                exprs.append(('area', s, 'R', r1, c1, r2, c2, tuple(f)))
            else:
                exprs.append(('ref', s, 'R', r1, c1, f[0], f[2]))
        data, ws = make_book(v, [0, 0], exprs)
        outs, bad = expected(v, [0, 0], exprs, ws, set())
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    for k, (nm, o) in enumerate(zip(bk.name_obj_list, outs)):
        judge(ctx, bk, nm, o, 'v%d name %d %r' % (v, k, exprs[k]))


# ---- EXTERNSHEET tables too long for one record
def extern_strategy():
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(1, 40), st.integers(1360, 1380), st.integers(2730, 2750), st.integers(1371, 6000)), limit=st.sampled_from([8224, 8224, 8224, 8000, 1000, 50]),
        seed=st.integers(0, 2 ** 32 - 1), sup=st.integers(0, 3), urls=st.integers(0, 900), wide=st.booleans(), suplimit=st.one_of(st.integers(50, 8224), st.just(8224)), types=st.lists(st.sampled_from([0, 0, 0, 2, 6]), max_size=4),
        picks=st.lists(st.integers(0, 2 ** 20), max_size=8), pos=st.tuples(st.integers(0, 65535), st.integers(0, 255)), verbosity=st.sampled_from([0, 0, 1])))


def extern_check(case, ctx):
    with ctx.building():
        rnd = __import__('random').Random(case['seed'])
        n = case['n']
        types = [0] + case['types']
        ns = len(types)
        ws, wsmap = [i for i, t in enumerate(types) if t == 0], {}
        for i in ws:
            wsmap[i] = len(wsmap)
        sup = [('ext', F.supbook_ext('\x01o%d.xls' % case['urls'], ['Sheet%d' % i for i in range(case['urls'])], case['wide'], case['suplimit'])), ('self', F.supbook_self(ns)), ('addin', F.supbook_addin()), ('two', F.supbook_ext('b', ['x']))]
        rnd.shuffle(sup)
        keep = set(rnd.sample(['ext', 'addin', 'two'], case['sup']))
        sup = [s for s in sup if s[0] == 'self' or s[0] in keep]
        order = [k for k, _ in sup]
        refs = []
        for i in range(n):
            k = order[rnd.randrange(len(order))] if rnd.random() < .4 else 'self'
            if k == 'self':
                a, b = sorted((rnd.randrange(ns), rnd.randrange(ns)))
                refs.append((order.index('self'), a, b) if rnd.random() < .9 else (order.index('self'), 0xFFFF, 0xFFFF))
            elif k == 'addin':
                refs.append((order.index(k), 0xFFFE, 0xFFFE))
            else:
                refs.append((order.index(k), 0, rnd.randrange(2)))
        per = max(1, (case['limit'] - 2) // 6)
        idx = sorted(set([0, n - 1] + [x % n for x in case['picks']] + [x % n for x in (per - 1, per, per + 1, 2 * per - 1, 2 * per)]))
        r, c = case['pos']
        toks = [F.t_ref3d(80, 'R', i, r, c) for i in idx]
        recs = b''.join(F.r_name(80, 'Nm_%d' % i, t) for i, t in zip(idx, toks))
        ext = b''.join(x for _, x in sup) + F.externsheet8(refs, case['limit'])
        data = B.assemble(80, B.globals8(), [dict(name='S%d' % i, type=t, body=b'') for i, t in enumerate(types)], glob_after=ext + recs)
    ctx.nt(2 + 6 * n > case['limit'])
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink(), verbosity=case['verbosity'])
    ctx.eq([x.name for x in bk.name_obj_list], ['Nm_%d' % i for i in idx], 'names')
    for i, nm in zip(idx, bk.name_obj_list):
        what = 'reference through EXTERNSHEET entry %d of %d %r' % (i, n, refs[i])
        k, a, b = refs[i]
        r_ = nm.result
        if order[k] == 'self' and a != 0xFFFF and a in wsmap and b in wsmap:
            ctx.label('local')
            ctx.true(r_ is not None and r_.kind == -1 and r_.value is not None and len(r_.value) == 1, '%s: %r' % (what, r_))
            ctx.eq(tuple(r_.value[0].coords), (wsmap[a], wsmap[b] + 1, r, r + 1, c, c + 1), what)
        else:
            ctx.label('other')
            ctx.true(r_ is None or r_.value is None or r_.kind == -1 and (order[k] == 'self' or all(x.shtxlo < 0 for x in r_.value)), '%s: %r' % (what, r_))
            try:
                nm.area2d()
            except xlrd.XLRDError:
                pass
            else:
                ctx.true(order[k] == 'self' and a != 0xFFFF, '%s: area2d() succeeded' % what)


# ---- many: chains of names, long texts, many areas, many arguments
def scale_strategy():
    return st.fixed_dictionaries(dict(
        v=st.sampled_from([80, 80, 50]), what=st.sampled_from(['chain', 'chain', 'text', 'text', 'areas', 'areas', 'choose']), back=st.booleans(), n=st.integers(0, 1000), cut=st.sampled_from([-1, 0, 1, 2, 0, 0]),
        size=st.one_of(st.sampled_from([255, 256, 32766, 32767, 32768, 8191, 8192, 40000]), st.integers(1, 3000)), noise=st.integers(0, 3), rel=st.booleans()))


def scale_check(case, ctx):
    v, what, n = case['v'], case['what'], case['n']
    want = {}
    with ctx.building():
        if what == 'chain':
            d = n % 11                      # references from name to name
            if case['back']:
                exprs = [('num', 12.5)] + [('name', i) for i in range(d)]
            else:
                exprs = [('name', i + 1) for i in range(d)] + [('num', 12.5)]
            want = {i: (2, 12.5) for i in range(d + 1)}
            ctx.nt(d > 3)
        elif what == 'text':
            size = case['size']
            exprs, left, lens = [], size, []
            while left > 0:                 # chunks built by doubling
                k = 1
                while 2 * k * 100 <= left and k < 512:
                    k *= 2
                lens.append(min(left, k * 100))
                left -= lens[-1]
            # name i: a text of 100 * 2**i characters
            exprs = [('str', 'ab\u00e9' * 33 + 'c')] + [('bin', '&', ('name', i), ('name', i)) for i in range(9)]
            whole = ''
            e = None
            for m in lens:
                if m % 100 == 0:
                    piece, t = ('name', (m // 100).bit_length() - 1), ('ab\u00e9' * 33 + 'c') * (m // 100)
                else:
                    t = ('xy' * 60)[:m]
                    piece = ('str', t)
                whole += t
                e = piece if e is None else ('bin', '&', e, piece)
            exprs.append(e)
            want = {len(exprs) - 1: (1, whole if len(whole) <= 32767 else None)}
            ctx.nt(size > 255)
        elif what == 'areas':
            k = 1 + n % 12 if n % 7 else 13
            f = int(case['rel'])
            one = lambda i: ('ref', ('s', 0, 0), 'R', i % 100, i % 7, f, f)
            exprs = [one(0)]
            val = [one(0)]
            for i in range(k):              # each doubles and adds one
                exprs.append(('rop', 'union', ('rop', 'union', ('name', i), ('name', i)), one(i + 1)))
                val = val + val + [one(i + 1)]
                if len(val) > 8192:
                    want[i + 1] = None
                else:
                    want[i + 1] = (-2 if f else -1, [(0, 1, r[3], r[3] + 1, r[4], r[4] + 1) for r in val])
            ctx.nt(k > 3)
        else:
            m = 1 + n % 29
            i = 1 + n // 29 % (m + 1)
            exprs = [('fn', 100, (('num', i + (.75 if case['rel'] else 0.0)),) + tuple(('int', 100 + j) for j in range(m)))]
            want = {0: (2, 99.0 + i) if i <= m else None}
            ctx.nt(m > 10)
        ctx.label(what)
        data, ws = make_book(v, [0, 0], exprs, case['noise'])
    bk = xlrd.open_workbook(file_contents=data, logfile=Sink())
    for k, w in want.items():
        r = bk.name_obj_list[k].result
        msg = '%s: name %d of %d' % (what, k, len(exprs))
        if w is None or w[1] is None:
            ctx.true(r is None or r.value is None, '%s: a value where none can be given' % msg)
            continue
        ctx.true(r is not None and r.kind == w[0] and r.value is not None, '%s: %s' % (msg, repr(r)[:100]))
        got = [tuple(x.coords) for x in r.value] if r.kind in (-1, -2) else r.value
        ctx.true(got == w[1], '%s: wrong value %s' % (msg, repr(got)[:80]))


SUBS = [
    Sub('scale', scale_strategy, scale_check, quick=600, thorough=20000, rule='chains of up to ten names, texts up to the limit of 32767 characters, unions of up to 8192 areas, CHOOSE with up to 29 values; non-trivial = beyond small sizes'),
    Sub('coords', coord_strategy, coord_check, quick=1500, thorough=60000, rule='single 2D/3D cells and areas at and between the boundaries of every coordinate, all relative-flag combinations'),
    Sub('consts', strategy('consts'), check, quick=5000, thorough=200000, rule='constant expressions over all operators, IF and CHOOSE; non-trivial = a definite value is expected'),
    Sub('refs', strategy('refs'), check, quick=4000, thorough=150000, rule='reference expressions over 2D/3D sheets, relative flags, union/intersection/range; non-trivial = a definite reference is expected'),
    Sub('mixed', strategy('mixed'), check, quick=4000, thorough=150000, rule='mixed expressions over several names referring to one another'),
    Sub('extern', extern_strategy, extern_check, quick=500, thorough=20000, rule='EXTERNSHEET tables of up to 6000 entries split over CONTINUE records, several SUPBOOKs; non-trivial = the table needs a CONTINUE'),
    Sub('hostile', hostile_strategy, hostile_check, quick=3000, thorough=100000, rule='arbitrary bytes, mutated formulas, chains and cycles: the workbook opens and other names are evaluated'),
]
