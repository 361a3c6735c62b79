"""C19: defined names are listed with the right text, scope and flags."""
from hypothesis import strategies as st

from xv import biff as B
from xv import fmla as F
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C19'


def strategy():
    def mk(v):
        nm8 = st.one_of(S.texts(12, 1), S.texts(12, 1), st.sampled_from(['Foo', 'foo', 'FOO', 'Bar', 'bar', '_x', 'Straße', 'ÉTÉ', 'été', 'x' * 255]))
        nm5 = st.one_of(st.text(S.ASCII, min_size=1, max_size=12), st.text(st.characters(min_codepoint=0xA0, max_codepoint=0xFF), min_size=1, max_size=5),
                        st.sampled_from(['Foo', 'foo', 'FOO', 'Bar', 'bar', '\xc9T\xc9', '\xe9t\xe9', 'x' * 255]))
        name = st.fixed_dictionaries(dict(
            name=nm8 if v >= 80 else nm5, builtin=st.integers(-20, 13), flags=st.one_of(st.just(0), st.just(0), st.integers(0, 0x1FFF), st.integers(0, 0xFFFF)), key=st.integers(0, 255),
            scope=st.integers(-4, 7), other=st.integers(0, 0xFFFF), fmla=st.integers(0, 6), wide=st.booleans(), menu=st.booleans(), k=st.integers(0, 1000)))
        sheet = st.sampled_from([0, 0, 0, 0, 1, 2, 6])
        return st.fixed_dictionaries(dict(
            v=st.just(v), names=st.lists(name, max_size=10), sheets=st.lists(sheet, min_size=1, max_size=6), shname=S.texts(5).map(lambda s: s.replace('\0', '')),
            perm=st.randoms(use_true_random=False).map(lambda r: [r.random() for _ in range(12)]), noise=st.lists(st.integers(0, 2), max_size=3), early=st.booleans(), deco=st.integers(0, 9),
            cp=st.sampled_from([0, 437, 866, 10007, 1256]), on_demand=st.booleans(), fi=st.booleans()))
    return st.sampled_from([80, 80, 80, 70, 50]).flatmap(mk)


CODECS = {0: 'latin-1', 437: 'cp437', 866: 'cp866', 10007: 'mac_cyrillic', 1256: 'cp1256'}


def build(case):
    v = case['v']
    cp = case['cp'] if v < 80 else 0

    def dec(s):         # what the bytes s.encode('latin-1') mean in the code page
        return s.encode('latin-1').decode(CODECS[cp]) if cp else s
    types = list(case['sheets'])
    if 0 not in types:
        types.append(0)
    n = len(types)
    if v >= 80:
        shn = [case['shname'] + str(i) for i in range(n)]
    else:
        shn = [('S%d', ' S%d', 'S%d ', 's%d', 'S %d')[(case['deco'] + i) % 5] % (i // 2) if case['deco'] < 5 else 'S%d' % i for i in range(n)]
        if case['deco'] >= 8:
            shn = ['\xc9\xe0' + s for s in shn]
        if len(set(x.lower() for x in shn)) < n:
            shn = [s + str(i) + s[-1:].replace(str(i), '') for i, s in enumerate(shn)]
    worksheet = {}
    for i, t in enumerate(types):
        if t == 0:
            worksheet[i] = len(worksheet)
    ext = b''
    ext5 = {}
    if v >= 80:
        ext = F.supbook_self(n) + F.externsheet8([(0, i, i) for i in range(n)])
    else:
        entries = [(3, i) for i in range(n)] + [((1, 2, 4)[x], None) for x in case['noise']]
        entries = [e for _, _, e in sorted((case['perm'][k % 12], k, e) for k, e in enumerate(entries))]
        for k, (ty, i) in enumerate(entries):
            ext += F.externsheet5(ty, shn[i].encode('latin-1') if ty == 3 else b'other.xls')
            if ty == 3:
                ext5[i] = k + 1
        ext = B.rec(0x16, B.P('<H', len(entries))) + ext
    recs, exp = b'', []
    for k, q in enumerate(case['names']):
        name = q['name']
        flags = q['flags'] & ~0x20
        shown = dec(name)
        if q['builtin'] >= 0:
            flags |= 0x20
            name = chr(q['builtin'])
            shown = F.BUILTIN[q['builtin']]
        e = q['scope']
        if v >= 80:
            if e <= 0 and e > -4:
                itab, scope = 0, -1
            elif e == -4:
                itab, scope = n + 1 + q['other'] % 100, -3
            else:
                i = (e - 1) % n
                itab, scope = i + 1, worksheet.get(i, -2)
            extx = q['other']
        else:
            if e <= 0:
                extx, scope = 0, -1
            else:
                i = (e - 1) % n
                extx, scope = ext5[i], worksheet.get(i, -2)
            itab = q['other']
        w0 = min(worksheet)
        sheetref = w0 if v >= 80 else (-1, w0, w0)
        f = q['fmla']
        if f == 0:
            toks = b''
        elif f == 1:
            toks = F.t_int(q['k'])
        elif f == 2:
            toks = F.t_str(v, 'str%d' % q['k'])
        elif f == 3:
            toks = F.t_ref3d(v, 'R', sheetref, q['k'], q['k'] % 256)
        elif f == 4:
            toks = F.t_area3d(v, 'R', sheetref, q['k'], 1, q['k'] + 3, 2)
        elif f == 5:
            toks = F.t_bool(q['k'] & 1)
        else:
            toks = F.t_num(q['k'] / 8.0)
        extra, menu = b'', (0, 0, 0, 0)
        if q['menu']:
            menu = (2, 0, 3, 1)
            extra = b'm1' + b'hlp' + b's'
        recs += F.r_name(v, name, toks, flags, extx, itab, q['key'], (q['wide'] or None) if v >= 80 else None, extra, menu)
        exp.append(dict(name=shown, scope=scope, option_flags=flags, hidden=flags & 1, func=flags >> 1 & 1, vbasic=flags >> 2 & 1, macro=flags >> 3 & 1,
                        complex=flags >> 4 & 1, builtin=flags >> 5 & 1, funcgroup=flags >> 6 & 0x3F, binary=flags >> 12 & 1, name_index=k,
                        raw_formula=toks + extra, basic_formula_len=len(toks), _f=f, _k=q['k'], _s=worksheet[w0]))
    sheets = [dict(name=s if v >= 80 else s.encode('latin-1'), type=t, body=B.r_number(0, 0, 15, float(i))) for i, (s, t) in enumerate(zip(shn, types))]
    glob = B.globals8() if v >= 80 else B.globals5(cp=cp or 1252)
    if v < 80 and case['early']:
        data = B.assemble(v, glob + ext + recs, sheets)
    else:
        data = B.assemble(v, glob, sheets, glob_after=ext + recs)
    return data, exp


class Sink:
    def write(self, s):
        pass


def check(case, ctx):
    with ctx.building():
        data, exp = build(case)
    scopes = set(e['scope'] for e in exp)
    ctx.label('v%d' % case['v'], *['scope%d' % min(s, 0) for s in scopes])
    ctx.nt(len(exp) > 1 and len(scopes) > 1)
    bk = xlrd.open_workbook(file_contents=data, on_demand=case['on_demand'], formatting_info=case['fi'], logfile=Sink())
    ctx.eq(len(bk.name_obj_list), len(exp), 'number of names')
    for i, (nm, e) in enumerate(zip(bk.name_obj_list, exp)):
        for a, w in e.items():
            if a[0] != '_':
                ctx.eq(getattr(nm, a), w, 'name %d: %s' % (i, a))
        ctx.true(nm.book is bk, 'name %d: book' % i)
        if e['macro'] or e['binary']:
            ctx.true(nm.result is None, 'name %d: macro or binary name with a result' % i)
            continue
        f, k = e['_f'], e['_k']
        r = nm.result
        kind = {0: 0, 1: 2, 2: 1, 3: -1, 4: -1, 5: 3, 6: 2}[f]
        ctx.true(r is not None and r.kind == kind, 'name %d: result %r' % (i, r))
        s = e['_s']
        want = {0: None, 1: float(k), 2: 'str%d' % k, 3: [(s, s + 1, k, k + 1, k % 256, k % 256 + 1)], 4: [(s, s + 1, k, k + 4, 1, 3)], 5: k & 1, 6: k / 8.0}[f]
        got = [x.coords for x in r.value] if f in (3, 4) else r.value
        ctx.eq(got, want, 'name %d: value' % i)
    nsm, nm = {}, {}
    for i, e in enumerate(exp):
        nsm[e['name'].lower(), e['scope']] = i
        nm.setdefault(e['name'].lower(), []).append((e['scope'], i))
    ctx.eq({k: o.name_index for k, o in bk.name_and_scope_map.items()}, nsm, 'name_and_scope_map')
    ctx.eq({k: [o.name_index for o in l] for k, l in bk.name_map.items()}, {k: [i for _, i in sorted(l)] for k, l in nm.items()}, 'name_map')
    for k, o in bk.name_and_scope_map.items():
        ctx.true(o is bk.name_obj_list[o.name_index], 'name_and_scope_map object')
    for l in bk.name_map.values():
        for o in l:
            ctx.true(o is bk.name_obj_list[o.name_index], 'name_map object')


SUBS = [Sub('names', strategy, check, quick=4000, thorough=120000,
            rule='NAME tables x sheet tables with macro, chart and VB sheets; non-trivial = several names in different scopes')]
