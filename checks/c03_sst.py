"""C03: shared strings vs CONTINUE splitting."""
from hypothesis import strategies as st

from xv import biff as B
from xv import strat as S
from xv.runner import Sub, import_repo

xlrd = import_repo()
PROPERTY = 'C03'


def string():
    runs = st.lists(st.tuples(st.integers(0, 60), st.integers(0, 4)), max_size=8)
    txt = st.one_of(S.texts(10), S.texts(40), S.long_texts(), st.just(''))
    return st.fixed_dictionaries(dict(
        s=txt, wide=st.booleans(),
        runs=st.one_of(st.just([]), runs), pho=st.one_of(st.just(b''), st.just(b''), st.binary(min_size=1, max_size=120)),
        rewide=st.lists(st.booleans(), max_size=4)))


def strategy():
    return st.fixed_dictionaries(dict(
        strings=st.lists(string(), min_size=1, max_size=12),
        splits=st.one_of(st.just([]), st.lists(st.integers(16, 90), min_size=1, max_size=8),
                         st.lists(st.integers(16, 300), min_size=1, max_size=4)),
        order=st.lists(st.integers(0, 30), max_size=10),
        extsst=st.booleans(),
        fmt=st.booleans()))


def check(case, ctx):
    with ctx.building():
        strs = case['strings']
        n = len(strs)
        sst, stats = B.sst_records(strs, case['splits'], total=n + 5)
        if case['extsst']:
            sst += B.rec(0xFF, b'\x08\x00' + b'\0' * 8)
        idx = list(range(n)) + [i % n for i in case['order']]
        body = b''.join(B.r_labelsst(i // 5, i % 5, 15, k) for i, k in enumerate(idx))
        data = B.assemble(80, B.globals8(), [dict(name='a', body=body)], glob_after=sst)
    for k, v in stats.items():
        if v:
            ctx.label('break:' + k)
    if any(s['runs'] for s in strs):
        ctx.label('rich')
    if any(s['pho'] for s in strs):
        ctx.label('phonetic')
    ctx.nt(sum(stats.values()) >= 1)
    bk = xlrd.open_workbook(file_contents=data, formatting_info=case['fmt'])
    sh = bk.sheet_by_index(0)
    want_runs = {}
    for i, k in enumerate(idx):
        pos = (i // 5, i % 5)
        ctx.eq(sh.cell_type(*pos), 1, 'type')
        ctx.eq(sh.cell_value(*pos), strs[k]['s'], 'string %d' % k)
        if strs[k]['runs']:
            want_runs[pos] = [tuple(r) for r in strs[k]['runs']]
    got = dict((k, [tuple(r) for r in v]) for k, v in sh.rich_text_runlist_map.items())
    ctx.eq(got, want_runs if case['fmt'] else {}, 'rich_text_runlist_map')


def big_strategy():
    """real 8224-byte limits: many / long strings"""
    item = st.tuples(st.integers(0, 9000), st.integers(0, 3), st.integers(0, 5), st.one_of([st.integers(0, 400)] * 7 + [st.sampled_from([8200, 65535, 65536, 70000])]))
    return st.lists(item, min_size=1, max_size=6)


def big_check(case, ctx):
    with ctx.building():
        strs = []
        for n, kind, runs, pho in case:
            ch = ['x', '\u00e9', '\u4e2d', '\U0001F600'][kind]
            s = (ch * (n // len(ch.encode('utf-16-le')) * 2 or 1))[:n]
            s = ''.join(chr(65 + i % 26) if i % 7 == 0 else c for i, c in enumerate(s))
            strs.append(dict(s=s, runs=[(i, i % 4) for i in range(runs)], pho=bytes(range(256)) * (pho // 256) + b'q' * (pho % 256)))
        sst, stats = B.sst_records(strs, [])
        body = b''.join(B.r_labelsst(i, 0, 15, i) for i in range(len(strs)))
        data = B.assemble(80, B.globals8(), [dict(name='a', body=body)], glob_after=sst)
    for k, v in stats.items():
        if v:
            ctx.label('break:' + k)
    ctx.nt(sum(stats.values()) >= 1)
    sh = xlrd.open_workbook(file_contents=data, formatting_info=True).sheet_by_index(0)
    for i, s in enumerate(strs):
        ctx.eq(sh.cell_value(i, 0), s['s'], 'string %d' % i)
        ctx.eq([tuple(r) for r in sh.rich_text_runlist_map.get((i, 0), [])], s['runs'], 'runs %d' % i)


SUBS = [Sub('splits', strategy, check, quick=9000, thorough=250000,
            rule='up to 12 strings (ASCII/Latin-1/BMP/astral, rich text, phonetic) split at generated record sizes, with '
                 'per-continuation compression changes; non-trivial = at least one CONTINUE break'),
        Sub('big', big_strategy, big_check, quick=400, thorough=8000,
            rule='strings up to 9000 chars at the real 8224-byte record limit; non-trivial = at least one CONTINUE break')]
