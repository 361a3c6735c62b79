"""C09: Excel serials <-> calendar values."""
import datetime
import math
from fractions import Fraction

from hypothesis import strategies as st

from xv.runner import Sub, import_repo

xlrd = import_repo()
from xlrd import xldate as X
PROPERTY = 'C09'
D = datetime.date
# serial of an ordinal: 1900-03-01 is 61 in the 1900 system, 1904-01-02 is 1 in the 1904 system
BASE = (D(1900, 3, 1).toordinal() - 61, D(1904, 1, 2).toordinal() - 1)
LIMIT = tuple(D(9999, 12, 31).toordinal() - b + 1 for b in BASE)
ASSUMPTIONS = ['Python datetime/fractions are the calendar oracle',
               'infinities, NaN, negative or year>=10000 arguments of xldate_as_datetime and the phantom day 60 are outside its documented domain']


def outcome(fn, *a):
    try:
        return fn(*a)
    except X.XLDateError as e:
        return type(e)


def nearest(q):
    """set of acceptable roundings of the exact rational q"""
    f = math.floor(q)
    r = q - f
    if abs(r - Fraction(1, 2)) < Fraction(1, 10 ** 6):
        return {f, f + 1}
    return {f + 1} if r > Fraction(1, 2) else {f}


def want_tuple(x, mode):
    """set of acceptable outcomes of xldate_as_tuple"""
    if mode not in (0, 1):
        return {X.XLDateBadDatemode}
    if x == 0:
        return {(0, 0, 0, 0, 0, 0)}
    if x < 0:
        return {X.XLDateNegative}
    days = math.floor(x)
    out = set()
    for sec in nearest((Fraction(x) - days) * 86400):
        d, s = (days + 1, 0) if sec == 86400 else (days, sec)
        hms = (s // 3600, s // 60 % 60, s % 60)
        if d >= LIMIT[mode]:
            out.add(X.XLDateTooLarge)
        elif d == 0:
            out.add((0, 0, 0) + hms)
        elif mode == 0 and d < 61:
            out.add(X.XLDateAmbiguous)
        else:
            t = D.fromordinal(BASE[mode] + d)
            out.add((t.year, t.month, t.day) + hms)
            if mode == 0 and x < 61:
                out.add(X.XLDateAmbiguous)
        if x < 1 and d == 1:
            out.update([(0, 0, 0, 23, 59, 59), (0, 0, 0, 0, 0, 0)])
    return out


def want_datetime(x, mode):
    days = math.floor(x)
    out = set()
    for ms in nearest((Fraction(x) - days) * 86400000):
        delta = datetime.timedelta(days=days, milliseconds=ms)
        if mode:
            ep = datetime.datetime(1904, 1, 1)
        else:
            ep = datetime.datetime(1899, 12, 31) if x < 60 else datetime.datetime(1899, 12, 30)
        try:
            out.add(ep + delta)
        except OverflowError:
            out.add(None)
    return out


def serial():
    near = st.tuples(st.one_of(st.integers(0, 2958470), st.integers(0, 62), st.sampled_from([2958465, 2958464, 2957003, 2957004, 2957002, 365, 366, 1462, 36584, 36585])),
                     st.one_of(st.integers(0, 86400), st.sampled_from([0, 86399, 86400, 43200, 1])),
                     st.sampled_from([0, 0, 0, 0.5, 0.49, 0.51, 1e-4, -1e-4, 0.4999, 0.5001, 0.0005, 0.0004, 0.999])
                     ).map(lambda t: max(0.0, t[0] + (t[1] + t[2]) / 86400.0))
    return st.one_of(near, near, st.integers(-5, 2958480), st.floats(0, 3e6), st.floats(-10, 100), st.floats(-1e18, 1e18),
                     st.sampled_from([0.0, -0.0, 1.0, 0.9999999, 0.99999, 60.0, 60.99999, 60.9999999, 61.0, 59.9999999, 5e-324, -5e-324, 1e300]))


def ser_check(case, ctx):
    x, mode = case
    want = want_tuple(x, mode)
    got = outcome(X.xldate_as_tuple, x, mode)
    ctx.true(got in want, 'xldate_as_tuple(%r, %r): got %r, expected %r' % (x, mode, got, want))
    if isinstance(got, tuple):
        ctx.label('tuple')
        ctx.nt(got[0] > 0 and got[3:] != (0, 0, 0))
        ctx.eq([type(v) for v in got], [int] * 6, 'component types of xldate_as_tuple(%r, %r)' % (x, mode))
    else:
        ctx.label(got.__name__)
        ctx.nt()
    if mode in (0, 1) and 0 <= x < LIMIT[mode] - 1 and not (mode == 0 and 59.99999 < x < 61):
        want = want_datetime(x, mode)
        got = X.xldate_as_datetime(x, mode)
        ctx.true(got in want, 'xldate_as_datetime(%r, %r): got %r, expected %r' % (x, mode, got, want))


def ser_strategy():
    return st.tuples(serial(), st.one_of(st.sampled_from([0, 1]), st.sampled_from([0, 1]), st.sampled_from([0, 1]), st.sampled_from([2, -1, 3, None, 'x'])))


def want_date(y, m, d, mode):
    if mode not in (0, 1):
        return X.XLDateBadDatemode
    if (y, m, d) == (0, 0, 0):
        return 0.0
    try:
        o = D(y, m, d).toordinal()
    except (ValueError, OverflowError):
        return X.XLDateBadTuple
    if y < 1900:
        return X.XLDateBadTuple
    n = o - BASE[mode]
    if n <= 0:
        return X.XLDateBadTuple
    if mode == 0 and n < 61:
        return X.XLDateAmbiguous
    return float(n)


def tup_strategy():
    good = st.dates(D(1900, 1, 1), D(9999, 12, 31)).map(lambda d: (d.year, d.month, d.day))
    era = st.tuples(st.sampled_from([1900, 1904, 1903, 2000, 2100, 2400, 9999, 1999, 2023, 2024, 10000, 1899, 0, 1, -1]),
                    st.integers(-1, 14), st.integers(-1, 33))
    anyd = st.tuples(st.integers(-5, 11000), st.integers(-1, 14), st.integers(-1, 33))
    h = st.one_of(st.integers(0, 23), st.integers(-2, 26))
    m = st.one_of(st.integers(0, 59), st.integers(0, 59), st.integers(-2, 62))
    tm = st.tuples(h, m, m)
    early = st.tuples(st.just(1900), st.integers(1, 3), st.integers(0, 32))
    return st.tuples(st.one_of(good, good, era, early, anyd, st.just((0, 0, 0))), tm,
                     st.one_of(st.sampled_from([0, 1]), st.sampled_from([0, 1]), st.sampled_from([0, 1, 2, -1, None])))


def tup_check(case, ctx):
    date, tm, mode = tuple(case[0]), tuple(case[1]), case[2]
    wd = want_date(date[0], date[1], date[2], mode)
    got = outcome(X.xldate_from_date_tuple, date, mode)
    ctx.eq(got, wd, 'xldate_from_date_tuple(%r, %r)' % (date, mode))
    okt = 0 <= tm[0] < 24 and 0 <= tm[1] < 60 and 0 <= tm[2] < 60
    gt = outcome(X.xldate_from_time_tuple, tm)
    if not okt:
        ctx.eq(gt, X.XLDateBadTuple, 'xldate_from_time_tuple(%r)' % (tm,))
    else:
        exact = Fraction(tm[0] * 3600 + tm[1] * 60 + tm[2], 86400)
        ctx.true(isinstance(gt, float) and abs(Fraction(gt) - exact) < Fraction(1, 10 ** 14), 'xldate_from_time_tuple(%r) = %r' % (tm, gt))
        ctx.eq(X.xldate_as_tuple(gt, 1), (0, 0, 0) + tm, 'time round trip %r' % (tm,))
    both = outcome(X.xldate_from_datetime_tuple, date + tm, mode)
    if isinstance(wd, type):
        ctx.label(wd.__name__)
        ctx.true(isinstance(both, type) and (both is wd or (both is X.XLDateBadTuple and not okt)), 'xldate_from_datetime_tuple(%r, %r) = %r' % (date + tm, mode, both))
        ctx.nt()
    elif not okt:
        ctx.label('bad time')
        ctx.eq(both, X.XLDateBadTuple, 'xldate_from_datetime_tuple(%r, %r)' % (date + tm, mode))
        ctx.nt()
    else:
        ctx.label('good')
        ctx.nt(tm != (0, 0, 0))
        ctx.true(isinstance(both, float) and abs(Fraction(both) - int(wd) - exact) < Fraction(1, 10 ** 9), 'xldate_from_datetime_tuple(%r, %r) = %r' % (date + tm, mode, both))
        ctx.eq(X.xldate_as_tuple(both, mode), date + tm, 'round trip as_tuple mode %d' % mode)
        if date[0]:
            ctx.eq(X.xldate_as_datetime(both, mode), datetime.datetime(*(date + tm)), 'round trip as_datetime mode %d' % mode)


BLOCK = 2000


def day_check(case, ctx):
    """every day of a block of consecutive days, both ways"""
    mode, b = case
    ctx.nt()
    ctx.label('mode%d' % mode)
    lo = max(61 if mode == 0 else 1, b * BLOCK)
    for n in range(lo, min((b + 1) * BLOCK, LIMIT[mode])):
        d = D.fromordinal(BASE[mode] + n)
        t = (d.year, d.month, d.day)
        if X.xldate_as_tuple(n, mode) != t + (0, 0, 0) or X.xldate_from_date_tuple(t, mode) != n or \
                X.xldate_as_datetime(float(n), mode) != datetime.datetime(*t):
            ctx.true(False, 'day %d mode %d <-> %r: as_tuple %r, from_date_tuple %r, as_datetime %r' % (
                n, mode, t, outcome(X.xldate_as_tuple, n, mode), outcome(X.xldate_from_date_tuple, t, mode), X.xldate_as_datetime(float(n), mode)))


def day_strategy():
    return st.tuples(st.sampled_from([0, 1]), st.integers(0, 2958466 // BLOCK))


def year_check(case, ctx):
    """first, last and impossible days of every month of some consecutive years"""
    mode, b = case
    ctx.nt()
    ctx.label('mode%d' % mode)
    for y in range(1890 + b * 30, 1920 + b * 30):
        for m in range(0, 14):
            for d in (0, 1, 28, 29, 30, 31, 32):
                want = want_date(y, m, d, mode)
                got = outcome(X.xldate_from_date_tuple, (y, m, d), mode)
                if got != want:
                    ctx.eq(got, want, 'xldate_from_date_tuple((%d, %d, %d), %d)' % (y, m, d, mode))


def year_strategy():
    return st.tuples(st.sampled_from([0, 1]), st.integers(0, 272))


SUBS = [Sub('serials', ser_strategy, ser_check, quick=40000, thorough=1500000,
            rule='floats/ints around day, second and half-second boundaries, eras, limits and bad datemodes vs exact rational oracle; '
                 'non-trivial = a date with a time of day, or a documented error'),
        Sub('tuples', tup_strategy, tup_check, quick=30000, thorough=1000000,
            rule='valid and impossible date/time tuples vs datetime; non-trivial = time of day not midnight, or a documented error'),
        Sub('days', day_strategy, day_check, quick=2400, thorough=12000,
            rule='blocks of 2000 consecutive days of either system, every day both ways; all non-trivial'),
        Sub('years', year_strategy, year_check, quick=700, thorough=4000,
            rule='blocks of 30 years (1890-10100): first, last and impossible days of all months vs datetime; all non-trivial')]
