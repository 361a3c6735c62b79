"""C30: books are independent of one another and opening is repeatable (histories over several books).

Every expected snapshot is computed in a process of its own, forked from a parent in which
no workbook was ever opened; the history runs in another such process."""
import io
import os
import pickle
import signal
import sys
import threading
import traceback
import zlib

from hypothesis import strategies as st

from xv import rich
from xv import snap
from xv.runner import Sub, import_repo, Violation, HarnessError, REPO

xlrd = import_repo()
PROPERTY = 'C30'
OPS = ['open', 'open', 'open', 'load', 'load', 'load', 'vandal', 'release', 'check', 'tools', 'unload']


def strategy():
    book = st.fixed_dictionaries(dict(blob=rich.blob(), damage=st.sampled_from(['', '', '', '', 'cut', 'flip']), twin=st.integers(0, 4), at=st.integers(0, 10 ** 6), x=st.integers(1, 255)))
    opts = st.fixed_dictionaries(dict(fi=st.booleans(), ragged=st.booleans(), on_demand=st.booleans(), enc=st.sampled_from([None, None, None, 'cp1251'])))
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 3))
    return st.fixed_dictionaries(dict(books=st.lists(book, min_size=2, max_size=3), opts=st.lists(opts, min_size=1, max_size=3), ops=st.lists(op, min_size=1, max_size=14)))


def open_book(data, o):
    return xlrd.open_workbook(file_contents=data, formatting_info=o['fi'], ragged_rows=o['ragged'], on_demand=o['on_demand'], encoding_override=o['enc'], logfile=io.StringIO())


def outcome(data, o):
    """('book', snapshot) or ('exc', type, text)"""
    try:
        bk = open_book(data, o)
        s = snap.snap_book(bk)
        bk.release_resources()
        return ('book', s)
    except Exception as e:
        return ('exc', type(e).__name__, str(e))


def in_child(f):
    """result of f() computed in a forked child"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 25.0)
            try:
                res = ('ok', f())
            except Violation as e:
                res = ('violation', str(e))
            except BaseException as e:
                res = ('raised', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
            b = pickle.dumps(res)
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    parts = []
    try:
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            parts.append(b)
    finally:
        os.close(r)
        if not parts:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
    if not parts:
        raise HarnessError('a child process died without an answer')
    return pickle.loads(b''.join(parts))


JUNK = ['junk', -12345, 3.5e-7]


def vandalise(bk, seed):
    """change every object a caller can reach from the book through public attributes"""
    seen = set()
    todo = [bk]
    hit = []
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, type, io.IOBase)) or callable(o):
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            hit.append(o)
            todo.extend(o.values())
        elif isinstance(o, list):
            hit.append(o)
            todo.extend(o)
        elif isinstance(o, tuple):
            todo.extend(o)
        elif type(o).__module__ == 'array':
            hit.append(o)
        elif type(o).__module__.startswith('xlrd'):
            hit.append(o)
            names = list(getattr(o, '__dict__', ())) + list(getattr(o, '__slots__', ()))
            todo.extend(getattr(o, k, None) for k in names if not k.startswith('_'))
            if isinstance(o, xlrd.book.Book):
                todo.extend(o.sheet_by_index(i) for i in range(o.nsheets) if o.sheet_loaded(i))
                todo.extend((o.colour_map, o.format_map, o.style_name_map, o.name_map))
            elif isinstance(o, xlrd.sheet.Sheet):
                for r in range(min(o.nrows, 6)):
                    todo.extend([o.row_types(r), o.row_values(r), o.row(r)])
    for o in hit:
        if isinstance(o, dict):
            if seed & 1:
                o.clear()
            for k in list(o):
                o[k] = JUNK[seed % 3]
            for k in (0, 8, 14, 164, 0x7FFF, 'x', (0, 0), 'total'):
                o[k] = JUNK[seed % 3]
        elif isinstance(o, list):
            if seed & 2:
                del o[:]
            o[:0] = JUNK
            o.extend(JUNK)
        elif type(o).__module__ == 'array':
            for i in range(len(o)):
                o[i] = 7
        else:
            names = list(getattr(o, '__dict__', ())) + list(getattr(o, '__slots__', ()))
            for k in names:
                if not k.startswith('_') and k not in ('mem', 'filestr', 'logfile', 'stream_len', 'base'):
                    try:
                        setattr(o, k, JUNK[seed % 3])
                    except AttributeError:
                        pass


def history(case, datas, want):
    slots = []       # [book, index of data, index of options, vandalised?, released?, loaded?]
    labels = set()

    def outcome_matches(i, j, how, slot=None):
        w = want[i, j]
        try:
            if slot is None:
                bk = open_book(datas[i], case['opts'][j])
            else:
                bk = slot[0]
            g = ('book', snap.snap_book(bk))
        except Exception as e:
            g = ('exc', type(e).__name__, str(e))
        if g[0] != w[0]:
            raise Violation('%s: workbook %d gives %s where in a new process it gives %s' % (how, i, g[0] if g[0] == 'book' else g, w[0] if w[0] == 'book' else w))
        if g[0] == 'exc':
            if g != w:
                raise Violation('%s: workbook %d raises %r, in a new process %r' % (how, i, g, w))
        else:
            d = snap.diff(w[1], g[1])
            if d:
                raise Violation('%s: workbook %d differs from what a new process reads: %s' % (how, i, d))
    for op, a, b in case['ops']:
        live = [s for s in slots if s[0] is not None]
        s = live[a % len(live)] if live else None
        if op == 'open' or s is None:
            i, j = a % len(datas), b % len(case['opts'])
            try:
                bk = open_book(datas[i], case['opts'][j])
            except Exception as e:
                if want[i, j] != ('exc', type(e).__name__, str(e)):
                    # books opened on demand may fail later than when everything is read
                    raise Violation('workbook %d raises %s: %s' % (i, type(e).__name__, e))
                labels.add('bad')
                continue
            slots.append([bk, i, j, False, False])
        elif op == 'load':
            if not s[3] and not s[4] and want[s[1], s[2]][0] == 'book' and s[0].nsheets:
                s[0].sheet_by_index(b % s[0].nsheets)
        elif op == 'unload':
            if not s[3] and not s[4] and case['opts'][s[2]]['on_demand'] and want[s[1], s[2]][0] == 'book' and s[0].biff_version >= 50:
                s[0].unload_sheet(b % s[0].nsheets)
        elif op == 'vandal':
            if not s[3]:
                vandalise(s[0], b)
                s[3] = True
                labels.add('vandal')
        elif op == 'release':
            if not s[3]:
                if case['opts'][s[2]]['on_demand']:
                    s[4] = True
                s[0].release_resources()
                if s[4]:
                    s[0] = None
        elif op == 'check':
            if not s[3]:
                outcome_matches(s[1], s[2], 'a book opened before', s)
        elif op == 'tools':
            i = a % len(datas)
            f = io.StringIO()
            try:
                xlrd.inspect_format(content=datas[i])
                if b == 1:
                    import tempfile
                    with tempfile.NamedTemporaryFile() as t:
                        t.write(datas[i])
                        t.flush()
                        xlrd.dump(t.name, outfile=f)
                        xlrd.count_records(t.name, outfile=f)
            except Exception:
                pass
    n = 0
    for s in slots:
        if s[0] is not None and not s[3]:
            outcome_matches(s[1], s[2], 'a book opened earlier, looked at last', s)
            n += 1
    for i in range(len(datas)):
        for j in range(len(case['opts'])):
            outcome_matches(i, j, 'opened again at the end')
    if n > 1:
        labels.add('several open')
    return labels


def build(case):
    datas = []
    for i, b in enumerate(case['books']):
        twin = i > 0 and b['twin'] >= 3         # like the book before, but for a character or a number
        R = rich.make(case['books'][i - 1 if twin else i]['blob'], versions=rich.ALL)
        data = R.bytes()
        if twin:
            at = [k for k in range(512, len(data)) if 65 <= data[k] <= 122]
            i0 = data.find(b'\xfc\x00', 512)
            sst = [k for k in at if i0 + 12 <= k < i0 + 4 + data[i0 + 2] + 256 * data[i0 + 3]] if i0 > 0 else []
            if sst and b['x'] % 2:
                at = sst            # a string of the string table
            k = (at or [len(data) // 2])[b['at'] % max(1, len(at))]
            data = data[:k] + bytes([data[k] ^ 1]) + data[k + 1:]
        elif b['damage'] == 'cut':
            data = data[:b['at'] % len(data)]
        elif b['damage'] == 'flip':
            k = b['at'] % len(data)
            data = data[:k] + bytes([data[k] ^ b['x']]) + data[k + 1:]
        datas.append(data)
    return datas


def check(case, ctx):
    with ctx.building():
        datas = build(case)
    want = {}
    for i in range(len(datas)):
        for j in range(len(case['opts'])):
            kind, r = in_child(lambda: outcome(datas[i], case['opts'][j]))
            if kind != 'ok':
                raise Violation('opening workbook %d: %s' % (i, r))
            if not case['books'][i]['damage'] and (not i or case['books'][i]['twin'] < 3) and case['opts'][j]['enc'] is None and r[0] != 'book':
                raise Violation('undamaged workbook %d is not read: %r' % (i, r))
            want[i, j] = r
    kind, r = in_child(lambda: history(case, datas, want))
    if kind == 'violation':
        raise Violation(r)
    if kind != 'ok':
        raise Violation('unexpected exception in the history: %s' % r)
    ctx.label(*r)
    good = sum(w[0] == 'book' for w in want.values())
    ctx.label('good%d' % min(good, 4))
    ctx.nt(good >= 2 and len(case['ops']) >= 3)



QUANTA = [1, 2, 3, 5, 7, 11, 23, 50, 101, 211, 503, 1009, 3001]


class Baton:
    """runs functions in threads, one line of xlrd at a time, in the order a schedule dictates"""

    def __init__(self, jobs, schedule, meet=None):
        # meet = (function class, occurrence): every thread first runs, alone, to that call of a function of that
        # class (or to its end); from there on the schedule decides.  The class is a hash, not a list of names.
        self.meet = meet
        self.calls = [0] * len(jobs)
        self.arrived = [meet is None] * len(jobs)
        self.jobs = jobs
        self.schedule = schedule
        self.k = 0
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * len(jobs)
        self.res = [None] * len(jobs)
        self.left = 0
        self.cur = 0
        self.switches = 0
        self.all = threading.Semaphore(0)
        self.root = os.path.join(os.path.abspath(REPO), 'xlrd') + os.sep

    def next(self):
        """pick the next thread and its number of lines"""
        alive = [i for i in range(len(self.jobs)) if not self.done[i]]
        if not alive:
            return None
        for i in alive:
            if not self.arrived[i]:
                self.left = 1 << 60
                return i
        who, q = self.schedule[self.k % len(self.schedule)]
        self.k += 1
        self.left = QUANTA[q % len(QUANTA)] + (self.k > 4000) * 5000
        # usually another thread than the current one
        others = [i for i in alive if i > self.cur] + [i for i in alive if i < self.cur] + [self.cur]
        return others[who % len(others)] if others[who % len(others)] in alive else alive[0]

    def line(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0:
                self.switch()
        return self.line

    def switch(self):
        me = self.cur
        n = self.next()
        if n != me:
            self.switches += 1
            self.cur = n
            self.sems[n].release()
            self.sems[me].acquire()

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        if not self.arrived[self.cur] and zlib.crc32(frame.f_code.co_name.encode()) % 24 == self.meet[0]:
            self.calls[self.cur] += 1
            if self.calls[self.cur] > self.meet[1]:
                self.arrived[self.cur] = True
                self.switch()
        return self.line

    def body(self, i):
        self.sems[i].acquire()
        sys.settrace(self.call)
        try:
            self.res[i] = self.jobs[i]()
        except BaseException as e:
            self.res[i] = ('raised', '%s: %s' % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.done[i] = True
            n = self.next()
            if n is None:
                self.all.release()
            else:
                self.cur = n
                self.sems[n].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.cur = self.next()
        self.sems[self.cur].release()
        self.all.acquire()
        for t in ts:
            t.join()
        return self.res, self.switches


def thread_strategy():
    book = st.fixed_dictionaries(dict(blob=rich.blob(), twin=st.sampled_from([0, 1, 1]), tweak=st.lists(st.tuples(st.integers(0, 499), st.integers(0, 255)), max_size=3), damage=st.sampled_from(['', '', '', '', '', '', '', 'cut', 'flip']), at=st.integers(0, 10 ** 6), x=st.integers(1, 255)))
    opts = st.fixed_dictionaries(dict(fi=st.booleans(), ragged=st.booleans(), on_demand=st.booleans(), enc=st.just(None)))
    return st.fixed_dictionaries(dict(
        books=st.lists(book, min_size=1, max_size=3), opts=st.lists(opts, min_size=1, max_size=2), jobs=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), min_size=2, max_size=4),
        meet=st.one_of(st.tuples(st.integers(0, 23), st.integers(0, 2)), st.tuples(st.integers(0, 23), st.just(0)), st.none()),
        schedule=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 9)), min_size=3, max_size=40)))


def check_threads(case, ctx):
    with ctx.building():
        for b in case['books'][1:]:
            if b['twin']:
                # nearly the same workbook as the first, so that both are in the same place at the same time
                l = bytearray(case['books'][0]['blob'])
                for k, x in b['tweak']:
                    l[k % len(l)] = x
                b['blob'] = bytes(l)
        datas = build(case)
    jobs = [(i % len(datas), j % len(case['opts'])) for i, j in case['jobs']]
    want = {}
    for i, j in set(jobs):
        kind, r = in_child(lambda: outcome(datas[i], case['opts'][j]))
        if kind != 'ok':
            raise Violation('opening workbook %d: %s' % (i, r))
        want[i, j] = r

    def go():
        b = Baton([lambda i=i, j=j: outcome(datas[i], case['opts'][j]) for i, j in jobs], case['schedule'], case['meet'])
        return b.run()
    kind, r = in_child(go)
    if kind != 'ok':
        raise Violation('unexpected exception with several threads: %s' % (r,))
    res, switches = r
    for k, (ij, got) in enumerate(zip(jobs, res)):
        w = want[ij]
        if got[0] != w[0] or got[0] != 'book' and got != w:
            raise Violation('workbook %d opened in thread %d while others are opened: %.300r instead of %.300r' % (ij[0], k, got if got[0] != 'book' else 'a book', w if w[0] != 'book' else 'a book'))
        if got[0] == 'book':
            d = snap.diff(w[1], got[1])
            if d:
                raise Violation('workbook %d opened in thread %d while others are opened: alone vs then: %s' % (ij[0], k, d))
    good = sum(want[ij][0] == 'book' for ij in jobs)
    ctx.label('switches' + ('<10' if switches < 10 else '<100' if switches < 100 else '>=100'), 'good%d' % good)
    ctx.nt(good >= 2 and switches >= 10)


SUBS = [
    Sub('histories', strategy, check, quick=650, thorough=25000, rule='1-3 workbooks (some damaged) x 1-3 option sets x up to 14 operations; non-trivial = at least two readable book/option pairs and three operations'),
    Sub('threads', thread_strategy, check_threads, quick=480, thorough=10000, rule='2-4 openings of 1-3 workbooks in threads, interleaved line by line by a generated schedule; non-trivial = at least two readable books and ten switches'),
]
