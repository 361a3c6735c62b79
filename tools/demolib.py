"""Helpers for the demonstrations of planted bugs (copied beside each of them)."""
import io
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import xlrd  # noqa
assert os.path.abspath(xlrd.__file__).startswith(os.getcwd() + os.sep), xlrd.__file__
from xv import biff as B  # noqa
from xv import legacy as L  # noqa
from xv import ole  # noqa


def op(data, **kw):
    kw.setdefault('logfile', io.StringIO())
    return xlrd.open_workbook(file_contents=data, **kw)


def eq(got, want, what=''):
    if got != want:
        print('WRONG %s: got %.300r, expected %.300r' % (what, got, want))
        sys.exit(1)


def raises(f, exc, what=''):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        print('WRONG %s: %s: %s instead of %s' % (what, type(e).__name__, e, exc))
        sys.exit(1)
    print('WRONG %s: no exception, got %.200r' % (what, r))
    sys.exit(1)


def one(body, glob=None, name='S', **kw):
    """the only sheet of a BIFF8 book with the given records"""
    return op(B.assemble(80, B.globals8() if glob is None else glob, [dict(name=name, body=body)]), **kw).sheet_by_index(0)


def g8(formats=(), xfs=()):
    """globals of a BIFF8 book: (key, string) formats; 16 standard XFs and the given ones"""
    return B.globals8(formats=formats, xfs=B.xf8(style=True) * 15 + B.xf8() + b''.join(xfs))
