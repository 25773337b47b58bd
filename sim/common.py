"""Shared helpers for scenarios and oracles."""
import os
import hashlib
import shutil
import traceback

import numpy as np

from .kernel import Violation, HarnessError, Job, SimKilled, current_proc, DONE
from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Context(object):
    def setup(self, base, shared, capsules):
        self.base = base
        self.shared = shared
        self.capsules = capsules
        self.data = {}


CTX = Context()


def fail(cls, msg):
    p = current_proc()
    if p is not None and p.killed:
        # the code under test swallowed the kill; the dead make no claims
        raise SimKilled()
    raise Violation(cls, msg)


def check(cond, cls, msg):
    if not cond:
        fail(cls, msg)


def tb(exc):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]


def must_finish(procs, what='process'):
    """Undisturbed processes must finish without an error."""
    for p in procs:
        if p.exc is not None:
            raise Violation('error', '%s %s raised although nothing was injected into it: %s' % (what, p.name, tb(p.exc)))
        if not p.ok:
            raise Violation('error', '%s %s did not finish (state %s killed %s)' % (what, p.name, p.state, p.killed))


def file_hash(path):
    with seams._o['open'](path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()[:16]


def tree(root, skip=('tmp',)):
    """relative path -> size-independent content hash of all files."""
    out = {}
    for dp, dn, fns in os.walk(root):
        r = os.path.relpath(dp, root)
        dn[:] = sorted(d for d in dn if not (r == '.' and d in skip))
        for f in sorted(fns):
            p = os.path.join(dp, f)
            out[os.path.normpath(os.path.join(r, f))] = p
    return out


def rows_equal(a, b):
    """Exact equality of two structured arrays (NaN equal to NaN)."""
    if a.dtype.names is None or b.dtype.names is None:
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f')
    if len(a) != len(b):
        return False
    na = sorted(n.lower() for n in a.dtype.names)
    nb = sorted(n.lower() for n in b.dtype.names)
    if na != nb:
        return False
    la = {n.lower(): n for n in a.dtype.names}
    lb = {n.lower(): n for n in b.dtype.names}
    for n in na:
        x, y = a[la[n]], b[lb[n]]
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc' and y.dtype.kind in 'fc':
            if not np.array_equal(x, y, equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def diff_rows(a, b):
    if a.dtype.names is None or b.dtype.names is None:
        return 'arrays differ'
    if len(a) != len(b):
        return '%d rows instead of %d' % (len(a), len(b))
    na = sorted(n.lower() for n in a.dtype.names)
    nb = sorted(n.lower() for n in b.dtype.names)
    if na != nb:
        return 'columns %s instead of %s' % (na, nb)
    la = {n.lower(): n for n in a.dtype.names}
    lb = {n.lower(): n for n in b.dtype.names}
    for n in na:
        x, y = a[la[n]], b[lb[n]]
        if x.shape != y.shape:
            return 'column %s shape %s instead of %s' % (n, x.shape, y.shape)
        eq = np.array_equal(x, y, equal_nan=True) if (x.dtype.kind in 'fc' and y.dtype.kind in 'fc') else np.array_equal(x, y)
        if not eq:
            bad = np.where((x != y).reshape(len(x), -1).any(axis=1))[0][:3]
            return 'column %s differs at rows %s: %s instead of %s' % (n, bad.tolist(), x[bad].tolist(), y[bad].tolist())
    return 'equal'


class quiet(object):
    """Harness code running inside a simulated process: no operation points."""

    def __enter__(self):
        self.p = current_proc()
        if self.p is not None:
            self.p.depth += 1

    def __exit__(self, *a):
        if self.p is not None:
            self.p.depth -= 1
