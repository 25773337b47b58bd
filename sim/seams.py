"""Seams: everything nondeterministic the package touches, routed to the kernel.

Patches are installed once, before redmapper is imported, and pass straight
through outside simulated processes or outside the simulated root directory.
Files live on a real tmpfs directory; what the simulator owns is *when* each
operation takes effect, how much of a write has reached the file at any
moment, who sees it, and whether it fails.
"""
import builtins
import errno
import functools
import glob as _glob
import io
import multiprocessing
import os
import pickle
import random as _random
import shutil
import tempfile
import threading
import time

import numpy as np

from .kernel import (current_proc, Sim, SimKilled, Violation, HarnessError, Proc,
                     SLEEPING, WAITING, READY, DONE)

BLOCK = 2880

# originals
_o = {}


class _State(object):
    private_dir = None
    installed = False
    counter = 0
    names = 0


S = _State()


def _st(path):
    try:
        return _o['stat'](path)
    except (OSError, ValueError):
        return None


def x_exists(path):
    return _st(path) is not None


def x_isdir(path):
    import stat as st
    s = _st(path if path else '.')
    return s is not None and st.S_ISDIR(s.st_mode)


def x_isfile(path):
    import stat as st
    s = _st(path)
    return s is not None and st.S_ISREG(s.st_mode)


def _active(path=None):
    """The running simulated process if the seam applies, else None."""
    p = current_proc()
    if p is None or p.depth > 0:
        return None
    if path is None:
        return p
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    root = p.sim.root
    if path.startswith(root):
        return p
    if not path.startswith('/') and (_o['getcwd']() + '/').startswith(root):
        return p
    return None


def rel(p, path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    root = p.sim.root
    if path.startswith(root):
        path = path[len(root):]
    return os.path.normpath(path).lstrip('/')


class _Depth(object):
    def __init__(self, p):
        self.p = p

    def __enter__(self):
        self.p.depth += 1

    def __exit__(self, *a):
        self.p.depth -= 1


def _raise_injected(hits, p, kind, path, err=errno.EIO, fits=None):
    for f in hits:
        if f['kind'] in ('eio', 'enospc', 'eio_r'):
            p.sim.fire(f['kind'], kind, path)
            e = errno.ENOSPC if f['kind'] == 'enospc' else errno.EIO
            if fits:
                raise OSError("FITSIO status = %d: simulated I/O error on %s" % (fits, path))
            raise OSError(e, os.strerror(e), path)
        elif f['kind'] == 'crash':
            p.sim.fire('crash', kind, path)
            p.sim.kill(p.job)


def _simple(name, module, kind, classes, pathargs=(0,)):
    """Wrap a plain path operation of a module as one operation point."""
    orig = getattr(module, name)
    _o[name if module is os else '%s.%s' % (module.__name__, name)] = orig

    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        p = None
        for a in pathargs:
            if a < len(args):
                p = p or _active(args[a])
        if p is None:
            return orig(*args, **kwargs)
        r = '|'.join(rel(p, args[a]) for a in pathargs if a < len(args))
        hits = p.sim.point(kind, r, classes)
        _raise_injected(hits, p, kind, r)
        if kind in ('link', 'rename', 'replace') and len(pathargs) == 2 and len(args) > 1:
            # the temporary directory is another file system, as on real nodes
            a, b = (x == 'tmp' or x.startswith('tmp/') for x in (rel(p, args[0]), rel(p, args[1])))
            if a != b:
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(args[0]), None, str(args[1]))
        with _Depth(p):
            if kind == 'utime' and len(args) < 2 and not kwargs.get('times') and not kwargs.get('ns'):
                kwargs['times'] = (p.sim.now, p.sim.now)
            out = orig(*args, **kwargs)
        for m in p.sim.monitors:
            with _Depth(p):
                m(p.sim, p, kind, r)
        return out
    wrapper._sim_orig = orig
    setattr(module, name, wrapper)
    return orig


def _torn(d, base, new):
    """Write plan for an incomplete write: list of (offset, bytes) to apply."""
    n = (max(len(new), 1) + BLOCK - 1) // BLOCK
    changed = [i for i in range(n) if base[i * BLOCK:(i + 1) * BLOCK] != new[i * BLOCK:(i + 1) * BLOCK]]
    if not changed:
        return [], []
    how = d.choose(6)
    k = len(changed)
    if how == 0:
        part = changed[:k // 2]
    elif how == 1:
        part = changed[:1]
    elif how == 2:
        part = changed[:k - 1]
    elif how == 3:
        part = changed[k // 2:]
    elif how == 4:
        part = []
    else:
        part = changed
    restset = set(part)
    rest = [i for i in changed if i not in restset]
    return part, rest


def _apply(fd, new, blocks):
    for i in blocks:
        os.lseek(fd, i * BLOCK, os.SEEK_SET)
        b = new[i * BLOCK:(i + 1) * BLOCK]
        while b:
            w = os.write(fd, b)
            b = b[w:]


def _stamp(p, fd):
    """Modification times are simulated time (made distinct by the step)."""
    ns = int(p.sim.now * 1000) * 1000000 + p.sim.steps % 1000000
    try:
        _o['utime'](fd, ns=(ns, ns))
    except OSError:
        pass


class Target(object):
    """A file being written by one process: private content + held descriptor."""

    def __init__(self, p, path, fd, private, base):
        self.p = p
        self.path = path
        self.fd = fd
        self.private = private
        self.base = base
        self.open = True
        p.handles.append(self)
        if not base:
            _stamp(p, fd)

    def read_private(self):
        with _o['open'](self.private, 'rb') as f:
            return f.read()

    def drop(self):
        if self.open:
            self.open = False
            try:
                os.close(self.fd)
            except OSError:
                pass
            try:
                _o['unlink'](self.private)
            except OSError:
                pass
            if self in self.p.handles:
                self.p.handles.remove(self)

    def publish(self, final=True, fits=False):
        p = self.p
        sim = p.sim
        with _Depth(p):
            new = self.read_private()
        base = self.base
        if new == base and len(new) == os.fstat(self.fd).st_size:
            return
        r = rel(p, self.path)
        hits = sim.point('publish', r, ('w', 'pub'))
        for f in hits:
            part, rest = _torn(sim.d, base, new)
            _apply(self.fd, new, part)
            sim.fire(f['kind'], 'publish', r)
            if f['kind'] == 'crash':
                self.drop()
                sim.kill(p.job)
            self.drop()
            if fits:
                raise OSError("FITSIO status = 106: simulated %s on %s" % (f['kind'], r))
            e = errno.ENOSPC if f['kind'] == 'enospc' else errno.EIO
            raise OSError(e, os.strerror(e), self.path)
        live = sum(1 for q in sim.procs if q.state != DONE and not q.killed)
        if live > 1 or any(f['cls'] == 'pub2' for f in sim.faults):
            part, rest = _torn(sim.d, base, new)
            _apply(self.fd, new, part)
            hits = sim.point('publish2', r, ('pub2',))
            for f in hits:
                sim.fire(f['kind'], 'publish2', r)
                self.drop()
                if f['kind'] == 'crash':
                    sim.kill(p.job)
                if fits:
                    raise OSError("FITSIO status = 106: simulated %s on %s" % (f['kind'], r))
                e = errno.ENOSPC if f['kind'] == 'enospc' else errno.EIO
                raise OSError(e, os.strerror(e), self.path)
            _apply(self.fd, new, rest)
        else:
            n = (len(new) + BLOCK - 1) // BLOCK
            changed = [i for i in range(n) if base[i * BLOCK:(i + 1) * BLOCK] != new[i * BLOCK:(i + 1) * BLOCK]]
            _apply(self.fd, new, changed)
        if len(new) < len(base):
            os.ftruncate(self.fd, len(new))
        _stamp(p, self.fd)
        self.base = new
        for m in sim.monitors:
            with _Depth(p):
                m(sim, p, 'publish', r)

    # kernel callbacks
    def sim_tear(self, sim):
        """The owner was killed while this file was open for writing."""
        if not self.open:
            return
        try:
            new = self.read_private()
        except OSError:
            new = self.base
        if new != self.base:
            how = sim.d.choose(3)
            if how:
                part, rest = _torn(sim.d, self.base, new)
                _apply(self.fd, new, part)
                if how == 2:
                    _apply(self.fd, new, rest)
        self.drop()

    def sim_exit(self):
        if self.open:
            self.publish()
            self.drop()


def _link_private(fn, priv):
    """A private name for the same file (CFITSIO shares handles by name)."""
    real = os.path.realpath(fn)
    try:
        _o['link'](real, priv)
    except OSError:
        os.symlink(real, priv)


def _private_name(p):
    S.counter += 1
    return os.path.join(p.sim.private, 'f%d' % S.counter)


def _open_target(p, path, clobber, must_exist=False, kindname='openw'):
    """Open a file for writing: returns Target with private copy made."""
    sim = p.sim
    r = rel(p, path)
    with _Depth(p):
        exists = x_exists(path)
    priv = _private_name(p)
    if exists and not clobber:
        hits = sim.point(kindname, r, ('w', 'open'))
        _raise_injected(hits, p, kindname, r)
        with _Depth(p):
            fd = _o['os.open'](path, os.O_RDWR)
            shutil_copyfd(fd, priv)
            with _o['open'](priv, 'rb') as f:
                base = f.read()
        return Target(p, path, fd, priv, base), False
    if exists:
        hits = sim.point('clobber', r, ('w', 'open'))
        for f in hits:
            if f['kind'] == 'crash' and f.get('variant', 0):
                with _Depth(p):
                    try:
                        _o['unlink'](path)
                    except OSError:
                        pass
        _raise_injected(hits, p, 'clobber', r)
        with _Depth(p):
            try:
                _o['unlink'](path)
            except FileNotFoundError:
                pass
    hits = sim.point('create', r, ('w', 'open'))
    _raise_injected(hits, p, 'create', r)
    with _Depth(p):
        fd = _o['os.open'](path, os.O_RDWR | os.O_CREAT | (os.O_TRUNC if clobber else 0), 0o644)
        t = Target(p, path, fd, priv, b'')
        if not clobber and os.fstat(fd).st_size > 0:
            # someone else created it since we looked
            shutil_copyfd(fd, priv)
            with _o['open'](priv, 'rb') as f:
                t.base = f.read()
            for m in sim.monitors:
                m(sim, p, 'create', r)
            return t, False
        for m in sim.monitors:
            m(sim, p, 'create', r)
    return t, True


def shutil_copyfd(fd, dst):
    os.lseek(fd, 0, os.SEEK_SET)
    with _o['open'](dst, 'wb') as f:
        while True:
            b = os.read(fd, 1 << 22)
            if not b:
                break
            f.write(b)


# ---------------------------------------------------------------- fitsio ----
def _install_fitsio():
    import fitsio
    from fitsio import fitslib
    FITS = fitslib.FITS
    o_init = FITS.__init__
    o_close = FITS.close
    o_reopen = FITS.reopen
    wrap = fitslib._fitsio_wrap

    def sim_init(self, filename, mode='r', *args, **kwargs):
        self._sim_target = None
        self._sim_private = None
        self._sim_proc = None
        p = _active(filename) if isinstance(filename, (str, os.PathLike)) else None
        fn = os.fspath(filename) if p is not None else filename
        bang = False
        if p is None and isinstance(filename, str) and filename.startswith('!'):
            p = _active(filename[1:])
            if p is not None:
                fn = filename[1:]
                bang = True
        if p is None:
            return o_init(self, filename, mode, *args, **kwargs)
        if 'clobber' in kwargs:
            clobber = kwargs.pop('clobber')
        elif len(args) > 9:
            clobber = args[9]
            args = args[:9]
        else:
            clobber = False
        clobber = clobber or bang
        sim = p.sim
        r = rel(p, fn)
        if mode in ('rw', fitslib.READWRITE):
            parent = os.path.dirname(fn)
            if not x_isdir(parent):
                raise OSError("FITSIO status = 105: couldn't create the named file %s" % fn)
            t, new = _open_target(p, fn, clobber)
            with _Depth(p):
                try:
                    if new:
                        o_init(self, t.private, mode, *args, clobber=True, **kwargs)
                    else:
                        o_init(self, t.private, mode, *args, **kwargs)
                except BaseException:
                    t.drop()
                    raise
            self._did_create = new
            self._sim_target = t
            self._sim_proc = p
            self._filename = fn
        else:
            hits = sim.point('read', r, ('r',))
            for f in hits:
                if f['kind'] == 'eio_r':
                    sim.fire('eio_r', 'read', r)
                    raise OSError("FITSIO status = 108: simulated error reading %s" % r)
            _raise_injected([f for f in hits if f['kind'] != 'eio_r'], p, 'read', r, fits=108)
            with _Depth(p):
                if not x_isfile(fn):
                    raise OSError("FITSIO status = 104: could not open the named file %s" % fn)
                priv = _private_name(p)
                _link_private(fn, priv)
                try:
                    o_init(self, priv, mode, *args, **kwargs)
                except BaseException:
                    _o['unlink'](priv)
                    raise
            self._sim_private = priv
            self._sim_proc = p
            self._filename = fn

    def _real_close(self):
        if getattr(self, '_FITS', None) is not None:
            o_close(self)

    def sim_close(self):
        t = getattr(self, '_sim_target', None)
        if t is None:
            priv = getattr(self, '_sim_private', None)
            o_close(self)
            if priv is not None:
                self._sim_private = None
                try:
                    _o['unlink'](priv)
                except OSError:
                    pass
            return
        self._sim_target = None
        p = t.p
        p.depth += 1
        try:
            _real_close(self)
        finally:
            p.depth -= 1
        if p.killed:
            t.drop()
            if current_proc() is p:
                raise SimKilled()
            return
        if not t.open:
            return
        try:
            t.publish(fits=True)
        finally:
            t.drop()

    def sim_reopen(self):
        t = getattr(self, '_sim_target', None)
        if t is None and getattr(self, '_sim_private', None) is None:
            return o_reopen(self)
        # close and reopen the private file: no change of what others see
        self._FITS.close()
        del self._FITS
        name = t.private if t is not None else self._sim_private
        self._FITS = wrap.FITS(name, self.intmode, 0)
        self.update_hdu_list()

    def sim_del(self):
        try:
            t = self.__dict__.get('_sim_target', None)
            if t is not None and t.open and not t.p.killed and current_proc() is t.p:
                # the real library flushes and closes on deallocation
                sim_close(self)
            elif t is not None:
                self.__dict__['_FITS'] = None
                if t.p.killed:
                    t.drop()
            elif self.__dict__.get('_sim_private', None) is not None:
                sim_close(self)
        except SimKilled:
            pass
        except Exception:
            pass

    o_rh = fitslib.read_header

    @functools.wraps(o_rh)
    def sim_read_header(filename, *args, **kwargs):
        p = _active(filename) if isinstance(filename, (str, os.PathLike)) else None
        if p is None:
            return o_rh(filename, *args, **kwargs)
        fn = os.fspath(filename)
        r = rel(p, fn)
        hits = p.sim.point('read', r, ('r',))
        _raise_injected(hits, p, 'read', r, fits=108)
        with _Depth(p):
            if not x_isfile(fn):
                raise OSError("FITSIO status = 104: could not open the named file %s" % fn)
            priv = _private_name(p)
            _link_private(fn, priv)
            try:
                return o_rh(priv, *args, **kwargs)
            finally:
                _o['unlink'](priv)
    fitslib.read_header = sim_read_header
    fitsio.read_header = sim_read_header

    FITS.__init__ = sim_init
    FITS.close = sim_close
    FITS.reopen = sim_reopen
    FITS.__del__ = sim_del

    # write calls of an open handle are kill/preemption points of their own
    def point_method(cls, name):
        orig = getattr(cls, name, None)
        if orig is None:
            return

        @functools.wraps(orig)
        def wrapper(self, *args, **kwargs):
            p = _active()
            if p is not None:
                f = getattr(self, '_sim_target', None)
                fn = None
                if f is not None:
                    fn = f.path
                else:
                    fn = getattr(self, '_filename', None)
                    if fn is not None and not str(fn).startswith(p.sim.private):
                        fn = None
                    elif fn is not None:
                        fn = os.path.basename(fn)
                        fn = _priv_path(p, getattr(self, '_filename'))
                if fn is not None:
                    r = rel(p, fn)
                    hits = p.sim.point('fitsop', '%s %s' % (name, r), ('fop',))
                    _raise_injected(hits, p, 'fitsop', r, fits=106)
                with _Depth(p):
                    return orig(self, *args, **kwargs)
            return orig(self, *args, **kwargs)
        setattr(cls, name, wrapper)

    def _priv_path(p, private):
        for h in p.handles:
            if getattr(h, 'private', None) == private:
                return h.path
        return private

    from fitsio.hdu.table import TableHDU
    from fitsio.hdu.image import ImageHDU
    for n in ('write', 'write_table', 'write_image'):
        point_method(FITS, n)
    for n in ('append', 'write', 'write_column', 'insert_column', 'resize', 'delete_rows'):
        point_method(TableHDU, n)
    for n in ('write',):
        point_method(ImageHDU, n)


# ---------------------------------------------------------------- open() ----
class SimFile(object):
    """A file object opened for writing inside the simulated root."""

    def __init__(self, real, target):
        self.__dict__['_real'] = real
        self.__dict__['_t'] = target

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, v):
        setattr(self._real, name, v)

    def __enter__(self):
        return self

    def __iter__(self):
        return iter(self._real)

    def __next__(self):
        return next(self._real)

    def write(self, data):
        t = self._t
        if t.p.killed:
            raise SimKilled()
        return self._real.write(data)

    def flush(self):
        self._real.flush()
        t = self._t
        if t.p.killed:
            raise SimKilled()
        t.publish()

    def fileno(self):
        return self._t.fd

    @property
    def closed(self):
        return self._real.closed

    def close(self):
        if self._real.closed:
            return
        self._real.close()
        t = self._t
        if t.p.killed:
            t.drop()
            raise SimKilled()
        if t.open:
            try:
                t.publish()
            finally:
                t.drop()

    def __exit__(self, et, ev, tb):
        self.close()
        return False

    def __del__(self):
        try:
            t = self.__dict__.get('_t')
            if t is not None and t.open and not t.p.killed and current_proc() is t.p:
                self.close()
        except BaseException:
            pass


def _install_open():
    o_open = builtins.open
    _o['open'] = o_open

    def from_fd(fd, path, mode, args, kwargs):
        """A file object over a descriptor that is already open for writing."""
        p = _active()
        try:
            name = os.readlink('/proc/self/fd/%d' % fd)
        except OSError:
            name = ''
        if p is None or not name.startswith(p.sim.root) or name.endswith((' (deleted)', '.log')):
            return o_open(fd, mode, *args, **kwargs)
        closefd = kwargs.pop('closefd', True)
        if len(args) > 4:
            closefd = args[4]
            args = args[:4]
        priv = _private_name(p)
        with _Depth(p):
            with _o['open'](name, 'rb') as f:
                base = f.read()
            with _o['open'](priv, 'wb') as f:
                f.write(base)
            t = Target(p, name, fd if closefd else os.dup(fd), priv, base)
            # opening a descriptor never truncates
            m = mode if 'r' in mode or 'a' in mode else ('r+b' if 'b' in mode else 'r+')
            real = o_open(priv, m, *args, **kwargs)
        return SimFile(real, t)

    @functools.wraps(o_open)
    def sim_open(file, mode='r', *args, **kwargs):
        p = None
        if not isinstance(file, int):
            p = _active(file)
        elif current_proc() is not None and set(mode) & set('wax+'):
            return from_fd(file, None, mode, args, kwargs)
        if p is None:
            return o_open(file, mode, *args, **kwargs)
        path = os.fspath(file)
        r = rel(p, path)
        opener = kwargs.get('opener') or (args[5] if len(args) > 5 else None)
        if opener is not None and set(mode) & set('wax+'):
            flags = os.O_CLOEXEC | (os.O_RDWR if '+' in mode else os.O_WRONLY)
            for c, fl in (('w', os.O_CREAT | os.O_TRUNC), ('x', os.O_CREAT | os.O_EXCL), ('a', os.O_CREAT | os.O_APPEND)):
                if c in mode:
                    flags |= fl
            fd = opener(path, flags)
            kwargs.pop('opener', None)
            return from_fd(fd, path, mode, args[:5], kwargs)
        if set(mode) & set('wax+'):
            if path.endswith('.log'):
                return o_open(file, mode, *args, **kwargs)
            if 'r' in mode and not x_exists(path):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            if not x_isdir(os.path.dirname(os.path.abspath(path))):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            if 'x' in mode:
                # created only if absent, in one step
                hits = p.sim.point('createx', r, ('w', 'open'))
                _raise_injected(hits, p, 'createx', r)
                with _Depth(p):
                    fd = _o['os.open'](path, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o644)
                    t = Target(p, path, fd, _private_name(p), b'')
                    for m in p.sim.monitors:
                        m(p.sim, p, 'create', r)
            elif 'w' in mode:
                # truncate in place, as open(2) does
                hits = p.sim.point('trunc', r, ('w', 'open'))
                _raise_injected(hits, p, 'trunc', r)
                with _Depth(p):
                    fd = _o['os.open'](path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
                    t = Target(p, path, fd, _private_name(p), b'')
            else:
                t, new = _open_target(p, path, False)
            with _Depth(p):
                real = o_open(t.private, mode.replace('x', 'w'), *args, **kwargs)
            return SimFile(real, t)
        hits = p.sim.point('readf', r, ('r',))
        _raise_injected(hits, p, 'readf', r)
        with _Depth(p):
            return o_open(file, mode, *args, **kwargs)

    builtins.open = sim_open
    io.open = sim_open


# ------------------------------------------------------------------ pool ----
def _fdumps(obj):
    # what multiprocessing itself uses to send tasks and results
    return bytes(multiprocessing.reduction.ForkingPickler.dumps(obj))


class _RemoteTB(Exception):
    pass


class SimResult(object):
    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool = pool
        self.n = n
        self.values = [None] * n
        self.left = n
        self.error = None
        self.order = []
        self.single = single
        self.callback = callback
        self.error_callback = error_callback

    def ready(self):
        p = current_proc()
        p.sim.point('poolpoll', '', ())
        return self._ready()

    def _ready(self):
        return self.left == 0

    def successful(self):
        if not self._ready():
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        p = current_proc()
        if timeout is None:
            p.sim.wait(self._ready)
        else:
            end = p.sim.now + timeout
            while not self._ready() and p.sim.now < end:
                p.sim.sleep(min(0.5, end - p.sim.now))

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._ready():
            raise multiprocessing.TimeoutError()
        if self.error is not None:
            raise self.error
        return self.values[0] if self.single else self.values


class SimPool(object):
    """multiprocessing.Pool semantics on simulated processes."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        p = current_proc()
        if p is None:
            raise HarnessError("SimPool outside simulation")
        self.sim = p.sim
        self.owner = p
        n = processes if processes is not None else 4
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.queue = []
        self.state = 'run'
        self.initializer = initializer
        self.initargs = initargs
        self.maxtasks = maxtasksperchild
        self.workers = []
        self.nextw = 0
        self.sim.point('pool', str(n), ())
        p.pools.append(self)
        for i in range(n):
            self._spawn_worker()

    def _spawn_worker(self):
        i = self.nextw
        self.nextw += 1
        w = self.sim.spawn('%s.w%d' % (self.owner.name, i), functools.partial(self._worker, i),
                           job=self.owner.job, parent=self.owner)
        self.workers.append(w)

    def _worker(self, idx):
        me = current_proc()
        if self.initializer is not None:
            self.initializer(*self.initargs)
        done = 0
        while True:
            self.sim.wait(lambda: self.queue or self.state != 'run')
            if not self.queue:
                return
            if self.state == 'terminate':
                return
            res, indices, blob = self.queue.pop(0)
            self.sim.point('task', 'start', ('task',))
            try:
                func, items, star = pickle.loads(blob)
                out = []
                for it in items:
                    if star == 2:
                        out.append(func(*it[0], **it[1]))
                    elif star:
                        out.append(func(*it))
                    else:
                        out.append(func(it))
                ok = True
                payload = out
            except SimKilled:
                raise
            except (Violation, HarnessError):
                raise
            except Exception as e:
                ok = False
                payload = e
            try:
                payload = pickle.loads(_fdumps(payload))
            except SimKilled:
                raise
            except Exception as e:
                if ok:
                    ok = False
                    payload = multiprocessing.pool.MaybeEncodingError(e, 'result')
                else:
                    payload = multiprocessing.pool.MaybeEncodingError(payload, repr(e))
            me.sim.point('task', 'end', ('task',))
            if ok:
                for i, v in zip(indices, payload):
                    res.values[i] = v
                    res.order.append(i)
                res.left -= len(indices)
                if res.left == 0 and res.error is None and res.callback is not None:
                    res.callback(res.values[0] if res.single else res.values)
            else:
                if res.error is None:
                    res.error = payload
                    res.order.append(('err', indices[0]))
                    if res.error_callback is not None:
                        res.error_callback(payload)
                res.left -= len(indices)
            res_order = res.order
            done += 1
            if self.maxtasks and done >= self.maxtasks:
                self.workers.remove(me)
                # the real pool forks the replacement from the parent
                w = self.sim.spawn('%s.w%d' % (self.owner.name, self.nextw),
                                   functools.partial(self._worker, self.nextw),
                                   job=self.owner.job,
                                   capsule=self.sim.capsules._deep(self.owner.capsule)
                                   if self.sim.capsules is not None else None)
                self.nextw += 1
                self.workers.append(w)
                return

    def _check(self):
        if self.state != 'run':
            raise ValueError("Pool not running")

    def _submit(self, func, items, star, chunksize, res):
        self._check()
        n = len(items)
        if chunksize is None:
            chunksize, extra = divmod(n, len(self.workers) * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        for i in range(0, n, chunksize):
            blob = _fdumps((func, items[i:i + chunksize], star))
            self.queue.append((res, list(range(i, min(i + chunksize, n))), blob))
        return res

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        res = SimResult(self, len(items), callback=callback, error_callback=error_callback)
        return self._submit(func, items, 0, chunksize, res)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = [tuple(i) for i in iterable]
        res = SimResult(self, len(items), callback=callback, error_callback=error_callback)
        return self._submit(func, items, 1, chunksize, res)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res = SimResult(self, 1, single=True, callback=callback, error_callback=error_callback)
        return self._submit(func, [(tuple(args), dict(kwds))], 2, 1, res)

    def _imap(self, func, iterable, chunksize, ordered):
        items = list(iterable)
        res = SimResult(self, len(items))
        self._submit(func, items, 0, chunksize, res)
        return self._imap_gen(res, len(items), ordered)

    def _imap_gen(self, res, n, ordered):
        sim = self.sim
        for k in range(n):
            if ordered:
                sim.wait(lambda: k in res.order or res.error is not None and res.left == 0)
                if k in res.order:
                    yield res.values[k]
                else:
                    raise res.error
            else:
                sim.wait(lambda: len(res.order) > k or res.left == 0)
                if len(res.order) <= k or isinstance(res.order[k], tuple):
                    raise res.error
                yield res.values[res.order[k]]

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self.state == 'run':
            self.state = 'close'

    def abandon(self):
        self.state = 'terminate'
        for w in self.workers:
            if w.state != DONE and not w.killed:
                w.killed = True
                for h in list(w.handles):
                    h.sim_tear(self.sim)
                w.handles = []

    def terminate(self):
        self.state = 'terminate'
        for w in self.workers:
            if w.state != DONE and not w.killed:
                w.killed = True
                for h in list(w.handles):
                    h.sim_tear(self.sim)
                w.handles = []
        self.sim.point('poolterm', '', ())

    def join(self):
        if self.state == 'run':
            raise ValueError("Pool is still running")
        ws = list(self.workers)
        self.sim.wait(lambda: all(w.state == DONE for w in ws))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _install_pool():
    import multiprocessing.pool
    import multiprocessing.context as ctx
    o_Pool = ctx.BaseContext.Pool

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if current_proc() is None:
            return o_Pool(self, processes, initializer, initargs, maxtasksperchild)
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    ctx.BaseContext.Pool = Pool
    multiprocessing.Pool = Pool.__get__(multiprocessing.context._default_context)

    # concurrent.futures on the same simulated workers
    import concurrent.futures as cf
    o_ppe = cf.ProcessPoolExecutor

    def PPE(max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if current_proc() is None:
            return o_ppe(max_workers, mp_context, initializer, initargs, **kw)
        return SimExecutor(max_workers, initializer, initargs)
    cf.ProcessPoolExecutor = PPE


class SimFuture(object):
    def __init__(self, res):
        self.res = res

    def result(self, timeout=None):
        return self.res.get(timeout)

    def done(self):
        return self.res.ready()

    def exception(self, timeout=None):
        self.res.wait(timeout)
        return self.res.error


class SimExecutor(object):
    def __init__(self, n, initializer, initargs):
        self.pool = SimPool(n, initializer, initargs)

    def submit(self, fn, *args, **kwargs):
        return SimFuture(self.pool.apply_async(fn, args, kwargs))

    def map(self, fn, *iters, timeout=None, chunksize=1):
        res = self.pool.starmap_async(fn, list(zip(*iters)), chunksize)

        def gen():
            for v in res.get():
                yield v
        return gen()

    def shutdown(self, wait=True, **kw):
        self.pool.close()
        if wait:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


# ------------------------------------------------------------- time, ids ----
def _install_time():
    o = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'process_time', 'time_ns')}
    _o['time'] = o

    def mk(name, off):
        orig = o[name]

        def f():
            p = current_proc()
            if p is None:
                return orig()
            return p.sim.now + off
        f.__name__ = name
        return f
    time.time = mk('time', 0.0)
    time.monotonic = mk('monotonic', -9.0e8)
    time.perf_counter = mk('perf_counter', -9.0e8)
    time.process_time = mk('process_time', -1.0e9)

    def time_ns():
        p = current_proc()
        if p is None:
            return o['time_ns']()
        return int(p.sim.now * 1e9)
    time.time_ns = time_ns

    def sleep(dt):
        p = current_proc()
        if p is None:
            return o['sleep'](dt)
        p.sim.sleep(dt)
    time.sleep = sleep

    o_pid = os.getpid
    _o['getpid'] = o_pid

    def getpid():
        p = current_proc()
        return p.pid if p is not None else o_pid()
    os.getpid = getpid

    o_ur = os.urandom

    def urandom(n):
        p = current_proc()
        if p is None:
            return o_ur(n)
        S.names += 1
        r = _random.Random(S.names * 7919 + 13)
        return bytes(r.getrandbits(8) for _ in range(n))
    os.urandom = urandom

    o_drng = np.random.default_rng

    def default_rng(seed=None):
        p = current_proc()
        if seed is None and p is not None:
            seed = int(np.random.randint(0, 2 ** 31 - 1))
        return o_drng(seed)
    np.random.default_rng = default_rng
    o_rs = np.random.RandomState

    class RandomState(o_rs):
        def __init__(self, seed=None):
            if seed is None and current_proc() is not None:
                seed = int(np.random.randint(0, 2 ** 31 - 1))
            o_rs.__init__(self, seed)
    RandomState.__module__ = o_rs.__module__
    np.random.RandomState = RandomState
    o_seed = np.random.seed

    def seed(s=None):
        p = current_proc()
        if s is None and p is not None:
            S.names += 1
            s = S.names
        return o_seed(s)
    np.random.seed = seed

    o_ns = tempfile._get_candidate_names

    class Names(object):
        def __iter__(self):
            return self

        def __next__(self):
            p = current_proc()
            S.names += 1
            r = _random.Random(S.names * 104729 + 7)
            return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))
    names = Names()

    def cand():
        if current_proc() is None:
            return o_ns()
        return names
    tempfile._get_candidate_names = cand
    o_gtd = tempfile._gettempdir

    def gettempdir():
        p = current_proc()
        if p is None:
            return o_gtd()
        return p.sim.tmpdir
    tempfile._gettempdir = gettempdir
    tempfile.gettempdir = gettempdir


def install():
    if S.installed:
        return
    S.installed = True
    _o['getcwd'] = os.getcwd
    _o['stat'] = os.stat
    _o['link'] = os.link
    _o['os.open'] = os.open
    _install_open()
    for name, kind, classes, pa in (
            ('link', 'link', ('w', 'lock'), (0, 1)),
            ('symlink', 'symlink', ('w', 'lock'), (1,)),
            ('rename', 'rename', ('w', 'ren'), (0, 1)),
            ('replace', 'replace', ('w', 'ren'), (0, 1)),
            ('mkdir', 'mkdir', ('w', 'dir'), (0,)),
            ('rmdir', 'rmdir', ('w', 'dir'), (0,)),
            ('listdir', 'list', ('r', 'list'), (0,)),
            ('scandir', 'list', ('r', 'list'), (0,)),
            ('unlink', 'unlink', ('w', 'unl'), (0,)),
            ('remove', 'unlink', ('w', 'unl'), (0,)),
            ('truncate', 'truncate', ('w',), (0,)),
            ('utime', 'utime', ('w',), (0,))):
        _simple(name, os, kind, classes, pa)
    # os.unlink/remove must also work for seams' own use
    o_osopen = os.open

    @functools.wraps(o_osopen)
    def sim_os_open(path, flags, *args, **kwargs):
        p = _active(path) if not isinstance(path, int) else None
        if p is None:
            return o_osopen(path, flags, *args, **kwargs)
        r = rel(p, path)
        if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR | os.O_TRUNC):
            hits = p.sim.point('osopen', r, ('w', 'open'))
        else:
            hits = p.sim.point('osopen', r, ('r',))
        _raise_injected(hits, p, 'osopen', r)
        with _Depth(p):
            new = not x_exists(path)
            fd = o_osopen(path, flags, *args, **kwargs)
            if new or flags & os.O_TRUNC:
                _stamp(p, fd)
            if flags & (os.O_CREAT | os.O_TRUNC):
                for m in p.sim.monitors:
                    m(p.sim, p, 'create', r)
            return fd
    os.open = sim_os_open
    # existence tests are observation points (no faults)
    for name in ('isfile', 'exists', 'isdir', 'lexists', 'getsize', 'getmtime'):
        _wrap_stat(name)
    _wrap_os_stat()
    _wrap_glob()
    for name in ('copyfile', 'copy', 'copy2', 'move', 'rmtree'):
        _wrap_shutil(name)
    _install_time()
    _install_pool()
    _install_fitsio()


def _wrap_stat(name):
    orig = getattr(os.path, name)
    _o[name] = orig

    @functools.wraps(orig)
    def wrapper(path):
        p = _active(path) if not isinstance(path, int) else None
        if p is None:
            return orig(path)
        p.sim.point('stat', rel(p, path), ())
        with _Depth(p):
            return orig(path)
    setattr(os.path, name, wrapper)


def _wrap_os_stat():
    orig = os.stat

    @functools.wraps(orig)
    def wrapper(path, *a, **k):
        p = _active(path) if not isinstance(path, int) else None
        if p is None:
            return orig(path, *a, **k)
        p.sim.point('stat', rel(p, path), ())
        with _Depth(p):
            return orig(path, *a, **k)
    os.stat = wrapper


def _wrap_glob():
    o_glob = _glob.glob
    o_iglob = _glob.iglob

    def shuffled(p, res):
        # directory listing order is unspecified: it is a decision
        res = sorted(res)
        if len(res) > 1:
            k = p.sim.d.choose(4, 0.4)
            if k == 1:
                res = res[::-1]
            elif k > 1:
                r = _random.Random(k * 31 + len(res))
                r.shuffle(res)
        return res

    def glob(pathname, *a, **k):
        p = _active(pathname)
        if p is None:
            return o_glob(pathname, *a, **k)
        hits = p.sim.point('list', rel(p, pathname), ('r', 'list'))
        _raise_injected(hits, p, 'list', rel(p, pathname))
        with _Depth(p):
            res = o_glob(pathname, *a, **k)
        return shuffled(p, res)

    def iglob(pathname, *a, **k):
        if _active(pathname) is None:
            return o_iglob(pathname, *a, **k)
        return iter(glob(pathname, *a, **k))
    _glob.glob = glob
    _glob.iglob = iglob
    o_ld = os.listdir

    @functools.wraps(o_ld)
    def listdir(path='.'):
        p = _active(path) if not isinstance(path, int) else None
        if p is None:
            return o_ld(path)
        return shuffled(p, o_ld(path))
    os.listdir = listdir
    o_sd = os.scandir

    class Scan(object):
        def __init__(self, it):
            self._it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

    @functools.wraps(o_sd)
    def scandir(path='.'):
        p = _active(path) if not isinstance(path, int) else None
        if p is None:
            return o_sd(path)
        byname = dict((e.name, e) for e in o_sd(path))
        return Scan([byname[n] for n in shuffled(p, list(byname))])
    os.scandir = scandir


def _wrap_shutil(name):
    orig = getattr(shutil, name)
    _o['shutil.' + name] = orig

    @functools.wraps(orig)
    def wrapper(src, *args, **kwargs):
        p = _active(src)
        if p is None and args:
            p = _active(args[0])
        if p is None:
            return orig(src, *args, **kwargs)
        sim = p.sim
        r = rel(p, src)
        if name == 'rmtree':
            hits = sim.point('rmtree', r, ('w',))
            _raise_injected(hits, p, 'rmtree', r)
            with _Depth(p):
                return orig(src, *args, **kwargs)
        dst = args[0] if args else kwargs['dst']
        if name == 'move':
            if x_isdir(dst):
                dst = os.path.join(dst, os.path.basename(src))
            try:
                os.replace(src, dst)
            except OSError as err:
                if err.errno != errno.EXDEV:
                    raise
                shutil.copyfile(src, dst)
                os.unlink(src)
            return dst
        if name != 'copyfile' and x_isdir(dst):
            dst = os.path.join(dst, os.path.basename(src))
        hits = sim.point('readf', r, ('r',))
        _raise_injected(hits, p, 'readf', r)
        with _Depth(p):
            with _o['open'](src, 'rb') as f:
                data = f.read()
        if _active(dst) is None:
            with _o['open'](dst, 'wb') as f:
                f.write(data)
            return dst
        with builtins.open(dst, 'wb') as f:
            f.write(data)
        return dst
    setattr(shutil, name, wrapper)
