"""P19: saved tables are all-or-nothing and read back as saved."""
import os

import numpy as np
import fitsio

from ..common import check, fail, must_finish, tb, rows_equal, diff_rows, quiet
from ..seams import _o, x_exists

REAL = ['redmapper.catalog.DataObject/Catalog/Entry', 'redmapper.galaxy.GalaxyCatalog', 'fitsio/CFITSIO', 'kernel file system']
STUBS = ['clock (virtual)', 'temporary names (seeded)']

KINDS = ('i4', 'i8', 'f4', 'f8', 'i2', 'S7', ('f4', 3), ('i8', 2), ('f4', (2, 2)), 'u1', 'bool')


def gen_table(d, n=None, ncol=None):
    rng = d.sub_rng()
    ncol = ncol or 1 + d.choose(5)
    dt = []
    for i in range(ncol):
        k = KINDS[d.choose(len(KINDS))]
        nm = ('id', 'ra', 'mem_match_id', 'Lambda', 'PZBINS', 'c_%d')[min(i, 5)]
        nm = nm % i if '%' in nm else nm
        dt.append((nm, k) if isinstance(k, str) else (nm, k[0], k[1]))
    if n is None:
        n = d.pick((3, 1, 2, 40, 700))
    a = np.zeros(n, dtype=dt)
    for nm in a.dtype.names:
        c = a[nm]
        if c.dtype.kind in 'iu':
            c[...] = rng.randint(0, 200, size=c.shape)
        elif c.dtype.kind == 'f':
            c[...] = rng.normal(size=c.shape)
            if rng.rand() < 0.2 and n > 1:
                c[0] = np.nan
        elif c.dtype.kind == 'b':
            c[...] = rng.randint(0, 2, size=c.shape)
        else:
            c[...] = np.array([b'ab', b'x', b'longer7', b'q0'])[rng.randint(0, 4, size=c.shape)]
    return a


def read_all(path):
    """The raw content: list of (extname, rows, header keys) of every table."""
    out = []
    with fitsio.FITS(path) as f:
        for h in list(f)[1:]:
            a = h.read()
            hd = h.read_header()
            out.append((h.get_extname(), a, {k: hd[k] for k in ('CALKEY', 'ZZ', 'PIXELS', 'NAMEK') if k in hd}))
    return out


def same(model, got):
    if len(model) != len(got):
        return '%d tables instead of %d' % (len(got), len(model))
    for i, ((en, a, h), (en2, a2, h2)) in enumerate(zip(model, got)):
        if (en or '').upper() != (en2 or '').upper():
            return 'table %d is called %r instead of %r' % (i + 1, en2, en)
        if not rows_equal(_lower(a), _lower(a2)):
            return 'table %d: %s' % (i + 1, diff_rows(_lower(a2), _lower(a)))
        # order of columns
        if [n.lower() for n in a.dtype.names] != [n.lower() for n in a2.dtype.names]:
            return 'table %d: column order changed' % (i + 1)
        for k, v in h.items():
            if k not in h2:
                return 'table %d: header key %s is missing' % (i + 1, k)
            w = h2[k]
            if (isinstance(v, str) and str(w).strip() != v) or (not isinstance(v, str) and not np.isclose(v, w)):
                return 'table %d: header key %s is %r instead of %r' % (i + 1, k, w, v)
    return None


def _lower(a):
    if a.dtype.names is None:
        return a
    a = np.atleast_1d(a)
    dt = []
    for n in a.dtype.names:
        x = a.dtype[n]
        b, sh = x.base, x.shape
        if b.kind in 'SU':
            b = 'S16'
        dt.append((n.lower(), b, sh) if sh else (n.lower(), b))
    out = np.zeros(len(a), dtype=dt)
    for n in a.dtype.names:
        out[n.lower()] = np.char.strip(np.char.encode(a[n])) if a.dtype[n].base.kind == 'U' else a[n]
    return out


class Model(object):
    """What readers of one file name may see."""

    def __init__(self, path):
        self.path = path
        self.ok = [None]       # acceptable contents (None: no such file)
        self.sig = None
        self.stable = None

    def monitor(self, sim, p, kind, rpath):
        self.look('at %s %s' % (kind, rpath))

    def look(self, when):
        with quiet():
            self._look(when)

    def _look(self, when):
        try:
            st = _o['stat'](self.path)
            sig = (st.st_ino, st.st_size, st.st_mtime_ns)
        except OSError:
            sig = None
        if sig == self.sig and self.stable is self.ok:
            return
        self.sig = sig
        self.stable = self.ok
        if sig is None:
            check(None in self.ok, 'lost', 'the previously saved file is gone (%s)' % when)
            return
        try:
            got = read_all(self.path)
        except Exception as e:
            fail('partial', 'the file exists but cannot be read (%s): %s' % (when, e))
        why = []
        for m in self.ok:
            if m is None:
                continue
            r = same(m, got)
            if r is None:
                return
            why.append(r)
        fail('partial', 'the file is neither the previous nor the new content (%s): %s' % (when, '; '.join(why)))


def gen_save(d, i, models):
    import redmapper
    a = gen_table(d)
    cls = d.pick((redmapper.Catalog, redmapper.GalaxyCatalog, redmapper.DataObject))
    asentry = len(a) == 1 and d.choose(2) == 1
    if asentry:
        cls = redmapper.Entry
    idx = None
    if not asentry or True:
        k = d.choose(6)
        rng = d.sub_rng()
        if k == 1:
            idx = np.where(rng.rand(len(a)) < 0.5)[0]
        elif k == 2:
            idx = rng.permutation(len(a))[:max(1, len(a) // 2)]
        elif k == 3:
            idx = rng.randint(0, len(a), size=len(a) + 2)
        elif k == 4:
            idx = np.zeros(0, dtype=np.int64)
        if idx is not None and len(idx) == 0 and any(a.dtype[n].kind == 'S' for n in a.dtype.names):
            idx = None
    hdr = None
    hd = {}
    if d.choose(2):
        hd = {'CALKEY': 17.25, 'ZZ': 3}
        if d.choose(2):
            hd['NAMEK'] = 'alpha'
        hdr = fitsio.FITSHDR()
        for k, v in hd.items():
            hdr[k] = v
    ext = d.pick((None, 'CHISQBKG', 'ZREDBKG', 'mytab'))
    clobber = d.choose(2) == 0
    exp = a.copy()
    if idx is not None:
        exp = exp[idx]
    return dict(cls=cls, a=a, idx=idx, hdr=hdr, hd=hd, ext=ext, clobber=clobber, exp=(ext, exp, hd))


def do_save(s, path):
    obj = s['cls'](s['a'].copy())
    before = s['a'].tobytes()
    obj.to_fits_file(path, clobber=s['clobber'], header=s['hdr'], extname=s['ext'], indices=s['idx'])
    arr = np.atleast_1d(obj._ndarray)
    check(arr.tobytes() == before, 'object-changed', 'saving changed the object in memory')


def save(env):
    """One process saves a sequence of tables to a few names, faults strike."""
    d = env.d
    os.makedirs(env.root + '/out')
    rel = d.choose(4, 0.7) == 1
    names = ['out/a.fit', 'out/b_bkg.fit', 'c.fit'][:1 + d.choose(3)]
    paths = [env.root + '/' + n for n in names]
    models = [Model(p) for p in paths]
    hist = [(d.choose(len(paths)), gen_save(d, i, models)) for i in range(1 + d.choose(5))]
    if rel:
        os.chdir(env.root)
    nf = d.choose(3, 0.35)
    faults = []
    for _ in range(nf):
        k = d.pick(('crash', 'eio', 'enospc', 'crash', 'eio_r'))
        faults.append({'kind': k, 'cls': 'r' if k == 'eio_r' else d.pick(('pub', 'w', 'any', 'ren')), 'nth': d.choose(4 + 4 * len(hist)),
                       'variant': d.choose(2)})
    i = 0
    restarts = 0
    while i < len(hist):
        sim = env.sim(step_cap=8000)
        for m in models:
            sim.monitors.append(m.monitor)
        sim.arm(faults)
        state = {'i': i}

        def run():
            while state['i'] < len(hist):
                k, s = hist[state['i']]
                m = models[k]
                cur = m.ok[0]
                new = [s['exp']] if (s['clobber'] or cur is None) else cur + [s['exp']]
                m.ok = [cur, new]
                try:
                    do_save(s, names[k] if rel else paths[k])
                except (OSError, IOError) as e:
                    check(len(sim.fault_hits) > state.get('nh', 0), 'error', 'saving failed although nothing was injected: %s' % tb(e))
                    state['nh'] = len(sim.fault_hits)
                    m.look('after a failed save')
                    # which one is it?  the file itself tells
                    settle(m)
                    state['i'] += 1
                    sim.probe('failed-save')
                    continue
                m.ok = [new]
                m.look('after a completed save')
                state['i'] += 1
        p = sim.spawn('save%d' % restarts, run)
        sim.run()
        faults = [f for f in faults if not f.get('fired')]
        if p.killed:
            for m in models:
                m.look('after a kill')
                settle(m)
            i = state['i'] + (0 if d.choose(2) else 1)
            restarts += 1
            continue
        must_finish([p], 'save')
        i = state['i']
    for m in models:
        m.sig = None
        m.stable = None
        m.look('at the end')
        got_back(m)


def settle(m):
    with quiet():
        _settle(m)


def _settle(m):
    if len(m.ok) == 1:
        return
    if not x_exists(m.path):
        m.ok = [None]
        return
    got = read_all(m.path)
    # prefer the new content when both match
    for c in reversed(m.ok):
        if c is not None and same(c, got) is None:
            m.ok = [c]
            return
    fail('partial', 'neither previous nor new content')


def got_back(m):
    """Reading through the package gives what was saved."""
    import redmapper
    c = m.ok[0]
    if c is None:
        return
    for i, (ext, a, hd) in enumerate(c):
        low = _lower(a)
        if len(a) == 0:
            continue
        cat = redmapper.Catalog.from_fits_file(m.path, ext=i + 1)
        check(rows_equal(low, _lower(cat._ndarray)), 'readback', 'table %d reads back differently: %s' % (i + 1, diff_rows(_lower(cat._ndarray), low)))
        names = [(x[0] or '').upper() for x in c]
        if ext and names.count(ext.upper()) == 1:
            cat = redmapper.Catalog.from_fits_file(m.path, ext=ext)
            check(rows_equal(low, _lower(cat._ndarray)), 'readback', 'table %s reads back differently' % ext)
        if len(a) > 2:
            n = len(a)
            for rows in ([0, n - 1], [n - 1, 0], [1], list(range(n))[::-2], [n // 2, 0, n - 1]):
                cat = redmapper.Catalog.from_fits_file(m.path, ext=i + 1, rows=np.array(rows))
                check(rows_equal(low[rows], _lower(cat._ndarray)), 'readback', 'selected rows %s of table %d read back differently' % (rows[:4], i + 1))
        if len(a) == 1:
            e = redmapper.Entry.from_fits_file(m.path, ext=i + 1)
            check(np.atleast_1d(e._ndarray).tobytes() == cat._ndarray.tobytes(), 'readback', 'entry reads back differently')


def concurrent(env):
    """Savers replacing the same file and readers of it, with kills."""
    d = env.d
    import redmapper
    path = env.root + '/t.fit'
    nw = 1 + d.choose(3)
    m = Model(path)
    plans = []
    for w in range(nw):
        pl = []
        for i in range(1 + d.choose(2)):
            s = gen_save(d, i, None)
            s['clobber'] = True
            s['a'] = gen_table(d, n=d.pick((3, 1, 2, 60)), ncol=2) if s['cls'] is not redmapper.Entry else s['a']
            s['exp'] = (s['ext'], s['a'].copy(), s['hd'])
            s['idx'] = None
            pl.append(s)
        plans.append(pl)
    m.ok = [None] + [[s['exp']] for pl in plans for s in pl]
    state = {'seen': False, 'done': 0}
    sim = env.sim(step_cap=20000, preempt=d.pick((0.1, 0.4, 0.7)))

    def mon(sim, p, kind, path_):
        ex = x_exists(path)
        if state['seen']:
            check(ex, 'lost', 'a saved file vanished at %s %s' % (kind, path_))
        m.monitor(sim, p, kind, path_)
        state['seen'] = state['seen'] or ex
    sim.monitors.append(mon)
    if d.choose(2):
        sim.arm([{'kind': 'crash', 'cls': d.pick(('pub', 'w', 'any', 'ren')), 'nth': d.choose(10), 'variant': d.choose(2), 'job': 'w%d' % d.choose(nw)}])

    def writer(pl):
        def run():
            for s in pl:
                do_save(s, path)
                check(x_exists(path), 'lost', 'save returned but there is no file')
            state['done'] += 1
        return run

    def reader():
        n = 0
        for i in range(4):
            sim.sleep(0.002 * d.choose(6))
            if os.path.isfile(path):
                c = redmapper.Catalog.from_fits_file(path)
                n += 1
                low = _lower(c._ndarray)
                check(any(k is not None and rows_equal(_lower(k[0][1]), low) for k in m.ok), 'torn-read', 'a reader saw a mixture')
        return n
    procs = [sim.spawn('w%d' % i, writer(pl)) for i, pl in enumerate(plans)]
    procs += [sim.spawn('r%d' % i, reader) for i in range(1 + d.choose(2))]
    sim.run()
    must_finish([p for p in procs if not p.killed], 'process')
    if state['done']:
        check(x_exists(path), 'lost', 'no file after completed saves')
    m.sig = None
    m.stable = None
    m.look('at the end')


def edit(env):
    """A table is read, changed in memory and saved again by a history of processes, some of which are killed."""
    d = env.d
    import redmapper
    path = env.root + '/t.fit'
    rng = d.sub_rng()
    a = gen_table(d, n=d.pick((3, 1, 7)))
    m = Model(path)
    redmapper.Catalog(a.copy()).to_fits_file(path, clobber=True)
    m.ok = [[(None, a, {})]]
    cur = _cols(a)
    faults = []
    if d.choose(2):
        faults.append({'kind': d.pick(('crash', 'eio', 'enospc')), 'cls': d.pick(('pub', 'w', 'any', 'ren')), 'nth': d.choose(12), 'variant': d.choose(2)})
    nproc = 1 + d.choose(3)
    for k in range(nproc):
        ops = [d.choose(9) for _ in range(1 + d.choose(4))]
        seeds = [int(rng.randint(1 << 30)) for _ in ops]
        sim = env.sim(step_cap=8000)
        sim.monitors.append(m.monitor)
        sim.arm([f for f in faults if not f.get('fired')])
        state = {}

        def run():
            try:
                c = redmapper.Catalog.from_fits_file(path)
            except OSError as e:
                check(sim.fault_hits, 'error', 'reading failed although nothing was injected: %s' % tb(e))
                return
            w = {n: list(v) for n, v in cur.items()}
            for op, sd in zip(ops, seeds):
                c, w = change(c, w, op, np.random.RandomState(sd), k)
                agree(c, w, 'after operation %d' % op)
            if c.size == 0:
                return
            state['w'] = w
            m.ok = [m.ok[0], [(None, _table(w, c._ndarray.dtype), {})]]
            try:
                c.to_fits_file(path, clobber=True)
            except OSError as e:
                check(sim.fault_hits, 'error', 'saving failed although nothing was injected: %s' % tb(e))
        p = sim.spawn('edit%d' % k, run)
        sim.run()
        if not p.killed:
            must_finish([p], 'editor')
        m.look('after a process')
        old = m.ok[0]
        settle(m)
        if 'w' in state and m.ok[0] is not old:
            cur = state['w']
    got_back(m)


def _cols(a):
    return {n.lower(): [x for x in a[n]] for n in a.dtype.names}


def _table(w, dtype):
    n = len(next(iter(w.values())))
    out = np.zeros(n, dtype=dtype)
    for name, v in w.items():
        for i, x in enumerate(v):
            out[name][i] = x
    return out


def agree(c, w, what):
    n = len(next(iter(w.values())))
    check(c.size == n and len(c) == n, 'edit', '%s the catalog has %d rows instead of %d' % (what, c.size, n))
    check(sorted(c._ndarray.dtype.names) == sorted(w), 'edit', '%s the columns are %s instead of %s' % (what, c._ndarray.dtype.names, sorted(w)))
    exp = _table(w, c._ndarray.dtype)
    check(rows_equal(_lower(exp), _lower(c._ndarray)), 'edit', '%s the rows differ: %s' % (what, diff_rows(_lower(c._ndarray), _lower(exp))))


def change(c, w, op, rng, k):
    import redmapper
    n = c.size
    if op == 0:                                     # select rows
        idx = rng.permutation(n)[:max(1, n - 1)]
        return c[idx], {x: [v[i] for i in idx] for x, v in w.items()}
    if op == 1:                                     # append another catalog, or rows
        idx = rng.randint(0, n, size=(1, 2, 3, 30, 0)[rng.randint(5)]) if n else np.zeros(0, dtype=int)
        other = c[idx]
        c.append(other if rng.randint(2) else other._ndarray)
        return c, {x: v + [v[i] for i in idx] for x, v in w.items()}
    if op == 2:                                     # empty rows
        m = (2, 1, 0, 7, 40)[rng.randint(5)]
        c.extend(m)
        z = np.zeros(m, dtype=c._ndarray.dtype)
        return c, {x: v + [z[x][i] for i in range(m)] for x, v in w.items()}
    if op == 3:                                     # a new column
        name = 'New%d_%d' % (k, rng.randint(1000))
        if name.lower() in w:
            return c, w
        t = [(name, 'f4'), (name, 'i8'), (name, bool), (name, 'S5'), (name, 'f8', 3)][rng.randint(5)]
        c.add_fields([t])
        w[name.lower()] = [x for x in np.zeros(n, dtype=[t])[name]]
        return c, w
    if op == 4:                                     # a column that is there
        try:
            c.add_fields([(sorted(w)[0].upper(), 'f4')])
        except ValueError:
            return c, w
        fail('edit', 'a column was added under the name of an existing one')
    if op == 5:                                     # set a column by name, in any case
        name = sorted(w)[rng.randint(len(w))]
        if n > 1:
            src = [w[name][i] for i in rng.permutation(n)]
            setattr(c, name.upper() if rng.randint(2) else name, np.array(src))
            w[name] = src
        return c, w
    if op == 6:                                     # merge tables of the same length, or of different lengths
        x = np.zeros(n, dtype=[('Mrg%d' % k, 'i4')])
        x['Mrg%d' % k] = rng.randint(0, 99, size=n)
        if 'mrg%d' % k in w:
            return c, w
        want = [int(v) for v in x['Mrg%d' % k]]
        for bad in (x[:-1] if n else None, np.append(x, x[:1]) if n else None):
            if bad is None or bad.size == n:
                continue
            try:
                type(c)(c._ndarray.copy(), bad.copy())
            except ValueError:
                continue
            fail('edit', 'tables of %d and %d rows were merged' % (n, bad.size))
        c = type(c)(c._ndarray, x)
        w['mrg%d' % k] = want
        return c, w
    if op == 7:                                     # change rows through entries
        if n:
            i = rng.randint(n)
            j = rng.randint(n)
            row = c._ndarray[j].copy()
            c[int(i)] = row
            for x in w:
                w[x][i] = np.copy(row[x]) if isinstance(row[x], np.ndarray) else row[x]
            e = c[int(j)]
            check(isinstance(e, redmapper.Entry), 'edit', 'a row of a catalog is not an entry')
        return c, w
    # keep the rows of a mask
    use = rng.rand(n) < 0.7
    if not use.any():
        return c, w
    return c[use], {x: [y for y, u in zip(v, use) if u] for x, v in w.items()}


SCENARIOS = {'edit': (edit, (600, 15000)), 'save': (save, (1600, 40000)), 'concurrent': (concurrent, (700, 15000))}
LEVEL_NOTE = 'Seeded search over generated tables, row selections, headers, save histories, edits in memory between reading and saving, kill points (torn at block granularity) and I/O errors of the real to_fits_file; every reachable intermediate file state is compared with the set of allowed contents. Sampled, small tables; power loss (fsync) is not modelled.'
