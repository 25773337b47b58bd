"""P03: a visible galaxy master table is complete, accurate and has unique ids."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, must_finish, tb, current_proc, Job, CTX
from .. import galgen, seams
from ..seams import _o, x_exists
from .p02 import gen_batches, read_pixels, BASES

REAL = ['redmapper.galaxy.GalaxyCatalogMaker', 'redmapper.randoms.RandomCatalogMaker', 'redmapper.catalog.DataObject', 'make_lockfile', 'CFITSIO']
STUBS = ['clock and sleep (virtual)', 'temporary names, process ids (seeded)']


def _sig(path):
    try:
        st = _o['stat'](path)
        return (st.st_ino, st.st_size, st.st_mtime_ns)
    except OSError:
        return None


class Truth(object):
    def __init__(self, outpath, base, nside, info, genids, truth, zspec):
        self.outpath, self.base, self.nside, self.info = outpath, base, nside, info
        self.genids, self.truth, self.zspec = genids, truth, zspec
        self.master = '%s/%s_master_table.fit' % (outpath, base)
        self.before = None
        self.last = None

    def snapshot(self):
        self.before = {p: a for p, a in read_pixels(self.outpath, self.base).items()}

    def validate(self, when):
        """The master table exists: everything the statement promises."""
        try:
            tab = fitsio.read(self.master, ext=1, lower=True, trim_strings=True)
        except Exception as e:
            fail('unreadable-table', 'master table exists but cannot be read %s: %s' % (when, e))
        hdr = fitsio.read_header(self.master, ext=1)
        check(len(tab) == 1, 'table', 'master table has %d rows' % len(tab))
        tab = tab[0]
        check(hdr.get('PIXELS') == 1, 'table-header', 'master table lacks its PIXELS flag')
        pix = read_pixels(self.outpath, self.base)
        want = sorted(p for p, a in self.before.items() if len(a) > 0)
        hp = np.atleast_1d(tab['hpix']).tolist()
        check(sorted(hp) == want, 'table-pixels', 'master table lists pixels %s instead of %s (%s)' % (hp, want, when))
        ng = np.atleast_1d(tab['ngals'])
        fn = np.atleast_1d(tab['filenames'])
        check(int(tab['nside']) == self.nside, 'table-info', 'nside %s' % tab['nside'])
        ra, dec = hpg.pixel_to_angle(self.nside, np.array(hp), nest=False)
        check(np.allclose(ra, tab['ra_pix'], rtol=0, atol=1e-9) and np.allclose(dec, tab['dec_pix'], rtol=0, atol=1e-9), 'table-coords', 'pixel coordinates are wrong')
        allids = []
        for i, p in enumerate(hp):
            name = fn[i].decode() if isinstance(fn[i], bytes) else str(fn[i])
            check(name == '%s_%07d.fit' % (self.base, p), 'table-files', 'pixel %d listed with file %s' % (p, name))
            a = pix.get(p)
            check(a is not None and not isinstance(a, Exception), 'table-files', 'listed file of pixel %d cannot be read %s' % (p, when))
            check(len(a) == ng[i], 'table-counts', 'pixel %d has %d rows, table says %d (%s)' % (p, len(a), ng[i], when))
            b = self.before[p]
            check(len(a) == len(b), 'rows-changed', 'pixel %d has %d rows, %d before finalization' % (p, len(a), len(b)))
            for n in b.dtype.names:
                if n == 'id' and self.genids:
                    continue
                check(np.array_equal(a[n], b[n]), 'content-changed', 'finalization changed column %s of pixel %d' % (n, p))
            allids.append(a['id'])
        ids = np.concatenate(allids) if allids else np.zeros(0, 'i8')
        check(len(np.unique(ids)) == len(ids), 'ids-not-unique', 'galaxy ids are not unique although the table is visible (%s)' % when)
        if self.genids:
            check(np.array_equal(np.sort(ids), np.arange(1, len(ids) + 1)), 'ids-not-fresh', 'ids were not freshly numbered (%s)' % when)
        i = self.info
        for col, key in (('lim_ref', 'LIM_REF'), ('ref_ind', 'REF_IND'), ('area', 'AREA'), ('nmag', 'NMAG'), ('zeropoint', 'ZP'),
                         ('u_ind', 'U_IND'), ('g_ind', 'G_IND'), ('r_ind', 'R_IND'), ('i_ind', 'I_IND'), ('z_ind', 'Z_IND'), ('y_ind', 'Y_IND')):
            if key in i:
                check(col in tab.dtype.names, 'table-info', 'column %s is missing' % col)
                check(np.isclose(tab[col], i[key]), 'table-info', '%s is %s instead of %s' % (col, tab[col], i[key]))
            else:
                check(col not in tab.dtype.names, 'table-info', 'column %s appeared although not supplied' % col)
        m = tab['mode']
        m = m.decode() if isinstance(m, bytes) else str(m)
        check(m.strip() == i['MODE'], 'table-info', 'mode %s' % m)
        bb = np.asarray(i.get('B', np.zeros(i['NMAG'])))
        check(np.allclose(np.asarray(tab['b'])[:bb.size], bb, rtol=1e-6, atol=0.0), 'table-info', 'softening parameters differ')
        check(int(tab['has_truth']) == int(self.truth) and int(tab['has_zspec']) == int(self.zspec), 'table-info', 'truth/zspec flags differ')
        return tab

    def monitor(self, sim, p, kind, path):
        s = _sig(self.master)
        if s is not None and (s != self.last or kind == 'publish'):
            self.validate('at %s %s' % (kind, path))
        self.last = s


def finalize(env):
    d = env.d
    import redmapper
    nside = d.pick((4, 2, 8, 32, 128))
    truth = d.choose(5, 0.8) == 1
    zspec = d.choose(5, 0.8) == 1
    genids = d.choose(2) == 0
    outpath = env.root + '/' + d.pick(('gals', 'a_7654321/gals', 'run_20240101'))
    base = d.pick(BASES)
    info = dict(galgen.INFO)
    k = d.choose(4, 0.5)
    if k == 1:
        for n in ('U_IND', 'B'):
            info.pop(n)
    elif k == 2:
        info['Y_IND'] = 4
        info['MODE'] = 'DES'
    elif k == 3:
        info['MODE'] = d.pick(('LSST', 'DES_Y3_ALL', 'unknown'))
    batches = gen_batches(d, 1 + d.choose(3), truth=truth, zspec=zspec)
    if all(len(b) == 0 for bs in batches for b in bs):
        batches[0].append(galgen.make_gals(d.sub_rng(), 5, np.arange(5) + 90000000, truth=truth, zspec=zspec))
    dup = d.choose(4, 0.7)
    if dup:
        # the same id in two different batches (so the local check cannot see it)
        flat = [b for bs in batches for b in bs if len(b)]
        if len(flat) >= 2:
            flat[-1]['id'][0] = flat[0]['id'][0]
        else:
            extra = flat[0][:1].copy()
            extra['ra'] = (extra['ra'] + 100.0) % 360.0
            batches[0].append(extra)
    style = d.choose(4)
    if style and genids and not dup:
        # ids that look as if they were (partly) numbered already
        rng = d.sub_rng()
        flat = [b for bs in batches for b in bs if len(b)]
        px = np.concatenate([hpg.angle_to_pixel(nside, b['ra'], b['dec'], nest=False) for b in flat])
        num = np.zeros(px.size, dtype=np.int64)
        ctr = 1
        for p in np.unique(px):
            w, = np.where(px == p)
            num[w] = np.arange(ctr, ctr + w.size)
            if style == 1:
                num[w[1:]] = num[w[1:]][::-1]
            elif style == 2:
                num[w[:-1]] = rng.randint(1, px.size + 1, w.size - 1)
            elif rng.randint(2):
                num[w[1:]] = rng.randint(1, px.size + 1, w.size - 1)
            ctr += w.size
        k = 0
        for b in flat:
            b['id'] = num[k: k + len(b)]
            k += len(b)
    elif d.choose(4, 0.6) == 1:
        # 64-bit ids, as surveys hand them out
        for bs in batches:
            for b in bs:
                b['id'] += 1237650000000000000
    T = Truth(outpath, base, nside, info, genids, truth, zspec)

    def maker():
        return redmapper.GalaxyCatalogMaker(outpath + '/' + base, dict(info), nside=nside, parallel=True,
                                            generate_unique_ids=genids, ingest_truth=truth, ingest_zspec=zspec)
    s0 = env.dry(env.root)

    def ingest():
        m = maker()
        for bs in batches:
            for b in bs:
                m.append_galaxies(b)
        early_maker.append(m)
    early_maker = []
    p = s0.spawn('ingest', ingest)
    s0.run()
    must_finish([p], 'ingest')
    # leftovers that are not pixel files of this catalog
    if d.choose(3) == 1:
        with open(outpath + '/%s_notes.txt' % base, 'w') as f:
            f.write('x')
        fitsio.write(outpath + '/%sx_0000003.fit' % base, batches[0][0][:1] if len(batches[0][0]) else galgen.make_gals(np.random.RandomState(1), 1, [5]))
    empty = d.choose(4, 0.7) == 1
    T.snapshot()
    npix = len(T.before)
    bad = dup and not genids
    nfin = 1 + d.choose(4)
    fk = d.pick(('crash', 'none', 'eio', 'crash', 'stall'))
    faults = []
    nth = 12 + (5 if genids else 3) * npix
    if fk == 'crash':
        faults = [{'kind': 'crash', 'cls': d.pick(('pub', 'w', 'any', 'ren')), 'nth': d.choose(2 * npix + 4 if fk == 'pub' else nth), 'variant': d.choose(2)}
                  for _ in range(1 + d.choose(2))]
        if d.choose(2):
            faults[0]['nth'] = d.choose(6)
    elif fk == 'eio':
        faults = [{'kind': d.pick(('eio', 'enospc', 'eio_r')), 'cls': d.pick(('pub', 'w', 'r', 'ren', 'unl')), 'nth': d.choose(nth)}]
        if d.choose(2):
            faults[0]['nth'] = d.choose(4)
        if faults[0]['kind'] == 'eio_r':
            faults[0]['cls'] = 'r'
    elif fk == 'stall':
        faults = [{'kind': 'stall', 'cls': 'any', 'nth': d.choose(nth), 'dt': 100.0} for _ in range(2)]
    rounds = 0
    refused = 0
    lockfile = T.master + '.lock'
    while True:
        rounds += 1
        check(rounds <= 6, 'no-progress', 'finalization did not produce the table in %d rounds' % rounds)
        sim = env.sim(step_cap=60000)
        sim.hot = lambda kind, path: kind in ('stat', 'link', 'unlink', 'publish2', 'replace')
        sim.monitors.append(T.monitor)
        if rounds == 1:
            sim.arm(faults)
        elif rounds == 2 and fk == 'crash' and d.choose(2):
            sim.arm([{'kind': 'crash', 'cls': d.pick(('w', 'any')), 'nth': d.choose(nth), 'variant': d.choose(2)}])
        procs = [sim.spawn('f%d_%d' % (rounds, i), lambda: maker().finalize_catalog()) for i in range(nfin)]
        sim.run()
        hits = [h for h in sim.fault_hits if h[0] != 'stall']
        for p in procs:
            if p.exc is None:
                continue
            if isinstance(p.exc, RuntimeError) and 'already exists' in str(p.exc):
                check(x_exists(T.master), 'error', 'refused because of a table that does not exist')
                continue
            if bad and isinstance(p.exc, RuntimeError):
                refused += 1
                continue
            if hits and isinstance(p.exc, OSError):
                continue
            fail('error', 'finalizer %s: %s' % (p.name, tb(p.exc)))
        if bad:
            check(not x_exists(T.master), 'published-bad', 'a catalog with repeated ids was published')
            if refused:
                sim.probe('refused')
                return
        if x_exists(T.master):
            break
        clean = not hits and not any(p.killed or p.exc for p in procs)
        check(not clean, 'no-table', 'all finalizers returned without error but there is no master table')
        # the operator clears the dead jobs' lock and runs finalization again
        if x_exists(lockfile):
            os.unlink(lockfile)
    T.validate('at the end')
    if not hits and not any(p.killed for p in procs):
        check(not x_exists(lockfile), 'lock-left', 'finalization lock left behind')
    # nothing can be added any more
    before = {f: open(os.path.join(outpath, f), 'rb').read() for f in sorted(os.listdir(outpath)) if f.endswith('.fit')}
    s2 = env.sim(preempt=0.0)
    res = []
    early = d.choose(2) == 1           # this writer started before the table was published

    def late():
        g = galgen.make_gals(np.random.RandomState(7), 4, np.arange(4) + 77777777, truth=truth, zspec=zspec)
        try:
            m = early_maker[0] if early else maker()
            m.append_galaxies(g)
        except RuntimeError as e:
            res.append(e)
    p = s2.spawn('late', late)
    s2.run()
    check(p.exc is None, 'error', 'late append: %s' % (tb(p.exc) if p.exc else ''))
    check(len(res) == 1, 'late-append', 'galaxies were accepted after the master table was published')
    after = {f: open(os.path.join(outpath, f), 'rb').read() for f in sorted(os.listdir(outpath)) if f.endswith('.fit')}
    check(after == before, 'late-append', 'a refused append changed the catalog')


def same_process(env):
    """One process appends and finalizes (serial and parallel), then tries to add."""
    d = env.d
    import redmapper
    par = d.choose(2) == 1
    nside = d.pick((4, 8, 32, 64))
    genids = d.choose(2) == 1
    outpath = env.root + '/' + d.pick(('g', 'y_2023123x/g'))
    base = 'cat'
    info = dict(galgen.INFO)
    batches = [b for bs in gen_batches(d, 1, maxb=4) for b in bs]
    if all(len(b) == 0 for b in batches):
        batches.append(galgen.make_gals(d.sub_rng(), 3, [1, 2, 3]))
    dup = d.choose(4, 0.7) == 1
    flat = [b for b in batches if len(b)]
    if dup and len(flat) > 1:
        flat[-1]['id'][-1] = flat[0]['id'][0]
    else:
        dup = False
    use_split = len(flat) == 1 and len(batches) == 1 and d.choose(2) == 1
    T = Truth(outpath, base, nside, info, genids, False, False)
    sim = env.sim(preempt=0.0)
    state = {}

    def run():
        m = redmapper.GalaxyCatalogMaker(outpath + '/' + base, dict(info), nside=nside, parallel=par, generate_unique_ids=genids)
        if use_split:
            m.split_galaxies(batches[0])
        else:
            for b in batches:
                m.append_galaxies(b)
            me = current_proc()
            me.depth += 1
            T.snapshot()
            me.depth -= 1
            sim.monitors.append(T.monitor)
            try:
                m.finalize_catalog()
            except RuntimeError:
                if not (dup and not genids):
                    raise
                state['refused'] = True
                return
        for f in (lambda: m.append_galaxies(batches[0]), lambda: m.split_galaxies(batches[0])):
            try:
                f()
            except RuntimeError:
                continue
            fail('late-append', 'a finalized maker accepted more galaxies')
    fk = d.pick(('none', 'eio'))
    if fk == 'eio':
        sim.arm([{'kind': d.pick(('eio', 'eio_r')), 'cls': d.pick(('pub', 'ren', 'r')), 'nth': d.choose(25)}])
    p = sim.spawn('one', run)
    sim.run()
    if p.exc is not None:
        if sim.fault_hits and isinstance(p.exc, OSError):
            sim.probe('io-error')
        else:
            fail('error', tb(p.exc))
    elif dup and not genids:
        check(state.get('refused'), 'published-bad', 'repeated ids were accepted')
    if dup and not genids:
        check(not x_exists(T.master), 'published-bad', 'a catalog with repeated ids was published')
    elif p.exc is None:
        if T.before is None:
            T.snapshot()
            want = batches[0] if not genids else None
        T.validate('at the end')


def crowded(env):
    """A pixel with more galaxies than a two-byte number can count."""
    d = env.d
    import redmapper
    par = d.choose(2) == 1
    genids = d.choose(2) == 1
    nside = d.pick((4, 1, 64))
    n = d.pick((66000, 33000, 65536, 32768))
    outpath = env.root + '/c'
    rng = d.sub_rng()
    c = galgen.CENTERS[d.choose(6)]
    a = galgen.make_gals(rng, n, rng.permutation(n) + 1)
    ra, dec = hpg.pixel_to_angle(nside, int(hpg.angle_to_pixel(nside, c[0], c[1], nest=False)), nest=False)
    a['ra'] = (ra + rng.uniform(-0.05, 0.05, n)) % 360.0
    a['dec'] = dec + rng.uniform(-0.05, 0.05, n)
    b = galgen.make_gals(rng, 20, np.arange(20) + 1000000)
    T = Truth(outpath, 'cat', nside, dict(galgen.INFO), genids, False, False)
    sim = env.sim(preempt=0.0)
    k = d.pick((n // 2, 1, n - 1))
    new = d.choose(2) == 1

    def run():
        def mk():
            return redmapper.GalaxyCatalogMaker(outpath + '/cat', dict(galgen.INFO), nside=nside, parallel=par, generate_unique_ids=genids)
        m = mk()
        for x in (a[:k], b, a[k:]):
            m.append_galaxies(x)
        me = current_proc()
        me.depth += 1
        T.snapshot()
        me.depth -= 1
        if par and new:
            m = mk()
        m.finalize_catalog()
    p = sim.spawn('one', run)
    sim.run()
    must_finish([p], 'crowded')
    check(sum(len(x) for x in T.before.values()) == n + 20, 'lost', 'the pixel files hold %d galaxies of %d' % (sum(len(x) for x in T.before.values()), n + 20))
    T.validate('at the end')


SCENARIOS = {'crowded': (crowded, (24, 400)), 'finalize': (finalize, (900, 20000)), 'same_process': (same_process, (250, 4000))}

LEVEL_NOTE = 'Seeded search over concurrent and repeated finalizations with kills and I/O errors at every file operation; master table compared with an independent census of the pixel files whenever it is visible.'
