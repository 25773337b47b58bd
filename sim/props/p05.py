"""P05: zreds do not depend on workers, chunking or schedule, and stay row-aligned."""
import os

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, zredworld as zw

REAL = ['redmapper.zred_runner.ZredRunCatalog', 'redmapper.zred_runner.ZredRunPixels', 'redmapper.zred_color.ZredColor', 'redmapper.galaxy readers', 'redmapper.catalog save path', 'CFITSIO']
STUBS = ['multiprocessing pool on simulated processes', 'one loaded red-sequence model shared by the runs']
ASSUMPTIONS = ['galaxies drawn from 240 test-survey galaxies, including ones outside of the red-sequence range']


def prepare(ctx):
    zw.prepare(ctx)
    zw.computing()


def fault_or_none(env, d, p=0.7, kinds=('eio_r', 'enospc', 'eio', 'crash', 'nomem', 'raise')):
    if d.choose(10) >= 10 * (1 - p):
        return []
    k = d.pick(kinds)
    if k in ('nomem', 'raise'):
        return [{'kind': k, 'cls': 'cpu', 'nth': d.choose(5)}]
    if k == 'eio_r':
        return [{'kind': k, 'cls': 'r', 'nth': d.choose(14)}]
    if k == 'crash':
        return [{'kind': k, 'cls': d.pick(('any', 'pub', 'task')), 'nth': d.choose(20), 'variant': d.choose(2)}]
    return [{'kind': k, 'cls': 'pub', 'nth': d.choose(6)}]


def catalog(env):
    """One galaxy file, chunked over a pool."""
    d = env.d
    n = d.pick((20, 1, 3, 60, 2, 35))
    nproc = d.pick((2, 1, 3, 5, 8))
    g, pool = zw.fresh(d, n)
    gf = os.path.join(env.root, 'g.fit')
    fitsio.write(gf, g, clobber=True)
    out = os.path.join(env.root, 'z.fit')
    nsamp = d.pick((4, 1))
    kw = {}
    k = d.choose(3)
    if k == 1:
        kw['nperproc'] = d.pick((7, 1, n, n + 5, max(1, n - 1)))
    elif k == 2:
        kw['maxperproc'] = d.pick((5, 1, 1000))
    fn = survey.config(os.path.join(env.root, 'c.yml'), calib_nproc=nproc, outpath=env.root, zred_nsamp=nsamp)
    old = None
    if d.choose(4) == 1:
        old, oi = zw.fresh(d, 3)
        fitsio.write(out, old)
        if d.choose(2):
            kw['clobber'] = True

    def body():
        from redmapper import Configuration
        from redmapper.zred_runner import ZredRunCatalog
        ZredRunCatalog(Configuration(fn)).run(gf, out, **kw)
    sim = env.sim()
    sim.arm(fault_or_none(env, d))
    p = sim.spawn('zred', body)
    sim.run()
    env.key = ('catalog', n, nproc, tuple(sorted(kw)), bool(sim.fault_hits), sim.log_hash())
    if any(h[0] in ('nomem', 'raise') for h in sim.fault_hits):
        check(not p.ok, 'swallowed', 'a worker failed, and the run returned as if nothing had happened')
        check(old is not None or not os.path.exists(out), 'published', 'a worker failed, and the output was published')
    if sim.fault_hits and not p.ok:
        # nothing half-done may be visible
        if os.path.exists(out):
            a = fitsio.read(out, ext=1, lower=True)
            if old is not None and 'zred_samp' not in a.dtype.names:
                check(rows_equal(a, old), 'partial', 'the previous output was damaged')
            else:
                zw.check_zreds(a, pool, nsamp, 'output of a failed run')
        if any(k in ('eio', 'enospc', 'eio_r') for k, *_ in sim.fault_hits):
            check(p.exc is not None or p.killed, 'swallowed', 'the run neither failed nor finished')
        sim = env.sim()
        kw['clobber'] = True
        p = sim.spawn('again', body)
        sim.run()
        must_finish([p], 'repeated run')
        old = None
    must_finish([p], 'zred run')
    a = fitsio.read(out, ext=1, lower=True)
    if old is not None and not kw.get('clobber'):
        return
    zw.check_zreds(a, pool, nsamp, 'zred file')


def pixels(env):
    """A pixelized catalog over a pool (or the single-process variant), whole or for a region."""
    d = env.d
    w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root)
    zdir = os.path.join(env.root, d.pick(('z', 'a_zreds_0000003/z')))
    zf = os.path.join(zdir, w['base'] + '_zreds_master_table.fit')
    over = dict(calib_nproc=d.pick((2, 1, 3, 6)))
    pix = list(w['pix'])
    if d.choose(3) == 1:
        b = d.pick(sorted(set(w['bigof'].values())))
        over.update(nside=w['big'], hpix=b, area=1.0, border=0.0)
        pix = [p for p in pix if w['bigof'][p] == b]
    single = d.choose(4) == 1
    notable = d.choose(5) == 1
    fn = zw.cfg(w, os.path.join(env.root, 'c', 'c.yml'), zf, **over)
    stale = d.choose(4) == 1
    if stale:
        # leftovers of an earlier calculation
        os.makedirs(zdir)
        for p in w['pix'][:2]:
            fitsio.write(os.path.join(zdir, '%s_zreds_%07d.fit' % (w['base'], p)), np.zeros(3, dtype=[('zred', 'f4')]))
    res = {}

    def body():
        from redmapper import Configuration
        from redmapper.zred_runner import ZredRunPixels
        res['r'] = ZredRunPixels(Configuration(fn)).run(single_process=single, no_zred_table=notable)

    tables = []

    def mon(sim, p, kind, path):
        if kind in ('publish', 'publish2', 'rename') and os.path.exists(zf):
            zw.check_table(zf, w, pix, 'when the table appeared')
            tables.append(1)
    sim = env.sim()
    sim.monitors.append(mon)
    sim.arm(fault_or_none(env, d))
    p = sim.spawn('zred', body)
    sim.run()
    env.key = ('pixels', len(pix), over['calib_nproc'], single, notable, bool(sim.fault_hits), sim.log_hash())
    if any(h[0] in ('nomem', 'raise') for h in sim.fault_hits):
        check(not p.ok, 'swallowed', 'a worker failed, and the run returned as if nothing had happened')
        check(not os.path.exists(zf), 'published', 'a worker failed, and the table was published')
    if sim.fault_hits and not p.ok:
        if os.path.exists(zf):
            zw.check_table(zf, w, pix, 'of a failed run')
        sim = env.sim()
        sim.monitors.append(mon)
        p = sim.spawn('again', body)
        sim.run()
    must_finish([p], 'zred run')
    have = sorted(int(f[-11:-4]) for f in os.listdir(zdir) if f.endswith('.fit') and not f.startswith('.') and 'master' not in f)
    for q in pix:
        check(q in have, 'missing', 'no zred file for pixel %d' % q)
    if not stale:
        check(have == sorted(pix), 'extra', 'zred files for pixels %s, requested %s' % (have, sorted(pix)))
    if notable:
        check(not os.path.exists(zf), 'table', 'a table appeared although none was requested')
        check(sorted(w['pix'][int(i)] for i, f in res['r']) == sorted(pix), 'returned', 'returned list does not name the requested pixels')
        for i, f in res['r']:
            q = w['pix'][int(i)]
            zw.check_zreds(zw.read_zreds(f), w['pool'][q], w['nsamp'], 'zreds of pixel %d' % q)
    else:
        check(os.path.exists(zf), 'missing', 'no zred table')
        zw.check_table(zf, w, pix)
        if not stale:
            reread(w, zf, fn, pix)


def reread(w, zf, fn, pix):
    """A reader of the pair gets every galaxy with its own zred."""
    from redmapper import GalaxyCatalog
    if sorted(pix) != sorted(w['pix']):
        return
    g = GalaxyCatalog.from_galfile(w['galfile'], zredfile=zf)
    got = np.array(g._ndarray['zred'])
    want = np.concatenate([CTX.data['zref']['zred'][w['pool'][p]] for p in w['pix']])
    key = np.concatenate([w['rows'][p]['ra'] for p in w['pix']])
    o, q = np.argsort(np.array(g._ndarray['ra'])), np.argsort(key)
    check(len(got) == len(want) and np.allclose(got[o], want[q], atol=2e-6, rtol=2e-5), 'aligned', 'a reader of galaxies and zreds gets other zreds')


SCENARIOS = {'catalog': (catalog, (450, 9000)), 'pixels': (pixels, (450, 9000))}
LEVEL_NOTE = 'Seeded search over worker counts, chunk sizes, catalogs, regions, pool schedules and faults with the real zred computation; every output row is compared with the value computed for that galaxy in one go. Sampled.'
