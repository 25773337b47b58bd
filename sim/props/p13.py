"""P13: backgrounds: worker independence, shared file, crashes."""
import os

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, zredworld as zw, minicfg

REAL = ['redmapper.background.BackgroundGenerator', 'redmapper.background.ZredBackgroundGenerator', 'redmapper.color_background.ColorBackgroundGenerator',
        'redmapper.redsequence.RedSequenceColorPar', 'redmapper.catalog save path', 'CFITSIO']
STUBS = ['multiprocessing pool on simulated processes', 'loaded red-sequence models shared between runs that load the same range']
ASSUMPTIONS = ['the two generators are not run at the same time on one file', 'without depth map (the area is given), except where the test survey is used']


def prepare(ctx):
    import redmapper.background as bg
    zw.prepare(ctx)
    if not hasattr(bg.RedSequenceColorPar, '_orig'):
        bg.RedSequenceColorPar = survey.cached(bg.RedSequenceColorPar, 'RedSequenceColorPar')


def lay(env, pixelized=True):
    d = env.d
    if pixelized:
        w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(30, 8, 90, 1), many=5)
        hollow(env, w)
        g, i = np.concatenate([w['rows'][p] for p in w['pix']]), np.concatenate([w['pool'][p] for p in w['pix']])
        t = fitsio.read(w['galfile'], ext=1)
        names = dict((p, 'zz_zreds_%07d.fit' % p) for p in w['pix'])
        for k, p in enumerate(w['pix']):
            fitsio.write(os.path.join(env.root, 'g', names[p]), zrows(w['pool'][p]))
        zt = minicfg.galtable(os.path.join(env.root, 'g'), nside=w['nside'], pix=w['pix'], name='zz_zreds_master_table.fit', ngals=[len(w['rows'][p]) for p in w['pix']])
        a = fitsio.read(zt, ext=1)
        for k, p in enumerate(w['pix']):
            a['filenames'][0][k] = names[p].encode()
        fitsio.write(zt, a, header={'PIXELS': 1}, clobber=True)
        w['zredfile'] = zt
    else:
        n = d.pick((60, 7, 150, 1))
        g, i = zw.fresh(d, n)
        w = dict(galfile=os.path.join(env.root, 'g.fit'), nsamp=4, zredfile=None)
        fitsio.write(w['galfile'], g, header={'FITS': 1, 'PIXELS': 0, 'MODE': 'SDSS', 'AREA': 20.0, 'LIM_REF': 22.0, 'NMAG': 5, 'ZP': 22.5, 'I_IND': 3, 'R_IND': 2, 'G_IND': 1, 'U_IND': 0, 'Z_IND': 4},
                     clobber=True)
    w['gals'], w['pool_all'] = g, i
    return w


def hollow(env, w):
    """Sometimes the galaxy table lists a pixel that has no galaxy."""
    d = env.d
    if d.choose(4) != 1:
        return
    import hpgeom as hpg
    path = os.path.join(env.root, 'g')
    p = int([q for q in range(max(0, min(w['pix']) - 3), hpg.nside_to_npixel(w['nside'])) if q not in w['pix']][0])
    at = d.choose(len(w['pix']) + 1)
    w['pix'].insert(at, p)
    q = w['pix'][at - 1] if at else w['pix'][1]
    w['rows'][p], w['pool'][p] = w['rows'][q][:0], w['pool'][q][:0]
    ra, dec = hpg.pixel_to_angle(w['nside'], np.array([p]), nest=False)
    w['bigof'][p] = int(hpg.angle_to_pixel(w['big'], ra, dec, nest=False)[0])
    minicfg.galtable(path, nside=w['nside'], pix=w['pix'], ngals=[len(w['rows'][x]) for x in w['pix']])
    fitsio.write(os.path.join(path, 'mini_%07d.fit' % p), w['rows'][p], clobber=True)


def zrows(pool):
    ref = CTX.data['zref']
    dt = [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('zred_samp', 'f4', (4,)),
          ('lkhd', 'f4'), ('chisq', 'f4')]
    a = np.zeros(len(pool), dtype=dt)
    for c in zw.COLS:
        a[c] = ref[c][pool]
    return a


def config(w, fn, root, **over):
    kw = dict(galfile=w['galfile'], outpath=root, depthfile=None, maskfile=None, mask_mode=0, catfile=None, zlambdafile=None)
    if w.get('zredfile'):
        kw['zredfile'] = w['zredfile']
    kw.update(over)
    return survey.config(fn, **kw)


def gens(kind, fn, **kw):
    def run():
        from redmapper import Configuration, BackgroundGenerator, ZredBackgroundGenerator
        c = Configuration(fn)
        if kind == 'chisq':
            BackgroundGenerator(c).run(**kw)
        else:
            ZredBackgroundGenerator(c).run(**kw)
    return run


def settings(d):
    zr = d.pick(([0.1, 0.2], [0.1, 0.31], [0.05, 0.45], [0.2, 0.28]))
    return dict(zrange=list(zr), bkg_zbinsize=d.pick((0.02, 0.03, 0.05, 0.012)), bkg_chisqbinsize=d.pick((0.5, 1.0)), bkg_refmagbinsize=d.pick((0.2, 0.1)), area=d.pick((20.0, 3.0)))


def expect(gals, kw, deep, full):
    """The galaxy background, all bins in one go, from the whole galaxy list."""
    from redmapper import RedSequenceColorPar, GalaxyCatalog
    from redmapper.utilities import cic
    lim = full['limmag']
    zb, zs = kw['bkg_zbinsize'], kw['zrange']
    nz = int(np.ceil((zs[1] - zs[0]) / zb))
    z = np.arange(nz) * zb + zs[0]
    key = ('bkg', tuple(zs), zb)
    if key not in survey._cache:
        survey._cache[key] = RedSequenceColorPar(CTX.data['survey']['parfile'], zrange=np.array([z[0], z[-1] + zb]))
    model = survey._cache[key]
    lo = 12.0
    nr = int(np.ceil((lim - lo) / kw['bkg_refmagbinsize']))
    rb = np.arange(nr) * kw['bkg_refmagbinsize'] + lo
    nc = int(np.ceil(full['chisq_max'] / kw['bkg_chisqbinsize']))
    g = GalaxyCatalog(gals.copy())
    rm = np.array(g.refmag)
    out = np.zeros((nr, nc, nz))
    nl = 40
    outl = np.zeros((nr, nl, nz))
    for i in range(nz):
        m = float(np.atleast_1d(model.mstar(z[i] + zb))[0]) - 2.5 * np.log10(0.01 if deep else 0.1)
        if m >= lim:
            m = lim - 0.01
        pos = int(np.clip(int((m - lo) * nr / (lim - lo)), 0, nr - 1))
        m = rb[pos] + kw['bkg_refmagbinsize']
        use, = np.where((rm > lo) & (rm < m))
        if use.size == 0:
            continue
        chi = np.asarray(model.calculate_chisq(g[use], z[i]), dtype='f4')
        ok = (chi >= 0) & (chi < full['chisq_max']) & (rm[use] < lim) & (rm[use] >= lo)
        f = cic(np.ones(ok.sum()), chi[ok] * nc / full['chisq_max'], nc, (rm[use][ok].astype('f4') - lo) * nr / (lim - lo), nr, isolated=True)
        out[:, :, i] = f / (full['area'] * kw['bkg_chisqbinsize'] * kw['bkg_refmagbinsize'])
        ln = np.log(chi)
        ok = (ln >= -2.0) & (ln < 6.0) & (rm[use] < lim) & (rm[use] >= lo)
        f = cic(np.ones(ok.sum()), (ln[ok] + 2.0) * nl / 8.0, nl, (rm[use][ok].astype('f4') - lo) * nr / (lim - lo), nr, isolated=True)
        outl[:, :, i] = f / (full['area'] * 0.2 * kw['bkg_refmagbinsize'])
    return out, outl


def expect_zred(gals, pool, kw, full):
    """The zred background from the whole galaxy list."""
    from redmapper import RedSequenceColorPar, GalaxyCatalog
    from redmapper.utilities import cic
    key = ('zbkg', tuple(kw['zrange']))
    if key not in survey._cache:
        survey._cache[key] = np.array(RedSequenceColorPar(CTX.data['survey']['parfile'], fine=True, zrange=np.array(kw['zrange'])).z)
    z = survey._cache[key]
    lim, lo = full['limmag'], 12.0
    nr = int(np.ceil((lim - lo) / kw['bkg_refmagbinsize']))
    zlo, zhi = z[0], z[-2] + (z[1] - z[0])
    nz = int(np.ceil((zhi - zlo) / full['zbin']))
    zr = zrows(pool)
    rm = np.array(GalaxyCatalog(gals.copy()).refmag).astype('f4')
    zred = zr['zred'].astype('f4')
    ok = (zr['chisq'] < full['maxchi']) & (zred >= zlo) & (zred < zhi) & (rm > lo) & (rm < lim)
    f = cic(np.ones(ok.sum()), (zred[ok] - zlo) * nz / (zhi - zlo), nz, (rm[ok] - lo) * nr / (lim - lo), nr, isolated=True)
    return np.clip(f, 0.1, None) / (full['area'] * kw['bkg_refmagbinsize'] * full['zbin'])


def table(fn, ext):
    return fitsio.read(fn, ext=ext, lower=True)


def extnames(fn):
    with fitsio.FITS(fn) as f:
        return [h.get_extname() for h in f[1:]]


def workers(env):
    """Any number of workers, any schedule: the background of all galaxies in one go."""
    d = env.d
    pixelized = d.choose(5) != 1
    w = lay(env, pixelized)
    kw = settings(d)
    bk = os.path.join(env.root, 'out', 'b.fit')
    os.makedirs(os.path.dirname(bk))
    nproc = d.pick((2, 1, 3, 4, 7, 12))
    over = dict(kw)
    gals = w['gals']
    if pixelized and d.choose(3) == 1:
        bs = region(d, w)
        over.update(nside=w['big'], hpix=bs, border=0.0)
        gals = np.concatenate([w['rows'][p] for p in w['pix'] if w['bigof'][p] in bs])
    deep = d.choose(3) == 1
    rec = {}
    fn = config(w, os.path.join(env.root, 'c.yml'), env.root, bkgfile=bk, calib_nproc=nproc, **over)

    def body():
        from redmapper import Configuration, BackgroundGenerator
        c = Configuration(fn)
        with quiet():
            rec.update(limmag=float(c.limmag_catalog), chisq_max=float(c.chisq_max), area=float(c.area))
        BackgroundGenerator(c).run(deepmode=deep, natatime=rec['nat'])
    rec['nat'] = d.pick((100000, 7, 20, 1))
    sim = env.sim()
    p = sim.spawn('bkg', body)
    sim.run()
    must_finish([p], 'background')
    check(extnames(bk) == ['CHISQBKG'], 'tables', 'tables %s' % extnames(bk))
    t = table(bk, 'CHISQBKG')
    want, wantl = expect(gals, kw, deep, rec)
    got = np.asarray(t['sigma_g'][0], dtype='f8')
    got = got.reshape(want.shape) if got.size == want.size else got
    check(got.shape == want.shape, 'bins', 'background has shape %s instead of %s' % (got.shape, want.shape))
    bad = ~np.isclose(got, want, rtol=1e-4, atol=1e-5 * max(want.max(), 1e-30))
    check(not bad.any(), 'background', 'with %d workers %d of %d values differ from the background computed in one go (redshift bins %s)'
          % (nproc, bad.sum(), bad.size, sorted(set(np.where(bad)[2].tolist()))))
    got = np.asarray(t['sigma_lng'][0], dtype='f8')
    check(got.size == wantl.size, 'bins', 'log-binned background has shape %s instead of %s' % (got.shape, wantl.shape))
    bad = ~np.isclose(got.reshape(wantl.shape), wantl, rtol=1e-4, atol=1e-5 * max(wantl.max(), 1e-30))
    # (a value on the boundary of a bin may fall on either side)
    check(not bad.any(), 'background', 'with %d workers %d of %d log-binned values differ from the background computed in one go (redshift bins %s)'
          % (nproc, bad.sum(), bad.size, sorted(set(np.where(bad)[2].tolist()))))
    env.key = ('workers', nproc, pixelized, deep, sim.log_hash())


def region(d, w):
    all_ = sorted(set(w['bigof'].values()))
    bs = [d.pick(all_)]
    if len(all_) > 1 and d.choose(2):
        bs = sorted(set(bs + [d.pick(all_)]))
        if d.choose(2):
            bs = bs[::-1]
    return bs


def zred(env):
    """The zred background of all requested galaxies."""
    d = env.d
    w = lay(env)
    kw = settings(d)
    bk = os.path.join(env.root, 'out', 'b.fit')
    os.makedirs(os.path.dirname(bk))
    over = dict(kw)
    use = list(w['pix'])
    if d.choose(3) == 1:
        bs = region(d, w)
        over.update(nside=w['big'], hpix=bs, border=0.0)
        use = [p for p in use if w['bigof'][p] in bs]
    rec = {}
    fn = config(w, os.path.join(env.root, 'c.yml'), env.root, bkgfile=bk, **over)

    def body():
        from redmapper import Configuration, ZredBackgroundGenerator
        c = Configuration(fn)
        with quiet():
            rec.update(limmag=float(c.limmag_catalog), area=float(c.area), zbin=float(c.bkg_zredbinsize), maxchi=float(c.wcen_zred_chisq_max))
        ZredBackgroundGenerator(c).run()
    sim = env.sim()
    p = sim.spawn('zbkg', body)
    sim.run()
    must_finish([p], 'zred background')
    t = table(bk, 'ZREDBKG')
    want = expect_zred(np.concatenate([w['rows'][x] for x in use]), np.concatenate([w['pool'][x] for x in use]), kw, rec)
    got = np.asarray(t['sigma_g'][0], dtype='f8')
    check(got.size == want.size, 'bins', 'zred background has shape %s instead of %s' % (got.shape, want.shape))
    bad = ~np.isclose(got.reshape(want.shape), want, rtol=1e-4)
    check(not bad.any(), 'background', '%d of %d values of the zred background differ from those of the galaxies in one go' % (bad.sum(), bad.size))
    env.key = ('zred', sim.log_hash())


def shared(env):
    """Both backgrounds in one file; kills and write errors anywhere, repeats."""
    d = env.d
    w = lay(env)
    kw = settings(d)
    nproc = d.pick((2, 1, 3, 4))
    ref = {}
    root = env.subroot('ref')
    counters = {}
    for kind, ext in (('chisq', 'CHISQBKG'), ('zred', 'ZREDBKG')):
        s0 = env.dry(root)
        fn = config(w, os.path.join(root, kind + '.yml'), root, bkgfile=os.path.join(root, kind + '.fit'), calib_nproc=1, **kw)
        p = s0.spawn(kind, gens(kind, fn))
        s0.run()
        must_finish([p], 'undisturbed generation')
        ref[ext] = table(os.path.join(root, kind + '.fit'), ext)
        counters[kind] = dict(s0.counters)
    bk = os.path.join(env.root, 'out', d.pick(('b.fit', 'x_bkg.fit')))
    os.makedirs(os.path.dirname(bk))
    fn = config(w, os.path.join(env.root, 'c.yml'), env.root, bkgfile=bk, calib_nproc=nproc, **kw)
    EXT = {'chisq': 'CHISQBKG', 'zred': 'ZREDBKG'}

    def state(what):
        if not os.path.exists(bk):
            return []
        names = extnames(bk)
        check(len(set(names)) == len(names), 'twice', 'tables %s %s' % (names, what))
        for n in names:
            check(n in ref, 'tables', 'table %s %s' % (n, what))
            check(rows_equal(table(bk, n), ref[n]), 'content', '%s %s: %s' % (n, what, diff_rows(table(bk, n), ref[n])[:200]))
        return names

    def mon(s, p, kind, path):
        if kind in ('publish', 'publish2', 'rename'):
            with quiet():
                state('during the generation')
    have = []
    for k in range(2 + d.choose(4)):
        kind = d.pick(('chisq', 'zred'))
        sim = env.sim()
        sim.monitors.append(mon)
        if d.choose(3):
            sim.arm(env.plan(counters[kind], ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
        before = open(bk, 'rb').read() if os.path.exists(bk) else None
        p = sim.spawn('g%d' % k, gens(kind, fn))
        sim.run()
        now = state('after generation %d' % k)
        check(set(have) <= set(now), 'lost', 'tables %s became %s when making %s' % (have, now, kind))
        if p.ok:
            check(EXT[kind] in now, 'missing', 'generation of %s finished, the file has %s' % (kind, now))
        else:
            check(sim.fault_hits, 'error', 'generation raised although nothing failed: %s' % (tb(p.exc) if p.exc is not None else ''))
        if EXT[kind] in have:
            check(open(bk, 'rb').read() == before, 'repeat', 'repeating the generation of %s changed the file' % kind)
        have = now
    for kind in ('chisq', 'zred'):
        sim = env.sim()
        p = sim.spawn('last_' + kind, gens(kind, fn))
        sim.run()
        must_finish([p], 'generation')
    check(sorted(state('in the end')) == ['CHISQBKG', 'ZREDBKG'], 'missing', 'final tables %s' % extnames(bk))
    if d.choose(3) == 1:
        kind = d.pick(('chisq', 'zred'))
        sim = env.sim()
        p = sim.spawn('clobber', gens(kind, fn, clobber=True))
        sim.run()
        must_finish([p], 'generation')
        check(EXT[kind] in state('after overwriting'), 'missing', 'overwriting left %s' % extnames(bk))
    env.key = ('shared', nproc, sim.log_hash())


def color(env):
    """The colour background: all its tables or none."""
    d = env.d
    w = lay(env)
    over = dict(area=20.0)
    root = env.subroot('ref')

    def body(fn, **kw):
        def run():
            from redmapper import Configuration
            from redmapper.color_background import ColorBackgroundGenerator
            ColorBackgroundGenerator(Configuration(fn), minrangecheck=1).run(**kw)
        return run
    ref = os.path.join(root, 'ref.fit')
    s0 = env.dry(root)
    p = s0.spawn('ref', body(config(w, os.path.join(root, 'c.yml'), root, bkgfile_color=ref, **over)))
    s0.run()
    if p.exc is not None:
        # too few galaxies to define the colour ranges
        check(isinstance(p.exc, ValueError), 'error', 'colour background: %s' % tb(p.exc))
        return
    counters = dict(s0.counters)
    want = dict((n, table(ref, n)) for n in extnames(ref))
    bk = os.path.join(env.root, 'out', 'col.fit')
    os.makedirs(os.path.dirname(bk))
    fn = config(w, os.path.join(env.root, 'c.yml'), env.root, bkgfile_color=bk, **over)

    def state(what):
        if not os.path.exists(bk):
            return False
        check(extnames(bk) == list(want), 'tables', 'colour background has tables %s %s' % (extnames(bk), what))
        for n in want:
            check(rows_equal(table(bk, n), want[n]), 'content', 'colour background %s %s' % (n, what))
        return True
    for k in range(1 + d.choose(2)):
        sim = env.sim()
        sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
        p = sim.spawn('g%d' % k, body(fn))
        sim.run()
        there = state('after generation %d' % k)
        if p.ok:
            check(there, 'missing', 'no colour background')
    sim = env.sim()
    p = sim.spawn('last', body(fn))
    sim.run()
    must_finish([p], 'colour background')
    check(state('in the end'), 'missing', 'no colour background')
    env.key = ('color', sim.log_hash())


SCENARIOS = {'workers': (workers, (350, 9000)), 'zred': (zred, (120, 3000)), 'shared': (shared, (200, 6000)), 'color': (color, (16, 300))}
LEVEL_NOTE = 'Seeded search over galaxy samples, settings, worker counts, schedules, generation orders, kills and write errors with the real generators; compared with a background computed in one go from the whole galaxy list. Sampled.'
