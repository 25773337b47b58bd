"""P16: redMaGiC selection and its randoms."""
import os

import numpy as np
import fitsio
import healsparse
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, minicfg

REAL = ['redmapper.redmagic.RunRedmagicTask', 'redmapper.redmagic.RedmagicSelector', 'redmapper.redmagic.RedmagicGenerateRandoms',
        'redmapper.volumelimit.VolumeLimitMask', 'redmapper.GalaxyCatalog', 'redmapper.Configuration', 'healsparse', 'CFITSIO']
STUBS = ['drawn calibration parameters instead of fitted ones', 'the red-sequence model is loaded once and shared between runs', 'plots are not made']
ASSUMPTIONS = ['one selection job at a time', 'catalogs of at least two sky pixels']


def prepare(ctx):
    import redmapper.redmagic.redmagic_selector as rs
    from redmapper import RedSequenceColorPar
    survey.prepare(ctx)
    ctx.data['model'] = RedSequenceColorPar(ctx.data['survey']['parfile'], fine=True)
    if not hasattr(rs.RedSequenceColorPar, '_orig'):
        rs.RedSequenceColorPar = survey.cached(rs.RedSequenceColorPar, 'RedSequenceColorPar')


def lay(env):
    d = env.d
    m = CTX.data['model']
    rng = d.sub_rng()
    nside = d.pick((16, 8, 32))
    npix = 2 + d.choose(5)
    ra0, dec0 = d.pick(((140.0, 30.0), (2.0, 1.0), (359.9, -45.0), (70.0, 88.0)))
    near = hpg.query_circle(nside, ra0, dec0, 400.0 / nside, nest=False)
    pix = [int(p) for p in np.sort(rng.choice(near, min(npix, near.size), replace=False))]
    if d.choose(3) == 1:
        rng.shuffle(pix)
    truth = d.pick((None, None, 'ztrue', 'zspec'))
    nsamp = d.pick((4, 2, 1))
    gd = os.path.join(env.root, 'g')
    os.makedirs(gd)
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', (5,)), ('mag_err', 'f4', (5,)), ('ebv', 'f4')]
    if truth == 'ztrue':
        dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    elif truth == 'zspec':
        dt += [('zspec', 'f4'), ('zspec_err', 'f4')]
    zdt = [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'),
           ('zred_samp', 'f4', (nsamp,)) if nsamp > 1 else ('zred_samp', 'f4'), ('lkhd', 'f4'), ('chisq', 'f4')]
    rows, zrows, ctr = {}, {}, 1
    for p in pix:
        n = d.pick((25, 2, 60, 1, 9))
        a, z = np.zeros(n, dtype=dt), np.zeros(n, dtype=zdt)
        a['id'] = ctr + np.arange(n)
        ctr += n
        sub = hpg.ring_to_nest(nside, p) * 4096 + rng.randint(0, 4096, size=n)
        a['ra'], a['dec'] = hpg.pixel_to_angle(nside * 64, sub, nest=True)
        z['zred_uncorr'] = rng.uniform(0.08, 0.6, n)
        z['zred_uncorr'][rng.uniform(size=n) < 0.1] = -1.0
        z['zred_uncorr_e'] = rng.uniform(0.005, 0.03, n)
        z['zred'] = z['zred_uncorr'] + 0.01
        z['chisq'] = rng.uniform(0.0, 8.0, n) if d.choose(5) != 1 else 50.0
        z['zred_samp'] = (z['zred_uncorr'][:, None] + z['zred_uncorr_e'][:, None] * rng.normal(size=(n, nsamp))).reshape(z['zred_samp'].shape)
        ms = m.mstar(np.clip(z['zred_uncorr'], 0.05, None))
        a['refmag'] = ms + rng.uniform(-2.0, 2.0, n)
        a['mag'] = a['refmag'][:, None] + rng.uniform(0, 1, size=(n, 5))
        a['mag_err'] = 0.01
        a['refmag_err'] = rng.uniform(0.01, 0.1, n)
        if truth:
            a[truth] = rng.uniform(0.1, 0.6, n)
        rows[p], zrows[p] = a, z
        fitsio.write(os.path.join(gd, 'mini_%07d.fit' % p), a)
        fitsio.write(os.path.join(gd, 'z_zreds_%07d.fit' % p), z)
    ng = [len(rows[p]) for p in pix]
    gt = minicfg.galtable(gd, nside=nside, pix=pix, ngals=ng, has_truth=int(truth == 'ztrue'), has_zspec=int(truth == 'zspec'))
    zt = minicfg.galtable(gd, nside=nside, pix=pix, ngals=ng, name='z_zreds_master_table.fit')
    t = fitsio.read(zt, ext=1)
    for k, p in enumerate(pix):
        t['filenames'][0][k] = ('z_zreds_%07d.fit' % p).encode()
    fitsio.write(zt, t, header={'PIXELS': 1}, clobber=True)
    # spectra: some at galaxies, some nowhere
    ra = np.concatenate([rows[p]['ra'] for p in pix])
    dec = np.concatenate([rows[p]['dec'] for p in pix])
    k = rng.choice(ra.size, max(2, ra.size // 3))
    s = np.zeros(k.size + 3, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    s['ra'][:k.size], s['dec'][:k.size] = ra[k], dec[k] + rng.uniform(-0.5, 0.5, k.size) / 3600.0
    s['ra'][k.size:] = 200.0
    s['z'] = rng.uniform(0.1, 0.6, s.size)
    s['z_err'] = rng.choice([0.0001, 0.01], s.size)
    sf = os.path.join(env.root, 'spec.fit')
    fitsio.write(sf, s)
    # volume-limit masks
    cal = os.path.join(env.root, 'cal')
    os.makedirs(cal)
    masks = []
    for q in range(2):
        sparse = 128
        cover = hpg.angle_to_pixel(sparse, ra, dec, nest=True)
        cover = np.unique(np.concatenate([cover, rng.choice(cover, 3) ^ 1]))
        v = np.zeros(cover.size, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
        v['fracgood'] = rng.uniform(0.3, 1.0, cover.size)
        v['zmax'] = rng.uniform(0.15, 0.65, cover.size)
        keep = rng.uniform(size=cover.size) < 0.9
        keep[0] = True
        cover, v = cover[keep], v[keep]
        mm = healsparse.HealSparseMap.make_empty(32, sparse, dtype=v.dtype, primary='fracgood')
        mm.update_values_pix(cover, v)
        fn = os.path.join(cal, 'vl%d_vlim_zmask.fit' % q)
        mm.write(fn)
        masks.append(dict(fn=fn, sparse=sparse, at=dict(zip(cover.tolist(), range(cover.size))), v=v))
    # calibrations
    modes, cf = {}, os.path.join(cal, 'rm_calib.fit')
    for q, name in enumerate(('highdens', 'highlum', 'lum2')[:d.pick((1, 2, 3))]):
        nn = 3 + d.choose(3)
        nodes = np.linspace(0.12, 0.5, nn)
        cn = np.linspace(0.12, 0.5, 3)
        mk = None if d.choose(6) == 1 else d.choose(2)
        vf = '' if mk is None else masks[mk]['fn'] if d.choose(2) else '/elsewhere/' + os.path.basename(masks[mk]['fn'])
        c = np.zeros(1, dtype=[('zrange', 'f4', 2), ('cost_zrange', 'f4', 2), ('lstar_cushion', 'f4'), ('z_cushion', 'f4'), ('name', 'S%d' % (len(name) + 1)), ('maxchi', 'f4'),
                               ('nodes', 'f8', nn), ('etamin', 'f8'), ('n0', 'f8'), ('cmax', 'f8', nn), ('corrnodes', 'f8', 3), ('run_afterburner', 'i2'),
                               ('apply_afterburner', 'i2'), ('buffer', 'f4'), ('bias', 'f8', 3), ('eratio', 'f8', 3), ('vmaskfile', 'S%d' % (len(vf) + 1))])
        c['zrange'] = [0.1, 0.55]
        c['cost_zrange'] = [0.15, 0.5]
        c['lstar_cushion'] = c['z_cushion'] = c['buffer'] = 0.05
        c['name'] = name.encode()
        c['maxchi'] = 20.0
        c['nodes'], c['cmax'] = nodes, rng.uniform(1.0, 6.0, nn)
        if d.choose(8) == 1:
            c['cmax'] = -1.0   # hardly anything is selected
        c['etamin'] = (0.5, 1.0, 1.5)[q]
        c['n0'] = 10.0
        c['corrnodes'], c['bias'], c['eratio'] = cn, rng.uniform(-0.03, 0.03, 3), rng.uniform(0.6, 1.4, 3)
        c['run_afterburner'] = d.choose(4) != 1
        c['apply_afterburner'] = d.choose(2)
        c['vmaskfile'] = vf.encode()
        with fitsio.FITS(cf, 'rw') as f:
            f.write(c, extname=name)
        modes[name] = (c[0], None if mk is None else masks[mk])
    return dict(pix=pix, rows=rows, zrows=zrows, galfile=gt, zredfile=zt, specfile=sf, spec=s, modes=modes, calfile=cf, nsamp=nsamp, truth=truth, zmax=0.58)


def conf(w, fn, out):
    return survey.config(fn, galfile=w['galfile'], zredfile=w['zredfile'], specfile=w['specfile'], redmagicfile=w['calfile'], outpath=out, outbase='rm',
                         zred_nsamp=w['nsamp'], zrange=[0.05, w['zmax']], depthfile=None, maskfile=None, mask_mode=0, catfile=None, zlambdafile=None, area=30.0,
                         has_truth=w['truth'] == 'ztrue')


def expect(w, name):
    """Selection galaxy by galaxy: per pixel {id: (row, zredmagic, zredmagic_e, samples, zspec)} for sure, and ids that rounding may decide."""
    from redmapper.utilities import CubicSpline
    c, mk = w['modes'][name]
    m = CTX.data['model']
    sure, maybe = {}, {}
    for p in w['pix']:
        a, z = w['rows'][p], w['zrows'][p]
        zu = z['zred_uncorr'].astype('f8')
        off = CubicSpline(c['corrnodes'], c['bias'], fixextrap=True)(zu) if c['run_afterburner'] else 0.0 * zu
        er = CubicSpline(c['corrnodes'], c['eratio'], fixextrap=True)(zu) if c['run_afterburner'] else 1.0 + 0.0 * zu
        cm = np.clip(CubicSpline(c['nodes'], c['cmax'], fixextrap=True)(zu), 0.1, c['maxchi'])
        zm = zu - off
        if mk is None:
            lim = np.full(len(a), w['zmax'])
        else:
            px = hpg.angle_to_pixel(mk['sparse'], a['ra'], a['dec'], nest=True)
            lim = np.array([mk['v']['zmax'][mk['at'][x]] if x in mk['at'] else 0.0 for x in px.tolist()])
        ml = max(c['etamin'] - c['lstar_cushion'], 0.1)
        lo, hi = c['cost_zrange'][0] - c['z_cushion'] - c['buffer'], c['cost_zrange'][1] + c['z_cushion'] + c['buffer']
        margin = np.min([cm - z['chisq'], m.mstar(zm) - 2.5 * np.log10(c['etamin']) - a['refmag'], lim - zm, zu - lo, hi - zu, c['maxchi'] - z['chisq'],
                         m.mstar(zu) - 2.5 * np.log10(ml) - a['refmag']], axis=0)
        sm = z['zred_samp'].reshape(len(a), -1) - (off[:, None] if c['run_afterburner'] and c['apply_afterburner'] else 0.0)
        S, M = {}, set()
        for k in range(len(a)):
            if margin[k] > 1e-4:
                S[int(a['id'][k])] = (a[k], zm[k], z['zred_uncorr_e'][k] * er[k], sm[k], z['chisq'][k])
            elif margin[k] > -1e-4:
                M.add(int(a['id'][k]))
        sure[p], maybe[p] = S, M
    return sure, maybe


def zspec_of(w, row):
    if w['truth']:
        return (float(row[w['truth']]),)
    s = w['spec'][w['spec']['z_err'] < 0.001]
    dd = np.hypot((s['ra'] - row['ra']) * np.cos(np.radians(row['dec'])), s['dec'] - row['dec']) * 3600.0
    near = dd < 2.9
    return tuple(float(x) for x in s['z'][near]) or (-1.0,)


def outfile(out, name, rand=False):
    fs = [f for f in sorted(os.listdir(out)) if f.endswith('_redmagic_%s%s.fit' % (name, '_randoms' if rand else '')) and not f.startswith('.')]
    check(len(fs) <= 1, 'files', 'several files for %s: %s' % (name, fs))
    return os.path.join(out, fs[0]) if fs else None


def check_selection(w, out, name, exp, what):
    fn = outfile(out, name)
    check(fn is not None, 'missing', '%s: no selection for %s' % (what, name))
    with fitsio.FITS(fn) as f:
        check(len(f) == 2, 'tables', '%s: selection %s has %d tables' % (what, name, len(f) - 1))
    a = fitsio.read(fn, ext=1, lower=True)
    sure, maybe = exp[name]
    ids = a['id'].tolist() if len(a) else []
    check(len(set(ids)) == len(ids), 'twice', '%s: galaxies selected twice for %s: %s' % (what, name, sorted(x for x in set(ids) if ids.count(x) > 1)[:5]))
    order = []
    of = dict((int(i), k) for k, p in enumerate(w['pix']) for i in w['rows'][p]['id'])
    want = set(i for p in w['pix'] for i in sure[p])
    may = set(i for p in w['pix'] for i in maybe[p])
    check(want <= set(ids), 'lost', '%s: %d galaxies of %s are missing, e.g. %s' % (what, len(want - set(ids)), name, sorted(want - set(ids))[:4]))
    check(set(ids) <= want | may, 'extra', '%s: %d galaxies in %s should not be selected, e.g. %s' % (what, len(set(ids) - want - may), name, sorted(set(ids) - want - may)[:4]))
    order = [of[i] for i in ids]
    check(order == sorted(order), 'order', '%s: selection of %s is not in pixel order' % (what, name))
    info = {}
    for p in w['pix']:
        info.update(sure[p])
    for r in a:
        if int(r['id']) not in info:
            continue
        row, zm, ze, sm, chi = info[int(r['id'])]
        check(r['ra'] == row['ra'] and r['dec'] == row['dec'] and r['refmag'] == row['refmag'] and np.array_equal(r['mag'], row['mag']) and r['chisq'] == chi,
              'values', '%s: galaxy %d of %s has values of another galaxy' % (what, r['id'], name))
        check(abs(r['zredmagic'] - zm) < 1e-5 and abs(r['zredmagic_e'] - ze) < 1e-5 and np.allclose(np.ravel(r['zredmagic_samp']), np.ravel(sm), atol=1e-5), 'redshift',
              '%s: galaxy %d of %s has redshift %.5f +- %.5f instead of %.5f +- %.5f (samples %s instead of %s)'
              % (what, r['id'], name, r['zredmagic'], r['zredmagic_e'], zm, ze, np.ravel(r['zredmagic_samp'])[:3], np.ravel(sm)[:3]))
        zs = zspec_of(w, row)
        check(any(abs(r['zspec'] - x) < 1e-6 for x in zs), 'zspec', '%s: galaxy %d of %s has zspec %s instead of %s' % (what, r['id'], name, r['zspec'], zs))
    return a


def check_randoms(w, out, name, n, a, what):
    mk = w['modes'][name][1]
    fn = outfile(out, name, rand=True)
    if mk is None:
        check(fn is None, 'randoms', '%s: randoms for %s although there is no mask' % (what, name))
        return
    check(fn is not None, 'missing', '%s: no randoms for %s' % (what, name))
    r = fitsio.read(fn, ext=1, lower=True)
    n = 10 * len(a) if n is None else n
    check(len(r) == n, 'randoms', '%s: %d randoms for %s instead of %d' % (what, len(r), name, n))
    if n == 0:
        return
    k = np.array([mk['at'].get(x, -1) for x in hpg.angle_to_pixel(mk['sparse'], r['ra'], r['dec'], nest=True).tolist()])
    check((k >= 0).all(), 'randoms', '%s: %d randoms of %s outside of the mask' % (what, (k < 0).sum(), name))
    check((r['z'] < mk['v']['zmax'][k]).all(), 'randoms', '%s: randoms of %s above the limit' % (what, name))
    check(np.isin(r['z'], a['zredmagic']).all(), 'randoms', '%s: randoms of %s with redshifts of no selected galaxy' % (what, name))


def job(fn, **kw):
    def run():
        from redmapper.redmagic import RunRedmagicTask
        RunRedmagicTask(fn).run(do_plots=False, **kw)
    return run


def select(env):
    """A history of selections over several modes, with and without overwriting, kills and I/O errors."""
    d = env.d
    w = lay(env)
    exp = dict((n, expect(w, n)) for n in w['modes'])
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    fn = conf(w, os.path.join(env.root, 'cfg', 'c.yml'), out)
    counters = None
    good = {}
    names = list(w['modes'])
    npx = len(w['pix'])
    counters = {'any': 40 * npx, 'w': 4 * npx * len(names), 'r': 10 * npx, 'pub': 5 * len(names), 'fop': 6 * npx, 'open': 6 * npx}
    for k in range(1 + d.choose(3)):
        sub = None if d.choose(3) else sorted(d.sub_rng().choice(names, 1 + d.choose(len(names)), replace=False).tolist())
        use = sub or names
        clobber = bool(d.choose(2)) if k else d.choose(4) == 1
        nr = d.pick((0, None, 40, 0))
        sim = env.sim()
        hurt = d.choose(3) == 1
        if hurt:
            sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
        before = dict((f, open(os.path.join(out, f), 'rb').read()) for f in os.listdir(out) if f.endswith('.fit') and not f.startswith('.'))
        p = sim.spawn('sel%d' % k, job(fn, modes=sub, clobber=clobber, n_randoms=nr))
        sim.run()
        exist = [n for n in use if any(f.endswith('_redmagic_%s.fit' % n) for f in before)]
        for f, b in before.items():
            mine = any(f.endswith('_redmagic_%s.fit' % n) or f.endswith('_redmagic_%s_randoms.fit' % n) for n in use)
            if not clobber or not mine:
                check(os.path.exists(os.path.join(out, f)) and open(os.path.join(out, f), 'rb').read() == b, 'overwrite', '%s was changed by a run that should not touch it' % f)
        what = 'selection %d' % k
        if p.ok:
            check(clobber or not exist, 'overwrite', 'an existing selection of %s was accepted without overwriting' % exist)
            for n in use:
                a = check_selection(w, out, n, exp, what)
                if nr != 0:
                    check_randoms(w, out, n, nr, a, what)
        elif p.exc is not None and not sim.fault_hits:
            # allowed: existing files, nothing to draw randoms from
            old = not clobber and (exist or (nr != 0 and any('_randoms.fit' in f for f in before)))
            empty = nr != 0 and any(not any(exp[n][0][q] for q in w['pix']) for n in use)
            check(old or empty, 'error', '%s raised although nothing failed: %s' % (what, tb(p.exc)))
    # whatever happened before: overwriting gives the complete selection
    sim = env.sim()
    p = sim.spawn('last', job(fn, clobber=True, n_randoms=0))
    sim.run()
    must_finish([p], 'selection with overwriting')
    for n in names:
        check_selection(w, out, n, exp, 'last selection')
    env.key = ('select', len(names), npx, w['nsamp'], w['truth'], sim.log_hash())


def randoms(env):
    """Randoms of one selection: any size, several rounds, sparse masks, kills and write errors."""
    d = env.d
    rng = d.sub_rng()
    sparse = 64
    # (flat: every redshift fits everywhere)
    flat = d.choose(3) == 1
    npx = d.pick((6, 25, 60))
    base = int(hpg.angle_to_pixel(8, 140.0, 20.0, nest=True))
    cover = np.sort(rng.choice(64, npx, replace=False)) + base * 64
    v = np.zeros(npx, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
    thin = d.choose(3) == 1
    v['fracgood'] = rng.uniform(0.002, 0.02, npx) if thin else rng.uniform(0.1, 1.0, npx)
    v['zmax'] = 0.6 if flat else rng.uniform(0.2, 0.6, npx)
    v['zmax'][0] = 0.6
    zero = np.zeros(npx, dtype=bool)
    if d.choose(2):
        zero[1:] = rng.uniform(size=npx - 1) < 0.3
        v['fracgood'][zero] = 0.0
    m = healsparse.HealSparseMap.make_empty(8, sparse, dtype=v.dtype, primary='fracgood')
    m.update_values_pix(cover, v)
    mf = os.path.join(env.root, 'vl.fit')
    m.write(mf)
    at = dict(zip(cover.tolist(), range(npx)))
    ng = d.pick((12, 1, 40))
    g = np.zeros(ng, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('zredmagic', 'f4')])
    g['id'] = np.arange(ng)
    g['zredmagic'] = rng.permutation(np.linspace(0.1, 0.55, ng + 1)[:ng])
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    fn = minicfg.write(os.path.join(env.root, 'cfg', 'c.yml'), minicfg.galtable(os.path.join(env.root, 'gals'), nside=16, pix=(7, 9), ngals=3), outpath=out)
    rf = os.path.join(out, 'rand.fit')
    n = d.pick((400, 1, 37, 1500, 4000 if flat else 90))
    # (mask and galaxies as objects or as file names)
    named = d.choose(4)
    gf = os.path.join(env.root, 'gal.fit')
    fitsio.write(gf, g)

    def body(clobber):
        def run():
            from redmapper import Configuration, VolumeLimitMask, GalaxyCatalog
            from redmapper.redmagic import RedmagicGenerateRandoms
            c = Configuration(fn)
            gen = RedmagicGenerateRandoms(c, mf if named & 1 else VolumeLimitMask(c, 0.2, vlimfile=mf), gf if named & 2 else GalaxyCatalog(g.copy()))
            gen.generate_randoms(n, rf, clobber=clobber, rng=np.random.RandomState(rs))
        return run
    rs = d.choose(10 ** 6)

    def valid(what):
        r = fitsio.read(rf, ext=1, lower=True)
        check(len(r) == n, 'randoms', '%s: %d randoms instead of %d' % (what, len(r), n))
        k = np.array([at.get(x, -1) for x in hpg.angle_to_pixel(sparse, r['ra'], r['dec'], nest=True).tolist()])
        check((k >= 0).all() and not zero[k].any(), 'randoms', '%s: randoms outside of the mask' % what)
        check((r['z'] < v['zmax'][k]).all(), 'randoms', '%s: randoms above the limit' % what)
        j = np.searchsorted(np.sort(g['zredmagic']), r['z'])
        check((j < ng).all() and (np.sort(g['zredmagic'])[np.minimum(j, ng - 1)] == r['z']).all(), 'randoms', '%s: redshifts of no galaxy' % what)
        check((r['weight'] == 1.0).all(), 'randoms', '%s: weights' % what)
        if n > 20:
            check(len(np.unique(r['ra'])) == n, 'randoms', '%s: repeated positions' % what)
        if flat and n >= 400:
            h = np.bincount(j, minlength=ng)
            mu = n / float(ng)
            check(((h - mu) ** 2 / mu).sum() < ng + 8.0 * np.sqrt(2.0 * ng) + 25.0, 'balance', '%s: redshifts are not used equally often: %s' % (what, h[:12].tolist()))
    counters = {'any': 60, 'w': 10, 'r': 20, 'pub': 5, 'fop': 10, 'open': 12}
    for k in range(1 + d.choose(3)):
        clobber = bool(d.choose(2))
        before = open(rf, 'rb').read() if os.path.exists(rf) else None
        sim = env.sim()
        if d.choose(2):
            sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
        p = sim.spawn('r%d' % k, body(clobber))
        sim.run()
        if p.ok:
            check(clobber or before is None, 'overwrite', 'existing randoms were replaced without being asked')
            valid('randoms')
        else:
            if p.exc is not None and not sim.fault_hits:
                check(before is not None and not clobber, 'error', 'generation raised although nothing failed: %s' % tb(p.exc))
            if os.path.exists(rf):
                valid('randoms after a failed generation')
            if before is not None and not clobber:
                check(open(rf, 'rb').read() == before, 'overwrite', 'existing randoms were changed without being asked')
    env.key = ('randoms', n, npx, flat, thin, sim.log_hash())


SCENARIOS = {'randoms': (randoms, (150, 4000)), 'select': (select, (450, 12000))}
LEVEL_NOTE = 'Seeded search over catalogs, calibrations, masks, mode subsets, overwrite histories, kills and I/O errors with the real task; every galaxy judged by an independent selection, every random by mask and limit. Sampled.'
