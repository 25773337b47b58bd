"""P15: random catalogs: size, mask, volume limit, placement, crashes, weights."""
import os

import numpy as np
import fitsio
import healsparse
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, minicfg

REAL = ['redmapper.randoms.GenerateRandoms', 'redmapper.randoms.RandomCatalogMaker', 'redmapper.randoms.RandomWeigher', 'redmapper.volumelimit.VolumeLimitMask',
        'redmapper.galaxy.GalaxyCatalogMaker', 'healsparse', 'CFITSIO']
STUBS = ['volume-limit masks with drawn limits and coverage fractions']
ASSUMPTIONS = ['some input cluster lies below the limit somewhere', 'left-over pixel files of a killed generation are removed by the operator before it is repeated (otherwise the repeat is refused)']


def prepare(ctx):
    survey.prepare(ctx)


def mask(d, fn, flat=False):
    ncov = d.pick((32, 16))
    sparse = ncov * d.pick((4, 8))
    ra0, dec0 = d.pick(((140.0, 65.0), (0.2, 0.3), (359.9, -45.0), (70.0, 88.5)))
    allpix = hpg.query_circle(sparse, ra0, dec0, d.pick((4.0, 7.0, 1.5)), nest=True)
    rng = d.sub_rng()
    pix = np.sort(rng.choice(allpix, max(4, int(allpix.size * d.pick((1.0, 0.5)))), replace=False))
    dt = [('fracgood', 'f4'), ('zmax', 'f4')]
    v = np.zeros(pix.size, dtype=dt)
    how = d.choose(4)
    v['fracgood'] = (rng.uniform(0.02, 1.0, pix.size), np.ones(pix.size), rng.choice([0.05, 1.0, 0.5], pix.size), rng.uniform(0.001, 0.03, pix.size))[how]
    v['zmax'] = rng.uniform(0.12, 0.6, pix.size) if not flat else 0.7
    m = healsparse.HealSparseMap.make_empty(ncov, sparse, dtype=dt, primary='fracgood')
    m.update_values_pix(pix, v)
    m.write(fn, clobber=True)
    return dict(sparse=sparse, pix=pix, v=v, at=dict(zip(pix.tolist(), range(pix.size))), fn=fn, ncov=ncov, sparse_cov=how == 3)


def clusters(d, fn, flat):
    n = d.pick((40, 3, 200, 1))
    rng = d.sub_rng()
    dt = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z_lambda', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'), ('z', 'f4')]
    c = np.zeros(n, dtype=dt)
    c['mem_match_id'] = rng.choice(np.arange(1, 5 * n + 1), n, replace=False)
    c['z_lambda'] = rng.uniform(0.1, 0.5, n)
    c['z_lambda'][0] = 0.11
    c['z'] = c['z_lambda'] + 0.01
    c['lambda'] = rng.uniform(5.0, 120.0, n)
    c['scaleval'] = rng.uniform(1.0, 3.0, n)
    fitsio.write(fn, c, clobber=True)
    return c


def catalog(randfile):
    """(rows of every pixel file listed by the table, table)"""
    t = fitsio.read(randfile, ext=1, lower=True, trim_strings=True)
    check(len(t) == 1, 'table', 'master table has %d rows' % len(t))
    t = t[0]
    hp = np.atleast_1d(t['hpix'])
    names = [x.decode() if isinstance(x, bytes) else str(x) for x in np.atleast_1d(t['filenames'])]
    rows = []
    for p, n, f in zip(hp, np.atleast_1d(t['ngals']), names):
        fn = os.path.join(os.path.dirname(randfile), f.strip())
        check(os.path.isfile(fn), 'table', 'master table lists %s which is not there' % f)
        a = fitsio.read(fn, ext=1, lower=True)
        check(len(a) == n, 'table', 'pixel %d has %d randoms, the master table says %d' % (p, len(a), n))
        ip = hpg.angle_to_pixel(int(t['nside']), a['ra'], a['dec'], nest=False)
        check((ip == p).all(), 'pixel', 'pixel file %d holds randoms of pixels %s' % (p, sorted(set(ip.tolist()))[:4]))
        rows.append(a)
    return np.concatenate(rows), t


def validate(randfile, n, m, c, nside, what):
    a, t = catalog(randfile)
    check(int(t['nside']) == nside, 'table', 'catalog has nside %d instead of %d' % (t['nside'], nside))
    check(len(a) == n, 'count', '%s: %d randoms instead of %d' % (what, len(a), n))
    check(np.array_equal(np.sort(a['id']), np.arange(1, n + 1)), 'ids', '%s: ids are not 1..%d' % (what, n))
    on = set(f for f in os.listdir(os.path.dirname(randfile)) if f.endswith('.fit') and not f.startswith('.')) - {os.path.basename(randfile)}
    listed = set((x.decode() if isinstance(x, bytes) else str(x)).strip() for x in np.atleast_1d(t['filenames']))
    check(on == listed, 'files', '%s: files %s not listed in the master table' % (what, sorted(on - listed)[:3]))
    px = hpg.angle_to_pixel(m['sparse'], a['ra'], a['dec'], nest=True)
    k = np.array([m['at'].get(x, -1) for x in px.tolist()])
    check((k >= 0).all(), 'mask', '%s: %d randoms outside of the mask' % (what, (k < 0).sum()))
    bad = ~(a['z'] < m['v']['zmax'][k])
    check(not bad.any(), 'limit', '%s: %d randoms at or above the limit there, e.g. z %s limit %s' % (what, bad.sum(), a['z'][bad][:2], m['v']['zmax'][k][bad][:2]))
    at = dict(zip(c['mem_match_id'].tolist(), range(len(c))))
    j = np.array([at.get(x, -1) for x in a['id_input'].tolist()])
    check((j >= 0).all(), 'input', '%s: randoms from unknown clusters' % what)
    bad = (a['z'] != c['z_lambda'][j]) | (a['lambda'] != c['lambda'][j])
    check(not bad.any(), 'input', '%s: %d randoms do not have the redshift and richness of the cluster they name' % (what, bad.sum()))
    return a, k, j


def conf(env, m, **over):
    rf = os.path.join(env.root, 'r', over.pop('name', 'x_random') + '_master_table.fit')
    kw = dict(outpath=os.path.join(env.root, 'out'), randfile=rf, depthfile=None, maskfile=None, mask_mode=0, zlambdafile=None, specfile=None, zredfile=None)
    kw.update(over)
    return survey.config(os.path.join(env.root, 'cfg', 'c.yml'), **kw), rf


def job(fn, m, n, seed, rounds=None):
    def run():
        import redmapper.randoms as rr
        from redmapper import Configuration, GenerateRandoms, VolumeLimitMask
        c = Configuration(fn)
        g = GenerateRandoms(c, vlim_mask=VolumeLimitMask(c, 0.2, vlimfile=m['fn']))
        g.generate_randoms(n, rng=None if seed is None else np.random.RandomState(seed))
        with quiet():
            many = rounds is not None and len(os.listdir(os.path.dirname(c.randfile))) > 2
        if n < 400 and many:
            rounds['read'] = np.array(rr.RandomCatalog.from_randfile(c.randfile)._ndarray)
    return run


def balance(j, nclus, what):
    """Every input cluster is drawn as often as any other, whatever its redshift."""
    n = len(j)
    if n < 5 * nclus or nclus < 2:
        return
    h = np.bincount(j, minlength=nclus)
    mu = n / float(nclus)
    chi = ((h - mu) ** 2 / mu).sum()
    lim = nclus + 8.0 * np.sqrt(2.0 * nclus) + 25.0
    check(chi < lim, 'balance', '%s: input clusters are not used equally often (chi2 %.0f for %d clusters; counts %s)' % (what, chi, nclus, h[:12].tolist()))


def generate(env):
    """Any stream, size, mask; positions, limits, ids, placement; kills and write errors."""
    d = env.d
    flat = d.choose(4) == 1
    m = mask(d, os.path.join(env.root, 'vl.fit'), flat)
    catfile = os.path.join(env.root, 'clusters.fit')
    c = clusters(d, catfile, flat)
    nside = d.pick((16, 8, 64))
    n = d.pick((300, 1, 57, 3000, 1200, 300, 5000 if flat else 57))
    if m['sparse_cov']:
        n = min(n, d.pick((300, 20 + d.choose(160))))
    galfile = minicfg.galtable(os.path.join(env.root, 'gals'), nside=nside, pix=(7, 9), ngals=3)
    fn, rf = conf(env, m, catfile=catfile, galfile=galfile, name=d.pick(('x_random', 'run_0000012')))
    seed = d.choose(10 ** 6) if d.choose(3) else None
    faulty = d.choose(2) == 1
    if faulty:
        n = min(n, 1200)
        counters = {'any': 60 + 2 * n // nside, 'w': 40 + n // nside, 'pub': 14, 'fop': 40, 'open': 20, 'r': 24}
    for k in range(2):
        sim = env.sim()
        rec = {}
        if faulty and k == 0:
            sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
        p = sim.spawn('rand%d' % k, job(fn, m, n, seed, rec))
        sim.run()
        hit = bool(sim.fault_hits)
        if p.ok:
            check(os.path.isfile(rf), 'missing', 'generation finished without a master table')
        elif p.exc is not None:
            check(hit, 'error', 'generation raised although nothing failed: %s' % tb(p.exc))
        if os.path.isfile(rf):
            a, kk, j = validate(rf, n, m, c, nside, 'catalog' if p.ok else 'catalog of a failed generation')
            if p.ok:
                if len(np.unique(kk)) > 1 and 'read' in rec:
                    check(rows_equal(np.sort(rec['read'], order='id'), np.sort(a, order='id')), 'read', 'randoms read back differ')
                low = m['v']['fracgood'][m['v']['zmax'] > c['z_lambda'].max()].sum() / m['v']['fracgood'].sum()
                if low > 0.2:
                    # (a cluster that fits hardly anywhere ends a round early)
                    balance(j, len(c), 'catalog')
                if flat and n >= 3000:
                    wt = m['v']['fracgood'] / m['v']['fracgood'].sum(dtype='f8')
                    # compare in groups of coverage fraction
                    edges = np.unique(np.quantile(m['v']['fracgood'], [0, .25, .5, .75, 1.0]))
                    if edges.size > 1:
                        g = np.clip(np.searchsorted(edges, m['v']['fracgood'], side='right') - 1, 0, edges.size - 2)
                        for q in range(edges.size - 1):
                            e = wt[g == q].sum() * n
                            o = (g[kk] == q).sum()
                            check(abs(o - e) < 7.0 * np.sqrt(e + 1.0) + 5.0, 'density', '%d randoms in the pixels with coverage near %.2f, %.0f expected' % (o, edges[q], e))
            before = open(rf, 'rb').read()
            # an existing catalog is not touched
            sim = env.sim()
            p = sim.spawn('again', job(fn, m, n, seed))
            sim.run()
            check(p.exc is not None, 'overwrite', 'generation over an existing catalog was accepted')
            check(open(rf, 'rb').read() == before, 'overwrite', 'an existing catalog was changed')
            validate(rf, n, m, c, nside, 'catalog after a refused generation')
            break
        if not p.ok:
            # the operator removes the left-overs (a repeat over them is refused)
            dr = os.path.dirname(rf)
            left = [x for x in (os.listdir(dr) if os.path.isdir(dr) else []) if x.endswith('.fit') and not x.startswith('.')]
            if left and d.choose(2):
                sim = env.sim()
                q = sim.spawn('over', job(fn, m, n, seed))
                sim.run()
                if q.ok:
                    validate(rf, n, m, c, nside, 'catalog generated over left-over files')
                    break
                check(not os.path.isfile(rf), 'partial', 'refused repeat published a master table')
            if os.path.isdir(dr):
                for x in os.listdir(dr):
                    os.unlink(os.path.join(dr, x))
    else:
        fail('missing', 'no catalog after an undisturbed generation')
    env.key = ('gen', n, nside, len(c), flat, faulty, seed is None, sim.log_hash())


def weigh(env):
    """Weights of surviving points make up for the rejected draws of the same cluster."""
    d = env.d
    m = mask(d, os.path.join(env.root, 'vl.fit'))
    catfile = os.path.join(env.root, 'clusters.fit')
    c = clusters(d, catfile, False)
    rng = d.sub_rng()
    n = d.pick((400, 2000, 60))
    rdt = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('lambda_in', 'f4'), ('id_input', 'i4'), ('scaleval', 'f4'), ('maskfrac', 'f4')]
    r = np.zeros(n, dtype=rdt)
    j = rng.randint(0, len(c), n)
    r['mem_match_id'] = 1 + np.arange(n)
    r['id_input'] = c['mem_match_id'][j]
    r['z'] = c['z_lambda'][j]
    r['lambda_in'] = c['lambda'][j]
    r['lambda'] = r['lambda_in']
    k = rng.randint(0, m['pix'].size, n)
    r['ra'], r['dec'] = hpg.pixel_to_angle(m['sparse'], m['pix'][k], nest=True)
    r['ra'] += rng.uniform(-1e-3, 1e-3, n)
    r['scaleval'] = rng.uniform(1.0, 2.5, n)
    r['maskfrac'] = rng.choice([0.0, 0.05, 0.19, 0.2, 0.4, 0.9], n)
    rf = os.path.join(env.root, 'rz.fit')
    fitsio.write(rf, r, clobber=True)
    sc = bool(d.choose(2))
    minlam = float(d.pick((5.0, 20.0, 40.0)))
    lb = d.pick((None, [20.0, 60.0], [5.0, 200.0]))
    zr = d.pick((None, [0.2, 0.4], [0.05, 0.9]))
    os.makedirs(os.path.join(env.root, 'out'))
    galfile = minicfg.galtable(os.path.join(env.root, 'gals'), nside=8, pix=(7, 9), ngals=3)
    fn, _ = conf(env, m, catfile=catfile, galfile=galfile, select_scaleval=sc, max_maskfrac=0.2)
    out = {}

    def body():
        from redmapper import Configuration, RandomWeigher, VolumeLimitMask
        cc = Configuration(fn)
        w = RandomWeigher(cc, rf, vlim_mask=VolumeLimitMask(cc, 0.2, vlimfile=m['fn']))
        with quiet():
            out['zr'] = list(cc.zrange)
        out['files'] = w.weight_randoms(minlam, zrange=None if zr is None else np.array(zr), lambdabin=None if lb is None else np.array(lb))
    zlo, zhi = zr if zr else (0.05, 0.6)
    # expectation, draw by draw
    want = []
    bins = lb or (0.0, 1000.0)
    for i in range(len(c)):
        mine = np.where((r['id_input'] == c['mem_match_id'][i]))[0]
        lam = c['lambda'][i] / c['scaleval'][i] if sc else c['lambda'][i]
        if not (lam > minlam and bins[0] < c['lambda'][i] <= bins[1]):
            continue
        zz = r['z'][mine]
        rl = r['lambda_in'][mine] / r['scaleval'][mine] if sc else r['lambda_in'][mine]
        want.append((i, mine, zz, (rl > minlam) & (r['maskfrac'][mine] < 0.2) & (r['lambda_in'][mine] > bins[0]) & (r['lambda_in'][mine] <= bins[1])))
    hurt = d.choose(3) == 1
    sim = env.sim()
    if hurt:
        sim.arm(env.plan({'any': 30, 'w': 16, 'pub': 8, 'fop': 12, 'r': 12}, ('crash', 'crash', 'enospc', 'eio', 'eio_r'), classes=('pub', 'w', 'any', 'fop')))
    p = sim.spawn('w', body)
    sim.run()
    if 'zr' in out and zr is None:
        zlo, zhi = out['zr']
    rows = {}
    for i, mine, zz, ok in want:
        use = (zz > zlo) & (zz < zhi)
        mine, ok = mine[use], ok[use]
        if ok.any():
            for q in mine[ok]:
                rows[int(q)] = mine.size / float(ok.sum())
    anysel = any(((zz > zlo) & (zz < zhi)).any() for _, _, zz, _ in want)

    def verify():
        f, fa = out['files']
        a = fitsio.read(f, ext=1, lower=True)
        check(len(a) == len(rows), 'weights', '%d weighted points, %d draws pass the selection' % (len(a), len(rows)))
        key = dict(((r['ra'][q], r['dec'][q]), q) for q in rows)
        for x in a:
            q = key.get((x['ra'], x['dec']))
            check(q is not None, 'weights', 'weighted point at a position that was not selected')
            check(x['ztrue'] == r['z'][q] and x['lambda_in'] == r['lambda_in'][q], 'weights', 'weighted point has values of another draw')
            check(abs(x['weight'] - rows[q]) < 1e-5 * rows[q], 'weights', 'weight %.4f, %.4f makes up for the rejected draws' % (x['weight'], rows[q]))
        ar = fitsio.read(fa, ext=1, lower=True)
        check((ar['area'] >= 0).all() and np.isfinite(ar['area']).all(), 'area', 'negative or undefined area')
    if p.ok:
        check(anysel, 'weights', 'weights were made although nothing is selected')
        verify()
    elif p.exc is not None and not sim.fault_hits:
        if not anysel or not rows:
            env.key = ('none',)
            return
        fail('error', 'weighing raised although nothing failed: %s' % tb(p.exc))
    elif rows:
        for f in os.listdir(os.path.join(env.root, 'out')):
            if not f.startswith('.') and f.endswith('.fit'):
                os.unlink(os.path.join(env.root, 'out', f))
        sim = env.sim()
        p = sim.spawn('w2', body)
        sim.run()
        must_finish([p], 'repeated weighing')
        verify()
    env.key = ('weigh', n, sc, minlam, sim.log_hash())


SCENARIOS = {'generate': (generate, (400, 9000)), 'weigh': (weigh, (240, 6000))}
LEVEL_NOTE = 'Seeded search over random streams, sizes, masks, limits, cluster lists, kills and I/O errors with the real generator; every random checked against the mask, the limits and its input cluster; weights recomputed draw by draw. Sampled.'
