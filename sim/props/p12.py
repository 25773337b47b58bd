"""P12: percolation: how much of every galaxy each cluster may use."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX
from .. import survey, stubrun

REAL = ['redmapper.RunPercolation, RunCatalog, RunLikelihoods, RunFirstPass, RunColormem with the full numerical work', 'redmapper.RedmapperRun and its pool (scenario pool)',
        'cluster, mask, depth, centering and zlambda code', 'galaxy catalog reading', 'CFITSIO']
STUBS = ['red-sequence and background models are loaded once and shared', 'the survey is that of the test suite; candidates, orders, settings and random draws are generated']
ASSUMPTIONS = ['candidate lists are drawn around the galaxies of one small survey']

WATCH = {}      # id(runner) -> Watch
TOL = 1e-4


class Watch(object):
    def __init__(self, runner):
        self.runner = runner
        self.taken = {}
        self.fuzzy = set()     # galaxies at the edge of a cut to single precision: either way is right
        self.rounds = []       # processed clusters, in order
        self.fn = os.path.basename(runner.filename)

    def avail(self, ids):
        t = self.taken
        return np.array([1.0 - t.get(int(i), 0.0) for i in ids])


def install():
    import redmapper
    from redmapper import RunPercolation, RunCatalog, RunColormem, RunFirstPass, RunLikelihoods
    for cls in (RunPercolation, RunCatalog, RunColormem, RunFirstPass, RunLikelihoods):
        if not getattr(vars(cls)['_process_cluster'], '_watch', False):
            cls._process_cluster = wrap(cls._process_cluster)


def wrap(orig):
    def process(self, cluster):
        with quiet():
            w = WATCH.get(id(self))
            if w is None or w.runner is not self:
                w = WATCH[id(self)] = Watch(self)
            r = enter(w, cluster)
        bad = orig(self, cluster)
        with quiet():
            leave(w, cluster, bad, r)
        return bad
    process._watch = True
    return process


def enter(w, cluster):
    nb = cluster.neighbors
    r = dict(id=int(cluster.mem_match_id), ids=np.array(nb.id), pfree=np.array(nb.pfree, dtype='f8'), seed=(float(cluster.ra), float(cluster.dec)),
             near=int(np.argmin(nb.r)), masking=bool(w.runner.do_percolation_masking))
    lo, hi = float(r['pfree'].min()), float(r['pfree'].max())
    check(lo >= -TOL and hi <= 1 + TOL, 'range', 'cluster %d was given galaxies with availability %.4f to %.4f' % (r['id'], lo, hi))
    if r['masking']:
        want = w.avail(r['ids'])
        bad = np.where(np.abs(want - r['pfree']) > TOL)[0]
        bad = np.array([k for k in bad if int(r['ids'][k]) not in w.fuzzy], dtype=int)
        check(bad.size == 0, 'avail', 'cluster %d (number %d to be processed): galaxy %s is offered with availability %.4f, %.4f is left' % (
            (r['id'], len(w.rounds) + 1) + ((int(r['ids'][bad[0]]), r['pfree'][bad[0]], want[bad[0]]) if bad.size else (0, 0., 0.))))
    else:
        check(lo >= 1 - TOL, 'full', 'without masking cluster %d was given a galaxy with availability %.4f' % (r['id'], lo))
    return r


def leave(w, cluster, bad, r):
    w.rounds.append(r)
    nb = cluster.neighbors
    r['ok'] = (not bad) and float(cluster.Lambda) > 0
    if not r['ok']:
        return
    c = w.runner.config
    r['p'] = np.array(nb.p, dtype='f8')
    r['pmem'] = np.array(nb.pmem, dtype='f8')
    r['r'] = np.array(nb.r, dtype='f8')
    r['lambda'], r['scaleval'], r['rlam'] = float(cluster.Lambda), float(cluster.scaleval), float(cluster.r_lambda)
    check(r['p'].min() >= 0 and r['p'].max() <= 1 + 1e-6, 'range', 'cluster %d: membership probabilities %.4f to %.4f' % (r['id'], r['p'].min(), r['p'].max()))
    if not r['masking']:
        return
    run = w.runner
    rmask = run.rmask_0 * (r['lambda'] / 100.)**run.rmask_beta * ((1. + float(cluster.redshift)) / (1. + c.percolation_rmask_zpivot))**c.percolation_rmask_gamma
    rmask = max(rmask, r['rlam'])
    lmask = c.percolation_lmask if c.percolation_lmask >= 0 else c.lval_reference
    lim = float(cluster.mstar) - 2.5 * np.log10(lmask)
    mag = np.array(nb.refmag, dtype='f8')
    e = np.where((np.abs(mag - lim) < 1e-4) | (np.abs(r['r'] / rmask - 1) < 1e-4))[0]
    w.fuzzy.update(int(x) for x in r['ids'][e])
    u = np.where((mag < lim) & (r['r'] < rmask) & (r['p'] > 0))[0]
    for i in u:
        g = int(r['ids'][i])
        w.taken[g] = w.taken.get(g, 0.0) + r['p'][i] * r['pfree'][i]
        check(w.taken[g] <= 1 + TOL, 'whole', 'galaxy %d is taken with %.4f after cluster %d' % (g, w.taken[g], r['id']))


def prepare(ctx):
    survey.prepare(ctx, seeds_per_pixel=40)
    install()
    from redmapper import Configuration, RunFirstPass, RunLikelihoods
    stubrun.MODE[0] = 'real'
    try:
        root = os.path.join(ctx.shared, 'likeall')
        os.makedirs(root)
        c = Configuration(survey.config(os.path.join(root, 'c.yml'), outpath=root, percolation_minlambda=1.0))
        f = RunFirstPass(c, specmode=True)
        f.run(keepz=True, cleaninput=True)
        f.output(savemembers=False, withversion=False, clobber=True)
        c.catfile = f.filename
        f = RunLikelihoods(c)
        f.run(keepz=True)
        f.output(savemembers=False, withversion=False, clobber=True)
        a = fitsio.read(f.filename, ext=1, lower=True)
        # vector columns depend on the settings of the run that reads the list
        keep = [n for n in a.dtype.names if a.dtype[n].shape == () or n in ('mag', 'mag_err')]
        b = np.zeros(a.size, dtype=[(n, a.dtype[n].newbyteorder('=').base, a.dtype[n].shape) for n in keep])
        for n in keep:
            b[n] = a[n]
        ctx.data['cand'] = b
    finally:
        stubrun.MODE[0] = 'stub'
    # training galaxies, for the color selection
    from redmapper.calibration import SelectSpecRedGalaxies
    kw = dict(specfile_train=os.path.join(ctx.data['dir'], 'test_dr8_spec.fit'), zrange=[0.1, 0.2])
    kw['redgalmodelfile'] = os.path.join(ctx.shared, 'redgalmodel.fit')
    np.random.seed(12345)
    c = Configuration(survey.config(os.path.join(ctx.shared, 'sel.yml'), outpath=ctx.shared, redgalfile=os.path.join(ctx.shared, 'redgals.fit'), **kw))
    SelectSpecRedGalaxies(c).run()
    ctx.data['colorkw'] = kw
    ctx.data['redgals'] = fitsio.read(os.path.join(ctx.shared, 'redgals.fit'), ext=1)
    gals = []
    d = os.path.join(ctx.data['dir'], 'pixelized_dr8_test')
    for n in sorted(os.listdir(d)):
        if not n.endswith('master_table.fit'):
            gals.append(fitsio.read(os.path.join(d, n), ext=1, lower=True))
    g = np.concatenate(gals)
    check(np.unique(g['id']).size == g.size, 'reference', 'galaxy ids of the survey are not unique')
    ctx.data['gals'] = g
    WATCH.clear()


def candidates(env, n):
    """A drawn list of candidate clusters: real ones, neighbours of real ones, repeats, odd entries."""
    d = env.d
    rng = d.sub_rng()
    cand, g = CTX.data['cand'], CTX.data['gals']
    base = cand[rng.randint(cand.size, size=n)].copy() if d.choose(3) == 0 else cand[rng.permutation(cand.size)[:n]].copy()
    n = base.size
    mode = d.choose(4)
    if mode == 3:
        # crowd around a few places
        k = 1 + d.choose(3)
        base = base[rng.randint(min(k, n), size=n)].copy()
    if mode:
        for i in range(n):
            if rng.uniform() < 0.6:
                dist = np.hypot((g['ra'] - base['ra'][i]) * np.cos(np.radians(base['dec'][i])), g['dec'] - base['dec'][i])
                near = np.where((dist < 0.12) & (g['refmag'] < base['refmag'][i] + 1.0))[0]
                if near.size:
                    j = near[rng.randint(near.size)]
                    base['ra'][i], base['dec'][i], base['refmag'][i] = g['ra'][j], g['dec'][j], g['refmag'][j]
                    base['mag'][i], base['mag_err'][i], base['refmag_err'][i] = g['mag'][j], g['mag_err'][j], g['refmag_err'][j]
    base['lnlike'] = rng.permutation(n) * 1.5 - 3.0 + rng.uniform(size=n)
    if d.choose(3) == 1 and n > 2:
        base['lnlike'][rng.randint(n)] = np.nan
        base['lambda'][rng.randint(n)] = 0.5
    base['mem_match_id'] = 0 if d.choose(2) else rng.permutation(n) + 7
    return base


def settings(env):
    d = env.d
    kw = {}
    kw['percolation_lmask'] = d.pick((0.1, 0.2, -1.0, 0.5))
    kw['percolation_rmask_0'] = d.pick((1.5, 0.5, 2.0))
    kw['percolation_rmask_gamma'] = d.pick((0.0, -0.5))
    kw['percolation_minlambda'] = d.pick((3.0, 1.0, 5.0))
    kw['percolation_pbcg_cut'] = d.pick((0.5, 0.2, 0.9))
    m = d.pick((None, 2.0, 0.5))
    if m is not None:
        kw['percolation_memradius'] = m
    kw['percolation_memlum'] = d.pick((0.0, 0.05))
    kw['percolation_niter'] = d.pick((2, 1))
    kw['percolation_maxcen'] = d.pick((5, 2, 3))
    if d.choose(4) == 1:
        kw['depthfile'] = None
    if d.choose(4) == 1:
        kw['use_tempfiles_to_conserve_memory'] = True
    if d.choose(4) == 1:
        kw['centerclass'] = d.pick(('CenteringBCG', 'CenteringRandomSatellite'))
    return kw


def verify(w, fn, kw, cand=None, seeds=True):
    """The files of a finished stage against what was observed."""
    cat = fitsio.read(fn, ext=1, lower=True)
    mf = fn[:-4] + '_members.fit'
    if not os.path.isfile(mf):
        check(not any(r['ok'] for r in w.rounds), 'member', 'clusters are recorded without members')
        return
    mem = fitsio.read(mf, ext=1, lower=True)
    ids = cat['mem_match_id']
    check(np.unique(ids).size == ids.size, 'ids', 'cluster ids are not unique')
    byid = {}
    for r in w.rounds:
        check(r['id'] not in byid, 'twice', 'cluster %d was processed twice' % r['id'])
        byid[r['id']] = r
    rec = set(int(x) for x in ids)
    minlam = kw['percolation_minlambda'] if seeds else None
    for r in w.rounds:
        if seeds and r['masking'] and r['pfree'][r['near']] < kw['percolation_pbcg_cut'] - TOL:
            check(r['id'] not in rec, 'seed', 'cluster %d is recorded although only %.3f of its seed galaxy is left' % (r['id'], r['pfree'][r['near']]))
        if r['ok'] and seeds:
            check(r['lambda'] < minlam or r['id'] in rec, 'lost', 'cluster %d with richness %.2f is not in the catalog' % (r['id'], r['lambda']))
        if r['ok'] and not seeds:
            check(r['id'] in rec, 'lost', 'cluster %d with richness %.2f is not in the catalog' % (r['id'], r['lambda']))
    for row in cat:
        i = int(row['mem_match_id'])
        check(i in byid or row['lambda'] < 0, 'unknown', 'cluster %d was never processed' % i)
        if i not in byid or not byid[i]['ok']:
            check(row['lambda'] < 0 and not seeds, 'reject', 'cluster %d was rejected but is recorded with richness %.2f' % (i, row['lambda']))
            continue
        check(abs(row['lambda'] - byid[i]['lambda']) < 1e-3, 'richness', 'cluster %d: richness %.4f recorded, %.4f found' % (i, row['lambda'], byid[i]['lambda']))
        if seeds:
            check(row['lambda'] / row['scaleval'] >= minlam - 1e-3 and row['lambda'] >= minlam - 1e-3, 'minimum', 'cluster %d is below the minimum richness: %.3f (scale %.3f)' % (
                i, row['lambda'], row['scaleval']))
    if cand is not None:
        # decreasing likelihood
        o = np.argsort(ids)
        ll = cat['lnlike'][o]
        check(np.all(np.diff(ll) <= 0), 'order', 'clusters are not numbered by decreasing likelihood')
        check(np.all(np.isin(ll, cand['lnlike'].astype(ll.dtype))), 'order', 'likelihoods are not those of the candidates')
        num = [r['id'] for r in w.rounds]
        check(num == sorted(num) and num[0] >= 1, 'order', 'clusters were not processed in the order of their numbers: %s' % num[:6])
    # members
    key = list(zip(mem['mem_match_id'].tolist(), mem['id'].tolist()))
    check(len(set(key)) == len(key), 'member', 'a galaxy is recorded twice as member of one cluster')
    check(set(mem['mem_match_id'].tolist()) <= rec, 'member', 'members of clusters that are not recorded')
    check(mem.size == 0 or (mem['p'].min() >= 0 and mem['p'].max() <= 1 + 1e-6 and mem['pfree'].min() >= -TOL and mem['pfree'].max() <= 1 + TOL), 'range',
          'recorded probabilities p %.3f..%.3f pfree %.3f..%.3f' % ((mem['p'].min(), mem['p'].max(), mem['pfree'].min(), mem['pfree'].max()) if mem.size else (0, 0, 0, 0)))
    for row in cat:
        i = int(row['mem_match_id'])
        if i not in byid or not byid[i]['ok']:
            continue
        r = byid[i]
        m = mem[mem['mem_match_id'] == i]
        pos = dict((int(g), k) for k, g in enumerate(r['ids']))
        for x in m:
            k = pos.get(int(x['id']))
            check(k is not None, 'member', 'galaxy %d is a member of cluster %d but not near it' % (x['id'], i))
            check(abs(x['p'] - r['p'][k]) < 1e-5, 'member', 'galaxy %d in cluster %d: p %.4f recorded, %.4f found' % (x['id'], i, x['p'], r['p'][k]))
            small = r['p'][k] <= 0.0101 or r['pmem'][k] <= 0.0101 or r['r'][k] >= 1.0 * r['rlam']
            check(abs(x['pfree'] - r['pfree'][k]) < TOL or (small and x['pfree'] == 0.0), 'member',
                  'galaxy %d in cluster %d: availability %.4f recorded, %.4f was left' % (x['id'], i, x['pfree'], r['pfree'][k]))
        if seeds and r['masking'] and 'id_cent' in row.dtype.names:
            k = pos.get(int(np.atleast_1d(row['id_cent'])[0]))
            check(k is None or r['pfree'][k] >= kw['percolation_pbcg_cut'] - TOL, 'seed', 'cluster %d is centred on a galaxy of which only %.3f is left' % (i, r['pfree'][k] if k is not None else 0))
        have = set(m['id'].tolist())
        rad = r['rlam']
        must = np.where((r['p'] > 0.0101) & (r['pfree'] > 0.0101) & (r['pmem'] > 0.0101) & (r['r'] < 0.999 * rad))[0]
        miss = [int(r['ids'][k]) for k in must if int(r['ids'][k]) not in have]
        check(not miss, 'member', 'galaxy %s is a member of cluster %d but is not recorded' % (miss[:1], i))


def one_watch():
    ws = [w for w in WATCH.values()]
    check(len(ws) == 1, 'harness', '%d stages observed' % len(ws))
    return ws[0]


def percolate(env):
    from redmapper import Configuration, RunPercolation
    d = env.d
    stubrun.reset()
    WATCH.clear()
    stubrun.MODE[0] = 'real'
    try:
        cand = candidates(env, 3 + d.choose(30))
        kw = settings(env)
        stubrun.SALT[0] = d.choose(1000)
        out = os.path.join(env.root, 'out')
        os.makedirs(out)
        kw['catfile'] = os.path.join(env.root, 'cand.fit')
        fitsio.write(kw['catfile'], cand)
        if d.choose(2):
            p = d.pick(survey.PIX)
            kw.update(nside=survey.NSIDE, hpix=[p], area=3.0)
        keepz, keepid, clean = d.choose(2) == 1, d.choose(4) == 1 and cand['mem_match_id'].max() > 0, d.choose(2) == 1
        fn = survey.config(os.path.join(env.root, 'c.yml'), outpath=out, **kw)
        rec = {}

        def run():
            c = Configuration(fn)
            f = RunPercolation(c)
            f.run(keepz=keepz, keepid=keepid, cleaninput=clean)
            if f.cat is None or f.cat.size == 0:
                return
            f.output(savemembers=True, withversion=False, clobber=True)
            rec['fn'] = f.filename
        sim = env.sim()
        p = sim.spawn('perc', run)
        sim.run()
        must_finish([p], 'percolation')
        if rec:
            verify(one_watch(), rec['fn'], kw, cand if not keepid else None)
        env.key = ('perc', len(WATCH[next(iter(WATCH))].rounds) if WATCH else 0, keepz, keepid)
    finally:
        stubrun.MODE[0] = 'stub'
        WATCH.clear()


def runcat(env):
    """Richness of a given list, with and without masking."""
    from redmapper import Configuration, RunCatalog
    d = env.d
    stubrun.reset()
    WATCH.clear()
    stubrun.MODE[0] = 'real'
    try:
        cand = candidates(env, 3 + d.choose(20))
        masking = d.choose(2) == 1
        if d.choose(2) == 0:
            cand['mem_match_id'] = np.arange(cand.size) + 1
        elif d.choose(2):
            cand['mem_match_id'] = 0
        kw = settings(env)
        stubrun.SALT[0] = d.choose(1000)
        out = os.path.join(env.root, 'out')
        os.makedirs(out)
        kw['catfile'] = os.path.join(env.root, 'cand.fit')
        fitsio.write(kw['catfile'], cand)
        conv = d.choose(3) == 1
        fn = survey.config(os.path.join(env.root, 'c.yml'), outpath=out, **kw)
        rec = {}

        def run():
            c = Configuration(fn)
            f = RunCatalog(c)
            f.run(do_percolation_masking=masking, converge_zlambda=conv)
            f.output(savemembers=True, withversion=False, clobber=True)
            rec['fn'] = f.filename
        sim = env.sim()
        p = sim.spawn('runcat', run)
        sim.run()
        must_finish([p], 'runcat')
        w = one_watch()
        check(all(r['masking'] == masking for r in w.rounds), 'option', 'the masking option was not followed')
        verify(w, rec['fn'], kw, None, seeds=False)
        cat = fitsio.read(rec['fn'], ext=1, lower=True)
        check(cat.size == cand.size, 'lost', '%d of %d given positions are in the catalog' % (cat.size, cand.size))
        env.key = ('runcat', masking, cand.size)
    finally:
        stubrun.MODE[0] = 'stub'
        WATCH.clear()


def pool(env):
    """Several pixels at once through the multiprocess driver, possibly killed and resumed."""
    from redmapper import Configuration, RedmapperRun
    d = env.d
    stubrun.reset()
    WATCH.clear()
    stubrun.MODE[0] = 'real'
    try:
        cand = candidates(env, 20 + d.choose(40))
        kw = settings(env)
        kw.pop('depthfile', None)
        stubrun.SALT[0] = d.choose(1000)
        out = os.path.join(env.root, 'out')
        os.makedirs(out)
        kw['catfile'] = os.path.join(env.root, 'cand.fit')
        kw['calib_run_nproc'] = 2 + d.choose(3)
        fitsio.write(kw['catfile'], cand)
        fn = survey.config(os.path.join(env.root, 'c.yml'), outpath=out, **kw)
        keepz = d.choose(2) == 1

        def run():
            RedmapperRun(Configuration(fn)).run(keepz=keepz, cleaninput=True, percolation_only=True, check=True, consolidate=False)
        seen = {}
        if d.choose(2):
            sim = env.sim()
            sim.arm(env.plan({'pub': 8, 'w': 20, 'task': 8, 'any': 200}, ('crash',), classes=('pub', 'w', 'any', 'task')))
            p = sim.spawn('run', run)
            sim.run()
            collect(seen, out)
            WATCH.clear()
        sim = env.sim()
        p = sim.spawn('run', run)
        sim.run()
        must_finish([p], 'run')
        collect(seen, out)
        n = 0
        for f in sorted(os.listdir(out)):
            if f.endswith('_final_catalog.fit') and not f.startswith('.'):
                check(f in seen, 'unknown', '%s was not made by an observed stage' % f)
                verify(seen[f], os.path.join(out, f), kw, cand)
                n += 1
        env.key = ('pool', kw['calib_run_nproc'], n)
    finally:
        stubrun.MODE[0] = 'stub'
        WATCH.clear()


def collect(seen, out):
    """The last observed stage for every finished file."""
    for w in WATCH.values():
        f = w.fn
        if f not in seen and os.path.isfile(os.path.join(out, f)):
            seen[f] = w


def low(a):
    a = a.copy()
    a.dtype.names = [n.lower() for n in a.dtype.names]
    return a


def colormem(env):
    """Calibration training members: a first pass in full, then a percolated pass by decreasing richness."""
    from redmapper import Configuration, RunColormem
    d = env.d
    stubrun.reset()
    WATCH.clear()
    stubrun.MODE[0] = 'real'
    try:
        stubrun.SALT[0] = d.choose(1000)
        out = os.path.join(env.root, 'out')
        os.makedirs(out)
        rng = d.sub_rng()
        a = CTX.data['redgals']
        kw = dict(CTX.data['colorkw'])
        kw.update(calib_colormem_minlambda=d.pick((3.0, 1.0, 5.0)), percolation_lmask=d.pick((0.1, 0.2, -1.0)), calib_pcut=d.pick((0.3, 0.7)))
        kw['redgalfile'] = os.path.join(env.root, 'redgals.fit')
        kw['zmemfile'] = os.path.join(out, 'zmem.fit')
        fitsio.write(kw['redgalfile'], a[rng.permutation(a.size)[:6 + d.choose(a.size - 6)]])
        fn = survey.config(os.path.join(env.root, 'c.yml'), outpath=out, **kw)
        rec = {}

        def run():
            f = RunColormem(Configuration(fn))
            f.run()
            with quiet():
                rec['cat'], rec['mem'] = low(f.cat._ndarray), low(f.members._ndarray)
            f.output_training()
        sim = env.sim()
        p = sim.spawn('color', run)
        sim.run()
        good = sum(r['ok'] for r in one_watch().rounds if r['masking'])
        if p.exc is not None and (good == 0 or (good <= 3 and one_watch().runner.cat.size == 0)):
            return      # nothing to train on (the few clusters found may all lie in masked places)
        must_finish([p], 'training selection')
        w = one_watch()
        n = len(w.rounds) // 2
        check(not any(r['masking'] for r in w.rounds[:n]) and all(r['masking'] for r in w.rounds[n:]), 'passes', 'the passes are not one in full and one with masking')
        first = dict((r['id'], r['lambda'] if r['ok'] else -1.0) for r in w.rounds[:n])
        order = [first.get(r['id'], -1.0) for r in w.rounds[n:]]
        check(all(x >= y - 1e-4 for x, y in zip(order[:-1], order[1:])), 'order', 'the second pass is not in order of decreasing richness: %s' % order[:5])
        second = dict((r['id'], r) for r in w.rounds[n:])
        cat, mem = rec['cat'], rec['mem']
        for row in cat:
            r = second.get(int(row['mem_match_id']))
            check(r is not None and r['ok'], 'reject', 'cluster %d was rejected but is recorded' % row['mem_match_id'])
            check(row['lambda'] / row['scaleval'] >= kw['calib_colormem_minlambda'] - 1e-3, 'minimum', 'a training cluster is below the minimum richness')
        for x in mem:
            r = second.get(int(x['mem_match_id']))
            check(r is not None and r['ok'], 'member', 'member of an unknown cluster')
            k = np.where(r['ids'] == x['id'])[0]
            check(k.size == 1, 'member', 'galaxy %d is no neighbour of its cluster' % x['id'])
            check(abs(x['pfree'] - r['pfree'][k[0]]) < TOL or x['pfree'] == 0, 'member', 'galaxy %d in training cluster %d: availability %.4f recorded, %.4f was left' % (
                x['id'], x['mem_match_id'], x['pfree'], r['pfree'][k[0]]))
        env.key = ('color', n, cat.size)
    finally:
        stubrun.MODE[0] = 'stub'
        WATCH.clear()


def likelihoods(env):
    """The earlier stages count every galaxy in full, for every cluster."""
    from redmapper import Configuration, RunFirstPass, RunLikelihoods
    d = env.d
    stubrun.reset()
    WATCH.clear()
    stubrun.MODE[0] = 'real'
    try:
        kw = settings(env)
        stubrun.SALT[0] = d.choose(1000)
        out = os.path.join(env.root, 'out')
        os.makedirs(out)
        rng = d.sub_rng()
        seeds = fitsio.read(CTX.data['survey']['seedfile'])
        kw['seedfile'] = os.path.join(env.root, 'seeds.fit')
        fitsio.write(kw['seedfile'], seeds[rng.randint(seeds.size, size=4 + d.choose(20))])
        fn = survey.config(os.path.join(env.root, 'c.yml'), outpath=out, **kw)

        def run():
            c = Configuration(fn)
            f = RunFirstPass(c, specmode=True)
            f.run(keepz=d.choose(2) == 1)
            if f.cat is None or f.cat.size == 0:
                return
            f.output(savemembers=False, withversion=False, clobber=True)
            c.catfile = f.filename
            f = RunLikelihoods(c)
            f.run(keepz=True)
        sim = env.sim()
        p = sim.spawn('first', run)
        sim.run()
        must_finish([p], 'first pass')
        env.key = ('first', len(WATCH))
    finally:
        stubrun.MODE[0] = 'stub'
        WATCH.clear()


SCENARIOS = {'colormem': (colormem, (24, 500)), 'percolate': (percolate, (170, 5000)), 'runcat': (runcat, (60, 1500)), 'pool': (pool, (16, 400)), 'likelihoods': (likelihoods, (16, 300))}

LEVEL_NOTE = 'Seeded search over candidate lists (crowded, repeated, moved), orders, random draws, settings and stage options with the full numerical code; a monitor keeps its own account of every galaxy and compares it with what each cluster is offered, and the files with what was observed. Some runs go through the multiprocess driver with kills and resumes. Sampled.'
