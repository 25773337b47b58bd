"""The small survey of the test suite, for runs with the full numerical stages.

Expensive read-only models (red-sequence parameters, backgrounds) are loaded
once per file and shared; everything else is the real code.
"""
import os
import shutil

import numpy as np
import fitsio
import hpgeom as hpg
import yaml

from .common import check, fail, must_finish, quiet, CTX, rows_equal, diff_rows
from .harness import REPO
from . import stubrun
from .props.p17 import snap, diff

PIX = (2163, 2296, 2297, 2434)
NSIDE = 64
_cache = {}


def cached(cls, name):
    def load(*a, **k):
        if a and isinstance(a[0], str) and a[0].startswith(CTX.shared):
            key = (name, repr(a), repr(sorted((x, y) for x, y in k.items() if x not in ('config',))))
            if key not in _cache:
                _cache[key] = cls(*a, **k)
            return _cache[key]
        return cls(*a, **k)
    load._orig = cls
    return load


def prepare(ctx, seeds_per_pixel=4):
    import redmapper
    import redmapper.cluster_runner as cr
    from redmapper import Configuration
    if 'survey' in ctx.data:
        return
    data = os.path.join(ctx.shared, 'survey')
    shutil.copytree(os.path.join(REPO, 'tests', 'data_for_tests'), data, copy_function=shutil.copyfile)
    y = yaml.safe_load(open(os.path.join(data, 'testconfig.yaml')))
    for k, v in y.items():
        if isinstance(v, str) and 'data_for_tests/' in v:
            y[k] = os.path.join(data, v.split('data_for_tests/')[1])
    y['zredfile'] = os.path.join(data, 'zreds_test', 'dr8_test_zreds_master_table.fit')
    y['seedfile'] = os.path.join(data, 'seeds_few.fit')
    y['printlogging'] = True
    y['zlambdafile'] = os.path.join(data, 'test_dr8_zlambdacorr.fit')
    ctx.data['survey'] = y
    ctx.data['dir'] = data
    seeds = fitsio.read(os.path.join(data, 'test_dr8_specseeds.fit'))
    ip = hpg.angle_to_pixel(NSIDE, seeds[upper(seeds, 'ra')], seeds[upper(seeds, 'dec')], nest=False)
    use = np.concatenate([np.where(ip == p)[0][:seeds_per_pixel] for p in PIX])
    fitsio.write(y['seedfile'], seeds[np.sort(use)])
    for n in ('RedSequenceColorPar', 'Background', 'ZredBackground', 'ColorBackground'):
        if hasattr(cr, n) and not hasattr(getattr(cr, n), '_orig'):
            setattr(cr, n, cached(getattr(cr, n), n))
    # mask galaxies
    np.random.seed(4711)
    from redmapper.mask import HPMask
    c = Configuration(config(os.path.join(ctx.shared, 'prep.yml'), outpath=ctx.shared))
    m = HPMask(c, include_maskgals=False)
    m.gen_maskgals(y['maskgalfile'])
    stubrun.install_switch()


def upper(a, n):
    for k in a.dtype.names:
        if k.lower() == n:
            return k
    raise KeyError(n)


def config(fn, **over):
    y = dict(CTX.data['survey'])
    y.update(over)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w') as f:
        yaml.dump(y, f)
    return fn


def chain(root, fn, p, mode, catfile=None):
    """One pixel straight through the stages."""
    from redmapper import Configuration, RunFirstPass, RunLikelihoods, RunPercolation
    c = Configuration(fn)
    c.d.hpix = [p]
    c.d.nside = NSIDE
    c.d.outbase = ('%s_%05d' % (c.outbase, p)) if mode == 'perc' else '%s_%d_%05d' % (c.outbase, NSIDE, p)
    if mode == 'full':
        f = RunFirstPass(c, specmode=True)
        f.run(keepz=True, cleaninput=True)
        if f.cat is None or f.cat.size == 0:
            return
        f.output(savemembers=False, withversion=False, clobber=True)
        c.catfile = f.filename
        f = RunLikelihoods(c)
        f.run(keepz=True)
        if f.cat is None or f.cat.size == 0:
            return
        f.output(savemembers=False, withversion=False, clobber=True)
        c.catfile = f.filename
    else:
        c.catfile = catfile
    f = RunPercolation(c)
    f.run(keepz=True, cleaninput=mode == 'perc')
    if f.cat is None or f.cat.size == 0:
        return
    f.output(savemembers=True, withversion=False, clobber=True)


def references(ctx):
    """Per-pixel reference products, computed once."""
    stubrun.MODE[0] = 'real'
    ref = {}
    like = []
    for mode in ('full', 'perc'):
        root = os.path.join(ctx.shared, 'ref_' + mode)
        os.makedirs(root)
        fn = config(os.path.join(root, 'c.yml'), outpath=root, calib_run_nproc=2)
        for p in PIX:
            chain(root, fn, p, mode, os.path.join(ctx.shared, 'like.fit'))
        ref[mode] = tables(root)
        if mode == 'full':
            like = [ref[mode][n] for n in sorted(ref[mode]) if n.endswith('_like_catalog.fit')]
            fitsio.write(os.path.join(ctx.shared, 'like.fit'), np.concatenate(like))
    ctx.data['ref'] = ref
    check(sum(n.endswith('_final_catalog.fit') for n in ref['full']) >= 2, 'reference', 'the reference survey yields no clusters')
    stubrun.MODE[0] = 'stub'


def tables(out):
    r = {}
    for f in sorted(os.listdir(out)):
        if f.endswith('.fit') and f.startswith(CTX.data['survey']['outbase']):
            r[f] = fitsio.read(os.path.join(out, f), ext=1, lower=True)
    return r


def consolidated(ref, outbase, minlam=3.0, maxfrac=0.2):
    """Brute-force consolidation of the reference pixel files: (catalog rows, member rows) with new ids."""
    rows, mems = [], []
    for p in PIX:
        n = [x for x in ref if x.endswith('_%05d_final_catalog.fit' % p)]
        if not n:
            continue
        a, m = ref[n[0]], ref[n[0][:-4] + '_members.fit']
        ip = hpg.angle_to_pixel(NSIDE, a['ra'], a['dec'], nest=False)
        for r in np.where((ip == p) & (a['maskfrac'] < maxfrac) & (a['lambda'] / a['scaleval'] > minlam))[0]:
            rows.append(a[r:r + 1].copy())
            mems.append(m[m['mem_match_id'] == a['mem_match_id'][r]].copy())
    o = np.argsort([-float(x['lnlike'][0]) for x in rows], kind='stable')
    for k, i in enumerate(o):
        rows[i]['mem_match_id'] = k + 1
        mems[i]['mem_match_id'] = k + 1
    if not rows:
        return None, None
    return np.concatenate([rows[i] for i in o]), np.concatenate([mems[i] for i in o])


def same_rows(a, b, keys):
    a = a[np.lexsort([a[k] for k in keys])]
    b = b[np.lexsort([b[k] for k in keys])]
    return rows_equal(a, b), diff_rows(a, b)


def check_products(got, ref, outbase):
    for n, a in ref.items():
        check(n in got, 'missing', '%s was not produced' % n)
        check(rows_equal(got[n], a), 'pixel', '%s differs from the same pixel run by itself: %s' % (n, diff_rows(got[n], a)[:300]))
    c, m = consolidated(ref, outbase)
    ok, df = same_rows(got[outbase + '_final.fit'], c, ['mem_match_id'])
    check(ok, 'final', 'consolidated catalog: %s' % df[:300])
    ok, df = same_rows(got[outbase + '_final_members.fit'], m, ['id', 'mem_match_id'])
    check(ok, 'final', 'consolidated members: %s' % df[:300])


def body(root, fn, mode, chk=True, rec=None):
    from redmapper import Configuration, RedmapperRun

    def run():
        c = Configuration(fn)
        if rec is not None:
            with quiet():
                rec['before'] = snap(c)
        r = RedmapperRun(c).run(specmode=mode == 'full', keepz=True, cleaninput=True, percolation_only=mode == 'perc', check=chk,
                                consolidate_like=mode == 'full')
        if rec is not None:
            with quiet():
                rec['after'] = snap(c)
        return r
    return run


def layout(root, mode, nproc):
    kw = dict(outpath=os.path.join(root, 'out'), calib_run_nproc=nproc)
    if mode == 'perc':
        kw['catfile'] = os.path.join(CTX.shared, 'like.fit')
    if nproc == 1:
        kw.update(nside=NSIDE, hpix=list(PIX), area=3.0)
    os.makedirs(os.path.join(root, 'out'))
    return config(os.path.join(root, 'c', 'c.yml'), **kw)


def real_run(env):
    """The full numerical stages under a drawn schedule."""
    d = env.d
    stubrun.reset()
    stubrun.MODE[0] = 'real'
    try:
        mode = d.pick(('full', 'perc'))
        nproc = 1 + d.choose(4)
        fn = layout(env.root, mode, nproc)
        sim = env.sim()
        rec = {}
        p = sim.spawn('run', body(env.root, fn, mode, rec=rec))
        sim.run()
        must_finish([p], 'run')
        check(rec['after'] == rec['before'], 'caller', 'the run changed the configuration of its caller: %s' % diff(rec['after'], rec['before']))
        check_products(tables(os.path.join(env.root, 'out')), CTX.data['ref'][mode], CTX.data['survey']['outbase'])
        env.key = ('real', mode, nproc)
    finally:
        stubrun.MODE[0] = 'stub'
