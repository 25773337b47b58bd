"""P10: what consolidation keeps, and how it numbers it."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, CTX
from .. import consgen, minicfg
from ..seams import _o, x_exists

REAL = ['redmapper.pipeline.RedmapperConsolidateTask', 'redmapper.pipeline.RuncatConsolidateTask',
        'redmapper.redmapper_run.RedmapperRun.run/_consolidate', 'redmapper.volumelimit.VolumeLimitMask(Fixed)',
        'redmapper.utilities.read_members', 'redmapper.configuration.Configuration', 'CFITSIO']
STUBS = ['per-pixel catalogs and members are synthetic, written by the harness',
         'diagnostic plots (replaced by no-op classes)', 'directory listing order (seeded)']
ASSUMPTIONS = ['all pixel catalogs in the directory with the run\'s outbase belong to one run at one nside']


class NoPlot(object):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        return lambda *a, **k: None


def patch_plots():
    import redmapper.pipeline.redmapperconsolidatetask as m
    for n in ('SpecPlot', 'NzPlot', 'NLambdaPlot', 'PositionPlot'):
        if hasattr(m, n):
            setattr(m, n, NoPlot)


def prepare(ctx):
    patch_plots()


DIRS = ('out', 'a_64_00012_b', 'run_4_00001_final', 'x.fit.d')
BASES = ('run', 'dr8_run', 'base_32_00007_x', 'fit')


def build(env, root, kind, large=False):
    """Draw a set of pixel files.  Returns a description."""
    d = env.d
    rng = d.sub_rng()
    nside = d.pick((4, 1, 32, 128, 8))
    npix = hpg.nside_to_npixel(nside)
    w = {'nside': nside, 'kind': kind}
    n = 1 + d.choose(5)
    if large:
        n = 2 + d.choose(2)
    first = d.choose(3)
    if first == 0 or npix < 2 * n:
        pix = list(range(min(n, npix)))
    elif first == 1:
        pix = list(range(npix - n, npix))
    else:
        pix = sorted(rng.choice(npix, size=n, replace=False).tolist())
    w['pix'] = pix
    w['dir'] = os.path.join(root, d.pick(DIRS))
    w['outbase'] = d.pick(BASES)
    os.makedirs(w['dir'])
    w['lcuts'] = d.pick(([5.0, 20.0], [5.0], [20.0, 5.0], [3.0, 40.0, 100.0]))
    w['vl'] = d.pick(([], [], [0.2, 5.0], [0.2]))
    w['scale'] = d.choose(3) == 1
    w['spec'] = d.choose(3) == 1
    w['plots'] = d.choose(3) == 1
    w['ties'] = d.choose(4) == 1
    if kind != 'final' or large:
        w['vl'] = []
    if large:
        w['spec'] = False
    gal = minicfg.galtable(os.path.join(root, 'gal'), nside=max(nside, 1), pix=pix)
    w['cfg'] = minicfg.write(os.path.join(w['dir'], 'c.yml'), gal, outpath=w['dir'], outbase=w['outbase'],
                             consolidate_lambda_cuts=w['lcuts'], consolidate_vlim_lstars=w['vl'], select_scaleval=w['scale'],
                             specfile=os.path.join(root, 'spec.fit'), percolation_minlambda=3.0, max_maskfrac=0.2,
                             calib_run_nproc=1)
    w['cats'], w['mems'] = [], []
    for k, p in enumerate(pix):
        m = d.choose(8)
        nc = (6, 12, 1, 2, 25, 3, 8, 40)[m]
        if large:
            nc = 90000 // n
        c, mm = consgen.make_pixel(rng, nside, p, nc, k, w['ties'], maxmem=1 if large else 5)
        if large:
            # more clusters survive than a two-byte number can count
            c['maskfrac'] *= 0.5
            c['lambda'] += 3.0
        elif d.choose(6) == 5:
            c['maskfrac'] = 0.9          # a pixel without surviving clusters
        if d.choose(8) == 7:
            c['lambda'] = np.minimum(c['lambda'], 15.0)
        if d.choose(8) == 7:
            c['lambda'][:] = 2.0
        w['cats'].append(c)
        w['mems'].append(mm)
    # spectra: on top of clusters and members, 1 arcsec off, or 10 arcsec off
    sp = []
    for c in w['cats'] + w['mems']:
        for i in range(0, 1 if large else len(c), 3):
            off = (0.0, 1.0, 10.0)[rng.randint(3)] / 3600.
            sp.append((c['ra'][i], np.clip(c['dec'][i] + off, -90, 90), rng.uniform(0.1, 0.6), rng.choice([1e-4, 0.1])))
    s = np.zeros(max(1, len(sp)), dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    for i, t in enumerate(sp):
        s[i] = t
    if not (s['z_err'] < 0.001).any():
        s['z_err'][0] = 1e-4
    fitsio.write(os.path.join(root, 'spec.fit'), s)
    w['specs'] = s[s['z_err'] < 0.001]
    w['masks'] = []
    for v in w['vl']:
        import healsparse
        m = healsparse.HealSparseMap.make_empty(4, 64, [('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
        # cover 4 of 5 fine pixels around the clusters
        allra = np.concatenate([c['ra'] for c in w['cats']])
        alldec = np.concatenate([c['dec'] for c in w['cats']])
        ip = np.unique(hpg.angle_to_pixel(64, allra, alldec, nest=True))
        ip = ip[rng.uniform(size=ip.size) < 0.8]
        val = np.zeros(ip.size, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
        val['fracgood'] = 1.0
        val['zmax'] = rng.uniform(0.2, 0.6, ip.size)
        m.update_values_pix(ip, val, nest=True)
        from redmapper import __version__
        fn = os.path.join(w['dir'], '%s_redmapper_v%s_vl%02d_vlim_zmask.fit' % (w['outbase'], version(), int(v * 10)))
        m.write(fn)
        w['masks'].append(dict(zip(ip.tolist(), val['zmax'].tolist())))
    return w


def version():
    from redmapper import __version__
    return __version__


def pixname(w, i, cattype):
    return os.path.join(w['dir'], '%s_%d_%05d_%s_catalog.fit' % (w['outbase'], w['nside'], w['pix'][i], cattype))


def lay(w, cattype, order):
    """Write the pixel files in some order."""
    for i in order:
        fn = pixname(w, i, cattype)
        fitsio.write(fn, w['cats'][i])
        fitsio.write(fn[:-4] + '_members.fit', w['mems'][i])


def zlimit(w, j, ra, dec):
    if not w['vl']:
        return np.full(len(ra), 0.6)
    ip = hpg.angle_to_pixel(64, ra, dec, nest=True)
    return np.array([w['masks'][j].get(int(x), 0.0) for x in ip], dtype='f4')


def specz(w, ra, dec):
    sep, j = consgen.nearest(ra, dec, w['specs']['ra'], w['specs']['dec'])
    return np.where(sep < 3.0, w['specs']['z'][j], -1.0).astype('f4'), sep


def check_output(w, label, cat, mem, keep, likecol, ids_of, renumber, basecount, spec):
    """cat, mem: arrays as stored; keep: {tag: (pixel index, row)} expected."""
    alltag = {int(c['tag'][r]): (i, r) for i, c in enumerate(w['cats']) for r in range(len(c))}
    tags = cat['tag'].tolist()
    check(len(set(tags)) == len(tags), 'duplicate', '%s lists a cluster twice' % label)
    miss = sorted(set(keep) - set(tags))
    check(not miss, 'missing', '%s lost %d qualifying clusters' % (label, len(miss)))
    extra = sorted(set(tags) - set(keep))
    check(not extra, 'extra', '%s holds %d clusters that do not qualify' % (label, len(extra)))
    src = np.zeros(len(tags), dtype=consgen.CAT_DT)
    for k, t in enumerate(tags):
        i, r = alltag[t]
        src[k] = w['cats'][i][r]
    for n in src.dtype.names:
        if n == 'mem_match_id' and renumber:
            continue
        if n == 'cg_spec_z' and spec:
            continue
        check(n in cat.dtype.names and np.array_equal(cat[n], src[n]), 'altered', '%s: column %s of a cluster was altered' % (label, n))
    if spec:
        z, sep = specz(w, cat['ra'], cat['dec'])
        ok = np.abs(sep - 3.0) > 0.2
        good = np.isclose(cat['cg_spec_z'], z) | ~ok
        # several spectra inside the radius: any of them
        check(good.all(), 'spec', '%s: spectroscopic redshift of a cluster is not that of its match' % label)
    ids = cat['mem_match_id'].astype('i8')
    check(len(set(ids.tolist())) == len(ids), 'ids', '%s: cluster ids are not unique' % label)
    if renumber:
        check(ids.size == 0 or (ids.min() >= 1 and ids.max() <= basecount), 'ids', '%s: ids outside 1..%d' % (label, basecount))
        o = np.argsort(ids)
        like = cat[likecol][o]
        check((np.diff(like) <= 0).all(), 'order', '%s: ids do not follow decreasing %s' % (label, likecol))
        for t, k in zip(tags, ids.tolist()):
            if t in ids_of:
                check(ids_of[t] == k, 'ids', '%s: a cluster has different ids in different cuts' % label)
            ids_of[t] = k
    # members
    want = {}
    of = []
    for m in w['mems']:
        x = {}
        for q, c in enumerate(m['mem_match_id'].tolist()):
            x.setdefault(c, []).append(q)
        of.append(x)
    for k, t in enumerate(tags):
        i, r = alltag[t]
        for q in of[i].get(int(w['cats'][i]['mem_match_id'][r]), ()):
            want[int(w['mems'][i]['tag'][q])] = (i, q, int(ids[k]))
    if mem is None:
        return
    got = mem['tag'].tolist()
    check(len(got) == len(set(got)), 'member-duplicate', '%s lists a member twice' % label)
    check(not set(want) - set(got), 'member-missing', '%s lost %d members' % (label, len(set(want) - set(got))))
    check(not set(got) - set(want), 'member-extra', '%s holds %d members of other clusters' % (label, len(set(got) - set(want))))
    src = np.zeros(len(got), dtype=consgen.MEM_DT)
    for k, t in enumerate(got):
        i, q, cid = want[t]
        src[k] = w['mems'][i][q]
        src['mem_match_id'][k] = cid
    check(np.array_equal(mem['mem_match_id'], src['mem_match_id']), 'member-id', '%s: a member carries the id of another cluster' % label)
    for n in src.dtype.names:
        if n == 'zspec' and spec:
            continue
        check(np.array_equal(mem[n], src[n]), 'altered', '%s: member column %s altered' % (label, n))
    if spec and len(got):
        z, sep = specz(w, mem['ra'], mem['dec'])
        ok = np.abs(sep - 3.0) > 0.2
        check((np.isclose(mem['zspec'], z) | ~ok).all(), 'spec', '%s: zspec of a member is not that of its match' % label)


def base_keep(w, rich):
    keep = {}
    for i, c in enumerate(w['cats']):
        ip = hpg.angle_to_pixel(w['nside'], c['ra'], c['dec'], nest=False)
        use = (ip == w['pix'][i]) & (c['maskfrac'] < np.float32(0.2) if False else c['maskfrac'] < 0.2) & rich(c)
        for r in np.where(use)[0]:
            keep[int(c['tag'][r])] = (i, int(r))
    return keep


def final_expect(w):
    """(i, j) -> expected tags for RedmapperConsolidateTask."""
    base = base_keep(w, lambda c: c['lambda'] > 3.0)
    out = {}
    for i, lc in enumerate(w['lcuts']):
        for j in range(max(1, len(w['vl']))):
            k = {}
            for t, (q, r) in base.items():
                c = w['cats'][q][r]
                lam = c['lambda'] / c['scaleval'] if w['scale'] else c['lambda']
                if lam > lc and (0.6 if not w['vl'] else zlimit(w, j, np.array([c['ra']]), np.array([c['dec']]))[0]) > c['z_lambda']:
                    k[t] = (q, r)
            out[(i, j)] = k
    return base, out


def outname(w, i, j, cattype='final'):
    if cattype == 'final':
        x = 'lgt%02d' % w['lcuts'][i]
        if w['vl']:
            x += '_vl%02d' % int(w['vl'][j] * 10)
    else:
        x = cattype
    return os.path.join(w['dir'], '%s_redmapper_v%s_%s_catalog.fit' % (w['outbase'], version(), x))


def check_final(w):
    base, exp = final_expect(w)
    ids_of = {}
    for (i, j), keep in sorted(exp.items()):
        fn = outname(w, i, j)
        label = os.path.basename(fn)
        if not keep:
            if x_exists(fn):
                check(len(consgen.read(fn)) == 0, 'extra', '%s holds clusters although none qualifies' % label)
            continue
        check(x_exists(fn), 'missing', '%s was not written' % label)
        mfn = fn[:-4] + '_members.fit'
        check(x_exists(mfn), 'member-missing', '%s was not written' % os.path.basename(mfn))
        check_output(w, label, consgen.read(fn), consgen.read(mfn), keep, 'lnlamlike', ids_of, True, len(base), w['spec'])


def large(env):
    return final(env, True)


def final(env, large=False):
    d = env.d
    from redmapper.pipeline import RedmapperConsolidateTask
    w = build(env, env.root, 'final', large)
    rng = d.sub_rng()
    order = rng.permutation(len(w['pix'])).tolist()
    lay(w, 'final', order)
    sim = env.sim(preempt=0.0)
    byarg = d.choose(3) == 1

    def run():
        if byarg:
            t = RedmapperConsolidateTask(w['cfg'], lambda_cuts=w['lcuts'], vlim_lstars=w['vl'], path=w['dir'])
        else:
            t = RedmapperConsolidateTask(w['cfg'])
        t.run(do_plots=w['plots'], match_spec=w['spec'])
    p = sim.spawn('cons', run)
    sim.run()
    must_finish([p], 'consolidation')
    check_final(w)
    env.key = (w['nside'], len(w['pix']), len(w['lcuts']), len(w['vl']), w['scale'], w['spec'])


def runcat(env):
    d = env.d
    from redmapper.pipeline import RuncatConsolidateTask
    w = build(env, env.root, 'runcat')
    cattype = d.pick(('runcat', 'lambda_chisq'))
    # ids of a run on a given catalog are the ids of that catalog: unique over the sky
    for i, (c, m) in enumerate(zip(w['cats'], w['mems'])):
        c['mem_match_id'] += 1000 * i
        m['mem_match_id'] += 1000 * i
    rng = d.sub_rng()
    lay(w, cattype, rng.permutation(len(w['pix'])).tolist())
    withmem = d.choose(4) != 3
    sim = env.sim(preempt=0.0)

    def run():
        RuncatConsolidateTask(w['cfg'], path=w['dir'] if d0 else None).run(do_plots=w['plots'], match_spec=w['spec'],
                                                                          consolidate_members=withmem, cattype=cattype)
    d0 = d.choose(2)
    p = sim.spawn('cons', run)
    sim.run()
    must_finish([p], 'consolidation')
    keep = {}
    for i, c in enumerate(w['cats']):
        ip = hpg.angle_to_pixel(w['nside'], c['ra'], c['dec'], nest=False)
        for r in np.where(ip == w['pix'][i])[0]:
            keep[int(c['tag'][r])] = (i, int(r))
    fn = outname(w, 0, 0, cattype)
    if not keep:
        check(not x_exists(fn) or len(consgen.read(fn)) == 0, 'extra', 'clusters although none qualifies')
        return
    check(x_exists(fn), 'missing', '%s was not written' % fn)
    mem = consgen.read(fn[:-4] + '_members.fit') if withmem else None
    check_output(w, os.path.basename(fn), consgen.read(fn), mem, keep, 'lnlike', {}, False, 0, w['spec'])


def multi(env):
    """RedmapperRun consolidating finished pixel runs."""
    d = env.d
    from redmapper import Configuration, RedmapperRun
    w = build(env, env.root, 'run')
    nproc = 1 + d.choose(3)
    # the split chosen by RedmapperRun must equal the pixels: table pixels at nside, nproc large enough or 1
    for n in ('firstpass', 'like', 'final'):
        for i in range(len(w['pix'])):
            fn = pixname(w, i, n)
            fitsio.write(fn, w['cats'][i])
            if n == 'final':
                fitsio.write(fn[:-4] + '_members.fit', w['mems'][i])
    like = d.choose(2) == 1
    sim = env.sim()
    out = {}

    def run():
        c = Configuration(w['cfg'])
        c.calib_run_nproc = nproc
        c.calib_run_min_nside = w['nside']
        if nproc == 1:
            c.d.nside = w['nside']
        c.catfile = 'x'
        out['r'] = RedmapperRun(c).run(consolidate_like=like, check=True)
    p = sim.spawn('run', run)
    sim.run()
    keep = base_keep(w, lambda c: c['lambda'] / c['scaleval'] > 3.0)
    if not keep:
        # nothing survives at all: an error or an empty catalog, but never clusters
        return
    must_finish([p], 'run')
    fin = os.path.join(w['dir'], '%s_final.fit' % w['outbase'])
    check(x_exists(fin), 'missing', 'no final catalog')
    r = out['r'][0] if like else out['r']
    check(r == fin, 'name', 'returned %s' % r)
    check_output(w, 'final', consgen.read(fin), consgen.read(fin[:-4] + '_members.fit'), keep, 'lnlike', {}, True, len(keep), False)
    if like:
        lf = out['r'][1]
        a = consgen.read(lf)
        check(sorted(a['tag'].tolist()) == sorted(keep), 'like', 'consolidated likelihoods hold %d clusters, expected %d' % (len(a), len(keep)))


SCENARIOS = {'final': (final, (2000, 40000)), 'runcat': (runcat, (800, 16000)), 'multi': (multi, (800, 16000)),
             'large': (large, (4, 40))}

LEVEL_NOTE = 'Seeded search over generated pixel catalogs, sky resolutions, path and run names, cuts, volume limits, listing and completion orders; compared row by row with an independent brute-force consolidation. Sampled, small catalogs.'
