"""P09: single-pixel jobs of distributed runs: kills, reruns, neighbours."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import minicfg, stubrun, runworld, survey, consgen
from ..seams import _o

REAL = ['redmapper.pipeline.RunRedmapperPixelTask/RuncatPixelTask/RunZScanPixelTask/RunZmaskPixelTask', 'stage classes: construction, file names, output()',
        'redmapper.catalog save path', 'redmapper.configuration.Configuration incl. check_files, compute_border, file logging', 'CFITSIO',
        'scenario real: the full numerical stages']
STUBS = ['scenario jobs: numerical work of a stage replaced by catalogs drawn from a digest of everything the stage was given',
         'numpy random draws pinned per stage and pixel']
ASSUMPTIONS = ['Monte-Carlo draws (mask galaxy samples) are held fixed per stage and pixel']

KINDS = ('find', 'runcat', 'zscan', 'zmask')
STAGES = {'find': (('RunFirstPass', 'firstpass'), ('RunLikelihoods', 'like'), ('RunPercolation', 'final')),
          'runcat': (('RunCatalog', 'lambda_chisq'),), 'zscan': (('RunZScan', 'zscan'),), 'zmask': (('RunRandomsZmask', 'randoms_zmask'),)}


def prepare(ctx):
    survey.prepare(ctx, seeds_per_pixel=3)
    stubrun.MODE[0] = 'real'
    real_prepare(ctx)
    stubrun.MODE[0] = 'stub'


def tasks():
    from redmapper.pipeline import RunRedmapperPixelTask, RuncatPixelTask, RunZScanPixelTask, RunZmaskPixelTask
    return {'find': RunRedmapperPixelTask, 'runcat': RuncatPixelTask, 'zscan': RunZScanPixelTask, 'zmask': RunZmaskPixelTask}


def classes():
    import redmapper
    from redmapper import RunFirstPass, RunLikelihoods, RunPercolation
    from redmapper.runcat import RunCatalog
    from redmapper.run_zscan import RunZScan
    from redmapper.run_randoms_zmask import RunRandomsZmask
    return dict(RunFirstPass=RunFirstPass, RunLikelihoods=RunLikelihoods, RunPercolation=RunPercolation, RunCatalog=RunCatalog,
                RunZScan=RunZScan, RunRandomsZmask=RunRandomsZmask)


def lay(root, pix, outbase, printlog, perc):
    gal = minicfg.galtable(os.path.join(root, 'g'), nside=64, pix=(1, 2))
    for i, n in enumerate(('bkg.fit', 'par.fit', 'zl.fit', 'z_zreds_master_table.fit', 'cat.fit', 'rand_master_table.fit', 'seed.fit')):
        fn = os.path.join(root, n)
        a = np.zeros(3, dtype=[('ra', 'f8'), ('x', 'i4')])
        a['x'] = i
        fitsio.write(fn, a, extname='CHISQBKG', clobber=True)
        if n == 'bkg.fit':
            fitsio.write(fn, a, extname='ZREDBKG')

    def r(n):
        return os.path.join(root, n)
    return minicfg.write(r('out/c.yml'), gal, outpath=r('out'), outbase=outbase, bkgfile=r('bkg.fit'), parfile=r('par.fit'), zlambdafile=r('zl.fit'),
                         zredfile=r('z_zreds_master_table.fit'), catfile=r('cat.fit'), randfile=r('rand_master_table.fit'), seedfile=r('seed.fit'),
                         printlogging=printlog, runcat_percolation_masking=perc)


def draw(env):
    d = env.d
    stubrun.reset()
    rng = d.sub_rng()
    jobs = []
    n = 1 + d.choose(4)
    same = d.choose(3) == 1
    k0 = d.pick(KINDS)
    for i in range(n):
        nside = d.pick((4, 8, 32, 64))
        px = int(rng.randint(min(300, hpg.nside_to_npixel(nside)))) if not same else 11
        kind = k0 if d.choose(3) else d.pick(KINDS)
        if (kind, nside, px) not in jobs:
            jobs.append((kind, nside, px))
    for kind, nside, px in jobs:
        if d.choose(6) == 5:
            stubrun.EMPTY[(nside, px)] = d.pick(tuple(s for s, _ in STAGES[kind]))
    return jobs


def base(outbase, nside, px):
    return '%s_%d_%05d' % (outbase, nside, px)


def alone(env, jobs, root, fn):
    """Each job straight through its stages in a process of its own."""
    from redmapper import Configuration
    cl = classes()

    def one(kind, nside, px):
        def run():
            c = Configuration(fn)
            c.border = c.compute_border()
            c.d.hpix, c.d.nside, c.d.outbase = [px], nside, base(c.outbase, nside, px)
            for cls, ft in STAGES[kind]:
                s = cl[cls](c)
                if kind == 'runcat':
                    s.run(do_percolation_masking=c.runcat_percolation_masking)
                else:
                    s.run()
                if s.cat is None or (kind == 'find' and s.cat.size == 0):
                    return
                s.output(savemembers=kind not in ('zmask',) and cls not in ('RunFirstPass', 'RunLikelihoods'), withversion=False, clobber=True)
                if kind == 'find':
                    c.catfile = s.filename
        return run
    for j in jobs:
        s = env.dry(root)
        p = s.spawn('alone', one(*j))
        s.run()
        must_finish([p], 'reference')
    return tables(os.path.join(root, 'out'))


def tables(out):
    r = {}
    for f in sorted(os.listdir(out)):
        if f.endswith('.fit') and not f.startswith('.'):
            try:
                r[f] = fitsio.read(os.path.join(out, f), ext=1, lower=True)
            except Exception as e:
                fail('torn', '%s cannot be read: %s' % (f, e))
    return r


def raw(out):
    r = {}
    for f in sorted(os.listdir(out)):
        if f.endswith('.fit') and not f.startswith('.'):
            with _o['open'](os.path.join(out, f), 'rb') as h:
                r[f] = h.read()
    return r


def jobs(env):
    d = env.d
    T = tasks()
    js = draw(env)
    outbase = d.pick(('run', 'dr8_64_00011'))
    plog = d.choose(2) == 1
    perc = d.choose(2) == 1
    ref = alone(env, js, env.subroot('ref'), lay(os.path.join(env.base, 'ref'), js, outbase, plog, perc))
    del stubrun.RUNS[:]
    fn = lay(env.root, js, outbase, plog, perc)
    out = os.path.join(env.root, 'out')
    path = d.choose(2)

    def go(j):
        def run():
            kind, nside, px = j
            T[kind](fn, px, nside, path=out if path else None).run()
        return run
    # operation counts of the undisturbed jobs
    dry = env.subroot('dry')
    fn_d = lay(dry, js, outbase, plog, perc)
    s0 = env.dry(dry)
    ps = []
    for j in js:
        def run0(j=j):
            T[j[0]](fn_d, j[2], j[1]).run()
        ps.append(s0.spawn('d', run0))
    s0.run()
    must_finish(ps, 'undisturbed job')
    compare(tables(os.path.join(dry, 'out')), ref)
    counters = dict(s0.counters)
    todo = list(js)
    for rnd in range(1 + d.choose(3)):
        there = raw(out)
        del stubrun.RUNS[:]
        sim = env.sim()
        sim.arm(env.plan(counters, ('crash', 'crash', 'crash', 'enospc', 'eio'), classes=('pub', 'pub', 'w', 'any', 'task')))
        ps = [sim.spawn('job%d' % k, go(j)) for k, j in enumerate(js)]
        sim.run()
        for p in ps:
            if p.exc is not None:
                check(sim.fault_hits and (isinstance(p.exc, OSError)), 'error', 'job failed: %s' % tb(p.exc))
        if not sim.fault_hits:
            must_finish(ps, 'job')
        redo(there, js)
    there = raw(out)
    del stubrun.RUNS[:]
    sim = env.sim()
    ps = [sim.spawn('job%d' % k, go(j)) for k, j in enumerate(js)]
    sim.run()
    must_finish(ps, 'rerun job')
    redo(there, js)
    compare(tables(out), ref)
    # finished jobs again
    there = raw(out)
    del stubrun.RUNS[:]
    sim = env.sim()
    ps = [sim.spawn('job%d' % k, go(j)) for k, j in enumerate(js)]
    sim.run()
    must_finish(ps, 'repeated job')
    redo(there, js)
    check(raw(out) == there, 'changed', 'rerunning finished jobs changed their outputs')
    env.key = (tuple(sorted(k for k, _, _ in js)), len(js), plog, path)


FT = {c: f for v in STAGES.values() for c, f in v}


def redo(there, js):
    for name, cls, ns, hp, ob in stubrun.RUNS:
        f = '%s_%s_catalog.fit' % (ob, FT[cls])
        check(f not in there, 'redone', 'stage %s of pixel %s was redone although %s was there' % (cls, hp, f))
        check(any(n == ns and (p,) == hp for _, n, p in js), 'region', 'a job ran pixel %s at nside %d' % (hp, ns))


def compare(got, ref):
    for n in ref:
        check(n in got, 'missing', '%s was not produced' % n)
        check(rows_equal(got[n], ref[n]), 'differs', '%s differs from the job run by itself: %s' % (n, diff_rows(got[n], ref[n])[:300]))
    extra = sorted(set(got) - set(ref))
    check(not extra, 'extra', 'unexpected outputs %s' % extra[:3])


# ---- full numerical stages --------------------------------------------------
def real_config(root, **kw):
    os.makedirs(os.path.join(root, 'out'), exist_ok=True)
    return survey.config(os.path.join(root, 'out', 'c.yml'), outpath=os.path.join(root, 'out'), zrange=[0.12, 0.6],
                         catfile=os.path.join(CTX.shared, 'rc_cat.fit'), randfile=CTX.data['randfile'], zscan_zstep=0.1, **kw)


def real_prepare(ctx):
    from redmapper import Configuration
    cat = fitsio.read(os.path.join(ctx.data['dir'], 'test_cluster_pos.fit'))
    fitsio.write(os.path.join(ctx.shared, 'rc_cat.fit'), cat[:2])
    # randoms of a few points
    from redmapper.galaxy import GalaxyCatalogMaker
    rng = np.random.RandomState(5)
    r = np.zeros(12, dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
    i = 0
    per = []
    for p in survey.PIX:
        ra, dec = consgen.in_pixel(rng, 64, p, 3)
        per.append((ra, dec))
    r['ra'] = np.concatenate([x[0] for x in per])
    r['dec'] = np.concatenate([x[1] for x in per])
    r['id'] = np.arange(12) + 1
    r['z'] = 0.2 + 0.02 * np.arange(12)
    r['lambda'] = 20.0
    r['id_input'] = np.arange(12)
    rd = os.path.join(ctx.shared, 'rnd')
    os.makedirs(rd)
    t = minicfg.galtable(rd, nside=64, pix=survey.PIX, name='mini_randoms_master_table.fit')
    tab = fitsio.read(t)
    names = []
    for k, p in enumerate(survey.PIX):
        fitsio.write(os.path.join(rd, 'mini_%07d.fit' % p), r[3 * k:3 * k + 3])
    tab['ngals'] = 3
    fitsio.write(t, tab, header=fitsio.read_header(t, ext=1), clobber=True)
    ctx.data['randfile'] = t
    ctx.data['ref'] = real_reference(os.path.join(ctx.shared, 'ref'), KINDS)
    check(len(ctx.data['ref']) >= 10, 'reference', 'reference jobs left only %s' % sorted(ctx.data['ref']))
    # without a depth map
    ctx.data['ref_nd'] = real_reference(os.path.join(ctx.shared, 'ref_nd'), ('zmask', 'runcat'), depthfile=None)


def real_reference(root, kinds, **kw):
    from redmapper import Configuration
    fn = real_config(root, **kw)
    cl = classes()
    for kind in kinds:
        for px in (2297, 2434):
            c = Configuration(fn)
            c.border = c.compute_border()
            c.d.hpix, c.d.nside, c.d.outbase = [px], 64, base(c.outbase, 64, px)
            for cls, ft in STAGES[kind]:
                s = cl[cls](c)
                if kind == 'runcat':
                    s.run(do_percolation_masking=c.runcat_percolation_masking)
                else:
                    s.run()
                if s.cat is None or (kind == 'find' and s.cat.size == 0):
                    break
                s.output(savemembers=kind not in ('zmask',) and cls not in ('RunFirstPass', 'RunLikelihoods'), withversion=False, clobber=True)
                if kind == 'find':
                    c.catfile = s.filename
    return tables(os.path.join(root, 'out'))


def real(env):
    d = env.d
    stubrun.reset()
    stubrun.MODE[0] = 'real'
    try:
        T = tasks()
        nd = d.choose(4) == 3
        kinds = ('zmask', 'runcat') if nd else KINDS
        js = [(d.pick(kinds), 64, 2434)]
        if d.choose(2):
            j = (d.pick(kinds), 64, d.pick((2297, 2434)))
            if j not in js:
                js.append(j)
        fn = real_config(env.root, **({'depthfile': None} if nd else {}))
        allref = CTX.data['ref_nd' if nd else 'ref']
        out = os.path.join(env.root, 'out')

        def go(j):
            def run():
                T[j[0]](fn, j[2], j[1]).run()
            return run
        sim = env.sim()
        sim.arm(env.plan({'pub': 4 * len(js), 'w': 8 * len(js), 'any': 100}, ('crash', 'crash', 'enospc'), classes=('pub', 'w', 'any')))
        ps = [sim.spawn('job%d' % k, go(j)) for k, j in enumerate(js)]
        sim.run()
        if not sim.fault_hits:
            must_finish(ps, 'job')
        sim = env.sim()
        ps = [sim.spawn('job%d' % k, go(j)) for k, j in enumerate(js)]
        sim.run()
        must_finish(ps, 'rerun job')
        ref = {}
        for kind, ns, px in js:
            for cls, ft in STAGES[kind]:
                for n in ('%s_%s_catalog.fit' % (base(CTX.data['survey']['outbase'], ns, px), ft),
                          '%s_%s_catalog_members.fit' % (base(CTX.data['survey']['outbase'], ns, px), ft)):
                    if n in allref:
                        ref[n] = allref[n]
        compare(tables(out), ref)
        env.key = ('real', tuple(sorted(j[0] for j in js)))
    finally:
        stubrun.MODE[0] = 'stub'


SCENARIOS = {'jobs': (jobs, (450, 12000)), 'real': (real, (24, 500))}

LEVEL_NOTE = 'Seeded search over kinds, pixels and numbers of concurrent jobs, kill points (including torn writes), write errors, up to three interruptions and reruns; compared with each job run alone. Some runs use the full numerical stages. Sampled.'
