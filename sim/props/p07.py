"""P07: multiprocess cluster runs: workers, order, isolation of pixels."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import minicfg, stubrun, runworld
from .p17 import snap, diff

REAL = ['redmapper.redmapper_run.RedmapperRun', 'stage classes: construction, file names, output()', 'redmapper.configuration.Configuration',
        'pickling of tasks', 'CFITSIO', 'scenario real: the full numerical stages on the survey of the test suite']
STUBS = ['scenarios stub, split: the numerical work of a stage is replaced by catalogs drawn from a digest of everything the stage was given',
         'scenario real: numpy random draws are pinned per stage and pixel', 'multiprocessing pool on simulated processes']
ASSUMPTIONS = ['Monte-Carlo draws (mask galaxy samples) are held fixed per stage and pixel, as the statement allows']


def prepare(ctx):
    from .. import survey
    survey.prepare(ctx)
    survey.references(ctx)


def stub(env):
    d = env.d
    w = runworld.draw(env)
    stubrun_world(env, d, w)


def stubrun_world(env, d, w):
    nproc = 1 + d.choose(5)
    ref = runworld.alone(env, w, env.subroot('ref'), runworld.lay(w, os.path.join(env.base, 'ref'), 2))
    del stubrun.RUNS[:]
    fn = runworld.lay(w, env.root, nproc)
    sim = env.sim()
    rec = {}
    chk = d.choose(2) == 1
    times = 2 if d.choose(4) == 1 else 1         # the same runner may be used again
    p = sim.spawn('run', runworld.go(w, env.root, fn, rec, check_on=chk, times=times))
    sim.run()
    must_finish([p], 'run')
    check(rec['after'] == rec['before'], 'caller', 'the run changed the configuration of its caller: %s' % diff(rec['after'], rec['before']))
    got = runworld.files(os.path.join(env.root, 'out'), w['outbase'])
    runworld.check_run(w, got, ref)
    ran = [(c, hp) for _, c, ns, hp, ob in stubrun.RUNS]
    check(len(ran) == len(set(ran)) * (1 if chk else times) or (chk and times > 1 and w['empty']), 'twice', 'a stage ran twice for one pixel: %s' % [x for x in ran if ran.count(x) > 1][:2])
    out = os.path.join(env.root, 'out')
    r = p.result
    fin = os.path.join(out, w['outbase'] + '_final.fit')
    if w['like']:
        check(tuple(r) == (fin, os.path.join(out, w['outbase'] + '_like.fit')), 'name', 'returned %s' % (r,))
    else:
        check(r == fin, 'name', 'returned %s' % (r,))
    env.key = (len(w['pix']), nproc, w['perc'], w['like'], w['region'])


def split(env):
    """Which pixels a run works on: every galaxy pixel of the request exactly once."""
    d = env.d
    from redmapper import Configuration, RedmapperRun
    stubrun.reset()
    rng = d.sub_rng()
    tns = d.pick((8, 16, 32, 4))
    n = 1 + d.choose(12)
    npix = hpg.nside_to_npixel(tns)
    if d.choose(2):
        c0 = rng.randint(npix)
        ra, dec = hpg.pixel_to_angle(tns, c0, nest=False)
        pix = np.unique(hpg.query_circle(tns, float(ra), float(dec), rng.uniform(5, 60), nest=False, inclusive=True))
        pix = sorted(rng.choice(pix, size=min(n * 2, pix.size), replace=False).tolist())
    else:
        pix = sorted(rng.choice(npix, size=n, replace=False).tolist())
    nproc = 1 + d.choose(8)
    minns = d.pick((1, 2, tns))
    kw = dict(calib_run_nproc=nproc, calib_run_min_nside=min(minns, tns))
    region = None
    if d.choose(2):
        rns = d.pick(tuple(x for x in (1, 2, 4, tns) if x <= tns))
        par = np.unique(parent(tns, pix, rns))
        k = 1 + d.choose(len(par))
        region = (rns, sorted(rng.choice(par, size=k, replace=False).tolist()))
        kw.update(nside=rns, hpix=region[1], area=3.0)
    # every pixel yields clusters
    gal = minicfg.galtable(os.path.join(env.root, 'g'), nside=tns, pix=pix)
    fn = minicfg.write(os.path.join(env.root, 'c', 'c.yml'), gal, outpath=os.path.join(env.root, 'out'), **kw)
    os.makedirs(os.path.join(env.root, 'out'))
    sim = env.sim()

    again = d.choose(4) == 1
    first = []

    def run():
        r = RedmapperRun(Configuration(fn))
        r.run(consolidate=False)
        if again:
            # the same runner, once more from scratch
            first.extend(stubrun.RUNS)
            del stubrun.RUNS[:]
            r.run(consolidate=False, check=False)
    p = sim.spawn('run', run)
    sim.run()
    must_finish([p], 'run')
    if again:
        check(sorted(x[1:] for x in first) == sorted(x[1:] for x in stubrun.RUNS), 'again',
              'a second run with the same runner worked on other pixels: %s instead of %s' % (sorted(x[1:] for x in stubrun.RUNS)[:3], sorted(x[1:] for x in first)[:3]))
    want = [x for x in pix if region is None or int(parent(tns, [x], region[0])[0]) in region[1]]
    fp = [(ns, hp) for _, c, ns, hp, ob in stubrun.RUNS if c == 'RunFirstPass']
    check(len(set(fp)) == len(fp), 'twice', 'a pixel was run twice: %s' % sorted(x for x in fp if fp.count(x) > 1)[:2])
    nss = set(ns for ns, hp in fp)
    check(len(nss) <= 1, 'split', 'pixels of different size in one run: %s' % nss)
    cnt = dict((x, 0) for x in want)
    for ns, hp in fp:
        check(len(hp) == 1, 'split', 'a worker was given pixels %s' % (hp,))
        ch = [x for x in pix if int(parent(tns, [x], ns)[0]) == hp[0]]
        check(ch, 'split', 'pixel %d (nside %d) without galaxies was run' % (hp[0], ns))
        for x in ch:
            if x in cnt:
                cnt[x] += 1
            else:
                # a region given in pixels smaller than the smallest allowed run pixel is run whole
                check(region is not None and region[0] > ns, 'split', 'galaxy pixel %d is outside of the request but was run' % x)
    bad = [x for x, v in cnt.items() if v != 1]
    check(not bad, 'split', 'galaxy pixel %s of the request was run %s times (run pixels %s)' % (bad[:1], cnt.get(bad[0]) if bad else '', fp[:3]))
    for _, c, ns, hp, ob in stubrun.RUNS:
        check(len(set(o for _, c2, ns2, hp2, o in stubrun.RUNS if hp2 == hp)) == 1, 'name', 'pixel %s under several names' % (hp,))
    env.key = (tns, len(pix), nproc, region is None)


def parent(ns, pix, to):
    ra, dec = hpg.pixel_to_angle(ns, np.asarray(pix), nest=False)
    return np.atleast_1d(hpg.angle_to_pixel(to, ra, dec, nest=False))


def real(env):
    from .. import survey
    survey.real_run(env)


SCENARIOS = {'stub': (stub, (500, 12000)), 'split': (split, (500, 12000)), 'real': (real, (24, 600))}

LEVEL_NOTE = 'Seeded search over worker counts, task-to-worker assignment, completion orders, run options, empty pixels and sky splits, compared with every pixel run alone plus a brute-force consolidation; a smaller number of runs use the full numerical stages. Sampled.'
