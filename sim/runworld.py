"""A multiprocess cluster run on synthetic pixels with stand-in stages (shared by P07 and P08)."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from .common import check, fail, must_finish, quiet, rows_equal, diff_rows
from . import minicfg, stubrun, consgen
from .props import p10

STAGES = (('firstpass', 'RunFirstPass'), ('like', 'RunLikelihoods'), ('final', 'RunPercolation'))


def draw(env, maxpix=6, empties=True):
    """Draw settings, pixels and run options.  Same relative layout under every root."""
    d = env.d
    stubrun.reset()
    rng = d.sub_rng()
    w = {}
    w['nside'] = nside = d.pick((4, 8, 16, 2, 64))
    npix = hpg.nside_to_npixel(nside)
    n = 1 + d.choose(maxpix)
    k = d.choose(3)
    if k == 0:
        pix = list(range(n))
    elif k == 1:
        pix = list(range(npix - n, npix))
    else:
        pix = sorted(rng.choice(npix, size=n, replace=False).tolist())
    w['pix'] = pix
    w['perc'] = perc = d.choose(4) == 3
    w['spec'] = False if perc else d.choose(2) == 1
    w['keepz'] = True if w['spec'] else d.choose(2) == 1
    w['clean'] = d.choose(2) == 1
    w['like'] = False if perc else d.choose(2) == 1
    w['seed'] = d.pick((None, 'given_seed.fit'))
    w['region'] = d.choose(3) == 1
    w['outbase'] = d.pick(('run', 'a_b_final', 'dr8_64_00012'))
    w['border'] = d.pick((0.0, 1.25))
    w['minlam'] = d.pick((3.0, 10.0))
    if empties and n > 1:
        for p in pix[1:]:
            if d.choose(5) == 4:
                stubrun.EMPTY[(nside, p)] = d.pick(('RunFirstPass', 'RunLikelihoods', 'RunPercolation'))
    stubrun.KEEP.add((nside, pix[0]))
    w['empty'] = dict(stubrun.EMPTY)
    return w


def lay(w, root, nproc, **over):
    """Write the inputs of world w below root; returns the config file."""
    gal = minicfg.galtable(os.path.join(root, 'g'), nside=w['nside'], pix=w['pix'])
    kw = dict(seedfile=os.path.join(root, 'orig_seed.fit'), catfile=os.path.join(root, 'orig_cat.fit'),
              zredfile='orig_zreds_master_table.fit', border=w['border'], bkgfile='orig_bkg.fit', calib_run_nproc=nproc,
              calib_run_min_nside=w['nside'], outbase=w['outbase'], percolation_minlambda=w['minlam'], max_maskfrac=0.2)
    if nproc == 1 or w['region']:
        kw.update(nside=w['nside'], hpix=w['pix'], area=3.0)
    kw.update(over)
    for i, n in enumerate(('orig_seed.fit', 'given_seed.fit', 'orig_cat.fit')):
        a = np.zeros(3, dtype=[('ra', 'f8'), ('x', 'i4')])
        a['x'] = i
        fitsio.write(os.path.join(root, n), a, clobber=True)
    os.makedirs(os.path.join(root, 'out'), exist_ok=True)
    return minicfg.write(os.path.join(root, 'c', 'c.yml'), gal, outpath=os.path.join(root, 'out'), **kw)


def pixbase(w, p):
    return '%s_%05d' % (w['outbase'], p) if w['perc'] else '%s_%d_%05d' % (w['outbase'], w['nside'], p)


def alone(env, w, root, fn):
    """Each pixel by itself, straight through the stages, in a process of its own."""
    from redmapper import Configuration, RunFirstPass, RunLikelihoods, RunPercolation

    def one(p):
        def run():
            c = Configuration(fn)
            c.d.hpix = [p]
            c.d.nside = w['nside']
            c.d.outbase = pixbase(w, p)
            if w['seed'] is not None:
                c.seedfile = os.path.join(root, w['seed'])
            if not w['perc']:
                f = RunFirstPass(c, specmode=w['spec'])
                f.run(keepz=w['keepz'], cleaninput=w['clean'])
                if f.cat is None or f.cat.size == 0:
                    return
                f.output(savemembers=False, withversion=False, clobber=True)
                c.catfile = f.filename
                f = RunLikelihoods(c)
                f.run(keepz=w['keepz'])
                if f.cat is None or f.cat.size == 0:
                    return
                f.output(savemembers=False, withversion=False, clobber=True)
                c.catfile = f.filename
            f = RunPercolation(c)
            f.run(keepz=w['keepz'], cleaninput=w['clean'] and w['perc'])
            if f.cat is None or f.cat.size == 0:
                return
            f.output(savemembers=True, withversion=False, clobber=True)
        return run
    for p in w['pix']:
        s = env.dry(root)
        q = s.spawn('alone%d' % p, one(p))
        s.run()
        must_finish([q], 'single-pixel reference')
    return files(os.path.join(root, 'out'), w['outbase'])


def files(out, prefix=''):
    """name -> table of every catalog in the output directory (leftovers of killed writers under other names are ignored)."""
    r = {}
    for f in sorted(os.listdir(out)):
        if f.endswith('.fit') and f.startswith(prefix) and not f.startswith('.'):
            try:
                r[f] = fitsio.read(os.path.join(out, f), ext=1, lower=True)
            except Exception as e:
                fail('torn', '%s cannot be read: %s' % (f, e))
    return r


def check_run(w, got, ref, ret=None):
    """Pixel files equal the single-pixel references; consolidated files follow from them."""
    for n, a in ref.items():
        check(n in got, 'missing', '%s was not produced' % n)
        check(rows_equal(got[n], a), 'pixel', '%s differs from the same pixel run by itself: %s' % (n, diff_rows(got[n], a)))
    fin = w['outbase'] + '_final.fit'
    extra = sorted(set(got) - set(ref) - {fin, w['outbase'] + '_final_members.fit', w['outbase'] + '_like.fit'})
    check(not extra, 'extra', 'unexpected catalogs %s' % extra[:3])
    v = {'nside': w['nside'], 'pix': [], 'cats': [], 'mems': []}
    lk = {'nside': w['nside'], 'pix': [], 'cats': []}
    for p in w['pix']:
        b = pixbase(w, p)
        if b + '_final_catalog.fit' in ref:
            v['pix'].append(p)
            v['cats'].append(ref[b + '_final_catalog.fit'])
            v['mems'].append(ref[b + '_final_catalog_members.fit'])
        if b + '_like_catalog.fit' in ref:
            lk['pix'].append(p)
            lk['cats'].append(ref[b + '_like_catalog.fit'])
    keep = p10.base_keep(v, lambda c: c['lambda'] / c['scaleval'] > w['minlam'])
    check(fin in got, 'missing', 'no consolidated catalog')
    p10.check_output(v, fin, got[fin], got[w['outbase'] + '_final_members.fit'], keep, 'lnlike', {}, True, len(keep), False)
    if w['like']:
        k2 = p10.base_keep(lk, lambda c: c['lambda'] / c['scaleval'] > w['minlam'])
        a = got[w['outbase'] + '_like.fit']
        check(sorted(a['tag'].tolist()) == sorted(k2), 'like', 'consolidated likelihoods hold %d clusters, expected %d' % (len(a), len(k2)))


def go(w, root, fn, rec=None, check_on=True, consolidate=True, times=1):
    """The body of a process doing the run."""
    from redmapper import Configuration, RedmapperRun
    from .props.p17 import snap

    def run():
        c = Configuration(fn)
        if rec is not None:
            with quiet():
                rec['before'] = snap(c)
        try:
            rr = RedmapperRun(c)
            for _ in range(times):
                r = rr.run(specmode=w['spec'], seedfile=None if w['seed'] is None else os.path.join(root, w['seed']), check=check_on,
                           percolation_only=w['perc'], consolidate_like=w['like'], keepz=w['keepz'], cleaninput=w['clean'],
                           consolidate=consolidate)
        finally:
            if rec is not None:
                with quiet():
                    rec['after'] = snap(c)
        return r
    return run
