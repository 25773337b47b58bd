"""P20: unreadable inputs are errors, never silently different results."""
import os

import numpy as np
import fitsio

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, stubrun
from .. import zredworld as zw, minicfg
from ..seams import _o
from . import p09, p10, p13, p15, p16

REAL = ['redmapper.pipeline pixel tasks with the full numerical stages', 'redmapper.RedmapperRun', 'redmapper.configuration.Configuration', 'all readers (galaxies, zreds, masks, depth maps, corrections, models)',
        'healsparse', 'CFITSIO']
STUBS = ['numpy random draws pinned per stage and pixel', 'most runs share one loaded red-sequence model and background; those files are read for real in the rest']
ASSUMPTIONS = ['one failing read (or one truncated file) per attempt']

INPUTS = ('galfile', 'zredfile', 'maskfile', 'depthfile', 'maskgalfile', 'zlambdafile', 'catfile', 'wcenfile', 'randfile', 'seedfile', 'bkgfile', 'parfile')


def prepare(ctx):
    survey.prepare(ctx)
    survey.references(ctx)
    stubrun.MODE[0] = 'real'
    ctx.data['ref_perc'] = dict((n, a) for n, a in ctx.data['ref']['perc'].items())
    p09.real_prepare(ctx)
    stubrun.MODE[0] = 'stub'
    zw.prepare(ctx)
    p13.prepare(ctx)
    p16.prepare(ctx)
    p10.patch_plots()


def lay(env, kind, models):
    y = CTX.data['survey']
    kw = {}
    src = {'survey': CTX.data['dir'], 'rnd': os.path.join(CTX.shared, 'rnd')}
    done = {}
    for s, dr in src.items():
        done[dr] = os.path.join(env.root, 'data', s)
        for cur, ds, fs in os.walk(dr):
            t = os.path.join(done[dr], os.path.relpath(cur, dr))
            os.makedirs(t, exist_ok=True)
            for f in fs:
                os.symlink(os.path.join(cur, f), os.path.join(t, f))
    for k in INPUTS:
        v = y.get(k)
        if k == 'randfile':
            v = CTX.data['randfile']
        if k == 'catfile':
            v = None
        if isinstance(v, str) and (models or k not in ('bkgfile', 'parfile')):
            for dr, t in done.items():
                if v.startswith(dr + '/'):
                    kw[k] = t + v[len(dr):]
    os.makedirs(os.path.join(env.root, 'out'))
    cf = os.path.join(env.root, 'data', 'rc_cat.fit')
    os.symlink(os.path.join(CTX.shared, 'like.fit' if kind == 'run' else 'rc_cat.fit'), cf)
    kw['catfile'] = cf
    if kind == 'run':
        kw.update(calib_run_nproc=2)
        return survey.config(os.path.join(env.root, 'out', 'c.yml'), outpath=os.path.join(env.root, 'out'), **kw)
    return survey.config(os.path.join(env.root, 'out', 'c.yml'), outpath=os.path.join(env.root, 'out'), zrange=[0.12, 0.6],
                         zscan_zstep=0.1, **kw)


def body(kind, fn, px):
    if kind == 'run':
        return survey.body(None, fn, 'perc')
    T = p09.tasks()

    def run():
        T[kind](fn, px, 64).run()
    return run


def reference(kind, px):
    if kind == 'run':
        return dict(CTX.data['ref_perc'])
    ref = {}
    ob = CTX.data['survey']['outbase']
    for cls, ft in p09.STAGES[kind]:
        for n in ('%s_%s_catalog.fit' % (p09.base(ob, 64, px), ft), '%s_%s_catalog_members.fit' % (p09.base(ob, 64, px), ft)):
            if n in CTX.data['ref']:
                ref[n] = CTX.data['ref'][n]
    return ref


def same(got, ref, complete, what):
    for n in sorted(got):
        if n not in ref:
            continue
        check(rows_equal(got[n], ref[n]), 'silent', '%s: %s differs from that of an undisturbed run: %s' % (what, n, diff_rows(got[n], ref[n])[:300]))
    if complete:
        miss = sorted(set(ref) - set(got))
        check(not miss, 'silent', '%s: the job ended as usual without %s' % (what, miss[:2]))


def outputs(out):
    return dict((n, a) for n, a in p09.tables(out).items())


def read_fault(env):
    d = env.d
    stubrun.reset()
    stubrun.MODE[0] = 'real'
    try:
        kind = d.pick(('find', 'runcat', 'zscan', 'zmask', 'run'))
        px = d.pick((2434, 2297))
        models = d.choose(8) == 1
        fn = lay(env, kind, models)
        out = os.path.join(env.root, 'out')
        ref = reference(kind, px)
        n = {'find': 62, 'runcat': 37, 'zscan': 63, 'zmask': 30, 'run': 155}[kind]
        # (the second half more often: it comes after the common reads)
        nth = d.choose(n)
        if d.choose(2):
            nth = n - 1 - nth // 3
        cut = d.choose(4) == 1
        what = 'no fault'
        if cut:
            what = truncate(env, kind) if d.choose(2) else vanish(env, kind)
        sim = env.sim()
        if not cut:
            sim.arm([{'kind': 'eio_r', 'cls': 'r', 'nth': nth}])
        p = sim.spawn('job', body(kind, fn, px))
        sim.run()
        if sim.fault_hits:
            what = 'unreadable %s' % (sim.fault_hits[0],)
        elif not cut:
            must_finish([p], 'job')
        same(outputs(out), ref, p.exc is None, what)
        if cut:
            restore(env)
        if p.exc is not None:
            sim = env.sim()
            p = sim.spawn('again', body(kind, fn, px))
            sim.run()
            must_finish([p], 'repeated job')
            same(outputs(out), ref, True, 'repeated after: ' + what)
        env.key = (kind, models, cut, what[:80])
    finally:
        stubrun.MODE[0] = 'stub'


def truncate(env, kind):
    """Replace one input by a cut-off copy."""
    d = env.d
    fs = []
    root = os.path.join(env.root, 'data')
    for cur, ds, names in os.walk(root):
        for f in names:
            q = os.path.join(cur, f)
            if any(t in q for t in ('pixelized_dr8_test/', 'zreds_test/', 'maskgals', 'zlambdacorr', 'rc_cat', 'rnd/', 'dr8_depth_hs', 'dr8_mask_hs', 'seeds_few')) and f.endswith(('.fit', '.fits', '.hs')):
                fs.append(q)
    fs.sort()
    q = d.pick(fs)
    with open(q, 'rb') as h:
        b = h.read()
    keep = int(len(b) * (d.choose(95) + 2) / 100.)
    env.cut = (q, os.readlink(q))
    os.unlink(q)
    with open(q, 'wb') as h:
        h.write(b[:keep])
    return '%s cut to %d of %d bytes' % (os.path.relpath(q, root), keep, len(b))


def vanish(env, kind):
    """Take one input away."""
    d = env.d
    fs = []
    root = os.path.join(env.root, 'data')
    for cur, ds, names in os.walk(root):
        for f in names:
            q = os.path.join(cur, f)
            if any(t in q for t in ('pixelized_dr8_test/', 'rc_cat', 'rnd/', 'dr8_mask_hs')) and f.endswith(('.fit', '.fits', '.hs')):
                fs.append(q)
    fs.sort()
    q = d.pick(fs)
    env.cut = (q, os.readlink(q))
    os.unlink(q)
    return '%s is gone' % os.path.relpath(q, root)


def restore(env):
    q, t = env.cut
    if os.path.lexists(q):
        os.unlink(q)
    os.symlink(t, q)


def zred_run(env):
    d = env.d
    w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(4, 1, 9, 2), many=4)
    zf = os.path.join(env.root, 'z', w['base'] + '_zreds_master_table.fit')
    fn = zw.cfg(w, os.path.join(env.root, 'c', 'c.yml'), zf, calib_nproc=1 + d.choose(3))
    single = bool(d.choose(2))

    def run():
        from redmapper import Configuration
        from redmapper.zred_runner import ZredRunPixels
        ZredRunPixels(Configuration(fn)).run(single_process=single)
    gals = [os.path.join(env.root, 'g', 'mini_%07d.fit' % p) for p in w['pix']]
    return dict(body=run, inputs=gals + [w['galfile']], gone=True, out=os.path.join(env.root, 'z'), reads=14)


def zred_job(env):
    """The last zred job of a catalog: it finds the files of the other jobs and makes the table."""
    d = env.d
    w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(4, 1, 9, 2), many=4)
    zf = os.path.join(env.root, 'z', w['base'] + '_zreds_master_table.fit')
    fn = zw.cfg(w, os.path.join(env.root, 'c', 'c.yml'), zf, calib_nproc=1)
    big = sorted(set(w['bigof'].values()))
    mine = d.pick(big)
    others = [p for p in w['pix'] if w['bigof'][p] != mine]

    def lay():
        os.makedirs(os.path.join(env.root, 'z'), exist_ok=True)
        for p in others:
            f = os.path.join(env.root, 'z', '%s_zreds_%07d.fit' % (w['base'], p))
            fitsio.write(f, p13.zrows(w['pool'][p]), clobber=True)

    def run():
        from redmapper.pipeline.zredtask import RunZredPixelTask
        RunZredPixelTask(fn, mine, w['big']).run()

    def clear():
        for f in os.listdir(os.path.join(env.root, 'z')):
            if f.endswith('.lock'):
                os.unlink(os.path.join(env.root, 'z', f))
    gals = [os.path.join(env.root, 'g', 'mini_%07d.fit' % p) for p in w['pix'] if w['bigof'][p] == mine]
    return dict(body=run, inputs=gals + [w['galfile']], gone=True, out=os.path.join(env.root, 'z'), reads=14, lay=lay, clear=clear, keep=True)


def zred_table(env):
    """The table of computed zred files."""
    d = env.d
    w = zw.lay_pixels(d, os.path.join(env.root, 'g'), env.root, sizes=(4, 1, 9, 2), many=4)
    zd = os.path.join(env.root, 'z')
    os.makedirs(zd)
    names = dict((p, os.path.join(zd, '%s_zreds_%07d.fit' % (w['base'], p))) for p in w['pix'])
    for p in w['pix']:
        fitsio.write(names[p], p13.zrows(w['pool'][p]))
    zf = os.path.join(env.root, 'out', w['base'] + '_zreds_master_table.fit')
    os.makedirs(os.path.dirname(zf))
    fn = zw.cfg(w, os.path.join(env.root, 'c', 'c.yml'), zf, calib_nproc=1)
    order = d.sub_rng().permutation(len(w['pix'])).tolist()

    def run():
        from redmapper import Configuration, Entry
        from redmapper.zred_runner import ZredRunPixels
        r = ZredRunPixels(Configuration(fn))
        r.galtable = Entry.from_fits_file(w['galfile'])
        r.make_zred_table([(k, names[w['pix'][k]]) for k in order])
    return dict(body=run, inputs=[names[p] for p in w['pix']] * 2 + [w['galfile']], gone=True, out=os.path.dirname(zf), reads=10)


def bkg(env):
    d = env.d
    w = p13.lay(env, True)
    kw = p13.settings(d)
    kind = d.pick(('chisq', 'zred'))
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    fn = p13.config(w, os.path.join(env.root, 'c', 'c.yml'), env.root, bkgfile=os.path.join(out, 'b.fit'), calib_nproc=1 + d.choose(3), **kw)
    g = [os.path.join(env.root, 'g', f) for f in sorted(os.listdir(os.path.join(env.root, 'g'))) if f.endswith('.fit')]
    # (a region without zred file counts as not observed)
    return dict(body=p13.gens(kind, fn, clobber=True), inputs=g, gone=lambda f: 'zz_zreds_0' not in f and os.path.exists(f), out=out, reads=20)


def rand(env):
    d = env.d
    m = p15.mask(d, os.path.join(env.root, 'vl.fit'))
    cf = os.path.join(env.root, 'clusters.fit')
    p15.clusters(d, cf, False)
    gal = minicfg.galtable(os.path.join(env.root, 'gals'), nside=d.pick((16, 8)), pix=(7, 9), ngals=3)
    fn, rf = p15.conf(env, m, catfile=cf, galfile=gal)
    return dict(body=p15.job(fn, m, d.pick((57, 1, 300)), d.choose(1000)), inputs=[cf, m['fn'], gal], gone=lambda f: f != m['fn'], out=os.path.dirname(rf), reads=12)


def weights(env):
    d = env.d
    m = p15.mask(d, os.path.join(env.root, 'vl.fit'))
    cf, rf = os.path.join(env.root, 'clusters.fit'), os.path.join(env.root, 'rz.fit')
    c = p15.clusters(d, cf, False)
    rng = d.sub_rng()
    n = 200
    r = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('lambda_in', 'f4'), ('id_input', 'i4'), ('scaleval', 'f4'), ('maskfrac', 'f4')])
    j = rng.randint(0, len(c), n)
    r['mem_match_id'], r['id_input'], r['z'] = 1 + np.arange(n), c['mem_match_id'][j], c['z_lambda'][j]
    r['lambda_in'] = r['lambda'] = c['lambda'][j]
    r['ra'], r['dec'] = p15.hpg.pixel_to_angle(m['sparse'], m['pix'][rng.randint(0, m['pix'].size, n)], nest=True)
    r['scaleval'] = rng.uniform(1.0, 2.5, n)
    r['maskfrac'] = rng.choice([0.0, 0.05, 0.4], n)
    fitsio.write(rf, r)
    gal = minicfg.galtable(os.path.join(env.root, 'gals'), nside=8, pix=(7, 9), ngals=3)
    fn, _ = p15.conf(env, m, catfile=cf, galfile=gal, max_maskfrac=0.2)
    os.makedirs(os.path.join(env.root, 'out'))

    def run():
        from redmapper import Configuration, RandomWeigher, VolumeLimitMask
        cc = Configuration(fn)
        RandomWeigher(cc, rf, vlim_mask=VolumeLimitMask(cc, 0.2, vlimfile=m['fn'])).weight_randoms(1.0)
    return dict(body=run, inputs=[cf, rf, m['fn']], gone=lambda f: f != m['fn'], out=os.path.join(env.root, 'out'), reads=12, may_fail=True)


def redmagic(env):
    d = env.d
    w = p16.lay(env)
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    fn = p16.conf(w, os.path.join(env.root, 'cfg', 'c.yml'), out)
    ins = [os.path.join(env.root, 'g', f) for f in sorted(os.listdir(os.path.join(env.root, 'g'))) if f.endswith('.fit')]
    ins += [os.path.join(env.root, 'cal', f) for f in sorted(os.listdir(os.path.join(env.root, 'cal')))] + [w['specfile']]
    return dict(body=p16.job(fn, clobber=True, n_randoms=0), inputs=ins, gone=lambda f: 'z_zreds_0' not in f, out=out, reads=30, spool=True,
                nocut=(w['calfile'],))


def consolidate(env):
    d = env.d
    kind = d.pick(('final', 'runcat'))
    w = p10.build(env, env.root, kind)
    if kind == 'runcat':
        for i, (c, m) in enumerate(zip(w['cats'], w['mems'])):
            c['mem_match_id'] += 1000 * i
            m['mem_match_id'] += 1000 * i
    src = os.path.join(env.root, 'src')
    os.makedirs(src)
    n = len(w['pix'])

    def lay():
        p10.lay(w, kind, range(n))
    lay()

    def run():
        from redmapper.pipeline import RedmapperConsolidateTask, RuncatConsolidateTask
        if kind == 'final':
            RedmapperConsolidateTask(w['cfg']).run(do_plots=False, match_spec=w['spec'])
        else:
            RuncatConsolidateTask(w['cfg']).run(do_plots=False, match_spec=w['spec'], consolidate_members=True, cattype='runcat')
    cats = [p10.pixname(w, i, kind) for i in range(n)]
    mems = [f[:-4] + '_members.fit' for f in cats]
    ins = cats + mems + ([os.path.join(env.root, 'spec.fit')] if w['spec'] else [])
    for v in w['vl']:
        ins.append(os.path.join(w['dir'], '%s_redmapper_v%s_vl%02d_vlim_zmask.fit' % (w['outbase'], p10.version(), int(v * 10))))
    # (a pixel without a catalog was not run; a catalog without its members is damaged)
    pat = '%s_redmapper_v' % w['outbase']
    return dict(body=run, inputs=ins, gone=lambda f: f in mems, out=w['dir'], reads=14, mine=lambda f: f.startswith(pat) and 'zmask' not in f, may_fail=True, spool=True)


def runcons(env):
    """The end of a multiprocess run: all pixels are done, their catalogs are joined."""
    d = env.d
    w = p10.build(env, env.root, 'run')
    ins = []
    like = d.choose(2) == 1
    for n in ('firstpass', 'like', 'final'):
        for i in range(len(w['pix'])):
            fn = p10.pixname(w, i, n)
            fitsio.write(fn, w['cats'][i])
            if n == 'final' or (like and n == 'like'):
                ins.append(fn)
            if n == 'final':
                fitsio.write(fn[:-4] + '_members.fit', w['mems'][i])
                ins.append(fn[:-4] + '_members.fit')

    def run():
        from redmapper import Configuration, RedmapperRun
        c = Configuration(w['cfg'])
        c.calib_run_nproc = 2
        c.calib_run_min_nside = w['nside']
        c.catfile = 'x'
        RedmapperRun(c).run(consolidate_like=like, check=True)
    return dict(body=run, inputs=ins, gone=lambda f: False, out=w['dir'], reads=30, may_fail=True,
                mine=lambda f: f in ('%s_final.fit' % w['outbase'], '%s_final_members.fit' % w['outbase'], '%s_like.fit' % w['outbase']))


LIGHT = {'runcons': runcons, 'zred_run': zred_run, 'zred_job': zred_job, 'zred_table': zred_table, 'bkg': bkg, 'rand': rand, 'weights': weights, 'redmagic': redmagic, 'consolidate': consolidate}


def products(J):
    r = {}
    dr = J['out']
    if not os.path.isdir(dr):
        return r
    mine = J.get('mine', lambda f: True)
    for f in sorted(os.listdir(dr)):
        if f.endswith('.fit') and not f.startswith('.') and mine(f):
            try:
                with fitsio.FITS(os.path.join(dr, f), lower=True) as h:
                    for e in range(1, len(h)):
                        a = h[e].read()
                        if a is not None and a.dtype.names and 'zred_samp' in a.dtype.names:
                            a = a[[n for n in a.dtype.names if n != 'zred_samp']]
                        r['%s[%s]' % (f, h[e].get_extname() or e)] = a
            except Exception as e:
                fail('torn', '%s cannot be read: %s' % (f, e))
    return r


def clear(J):
    mine = J.get('mine', lambda f: True)
    if os.path.isdir(J['out']):
        for f in os.listdir(J['out']):
            if mine(f) and not f.endswith('.yml'):
                q = os.path.join(J['out'], f)
                if not os.path.isdir(q):
                    os.unlink(q)


def light(env):
    """Every other kind of job: reads that fail, inputs cut off, or gone before or while the job runs."""
    d = env.d
    kind = d.pick(sorted(LIGHT))
    J = LIGHT[kind](env)
    if 'lay' in J:
        J['lay']()
    before = set(products(J))

    def go(name, sim):
        def run():
            np.random.seed(17)
            J['body']()
        p = sim.spawn(name, run)
        sim.run()
        return p
    p = go('ref', env.sim())
    if not p.ok and J.get('may_fail'):
        env.key = (kind, 'nothing to do')
        return
    must_finish([p], 'undisturbed job')
    ref = products(J)

    def compare(got, complete, what):
        for n in sorted(got):
            if n in ref:
                check(rows_equal(got[n], ref[n]), 'silent', '%s: %s differs from that of an undisturbed run: %s' % (what, n, diff_rows(got[n], ref[n])[:300]))
            else:
                check(False, 'silent', '%s: %s, which an undisturbed run does not make' % (what, n))
        if complete:
            miss = sorted(set(ref) - set(got))
            check(not miss, 'silent', '%s: the job ended as usual without %s' % (what, miss[:2]))
    clear(J)
    if 'lay' in J:
        J['lay']()
    how = d.pick(('eio_r', 'cut', 'gone', 'gone_mid'))
    gone = J['gone']
    if how.startswith('gone'):
        fs = [f for f in J['inputs'] if gone is True or gone(f)]
    else:
        # (a file of several tables that ends early is a file of fewer tables)
        fs = [f for f in J['inputs'] if os.path.exists(f) and f not in J.get('nocut', ())]
    if not fs:
        how = 'eio_r'
    sim = env.sim()
    f = d.pick(fs) if how != 'eio_r' else None
    what = 'no fault'
    b = None
    if f:
        with open(f, 'rb') as h:
            b = h.read()
    if how == 'eio_r':
        sim.arm([{'kind': 'eio_r', 'cls': 'r', 'nth': d.choose(J['reads'])}])
    elif how == 'cut':
        keep = int(len(b) * (d.choose(95) + 2) / 100.)
        with open(f, 'wb') as h:
            h.write(b[:keep])
        what = '%s cut to %d of %d bytes' % (os.path.basename(f), keep, len(b))
    elif how == 'gone':
        os.unlink(f)
        what = '%s is gone' % os.path.basename(f)
    else:
        at = d.choose(40)
        n = [0]
        what = '%s vanishes at operation %d' % (os.path.basename(f), at)

        def mon(s, pr, k, path):
            n[0] += 1
            if n[0] == at + 1:
                _o['unlink'](f)
        sim.monitors.append(mon)
    p = go('job', sim)
    if sim.fault_hits:
        what = 'unreadable %s' % (sim.fault_hits[0],)
    elif how == 'eio_r':
        must_finish([p], 'job')
    if p.ok or not J.get('spool'):
        # (jobs that append pixel by pixel report the failure, and start over when repeated)
        compare(products(J), p.ok, '%s, %s' % (kind, what))
    if b is not None:
        with open(f, 'wb') as h:
            h.write(b)
    if not p.ok:
        if not J.get('keep'):
            clear(J)
        if 'clear' in J:
            J['clear']()
        if 'lay' in J:
            J['lay']()
        p = go('again', env.sim())
        must_finish([p], 'repeated job (%s after %s)' % (kind, what))
        compare(products(J), True, '%s repeated after: %s' % (kind, what))
    env.key = (kind, how, what[:60], sim.log_hash())


SCENARIOS = {'light': (light, (500, 12000)), 'read_fault': (read_fault, (150, 5000))}

LEVEL_NOTE = 'Seeded search over jobs and failing or cut-off inputs with the full numerical stages: the job must raise, or leave exactly the products of an undisturbed run; repeating it must give those products. Sampled.'
