"""P14: the red-sequence calibration: kills, errors, resumes."""
import hashlib
import os
import shutil

import numpy as np
import fitsio
import yaml

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from ..kernel import current_proc, Sim
from .. import seams, minicfg, stubrun, runworld, survey
from .p17 import snap

REAL = ['redmapper.calibration.calibrate.RedmapperCalibrator, RedmapperCalibrationIteration, RedmapperCalibrationIterationFinal', 'redmapper.configuration.Configuration (including set_wcen_vals and output_yaml)',
        'redmapper.catalog (matching, reading, writing of all products)', 'redmapper.RedmapperRun (scenario finder)',
        'SelectSpecRedGalaxies, SelectSpecSeeds, PrepMembers, WcenCalibrator, ZLambdaCalibrator, ColorBackgroundGenerator, RedSequenceCalibrator with their numerical work (scenario stage)', 'CFITSIO']
STUBS = ['scenario driver: the numerical work of every stage is replaced by a digest of what the stage was given; its products have the layout of the real ones',
         'scenario finder: the numerical work of the cluster-finder stages', 'plots are not drawn']
ASSUMPTIONS = ['the calibration is rerun with the configuration it was started with', 'one calibration works in one directory at a time']
LEVEL_NOTE = 'seeded search over kill points, errors and repeated resumes of the real calibration driver, compared with an undisturbed calibration'

# file settings each stage reads or writes; other settings that are not files always count
FILES = {
    'redgals': (('galfile', 'specfile_train'), ('redgalfile', 'redgalmodelfile')),
    'colorbkg': (('galfile',), ('bkgfile_color',)),
    'maskgals': ((), ('maskgalfile',)),
    'colormem': (('galfile', 'redgalfile', 'redgalmodelfile', 'bkgfile_color', 'maskgalfile'), ('zmemfile',)),
    'seeds': (('galfile', 'specfile', 'specfile_train'), ('seedfile',)),
    'redseq': (('redgalfile', 'redgalmodelfile', 'bkgfile_color'), ('parfile',)),
    'zreds': (('galfile', 'parfile'), ('zredfile',)),
    'seedzreds': (('parfile',), ()),
    'bkg': (('galfile', 'parfile'), ('bkgfile',)),
    'zredbkg': (('galfile', 'zredfile', 'parfile'), ('bkgfile',)),
    'finder': (('galfile', 'zredfile', 'parfile', 'maskgalfile', 'zlambdafile', 'bkgfile'), ()),
    'wcen': (('catfile', 'parfile', 'bkgfile'), ('wcenfile',)),
    'zlambda': (('catfile',), ('zlambdafile',)),
    'members': (('galfile', 'catfile'), ('zmemfile',)),
    'plot': (('catfile',), ()),
    'fullbkg': (('galfile', 'parfile'), ('bkgfile',)),
}
IGNORE = ('outpath', 'logpath', 'logfile', 'printlogging', 'cluster_dtype', 'member_dtype')
RECORD = []          # (process, stage, name, digest, text)
DONE = set()         # (stage, name) that returned


def isfile_setting(k):
    return k.endswith('file') or k.endswith('files') or k in ('bkgfile_color', 'specfile_train', 'configfile')


def flat(v):
    """arr and list are the same thing here."""
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ('arr', 'list'):
        return tuple(flat(x) for x in v[1])
    if isinstance(v, dict):
        return tuple(sorted((k, flat(x)) for k, x in v.items()))
    return v


def content(fn):
    """Everything in a file, by value."""
    if fn is None or not os.path.isfile(fn):
        return 'absent'
    h = hashlib.sha256()
    if not (fn.endswith('.fit') or fn.endswith('.fits')):
        with open(fn, 'rb') as f:
            h.update(f.read())
        return h.hexdigest()[:16]
    with fitsio.FITS(fn) as f:
        for hdu in f[1:]:
            a = hdu.read()
            h.update(hdu.get_extname().encode())
            for n in sorted(a.dtype.names):
                h.update(n.lower().encode())
                h.update(np.ascontiguousarray(a[n]).astype(a[n].dtype.newbyteorder('=')).tobytes())
    return h.hexdigest()[:16]


def given(stage, config, name, *extra):
    """Digest of everything a stage was given."""
    base = CTX.runbase
    s = snap(config)
    cfg = {}
    ins, outs = FILES[stage]
    for k, v in s.items():
        if k in IGNORE or k == 'd':
            continue
        if isfile_setting(k):
            if k in ins or k in outs:
                cfg[k] = stubrun.clean(v, base)
        else:
            cfg[k] = flat(v)
    if stage == 'seeds' and config.zredfile is not None and os.path.isfile(config.zredfile):
        ins = ins + ('zredfile',)
    cfg['d'] = flat({k: s['d'].get(k) for k in ('hpix', 'nside', 'outbase')})
    files = []
    for k in ins:
        if k == 'bkgfile' and stage in ('bkg', 'zredbkg', 'fullbkg'):
            continue
        files.append((k, content(getattr(config, k))))
    ex = []
    for e in extra:
        if isinstance(e, str) and e.startswith(base):
            ex.append((stubrun.clean(e, base), content(e)))
        else:
            ex.append(e)
    text = {'settings': cfg, 'files': files, 'args': ex}
    dig = hashlib.sha256(repr((stage, name, sorted((k, repr(v)) for k, v in cfg.items()), files, ex)).encode()).digest()
    return dig, text


def begin(stage, config, name, *extra):
    p = current_proc()
    p.sim.point('task', 'stage', ('task',))
    with quiet():
        name = stubrun.clean(name, CTX.runbase) if name else ''
        dig, text = given(stage, config, name, *extra)
        RECORD.append((p.name, stage, name, dig.hex()[:16], text))
    p.sim.point('task', 'stage', ('task',))
    return np.random.RandomState(int.from_bytes(dig[:4], 'little')), name, dig


def end(stage, name):
    DONE.add((stage, name))
    current_proc().sim.point('task', 'stage', ('task',))


def put(fn, arr, clobber=False, extname=None):
    from redmapper import Catalog
    Catalog(arr).to_fits_file(fn, clobber=clobber, extname=extname)


def generic(dig, n=2):
    a = np.zeros(n, dtype=[('a', 'i8'), ('b', 'f8')])
    a['a'] = int.from_bytes(dig[:7], 'little') + np.arange(n)
    return a


def simple(stage, arg=None):
    def run(self, *args, **kwargs):
        c = self.config
        out = FILES[stage][1]
        rng, name, dig = begin(stage, c, getattr(c, out[-1]), args, sorted(kwargs.items()), *([getattr(self, arg)] if arg else []))
        if stage == 'redgals':
            put(c.redgalmodelfile, generic(dig, 3), clobber=True)
            put(c.redgalfile, generic(dig), clobber=True)
        else:
            put(getattr(c, out[-1]), generic(dig), clobber=stage in ('wcen', 'redseq'))
        end(stage, name)
    return run


def seeds_run(self, usetrain=True):
    c = self.config
    rng, name, dig = begin('seeds', c, c.seedfile, bool(usetrain))
    n = 12 + rng.randint(10)
    a = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('zspec', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'), ('dig', 'i8')])
    a['id'] = np.arange(n)
    a['ra'] = 100.0 + np.arange(n) * 0.05
    a['dec'] = rng.uniform(0, 10, n)
    a['zspec'] = rng.uniform(0.1, 0.5, n)
    a['dig'] = int.from_bytes(dig[:7], 'little')
    put(c.seedfile, a)
    end('seeds', name)


def zredcat_run(self, galaxyfile, outfile, clobber=False, **kw):
    c = self.config
    stage = 'seedzreds' if 'seed' in os.path.basename(outfile) else 'zreds'
    rng, name, dig = begin(stage, c, outfile, galaxyfile)
    with quiet():
        n = fitsio.FITS(galaxyfile)[1].get_nrows()
    a = np.zeros(n, dtype=[('zred', 'f4'), ('zred_e', 'f4'), ('chisq', 'f4')])
    for k in a.dtype.names:
        a[k] = rng.uniform(0.1, 1.0, n)
    put(outfile, a, clobber=clobber)
    end(stage, name)


def zredpix_run(self, *args, **kwargs):
    c = self.config
    rng, name, dig = begin('zreds', c, c.zredfile, args, sorted(kwargs.items()))
    d = os.path.dirname(c.zredfile)
    os.makedirs(d, exist_ok=True)
    for i in range(2):
        put(os.path.join(d, 'pix_%d.fit' % i), generic(dig), clobber=True)
    put(c.zredfile, generic(dig), clobber=True)
    end('zreds', name)


def has_ext(fn, ext):
    if not os.path.isfile(fn):
        return False
    with fitsio.FITS(fn) as f:
        return ext in [x.get_extname() for x in f[1:]]


def bkg_run(self, clobber=False, natatime=100000, deepmode=False):
    c = self.config
    if not clobber and has_ext(c.bkgfile, 'CHISQBKG'):
        return
    stage = 'fullbkg' if deepmode else 'bkg'
    rng, name, dig = begin(stage, c, c.bkgfile, bool(deepmode))
    put(c.bkgfile, generic(dig), extname='CHISQBKG', clobber=clobber)
    end(stage, name)


def zredbkg_run(self, clobber=False, natatime=100000):
    c = self.config
    if not clobber and has_ext(c.bkgfile, 'ZREDBKG'):
        return
    rng, name, dig = begin('zredbkg', c, c.bkgfile)
    put(c.bkgfile, generic(dig), extname='ZREDBKG', clobber=clobber)
    end('zredbkg', name)


CAT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_spec_init', 'f4'), ('dig', 'i8')]


def finder_run(self, specmode=False, seedfile=None, check=True, percolation_only=False, consolidate_like=False, keepz=False, cleaninput=False, consolidate=True):
    c = self.config
    final = c.redmapper_filename('final')
    src = c.catfile if percolation_only else (seedfile or c.seedfile)
    rng, name, dig = begin('finder', c, final, src, bool(specmode), bool(percolation_only), bool(keepz), bool(cleaninput), bool(consolidate_like))
    with quiet():
        s = fitsio.read(src, ext=1, lower=True)
    keep = rng.uniform(size=s.size) < 0.8
    keep[0] = True
    a = np.zeros(int(keep.sum()), dtype=CAT)
    a['mem_match_id'] = np.arange(a.size) + 1
    for k in ('ra', 'dec'):
        a[k] = s[k][keep]
    a['lambda'] = rng.uniform(1.0, 80.0, a.size)
    a['lambda'][0] = 90.0
    a['z_lambda'] = rng.uniform(0.1, 0.5, a.size)
    a['z_spec_init'] = rng.uniform(0.1, 0.5, a.size)
    a['dig'] = int.from_bytes(dig[:7], 'little')
    likefile = c.redmapper_filename('like')
    # work of the pool, and marks on its own copy of the configuration
    c.d.nside = 16
    c.d.hpix = [3]
    if consolidate_like:
        b = a.copy()
        b['lambda'] *= 1.1
        put(likefile, b, clobber=True)
    put(c.redmapper_filename('final_members'), generic(dig, 5), clobber=True)
    put(final, a, clobber=True)
    end('finder', name)
    return (final, likefile) if consolidate_like else final


WCEN = ('delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma',
        'phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')
WNAME = {'delta0': 'wcen_Delta0', 'delta1': 'wcen_Delta1', 'sigma_m': 'wcen_sigma_m', 'pivot': 'wcen_pivot'}


def wcen_run(self, testing=False):
    c = self.config
    rng, name, dig = begin('wcen', c, c.wcenfile, int(self.iteration), self.randcatfile, self.randsatcatfile)
    a = np.zeros(1, dtype=[(n, 'f4') for n in WCEN])
    for n in WCEN:
        a[n] = rng.uniform(0.1, 2.0)
    # the real calibrator leaves these in the configuration, at full precision
    c.lnw_fg_mean = float(rng.uniform())
    c.lnw_sat_mean = float(rng.uniform())
    put(c.wcenfile, a, clobber=True)
    end('wcen', name)


def colormem_init(self, conf, **kw):
    self.config = conf


def colormem_run(self, *args, **kwargs):
    self._begun = begin('colormem', self.config, self.config.zmemfile)


def colormem_output(self):
    c = self.config
    rng, name, dig = self._begun
    put(c.redmapper_filename('colorcat'), generic(dig, 4), clobber=True)
    put(c.zmemfile, generic(dig))
    end('colormem', name)


def maskgals_run(self, maskgalfile):
    rng, name, dig = begin('maskgals', self.config, maskgalfile)
    put(maskgalfile, generic(dig), clobber=True)
    end('maskgals', name)


def plot_run(self, z_spec, z_phot, z_phot_e, **kw):
    fn = self.filename
    kw.pop('title', None)
    args = [hashlib.sha256(np.asarray(x, dtype='f8').tobytes()).hexdigest()[:12] for x in (z_spec, z_phot, z_phot_e)]
    rng, name, dig = begin('plot', self.config, fn, args)
    tmp = os.path.join(os.path.dirname(fn), '.tmp_' + os.path.basename(fn))
    with open(tmp, 'w') as f:
        f.write(dig.hex())
    os.replace(tmp, fn)
    end('plot', name)


def zcorr_init(self, parfile=None, **kw):
    with quiet():
        self.x = int(content(parfile)[:4], 16) / 65536.0


def zcorr_apply(self, lam, z, ze, **kw):
    return z + np.float32(0.01 * self.x), ze + np.float32(self.x)


MODE = ['stub']


def swap(cls, name, stub):
    """Either the stand-in or the real thing."""
    orig = vars(cls)[name]

    def f(self, *args, **kwargs):
        return (stub if MODE[0] == 'stub' else orig)(self, *args, **kwargs)
    setattr(cls, name, f)


def install():
    from redmapper.calibration import selectspecred, selectspecseeds, redsequencecal, centeringcal, zlambdacal, prepmembers
    from redmapper import color_background, mask, run_colormem, zred_runner, background, redmapper_run, zlambda, plotting
    swap(selectspecred.SelectSpecRedGalaxies, 'run', simple('redgals'))
    swap(color_background.ColorBackgroundGenerator, 'run', simple('colorbkg'))
    swap(mask.Mask, 'gen_maskgals', maskgals_run)
    run_colormem.RunColormem.__init__ = run_colormem.ClusterRunner.__init__ if '__init__' not in vars(run_colormem.RunColormem) else vars(run_colormem.RunColormem)['__init__']
    swap(run_colormem.RunColormem, '__init__', colormem_init)
    swap(run_colormem.RunColormem, 'run', colormem_run)
    swap(run_colormem.RunColormem, 'output_training', colormem_output)
    swap(selectspecseeds.SelectSpecSeeds, 'run', seeds_run)
    swap(redsequencecal.RedSequenceCalibrator, 'run', simple('redseq', '_galfile'))
    swap(zred_runner.ZredRunCatalog, 'run', zredcat_run)
    swap(zred_runner.ZredRunPixels, 'run', zredpix_run)
    swap(background.BackgroundGenerator, 'run', bkg_run)
    swap(background.ZredBackgroundGenerator, 'run', zredbkg_run)
    swap(redmapper_run.RedmapperRun, 'run', finder_run)
    swap(centeringcal.WcenCalibrator, 'run', wcen_run)
    swap(zlambdacal.ZLambdaCalibrator, 'run', simple('zlambda', 'corrslope'))
    swap(prepmembers.PrepMembers, 'run', simple('members'))
    swap(plotting.SpecPlot, 'plot_values', plot_run)
    swap(zlambda.ZlambdaCorrectionPar, '__init__', zcorr_init)
    swap(zlambda.ZlambdaCorrectionPar, 'apply_correction', zcorr_apply)


def noplots():
    """Figures are not drawn: what is saved is a short text."""
    from matplotlib.figure import Figure

    def savefig(self, fn, *args, **kwargs):
        with open(fn, 'w') as f:
            for i in range(4):
                f.write('figure\n')
                f.flush()
    Figure.savefig = savefig
    Figure.tight_layout = lambda self, *a, **k: None


def prepare(ctx):
    import sys
    import redmapper.calibration.calibrate
    survey.prepare(ctx)
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('redmapper') and getattr(getattr(m, 'ColorBackground', None), '__name__', '') == 'ColorBackground':
            if m.__name__ != 'redmapper.color_background':
                m.ColorBackground = survey.cached(m.ColorBackground, 'ColorBackground')
    data = ctx.data['dir']
    g = fitsio.read(os.path.join(data, 'test_dr8_trainredseq_gals.fit'))
    fitsio.write(os.path.join(data, 'few_trainredseq.fit'), g[::5])
    noplots()
    redgals(ctx)
    install()


def redgals(ctx):
    """Red galaxies for the colour-richness stage."""
    from redmapper import Configuration
    from redmapper.calibration import SelectSpecRedGalaxies
    np.random.seed(12345)
    c = Configuration(cfg(os.path.join(ctx.shared, 'cm')))
    os.makedirs(os.path.join(ctx.shared, 'cm', 'out'), exist_ok=True)
    c.specfile_train = os.path.join(ctx.data['dir'], 'test_dr8_spec.fit')
    c.redgalfile = os.path.join(ctx.shared, 'cm_redgals.fit')
    c.redgalmodelfile = os.path.join(ctx.shared, 'cm_redgals_model.fit')
    SelectSpecRedGalaxies(c).run()


def draw(env):
    d = env.d
    w = {}
    kw = w['kw'] = {}
    kw['calib_niter'] = d.pick((2, 1, 3))
    w['calname'] = d.pick(('cal', 'survey_cal', 'cal_v1', 'other', 'cal_x_cal'))
    kw['outbase'] = d.pick(('dr8', 'dr8_cal', 'a_cal_b'))
    w['region'] = d.pick((False, True))
    if w['region']:
        kw.update(nside=8, hpix=[5], area=12.0, border=d.pick((0.0, 1.0)))
    kw['calib_make_full_bkg'] = d.pick((True, False))
    kw['calib_pcut'] = d.pick((0.3, 0.75))
    kw['calib_minlambda'] = d.pick((5.0, 20.0))
    kw['percolation_minlambda'] = d.pick((3.0, 30.0))
    kw['calib_zlambda_minlambda'] = d.pick((20.0, 40.0))
    kw['firstpass_centerclass'] = d.pick(('CenteringBCG', 'CenteringRandom'))
    kw['centerclass'] = d.pick(('CenteringBCG', 'CenteringWcenZred'))
    kw['calib_colormem_minlambda'] = d.pick((10.0, 15.0))
    if d.choose(3) == 2:
        kw['specfile_train'] = 'train.fit'
    if d.choose(4) == 3:
        kw['zlambda_pivot'] = 25.0
    if d.choose(3) == 2:
        w['oldwcen'] = True
    return w


def lay(w, root):
    gal = minicfg.galtable(os.path.join(root, 'g'), nside=32, pix=(7, 8), area=25.5)
    out = os.path.join(root, w['calname'])
    os.makedirs(out, exist_ok=True)
    kw = dict(w['kw'])
    for n in ('spec.fit', 'train.fit'):
        a = np.zeros(3, dtype=[('ra', 'f8'), ('x', 'i4')])
        a['x'] = len(n)
        fitsio.write(os.path.join(root, n), a, clobber=True)
    if 'specfile_train' in kw:
        kw['specfile_train'] = os.path.join(root, kw['specfile_train'])
    kw['calib_redgal_template'] = 'bc03_colors_sdss.fit'
    kw['specfile'] = os.path.join(root, 'spec.fit')
    if w.get('oldwcen'):
        a = np.zeros(1, dtype=[(n, 'f4') for n in WCEN])
        for i, n in enumerate(WCEN):
            a[n] = 0.125 * (i + 1)
        fitsio.write(os.path.join(root, 'old_wcen.fit'), a, clobber=True)
        kw['wcenfile'] = os.path.join(root, 'old_wcen.fit')
    return minicfg.write(os.path.join(root, 'conf', 'cal_default.yml'), gal, outpath=out, **kw)


def calibrate(fn, out):
    from redmapper.calibration import RedmapperCalibrator

    def run():
        cal = RedmapperCalibrator(fn)
        out['cal'] = cal
        cal.run()
        with quiet():
            w = {}
            c = cal.config
            if c.wcenfile and os.path.isfile(c.wcenfile):
                a = fitsio.read(c.wcenfile, ext=1, lower=True)
                for n in WCEN:
                    w[n] = (float(getattr(c, WNAME.get(n, n))), float(a[n][0]))
            out['wcen'] = w
    return run


def products(root):
    """relative path -> content of everything the calibration leaves."""
    out = {}
    for dp, dn, fns in os.walk(root):
        r = os.path.relpath(dp, root)
        dn[:] = sorted(x for x in dn if not (r == '.' and x in ('tmp', 'g', 'conf')) and x != 'logs')
        for f in sorted(fns):
            if f.startswith('.') or f.endswith('.log'):
                continue
            p = os.path.join(dp, f)
            rel = os.path.normpath(os.path.join(r, f))
            if f.endswith('.yml'):
                y = yaml.safe_load(open(p))
                y = {k: (str(v).replace(root, '@') if v is not None else None) for k, v in y.items()}
                out[rel] = sorted(y.items())
            else:
                out[rel] = content(p)
    return out


def stages(pname):
    return [(s, n, dg, t) for (p, s, n, dg, t) in RECORD if p == pname]


def describe(ref, got):
    a, b = ref, got
    msg = []
    for part in ('settings', ):
        for k in sorted(set(a[part]) | set(b[part])):
            if a[part].get(k) != b[part].get(k):
                msg.append('setting %s: %r instead of %r' % (k, b[part].get(k), a[part].get(k)))
    for x, y in zip(a['files'], b['files']):
        if x != y:
            msg.append('content of %s differs' % x[0])
    if a['args'] != b['args']:
        msg.append('arguments %r instead of %r' % (b['args'], a['args']))
    return '; '.join(msg[:4]) or 'same text'


def driver(env):
    d = env.d
    MODE[0] = 'stub'
    del RECORD[:]
    DONE.clear()
    w = draw(env)
    # undisturbed calibration
    ref = env.subroot('ref')
    fn0 = lay(w, ref)
    s0 = env.dry(ref)
    o0 = {}
    p0 = s0.spawn('ref', calibrate(fn0, o0))
    s0.run()
    must_finish([p0], 'undisturbed calibration')
    R = stages('ref')
    order = {}
    for i, (s, n, dg, t) in enumerate(R):
        check((s, n) not in order, 'repeated', 'the undisturbed calibration ran %s for %s twice' % (s, n))
        order[(s, n)] = i
    check_wiring(w, R)
    check_selections(w, ref)
    P0 = products(ref)
    check_values(o0, 'undisturbed calibration')
    counters = dict(s0.counters)
    # the same with kills and errors
    root = env.root
    fn = lay(w, root)
    DONE.clear()
    nkill = 1 + d.choose(4)
    finished = False
    env.key = (w['kw']['calib_niter'], w['calname'], w['region'], nkill)
    for att in range(nkill + 2):
        last = att >= nkill
        done0 = set(DONE)
        sim = env.sim(root)
        faults = [] if last else env.plan(counters, ('crash', 'crash', 'crash', 'eio', 'enospc', 'eio_r'), classes=('task', 'pub', 'w', 'any'))
        sim.arm(faults)
        o = {}
        p = sim.spawn('cal%d' % att, calibrate(fn, o))
        sim.run()
        got = stages('cal%d' % att)
        pos = -1
        for (s, n, dg, t) in got:
            check((s, n) in order, 'extra', 'a resumed calibration ran %s for %s, which an undisturbed one does not' % (s, n))
            i = order[(s, n)]
            check(i > pos, 'order', 'a resumed calibration ran %s for %s again or after a later stage' % (s, n))
            pos = i
            check(dg == R[i][2], 'given', 'stage %s for %s was given other things than in an undisturbed calibration: %s' % (s, n, describe(R[i][3], t)))
            if (s, n) in done0 and s != 'seedzreds':
                fail('redone', 'stage %s for %s was complete but run again by the resumed calibration' % (s, n))
        if not sim.fault_hits:
            must_finish([p], 'resumed calibration')
            check_values(o, 'resumed calibration')
            if finished:
                check(not got, 'redone', 'a complete calibration ran %s again' % (got[:1],))
            finished = True
        elif p.exc is None and p.ok:
            finished = True
    P = products(root)
    for k in sorted(P0):
        check(k in P, 'missing', 'the resumed calibration left no %s' % k)
        if P[k] != P0[k]:
            x = ''
            if isinstance(P[k], list):
                x = [(a, b) for a, b in zip(P[k], P0[k]) if a != b][:3]
            fail('product', '%s of the resumed calibration differs from the one of an undisturbed calibration %s' % (k, x))
    for k in sorted(P):
        check(k in P0, 'extra', 'the resumed calibration left %s, which an undisturbed one does not' % k)


def wiring(w):
    """What every stage of a calibration is to be given: (stage, output) -> settings; the calibration as documented, independent of how it is coded."""
    kw = w['kw']
    o = kw['outbase']
    C = '@/%s/' % w['calname']
    n = kw['calib_niter']
    cen = kw['centerclass']

    def f(base, name):
        return C + '%s_%s.fit' % (base, name)
    region = ((5.0,), 8.0) if w['region'] else ((), 0.0)
    E = {}

    def add(stage, name, outbase, args=None, **settings):
        settings['_region'] = region
        settings['_outbase'] = outbase
        settings['_args'] = args
        E[(stage, name)] = settings
    red = dict(redgalfile=f(o, 'zspec_redgals'), redgalmodelfile=f(o, 'zspec_redgals_model'))
    add('redgals', red['redgalmodelfile'], o, **red)
    add('colorbkg', f(o, 'bkg_color'), o)
    add('maskgals', f(o, 'maskgals'), o)
    zmem = f(o, 'iter0_colormem_pgt%4.2f_lamgt%02d' % (kw['calib_pcut'], kw['calib_colormem_minlambda']))
    add('colormem', zmem, o, bkgfile_color=f(o, 'bkg_color'), maskgalfile=f(o, 'maskgals'), **red)
    seed = f(o, 'specseeds_train')
    add('seeds', seed, o, [True])
    for i in range(1, n + 1):
        b = '%s_iter%d' % (o, i)
        par, bkg, zred = f(b, 'pars'), f(b, 'bkg'), C + '%s/%s_zreds_master_table.fit' % (b, b)
        add('redseq', par, b, [zmem], bkgfile_color=f(o, 'bkg_color'), **red)
        add('zreds', zred, b, parfile=par)
        add('bkg', bkg, b, parfile=par)
        add('zredbkg', bkg, b, parfile=par, zredfile=zred)
        add('seedzreds', f(b, 'specseeds_zreds'), b, [seed], parfile=par)
        fnd = dict(parfile=par, zredfile=zred, bkgfile=bkg, maskgalfile=f(o, 'maskgals'), zlambdafile=None)
        add('finder', f(b, 'final'), b, [f(b, 'specseeds'), True, False, True, True, True], centerclass=kw['firstpass_centerclass'] if i == 1 else 'CenteringWcenZred', **fnd)
        rand = [None, None]
        if i == 1:
            for k, c in enumerate(('CenteringRandom', 'CenteringRandomSatellite')):
                rb = b + ('_rand', '_randsat')[k]
                rand[k] = f(rb, 'final')
                add('finder', rand[k], rb, [f(b, 'sub_like'), False, True, True, True, False], centerclass=c, **fnd)
        add('wcen', f(b, 'wcen'), b, [float(i)] + rand, catfile=f(b, 'final'), centerclass=cen, bkgfile=bkg, parfile=par)
        add('zlambda', f(b, 'zlambda'), b, [False], catfile=f(b, 'final'))
        add('plot', C + '%s_zspec.png' % b, b)
        zmem = f(b, 'zmem_pgt%4.2f_lamgt%02d' % (kw['calib_pcut'], int(kw['calib_minlambda'])))
        add('members', zmem, b, catfile=f(b, 'final'))
        if i == 1:
            seed = f(o, 'cut_specseeds')
    b2 = '%s_iter%db' % (o, n)
    add('seeds', f(o, 'specseeds'), o, [False])
    add('seedzreds', f(b2, 'specseeds_zreds'), b2, [f(o, 'specseeds')], parfile=par)
    add('finder', f(b2, 'final'), b2, [f(b2, 'specseeds'), False, False, False, True, False], centerclass=cen, parfile=par, zredfile=zred, bkgfile=bkg, maskgalfile=f(o, 'maskgals'),
        zlambdafile=f(b, 'zlambda'))
    add('plot', C + '%s_zspec.png' % b2, b2, catfile=f(b2, 'final'))
    if w['region'] and kw['calib_make_full_bkg']:
        region = ((), 0.0)
        run = w['run'] = runnames(w)
        add('fullbkg', '@/%s/%s_bkg.fit' % run, None, [True], parfile=par, area=25.5)
    return E


def runnames(w):
    c, o = w['calname'], w['kw']['outbase']
    r = {'cal': 'run', 'survey_cal': 'survey_run', 'cal_v1': 'run_v1', 'other': 'other_run', 'cal_x_cal': 'run_x_cal'}[c]
    return r, {'dr8': 'dr8_run', 'dr8_cal': 'dr8_run', 'a_cal_b': 'a_run_b'}[o]


def check_wiring(w, R):
    E = wiring(w)
    got = {(s, n): t for (s, n, dg, t) in R}
    for k in sorted(E, key=str):
        check(k in got, 'wiring', 'an undisturbed calibration has no stage %s for %s (it has %s)' % (k[0], k[1], sorted(x[1] for x in got if x[0] == k[0])))
        t = got[k]
        want = E[k]
        d = dict(t['settings']['d'])
        check((d['hpix'], d['nside']) == want['_region'], 'wiring', 'stage %s for %s works on region %s instead of %s' % (k[0], k[1], (d['hpix'], d['nside']), want['_region']))
        if want['_outbase'] is not None:
            check(d['outbase'] == want['_outbase'], 'wiring', 'stage %s for %s uses the name %s' % (k[0], k[1], d['outbase']))
        for n, v in want.items():
            if not n.startswith('_'):
                check(t['settings'].get(n) == v, 'wiring', 'stage %s for %s is given %s=%r instead of %r' % (k[0], k[1], n, t['settings'].get(n), v))
        if want['_args'] is not None:
            have = [x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else x for x in t['args']]
            have = [x for x in have if x not in ((), []) ]
            check([x if not isinstance(x, (int, float)) else float(x) for x in have] == [x if not isinstance(x, (int, float)) else float(x) for x in want['_args']], 'wiring',
                  'stage %s for %s is given the arguments %r instead of %r' % (k[0], k[1], have, want['_args']))
    for k in got:
        check(k in E, 'wiring', 'unexpected stage %s for %s' % k)


def check_selections(w, root):
    """Tables the driver makes by itself."""
    kw = w['kw']
    o = kw['outbase']
    out = os.path.join(root, w['calname'])

    def rd(base, name):
        return fitsio.read(os.path.join(out, '%s_%s.fit' % (base, name)), ext=1, lower=True)
    b = o + '_iter1'
    fin = rd(b, 'final')
    good = set(fin['ra'][fin['lambda'] > kw['percolation_minlambda']].tolist())
    like, sub = rd(b, 'like'), rd(b, 'sub_like')
    check(sorted(sub['ra'].tolist()) == sorted(x for x in like['ra'].tolist() if x in good), 'selection', 'the likelihoods for random centers are not those of the clusters above the richness limit')
    m = {r: i for i, r in enumerate(like['ra'].tolist())}
    check(rows_equal(sub, like[[m[x] for x in sub['ra'].tolist()]]), 'selection', 'likelihoods were changed')
    seeds, cut = rd(o, 'specseeds_train'), rd(o, 'cut_specseeds')
    check(sorted(cut['ra'].tolist()) == sorted(x for x in seeds['ra'].tolist() if x in good), 'selection', 'the cut seeds are not those of the clusters above the richness limit')
    m = {r: i for i, r in enumerate(seeds['ra'].tolist())}
    check(rows_equal(cut, seeds[[m[x] for x in cut['ra'].tolist()]]), 'selection', 'seeds were changed')
    for i in range(1, kw['calib_niter'] + 2):
        b = '%s_iter%d' % (o, i)
        src = seeds if i == 1 else cut
        if i == kw['calib_niter'] + 1:
            b = '%s_iter%db' % (o, i - 1)
            src = rd(o, 'specseeds')
        s, z = rd(b, 'specseeds'), rd(b, 'specseeds_zreds')
        want = src.copy()
        want['zred'], want['zred_e'], want['zred_chisq'] = z['zred'], z['zred_e'], z['chisq']
        check(rows_equal(s, want), 'selection', 'seeds of %s are not the seeds with their zreds: %s' % (b, diff_rows(s, want)))
    # the configuration for the cluster finder
    rp, ro = runnames(w)
    y = yaml.safe_load(open(os.path.join(root, rp, 'run_default.yml')))
    it = '%s_iter%d' % (o, kw['calib_niter'])

    def f(base, name):
        return os.path.join(out, '%s_%s.fit' % (base, name))
    full = w['region'] and kw['calib_make_full_bkg']
    want = dict(parfile=f(it, 'pars'), bkgfile=os.path.join(root, rp, ro + '_bkg.fit') if full else f(it, 'bkg'), zlambdafile=f(it, 'zlambda'), wcenfile=f(it, 'wcen'),
                bkgfile_color=f(o, 'bkg_color'), maskgalfile=f(o, 'maskgals'), redgalfile=f(o, 'zspec_redgals'), redgalmodelfile=f(o, 'zspec_redgals_model'), catfile=None, seedfile=None,
                zmemfile=None, nside=0, hpix=[], border=0.0, area=None, outbase=ro, centerclass=kw['centerclass'], galfile=os.path.join(root, 'g', 'mini_master_table.fit'),
                specfile=os.path.join(root, 'spec.fit'),
                zredfile=os.path.join(root, rp, 'zreds', 'mini_zreds_master_table.fit') if w['region'] else os.path.join(out, it, it + '_zreds_master_table.fit'))
    for k, v in want.items():
        check(y.get(k) == v, 'runconf', 'the run configuration has %s=%r instead of %r' % (k, y.get(k), v))
    a = fitsio.read(f(it, 'wcen'), ext=1, lower=True)
    for n in WCEN:
        check(np.float32(y[WNAME.get(n, n)]) == a[n][0], 'runconf', 'the run configuration has %s=%r instead of %r' % (WNAME.get(n, n), y[WNAME.get(n, n)], a[n][0]))


def check_values(o, what):
    for n, (a, b) in sorted(o['wcen'].items()):
        check(a == b, 'values', '%s: setting %s is %r but the centering parameters hold %r' % (what, WNAME.get(n, n), a, b))


# ---- the cluster finder as the calibration uses it ---------------------------

def finder(env):
    """Resume by the presence of the final catalog: it must imply that the run, with its likelihoods, is complete."""
    d = env.d
    MODE[0] = 'real'
    stubrun.MODE[0] = 'stub'
    w = runworld.draw(env, maxpix=3)
    w['perc'] = d.choose(3) == 2
    w['like'] = not w['perc']
    w['spec'] = w['keepz'] = w['clean'] = True
    w['seed'] = 'given_seed.fit'
    if w['perc']:
        w['spec'] = False
        w['seed'] = None
    nproc = d.pick((1, 2))
    if nproc == 1 and w['perc']:
        nproc = 2
    r1 = env.subroot('alone')
    ref = runworld.alone(env, w, r1, runworld.lay(w, r1, nproc))
    r2 = env.subroot('dry')
    s0 = env.dry(r2)
    p = s0.spawn('dry', runworld.go(w, r2, runworld.lay(w, r2, nproc)))
    s0.run()
    must_finish([p], 'undisturbed run')
    runworld.check_run(w, runworld.files(os.path.join(r2, 'out')), ref)
    fn = runworld.lay(w, env.root, nproc)
    out = os.path.join(env.root, 'out')
    fin = os.path.join(out, w['outbase'] + '_final.fit')
    nkill = 1 + d.choose(3)
    for att in range(nkill + 1):
        if os.path.isfile(fin):
            break
        sim = env.sim(env.root)
        sim.arm([] if att == nkill else env.plan(s0.counters, ('crash', 'crash', 'enospc', 'eio'), classes=('pub', 'pub', 'w', 'any')))
        p = sim.spawn('run%d' % att, runworld.go(w, env.root, fn))
        sim.run()
        if not sim.fault_hits:
            must_finish([p], 'resumed run')
        elif not os.path.isfile(fin) and p.ok and p.exc is None:
            fail('missing', 'a run ended without an error and without a final catalog')
    check(os.path.isfile(fin), 'missing', 'no final catalog')
    runworld.check_run(w, {k: v for k, v in runworld.files(out).items() if not k.startswith('.')}, ref)
    env.key = (w['perc'], nproc, len(w['pix']))


# ---- real stages -------------------------------------------------------------

def cfg(root, **over):
    return survey.config(os.path.join(root, 'conf', 'c.yml'), outpath=os.path.join(root, 'out'), zrange=[0.1, 0.2], **over)


def st_redgals(root):
    from redmapper import Configuration
    from redmapper.calibration import SelectSpecRedGalaxies
    data = CTX.data['dir']
    c = Configuration(cfg(root))
    c.galfile = os.path.join(data, 'test_dr8_trainred_gals.fit')
    c.specfile_train = os.path.join(data, 'test_dr8_trainred_spec.fit')
    c.redgalfile = c.redmapper_filename('zspec_redgals')
    c.redgalmodelfile = c.redmapper_filename('zspec_redgals_model')
    SelectSpecRedGalaxies(c).run()
    return c.redgalfile, [c.redgalmodelfile]


def st_colorbkg(root):
    from redmapper import Configuration, ColorBackgroundGenerator
    c = Configuration(cfg(root))
    c.d.nside, c.d.hpix, c.border = 128, [8421], 0.0
    c.bkgfile_color = c.redmapper_filename('bkg_color')
    ColorBackgroundGenerator(c, minrangecheck=5).run()
    return c.bkgfile_color, []


def st_seeds(root):
    from redmapper import Configuration
    from redmapper.calibration import SelectSpecSeeds
    c = Configuration(cfg(root))
    c.seedfile = c.redmapper_filename('specseeds')
    SelectSpecSeeds(c).run(usetrain=False)
    return c.seedfile, []


def st_zlambda(root):
    from redmapper import Configuration
    from redmapper.calibration import ZLambdaCalibrator
    c = Configuration(cfg(root, catfile=os.path.join(CTX.data['dir'], 'test_zlamcal_cat.fit')))
    c.zlambdafile = c.redmapper_filename('zlambda')
    ZLambdaCalibrator(c, corrslope=False).run()
    return c.zlambdafile, []


def st_wcen(root):
    import yaml
    from redmapper import Configuration
    from redmapper.calibration import WcenCalibrator
    data = CTX.data['dir']
    y = yaml.safe_load(open(os.path.join(data, 'testconfig_wcen.yaml')))
    for k, v in y.items():
        if isinstance(v, str) and 'data_for_tests/' in v:
            y[k] = os.path.join(data, v.split('data_for_tests/')[1])
    y.update(outpath=os.path.join(root, 'out'), printlogging=True, phi1_mmstar_m=-0.5, phi1_mmstar_slope=-0.3, phi1_msig_m=0.2, phi1_msig_slope=-0.1)
    with quiet():
        fn = os.path.join(root, 'conf', 'w.yml')
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, 'w') as f:
            yaml.dump(y, f)
    c = Configuration(fn)
    c.wcenfile = c.redmapper_filename('wcen')
    WcenCalibrator(c, 1, randcatfile=os.path.join(data, 'test_dr8_randcat.fit'), randsatcatfile=os.path.join(data, 'test_dr8_randsatcat.fit')).run(testing=True)
    # what later stages get must be what is stored
    c.set_wcen_vals()
    with quiet():
        a = fitsio.read(c.wcenfile, ext=1, lower=True)
        for n in WCEN:
            check(float(getattr(c, WNAME.get(n, n))) == float(a[n][0]), 'values', 'setting %s is not the stored centering parameter' % WNAME.get(n, n))
    return c.wcenfile, []


def st_redseq(root):
    from redmapper import Configuration
    from redmapper.calibration import RedSequenceCalibrator
    c = Configuration(cfg(root, calib_use_pcol=True))
    c.parfile = c.redmapper_filename('pars')
    RedSequenceCalibrator(c, os.path.join(CTX.data['dir'], 'few_trainredseq.fit')).run(doRaise=False)
    return c.parfile, []


def st_plot(root):
    from redmapper import Configuration
    from redmapper.plotting import SpecPlot
    c = Configuration(cfg(root))
    p = SpecPlot(c)
    z = np.linspace(0.1, 0.2, 60)
    p.plot_values(z, z + 0.001 * np.sin(np.arange(60)), np.zeros(60) + 0.01)
    return p.filename, []


def st_members(root):
    """Real member preparation, judged row by row."""
    from redmapper import Configuration
    from redmapper.calibration import PrepMembers
    rng = np.random.RandomState(99)
    n = 30
    cat = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('scaleval', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_init', 'f4'), ('cg_spec_z', 'f4')])
    cat['mem_match_id'] = rng.permutation(3 * n)[:n] + 1
    cat['lambda'] = rng.uniform(2.0, 60.0, n)
    cat['scaleval'] = rng.uniform(1.0, 2.0, n)
    cat['z_lambda'] = rng.uniform(0.1, 0.2, n)
    cat['z_lambda_e'] = 0.005
    cat['z_init'] = cat['z_lambda'] + rng.choice([0.002, 0.004, 0.05], n)
    cat['cg_spec_z'] = cat['z_lambda'] + 0.05
    nm = rng.randint(1, 6, n)
    mem = np.zeros(int(nm.sum()), dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('p', 'f4'), ('pcol', 'f4'), ('theta_i', 'f4'), ('theta_r', 'f4'), ('r', 'f4'), ('mag', 'f4', 5),
                                         ('mag_err', 'f4', 5), ('refmag', 'f4'), ('refmag_err', 'f4'), ('ebv', 'f4')])
    mem['mem_match_id'] = np.repeat(cat['mem_match_id'], nm)
    for c in ('p', 'pcol', 'theta_i', 'theta_r', 'ra', 'dec', 'refmag', 'refmag_err', 'ebv'):
        mem[c] = rng.uniform(0.0, 1.0, mem.size)
    mem['theta_i'], mem['theta_r'] = rng.choice([1.0, 0.7], mem.size), rng.choice([1.0, 0.9], mem.size)
    mem['mag'] = rng.uniform(15.0, 22.0, (mem.size, 5))
    mem['mag_err'] = rng.uniform(0.01, 0.1, (mem.size, 5))
    mem['r'] = rng.choice([0.0, 0.3], mem.size)
    mem = mem[rng.permutation(mem.size)]
    cf = os.path.join(root, 'conf', 'cl_final.fit')
    with quiet():
        os.makedirs(os.path.dirname(cf), exist_ok=True)
        fitsio.write(cf, cat, clobber=True)
        fitsio.write(cf[:-4] + '_members.fit', mem, clobber=True)
    c = Configuration(cfg(root, catfile=cf, calib_smooth=0.0, calib_minlambda=10.0, calib_pcut=0.4))
    c.zmemfile = c.redmapper_filename('zmem')
    PrepMembers(c).run('z_init')
    with quiet():
        a = fitsio.read(c.zmemfile, ext=1, lower=True)
        ns = float(c.calib_zlambda_clean_nsig)
        at = dict(zip(cat['mem_match_id'].tolist(), cat))
        want = {}
        for m in mem:
            q = at[int(m['mem_match_id'])]
            if q['lambda'] / q['scaleval'] > 10.0 and abs(q['z_init'] - q['z_lambda']) < ns * q['z_lambda_e'] and (m['p'] * m['theta_i'] * m['theta_r'] > 0.4 or m['pcol'] > 0.4):
                want[float(m['ra'])] = (m, q)
        check(sorted(a['ra'].tolist()) == sorted(want), 'members', 'prepared members are not the members of the selected clusters')
        for r in a:
            m, q = want[float(r['ra'])]
            ok = r['z'] == q['z_init'] and r['z_lambda'] == q['z_lambda'] and bool(r['central']) == (m['r'] < 0.0001)
            ok = ok and all(np.array_equal(r[x], m[x]) for x in ('dec', 'p', 'pcol', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv'))
            check(ok, 'members', 'a prepared member does not have the values of its galaxy and cluster')
    return c.zmemfile, []


def st_maskgals(root):
    from redmapper import Configuration
    from redmapper.mask import get_mask
    c = Configuration(cfg(root, maskgal_ngals=40, maskgal_nsamples=3))
    fn = c.redmapper_filename('maskgals')
    m = get_mask(c, include_maskgals=False)
    m.gen_maskgals(fn)
    m.read_maskgals(fn)
    return fn, []


def st_colormem(root):
    from redmapper import Configuration, RunColormem
    data = CTX.data['dir']
    c = Configuration(cfg(root))
    c.specfile_train = os.path.join(data, 'test_dr8_spec.fit')
    c.redgalfile = os.path.join(CTX.shared, 'cm_redgals.fit')
    c.redgalmodelfile = os.path.join(CTX.shared, 'cm_redgals_model.fit')
    c.zmemfile = c.redmapper_filename('zmem')
    r = RunColormem(c)
    stubrun.MODE[0] = 'real'
    try:
        r.run()
    finally:
        stubrun.MODE[0] = 'stub'
    r.output_training()
    return c.zmemfile, [c.redmapper_filename('colorcat')]


STAGES = {'members': (st_members, 'zmem', 3), 'maskgals': (st_maskgals, 'maskgals', 1), 'colormem': (st_colormem, 'zmem', 1), 'plot': (st_plot, '', 1), 'redgals': (st_redgals, 'zspec_redgals', 1), 'colorbkg': (st_colorbkg, 'bkg_color', 2), 'seeds': (st_seeds, 'specseeds', 2), 'zlambda': (st_zlambda, 'zlambda', 2),
          'wcen': (st_wcen, 'wcen', 1), 'redseq': (st_redseq, 'pars', 1)}
PICKS = sorted(n for n in STAGES for i in range(STAGES[n][2]))


def tables(fn):
    if fn.endswith('.png'):
        return [('png', np.frombuffer(open(fn, 'rb').read(), dtype='u1'))]
    with fitsio.FITS(fn) as f:
        return [(h.get_extname(), h.read()) for h in f[1:]]


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and rows_equal(x[1], y[1]) for x, y in zip(a, b))


def stage(env):
    d = env.d
    MODE[0] = 'real'
    name = d.pick(PICKS)
    fn, marker, _ = STAGES[name]
    cache = CTX.data.setdefault('stage', {})

    def body(root, out):
        def run():
            np.random.seed(12345)
            os.makedirs(os.path.join(root, 'out'), exist_ok=True)
            out['r'] = fn(root)
        return run
    if name not in cache:
        keep = (seams.S.counter, seams.S.names, Sim.pid_base)
        ref = env.subroot('ref')
        s0 = env.dry(ref)
        o = {}
        p = s0.spawn('ref', body(ref, o))
        s0.run()
        must_finish([p], 'undisturbed stage')
        m, other = o['r']
        rel = [os.path.relpath(x, ref) for x in [m] + list(other)]
        cache[name] = (rel, [tables(os.path.join(ref, r)) for r in rel], dict(s0.counters))
        seams.S.counter, seams.S.names, Sim.pid_base = keep
    rel, refs, counters = cache[name]
    nkill = 1 + d.choose(2)
    for att in range(nkill + 1):
        sim = env.sim(env.root)
        sim.arm([] if att == nkill else env.plan(counters, ('crash', 'crash', 'crash', 'enospc', 'eio'), classes=('pub', 'pub', 'w', 'w', 'any')))
        p = sim.spawn('%s%d' % (name, att), body(env.root, {}))
        sim.run()
        if not sim.fault_hits:
            must_finish([p], 'stage %s' % name)
        if os.path.isfile(os.path.join(env.root, rel[0])):
            break
        check(not (p.ok and p.exc is None), 'missing', 'stage %s ended without an error and without its product' % name)
    for r, t in zip(rel, refs):
        f = os.path.join(env.root, r)
        check(os.path.isfile(f), 'missing', 'stage %s is taken for complete but has no %s' % (name, r))
        try:
            got = tables(f)
        except Exception as e:
            fail('torn', '%s is taken for complete but cannot be read: %s' % (r, e))
        check(same(t, got), 'product', '%s of a killed and rerun stage %s differs from the undisturbed one' % (r, name))
    env.key = (name,)


SCENARIOS = {'driver': (driver, (300, 20000)), 'finder': (finder, (100, 6000)), 'stage': (stage, (110, 3000))}
