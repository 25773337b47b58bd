"""P17: configurations: files, copies, workers."""
import os

import numpy as np
import yaml

from ..common import check, fail, tb, must_finish, quiet, CTX
from .. import minicfg
from ..kernel import current_proc
from ..seams import _o, x_exists

REAL = ['redmapper.configuration.Configuration/ConfigField', 'redmapper.redmapper_run.RedmapperRun', 'redmapper.zred_runner.ZredRunPixels',
        'PyYAML', 'multiprocessing pickling of tasks']
STUBS = ['cluster-finder stages of RedmapperRun are replaced by stages that record and then alter their settings']


def snap(c):
    """All settings a configuration gives its user."""
    from redmapper.configuration import Configuration, ConfigField
    out = {}
    for k, f in sorted(vars(Configuration).items()):
        if isinstance(f, ConfigField):
            out[k] = norm(getattr(c, k))
    out['d'] = {k: norm(v) for k, v in sorted(vars(c.d).items())}
    out['cluster_dtype'] = repr(c.cluster_dtype)
    out['member_dtype'] = repr(c.member_dtype)
    if c.cosmo is not None:
        out['cosmo'] = (c.cosmo.H0(), c.cosmo.omega_m(), c.cosmo.omega_l())
    return out


def norm(v):
    if isinstance(v, np.ndarray):
        return ('arr', [norm(x) for x in v.tolist()])
    if isinstance(v, (list, tuple)):
        return ('list', [norm(x) for x in v])
    if isinstance(v, np.generic):
        return norm(v.item())
    if isinstance(v, bool):
        return v
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        return float(v)
    if isinstance(v, int):
        return float(v)
    return v


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append('%s: %r instead of %r' % (k, a.get(k), b.get(k)))
    return '; '.join(out[:4])


# settings that may be drawn: name -> values
CHOICES = [
    ('zrange', ([0.1, 0.6], [0.05, 0.35], [0.2, 0.9])),
    ('percolation_minlambda', (3.0, 5.0, 7.5)),
    ('chisq_max', (20.0, 10.0)),
    ('npzbins', (21, 11)),
    ('percolation_maxcen', (5, 3, 1)),
    ('calib_niter', (3, 1)),
    ('bands', (['u', 'g', 'r', 'i', 'z'],)),
    ('consolidate_lambda_cuts', ([5.0, 20.0], [10.0], [3.0, 30.0, 50.0])),
    ('consolidate_vlim_lstars', ([], [0.2], [0.2, 5.0])),
    ('max_maskfrac', (0.2, 0.5)),
    ('lnw_cen_mean', (0.2, -0.1)),
    ('wcen_pivot', (30.0, 25.0)),
    ('calib_run_nproc', (1, 4)),
    ('calib_nproc', (1, 2, 8)),
    ('bkg_local_annuli', ([2.0, 3.0], [1.0, 2.5])),
    ('bkg_local_compute', (True, False)),
    ('depthfile', (None, 'depth.fit')),
    ('zredfile', (None, 'z_zreds_master_table.fit')),
    ('catfile', (None, 'cat.fit')),
    ('seedfile', (None, 'seed.fit')),
    ('border', (0.0, 1.5)),
    ('outbase', ('run', 'other_cal')),
    ('select_scaleval', (False, True)),
    ('refmag', ('i', 'r', 'z')),
    ('redmagic', (0, 1)),
    ('vlim', (0, 1)),
    ('region', (0, 1, 2)),
    ('colormem', (0, 1)),
    ('calib_make_full_bkg', (True, False)),
    ('area', (None, 20.0)),
    ('mstar_survey', ('sdss', 'des')),
    ('limmag_catalog', (None, 21.5)),
    ('centerclass', ('CenteringWcenZred', 'CenteringBCG')),
]


# settings without further meaning to the reader: any value must arrive as written
FLOATS = """area_coarsebin area_finebin area_nodesize bkg_chisqbinsize bkg_refmagbinsize bkg_zbinsize bkg_zredbinsize calib_color_nsig
calib_color_pcut calib_colormem_beta calib_colormem_minlambda calib_colormem_r0 calib_colormem_smooth calib_corr_nodesize calib_corr_pcut
calib_corr_slope_nodesize calib_covmat_constant calib_covmat_nodesize calib_err_ratio_pivot calib_lumfunc_alpha calib_minlambda calib_pcut
calib_pivotmag_nodesize calib_redspec_nsig calib_smooth calib_spec_max_zerr calib_zlambda_clean_nsig calib_zlambda_minlambda
calib_zlambda_nodesize calib_zlambda_slope_nodesize calib_zrange_cushion dldr_gamma firstpass_beta firstpass_minlambda firstpass_r0
likelihoods_beta likelihoods_minlambda likelihoods_r0 lnw_cen_mean lnw_cen_sigma lnw_fg_mean lnw_fg_sigma lnw_sat_mean lnw_sat_sigma
lval_reference maskgal_dmag_extra maskgal_rad_stepsize maskgal_zred_err percolation_beta percolation_lmask percolation_memlum
percolation_memradius percolation_pbcg_cut percolation_r0 percolation_rmask_0 percolation_rmask_beta percolation_rmask_gamma
percolation_rmask_zpivot phi1_mmstar_m phi1_mmstar_slope phi1_msig_m phi1_msig_slope redmagic_calib_buffer redmagic_calib_chisqcut
redmagic_calib_corr_nodesize redmagic_calib_fractrain redmagic_calib_nodesize redmagic_calib_redshift_buffer redmagic_calib_zbinsize
redmagic_maxlum rsig vlim_lstar wcen_Delta0 wcen_Delta1 wcen_maxlambda wcen_minlambda wcen_rsoft wcen_sigma_m wcen_zred_chisq_max
zlambda_binsize zlambda_epsilon zlambda_parab_step zlambda_pivot zlambda_tol zlambda_topfrac zredc_binsize_coarse zredc_binsize_fine
zscan_beta zscan_minlambda zscan_r0 zscan_zstep""".split()
INTS = """calib_run_min_nside calib_zlambda_correct_niter covmask_nside_default firstpass_niter maskgal_ngals maskgal_nsamples
percolation_niter zlambda_maxiter zred_nsamp""".split()
BOOLS = """bkg_deepmode bkg_local_use calib_corr_nocorrslope calib_fit_err_ratio calib_use_pcol likelihoods_use_zred
redmagic_apply_afterburner_zsamp redmagic_mock_truthspec redmagic_run_afterburner redmagic_use_constchi runcat_percolation_masking
use_tempfiles_to_conserve_memory wcen_uselum""".split()
FILES = """bkgfile bkgfile_color parfile maskgalfile specfile specfile_train halofile randfile redgalfile redgalmodelfile redmagicfile
zlambdafile zmemfile calib_redgal_template logpath mstar_band firstpass_centerclass""".split()
WCEN = {'wcen_Delta0': 'delta0', 'wcen_Delta1': 'delta1', 'wcen_sigma_m': 'sigma_m', 'wcen_pivot': 'pivot', 'lnw_fg_mean': 'lnw_fg_mean',
        'lnw_fg_sigma': 'lnw_fg_sigma', 'lnw_sat_mean': 'lnw_sat_mean', 'lnw_sat_sigma': 'lnw_sat_sigma', 'lnw_cen_mean': 'lnw_cen_mean',
        'lnw_cen_sigma': 'lnw_cen_sigma'}
PHI1 = ('phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope')
BANDS = {5: 'ugriz', 4: 'griz'}


def wcenfile(d, root, i):
    import fitsio
    phi = d.choose(2)
    names = sorted(WCEN.values()) + (list(PHI1) if phi else [])
    a = np.zeros(1, dtype=[(n, 'f8') for n in names])
    rng = d.sub_rng()
    for n in names:
        a[n] = np.round(rng.uniform(-2, 2), 6)
    fn = os.path.join(root, 'wcen%d.fit' % i)
    fitsio.write(fn, a, clobber=True)
    vals = {k: norm(a[n][0]) for k, n in WCEN.items()}
    if phi:
        vals.update({n: norm(a[n][0]) for n in PHI1})
    return fn, vals


def draw_config(d, root, i):
    """A legal configuration; returns the file and what its reader must get."""
    from redmapper.configuration import Configuration
    kw = {}
    nmag = d.pick((5, 4))
    for name, vals in CHOICES:
        if d.choose(4, 0.55) == 0:
            continue
        v = d.pick(vals)
        if name == 'redmagic':
            if v:
                kw.update(redmagic_names=['highdens', 'highlum'], redmagic_n0s=[10.0, 2.0], redmagic_etas=[0.5, 1.5], redmagic_zmaxes=[0.65, 0.9])
        elif name == 'vlim':
            if v:
                kw.update(vlim_depthfiles=['a.fit', 'b.fit'], vlim_bands=['r', 'g'], vlim_nsigs=[5.0, 3.0])
        elif name == 'region':
            if v == 1:
                kw.update(nside=8, hpix=[5])
            elif v == 2:
                kw.update(nside=4, hpix=[1, 2, 3])
        elif name == 'colormem':
            if v:
                kw.update(calib_colormem_zbounds=[0.3, 0.5], calib_colormem_colormodes=[1, 2, 3], calib_colormem_sigint=[0.05, 0.03, 0.03])
        elif name == 'bands':
            pass
        elif name not in vars(Configuration):
            continue
        else:
            kw[name] = v
    if nmag == 4:
        for n in ('calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes'):
            kw[n] = [0.05] * 3
    # many more settings, with values of no particular form
    if d.choose(2):
        rng = d.sub_rng()
        for n in FLOATS:
            if rng.uniform() < 0.3:
                kw[n] = float(rng.uniform(0.01, 5.0))
        for n in INTS:
            if rng.uniform() < 0.3:
                kw[n] = int(rng.randint(1, 50))
        for n in BOOLS:
            if rng.uniform() < 0.4:
                kw[n] = bool(rng.randint(2))
        for n in FILES:
            if rng.uniform() < 0.4:
                kw[n] = 'some/%s_%d.fit' % (n, rng.randint(100))
        if rng.uniform() < 0.4:
            kw['zrange'] = [float(rng.uniform(0.05, 0.2)), float(rng.uniform(0.3, 0.9))]
        if rng.uniform() < 0.3:
            kw['redmagic_zrange'] = [float(rng.uniform(0.05, 0.2)), float(rng.uniform(0.3, 0.9))]
        if rng.uniform() < 0.3:
            kw['wcen_cal_zrange'] = [float(rng.uniform(0.05, 0.2)), float(rng.uniform(0.3, 0.9))]
        if rng.uniform() < 0.3:
            kw['consolidate_lambda_cuts'] = [float(x) for x in rng.uniform(1, 50, size=rng.randint(0, 4))]
        for n in ('calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes'):
            if rng.uniform() < 0.3:
                kw[n] = [float(x) for x in rng.uniform(0.01, 0.9, size=nmag - 1)]
        kw = {k: v for k, v in kw.items() if k in vars(Configuration)}
    flat = d.choose(5) == 4
    truth, zspec = d.choose(2), d.choose(2)
    area = d.pick((25.5, 1180.25))
    mode = d.pick(('SDSS', 'DES', 'LSST'))
    gdir = os.path.join(root, 'g%d%s' % (i, mode))
    if flat:
        gal = minicfg.galfile(gdir, nmag=nmag, area=area, has_truth=truth, has_zspec=zspec, mode=mode)
    else:
        gal = minicfg.galtable(gdir, nside=32, pix=(7, 8), nmag=nmag, area=area, has_truth=truth, has_zspec=zspec, mode=mode)
    if truth and d.choose(2):
        kw['has_truth'] = True
    if zspec and d.choose(2):
        kw['centering_use_zspec'] = True
    if kw.get('area') is not None and d.choose(2):
        kw['area'] = area + 0.25
    if kw.get('area') is None:
        kw.pop('area', None)
        if 'hpix' in kw:
            kw['area'] = 12.0
    want = {k: v for k, v in kw.items() if v is not None}
    if d.choose(4) == 3:
        kw['wcenfile'], w = wcenfile(d, root, i)
        want.update(w)
        want['wcenfile'] = kw['wcenfile']
    fn = minicfg.write(os.path.join(root, 'c%d' % i, 'conf%d.yml' % i), gal, outpath=os.path.join(root, 'out%d' % i), **kw)
    y = yaml.safe_load(open(fn))
    # what follows from the galaxy file, and from other settings
    want.update(nmag=nmag, limmag_ref=22.0, zeropoint=22.5, galfile_nside=0 if flat else 32, galfile_pixelized=not flat,
                bands=list(BANDS[nmag]), ref_ind=BANDS[nmag].index(y['refmag']), survey_mode=('SDSS', 'DES', 'LSST').index(mode),
                galfile_has_truth=truth, galfile_has_zspec=zspec)
    want.setdefault('area', area)
    want.setdefault('limmag_catalog', 22.0)
    if y.get('specfile_train') is None:
        want['specfile_train'] = y['specfile']
    if not y.get('redmagic_zrange'):
        want['redmagic_zrange'] = y['zrange']
    return fn, want


BAD = ['unknown', 'typo', 'wronglen', 'vlimlen', 'vlimband', 'annuli', 'maskmode', 'missing', 'zrangelen', 'region', 'nogal', 'redmagiclen', 'colormem',
       'unset', 'truth', 'zspec', 'survey', 'band']
REQUIRED = """chisq_max border percolation_minlambda percolation_maxcen npzbins rsig outbase zrange mask_mode max_maskfrac centerclass
lval_reference zlambda_tol calib_nproc calib_run_nproc likelihoods_r0 zscan_zstep wcen_pivot""".split()


def draw_bad(d, root, i):
    """A configuration file that must be refused; returns (file, why)."""
    from redmapper.configuration import Configuration
    fn, kw = draw_config(d, root, i)
    y = yaml.safe_load(open(fn))
    why = d.pick(BAD)
    if why == 'unknown':
        y['no_such_setting'] = 3
    elif why == 'typo':
        n = d.pick(['zrange', 'galfile', 'outbase'] + FLOATS + INTS + BOOLS + FILES)
        n = d.pick((n + 's', n[:-1], n.upper() if n.upper() != n else n + '_', n[::-1], n + '_', '_' + n))
        if n in vars(Configuration) or hasattr(Configuration, n):
            n = 'zrnage'
        y[n] = [0.1, 0.2] if d.choose(2) else 3
        why = 'unknown setting ' + n
    elif why == 'wronglen':
        n = d.pick(('calib_color_nodesizes', 'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes'))
        y[n] = [0.05] * (len(y[n]) + d.pick((-1, 1, 3)))
        why = 'wrong length of ' + n
    elif why == 'vlimlen':
        y['vlim_depthfiles'] = ['a.fit', 'b.fit', 'c.fit']
        y['vlim_bands'] = ['r']
        y['vlim_nsigs'] = [5.0, 5.0, 5.0]
    elif why == 'vlimband':
        y['vlim_depthfiles'] = ['a.fit', 'b.fit']
        y['vlim_bands'] = d.pick((['q', 'r'], ['r', 'q']))
        y['vlim_nsigs'] = [5.0, 5.0]
    elif why == 'annuli':
        y['bkg_local_annuli'] = d.pick(([3.0, 2.0], [2.0, 2.0]))
    elif why == 'maskmode':
        y['maskfile'] = 'mask.fit'
        y['mask_mode'] = 0
    elif why == 'missing':
        y.pop('zrange', None)
    elif why == 'zrangelen':
        y['zrange'] = [0.1, 0.2, 0.3]
    elif why == 'region':
        y.pop('area', None)
        y.pop('depthfile', None)
        y['nside'] = 8
        y['hpix'] = [5]
    elif why == 'nogal':
        y.pop('galfile')
    elif why == 'redmagiclen':
        y['redmagic_names'] = ['a', 'b']
        y['redmagic_n0s'] = [1.0]
        y['redmagic_etas'] = [0.5, 0.5]
        y['redmagic_zmaxes'] = [0.6, 0.6]
        if d.choose(2):
            y['redmagic_n0s'], y['redmagic_zmaxes'] = [1.0, 2.0], [0.5, 0.6, 0.7]
    elif why == 'colormem':
        y['calib_colormem_zbounds'] = [0.2, 0.3, 0.4]
        y['calib_colormem_colormodes'] = [1, 2]
    elif why == 'unset':
        n = d.pick(REQUIRED)
        if n in ('zrange', 'outbase'):
            y.pop(n, None)
        else:
            y[n] = None
        if n == 'wcen_pivot':
            y.pop('wcenfile', None)
        why = 'required setting %s not set' % n
    elif why in ('truth', 'zspec'):
        y['galfile'] = minicfg.galtable(os.path.join(root, 'gb%d' % i), nside=32, pix=(7, 8), nmag=kw['nmag'], has_truth=why != 'truth', has_zspec=why != 'zspec')
        y['has_truth' if why == 'truth' else 'centering_use_zspec'] = True
    elif why == 'survey':
        y['galfile'] = minicfg.galtable(os.path.join(root, 'gb%d' % i), nside=32, pix=(7, 8), nmag=kw['nmag'], mode='NONE', has_truth=1, has_zspec=1)
    elif why == 'band':
        y['refmag'] = 'y'
    open(fn, 'w').write(yaml.dump(y))
    return fn, why


def load_alone(env, fn, n=[0]):
    """Settings seen by a fresh process reading only this file."""
    from redmapper import Configuration
    sim = env.dry(env.root)
    out = {}

    def run():
        out['s'] = snap(Configuration(fn))
    p = sim.spawn('alone', run)
    sim.run()
    return p.exc, out.get('s')


def mutate(d, c):
    """In-place changes a job may make to its settings."""
    k = d.choose(7)
    if k == 0:
        c.d.hpix = [3]
        c.d.nside = 2
        c.d.outbase = 'zzz'
    elif k == 1:
        c.zrange[0] = 0.33
    elif k == 2:
        c.consolidate_lambda_cuts[...] = 77.0
    elif k == 3:
        c.consolidate_vlim_lstars.append(9.0)
        c.bands.append('q')
    elif k == 4:
        c.calib_color_nodesizes[...] = 0.77
        c.calib_colormem_zbounds[...] = 0.11
        c.bkg_local_annuli[...] = [7.0, 8.0]
    elif k == 5:
        c.galfile = 'other.fit'
        c.catfile = 'changed.fit'
        c.cluster_dtype.append(('QQ', 'f4'))
        c.member_dtype.append(('QQ', 'f4'))
    elif k == 6:
        c.vlim_bands.append('r')
        c.redmagic_names.append('x')
        c.hpix = [9, 9]
        c.limmag_catalog = 3.0


def sequence(env):
    """A history of configurations read in one process; each must be as read alone."""
    d = env.d
    from redmapper import Configuration
    n = 2 + d.choose(4)
    files = []
    for i in range(n):
        if d.choose(4, 0.6) == 3:
            files.append(draw_bad(d, env.root, i) + (True,))
        else:
            files.append(draw_config(d, env.root, i) + (False,))
    order = [d.choose(n) for _ in range(n + d.choose(3))] + [d.choose(n)]
    alone = {}
    for i in set(order):
        exc, s = load_alone(env, files[i][0])
        if files[i][2]:
            check(isinstance(exc, Exception), 'accepted', 'an illegal configuration (%s) was accepted' % files[i][1])
        else:
            if exc is not None:
                fail('refused', 'a legal configuration was refused: %s' % tb(exc))
            # the file's own values are what the user gets
            for k, v in files[i][1].items():
                if k == 'area' and v is None:
                    continue
                check(s[k] == norm(np.atleast_1d(v)) if isinstance(s[k], tuple) and s[k][0] == 'arr' else s[k] == norm(v) or v is None, 'value',
                      'setting %s is %r instead of %r' % (k, s[k], v))
        alone[i] = s
    sim = env.sim(preempt=0.0)
    seen = []
    muts = [d.choose(3) for _ in order]

    def run():
        for q, i in enumerate(order):
            try:
                c = Configuration(files[i][0])
            except Exception as e:
                seen.append((i, e, None))
                continue
            seen.append((i, None, snap(c)))
            for _ in range(muts[q]):
                try:
                    mutate(d, c)
                except (ValueError, TypeError, AttributeError, IndexError):
                    pass
    p = sim.spawn('proc', run)
    sim.run()
    must_finish([p], 'process')
    for i, e, s in seen:
        if files[i][2]:
            check(isinstance(e, Exception), 'accepted', 'an illegal configuration (%s) was accepted after others were read' % files[i][1])
        else:
            check(e is None, 'refused', 'a legal configuration was refused after others were read: %s' % (tb(e) if e else ''))
            check(s == alone[i], 'leak', 'settings depend on configurations read earlier in the process: %s' % diff(s, alone[i]))
    env.key = (n, len(order))


def yamlio(env):
    """Written to a file and read back by another job, with faults during the write."""
    d = env.d
    from redmapper import Configuration
    fn, kw = draw_config(d, env.root, 0)
    out = os.path.join(env.root, 'c0', 'handover.yml')
    prev = d.choose(3)
    if prev:
        f2, kw2 = draw_config(d, env.root, 1)
        import shutil
        shutil.copy(f2, out)
    want = {}
    changes = [d.choose(2) for _ in range(6)]

    def writer(rec):
        def run():
            c = Configuration(fn)
            if changes[0]:
                c.outbase = 'changed'
            if changes[1]:
                c.zrange = [0.15, 0.55]
            if changes[2]:
                c.percolation_minlambda = np.float64(4.5123456789)
                c.calib_nproc = np.int32(3)
            if changes[3]:
                c.catfile = None
                c.seedfile = 'x/y.fit'
            if changes[4]:
                c.hpix = []
                c.nside = 0
                c.border = 0.0
            if changes[5] and 'wcenfile' not in kw:
                c.lnw_sat_mean = np.float64(0.123456789012)
            # settings a reader of the file derives anew from outbase, hpix and nside
            c.d.outbase, c.d.hpix, c.d.nside = c.outbase, c.hpix, c.nside
            rec['s'] = snap(c)
            c.output_yaml(out)
        return run
    s0 = env.dry(env.root)
    ref = {}
    # count the operations on a scratch target
    keep = out
    out = os.path.join(env.root, 'c0', 'dry.yml')
    p = s0.spawn('w', writer(ref))
    s0.run()
    must_finish([p], 'writer')
    out = keep
    counters = dict(s0.counters)
    old = None
    if prev:
        exc, old = load_alone(env, out)
    sim = env.sim(preempt=0.0)
    sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio'), classes=('pub', 'w', 'any')))
    w = {}
    p = sim.spawn('w', writer(w))
    sim.run()
    hit = [h for h in sim.fault_hits]
    if p.ok:
        exc, s = load_alone(env, out)
        check(exc is None, 'reread', 'a written configuration cannot be read back: %s' % (tb(exc) if exc else ''))
        check(s == w['s'], 'handover', 'settings change when handed over by file: %s' % diff(s, w['s']))
        return
    check(hit, 'error', 'writing a configuration failed: %s' % (tb(p.exc) if p.exc else ''))
    if not x_exists(out):
        check(not prev, 'lost', 'an interrupted write removed the existing configuration file')
        return
    exc, s = load_alone(env, out)
    check(exc is None, 'torn', 'an interrupted write left a configuration file that cannot be read: %s' % (tb(exc)[-400:] if exc else ''))
    check((old is not None and s == old) or ('s' in w and s == w['s']), 'torn', 'an interrupted write left a configuration with other settings: %s' % diff(s, old or w.get('s', {})))


LOG = []


class FakeStage(object):
    """Records its settings, alters them, and leaves a tiny catalog."""
    filetype = None

    def __init__(self, config, **kw):
        with quiet():
            self.entry = snap(config)
        LOG.append((self.filetype, self.entry, current_proc().name))
        self.config = config
        self._filename = None
        self.cat = None

    @property
    def filename(self):
        return self.config.redmapper_filename(self.filetype + '_catalog')

    def run(self, **kw):
        from redmapper import Catalog
        with quiet():
            ent = snap(self.config)
        LOG.append((self.filetype + '-run', ent, current_proc().name))
        current_proc().sim.point('task', 'stage', ('task',))
        a = np.zeros(2, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('scaleval', 'f4'),
                               ('maskfrac', 'f4'), ('lnlike', 'f4')])
        import hpgeom as hpg
        a['mem_match_id'] = [1, 2]
        a['ra'], a['dec'] = hpg.pixel_to_angle(self.config.d.nside, int(self.config.d.hpix[0]), nest=False)
        a['lambda'] = 50.0
        a['scaleval'] = 1.0
        a['lnlike'] = [1.0 * self.config.d.hpix[0], 3.5]
        self.cat = Catalog(a)

    def output(self, savemembers=True, withversion=True, clobber=False):
        if savemembers:
            self.cat.to_fits_file(self.filename[:-4] + '_members.fit', clobber=clobber)
        self.cat.to_fits_file(self.filename, clobber=clobber)


def stages():
    return {n: type(n, (FakeStage,), {'filetype': t}) for n, t in
            (('RunFirstPass', 'firstpass'), ('RunLikelihoods', 'like'), ('RunPercolation', 'final'))}


def prepare(ctx):
    import redmapper.redmapper_run as rr
    for n, c in stages().items():
        if not hasattr(rr, n):
            fail('interface', 'redmapper_run has no %s' % n)
        setattr(rr, n, c)


def workers(env):
    """Settings seen by the workers of a multiprocess run."""
    d = env.d
    from redmapper import Configuration, RedmapperRun
    del LOG[:]
    npix = 2 + d.choose(5)
    pix = sorted(d.sub_rng().choice(3072, size=npix, replace=False).tolist()) if d.choose(2) else list(range(npix))
    gal = minicfg.galtable(os.path.join(env.root, 'g'), nside=16, pix=pix)
    nproc = 1 + d.choose(4)
    perc = d.choose(3) == 1
    kw = dict(seedfile='orig_seed.fit', catfile='orig_cat.fit', zredfile='orig_zreds_master_table.fit', border=1.25, bkgfile='orig_bkg.fit',
              calib_run_nproc=nproc, calib_run_min_nside=16)
    if nproc == 1:
        kw.update(nside=16, hpix=pix, area=3.0)
    fn = minicfg.write(os.path.join(env.root, 'c', 'c.yml'), gal, outpath=os.path.join(env.root, 'out'), **kw)
    seed = d.pick((None, 'given_seed.fit'))
    check_on = d.choose(2) == 1
    sim = env.sim()
    res = {}
    if d.choose(3) == 1:
        sim.arm([{'kind': 'eio', 'cls': 'pub', 'nth': d.choose(3 * npix)}])

    base = d.pick((None, 'run_rand', 'zz_iter1'))

    def run():
        c = Configuration(fn)
        if base is not None:
            c.d.outbase = base
        with quiet():
            res['before'] = snap(c)
        try:
            RedmapperRun(c).run(seedfile=seed, check=check_on, percolation_only=perc)
        except OSError as e:
            if not sim.fault_hits:
                raise
            res['err'] = e
        with quiet():
            res['after'] = snap(c)
    p = sim.spawn('run', run)
    sim.run()
    must_finish([p], 'run')
    b, a = dict(res['before']), dict(res['after'])
    bd, ad = b.pop('d'), a.pop('d')
    check(a == b, 'caller', 'the run changed the settings of its caller: %s' % diff(a, b))
    if 'err' not in res:
        check(ad == bd, 'caller', 'the run changed the region or output name of its caller: %s instead of %s' % (ad, bd))
    else:
        check(ad['hpix'] == bd['hpix'] and ad['outbase'] == bd['outbase'], 'caller', 'a failed run changed the region or name of its caller')
    seen = {}
    for kind, s, name in LOG:
        hp = s['d']['hpix'][1]
        check(len(hp) == 1 and int(hp[0]) in pix, 'region', 'a worker ran on region %s' % (hp,))
        check(s['d']['nside'] == 16.0, 'region', 'a worker ran at nside %s' % s['d']['nside'])
        hp = int(hp[0])
        check(s['d']['outbase'].startswith((base or 'run') + '_') and ('%05d' % hp) in s['d']['outbase'], 'name',
              'pixel %d runs under the name %s' % (hp, s['d']['outbase']))
        if kind.endswith('-run'):
            check((hp, kind) not in seen or not check_on, 'twice', 'pixel %d ran stage %s twice' % (hp, kind))
        seen[(hp, kind)] = s
        # each stage gets the caller's settings, apart from region, name and input catalog
        x = dict(s)
        x.pop('d')
        y = dict(b)
        if seed is not None:
            y['seedfile'] = seed
        cat = x.pop('catfile')
        orig = y.pop('catfile')
        check(x == y, 'leak', 'pixel %d runs with settings other than the caller\'s: %s' % (hp, diff(x, y)))
        if perc:
            check(cat == orig, 'leak', 'pixel %d percolates %s, the caller asked for %s' % (hp, cat, orig))
        elif not kind.startswith('firstpass'):
            prev = {'like': 'firstpass', 'final': 'like'}[kind.split('-')[0]]
            own = '%s_%s_catalog.fit' % (s['d']['outbase'], prev)
            check(os.path.basename(cat) == own, 'leak', 'the %s stage of pixel %d reads %s instead of %s' % (kind, hp, cat, own))
    env.key = (npix, nproc, perc)


def copies(env):
    """copy(): per-run settings of copies are independent."""
    d = env.d
    from redmapper import Configuration
    fn, kw = draw_config(d, env.root, 0)
    sim = env.sim(preempt=0.0)
    bad = []

    def run():
        c = Configuration(fn)
        objs = [c, c.copy()]
        want = [dict(hpix=norm(c.d.hpix), nside=norm(c.d.nside), outbase=c.d.outbase) for _ in objs]
        for k in range(6):
            i = d.choose(len(objs))
            op = d.choose(4)
            if op == 0:
                objs.append(objs[i].copy())
                want.append(dict(want[i]))
            elif op == 1:
                objs[i].d.hpix = [k]
                want[i]['hpix'] = norm([k])
            elif op == 2:
                objs[i].d.nside = 2 ** (k + 1)
                want[i]['nside'] = norm(2 ** (k + 1))
            else:
                objs[i].d.outbase = 'n%d' % k
                want[i]['outbase'] = 'n%d' % k
        for o, w in zip(objs, want):
            g = dict(hpix=norm(o.d.hpix), nside=norm(o.d.nside), outbase=o.d.outbase)
            if g != w:
                bad.append((g, w))
    p = sim.spawn('p', run)
    sim.run()
    must_finish([p])
    check(not bad, 'copies', 'settings of one copy show up in another: %s' % (bad[:1],))


SCENARIOS = {'sequence': (sequence, (900, 20000)), 'yamlio': (yamlio, (900, 20000)), 'workers': (workers, (500, 10000)), 'copies': (copies, (200, 3000))}

LEVEL_NOTE = 'Seeded search over generated configuration files and histories of reads, in-place changes, refused files, copies, faults while writing, and worker schedules; settings compared with those of a fresh process. Sampled.'
