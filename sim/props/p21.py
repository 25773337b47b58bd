"""P21: masks and depth maps: faithful conversion, and the same survey for every job."""
import os
import time
import types

import numpy as np
import fitsio
import healsparse
import hpgeom as hpg

from ..common import check, fail, tb, must_finish, quiet, CTX
from .. import minicfg
from .p18 import inside

REAL = ['redmapper.mask.HPMask', 'redmapper.mask.convert_maskfile_to_healsparse', 'redmapper.depthmap.DepthMap', 'redmapper.depthmap.convert_depthfile_to_healsparse',
        'redmapper.utilities.get_healsparse_subpix_indices', 'redmapper.Configuration', 'healsparse', 'CFITSIO']
STUBS = []
ASSUMPTIONS = ['the mask galaxies are not needed for positions (include_maskgals=False)']
UNSEEN = hpg.UNSEEN


def lay(d, root):
    """An old-format mask and depth file; the model is {nested pixel: values}."""
    rng = d.sub_rng()
    sparse = d.pick((64, 128, 256, 32))
    ra0, dec0 = d.pick(((140.0, 65.0), (0.2, 0.3), (359.9, -45.0), (70.0, 89.2), (10.0, -89.8)))
    rad = d.pick((4.0, 2.0, 9.0)) if sparse < 256 else 3.0
    allpix = hpg.query_circle(sparse, ra0, dec0, rad, nest=True)
    pix = rng.choice(allpix, max(2, int(allpix.size * d.pick((0.9, 0.4, 1.0)))), replace=False)
    os.makedirs(root, exist_ok=True)
    w = dict(sparse=sparse, ra0=ra0, dec0=dec0, pix=np.sort(pix))
    for kind in ('mask', 'depth'):
        nest = d.choose(2) == 1
        ff = np.where(rng.uniform(size=pix.size) < 0.4, 1.0, rng.uniform(0.02, 1.0, pix.size)).astype('f4')
        cols = [('hpix', d.pick(('i8', 'i4'))), ('fracgood', 'f4')]
        if kind == 'depth':
            cols += [('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4')]
            if d.choose(2):
                cols = [cols[0]] + cols[:0:-1]
        if d.choose(3) == 1:
            cols = cols[1:] + cols[:1]
        a = np.zeros(pix.size, dtype=cols)
        a['hpix'] = pix if nest else hpg.nest_to_ring(sparse, pix)
        a['fracgood'] = ff
        if kind == 'depth':
            a['exptime'] = rng.uniform(50., 150., pix.size)
            a['limmag'] = rng.uniform(20., 24., pix.size)
            a['m50'] = rng.uniform(19., 23., pix.size)
        h = dict(NSIDE=sparse, NEST=nest if d.choose(2) else int(nest))
        if kind == 'depth':
            w['hdr'] = dict(NSIG=d.pick((10.0, 5.0)), ZP=d.pick((22.5, 30.0)), NBAND=d.pick((1, 5)), W=d.pick((0.0, 10.0, -1.0)), EFF=d.pick((1.0, 0.7)))
            h.update(w['hdr'])
        fn = os.path.join(root, 'old_%s.fit' % kind)
        fitsio.write(fn, a, header=h, clobber=True)
        w['old_' + kind] = fn
        w[kind] = dict(zip(pix.tolist(), a))
    return w


def convert(w, kind, out, ncov, clobber, late=0.0):
    def run():
        from redmapper.mask import convert_maskfile_to_healsparse
        from redmapper.depthmap import convert_depthfile_to_healsparse
        if late:
            time.sleep(late)
        (convert_maskfile_to_healsparse if kind == 'mask' else convert_depthfile_to_healsparse)(w['old_' + kind], out, ncov, clobber=clobber)
    return run


def complete(w, kind, fn, ncov, what):
    """The map holds exactly the input."""
    m = healsparse.HealSparseMap.read(fn)
    check(m.nside_sparse == w['sparse'] and m.nside_coverage == ncov, 'resolution', '%s: resolution %d/%d instead of %d/%d' % (what, m.nside_sparse, m.nside_coverage, w['sparse'], ncov))
    p = np.sort(m.valid_pixels)
    check(np.array_equal(p, w['pix']), 'pixels', '%s holds %d pixels instead of %d' % (what, p.size, w['pix'].size))
    v = m.get_values_pix(p)
    want = np.array([w[kind][x] for x in p.tolist()])
    if kind == 'mask':
        check(np.array_equal(v, want['fracgood']), 'values', '%s: good fractions differ from the input' % what)
    else:
        for n in ('fracgood', 'exptime', 'limmag', 'm50'):
            check(np.array_equal(v[n], want[n]), 'values', '%s: %s differs from the input' % (what, n))


def region(d, w):
    if d.choose(4) == 1:
        return {}, None
    nside = d.pick((8, 16, 32, 64, 4, 2))
    ra, dec = hpg.pixel_to_angle(w['sparse'], w['pix'], nest=True)
    some = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=False))
    rng = d.sub_rng()
    many = d.choose(3) == 1
    hp = rng.choice(some, min(some.size, 2 + d.choose(4)) if many else 1, replace=False).tolist()
    border = 0.0 if many else d.pick((0.0, 0.5, 1.5, 0.1, 3.0))
    return dict(nside=nside, hpix=hp if many or d.choose(2) else hp[0], border=border), (nside, hp, border)


def points(d, w):
    rng = d.sub_rng()
    n = min(400, w['pix'].size)
    fine = w['sparse'] * 16
    sub = rng.choice(w['pix'], n, replace=False) * 256 + rng.randint(0, 256, n)
    ra, dec = hpg.pixel_to_angle(fine, sub, nest=True)
    r3 = (w['ra0'] + rng.uniform(-9, 9, 40)) % 360.0
    d3 = np.clip(w['dec0'] + rng.uniform(-9, 9, 40), -89.999, 89.999)
    return np.concatenate([ra, r3]), np.concatenate([dec, d3])


def galaxies(d, w):
    """Mask galaxies around places of the survey, its rim, and away from it."""
    rng = d.sub_rng()
    out = []
    for k in range(3):
        n = d.pick((30, 4, 200))
        a = np.zeros(n, dtype=[(c, 'f4') for c in ('x', 'y', 'limmag', 'exptime', 'm50', 'eff', 'w', 'zp', 'nsig')] + [('mark', bool)])
        a['x'], a['y'] = rng.uniform(-1.5, 1.5, n), rng.uniform(-1.5, 1.5, n)
        ra, dec = hpg.pixel_to_angle(w['sparse'], w['pix'][rng.randint(w['pix'].size)], nest=True)
        if d.choose(6) == 1:
            dec = -dec
        out.append(dict(a=a, ra=float(ra), dec=float(dec), scale=d.pick((20.0, 5.0, 60.0))))
    return out


def place(mg):
    return mg['ra'] + (mg['a']['x'] / mg['scale']) / np.cos(mg['dec'] * np.pi / 180.), mg['dec'] + mg['a']['y'] / mg['scale']


def check_galaxies(w, r, reg, what):
    for i, mg in enumerate(w['mg']):
        ra, dec = place(mg)
        sky = np.abs(dec) < 90.0
        cra, cdec = ra % 360.0, np.clip(dec, -89.999, 89.999)
        # (not judged: positions so near a pixel's edge that rounding may decide)
        e = 1e-4
        px = [hpg.angle_to_pixel(w['sparse'], (cra + x) % 360.0, cdec + y, nest=True) for x, y in ((0, 0), (e, e), (e, -e), (-e, e), (-e, -e))]
        if any((p[sky] != px[0][sky]).any() for p in px) or (np.abs(np.abs(dec) - 90.0) < 2e-3).any():
            continue
        if 'marks' in r:
            f = model(w, 'mask', cra, cdec)
            ins = inside(reg, cra, cdec)
            bad = (r['marks'][i] & ((ins & (f <= 0)) | ~sky)) | (~r['marks'][i] & ins & sky & (f >= 1.0))
            check(not bad.any(), 'marks', '%s: %d mask galaxies around a cluster are marked wrongly' % (what, bad.sum()))
        if 'gals' in r:
            g = r['gals'][i]
            if not (inside(reg, cra, cdec) | ~sky).all():
                continue
            want = model(w, 'depth', cra, cdec)[:3]
            want[:, ~sky] = UNSEEN
            ok = want[0] > 0
            for k, (lab, none) in enumerate((('limmag', 1.0), ('exptime', 1000.0), ('m50', 0.0))):
                x = want[k].astype('f4')
                if not ok.any():
                    x[:] = none
                else:
                    x[~ok] = (np.median if ok.sum() >= 3 else np.mean)(x[ok])
                check(np.allclose(g[lab], x, rtol=1e-5), 'maskdepth', '%s: %s of the mask galaxies around a cluster differs from the map (%d of %d on the map)' % (what, lab, ok.sum(), ok.size))
            h = w['hdr']
            check(np.isclose(g['zp'], h['ZP']) and np.isclose(g['nsig'], h['NSIG']) and np.allclose(g['w'], h['W']), 'header', '%s: survey values of the mask galaxies' % what)


def model(w, kind, ra, dec):
    px = hpg.angle_to_pixel(w['sparse'], ra, dec, nest=True).tolist()
    if kind == 'mask':
        return np.array([w['mask'][p]['fracgood'] if p in w['mask'] else 0.0 for p in px])
    out = np.full((4, len(px)), UNSEEN)
    for i, p in enumerate(px):
        if p in w['depth']:
            v = w['depth'][p]
            out[:, i] = v['limmag'], v['exptime'], v['m50'], v['fracgood']
    return out


def job(fn, w, probe, got, name, seed, kinds, late=0.0):
    def run():
        from redmapper import Configuration, Catalog
        from redmapper.mask import get_mask
        from redmapper.depthmap import DepthMap
        if late:
            time.sleep(late)
        c = Configuration(fn)
        r = {}
        ra, dec = probe
        out = (np.array([10.0, 20.0, 300.0]), np.array([90.5, -91.0, 90.0001]))
        if 'mask' in kinds:
            m = get_mask(c, include_maskgals=False)
            np.random.seed(seed)
            with quiet():
                r['decide'] = m.compute_radmask(ra, dec)
                r['often'] = np.mean([m.compute_radmask(ra, dec) for _ in range(40)], axis=0)
                r['off'] = m.compute_radmask(*out)
                r['marks'] = []
                for mg in w['mg']:
                    m.maskgals = Catalog(mg['a'].copy())
                    m.set_radmask(types.SimpleNamespace(ra=mg['ra'], dec=mg['dec'], mpc_scale=mg['scale']))
                    r['marks'].append(np.array(m.maskgals.mark))
        if 'depth' in kinds:
            m = DepthMap(c)
            with quiet():
                r['depth'] = [np.array(x) for x in m.get_depth_values(ra, dec)]
                r['frac'] = np.array(m.get_fracgoods(ra, dec))
                r['doff'] = [np.array(x) for x in m.get_depth_values(*out)] + [np.array(m.get_fracgoods(*out))]
                r['hdr'] = (m.nsig, m.zp, m.nband, m.w, m.eff)
                r['gals'] = []
                for mg in w['mg']:
                    g = Catalog(mg['a'].copy())
                    m.calc_maskdepth(g, mg['ra'], mg['dec'], mg['scale'])
                    r['gals'].append({k: np.array(getattr(g, k)) for k in ('limmag', 'exptime', 'm50', 'w')} | {'zp': float(g.zp[0]), 'nsig': float(g.nsig[0])})
                reg = got['reg'][name]
                if m.w >= 0 and (reg is None or (reg[2] == 0.0 and reg[0] <= w['sparse'])):
                    px = w['pix']
                    if reg is not None:
                        x, y = hpg.pixel_to_angle(w['sparse'], px, nest=True)
                        px = px[np.isin(hpg.angle_to_pixel(reg[0], x, y, nest=False), reg[1])]
                    if px.size > 1:
                        want = sum(float(w['depth'][p]['fracgood']) for p in px.tolist()) * hpg.nside_to_pixel_area(w['sparse'], degrees=True)
                        r['area'] = (float(m.calc_areas(np.array([12.0]))[0]), want)
        got[name] = r
    return run


def check_job(w, r, probe, reg, what):
    ra, dec = probe
    check_galaxies(w, r, reg, what)
    ins = inside(reg, ra, dec)
    if 'decide' in r:
        f = model(w, 'mask', ra, dec)
        for x, lab in ((r['decide'], 'decision'), (r['often'], 'rate')):
            bad = ins & (f >= 1.0) & (x < 1)
            check(not bad.any(), 'mask', '%s: %d positions inside the footprint are taken as masked' % (what, bad.sum()))
            bad = ins & (f <= 0.0) & (x > 0)
            check(not bad.any(), 'mask', '%s: %d positions outside the footprint are taken as good' % (what, bad.sum()))
        part = ins & (f > 0) & (f < 1)
        if part.sum() > 10:
            dev = (r['often'][part] - f[part]).sum()
            sig = np.sqrt((f[part] * (1 - f[part]) / 40.).sum())
            check(abs(dev) < 7 * sig + 1e-3, 'mask', '%s: partly covered positions are accepted at another rate than their good fraction' % what)
        check(not r['off'].any(), 'mask', '%s: a position beyond the poles is taken as good' % what)
    if 'depth' in r:
        want = model(w, 'depth', ra, dec)
        got = r['depth'] + [r['frac']]
        seen = want[3] > 0
        for g, x, lab in zip(got, want, ('limiting magnitude', 'exposure time', 'completeness limit', 'good fraction')):
            bad = ins & seen & (np.abs(g - x) > 1e-6 * np.abs(x))
            check(not bad.any(), 'depth', '%s: %s at %s is %s instead of %s' % (what, lab, list(zip(ra[bad][:2], dec[bad][:2])), g[bad][:2], x[bad][:2]))
            bad = ins & ~seen & (g > 0)
            check(not bad.any(), 'depth', '%s: %s outside of the footprint is %s' % (what, lab, g[bad][:2]))
        check(not any((x > 0).any() for x in r['doff']), 'depth', '%s: depth beyond the poles' % what)
        h = w['hdr']
        check(np.allclose(r['hdr'], [h[k] for k in ('NSIG', 'ZP', 'NBAND', 'W', 'EFF')]), 'header', '%s: survey values %s instead of %s' % (what, r['hdr'], h))
        if 'area' in r:
            check(np.isclose(r['area'][0], r['area'][1], rtol=1e-4), 'area', '%s: area %.4f instead of %.4f' % (what, r['area'][0], r['area'][1]))



def survey_jobs(env):
    """Maps are converted (and the conversion disturbed), and jobs for parts of the sky read them, some of them too early."""
    d = env.d
    w = lay(d, os.path.join(env.root, 'in'))
    gal = minicfg.galtable(os.path.join(env.root, 'in'), nside=8, pix=(7, 9), ngals=3)
    probe = points(d, w)
    w['mg'] = galaxies(d, w)
    ncov = dict(mask=d.pick((32, 16, 8)), depth=d.pick((32, 8, 16)))
    ncov = {k: min(v, w['sparse']) for k, v in ncov.items()}
    out = {k: os.path.join(env.root, 'maps', k + d.pick(('.hs', '.fit'))) for k in ('mask', 'depth')}
    os.makedirs(os.path.join(env.root, 'maps'))
    old = {}
    seed = d.choose(10000)
    nj = [0]

    def cfg(**kw):
        nj[0] += 1
        return minicfg.write(os.path.join(env.root, 'cfg', 'c%d.yml' % nj[0]), gal, outpath=env.root, maskfile=out['mask'], mask_mode=3, depthfile=out['depth'], **kw)

    def spawn_jobs(sim, n, early):
        got = {'reg': {}}
        ps = []
        for k in range(n):
            kw, reg = region(d, w)
            nm = 'j%d' % nj[0]
            got['reg'][nm] = reg
            kinds = (('mask', 'depth'), ('depth',), ('mask',))[d.choose(3)]
            ps.append(sim.spawn(nm, job(cfg(**kw), w, probe, got, nm, seed, kinds, late=d.pick((0.0, 0.01, 0.03, 0.1)) if early else 0.0)))
        return ps, got

    def judge(sim, ps, got, strict, what):
        for p in ps:
            if p.ok:
                check_job(w, got[p.name], probe, got['reg'][p.name], '%s %s (region %s)' % (what, p.name, got['reg'][p.name]))
            elif p.exc is not None and strict and not [h for h in sim.fault_hits if h[0] != 'stall']:
                fail('error', '%s %s raised although the maps are there: %s' % (what, p.name, tb(p.exc)))
    # conversions, with jobs that look before they are done
    for rnd in range(1 + d.choose(3)):
        sim = env.sim()
        cl = rnd > 0 or d.choose(2) == 1
        conv = []
        for k in ('mask', 'depth'):
            if k in old and d.choose(2):
                continue
            conv.append((k, sim.spawn('conv_' + k, convert(w, k, out[k], ncov[k], cl, d.pick((0.0, 0.01))))))
        if rnd == 0 or d.choose(2):
            sim.arm(env.plan({'any': 40, 'w': 12, 'pub': 4, 'fop': 12, 'r': 8}, ('crash', 'crash', 'enospc', 'eio', 'eio_r', 'stall'), classes=('pub', 'w', 'any', 'fop')))
        ps, got = spawn_jobs(sim, d.choose(3), True)
        sim.run()
        judge(sim, ps, got, False, 'early job')
        hard = [h for h in sim.fault_hits if h[0] != 'stall']
        for k, p in conv:
            if p.ok:
                complete(w, k, out[k], ncov[k], 'converted %s' % k)
                old[k] = open(out[k], 'rb').read()
            else:
                check(hard, 'error', 'conversion raised: %s' % (tb(p.exc) if p.exc else p))
                old.pop(k, None)
    # whatever happened: once more, with overwriting
    sim = env.sim(preempt=0.0)
    ps = [sim.spawn('again_' + k, convert(w, k, out[k], ncov[k], True)) for k in ('mask', 'depth')]
    sim.run()
    must_finish(ps, 'repeated conversion')
    for k in ('mask', 'depth'):
        complete(w, k, out[k], ncov[k], 'converted %s' % k)
        old[k] = open(out[k], 'rb').read()
    # without overwriting an existing map is kept
    sim = env.sim(preempt=0.0)
    k = d.pick(('mask', 'depth'))
    w2 = dict(w, **{'old_' + k: w['old_' + k]})
    p = sim.spawn('keep', convert(w2, k, out[k], d.pick((8, 16)), False))
    sim.run()
    check(open(out[k], 'rb').read() == old[k], 'overwritten', 'an existing map was overwritten although that was not asked for')
    check(p.exc is not None, 'overwritten', 'a conversion that did not take place was reported as done')
    # jobs over parts of the sky
    sim = env.sim()
    if d.choose(2):
        sim.arm(env.plan({'r': 30, 'any': 60}, ('eio_r', 'stall', 'eio_r'), classes=('any',)))
    ps, got = spawn_jobs(sim, 2 + d.choose(4), False)
    sim.run()
    judge(sim, ps, got, True, 'job')
    for k in ('mask', 'depth'):
        check(open(out[k], 'rb').read() == old[k], 'altered', 'reading altered the %s' % k)
    # the same draws give the same decisions, whatever part of the map was read
    full = [p.name for p in ps if p.ok and 'decide' in got[p.name]]
    for a in full:
        for b in full:
            if a < b:
                both = inside(got['reg'][a], *probe) & inside(got['reg'][b], *probe)
                check(np.array_equal(got[a]['decide'][both], got[b]['decide'][both]), 'draws', 'jobs with the same draws decide differently about %d shared positions' % both.sum())
    env.key = ('maps', w['sparse'], ncov['mask'], ncov['depth'], sim.log_hash())


SCENARIOS = {'maps': (survey_jobs, (700, 14000))}
LEVEL_NOTE = 'Seeded search over footprints, resolutions, orderings, regions, borders, job timings, kills and I/O errors with the real conversion and map code; values compared position by position with the input. Sampled.'
