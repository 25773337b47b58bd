"""P18: volume-limit masks built on demand by concurrent jobs."""
import os
import time

import numpy as np
import fitsio
import healsparse
import hpgeom as hpg
import yaml

from ..common import check, fail, tb, must_finish, quiet, CTX, rows_equal, diff_rows
from .. import survey, minicfg

REAL = ['redmapper.volumelimit.VolumeLimitMask', 'redmapper.utilities.get_healsparse_subpix_indices', 'redmapper.Configuration', 'healsparse', 'CFITSIO']
STUBS = ['the red-sequence model is loaded once and shared between runs']
ASSUMPTIONS = ['jobs that share a mask file have the same depth maps and the same luminosity cut']
NCOV = (32, 16, 64)


def prepare(ctx):
    import redmapper.volumelimit as vl
    from redmapper import RedSequenceColorPar
    survey.prepare(ctx)
    orig = RedSequenceColorPar
    par = ctx.data['survey']['parfile']
    ctx.data['model'] = orig(par, fine=True)
    if not hasattr(vl.RedSequenceColorPar, '_orig'):
        vl.RedSequenceColorPar = survey.cached(vl.RedSequenceColorPar, 'RedSequenceColorPar')


def depth(d, fn, ncov, sparse, pix, second=False):
    """A depth map over part of the sparse pixels."""
    rng = d.sub_rng()
    dt = [('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4'), ('fracgood', 'f4')]
    m = healsparse.HealSparseMap.make_empty(ncov, sparse, dtype=dt, primary='fracgood')
    v = np.zeros(pix.size, dtype=dt)
    v['exptime'] = rng.uniform(50.0, 150.0, size=pix.size)
    v['limmag'] = rng.uniform(16.5, 24.0, size=pix.size)
    v['m50'] = rng.uniform(15.5, 22.5, size=pix.size)
    v['fracgood'] = rng.uniform(0.05, 1.0, size=pix.size)
    if pix.size:
        m.update_values_pix(pix, v)
    m.metadata = {'NSIG': 10.0 if not second else 5.0, 'ZP': 22.5, 'ZP1': 22.5, 'B': 0.0, 'EFF': 1.0}
    m.write(fn, clobber=True)
    return v


def lay(d, root):
    ncov = d.pick(NCOV)
    sparse = ncov * d.pick((4, 8, 2))
    rng = d.sub_rng()
    ra0, dec0 = d.pick(((140.0, 65.0), (0.2, 0.3), (359.9, -45.0), (70.0, 88.5)))
    allpix = hpg.query_circle(sparse, ra0, dec0, d.pick((4.0, 2.0, 7.0)), nest=True)
    pix = np.sort(rng.choice(allpix, max(3, int(allpix.size * d.pick((0.9, 0.4, 1.0)))), replace=False))
    os.makedirs(root, exist_ok=True)
    w = dict(ncov=ncov, sparse=sparse, pix=pix, ra0=ra0, dec0=dec0, geometry=d.choose(5) == 1, lstar=d.pick((0.2, 0.5, 1.0, 0.25)))
    y = dict(zrange=d.pick(([0.1, 0.6], [0.05, 0.3], [0.2, 0.45])), depthfile=os.path.join(root, 'depth.hs'), maskfile=None, mask_mode=0,
             vlim_depthfiles=[], vlim_bands=[], vlim_nsigs=[])
    w['d1'] = depth(d, y['depthfile'], ncov, sparse, pix)
    w['extra'] = []
    for k in range(d.pick((0, 1, 2))):
        fn = os.path.join(root, 'extra%d.hs' % k)
        p2 = np.sort(rng.choice(allpix, max(3, int(allpix.size * d.pick((1.0, 0.8)))), replace=False)) if d.choose(2) else pix
        v = depth(d, fn, ncov, sparse, p2, second=True)
        band = d.pick(('r', 'g', 'z'))
        nsig = d.pick((5.0, 3.0))
        y['vlim_depthfiles'].append(fn)
        y['vlim_bands'].append(band)
        y['vlim_nsigs'].append(nsig)
        w['extra'].append((p2, v, band, nsig))
    if w['geometry']:
        y['mask_mode'] = 3
        y['maskfile'] = os.path.join(root, 'mask.hs')
        m = healsparse.HealSparseMap.make_empty(ncov, sparse, dtype=np.float32)
        w['good'] = rng.uniform(0.05, 1.0, size=pix.size).astype('f4')
        m.update_values_pix(pix, w['good'])
        m.write(y['maskfile'], clobber=True)
    w['y'] = y
    return w


def expect(w):
    """Limits pixel by pixel: {pixel: (fracgood, zmax)}, and how far off a limit may be by rounding."""
    y = w['y']
    if w['geometry']:
        return dict(zip(w['pix'].tolist(), zip(w['good'].tolist(), [y['zrange'][1]] * w['pix'].size)))
    m = CTX.data['model']
    n = int(np.ceil((y['zrange'][1] - y['zrange'][0]) / 0.001))
    z = np.arange(1, n + 1) * 0.001 + y['zrange'][0]
    lim = m.mstar(z) - 2.5 * np.log10(w['lstar'])

    def zof(curve, depth):
        # the first bin at which the galaxy is fainter than the depth
        return np.array([z[min(np.sum(curve <= x), z.size - 1)] for x in depth])
    zmax = zof(lim, w['d1']['m50'].astype('f8'))
    order = 'ugriz'
    for p2, v, band, nsig in w['extra']:
        curve = lim.copy()
        zi = np.searchsorted(m.z, z, side='right')
        i, r = order.index(band), order.index('i')
        for j in range(min(i, r), max(i, r)):
            curve += (1 if i < r else -1) * (m.c[zi, j] + m.slope[zi, j] * (lim - m.pivotmag[zi]))
        at = dict(zip(p2.tolist(), range(p2.size)))
        t, l = v['exptime'].astype('f8'), v['limmag'].astype('f8')
        f = 10. ** ((l - 22.5) / -2.5)
        noise = np.clip(f ** 2 * t / 25.0 - f, 0.001, None)
        f2 = (nsig ** 2 + np.sqrt(nsig ** 4 + 4 * t * nsig ** 2 * noise)) / (2 * t)
        dep = 22.5 - 2.5 * np.log10(f2)
        dd = np.array([dep[at[p]] if p in at else 0.0 for p in w['pix'].tolist()])
        ez = np.where(dd <= curve.min(), z[0], np.where(dd >= curve.max(), z[-1], z[np.clip(np.searchsorted(curve, dd, side='right'), 0, z.size - 1)]))
        zmax = np.minimum(zmax, ez)
    return dict((p, (float(g), float(x))) for p, g, x in zip(w['pix'].tolist(), w['d1']['fracgood'], zmax) if x > z[0] + 1e-9)


def conf(w, fn, root, **over):
    kw = dict(w['y'])
    kw.update(galfile=w['galfile'], outpath=root, catfile=None, zlambdafile=None, specfile=None, zredfile=None)
    kw.update(over)
    return survey.config(fn, **kw)


def region(d, w):
    """A sky restriction (config values, function telling whether positions are inside)."""
    if d.choose(3) == 1:
        return {}, None
    nside = d.pick((8, 16, 32, 64, 128))
    ra, dec = hpg.pixel_to_angle(w['sparse'], w['pix'], nest=True)
    h = hpg.angle_to_pixel(nside, ra, dec, nest=False)
    some = np.unique(h)
    rng = d.sub_rng()
    many = d.choose(3) == 1
    hp = sorted(rng.choice(some, min(some.size, 2 + d.choose(4)) if many else 1, replace=False).tolist())
    border = 0.0 if many else d.pick((0.0, 0.5, 1.5, 0.1))
    return dict(nside=nside, hpix=hp if many or d.choose(2) else hp[0], border=border), (nside, hp, border)


def points(d, w):
    """Probe positions: every mapped pixel's centre, offsets inside pixels, outside."""
    rng = d.sub_rng()
    ra, dec = hpg.pixel_to_angle(w['sparse'], w['pix'], nest=True)
    fine = w['sparse'] * 16
    sub = rng.choice(w['pix'], 60) * 256 + rng.randint(0, 256, 60)
    r2, d2 = hpg.pixel_to_angle(fine, sub, nest=True)
    r3, d3 = rng.uniform(0, 360, 30), rng.uniform(-89, 89, 30)
    r3[:20] = (w['ra0'] + rng.uniform(-9, 9, 20)) % 360.0
    d3[:20] = np.clip(w['dec0'] + rng.uniform(-9, 9, 20), -90, 90)
    return np.concatenate([ra, r2, r3]), np.concatenate([dec, d2, d3])


def sep(ra1, dec1, ra2, dec2):
    a1, d1, a2, d2 = [np.radians(x) for x in (ra1, dec1, ra2, dec2)]
    h = np.sin((d1 - d2) / 2) ** 2 + np.cos(d1) * np.cos(d2) * np.sin((a1 - a2) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(h, 0, 1))))


def inside(reg, ra, dec):
    if reg is None:
        return np.ones(ra.size, dtype=bool)
    nside, hp, border = reg
    ok = np.isin(hpg.angle_to_pixel(nside, ra, dec, nest=False), hp)
    if border > 0:
        # (positions of the pixel's outline stand for its border)
        br, bd = [], []
        step = 16
        sub = hpg.ring_to_nest(nside, hp[0]) * step * step + np.arange(step * step)
        br, bd = hpg.pixel_to_angle(nside * step, sub, nest=True)
        for r, c in zip(br, bd):
            ok |= sep(ra, dec, r, c) < border
    return ok


def job(fn, w, got, name, probe, vlimfile=None, late=0.0):
    def run():
        from redmapper import Configuration
        from redmapper.volumelimit import VolumeLimitMask
        if late:
            time.sleep(late)
        c = Configuration(fn)
        m = VolumeLimitMask(c, w['lstar'], vlimfile=vlimfile, use_geometry=w['geometry'])
        z, f = m.calc_zmax(probe[0], probe[1], get_fracgood=True)
        with quiet():
            z2 = m.calc_zmax(probe[0], probe[1])
            got[name] = (np.array(z), np.array(f), np.array(z2), m.vlimfile)
    return run


def wanted(exp, w, probe):
    px = hpg.angle_to_pixel(w['sparse'], probe[0], probe[1], nest=True)
    z = np.array([exp.get(p, (0.0, 0.0))[1] for p in px.tolist()])
    f = np.array([exp.get(p, (0.0, 0.0))[0] for p in px.tolist()])
    return z, f


def check_limits(res, exp, w, probe, reg, what):
    z, f, z2, fn = res
    wz, wf = wanted(exp, w, probe)
    ins = inside(reg, probe[0], probe[1])
    ok = (np.abs(z - wz) < 0.0015) | ~ins
    # a pixel at the edge of being dropped may be there or not
    check(ok.all(), 'limits', '%s: limit at %s is %s instead of %s' % (what, list(zip(probe[0][~ok][:3], probe[1][~ok][:3])), z[~ok][:3], wz[~ok][:3]))
    g = np.where(z > 0, f, 0.0)
    ok = (np.abs(g - np.where(wz > 0, wf, 0.0)) < 1e-5) | ~ins
    check(ok.all(), 'coverage', '%s: coverage fraction %s instead of %s' % (what, g[~ok][:3], wf[~ok][:3]))
    check(np.array_equal(z, z2), 'limits', '%s: limits depend on whether the coverage is asked for' % what)


def contents(fn):
    m = healsparse.HealSparseMap.read(fn)
    p = np.sort(m.valid_pixels)
    v = m.get_values_pix(p)
    return p, np.asarray(v['zmax']), np.asarray(v['fracgood'])


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def world(env):
    d = env.d
    w = lay(d, os.path.join(env.root, 'in'))
    w['galfile'] = minicfg.galtable(os.path.join(env.root, 'in'), nside=8, pix=(7, 9), ngals=3)
    exp = expect(w)
    probe = points(d, w)
    # a single undisturbed job
    root = env.subroot('ref')
    s0 = env.dry(root)
    got = {}
    p = s0.spawn('ref', job(conf(w, os.path.join(root, 'c.yml'), root), w, got, 'ref', probe))
    s0.run()
    if not exp:
        # nothing in the survey is deep enough
        return None
    must_finish([p], 'undisturbed job')
    check_limits(got['ref'], exp, w, probe, None, 'undisturbed job')
    ref = contents(got['ref'][3])
    return w, exp, probe, ref, dict(s0.counters)


def jobs(env):
    """Several jobs need the mask at about the same time; some see part of the sky; kills, write errors, stalls."""
    d = env.d
    x = world(env)
    if x is None:
        return
    w, exp, probe, ref, counters = x
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    name = d.pick((None, None, os.path.join(out, 'given_vlim.fit'), os.path.join(out, 'a.hs')))
    faults = d.choose(3) != 1
    path = []

    def mon(s, p, kind, pth):
        if kind in ('publish', 'publish2', 'rename', 'unlink', 'fwrite', 'write'):
            with quiet():
                for f in os.listdir(out):
                    if f.startswith('.') or not ('vlim' in f or f == 'a.hs'):
                        continue
                    try:
                        c = contents(os.path.join(out, f))
                    except Exception:
                        continue
                    check(same(c, ref), 'partial', 'the mask file can be read while it differs from the complete mask')
    for rnd in range(1 + d.choose(3)):
        sim = env.sim()
        if d.choose(2):
            sim.monitors.append(mon)
        ps, got, regs = [], {}, {}
        n = 1 + d.choose(5)
        if faults and d.choose(4):
            for k in range(1 + d.choose(2)):
                sim.arm(env.plan(counters, ('crash', 'crash', 'enospc', 'eio', 'eio_r', 'stall'), classes=('pub', 'w', 'any', 'fop', 'ren')))
        had = [f for f in os.listdir(out) if not f.startswith('.') and not f.endswith('.yml')]
        before = dict((f, open(os.path.join(out, f), 'rb').read()) for f in had)
        if path and had and os.path.exists(path[0]) and d.choose(3) == 1:
            # the depth map is replaced by a newer one: the existing mask stays
            y = w['y']
            depth(d, y['depthfile'], w['ncov'], w['sparse'], w['pix'])
            os.utime(y['depthfile'], (4e9, 4e9))
        for k in range(n):
            kw, reg = region(d, w)
            nm = 'j%d_%d' % (rnd, k)
            regs[nm] = reg
            fn = conf(w, os.path.join(env.root, 'cfg', nm + '.yml'), out, **kw)
            ps.append(sim.spawn(nm, job(fn, w, got, nm, probe, vlimfile=name, late=d.pick((0.0, 0.0, 0.01, 0.3)))))
        sim.run()
        for p in ps:
            if p.ok:
                reg = regs[p.name]
                check_limits(got[p.name], exp, w, probe, reg, 'job %s' % p.name)
                wz = got[p.name][0]
                path.append(got[p.name][3])
            elif p.exc is not None and not sim.fault_hits:
                if regs[p.name] is not None and 'None of the specified pixels' in str(p.exc):
                    # nothing of the map in this region
                    nz = wanted(exp, w, probe)[0]
                    check(not (nz[inside((regs[p.name][0], regs[p.name][1], 0.0), *probe)] > 0).any(), 'error', 'region with coverage refused: %s' % tb(p.exc))
                else:
                    fail('error', 'job raised although nothing failed: %s' % tb(p.exc))
        for f, b in before.items():
            check(open(os.path.join(out, f), 'rb').read() == b, 'altered', 'existing mask %s was altered' % f)
        check(len(set(path)) <= 1, 'name', 'jobs used different mask files %s' % sorted(set(path)))
        if path:
            check(os.path.exists(path[0]), 'missing', 'mask file is not there after a job used it')
            check(same(contents(path[0]), ref), 'content', 'mask file differs from the one a single undisturbed job builds')
    sim = env.sim()
    got = {}
    fn = conf(w, os.path.join(env.root, 'cfg', 'last.yml'), out)
    p = sim.spawn('last', job(fn, w, got, 'last', probe, vlimfile=name))
    sim.run()
    must_finish([p], 'job after the disturbed ones')
    check_limits(got['last'], exp, w, probe, None, 'job after the disturbed ones')
    check(same(contents(got['last'][3]), ref), 'content', 'mask file differs from the one a single undisturbed job builds')
    env.key = ('jobs', w['ncov'], w['sparse'], w['geometry'], len(w['extra']), sim.log_hash())


def limits(env):
    """Masks for different luminosities side by side: every job gets the one it asked for."""
    d = env.d
    w = lay(d, os.path.join(env.root, 'in'))
    w['galfile'] = minicfg.galtable(os.path.join(env.root, 'in'), nside=8, pix=(7, 9), ngals=3)
    w['geometry'] = False
    w['y'].update(maskfile=None, mask_mode=0)
    probe = points(d, w)
    out = os.path.join(env.root, 'out')
    os.makedirs(out)
    rng = d.sub_rng()
    ls = rng.choice([0.2, 0.4, 0.5, 0.7, 1.0, 1.3, 5.0], 2 + d.choose(2), replace=False).tolist()
    ws = [dict(w, lstar=x) for x in ls]
    exps = [expect(x) for x in ws]
    fn = conf(w, os.path.join(env.root, 'cfg', 'c.yml'), out)
    for rnd in range(1 + d.choose(2)):
        sim = env.sim()
        got, ps = {}, []
        if d.choose(3) == 1:
            sim.arm(env.plan({'any': 60, 'w': 20, 'pub': 4, 'fop': 12, 'ren': 2}, ('crash', 'enospc', 'eio', 'stall'), classes=('pub', 'w', 'any', 'fop', 'ren')))
        for k in range(2 + d.choose(4)):
            i = k % len(ls)
            if exps[i]:
                ps.append((i, sim.spawn('j%d_%d' % (rnd, k), job(fn, ws[i], got, 'j%d_%d' % (rnd, k), probe, late=d.pick((0.0, 0.0, 0.01, 0.3))))))
        sim.run()
        files = {}
        for i, p in ps:
            if p.ok:
                check_limits(got[p.name], exps[i], ws[i], probe, None, 'job for %.1f L*' % ls[i])
                files.setdefault(got[p.name][3], set()).add(i)
            elif p.exc is not None:
                check(sim.fault_hits, 'error', 'job raised although nothing failed: %s' % tb(p.exc))
        for f, i in files.items():
            check(len(i) == 1, 'name', 'jobs for %s L* share the mask file %s' % ([ls[x] for x in sorted(i)], os.path.basename(f)))
    env.key = ('limits', len(ls), sim.log_hash())


SCENARIOS = {'limits': (limits, (120, 3000)), 'jobs': (jobs, (400, 12000))}
LEVEL_NOTE = 'Seeded search over depth maps, limits, sky restrictions, job counts, start times, schedules, kills, stalls and I/O errors with the real mask code; limits compared pixel by pixel with an independent calculation. Sampled.'
