"""Pixelized galaxy catalogs of real test galaxies for the zred workloads."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

from .common import check, fail, CTX, rows_equal, diff_rows, current_proc
from . import survey, minicfg, stubrun

NREF = 160
COLS = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq')


def computing():
    """Let the zred computation itself fail (allocation, numerics) where the fault plan says so."""
    from redmapper.zred_color import ZredColor
    if getattr(ZredColor, '_sim_wrapped', False) or not hasattr(ZredColor, 'compute_zreds'):
        return
    orig = ZredColor.compute_zreds

    def compute_zreds(self, *a, **k):
        p = current_proc()
        if p is not None:
            for f in p.sim.point('compute', '', ('cpu',)):
                if f['kind'] in ('nomem', 'raise'):
                    p.sim.fire(f['kind'], 'compute', '')
                    raise MemoryError('simulated') if f['kind'] == 'nomem' else ValueError('simulated failure in the zred computation')
        return orig(self, *a, **k)
    ZredColor.compute_zreds = compute_zreds
    ZredColor._sim_wrapped = True


def prepare(ctx):
    import redmapper.zred_runner as zr
    from redmapper import GalaxyCatalog, RedSequenceColorPar
    from redmapper.zred_color import ZredColor
    survey.prepare(ctx)
    if not hasattr(zr.RedSequenceColorPar, '_orig'):
        zr.RedSequenceColorPar = survey.cached(zr.RedSequenceColorPar, 'RedSequenceColorPar')
    y = ctx.data['survey']
    dr = os.path.dirname(y['galfile'])
    rng = np.random.RandomState(77)
    parts = []
    for f in sorted(f for f in os.listdir(dr) if f[-11:-4].isdigit())[:4]:
        a = fitsio.read(os.path.join(dr, f), ext=1, lower=True)
        parts.append(a[rng.choice(len(a), 60, replace=False)])
    a = np.concatenate(parts)
    # some galaxies no red sequence can describe: too faint, too bright, absurd colours
    a['refmag'][:6] = 26.5
    a['refmag'][6:10] = 5.0
    a['mag'][10:16, 1] += 6.0
    a['id'] = 1000 + np.arange(len(a))
    ctx.data['pool'] = a
    np.random.seed(5)
    g = GalaxyCatalog(a.copy())
    g.add_zred_fields(NREF)
    ZredColor(RedSequenceColorPar(y['parfile'])).compute_zreds(g)
    ref = {}
    for c in COLS:
        ref[c] = np.array(g._ndarray[c])
    s = np.array(g._ndarray['zred_samp'])
    lo, hi = s.min(axis=1), s.max(axis=1)
    ref['lo'], ref['hi'] = lo - (hi - lo) - 1e-6, hi + (hi - lo) + 1e-6
    ctx.data['zref'] = ref


def fresh(d, n):
    """n galaxies from the pool (with repetition, own ids): rows, pool index."""
    rng = d.sub_rng()
    i = rng.randint(0, len(CTX.data['pool']), size=n)
    return CTX.data['pool'][i].copy(), i


def lay_pixels(d, path, cfgdir, sizes=(6, 1, 25, 2), many=6, **over):
    """A pixelized catalog; returns the world description."""
    nside = d.pick((16, 8, 32))
    big = d.pick((2, 1, 4))
    npix = 2 + d.choose(many)
    rng = d.sub_rng()
    ra0, dec0 = d.pick(((140.0, 30.0), (2.0, 1.0), (359.9, -45.0), (70.0, 88.0)))
    near = hpg.query_circle(nside, ra0, dec0, 500.0 / nside, nest=False)
    pix = np.sort(rng.choice(near, min(npix, near.size), replace=False))
    if d.choose(3) == 1:
        rng.shuffle(pix)
    os.makedirs(path)
    w = dict(nside=nside, big=big, pix=[int(p) for p in pix], rows={}, pool={}, base=d.pick(('gals', 'g_0000012_zreds')))
    fine = nside * 64
    for p in w['pix']:
        g, i = fresh(d, d.pick(sizes))
        nest = hpg.ring_to_nest(nside, p)
        sub = nest * 64 * 64 + rng.randint(0, 64 * 64, size=len(g))
        g['ra'], g['dec'] = hpg.pixel_to_angle(fine, sub, nest=True)
        w['rows'][p], w['pool'][p] = g, i
        fitsio.write(os.path.join(path, 'mini_%07d.fit' % p), g, clobber=True)
    gt = minicfg.galtable(path, nside=nside, pix=w['pix'], ngals=[len(w['rows'][p]) for p in w['pix']])
    w['galfile'] = gt
    ra, dec = hpg.pixel_to_angle(nside, np.array(w['pix']), nest=False)
    w['bigof'] = dict(zip(w['pix'], (int(b) for b in hpg.angle_to_pixel(big, ra, dec, nest=False))))
    w['nsamp'] = d.pick((4, 1, 7))
    return w


def cfg(w, fn, zredfile, **over):
    return survey.config(fn, galfile=w['galfile'], zredfile=zredfile, outpath=os.path.dirname(fn), zred_nsamp=w['nsamp'],
                         **over)


def check_zreds(got, pool, nsamp, what):
    """got: rows read from a zred file; pool: which pool galaxy each row must be."""
    ref = CTX.data['zref']
    check(len(got) == len(pool), 'rows', '%s has %d rows for %d galaxies' % (what, len(got), len(pool)))
    for c in COLS:
        a, b = np.asarray(got[c], dtype='f8'), np.asarray(ref[c][pool], dtype='f8')
        ok = np.isclose(a, b, rtol=2e-5, atol=2e-6, equal_nan=True)
        check(ok.all(), 'values', '%s: %s of row %s is %s instead of %s' % (what, c, np.where(~ok)[0][:3], a[~ok][:3], b[~ok][:3]))
    s = np.asarray(got['zred_samp'])
    s = s.reshape(len(got), -1)
    check(s.shape[1] == nsamp, 'samples', '%s holds %d samples per galaxy instead of %d' % (what, s.shape[1], nsamp))
    out = ((s < ref['lo'][pool][:, None]) | (s > ref['hi'][pool][:, None])).any(axis=1)
    check(out.sum() <= max(2, 0.15 * len(out)), 'samples', '%s: sampled redshifts of %d of %d rows are not those of their galaxies' % (what, out.sum(), len(out)))


def read_zreds(fn):
    return fitsio.read(fn, ext=1, lower=True)


def check_table(zredfile, w, pix, what=''):
    """A published zred table: lists exactly pix, files complete and right."""
    t = fitsio.read(zredfile, ext=1, lower=True, trim_strings=True)
    h = fitsio.read_header(zredfile, ext=1)
    check(len(t) == 1 and h.get('PIXELS') == 1, 'table', 'zred table malformed')
    t = t[0]
    check(np.atleast_1d(t['hpix']).tolist() == w['pix'] and int(t['nside']) == w['nside'], 'table', 'zred table pixels %s instead of %s' % (t['hpix'], w['pix']))
    names = [x.decode() if isinstance(x, bytes) else str(x) for x in np.atleast_1d(t['filenames'])]
    ng = np.atleast_1d(t['ngals'])
    dr = os.path.dirname(zredfile)
    for i, p in enumerate(w['pix']):
        if p in pix:
            check(int(ng[i]) == len(w['rows'][p]), 'table', 'zred table: %d rows for pixel %d which has %d galaxies' % (ng[i], p, len(w['rows'][p])))
            check(names[i].strip().endswith('_zreds_%07d.fit' % p), 'table', 'zred table lists %r for pixel %d' % (names[i], p))
            f = os.path.join(dr, names[i].strip())
            check(os.path.isfile(f), 'table', 'zred table lists %s which does not exist %s' % (names[i], what))
            check_zreds(read_zreds(f), w['pool'][p], w['nsamp'], 'zreds of pixel %d %s' % (p, what))
        else:
            check(names[i].strip() == '' and ng[i] == 0, 'table', 'zred table lists pixel %d which was not requested' % p)
