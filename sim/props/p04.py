"""P04: region reads of a pixelized galaxy catalog."""
import os
import shutil

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, tb, current_proc, CTX
from .. import galgen
from ..seams import _o, x_exists

REAL = ['redmapper.galaxy.GalaxyCatalog.from_galfile', 'redmapper.galaxy.get_subpixel_indices', 'redmapper.randoms.RandomCatalog', 'CFITSIO']
STUBS = ['galaxy and zred files are synthetic, written by the harness', 'clock, temporary names (seeded)']


def prepare(ctx):
    cats = []
    for k, (nside_tab, radius, n, nsbig, cen) in enumerate(((32, 6.0, 2500, 8, (140.0, 30.0)), (64, 1.8, 1500, 16, (359.8, 0.1)),
                                                            (32, 3.0, 300, 32, (45.0, 85.0)))):
        cats.append(build(ctx.shared + '/cat%d' % k, nside_tab, radius, n, nsbig, cen, seed=5 + k, truth=(k == 0)))
    ctx.data['cats'] = cats


def build(path, nside_tab, radius, n, nsbig, cen, seed, truth):
    rng = np.random.RandomState(seed)
    os.makedirs(path + '/zreds')
    r = radius * np.sqrt(rng.uniform(size=n))
    t = rng.uniform(0, 2 * np.pi, n)
    dec = np.clip(cen[1] + r * np.sin(t), -89.9, 89.9)
    ra = (cen[0] + r * np.cos(t) / np.cos(np.radians(np.clip(dec, -88, 88)))) % 360.0
    g = galgen.make_gals(rng, n, rng.permutation(n) + 1, truth=truth, zspec=(seed % 2 == 0))
    g['ra'] = ra
    g['dec'] = dec
    zdt = [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'),
           ('zred_samp', 'f4', (3,)), ('lkhd', 'f4'), ('chisq', 'f4')]
    z = np.zeros(n, dtype=zdt)
    z['zred'] = g['id'] * 1e-4
    z['zred_samp'] = (g['id'][:, None] + np.arange(3)) * 1e-4
    z['chisq'] = rng.uniform(0, 40, n)
    g['refmag'] = np.round(g['refmag'], 1)
    z['chisq'] = np.round(z['chisq'])
    z['lkhd'] = -z['chisq']
    pix = hpg.angle_to_pixel(nside_tab, g['ra'], g['dec'], nest=False)
    hp = np.unique(pix)
    dt = [('nside', 'i2'), ('hpix', 'i4', (hp.size,)), ('ra_pix', 'f8', (hp.size,)), ('dec_pix', 'f8', (hp.size,)),
          ('ngals', 'i4', (hp.size,)), ('filenames', 'S24', (hp.size,)), ('lim_ref', 'f4'), ('ref_ind', 'i2'), ('area', 'f8'),
          ('nmag', 'i4'), ('mode', 'S10'), ('b', 'f8', (5,)), ('zeropoint', 'f4'), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    tab = np.zeros(1, dtype=dt)
    zdtt = [('nside', 'i2'), ('hpix', 'i4', (hp.size,)), ('ra_pix', 'f8', (hp.size,)), ('dec_pix', 'f8', (hp.size,)),
            ('ngals', 'i4', (hp.size,)), ('filenames', 'S24', (hp.size,))]
    ztab = np.zeros(1, dtype=zdtt)
    for t_ in (tab, ztab):
        t_['nside'] = nside_tab
        t_['hpix'] = hp
        a, b = hpg.pixel_to_angle(nside_tab, hp, nest=False)
        t_['ra_pix'] = a
        t_['dec_pix'] = b
    tab['nmag'] = 5
    tab['has_truth'] = int(truth)
    tab['has_zspec'] = int(seed % 2 == 0)
    for i, h in enumerate(hp):
        use = np.where(pix == h)[0]
        tab['ngals'][0][i] = use.size
        ztab['ngals'][0][i] = use.size
        tab['filenames'][0][i] = ('cat_%07d.fit' % h).encode()
        ztab['filenames'][0][i] = ('cat_zreds_%07d.fit' % h).encode()
        fitsio.write(path + '/cat_%07d.fit' % h, g[use])
        fitsio.write(path + '/zreds/cat_zreds_%07d.fit' % h, z[use])
    fitsio.write(path + '/cat_master_table.fit', tab, header={'PIXELS': 1, 'FITS': 1})
    fitsio.write(path + '/zreds/cat_zreds_master_table.fit', ztab, header={'PIXELS': 1, 'FITS': 1})
    return {'path': path, 'nside': nside_tab, 'g': g, 'z': z, 'pix': pix, 'hp': hp, 'nsbig': nsbig, 'truth': truth,
            'vec': hpg.angle_to_vector(g['ra'], g['dec']) if hasattr(hpg, 'angle_to_vector') else None}


def xyz(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


_dcache = {}


def dist_to_pixel(cat, nside, hpix):
    """Angular distance (deg) of every galaxy from the sky pixel."""
    key = (cat['path'], nside, hpix)
    if key not in _dcache:
        lon, lat = hpg.boundaries(nside, hpix, step=128, nest=False, lonlat=True)
        bv = xyz(np.asarray(lon), np.asarray(lat))
        gv = xyz(cat['g']['ra'], cat['g']['dec'])
        dist = np.degrees(np.arccos(np.clip(np.max(gv @ bv.T, axis=1), -1, 1)))
        inside = hpg.angle_to_pixel(nside, cat['g']['ra'], cat['g']['dec'], nest=False) == hpix
        dist[inside] = 0.0
        if len(_dcache) > 200:
            _dcache.clear()
        _dcache[key] = dist
    return _dcache[key]


def regions(env):
    d = env.d
    from redmapper import GalaxyCatalog
    cat = d.pick(CTX.data['cats'])
    root = env.root + '/data'
    shutil.copytree(cat['path'], root)
    galfile = root + '/cat_master_table.fit'
    zredfile = root + '/zreds/cat_zreds_master_table.fit'
    g, z = cat['g'], cat['z']
    sim = env.sim()
    nreq = 1 + d.choose(3)
    reqs = []
    allowed_ns = [n for n in (cat['nside'], cat['nside'] // 2, cat['nside'] // 4, cat['nsbig'], 2) if n >= 1]
    split = d.choose(3) == 1          # the jobs split the sky into disjoint pixels
    if split:
        ns = d.pick(allowed_ns)
        big = np.unique(hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False))
        big = big[:12]
        for h in big:
            reqs.append({'nside': ns, 'hpix': [int(h)], 'border': 0.0, 'zred': d.choose(2) == 1, 'temp': d.choose(2) == 1})
    else:
        for i in range(nreq):
            ns = d.pick(allowed_ns)
            big = np.unique(hpg.angle_to_pixel(ns, g['ra'], g['dec'], nest=False))
            kind = d.choose(4)
            if kind == 0:
                hpix = [int(d.pick(big.tolist()))]
                border = 0.0
            elif kind == 1:
                hpix = [int(d.pick(big.tolist()))]
                border = d.pick((0.3, 0.1, 0.8, 1.5))
                if border > 60.0 / cat['nside']:
                    border = 0.3
            elif kind == 2:
                k = 1 + d.choose(min(4, len(big)))
                o = d.choose(len(big))
                hpix = sorted(set(int(x) for x in np.roll(big, o)[:k]))
                if d.choose(2):
                    hpix = hpix[::-1]
                border = 0.0
            else:
                hpix, ns, border = [], 0, 0.0
            reqs.append({'nside': ns, 'hpix': hpix, 'border': border, 'zred': d.choose(3) > 0, 'temp': d.choose(2) == 1})
    for r in reqs:
        r['refmag'] = [-1000.0, 1000.0]
        r['chisq'] = 1e100
        if r['temp'] and d.choose(3) > 0:
            r['refmag'] = [d.pick((16.0, 18.0, 15.0)), d.pick((21.0, 19.0, 25.0, 16.05))]
            if r['zred']:
                r['chisq'] = d.pick((20.0, 1.0, 1e100, -1.0))
            if d.choose(2):
                # limits that some galaxies sit exactly on
                a, b = sorted(float(g['refmag'][d.choose(len(g))]) for _ in range(2))
                r['refmag'] = [a, b]
                if r['zred'] and d.choose(2):
                    r['chisq'] = float(z['chisq'][d.choose(len(g))])
                    r['refmag'] = [-1000.0, 1000.0]
        r['scalar'] = len(r['hpix']) == 1 and d.choose(3) == 1
        r['truth'] = cat['truth'] and d.choose(3) == 1
    # disturbances
    fk = d.pick(('none', 'none', 'eio_r', 'rows', 'trunc', 'missing', 'zmissing', 'eio_w'))
    damaged = None
    dropped = []
    if fk in ('rows', 'trunc', 'missing', 'zmissing'):
        i = d.choose(len(cat['hp']))
        onz = d.choose(2) == 1 or fk == 'zmissing'
        h = int(cat['hp'][i])
        f = root + ('/zreds/cat_zreds_%07d.fit' if onz else '/cat_%07d.fit') % h
        n0 = int((cat['pix'] == h).sum())
        damaged = (h, onz)
        if fk == 'rows':
            a = fitsio.read(f, ext=1)
            n1 = d.pick((1, n0 - 1, n0 + 1, 2 * n0, 0))
            if n1 == n0:
                n1 = n0 + 1
            a = np.resize(a, n1) if n1 > 0 else a[:0]
            fitsio.write(f, a, clobber=True)
        elif fk == 'trunc':
            raw = open(f, 'rb').read()
            open(f, 'wb').write(raw[:d.choose(max(1, len(raw) - 2880 - 2000))])
        elif fk == 'missing':
            os.unlink(f)
            if onz:
                fk = 'zmissing'
        else:
            os.unlink(f)
    results = {}

    def job(i, r):
        def run():
            kw = dict(nside=r['nside'], hpix=r['hpix'][0] if r['scalar'] else r['hpix'], border=r['border'])
            if r['zred']:
                kw['zredfile'] = zredfile
            if r['truth']:
                kw['truth'] = True
            if r['temp']:
                kw.update(use_tempfile=True, refmag_range=r['refmag'], chisq_max=r['chisq'])
            c = GalaxyCatalog.from_galfile(galfile, **kw)
            results[i] = c._ndarray
        return run
    if fk == 'eio_r':
        sim.arm([{'kind': 'eio_r', 'cls': 'r', 'nth': d.choose(40)}])
    elif fk == 'eio_w':
        sim.arm([{'kind': 'eio', 'cls': d.pick(('w', 'pub', 'fop')), 'nth': d.choose(8)}])
    njobs = 1 + d.choose(3)
    groups = [[] for _ in range(min(njobs, len(reqs)))]
    for i, r in enumerate(reqs):
        groups[i % len(groups)].append((i, r))
    procs = []
    for gi, grp in enumerate(groups):
        for (i, r) in grp:
            procs.append((i, r, sim.spawn('j%d' % i, job(i, r))))
    sim.run()
    hit = [h for h in sim.fault_hits]
    raised = False
    counts = {}
    for (i, r, p) in procs:
        sel = np.ones(len(g), dtype=bool)
        if r['hpix'] and r['border'] == 0.0:
            ip = hpg.angle_to_pixel(r['nside'], g['ra'], g['dec'], nest=False)
            sel = np.isin(ip, r['hpix'])
            need = set(cat['pix'][sel].tolist())
            far = ~sel
            must = sel
        elif r['hpix']:
            dist = dist_to_pixel(cat, r['nside'], r['hpix'][0])
            must = dist <= max(0.0, r['border'] - 0.03)
            far = dist > r['border'] + 0.3
            need = set(cat['pix'][must].tolist())
        else:
            must = sel
            far = ~sel
            need = set(cat['hp'].tolist())
        if p.exc is not None:
            raised = True
            if isinstance(p.exc, Exception) and (hit or (damaged is not None)):
                if damaged is not None and not hit:
                    # only legitimate if the damaged file could be involved
                    if fk == 'zmissing':
                        # allowed only when no zred file is left for the region
                        inreg = set(cat['pix'][~far].tolist())
                        check(r['zred'] and inreg <= {damaged[0]}, 'error', 'read of %s failed: %s' % (r, tb(p.exc)))
                    elif r['border'] == 0.0:
                        check(damaged[0] in need and (r['zred'] or not damaged[1]), 'error',
                              'read of %s failed although its files are intact: %s' % (r, tb(p.exc)))
                continue
            fail('error', 'reading %s: %s' % (r, tb(p.exc)))
        out = results[i]
        names = [n.lower() for n in out.dtype.names]
        ids = out[out.dtype.names[names.index('id')]]
        lookup = {int(x): k for k, x in enumerate(g['id'])}
        idx = np.array([lookup.get(int(x), -1) for x in ids], dtype=int)
        check((idx >= 0).all(), 'foreign', 'read returned galaxies that are not in the catalog (%s)' % r)
        check(len(np.unique(idx)) == len(idx), 'duplicate', 'read %s returned a galaxy twice' % r)
        keep = np.ones(len(g), dtype=bool)
        if r['temp']:
            keep &= (g['refmag'] > np.float32(r['refmag'][0])) & (g['refmag'] < np.float32(r['refmag'][1]))
            if r['zred']:
                keep &= z['chisq'] < r['chisq']
        if fk == 'zmissing' and r['zred']:
            keep &= cat['pix'] != damaged[0]
        if damaged is not None and fk in ('rows', 'trunc', 'missing') and (r['zred'] or not damaged[1]) and damaged[0] in need:
            fail('partial', 'read %s returned although a needed file was damaged (%s %s)' % (r, fk, damaged))
        got = np.zeros(len(g), dtype=bool)
        got[idx] = True
        miss = must & keep & ~got
        check(not miss.any(), 'missing', 'read %s lost %d galaxies of the region' % (r, miss.sum()))
        extra = got & (far | ~keep)
        check(not extra.any(), 'extra', 'read %s returned %d galaxies outside the region or cuts' % (r, extra.sum()))
        for n in g.dtype.names:
            if n in ('ztrue', 'm200', 'central', 'halo_id') and not r['truth']:
                check(n not in names, 'columns', 'truth column %s returned although not requested' % n)
                continue
            check(n in names, 'columns', 'column %s is missing' % n)
            check(np.array_equal(out[out.dtype.names[names.index(n)]], g[n][idx]), 'misaligned', 'column %s of read %s does not match its galaxies' % (n, r))
        for n in z.dtype.names:
            check((n in names) == r['zred'], 'columns', 'zred column %s' % n)
            if r['zred']:
                check(np.array_equal(out[out.dtype.names[names.index(n)]], z[n][idx]), 'misaligned', 'zred column %s of read %s is not on the rows of its galaxies' % (n, r))
        for k in idx:
            counts[k] = counts.get(k, 0) + 1
        if r['border'] > 0:
            sim.probe('border')
        if r['temp']:
            sim.probe('tempfile')
    if split and not raised:
        check(all(v == 1 for v in counts.values()), 'split', 'disjoint jobs saw a galaxy more than once')
    if not raised:
        left = _o['listdir'](env.root + '/tmp')
        check(not left or hit, 'temp-left', 'temporary files %s left behind' % left)
    if hit and fk == 'eio_r' and not raised:
        fail('partial', 'an unreadable file %s did not make any read fail' % (hit,))
    elif hit and fk == 'eio_w' and not raised and not any(h[1] == 'unlink' for h in hit):
        fail('partial', 'a write error %s did not make any read fail' % (hit,))


def single_file(env):
    """A plain (not pixelized) galaxy file with a zred file."""
    d = env.d
    from redmapper import GalaxyCatalog
    cat = d.pick(CTX.data['cats'])
    root = env.root + '/data'
    os.makedirs(root)
    n = d.pick((50, 1, 700))
    g, z = cat['g'][:n], cat['z'][:n]
    fitsio.write(root + '/g.fit', g)
    k = d.pick(('same', 'rows', 'trunc'))
    zz = z
    if k == 'rows':
        zz = np.resize(z, d.pick((n + 1, n * 2, 1 if n > 1 else 2)))
    fitsio.write(root + '/z.fit', zz)
    if k == 'trunc':
        f = root + '/' + d.pick(('g.fit', 'z.fit'))
        raw = open(f, 'rb').read()
        open(f, 'wb').write(raw[:d.choose(max(1, len(raw) - 4900))])
    sim = env.sim(preempt=0.0)
    res = {}

    def run():
        res['c'] = GalaxyCatalog.from_galfile(root + '/g.fit', zredfile=root + '/z.fit')._ndarray
    fault = d.choose(3) == 1
    if fault:
        sim.arm([{'kind': 'eio_r', 'cls': 'r', 'nth': d.choose(4)}])
    p = sim.spawn('j', run)
    sim.run()
    if k != 'same' or sim.fault_hits:
        check(isinstance(p.exc, Exception), 'partial', 'read succeeded although a file was damaged (%s)' % k)
        return
    check(p.exc is None, 'error', tb(p.exc) if p.exc else '')
    c = res['c']
    names = {nn.lower(): nn for nn in c.dtype.names}
    for a in (g, z):
        for nn in a.dtype.names:
            check(nn in names and np.array_equal(c[names[nn]], a[nn]), 'misaligned', 'column %s' % nn)


SCENARIOS = {'regions': (regions, (900, 20000)), 'single_file': (single_file, (80, 1000))}

LEVEL_NOTE = 'Seeded search over generated catalogs, regions, borders, cuts, both read paths, concurrent readers and read/temporary-space faults; compared with an independent brute-force selection. Sampled, small catalogs.'
