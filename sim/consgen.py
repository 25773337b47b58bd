"""Synthetic per-pixel cluster catalogs and an independent consolidation oracle."""
import os

import numpy as np
import fitsio
import hpgeom as hpg

CAT_DT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'),
          ('lnlamlike', 'f4'), ('lnlike', 'f4'), ('z_lambda', 'f4'), ('z', 'f4'), ('cg_spec_z', 'f4'), ('z_spec_init', 'f4'),
          ('p_cen', 'f4', (3,)), ('tag', 'i8')]
MEM_DT = [('mem_match_id', 'i4'), ('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('p', 'f4'), ('zspec', 'f4'), ('mag', 'f4', (2,)), ('tag', 'i8')]


def in_pixel(rng, nside, pix, n):
    """n positions inside a ring pixel."""
    m = max(nside * 64, nside * 2)
    base = int(hpg.ring_to_nest(nside, int(pix)))
    sh = 2 * int(round(np.log2(m // nside)))
    sub = (base << sh) + rng.randint(0, 1 << sh, size=n)
    ra, dec = hpg.pixel_to_angle(m, sub, nest=True)
    return np.atleast_1d(ra), np.atleast_1d(dec)


def make_pixel(rng, nside, pix, n, k, like_ties=False, maxmem=5):
    """A pixel catalog: most clusters inside the pixel, some in a neighbour; k numbers the pixel file (for tags)."""
    c = np.zeros(n, dtype=CAT_DT)
    nb = hpg.neighbors(nside, int(pix), nest=False) if hasattr(hpg, 'neighbors') else None
    ra, dec = in_pixel(rng, nside, pix, n)
    out = rng.uniform(size=n) < 0.2
    if nb is not None:
        nb = np.asarray(nb)
        nb = nb[nb >= 0]
        for i in np.where(out)[0]:
            r, d = in_pixel(rng, nside, int(nb[rng.randint(nb.size)]), 1)
            ra[i], dec[i] = r[0], d[0]
    c['ra'], c['dec'] = ra, dec
    c['mem_match_id'] = rng.permutation(3 * n)[:n] + 1
    c['lambda'] = np.where(rng.uniform(size=n) < 0.1, rng.choice([3.0, 5.0, 20.0], size=n), rng.uniform(1.5, 60.0, n))
    c['scaleval'] = rng.uniform(0.7, 2.0, n)
    c['maskfrac'] = np.where(rng.uniform(size=n) < 0.1, 0.2, rng.uniform(0.0, 0.28, n))
    c['lnlamlike'] = rng.uniform(-20, 80, n)
    c['lnlike'] = rng.uniform(-20, 80, n)
    if like_ties and n > 1:
        c['lnlamlike'] = np.round(c['lnlamlike'] / 20.) * 20.
        c['lnlike'] = np.round(c['lnlike'] / 20.) * 20.
    c['z_lambda'] = rng.uniform(0.1, 0.65, n)
    c['z'] = c['z_lambda'] + rng.uniform(-0.05, 0.05, n)
    c['cg_spec_z'] = rng.uniform(0.1, 0.6, n)
    c['z_spec_init'] = rng.uniform(0.1, 0.6, n)
    c['p_cen'] = rng.uniform(size=(n, 3))
    c['tag'] = np.arange(n) + 1000000 * (k + 1)
    nm = rng.randint(1, maxmem + 1, size=n)
    m = np.zeros(int(nm.sum()), dtype=MEM_DT)
    m['mem_match_id'] = np.repeat(c['mem_match_id'], nm)
    m['ra'] = np.repeat(c['ra'], nm) + rng.uniform(-0.05, 0.05, m.size)
    m['dec'] = np.clip(np.repeat(c['dec'], nm) + rng.uniform(-0.05, 0.05, m.size), -89.99, 89.99)
    m['ra'] %= 360.0
    m['id'] = rng.randint(1, 1 << 40, m.size)
    m['p'] = rng.uniform(size=m.size)
    m['zspec'] = rng.uniform(0.1, 0.6, m.size)
    m['mag'] = rng.uniform(15, 22, (m.size, 2))
    m['tag'] = np.arange(m.size) + 1000000 * (k + 1)
    if m.size > 1 and rng.randint(2):
        m = m[rng.permutation(m.size)]
    return c, m


def read(fn):
    a = fitsio.read(fn, ext=1, lower=True)
    return a


def nearest(ra, dec, sra, sdec):
    """Separation (arcsec) and index of the nearest spectrum."""
    if len(ra) == 0:
        return np.zeros(0), np.zeros(0, dtype=int)

    def v(a, b):
        a, b = np.radians(a), np.radians(b)
        return np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)], axis=-1)
    x, y = v(ra, dec), v(sra, sdec)
    d2 = ((x[:, None, :] - y[None, :, :]) ** 2).sum(axis=2)
    j = d2.argmin(axis=1)
    return np.degrees(2 * np.arcsin(np.sqrt(d2[np.arange(len(ra)), j]) / 2)) * 3600., j
