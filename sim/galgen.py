"""Small synthetic galaxy samples and healsparse masks."""
import os
import numpy as np
import hpgeom as hpg


CENTERS = [(10.0, 0.3), (140.2, 62.5), (359.95, -0.2), (225.0, -41.8), (45.0, 89.5), (180.0, -30.0)]

INFO = {'LIM_REF': 22.5, 'REF_IND': 3, 'AREA': 25.5, 'NMAG': 5, 'MODE': 'SDSS', 'ZP': 22.5,
        'B': np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10]),
        'U_IND': 0, 'G_IND': 1, 'R_IND': 2, 'I_IND': 3, 'Z_IND': 4}


def make_gals(rng, n, ids, nmag=5, ncent=4, spread=3.0, truth=False, zspec=False):
    from redmapper import GalaxyCatalogMaker
    dt = GalaxyCatalogMaker.get_galaxy_dtype(nmag, truth=truth, zspec=zspec)
    g = np.zeros(n, dtype=dt)
    g['id'] = ids
    c = rng.randint(0, ncent, size=n)
    cen = np.array(CENTERS)[c] if n else np.zeros((0, 2))
    dec = np.clip(cen[:, 1] + rng.uniform(-spread, spread, n), -89.99, 89.99)
    ra = (cen[:, 0] + rng.uniform(-spread, spread, n)) % 360.0
    g['ra'] = ra
    g['dec'] = dec
    g['refmag'] = rng.uniform(16, 22, n)
    g['refmag_err'] = rng.uniform(0.01, 0.3, n)
    g['mag'] = rng.uniform(15, 23, (n, nmag))
    g['mag_err'] = rng.uniform(0.01, 0.3, (n, nmag))
    g['ebv'] = rng.uniform(0.0, 0.1, n)
    if truth:
        g['ztrue'] = rng.uniform(0.1, 0.6, n)
        g['m200'] = rng.uniform(1, 2, n)
        g['central'] = rng.randint(0, 2, n)
        g['halo_id'] = rng.randint(0, 100000, n)
    if zspec:
        g['zspec'] = rng.uniform(0.1, 0.6, n)
        g['zspec_err'] = 0.001
    return g


def make_mask(filename, nside=64, nside_cov=8, seed=3, frac=0.6, value=1.0):
    """A healsparse fracgood map keeping a pseudo-random subset of pixels."""
    import healsparse
    rng = np.random.RandomState(seed)
    m = healsparse.HealSparseMap.make_empty(nside_cov, nside, np.float32)
    pix = np.unique(np.concatenate([hpg.query_circle(nside, ra, dec, 9.0, nest=True) for ra, dec in CENTERS]))
    keep = pix[rng.uniform(size=pix.size) < frac]
    m.update_values_pix(keep, np.full(keep.size, value, dtype=np.float32), nest=True)
    m.write(filename, clobber=True)
    return keep


def in_mask(keep, nside, ra, dec):
    return np.isin(hpg.angle_to_pixel(nside, ra, dec, nest=True), keep)
