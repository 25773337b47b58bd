"""Minimal configurations and galaxy tables for workloads that need a Configuration but no real survey."""
import os

import numpy as np
import fitsio
import yaml
import hpgeom as hpg


def galtable(path, nside=32, pix=(7,), has_truth=0, has_zspec=0, mode='SDSS', area=25.5, nmag=5, name='mini_master_table.fit', ngals=1):
    """A galaxy master table (its pixel files need not exist)."""
    n = max(1, len(pix))
    bands = 'ugriz'[:nmag] if nmag == 5 else 'griz'[:nmag]
    dt = [('nside', 'i2'), ('hpix', 'i4', (n,)), ('ra_pix', 'f8', (n,)), ('dec_pix', 'f8', (n,)), ('ngals', 'i4', (n,)),
          ('filenames', 'S24', (n,)), ('lim_ref', 'f4'), ('ref_ind', 'i2'), ('area', 'f8'), ('nmag', 'i4'), ('mode', 'S10'),
          ('b', 'f8', (nmag,)), ('zeropoint', 'f4'), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    dt += [('%s_ind' % b, 'i2') for b in bands]
    t = np.zeros(1, dtype=dt)
    t['nside'] = nside
    t['hpix'][0][:] = list(pix)
    ra, dec = hpg.pixel_to_angle(nside, np.asarray(pix), nest=False)
    t['ra_pix'][0][:] = ra
    t['dec_pix'][0][:] = dec
    t['ngals'][0][:] = ngals
    for i, p in enumerate(pix):
        t['filenames'][0][i] = ('mini_%07d.fit' % p).encode()
    t['lim_ref'] = 22.0
    t['ref_ind'] = bands.index('i')
    t['area'] = area
    t['nmag'] = nmag
    t['mode'] = mode.encode()
    t['b'] = 1e-10
    t['zeropoint'] = 22.5
    t['has_truth'] = has_truth
    t['has_zspec'] = has_zspec
    for i, b in enumerate(bands):
        t['%s_ind' % b] = i
    os.makedirs(path, exist_ok=True)
    fn = os.path.join(path, name)
    fitsio.write(fn, t, header={'PIXELS': 1, 'FITS': 1}, clobber=True)
    return fn


def galfile(path, has_truth=0, has_zspec=0, mode='SDSS', area=25.5, nmag=5, name='mini_galaxies.fit'):
    """A galaxy catalog in one file, that is not pixelized."""
    bands = 'ugriz'[:nmag] if nmag == 5 else 'griz'[:nmag]
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', (nmag,)), ('mag_err', 'f4', (nmag,))]
    dt += [('ztrue', 'f4')] if has_truth else []
    dt += [('zspec', 'f4')] if has_zspec else []
    h = {'PIXELS': 0, 'FITS': 1, 'MODE': mode, 'AREA': area, 'LIM_REF': 22.0, 'NMAG': nmag, 'ZP': 22.5, 'REF_IND': bands.index('i')}
    h.update({'%s_IND' % b.upper(): i for i, b in enumerate(bands)})
    os.makedirs(path, exist_ok=True)
    fn = os.path.join(path, name)
    fitsio.write(fn, np.zeros(3, dtype=dt), header=h, clobber=True)
    return fn


BASE = {'refmag': 'i', 'catfile': None, 'outbase': 'run', 'zrange': [0.1, 0.6], 'mask_mode': 0, 'printlogging': True,
        'consolidate_vlim_lstars': [], 'calib_colormem_zbounds': [0.35], 'calib_colormem_colormodes': [1, 2],
        'calib_colormem_sigint': [0.05, 0.03], 'calib_color_nodesizes': [0.05] * 4, 'calib_slope_nodesizes': [0.1] * 4,
        'calib_color_maxnodes': [-1.0] * 4, 'calib_covmat_maxnodes': [-1.0] * 4,
        'bkgfile': 'none.fit', 'parfile': 'none.fit', 'specfile': 'none.fit', 'maskgalfile': 'none.fit'}


def write(fn, galfile, **kw):
    d = dict(BASE)
    d['galfile'] = galfile
    d.update(kw)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, 'w') as f:
        yaml.dump(d, f)
    return fn
