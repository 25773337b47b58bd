"""Stand-in for the numerical work of cluster-finder stages.

ClusterRunner.run is replaced: the catalog and members it leaves in the stage
are drawn from a generator seeded with a digest of everything the stage was
given (its class, options, settings, region, cosmology and the content of its
input catalog).  Two stages therefore agree exactly when they were given the
same things, and a wrong setting or input shows up in the output.  __init__,
file names, output() and everything around the stages stay real.
"""
import hashlib
import os
import re

import numpy as np
import fitsio

from .common import quiet, CTX
from .kernel import current_proc
from . import consgen
from .props.p17 import snap

RUNS = []          # (process name, class, nside, hpix, outbase)
EMPTY = {}         # (nside, pixel) -> class name whose run yields nothing
KEEP = set()       # (nside, pixel) that must hold a surviving cluster
READS_CAT = ('RunLikelihoods', 'RunPercolation', 'RunCatalog', 'RunZScan')
IGNORE = ('catfile', 'seedfile', 'randfile', 'calib_run_nproc', 'calib_nproc', 'logpath', 'printlogging', 'calib_run_min_nside', 'hpix', 'nside', 'area')


def clean(v, base):
    if isinstance(v, str):
        return re.sub(re.escape(base) + r'/[^/]*/', '@/', v)
    if isinstance(v, (tuple, list)):
        return tuple(clean(x, base) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, clean(x, base)) for k, x in v.items()))
    return v


def table_digest(fn):
    """Content of a table, not its bytes."""
    if fn is None or not os.path.isfile(fn):
        return 'none'
    a = fitsio.read(fn, ext=1, lower=True)
    h = hashlib.sha256()
    for n in sorted(a.dtype.names):
        h.update(n.encode())
        h.update(np.ascontiguousarray(a[n]).astype(a[n].dtype.newbyteorder('=')).tobytes())
    return h.hexdigest()[:16]


def fake_run(self, *args, **kwargs):
    p = current_proc()
    name = type(self).__name__
    base = CTX.runbase
    p.sim.point('task', 'stage', ('task',))
    with quiet():
        c = self.config
        s = snap(c)
        for k in IGNORE:
            s.pop(k, None)
        s.pop('cluster_dtype')
        s.pop('member_dtype')
        s['d'] = {k: s['d'].get(k) for k in ('hpix', 'nside', 'outbase')}
        cosmo = (c.cosmo.H0(), c.cosmo.omega_l(), c.cosmo.omega_m())
        inp = table_digest(c.catfile) if name in READS_CAT else (clean(c.seedfile, base), table_digest(c.seedfile))
        opts = sorted((k, str(v)) for k, v in kwargs.items() if v)
        if name == 'RunFirstPass':
            opts.append(('specmode', str(bool(self.specmode))))
        if name == 'RunRandomsZmask':
            inp = (clean(c.randfile, base),)
        dig = hashlib.sha256(repr((name, opts, clean(s, base), cosmo, inp, c.runcat_percolation_masking if name == 'RunCatalog' else 0)).encode()).digest()
        rng = np.random.RandomState(int.from_bytes(dig[:4], 'little'))
        nside, hpix = int(c.d.nside), [int(x) for x in c.d.hpix]
        RUNS.append((p.name, name, nside, tuple(hpix), c.d.outbase))
    p.sim.point('task', 'stage', ('task',))
    with quiet():
        self.members = None
        key = (nside, hpix[0])
        if EMPTY.get(key) == name:
            self.cat = None if dig[5] % 2 else consgen_cat(np.zeros(0, dtype=consgen.CAT_DT))
            return
        n = 1 + int(rng.randint(7))
        cat, mem = consgen.make_pixel(rng, nside, hpix[0], n, int(rng.randint(1, 1 << 30)))
        if key in KEEP:
            ra, dec = consgen.in_pixel(rng, nside, hpix[0], 1)
            cat['ra'][0], cat['dec'][0], cat['maskfrac'][0], cat['lambda'][0], cat['scaleval'][0] = ra[0], dec[0], 0.0, 50.0, 1.0
            cat['z_lambda'][0] = 0.11
        self.cat = consgen_cat(cat)
        if name in ('RunPercolation', 'RunCatalog', 'RunZScan'):
            self.members = consgen_cat(mem)
    p.sim.point('task', 'stage', ('task',))


def consgen_cat(a):
    from redmapper import Catalog
    return Catalog(a)


def install():
    import redmapper.cluster_runner as cr
    for cls in [cr.ClusterRunner] + all_sub(cr.ClusterRunner):
        if 'run' in vars(cls):
            cls.run = fake_run


def all_sub(c):
    out = []
    for s in c.__subclasses__():
        out.append(s)
        out += all_sub(s)
    return out


def reset():
    del RUNS[:]
    SALT[0] = 0
    EMPTY.clear()
    KEEP.clear()


# ---- switching between the stand-in and the real numerical work -------------
MODE = ['stub']
SALT = [0]        # another set of draws


def install_switch():
    """Every run() of a stage: the stand-in, or the real one with pinned random draws."""
    import redmapper.cluster_runner as cr
    for cls in [cr.ClusterRunner] + all_sub(cr.ClusterRunner):
        if 'run' in vars(cls) and not getattr(vars(cls)['run'], '_switch', False):
            cls.run = _switch(cls.run)


def _switch(orig):
    def run(self, *args, **kwargs):
        if MODE[0] == 'stub':
            return fake_run(self, *args, **kwargs)
        # the same draws for the same stage and region
        hp = [int(x) for x in self.config.d.hpix]
        np.random.seed((sum(map(ord, type(self).__name__)) * 7919 + sum(hp) * 31 + len(hp) + SALT[0]) % (1 << 31))
        if current_proc() is not None:
            RUNS.append((current_proc().name, type(self).__name__, int(self.config.d.nside), tuple(hp), self.config.d.outbase))
        return orig(self, *args, **kwargs)
    run._switch = True
    return run
