"""P02: parallel galaxy ingest stores every accepted galaxy exactly once."""
import glob
import os

import numpy as np
import fitsio
import hpgeom as hpg

from ..common import check, fail, must_finish, tb, current_proc, Job, CTX, rows_equal
from .. import galgen, seams
from ..seams import _o, x_exists

REAL = ['redmapper.galaxy.GalaxyCatalogMaker', 'redmapper.utilities.make_lockfile', 'redmapper.mask.HPMask', 'CFITSIO table create/append']
STUBS = ['clock and sleep (virtual)', 'temporary names, process ids (seeded)']


BASES = ('cat', 'my_cat_v6.3.1', 'x_0000001', 'survey_year_three_gold_catalog_version_2_2_1_with_photometric_corrections')


def prepare(ctx):
    f = ctx.shared + '/mask.hs'
    ctx.data['keep'] = galgen.make_mask(f)
    ctx.data['maskfile'] = f
    ctx.data['masknside'] = 64


def gen_batches(d, nw, maxb=3, dup=False, truth=False, zspec=False):
    rng = d.sub_rng()
    ncent = 1 + d.choose(4)
    nextid = 1
    out = []
    spread = d.pick((1.0, 4.0, 0.05))
    wrap = d.choose(6, 0.7) == 5
    for w in range(nw):
        bs = []
        for b in range(1 + d.choose(maxb)):
            n = d.pick((3, 1, 12, 40, 0))
            ids = np.arange(nextid, nextid + n) * 1000003 % 99999999977
            if wrap and n:
                # ids that agree in their lower 32 bits
                ids = 5 + np.arange(nextid, nextid + n) * (1 << 32)
            nextid += n
            bs.append(galgen.make_gals(rng, n, ids, ncent=ncent, spread=spread, truth=truth, zspec=zspec))
        out.append(bs)
    return out


def read_pixels(outpath, base):
    res = {}
    for f in sorted(glob.glob('%s/%s_*.fit' % (outpath, base))):
        b = os.path.basename(f)
        if b.endswith('_master_table.fit'):
            continue
        try:
            pix = int(b[len(base) + 1:-4])
        except ValueError:
            fail('stray-file', 'unexpected file %s' % b)
        try:
            res[pix] = fitsio.read(f, ext=1, lower=True)
        except Exception as e:
            res[pix] = e
    return res


def verify(outpath, base, nside, batches, allowed_missing=(), maybe=(), skip_pix=(), what='', masked=False):
    """batches: list of arrays from completed appends; maybe: from failed appends."""
    must = np.concatenate(batches) if batches else None
    may = np.concatenate(list(maybe)) if maybe else None
    if masked:
        keep, mn = CTX.data['keep'], CTX.data['masknside']
        if must is not None:
            must = must[galgen.in_mask(keep, mn, must['ra'], must['dec'])]
        if may is not None:
            may = may[galgen.in_mask(keep, mn, may['ra'], may['dec'])]
    pixels = read_pixels(outpath, base)
    allrows = {}
    for src, arr in (('must', must), ('may', may)):
        if arr is None:
            continue
        ip = hpg.angle_to_pixel(nside, arr['ra'], arr['dec'], nest=False)
        for row, pix in zip(arr, ip):
            allrows[(float(row['ra']), float(row['dec']))] = (src, int(pix), row)
    seen = {}
    for pix, data in pixels.items():
        if pix in skip_pix:
            continue
        check(not isinstance(data, Exception), 'unreadable', 'pixel file %d cannot be read: %s' % (pix, data))
        for row in data:
            k = (float(row['ra']), float(row['dec']))
            check(k in allrows, 'foreign-row', 'pixel file %d holds a galaxy (id %d) nobody accepted' % (pix, row['id']))
            src, p0, want = allrows[k]
            i = int(want['id'])
            check(p0 == pix, 'wrong-pixel', 'galaxy %d of pixel %d stored in pixel file %d' % (i, p0, pix))
            check(k not in seen, 'duplicate', 'galaxy %d stored twice' % i)
            seen[k] = 1
            for n in want.dtype.names:
                check(np.array_equal(want[n], row[n]), 'altered', 'galaxy %d column %s stored as %s instead of %s' % (i, n, row[n], want[n]))
    for k, (src, pix, row) in allrows.items():
        if src == 'must' and pix not in skip_pix:
            check(k in seen, 'lost', 'galaxy %d (pixel %d) of a completed append is missing %s' % (row['id'], pix, what))


def parallel(env):
    d = env.d
    import redmapper
    nside = d.pick((4, 2, 8, 32, 128))
    nw = 2 + d.choose(4, 0.5)
    masked = d.choose(4, 0.75) == 1
    truth = d.choose(5, 0.8) == 1
    zspec = d.choose(5, 0.8) == 1
    sub = d.pick(('gals', 'a/b/gals', 'run_2024010/gals'))
    genids = d.choose(3, 0.7) == 1
    outpath = env.root + '/' + sub
    base = d.pick(BASES)
    batches = gen_batches(d, nw, truth=truth, zspec=zspec)
    if genids and d.choose(2) == 1:
        # ids are to be replaced, so the input may repeat them
        for bs in batches:
            for b in bs:
                b['id'] = b['id'] % 3
    done = []
    failed = []
    sim = env.sim(step_cap=200000)
    sim.hot = lambda kind, path: path.endswith('.lock') or kind in ('publish', 'publish2', 'openw', 'create')
    kw = {}
    if masked:
        kw = dict(maskfile=CTX.data['maskfile'], mask_mode=3)
    shared_maker = d.choose(2, 0.5)

    def writer(bs):
        def run():
            info = dict(galgen.INFO)
            maker = redmapper.GalaxyCatalogMaker(outpath + '/' + base, info, nside=nside, parallel=True,
                                                 generate_unique_ids=genids, ingest_truth=truth, ingest_zspec=zspec, **kw)
            for b in bs:
                ent = [b, False]
                failed.append(ent)
                bb = b.copy()
                maker.append_galaxies(bb)
                check(np.array_equal(bb, b), 'input-changed', 'append altered the galaxies of the caller')
                ent[1] = True
        return run
    fk = d.pick(('none', 'none', 'stall', 'crash', 'eio', 'enospc'))
    # number of lock/write operations grows with batches and pixels
    if fk == 'crash':
        sim.arm([{'kind': 'crash', 'cls': d.pick(('pub', 'w', 'any', 'pub2')), 'nth': d.choose(60), 'variant': d.choose(2)}])
    elif fk in ('eio', 'enospc'):
        sim.arm([{'kind': fk, 'cls': d.pick(('pub', 'w', 'fop')), 'nth': d.choose(30)}])
    elif fk == 'stall':
        sim.arm([{'kind': 'stall', 'cls': d.pick(('any', 'w', 'pub2')), 'nth': d.choose(60), 'dt': d.pick((5.0, 100.0, 3000.0))} for _ in range(2)])
    procs = [sim.spawn('w%d' % i, writer(bs)) for i, bs in enumerate(batches)]
    sim.run()
    complete = [b for b, ok in failed if ok]
    incomplete = [b for b, ok in failed if not ok]
    disturbed = set()
    for (k, opk, path) in sim.fault_hits:
        if k == 'stall':
            continue
        for part in path.replace(' ', '|').split('|'):
            bn = os.path.basename(part)
            if bn.startswith(base + '_') and bn[len(base) + 1:len(base) + 8].isdigit():
                disturbed.add(int(bn[len(base) + 1:len(base) + 8]))
    locks = set(f for f in os.listdir(outpath) if f.endswith('.lock')) if os.path.isdir(outpath) else set()
    if not any(p.killed or p.exc for p in procs):
        check(not locks, 'lock-left', 'lock files %s left behind by writers that finished' % sorted(locks))
        verify(outpath, base, nside, complete, masked=masked)
        stray = [f for f in os.listdir(outpath) if not (f.startswith(base + '_') and f.endswith('.fit'))]
        check(not stray or fk in ('eio', 'enospc'), 'stray-file', 'files %s left behind' % stray)
        sim.probe('all-finished')
        return
    injected = [h for h in sim.fault_hits if h[0] in ('eio', 'enospc')]
    for p in procs:
        if p.exc is None:
            continue
        if injected and isinstance(p.exc, (OSError, RuntimeError)):
            continue
        if isinstance(p.exc, RuntimeError) and 'lock' in str(p.exc).lower() and (fk in ('crash', 'stall') and sim.fault_hits):
            sim.probe('lock-timeout')
            continue
        fail('error', 'writer %s: %s' % (p.name, tb(p.exc)))
    # A pixel whose append was cut short stays locked, so nobody builds on it.
    for pix in disturbed:
        f = '%s/%s_%07d.fit' % (outpath, base, pix)
        if os.path.exists(f):
            try:
                fitsio.read(f, ext=1)
            except Exception:
                check(os.path.basename(f) + '.lock' in locks, 'torn-unlocked',
                      'pixel file %d is damaged but not locked' % pix)
    if fk == 'crash':
        # a killed job may have had any of its pixel files open
        for pix in list(read_pixels(outpath, base)) if os.path.isdir(outpath) else []:
            if '%s_%07d.fit.lock' % (base, pix) in locks:
                disturbed.add(pix)
    if os.path.isdir(outpath):
        verify(outpath, base, nside, complete, maybe=incomplete, skip_pix=disturbed, masked=masked, what='after %s' % fk)
    else:
        check(not complete, 'lost', 'output directory is missing')


def serial(env):
    d = env.d
    import redmapper
    nside = d.pick((4, 2, 8, 32, 128))
    masked = d.choose(4, 0.75) == 1
    batches = gen_batches(d, 1, maxb=5)[0]
    outpath = env.root + '/ser'
    base = 'cat'
    sim = env.sim(preempt=0.0)
    kw = {}
    if masked:
        kw = dict(maskfile=CTX.data['maskfile'], mask_mode=3)
    done = []

    def writer():
        maker = redmapper.GalaxyCatalogMaker(outpath + '/' + base, dict(galgen.INFO), nside=nside, **kw)
        for b in batches:
            ent = [b, False]
            done.append(ent)
            maker.append_galaxies(b)
            ent[1] = True
    fk = d.pick(('none', 'eio', 'enospc'))
    if fk != 'none':
        sim.arm([{'kind': fk, 'cls': d.pick(('pub', 'w', 'fop')), 'nth': d.choose(20)}])
    p = sim.spawn('w', writer)
    sim.run()
    if p.exc is not None:
        if sim.fault_hits and isinstance(p.exc, OSError):
            return
        fail('error', 'serial writer: %s' % tb(p.exc))
    if sim.fault_hits:
        fail('error-swallowed', 'an injected write error %s was not reported' % (sim.fault_hits,))
    verify(outpath, base, nside, [b for b, ok in done if ok], masked=masked)


SCENARIOS = {'parallel': (parallel, (1500, 40000)), 'serial': (serial, (250, 4000))}

LEVEL_NOTE = 'Seeded search over writers, batch splits, pixelizations, masks, interleavings, stalls, kills and I/O errors of the real GalaxyCatalogMaker; compared row by row with an independent pixel model. Sampled, small catalogs.'
